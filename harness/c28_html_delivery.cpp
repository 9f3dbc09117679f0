// C28: the same document whatever the form of the input; bytes are decoded with the encoding the HTML Standard determines
#include "mc.hpp"
#include "html_tree_lib.hpp"
#include "enc_model.hpp"
#include <wordring/html/simple_parser.hpp>
#include <wordring/whatwg/html/url.hpp>
#include <forward_list>
#include <list>
#include <optional>
using namespace std;
using namespace wordring::html;
using wordring::whatwg::encoding_name;
static map<string, string> labels; static set<string> later;
static void load()
{
	const char* d = getenv("VERIF_DATA"); FILE* f = fopen((string(d ? d : "/verif/data") + "/labels.tsv").c_str(), "r"); if (!f) exit(2);
	char l[200]; while (fgets(l, 200, f)) { string s = l; auto a = s.find('\t'), b = s.find('\t', a + 1); if (s.find("later") != string::npos) later.insert(s.substr(0, a)); else labels[s.substr(0, a)] = s.substr(a + 1, b - a - 1); }
	fclose(f);
}
static bool ws(char32_t c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
static string meaning(u32string s)
{
	while (!s.empty() && ws(s.back())) s.pop_back();
	while (!s.empty() && ws(s.front())) s.erase(0, 1);
	string t; for (auto c : s) { if (c >= 0x80) return ""; t += char(c >= 'A' && c <= 'Z' ? c + 32 : c); }
	if (later.count(t)) return "?";
	auto it = labels.find(t); return it == labels.end() ? "" : it->second;
}
static u32string lower(u32string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
// the encoding a content attribute names
static string extract(u32string const& s)
{
	u32string l = lower(s);
	for (size_t p = 0;;)
	{
		p = l.find(U"charset", p); if (p == u32string::npos) return ""; p += 7;
		while (p < s.size() && ws(s[p])) ++p;
		if (p >= s.size() || s[p] != '=') continue;
		++p; while (p < s.size() && ws(s[p])) ++p;
		if (p >= s.size()) return "";
		if (s[p] == '"' || s[p] == '\'') { size_t q = s.find(s[p], p + 1); return q == u32string::npos ? "" : meaning(s.substr(p + 1, q - p - 1)); }
		size_t q = p; while (q < s.size() && s[q] != ';' && !ws(s[q])) ++q;
		return meaning(s.substr(p, q - p));
	}
}
static u32string decode(string const& enc, string const& b)
{
	auto v = ref::decode(enc, b); u32string o; for (auto c : v) o += c == ref::ERR ? char32_t(0xFFFD) : char32_t(c); return o;
}
struct change { string to; };
// the document for bytes, a transport encoding ("" for none) and its confidence
static string reference(string bytes, string enc, char conf, bool& open, bool& cdata)
{
	if (bytes.substr(0, 3) == "\xEF\xBB\xBF") { enc = "utf-8"; conf = 'c'; bytes = bytes.substr(3); }
	else if (bytes.substr(0, 2) == "\xFE\xFF") { enc = "utf-16be"; conf = 'c'; bytes = bytes.substr(2); }
	else if (bytes.substr(0, 2) == "\xFF\xFE") { enc = "utf-16le"; conf = 'c'; bytes = bytes.substr(2); }
	if (enc.empty()) enc = "utf-8";
	for (;;)
	{
		u32string text = decode(enc, bytes);
		htmlref::builder b(text);
		b.on_meta = [&](htmlref::token& t) {
			if (conf != 't') return;
			auto at = [&](char32_t const* n) -> optional<u32string> { for (auto& a : t.attrs) if (a.first == n) return a.second; return nullopt; };
			string en; if (auto c = at(U"charset")) en = meaning(*c);
			if (en.empty()) if (auto h = at(U"http-equiv")) if (lower(*h) == U"content-type") if (auto c = at(U"content")) en = extract(*c);
			if (en == "?") { open = true; return; }
			if (en.empty()) return;
			if (enc == "utf-16le" || enc == "utf-16be") { conf = 'c'; return; }
			if (en == "utf-16le" || en == "utf-16be") en = "utf-8";
			if (en == "x-user-defined") en = "windows-1252";
			conf = 'c'; if (en == enc) return;
			throw change{ en };
		};
		try { b.run(); } catch (change const& c) { enc = c.to; mc::transition(); continue; }
		if (b.edition) open = true;
		cdata = b.lx.cdata_seen;
		string o; htmlref::dump(b.doc, o); return o;
	}
}
template <typename Tree, typename It> static string lib(It f, It l, string const& enc, char conf)
{
	auto en = enc.empty() ? static_cast<encoding_name>(0) : wordring::whatwg::get_encoding_name(u32string(enc.begin(), enc.end()));
	auto c = conf == 't' ? encoding_confidence_name::tentative : conf == 'c' ? encoding_confidence_name::certain : encoding_confidence_name::irrelevant;
	auto t = make_document<Tree>(f, l, en, c);
	return htmllib::dump_tree(t);
}
// case: encoding|confidence|bytes
static string bytes_case(string const& c)
{
	mc::state(); size_t q = c.find('|'); string enc = c.substr(0, q); char conf = c[q + 1]; string b = c.substr(q + 3);
	bool open = false, cdata = false; string want = reference(b, enc, conf, open, cdata); mc::outcome(want);
	string got;
	try { got = lib<u32simple_tree>(b.begin(), b.end(), enc, conf); } catch (exception const& e) { got = string("an exception: ") + e.what(); }
	if (open) return "";
	if (got != want) return "'" + mc::escape(b) + "' given as " + (enc.empty() ? "(no encoding)" : enc) + " (" + conf + ") builds " + got + " not " + want;
	u8string u(b.begin(), b.end());
	if (lib<u8simple_tree>(u.begin(), u.end(), enc, conf) != want) return "'" + mc::escape(b) + "' as char8_t differs";
	forward_list<char> fl(b.begin(), b.end());
	if (lib<u16simple_tree>(fl.begin(), fl.end(), enc, conf) != want) return "'" + mc::escape(b) + "' from a forward_list differs";
	return "";
}
static u32string dec(string const& s) { return decode("utf-8", s); }
struct feeder : simple_parser_base<feeder, u32simple_tree> {};
// one well-formed text in every form
static string forms_case(string const& b)
{
	mc::state(); u32string s = dec(b);
	htmlref::builder r(s); r.run(); if (r.edition) return "";
	string want; htmlref::dump(r.doc, want); mc::outcome(want);
	string w = "'" + mc::escape(b) + "' ";
	string g;
	auto bad = [&](char const* how) { return w + how + " builds " + g + " not " + want; };
	if ((g = lib<u32simple_tree>(s.begin(), s.end(), "utf-8", 't')) != want) return bad("as code points");
	u16string h; for (char32_t c : s) if (c < 0x10000) h += char16_t(c); else { h += char16_t(0xD7C0 + (c >> 10)); h += char16_t(0xDC00 | (c & 0x3FF)); }
	if ((g = lib<u32simple_tree>(h.begin(), h.end(), "utf-8", 't')) != want) return bad("as UTF-16");
	if ((g = lib<u16simple_tree>(h.begin(), h.end(), "utf-8", 't')) != want) return bad("as UTF-16 into a UTF-16 tree");
	if ((g = lib<u8simple_tree>(s.begin(), s.end(), "utf-8", 't')) != want) return bad("as code points into a UTF-8 tree");
	if ((g = lib<u32simple_tree>(b.begin(), b.end(), "utf-8", 'c')) != want) return bad("as UTF-8");
	if ((g = lib<u8simple_tree>(b.begin(), b.end(), "", 't')) != want) return bad("as UTF-8 into a UTF-8 tree");
	for (int be = 0; be < 2; ++be) for (int bom = 0; bom < 2; ++bom)
	{
		string x; u16string hh = h; if (bom) hh.insert(hh.begin(), char16_t(0xFEFF)); for (char16_t c : hh) { char a = char(c >> 8), z = char(c); if (be) { x += a; x += z; } else { x += z; x += a; } }
		if ((g = lib<u32simple_tree>(x.begin(), x.end(), bom ? "utf-8" : be ? "utf-16be" : "utf-16le", 't')) != want) return bad(be ? bom ? "as UTF-16BE with a mark" : "as UTF-16BE" : bom ? "as UTF-16LE with a mark" : "as UTF-16LE");
	}
	feeder p; for (char32_t c : s) p.push_code_point(c); p.push_eof(); g.clear(); htmllib::dump(p.get_document(), g);
	mc::transition(s.size());
	if (g != want) return bad("pushed one at a time");
	return "";
}
// first|second: a parser cleared and used again
static string reuse_case(string const& c)
{
	mc::state(); size_t q = c.find('|'); string a = c.substr(0, q), b = c.substr(q + 1);
	string want = lib<u32simple_tree>(b.begin(), b.end(), "utf-8", 't'); mc::outcome(want);
	for (int v = 0; v < 2; ++v)
	{
		basic_simple_parser<u32simple_tree, string::const_iterator> p(encoding_confidence_name::tentative, encoding_name::UTF_8);
		p.parse(a.begin(), a.end()); if (v) { auto t = p.get(); (void)t; }
		p.clear(encoding_confidence_name::tentative, encoding_name::UTF_8);
		string const& bb = b; p.parse(bb.begin(), bb.end()); auto t = p.get();
		string got = htmllib::dump_tree(t); mc::transition();
		if (got != want) return "'" + mc::escape(b) + "' parsed after '" + mc::escape(a) + "' and clear() builds " + got + " not " + want;
		string m = htmllib::doc_mode(t); auto f = make_document<u32simple_tree>(b.begin(), b.end()); if (m != htmllib::doc_mode(f)) return "'" + mc::escape(b) + "' parsed after '" + mc::escape(a) + "' and clear() has another mode";
	}
	return "";
}
static string content_case(string const& c)
{
	mc::state(); mc::transition(); u32string s = dec(c); string want = extract(s); if (want == "?") return "";
	mc::outcome(want);
	auto en = wordring::whatwg::html::extract_character_encoding_from_meta_element(s);
	auto w = want.empty() ? static_cast<encoding_name>(0) : wordring::whatwg::get_encoding_name(u32string(want.begin(), want.end()));
	if (en != w) return "content='" + mc::escape(c) + "' names encoding " + to_string(unsigned(en)) + " not '" + want + "'";
	return "";
}
static void with(mc::enumerator& e, vector<string> const& heads, vector<string> const& al, int lo, int hi, string const& post = "") { for (auto& h : heads) mc::all_strings(e, al, lo, hi, h, post); }
void mc_register()
{
	load();
	auto T = [](int q, int t) { return mc::g_thorough ? t : q; };
	static string const nul(1, '\0');
	mc::add("forms", [=](mc::enumerator& e) {
		with(e, { "", "<pre>", "<textarea>", "<p a='" }, { "\r", "\n", "a", "<p>", "\xC3\xA9", "\xF0\x9F\x98\x80" }, 0, T(6, 7));
		with(e, { "", "<!--", "<script>", "<title>", "<table>", "<svg>", "<p>&amp", "<p>&#1" }, { "\r", "\n", "x", "<", "-", "\xEF\xBC\x9C", nul, "&", ";" }, 0, T(4, 5));
		with(e, { "" }, { "\r", "\n", "<b>", "</b>", "<p>", "&not", "in", ";", "\xE3\x81\x82", "\xF0\x9F\x98\x80", "<!doctype html>", "\xC2\xA0" }, 0, T(4, 5));
	}, forms_case);
	vector<string> const meta = { "<meta charset=utf-8>", "<meta charset=windows-1252>", "<meta charset=\" Shift_JIS \">", "<meta charset=bogus>", "<meta charset=utf-16>", "<meta charset=x-user-defined>", "<meta charset=iso-2022-kr>", "<meta charset=koi8-r/>", "<meta charset>",
		"<meta http-equiv=content-type content='text/html; charset=koi8-r'>", "<META CONTENT='charset = \"big5\"' HTTP-EQUIV=Content-Type>", "<meta content='charset=koi8-r'>", "<meta http-equiv=refresh content='charset=koi8-r'>", "<meta http-equiv=content-type content='charset=koi8-r' charset=bogus>", "<meta http-equiv=content-type content='charset=koi8-r' charset=euc-jp>", "<meta http-equiv=content-type content='charset='>", "<meta http-equiv=content-type>", "<meta http-equiv=content-type charset=gbk>" };
	mc::add("declarations", [=](mc::enumerator& e) {
		vector<string> al = meta; for (char const* s : { "<title>", "</title>", "<body>", "<svg>", "<template>", "<select>", "<frameset>", "<!--", "-->", "<noscript>", "<table>", "\xC3\xA9", "\xE9", "\x82\xA0", "<script>", "</script>", "</head>" }) al.push_back(s);
		for (char const* x : { "utf-8", "windows-1252", "", "euc-jp" }) with(e, { string(x) + "|t|" }, al, 0, T(2, 3), "\xC3\xA9\x82\xA0");
		for (char const* x : { "utf-8", "windows-1252", "koi8-r", "" }) for (char const* c : { "|c|", "|i|" }) with(e, { string(x) + c }, al, 0, T(1, 2), "\xC3\xA9\x82\xA0");
		with(e, { "utf-8|t|" }, al, 3, 3, "\xC3\xA9");
		for (char const* x : { "utf-8", "windows-1252", "utf-16le", "utf-16be", "shift_jis", "" }) for (char const* c : { "|t|", "|c|" }) for (char const* m : { "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "\xEF\xBB", "\xFE", "\xFF" }) with(e, { string(x) + c + m }, al, 0, T(1, 2), "\xC3\xA9\x82\xA0");
	}, bytes_case);
	mc::add("utf-16", [=](mc::enumerator& e) {
		for (int be = 0; be < 2; ++be)
		{
			auto wide = [&](string const& s) { string o; for (char32_t c : decode("windows-1252", s)) { if (be) { o += char(c >> 8); o += char(c); } else { o += char(c); o += char(c >> 8); } } return o; };
			vector<string> al; for (auto& m : meta) al.push_back(wide(m)); al.push_back(wide("\xE9")); al.push_back(wide("<p>")); al.push_back("\xD8\xD8"); al.push_back("x");
			for (char const* x : { "utf-8", "utf-16le", "utf-16be", "windows-1252", "" }) for (char const* c : { "|t|", "|c|" }) for (char const* m : { "", "\xFE\xFF", "\xFF\xFE" }) with(e, { string(x) + c + m }, al, 0, T(2, 3));
		}
	}, bytes_case);
	mc::add("every-label", [=](mc::enumerator& e) {
		string hi; for (int i = 0x80; i < 0x100; ++i) hi += char(i);
		for (auto& l : labels) for (char const* x : { "utf-8|t|", "windows-1252|t|", "utf-16le|t|", "utf-8|c|" })
		{
			e(x + string("<meta charset='") + l.first + "'>" + hi); e(x + string("<meta charset=' \t") + l.first + "\n'>\x1B$B$\"\x1B(B"); e(x + string("<meta http-equiv=content-type content='text/html;charset=") + l.first + "'><p>\xA4\xA2\x82\xA0");
			e(x + string("<meta charset=\"") + l.first + "x\">\xE9"); string u = l.first; for (auto& c : u) if (c >= 'a' && c <= 'z') c -= 32; e(x + string("<META CHARSET=") + u + ">\xE9\xE9");
		}
		for (auto& l : labels) { e(l.second + "|t|" + hi + "<p>" + hi); e(l.second + "|c|<meta charset=utf-8>" + hi); e(l.second + "|t|\xEF\xBB\xBF<meta charset=utf-8>" + hi); e(l.second + "|t|"); e(l.second + "|t|a"); }
	}, bytes_case);
	// what is long: every kind of input element at every place around the sizes at which buffers end
	mc::add("long-forms", [=](mc::enumerator& e) {
		vector<int> ns; for (int b : { 16, 32, 64, 128, 256, 512, 1024, 2048, 4096 }) for (int d = -2; d <= 2; ++d) ns.push_back(b + d);
		for (int n : ns) for (char const* f : { "x", "\xC3\xA9", "\n" }) { if (n > 600 && f[0] != 'x') continue; string fill; for (int i = 0; i < n; ++i) fill += f;
			for (char const* t : { "\r", "\r\n", "\xC3\xA9", "\xF0\x9F\x98\x80", "<p>", "&amp;", "&not;", "&lt", "</b>", "<!--c-->", "" }) for (char const* h : { "", "<p a='", "<!--" }) e(h + fill + t + "y"); }
	}, forms_case, 60);
	mc::add("long-declarations", [=](mc::enumerator& e) {
		vector<int> ns = { 8, 16, 32, 64, 100, 128, 256, 512, 700, 900 }; for (int n = 980; n < 1030; n += T(3, 1)) ns.push_back(n); for (int n : { 2000, 2047, 2048, 2049, 4096 }) ns.push_back(n);
		for (int n : ns) for (string f : { " ", "x", "<!--", "<title>", "\xC3\xA9", "<meta name=a>" }) for (size_t m : { 0, 1, 2, 9 })
		{
			string fill = f == "<!--" ? "<!--" + string(n, 'c') + "-->" : f == "<title>" ? "<title>" + string(n, 't') + "</title>" : ""; if (fill.empty()) while (int(fill.size()) < n) fill += f;
			e("utf-8|t|" + fill + meta[m] + "\xC3\xA9\x82\xA0"); e("windows-1252|t|" + fill + meta[m] + "\xC3\xA9\x82\xA0"); e("|t|" + meta[m] + fill + "\xC3\xA9\x82\xA0"); e("windows-1252|c|" + meta[m] + fill + "\xC3\xA9");
		}
	}, bytes_case, 60);
	mc::add("utf-8-errors", [=](mc::enumerator& e) {
		with(e, { "utf-8|t|", "utf-8|t|<p>", "utf-8|t|<!--", "|t|<p a='" }, { "a", "<", ">", "\xC3", "\xA9", "\xE3", "\x81", "\xF0", "\x9F", "\xFF", "\xED", "\xEF", "\xBB", "\xBF", nul }, 0, T(4, 5));
	}, bytes_case);
	mc::add("content", [=](mc::enumerator& e) {
		mc::all_strings(e, { "charset", "CharSet", "=", " ", "\t", "\"", "'", ";", "koi8-r", "x", "utf-8" }, 0, T(6, 7));
		mc::all_strings(e, { "charset", "=", "koi8-r", "\n", "\x0C", "\x0B", "\r", "\xC2\xA0", "\xE2\x84\xAA", ",", "char", "set" }, 0, T(5, 6));
	}, content_case);
	mc::add("reuse", [=](mc::enumerator& e) {
		vector<string> d = { "", "x", "\r", "<!--", "<!doctype html>", "<p>a", "<table>x", "<table><tr><td>", "<select>", "<frameset>", "<template><tr>", "<svg><g a=b>", "<script>x", "<textarea>", "<textarea>\n", "<a><b><i>", "<form>", "<meta charset=koi8-r>\xE9", "<meta charset=utf-8>\xC3\xA9", "\xC3", "<title>", "<p a='", "&am", "&#x4", "<![CDATA[x", "</", "<!doctype html PUBLIC 'x", "<plaintext>", "<head>", "<body></body>", "<html></html>", "<pre>", "<b c=d", "<svg>", "\xEF\xBB\xBF<p>", "<noscript>", "<!doctype", "<ruby><rb>", "<dl><dd>", "<p>x</p>\r", "<script><!--<script>", "<object>", "<button>", "<nobr>", "<math><mi>" , "<table><caption>", "<colgroup>", "<frameset></frameset>", "<applet><b>", "<table>x<form>" };
		for (auto& a : d) for (auto& b : d) e(a + "|" + b);
	}, reuse_case);
}
MC_MAIN
