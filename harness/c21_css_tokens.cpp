// C21: CSS tokenisation agrees with CSS Syntax Level 3 on every input
#include "mc.hpp"
#include "css_common.hpp"
#include <wordring/whatwg/infra/unicode.hpp>
using namespace std;
static u32string w(string const& s) { return wordring::whatwg::encoding_cast<u32string>(u8string(s.begin(), s.end())); }
static string seq(vector<cssref::tok> const& v) { string s; for (auto& t : v) s += cssref::show(t) + " "; return s; }
static string check(string const& s)
{
	using namespace csslib;
	u32string in = w(s); mc::state(); mc::transition(in.size() + 1);
	string want = seq(cssref::tokens(in)); mc::outcome(want);
	auto lib = [](vector<syntax_primitive> const& v) { string s; for (auto& t : v) s += cssref::show(token(t)) + " "; return s; };
	string got = lib(normalize_into_token_stream(u32string(in)));
	if (got != want) return "'" + mc::escape(s) + "' is tokenised as " + got + "not " + want;
	// with an error handler and on a constant range, and one token at a time
	u32string pre = cssref::preprocess(in); vector<syntax_primitive> v; size_t errors = 0;
	tokenize(pre.cbegin(), pre.cend(), back_inserter(v), [&](u32string::const_iterator it) { if (it >= pre.cbegin() && it <= pre.cend()) ++errors; });
	if (lib(v) != want) return "'" + mc::escape(s) + "' with an error handler is tokenised as " + lib(v) + "not " + want;
	cssref::lexer x(pre); auto it = pre.begin(); size_t n = 0;
	for (;;)
	{
		auto [jt, t] = consume_token(it, pre.end());
		cssref::tok r = x.next();
		if (cssref::show(token(t)) != cssref::show(r)) return "'" + mc::escape(s) + "' token " + to_string(n) + " is " + cssref::show(token(t)) + " not " + cssref::show(r);
		if (r.k == cssref::EOFT) break;
		if (size_t(jt - pre.begin()) != x.p) return "'" + mc::escape(s) + "' token " + to_string(n) + " consumes up to " + to_string(jt - pre.begin()) + " not " + to_string(x.p);
		it = jt; ++n;
	}
	return "";
}
// ---- bytes to code points
static string bytes(string const& c)   // fallback|bytes
{
	using namespace wordring; mc::state(); mc::transition();
	auto k = c.find('|'); encoding_name fb = static_cast<encoding_name>(stoi(c.substr(0, k))); string s;
	for (size_t i = k + 1; i < c.size(); ++i) if (c[i] == '~') { size_t e = c.find('~', i + 1); s += string(stoul(c.substr(i + 1, e - i - 1)), ' '); i = e; } else s += c[i];
	encoding_name want = encoding_name::UTF_8;
	if (fb != static_cast<encoding_name>(0)) want = fb;
	else
	{
		string h = s.substr(0, 1024);
		if (h.compare(0, 10, "@charset \"") == 0)
		{
			size_t q = h.find('"', 10); bool ascii = true;
			for (size_t i = 10; i < h.size() && i < q; ++i) ascii = ascii && !(h[i] & 0x80);
			if (q != string::npos && ascii && q + 1 < h.size() && h[q + 1] == ';')
			{
				encoding_name n = get_encoding_name(string_view(h).substr(10, q - 10));
				if (n == encoding_name::UTF_16BE || n == encoding_name::UTF_16LE) n = encoding_name::UTF_8;
				if (n != static_cast<encoding_name>(0)) want = n;
			}
		}
	}
	auto got = wordring::wwwc::determine_fallback_encoding(s.begin(), s.end(), fb);
	mc::outcome(to_string(int(want)));
	if (got != want) return mc::escape(c) + ": fallback encoding " + to_string(int(got)) + " not " + to_string(int(want));
	u32string o; wordring::wwwc::decode(s.begin(), s.end(), back_inserter(o), fb);
	namespace wenc = wordring::whatwg::encoding;
	wenc::io_queue<char> q = wenc::to_io_queue_convert(s.begin(), s.end()); wenc::io_queue<char32_t> oq; wenc::decode(q, want, oq);
	u32string ref; wenc::from_io_queue_convert(oq, back_inserter(ref));
	return o == ref ? "" : mc::escape(c) + ": decoded differently from its encoding";
}
void mc_register()
{
	int X = mc::g_thorough ? 2 : 1;
	mc::add("characters", [X](mc::enumerator& e) {
		mc::all_strings(e, { "\"", "'", "\\", "#", "@", "+", "-", ".", "1", "e", "(", ")", "/", "*", "%", "<", "!", ">", "\n", "u", "{", ":", "a", "\xC3\xA9", " ", "\r", "\f" }, 0, 3 + X); }, check);
	mc::add("numbers", [X](mc::enumerator& e) { mc::all_strings(e, mc::chars("+-.12eE%a"), 0, 5 + X); mc::all_strings(e, mc::chars("+-.0e"), 0, 7 + X);
		for (string i : { "", "0", "7", "4294967295", "4294967296", "99999999999", "00000000000001", "123456789012345678901234567890" }) for (string f : { "", ".0", ".5", ".4294967296", ".00000000001", ".123456789012345678901234567890", ".99999999999" }) for (string x : { "", "e0", "e1", "e-1", "E+2", "e10", "e-10", "e00000000003", "e-0", "e300", "e-300", "e99999999999", "e-99999999999" }) for (string sg : { "", "+", "-" }) for (string u : { "", "%", "px", "e", "-a", "--", "\\", " " }) if (!(i.empty() && f.empty())) e(sg + i + f + x + u); }, check);
	mc::add("idents", [X](mc::enumerator& e) { mc::all_strings(e, mc::chars("\\-a1(#@\n_"), 0, 5 + X); mc::all_strings(e, mc::chars("-><!a"), 0, 7 + X); mc::all_strings(e, mc::chars("-\\a\n1"), 0, 6, "@"); mc::all_strings(e, mc::chars("-\\a\n1"), 0, 6, "#"); }, check);
	mc::add("urls", [X](mc::enumerator& e) {
		for (string p : { "url(", "URL(", "uRl( ", "u\\72l(" }) mc::all_strings(e, { "\"", "'", "\\", "(", ")", " ", "\n", "a", "\x01", "\\)" }, 0, 4 + X, p);
		mc::all_strings(e, mc::chars("urlURL("), 0, 5); mc::all_strings(e, { "url", "(", " ", "\t", "\"", "a", ")", "'" }, 0, 6 + X); }, check);
	mc::add("strings", [X](mc::enumerator& e) { mc::all_strings(e, { "\"", "'", "\\", "\n", "a", "1", "\r\n", " " }, 0, 5 + X, "\""); mc::all_strings(e, mc::chars("'\"\\\na"), 0, 6, "'"); }, check);
	mc::add("comments", [X](mc::enumerator& e) { mc::all_strings(e, mc::chars("/*a \\"), 0, 7 + X); mc::all_strings(e, mc::chars("/*a-+1"), 0, 5 + X, "/*"); }, check);
	mc::add("escapes", [X](mc::enumerator& e) { for (string p : { "\\", "\"\\", "#\\", "url(\\", "@\\", "1\\" }) { mc::all_strings(e, { "0", "1", "d", "8", "F", "g", " ", "\n" }, 0, 3 + X, p); mc::all_strings(e, mc::chars("0d1 "), 4, 7 + X, p); }
		for (string h : { "10FFFF", "110000", "D800", "DFFF", "D7FF", "E000", "0", "000000", "00000a", "FFFFFF", "10ffff" }) for (string t : { "", " ", "  ", "\n", "\t", "\r\n", "\f", "0", "g", "x" }) for (string p : { "\\", "a\\", "'\\", "#\\", "url(\\" }) e(p + h + t); }, check);
	mc::add("codepoints", [](mc::enumerator& e) {
		vector<uint32_t> cs; for (uint32_t c = 0; c < 0x180; ++c) cs.push_back(c);
		for (uint32_t c : { 0x7FFu, 0x800u, 0xD7FFu, 0xE000u, 0xFDD0u, 0xFEFFu, 0xFFFDu, 0xFFFFu, 0x10000u, 0x10FFFFu }) cs.push_back(c);
		for (uint32_t c : cs) { string u = wordring::whatwg::encoding_cast<string>(u32string(1, c));
			for (string p : { "", "a", "#", "@", "-", "--", "\\", "\"", "url(", "url(a ", "1", "1e", "+", ".", "/*", "<!-", "'\\", "url(\\" }) for (string q : { "", "a", "1", "(", ")" }) e(p + u + q); } }, check);
	// what is long: every unit repeated up to 300 times in every context, alone, with one other, and alternating
	mc::add("long", [X](mc::enumerator& e) {
		for (string p : { "", "\"", "'", "#", "@", "url(", "url( ", "/*", "\\", "f(", "1", "-", "<!--" }) mc::long_strings(e, { "a", "\\61 ", "1", "-", " ", "\xC3\xA9", "\\\n" }, p);
		mc::long_strings(e, { "0", "9", ".", "e", "+" }); for (string p : { "1.", "1e", "." }) mc::long_strings(e, { "0", "9" }, p, "", { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257 }); mc::long_strings(e, { "0", "1" }, "\\");
		mc::long_strings(e, { "/**/", "/*", "*/", "*", "/", "\n", "{", "}", "(", ")", "a", "'", "\"", "#", "@", "<!--", "-->", "url(", "\\" });
		mc::long_strings(e, { "a", " ", ")", "(", "\\", "\n", "'" }, "url(", ")b"); mc::long_strings(e, { "a", "\n", "\\" }, "'", "'b"); mc::long_strings(e, { "*", "/", "a" }, "/*", "*/b"); }, check);
	mc::add("bytes", [X](mc::enumerator& e) {
		for (string fb : { to_string(0), to_string(int(wordring::encoding_name::Shift_JIS)), to_string(int(wordring::encoding_name::UTF_8)) })
		{
			string f = fb + "|";
			for (string l : { "utf-8", "shift_jis", "SHIFT_JIS", " euc-jp ", "utf-16", "utf-16be", "UTF-16LE", "windows-1252", "", "x", "replacement", "latin1\t", "utf\"-8", "\xC3\xA9", "big5\"" }) for (string t : { "", "\"", "\";", "\" ;", "';", "\";a\x82\xA0", "\"; \"" }) for (string p : { "@charset \"", "@charset '", "@CHARSET \"", " @charset \"", "@charset  \"", "@charset\"" }) e(f + p + l + t);
			for (int n = 990; n < 1030; ++n) { e(f + "@charset \"euc-jp~" + to_string(n) + "~\";a"); e(f + "@charset \"~" + to_string(n) + "~euc-jp\";"); }
			string full = "@charset \"euc-jp\";\xA4\xA2"; for (size_t i = 0; i <= full.size(); ++i) e(f + full.substr(0, i));
			mc::all_strings(e, { "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "a", "\x82\xA0", "@charset \"euc-jp\";" }, 0, 4 + X, f);
		} }, bytes);
}
MC_MAIN
