// C25: HTML tokenisation agrees with the HTML Standard on every input and in every start mode
#include "mc.hpp"
#include "html_tok_lib.hpp"
using namespace std;
using htmlref::mode;
static u32string dec(string const& s)
{
	u32string o;
	for (size_t i = 0; i < s.size();)
	{
		unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; char32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
		for (int k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 63); o += v; i += n;
	}
	return o;
}
// case: <mode letter><last start tag>|text      modes: d data, s data inside svg, h data inside an html element, r RCDATA, w raw text, x script, p plaintext, c CDATA section
static string check_as(string const& c, bool strict)
{
	size_t k = c.find('|'); char mo = c[0]; u32string last = dec(c.substr(1, k - 1)), in = dec(c.substr(k + 1));
	mode m = mo == 'r' ? htmlref::RCDATA : mo == 'w' ? htmlref::RAWTEXT : mo == 'x' ? htmlref::SCRIPT : mo == 'p' ? htmlref::PLAINTEXT : mo == 'c' ? htmlref::CDATA : htmlref::DATA;
	mc::state(); mc::transition(in.size() + 1);
	auto ref = [&](bool pinned, bool& cdata) {
		htmlref::lexer r(htmlref::normalise(in)); r.m = m; r.last_start = last; htmlref::shower sh; r.sink = [&](htmlref::token& t) { sh.add(t); };
		r.foreign = [&] { return mo == 's'; }; r.in_html = [&] { return mo == 'h'; }; r.pinned = pinned; r.run(); cdata = r.cdata_seen; return sh.str();
	};
	bool cdata = false; string want = ref(false, cdata), alt = want; mc::outcome(want);
	if (cdata && !strict) { bool x; alt = ref(true, x); }
	htmllib::lexer t;
	if (mo == 's') t.enter(htmllib::ns_name::SVG, U"svg"); else if (mo == 'h') t.enter(htmllib::ns_name::HTML, U"div");
	for (int round = 0; round < 2; ++round)
	{
		// the second round reuses the tokenizer after clear(), as the parser does when it restarts with another encoding
		t.start(m, last);
		for (char32_t x : in) t.push_code_point(x);
		t.push_eof();
		string got = t.out.str();
		if (got != want && got != alt) return "mode " + c.substr(0, k) + " '" + mc::escape(c.substr(k + 1)) + "'" + (round ? " after clear()" : "") + " gives " + got + "not " + want;
		t.clear(); t.out = htmlref::shower(); t.eofs = 0; t.after_eof = false;
	}
	return "";
}
static string check(string const& c) { return check_as(c, false); }
static string strict(string const& c) { return check_as(c, true); }
static void with(mc::enumerator& e, vector<string> const& heads, vector<string> const& alphabet, int lo, int hi, string const& post = "")
{
	for (auto& h : heads) mc::all_strings(e, alphabet, lo, hi, h, post);
}
static string z(1, '\0');
void mc_register()
{
	auto T = [](int q, int t) { return mc::g_thorough ? t : q; };
	mc::add("markup", [=](mc::enumerator& e) {
		auto a = mc::chars("</!?aA=\"'> &;-"); a.push_back(z);
		with(e, { "d|" }, a, 0, T(5, 6));
		with(e, { "d|<a", "d|<a ", "d|</a " }, mc::chars("aA=\"'> /&<"), 0, T(5, 6));
	}, check);
	mc::add("attributes", [=](mc::enumerator& e) {
		vector<string> a = { "a", "B", "=", "\"", "'", ">", " ", "\t", "/", "<", z, "&amp", "&lt;" };
		with(e, { "d|<p ", "d|<p a", "d|<p a=", "d|<p a=\"", "d|<p a='b' a" }, a, 0, T(4, 5));
		with(e, { "d|<p a=1 ", "d|</p A=1 a=2 " }, { "a", "b", "=1", "=2", "=\"3\"", "='", "'", " ", "/", ">" , "<q"}, 0, T(4, 5));
	}, check);
	mc::add("comments", [=](mc::enumerator& e) {
		auto a = mc::chars("-!><a"); a.push_back(z);
		with(e, { "d|<!--" }, a, 0, T(7, 8)); with(e, { "d|<!--" }, a, 0, T(4, 6), "-->b<!--");
		with(e, { "d|<?", "d|</ ", "d|<!a" }, a, 0, T(4, 5), "");
	}, check);
	mc::add("declarations", [=](mc::enumerator& e) {
		vector<string> a = { "-", "--", "[CDATA[", "[cdata[", "[CDATA", "]", "]]>", ">", "doctype", "DocType ", "doctyp", "a", "<!", "<", " " };
		with(e, { "d|<!", "s|<!", "h|<!" }, a, 0, T(4, 5));
		with(e, { "c|", "s|<![CDATA[" }, { "]", ">", "a", z, "<", "&amp;", "]]>" }, 0, T(5, 6));
	}, check);
	mc::add("doctypes", [=](mc::enumerator& e) {
		vector<string> a = { " ", "a", "B", ">", "\"", "'", "public", "SYSTEM", z, "publi" };
		with(e, { "d|<!DOCTYPE" }, a, 0, T(5, 6));
		with(e, { "d|<!doctype html public", "d|<!doctype html system", "d|<!doctype html public \"x\"", "d|<!doctype html system 'y'", "d|<!DOCTYPE Html PUBLIC \"x\" " }, { " ", "\n", "a", "A", ">", "\"", "'", z, "<p>" }, 0, T(4, 5));
	}, check);
	mc::add("raw-text", [=](mc::enumerator& e) {
		vector<string> a = { "<", "/", "a", "A", "b", ">", " ", "&lt;", z, "</a", "!", "\n" };
		with(e, { "ra|", "wa|", "xa|", "p|", "r|", "w|" }, a, 0, T(5, 6));
		with(e, { "rtitle|", "wstyle|", "xscript|" }, { "</title", "</style", "</script", "</TITLE", "<", "/", ">", " a=b", "x", "</titl", "&amp" }, 0, T(4, 5));
		with(e, { "raa|</", "waa|</", "xaa|</", "xaa|<!--</" }, mc::chars("aAb/> =<"), 0, T(5, 6));
	}, check);
	mc::add("script-escapes", [=](mc::enumerator& e) {
		vector<string> a = { "<!--", "-->", "<script", "</script", "-", ">", "<", "/", "a", " ", "!" };
		with(e, { "xscript|" }, a, 0, T(5, 6));
		with(e, { "xscript|<!--", "xscript|<!--<script>" }, { "-", "--", ">", "<", "/", "script", "SCRIPT", "s", z, " ", "!--" }, 0, T(4, 5));
	}, check);
	mc::add("named-references", [=](mc::enumerator& e) {
		vector<string> follow = { "", ";", "=", "a", "0", " ", "<b", "&", "&amp", "Z", "#" };
		for (auto& x : htmlref::entities())
		{
			string n(x.first.begin(), x.first.end());
			for (auto& f : follow) for (char const* ctx : { "d|&", "r|&", "d|<p a=\"&", "d|<p a='&", "d|<p a=&" }) e(string(ctx) + n + f);
			for (char const* ctx : { "w|&", "x|&", "p|&", "c|&" }) e(string(ctx) + n);
			// every proper prefix of the name, followed by text that does or does not continue it
			for (size_t i = 1; i < n.size(); ++i) for (char const* f : { "", "!", ";", "=x" }) { e("d|&" + n.substr(0, i) + f); e("d|<p a=\"&" + n.substr(0, i) + f + "\">"); }
			e("d|&" + n + "; long tail of ordinary text &amp; more <b>"); e("d|<p a='&" + n + " long tail of ordinary text &amp; more'>t");
		}
	}, check);
	mc::add("numeric-references", [=](mc::enumerator& e) {
		vector<string> ctx = { "d|", "r|", "d|<p a=\"", "d|<p a=" }, follow = { "", ";", ";b", "b", ";;", "&", ";&#65", "=", "\"", "<q>", "g" };
		vector<unsigned long long> v; for (unsigned i = 0; i < 0x180; ++i) v.push_back(i);
		for (unsigned long long b : { 0xD7FFull, 0xD800ull, 0xDFFFull, 0xE000ull, 0xFDCFull, 0xFDD0ull, 0xFDEFull, 0xFDF0ull, 0xFFFDull, 0xFFFEull, 0xFFFFull, 0x10000ull, 0x1FFFEull, 0x10FFFFull, 0x110000ull, 0x110041ull, 0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x100000041ull, 0x1000000000000041ull, 0xFFFFFFFFFFFFFFFFull }) v.push_back(b);
		for (unsigned pl = 1; pl <= 16; ++pl) { v.push_back(pl * 0x10000ull + 0xFFFE); v.push_back(pl * 0x10000ull + 0xFFFF); v.push_back(pl * 0x10000ull); }
		for (auto x : v)
		{
			char h[40], H[40]; snprintf(h, sizeof h, "%llx", x); snprintf(H, sizeof H, "%llX", x);
			for (auto& c : ctx) for (auto& f : follow) { e(c + "&#" + to_string(x) + f); e(c + "&#x" + h + f); }
			for (auto& f : follow) { e("d|&#X" + string(H) + f); e("d|&#00000000000" + to_string(x) + f); e("d|&#x000000000000000000000" + string(h) + f); }
		}
		for (auto& d : { "1", "9", "F", "0" }) for (int n = 1; n <= T(80, 200); ++n) { string s; for (int i = 0; i < n; ++i) s += d; e("d|&#x" + s + ";"); e("d|<p a=&#x" + s + ">"); if (d[0] != 'F') { e("d|&#" + s + ";a"); e("d|&#" + s + "65;a"); } }
		with(e, ctx, { "&", "#", "x", "X", "6", "a", "g", ";", ">" }, 0, T(5, 6));
	}, check);
	// what is long: every unit repeated up to 300 times in every context, alone, with one other, and alternating
	mc::add("long", [=](mc::enumerator& e) {
		vector<int> ns = { 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300 };
		for (char const* h : { "d|", "ra|", "wa|", "xa|", "p|", "s|<![CDATA[" }) mc::long_strings(e, { "a", "<", "&", "&amp;", "&lt", "\xC3\xA9", "</a", "]", "<!--" }, h, "", ns);
		for (char const* h : { "d|<", "d|</", "d|<p ", "d|<p a", "d|<p a=", "d|<p a='", "d|<p a=\"" }) mc::long_strings(e, { "b", "B", "&#65;", "&not", "/", " ", "=", "\xF0\x9F\x98\x80" }, h, "'\">x", ns);
		for (char const* h : { "d|<!--", "d|<!", "d|<?" }) mc::long_strings(e, { "a", "-", "!", "<", "<!--", "\n" }, h, "-->x", ns);
		for (char const* h : { "d|<!doctype", "d|<!doctype ", "d|<!doctype a public '", "d|<!doctype a system \"" }) mc::long_strings(e, { "a", "B", " ", "x y" }, h, "'\">x", ns);
		for (char const* h : { "xscript|", "xscript|<!--", "xscript|<!--<script>" }) mc::long_strings(e, { "-", "<!--", "-->", "<script>", "</script>", "a" }, h, "", ns);
		for (char const* h : { "ra|</", "xa|</", "raaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa|</" }) mc::long_strings(e, { "a", "A", "b" }, h, ">x", ns);
		for (int n : ns) for (char const* q : { "", "=1", "='2'" }) for (int d : { 0, 1, 2 }) // many attributes, with one that repeats the first, the middle or the last one
		{
			string s = "d|<p"; for (int i = 0; i < n; ++i) s += " a" + to_string(i) + q;
			e(s + ">x"); e(s + " A" + to_string(d == 0 ? 0 : d == 1 ? n / 2 : n - 1) + "=9 z>x<q b>"); e(s + "><q c=1 c=2>");
		}
	}, check, 60);
	mc::add("look-ahead", [=](mc::enumerator& e) {
		// constructs that make a streaming tokenizer wait for input it then has to give back
		string t(40, 't');
		vector<string> a = { "&", "&lt", "&notit;", "&NotEqualTilde;", "<!", "<!--", "-->", "<!d", t, "\r", "\n", ">", "<a b='", "'" , "&#65;", "&CounterClockwiseContourIntegral;" };
		with(e, { "d|", "rt|" }, a, 0, T(4, 5));
		for (int n = 0; n < 80; ++n) for (char const* p : { "&", "&lt", "&amp", "&a", "&CounterClockwiseContourIntegral", "<!", "<!doctype", "<!doctype a public", "<p a='&lt", "<p a=&a" }) { e("d|" + string(p) + string(n, 'a')); e("d|" + string(p) + string(n, 'a') + "<b>" ); e("d|" + string(p) + " " + string(n, 'x') + "&lt;>"); }
	}, check);
	mc::add("newlines", [=](mc::enumerator& e) {
		vector<string> a = { "\r", "\n", "a", "<", ">", " ", "\"" , "&" };
		with(e, { "d|", "ra|", "wa|", "xa|", "p|", "d|<p a=\"", "d|<!--", "d|<!doctype a", "c|", "d|<p" }, a, 0, T(5, 6));
	}, check);
	mc::add("code-points", [=](mc::enumerator& e) {
		vector<string> cps; for (unsigned c = 0; c < 0x100; ++c) cps.push_back(c < 0x80 ? string(1, char(c)) : string{ char(0xC0 | c >> 6), char(0x80 | (c & 63)) });
		for (char const* s : { "\xC5\xBF", "\xE2\x84\xAA", "\xE3\x81\x82", "\xEF\xBF\xBD", "\xEF\xBF\xBE", "\xEF\xB7\x90", "\xEF\xBB\xBF", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF" }) cps.push_back(s);
		for (auto& x : cps) for (char const* f : { "d|%", "d|a%b", "d|<%>", "d|<a%b>c", "d|</%>", "d|</a%b>c", "d|<p %b>", "d|<p a%b>", "d|<p a %b>", "d|<p a=%b>c>", "d|<p a= %b>c>", "d|<p a=b%c>d", "d|<p a='b%c'>d", "d|<p a=\"b%c\">d", "d|<p a=\"b\"%c>d", "d|<p a/%c>d", "d|<!%a>b", "d|<!--%-->b", "d|<!--a%b-->c", "d|<!--a-%-->b", "d|<!--a--%-->b", "d|<!--a--!%-->b", "d|<!--<%-->b", "d|<!--<!%-->b", "d|<!--<!-%-->b", "d|<!--<!--%-->b", "d|<!---%-->b", "d|<!doctype%a>", "d|<!doctype %a>", "d|<!doctype a%b>", "d|<!doctype a %b>", "d|<!doctype a public%'b'>", "d|<!doctype a public %'b'>", "d|<!doctype a public 'b%c'>", "d|<!doctype a public \"b%c\">", "d|<!doctype a public 'b'%>", "d|<!doctype a public 'b' %>", "d|<!doctype a system%'b'>", "d|<!doctype a system %'b'>", "d|<!doctype a system 'b%c'>", "d|<!doctype a system \"b%c\">", "d|<!doctype a system 'b'%>", "d|<!doctype a b%c>d", "d|<?a%b>c", "d|&%", "d|&a%", "d|&lt%", "d|&am%", "d|&#%;", "d|&#x%;", "d|&#6%;", "d|&#x6%;", "d|<p a=&lt%>", "d|<p a=&%>", "d|<p a='&lt%'>",
			"ra|%", "ra|<%", "ra|</%", "ra|</a%b>c", "ra|</ab%>", "wa|%", "wa|<%", "wa|</%", "wa|</a%b>c", "wa|</ab%>", "xa|%", "xa|<%", "xa|</%", "xa|</a%b>c", "xa|<!%</a>", "xa|<!-%</a>", "xa|<!--%</a>", "xa|<!--b%</a>", "xa|<!--b-%</a>", "xa|<!--b--%</a>", "xa|<!--<%</a>", "xa|<!--</%</a>", "xa|<!--</a%</a>", "xscript|<!--<s%</script>", "xscript|<!--<script%</script>-->", "xscript|<!--<script>%</script>", "xscript|<!--<script>a-%</script>", "xscript|<!--<script>a--%</script>", "xscript|<!--<script><%</script>", "xscript|<!--<script></%</script>", "xscript|<!--<script></script%</script>", "p|%", "c|%", "c|]%", "c|]]%", "s|<![CDATA[%]]>a" })
		{
			string s; for (char const* q = f; *q; ++q) if (*q == '%') s += x; else s += *q;
			e(s);
		}
	}, check);
	// where CDATA sections are recognised at all; the other spaces accept what the repository's tests pin
	mc::add("cdata-place", [=](mc::enumerator& e) { for (auto& h : { "d|", "h|", "s|" }) for (auto& t : { "<![CDATA[]]>", "<![CDATA[x]]>", "<![CDATA[x" }) e(string(h) + t); }, strict);
}
MC_MAIN
