// C26: the parser builds the document the HTML Standard prescribes for every sequence of tags
#include "mc.hpp"
#include "html_tree_lib.hpp"
using namespace std;
static u32string dec(string const& s)
{
	u32string o;
	for (size_t i = 0; i < s.size();)
	{
		unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; char32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
		for (int k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 63); o += v; i += n;
	}
	return o;
}
static string check_as(string const& c, bool strict)
{
	u32string in = dec(c);
	htmlref::builder b(in); b.run(); string want; htmlref::dump(b.doc, want);
	mc::state(); mc::transition(b.steps); mc::outcome(want);
	auto t = wordring::html::make_document<wordring::html::u32simple_tree>(in.begin(), in.end());
	string got = htmllib::dump_tree(t);
	if (b.edition) return ""; // </p> or </br> in foreign content: only required not to fail
	if (got != want && b.lx.cdata_seen && !strict)
	{
		htmlref::builder p(in); p.lx.pinned = true; p.run(); want.clear(); htmlref::dump(p.doc, want);
	}
	if (got != want) return "'" + mc::escape(c) + "' builds " + got + " not " + want;
	string mode = b.quirks ? "quirks" : b.limited ? "limited" : "standard";
	if (htmllib::doc_mode(t) != mode) return "'" + mc::escape(c) + "' makes a document in " + htmllib::doc_mode(t) + " mode, not " + mode;
	return "";
}
static string check(string const& c) { return check_as(c, false); }
static string strict(string const& c) { return check_as(c, true); }
static void with(mc::enumerator& e, vector<string> const& heads, vector<string> const& alphabet, int lo, int hi, string const& post = "")
{
	for (auto& h : heads) mc::all_strings(e, alphabet, lo, hi, h, post);
}
static string z(1, '\0');
static vector<string> const names = { "a", "abbr", "address", "annotation-xml", "applet", "area", "article", "aside", "b", "base", "basefont", "bgsound", "big", "blockquote", "body", "br", "button", "caption", "center", "code", "col", "colgroup", "dd", "desc", "details", "dialog", "dir", "div", "dl", "dt", "em", "embed", "fieldset", "figcaption", "figure", "font", "footer", "foreignobject", "form", "frame", "frameset", "h1", "h2", "h6", "head", "header", "hgroup", "hr", "html", "i", "iframe", "image", "img", "input", "keygen", "li", "link", "listing", "main", "malignmark", "marquee", "math", "menu", "menuitem", "meta", "mglyph", "mi", "mo", "mn", "ms", "mtext", "nav", "nobr", "noembed", "noframes", "noscript", "object", "ol", "optgroup", "option", "p", "param", "plaintext", "pre", "rb", "rp", "rt", "rtc", "ruby", "s", "script", "section", "select", "small", "source", "span", "strike", "strong", "style", "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "title", "tr", "track", "tt", "u", "ul", "var", "wbr", "xmp" };
void mc_register()
{
	auto T = [](int q, int t) { return mc::g_thorough ? t : q; };
	mc::add("every-tag", [=](mc::enumerator& e) {
		// every start and end tag in every insertion mode and kind of content, alone and followed by every other one
		vector<string> tags; for (auto& n : names) { tags.push_back("<" + n + ">"); tags.push_back("</" + n + ">"); }
		vector<string> ctx = { "", "<html>", "<head>", "<head><noscript>", "<head></head>", "<body>", "<table>", "<table><caption>", "<table><colgroup>", "<table><tbody>", "<table><tr>", "<table><tr><td>", "<select>", "<table><tr><td><select>", "<table><select>", "<template>", "<body>x</body>", "<frameset>", "<frameset></frameset>", "<body></body></html>", "<frameset></frameset></html>", "<svg>", "<svg><desc>", "<math>", "<math><mi>", "<math><annotation-xml>", "<math><annotation-xml encoding='text/html'>", "<p>", "<p><b>", "<a>", "<ul><li>", "<dl><dd>", "<button>", "<ruby><rb>", "<form>", "<applet><b>", "<!doctype html><p>", "<div><h1>", "<select><optgroup><option>", "<template><tr>", "<table><tr><td><svg>", "<table>x" };
		for (auto& c : ctx) { for (auto& t : tags) { e(c + t); e(c + t + "x"); e(c + t + " <!--c-->"); } }
		for (auto& c : { "", "<body>", "<table>", "<select>", "<svg>", "<template>" }) for (auto& s : tags) for (auto& t : tags) e(c + s + t + "x");
		if (mc::g_thorough) for (auto& c : ctx) for (auto& s : tags) for (auto& t : tags) e(c + s + t + "x");
	}, check);
	mc::add("formatting", [=](mc::enumerator& e) {
		with(e, { "" }, { "<a>", "<b>", "<i>", "<nobr>", "<p>", "<div>", "</a>", "</b>", "</i>", "</nobr>", "</p>", "</div>", "x", "<button>", "<applet>", "<table>", "<td>" }, 0, T(4, 5));
		with(e, { "" }, { "<b>", "<i>", "<p>", "</b>", "</i>", "</p>", "x", "<a>", "</a>" }, 0, T(6, 7));
		with(e, { "<b><i><u><s><em>", "<a><b><b><b><b>" }, { "<p>", "<div>", "</b>", "</a>", "</p>", "x", "</i>" }, 0, T(5, 6));
		with(e, { "<b><i><span><span><span>", "<b><i><span><u><span>", "<a><b><span><span>" }, { "<p>", "<span>", "<i>", "</b>", "</a>", "</p>", "x" }, 0, T(5, 6));
		with(e, { "<table><a>", "<table><tr><td><b>" }, { "<b>", "<p>", "</b>", "</a>", "<tr>", "<td>", "</table>", "x", "<a>" }, 0, T(4, 5));
	}, check);
	mc::add("adoption-limits", [=](mc::enumerator& e) {
		// the adoption agency gives up after eight outer and three inner rounds: every depth around those limits
		auto rep = [](string const& s, int n) { string r; for (int i = 0; i < n; ++i) r += s; return r; };
		vector<string> heads;
		for (string f : { "b", "a", "nobr" })
			for (string in : { "", "<i>", "<i><u>", "<i><u><s>", "<i><u><s><em>", "<i><u><s><em><tt>", "<span>", "<i><span><u>" })
				for (string blk : { "<div>", "<div><section>", "<p>", "<i><div>", "<div><i>", "<div><span>", "<ul><li>", "<div><b>" })
					for (int n = 0; n <= T(11, 18); ++n) { string h = "<" + f + ">" + in + rep(blk, n); heads.push_back(h + "</" + f + ">"); if (f != "b") heads.push_back(h + "<" + f + ">"); }
		with(e, heads, { "x", "</b>", "</a>", "</div>", "<p>", "</i>" }, 0, T(2, 3));
		for (string f : { "b", "a" }) for (string m : { "<button>", "<object>", "<td>", "<table>", "<select>", "<template>", "<svg>", "<svg><desc>" }) for (int n = 0; n <= 10; ++n) for (int k = 0; k <= 3; ++k)
			with(e, { "<" + f + ">" + rep("<div>", n) + m + rep("<div>", k) + "</" + f + ">" }, { "x", "</" + f + ">", "<p>" }, 0, 2);
	}, check);
	// what is long and deep: every tag repeated up to 200 times in every kind of place, alone, with one other, and alternating
	mc::add("long", [=](mc::enumerator& e) {
		vector<int> ns = { 9, 17, 33, 65, 129, 200 };
		mc::long_strings(e, { "<b>", "<a>", "<p>", "<div>", "<table>", "<tr>", "<td>", "<li>", "<svg>", "<template>", "<select>", "x", "</b>", "</p>", "</div>", "<!--c-->", " " }, "", "", ns);
		mc::long_strings(e, { "<b c=1>", "<i>", "<p>x", "<nobr>", "<applet>", "<h1>", "<dd>", "<button>", "<form>", "<ruby><rt>", "<option>", "<math><mi>" }, "", "</p>y", ns);
		mc::long_strings(e, { "<tr>", "<td>", "<b>", "x", "<tbody>", "<caption>", "</td>" }, "<table>", "</table>y", ns); mc::long_strings(e, { "<g>", "<desc>", "x", "</g>", "<p>" }, "<svg>", "</svg>y", ns); mc::long_strings(e, { "<option>", "<optgroup>", "x" }, "<select>", "</select>y", ns);
		for (int n : { 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 200 }) for (string t : { "b", "a", "div", "p", "span", "ul><li", "table><tr><td", "svg", "svg><desc", "template", "i><b", "object", "math><mi" }) for (int d : { -1, 0, 1 })
		{
			string o, c; string last = t.substr(t.rfind('<') == string::npos ? 0 : t.rfind('<') + 1), first = t.substr(0, t.find('>'));
			for (int i = 0; i < n; ++i) o += "<" + t + ">";
			for (int i = 0; i < n + d; ++i) c += "</" + first + ">";
			e(o + "x" + c + "y"); e("<p>" + o + "x" + c + "</p>y"); string m; for (int i = 0; i < n; ++i) m += "<" + t + ">x</" + first + ">"; e(m + "y"); e("<div>" + m + "</div>y<!--c-->");
		}
		for (int n : { 9, 33, 65, 129, 200 }) for (string el : { "html", "body", "p", "input", "svg" }) { string a, b; for (int i = 0; i < n; ++i) { a += " a" + to_string(i) + "=" + to_string(i); b += " a" + to_string(i + n / 2) + "=z"; } e("<" + el + a + ">"); e("<" + el + a + "><" + el + b + ">x"); }
		for (int n : { 9, 33, 65, 129, 256, 257, 1000, 1024, 1025, 4097 }) { string x(n, 'x'); e(x); e("<!--" + x + "-->"); e("<p>" + x + "<b>" + x); e("<table>" + x + "<tr>" + x); e("<title>" + x + "</title>"); e("<script>" + x + "</script>"); e("<" + x + ">y</" + x + ">z"); e("<p " + x + "=" + x + ">"); e("<!doctype " + x + ">"); e("<pre>" + string(n, '\n') + x); e("<select>" + x); e("<template>" + x); e(string(n, ' ') + "<p>"); e("<table>" + string(n, ' ') + "x"); }
	}, check, 120);
	mc::add("noahs-ark", [=](mc::enumerator& e) {
		with(e, { "<p>" }, { "<b>", "<b c=1>", "<b c=2>", "<b d=1>", "<b c=1 d=2>", "<b d=2 c=1>", "<i>", "<p>x" }, 0, T(5, 6), "<p>y");
		with(e, { "<b><b><b>", "<b c=1><b c=1><b c=1>" }, { "<b>", "<b c=1>", "<b c=2>", "<font>", "</b>", "<p>x", "<object>" }, 0, T(4, 5), "<p>y");
	}, check);
	mc::add("tables", [=](mc::enumerator& e) {
		with(e, { "<table>" }, { "<table>", "</table>", "<tr>", "</tr>", "<td>", "</td>", "<tbody>", "</tbody>", "<caption>", "</caption>", "<col>", "<colgroup>", "</colgroup>", "x", " ", "<b>", "<p>", "<input>", "<input type=hidden>", "<form>", "<select>", "<script>s</script>", "<!--c-->", "<svg>", "<tfoot>", "<th>" }, 0, T(3, 4));
		with(e, { "" }, { "<table>", "</table>", "<tr>", "<td>", "</tr>", "</td>", "x", " ", "<b>", "<p>" }, 0, T(5, 6));
		with(e, { "<!doctype html><p>", "<p>" }, { "<table>", "</table>", "<tr>", "<td>", "x", "</p>", "<th>", "<thead>", "</thead>", "<caption>" }, 0, T(4, 5));
		with(e, { "<table>", "<table><tr>" }, { "x", " ", "\n", z, "<b>", "</b>", "<tr>", "<div>", "</div>", "<a>", "<!--c-->" }, 0, T(4, 5));
	}, check);
	mc::add("selects", [=](mc::enumerator& e) {
		with(e, { "<select>", "<table><tr><td><select>", "" }, { "<select>", "</select>", "<option>", "</option>", "<optgroup>", "</optgroup>", "<table>", "</table>", "<tr>", "<td>", "<input>", "<template>", "</template>", "x", "<b>", "<script>s</script>", "<p>" }, 0, T(4, 5));
	}, check);
	mc::add("blocks", [=](mc::enumerator& e) {
		with(e, { "" }, { "<li>", "</li>", "<dd>", "</dd>", "<dt>", "<ul>", "</ul>", "<dl>", "</dl>", "<p>", "</p>", "<div>", "</div>", "<h1>", "</h2>", "<address>", "x", "<button>", "</button>" }, 0, T(4, 5));
		with(e, { "" }, { "<form>", "</form>", "<p>", "</p>", "<div>", "</div>", "<template>", "</template>", "<table>", "<tr>", "x", "<button>", "<input>" }, 0, T(4, 5));
		with(e, { "<ruby>", "" }, { "<rb>", "<rt>", "<rp>", "<rtc>", "</rt>", "</rtc>", "</ruby>", "<ruby>", "<p>", "x", "<span>", "</span>" }, 0, T(4, 5));
		with(e, { "" }, { "<object>", "</object>", "<marquee>", "</marquee>", "<b>", "</b>", "<p>", "</p>", "x", "<hr>", "<br>", "</br>", "<image>" }, 0, T(4, 5));
		with(e, { "<pre>", "<listing>", "<textarea>", "<p><pre>", "<pre><b>" }, { "\n", "\r", "x", "&#10;", "<b>", "</pre>", "</textarea>", "<!--c-->", " " }, 0, T(4, 5));
	}, check);
	mc::add("skeleton", [=](mc::enumerator& e) {
		with(e, { "" }, { "<!doctype html>", "<html a=1 b=2>", "<html a=3 c=4>", "<head>", "</head>", "<body a=1>", "<body b=2>", "</body>", "</html>", "<title>t</title>", "<meta>", "<noscript>", "</noscript>", "<frameset>", "</frameset>", "<frame>", "<noframes>n</noframes>", "x", " ", "<!--c-->", "</br>", "</p>", "<p>", "<template>", "</template>", "<script>s</script>", "<link>", "<table>" }, 0, T(4, 4));
		with(e, { "", "<body>", "<html><head>" }, { "<frameset>", "</frameset>", "<frame>", "<body>", "</html>", "x", " ", "<!--c-->", "<p>", "<input type=hidden>", z }, 0, T(4, 5));
	}, check);
	mc::add("framesets", [=](mc::enumerator& e) {
		with(e, { "", "<html>" }, { "<b>", "<b c=1>", "<frameset>", "</frameset>", "</html>", " ", "<!--c-->", "<noframes>n</noframes>", "<p>" }, 0, T(5, 7));
	}, check);
	mc::add("foreign", [=](mc::enumerator& e) {
		with(e, { "" }, { "<svg>", "<math>", "<desc>", "<title>", "<mi>", "<mglyph>", "<annotation-xml>", "<annotation-xml encoding=text/HTML>", "<foreignObject>", "<p>", "<b>", "<font>", "<font color=r>", "</svg>", "</math>", "</desc>", "</foreignobject>", "</mi>", "<![CDATA[x]]>", "x", "<svg/>", "<script>", "</script>", "<table>", "<td>" }, 0, T(4, 4));
		with(e, { "<svg>", "<svg><g>" }, { "<\xC3\xA9>", "</\xC3\xA9>", "<linearGradient>", "</lineargradient>", "</LINEARGRADIENT>", "x", "<p>" }, 0, T(4, 5));
		with(e, { "<svg>", "<math><mi>", "<table><tr><td><svg>", "<svg><desc>", "<p><svg>" }, { "<g>", "</g>", "<p>", "</p>", "</br>", "<foreignObject>", "<a>", "</a>", "x", "</svg>", "</table>", "<td>", z, "<!--c-->" }, 0, T(4, 5));
		for (auto& m : { htmlref::builder::svg_tags(), htmlref::builder::svg_attrs(), map<u32string, u32string>{ { U"definitionurl", U"" }, { U"xlink:actuate", U"" }, { U"xlink:arcrole", U"" }, { U"xlink:href", U"" }, { U"xlink:role", U"" }, { U"xlink:show", U"" }, { U"xlink:title", U"" }, { U"xlink:type", U"" }, { U"xml:lang", U"" }, { U"xml:space", U"" }, { U"xml:base", U"" }, { U"xmlns", U"" }, { U"xmlns:xlink", U"" }, { U"xmlns:foo", U"" }, { U"xlink:foo", U"" }, { U"href", U"" } } })
			for (auto& x : m)
			{
				string n(x.first.begin(), x.first.end());
				for (char const* r : { "svg", "math", "svg><desc", "p" })
				{
					e("<" + string(r) + "><" + n + " " + n + "=v>x</" + n + ">y"); e("<" + string(r) + " " + n + "=v " + n + "2=w><g " + n + "=u>");
					// the attribute storage of the next tag
					e("<" + string(r) + "><g " + n + "=v></" + string(r) + "><p href=1 actuate=2 b=3>"); e("<svg><g " + n + "=v a=b><g a=1 b=2></svg><p a=1 b=2>");
				}
			}
	}, check);
	mc::add("templates", [=](mc::enumerator& e) {
		with(e, { "", "<body>" }, { "<template>", "</template>", "<td>", "<tr>", "<col>", "<tbody>", "<caption>", "<p>", "</p>", "<table>", "</table>", "x", "<b>", "</b>", "<form>", "<select>", "<body a=b>", "<html a=b>", "<frameset>", "<!--c-->" }, 0, T(4, 4));
		with(e, { "<template>" }, { "<template>", "</template>", "<td>", "<tr>", "<col>", "<table>", "x", "</tr>", "<div>" }, 0, T(5, 6));
	}, check);
	mc::add("raw-text", [=](mc::enumerator& e) {
		for (char const* n : { "script", "style", "title", "textarea", "xmp", "iframe", "noembed", "noframes", "plaintext", "noscript" })
			for (char const* h : { "", "<p>", "<table>", "<table><tr><td>", "<select>", "<svg>", "<svg><desc>", "<template>", "<head>", "<frameset>", "<head></head>" })
				with(e, { string(h) + "<" + n + ">" }, { "x", "&lt;", "<b>", "<!--", "-->", "</" + string(n) + ">", "\n", z }, 0, T(4, 5));
	}, check);
	mc::add("characters", [=](mc::enumerator& e) {
		vector<string> cps; for (unsigned c = 0; c < 0x30; ++c) cps.push_back(string(1, char(c))); for (char const* s : { "a", "\x7F", "\xC2\x80", "\xC2\xA0", "\xE2\x80\xA8", "\xE3\x80\x80", "\xEF\xBF\xBD", "\xEF\xBB\xBF", "\xF0\x9F\x98\x80" , "&#0;", "&#13;", "&#9;", "&#12;", "&nbsp;", "&#x80;" }) cps.push_back(s);
		for (auto& c : cps) for (char const* f : { "%", "<html>%", "<head>%", "<head><noscript>%", "<head></head>%", "<body>%", "<table>%", "<table>% ", "<table><caption>%", "<table><colgroup>%", "<table><tbody>%", "<table><tr>%x", "<table><tr><td>%", "<select>%", "<template>%", "</body>%", "</body></html>%", "<frameset>%", "<frameset></frameset>%", "<frameset></frameset></html>%", "<svg>%", "<math><mi>%", "<svg><desc>%", "<p>%", "<textarea>%", "<title>%", "<script>%", "<style>%", "<pre>%", "<plaintext>%", "<!--%-->", "<p a='%'>", "<%>", "<a%>", "<body>%<frameset>", "<svg>%</svg><frameset>", "<table><col>%", "<table><tr><td><table>%" })
		{
			string s; for (char const* q = f; *q; ++q) if (*q == '%') s += c; else s += *q;
			e(s); e(s + c); e(s + "<b>");
		}
	}, check);
	mc::add("document-types", [=](mc::enumerator& e) {
		vector<string> pub = { "", "html", "HTML", "-//W3C//DTD HTML 4.01//EN", "-//W3C//DTD XHTML 1.0 Strict//EN", "-//W3C//DTD HTML 4.01 Frameset//EN", "-//W3C//DTD HTML 4.01 Transitional//EN", "-//W3C//DTD XHTML 1.0 Frameset//EN", "-//W3C//DTD XHTML 1.0 Transitional//EN", "-//W3O//DTD W3 HTML Strict 3.0//EN//", "-//W3O//DTD W3 HTML Strict 3.0//EN//x", "-/W3C/DTD HTML 4.0 Transitional/EN", "-/W3C/DTD HTML 4.0 Transitional/ENx", "+//Silmaril//dtd html Pro v0r11 19970101//", "-//AS//DTD HTML 3.0 asWedit + extensions//", "-//AdvaSoft Ltd//DTD HTML 3.0 asWedit + extensions//", "-//IETF//DTD HTML 2.0 Level 1//", "-//IETF//DTD HTML 2.0 Level 2//", "-//IETF//DTD HTML 2.0 Strict Level 1//", "-//IETF//DTD HTML 2.0 Strict Level 2//", "-//IETF//DTD HTML 2.0 Strict//", "-//IETF//DTD HTML 2.0//", "-//IETF//DTD HTML 2.1E//", "-//IETF//DTD HTML 3.0//", "-//IETF//DTD HTML 3.2 Final//", "-//IETF//DTD HTML 3.2//", "-//IETF//DTD HTML 3//", "-//IETF//DTD HTML Level 0//", "-//IETF//DTD HTML Level 1//", "-//IETF//DTD HTML Level 2//", "-//IETF//DTD HTML Level 3//", "-//IETF//DTD HTML Strict Level 0//", "-//IETF//DTD HTML Strict Level 1//", "-//IETF//DTD HTML Strict Level 2//", "-//IETF//DTD HTML Strict Level 3//", "-//IETF//DTD HTML Strict//", "-//IETF//DTD HTML//", "-//Metrius//DTD Metrius Presentational//", "-//Microsoft//DTD Internet Explorer 2.0 HTML Strict//", "-//Microsoft//DTD Internet Explorer 2.0 HTML//", "-//Microsoft//DTD Internet Explorer 2.0 Tables//", "-//Microsoft//DTD Internet Explorer 3.0 HTML Strict//", "-//Microsoft//DTD Internet Explorer 3.0 HTML//", "-//Microsoft//DTD Internet Explorer 3.0 Tables//", "-//Netscape Comm. Corp.//DTD HTML//", "-//Netscape Comm. Corp.//DTD Strict HTML//", "-//O'Reilly and Associates//DTD HTML 2.0//", "-//O'Reilly and Associates//DTD HTML Extended 1.0//", "-//O'Reilly and Associates//DTD HTML Extended Relaxed 1.0//", "-//SQ//DTD HTML 2.0 HoTMetaL + extensions//", "-//SoftQuad Software//DTD HoTMetaL PRO 6.0::19990601::extensions to HTML 4.0//", "-//SoftQuad//DTD HoTMetaL PRO 4.0::19971010::extensions to HTML 4.0//", "-//Spyglass//DTD HTML 2.0 Extended//", "-//Sun Microsystems Corp.//DTD HotJava HTML//", "-//Sun Microsystems Corp.//DTD HotJava Strict HTML//", "-//W3C//DTD HTML 3 1995-03-24//", "-//W3C//DTD HTML 3.2 Draft//", "-//W3C//DTD HTML 3.2 Final//", "-//W3C//DTD HTML 3.2//", "-//W3C//DTD HTML 3.2S Draft//", "-//W3C//DTD HTML 4.0 Frameset//", "-//W3C//DTD HTML 4.0 Transitional//", "-//W3C//DTD HTML Experimental 19960712//", "-//W3C//DTD HTML Experimental 970421//", "-//W3C//DTD W3 HTML//", "-//W3O//DTD W3 HTML 3.0//", "-//WebTechs//DTD Mozilla HTML 2.0//", "-//WebTechs//DTD Mozilla HTML//" };
		vector<string> sys = { "-", "", "x", "about:legacy-compat", "http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd", "HTTP://www.IBM.com/data/dtd/v11/ibmxhtml1-transitional.dtd", "http://www.w3.org/TR/html4/strict.dtd" };
		for (char const* n : { "html", "HTML", "svg", "" }) for (auto& p : pub) for (auto& s : sys) for (int v = 0; v < 4; ++v)
		{
			string q = p; if (v == 1) q += "EN"; if (v == 2) for (auto& c : q) if (c >= 'a' && c <= 'z') c -= 32; if (v == 3) q = q.substr(0, q.size() ? q.size() - 1 : 0);
			string x = s == "-" ? "" : " \"" + s + "\"";
			e("<!DOCTYPE " + string(n) + " PUBLIC \"" + q + "\"" + x + "><p><table>");
			if (p.empty()) e("<!DOCTYPE " + string(n) + (s == "-" ? "" : " SYSTEM" + x) + "><p><table>");
		}
		with(e, { "" }, { "<!doctype html>", "<!doctype>", "<!doctype html x>", "<!doctype html", " ", "<!--c-->", "x", "<p>", "<table>", "<html>", ">" }, 0, T(4, 5));
	}, check);
	mc::add("cdata-place", [=](mc::enumerator& e) { for (auto& h : { "", "<p>", "<svg>", "<math><mi>" }) for (auto& t : { "<![CDATA[x]]>", "<![CDATA[x" }) e(string(h) + t); }, strict);
}
MC_MAIN
