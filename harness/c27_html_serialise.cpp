// C27: serialising follows the HTML fragment serialisation algorithm, and what it writes parses back to the same document
#include "mc.hpp"
#include "html_tree_lib.hpp"
using namespace std;
using namespace wordring::html;
// ---- the reference, on a neutral tree
struct rattr { string ns, prefix, name; u32string value; };
struct rnode
{
	enum kind { DOC, DOCTYPE, FRAGMENT, ELEM, TEXT, COMMENT, PI } k = DOC;
	string ns, prefix, name; u32string data; vector<rattr> attrs; vector<rnode> kids;
};
static u32string dec(string const& s)
{
	u32string o;
	for (size_t i = 0; i < s.size();)
	{
		unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; char32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
		for (int k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 63); o += v; i += n;
	}
	return o;
}
static string enc(u32string const& s)
{
	string o;
	for (char32_t c : s)
		if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
		else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	return o;
}
template <typename S> static string show(S const& s) { return enc(wordring::whatwg::encoding_cast<u32string>(s)); }
static bool in(string const& s, initializer_list<char const*> l) { for (auto x : l) if (s == x) return true; return false; }
static bool void_elem(rnode const& n)
{
	return n.k == rnode::ELEM && n.ns == "html" && in(n.name, { "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "basefont", "bgsound", "frame", "keygen" });
}
static void esc(u32string const& s, bool attr, u32string& o)
{
	for (char32_t c : s)
		if (c == '&') o += U"&amp;"; else if (c == 0xA0) o += U"&nbsp;"; else if (attr && c == '"') o += U"&quot;";
		else if (!attr && c == '<') o += U"&lt;"; else if (!attr && c == '>') o += U"&gt;"; else o += c;
}
static void ser(rnode const& n, u32string& o)
{
	if (void_elem(n)) return;
	bool raw = n.k == rnode::ELEM && n.ns == "html" && in(n.name, { "style", "script", "xmp", "iframe", "noembed", "noframes", "plaintext" });
	for (auto& c : n.kids) switch (c.k)
	{
	case rnode::ELEM:
	{
		u32string tag = dec(in(c.ns, { "html", "math", "svg" }) || c.prefix.empty() ? c.name : c.prefix + ":" + c.name);
		o += U"<" + tag;
		for (auto& a : c.attrs)
		{
			string q = a.ns.empty() ? a.name : a.ns == "xml" ? "xml:" + a.name : a.ns == "xmlns" ? (a.name == "xmlns" ? "xmlns" : "xmlns:" + a.name) : a.ns == "xlink" ? "xlink:" + a.name : a.prefix.empty() ? a.name : a.prefix + ":" + a.name;
			o += U" " + dec(q) + U"=\""; esc(a.value, true, o); o += U"\"";
		}
		o += U">"; if (void_elem(c)) break;
		ser(c, o); o += U"</" + tag + U">"; break;
	}
	case rnode::TEXT: if (raw) o += c.data; else esc(c.data, false, o); break;
	case rnode::COMMENT: o += U"<!--" + c.data + U"-->"; break;
	case rnode::PI: o += U"<?" + dec(c.name) + U" " + c.data + U">"; break;
	case rnode::DOCTYPE: o += U"<!DOCTYPE " + dec(c.name) + U">"; break;
	default: break;
	}
}
// ---- the library's tree as a neutral tree
template <typename It> static rnode neutral(It it)
{
	rnode r; auto& n = *it;
	if (n.is_document()) r.k = rnode::DOC;
	else if (n.is_document_type()) { r.k = rnode::DOCTYPE; r.name = show(n.name()); }
	else if (n.is_text()) { r.k = rnode::TEXT; r.data = dec(show(n.data())); }
	else if (n.is_comment()) { r.k = rnode::COMMENT; r.data = dec(show(n.data())); }
	else if (n.is_processing_instruction()) { r.k = rnode::PI; r.name = show(n.target()); r.data = dec(show(n.data())); }
	else if (n.is_element())
	{
		r.k = rnode::ELEM; r.ns = htmllib::ns(n.namespace_uri_name()); r.name = show(n.local_name());
		for (auto& a : n) r.attrs.push_back({ htmllib::ns(a.namespace_uri_name()), show(a.prefix()), show(a.local_name()), dec(show(a.value())) });
	}
	else r.k = rnode::FRAGMENT;
	for (auto b = it.begin(), e = it.end(); b != e; ++b) r.kids.push_back(neutral(b));
	return r;
}
// ---- one tree in one string type
template <typename Out, typename It> static string ser_lib(It it)
{
	Out o; to_string(it, back_inserter(o));
	if constexpr (sizeof(typename Out::value_type) == 1) return string(o.begin(), o.end()); else return show(o);
}
template <typename It> static string check_node(It it, rnode const& n, bool deep, char const* what)
{
	u32string w; ser(n, w); string want = enc(w);
	string got = ser_lib<u32string>(it);
	mc::transition();
	if (got != want) return string(what) + " serialises to " + got + " not " + want;
	if (ser_lib<u8string>(it) != want) return string(what) + " as u8string serialises to " + ser_lib<u8string>(it) + " not " + want;
	if (ser_lib<u16string>(it) != want) return string(what) + " as u16string serialises to " + ser_lib<u16string>(it) + " not " + want;
	if (deep) { size_t i = 0; for (auto b = it.begin(), e = it.end(); b != e; ++b, ++i) { string m = check_node(b, n.kids[i], true, what); if (!m.empty()) return m; } }
	return "";
}
template <typename Tree> static string check_tree(Tree& t, bool deep, char const* what)
{
	rnode n = neutral(t.begin());
	string m = check_node(t.begin(), n, deep, what); if (!m.empty()) return m;
	Tree const& c = t; string got = ser_lib<u32string>(c.begin()); u32string w; ser(n, w);
	if (got != enc(w)) return string(what) + " through a const iterator serialises to " + got;
	return "";
}
template <typename Tree> static string doc_case(u32string const& in, bool deep, char const* what, string& text)
{
	auto t = make_document<Tree>(in.begin(), in.end());
	string m = check_tree(t, deep, what); if (!m.empty()) return m;
	text = ser_lib<u32string>(t.begin());
	return "";
}
static string round_trip(string const& text, string const& dump, char const* what)
{
	// the reference must get back to the same tree before the library is required to
	u32string s = dec(text);
	htmlref::builder b(s); b.run(); if (b.edition || b.lx.cdata_seen) return "";
	string again; htmlref::dump(b.doc, again); if (again != dump) return "";
	auto t = make_document<u32simple_tree>(s.begin(), s.end());
	string got = htmllib::dump_tree(t);
	if (got != dump) return string(what) + " parses back to " + got + " not " + dump + " from " + text;
	if (ser_lib<u32string>(t.begin()) != text) return string(what) + " serialises again as " + ser_lib<u32string>(t.begin()) + " not " + text;
	u8string b8(text.begin(), text.end());
	auto bytes = make_document<u8simple_tree>(text.begin(), text.end());
	if (text.find("<meta") == string::npos && text.find('\0') == string::npos && htmllib::dump_tree(bytes) != dump) return string(what) + " parses back from UTF-8 to " + htmllib::dump_tree(bytes) + " not " + dump + " from " + text;
	return "";
}
static string document(string const& c)
{
	u32string in = dec(c); string text, t2;
	mc::state();
	auto t = make_document<u32simple_tree>(in.begin(), in.end());
	string w = "'" + mc::escape(c) + "'";
	string m = check_tree(t, true, w.c_str()); if (!m.empty()) return m;
	text = ser_lib<u32string>(t.begin()); mc::outcome(text);
	if (!(m = round_trip(text, htmllib::dump_tree(t), w.c_str())).empty()) return m;
	if (!(m = doc_case<u8simple_tree>(in, false, (w + " (u8)").c_str(), t2)).empty()) return m;
	if (t2 != text) return w + " differs between the UTF-8 and the UTF-32 tree";
	if (!(m = doc_case<u16simple_tree>(in, false, (w + " (u16)").c_str(), t2)).empty()) return m;
	if (t2 != text) return w + " differs between the UTF-16 and the UTF-32 tree";
	return "";
}
// ---- trees built by hand: A..Z opens an element, ) closes it, other letters are leaves
struct eldef { ns_name ns; char const* other; char const* prefix; char const* name; };
static eldef const els[] = {
	{ ns_name::HTML, "", "", "p" }, { ns_name::HTML, "", "", "br" }, { ns_name::HTML, "", "", "style" }, { ns_name::HTML, "", "", "script" }, { ns_name::SVG, "", "", "style" },
	{ ns_name::SVG, "", "", "br" }, { ns_name::MathML, "", "", "mi" }, { ns_name(0), "urn:x", "q", "e" }, { ns_name(0), "urn:x", "", "e" }, { ns_name::HTML, "", "q", "e" }, { ns_name::SVG, "", "svg", "e" },
	{ ns_name::HTML, "", "", "template" }, { ns_name::HTML, "", "", "plaintext" }, { ns_name::HTML, "", "", "title" }, { ns_name::HTML, "", "", "frame" }, { ns_name(0), "urn:x", "", "script" }, { ns_name::HTML, "", "", "noscript" }, { ns_name::XLink, "", "z", "e" } };
template <typename Tree> struct hand
{
	using N = typename Tree::value_type; using S = typename N::string_type;
	static S str(string const& s) { return wordring::whatwg::encoding_cast<S>(dec(s)); }
	static string run(string const& c, bool strictdoc, char const* what)
	{
		Tree t; typename Tree::iterator root;
		if (c[0] == '#') root = t.insert(t.end(), N(typename N::document_type()));
		else if (c[0] == '*') root = t.insert(t.end(), N(typename N::document_fragment_type()));
		else root = t.insert(t.end(), N(elem(c[0])));
		rnode r; r.k = c[0] == '#' ? rnode::DOC : c[0] == '*' ? rnode::FRAGMENT : rnode::ELEM; if (r.k == rnode::ELEM) r = ref(c[0]);
		vector<typename Tree::iterator> st{ root }; vector<rnode> rs{ r };
		auto close = [&] { rnode x = rs.back(); rs.pop_back(); st.pop_back(); rs.back().kids.push_back(x); };
		for (size_t i = 1; i < c.size(); ++i)
		{
			char l = c[i];
			if (l == ')') { close(); continue; }
			if (l >= 'A' && l <= 'Z') { st.push_back(t.insert(st.back().end(), N(elem(l)))); rs.push_back(ref(l)); continue; }
			rnode n;
			switch (l)
			{
			case 't': n.k = rnode::TEXT; n.data = U"&<>\"'\xA0x"; t.insert(st.back().end(), N(typename N::text_type(str("&<>\"'\xC2\xA0x")))); break;
			case 'e': n.k = rnode::TEXT; t.insert(st.back().end(), N(typename N::text_type(S()))); break;
			case 'c': n.k = rnode::COMMENT; n.data = U"&<\xA0-"; t.insert(st.back().end(), N(typename N::comment_type(str("&<\xC2\xA0-")))); break;
			case 'i': { n.k = rnode::PI; n.name = "tgt"; n.data = U"d&\xA0"; typename N::processing_instruction_type p; p.target(str("tgt")); p.data(str("d&\xC2\xA0")); t.insert(st.back().end(), N(p)); break; }
			case 'd': n.k = rnode::DOCTYPE; n.name = "n"; t.insert(st.back().end(), N(typename N::document_type_type(str("n"), str("pub"), str("sys")))); break;
			}
			rs.back().kids.push_back(n);
		}
		while (st.size() > 1) close();
		return check_node(t.begin(), rs[0], true, what);
	}
	static typename N::element_type elem(char l)
	{
		auto& d = els[l - 'A'];
		return *d.other ? typename N::element_type(str(d.other), str(d.prefix), str(d.name)) : typename N::element_type(d.ns, str(d.prefix), str(d.name));
	}
	static rnode ref(char l) { auto& d = els[l - 'A']; rnode r; r.k = rnode::ELEM; r.ns = htmllib::ns(d.ns); r.prefix = d.prefix; r.name = d.name; return r; }
};
static string by_hand(string const& c)
{
	mc::state(); string w = "the tree " + c, m;
	if (!(m = hand<u32simple_tree>::run(c, true, w.c_str())).empty()) return m;
	if (!(m = hand<u8simple_tree>::run(c, true, (w + " (u8)").c_str())).empty()) return m;
	return hand<u16simple_tree>::run(c, true, (w + " (u16)").c_str());
}
static void trees(mc::enumerator& e, string const& cur, int depth, int left, string const& opens, string const& leaves)
{
	e(cur);
	if (!left) return;
	for (char c : opens) trees(e, cur + c, depth + 1, left - 1, opens, leaves);
	for (char c : leaves) trees(e, cur + c, depth, left - 1, opens, leaves);
	if (depth) trees(e, cur + ')', depth - 1, left - 1, opens, leaves);
}
// ---- attributes: <namespace letter><prefix letter>name=value on an element of each namespace
static string attr_case(string const& c)
{
	mc::state();
	static ns_name const nss[] = { ns_name(0), ns_name::XML, ns_name::XMLNS, ns_name::XLink, ns_name::HTML, ns_name::SVG };
	ns_name ns = nss[c[0] - '0']; string prefix = c[1] == '-' ? "" : c[1] == 'p' ? "p" : c[1] == 'x' ? "xlink" : "xml";
	size_t q = c.find('='); string name = c.substr(2, q - 2), val = c.substr(q + 1);
	string m;
	auto go = [&](auto* tr, char const* what) {
		using Tree = remove_pointer_t<decltype(tr)>; using H = hand<Tree>; using N = typename H::N;
		for (char l : { 'A', 'B', 'E', 'G', 'H' })
		{
			Tree t; auto d = t.insert(t.end(), N(typename N::document_type()));
			auto el = H::elem(l); el.push_back(typename N::attribute_type(ns, H::str(prefix), H::str(name), H::str(val))); el.push_back(typename N::attribute_type(H::str("z"), H::str(val)));
			t.insert(d.end(), N(el));
			rnode r; r.k = rnode::DOC; rnode x = H::ref(l); x.attrs.push_back({ htmllib::ns(ns), prefix, name, dec(val) }); x.attrs.push_back({ "", "", "z", dec(val) }); r.kids.push_back(x);
			string g = check_node(t.begin(), r, true, what); if (!g.empty()) return g;
		}
		return string();
	};
	string w = "the attribute " + mc::escape(c);
	if (!(m = go((u32simple_tree*)0, w.c_str())).empty()) return m;
	if (!(m = go((u8simple_tree*)0, (w + " (u8)").c_str())).empty()) return m;
	return go((u16simple_tree*)0, (w + " (u16)").c_str());
}
// ---- texts: put into a parsed document as a node's data, serialised, parsed back
static string text_case(string const& c)
{
	// <element name>|<data>
	mc::state(); size_t q = c.find('|'); string el = c.substr(0, q), val = c.substr(q + 1); u32string data = dec(val);
	bool svg = el.compare(0, 4, "svg:") == 0; string name = svg ? el.substr(4) : el;
	string w = "'" + mc::escape(val) + "' in " + el, m;
	auto go = [&](auto* tr, bool first) {
		using Tree = remove_pointer_t<decltype(tr)>; using H = hand<Tree>; using N = typename H::N;
		Tree t; auto d = t.insert(t.end(), N(typename N::document_type()));
		auto h = t.insert(d.end(), N(typename N::element_type(H::str("html")))); t.insert(h.end(), N(typename N::element_type(H::str("head")))); auto b = t.insert(h.end(), N(typename N::element_type(H::str("body"))));
		if (svg) b = t.insert(b.end(), N(typename N::element_type(ns_name::SVG, typename H::S(), H::str("svg"))));
		typename N::element_type e(svg ? ns_name::SVG : ns_name::HTML, typename H::S(), H::str(name)); e.push_back(typename N::attribute_type(H::str("a"), H::str(val)));
		auto p = t.insert(b.end(), N(e)); if (!val.empty()) t.insert(p.end(), N(typename N::text_type(H::str(val))));
		string g = check_tree(t, true, w.c_str()); if (!g.empty()) return g;
		if (first) { g = round_trip(ser_lib<u32string>(t.begin()), htmllib::dump_tree(t), w.c_str()); if (!g.empty()) return g; }
		return string();
	};
	if (!(m = go((u32simple_tree*)0, true)).empty()) return m;
	if (!(m = go((u8simple_tree*)0, false)).empty()) return m;
	return go((u16simple_tree*)0, false);
}
static vector<string> const names = { "a", "abbr", "address", "annotation-xml", "applet", "area", "article", "aside", "b", "base", "basefont", "bgsound", "big", "blockquote", "body", "br", "button", "caption", "center", "code", "col", "colgroup", "dd", "desc", "details", "dialog", "dir", "div", "dl", "dt", "em", "embed", "fieldset", "figcaption", "figure", "font", "footer", "foreignobject", "form", "frame", "frameset", "h1", "h2", "h6", "head", "header", "hgroup", "hr", "html", "i", "iframe", "image", "img", "input", "isindex", "keygen", "li", "link", "listing", "main", "malignmark", "marquee", "math", "menu", "menuitem", "meta", "mglyph", "mi", "mo", "mn", "ms", "mtext", "nav", "nobr", "noembed", "noframes", "noscript", "object", "ol", "optgroup", "option", "p", "param", "plaintext", "pre", "rb", "rp", "rt", "rtc", "ruby", "s", "script", "section", "select", "small", "source", "span", "strike", "strong", "style", "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "title", "tr", "track", "tt", "u", "ul", "var", "wbr", "xmp", "x-y", "image2", "command", "linearGradient" };
static void with(mc::enumerator& e, vector<string> const& heads, vector<string> const& alphabet, int lo, int hi, string const& post = "") { for (auto& h : heads) mc::all_strings(e, alphabet, lo, hi, h, post); }
void mc_register()
{
	auto T = [](int q, int t) { return mc::g_thorough ? t : q; };
	mc::add("documents", [=](mc::enumerator& e) {
		vector<string> tags; for (auto& n : names) { tags.push_back("<" + n + ">"); tags.push_back("</" + n + ">"); }
		for (char const* c : { "", "<head>", "<body>", "<table>", "<table><tr><td>", "<select>", "<template>", "<frameset>", "<svg>", "<svg><desc>", "<math><mi>", "<p>" }) for (auto& t : tags) { e(c + t + "x"); e(c + t + "x<!--c--><i b=c>"); }
		with(e, { "" }, { "<p>", "</p>", "<b>", "</b>", "<br>", "<div a='1\"' b=&amp;>", "</div>", "x", "&lt;", " ", "<!--c-->", "<img>" }, 0, T(4, 5));
		with(e, { "", "<!doctype html>" }, { "<title>", "</title>", "<style>", "</style>", "<script>", "</script>", "<textarea>", "</textarea>", "&amp;", "<", ">", "x", "\n" }, 0, T(4, 5));
		with(e, { "" }, { "<table>", "<tr>", "<td>", "</table>", "x", "<svg>", "</svg>", "<math>", "<mi>", "<p>", "<template>", "</template>", "<svg xlink:href=a xml:lang=b xmlns=c xmlns:xlink=d>", "<foreignObject>", "<frameset>", "<frame>" }, 0, T(4, 5));
		with(e, { "<pre>", "<textarea>", "<listing>", "<xmp>", "<iframe>", "<noembed>", "<noframes>", "<noscript>", "<plaintext>" }, { "\n", "x", "&lt;", "<", "&nbsp;", "\xC2\xA0", "<!--", "</" }, 0, T(4, 5));
	}, document);
	mc::add("texts", [=](mc::enumerator& e) {
		vector<string> al = { "&", "<", ">", "\"", "'", "\xC2\xA0", "a", ";", "amp", "\xC3\xA9", "\xF0\x9F\x98\x80", "#", "\n", "/" };
		for (char const* p : { "p", "title", "textarea", "style", "script", "xmp", "iframe", "noembed", "noframes", "noscript", "plaintext", "svg:g", "svg:style", "svg:script", "svg:title", "pre", "div", "b" })
			with(e, { string(p) + "|" }, al, 0, T(3, 4));
		with(e, { "p|", "style|", "svg:style|" }, al, 4, T(4, 5));
	}, text_case);
	mc::add("every-character", [=](mc::enumerator& e) {
		auto put = [](char32_t c) { return enc(u32string(1, c)); };
		for (char32_t c = 1; c < 0x300; ++c) for (char const* p : { "p|", "style|", "svg:g|" }) if (c != '\r') e(p + put(c));
		for (char32_t c : { 0x7FF, 0x800, 0x2028, 0x20A0, 0xA000, 0xA0A0, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0x10000, 0x100A0, 0x1F600, 0x10FFFD }) for (char const* p : { "p|", "style|", "svg:g|", "p|x", "title|" }) e(p + put(c));
		if (mc::g_thorough) for (char32_t c = 0x300; c < 0x110000; ++c) if ((c < 0xD800 || c > 0xDFFF) && (c & 0xFFFE) != 0xFFFE) e("p|" + put(c));
	}, text_case);
	mc::add("hand-built", [=](mc::enumerator& e) {
		for (char r : { '#', '*', 'A', 'B', 'C', 'E', 'H' })
		{
			trees(e, string(1, r), 0, T(3, 4), "ABCEFH", "teci");
			trees(e, string(1, r), 0, T(2, 3), "ABCDEFGHIJKLMNOPQR", "tecid");
			trees(e, string(1, r), 0, T(5, 7), "AB", "t");
		}
	}, by_hand);
	// what is long and deep: up to 300 of everything
	mc::add("long-documents", [=](mc::enumerator& e) {
		vector<int> ns = { 9, 17, 33, 65, 129, 200 };
		mc::long_strings(e, { "<p>", "<b>", "<br>", "x", "&lt;", "<table>", "<td>", "<svg>", "<!--c-->", "</p>", "<div a=1>", "<template>", "\xC2\xA0" }, "", "", ns);
		for (int n : ns) { string a; for (int i = 0; i < n; ++i) a += " a" + to_string(i) + "='" + to_string(i) + "\"&amp;'"; for (char const* t : { "p", "br", "svg", "body", "style" }) e("<" + string(t) + a + ">x"); }
	}, document, 60);
	mc::add("long-texts", [=](mc::enumerator& e) {
		for (char const* p : { "p|", "style|", "svg:style|", "title|" }) mc::long_strings(e, { "&", "<", "a", "\xC2\xA0", "\"", "\xF0\x9F\x98\x80", "\xE3\x81\x82" }, p, "", { 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 1024, 1025 });
	}, text_case, 60);
	mc::add("long-trees", [=](mc::enumerator& e) {
		for (char r : { '#', '*', 'A', 'B' }) mc::long_strings(e, { "A", "B)", "t", "C", "E", "At)", "c", "B" }, string(1, r), "", { 9, 17, 33, 65, 129, 200 });
	}, by_hand, 60);
	mc::add("attributes", [=](mc::enumerator& e) {
		vector<string> nm = { "xmlns", "xlink", "href", "lang", "space", "base", "foo", "class", "\xC3\xA9", "actuate", "title", "type", "xml", "viewBox" };
		vector<string> val = { "", "v", "&", "<", ">", "\"", "'", "\xC2\xA0", "\"&\"", "a<b>c", "&amp;", "\xF0\x9F\x98\x80", "\xC3\xA9\"", " x " };
		for (int n = 0; n < 6; ++n) for (char p : { '-', 'p', 'x', 'm' }) for (auto& a : nm) for (auto& v : val) e(string(1, char('0' + n)) + p + a + "=" + v);
		mc::all_strings(e, { "&", "<", ">", "\"", "'", "\xC2\xA0", "a", ";", "\n" }, 2, T(3, 5), "0-k=");
	}, attr_case);
}
MC_MAIN
