// Reference HTML tree construction (12.2.6, the edition of early 2021), on top of the reference tokenizer. Scripting disabled.
#pragma once
#include "html_tok_model.hpp"
#include <deque>
#include <memory>
#include <set>
namespace htmlref
{
	enum nsid { HTML, MATH, SVG };
	struct attr { std::string ns; u32 prefix, local, value; bool operator==(attr const& o) const { return ns == o.ns && prefix == o.prefix && local == o.local && value == o.value; } };
	struct node
	{
		enum kind { DOCUMENT, DOCTYPE, ELEMENT, TEXT, COMMENT } k;
		nsid ns = HTML; u32 name, data, sys; std::vector<attr> attrs; node* parent = nullptr; std::vector<node*> kids; bool html_ip = false;
	};
	using sset = std::set<u32>;
	struct builder
	{
		enum mode_t { INITIAL, BEFORE_HTML, BEFORE_HEAD, IN_HEAD, IN_HEAD_NOSCRIPT, AFTER_HEAD, IN_BODY, TEXTM, IN_TABLE, IN_TABLE_TEXT, IN_CAPTION, IN_COLGROUP, IN_TBODY, IN_ROW, IN_CELL, IN_SELECT, IN_SELECT_IN_TABLE, IN_TEMPLATE, AFTER_BODY, IN_FRAMESET, AFTER_FRAMESET, AFTER_AFTER_BODY, AFTER_AFTER_FRAMESET };
		std::deque<node> pool; node* doc; lexer lx;
		std::vector<node*> st; struct afe { node* n; token t; }; std::vector<afe> list; std::vector<mode_t> tmodes;
		mode_t mode = INITIAL, orig = INITIAL; node* head = nullptr; node* form = nullptr; bool frameset_ok = true, foster = false, skip_lf = false, quirks = false, limited = false, stopped = false, edition = false;
		u32 pending; bool pending_non_ws = false;
		std::function<void(token&)> on_meta; // a meta element inserted by the in head rules
		size_t steps = 0;
		explicit builder(u32 const& in) : lx(normalise(in))
		{
			pool.emplace_back(); doc = &pool.back(); doc->k = node::DOCUMENT;
			lx.foreign = [this] { return !st.empty() && st.back()->ns != HTML; };
			lx.in_html = [this] { return !st.empty() && st.back()->ns == HTML; };
			lx.sink = [this](token& t) { if (!stopped) { ++steps; process(t); } };
		}
		void run() { lx.run(); }
		// ---- nodes
		node* mk(node::kind k) { pool.emplace_back(); node* n = &pool.back(); n->k = k; return n; }
		struct place { node* p; node* before; };
		void put(place l, node* n) { n->parent = l.p; auto& v = l.p->kids; if (!l.before) v.push_back(n); else { size_t i = 0; while (v[i] != l.before) ++i; v.insert(v.begin() + i, n); } }
		void detach(node* n) { if (!n->parent) return; auto& v = n->parent->kids; for (size_t i = 0; i < v.size(); ++i) if (v[i] == n) { v.erase(v.begin() + i); break; } n->parent = nullptr; }
		node* cur() const { return st.back(); }
		static bool is(node const* n, char32_t const* name) { return n->k == node::ELEMENT && n->ns == HTML && n->name == name; }
		static bool in(node const* n, sset const& s) { return n->ns == HTML && s.count(n->name); }
		bool has(char32_t const* name) const { for (node* n : st) if (is(n, name)) return true; return false; }
		place where(node* over = nullptr) const
		{
			node* target = over ? over : cur();
			static sset const T = { U"table", U"tbody", U"tfoot", U"thead", U"tr" };
			if (foster && in(target, T))
			{
				int lt = -1, lb = -1; for (size_t i = 0; i < st.size(); ++i) { if (is(st[i], U"template")) lt = int(i); if (is(st[i], U"table")) lb = int(i); }
				if (lt >= 0 && (lb < 0 || lt > lb)) return { st[lt], nullptr };
				if (lb < 0) return { st[0], nullptr };
				if (st[lb]->parent) return { st[lb]->parent, st[lb] };
				return { st[lb - 1], nullptr };
			}
			return { target, nullptr };
		}
		void text(char32_t c)
		{
			place l = where(); if (l.p->k == node::DOCUMENT) return;
			node* prev = nullptr; for (node* k : l.p->kids) { if (k == l.before) break; prev = k; }
			if (prev && prev->k == node::TEXT) { prev->data += c; return; }
			node* t = mk(node::TEXT); t->data = c; put(l, t);
		}
		void comment(token const& t, node* p = nullptr) { node* c = mk(node::COMMENT); c->data = t.name; put(p ? place{ p, nullptr } : where(), c); }
		node* create(token const& t, nsid ns = HTML)
		{
			node* e = mk(node::ELEMENT); e->ns = ns; e->name = t.name;
			for (auto& a : t.attrs) e->attrs.push_back(attribute(a.first, a.second, ns));
			if (ns == SVG) { auto& m = svg_tags(); auto it = m.find(t.name); if (it != m.end()) e->name = it->second; e->html_ip = e->name == U"foreignObject" || e->name == U"desc" || e->name == U"title"; }
			if (ns == MATH && e->name == U"annotation-xml") for (auto& a : t.attrs) if (a.first == U"encoding") { u32 v; for (char32_t c : a.second) v += lower(c); if (v == U"text/html" || v == U"application/xhtml+xml") e->html_ip = true; }
			return e;
		}
		static attr attribute(u32 n, u32 v, nsid ns)
		{
			attr a{ "", U"", n, v };
			if (ns == HTML) return a;
			static std::map<u32, std::pair<std::string, std::pair<u32, u32>>> const F = [] {
				std::map<u32, std::pair<std::string, std::pair<u32, u32>>> m;
				for (char32_t const* x : { U"actuate", U"arcrole", U"href", U"role", U"show", U"title", U"type" }) m[U"xlink:" + u32(x)] = { "xlink", { U"xlink", x } };
				for (char32_t const* x : { U"lang", U"space" }) m[U"xml:" + u32(x)] = { "xml", { U"xml", x } };
				m[U"xmlns"] = { "xmlns", { U"", U"xmlns" } }; m[U"xmlns:xlink"] = { "xmlns", { U"xmlns", U"xlink" } }; return m; }();
			auto it = F.find(n); if (it != F.end()) { a.ns = it->second.first; a.prefix = it->second.second.first; a.local = it->second.second.second; return a; }
			if (ns == MATH && n == U"definitionurl") a.local = U"definitionURL";
			if (ns == SVG) { auto& m = svg_attrs(); auto j = m.find(n); if (j != m.end()) a.local = j->second; }
			return a;
		}
		static std::map<u32, u32> cased(char32_t const* w) { std::map<u32, u32> m; u32 s, l; for (;; ++w) if (*w == ' ' || !*w) { if (!s.empty()) m[l] = s; s.clear(); l.clear(); if (!*w) break; } else { s += *w; l += lower(*w); } return m; }
		static std::map<u32, u32> const& svg_tags()
		{
			static auto m = cased(U"altGlyph altGlyphDef altGlyphItem animateColor animateMotion animateTransform clipPath feBlend feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting feDisplacementMap feDistantLight feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR feGaussianBlur feImage feMerge feMergeNode feMorphology feOffset fePointLight feSpecularLighting feSpotLight feTile feTurbulence foreignObject glyphRef linearGradient radialGradient textPath");
			return m;
		}
		static std::map<u32, u32> const& svg_attrs()
		{
			static auto m = cased(U"attributeName attributeType baseFrequency baseProfile calcMode clipPathUnits diffuseConstant edgeMode filterUnits glyphRef gradientTransform gradientUnits kernelMatrix kernelUnitLength keyPoints keySplines keyTimes lengthAdjust limitingConeAngle markerHeight markerUnits markerWidth maskContentUnits maskUnits numOctaves pathLength patternContentUnits patternTransform patternUnits pointsAtX pointsAtY pointsAtZ preserveAlpha preserveAspectRatio primitiveUnits refX refY repeatCount repeatDur requiredExtensions requiredFeatures specularConstant specularExponent spreadMethod startOffset stdDeviation stitchTiles surfaceScale systemLanguage tableValues targetX targetY textLength viewBox viewTarget xChannelSelector yChannelSelector zoomAndPan");
			return m;
		}
		node* insert(token const& t, nsid ns = HTML) { node* e = create(t, ns); put(where(), e); st.push_back(e); return e; }
		node* insert(char32_t const* n) { token t; t.k = token::START; t.name = n; return insert(t); }
		void pop() { st.pop_back(); }
		void pop_until(sset const& s) { for (;;) { node* n = cur(); pop(); if (in(n, s)) return; } }
		void remove_from_stack(node* n) { for (size_t i = 0; i < st.size(); ++i) if (st[i] == n) { st.erase(st.begin() + i); return; } }
		bool on_stack(node* n) const { for (node* x : st) if (x == n) return true; return false; }
		// ---- scopes
		static bool base_scope(node const* n)
		{
			static sset const H = { U"applet", U"caption", U"html", U"table", U"td", U"th", U"marquee", U"object", U"template" }, M = { U"mi", U"mo", U"mn", U"ms", U"mtext", U"annotation-xml" }, S = { U"foreignObject", U"desc", U"title" };
			return (n->ns == HTML ? H : n->ns == MATH ? M : S).count(n->name) > 0;
		}
		enum scope { DEFAULT, LIST, BUTTON, TABLE, SELECT };
		static bool boundary(node const* n, scope s)
		{
			if (s == TABLE) return is(n, U"html") || is(n, U"table") || is(n, U"template");
			if (s == SELECT) return !(is(n, U"optgroup") || is(n, U"option"));
			if (base_scope(n)) return true;
			if (s == LIST) return is(n, U"ol") || is(n, U"ul");
			if (s == BUTTON) return is(n, U"button");
			return false;
		}
		bool scoped(sset const& names, scope s = DEFAULT) const { for (size_t i = st.size(); i-- > 0;) { if (in(st[i], names)) return true; if (boundary(st[i], s)) return false; } return false; }
		bool scoped(node* x, scope s = DEFAULT) const { for (size_t i = st.size(); i-- > 0;) { if (st[i] == x) return true; if (boundary(st[i], s)) return false; } return false; }
		static bool special(node const* n)
		{
			static sset const H = { U"address", U"applet", U"area", U"article", U"aside", U"base", U"basefont", U"bgsound", U"blockquote", U"body", U"br", U"button", U"caption", U"center", U"col", U"colgroup", U"dd", U"details", U"dir", U"div", U"dl", U"dt", U"embed", U"fieldset", U"figcaption", U"figure", U"footer", U"form", U"frame", U"frameset", U"h1", U"h2", U"h3", U"h4", U"h5", U"h6", U"head", U"header", U"hgroup", U"hr", U"html", U"iframe", U"img", U"input", U"keygen", U"li", U"link", U"listing", U"main", U"marquee", U"menu", U"meta", U"nav", U"noembed", U"noframes", U"noscript", U"object", U"ol", U"p", U"param", U"plaintext", U"pre", U"script", U"section", U"select", U"source", U"style", U"summary", U"table", U"tbody", U"td", U"template", U"textarea", U"tfoot", U"th", U"thead", U"title", U"tr", U"track", U"ul", U"wbr", U"xmp" };
			static sset const M = { U"mi", U"mo", U"mn", U"ms", U"mtext", U"annotation-xml" }, S = { U"foreignObject", U"desc", U"title" };
			return (n->ns == HTML ? H : n->ns == MATH ? M : S).count(n->name) > 0;
		}
		void implied(u32 const& except = U"") { static sset const I = { U"dd", U"dt", U"li", U"optgroup", U"option", U"p", U"rb", U"rp", U"rt", U"rtc" }; while (in(cur(), I) && cur()->name != except) pop(); }
		void implied_all() { static sset const I = { U"caption", U"colgroup", U"dd", U"dt", U"li", U"optgroup", U"option", U"p", U"rb", U"rp", U"rt", U"rtc", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" }; while (in(cur(), I)) pop(); }
		void close_p() { implied(U"p"); pop_until({ U"p" }); }
		void close_p_in_scope() { if (scoped({ U"p" }, BUTTON)) close_p(); }
		// ---- active formatting
		void marker() { list.push_back({ nullptr, {} }); }
		void push_format(node* n, token const& t)
		{
			std::vector<size_t> same;
			for (size_t i = list.size(); i-- > 0 && list[i].n;)
			{
				node* o = list[i].n; if (o->name != n->name || o->ns != n->ns || o->attrs.size() != n->attrs.size()) continue;
				bool eq = true; for (auto& a : n->attrs) { bool f = false; for (auto& b : o->attrs) f = f || a == b; eq = eq && f; }
				if (eq) same.push_back(i);
			}
			if (same.size() >= 3) list.erase(list.begin() + same.back());
			list.push_back({ n, t });
		}
		void reconstruct()
		{
			if (list.empty()) return;
			size_t i = list.size() - 1; if (!list[i].n || on_stack(list[i].n)) return;
			while (i > 0) { --i; if (!list[i].n || on_stack(list[i].n)) { ++i; break; } }
			for (; i < list.size(); ++i) list[i].n = insert(list[i].t);
		}
		void clear_to_marker() { while (!list.empty()) { bool m = !list.back().n; list.pop_back(); if (m) return; } }
		int list_index(node* n) const { for (size_t i = 0; i < list.size(); ++i) if (list[i].n == n) return int(i); return -1; }
		// returns true when the "any other end tag" steps have to be taken instead
		bool adoption(token const& t)
		{
			u32 const& subj = t.name;
			if (is(cur(), subj.c_str()) && list_index(cur()) < 0) { pop(); return false; }
			for (int outer = 0; outer < 8; ++outer)
			{
				int fi = -1; for (size_t i = list.size(); i-- > 0 && list[i].n;) if (list[i].n->name == subj) { fi = int(i); break; }
				if (fi < 0) return true;
				node* fe = list[fi].n;
				size_t si = 0; while (si < st.size() && st[si] != fe) ++si;
				if (si == st.size()) { list.erase(list.begin() + fi); return false; }
				if (!scoped(fe)) return false;
				size_t bi = si + 1; while (bi < st.size() && !special(st[bi])) ++bi;
				if (bi == st.size()) { st.resize(si); list.erase(list.begin() + fi); return false; }
				node* fb = st[bi]; node* common = st[si - 1]; int bookmark = fi;
				size_t ni = bi; node* last = fb;
				for (int inner = 1;; ++inner)
				{
					--ni; node* n = st[ni]; if (n == fe) break;
					int li = list_index(n);
					if (inner > 3 && li >= 0) { list.erase(list.begin() + li); if (li < bookmark) --bookmark; li = -1; }
					if (li < 0) { st.erase(st.begin() + ni); continue; }
					node* c = create(list[li].t); list[li].n = c; st[ni] = c; n = c;
					if (last == fb) bookmark = li + 1;
					detach(last); put({ n, nullptr }, last); last = n;
				}
				detach(last); put(where(common), last);
				fi = list_index(fe); token ft = list[fi].t;
				node* c = create(ft);
				for (node* k : std::vector<node*>(fb->kids)) { detach(k); put({ c, nullptr }, k); }
				put({ fb, nullptr }, c);
				list.erase(list.begin() + fi); if (fi < bookmark) --bookmark;
				list.insert(list.begin() + bookmark, { c, ft });
				remove_from_stack(fe);
				size_t k = 0; while (st[k] != fb) ++k; st.insert(st.begin() + k + 1, c);
			}
			return false;
		}
		void reset_mode()
		{
			for (size_t i = st.size(); i-- > 0;)
			{
				node* n = st[i]; bool last = i == 0;
				if (is(n, U"select")) { for (size_t j = i; j-- > 0;) { if (is(st[j], U"template")) break; if (is(st[j], U"table")) { mode = IN_SELECT_IN_TABLE; return; } } mode = IN_SELECT; return; }
				if ((is(n, U"td") || is(n, U"th")) && !last) { mode = IN_CELL; return; }
				if (is(n, U"tr")) { mode = IN_ROW; return; }
				if (is(n, U"tbody") || is(n, U"thead") || is(n, U"tfoot")) { mode = IN_TBODY; return; }
				if (is(n, U"caption")) { mode = IN_CAPTION; return; }
				if (is(n, U"colgroup")) { mode = IN_COLGROUP; return; }
				if (is(n, U"table")) { mode = IN_TABLE; return; }
				if (is(n, U"template")) { mode = tmodes.back(); return; }
				if (is(n, U"head") && !last) { mode = IN_HEAD; return; }
				if (is(n, U"body")) { mode = IN_BODY; return; }
				if (is(n, U"frameset")) { mode = IN_FRAMESET; return; }
				if (is(n, U"html")) { mode = head ? AFTER_HEAD : BEFORE_HEAD; return; }
				if (last) { mode = IN_BODY; return; }
			}
		}
		// ---- dispatcher
		static bool wsc(token const& t) { return t.k == token::CHAR && (ws(t.c) || t.c == 13); }
		static bool S(token const& t, sset const& n) { return t.k == token::START && n.count(t.name); }
		static bool E(token const& t, sset const& n) { return t.k == token::END && n.count(t.name); }
		void process(token& t)
		{
			if (skip_lf) { skip_lf = false; if (t.k == token::CHAR && t.c == '\n') return; }
			dispatch(t);
		}
		void dispatch(token& t)
		{
			if (stopped) return;
			bool html = st.empty() || t.k == token::EOFT;
			if (!html)
			{
				node* n = cur(); static sset const M = { U"mi", U"mo", U"mn", U"ms", U"mtext" };
				if (n->ns == HTML) html = true;
				else if (n->ns == MATH && M.count(n->name) && ((t.k == token::START && t.name != U"mglyph" && t.name != U"malignmark") || t.k == token::CHAR)) html = true;
				else if (n->ns == MATH && n->name == U"annotation-xml" && t.k == token::START && t.name == U"svg") html = true;
				else if (n->html_ip && (t.k == token::START || t.k == token::CHAR)) html = true;
			}
			if (html) rules(mode, t); else foreign(t);
		}
		void again(token& t, mode_t m) { mode = m; dispatch(t); }
		void foreign(token& t)
		{
			switch (t.k)
			{
			case token::CHAR:
				if (t.c == 0) { text(0xFFFD); return; }
				text(t.c); if (!wsc(t)) frameset_ok = false; return;
			case token::COMMENT: comment(t); return;
			case token::DOCTYPE: return;
			case token::START:
			{
				static sset const B = { U"b", U"big", U"blockquote", U"body", U"br", U"center", U"code", U"dd", U"div", U"dl", U"dt", U"em", U"embed", U"h1", U"h2", U"h3", U"h4", U"h5", U"h6", U"head", U"hr", U"i", U"img", U"li", U"listing", U"menu", U"meta", U"nobr", U"ol", U"p", U"pre", U"ruby", U"s", U"small", U"span", U"strong", U"strike", U"sub", U"sup", U"table", U"tt", U"u", U"ul", U"var" };
				bool b = B.count(t.name) > 0;
				if (t.name == U"font") for (auto& a : t.attrs) if (a.first == U"color" || a.first == U"face" || a.first == U"size") b = true;
				if (b) { break_out(t); return; }
				insert(t, cur()->ns); if (t.flag) pop(); return;
			}
			case token::END:
			{
				// editions differ: since 2021 these two break out of foreign content
				if (t.name == U"br" || t.name == U"p") { edition = true; break_out(t); return; }
				if (cur()->ns == SVG && cur()->name == U"script" && t.name == U"script") { pop(); return; }
				for (size_t i = st.size() - 1;;)
				{
					u32 l; for (char32_t c : st[i]->name) l += lower(c);
					if (i == 0) return;
					if (l == t.name) { st.resize(i); return; }
					--i;
					if (st[i]->ns == HTML) { rules(mode, t); return; }
				}
			}
			default: return;
			}
		}
		void break_out(token& t)
		{
			static sset const M = { U"mi", U"mo", U"mn", U"ms", U"mtext" };
			while (!(cur()->ns == HTML || cur()->html_ip || (cur()->ns == MATH && M.count(cur()->name)))) pop();
			rules(mode, t);
		}
		void raw(token& t, htmlref::mode m) { insert(t); lx.m = m; orig = mode; mode = TEXTM; }
		void rules(mode_t m, token& t)
		{
			switch (m)
			{
			case INITIAL: return initial(t); case BEFORE_HTML: return before_html(t); case BEFORE_HEAD: return before_head(t); case IN_HEAD: return in_head(t); case IN_HEAD_NOSCRIPT: return in_head_noscript(t);
			case AFTER_HEAD: return after_head(t); case IN_BODY: return in_body(t); case TEXTM: return in_text(t); case IN_TABLE: return in_table(t); case IN_TABLE_TEXT: return in_table_text(t); case IN_CAPTION: return in_caption(t);
			case IN_COLGROUP: return in_colgroup(t); case IN_TBODY: return in_tbody(t); case IN_ROW: return in_row(t); case IN_CELL: return in_cell(t); case IN_SELECT: return in_select(t); case IN_SELECT_IN_TABLE: return in_select_in_table(t);
			case IN_TEMPLATE: return in_template(t); case AFTER_BODY: return after_body(t); case IN_FRAMESET: return in_frameset(t); case AFTER_FRAMESET: return after_frameset(t); case AFTER_AFTER_BODY: return after_after_body(t); case AFTER_AFTER_FRAMESET: return after_after_frameset(t);
			}
		}
		static bool ieq(u32 const& a, char const* b) { size_t i = 0; for (; i < a.size() && b[i]; ++i) if (lower(a[i]) != lower(char32_t(b[i]))) return false; return i == a.size() && !b[i]; }
		static bool ipre(u32 const& a, char const* b) { for (size_t i = 0; b[i]; ++i) if (i >= a.size() || lower(a[i]) != lower(char32_t(b[i]))) return false; return true; }
		void initial(token& t)
		{
			if (wsc(t)) return;
			if (t.k == token::COMMENT) return comment(t, doc);
			if (t.k == token::DOCTYPE)
			{
				node* d = mk(node::DOCTYPE); d->name = t.name; d->data = t.pub; d->sys = t.sys; put({ doc, nullptr }, d);
				static char const* const Q[] = { "+//Silmaril//dtd html Pro v0r11 19970101//", "-//AS//DTD HTML 3.0 asWedit + extensions//", "-//AdvaSoft Ltd//DTD HTML 3.0 asWedit + extensions//", "-//IETF//DTD HTML 2.0 Level 1//", "-//IETF//DTD HTML 2.0 Level 2//", "-//IETF//DTD HTML 2.0 Strict Level 1//", "-//IETF//DTD HTML 2.0 Strict Level 2//", "-//IETF//DTD HTML 2.0 Strict//", "-//IETF//DTD HTML 2.0//", "-//IETF//DTD HTML 2.1E//", "-//IETF//DTD HTML 3.0//", "-//IETF//DTD HTML 3.2 Final//", "-//IETF//DTD HTML 3.2//", "-//IETF//DTD HTML 3//", "-//IETF//DTD HTML Level 0//", "-//IETF//DTD HTML Level 1//", "-//IETF//DTD HTML Level 2//", "-//IETF//DTD HTML Level 3//", "-//IETF//DTD HTML Strict Level 0//", "-//IETF//DTD HTML Strict Level 1//", "-//IETF//DTD HTML Strict Level 2//", "-//IETF//DTD HTML Strict Level 3//", "-//IETF//DTD HTML Strict//", "-//IETF//DTD HTML//", "-//Metrius//DTD Metrius Presentational//", "-//Microsoft//DTD Internet Explorer 2.0 HTML Strict//", "-//Microsoft//DTD Internet Explorer 2.0 HTML//", "-//Microsoft//DTD Internet Explorer 2.0 Tables//", "-//Microsoft//DTD Internet Explorer 3.0 HTML Strict//", "-//Microsoft//DTD Internet Explorer 3.0 HTML//", "-//Microsoft//DTD Internet Explorer 3.0 Tables//", "-//Netscape Comm. Corp.//DTD HTML//", "-//Netscape Comm. Corp.//DTD Strict HTML//", "-//O'Reilly and Associates//DTD HTML 2.0//", "-//O'Reilly and Associates//DTD HTML Extended 1.0//", "-//O'Reilly and Associates//DTD HTML Extended Relaxed 1.0//", "-//SQ//DTD HTML 2.0 HoTMetaL + extensions//", "-//SoftQuad Software//DTD HoTMetaL PRO 6.0::19990601::extensions to HTML 4.0//", "-//SoftQuad//DTD HoTMetaL PRO 4.0::19971010::extensions to HTML 4.0//", "-//Spyglass//DTD HTML 2.0 Extended//", "-//Sun Microsystems Corp.//DTD HotJava HTML//", "-//Sun Microsystems Corp.//DTD HotJava Strict HTML//", "-//W3C//DTD HTML 3 1995-03-24//", "-//W3C//DTD HTML 3.2 Draft//", "-//W3C//DTD HTML 3.2 Final//", "-//W3C//DTD HTML 3.2//", "-//W3C//DTD HTML 3.2S Draft//", "-//W3C//DTD HTML 4.0 Frameset//", "-//W3C//DTD HTML 4.0 Transitional//", "-//W3C//DTD HTML Experimental 19960712//", "-//W3C//DTD HTML Experimental 970421//", "-//W3C//DTD W3 HTML//", "-//W3O//DTD W3 HTML 3.0//", "-//WebTechs//DTD Mozilla HTML 2.0//", "-//WebTechs//DTD Mozilla HTML//" };
				bool q = t.flag || t.name != U"html" || ieq(t.pub, "-//W3O//DTD W3 HTML Strict 3.0//EN//") || ieq(t.pub, "-/W3C/DTD HTML 4.0 Transitional/EN") || ieq(t.pub, "HTML") || ieq(t.sys, "http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd");
				for (auto p : Q) q = q || ipre(t.pub, p);
				bool f4 = ipre(t.pub, "-//W3C//DTD HTML 4.01 Frameset//") || ipre(t.pub, "-//W3C//DTD HTML 4.01 Transitional//");
				q = q || (!t.has_sys && f4); quirks = q;
				limited = !q && (ipre(t.pub, "-//W3C//DTD XHTML 1.0 Frameset//") || ipre(t.pub, "-//W3C//DTD XHTML 1.0 Transitional//") || (t.has_sys && f4));
				mode = BEFORE_HTML; return;
			}
			quirks = true; again(t, BEFORE_HTML);
		}
		void before_html(token& t)
		{
			if (t.k == token::DOCTYPE) return;
			if (t.k == token::COMMENT) return comment(t, doc);
			if (wsc(t)) return;
			if (S(t, { U"html" })) { node* e = create(t); put({ doc, nullptr }, e); st.push_back(e); mode = BEFORE_HEAD; return; }
			if (t.k == token::END && !E(t, { U"head", U"body", U"html", U"br" })) return;
			token h; h.k = token::START; h.name = U"html"; node* e = create(h); put({ doc, nullptr }, e); st.push_back(e);
			again(t, BEFORE_HEAD);
		}
		void before_head(token& t)
		{
			if (wsc(t)) return;
			if (t.k == token::COMMENT) return comment(t);
			if (t.k == token::DOCTYPE) return;
			if (S(t, { U"html" })) return in_body(t);
			if (S(t, { U"head" })) { head = insert(t); mode = IN_HEAD; return; }
			if (t.k == token::END && !E(t, { U"head", U"body", U"html", U"br" })) return;
			head = insert(U"head"); again(t, IN_HEAD);
		}
		void end_template(token& t)
		{
			(void)t; if (!has(U"template")) return;
			implied_all(); pop_until({ U"template" }); clear_to_marker(); tmodes.pop_back(); reset_mode();
		}
		void in_head(token& t)
		{
			if (wsc(t)) return text(t.c);
			if (t.k == token::COMMENT) return comment(t);
			if (t.k == token::DOCTYPE) return;
			if (S(t, { U"html" })) return in_body(t);
			if (S(t, { U"base", U"basefont", U"bgsound", U"link", U"meta" })) { insert(t); pop(); if (t.name == U"meta" && on_meta) on_meta(t); return; }
			if (S(t, { U"title" })) return raw(t, RCDATA);
			if (S(t, { U"noframes", U"style" })) return raw(t, RAWTEXT);
			if (S(t, { U"noscript" })) { insert(t); mode = IN_HEAD_NOSCRIPT; return; }
			if (S(t, { U"script" })) return raw(t, SCRIPT);
			if (E(t, { U"head" })) { pop(); mode = AFTER_HEAD; return; }
			if (S(t, { U"template" })) { insert(t); marker(); frameset_ok = false; mode = IN_TEMPLATE; tmodes.push_back(IN_TEMPLATE); return; }
			if (E(t, { U"template" })) return end_template(t);
			if (S(t, { U"head" }) || (t.k == token::END && !E(t, { U"body", U"html", U"br" }))) return;
			pop(); again(t, AFTER_HEAD);
		}
		void in_head_noscript(token& t)
		{
			if (t.k == token::DOCTYPE) return;
			if (S(t, { U"html" })) return in_body(t);
			if (E(t, { U"noscript" })) { pop(); mode = IN_HEAD; return; }
			if (wsc(t) || t.k == token::COMMENT || S(t, { U"basefont", U"bgsound", U"link", U"meta", U"noframes", U"style" })) return in_head(t);
			if (S(t, { U"head", U"noscript" }) || (t.k == token::END && t.name != U"br")) return;
			pop(); again(t, IN_HEAD);
		}
		void after_head(token& t)
		{
			if (wsc(t)) return text(t.c);
			if (t.k == token::COMMENT) return comment(t);
			if (t.k == token::DOCTYPE) return;
			if (S(t, { U"html" })) return in_body(t);
			if (S(t, { U"body" })) { insert(t); frameset_ok = false; mode = IN_BODY; return; }
			if (S(t, { U"frameset" })) { insert(t); mode = IN_FRAMESET; return; }
			if (S(t, { U"base", U"basefont", U"bgsound", U"link", U"meta", U"noframes", U"script", U"style", U"template", U"title" })) { st.push_back(head); in_head(t); remove_from_stack(head); return; }
			if (E(t, { U"template" })) return in_head(t);
			if (S(t, { U"head" }) || (t.k == token::END && !E(t, { U"body", U"html", U"br" }))) return;
			insert(U"body"); again(t, IN_BODY);
		}
		void merge(token& t, node* n) { for (auto& a : t.attrs) { bool h = false; for (auto& b : n->attrs) h = h || (b.ns.empty() && b.local == a.first); if (!h) n->attrs.push_back(attribute(a.first, a.second, HTML)); } }
		void any_end(token& t)
		{
			for (size_t i = st.size(); i-- > 0;)
			{
				node* n = st[i];
				if (n->ns == HTML && n->name == t.name) { implied(t.name); st.resize(i); return; }
				if (special(n)) return;
			}
		}
		void in_body(token& t)
		{
			static sset const HEADS = { U"h1", U"h2", U"h3", U"h4", U"h5", U"h6" };
			if (t.k == token::CHAR)
			{
				if (t.c == 0) return;
				reconstruct(); text(t.c); if (!wsc(t)) frameset_ok = false; return;
			}
			if (t.k == token::COMMENT) return comment(t);
			if (t.k == token::DOCTYPE) return;
			if (t.k == token::EOFT) { if (!tmodes.empty()) return in_template(t); stopped = true; return; }
			if (t.k == token::START)
			{
				u32 const& n = t.name;
				if (n == U"html") { if (has(U"template")) return; merge(t, st[0]); return; }
				if (S(t, { U"base", U"basefont", U"bgsound", U"link", U"meta", U"noframes", U"script", U"style", U"template", U"title" })) return in_head(t);
				if (n == U"body") { if (st.size() < 2 || !is(st[1], U"body") || has(U"template")) return; frameset_ok = false; merge(t, st[1]); return; }
				if (n == U"frameset") { if (st.size() < 2 || !is(st[1], U"body")) return; if (!frameset_ok) return; detach(st[1]); st.resize(1); insert(t); mode = IN_FRAMESET; return; }
				if (S(t, { U"address", U"article", U"aside", U"blockquote", U"center", U"details", U"dialog", U"dir", U"div", U"dl", U"fieldset", U"figcaption", U"figure", U"footer", U"header", U"hgroup", U"main", U"menu", U"nav", U"ol", U"p", U"section", U"summary", U"ul" })) { close_p_in_scope(); insert(t); return; }
				if (HEADS.count(n)) { close_p_in_scope(); if (in(cur(), HEADS)) pop(); insert(t); return; }
				if (n == U"pre" || n == U"listing") { close_p_in_scope(); insert(t); skip_lf = true; frameset_ok = false; return; }
				if (n == U"form") { bool tm = has(U"template"); if (form && !tm) return; close_p_in_scope(); node* f = insert(t); if (!tm) form = f; return; }
				if (n == U"li" || n == U"dd" || n == U"dt")
				{
					frameset_ok = false;
					for (size_t i = st.size(); i-- > 0;)
					{
						node* x = st[i];
						if (n == U"li" ? is(x, U"li") : (is(x, U"dd") || is(x, U"dt"))) { u32 nm = x->name; implied(nm); pop_until({ nm }); break; }
						if (special(x) && !is(x, U"address") && !is(x, U"div") && !is(x, U"p")) break;
					}
					close_p_in_scope(); insert(t); return;
				}
				if (n == U"plaintext") { close_p_in_scope(); insert(t); lx.m = PLAINTEXT; return; }
				if (n == U"button") { if (scoped({ U"button" })) { implied(); pop_until({ U"button" }); } reconstruct(); insert(t); frameset_ok = false; return; }
				if (n == U"a")
				{
					node* a = nullptr; for (size_t i = list.size(); i-- > 0 && list[i].n;) if (list[i].n->name == U"a") { a = list[i].n; break; }
					if (a) { token e; e.k = token::END; e.name = U"a"; if (adoption(e)) any_end(e); int li = list_index(a); if (li >= 0) list.erase(list.begin() + li); remove_from_stack(a); }
					reconstruct(); push_format(insert(t), t); return;
				}
				if (S(t, { U"b", U"big", U"code", U"em", U"font", U"i", U"s", U"small", U"strike", U"strong", U"tt", U"u" })) { reconstruct(); push_format(insert(t), t); return; }
				if (n == U"nobr") { reconstruct(); if (scoped({ U"nobr" })) { token e; e.k = token::END; e.name = U"nobr"; if (adoption(e)) any_end(e); reconstruct(); } push_format(insert(t), t); return; }
				if (S(t, { U"applet", U"marquee", U"object" })) { reconstruct(); insert(t); marker(); frameset_ok = false; return; }
				if (n == U"table") { if (!quirks) close_p_in_scope(); insert(t); frameset_ok = false; mode = IN_TABLE; return; }
				if (S(t, { U"area", U"br", U"embed", U"img", U"keygen", U"wbr" })) { reconstruct(); insert(t); pop(); frameset_ok = false; return; }
				if (n == U"input") { reconstruct(); insert(t); pop(); if (!hidden(t)) frameset_ok = false; return; }
				if (S(t, { U"param", U"source", U"track" })) { insert(t); pop(); return; }
				if (n == U"hr") { close_p_in_scope(); insert(t); pop(); frameset_ok = false; return; }
				if (n == U"image") { t.name = U"img"; return dispatch(t); }
				if (n == U"textarea") { insert(t); skip_lf = true; lx.m = RCDATA; orig = mode; frameset_ok = false; mode = TEXTM; return; }
				if (n == U"xmp") { close_p_in_scope(); reconstruct(); frameset_ok = false; return raw(t, RAWTEXT); }
				if (n == U"iframe") { frameset_ok = false; return raw(t, RAWTEXT); }
				if (n == U"noembed") return raw(t, RAWTEXT);
				if (n == U"select")
				{
					reconstruct(); insert(t); frameset_ok = false;
					mode = (mode == IN_TABLE || mode == IN_CAPTION || mode == IN_TBODY || mode == IN_ROW || mode == IN_CELL) ? IN_SELECT_IN_TABLE : IN_SELECT; return;
				}
				if (n == U"optgroup" || n == U"option") { if (is(cur(), U"option")) pop(); reconstruct(); insert(t); return; }
				if (n == U"rb" || n == U"rtc") { if (scoped({ U"ruby" })) implied(); insert(t); return; }
				if (n == U"rp" || n == U"rt") { if (scoped({ U"ruby" })) implied(U"rtc"); insert(t); return; }
				if (n == U"math" || n == U"svg") { reconstruct(); insert(t, n == U"math" ? MATH : SVG); if (t.flag) pop(); return; }
				if (S(t, { U"caption", U"col", U"colgroup", U"frame", U"head", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" })) return;
				reconstruct(); insert(t); return;
			}
			u32 const& n = t.name;
			if (n == U"template") return in_head(t);
			if (n == U"body" || n == U"html") { if (!scoped({ U"body" })) return; mode = AFTER_BODY; if (n == U"html") dispatch(t); return; }
			if (E(t, { U"address", U"article", U"aside", U"blockquote", U"button", U"center", U"details", U"dialog", U"dir", U"div", U"dl", U"fieldset", U"figcaption", U"figure", U"footer", U"header", U"hgroup", U"listing", U"main", U"menu", U"nav", U"ol", U"pre", U"section", U"summary", U"ul" })) { if (!scoped({ n })) return; implied(); pop_until({ n }); return; }
			if (n == U"form")
			{
				if (!has(U"template")) { node* f = form; form = nullptr; if (!f || !scoped(f)) return; implied(); remove_from_stack(f); return; }
				if (!scoped({ U"form" })) return;
				implied(); pop_until({ U"form" }); return;
			}
			if (n == U"p") { if (!scoped({ U"p" }, BUTTON)) insert(U"p"); close_p(); return; }
			if (n == U"li") { if (!scoped({ U"li" }, LIST)) return; implied(U"li"); pop_until({ U"li" }); return; }
			if (n == U"dd" || n == U"dt") { if (!scoped({ n })) return; implied(n); pop_until({ n }); return; }
			if (HEADS.count(n)) { if (!scoped(HEADS)) return; implied(); pop_until(HEADS); return; }
			if (E(t, { U"a", U"b", U"big", U"code", U"em", U"font", U"i", U"nobr", U"s", U"small", U"strike", U"strong", U"tt", U"u" })) { if (adoption(t)) any_end(t); return; }
			if (E(t, { U"applet", U"marquee", U"object" })) { if (!scoped({ n })) return; implied(); pop_until({ n }); clear_to_marker(); return; }
			if (n == U"br") { reconstruct(); insert(U"br"); pop(); frameset_ok = false; return; }
			any_end(t);
		}
		static bool hidden(token const& t) { for (auto& a : t.attrs) if (a.first == U"type") return ieq(a.second, "hidden"); return false; }
		void in_text(token& t)
		{
			if (t.k == token::CHAR) return text(t.c);
			if (t.k == token::EOFT) { pop(); mode = orig; return dispatch(t); }
			pop(); mode = orig;
		}
		void clear_stack(sset const& s) { while (!in(cur(), s) && !in(cur(), { U"template", U"html" })) pop(); }
		void fostered(token& t) { foster = true; in_body(t); foster = false; }
		void in_table(token& t)
		{
			if (t.k == token::CHAR && in(cur(), { U"table", U"tbody", U"tfoot", U"thead", U"tr" })) { pending.clear(); pending_non_ws = false; orig = mode; mode = IN_TABLE_TEXT; return dispatch(t); }
			if (t.k == token::COMMENT) return comment(t);
			if (t.k == token::DOCTYPE) return;
			if (t.k == token::START)
			{
				u32 const& n = t.name;
				if (n == U"caption") { clear_stack({ U"table" }); marker(); insert(t); mode = IN_CAPTION; return; }
				if (n == U"colgroup") { clear_stack({ U"table" }); insert(t); mode = IN_COLGROUP; return; }
				if (n == U"col") { clear_stack({ U"table" }); insert(U"colgroup"); return again(t, IN_COLGROUP); }
				if (S(t, { U"tbody", U"tfoot", U"thead" })) { clear_stack({ U"table" }); insert(t); mode = IN_TBODY; return; }
				if (S(t, { U"td", U"th", U"tr" })) { clear_stack({ U"table" }); insert(U"tbody"); return again(t, IN_TBODY); }
				if (n == U"table") { if (!scoped({ U"table" }, TABLE)) return; pop_until({ U"table" }); reset_mode(); return dispatch(t); }
				if (S(t, { U"style", U"script", U"template" })) return in_head(t);
				if (n == U"input" && hidden(t)) { insert(t); pop(); return; }
				if (n == U"form") { if (has(U"template") || form) return; form = insert(t); pop(); return; }
			}
			else if (t.k == token::END)
			{
				if (t.name == U"table") { if (!scoped({ U"table" }, TABLE)) return; pop_until({ U"table" }); reset_mode(); return; }
				if (E(t, { U"body", U"caption", U"col", U"colgroup", U"html", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" })) return;
				if (t.name == U"template") return in_head(t);
			}
			else if (t.k == token::EOFT) return in_body(t);
			fostered(t);
		}
		void in_table_text(token& t)
		{
			if (t.k == token::CHAR) { if (t.c == 0) return; pending += t.c; if (!wsc(t)) pending_non_ws = true; return; }
			u32 p; p.swap(pending); bool nw = pending_non_ws; pending_non_ws = false;
			for (char32_t c : p) { if (nw) { token x; x.k = token::CHAR; x.c = c; fostered(x); } else text(c); }
			mode = orig; dispatch(t);
		}
		bool close_caption() { if (!scoped({ U"caption" }, TABLE)) return false; implied(); pop_until({ U"caption" }); clear_to_marker(); mode = IN_TABLE; return true; }
		void in_caption(token& t)
		{
			if (E(t, { U"caption" })) { close_caption(); return; }
			if (S(t, { U"caption", U"col", U"colgroup", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" }) || E(t, { U"table" })) { if (close_caption()) dispatch(t); return; }
			if (E(t, { U"body", U"col", U"colgroup", U"html", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" })) return;
			in_body(t);
		}
		void in_colgroup(token& t)
		{
			if (wsc(t)) return text(t.c);
			if (t.k == token::COMMENT) return comment(t);
			if (t.k == token::DOCTYPE) return;
			if (S(t, { U"html" })) return in_body(t);
			if (S(t, { U"col" })) { insert(t); pop(); return; }
			if (E(t, { U"colgroup" })) { if (!is(cur(), U"colgroup")) return; pop(); mode = IN_TABLE; return; }
			if (E(t, { U"col" })) return;
			if (S(t, { U"template" }) || E(t, { U"template" })) return in_head(t);
			if (t.k == token::EOFT) return in_body(t);
			if (!is(cur(), U"colgroup")) return;
			pop(); again(t, IN_TABLE);
		}
		void in_tbody(token& t)
		{
			static sset const B = { U"tbody", U"tfoot", U"thead" };
			if (S(t, { U"tr" })) { clear_stack(B); insert(t); mode = IN_ROW; return; }
			if (S(t, { U"th", U"td" })) { clear_stack(B); insert(U"tr"); return again(t, IN_ROW); }
			if (E(t, B)) { if (!scoped({ t.name }, TABLE)) return; clear_stack(B); pop(); mode = IN_TABLE; return; }
			if (S(t, { U"caption", U"col", U"colgroup", U"tbody", U"tfoot", U"thead" }) || E(t, { U"table" })) { if (!scoped(B, TABLE)) return; clear_stack(B); pop(); return again(t, IN_TABLE); }
			if (E(t, { U"body", U"caption", U"col", U"colgroup", U"html", U"td", U"th", U"tr" })) return;
			in_table(t);
		}
		bool close_row() { if (!scoped({ U"tr" }, TABLE)) return false; clear_stack({ U"tr" }); pop(); mode = IN_TBODY; return true; }
		void in_row(token& t)
		{
			if (S(t, { U"th", U"td" })) { clear_stack({ U"tr" }); insert(t); mode = IN_CELL; marker(); return; }
			if (E(t, { U"tr" })) { close_row(); return; }
			if (S(t, { U"caption", U"col", U"colgroup", U"tbody", U"tfoot", U"thead", U"tr" }) || E(t, { U"table" })) { if (close_row()) dispatch(t); return; }
			if (E(t, { U"tbody", U"tfoot", U"thead" })) { if (!scoped({ t.name }, TABLE)) return; if (close_row()) dispatch(t); return; }
			if (E(t, { U"body", U"caption", U"col", U"colgroup", U"html", U"td", U"th" })) return;
			in_table(t);
		}
		void close_cell() { implied(); pop_until({ U"td", U"th" }); clear_to_marker(); mode = IN_ROW; }
		void in_cell(token& t)
		{
			if (E(t, { U"td", U"th" })) { if (!scoped({ t.name }, TABLE)) return; implied(); pop_until({ t.name }); clear_to_marker(); mode = IN_ROW; return; }
			if (S(t, { U"caption", U"col", U"colgroup", U"tbody", U"td", U"tfoot", U"th", U"thead", U"tr" })) { if (!scoped({ U"td", U"th" }, TABLE)) return; close_cell(); return dispatch(t); }
			if (E(t, { U"body", U"caption", U"col", U"colgroup", U"html" })) return;
			if (E(t, { U"table", U"tbody", U"tfoot", U"thead", U"tr" })) { if (!scoped({ t.name }, TABLE)) return; close_cell(); return dispatch(t); }
			in_body(t);
		}
		void in_select(token& t)
		{
			switch (t.k)
			{
			case token::CHAR: if (t.c) text(t.c); return;
			case token::COMMENT: return comment(t);
			case token::DOCTYPE: return;
			case token::EOFT: return in_body(t);
			case token::START:
				if (t.name == U"html") return in_body(t);
				if (t.name == U"option") { if (is(cur(), U"option")) pop(); insert(t); return; }
				if (t.name == U"optgroup") { if (is(cur(), U"option")) pop(); if (is(cur(), U"optgroup")) pop(); insert(t); return; }
				if (t.name == U"select") { if (!scoped({ U"select" }, SELECT)) return; pop_until({ U"select" }); reset_mode(); return; }
				if (S(t, { U"input", U"keygen", U"textarea" })) { if (!scoped({ U"select" }, SELECT)) return; pop_until({ U"select" }); reset_mode(); return dispatch(t); }
				if (S(t, { U"script", U"template" })) return in_head(t);
				return;
			case token::END:
				if (t.name == U"optgroup") { if (is(cur(), U"option") && st.size() > 1 && is(st[st.size() - 2], U"optgroup")) pop(); if (is(cur(), U"optgroup")) pop(); return; }
				if (t.name == U"option") { if (is(cur(), U"option")) pop(); return; }
				if (t.name == U"select") { if (!scoped({ U"select" }, SELECT)) return; pop_until({ U"select" }); reset_mode(); return; }
				if (t.name == U"template") return in_head(t);
				return;
			}
		}
		void in_select_in_table(token& t)
		{
			static sset const T = { U"caption", U"table", U"tbody", U"tfoot", U"thead", U"tr", U"td", U"th" };
			if (S(t, T)) { pop_until({ U"select" }); reset_mode(); return dispatch(t); }
			if (E(t, T)) { if (!scoped({ t.name }, TABLE)) return; pop_until({ U"select" }); reset_mode(); return dispatch(t); }
			in_select(t);
		}
		void in_template(token& t)
		{
			if (t.k == token::CHAR || t.k == token::COMMENT || t.k == token::DOCTYPE) return in_body(t);
			if (S(t, { U"base", U"basefont", U"bgsound", U"link", U"meta", U"noframes", U"script", U"style", U"template", U"title" }) || E(t, { U"template" })) return in_head(t);
			auto sw = [&](mode_t m) { tmodes.pop_back(); tmodes.push_back(m); again(t, m); };
			if (t.k == token::START)
			{
				if (S(t, { U"caption", U"colgroup", U"tbody", U"tfoot", U"thead" })) return sw(IN_TABLE);
				if (t.name == U"col") return sw(IN_COLGROUP);
				if (t.name == U"tr") return sw(IN_TBODY);
				if (t.name == U"td" || t.name == U"th") return sw(IN_ROW);
				return sw(IN_BODY);
			}
			if (t.k == token::END) return;
			if (!has(U"template")) { stopped = true; return; }
			pop_until({ U"template" }); clear_to_marker(); tmodes.pop_back(); reset_mode(); dispatch(t);
		}
		void after_body(token& t)
		{
			if (wsc(t)) return in_body(t);
			if (t.k == token::COMMENT) return comment(t, st[0]);
			if (t.k == token::DOCTYPE) return;
			if (S(t, { U"html" })) return in_body(t);
			if (E(t, { U"html" })) { mode = AFTER_AFTER_BODY; return; }
			if (t.k == token::EOFT) { stopped = true; return; }
			again(t, IN_BODY);
		}
		void in_frameset(token& t)
		{
			if (wsc(t)) return text(t.c);
			if (t.k == token::COMMENT) return comment(t);
			if (S(t, { U"html" })) return in_body(t);
			if (S(t, { U"frameset" })) { insert(t); return; }
			if (E(t, { U"frameset" })) { if (st.size() == 1) return; pop(); if (!is(cur(), U"frameset")) mode = AFTER_FRAMESET; return; }
			if (S(t, { U"frame" })) { insert(t); pop(); return; }
			if (S(t, { U"noframes" })) return in_head(t);
			if (t.k == token::EOFT) stopped = true;
		}
		void after_frameset(token& t)
		{
			if (wsc(t)) return text(t.c);
			if (t.k == token::COMMENT) return comment(t);
			if (S(t, { U"html" })) return in_body(t);
			if (E(t, { U"html" })) { mode = AFTER_AFTER_FRAMESET; return; }
			if (S(t, { U"noframes" })) return in_head(t);
			if (t.k == token::EOFT) stopped = true;
		}
		void after_after_body(token& t)
		{
			if (t.k == token::COMMENT) return comment(t, doc);
			if (t.k == token::DOCTYPE || wsc(t) || S(t, { U"html" })) return in_body(t);
			if (t.k == token::EOFT) { stopped = true; return; }
			again(t, IN_BODY);
		}
		void after_after_frameset(token& t)
		{
			if (t.k == token::COMMENT) return comment(t, doc);
			if (t.k == token::DOCTYPE || wsc(t) || S(t, { U"html" })) return in_body(t);
			if (t.k == token::EOFT) { stopped = true; return; }
			if (S(t, { U"noframes" })) return in_head(t);
		}
	};
	inline void dump(node const* n, std::string& o)
	{
		switch (n->k)
		{
		case node::DOCUMENT: break;
		case node::DOCTYPE: o += "<!DOCTYPE " + utf8(n->name) + ">"; return;
		case node::TEXT: o += "\"" + utf8(n->data) + "\""; return;
		case node::COMMENT: o += "<!--" + utf8(n->data) + "-->"; return;
		case node::ELEMENT:
			o += "<" + std::string(n->ns == MATH ? "math " : n->ns == SVG ? "svg " : "") + utf8(n->name);
			for (auto& a : n->attrs) { o += " "; if (!a.ns.empty()) o += "{" + a.ns + "}"; if (!a.prefix.empty()) o += utf8(a.prefix) + ":"; o += utf8(a.local) + "={" + utf8(a.value) + "}"; }
			o += ">"; break;
		}
		if (n->kids.empty()) return;
		o += "("; for (node const* k : n->kids) dump(k, o); o += ")";
	}
}
