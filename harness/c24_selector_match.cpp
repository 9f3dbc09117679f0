// C24: query_selector_all / query_selector return exactly the matching descendants in document order
#include "mc.hpp"
#include "sel_model.hpp"
#include <wordring/html/simple_html.hpp>
#include <wordring/css/selector.hpp>
#include <wordring/whatwg/infra/unicode.hpp>
using namespace std;
namespace html = wordring::html;
using tree = html::u8simple_tree; using node = html::u8simple_node; using elem = html::simple_element<u8string>; using attr = html::simple_attr<u8string>;
static u32string w(string const& s) { return u32string(s.begin(), s.end()); }
static u8string b(string const& s) { return u8string(s.begin(), s.end()); }
struct at { bool ns; string name, value; };                 // ns: in the xlink namespace
struct el { bool ns = true; string name; vector<at> attrs; int depth = 0, parent = -1, prev = -1; bool root = false; };
static char lc(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static string low(string s) { for (auto& c : s) c = lc(c); return s; }
static string n8(u32string const& s) { return string(s.begin(), s.end()); }
struct model
{
	vector<el> e; char kind; mutable bool dash = false;    // dash: the answer depends on [x|=v] where the value is exactly v, see the space dash-exact
	// H html, L limited quirks, Q quirks, X xml, D without a document
	bool eq(string const& x, string const& y, bool ci) const { return ci ? low(x) == low(y) : x == y; }
	bool simple(selref::simple const& s, el const& x) const
	{
		using S = selref::simple; bool h = kind == 'H' || kind == 'L' || kind == 'Q', q = kind == 'Q'; string name = n8(s.name);
		auto words = [](string const& v) { vector<string> r(1); for (char c : v) if (c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r') r.emplace_back(); else r.back() += c; return r; };
		switch (s.kind)
		{
		case S::UNIVERSAL: return !s.has_prefix || s.prefix == U"*" || (s.prefix.empty() && !x.ns);
		case S::TYPE: return (!s.has_prefix || s.prefix == U"*" || (s.prefix.empty() && !x.ns)) && eq(name, x.name, h);
		case S::ID: for (auto& a : x.attrs) if (!a.ns && a.name == "id" && eq(a.value, name, q)) return true; return false;
		case S::CLASS: for (auto& a : x.attrs) if (!a.ns && a.name == "class") for (auto& c : words(a.value)) if (!c.empty() && eq(c, name, q)) return true; return false;
		case S::PCLASS: return x.root && s.fn.empty() && low(name) == "root";
		case S::PELEM: return false;
		case S::ATTR: break;
		}
		bool ci = s.mod == 'i'; string v = n8(s.value); if (ci) v = low(v);
		for (auto& a : x.attrs)
		{
			if (a.ns && !(s.has_prefix && s.prefix == U"*")) continue;
			if (!eq(a.name, name, h)) continue;
			string t = ci ? low(a.value) : a.value;
			bool m = false;
			switch (s.op)
			{
			case 0: m = true; break;
			case '=': m = t == v; break;
			case '~': for (auto& c : words(t)) m = m || (!c.empty() && c == v); break;
			case '|': if (t == v) dash = true; m = t == v || t.rfind(v + "-", 0) == 0; break;
			case '^': m = !v.empty() && t.rfind(v, 0) == 0; break;
			case '$': m = !v.empty() && t.size() >= v.size() && t.substr(t.size() - v.size()) == v; break;
			case '*': m = !v.empty() && t.find(v) != string::npos; break;
			}
			if (m) return true;
		}
		return false;
	}
	bool match(selref::complex const& c, int k, int i) const
	{
		for (auto& s : c[k].v) if (!simple(s, e[i])) return false;
		if (k == 0) return true;
		switch (c[k].comb)
		{
		case ' ': for (int p = e[i].parent; p >= 0; p = e[p].parent) if (match(c, k - 1, p)) return true; return false;
		case '>': return e[i].parent >= 0 && match(c, k - 1, e[i].parent);
		case '+': return e[i].prev >= 0 && match(c, k - 1, e[i].prev);
		case '~': for (int p = e[i].prev; p >= 0; p = e[p].prev) if (match(c, k - 1, p)) return true; return false;
		}
		return false;
	}
};
using sel = pair<string, optional<vector<selref::complex>>>;
static vector<sel> compile(vector<string> const& v) { vector<sel> r; for (auto& s : v) r.emplace_back(s, selref::parse(w(s), {})); return r; }
// elements: depth and description, in document order; noise adds text, comments and a document type
static string run(char kind, bool noise, vector<el> v, vector<sel> const& sels, string const& what, bool exact = false)
{
	model m{ {}, kind }; tree t; tree::iterator top;
	vector<tree::iterator> at_depth; vector<tree::iterator> pos; vector<pair<tree::iterator, int>> starts;   // node, index of the element in whose subtree or -1 (document), -2 nothing
	if (kind != 'D')
	{
		html::simple_document<u8string> d; d.document_type(kind == 'X' ? html::document_type_name::Xml : html::document_type_name::Html);
		d.document_mode(kind == 'Q' ? html::document_mode_name::Quirks : kind == 'L' ? html::document_mode_name::LimitedQuirks : html::document_mode_name::NoQuirks);
		top = t.insert(t.end(), node(d)); starts.emplace_back(top, -1);
		if (noise) { starts.emplace_back(t.insert(top.end(), node(html::simple_document_type<u8string>(u8"html", u8"", u8""))), -2); starts.emplace_back(t.insert(top.end(), node(html::simple_comment<u8string>(u8"a"))), -2); }
		el h; h.name = "html"; h.depth = 0; h.root = true; for (auto& x : v) ++x.depth; v.insert(v.begin(), h);
	}
	vector<int> last;     // index of the last element at each depth
	for (size_t i = 0; i < v.size(); ++i)
	{
		el& x = v[i]; x.prev = size_t(x.depth) < last.size() ? last[x.depth] : -1; x.parent = x.depth ? last[x.depth - 1] : -1; last.resize(x.depth); last.push_back(int(i));
		elem n(x.ns ? html::ns_name::HTML : static_cast<html::ns_name>(0), u8"", b(x.name));
		for (auto& a : x.attrs) if (a.ns) n.push_back(attr(html::ns_name::XLink, u8"xlink", b(a.name), b(a.value))); else n.push_back(attr(b(a.name), b(a.value)));
		tree::iterator it;
		if (x.parent < 0) it = kind == 'D' ? t.insert(t.end(), node(n)) : t.insert(top.end(), node(n));
		else
		{
			auto p = pos[x.parent];
			if (noise) { starts.emplace_back(t.insert(p.end(), node(html::simple_text<u8string>(u8"a"))), -2); }
			it = t.insert(p.end(), node(n));
			if (noise) { t.insert(p.end(), node(html::simple_comment<u8string>(u8"b"))); }
		}
		pos.push_back(it); starts.emplace_back(it, int(i));
	}
	m.e = v; mc::state();
	if (starts.size() > 9) starts = { starts[0], starts[starts.size() / 2], starts.back() };
	for (auto& [text, parsed] : sels)
	{
		vector<char> hit(v.size(), 0); m.dash = false;
		if (parsed) for (size_t i = 0; i < v.size(); ++i) for (auto& c : *parsed) if (m.match(c, int(c.size()) - 1, int(i))) { hit[i] = 1; break; }
		if (m.dash && !exact) continue;
		for (auto& [start, idx] : starts)
		{
			vector<size_t> want;
			for (size_t i = 0; i < v.size() && idx != -2; ++i) if (hit[i])
			{
				bool in = idx == -1; for (int p = v[i].parent; p >= 0; p = v[p].parent) in = in || p == idx;
				if (in) want.push_back(i);
			}
			mc::transition();
			vector<tree::iterator> got; wordring::css::query_selector_all(start, b(text), back_inserter(got));
			bool ok = got.size() == want.size(); for (size_t k = 0; ok && k < got.size(); ++k) ok = got[k] == pos[want[k]];
			auto one = wordring::css::query_selector(start, w(text));
			bool ok1 = want.empty() ? one == tree::iterator() : one == pos[want[0]];
			string sig; for (size_t k : want) sig += to_string(k) + ","; mc::outcome(sig);
			if (!ok || !ok1)
			{
				string r; for (auto& g : got) { size_t k = 0; while (k < pos.size() && !(pos[k] == g)) ++k; r += to_string(k) + ","; }
				return what + ": '" + text + "' from " + (idx == -1 ? "the document" : idx == -2 ? "a text, comment or document type" : "element " + to_string(idx)) + " selects [" + r + "]" + (ok1 ? "" : ", query_selector something else,") + " not [" + sig + "]";
			}
		}
	}
	return "";
}
static el make(char c, int depth)
{
	el x; x.depth = depth; x.name = string(1, lc(c));
	return x;
}
static vector<el> parse_tree(string const& s) { vector<el> v; for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(make(s[i + 1], s[i] - '0')); return v; }
static void trees(mc::enumerator& e, string const& pre, int n, string const& labels, string s = "", int maxd = 0)
{
	if (!s.empty()) e(pre + s);
	if (n == 0) return;
	for (int d = s.empty() ? 0 : (pre[0] == 'D' ? 1 : 0); d <= maxd; ++d) for (char c : labels) trees(e, pre, n - 1, labels, s + char('0' + d) + c, d + 1);
}
static vector<string> chains(vector<string> const& comp, vector<string> const& comb, int n)
{
	vector<string> all, last = comp; all = last;
	for (int i = 1; i < n; ++i) { vector<string> next; for (auto& p : last) for (auto& k : comb) for (auto& c : comp) next.push_back(p + k + c); all.insert(all.end(), next.begin(), next.end()); last = next; }
	return all;
}
static string q(string const& s) { return "'" + s + "'"; }
void mc_register()
{
	int X = mc::g_thorough ? 1 : 0;
	static auto comb3 = compile(chains({ "a", "b", "*" }, { " ", ">", "+", "~" }, 3)), comb4 = compile(chains({ "a", "b" }, { " ", ">", "+", "~" }, 4)), comb2 = compile(chains({ "a", "b", "*", "html", ":root" }, { " ", " > ", "+ ", " ~" }, 2));
	auto go = [](vector<sel> const& s) { return [&s](string const& c) { return run(c[0], c[1] == 'n', parse_tree(c.substr(2)), s, c); }; };
	mc::add("combinators-3", [X](mc::enumerator& e) { trees(e, "H-", 4 + X, "ab"); trees(e, "Hn", 3 + X, "ab"); }, go(comb3));
	mc::add("combinators-4", [X](mc::enumerator& e) { trees(e, "H-", 3 + X, "ab"); }, go(comb4));
	mc::add("combinators-2", [X](mc::enumerator& e) { for (auto k : { "H-", "Qn", "Xn", "Ln", "D-", "Dn" }) trees(e, k, 4 + X, "ab"); trees(e, "H-", 5 + X, "a"); }, go(comb2));
	// what is large: chains, rows, combs and hairy chains of up to 300 elements, with selectors that match at the far end only, and long selectors
	static auto far = compile([] {
		vector<string> v; for (auto& x : chains({ "a", "b", "c" }, { " ", ">", "+", "~" }, 3)) if (x.back() == 'c' && x[0] != 'c') v.push_back(x);
		for (string k : { " ", ">", "+", "~" }) for (int n : { 8, 16, 32, 64 }) for (string x : { "a" }) for (string last : { "a", "c" }) for (string first : { "", "b" }) if (k == ">" || k == "+") { string s = first; for (int i = 0; i < n; ++i) s += (s.empty() ? "" : k) + x; v.push_back(s + k + last); }
		string l = "z"; for (int i = 0; i < 70; ++i) l += ",z" + to_string(i); v.push_back(l); v.push_back(l + ",c"); v.push_back("c," + l); v.push_back(l + ",b c");
		for (string s : { "b>a a+a~a c", "b a>a a>c", "b a~a+a c", "b+a a a~c", "b~a+a a>a~a+c" }) v.push_back(s);
		return v; }());
	mc::add("large", [X](mc::enumerator& e) { for (char shape : string("crhk")) for (int n : mc::g_thorough ? vector<int>{ 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129 } : vector<int>{ 8, 9, 16, 17, 32, 33, 64, 65, 100, 129 }) for (string at : { "0", "m", "2" }) e(string(1, shape) + to_string(n) + "," + at); },
		[](string const& c) {
			int n = stoi(c.substr(1)); char at = c[c.find(',') + 1]; vector<el> v;
			int b = at == '0' ? 0 : at == 'm' ? n / 2 : max(0, n - 3);
			for (int i = 0; i < n; ++i)
			{
				el x; x.depth = c[0] == 'c' ? i : c[0] == 'r' ? (i ? 1 : 0) : c[0] == 'h' ? (i + 1) / 2 : i < n / 2 ? i : n / 2;  // chain, row, chain with a sibling at each level, chain ending in a row
				x.name = i == n - 1 ? "c" : i == b ? "b" : "a"; v.push_back(x);
			}
			return run('H', false, v, far, c); }, 120);
	// attribute values: one element, every value against every operator, operand and modifier
	static vector<sel> ops; { vector<string> v; vector<string> operands = { "", "a", "A", "b", "-", " ", "aa", "ab", "aB", "a-", "-a", "a a", "a b", "A-b" }; for (auto o : { "=", "~=", "|=", "^=", "$=", "*=" }) for (auto& x : operands) for (auto mod : { "", " i", "s" }) v.push_back("[x" + string(o) + q(x) + mod + "]"); v.push_back("[x]"); v.push_back("[X=a]"); v.push_back("[y]"); ops = compile(v); }
	mc::add("attribute-values", [X](mc::enumerator& e) { mc::all_strings(e, { "a", "A", "-", " ", "b" }, 0, 4 + X, "H"); mc::all_strings(e, { "a", "A", "-", " " }, 0, 3 + X, "X"); mc::all_strings(e, { "a", "A", "-", "\t" }, 0, 3 + X, "Q"); mc::all_strings(e, { "a", "-", "\n" }, 0, 3 + X, "D"); },
		[](string const& c) { el x; x.name = "p"; x.attrs = { { false, "x", c.substr(1) } }; return run(c[0], false, { x }, ops, "<p x='" + mc::escape(c.substr(1)) + "'> in " + c[0]); });
	// [x|=v] where the value of x is exactly v
	mc::add("dash-exact", [](mc::enumerator& e) { for (auto v : { "", "a", "A", "ab", "a-" }) for (auto mod : { "", "i" }) e(string(v) + "," + mod); },
		[](string const& c) { auto k = c.find(','); el x; x.name = "p"; x.attrs = { { false, "x", c.substr(0, k) } }; auto s = compile({ "[x|=" + q(c.substr(0, k)) + c.substr(k + 1) + "]" }); return run('H', false, { x }, s, "<p x='" + c.substr(0, k) + "'>", true); });
	// names, ids and classes in the document kinds
	static auto names = compile({ "a", "A", "*|a", "|a", "*|*", "|*", "*", "#i", "#I", ".c", ".C", ".d", ".cd", "[x]", "[X]", "[*|x]", "[|x]", "[*|x=v]", "[*|x=w]", "[|x=v]", "[x=w]", "[id=i]", "[class~=c]", "[xlink|x]", "n|a", "a.c#i", "a.c.d", "*.c", "a:root", ":root", ":ROOT", "html:root", ":root a", ":root > a", "a::before", "::x", ":x", ":f(a)", "a||a", "a,a", "a,#i,.c,*", "b,a", "a,b", "b , .c", "a,,b", "", " ", "a,", "#i a", "a:hover", "a b,html", "#1", ".1", "a > ", "[x='v' y]", " a ", "p", "q,[x=v],r" });
	static const vector<at> A = { { false, "id", "i" }, { false, "id", "I" }, { false, "class", "c" }, { false, "class", " C  d\t" }, { false, "class", "c d" }, { false, "x", "v" }, { true, "x", "w" }, { true, "x", "v" }, { false, "x", "w" }, { true, "id", "i" } };
	mc::add("names", [X](mc::enumerator& e) {
		vector<string> v; for (char n : string("ab")) for (char s : string("h0")) for (size_t i = 0; i <= A.size(); ++i) for (size_t j = i; j <= A.size(); ++j) if (i == A.size() ? j == i : true) v.push_back(string() + n + s + char('0' + i) + char('0' + j));
		for (char k : string("HQXL")) for (auto& x : v) { e(string(1, k) + x); for (size_t n = 0; n < v.size(); n += X ? 1 : 23) e(string(1, k) + x + v[n]); } },
		[](string const& c) {
			vector<el> v;
			for (size_t i = 1; i + 3 < c.size(); i += 4) { el x; x.name = string(1, c[i]); x.ns = c[i + 1] == 'h'; x.depth = int(v.size()); for (int k : { c[i + 2] - '0', c[i + 3] - '0' }) if (k < int(A.size())) { bool dup = false; for (auto& o : x.attrs) dup = dup || (o.ns == A[k].ns && o.name == A[k].name); if (!dup) x.attrs.push_back(A[k]); } v.push_back(x); }
			return run(c[0], false, v, names, c); });
	// compounds
	static auto compounds = compile([] { vector<string> v; vector<string> s = { "#i", ".c", ".d", "[x]", "[x=v]", ":root", "[*|x]" }; for (string t : { "", "a", "*", "html" }) { v.push_back(t); for (auto& p : s) { v.push_back(t + p); for (auto& r : s) { v.push_back(t + p + r); for (auto& u : s) v.push_back(t + p + r + u); } } } return v; }());
	mc::add("compounds", [](mc::enumerator& e) { for (int k = 0; k < 64; ++k) e(to_string(k)); },
		[](string const& c) { int k = stoi(c); el x; x.name = "a"; if (k & 1) x.attrs.push_back(A[0]); if (k & 2) x.attrs.push_back(A[2]); else if (k & 4) x.attrs.push_back({ false, "class", "d" }); if ((k & 6) == 6) x.attrs.back().value = "c d"; if (k & 8) x.attrs.push_back({ false, "x", "v" }); if (k & 16) x.attrs.push_back({ true, "x", "v" }); el y = x; if (k & 32) { y.depth = 1; y.name = "b"; return run('H', true, { x, y }, compounds, "compound " + c); } return run('H', false, { x }, compounds, "compound " + c); });
}
MC_MAIN
