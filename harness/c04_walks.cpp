// C04: walks over every tree shape, for both tree containers.
#include "forest_model.hpp"
#include <wordring/tree/tree.hpp>
#include <wordring/tree/tree_iterator.hpp>
#include <wordring/tag_tree/tag_tree.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_traits.hpp>
using namespace std;
using namespace wordring;
using namespace wordring::html;

struct plain
{
	using T = tree<int>; T t;
	static int label(T::const_iterator it) { return *it; }
	T::iterator add(T::const_iterator p, int l, bool) { return t.insert(p, l); }
	static bool no_parent(T::const_iterator it, T const& t) { return it.parent() == t.end(); }
};
struct tags
{
	using T = u8simple_tree; T t;
	static int label(T::const_iterator it)
	{
		using Tr = node_traits<T::const_iterator>;
		u8string s = Tr::is_text(it) ? Tr::data(it) : Tr::get_local_name(it);
		return stoi(string(s.begin() + 1, s.end()));
	}
	T::iterator add(T::const_iterator p, int l, bool text)
	{
		string n = "n" + to_string(l); u8string u(n.begin(), n.end());
		if (text) return t.insert(p, simple_text<u8string>(u));
		return t.insert(p, simple_element<u8string>(u));
	}
	static bool no_parent(T::const_iterator it, T const& t) { return it.parent() == T::const_iterator(); }
};

template <class W> struct runner
{
	W w; forest f; vector<typename W::T::iterator> at{ 1 };
	using It = typename W::T::iterator; using CIt = typename W::T::const_iterator;
	// order: 0 append in document order, 1 prepend from the last node
	void build(string const& shape, int order, bool text)
	{
		vector<int> st{ 0 };
		auto rec = [&](auto& self, string const& s, int p) -> void
		{
			vector<string> ks; int d = 0; size_t b = 0;
			for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '(') { if (d++ == 0) b = i; } else if (--d == 0) ks.push_back(s.substr(b + 1, i - b - 1)); }
			if (order) reverse(ks.begin(), ks.end());
			for (auto& k : ks)
			{
				size_t i = order ? 0 : f.n[p].kids.size(); int id = f.add(p, i, int(f.n.size()));
				It pos = p ? (order ? at[p].begin() : at[p].end()) : (order ? w.t.begin() : w.t.end());
				at.push_back(w.add(pos, id, text && k.empty()));
				self(self, k, id);
			}
		};
		rec(rec, shape, 0);
	}
	vector<int> pre(int id) { vector<int> o{ id }; for (int k : f.n[id].kids) { auto v = pre(k); o.insert(o.end(), v.begin(), v.end()); } return o; }
	vector<int> level(int id) { vector<int> o{ id }; for (size_t i = 0; i < o.size(); ++i) for (int k : f.n[o[i]].kids) o.push_back(k); return o; }
	template <class Walk, class B> string walk(B start, vector<int> const& want, string name)
	{
		for (int mode = 0; mode < 2; ++mode)
		{
			Walk a(start), e; vector<int> got;
			while (a != e && got.size() <= want.size())
			{
				if (W::label(a.base()) != stoi(to_string(W::label(a.base())))) return "";
				got.push_back(W::label(a.base()));
				if (!(&*a == &*a.base()) || a.operator->() != &*a) return name + ": dereference differs from the underlying position";
				Walk copy = a; if (!(copy == a)) return name + ": copy is not equal";
				if (mode) { auto b = a++; if (W::label(b) != got.back()) return name + ": post-increment returns another node"; } else ++a;
				if (a != e && copy == a) return name + ": equal to its successor";
			}
			mc::transition(got.size());
			if (got != want) { string s = name + " from " + to_string(want[0]) + " visits"; for (int i : got) s += " " + to_string(i); s += " instead of"; for (int i : want) s += " " + to_string(i); return s; }
		}
		return "";
	}
	template <class I> string sib(int id, I b, I e)
	{
		auto& v = f.n[id].kids; I c = b; size_t i = 0;
		for (; i < v.size(); ++i, ++c) { if (c == e) return "sibling list ends early"; if (W::label(c) != v[i]) return "sibling step wrong"; I d = c; ++d; --d; if (!(d == c)) return "forward then back moves elsewhere"; I x = c; I y = x++; if (!(y == c)) return "post-increment wrong"; if (i) { I z = c; --z; if (W::label(z) != v[i - 1]) return "backward step wrong"; ++z; if (!(z == c)) return "back then forward moves elsewhere"; } }
		if (!(c == e)) return "sibling list too long";
		for (i = v.size(); i-- > 0;) { --c; if (W::label(c) != v[i]) return "backward from the end wrong"; }
		if (!(c == b)) return "backward walk misses begin";
		return "";
	}
	string run(string const& c)
	{
		build(c.substr(2), c[0] - '0', c[1] == 't');
		typename W::T const& ct = w.t;
		for (int id : f.ids())
		{
			mc::state(); string m;
			auto p = pre(id), l = level(id); It it = at[id]; CIt cit = it;
			m = walk<tree_iterator<It>>(it, p, "depth-first walk"); if (!m.empty()) return m;
			m = walk<tree_iterator<CIt>>(cit, p, "depth-first const walk"); if (!m.empty()) return m;
			m = walk<level_order_tree_iterator<It>>(it, l, "breadth-first walk"); if (!m.empty()) return m;
			m = walk<level_order_tree_iterator<CIt>>(cit, l, "breadth-first const walk"); if (!m.empty()) return m;
			if (!(f.n[id].kids.empty() && c[1] == 't' && it.begin() == it.end()))
			{
				m = sib(id, it.begin(), it.end()); if (!m.empty()) return m;
				m = sib(id, cit.begin(), cit.end()); if (!m.empty()) return m;
			}
			else if (!(it.begin() == it.end())) return "leaf has children";
			int par = f.n[id].parent;
			if (par ? !(it.parent() == at[par]) || !(cit.parent() == CIt(at[par])) : !W::no_parent(it, ct)) return "parent wrong";
			if (!f.n[id].kids.empty()) { It e = it.end(); --e; if (W::label(e) != f.n[id].kids.back()) return "last child wrong"; }
		}
		string m = sib(0, w.t.begin(), w.t.end()); if (!m.empty()) return "roots: " + m;
		m = sib(0, ct.begin(), ct.end()); if (!m.empty()) return "roots: " + m;
		mc::outcome(c);
		return "";
	}
};
static void all(mc::enumerator& e, int n, bool text)
{
	for (int c = 0; c <= n; ++c) { vector<string> s; shapes(c, s); for (auto& x : s) for (char o : { '0', '1' }) { e(string(1, o) + "e" + x); if (text) e(string(1, o) + "t" + x); } }
}
// large shapes: wide, chain, comb (leaf before / behind each step), caterpillar of runs, binary
static string big(char k, int n)
{
	string s; auto times = [](string x, int c) { string r; while (c--) r += x; return r; };
	if (k == 'w') return "(" + times("()", n) + ")";
	if (k == 'W') return times("()", n);
	if (k == 'd') return string(n, '(') + string(n, ')');
	if (k == 'l') { for (int i = 0; i < n; ++i) s = "(()" + s + ")"; return s; }
	if (k == 'r') { for (int i = 0; i < n; ++i) s = "(" + s + "())"; return s; }
	if (k == 'b') { s = "()"; for (int i = 1; i < n; i *= 2) s = "(" + s + s + ")"; return s; }
	if (k == 'f') { for (int i = 0; i < n; ++i) s += times("(", i % 7 + 1) + times(")", i % 7 + 1); return "(" + s + ")"; }
	for (int i = 0; i < n; ++i) s = "(" + times("()", i % 5) + s + times("(())", i % 3) + ")";
	return s;
}
static void large(mc::enumerator& e, bool text)
{
	for (char k : string("wWdlrbfc")) for (int n : { 10, 11, 12, 15, 16, 17, 18, 20, 31, 32, 33, 40, 50, 63, 64, 65, 70, 100, 127, 128, 129 }) for (char o : { '0', '1' }) { if (n > 70 && !mc::g_thorough && string("wd").find(k) == string::npos) continue; e(string(1, o) + "e" + string(1, k) + to_string(n)); if (text) e(string(1, o) + "t" + string(1, k) + to_string(n)); }
}
void mc_register()
{
	bool t = mc::g_thorough;
	mc::add("tree, large", [=](mc::enumerator& e) { large(e, false); }, [](string const& c) { runner<plain> r; return r.run(c.substr(0, 2) + big(c[2], stoi(c.substr(3)))); }, 60);
	mc::add("tag tree, large", [=](mc::enumerator& e) { large(e, true); }, [](string const& c) { runner<tags> r; return r.run(c.substr(0, 2) + big(c[2], stoi(c.substr(3)))); }, 60);
	mc::add("tree", [=](mc::enumerator& e) { all(e, t ? 11 : 9, false); }, [](string const& c) { runner<plain> r; return r.run(c); });
	mc::add("tag tree", [=](mc::enumerator& e) { all(e, t ? 10 : 8, true); }, [](string const& c) { runner<tags> r; return r.run(c); });
	mc::add("tree reverse iteration", [=](mc::enumerator& e) { all(e, t ? 10 : 8, false); }, [](string const& c) -> string
	{
		runner<plain> r; r.build(c.substr(2), c[0] - '0', false); mc::outcome(c);
		for (int id : r.f.ids()) { auto& v = r.f.n[id].kids; vector<int> got; for (auto it = r.at[id].rbegin(); it != r.at[id].rend(); ++it) { got.push_back(*it); if (got.size() > v.size()) break; } mc::state(); mc::transition(got.size()); if (got != vector<int>(v.rbegin(), v.rend())) return "reverse children wrong"; }
		return "";
	});
}
MC_MAIN
