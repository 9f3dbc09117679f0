// C03: tree container vs ordered forest, all edit histories.
#include "forest_model.hpp"
#include <wordring/tree/tree.hpp>
using namespace std;

struct val // moved-from state is visible
{
	int v = -7;
	val() = default;
	explicit val(int i) : v(i) {}
	val(val const&) = default;
	val& operator=(val const&) = default;
	val(val&& o) noexcept : v(o.v) { o.v = -1; }
	val& operator=(val&& o) noexcept { int t = o.v; o.v = -1; v = t; return *this; }
};
using T = wordring::tree<val>;
using It = T::iterator;
using CIt = T::const_iterator;

// insertions that build a large tree from empty: W roots, w children of one root, D chain, B binary, K comb;
// variant 0 appends, 1 prepends, 2 builds the same tree once before and erases it (every slot recycled)
static vector<string> bulk(char kind, int n, int variant)
{
	vector<string> r; vector<int> kids(2 * n + 2); auto S = [](int a) { return to_string(a); };
	int base = 0;
	for (int round = variant == 2 ? 0 : 1; round < 2; ++round)
	{
		for (int i = 1; i <= n; ++i)
		{
			int p = kind == 'W' ? 0 : kind == 'w' ? (i == 1 ? 0 : 1) : kind == 'D' ? i - 1 : kind == 'B' ? i / 2 : (i == 1 ? 0 : i % 2 ? i - 2 : i - 1);
			int id = p ? p + base : 0; int k = variant == 1 ? 0 : kids[id];
			r.push_back("I " + S(id) + " " + S(k)); ++kids[id];
		}
		if (round == 0) { if (kind == 'W') for (int i = 1; i <= n; ++i) r.push_back("E " + S(i % 2 ? (i + 1) / 2 : n + 1 - i / 2)); else r.push_back("E 1"); base = n; kids.assign(kids.size(), 0); }
	}
	return r;
}
static vector<string> expand(string const& op) { istringstream in(op); char o, k; int n, v; in >> o >> k >> n >> v; if (o == 'Z') return bulk(k, n, v); vector<string> r; int p = stoi(op.substr(2)), c = stoi(op.substr(op.rfind(' ') + 1)); while (c--) r.push_back("I " + to_string(p) + " 0"); return r; }

struct machine
{
	unique_ptr<T> t = make_unique<T>();
	forest f;
	map<int, It> held;           // id -> position obtained when the node was created or moved
	int label = 100;
	int step = 0;

	It node(int id) { return held.at(id); }
	// position before child k of p, by walking
	It pos(int p, size_t k)
	{
		It i = p ? node(p).begin() : t->begin();
		while (k--) ++i;
		return i;
	}
	void rehold(int id, It it) { held[id] = it; It c = it.begin(); for (int k : f.n[id].kids) { rehold(k, c); ++c; } }
	void rehold_all() { held.clear(); It c = t->begin(); for (int k : f.n[0].kids) { rehold(k, c); ++c; } }
	void drop_dead() { for (auto i = held.begin(); i != held.end();) if (!f.n[i->first].live) i = held.erase(i); else ++i; }

	string sub(int id, It it)
	{
		if ((*it).v != f.n[id].label) return "node value " + to_string((*it).v) + " where " + to_string(f.n[id].label) + " belongs";
		if (it->v != f.n[id].label) return "operator-> wrong";
		return kids(id, it.begin(), it.end(), &it);
	}
	string kids(int id, It b, It e, It* par)
	{
		It c = b;
		for (int k : f.n[id].kids)
		{
			if (c == e) return "children missing below " + f.show(id);
			if (held.count(k) && !(held.at(k) == c)) return "held position of " + to_string(f.n[k].label) + " no longer refers to it";
			if (par && !(c.parent() == *par)) return "parent() wrong for " + to_string(f.n[k].label);
			if (!par && !(c.parent() == t->end())) return "root has a parent";
			string m = sub(k, c); if (!m.empty()) return m;
			++c;
		}
		if (c != e) return "extra children below " + f.show(id);
		return "";
	}
	string check()
	{
		string m = kids(0, t->begin(), t->end(), nullptr);
		if (!m.empty()) return m;
		T const& ct = *t;
		if (ct.size() != size_t(f.size())) return "size() " + to_string(ct.size()) + " instead of " + to_string(f.size());
		if (ct.empty() != (f.size() == 0)) return "empty() wrong";
		for (auto& h : held)
		{
			if (ct.size(h.second) != f.take_size(h.first)) return "subtree size wrong";
			if ((*h.second).v != f.n[h.first].label) return "held position refers to another node";
		}
		if (f.size()) { if (t->front().v != f.n[f.n[0].kids[0]].label || ct.front().v != t->front().v) return "front() wrong"; }
		// const traversal backwards
		function<string(int, CIt, CIt)> back = [&](int id, CIt b, CIt e) -> string
		{
			auto& v = f.n[id].kids; CIt c = e;
			for (size_t i = v.size(); i-- > 0;) { if (c == b) return "backward walk ends early"; --c; if ((*c).v != f.n[v[i]].label) return "backward walk finds " + to_string((*c).v) + " instead of " + to_string(f.n[v[i]].label); string m = back(v[i], c.begin(), c.end()); if (!m.empty()) return m; }
			if (c != b) return "backward walk does not end at begin";
			return "";
		};
		return back(0, ct.begin(), ct.end());
	}
	string apply(string const& op)
	{
		istringstream in(op); char o; in >> o; int p = 0, k = 0, n = 0;
		++step;
		if (o == 'I')
		{
			in >> p >> k; It w = pos(p, k); It r; int l = label++;
			if (step % 3 == 0) r = t->insert(w, val(l)); else if (step % 3 == 1) { val const v(l); r = t->insert(w, v); } else r = t->emplace(w, l);
			int id = f.add(p, k, l);
			if ((*r).v != l) return "returned position is not the new node";
			held[id] = r;
		}
		else if (o == 'E')
		{
			in >> n; It w = node(n); int par = f.n[n].parent; size_t i = f.index(n);
			It r = t->erase(w); f.erase(n); drop_dead();
			It e = pos(par, i); if (!(r == e)) return "erase does not return the next position";
		}
		else if (o == 'C')
		{
			in >> p >> k >> n; It r = t->insert(pos(p, k), CIt(node(n)));
			auto s = f.take(n); int id = f.put(p, k, s);
			if (!(r == pos(p, k))) return "returned position is not the copy";
			rehold(id, r);
		}
		else if (o == 'M')
		{
			in >> p >> k >> n; bool bad = f.inside(p, n); bool selfpos = f.n[n].parent == p && f.index(n) == size_t(k);
			bool threw = false; It r;
			try { r = t->move(pos(p, k), node(n)); } catch (invalid_argument const&) { threw = true; }
			if (bad && !threw) return "moving a node into its own subtree was accepted";
			if (!bad && threw && !selfpos) return "legal move was refused";
			if (!threw) { f.move(p, k, n); if ((*r).v != f.n[n].label) return "returned position is not the moved node"; held[n] = r; }
		}
		else if (o == 'O') // copy a subtree of another tree
		{
			in >> p >> k >> n; T u; It a = u.insert(u.end(), val(1)); It b = u.insert(a.end(), val(2)); u.insert(b.end(), val(3)); It c = u.insert(a.end(), val(4)); It d = u.insert(c.end(), val(5)); u.insert(d.end(), val(6)); u.insert(a.end(), val(7)); u.insert(u.end(), val(8));
			forest::snap sa{ 1, { { 2, { { 3, {} } } }, { 4, { { 5, { { 6, {} } } } } }, { 7, {} } } }, sc = sa.kids[1], sd{ 7, {} };
			It src = n == 0 ? a : n == 1 ? c : --a.end();
			It r = t->insert(pos(p, k), CIt(src)); int id = f.put(p, k, n == 0 ? sa : n == 1 ? sc : sd);
			if (!(r == pos(p, k))) return "returned position is not the copy";
			if (u.size() != 8) return "source tree changed";
			rehold(id, r);
		}
		else if (o == 'Z' || o == 'F') { for (auto& x : expand(op)) { string m = apply(x); if (!m.empty()) return m; } }
		else if (o == 'X') { t->clear(); f = forest(); held.clear(); }
		else if (o == 'Y') { auto u = make_unique<T>(*t); t = std::move(u); rehold_all(); }
		else if (o == 'A') { auto u = make_unique<T>(val(1)); u->insert(u->begin().end(), val(2)); *u = *t; t = std::move(u); rehold_all(); }
		else if (o == 'S') { auto u = make_unique<T>(val(1)); u->swap(*t); if (t->size() != 1 || t->front().v != 1) return "swap lost the other side"; t = std::move(u); rehold_all(); }
		else if (o == 'V') { int l = label++; if (step % 2) t->assign(val(l)); else { val v(l); t->assign(v); } f = forest(); held.clear(); int id = f.add(0, 0, l); held[id] = t->begin(); }
		else return "bad op";
		return "";
	}
	string history(string const& h)
	{
		size_t i = 0;
		while (i < h.size())
		{
			size_t j = h.find(';', i); string op = h.substr(i, j - i); i = j + 1;
			string m = apply(op); mc::transition(); if (m.empty()) m = check();
			mc::state();
			if (!m.empty()) return "after " + op + " (expected " + f.show() + "): " + m;
		}
		mc::outcome(f.show());
		return "";
	}
};

// enabled operations in a model state
static vector<string> ops(forest const& f, int max_nodes, bool whole)
{
	vector<string> r; auto ids = f.ids(); int n = f.size();
	vector<int> ps = ids; ps.insert(ps.begin(), 0);
	auto S = [](int a) { return to_string(a); };
	for (int p : ps) for (size_t k = 0; k <= f.n[p].kids.size(); ++k)
	{
		if (n < max_nodes) r.push_back("I " + S(p) + " " + S(k));
		if (whole) for (int q = 0; q < 3; ++q) r.push_back("O " + S(p) + " " + S(k) + " " + S(q));
		for (int s : ids)
		{
			if (n + f.take_size(s) <= size_t(max_nodes)) r.push_back("C " + S(p) + " " + S(k) + " " + S(s));
			r.push_back("M " + S(p) + " " + S(k) + " " + S(s));
		}
	}
	for (int s : ids) r.push_back("E " + S(s));
	if (whole) for (auto w : { "X", "Y", "A", "S", "V" }) r.push_back(w);
	return r;
}
static void model_apply(forest& f, int& label, string const& op)
{
	istringstream in(op); char o; in >> o; int p = 0, k = 0, n = 0;
	if (o == 'I') { in >> p >> k; f.add(p, k, label++); }
	else if (o == 'E') { in >> n; f.erase(n); }
	else if (o == 'C') { in >> p >> k >> n; auto s = f.take(n); f.put(p, k, s); }
	else if (o == 'M') { in >> p >> k >> n; if (!f.inside(p, n)) f.move(p, k, n); }
	else if (o == 'O') { in >> p >> k >> n; forest::snap sa{ 1, { { 2, { { 3, {} } } }, { 4, { { 5, { { 6, {} } } } } }, { 7, {} } } }, sc = sa.kids[1], sd{ 7, {} }; f.put(p, k, n == 0 ? sa : n == 1 ? sc : sd); }
	else if (o == 'Z' || o == 'F') for (auto& x : expand(op)) model_apply(f, label, x);
	else if (o == 'X') f = forest();
	else if (o == 'V') { f = forest(); f.add(0, 0, label++); }
}
static void rec(mc::enumerator& e, string const& h, forest const& f, int label, int depth, int maxn, bool whole)
{
	for (auto& op : ops(f, maxn, whole))
	{
		string g = h + op + ";";
		if (depth <= 1) { e(g); continue; }
		forest f2 = f; int l2 = label; model_apply(f2, l2, op);
		rec(e, g, f2, l2, depth - 1, maxn, whole);
	}
}
// history that builds a shape; variant 1 scrambles the slots by building junk first and erasing it
static string build(string const& shape, int variant, forest& f, int& label)
{
	string h;
	auto go = [&](string const& op) { h += op + ";"; model_apply(f, label, op); };
	if (variant) { go("I 0 0"); go("I 1 0"); go("I 1 0"); go("I 2 0"); go("I 0 0"); go("E 2"); go("E 5"); go("E 1"); }
	vector<int> st{ 0 };
	if (variant != 2) { for (char c : shape) if (c == '(') { int p = st.back(); go("I " + to_string(p) + " " + to_string(f.n[p].kids.size())); st.push_back(int(f.n.size()) - 1); } else st.pop_back(); }
	else // last child first
	{
		string rev(shape.rbegin(), shape.rend());
		for (char c : rev) if (c == ')') { int p = st.back(); go("I " + to_string(p) + " 0"); st.push_back(int(f.n.size()) - 1); } else st.pop_back();
	}
	return h;
}

void mc_register()
{
	bool t = mc::g_thorough;
	auto run = [](string const& c) { machine m; return m.history(c); };
	mc::add("all histories from empty", [=](mc::enumerator& e) { for (int d = 1; d <= (t ? 4 : 3); ++d) rec(e, "", forest(), 100, d, 7, true); }, run);
	mc::add("node histories from empty", [=](mc::enumerator& e) { rec(e, "", forest(), 100, t ? 6 : 5, t ? 4 : 4, false); }, run);
	mc::add("every shape, every operation", [=](mc::enumerator& e)
	{
		for (int c = 1; c <= (t ? 7 : 6); ++c) { vector<string> s; shapes(c, s); for (auto& x : s) for (int v = 0; v < 3; ++v) { forest f; int l = 100; string h = build(x, v, f, l); rec(e, h, f, l, 1, 64, true); } }
	}, run);
	mc::add("every shape, every operation pair", [=](mc::enumerator& e)
	{
		for (int c = 2; c <= (t ? 5 : 4); ++c) { vector<string> s; shapes(c, s); for (auto& x : s) for (int v = 0; v < 3; ++v) { forest f; int l = 100; string h = build(x, v, f, l); rec(e, h, f, l, 2, 64, true); } }
	}, run);
	mc::add("large trees", [=](mc::enumerator& e)
	{
		auto S = [](int a) { return to_string(a); };
		for (char k : string("WwDBK")) for (int v = 0; v < 3; ++v) for (int n : { 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 })
		{
			if (n > 130 && !t && v == 1) continue;
			string z = string("Z ") + k + " " + S(n) + " " + S(v) + ";"; e(z);
			int b = v == 2 ? n : 0; forest f; int l = 100; model_apply(f, l, z.substr(0, z.size() - 1));
			set<int> ids{ b + 1, b + 2, b + 3, b + n / 2, b + n - 1, b + n }, ps = ids; ps.insert(0);
			for (auto w : { "X", "Y", "A", "S", "V" }) e(z + w + ";F 0 " + S(n + 3) + ";");
			for (int s : ids) { e(z + "E " + S(s) + ";"); int left = n - int(f.take_size(s)); e(z + "E " + S(s) + ";F 0 " + S(n - left + 2) + ";"); for (int q : ids) if (!f.inside(q, s)) e(z + "E " + S(s) + ";E " + S(q) + ";F 0 3;"); }
			for (int p : ps)
			{
				size_t c = f.n[p].kids.size(); set<size_t> at{ 0, min<size_t>(1, c), c / 2, c ? c - 1 : 0, c };
				for (size_t q : at) { e(z + "I " + S(p) + " " + S(int(q)) + ";"); for (int s : ids) { e(z + "M " + S(p) + " " + S(int(q)) + " " + S(s) + ";"); e(z + "C " + S(p) + " " + S(int(q)) + " " + S(s) + ";"); } }
			}
		}
	}, run);
}
MC_MAIN
