// C05: tag tree vs ordered document, all edit histories, and its flattened views.
#include "forest_model.hpp"
#include <wordring/tag_tree/tag_tree.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_traits.hpp>
#include <wordring/tag_tree/cast_iterator.hpp>
using namespace std;
using namespace wordring::html;
using T = u8simple_tree;
using It = T::iterator;
using CIt = T::const_iterator;
using Tr = node_traits<It>;

// label encodes kind: label % 4: 0 element, 1 text, 2 comment, 3 empty text
static u8string txt(int l) { u8string s; if (l % 4 == 3) return s; s += u8'a' + (l / 4) % 26; if (l % 8 >= 4) s += u8'A' + (l / 4) % 26; return s; }
static u8simple_node make(int l)
{
	switch (l % 4)
	{
	case 0: return simple_element<u8string>(u8"n" + u8string(1, char8_t('0' + (l / 4) / 10)) + u8string(1, char8_t('0' + (l / 4) % 10)));
	case 2: return simple_comment<u8string>(txt(l));
	default: return simple_text<u8string>(txt(l));
	}
}
static bool is(u8simple_node const& n, int l, CIt it)
{
	using CTr = node_traits<CIt>;
	switch (l % 4)
	{
	case 0: return CTr::is_element(it) && CTr::get_local_name(it) == u8"n" + u8string(1, char8_t('0' + (l / 4) / 10)) + u8string(1, char8_t('0' + (l / 4) % 10));
	case 2: return CTr::is_comment(it) && CTr::data(it) == txt(l);
	default: return CTr::is_text(it) && CTr::data(it) == txt(l);
	}
}

// insertions that build a large document from empty: W roots, w children of one root, D chain, B binary, K comb (leaves are text);
// variant 0 appends, 1 prepends, 2 builds the same once before and erases it (every slot recycled)
static vector<string> bulk(char kind, int n, int variant)
{
	vector<string> r; vector<int> kids(2 * n + 2); auto S = [](int a) { return to_string(a); };
	int base = 0;
	for (int round = variant == 2 ? 0 : 1; round < 2; ++round)
	{
		for (int i = 1; i <= n; ++i)
		{
			int p = kind == 'W' ? 0 : kind == 'w' ? (i == 1 ? 0 : 1) : kind == 'D' ? i - 1 : kind == 'B' ? i / 2 : (i == 1 ? 0 : i % 2 ? i - 2 : i - 1);
			bool leaf = kind == 'w' ? i > 1 : kind == 'K' ? i % 2 == 0 : kind == 'B' ? 2 * i > n : false;
			if (kind == 'K' && p) p = i % 2 ? i - 2 : i - 1;
			int id = p ? p + base : 0; int k = variant == 1 ? 0 : kids[id];
			r.push_back("I " + S(id) + " " + S(k) + " " + S(leaf ? 1 + i % 3 : 0)); ++kids[id];
		}
		if (round == 0) { if (kind == 'W') for (int i = 1; i <= n; ++i) r.push_back("E " + S(i % 2 ? (i + 1) / 2 : n + 1 - i / 2)); else r.push_back("E 1"); base = n; kids.assign(kids.size(), 0); }
	}
	return r;
}
static vector<string> expand(string const& op) { istringstream in(op); char o, k; int n, v; in >> o >> k >> n >> v; if (o == 'Z') return bulk(k, n, v); vector<string> r; int p = stoi(op.substr(2)), c = stoi(op.substr(op.rfind(' ') + 1)); while (c--) r.push_back("I " + to_string(p) + " 0 " + to_string(c % 4)); return r; }

struct machine
{
	unique_ptr<T> t = make_unique<T>();
	forest f; map<int, It> held; int num = 0, step = 0;

	It pos(int p, size_t k) { It i = p ? held.at(p).begin() : t->begin(); while (k--) ++i; return i; }
	// a single node has no children, so its end is not a position
	It posend(int p, size_t k) { return k == f.n[p].kids.size() ? (p ? held.at(p).end() : t->end()) : pos(p, k); }
	void rehold(int id, It it) { held[id] = it; It c = it.begin(); for (int k : f.n[id].kids) { rehold(k, c); ++c; } }
	void rehold_all() { held.clear(); It c = t->begin(); for (int k : f.n[0].kids) { rehold(k, c); ++c; } }
	string kids(int id, It b, It e)
	{
		It c = b; auto& v = f.n[id].kids;
		for (int k : v)
		{
			if (c == e) return "children missing";
			if (!(held.at(k) == c)) return "held position does not refer to its node any more";
			if (!is(*c, f.n[k].label, c)) return "wrong node found";
			CIt cc = c;
			if (id) { if (!(c.parent() == held.at(id)) || !(cc.parent() == CIt(held.at(id)))) return "parent() wrong"; } else if (!(c.parent() == It())) return "root has a parent";
			if (f.n[k].label % 4) { if (!(c.begin() == c.end())) return "single node has children"; }
			else { string m = kids(k, c.begin(), c.end()); if (!m.empty()) return m; }
			++c;
		}
		if (!(c == e)) return "extra children";
		for (size_t i = v.size(); i-- > 0;) { if (i % 2) --c; else c--; if (!(c == held.at(v[i]))) return "backward step wrong"; }
		if (!(c == b)) return "backward walk does not end at begin";
		if (id && !(held.at(id).end().parent() == held.at(id))) return "parent of the end position wrong";
		return "";
	}
	struct ev { int id; char k; };
	void flat(int id, vector<ev>& o) const { for (int k : f.n[id].kids) { if (f.n[k].label % 4) o.push_back({ k, 's' }); else { o.push_back({ k, 'b' }); flat(k, o); o.push_back({ k, 'e' }); } } }
	string views()
	{
		vector<ev> o; flat(0, o);
		T const& ct = *t;
		auto one = [&](auto s, ev const& x) -> string
		{
			if (s.is_start_tag() != (x.k == 'b') || s.is_end_tag() != (x.k == 'e')) return "serial view: wrong kind of tag";
			if (x.k == 's') { if (!is(*s, f.n[x.id].label, held.at(x.id)) || !(CIt(s) == CIt(held.at(x.id)))) return "serial view: wrong single node"; return ""; }
			if (!(CIt(s.start_tag()) == CIt(held.at(x.id)))) return "serial view: start tag belongs to another node";
			if (!(CIt(s.end_tag()) == CIt(held.at(x.id).end()))) return "serial view: end tag belongs to another node";
			return "";
		};
		auto s = t->sbegin();
		for (auto& x : o) { if (s == t->send()) return "serial view ends early"; string m = one(s, x); if (!m.empty()) return m; ++s; }
		if (s != t->send()) return "serial view too long";
		for (size_t i = o.size(); i-- > 0;) { --s; string m = one(s, o[i]); if (!m.empty()) return "backward " + m; }
		if (s != t->sbegin()) return "backward serial view does not end at its begin";
		auto c = ct.sbegin();
		for (auto& x : o) { if (c == ct.send()) return "const serial view ends early"; string m = one(c, x); if (!m.empty()) return m; ++c; }
		if (c != ct.send()) return "const serial view too long";
		for (size_t i = o.size(); i-- > 0;) { if (i % 2) --c; else c--; string m = one(c, o[i]); if (!m.empty()) return "backward const " + m; }
		// character view from every position of the document
		auto chars = [&](size_t from) { u8string r; for (size_t i = from; i < o.size(); ++i) if (o[i].k == 's' && f.n[o[i].id].label % 4 != 2) r += txt(f.n[o[i].id].label); return r; };
		for (size_t i = 0; i < o.size(); ++i) if (o[i].k != 'e')
		{
			u8string want = chars(i), got;
			auto it1 = T::character_iterator(held.at(o[i].id)); auto it2 = it1.end(); auto first = it1;
			for (size_t k = 0; k <= want.size() && it1 != it2; ++k) { got += *it1; if (k % 2) ++it1; else it1++; }
			if (it1 != it2 || got != want) return "character view gives " + string(got.begin(), got.end()) + " instead of " + string(want.begin(), want.end());
			u8string back;
			for (size_t k = 0; k < want.size(); ++k) { --it1; back += *it1; }
			reverse(back.begin(), back.end());
			if (back != want || (!want.empty() && it1 != first)) return "backward character view gives " + string(back.begin(), back.end()) + " instead of " + string(want.begin(), want.end());
			u8string g2; T::const_character_iterator c1(held.at(o[i].id)), c2 = c1.end();
			for (size_t k = 0; k <= want.size() && c1 != c2; ++k) { g2 += *c1; c1++; }
			if (g2 != want) return "const character view wrong";
			using wide = wordring::detail::tag_tree_cast_iterator<char, It>; using cwide = wordring::detail::const_tag_tree_cast_iterator<char, It>;
			wide w1(held.at(o[i].id)), w2(t->end()), wf = w1; string g3; cwide d1(held.at(o[i].id)), d2(t->end()); string g4;
			for (size_t k = 0; k <= want.size() && w1 != w2; ++k) { g3 += *w1; if (k % 2) ++w1; else w1++; }
			for (size_t k = 0; k <= want.size() && d1 != d2; ++k) { g4 += *d1; if (k % 2) ++d1; else d1++; }
			if (g3 != string(want.begin(), want.end()) || g4 != g3) return "cast character view wrong";
			string g5; for (size_t k = 0; k < want.size(); ++k) { if (k % 2) --w1; else w1--; g5 += *w1; } reverse(g5.begin(), g5.end());
			if (g5 != g3 || (!want.empty() && w1 != wf)) return "backward cast character view wrong";
		}
		return "";
	}
	string check()
	{
		string m = kids(0, t->begin(), t->end()); if (!m.empty()) return m;
		T const& ct = *t;
		if (ct.size() != size_t(f.size())) return "size() " + to_string(ct.size()) + " instead of " + to_string(f.size());
		if (ct.empty() != (f.size() == 0)) return "empty() wrong";
		return views();
	}
	string apply(string const& op)
	{
		istringstream in(op); char o; in >> o; int p = 0, k = 0, n = 0; ++step;
		if (o == 'I')
		{
			in >> p >> k >> n; int l = 4 * num++ + n; It r;
			if (step % 2) r = t->insert(posend(p, k), make(l)); else { auto const v = make(l); r = t->insert(posend(p, k), v); }
			int id = f.add(p, k, l); held[id] = r; if (!is(*r, l, r)) return "returned position is not the new node";
		}
		else if (o == 'E') { in >> n; int par = f.n[n].parent; size_t i = f.index(n); It r = t->erase(held.at(n)); f.erase(n); for (auto h = held.begin(); h != held.end();) if (!f.n[h->first].live) h = held.erase(h); else ++h; if (!(r == posend(par, i))) return "erase does not return the next position"; }
		else if (o == 'M') { in >> p >> k >> n; It r = t->move(posend(p, k), held.at(n)); f.move(p, k, n); if (!(r == held.at(n))) return "move does not return the moved node"; }
		else if (o == 'Z' || o == 'F') { for (auto& x : expand(op)) { string m = apply(x); if (!m.empty()) return m; } }
		else if (o == 'X') { t->clear(); f = forest(); held.clear(); }
		else if (o == 'Y') { auto u = make_unique<T>(*t); string m = check(); if (!m.empty()) return "original after copy: " + m; t = std::move(u); rehold_all(); }
		else if (o == 'A') { auto u = make_unique<T>(); u->insert(u->end(), make(0)); *u = *t; t = std::move(u); rehold_all(); }
		else if (o == 'W') { auto u = make_unique<T>(std::move(*t)); t = make_unique<T>(); *t = std::move(*u); rehold_all(); }
		else if (o == 'S') { auto u = make_unique<T>(); u->insert(u->end(), make(0)); u->swap(*t); if (t->size() != 1) return "swap lost the other side"; t = std::move(u); rehold_all(); }
		else return "bad op";
		return "";
	}
	string history(string const& h)
	{
		size_t i = 0;
		while (i < h.size())
		{
			size_t j = h.find(';', i); string op = h.substr(i, j - i); i = j + 1;
			string m = apply(op); mc::transition(); if (m.empty()) m = check();
			mc::state(); if (!m.empty()) return "after " + op + " (expected " + f.show() + "): " + m;
		}
		mc::outcome(f.show()); return "";
	}
};
static vector<string> ops(forest const& f, int maxn, bool whole, string const& kinds)
{
	vector<string> r; auto ids = f.ids(); vector<int> ps = ids; ps.insert(ps.begin(), 0);
	auto S = [](int a) { return to_string(a); };
	for (int p : ps) if (p == 0 || f.n[p].label % 4 == 0) for (size_t k = 0; k <= f.n[p].kids.size(); ++k)
	{
		if (f.size() < maxn) for (char q : kinds) r.push_back("I " + S(p) + " " + S(k) + " " + q);
		for (int s : ids) if (!f.inside(p, s)) r.push_back("M " + S(p) + " " + S(k) + " " + S(s));
	}
	for (int s : ids) r.push_back("E " + S(s));
	if (whole) for (auto w : { "X", "Y", "A", "W", "S" }) r.push_back(w);
	return r;
}
static void model_apply(forest& f, int& num, string const& op)
{
	istringstream in(op); char o; in >> o; int p = 0, k = 0, n = 0;
	if (o == 'I') { in >> p >> k >> n; f.add(p, k, 4 * num++ + n); }
	else if (o == 'E') { in >> n; f.erase(n); }
	else if (o == 'M') { in >> p >> k >> n; f.move(p, k, n); }
	else if (o == 'Z' || o == 'F') for (auto& x : expand(op)) model_apply(f, num, x);
	else if (o == 'X') f = forest();
}
static void rec(mc::enumerator& e, string const& h, forest const& f, int num, int depth, int maxn, bool whole, string const& kinds)
{
	for (auto& op : ops(f, maxn, whole, kinds))
	{
		string g = h + op + ";"; if (depth <= 1) { e(g); continue; }
		forest f2 = f; int n2 = num; model_apply(f2, n2, op); rec(e, g, f2, n2, depth - 1, maxn, whole, kinds);
	}
}
static string build(string const& shape, int variant, unsigned kindbits, forest& f, int& num)
{
	string h; auto go = [&](string const& op) { h += op + ";"; model_apply(f, num, op); };
	if (variant) { go("I 0 0 0"); go("I 1 0 1"); go("I 1 0 0"); go("I 3 0 0"); go("I 0 0 2"); go("E 3"); go("E 5"); go("E 1"); }
	vector<int> st{ 0 };
	for (size_t i = 0; i < shape.size(); ++i)
	{
		if (shape[i] == '(')
		{
			int p = st.back(); bool leaf = shape[i + 1] == ')'; int k = 0;
			if (leaf) { k = kindbits & 3; kindbits >>= 2; }
			go("I " + to_string(p) + " " + to_string(f.n[p].kids.size()) + " " + to_string(k)); st.push_back(int(f.n.size()) - 1);
		}
		else st.pop_back();
	}
	return h;
}
void mc_register()
{
	bool t = mc::g_thorough;
	auto run = [](string const& c) { machine m; return m.history(c); };
	mc::add("all histories from empty", [=](mc::enumerator& e) { for (int d = 1; d <= 4; ++d) rec(e, "", forest(), 0, d, 7, true, "0123"); }, run);
	mc::add("node histories from empty", [=](mc::enumerator& e) { rec(e, "", forest(), 0, t ? 6 : 5, 4, false, "01"); }, run);
	mc::add("every shape, every operation", [=](mc::enumerator& e)
	{
		for (int c = 1; c <= (t ? 6 : 5); ++c)
		{
			vector<string> s; shapes(c, s);
			for (auto& x : s) for (int v = 0; v < 2; ++v)
			{
				int leaves = 0; for (size_t i = 0; i + 1 < x.size(); ++i) leaves += x[i] == '(' && x[i + 1] == ')';
				int vary = min(leaves, t ? 4 : 3);
				for (unsigned b = 0; b < (1u << (2 * vary)); ++b) { forest f; int n = 0; string h = build(x, v, b, f, n); rec(e, h, f, n, 1, 64, true, "0123"); }
			}
		}
	}, run);
	mc::add("every shape, every operation pair", [=](mc::enumerator& e)
	{
		for (int c = 2; c <= (t ? 5 : 4); ++c) { vector<string> s; shapes(c, s); for (auto& x : s) for (int v = 0; v < 2; ++v) for (unsigned b : { 0u, 0x55u }) { forest f; int n = 0; string h = build(x, v, b, f, n); rec(e, h, f, n, 2, 64, false, "01"); } }
	}, run);
	mc::add("large documents", [=](mc::enumerator& e)
	{
		auto S = [](int a) { return to_string(a); };
		for (char k : string("WwDBK")) for (int v = 0; v < 3; ++v) for (int n : { 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257 })
		{
			if (n > 70 && !t && (v == 1 || n % 2 == 0)) continue;
			string z = string("Z ") + k + " " + S(n) + " " + S(v) + ";"; e(z);
			int b = v == 2 ? n : 0; forest f; int l = 0; model_apply(f, l, z.substr(0, z.size() - 1));
			set<int> ids{ b + 1, b + 2, b + 3, b + n / 2, b + n - 1, b + n }, ps; ps.insert(0);
			for (int i : ids) if (f.n[i].label % 4 == 0) ps.insert(i);
			for (auto w : { "X", "Y", "A", "W", "S" }) e(z + w + ";F 0 " + S(n + 3) + ";");
			for (int s : ids) { e(z + "E " + S(s) + ";"); int left = n - int(f.take_size(s)); e(z + "E " + S(s) + ";F 0 " + S(n - left + 2) + ";"); for (int q : ids) if (!f.inside(q, s)) e(z + "E " + S(s) + ";E " + S(q) + ";F 0 3;"); }
			for (int p : ps)
			{
				size_t c = f.n[p].kids.size(); set<size_t> at{ 0, min<size_t>(1, c), c / 2, c ? c - 1 : 0, c };
				for (size_t q : at) { e(z + "I " + S(p) + " " + S(int(q)) + " 1;"); for (int s : ids) if (!f.inside(p, s)) e(z + "M " + S(p) + " " + S(int(q)) + " " + S(s) + ";"); }
			}
		}
	}, run, 60);
}
MC_MAIN
