// Shared by C06, C07, C08: reference model of a trie (sorted map of label strings) and the driver.
#pragma once
#include "../mc/mc.hpp"
#include <wordring/trie/trie.hpp>
#include <wordring/serialize/serialize_iterator.hpp>
#include <wordring/tree/tree_iterator.hpp>
using namespace std;

template <typename L> using key_of = basic_string<L>;
// order: labels compared as unsigned numbers of their width
template <typename L> struct key_less
{
	bool operator()(vector<L> const& a, vector<L> const& b) const
	{
		using U = make_unsigned_t<L>;
		return lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](L x, L y) { return U(x) < U(y); });
	}
};
template <typename L> using keyv = vector<L>;
template <typename L> using model_t = map<keyv<L>, uint32_t, key_less<L>>;
template <typename L> set<keyv<L>, key_less<L>> prefixes(model_t<L> const& m)
{
	set<keyv<L>, key_less<L>> s;
	for (auto& [k, v] : m) for (size_t n = 1; n <= k.size(); ++n) s.insert(keyv<L>(k.begin(), k.begin() + n));
	return s;
}

// label value for abstract label i (0..), chosen so that widths, zero bytes, sign bits and collisions all matter
template <typename L> L lab(int family, int i)
{
	static const uint64_t T[4][6] = {
		{ 'a', 'b', 'c', 'd', 'e', 'f' },
		{ 0x00, 0x01, 0xFF, 0x80, 0x7F, 0xFE },
		{ 0x0000, 0x0100, 0x0001, 0x01FF, 0xFF00, 0xFFFF },
		{ 0x00000000, 0x01000000, 0x00010000, 0x80000001, 0xFFFFFFFF, 0x000000FF } };
	static const uint64_t W[6] = { 0, 0x0100000000000000ull, 0x8000000000000001ull, 0xFFFFFFFFFFFFFFFFull, 0x0000000100000000ull, 0x00000000000000FFull };
	if (sizeof(L) == 8 && family == 3) return L(W[i]);
	return L(T[family][i]);
}
// universes of abstract keys
inline vector<vector<string>> const& universes()
{
	static vector<vector<string>> u = {
		{ "0", "01", "012", "02", "1", "10" },                // chain, fork, sibling
		{ "0", "1", "2", "3", "4", "5" },                      // flat
		{ "00", "01", "10", "11", "20", "21" },                // two levels
		{ "0", "00", "000", "0000", "1", "0001" },             // deep chain
		{ "01", "012", "0123", "1", "123", "013" },
		{ "5", "50", "54", "05", "45", "4" } };
	return u;
}
template <typename L> keyv<L> mk(int family, string const& a) { keyv<L> k; for (char c : a) k.push_back(lab<L>(family, c - '0')); return k; }
inline vector<string> probes(vector<string> const& u)
{
	set<string> s; s.insert("");
	for (auto& k : u) { for (size_t n = 1; n <= k.size(); ++n) s.insert(k.substr(0, n)); for (char c = '0'; c < '6'; ++c) s.insert(k + c); }
	for (char c = '0'; c < '6'; ++c) s.insert(string(1, c));
	return vector<string>(s.begin(), s.end());
}
inline uint32_t value_for(int step) { static const uint32_t v[] = { 0, 1, 0x7FFFFFFF, 2, 65536, 7, 300, 0x1234567 }; return v[step % 8] ; }

template <typename T, typename L> string check_membership(T const& ct, model_t<L> const& m, vector<keyv<L>> const& pr, vector<keyv<L>> const& thr)
{
	T& t = const_cast<T&>(ct);
	if (t.size() != m.size()) return "size() is " + to_string(t.size()) + " instead of " + to_string(m.size());
	if (t.empty() != m.empty()) return "empty() wrong";
	for (auto& k : pr)
	{
		auto i = m.find(k);
		bool in = i != m.end();
		if (ct.contains(k) != in) return in ? "stored key not contained" : "absent key contained";
		if (ct.contains(k.begin(), k.end()) != in) return "contains(first, last) wrong";
		auto it = ct.find(k);
		if ((it == ct.cend()) == in) return "find wrong";
		if (in)
		{
			uint32_t v = ct.at(k);
			if (v != i->second) return "value is " + to_string(v) + " instead of " + to_string(i->second);
			if (uint32_t(ct.at(it)) != i->second) return "value through the position is wrong";
			if (!it || !static_cast<bool>(it)) return "position of a stored key is not a stored-key position";
		}
	}
	for (auto& k : thr) // exceptions are slow: asked for the universe only
	{
		bool thrown = false;
		try { (void)uint32_t(ct.at(k)); } catch (out_of_range const&) { thrown = true; }
		if (thrown == bool(m.count(k))) return "at(key) wrong about presence";
	}
	return "";
}
template <typename T, typename It, typename L> string check_node(T const& t, It it, keyv<L>& path, model_t<L> const& m, set<keyv<L>, key_less<L>> const& pre, vector<L> const& labels)
{
	using U = make_unsigned_t<L>;
	bool key = m.count(path);
	if (static_cast<bool>(it) != key || !it == key) return "is-stored-key test wrong";
	vector<L> s; it.string(s);
	if (s != path) return "spelled string wrong";
	set<U> want;
	for (auto& p : pre) if (p.size() == path.size() + 1 && equal(path.begin(), path.end(), p.begin())) want.insert(U(p.back()));
	auto w = want.begin();
	It e = it.end();
	size_t n = 0;
	for (It c = it.begin(); c != e; n % 2 ? (void)++c : (void)c++, ++n)
	{
		if (w == want.end()) return "extra child";
		if (U(*c) != *w) return "children not in ascending order or wrong label";
		if (!(c.parent() == it)) return "parent() of a child wrong";
		if (!(it[*c] == c)) return "descending by label reaches another position";
		path.push_back(*c);
		string r = check_node<T, It, L>(t, c, path, m, pre, labels);
		path.pop_back();
		if (!r.empty()) return r;
		++w;
	}
	if (w != want.end()) return "child missing";
	for (L l : labels) if (!want.count(U(l)) && !(it[l] == e)) return "descending by an absent label reaches a position";
	return "";
}
template <typename T, typename L> string check_navigation(T const& t, model_t<L> const& m, vector<keyv<L>> const& pr, vector<L> const& labels)
{
	auto pre = prefixes<L>(m);
	keyv<L> path;
	auto root = t.begin();
	string r = check_node<T, decltype(root), L>(t, root, path, m, pre, labels);
	if (!r.empty()) return r;
	if (!(t.cbegin() == root) || !(t.end() == t.cend()) || root == t.end()) return "begin/end wrong";
	// whole walk with the tree iterator: keys exactly once, ascending
	{
		using TI = wordring::tree_iterator<decltype(root)>;
		vector<keyv<L>> got;
		TI i(root), e;
		size_t nodes = 0;
		for (; i != e; ++i) { ++nodes; if (static_cast<bool>(i.base())) { keyv<L> s; i.base().string(s); got.push_back(s); } if (nodes > 10000) return "walk does not end"; }
		vector<keyv<L>> want; for (auto& [k, v] : m) want.push_back(k);
		if (got != want) return "walk of the trie does not yield the stored keys in ascending order";
		if (nodes != pre.size() + 1) return "walk visits a wrong number of positions";
	}
	for (auto& k : pr)
	{
		size_t n = 0;
		while (n < k.size() && pre.count(keyv<L>(k.begin(), k.begin() + n + 1))) ++n;
		auto [it, nx] = t.lookup(k.begin(), k.end());
		if (size_t(nx - k.begin()) != n) return "lookup stops at the wrong character";
		vector<L> s; it.string(s);
		if (s != keyv<L>(k.begin(), k.begin() + n)) return "lookup returns the wrong position";
		auto se = t.search(k);
		if (n == k.size()) { se.string(s); if (s != k || se == t.cend()) return "search of a stored prefix wrong"; }
		else if (!(se == t.cend())) return "search of an absent prefix does not return the end";
		if (!m.count(k) && !(t.find(k) == t.cend())) return "find of an absent key does not return the end";
		if (!(t.search(k.begin(), k.end()) == se)) return "search(first, last) differs from search(key)";
	}
	return "";
}

// case: <family digit><universe digit>:<ops>; ops: A-F insert, a-f erase, 0-5 store through the value reference, G-L insert or store via [], x clear, y assign whole list, z assign a sub-list, k/K copy / swap
template <typename T, typename L> struct trie_machine
{
	struct univ { vector<keyv<L>> u, pr; vector<L> labels; };
	T t; model_t<L> m; vector<keyv<L>> const &u, &pr; vector<L> const& labels; int family, step = 0;
	trie_machine(int f, int n) : trie_machine(f, get(f, n)) {}
	trie_machine(int f, univ const& x) : u(x.u), pr(x.pr), labels(x.labels), family(f) {}
	static univ const& get(int f, int n)
	{
		static map<pair<int, int>, univ> cache;
		auto [it, fresh] = cache.try_emplace({ f, n });
		auto& u = it->second.u; auto& pr = it->second.pr; auto& labels = it->second.labels;
		if (!fresh) return it->second;
		auto& au = universes()[n];
		for (auto& a : au) u.push_back(mk<L>(f, a));
		for (auto& a : probes(au)) pr.push_back(mk<L>(f, a));
		for (int i = 0; i < 6; ++i) labels.push_back(lab<L>(f, i));
		if (sizeof(L) > 1) for (int i = 0; i < int(sizeof(L)); ++i) labels.push_back(L(uint64_t(lab<L>(f, 0)) ^ (uint64_t(0x55) << (8 * i))));
		else labels.push_back(L(0x33));
		return it->second;
	}
	string apply(char c)
	{
		uint32_t v = value_for(step++);
		mc::transition();
		if (c >= 'A' && c <= 'F')
		{
			auto& k = u[c - 'A'];
			bool had = m.count(k);
			auto it = step % 2 ? t.insert(k, v) : t.insert(k.begin(), k.end(), v);
			if (!had) m[k] = v;
			vector<L> s; it.string(s); if (s != k) return "insert returns another position";
			if (uint32_t(t.at(it)) != m[k]) return "value at the position returned by insert is wrong";
		}
		else if (c >= 'a' && c <= 'f')
		{
			auto& k = u[c - 'a'];
			switch (step % 3) { case 0: t.erase(k); break; case 1: t.erase(k.begin(), k.end()); break; default: t.erase(t.find(k)); }
			m.erase(k);
		}
		else if (c >= '0' && c <= '5')
		{
			auto& k = u[c - '0'];
			bool thrown = false;
			try { if (step % 2) t.at(k) = v / 2 + 1; else { auto r = t.at(k.begin(), k.end()); r = v / 2 + 1; } } catch (out_of_range const&) { thrown = true; }
			if (thrown == bool(m.count(k))) return "store: wrong about presence";
			if (!thrown) m[k] = v / 2 + 1;
		}
		else if (c >= 'G' && c <= 'L') { auto& k = u[c - 'G']; t[k] = v; m[k] = v; }
		else if (c == 'x') { t.clear(); m.clear(); }
		else if (c == 'y') { auto w = u; sort(w.begin(), w.end()); t.assign(w.begin(), w.end()); m.clear(); for (auto& k : w) m[k] = 0; }
		else if (c == 'z') { vector<keyv<L>> w{ u[4], u[1], u[1], u[3] }; t.assign(w.begin(), w.end()); m.clear(); for (auto& k : w) m[k] = 0; }
		else if (c == 'k') { T o(t); t.clear(); T p(o); t.swap(p); if (p.size() != 0) return "swap does not exchange"; }
		return "";
	}
};
// large key sets: "<kind>,<n>,<stride>,<mode>"
//   kinds: d decimal numbers, t words over three letters, c chain of prefixes, l long keys differing in one place, u forks along a chain, e fan at the end of a long stem, p pairs of labels
template <typename L> struct big_keys
{
	vector<keyv<L>> k, pr; char kind; int n, stride, mode;
	static L lb(int c) { return sizeof(L) == 1 ? L(c) : L(uint64_t(c) * 0x0100010001000193ull >> (sizeof(L) == 8 ? 0 : 3)); }
	big_keys(string const& c)
	{
		sscanf(c.c_str(), "%c,%d,%d,%d", &kind, &n, &stride, &mode);
		for (int i = 0; i < n; ++i)
		{
			string s;
			if (kind == 'd') s = to_string(i);
			else if (kind == 't') { for (int x = i + 1; x; x = (x - 1) / 3) s += char('a' + (x - 1) % 3); }
			else if (kind == 'c') s = string(i + 1, 'a');
			else if (kind == 'l') { s = string(n, 'a'); s[i] = 'b'; }
			else if (kind == 'u') s = string(i / 2, 'a') + (i % 2 ? 'c' : 'b');
			else if (kind == 'e') { s = string(n, 'a') + char(i % 256) + (i > 255 ? "x" : ""); }
			else { s = string(1, char(i * 7 % 256)) + char(i * 13 % 251); }
			keyv<L> v; for (char x : s) v.push_back(lb((unsigned char)x)); k.push_back(v);
		}
		sort(k.begin(), k.end(), key_less<L>()); k.erase(unique(k.begin(), k.end()), k.end()); n = int(k.size());
		while (gcd(stride, n) != 1) ++stride;
		set<keyv<L>, key_less<L>> p(k.begin(), k.end()); p.insert(keyv<L>());
		size_t every = k.size() > 120 ? 7 : 1;
		for (size_t i = 0; i < k.size(); i += every) { auto v = k[i]; v.push_back(lb('a')); p.insert(v); v.pop_back(); v.pop_back(); p.insert(v); v.push_back(lb('z')); p.insert(v); }
		pr.assign(p.begin(), p.end());
	}
	int at(int i) const { return int((int64_t(i) * stride + n / 3) % n); }
	// runs the edits, calling check(where) from time to time
	template <typename T> string drive(T& t, model_t<L>& m, function<string()> check)
	{
		int step = max(1, n / 6); uint32_t val = 0; string r;
		auto ins = [&](int i) { t.insert(k[i], ++val); if (!m.count(k[i])) m[k[i]] = val; mc::transition(); };
		auto era = [&](int i) { t.erase(k[i]); m.erase(k[i]); mc::transition(); };
		auto chk = [&](string w) { mc::state(); string x = check(); return x.empty() ? x : w + ": " + x; };
		if (mode == 2 || mode == 3)
		{
			auto w = k; if (mode == 3) for (int i = 0; i < n; ++i) w[i] = k[at(i)];
			if constexpr (sizeof(L) == 1) { vector<string> z; for (auto& x : w) z.emplace_back(x.begin(), x.end()); t.assign(z.begin(), z.end()); } else { vector<basic_string<L>> z; for (auto& x : w) z.emplace_back(x.begin(), x.end()); t.assign(z.begin(), z.end()); }
			m.clear(); for (auto& x : k) m[x] = 0;
			if (!(r = chk("after bulk assignment")).empty()) return r;
		}
		else for (int i = 0; i < n; ++i)
		{
			ins(at(i)); if (mode == 1 && i % 2) era(at(i / 2));
			if (i % step == step - 1 && !(r = chk("after " + to_string(i + 1) + " insertions")).empty()) return r;
		}
		for (int i = 0; i < n; ++i)
		{
			era(at((i * 2 + 1) % n)); if (i % 3 == 2) ins(at((i + n / 2) % n));
			if (i % step == step - 1 && !(r = chk("after " + to_string(i + 1) + " erasures")).empty()) return r;
		}
		for (int i = 0; i < n; ++i) ins(n - 1 - i);
		return chk("after inserting all again");
	}
};
inline void big_cases(mc::enumerator& e, vector<int> ns, string const& modes = "0123")
{
	for (char k : string("dtcluep")) for (int n : ns) for (int s : { 1, 7, 37, n - 1, n / 2 + 1 }) for (char m : modes)
	{
		if ((k == 'c' || k == 'l') && n > 150 && !mc::g_thorough) continue;
		e(string(1, k) + "," + to_string(n) + "," + to_string(s) + "," + string(1, m));
	}
}
