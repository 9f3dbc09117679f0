// C09: atom sets vs a bijection between strings and identifiers
#include "../mc/mc.hpp"
#include <wordring/string/atom.hpp>
#include <wordring/serialize/serialize_iterator.hpp>
using namespace std;
template <typename S> static vector<S> const& uni(int n)
{
	static vector<vector<S>> v = [] {
		using C = typename S::value_type;
		vector<vector<S>> r;
		for (auto& w : vector<vector<string>>{ { "a", "ab", "abc", "ac", "b", "ba" }, { "a", "b", "c", "d", "e", "f" }, { "a", "aa", "aaa", "aaaa", "aab", "ab" }, { "\x01\xff", "\xff", "\xff\x01", "\x80", "\x01", "\xff\xff" } })
		{
			vector<S> o; for (auto& s : w) { S x; for (char c : s) x.push_back(C((unsigned char)c == 0xFF && sizeof(C) > 1 ? C(0xFFFE) : C((unsigned char)c))); o.push_back(x); }
			r.push_back(o);
		}
		return r; }();
	return v[n];
}
template <typename S> struct mach
{
	using A = wordring::basic_atom_set<S>;
	A a; set<S> m; vector<S> const& u; vector<S> probes;
	mach(int n) : u(uni<S>(n)) { set<S> p(u.begin(), u.end()); for (auto& k : u) { for (size_t i = 1; i < k.size(); ++i) p.insert(k.substr(0, i)); S e = k; e.push_back('z'); p.insert(e); } p.insert(S()); probes.assign(p.begin(), p.end()); }
	string apply(char c)
	{
		mc::transition();
		if (c >= 'A' && c <= 'F')
		{
			S k = u[c - 'A'];
			auto at = (c % 2) ? a.insert(k) : a.insert(k.begin(), k.end());
			m.insert(k);
			if (static_cast<S>(at) != k) return "the atom returned by insert spells another string";
		}
		else if (c >= 'G' && c <= 'L') { S k = u[c - 'G']; auto at = a[k]; m.insert(k); if (static_cast<S>(at) != k) return "the atom returned by [] spells another string"; }
		else if (c >= 'a' && c <= 'f') { S k = u[c - 'a']; if (c % 2) a.erase(k); else a.erase(k.begin(), k.end()); m.erase(k); }
		else if (c >= 'g' && c <= 'l') { S k = u[c - 'g']; uint32_t id = a.at(k); a.erase(id); m.erase(k); }
		else if (c == 'x') { a.clear(); m.clear(); }
		else if (c == 'y') { a.assign(u.begin(), u.end()); m = set<S>(u.begin(), u.end()); }
		else if (c == 'z') { vector<S> l{ u[4], u[1], u[1] }; a.assign(l.begin(), l.end()); m = set<S>(l.begin(), l.end()); }
		else if (c == 's') { vector<uint32_t> v(a.ibegin(), a.iend()); A b(v.begin(), v.end()); map<S, uint32_t> ids; for (auto& k : m) ids[k] = a.at(k); a.swap(b); for (auto& k : m) if (uint32_t(a.at(k)) != ids[k]) return "identifiers change when an atom set is saved and restored"; }
		else if (c == 't') { vector<char> v(wordring::serialize_iterator(a.ibegin()), wordring::serialize_iterator(a.iend())); a.assign(v.begin(), v.end()); }
		return "";
	}
	string check()
	{
		mc::state();
		A const& ca = a;
		if (ca.size() != m.size()) return "size() wrong";
		map<uint32_t, S> ids;
		for (auto& k : probes)
		{
			bool in = m.count(k);
			if (ca.contains(k) != in || ca.contains(k.begin(), k.end()) != in) return in ? "interned string not contained" : "string reported present though never interned";
			auto at = ca.at(k);
			uint32_t id = at;
			if (static_cast<bool>(at) != in || !at == in) return "atom of a string wrong about presence";
			if (in)
			{
				if (id == 0) return "identifier 0";
				if (!ids.emplace(id, k).second) return "two strings have the same identifier";
				if (static_cast<S>(at) != k) return "atom spells another string";
				S buf; buf.push_back('q'); at.string(buf); if (buf != k) return "string(buffer) wrong";
				auto back = ca.at(id);
				if (static_cast<S>(back) != k || uint32_t(back) != id || !(back == at) || back != at) return "identifier does not map back to its string";
				if (uint32_t(ca.at(k.begin(), k.end())) != id) return "identifier not reproducible";
			}
			else if (id != 0) return "absent string has an identifier";
		}
		// comparisons of all pairs, and nothing but the given identifiers is valid
		for (auto& [i, k] : ids) for (auto& [j, l] : ids) { bool same = k == l; if ((ca.at(k) == ca.at(l)) != same || (ca.at(k) != ca.at(l)) == same) return "comparison of atoms wrong"; }
		size_t hi = 8; for (auto i = ca.ibegin(); i != ca.iend(); ++i, ++hi); hi /= 2;
		for (uint32_t id = 0; id < hi + 4; ++id) if (!ids.count(id)) { auto x = ca.at(id); if (static_cast<bool>(x) || uint32_t(x) != 0) return "an identifier never given out yields an atom"; }
		for (uint32_t id : { 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu }) if (static_cast<bool>(ca.at(id))) return "an identifier out of range yields an atom";
		string d; for (auto& k : m) { for (auto c : k) d += to_string(uint32_t(c)) + ","; d += ";"; } mc::outcome(d);
		return "";
	}
};
template <typename S> static string run(string const& c)
{
	mach<S> x(c[0] - '0');
	size_t i = 2;
	for (char o : c.substr(2)) { string r = x.apply(o); ++i; if (r.empty() && (i == c.size() || c[1] == '!')) r = x.check(); if (!r.empty()) return "step " + to_string(i - 2) + " ('" + string(1, o) + "'): " + r; }
	return c.size() == 2 ? x.check() : "";
}
// identifiers taken before insertions must still name their strings afterwards: "<universe>:<first insertions>|<later insertions>"
template <typename S> static string stable(string const& c)
{
	mach<S> x(c[0] - '0'); size_t p = c.find('|');
	for (char o : c.substr(2, p - 2)) x.apply(o);
	map<S, uint32_t> ids; for (auto& k : x.m) ids[k] = x.a.at(k);
	for (char o : c.substr(p + 1)) x.apply(o);
	mc::state();
	for (auto& [k, id] : ids) if (uint32_t(x.a.at(k)) != id) return "identifier of an interned string changed when another string was interned";
	return "";
}
template <typename S> static void reg(string n, int depth, int depth2)
{
	mc::add(n + ": histories", [=](mc::enumerator& e) {
		for (int u = 0; u < 4; ++u) { mc::all_strings(e, mc::chars("ABCDEFabcdefGhxyzst"), 0, depth, to_string(u) + ":"); mc::all_strings(e, mc::chars("ABCDabh"), depth + 1, depth2, to_string(u) + ":"); } }, run<S>);
	mc::add(n + ": every interning order", [=](mc::enumerator& e) {
		for (int u = 0; u < 4; ++u) { string p = "ABCDEF"; do { for (string q : { "abcdef", "gihlkj", "fedcba" }) e(to_string(u) + "!" + p + q); } while (next_permutation(p.begin(), p.end())); } }, run<S>);
}
// many strings: "<kind>,<n>,<stride>"
template <typename S> static string large(string const& c)
{
	char kind; int n, stride; sscanf(c.c_str(), "%c,%d,%d", &kind, &n, &stride); mc::outcome(c);
	using C = typename S::value_type; wordring::basic_atom_set<S> a; vector<S> k; map<S, uint32_t> ids;
	for (int i = 0; i < n; ++i)
	{
		string s = kind == 'd' ? to_string(i) : kind == 'c' ? string(i + 1, 'a') : kind == 'l' ? string(i, 'a') + "b" + string(n - i, 'a') : string(1, char('A' + i % 50)) + char('a' + i / 50) + "x";
		S x; for (char q : s) x.push_back(C(q)); k.push_back(x);
	}
	while (gcd(stride, n) != 1) ++stride;
	for (int i = 0; i < n; ++i) { auto at = a.insert(k[int64_t(i) * stride % n]); mc::transition(); if (static_cast<S>(at) != k[int64_t(i) * stride % n]) return "the atom returned by insert spells another string"; }
	for (int round = 0; round < 2; ++round)
	{
		mc::state(); set<uint32_t> seen; size_t live = 0;
		for (int i = 0; i < n; ++i)
		{
			bool in = !round || i % 3; auto at = as_const(a).at(k[i]); uint32_t id = at; live += in;
			if (a.contains(k[i]) != in || static_cast<bool>(at) != in) return "presence wrong";
			if (!in) continue;
			if (!seen.insert(id).second) return "two strings have the same identifier";
			if (static_cast<S>(a.at(id)) != k[i] || static_cast<S>(at) != k[i]) return "identifier does not map back to its string";
			S e = k[i]; e.push_back('z'); if (a.contains(e)) return "string reported present though never interned";
			if (round && ids[k[i]] != id) return "identifier changed when other strings were erased";
			ids[k[i]] = id;
		}
		if (a.size() != live) return "size() wrong";
		if (!round) { vector<uint32_t> v(a.ibegin(), a.iend()); decltype(a) b(v.begin(), v.end()); for (auto& [s, id] : ids) if (uint32_t(b.at(s)) != id) return "identifiers change when saved and restored"; a.swap(b); for (int i = 0; i < n; i += 3) a.erase(k[i]); }
	}
	return "";
}
template <typename S> static void reglarge(string n) { mc::add(n + ": large", [](mc::enumerator& e) { for (char k : string("dclx")) for (int m : { 10, 50, 100, 257, 300, 1000 }) for (int s : { 1, 7, 37, m - 1 }) if (m < 1000 || k == 'd' || k == 'x') e(string(1, k) + "," + to_string(m) + "," + to_string(s)); }, large<S>, 90); }
void mc_register()
{
	reglarge<u8string>("u8"); reglarge<u16string>("u16"); reglarge<u32string>("u32");
	int d = mc::g_thorough ? 4 : 3;
	reg<u8string>("u8", d, d + 2);
	reg<string>("char", d, d + 1);
	reg<u16string>("u16", d, d + 1);
	reg<u32string>("u32", d, d + 1);
	mc::add("stability", [=](mc::enumerator& e) { for (int u = 0; u < 4; ++u) for (char a = 'A'; a < 'G'; ++a) for (char b = 'A'; b < 'G'; ++b) e(to_string(u) + ":" + a + "|" + b); }, stable<u8string>);
}
MC_MAIN
