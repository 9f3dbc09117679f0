// C07: iteration, descent, lookup and search over every subset of the universes, reached in every way
#include "trie_model.hpp"
template <typename T, typename L> static string run(string const& c)
{
	trie_machine<T, L> x(c[0] - '0', c[1] - '0');
	size_t i = 3;
	for (char o : c.substr(3))
	{
		string r = x.apply(o);
		++i;
		if (r.empty() && (i == c.size() || c[2] == '!'))
		{
			r = check_navigation<T, L>(x.t, x.m, x.pr, x.labels);
			mc::state();
		}
		if (!r.empty()) return "after step " + to_string(i - 3) + " ('" + string(1, o) + "'): " + r;
	}
	if (c.size() == 3) { mc::state(); return check_navigation<T, L>(x.t, x.m, x.pr, x.labels); }
	string d; for (auto& [k, v] : x.m) { for (L l : k) d += to_string((unsigned long long)make_unsigned_t<L>(l)) + ","; d += ";"; }
	mc::outcome(d);
	return "";
}
// iterators over a sorted list viewed as a trie
template <typename T> static string fan(string const& c)
{
	// every label value below every one of a few parents
	int b, depth; sscanf(c.c_str(), "%d,%d", &b, &depth);
	T t; model_t<char> m; vector<keyv<char>> pr; vector<char> labels;
	for (int i = 0; i < 256; ++i) labels.push_back(char(i));
	for (int i = 0; i < 256; i += (b % 7) + 1) { keyv<char> k; if (depth > 1) k.push_back(char(b)); k.push_back(char(i)); if (depth > 2 && i % 2) k.push_back(char(b)); t.insert(k, i); m[k] = i; pr.push_back(k); }
	pr.push_back({}); pr.push_back({ char(b) }); pr.push_back({ char(b), char(b), char(b), char(b) });
	mc::state(); mc::transition(m.size());
	return check_navigation<T, char>(t, m, pr, labels);
}
template <typename T, typename L> static void reg(string n, vector<int> fams, int depth_all, int depth_one)
{
	mc::add(n + ": navigation after every history", [=](mc::enumerator& e) {
		for (int f : fams) for (size_t u = 0; u < universes().size(); ++u)
		{
			mc::all_strings(e, mc::chars("ABCDEFabcdefy"), 0, depth_all, to_string(f) + to_string(u) + ":");
			if (depth_one) mc::all_strings(e, mc::chars("ABCDabc"), depth_all + 1, depth_one, to_string(f) + to_string(u) + ":");
		} }, run<T, L>);
	mc::add(n + ": navigation, every insertion order, then every erasure order", [=](mc::enumerator& e) {
		for (int f : fams) for (size_t u = 0; u < universes().size(); ++u)
		{
			vector<int> p{ 0, 1, 2, 3, 4, 5 };
			do {
				vector<vector<int>> second;
				if (mc::g_thorough) { for (int k = 0; k < 6; ++k) { vector<int> q{ 0, 1, 2, 3, 4, 5 }; swap(q[0], q[k]); do second.push_back(q); while (next_permutation(q.begin() + 2, q.end())); } }
				else for (int r = 0; r < 2; ++r) { vector<int> q; for (int i = 0; i < 6; ++i) q.push_back((r * 3 + i * (r % 2 ? 5 : 1)) % 6); second.push_back(q); }
				for (auto& q : second)
				{
					if (!e.mine_next()) { e.pass(); continue; }
					string s = to_string(f) + to_string(u) + "!"; for (int i : p) s += char('A' + i); for (int i : q) s += char('a' + i); s += "AB";
					e(s);
				}
			} while (next_permutation(p.begin(), p.end()));
		} }, run<T, L>);
}
template <typename T, typename L> static string large(string const& c)
{
	big_keys<L> b(c); T t; model_t<L> m; mc::outcome(c); vector<L> labels{ big_keys<L>::lb('a'), big_keys<L>::lb('c'), big_keys<L>::lb('z'), L(0), L(~L(0)) };
	return b.drive(t, m, [&] { return check_navigation<T, L>(t, m, b.pr, labels); });
}
template <typename T, typename L> static void reglarge(string n)
{
	mc::add(n + ": large", [](mc::enumerator& e) { big_cases(e, mc::g_thorough ? vector<int>{ 10, 33, 64, 100, 129, 257 } : vector<int>{ 10, 33, 64 }, "13"); }, large<T, L>, 90);
}
void mc_register()
{
	reglarge<wordring::trie<char>, char>("trie<char>"); reglarge<wordring::stable_trie<char>, char>("stable_trie<char>");
	reglarge<wordring::trie<char16_t>, char16_t>("trie<char16_t>"); reglarge<wordring::stable_trie<char32_t>, char32_t>("stable_trie<char32_t>");
	int d = mc::g_thorough ? 5 : 4, w = mc::g_thorough ? 4 : 3;
	reg<wordring::trie<char>, char>("trie<char>", { 0, 1 }, d, mc::g_thorough ? 6 : 5);
	reg<wordring::stable_trie<char>, char>("stable_trie<char>", { 0, 1 }, d, mc::g_thorough ? 6 : 5);
	reg<wordring::trie<char16_t>, char16_t>("trie<char16_t>", { 2, 0 }, w, 0);
	reg<wordring::stable_trie<char16_t>, char16_t>("stable_trie<char16_t>", { 2, 0 }, w, 0);
	reg<wordring::trie<char32_t>, char32_t>("trie<char32_t>", { 3, 0 }, w, 0);
	reg<wordring::stable_trie<char32_t>, char32_t>("stable_trie<char32_t>", { 3 }, w, 0);
	reg<wordring::trie<int64_t>, int64_t>("trie<int64_t>", { 3 }, w, 0);
	for (int v = 0; v < 2; ++v)
		mc::add(v ? "stable_trie<char>: all labels" : "trie<char>: all labels", [](mc::enumerator& e) { for (int depth = 1; depth <= 3; ++depth) for (int b = 0; b < 256; b += mc::g_thorough ? 1 : 5) e(to_string(b) + "," + to_string(depth)); }, v ? fan<wordring::stable_trie<char>> : fan<wordring::trie<char>>);
}
MC_MAIN
