// C06: tries vs map, all insert/erase/store/assign/clear histories
#include "trie_model.hpp"
template <typename T, typename L> static string run(string const& c)
{
	trie_machine<T, L> x(c[0] - 48, c[1] - 48);
	size_t i = 0;
	for (char o : c.substr(3))
	{
		string r = x.apply(o);
		++i;
		// shorter histories are cases of their own
		if (r.empty() && (i + 3 == c.size() || c[2] == 33)) { r = check_membership<T, L>(x.t, x.m, x.pr, x.u); mc::state(); }
		if (!r.empty()) return "after step " + to_string(i) + " ('" + string(1, o) + "'): " + r;
	}
	string d; for (auto& [k, v] : x.m) { for (L l : k) d += to_string((unsigned long long)make_unsigned_t<L>(l)) + ","; d += ";"; }
	mc::outcome(d);
	return "";
}
// wide fan: keys formed from all labels of one byte position; order given by (start, stride)
template <typename T> static string fan(string const& c)
{
	int start, stride, shape; sscanf(c.c_str(), "%d,%d,%d", &start, &stride, &shape);
	T t; model_t<char> m;
	auto key = [&](int b) { keyv<char> k; if (shape == 0) k = { char(b) }; else if (shape == 1) k = { 'a', char(b) }; else if (shape == 2) k = { char(b), char(255 - b) }; else k = { char(b / 16), char(b % 16 * 17), char(b) }; return k; };
	vector<keyv<char>> pr;
	for (int b = 0; b < 256; ++b) pr.push_back(key(b));
	pr.push_back({}); pr.push_back({ 'a' }); pr.push_back({ 'a', 'a', 'a' }); pr.push_back({ 0, 0 }); pr.push_back({ char(255) });
	int n = 0;
	for (int i = 0, b = start; i < 256; ++i, b = (b + stride) % 256)
	{
		t.insert(key(b), ++n); m[key(b)] = n; mc::transition();
		if (i % 16 == 15) { string r = check_membership<T, char>(t, m, pr, {}); mc::state(); if (!r.empty()) return "after " + to_string(i + 1) + " insertions: " + r; }
	}
	for (int i = 0, b = start; i < 256; ++i, b = (b + stride * 3) % 256)
	{
		t.erase(key(b)); m.erase(key(b)); mc::transition();
		if (i % 16 == 15) { string r = check_membership<T, char>(t, m, pr, {}); mc::state(); if (!r.empty()) return "after " + to_string(i + 1) + " erasures: " + r; }
		if (i == 128) { for (int q = 0; q < 64; ++q) { t.insert(key(q * 4), 5); if (!m.count(key(q * 4))) m[key(q * 4)] = 5; } }
	}
	return "";
}
template <typename T, typename L> static void reg(string n, vector<int> fams, int depth_all, int depth_one)
{
	mc::add(n + ": histories", [=](mc::enumerator& e) {
		for (int f : fams) for (size_t u = 0; u < universes().size(); ++u)
		{
			mc::all_strings(e, mc::chars(u == 0 ? "ABCDEFabcdef03Gxyzk" : "ABCDEFabcdef0I"), 1, depth_all, to_string(f) + to_string(u) + ":");
			if (depth_one) mc::all_strings(e, mc::chars("ABCDabc"), depth_all + 1, depth_one, to_string(f) + to_string(u) + ":");
		} }, run<T, L>);
	mc::add(n + ": every insertion order, then every erasure order", [=](mc::enumerator& e) {
		for (int f : fams) for (size_t u = 0; u < universes().size(); ++u)
		{
			vector<int> p{ 0, 1, 2, 3, 4, 5 };
			do {
				vector<vector<int>> second;
				if (mc::g_thorough) { vector<int> q{ 0, 1, 2, 3, 4, 5 }; do second.push_back(q); while (next_permutation(q.begin(), q.end())); }
				else for (int r = 0; r < 6; ++r) { vector<int> q; for (int i = 0; i < 6; ++i) q.push_back((r + i * (r % 2 ? 5 : 1)) % 6); second.push_back(q); }
				for (auto& q : second)
				{
					if (!e.mine_next()) { e.pass(); continue; }
					string s = to_string(f) + to_string(u) + "!"; for (int i : p) s += char('A' + i); for (int i : q) s += char('a' + i); s += "AB";
					e(s);
				}
			} while (next_permutation(p.begin(), p.end()));
		} }, run<T, L>);
}
template <typename T> static void regfan(string n)
{
	mc::add(n + ": full fan-out", [](mc::enumerator& e) { for (int shape = 0; shape < 4; ++shape) for (int stride : { 1, 255, 3, 85, 129, 7, 251 }) for (int st = 0; st < 256; st += mc::g_thorough ? 1 : 37) e(to_string(st) + "," + to_string(stride) + "," + to_string(shape)); }, fan<T>);
}
template <typename T, typename L> static string large(string const& c)
{
	big_keys<L> b(c); T t; model_t<L> m; mc::outcome(c);
	return b.drive(t, m, [&] { return check_membership<T, L>(t, m, b.pr, {}); });
}
template <typename T, typename L> static void reglarge(string n)
{
	mc::add(n + ": large", [](mc::enumerator& e) { big_cases(e, mc::g_thorough ? vector<int>{ 10, 33, 64, 100, 129, 257, 400, 1000, 2000 } : sizeof(L) == 1 ? vector<int>{ 10, 33, 100, 257, 400 } : vector<int>{ 10, 40, 129 }); }, large<T, L>, 90);
}
void mc_register()
{
	reglarge<wordring::trie<char>, char>("trie<char>"); reglarge<wordring::stable_trie<char>, char>("stable_trie<char>");
	reglarge<wordring::trie<char16_t>, char16_t>("trie<char16_t>"); reglarge<wordring::stable_trie<char16_t>, char16_t>("stable_trie<char16_t>");
	reglarge<wordring::trie<char32_t>, char32_t>("trie<char32_t>"); reglarge<wordring::stable_trie<char32_t>, char32_t>("stable_trie<char32_t>");
	int d = mc::g_thorough ? 5 : 4, w = mc::g_thorough ? 4 : 3;
	reg<wordring::trie<char>, char>("trie<char>", { 0, 1 }, d, mc::g_thorough ? 7 : 6);
	reg<wordring::stable_trie<char>, char>("stable_trie<char>", { 0, 1 }, d, mc::g_thorough ? 7 : 6);
	reg<wordring::trie<char16_t>, char16_t>("trie<char16_t>", { 2, 0 }, w, 5);
	reg<wordring::stable_trie<char16_t>, char16_t>("stable_trie<char16_t>", { 2 }, w, 5);
	reg<wordring::trie<char32_t>, char32_t>("trie<char32_t>", { 3, 0 }, w, 5);
	reg<wordring::stable_trie<char32_t>, char32_t>("stable_trie<char32_t>", { 3 }, w, 0);
	reg<wordring::trie<int64_t>, int64_t>("trie<int64_t>", { 3 }, w, 0);
	regfan<wordring::trie<char>>("trie<char>");
	regfan<wordring::stable_trie<char>>("stable_trie<char>");
}
MC_MAIN
