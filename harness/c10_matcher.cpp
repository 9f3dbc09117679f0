// C10: push matcher vs definition, every candidate set, every input, with reuse
#include "../mc/mc.hpp"
#include <wordring/string/matcher.hpp>
using namespace std;
static const char* POOL[] = { "", "A", "B", "AA", "AB", "BA", "BB", "ABA", "ABB", "AAA", "ABAB", "BAB" };
// case: <how><candidate indices as letters a..l>|<input1>|<input2>...   how: r = reuse one matcher with clear in between
template <typename S> static string run(string const& c)
{
	using C = typename S::value_type;
	using M = wordring::string_matcher<S>;
	auto conv = [](string const& s) { S r; for (char x : s) r.push_back(sizeof(C) > 1 && x == 'B' ? C(C('A') + 0x100) : C(x)); return r; };
	vector<string> parts; { string cur; for (char x : c) if (x == '|') { parts.push_back(cur); cur.clear(); } else cur += x; parts.push_back(cur); }
	vector<S> cand; for (char x : parts[0]) cand.push_back(conv(POOL[x - 'a']));
	auto make = [&]() -> M { switch (cand.size()) { case 0: return M({}); case 1: return M({ cand[0] }); case 2: return M({ cand[0], cand[1] }); case 3: return M({ cand[0], cand[1], cand[2] }); default: return M({ cand[0], cand[1], cand[2], cand[3] }); } };
	M m = make();
	for (size_t k = 1; k < parts.size(); ++k)
	{
		if (k > 1) { m.clear(); if (m.size() != 0 || !m.data().empty()) return "clear() leaves characters"; }
		S fed; 
		for (C ch : conv(parts[k]))
		{
			fed.push_back(ch);
			auto r = m.push_back(ch);
			mc::state(); mc::transition();
			bool full = false, pre = false;
			for (auto& s : cand) { if (s == fed) full = true; if (s.size() > fed.size() && s.compare(0, fed.size(), fed) == 0) pre = true; }
			auto want = full ? M::match_result::succeed : pre ? M::match_result::partial : M::match_result::failed;
			if (r != want) return "input " + to_string(k) + ", after " + to_string(fed.size()) + " characters: result " + to_string((uint32_t)r) + " instead of " + to_string((uint32_t)want);
			if (m.data() != fed || m.size() != fed.size()) return "characters fed are not given back";
			mc::outcome(parts[0] + "|" + parts[k].substr(0, fed.size()));
			if (want != M::match_result::partial) break; // must be cleared before going on
		}
	}
	return "";
}
// long and many candidates: "<candidate count><kind>|<length>,<place of a wrong character or -1>"
template <typename S> static string large(string const& c)
{
	using C = typename S::value_type; using M = wordring::string_matcher<S>;
	int len, bad, cnt; char kind; sscanf(c.c_str(), "%d%c|%d,%d", &cnt, &kind, &len, &bad); mc::outcome(c);
	auto word = [&](int n, int k) { S s; for (int i = 0; i < n; ++i) s.push_back(C('A' + (i * 7 + (kind == 's' ? k : 0)) % 26)); if (kind == 'e' && n) s[n - 1] = C('A' + k); return s; };
	vector<S> cand; for (int k = 0; k < cnt; ++k) cand.push_back(word(kind == 'p' ? len - k : len, k));
	auto make = [&]() -> M { switch (cnt) { case 1: return M({ cand[0] }); case 2: return M({ cand[0], cand[1] }); case 3: return M({ cand[0], cand[1], cand[2] }); case 8: return M({ cand[0], cand[1], cand[2], cand[3], cand[4], cand[5], cand[6], cand[7] }); default: return M({ cand[0], cand[1], cand[2], cand[3], cand[4], cand[5], cand[6], cand[7], cand[8], cand[9], cand[10], cand[11] }); } };
	M m = make();
	for (int k = 0; k < cnt; ++k) for (int round = 0; round < 2; ++round)
	{
		m.clear(); S in = cand[k], fed; if (bad >= 0 && size_t(bad) < in.size() && !round) in[bad] = C('z'); if (in.empty()) continue;
		for (C ch : in)
		{
			fed.push_back(ch); auto r = m.push_back(ch); mc::state(); mc::transition(); bool full = false, pre = false;
			for (auto& s : cand) { if (s == fed) full = true; if (s.size() > fed.size() && s.compare(0, fed.size(), fed) == 0) pre = true; }
			auto want = full ? M::match_result::succeed : pre ? M::match_result::partial : M::match_result::failed;
			if (r != want) return "candidate " + to_string(k) + ", after " + to_string(fed.size()) + " characters: result " + to_string((uint32_t)r) + " instead of " + to_string((uint32_t)want);
			if (m.data() != fed || m.size() != fed.size()) return "characters fed are not given back";
			if (want != M::match_result::partial) break;
		}
	}
	return "";
}
void mc_register()
{
	auto big = [](mc::enumerator& e) { for (int cnt : { 1, 2, 3, 8, 12 }) for (char k : string("spe")) for (int len : { 1, 2, 5, 12, 13, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 200, 256, 257, 300 }) for (int bad : { -1, 0, 1, len / 2, len - 2, len - 1 }) { if (k == 'p' && len < cnt) continue; if (bad < -1) continue; e(to_string(cnt) + string(1, k) + "|" + to_string(len) + "," + to_string(bad)); } };
	mc::add("long candidates", big, large<string>); mc::add("long candidates, 32 bit", big, large<u32string>);
	auto en = [](mc::enumerator& e) {
		vector<string> inputs; for (int n = 0; n <= 5; ++n) for (int b = 0; b < (1 << n); ++b) { string s; for (int i = 0; i < n; ++i) s += b >> i & 1 ? 'B' : 'A'; inputs.push_back(s); }
		inputs.push_back("C"); inputs.push_back("AC"); inputs.push_back("ABC");
		vector<string> sets{ "" };
		size_t done = 0;
		for (int n = 0; n < (mc::g_thorough ? 4 : 3); ++n) { size_t end = sets.size(); for (; done < end; ++done) for (char x = 'a'; x < 'm'; ++x) sets.push_back(sets[done] + x); }
		for (auto& s : sets) { for (auto& i : inputs) { if (s.size() <= 3 || i.size() <= 4) e(s + "|" + i); } if (s.size() <= (mc::g_thorough ? 3u : 2u)) for (auto& i : inputs) if (i.size() <= 3) for (auto& j : inputs) if (j.size() <= 4) e(s + "|" + i + "|" + j); }
		if (!mc::g_thorough) for (auto& s : sets) if (s.size() == 3) for (auto& i : { "AB", "A", "ABAB", "B" }) for (auto& j : { "ABA", "AA", "BAB" }) for (auto& k : { "ABB", "BA" }) e(s + "|" + i + "|" + j + "|" + k);
	};
	mc::add("string", en, run<string>);
	mc::add("u32string", en, run<u32string>);
	mc::add("u16string", en, run<u16string>);
}
MC_MAIN
