// C08: save at every point of every history, restore into a fresh or used trie, edit on; bulk construction
#include "trie_model.hpp"
template <typename T, typename L> static string run(string const& c)
{
	// "<f><u>:<ops>|<method><target>|<post ops>"
	size_t p = c.find('|'), q = c.find('|', p + 1);
	trie_machine<T, L> x(c[0] - '0', c[1] - '0'), y(c[0] - '0', c[1] - '0'), z(c[0] - '0', c[1] - '0');
	for (char o : c.substr(3, p - 3)) { string r = x.apply(o); if (!r.empty()) return r; }
	y.m = x.m; y.step = x.step;
	if (c[p + 2] == '1') { y.t.insert(y.u[5], 77); y.t.insert(y.u[2], 78); }
	if (c[p + 2] == '2') { for (auto& k : y.pr) if (!k.empty()) y.t.insert(k, 79); }
	T const& ct = x.t;
	switch (c[p + 1])
	{
	case 'a': { vector<int32_t> v(ct.ibegin(), ct.iend()); y.t.assign(v.begin(), v.end()); break; }
	case 'b': { vector<uint32_t> v; for (auto i = ct.ibegin(); i != ct.iend(); i++) v.push_back(*i); list<uint32_t> l(v.begin(), v.end()); y.t.assign(l.begin(), l.end()); break; }
	case 'c': { vector<char> v(wordring::serialize_iterator(ct.ibegin()), wordring::serialize_iterator(ct.iend())); y.t.assign(v.begin(), v.end()); break; }
	case 'd': { y.t.assign(wordring::serialize_iterator(ct.ibegin()), wordring::serialize_iterator(ct.iend())); break; }
	case 'e': { vector<int16_t> v; for (auto i = ct.ibegin(); i != ct.iend(); ++i) { v.push_back(int16_t(*i >> 16)); v.push_back(int16_t(*i)); } y.t.assign(v.begin(), v.end()); break; }
	case 'f': { stringstream ss; ss << ct; ss >> y.t; break; }
	case 'g': // two tries and other data in one stream
	{
		stringstream ss; ss << ct << 'X'; z.t.insert(z.u[0], 5); z.m[z.u[0]] = 5; z.t.insert(z.u[4], 6); z.m[z.u[4]] = 6; ss << z.t << "tail";
		char b = 0; ss >> y.t; ss.get(b);
		if (b != 'X') return "reading a trie from a stream consumed what follows it";
		T w; ss >> w; string rest; ss >> rest;
		if (rest != "tail") return "reading a second trie from a stream does not stop at its end";
		string r = check_membership<T, L>(w, z.m, z.pr, z.u); if (!r.empty()) return "second trie in the stream: " + r;
		break;
	}
	case 'h': { vector<int32_t> v(ct.ibegin(), ct.iend()); T w(v.begin(), v.end()); y.t.swap(w); break; }
	case 'i': { T w(ct); y.t = w; break; }
	case 'j': { T w(move(x.t)); y.t = move(w); x.t = y.t; break; }
	}
	mc::state();
	string r = check_membership<T, L>(x.t, x.m, x.pr, x.u); if (!r.empty()) return "saved trie changed: " + r;
	r = check_membership<T, L>(y.t, y.m, y.pr, y.u); if (!r.empty()) return "restored trie: " + r;
	r = check_navigation<T, L>(y.t, y.m, y.pr, y.labels); if (!r.empty()) return "restored trie: " + r;
	for (char o : c.substr(q + 1))
	{
		r = y.apply(o);
		if (r.empty()) r = check_membership<T, L>(y.t, y.m, y.pr, y.u);
		if (!r.empty()) return "restored trie, later edit '" + string(1, o) + "': " + r;
	}
	mc::outcome(c.substr(0, p));
	return "";
}
// bulk: "<f><u>:<how><list of key digits, '-' = empty key>"
template <typename T, typename L, typename K> static string bulk(string const& c)
{
	trie_machine<T, L> x(c[0] - '0', c[1] - '0');
	vector<K> keys; 
	for (char d : c.substr(4)) { if (d == '-') keys.push_back(K()); else { auto& k = x.u[d - '0']; keys.push_back(K(k.begin(), k.end())); if (!x.m.count(k)) x.m[k] = 0; } }
	T t;
	if (c[3] == 'a') { t.insert(x.u[5], 9); t.assign(keys.begin(), keys.end()); }
	else if (c[3] == 'l') { list<K> l(keys.begin(), keys.end()); T w(l.begin(), l.end()); t = w; }
	else { T w(keys.begin(), keys.end()); t.swap(w); }
	mc::state(); mc::transition(keys.size());
	string r = check_membership<T, L>(t, x.m, x.pr, x.u); if (!r.empty()) return r;
	r = check_navigation<T, L>(t, x.m, x.pr, x.labels); if (!r.empty()) return r;
	t.insert(x.u[2], 3); if (!x.m.count(x.u[2])) x.m[x.u[2]] = 3; t.erase(x.u[0]); x.m.erase(x.u[0]);
	r = check_membership<T, L>(t, x.m, x.pr, x.u); if (!r.empty()) return "edits after bulk construction: " + r;
	mc::outcome(c);
	return "";
}
template <typename T, typename L> static void reg(string n, vector<int> fams, int depth)
{
	mc::add(n + ": save and restore", [=](mc::enumerator& e) {
		for (int f : fams) for (size_t u = 0; u < universes().size(); ++u)
			for (char m : string("abcdefghij")) for (char tgt : string("012"))
			{
				string post[] = { "Cb", "aE", "2AD", "" };
				string po = post[(m + tgt + u) % 4];
				mc::all_strings(e, mc::chars("ABCDEFab1"), 0, depth, to_string(f) + to_string(u) + ":", string("|") + m + tgt + "|" + po);
				mc::all_strings(e, mc::chars("y"), 1, 1, to_string(f) + to_string(u) + ":", string("|") + m + tgt + "|" + po);
			}
		}, run<T, L>);
	mc::add(n + ": every edit after restoring", [=](mc::enumerator& e) {
		for (int f : fams) for (size_t u = 0; u < universes().size(); ++u)
			for (char m : string("acf")) for (string pre : { "", "A", "ABCDEF", "FEDCBA", "ABCab", "y", "ABCDEFabc", "DEFd1" })
				mc::all_strings(e, mc::chars("ABCDEFabcdefG1xy"), 1, mc::g_thorough ? 3 : 2, to_string(f) + to_string(u) + ":" + pre + "|" + m + "1|");
		}, run<T, L>);
	mc::add(n + ": bulk construction", [=](mc::enumerator& e) {
		for (int f : fams) for (size_t u = 0; u < universes().size(); ++u) for (char h : string("acl"))
			mc::all_strings(e, mc::chars("012345-"), 0, mc::g_thorough ? 6 : 4, to_string(f) + to_string(u) + ":" + h);
		for (int f : fams) for (size_t u = 0; u < universes().size(); ++u) for (char h : string("ac"))
		{
			string p = "012345"; do e(to_string(f) + to_string(u) + ":" + h + p); while (next_permutation(p.begin(), p.end()));
		}
		}, [](string const& c) { if constexpr (sizeof(L) == 1) { string r = bulk<T, L, vector<L>>(c); if (!r.empty()) return r; } return bulk<T, L, basic_string<L>>(c); });
}
// a large trie with holes, saved, restored by one of the routes, edited on
template <typename T, typename L> static string large(string const& c)
{
	big_keys<L> b(c.substr(2)); T t, y; model_t<L> m; mc::outcome(c); uint32_t v = 0;
	for (int i = 0; i < b.n; ++i) { t.insert(b.k[b.at(i)], ++v); m[b.k[b.at(i)]] = v; }
	if (b.mode) for (int i = 0; i < b.n; i += b.mode + 1) { t.erase(b.k[b.at(i)]); m.erase(b.k[b.at(i)]); }
	mc::transition(b.n); mc::state();
	for (int i = 0; i < 20; ++i) y.insert(b.k[i % b.n], 5);
	T const& ct = t;
	switch (c[0])
	{
	case 'a': { vector<int32_t> w(ct.ibegin(), ct.iend()); y.assign(w.begin(), w.end()); break; }
	case 'c': { y.assign(wordring::serialize_iterator(ct.ibegin()), wordring::serialize_iterator(ct.iend())); break; }
	case 'e': { vector<int16_t> w; for (auto i = ct.ibegin(); i != ct.iend(); ++i) { w.push_back(int16_t(*i >> 16)); w.push_back(int16_t(*i)); } y.assign(w.begin(), w.end()); break; }
	case 'f': { stringstream ss; ss << ct << "tail"; ss >> y; string r; ss >> r; if (r != "tail") return "stream not left at the end of the trie"; break; }
	case 'i': { T w(ct); y = w; break; }
	}
	string r = check_membership<T, L>(y, m, b.pr, {}); if (!r.empty()) return "restored trie: " + r;
	if (b.n <= 100) { vector<L> labels{ big_keys<L>::lb('a'), big_keys<L>::lb('z'), L(0) }; r = check_navigation<T, L>(y, m, b.pr, labels); if (!r.empty()) return "restored trie: " + r; }
	for (int i = 0; i < b.n; ++i) { auto& k = b.k[b.at(i)]; if (m.count(k)) { if (i % 2) { y.erase(k); m.erase(k); } } else { y.insert(k, ++v); m[k] = v; } mc::transition(); }
	r = check_membership<T, L>(y, m, b.pr, {}); if (!r.empty()) return "restored trie, after later edits: " + r;
	return "";
}
template <typename T, typename L> static void reglarge(string n)
{
	mc::add(n + ": large", [](mc::enumerator& e) { for (char m : string("acefi")) { mc::enumerator x; x.exec = [&](uint64_t, string const& c) { e(string(1, m) + ":" + c); }; big_cases(x, mc::g_thorough ? vector<int>{ 10, 33, 100, 257, 400, 1000 } : vector<int>{ 10, 33, 100, 257 }, "013"); } }, large<T, L>, 90);
}
void mc_register()
{
	reglarge<wordring::trie<char>, char>("trie<char>"); reglarge<wordring::stable_trie<char>, char>("stable_trie<char>"); reglarge<wordring::trie<char32_t>, char32_t>("trie<char32_t>");
	int d = mc::g_thorough ? 4 : 3;
	reg<wordring::trie<char>, char>("trie<char>", { 0, 1 }, d);
	reg<wordring::stable_trie<char>, char>("stable_trie<char>", { 0, 1 }, d);
	reg<wordring::trie<char16_t>, char16_t>("trie<char16_t>", { 2 }, d - 1);
	reg<wordring::stable_trie<char16_t>, char16_t>("stable_trie<char16_t>", { 2 }, d - 1);
	reg<wordring::trie<char32_t>, char32_t>("trie<char32_t>", { 3 }, d - 1);
	reg<wordring::stable_trie<char32_t>, char32_t>("stable_trie<char32_t>", { 3 }, d - 1);
}
MC_MAIN
