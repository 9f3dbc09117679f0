// C01: fixed-capacity vector vs std::vector, all operation histories.
#include <mc.hpp>
#include <list>
#include <wordring/static_vector/static_vector.hpp>

using namespace std;

// an element whose moved-from state is visible
struct el
{
	int v = 0;
	el() = default;
	el(int i) : v(i) {}
	el(el const&) = default;
	el& operator=(el const&) = default;
	el(el&& o) : v(o.v) { o.v = -1; }
	el& operator=(el&& o) { int t = o.v; o.v = -1; v = t; return *this; }
	bool operator==(el const& o) const { return v == o.v; }
	bool operator<(el const& o) const { return v < o.v; }
};

template <class C> string show(C const& c) { string s = "["; for (auto& e : c) s += to_string(e.v) + " "; return s + "]"; }

static bool opt(vector<string>& r, string s) { r.push_back(s); return true; }

template <size_t N>
struct run_t
{
	using SV = wordring::static_vector<el, N>;
	SV a, b;
	vector<el> ra, rb;
	int fresh = 1;

	// operations enabled in the model state
	static vector<string> ops(size_t s, size_t o)
	{
		vector<string> r;
		for (size_t p = 0; p <= s; ++p)
		{
			string P = to_string(p);
			if (s < N) { r.push_back("ins " + P); r.push_back("insrv " + P); r.push_back("insrvtmp " + P); for (size_t q = 0; q < s; ++q) r.push_back("insalias " + P + " " + to_string(q)); }
			for (size_t c = 0; s + c <= N; ++c) { string X = P + " " + to_string(c); r.push_back("insn " + X); r.push_back("insr " + X); r.push_back("insl " + X); if (c <= 3) r.push_back("insil " + X); for (size_t q = 0; q < s && c; ++q) r.push_back("insnalias " + X + " " + to_string(q)); }
			if (p < s) r.push_back("era " + P);
			for (size_t q = p; q <= s; ++q) r.push_back("erar " + P + " " + to_string(q));
			if (p < s) { r.push_back("set " + P); r.push_back("setat " + P); r.push_back("setit " + P); r.push_back("setdata " + P); }
		}
		for (size_t c = 0; c <= N; ++c) { string C = to_string(c); for (string x : { "rsz ", "rszv ", "asgn ", "asgr ", "asgil ", "opil ", "ctorn ", "ctornv ", "ctorr ", "ctoril " }) if (x.find("il") == string::npos || c <= 3) r.push_back(x + C); }
		if (s < N) { r.push_back("push"); r.push_back("pushrv"); if (s) r.push_back("pushalias"); }
		if (s) { r.push_back("pop"); r.push_back("setback"); r.push_back("setfront"); }
		r.push_back("clear"); r.push_back("swap"); r.push_back("copyto"); r.push_back("copyctor"); r.push_back("selfcopy"); r.push_back("moveto");
		return r;
	}
	string apply(string const& op)
	{
		istringstream in(op); string n; long x = 0, y = 0, z = 0; in >> n >> x >> y >> z;
		auto f = [&] { return fresh++; };
		auto seq = [&](long c) { vector<el> v; for (long i = 0; i < c; ++i) v.push_back(f()); return v; };
		auto chk = [&](typename SV::iterator it, vector<el>::iterator rit) -> string { if (it - a.begin() != rit - ra.begin()) return op + " returned position " + to_string(it - a.begin()) + " instead of " + to_string(rit - ra.begin()); return ""; };
		auto ci = [&](long p) { return a.cbegin() + p; };
		auto il = [&](auto&& fn, vector<el> const& v) { if (v.size() == 0) return fn(initializer_list<el>{}); if (v.size() == 1) return fn({ v[0] }); if (v.size() == 2) return fn({ v[0], v[1] }); return fn({ v[0], v[1], v[2] }); };
		if (n == "ins") { el e = f(); auto i = a.insert(ci(x), e); auto j = ra.insert(ra.begin() + x, e); return chk(i, j); }
		if (n == "insrvtmp") { int e = f(); auto i = a.insert(ci(x), el(e)); auto j = ra.insert(ra.begin() + x, el(e)); return chk(i, j); }
		if (n == "insrv") { el e = f(), e2 = e; auto i = a.insert(ci(x), std::move(e)); auto j = ra.insert(ra.begin() + x, std::move(e2)); return chk(i, j); }
		if (n == "insalias") { auto i = a.insert(ci(x), a[y]); el t = ra[y]; auto j = ra.insert(ra.begin() + x, t); return chk(i, j); }
		if (n == "insnalias") { auto i = a.insert(ci(x), size_t(y), a[z]); el t = ra[z]; auto j = ra.insert(ra.begin() + x, y, t); return chk(i, j); }
		if (n == "insn") { el e = f(); auto i = a.insert(ci(x), size_t(y), e); auto j = ra.insert(ra.begin() + x, y, e); return chk(i, j); }
		if (n == "insr") { auto v = seq(y); auto i = a.insert(ci(x), v.begin(), v.end()); auto j = ra.insert(ra.begin() + x, v.begin(), v.end()); return chk(i, j); }
		if (n == "insl") { auto v = seq(y); list<el> l(v.begin(), v.end()); auto i = a.insert(ci(x), l.begin(), l.end()); auto j = ra.insert(ra.begin() + x, v.begin(), v.end()); return chk(i, j); }
		if (n == "insil") { auto v = seq(y); auto i = il([&](initializer_list<el> l) { return a.insert(ci(x), l); }, v); auto j = ra.insert(ra.begin() + x, v.begin(), v.end()); return chk(i, j); }
		if (n == "era") { auto i = a.erase(ci(x)); auto j = ra.erase(ra.begin() + x); return chk(i, j); }
		if (n == "erar") { auto i = a.erase(ci(x), ci(y)); auto j = ra.erase(ra.begin() + x, ra.begin() + y); return chk(i, j); }
		if (n == "set") { el e = f(); a[x] = e; ra[x] = e; }
		else if (n == "setat") { el e = f(); a.at(x) = e; ra[x] = e; }
		else if (n == "setit") { el e = f(); *(a.begin() + x) = e; ra[x] = e; }
		else if (n == "setdata") { el e = f(); a.data()[x] = e; ra[x] = e; }
		else if (n == "rsz") { a.resize(x); ra.resize(x); }
		else if (n == "rszv") { el e = f(); a.resize(x, e); ra.resize(x, e); }
		else if (n == "asgn") { el e = f(); a.assign(size_t(x), e); ra.assign(x, e); }
		else if (n == "asgr") { auto v = seq(x); a.assign(v.begin(), v.end()); ra = v; }
		else if (n == "asgil") { auto v = seq(x); il([&](initializer_list<el> l) { a.assign(l); return 0; }, v); ra = v; }
		else if (n == "opil") { auto v = seq(x); il([&](initializer_list<el> l) { a = l; return 0; }, v); ra = v; }
		else if (n == "ctorn") { a = SV(size_t(x)); ra = vector<el>(x); }
		else if (n == "ctornv") { el e = f(); a = SV(size_t(x), e); ra = vector<el>(x, e); }
		else if (n == "ctorr") { auto v = seq(x); a = SV(v.begin(), v.end()); ra = v; }
		else if (n == "ctoril") { auto v = seq(x); il([&](initializer_list<el> l) { a = SV(l); return 0; }, v); ra = v; }
		else if (n == "push") { el e = f(); a.push_back(e); ra.push_back(e); }
		else if (n == "pushrv") { int e = f(); a.push_back(el(e)); ra.push_back(el(e)); }
		else if (n == "pushalias") { a.push_back(a[0]); el t = ra[0]; ra.push_back(t); }
		else if (n == "pop") { a.pop_back(); ra.pop_back(); }
		else if (n == "setback") { el e = f(); a.back() = e; ra.back() = e; }
		else if (n == "setfront") { el e = f(); a.front() = e; ra.front() = e; }
		else if (n == "clear") { a.clear(); ra.clear(); }
		else if (n == "swap") { a.swap(b); ra.swap(rb); }
		else if (n == "copyto") { b = a; rb = ra; }
		else if (n == "copyctor") { SV c(a); vector<el> rc(ra); b.swap(c); rb = rc; }
		else if (n == "selfcopy") { SV const& r = a; a = r; }
		else if (n == "moveto") { SV t(a); SV u(std::move(t)); b = std::move(u); rb = ra; }
		else return "bad op " + op;
		return "";
	}
	static string same(SV& a, vector<el> const& r)
	{
		SV const& c = a;
		if (a.size() != r.size()) return "size " + to_string(a.size()) + " instead of " + to_string(r.size());
		if (a.empty() != r.empty()) return "empty() wrong";
		if (a.max_size() != N || a.capacity() != N) return "capacity wrong";
		size_t n = r.size();
		vector<el> v;
		for (size_t i = 0; i < n; ++i) v.push_back(a[i]);
		if (v != r) return "elements " + show(v) + " instead of " + show(r);
		v.clear(); for (auto it = a.begin(); it != a.end(); ++it) v.push_back(*it); if (v != r) return "forward iteration " + show(v) + " instead of " + show(r);
		v.clear(); for (auto it = c.begin(); it != c.end(); it++) v.push_back(*it); if (v != r) return "const iteration " + show(v);
		v.clear(); for (auto it = a.cbegin(); it != a.cend(); ++it) v.push_back(it->v); if (v != r) return "c-iteration " + show(v);
		vector<el> rr(r.rbegin(), r.rend());
		v.clear(); for (auto it = a.rbegin(); it != a.rend(); ++it) v.push_back(*it); if (v != rr) return "reverse iteration " + show(v);
		v.clear(); for (auto it = c.rbegin(); it != c.rend(); ++it) v.push_back(*it); if (v != rr) return "const reverse iteration " + show(v);
		v.clear(); for (auto it = c.crbegin(); it != c.crend(); ++it) v.push_back(*it); if (v != rr) return "c reverse iteration " + show(v);
		v.clear(); for (auto it = a.end(); it != a.begin();) v.push_back(*--it); if (v != rr) return "backward iteration " + show(v);
		for (size_t i = 0; i < n; ++i)
		{
			if (!(c[i] == r[i]) || !(a.at(i) == r[i]) || !(c.at(i) == r[i]) || !(a.data()[i] == r[i]) || !(c.data()[i] == r[i])) return "indexed access wrong at " + to_string(i);
			if (!((a.begin() + i)[0] == r[i]) || !(a.begin()[int(i)] == r[i]) || !(c.begin()[int(i)] == r[i])) return "iterator indexing wrong";
		}
		if (n && (!(a.front() == r.front()) || !(a.back() == r.back()) || !(c.front() == r.front()) || !(c.back() == r.back()))) return "front/back wrong";
		for (size_t i = 0; i <= n; ++i) for (size_t j = 0; j <= n; ++j)
		{
			auto p = a.begin() + i; auto q = c.begin() + j;
			if ((p - q) != long(i) - long(j)) return "iterator difference wrong";
			if ((p < q) != (i < j) || (p > q) != (i > j) || (p <= q) != (i <= j) || (p >= q) != (i >= j) || (p == q) != (i == j) || (p != q) != (i != j)) return "iterator comparison wrong";
			auto t = a.begin(); t += j; if (t - a.begin() != long(j)) return "iterator += wrong";
			auto u = a.end(); u -= (n - j); if (u - a.begin() != long(j)) return "iterator -= wrong";
			auto w = j + a.begin(); if (w - a.begin() != long(j)) return "n + iterator wrong";
			auto x = a.end() - (n - j); if (x - a.begin() != long(j)) return "iterator - n wrong";
			if (j < n) { auto y = a.begin() + j; auto z = y++; if (z - a.begin() != long(j) || y - a.begin() != long(j) + 1) return "post increment wrong"; z = y--; if (z - a.begin() != long(j) + 1 || y - a.begin() != long(j)) return "post decrement wrong"; }
		}
		return "";
	}
	string check()
	{
		string m = same(a, ra); if (!m.empty()) return m;
		m = same(b, rb); if (!m.empty()) return "second vector: " + m;
		if ((a == b) != (ra == rb) || (a != b) != (ra != rb)) return "equality wrong";
		if ((a < b) != (ra < rb) || (b < a) != (rb < ra) || (a > b) != (rb < ra) || (a <= b) != !(rb < ra) || (a >= b) != !(ra < rb)) return "ordering wrong";
		return "";
	}
	string history(vector<string> const& h)
	{
		for (auto& o : h)
		{
			string m = apply(o); mc::transition();
			if (m.empty()) m = check();
			mc::state();
			if (!m.empty()) return "after " + o + ": " + m;
		}
		mc::outcome(to_string(N) + show(ra) + show(rb));
		return "";
	}
};

static vector<string> split(string const& s)
{
	vector<string> r; size_t i = 0;
	while (i < s.size()) { size_t j = s.find(';', i); if (j == string::npos) j = s.size(); r.push_back(s.substr(i, j - i)); i = j + 1; }
	return r;
}

template <size_t N> void sizes_after(string const& op, size_t& s, size_t& o)
{
	istringstream in(op); string n; size_t x = 0, y = 0; in >> n >> x >> y;
	if (n == "ins" || n == "insrv" || n == "insrvtmp" || n == "insalias" || n == "push" || n == "pushrv" || n == "pushalias") ++s;
	else if (n == "insn" || n == "insr" || n == "insl" || n == "insil" || n == "insnalias") s += y;
	else if (n == "era" || n == "pop") --s;
	else if (n == "erar") s -= y - x;
	else if (n == "rsz" || n == "rszv" || n == "asgn" || n == "asgr" || n == "asgil" || n == "opil" || n.rfind("ctor", 0) == 0) s = x;
	else if (n == "clear") s = 0;
	else if (n == "swap") swap(s, o);
	else if (n == "copyto" || n == "copyctor" || n == "moveto") o = s;
}

template <size_t N> void rec(mc::enumerator& e, string const& h, size_t s, size_t o, int depth)
{
	for (auto& op : run_t<N>::ops(s, o))
	{
		string g = h + op + ";";
		if (depth <= 1) { e(g); continue; }
		size_t s2 = s, o2 = o; sizes_after<N>(op, s2, o2);
		rec<N>(e, g, s2, o2, depth - 1);
	}
}
template <size_t N> void hist(string name, int d, bool stale)
{
	mc::add(name, [=](mc::enumerator& e)
	{
		if (!stale) { rec<N>(e, "", 0, 0, d); return; }
		// from every size, with used slots beyond the end, for every size of the partner
		for (size_t s = 0; s <= N; ++s) for (size_t o = 0; o <= N; o += N) rec<N>(e, "asgr " + to_string(N) + ";rsz " + to_string(o) + ";swap;asgr " + to_string(N) + ";rsz " + to_string(s) + ";", s, o, d);
	}, [](string const& c) { run_t<N> r; return r.history(split(c)); });
}

// large capacities: representative positions and counts at every interesting size
template <size_t N> void large(string name)
{
	mc::add(name, [](mc::enumerator& e)
	{
		auto S = [](size_t a) { return to_string(a); };
		set<size_t> sizes{ 0, 1, 2, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, N / 2, N - 2, N - 1, N };
		for (size_t s : sizes) if (s <= N)
		{
			string h = "asgr " + S(N) + ";rsz " + S(s) + ";";
			set<size_t> ps{ 0, min<size_t>(1, s), s / 2, s ? s - 1 : 0, s }, cs{ 0, 1, 2, 8, 16, 17, (N - s) / 2, N - s };
			for (size_t p : ps)
			{
				if (s < N) for (string o : { "ins ", "insrv ", "insrvtmp " }) e(h + o + S(p) + ";");
				if (s < N) for (size_t q : ps) if (q < s) e(h + "insalias " + S(p) + " " + S(q) + ";");
				for (size_t c : cs) if (s + c <= N) { for (string o : { "insn ", "insr ", "insl " }) e(h + o + S(p) + " " + S(c) + ";"); if (c) for (size_t q : ps) if (q < s) e(h + "insnalias " + S(p) + " " + S(c) + " " + S(q) + ";"); }
				if (p < s) for (string o : { "era ", "set ", "setat ", "setit ", "setdata " }) e(h + o + S(p) + ";");
				for (size_t q : ps) if (q >= p) { e(h + "erar " + S(p) + " " + S(q) + ";"); e(h + "erar " + S(p) + " " + S(q) + ";rsz " + S(N) + ";"); }
			}
			for (size_t c : sizes) if (c <= N) for (string o : { "rsz ", "rszv ", "asgn ", "asgr ", "ctorn ", "ctornv ", "ctorr " }) e(h + o + S(c) + ";");
			for (string o : { "clear", "swap", "copyto", "copyctor", "selfcopy", "moveto" }) e(h + o + ";rsz " + S(s) + ";");
			if (s < N) { e(h + "push;"); e(h + "pushrv;"); } if (s) e(h + "pop;");
		}
	}, [](string const& c) { run_t<N> r; return r.history(split(c)); });
}
void mc_register()
{
	large<33>("capacity 33, representative"); large<130>("capacity 130, representative");
	bool t = mc::g_thorough;
	hist<1>("capacity 1 histories", t ? 4 : 3, false);
	hist<2>("capacity 2 histories", t ? 4 : 3, false);
	hist<3>("capacity 3 histories", 3, false);
	hist<3>("capacity 3, every size then 2", 2, true);
	hist<4>("capacity 4, every size then 2", 2, true);
	hist<8>("capacity 8, every size", t ? 2 : 1, true);
	hist<17>("capacity 17, every size then 1", 1, true);
	mc::add("comparisons of all pairs", [](mc::enumerator& e) { auto a = mc::chars("012"); vector<string> all; for (int n = 0; n <= 3; ++n) { mc::enumerator x; x.exec = [&](uint64_t, string const& c) { all.push_back(c); }; mc::all_strings(x, a, n, n); } for (auto& p : all) for (auto& q : all) e(p + "|" + q); },
		[](string const& c) -> string
		{
			size_t k = c.find('|'); vector<el> x, y; for (char q : c.substr(0, k)) x.push_back(q); for (char q : c.substr(k + 1)) y.push_back(q);
			run_t<4> r; r.a.assign(x.begin(), x.end()); r.ra = x; r.b.assign(y.begin(), y.end()); r.rb = y; mc::state(); mc::transition();
			mc::outcome(c); return r.check();
		});
}
MC_MAIN
