// C29: I/O queues; every history of operations against a two-part model (items, ended)
#include "../mc/mc.hpp"
#include <wordring/whatwg/encoding/encoding.hpp>
#include <wordring/whatwg/encoding/terminology.hpp>
using namespace std;
using namespace wordring::whatwg::encoding;
template <typename T> static string run(string const& ops)
{
	io_queue<T> q; deque<T> m; bool eoq = false; int next = 'a';
	auto N = [&] { return T(next++); };
	for (char op : ops)
	{
		mc::transition();
		switch (op)
		{
		case 'p': { T x = N(); q.push(x); m.push_back(x); break; }
		case 'P': { vector<T> v{ N(), N() }; q.push(v.begin(), v.end()); m.insert(m.end(), v.begin(), v.end()); break; }
		case 'i': { T x = N(); q.push(io_item<T>{ x, false }); m.push_back(x); break; }
		case 'e': q.push(io_item<T>{ T(), true }); eoq = true; break;
		case 'f': { T x = N(); q.prepend(x); m.push_front(x); break; }
		case 'F': { vector<T> v{ N(), N(), N() }; q.prepend(v.begin(), v.end()); m.insert(m.begin(), v.begin(), v.end()); break; }
		case 'r':
		{
			auto r = q.read();
			if (m.empty() && !eoq) { if (!r.m_wait) return "read of an empty queue does not wait"; break; }
			if (r.m_wait) return "read waits though there is something to read";
			if (m.empty()) { if (!r->m_eoq) return "read past the end does not give the end"; break; }
			if (r->m_eoq) return "read gives the end too early";
			if (**r != m.front()) return "read gives the wrong item";
			m.pop_front(); break;
		}
		case '1': case '2': case '3':
		{
			size_t n = op - '0'; auto r = q.read(uint32_t(n));
			if (m.size() < n && !eoq) { if (!r.m_wait) return "read(n) does not wait for n items"; break; }
			if (r.m_wait) return "read(n) waits though the end is known";
			size_t k = min(n, m.size());
			if (r->size() != k) return "read(" + to_string(n) + ") gives " + to_string(r->size()) + " of " + to_string(k) + " items";
			for (size_t i = 0; i < k; ++i) { if ((*r)[i].m_eoq || (*r)[i].m_value != m.front()) return "read(n) gives the wrong items"; m.pop_front(); }
			break;
		}
		case '4': case '5': case '6':
		{
			size_t n = op - '3'; auto r = q.peek(uint32_t(n));
			if (m.size() < n && !eoq) { if (!r.m_wait) return "peek(n) does not wait for n items"; break; }
			if (r.m_wait) return "peek(n) waits though the end is known";
			size_t k = min(n, m.size());
			if (r->size() != k) return "peek(" + to_string(n) + ") gives " + to_string(r->size()) + " of " + to_string(k) + " items";
			for (size_t i = 0; i < k; ++i) if ((*r)[i].m_eoq || (*r)[i].m_value != m[i]) return "peek(n) gives the wrong items";
			break;
		}
		}
		// what a copy yields is what the model holds
		basic_string<T> s; from_io_queue_convert(q, back_inserter(s));
		if (s != basic_string<T>(m.begin(), m.end())) return "content wrong after " + string(1, op);
		mc::state();
	}
	io_queue<T> c = q; size_t k = 0;
	for (;;) { auto r = c.read(); if (r.m_wait) { if (eoq) return "ended queue waits"; break; } if (r->m_eoq) { if (!eoq) return "queue ends though it was not ended"; auto r2 = c.read(); if (r2.m_wait || !r2->m_eoq) return "the end is not kept"; break; } ++k; }
	if (k != m.size()) return "wrong number of items";
	basic_string<T> txt(m.begin(), m.end()), back; auto q2 = to_io_queue_convert(txt.begin(), txt.end());
	from_io_queue_convert(q2, back_inserter(back)); if (back != txt) return "conversion from and to a queue wrong";
	string o; for (auto x : m) o += char(x); mc::outcome(o + (eoq ? "." : ""));
	return "";
}
void mc_register()
{
	mc::add("bytes", [](mc::enumerator& e) { mc::all_strings(e, mc::chars("pPiefFr123456"), 1, mc::g_thorough ? 6 : 5); }, run<char>);
	// long queues: filled by one operation, then every pair of operations, drained by another, and all of it again
	mc::add("long", [](mc::enumerator& e) {
		for (int n : { 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 257 }) for (string f : { "p", "P", "i", "f", "F", "pf", "Pr", "p5" }) for (string d : { "r", "1", "2", "3", "6r", "rf" }) mc::all_strings(e, mc::chars("pefr3" "6"), 0, mc::g_thorough ? 2 : 1, [&] { string s; for (int i = 0; i < n; ++i) s += f; return s; }(), [&] { string s; for (int i = 0; i < n + 2; ++i) s += d; return s + "p6r"; }());
	}, run<char32_t>, 60);
	mc::add("code points", [](mc::enumerator& e) { mc::all_strings(e, mc::chars("pPiefFr123456"), 1, mc::g_thorough ? 5 : 4); }, run<char32_t>);
}
MC_MAIN
