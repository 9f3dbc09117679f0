// C02: big-endian integer serialisation, every value / byte pattern / sequence
#include "../mc/mc.hpp"
#include <wordring/serialize/serialize.hpp>
#include <wordring/serialize/serialize_iterator.hpp>
#include <forward_list>
using namespace std;
// The case is the byte string expected; values are derived from it by arithmetic in base 256.
template <typename T> static T from(string const& b, size_t off) { uint64_t v = 0; for (size_t i = 0; i < sizeof(T); ++i) v = v * 256 + (unsigned char)b[off + i]; return static_cast<T>(v); }
template <typename T> static string run(string const& bytes)
{
	if (bytes.size() % sizeof(T)) return "bad case";
	size_t n = bytes.size() / sizeof(T);
	// exactly sized heap ranges: any access outside is an address error
	unique_ptr<T[]> v(new T[n]);
	for (size_t i = 0; i < n; ++i) v[i] = from<T>(bytes, i * sizeof(T));
	mc::state(n); mc::transition(bytes.size());
	for (size_t i = 0; i < n; ++i)
	{
		auto a = wordring::serialize(v[i]);
		if (a.size() != sizeof(T) || !equal(a.begin(), a.end(), bytes.begin() + i * sizeof(T), [](uint8_t x, char y) { return x == uint8_t(y); })) return "serialize(value) wrong";
		for (uint32_t p = 0; p < sizeof(T); ++p) if (wordring::serialize(v[i], p) != uint8_t(bytes[i * sizeof(T) + p])) return "serialize(value, position) wrong";
		T r{}; auto e = wordring::deserialize(a.begin(), a.end(), r);
		if (r != v[i] || e != a.end()) return "deserialize of one value wrong";
	}
	{
		auto it = wordring::serialize_iterator(v.get()), en = wordring::serialize_iterator(v.get() + n);
		string o; size_t k = 0; bool flip = false;
		while (it != en)
		{
			if (o.size() >= bytes.size()) return "serialize_iterator produces too many bytes";
			if (it.base() != v.get() + o.size() / sizeof(T)) return "base() of the serialize_iterator wrong";
			if (it == en) return "== and != of serialize_iterator agree";
			uint8_t b = *it; if (flip ? uint8_t(*it++) != b : (++it, false)) return "post-increment wrong"; flip = !flip; o += char(b);
		}
		if (o != bytes) return "serialize_iterator yields the wrong bytes";
		if (!(it == en)) return "serialize_iterator end wrong";
	}
	{
		list<T> l(v.get(), v.get() + n);
		string o(wordring::serialize_iterator(l.begin()), wordring::serialize_iterator(l.end()));
		if (o != bytes) return "serialize_iterator over a list wrong";
	}
	unique_ptr<char[]> b(new char[bytes.size()]);
	copy(bytes.begin(), bytes.end(), b.get());
	{
		using D = wordring::deserialize_iterator<T, char*>;
		D it(b.get()), en(b.get() + bytes.size());
		size_t i = 0;
		while (it != en) { if (i >= n) return "deserialize_iterator yields too many"; T x = *it; if (x != v[i]) return "deserialize_iterator yields the wrong value"; if (i % 2) { if (*it++ != v[i]) return "post-increment wrong"; } else ++it; ++i; }
		if (i != n || !(it == en)) return "deserialize_iterator count wrong";
		forward_list<uint8_t> fl(bytes.begin(), bytes.end());
		using F = wordring::deserialize_iterator<T, forward_list<uint8_t>::iterator>;
		i = 0; for (F f(fl.begin()), fe(fl.end()); f != fe; ++f, ++i) if (i >= n || *f != v[i]) return "deserialize_iterator over a list wrong";
		if (i != n) return "deserialize_iterator over a list count wrong";
	}
	{ // value after value from one range; stops at the end; a short range is not overrun
		char* p = b.get(); char* e = p + bytes.size();
		for (size_t i = 0; i < n; ++i) { T x{}; char* q = wordring::deserialize(p, e, x); if (x != v[i] || q != p + sizeof(T)) return "deserialize in sequence wrong"; p = q; }
		T x{}; if (wordring::deserialize(p, e, x) != e) return "deserialize of an empty range moves";
		if (n) { T y{}; if (wordring::deserialize(b.get() + bytes.size() - sizeof(T) + 1, e, y) != e) return "deserialize of a short range does not stop at its end"; }
		stringstream ss(bytes); istreambuf_iterator<char> s(ss), se;
		for (size_t i = 0; i < n; ++i) { T z{}; s = wordring::deserialize(s, se, z); if (z != v[i]) return "deserialize from a stream wrong"; }
		if (s != se) return "deserialize from a stream leaves bytes";
	}
	mc::outcome(bytes);
	return "";
}
template <typename T> static void reg(string n)
{
	auto bytes = [](initializer_list<int> l) { vector<string> v; for (int i : l) v.push_back(string(1, char(i))); return v; };
	vector<string> all; for (int i = 0; i < 256; ++i) all.push_back(string(1, char(i)));
	mc::add(n + ": every value or boundary byte pattern", [=](mc::enumerator& e) {
		if (sizeof(T) <= 2) mc::all_strings(e, all, sizeof(T), sizeof(T));
		else if (sizeof(T) == 4) { mc::all_strings(e, bytes({ 0, 1, 2, 0x7F, 0x80, 0xA5, 0xFE, 0xFF, 0x40, 0x10 }), 4, 4); for (int p = 0; p < 4; ++p) for (auto& a : all) for (int bg : { 0, 255, 0x5A }) { string s(4, char(bg)); s[p] = a[0]; e(s); } }
		else { mc::all_strings(e, mc::g_thorough ? bytes({ 0, 1, 0x7F, 0x80, 0xA5, 0xFF }) : bytes({ 0, 0x7F, 0x80, 0xFF }), 8, 8); for (int p = 0; p < 8; ++p) for (auto& a : all) for (int bg : { 0, 255, 0x5A }) { string s(8, char(bg)); s[p] = a[0]; e(s); } }
		}, run<T>);
	mc::add(n + ": sequences", [=](mc::enumerator& e) {
		vector<string> vals;
		for (int k = 0; k < 7; ++k) { string s(sizeof(T), 0); if (k == 1) s.back() = 1; if (k == 2) s[0] = char(0x80); if (k == 3) s = string(sizeof(T), char(0xFF)); if (k == 4) s[0] = 0x7F; if (k == 5) for (size_t i = 0; i < s.size(); ++i) s[i] = char(i * 37 + 129); if (k == 6) s.back() = char(0x80); vals.push_back(s); }
		mc::all_strings(e, vals, 0, mc::g_thorough ? 5 : 4);
		for (int n : { 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000 }) for (int k = 0; k < 7; ++k) { string s; for (int i = 0; i < n; ++i) s += vals[(i * (k + 1) + k) % 7]; e(s); }
		}, run<T>);
}
void mc_register()
{
	reg<int8_t>("int8"); reg<uint8_t>("uint8"); reg<char>("char"); reg<int16_t>("int16"); reg<uint16_t>("uint16"); reg<char16_t>("char16"); reg<int32_t>("int32"); reg<uint32_t>("uint32"); reg<char32_t>("char32"); reg<wchar_t>("wchar"); reg<int64_t>("int64"); reg<uint64_t>("uint64");
}
MC_MAIN
