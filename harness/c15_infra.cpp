// C15: Infra string operations over UTF-8, UTF-16 and UTF-32 text
#include "../mc/mc.hpp"
#include <wordring/whatwg/infra/infra.hpp>
#include <wordring/whatwg/infra/unicode.hpp>
using namespace std;
using namespace wordring::whatwg;
static bool ws(uint32_t c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
static string show(u32string const& v) { string r; char b[16]; for (auto c : v) { snprintf(b, 16, "U+%X ", unsigned(c)); r += b; } return r; }
static string show(vector<u32string> const& v) { string r; for (auto& s : v) r += "[" + show(s) + "]"; return r; }
// independent conversions
template <class C> static basic_string<C> conv(u32string const& s)
{
	basic_string<C> r;
	for (uint32_t c : s)
		if constexpr (sizeof(C) == 4) r += C(c);
		else if constexpr (sizeof(C) == 2) { if (c < 0x10000) r += C(c); else { r += C(0xD7C0 + (c >> 10)); r += C(0xDC00 | (c & 0x3FF)); } }
		else if (c < 0x80) r += C(c);
		else if (c < 0x800) { r += C(0xC0 | c >> 6); r += C(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += C(0xE0 | c >> 12); r += C(0x80 | (c >> 6 & 63)); r += C(0x80 | (c & 63)); }
		else { r += C(0xF0 | c >> 18); r += C(0x80 | (c >> 12 & 63)); r += C(0x80 | (c >> 6 & 63)); r += C(0x80 | (c & 63)); }
	return r;
}
static u32string low(u32string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static u32string up(u32string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static u32string trim(u32string s) { while (!s.empty() && ws(s.back())) s.pop_back(); while (!s.empty() && ws(s.front())) s.erase(0, 1); return s; }
static vector<u32string> strict(u32string const& s, uint32_t d) { vector<u32string> r(1); for (auto c : s) if (uint32_t(c) == d) r.emplace_back(); else r.back() += c; return r; }
template <class C> static string one(u32string const& s, char const* tn)
{
	using S = basic_string<C>; S in = conv<C>(s); auto b = in.begin(), e = in.end();
	mc::state(); mc::transition(12);
	string f;
	auto cmp = [&](char const* n, S const& got, u32string const& want) { if (f.empty() && got != conv<C>(want)) f = string(tn) + " " + n + " of " + show(s) + "is not " + show(want); };
	auto cmpl = [&](char const* n, vector<S> const& got, vector<u32string> const& want) { vector<S> w; for (auto& x : want) w.push_back(conv<C>(x)); if (f.empty() && got != w) f = string(tn) + " " + n + " of " + show(s) + "is not " + show(want); };
	bool ascii = true; for (auto c : s) if (c > 127) ascii = false;
	if (is_ascii_string(b, e) != ascii) return "is_ascii_string wrong for " + show(s);
	{ S o; to_ascii_lowercase(b, e, back_inserter(o)); cmp("lowercase", o, low(s)); }
	{ S o; to_ascii_uppercase(b, e, back_inserter(o)); cmp("uppercase", o, up(s)); }
	{ u32string w; for (auto c : s) if (c != 10 && c != 13) w += c; S o; strip_newlines(b, e, back_inserter(o)); cmp("strip_newlines", o, w); }
	{ u32string w; for (size_t i = 0; i < s.size(); ++i) if (s[i] == 13) { w += U'\n'; if (i + 1 < s.size() && s[i + 1] == 10) ++i; } else w += s[i]; S o; normalize_newlines(b, e, back_inserter(o)); cmp("normalize_newlines", o, w);
	  S p; normalize_newlines(o.begin(), o.end(), back_inserter(p)); if (p != o) return "normalize_newlines is not idempotent"; }
	{ S o; strip_leading_and_trailing_ascii_whitespace(b, e, back_inserter(o)); cmp("strip whitespace", o, trim(s)); }
	vector<u32string> words; { u32string w; for (auto c : s) if (ws(c)) { if (!w.empty()) words.push_back(w); w.clear(); } else w += c; if (!w.empty()) words.push_back(w); }
	{ u32string w; for (auto& x : words) { if (!w.empty()) w += U' '; w += x; } S o; strip_and_collapse_ascii_whitespace(b, e, back_inserter(o)); cmp("collapse whitespace", o, w); }
	{ vector<S> o; split_on_ascii_whitespace(b, e, back_inserter(o)); cmpl("split on whitespace", o, words); }
	{ auto w = strict(s, ','); if (w.back().empty()) w.pop_back(); for (auto& x : w) x = trim(x); vector<S> o; split_on_commas(b, e, back_inserter(o)); cmpl("split on commas", o, w); }
	for (uint32_t d : { uint32_t(','), uint32_t('z'), uint32_t(' '), 0xE9u, 0x1F600u }) { vector<S> o; strictly_split_on_particular_delimiter(b, e, back_inserter(o), d); cmpl("strict split", o, strict(s, d)); }
	{ u32string w, rest = s; while (!rest.empty() && ws(rest[0])) rest.erase(0, 1); auto it = skip_ascii_whitespace(b, e); cmp("skip whitespace", S(it, e), rest); }
	{ size_t k = 0; while (k < s.size() && (s[k] == 'A' || s[k] > 127)) ++k; S o; auto it = collect_sequence_of_code_points(b, e, back_inserter(o), [](char32_t c) { return c == 'A' || c > 127; }); cmp("collect", o, s.substr(0, k)); cmp("collect position", S(it, e), s.substr(k)); }
	mc::outcome(show(words));
	return f;
}
template <class C, class D> static string match(u32string const& a, u32string const& b)
{
	auto x = conv<C>(a); auto y = conv<D>(b); mc::transition();
	bool w = low(a) == low(b);
	return is_ascii_case_insensitive_match(x.begin(), x.end(), y.begin(), y.end()) == w ? "" : "case-insensitive match of " + show(a) + "and " + show(b) + "is wrong";
}
static string bytes(string const& s)
{
	mc::state(); mc::transition(8);
	string l = s, u = s; for (auto& c : l) if (c >= 'A' && c <= 'Z') c += 32; for (auto& c : u) if (c >= 'a' && c <= 'z') c -= 32;
	string o; to_byte_lowercase(s.begin(), s.end(), back_inserter(o)); if (o != l) return "to_byte_lowercase wrong for " + mc::escape(s);
	string p; to_byte_uppercase(s.begin(), s.end(), back_inserter(p)); if (p != u) return "to_byte_uppercase wrong for " + mc::escape(s);
	string q = s; to_byte_lowercase(q.begin(), q.end(), q.begin()); if (q != l) return "to_byte_lowercase in place wrong for " + mc::escape(s);
	q = s; to_byte_uppercase(q.begin(), q.end(), q.begin()); if (q != u) return "to_byte_uppercase in place wrong for " + mc::escape(s);
	u32string d, w; for (unsigned char c : s) w += c; isomorphic_decode(s.begin(), s.end(), back_inserter(d)); if (d != w) return "isomorphic_decode wrong for " + mc::escape(s);
	u16string d16; isomorphic_decode(s.begin(), s.end(), back_inserter(d16)); if (d16 != u16string(w.begin(), w.end())) return "isomorphic_decode to UTF-16 wrong for " + mc::escape(s);
	string z; isomorphic_encode(d.begin(), d.end(), back_inserter(z)); if (z != s) return "isomorphic_encode wrong for " + mc::escape(s);
	z.clear(); isomorphic_encode(d16.begin(), d16.end(), back_inserter(z)); if (z != s) return "isomorphic_encode of UTF-16 wrong for " + mc::escape(s);
	bool ascii = all_of(s.begin(), s.end(), [](char c) { return (unsigned char)c < 128; });
	if (ascii) { d.clear(); ascii_decode(s.begin(), s.end(), back_inserter(d)); if (d != w) return "ascii_decode wrong for " + mc::escape(s); z.clear(); ascii_encode(d.begin(), d.end(), back_inserter(z)); if (z != s) return "ascii_encode wrong for " + mc::escape(s); }
	if (!is_byte_case_insensitive_match(s.begin(), s.end(), u.begin(), u.end())) return "byte match wrong for " + mc::escape(s);
	return "";
}
static string bmatch(string const& a, string const& b)
{
	mc::state(); mc::transition();
	auto l = [](string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; };
	return is_byte_case_insensitive_match(a.begin(), a.end(), b.begin(), b.end()) == (l(a) == l(b)) ? "" : "byte-case-insensitive match of " + mc::escape(a) + " and " + mc::escape(b) + " is wrong";
}
static const vector<uint32_t> alpha = { 13, 10, 9, 12, 32, ',', 'A', 'z', '0', 0xE9, 0x1F600 };
static u32string dec(string const& c) { u32string s; for (char x : c) s += alpha.at(x - 'a'); return s; }
static vector<string> names(size_t n) { vector<string> a; for (size_t i = 0; i < n; ++i) a.push_back(string(1, char('a' + i))); return a; }
static const string pairs = string("@A`aZz[{0\xC0\xE0\xDA", 12);
void mc_register()
{
	mc::add("text", [](mc::enumerator& e) { mc::all_strings(e, names(alpha.size()), 0, mc::g_thorough ? 6 : 5); mc::long_strings(e, names(alpha.size())); },
		[](string const& c) -> string {
			u32string s = dec(c); string r;
			if (!(r = one<char>(s, "char")).empty()) return r;
			if (!(r = one<char8_t>(s, "char8_t")).empty()) return r;
			if (!(r = one<char16_t>(s, "char16_t")).empty()) return r;
			return one<char32_t>(s, "char32_t");
		});
	mc::add("codepoints", [](mc::enumerator& e) { for (uint32_t p = 0; p < 0x110000; p += 0x100) e(std::to_string(p)); },
		[](string const& c) -> string {
			uint32_t p = stoul(c); string r;
			for (uint32_t k = p; k < p + 0x100; ++k)
			{
				if (k >= 0xD800 && k < 0xE000) continue;
				u32string s{ k };
				if (!(r = one<char>(s, "char")).empty()) return r;
				if (!(r = one<char16_t>(s, "char16_t")).empty()) return r;
				if (!(r = one<char32_t>(s, "char32_t")).empty()) return r;
				for (uint32_t o : { k ^ 0x20u, k + 0x20u, k, uint32_t('k'), uint32_t('s') }) if (o < 0x110000 && !(o >= 0xD800 && o < 0xE000)) if (!(r = match<char, char32_t>(s, { o })).empty()) return r;
			}
			return "";
		});
	mc::add("match", [](mc::enumerator& e) { vector<string> v; { mc::enumerator f; f.exec = [&](uint64_t, string const& s) { v.push_back(s); }; mc::all_strings(f, names(6), 0, mc::g_thorough ? 4 : 3); } for (auto& a : v) for (auto& b : v) e(a + "/" + b); for (int n : mc::lengths()) for (auto& x : names(6)) for (auto& y : names(6)) { string s; for (int i = 0; i < n; ++i) s += x; e(s + "/" + s + y); e(s + y + "/" + s); for (int k : { 0, n / 2, n - 1 }) { string t = s; t[k] = y[0]; e(s + "/" + t); } } },
		[](string const& c) -> string {
			static const uint32_t m[] = { 'A', 'a', '@', '`', 0xC9, 0xE9 };
			auto d = [&](string const& s) { u32string r; for (char x : s) r += m[x - 'a']; return r; };
			auto k = c.find('/'); u32string a = d(c.substr(0, k)), b = d(c.substr(k + 1)); string r; mc::state(); mc::outcome(c.size() % 2 ? "1" : "0");
			if (!(r = match<char, char>(a, b)).empty() || !(r = match<char16_t, char32_t>(a, b)).empty() || !(r = match<char8_t, char16_t>(a, b)).empty()) return r;
			return match<char32_t, char>(a, b);
		});
	mc::add("bytes", [](mc::enumerator& e) { for (int a = -1; a < 256; ++a) e(std::to_string(a)); },
		[](string const& c) -> string { int a = stoi(c); string r; if (a < 0) return bytes(""); for (int b = -1; b < 256; ++b) { string s(1, char(a)); if (b >= 0) s += char(b); if (!(r = bytes(s)).empty()) return r; if (b >= 0 && !(r = bmatch(string(1, char(a)), string(1, char(b)))).empty()) return r; } mc::outcome(c); return ""; });
	mc::add("bytematch", [](mc::enumerator& e) { vector<string> v; { mc::enumerator f; f.exec = [&](uint64_t, string const& s) { v.push_back(s); }; mc::all_strings(f, names(6), 0, 3); } for (auto& a : v) for (auto& b : v) e(a + "/" + b); },
		[](string const& c) -> string { static const char m[] = { 'A', 'a', '[', '{', char(0xC0), char(0xE0) }; auto d = [&](string s) { for (auto& x : s) x = m[x - 'a']; return s; }; auto k = c.find('/'); return bmatch(d(c.substr(0, k)), d(c.substr(k + 1))); });
}
MC_MAIN
