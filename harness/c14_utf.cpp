// C14: UTF-8/16/32 conversions and code point predicates
#include "../mc/mc.hpp"
#include <wordring/whatwg/infra/infra.hpp>
#include <wordring/whatwg/infra/unicode.hpp>
using namespace std;
using namespace wordring::whatwg;
// reference encoders, written from the definition of the three forms
static string r8(u32string const& s)
{
	string r;
	for (uint32_t c : s)
		if (c < 0x80) r += char(c);
		else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
		else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
	return r;
}
static u16string r16(u32string const& s)
{
	u16string r;
	for (uint32_t c : s) if (c < 0x10000) r += char16_t(c); else { r += char16_t(0xD7C0 + (c >> 10)); r += char16_t(0xDC00 | (c & 0x3FF)); }
	return r;
}
static string show(u32string const& v) { string r; char b[16]; for (auto c : v) { snprintf(b, 16, "U+%X ", unsigned(c)); r += b; } return r; }
template <class S> static string read_all(S const& in, u32string const& want, char const* what)
{
	u32string got; vector<size_t> lens; auto it = in.begin();
	while (it != in.end()) { char32_t cp = 0x7FFFFFFF; auto nx = to_code_point(it, in.end(), cp); if (nx == it) return string(what) + ": no progress"; got += cp; it = nx; if (got.size() > want.size()) break; }
	return got == want ? "" : string(what) + " of " + show(want) + "reads " + show(got);
}
template <class S> static S write_all(u32string const& s) { S r; for (auto c : s) to_string(c, back_inserter(r)); return r; }
template <class A, class B> static string cast(A const& a, B const& b, u32string const& s, char const* what)
{
	if (encoding_cast<B>(a) != b) return string(what) + " encoding_cast differs for " + show(s);
	B o; encoding_cast(a.begin(), a.end(), back_inserter(o)); if (o != b) return string(what) + " iterator encoding_cast differs for " + show(s);
	B p; encoding_cast(a, back_inserter(p)); if (p != b) return string(what) + " inserter encoding_cast differs for " + show(s);
	bool nul = false; for (auto c : s) if (!c) nul = true;
	if (!nul && encoding_cast<B>(a.c_str()) != b) return string(what) + " pointer encoding_cast differs for " + show(s);
	auto v = basic_string_view<typename A::value_type>(a); if (encoding_cast<B>(v) != b) return string(what) + " view encoding_cast differs for " + show(s);
	return "";
}
static string text(u32string const& s)
{
	mc::state(); mc::transition(s.size());
	string a = r8(s); u8string a8(a.begin(), a.end()); u16string b = r16(s);
	if (write_all<string>(s) != a) return "UTF-8 of " + show(s) + "wrong";
	if (write_all<u8string>(s) != a8) return "char8_t UTF-8 of " + show(s) + "wrong";
	if (write_all<u16string>(s) != b) return "UTF-16 of " + show(s) + "wrong";
	if (write_all<u32string>(s) != s) return "UTF-32 of " + show(s) + "wrong";
	string r;
	if (!(r = read_all(a, s, "UTF-8")).empty()) return r;
	if (!(r = read_all(a8, s, "char8_t")).empty()) return r;
	if (!(r = read_all(b, s, "UTF-16")).empty()) return r;
	if (!(r = read_all(s, s, "UTF-32")).empty()) return r;
	{ list<char> l(a.begin(), a.end()); if (!(r = read_all(l, s, "UTF-8 list")).empty()) return r; }
	if (!(r = cast(a, a, s, "8-8")).empty() || !(r = cast(a, a8, s, "8-8t")).empty() || !(r = cast(a, b, s, "8-16")).empty() || !(r = cast(a, s, s, "8-32")).empty()) return r;
	if (!(r = cast(a8, a, s, "8t-8")).empty() || !(r = cast(a8, b, s, "8t-16")).empty() || !(r = cast(a8, s, s, "8t-32")).empty() || !(r = cast(a8, a8, s, "8t-8t")).empty()) return r;
	if (!(r = cast(b, a, s, "16-8")).empty() || !(r = cast(b, a8, s, "16-8t")).empty() || !(r = cast(b, s, s, "16-32")).empty() || !(r = cast(b, b, s, "16-16")).empty()) return r;
	if (!(r = cast(s, a, s, "32-8")).empty() || !(r = cast(s, a8, s, "32-8t")).empty() || !(r = cast(s, b, s, "32-16")).empty() || !(r = cast(s, s, s, "32-32")).empty()) return r;
	return "";
}
static string predicates(uint32_t c)
{
	mc::state(); mc::transition();
	auto in = [&](uint32_t a, uint32_t b) { return a <= c && c <= b; };
	bool digit = in('0', '9'), up = in('A', 'Z'), low = in('a', 'z');
	struct { char const* n; bool g, w; } t[] = {
		{ "surrogate", is_surrogate(c), in(0xD800, 0xDFFF) }, { "scalar value", is_scalar_value(c), !in(0xD800, 0xDFFF) },
		{ "noncharacter", is_noncharacter(c), in(0xFDD0, 0xFDEF) || (c & 0xFFFE) == 0xFFFE }, { "ascii code point", is_ascii_code_point(c), c < 128 },
		{ "ascii tab or newline", is_ascii_tab_or_newline(c), c == 9 || c == 10 || c == 13 }, { "ascii whitespace", is_ascii_white_space(c), c == 9 || c == 10 || c == 12 || c == 13 || c == 32 },
		{ "C0 control", is_c0_control(c), c < 32 }, { "C0 control or space", is_c0_control_or_space(c), c <= 32 }, { "control", is_control(c), c < 32 || in(0x7F, 0x9F) },
		{ "digit", is_ascii_digit(c), digit }, { "upper hex", is_ascii_upper_hex_digit(c), digit || in('A', 'F') }, { "lower hex", is_ascii_lower_hex_digit(c), digit || in('a', 'f') },
		{ "hex", is_ascii_hex_digit(c), digit || in('A', 'F') || in('a', 'f') }, { "upper alpha", is_ascii_upper_alpha(c), up }, { "lower alpha", is_ascii_lower_alpha(c), low },
		{ "alpha", is_ascii_alpha(c), up || low }, { "alphanumeric", is_ascii_alphanumeric(c), up || low || digit } };
	string o; for (auto& x : t) { o += x.g ? '1' : '0'; if (x.g != x.w) return string(x.n) + " wrong for " + show({ c }); }
	if (c < 256 && is_ascii_byte(char(c)) != (c < 128)) return "is_ascii_byte wrong";
	mc::outcome(o);
	return "";
}
static const vector<uint32_t> edge = { 0, 0x41, 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0x3042, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF };
void mc_register()
{
	mc::add("codepoints", [](mc::enumerator& e) { for (uint32_t p = 0; p < 0x110000; p += 0x100) e(std::to_string(p)); },
		[](string const& c) -> string {
			uint32_t p = stoul(c); string r;
			for (uint32_t k = p; k < p + 0x100; ++k)
			{
				if (!(r = predicates(k)).empty()) return r;
				if (k >= 0xD800 && k < 0xE000) continue;
				if (!(r = text({ k })).empty()) return r;
				if (!(r = text({ 0x41, k, 0x42 })).empty()) return r;
			}
			return "";
		});
	mc::add("strings", [](mc::enumerator& e) { vector<string> a; for (size_t i = 0; i < edge.size(); ++i) a.push_back(string(1, char('a' + i))); mc::all_strings(e, a, 0, mc::g_thorough ? 5 : 4); mc::long_strings(e, a); },
		[](string const& c) -> string { u32string s; for (char x : c) s += edge.at(x - 'a'); mc::outcome(r8(s)); return text(s); });
}
MC_MAIN
