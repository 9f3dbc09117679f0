// C19: percent-encoding: the sets, encoding after any document encoding, decoding, and their inverse relation
#include "url_common.hpp"
#include "enc_model.hpp"
using namespace std;
using namespace wordring::whatwg;
namespace wenc = wordring::whatwg::encoding;
struct set_t { char const* name; bool (*lib)(char32_t); char const* ref; };
static const set_t sets[] = { { "C0 control", is_c0_control_percent_encode_set, ref::S_C0 }, { "fragment", is_fragment_percent_encode_set, ref::S_FRAGMENT }, { "query", is_query_percent_encode_set, ref::S_QUERY },
	{ "special-query", is_special_query_percent_encode_set, ref::S_SPECIAL_QUERY }, { "path", is_path_percent_encode_set, ref::S_PATH }, { "userinfo", is_userinfo_percent_encode_set, ref::S_USERINFO },
	{ "component", is_component_percent_encode_set, ref::S_COMPONENT }, { "form", application_x_www_form_urlencoded_percent_encode_set, ref::S_FORM } };
static string sets_of(uint32_t c)
{
	mc::state(); mc::transition(8); string o;
	for (auto& s : sets)
	{
		bool g = s.lib(c); o += g ? '1' : '0'; if (g != ref::in_set(c, s.ref)) return string(s.name) + " percent-encode set is wrong for code point " + to_string(c);
		if (c < 0xD800 || c > 0xDFFF)
		{
			u32string in(1, c); string want = ref::enc(in, s.ref);
			if (n(utf8_percent_encode(char32_t(c), s.lib)) != want) return string("UTF-8 percent-encoding with the ") + s.name + " set is wrong for code point " + to_string(c);
			if (n(utf8_percent_encode(u32string{ U'a', char32_t(c), U'%', U'z' }, s.lib)) != ref::enc({ U'a', char32_t(c), U'%', U'z' }, s.ref)) return string("UTF-8 percent-encoding of a string with the ") + s.name + " set is wrong for code point " + to_string(c);
		}
	}
	mc::outcome(o); return "";
}
static string decode(string const& s)
{
	mc::state(); mc::transition(2);
	string want = ref::unpct(s), got; percent_decode(s.begin(), s.end(), back_inserter(got));
	if (got != want) return "percent_decode of '" + mc::escape(s) + "' is '" + mc::escape(got) + "', not '" + mc::escape(want) + "'";
	u8string t(s.begin(), s.end()); string g3; percent_decode(t.begin(), t.end(), back_inserter(g3)); if (g3 != want) return "percent_decode of char8_t differs";
	u32string u = ref::de8(s); string g2; string_percent_decode(u.begin(), u.end(), back_inserter(g2)); string w2 = ref::unpct(ref::u8(u));
	if (g2 != w2) return "string_percent_decode of '" + mc::escape(s) + "' is '" + mc::escape(g2) + "'";
	bool st = s.size() >= 3 && s[0] == '%' && ref::hexv(s[1]) >= 0 && ref::hexv(s[2]) >= 0;
	if (starts_with_percent_encoded_byte(s.begin(), s.end()) != st || is_percent_encoded_byte(s.begin(), s.end()) != (st && s.size() == 3)) return "percent-encoded byte recognition is wrong for '" + mc::escape(s) + "'";
	mc::outcome(want); return "";
}
static string bytes(string const& b)
{
	mc::state(); mc::transition(2); string e; for (unsigned char c : b) { string one; percent_encode(c, back_inserter(one)); if (one != ref::pct(c)) return "percent_encode(" + to_string(c) + ") is " + one; e += one; }
	string d; percent_decode(e.begin(), e.end(), back_inserter(d)); if (d != b) return "decode(encode(bytes)) differs for " + mc::escape(b);
	string f = ref::enc_bytes(b, ref::S_COMPONENT), g; percent_decode(f.begin(), f.end(), back_inserter(g)); return g == b ? "" : "decoding a component loses bytes of " + mc::escape(b);
}
// percent-encode after encoding, in each output encoding, against the reference encoders
static string after(string const& c)
{
	auto k = c.find(':'); string name = c.substr(0, k); u32string in = ref::de8(c.substr(k + 1)); mc::state(); mc::transition(in.size() * 2);
	auto nm = wenc::get_encoding_name(u32string(name.begin(), name.end())); vector<uint32_t> v(in.begin(), in.end());
	for (auto& s : sets) for (bool plus : { false, true })
	{
		// reference: bytes are percent-encoded by the set, an unencodable code point becomes %26%23N%3B
		string want; auto r = ref::encode_fail(name, v);
		for (auto& x : r) if (x.error) want += "%26%23" + to_string(x.value) + "%3B"; else if (plus && x.value == ' ') want += '+'; else want += ref::in_set(x.value, s.ref) ? ref::pct(x.value) : string(1, char(x.value));
		string got = n(percent_encode_after_encoding(nm, in, s.lib, plus));
		if (got != want) return "percent-encoding '" + mc::escape(c) + "' with the " + s.name + " set gives '" + got + "', not '" + want + "'";
		mc::outcome(want);
	}
	return "";
}
// the document encoding governs the query of special URLs only
static string query(string const& c)
{
	auto k = c.find(':'), j = c.find('|'); string name = c.substr(0, k), pre = c.substr(k + 1, j - k - 1), q = c.substr(j + 1); mc::state(); mc::transition();
	auto nm = wenc::get_encoding_name(u32string(name.begin(), name.end()));
	auto qenc = [&](u32string const& in, char const* set) { string out; vector<uint32_t> v(in.begin(), in.end()); string e = name == "utf-16le" || name == "utf-16be" || name == "replacement" ? "utf-8" : name; for (auto& x : ref::encode_fail(e, v)) if (x.error) out += "%26%23" + to_string(x.value) + "%3B"; else out += ref::in_set(x.value, set) ? ref::pct(x.value) : string(1, char(x.value)); return out; };
	auto r = ref::parse(ref::de8(pre + q), nullptr, qenc); error_code ec; basic_url_parser p(ref::de8(pre + q), ec, nullptr, nm); auto g = p.run();
	if (bool(r) != bool(g)) return "'" + mc::escape(c) + "' is accepted or rejected depending on the encoding"; if (!r) return "";
	mc::outcome(ref::href(*r)); return n(serialize_url(*g)) == ref::href(*r) ? "" : "'" + mc::escape(c) + "' gives " + n(serialize_url(*g)) + ", not " + ref::href(*r);
}
void mc_register()
{
	int X = mc::g_thorough ? 1 : 0;
	mc::add("sets", [](mc::enumerator& e) { for (uint32_t p = 0; p < 0x110000; p += 0x100) if (p < 0x3000 || p >= 0x10FF00 || p % 0x1000 == 0 || p == 0xFF00 || p == 0xD700 || mc::g_thorough) e(to_string(p)); }, [](string const& c) -> string { uint32_t p = stoul(c); string r; for (uint32_t k = p; k < p + 0x100; ++k) if (!(r = sets_of(k)).empty()) return r; return ""; });
	mc::add("decode", [X](mc::enumerator& e) { mc::all_strings(e, { "%", "0", "4", "a", "F", "g", "\xC3\xA9", "+" }, 0, 6 + X); mc::long_strings(e, { "%", "%4", "%41", "a", "0", "\xC3\xA9", "%fF", "%zz" }); for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { if ((a | b) < 0x80) { string s = { '%', char(a), char(b) }; e(s); } } }, decode);
	mc::add("bytes", [](mc::enumerator& e) { e(""); for (int a = 0; a < 256; ++a) { e(string(1, char(a))); for (int b = 0; b < 256; ++b) e(string{ char(a), char(b) }); } }, bytes);
	mc::add("after-encoding", [X](mc::enumerator& e) { for (string nm : { "utf-8", "shift_jis", "euc-jp", "iso-2022-jp", "gbk", "gb18030", "big5", "euc-kr", "windows-1252", "iso-8859-8-i", "x-user-defined", "koi8-u" }) mc::all_strings(e, { " ", "a", "'", "\"", "\xC2\xA5", "\xC3\xA9", "\xE3\x81\x82", "\xEF\xBC\x8D", "\xE3\x83\xBB", "\xF0\x9F\x98\x80" }, 0, 3 + X, nm + ":"); for (string nm : { "utf-8", "shift_jis", "iso-2022-jp", "gb18030", "windows-1252" }) mc::long_strings(e, { " ", "a", "'", "\xC3\xA9", "\xE3\x81\x82", "\xF0\x9F\x98\x80" }, nm + ":", "", { 7, 8, 15, 16, 17, 31, 33, 64, 65, 100, 129, 257 }); }, after);
	mc::add("query", [X](mc::enumerator& e) { for (string nm : { "utf-8", "utf-16le", "replacement", "shift_jis", "iso-2022-jp", "windows-1252" }) for (string pre : { "http://h/?", "ws://h/?", "wss://h/?", "file:///?", "a://h/?", "a:b?", "http://h/\xC3\xA9?" }) mc::all_strings(e, { "a", "'", "#", "\xC3\xA9", "\xE3\x81\x82", "%", "\xF0\x9F\x98\x80", "\n" }, 0, 3 + X, nm + ":" + pre + "|"); }, query);
}
MC_MAIN
