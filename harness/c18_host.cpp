// C18: IPv4 and IPv6 hosts: value of every notation, canonical text, rejection of everything else
#include "url_common.hpp"
using namespace std;
using namespace wordring::whatwg;
static string txt(uint16_t const a[8]) { return ref::show_v6(a); }
static string v4(string const& s)
{
	mc::state(); mc::transition(s.size());
	u32string in = w(s); uint32_t a = 0; auto k = ref::parse_v4(s, a); error_code ec; string what = "'" + s + "'";
	if (!s.empty())
	{
		auto h = parse_ipv4(in, ec); bool none = h.type() == host_type_name(0);
		if (k == ref::v4::failure) { if (!none) return what + " is not rejected by the IPv4 parser"; }
		else if (k == ref::v4::address)
		{
			if (h.type() != host_type_name::Ipv4Address) return what + " is not read as an IPv4 address";
			if (h.get<ipv4_address_base>().m_value != a) return what + " is read as " + n(serialize_ipv4(h)) + ", not " + ref::show_v4(a);
			if (n(serialize_host(h)) != ref::show_v4(a)) return what + " is written as " + n(serialize_host(h)) + ", not " + ref::show_v4(a);
		}
		else if (none || h.type() == host_type_name::Ipv4Address) return what + " is taken for an IPv4 address";
		// through the host parser and a URL
		error_code e2; auto g = parse_host(in, false, e2); auto r = ref::parse_host(in, true);
		if (!r) { if (g.type() != host_type_name(0)) return what + " is accepted by the host parser"; if (!e2) return what + " is rejected without an error code"; }
		else { if (g.type() == host_type_name(0)) return what + " is rejected by the host parser"; if (n(serialize_host(g)) != *r) return what + " is host " + n(serialize_host(g)) + ", not " + *r; if ((g.type() == host_type_name::Ipv4Address) != (k == ref::v4::address)) return what + " has the wrong host type"; }
		mc::outcome(r ? *r : "fail");
	}
	return "";
}
static string valid(string const& s)
{
	mc::state(); mc::transition(); vector<string> p(1); for (char c : s) if (c == '.') p.emplace_back(); else p.back() += c;
	bool ok = p.size() == 4; for (auto& x : p) { if (x.empty() || x.size() > 3 || (x.size() > 1 && x[0] == '0')) { ok = false; continue; } int v = 0; for (char c : x) { if (c < '0' || c > '9') { ok = false; break; } v = v * 10 + c - '0'; } if (v > 255) ok = false; }
	mc::outcome(ok ? "valid" : "invalid");
	return is_valid_ipv4_address_string(w(s)) == ok ? "" : "'" + s + "' is " + (ok ? "" : "not ") + "a valid IPv4-address string, the library says otherwise";
}
static string v6(string const& s)
{
	mc::state(); mc::transition(s.size());
	u32string in = w(s); uint16_t a[8]; bool ok = ref::parse_v6(s, a); error_code ec; auto h = parse_ipv6(in, ec); string what = "[" + s + "]";
	if (!ok) { if (h.type() != host_type_name(0)) return what + " is accepted as " + n(serialize_host(h)); if (!ec) return what + " is rejected without an error code"; mc::outcome("fail"); }
	else
	{
		if (h.type() != host_type_name::Ipv6Address) return what + " is rejected";
		for (int i = 0; i < 8; ++i) if (h.get<ipv6_address_base>()[i] != a[i]) return what + " is read as " + n(serialize_ipv6(h)) + ", not " + txt(a);
		if (n(serialize_ipv6(h)) != txt(a)) return what + " is written as " + n(serialize_ipv6(h)) + ", not " + txt(a);
		if (n(serialize_host(h)) != "[" + txt(a) + "]") return what + " is host " + n(serialize_host(h));
		error_code e2; auto g = parse_ipv6(serialize_ipv6(h), e2); if (!(g == h)) return what + " changes when its text is parsed again";
		mc::outcome(txt(a));
	}
	for (bool opaque : { false, true }) { error_code e3; auto g = parse_host(w("[" + s + "]"), opaque, e3); if ((g.type() == host_type_name::Ipv6Address) != ok) return what + " through the host parser differs"; }
	return "";
}
// every address with pieces drawn from a few values
static string addr(string const& c)
{
	static const uint16_t val[] = { 0, 1, 0x10, 0xABC, 0xFFFF }; mc::state(); mc::transition();
	ipv6_address_base b{}; uint16_t a[8]; for (int i = 0; i < 8; ++i) b[i] = a[i] = val[c[i] - 'a'];
	host_base h(b); string t = n(serialize_ipv6(h)); mc::outcome(t);
	if (t != txt(a)) return "address " + c + " is written " + t + ", not " + txt(a);
	error_code ec; auto g = parse_ipv6(w(t), ec); if (!(g == h)) return t + " does not read back";
	return "";
}
static string opaque(string const& s)
{
	mc::state(); mc::transition(); error_code ec; u32string in = w(s); auto g = parse_host(in, true, ec); auto r = ref::parse_host(in, false);
	if (!r) return g.type() == host_type_name(0) ? "" : "opaque host '" + mc::escape(s) + "' is accepted";
	if (g.type() == host_type_name(0)) return "opaque host '" + mc::escape(s) + "' is rejected";
	mc::outcome(*r); return n(serialize_host(g)) == *r ? "" : "opaque host '" + mc::escape(s) + "' is " + n(serialize_host(g)) + ", not " + *r;
}
void mc_register()
{
	int X = mc::g_thorough ? 1 : 0;
	mc::add("ipv4", [X](mc::enumerator& e) { mc::all_strings(e, mc::chars("0x18.f"), 1, 6 + X); mc::all_strings(e, mc::chars("27."), 1, 9 + X); mc::all_strings(e, { "0", "1", "255", "256", "0377", "0400", "0xff", "0X100", "65535", "65536", "16777215", "16777216", "4294967295", "4294967296", "037777777777", "040000000000", "0xFFFFFFFF", "0x100000000", "18446744073709551616", "99999999999999999999999", "08", "09", "0x", "1a", "", "-1", "+1", "0x0x1" }, 1, 1);
		vector<string> part = { "0", "1", "255", "256", "0377", "0400", "0xff", "0x100", "65535", "65536", "16777215", "16777216", "08", "0x", "0xg", "a", "" };
		for (auto& a : part) for (auto& b : part) { e(a + "." + b); e(a + "." + b + "."); for (auto& c : part) { e(a + "." + b + "." + c); for (auto& d : part) { e(a + "." + b + "." + c + "." + d); e(a + "." + b + "." + c + "." + d + "."); } } }
		for (auto& a : part) e("1.2.3.4." + a); for (auto& a : part) e(a + ".."); }, v4);
	mc::add("ipv4-long", [](mc::enumerator& e) { for (int z = 0; z < 40; ++z) for (string p : { "0", "1", "255", "256", "x1", "xff", "xffffffff", "x100000000", "377", "37777777777", "40000000000", "8" }) for (string q : { "", ".1", ".1.2", ".1.2.3", ".", ".." }) { e(string(z, '0') + p + q); e("1." + string(z, '0') + p); e("0x" + string(z, '0') + p + q); }
		for (int sh = 0; sh < 40; ++sh) for (int d : { -1, 0, 1 }) { long long v = (1ll << sh) + d; char b[64]; for (char const* f : { "%lld", "0x%llx", "0X%llX", "0%llo" }) { snprintf(b, 64, f, v); for (string pre : { "", "1.", "1.2.", "1.2.3.", "255.", "255.255.255." }) { e(pre + b); e(pre + b + "."); } } }
		for (int v = 0; v < 700; ++v) { char b[64]; for (char const* f : { "%d", "0x%x", "0%o" }) { snprintf(b, 64, f, v); e(string(b) + ".0.0.1"); e(string("1.") + b + ".1"); e(string("1.2.3.") + b); } } mc::long_strings(e, { "1", ".", "0", "1.", "a" }); }, v4);
	mc::add("ipv6-long", [](mc::enumerator& e) { mc::long_strings(e, { "1", ":", "0", "1:", "0:", ".", "::", "f:" }); for (int v = 0; v < 65536; ++v) { char b[16]; snprintf(b, 16, "%x", v); if (v % 7 == 0 || v < 300 || v > 65300) { e(string("::") + b); e(string(b) + "::"); e(string("1:2:3:") + b + ":5:6:7:8"); } } for (int a = 0; a < 300; ++a) for (int k = 0; k < 4; ++k) { string s = "::"; for (int i = 0; i < 4; ++i) s += (i ? "." : "") + to_string(i == k ? a : 7); e(s); e("1:2:3:4:5:6:" + s.substr(2)); } }, v6);
	mc::add("valid-ipv4", [X](mc::enumerator& e) { mc::all_strings(e, mc::chars("012a."), 0, 7 + X); vector<string> part = { "", "0", "00", "01", "9", "10", "099", "100", "199", "249", "250", "255", "256", "260", "300", "999", "1000", "0255", "a", "1a", "\xC4\xB1" }; for (auto& a : part) for (auto& b : part) for (auto& c : part) { e(a + "." + b + "." + c); for (auto& d : part) { e(a + "." + b + "." + c + "." + d); e(a + "." + b + "." + c + "." + d + "."); } } }, valid);
	mc::add("ipv6", [X](mc::enumerator& e) { mc::all_strings(e, mc::chars("01f:."), 0, 7 + X); mc::all_strings(e, { "0", "1", "abcd", "12345", ":", "::", "1.2.3.4" }, 0, 6 + X); mc::all_strings(e, { "1:", "0:", ":", "::", "1", "1.2.3.4", "g", "FFFF:" }, 0, 5 + X, "1:2:"); mc::all_strings(e, { "1:", ":", "1", "1.2.3.4" }, 0, 8 + X); mc::all_strings(e, mc::chars("0125."), 0, 7 + X, "::"); mc::all_strings(e, { "1", "25", "255", "256", "01", "00", ".", "a" }, 0, 7, "::1."); }, v6);
	mc::add("addresses", [X](mc::enumerator& e) { vector<string> a = { "a", "b", "c" }; mc::all_strings(e, a, 8, 8); mc::all_strings(e, { "a", "d", "e", "b" }, 8, 8); (void)X; }, addr);
	mc::add("opaque", [X](mc::enumerator& e) { vector<string> a; for (int c = 0; c < 0x7F; ++c) if (!strchr("<>^|", c) || !c) a.push_back(string(1, char(c))); for (auto s : { "\x7F", "\xC2\x80", "\xC3\xA9", "\xE3\x81\x82", "\xF0\x9F\x98\x80" }) a.push_back(s); mc::all_strings(e, a, 0, 2); mc::all_strings(e, mc::chars("a%0[]:.@"), 0, 4 + X); mc::long_strings(e, { "a", "%", "%41", "\xC3\xA9", ".", "\x7F", "/" }); }, opaque);
}
MC_MAIN
