// C17: serialising and parsing again gives the same URL; equality follows serialisation
#include "url_common.hpp"
using namespace std;
using namespace wordring::whatwg;
static string comp(url_record_base const& u)
{
	string r = n(u.m_scheme) + "|" + n(u.m_username) + "|" + n(u.m_password) + "|" + (u.m_host ? "h" + to_string(int(u.m_host->type())) + n(serialize_host(*u.m_host)) : "-") + "|" + (u.m_port ? to_string(*u.m_port) : "-") + "|" + (u.m_cannot_be_base_url ? "o" : "p");
	for (auto& p : u.m_path) r += "/" + n(p);
	r += "|" + (u.m_query ? "?" + n(*u.m_query) : "-") + "|" + (u.m_fragment ? "#" + n(*u.m_fragment) : "-");
	return r;
}
static string check(string const& s, string const& base)
{
	mc::state(); mc::transition(s.size() + 1);
	error_code ec; optional<url_record_base> b, r;
	if (!base.empty()) { basic_url_parser p(w(base), ec); b = p.run(); }
	{ error_code e2; basic_url_parser p(w(s), e2, b ? &*b : nullptr); r = p.run(); }
	auto r2 = pase_url(w(s), b ? &*b : nullptr); if (bool(r) != bool(r2)) return "pase_url and basic_url_parser disagree on '" + mc::escape(s) + "'";
	if (!r) { mc::outcome("fail"); return ""; }
	u32string h = serialize_url(*r); string what = "'" + mc::escape(s) + "'" + (base.empty() ? "" : " against '" + base + "'") + " -> '" + n(h) + "'";
	for (auto c : h) if (c == 9 || c == 10 || c == 13 || c > 127) return what + " contains a newline, a tab or a character that is not ASCII";
	for (int k = 0; k < 2; ++k)
	{
		error_code e3; basic_url_parser p(h, e3, k ? &*r : nullptr); auto q = p.run(); mc::transition();
		if (!q) return what + " does not parse again";
		if (serialize_url(*q) != h) return what + " parses again as '" + n(serialize_url(*q)) + "'";
		// the empty host of file URLs and of other schemes may be represented differently only if it serialises the same
		if (comp(*q) != comp(*r)) return what + ": components change on reparsing: " + comp(*r) + " -> " + comp(*q);
		if (!equals(*q, *r) || !equals(*r, *q, true)) return what + ": not equal to itself";
	}
	{ // without the fragment
		u32string g = serialize_url(*r, true); string e = n(g); if (e.find('#') != string::npos) return what + ": fragment not excluded";
		if (n(h) != e + (r->m_fragment ? "#" + n(*r->m_fragment) : "")) return what + ": excluding the fragment changes something else";
		if (!g.empty() && g.back() <= 32) { mc::outcome(n(h)); return ""; } // this edition keeps a space at the end of an opaque path
		error_code e4; basic_url_parser p(g, e4); auto q = p.run(); if (!q) return what + ": does not parse without its fragment";
		if (!equals(*q, *r, true) || equals(*q, *r) != !r->m_fragment) return what + ": equality with excluded fragment is wrong";
	}
	mc::outcome(n(h));
	return "";
}
static string one(string const& c) { auto k = c.find('|'); return check(c.substr(k + 1), bases[stoi(c.substr(0, k))]); }
static void strings(mc::enumerator& e, string const& alpha, int lo, int hi, vector<int> bs, string const& pre) { for (int b : bs) mc::all_strings(e, mc::chars(alpha), lo, hi, to_string(b) + "|" + pre); }
void mc_register()
{
	int X = mc::g_thorough ? 1 : 0;
	mc::add("absolute", [X](mc::enumerator& e) { strings(e, "a:/\\?#@.%[0", 0, 5 + X, { 0 }, ""); strings(e, "a:/?#@.0", 0, 5 + X, { 0 }, "http://"); strings(e, "a:/\\?#@.", 0, 5 + X, { 0 }, "a:/"); strings(e, "0x1.8", 0, 6 + X, { 0 }, "http://"); strings(e, "01f:.]", 0, 6 + X, { 0 }, "http://["); strings(e, "01:", 0, 9 + X, { 0 }, "a://[1:"); }, one);
	mc::add("relative", [X](mc::enumerator& e) { vector<int> v; for (int i = 1; i < int(bases.size()); ++i) v.push_back(i); strings(e, "a:/\\?#.@", 0, 4 + X, v, ""); strings(e, "/\\?#.a", 0, 4 + X, v, "http:"); strings(e, "/?.a", 0, 5 + X, v, "a:"); }, one);
	mc::add("file", [X](mc::enumerator& e) { vector<int> v = { 0, 1, 5, 6, 7 }; strings(e, "/\\C|:.?#", 0, 4 + X, v, "file:"); strings(e, "/C|:.?", 0, 4 + X, v, "file://"); strings(e, "/\\C|:.", 0, 5 + X, { 5, 6, 7 }, ""); strings(e, "/C|:.", 0, 5 + X, { 0, 5 }, "file:///"); }, one);
	mc::add("dots", [X](mc::enumerator& e) { for (string p : { "http://h/", "a://h/", "a:/", "file:///", "file:///C:/", "http://h/a/" }) mc::all_strings(e, { ".", "%2e", "%2E", "/", "a", "\\", "%2" }, 0, 4 + X, "0|" + p); for (int b : { 1, 5, 6, 8, 9 }) mc::all_strings(e, { ".", "%2e", "/", "a", "C:" }, 0, 4 + X, to_string(b) + "|"); for (string p : { "http://h/", "file:///C:/", "a:/" }) for (string x : { "%2e%2e", "%2E.", ".%2e", "%2e", "...", "%2e%2e%2e", ".%2", "%2ea" }) for (string y : { "", "/", "/b", "?", "#" }) for (string z : { "", "b/", "b/c/" }) e("0|" + p + z + x + y); }, one);
	mc::add("drives", [](mc::enumerator& e) { for (uint32_t c = 0x20; c < 0x80; ++c) { if (c == '<' || c == '>' || c == '^') continue; for (string p : { "file:///", "file:/", "file:", "http://h/", "a:///" }) for (string q : { ":", "|" }) for (string z : { "", "/", "/..", "/../x", "\\..\\y", "x/..", "?q", "#f", "/.", "//.." }) { e("0|" + p + ref::u8(c) + q + z); if (p == "file:") for (int b : { 5, 6, 7 }) { e(to_string(b) + "|" + p + ref::u8(c) + q + z); e(to_string(b) + "|/" + ref::u8(c) + q + z); } } } }, one);
	mc::add("ports", [](mc::enumerator& e) { for (string s : { "http", "https", "ws", "wss", "ftp", "file", "a" }) for (int p = 0; p <= 70000; p += s == "http" || p < 1100 || p > 65500 ? 1 : 7) e("0|" + s + "://h:" + to_string(p)); for (string s : { "http", "wss", "a" }) for (int z = 0; z < 40; ++z) for (string p : { "", "0", "80", "443", "65535", "65536", "655350", "4294967376", "18446744073709551696" }) e("0|" + s + "://h:" + string(z, '0') + p + "/"); }, one);
	mc::add("long", [](mc::enumerator& e) {
		vector<int> ns = { 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300 };
		for (string p : { "http://h/", "http://h/?", "http://h/#", "a:", "a:/", "file:///" }) mc::long_strings(e, { "a", "/", ".", "%41", "\xC3\xA9", "../", "b/", " ", "\t", "'", "C:/" }, "0|" + p, "", ns);
		mc::long_strings(e, { "u", ":", "@", "%40", "\xC3\xA9", "/" }, "0|http://", "@h/", ns); mc::long_strings(e, { "u", ":", "%40" }, "0|a://x", "@h", ns);
		mc::long_strings(e, { "a", ".", "1", "-" }, "0|a://h", "/", ns); mc::long_strings(e, { "0", "1", ":", "." }, "0|http://h:", "", ns); mc::long_strings(e, { "a", "+", "1" }, "0|a", ":x", ns); mc::long_strings(e, { " ", "\t", "\n" }, "0|", "http://h/", ns); mc::long_strings(e, { " ", "\n", "a" }, "0|http://h/a", "", ns);
		for (int b : { 1, 5, 8, 9 }) mc::long_strings(e, { "a", "/", "../", "./", "b/" }, to_string(b) + "|", "", ns); }, one);
	mc::add("tokens", [X](mc::enumerator& e) {
		static const vector<string> t = { "http:", "A:", "//", "/", "u:p@", "ex.org", ":80", ":65535", "..", "%2E", "\xC3\xA9", " ", "\t", "?q'\"", "#f`<", "localhost", "C|", "1.2.3", "[::1]", "\xF0\x9F\x98\x80", "%zz", "\x7F" };
		for (int b : { 0, 1, 5, 8 }) mc::all_strings(e, t, 0, (b ? 3 : 4) + X, to_string(b) + "|"); }, one);
	mc::add("codepoints", [](mc::enumerator& e) {
		for (string p : { "http://", "http://u", "http://u:p", "http://h", "http://h/", "http://h/?", "http://h/#", "a:", "a:/", "a://", "a:?", "a:#", "file:", "file://", "file:///C" }) for (string q : { "", "b", "@h/", ":1/x", "/..", "//x" }) for (uint32_t c = 0; c < 0x180; ++c) e("0|" + p + ref::u8(c) + q); }, one);
}
MC_MAIN
