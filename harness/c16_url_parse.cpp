// C16: URL parsing and relative resolution agree with the standard's parser on every input
#include "url_common.hpp"
using namespace std;
static string check(string const& s, string const& base)
{
	mc::state(); mc::transition(s.size() + 1);
	u32string in = w(s); unique_ptr<U> g; optional<ref::rec> r;
	if (base.empty()) { g = make(in); r = ref::parse(in); }
	else { static map<string, ref::rec> cache; auto it = cache.find(base); if (it == cache.end()) it = cache.emplace(base, *ref::parse(w(base))).first; g = make(in, w(base)); r = ref::parse(in, &it->second); }
	string what = "'" + mc::escape(s) + "'" + (base.empty() ? "" : " against '" + base + "'");
	if (!r) { mc::outcome("fail"); return g ? what + " is accepted as " + n(g->href()) : ""; }
	if (!g) return what + " is rejected, not " + ref::href(*r);
	mc::outcome(ref::href(*r));
	return diff(what, *g, *r);
}
// the same text as UTF-8 and UTF-16 gives the same URL
template <class S> static string same(string const& s)
{
	using V = wordring::whatwg::basic_url<S>; S t = wordring::whatwg::encoding_cast<S>(w(s)); string a, b; mc::transition();
	try { V u(t); a = n(wordring::whatwg::encoding_cast<u32string>(u.href())); } catch (error_code const&) { a = "failure"; }
	auto r = ref::parse(w(s)); b = r ? ref::href(*r) : "failure";
	return a == b ? "" : "'" + mc::escape(s) + "' in another character type gives " + a + ", not " + b;
}
static string one(string const& c) { auto k = c.find('|'); int b = stoi(c.substr(0, k)); return check(c.substr(k + 1), bases[b]); }
static void strings(mc::enumerator& e, string const& alpha, int lo, int hi, vector<int> bs, string const& pre) { for (int b : bs) mc::all_strings(e, mc::chars(alpha), lo, hi, to_string(b) + "|" + pre); }
void mc_register()
{
	int X = mc::g_thorough ? 2 : 1;
	mc::add("absolute", [X](mc::enumerator& e) { strings(e, "a:/\\?#@.%[0", 0, 5 + X, { 0 }, ""); strings(e, "a:/?#@.0", 0, 5 + X, { 0 }, "http://"); strings(e, "a:/\\?#@.", 0, 5 + X, { 0 }, "a:/"); }, one);
	mc::add("relative", [X](mc::enumerator& e) { vector<int> v; for (int i = 1; i < int(bases.size()); ++i) v.push_back(i); strings(e, "a:/\\?#.@", 0, 4 + X, v, ""); strings(e, "/\\?#.a", 0, 4 + X, v, "http:"); strings(e, "/?.a", 0, 4 + X, v, "a:"); }, one);
	mc::add("file", [X](mc::enumerator& e) { vector<int> v = { 0, 1, 5, 6, 7 }; strings(e, "/\\C|:.?#", 0, 4 + X, v, "file:"); strings(e, "/C|:.?", 0, 4 + X, v, "file://"); strings(e, "/\\C|:.", 0, 4 + X, { 5, 6, 7 }, ""); strings(e, "/C|:.", 0, 5, { 0, 5 }, "file:///"); }, one);
	mc::add("dots", [X](mc::enumerator& e) { for (string p : { "http://h/", "a://h/", "a:/", "file:///", "file:///C:/", "http://h/a/" }) mc::all_strings(e, { ".", "%2e", "%2E", "/", "a", "\\", "%2" }, 0, 4 + X, "0|" + p); for (int b : { 1, 5, 6, 8, 9 }) mc::all_strings(e, { ".", "%2e", "/", "a", "C:" }, 0, 4 + X, to_string(b) + "|"); for (string p : { "http://h/", "file:///C:/", "a:/" }) for (string x : { "%2e%2e", "%2E.", ".%2e", "%2e", "...", "%2e%2e%2e", ".%2", "%2ea" }) for (string y : { "", "/", "/b", "?", "#" }) for (string z : { "", "b/", "b/c/" }) e("0|" + p + z + x + y); }, one);
	mc::add("drives", [](mc::enumerator& e) { for (uint32_t c = 0x20; c < 0x80; ++c) { if (c == '<' || c == '>' || c == '^') continue; for (string p : { "file:///", "file:/", "file:", "http://h/", "a:///" }) for (string q : { ":", "|" }) for (string z : { "", "/", "/..", "/../x", "\\..\\y", "x/..", "?q", "#f", "/.", "//.." }) { e("0|" + p + ref::u8(c) + q + z); if (p == "file:") for (int b : { 5, 6, 7 }) { e(to_string(b) + "|" + p + ref::u8(c) + q + z); e(to_string(b) + "|/" + ref::u8(c) + q + z); } } } }, one);
	mc::add("ports", [](mc::enumerator& e) { for (string s : { "http", "https", "ws", "wss", "ftp", "file", "a" }) for (int p = 0; p <= 70000; p += s == "http" || p < 1100 || p > 65500 ? 1 : 7) e("0|" + s + "://h:" + to_string(p)); for (string s : { "http", "wss", "a" }) for (int z = 0; z < 40; ++z) for (string p : { "", "0", "80", "443", "65535", "65536", "655350", "4294967376", "18446744073709551696" }) e("0|" + s + "://h:" + string(z, '0') + p + "/"); }, one);
	mc::add("long", [](mc::enumerator& e) {
		vector<int> ns = { 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300 };
		for (string p : { "http://h/", "http://h/?", "http://h/#", "a:", "a:/", "file:///" }) mc::long_strings(e, { "a", "/", ".", "%41", "\xC3\xA9", "../", "b/", " ", "\t", "'", "C:/" }, "0|" + p, "", ns);
		mc::long_strings(e, { "u", ":", "@", "%40", "\xC3\xA9", "/" }, "0|http://", "@h/", ns); mc::long_strings(e, { "u", ":", "%40" }, "0|a://x", "@h", ns);
		mc::long_strings(e, { "a", ".", "1", "-" }, "0|a://h", "/", ns); mc::long_strings(e, { "0", "1", ":", "." }, "0|http://h:", "", ns); mc::long_strings(e, { "a", "+", "1" }, "0|a", ":x", ns); mc::long_strings(e, { " ", "\t", "\n" }, "0|", "http://h/", ns); mc::long_strings(e, { " ", "\n", "a" }, "0|http://h/a", "", ns);
		for (int b : { 1, 5, 8, 9 }) mc::long_strings(e, { "a", "/", "../", "./", "b/" }, to_string(b) + "|", "", ns); }, one);
	mc::add("tokens", [X](mc::enumerator& e) {
		static const vector<string> t = { "http:", "A:", "//", "/", "u:p@", "ex.org", ":80", ":65535", ":65536", "..", "%2E", "\xC3\xA9", " ", "\t", "?q'\"", "#f`<", "localhost", "C|", "1.2.3", "[::1]", "\xF0\x9F\x98\x80", "%zz" };
		for (int b : { 0, 1, 5, 8 }) mc::all_strings(e, t, 0, (b ? 2 : 3) + X, to_string(b) + "|"); }, one);
	mc::add("codepoints", [](mc::enumerator& e) {
		vector<string> pre = { "", "http://", "http://u", "http://u:p", "http://h", "http://h:8", "http://h/", "http://h/?", "http://h/#", "a:", "a:/", "a://", "a://h", "a:?", "a:#", "file:", "file://", "file:///C" };
		vector<string> post = { "", "b", "@h/", ":1/x", "/..", "//x" };
		for (auto& p : pre) for (auto& q : post) for (uint32_t c = 0; c < 0x180; ++c)
		{
			// domains outside the reference's repertoire, and delimiters newer editions forbid in hosts, are left out
			bool host = p == "http://" || p == "http://h" || p == "http://u" || p == "http://u:p" || p == "http://h:8" || p == "file://" || p == "a://" || p == "a://h";
			if (host && (c == '<' || c == '>' || c == '^' || c == '|')) continue;
			if (host && p != "a://" && p != "a://h" && c > 0x7F && c != 0xE9 && c != 0xC9 && c != 0xDF && c != 0xAD && q != "@h/") continue;
			e("0|" + p + ref::u8(c) + q);
		}
		for (uint32_t c : { 0x7FFu, 0x800u, 0xFDD0u, 0xFFFDu, 0xFFFEu, 0x10000u, 0x10FFFFu }) for (auto& p : { "http://h/", "http://h?", "http://h#", "a:", "http://", "a://" }) if (string(p) != "http://") e(string("0|") + p + ref::u8(c) + "z"); else e("0|http://" + ref::u8(c) + "@h"); }, one);
	mc::add("schemes", [](mc::enumerator& e) {
		for (string s : { "http", "HTTPS", "ftp", "ws", "wSS", "file", "gopher", "javascript", "data", "a+-.1", "1a", "+a", "blob", "h ttp" })
			for (string r : { "", ":", "://", "://h", "://h:80", "://h:443", "://h:21", "://h:0", "://h:00080", "://h:000080", "://h:99999", "://h:65535/x", "://@h", "://:@h", "://u@h", "://u:@h", "://:p@h", "://a@b@c", "://a:b:c@d", "://h/a b", "://h?a b", "://h/%", "://h/%4", "://H/A", ":h", ":/h", ":///h", ":\\h", "://h\\x", "://h/./x/../y", "://h/%2e%2E/x", "://h/a/..", "://h/.", "://h/x/.//y", ":/.//p", ":/..//p", ":/a/..//p" })
				for (int b : { 0, 1, 3, 6, 8, 11 }) e(to_string(b) + "|" + s + r); }, one);
	mc::add("charsets", [X](mc::enumerator& e) { mc::all_strings(e, { "a", ":", "/", "?", "#", "\xC3\xA9", "\xF0\x9F\x98\x80", "http://" }, 0, 3 + X); },
		[](string const& c) { mc::state(); string r = same<u8string>(c); if (r.empty()) r = same<u16string>(c); if (r.empty()) r = same<string>(c); return r; });
}
MC_MAIN
