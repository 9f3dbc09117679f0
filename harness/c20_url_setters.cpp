// C20: URL setters: every history of setter calls leaves exactly the URL the standard prescribes
#include "url_common.hpp"
using namespace std;
static vector<string> const starts = { "http://u:p@h:81/a/b?q#f", "http://h/", "https://h:8080/", "file:///C:/x", "file://h/x", "a://h:80/p", "a://h/p?q#f", "a:///p", "a:/p/q", "a:o?q#f", "wss://[::1]:1/", "ftp://1.2.3.4/x", "a://u@h" };
struct op { char const* name; string value; };
static vector<op> const& ops()
{
	static vector<op> v = [] {
		vector<op> r; auto add = [&](char const* nme, vector<string> vals) { for (auto& s : vals) r.push_back({ nme, s }); };
		add("protocol", { "", "http", "https:x", "FTP", "file", "a", "b+1:", "1a", "ws\t", "wss" });
		add("username", { "", "me", "a:b@\xC3\xA9/" }); add("password", { "", "pw", ":%@ " });
		add("host", { "", "x", "X.y:82", "[::2]:83", "x:", ":1", "x:99999", "1.2", "x/y", "x?y", "x\\y:9", "a b", "localhost", "\xC3\xA9", "x:8a", "[::", "x\t:7" });
		add("hostname", { "", "x", "[::3]", "x/y:1", "%41", "localhost", "256.256.256.256", "x#y" });
		add("port", { "", "80", "443", "81", "0", "65535", "65536", "8a", "a8", "\t9", "00021" });
		add("pathname", { "", "/", "x", "/x/../y", "a?b#c", "\\x\\", "//x", "C|/y", "..", "%2e/", "\xC3\xA9 " });
		add("search", { "", "?", "x", "?x#y", "??", "a'b\"", "\xC3\xA9\n", "# <>" });
		add("hash", { "", "#", "x", "#x#", "a`b <", "\xC3\xA9\n" });
		return r;
	}();
	return v;
}
static void lib(U& u, op const& o)
{
	string k = o.name; u32string v = w(o.value);
	if (k == "protocol") u.protocol(v); else if (k == "username") u.username(v); else if (k == "password") u.password(v); else if (k == "host") u.host(v); else if (k == "hostname") u.hostname(v);
	else if (k == "port") u.port(v); else if (k == "pathname") u.pathname(v); else if (k == "search") u.search(v); else u.hash(v);
}
static void model(ref::rec& u, op const& o)
{
	string k = o.name; u32string v = w(o.value);
	if (k == "protocol") ref::set_protocol(u, v); else if (k == "username") ref::set_user(u, v); else if (k == "password") ref::set_pass(u, v); else if (k == "host") ref::set_host(u, v, false); else if (k == "hostname") ref::set_host(u, v, true);
	else if (k == "port") ref::set_port(u, v); else if (k == "pathname") ref::set_path(u, v); else if (k == "search") ref::set_search(u, v); else ref::set_hash(u, v);
}
static string run(string const& c)
{
	U u(w(starts[c[0] - 'A'])); ref::rec r = *ref::parse(w(starts[c[0] - 'A'])); string what = starts[c[0] - 'A'];
	for (size_t i = 1; i < c.size(); ++i)
	{
		op const& o = ops()[(unsigned char)c[i] - 35]; what += string(" ") + o.name + "='" + mc::escape(o.value) + "'";
		lib(u, o); model(r, o); mc::state(); mc::transition();
		string d = diff(what, u, r); if (!d.empty()) return d;
	}
	mc::outcome(ref::href(r)); return "";
}
// a failing href leaves the URL alone and throws; a succeeding one replaces everything
static string href(string const& c)
{
	auto k = c.find('|'); string a = starts[c[0] - 'A'], b = c.substr(k + 1); U u(w(a)); auto r = ref::parse(w(b)), old = ref::parse(w(a)); bool thrown = false; mc::state(); mc::transition();
	try { u.href(w(b)); } catch (error_code const&) { thrown = true; }
	if (thrown != !r) return "href='" + mc::escape(b) + "' on " + a + (thrown ? " throws" : " does not throw");
	return diff("href='" + mc::escape(b) + "' on " + a, u, r ? *r : *old);
}
// one setter with every short value
static string value(string const& c)
{
	auto k = c.find('|'), j = c.find('|', k + 1); string nm = c.substr(k + 1, j - k - 1); op o{ nm.c_str(), c.substr(j + 1) };
	string a = starts[c[0] - 'A']; U u(w(a)); ref::rec r = *ref::parse(w(a)); lib(u, o); model(r, o); mc::state(); mc::transition(); mc::outcome(ref::href(r));
	return diff(nm + "='" + mc::escape(o.value) + "' on " + a, u, r);
}
void mc_register()
{
	int X = mc::g_thorough ? 1 : 0;
	mc::add("histories", [X](mc::enumerator& e) {
		vector<string> a; for (size_t i = 0; i < ops().size(); ++i) a.push_back(string(1, char(35 + i)));
		for (size_t s = 0; s < starts.size(); ++s) mc::all_strings(e, a, 1, (s == 0 || s == 5 || s == 8 || X ? 3 : 2), string(1, char('A' + s))); }, run);
	mc::add("values", [X](mc::enumerator& e) {
		for (size_t s = 0; s < starts.size(); ++s) { string p(1, char('A' + s));
			for (string nm : { "host", "hostname" }) mc::all_strings(e, mc::chars("a1:/\\[]@.%"), 0, 3 + X, p + "|" + nm + "|");
			for (string nm : { "protocol" }) mc::all_strings(e, { "http", "s", "a", ":", "file", "1", "+", " " }, 0, 3 + X, p + "|" + nm + "|");
			for (string nm : { "port" }) mc::all_strings(e, mc::chars("0169:a\n"), 0, 4 + X, p + "|" + nm + "|");
			for (string nm : { "pathname" }) mc::all_strings(e, mc::chars("aC/\\.|:?#%"), 0, 4 + X, p + "|" + nm + "|");
			for (string nm : { "search", "hash", "username", "password" }) mc::all_strings(e, { "?", "#", "a", " ", "'", "\"", "`", "\xC3\xA9", "\t", "%", ":", "@", "/" }, 0, 3 + X, p + "|" + nm + "|"); } }, value);
	mc::add("long values", [](mc::enumerator& e) {
		vector<int> ns = { 7, 8, 16, 17, 33, 64, 65, 129, 257 };
		for (size_t s = 0; s < starts.size(); ++s) { string p(1, char('A' + s));
			for (string nm : { "host", "hostname" }) mc::long_strings(e, { "a", ".", "1" }, p + "|" + nm + "|x", "", ns); mc::long_strings(e, { "a", "+", ":" }, p + "|protocol|a", "", ns); mc::long_strings(e, { "0", "1", "a" }, p + "|port|", "", ns);
			mc::long_strings(e, { "a", "/", "..", "./", "%41", "?" }, p + "|pathname|", "", ns); for (string nm : { "search", "hash", "username", "password" }) mc::long_strings(e, { "?", "#", "a", " ", "\xC3\xA9", "\t", ":", "@" }, p + "|" + nm + "|", "", ns); }
		for (int v = 0; v <= 70000; v += v < 1100 || v > 65500 ? 1 : 9) for (char s : string("ABF")) e(string(1, s) + "|port|" + to_string(v)); }, value);
	mc::add("href", [X](mc::enumerator& e) { for (size_t s = 0; s < starts.size(); ++s) mc::all_strings(e, { "http:", "a:", "//", "/", "h", ":1", "?q", "#f", "[", "file:" }, 0, 3 + X, string(1, char('A' + s)) + "|"); }, href);
}
MC_MAIN
