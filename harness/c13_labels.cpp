// C13: labels, canonical names and byte-order-mark handling
#include "../mc/mc.hpp"
#include <wordring/whatwg/encoding/api.hpp>
#include <wordring/whatwg/encoding/encoding.hpp>
#include "enc_model.hpp"
using namespace std;
using namespace wordring::whatwg::encoding;
namespace wenc = wordring::whatwg::encoding;
static wenc::encoding_name const nothing = static_cast<wenc::encoding_name>(0);
static map<string, string> labels; static set<string> later; static vector<string> names;
static void load()
{
	const char* d = getenv("VERIF_DATA"); FILE* f = fopen((string(d ? d : "/verif/data") + "/labels.tsv").c_str(), "r"); if (!f) exit(2);
	char l[200]; while (fgets(l, 200, f)) { string s = l; auto a = s.find('\t'), b = s.find('\t', a + 1); if (s.find("later") != string::npos) later.insert(s.substr(0, a)); else labels[s.substr(0, a)] = s.substr(a + 1, b - a - 1); }
	fclose(f); set<string> n; for (auto& [k, v] : labels) n.insert(v); names.assign(n.begin(), n.end());
}
static u32string u(string const& s) { return u32string(s.begin(), s.end()); }
static string hex(string const& s) { string r; char b[8]; for (unsigned char c : s) { snprintf(b, 8, "%02X", c); r += b; } return r; }
static string show(u32string const& v) { string r; char b[16]; for (auto c : v) { snprintf(b, 16, "%X ", unsigned(c)); r += b; } return r; }
// what a label denotes: canonical lower-case name, "" for nothing, "?" for labels of later editions
static string meaning(u32string s)
{
	auto ws = [](char32_t c) { return c == 9 || c == 10 || c == 12 || c == 13 || c == 32; };
	while (!s.empty() && ws(s.back())) s.pop_back();
	while (!s.empty() && ws(s.front())) s.erase(0, 1);
	string t; for (auto c : s) { if (c >= 0x80) return ""; t += char(c >= 'A' && c <= 'Z' ? c + 32 : c); }
	if (later.count(t)) return "?";
	auto it = labels.find(t); return it == labels.end() ? "" : it->second;
}
static string look(u32string const& s)
{
	mc::state(); mc::transition();
	string want = meaning(s); if (want == "?") return "";
	auto nm = wenc::get_encoding_name(s);
	if (want.empty()) return nm == nothing ? "" : "label " + show(s) + "resolves to an encoding";
	if (nm == nothing) return "label " + show(s) + "does not resolve";
	auto got = get_encoding_label(nm);
	mc::outcome(want);
	if (got != u(want)) return "label " + show(s) + "resolves to " + string(got.begin(), got.end()) + ", not " + want;
	if (wenc::get_encoding_name(got) != nm) return "name " + want + " does not resolve to its encoding";
	bool ascii = true; for (auto c : s) if (c >= 0x80) ascii = false;
	if (ascii && (wenc::get_encoding_name(string(s.begin(), s.end())) != nm || wordring::whatwg::get_encoding_name(u16string(s.begin(), s.end())) != nm)) return "label " + show(s) + "differs by character type";
	if (want == "replacement") { try { wenc::text_decoder t(s); return "text_decoder accepts replacement"; } catch (range_error const&) {} }
	else { wenc::text_decoder t(s); if (t.encoding() != u(want)) return "text_decoder encoding() wrong for " + show(s); }
	return "";
}
static vector<uint32_t> drain(io_queue<char32_t>& q) { vector<uint32_t> r; for (size_t k = 0; k < 100000; ++k) { auto x = q.read(); if (x.m_wait || x->m_eoq) return r; r.push_back(uint32_t(**x)); } return r; }
static vector<uint32_t> rep(vector<uint32_t> v) { for (auto& x : v) if (x == ref::ERR) x = 0xFFFD; return v; }
static string say(string const& what, string const& b, vector<uint32_t> const& g, vector<uint32_t> const& w) { return what + " " + hex(b) + ": got " + show(u32string(g.begin(), g.end())) + "want " + show(u32string(w.begin(), w.end())); }
static string bom(string const& fallback, string const& b)
{
	mc::state(); mc::transition(b.size());
	string enc = fallback, rest = b;
	if (b.substr(0, 3) == "\xEF\xBB\xBF") { enc = "utf-8"; rest = b.substr(3); }
	else if (b.substr(0, 2) == "\xFE\xFF") { enc = "utf-16be"; rest = b.substr(2); }
	else if (b.substr(0, 2) == "\xFF\xFE") { enc = "utf-16le"; rest = b.substr(2); }
	auto nm = wenc::get_encoding_name(u(fallback));
	auto fill = [&](bool eoq) { io_queue<char> q; for (char c : b) q.push(c); if (eoq) q.push({ 0, true }); return q; };
	{ // sniffing consumes nothing, and waits for three bytes unless the input has ended
		auto q = fill(true); auto r = bom_sniff(q);
		auto want = rest.size() == b.size() ? nothing : wenc::get_encoding_name(u(enc));
		if (r.m_wait) return "bom_sniff waits though the input has ended: " + hex(b);
		if (r.m_value != want) return "bom_sniff wrong: " + hex(b);
		string left; from_io_queue_convert(q, back_inserter(left)); if (left != b) return "bom_sniff consumes input: " + hex(b);
		auto q2 = fill(false); auto r2 = bom_sniff(q2);
		if (b.size() < 3 ? !r2.m_wait : (r2.m_wait || r2.m_value != want)) return "bom_sniff before the end of input wrong: " + hex(b);
	}
	{
		auto q = fill(true); io_queue<char32_t> out; wenc::decode(q, nm, out);
		auto g = drain(out), w = rep(ref::decode(enc, rest)); if (g != w) return say("decode " + fallback, b, g, w);
		mc::outcome(string_view((char const*)g.data(), g.size() * 4));
	}
	{ // delivered in two parts while the mark is undecided: nothing may be lost
		for (size_t k = 0; k < 3 && k <= b.size(); ++k)
		{
			io_queue<char> q; for (size_t i = 0; i < k; ++i) q.push(b[i]);
			io_queue<char32_t> out; auto rv = wenc::decode(q, nm, out);
			if (rv.index() != 1) return "decode does not wait for the mark: " + hex(b);
			for (size_t i = k; i < b.size(); ++i) q.push(b[i]); q.push({ 0, true });
			wenc::decode(q, nm, out);
			auto g = drain(out), w = rep(ref::decode(enc, rest)); if (g != w) return say("decode after a wait " + fallback, b, g, w);
		}
	}
	if (fallback == "utf-8")
	{
		auto q = fill(true); io_queue<char32_t> out; wenc::utf8_decode(q, out);
		string r8 = b.substr(0, 3) == "\xEF\xBB\xBF" ? b.substr(3) : b;
		auto g = drain(out), w = rep(ref::decode("utf-8", r8)); if (g != w) return say("utf8_decode", b, g, w);
		auto q2 = fill(true); io_queue<char32_t> out2; wenc::utf8_decode_without_bom(q2, out2);
		auto all = ref::decode("utf-8", b);
		g = drain(out2); w = rep(all); if (g != w) return say("utf8_decode_without_bom", b, g, w);
		auto q3 = fill(true); io_queue<char32_t> out3; auto rv = wenc::utf8_decode_without_bom_or_fail(q3, out3);
		bool bad = find(all.begin(), all.end(), ref::ERR) != all.end();
		if (bad != holds_alternative<result_error>(rv)) return "utf8_decode_without_bom_or_fail wrong about failure: " + hex(b);
		if (!bad) { g = drain(out3); if (g != all) return say("utf8_decode_without_bom_or_fail", b, g, all); }
	}
	return "";
}
void mc_register()
{
	ref::T(); load();
	mc::add("labels", [](mc::enumerator& e) { for (auto& [l, n] : labels) e(l); for (auto& l : later) e(l); e(""); }, [](string const& c) -> string
	{
		u32string l = u(c); string m; size_t n = l.size();
		vector<u32string> v{ l };
		u32string up = l, alt = l; for (size_t i = 0; i < n; ++i) { if (up[i] >= 'a' && up[i] <= 'z') { up[i] -= 32; if (i % 2) alt[i] -= 32; } }
		v.push_back(up); v.push_back(alt);
		char32_t const sp[] = { 9, 10, 12, 13, 32, 11, 0xA0, 0, 0x3000, 0x85 };
		for (auto a : sp) { v.push_back(u32string(1, a) + l); v.push_back(l + u32string(1, a)); for (auto b : sp) { v.push_back(u32string(1, a) + l + u32string(1, b)); v.push_back(u32string{ a, b } + l); v.push_back(l + u32string{ a, b }); } }
		for (size_t i = 0; i < n; ++i)
		{
			v.push_back(l.substr(0, i) + l.substr(i + 1)); v.push_back(l.substr(0, i)); v.push_back(l.substr(i));
			for (char32_t x = 0x20; x < 0x7F; ++x) { auto t = l; t[i] = x; v.push_back(t); }
			for (char32_t x : { 0x212A, 0x17F, 0xFF21, 0x130, 0x131, 0x100 + int(l[i]) }) { auto t = l; t[i] = x; v.push_back(t); }
			if (i + 1 < n) { auto t = l; swap(t[i], t[i + 1]); v.push_back(t); }
		}
		for (size_t i = 0; i <= n; ++i) for (char32_t x : u32string(U"-_ x0:8\t\n") + char32_t(0)) { auto t = l; t.insert(t.begin() + i, x); v.push_back(t); }
		for (auto& x : v) if (!(m = look(x)).empty()) return m;
		return "";
	});
	mc::add("short-labels", [](mc::enumerator& e) { mc::all_strings(e, mc::chars("866litnu-_ "), 0, mc::g_thorough ? 6 : 5); }, [](string const& c) { return look(u(c)); });
	mc::add("long-labels", [](mc::enumerator& e) { for (string l : { "utf-8", "sjis", "iso-8859-1", "csiso88598i", "" }) for (string s : { " ", "\t", "x", "-", "8" }) for (int n : mc::lengths()) { string f; for (int i = 0; i < n; ++i) f += s; e(f + l); e(l + f); e(f + l + f); } }, [](string const& c) { return look(u(c)); });
	mc::add("long-bom", [](mc::enumerator& e) { for (auto& n : names) for (string m : { "", "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "\xEF\xBB" }) for (int k : mc::lengths()) for (string f : { "A", "\xEF\xBB\xBF", "\xFE\xFF" }) { string t; for (int i = 0; i < k; ++i) t += f; e(n + "|" + m + t); } }, [](string const& c) { auto p = c.find('|'); return bom(c.substr(0, p), c.substr(p + 1)); });
	mc::add("names", [](mc::enumerator& e) { for (auto& n : names) e(n); }, [](string const& c) -> string
	{
		auto nm = wenc::get_encoding_name(u(c)); if (nm == nothing) return "no encoding " + c;
		auto g = get_encoding_label(nm); return g == u(c) ? "" : "name of " + c + " is " + string(g.begin(), g.end());
	});
	mc::add("bom", [](mc::enumerator& e) { for (auto& n : names) mc::all_strings(e, { "\xEF", "\xBB", "\xBF", "\xFE", "\xFF", "A", string(1, '\0'), "\xD8" }, 0, mc::g_thorough ? 5 : n == "utf-8" || n == "utf-16le" || n == "windows-1252" ? 5 : 4, n + "|"); }, [](string const& c) { auto p = c.find('|'); return bom(c.substr(0, p), c.substr(p + 1)); });
}
MC_MAIN
