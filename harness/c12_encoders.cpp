// C12: every encoder against the reference, every scalar value, every short sequence of representatives
#include "../mc/mc.hpp"
#include <wordring/whatwg/encoding/api.hpp>
#include <wordring/whatwg/encoding/encoding.hpp>
#include "enc_model.hpp"
using namespace std;
using namespace wordring::whatwg::encoding;
namespace wenc = wordring::whatwg::encoding;
static vector<string> encs() { vector<string> v(begin(ref::single), end(ref::single)); for (auto s : { "utf-8", "gbk", "gb18030", "big5", "euc-jp", "iso-2022-jp", "shift_jis", "euc-kr", "x-user-defined" }) v.push_back(s); return v; }
static wenc::encoding_name name_of(string const& l) { return wenc::get_encoding_name(u32string(l.begin(), l.end())); }
static string hex(string const& s) { string r; char b[8]; for (unsigned char c : s) { snprintf(b, 8, "%02X", c); r += b; } return r; }
static string show(vector<uint32_t> const& v) { string r; char b[16]; for (auto c : v) { snprintf(b, 16, "%X ", c); r += b; } return r; }

static string drain(io_queue<char>& q, bool& eoq)
{
	string r; eoq = false;
	for (size_t k = 0; k < 100000; ++k) { auto x = q.read(); if (x.m_wait) return r; if (x->m_eoq) { eoq = true; return r; } r += **x; }
	return r;
}
static io_queue<char32_t> queue_of(vector<uint32_t> const& v) { io_queue<char32_t> q; for (auto c : v) q.push(char32_t(c)); q.push({ 0, true }); return q; }
static string one(string const& enc, wenc::encoding_name nm, vector<uint32_t> const& v, bool deep)
{
	mc::state(); mc::transition(v.size() + 1);
	auto say = [&](string const& what, string const& got, string const& want) { return enc + " " + show(v) + what + ": got " + hex(got) + " want " + hex(want); };
	for (int html = 0; html < 2; ++html)
	{
		auto want = ref::encode(enc, v, html);
		if (html) mc::outcome(want.bytes);
		for (int form = 0; form < (deep ? 2 : 1); ++form)
		{
			io_queue<char> out; auto in = queue_of(v); result_value rv;
			if (form == 0) { auto c = get_encoding_encoder(nm); rv = process_queue(c, in, out, html ? wenc::error_mode_name::Html : wenc::error_mode_name::Fatal); }
			else if (html) rv = wenc::encode(in, nm, out);
			else { auto c = get_encoding_encoder(nm); rv = wenc::encode_or_fail(in, c, out); }
			bool eoq; string got = drain(out, eoq);
			if (got != want.bytes) return say(html ? "with references" : "fatal", got, want.bytes);
			if (want.error)
			{
				auto* e = get_if<result_error>(&rv);
				if (!e) return enc + " " + show(v) + ": error not reported";
				if (uint32_t(e->code_point) != want.bad) return enc + " " + show(v) + ": error reports the wrong code point";
			}
			else if (!holds_alternative<result_finished>(rv) || !eoq) return enc + " " + show(v) + ": not finished";
			if (!want.error && form == 0 && !html)
			{
				io_queue<char> back; back.push(got.begin(), got.end()); back.push({ 0, true });
				io_queue<char32_t> text; auto d = get_encoding_decoder(nm);
				process_queue(d, back, text, wenc::error_mode_name::Fatal);
				vector<uint32_t> t; for (;;) { auto x = text.read(); if (x.m_wait || x->m_eoq) break; t.push_back(uint32_t(**x)); }
				auto w = ref::decode(enc, want.bytes);
				if (t != w) return enc + " " + show(v) + ": decoding the encoded text gives " + show(t) + "want " + show(w);
			}
		}
	}
	if (deep) // incremental delivery
		for (size_t cut = 1; cut < v.size(); ++cut)
		{
			io_queue<char32_t> in; io_queue<char> out; auto c = get_encoding_encoder(nm);
			for (size_t i = 0; i < cut; ++i) in.push(char32_t(v[i]));
			process_queue(c, in, out, wenc::error_mode_name::Html);
			for (size_t i = cut; i < v.size(); ++i) in.push(char32_t(v[i]));
			in.push({ 0, true });
			process_queue(c, in, out, wenc::error_mode_name::Html);
			bool eoq; string got = drain(out, eoq), want = ref::encode(enc, v, true).bytes;
			if (got != want || !eoq) return say("in two deliveries", got, want);
		}
	return "";
}
static vector<uint32_t> reps(string const& e)
{
	if (e == "iso-2022-jp") return { 0x41, 0x5C, 0x7E, 0x0E, 0x1B, 0x0A, 0xA5, 0x203E, 0x3042, 0xFF61, 0xFF9F, 0x2212, 0x80, 0x1F600 };
	if (e == "shift_jis" || e == "euc-jp") return { 0x41, 0x5C, 0x7E, 0x80, 0xA5, 0x203E, 0x3042, 0xFF61, 0xFF9F, 0x2212, 0xE000, 0x1F600, 0x2252 };
	if (e == "gb18030" || e == "gbk") return { 0x41, 0x80, 0x20AC, 0x4E02, 0xE5E5, 0xE7C7, 0x3000, 0xFFFF, 0x10000, 0x10FFFF, 0xA5, 0xE78D };
	if (e == "big5") return { 0x41, 0x80, 0x5341, 0x2550, 0x4E00, 0xCA, 0x304, 0x1F600, 0x2008A };
	if (e == "euc-kr") return { 0x41, 0x80, 0xAC02, 0xAC00, 0x4E00, 0xD7A3, 0x1F600 };
	if (e == "utf-8") return { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF };
	return { 0x41, 0x7F, 0x80, 0xA0, 0xFF, 0x0410, 0x20AC, 0xF780, 0xF7FF, 0x1F600 };
}
void mc_register()
{
	ref::T();
	mc::add("scalar", [](mc::enumerator& e) { for (auto& n : encs()) for (int b = 0; b < 0x110000; b += 0x400) if (n != "utf-8" && b >= 0x30000 && b % 0x10000 && b % 0x10000 != 0xFC00 && n != "gb18030" && !mc::g_thorough) continue; else e(n + "|" + to_string(b)); }, [](string const& c) -> string
	{
		auto p = c.find('|'); string enc = c.substr(0, p); int b = stoi(c.substr(p + 1)); auto nm = name_of(enc);
		for (uint32_t k = b; k < uint32_t(b) + 0x400; ++k)
		{
			if (0xD800 <= k && k <= 0xDFFF) continue;
			string m = one(enc, nm, { k }, k % 64 == 0); if (!m.empty()) return m;
		}
		return "";
	}, 60);
	mc::add("sequences", [](mc::enumerator& e) { for (auto& n : encs()) { e(n + "|"); for (auto r : reps(n)) e(n + "|" + to_string(r)); } }, [](string const& c) -> string
	{
		auto p = c.find('|'); string enc = c.substr(0, p); auto nm = name_of(enc); auto a = reps(enc);
		if (c.size() == p + 1) return one(enc, nm, {}, true);
		size_t depth = (enc == "iso-2022-jp" ? 4 : 2) + (mc::g_thorough ? 1 : 0);
		function<string(vector<uint32_t>, size_t)> rec = [&](vector<uint32_t> v, size_t d) -> string
		{
			string m = one(enc, nm, v, true); if (!m.empty() || !d) return m;
			v.push_back(0);
			for (auto x : a) { v.back() = x; if (!(m = rec(v, d - 1)).empty()) return m; }
			return "";
		};
		return rec({ uint32_t(stoul(c.substr(p + 1))) }, depth);
	}, 120);
	mc::add("long", [](mc::enumerator& e) { for (auto& n : encs()) for (auto r : reps(n)) for (auto q : reps(n)) e(n + "|" + to_string(r) + "," + to_string(q)); }, [](string const& c) -> string
	{
		auto p = c.find('|'), q = c.find(','); string enc = c.substr(0, p), m; auto nm = name_of(enc); uint32_t x = stoul(c.substr(p + 1)), y = stoul(c.substr(q + 1));
		for (int n : { 4, 5, 6, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257 })
		{
			vector<uint32_t> a, b; for (int i = 0; i < n; ++i) { a.push_back(i % 2 ? y : x); b.push_back(i == n - 1 ? y : x); }
			if (!(m = one(enc, nm, a, n < 10)).empty() || !(m = one(enc, nm, b, n < 10)).empty()) return m.substr(0, 300);
		}
		return "";
	}, 60);
	// the encoding a document would be sent in
	mc::add("output-encoding", [](mc::enumerator& e) { for (auto& n : encs()) e(n); for (auto s : { "replacement", "utf-16be", "utf-16le" }) e(s); }, [](string const& c) -> string
	{
		auto nm = name_of(c), o = get_output_encoding_name(nm);
		bool forced = c == "replacement" || c.substr(0, 6) == "utf-16";
		return o == (forced ? wenc::encoding_name::UTF_8 : nm) ? "" : "output encoding of " + c + " wrong";
	});
}
MC_MAIN
