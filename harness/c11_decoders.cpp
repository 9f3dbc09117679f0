// C11: every decoder against the reference, in both error modes and in every chunking
#include "../mc/mc.hpp"
#include <wordring/whatwg/encoding/api.hpp>
#include <wordring/whatwg/encoding/encoding.hpp>
#include "enc_model.hpp"
using namespace std;
using namespace wordring::whatwg::encoding;
namespace wenc = wordring::whatwg::encoding;

static vector<string> const multi = { "utf-8", "gbk", "gb18030", "big5", "euc-jp", "iso-2022-jp", "shift_jis", "euc-kr", "replacement", "utf-16be", "utf-16le", "x-user-defined" };
static vector<string> all_enc() { vector<string> v(begin(ref::single), end(ref::single)); v.insert(v.end(), multi.begin(), multi.end()); return v; }
static wenc::encoding_name name_of(string const& l) { return wenc::get_encoding_name(u32string(l.begin(), l.end())); }
static string hex(string const& s) { string r; char b[8]; for (unsigned char c : s) { snprintf(b, 8, "%02X", c); r += b; } return r; }
static string unhex(string const& t) { string s, r; for (char c : t) if (c != 0x20) s += c; for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(stoi(s.substr(i, 2), nullptr, 16)); return r; }
static string show(vector<uint32_t> const& v) { string r; char b[16]; for (auto c : v) { snprintf(b, 16, "%X ", c); r += b; } return r; }

static vector<uint32_t> drain(io_queue<char32_t>& q, bool& eoq)
{
	vector<uint32_t> r; eoq = false;
	for (size_t k = 0; k < 100000; ++k) { auto x = q.read(); if (x.m_wait) return r; if (x->m_eoq) { eoq = true; return r; } r.push_back(uint32_t(**x)); }
	return r;
}
// cut: bit k set = a new delivery starts before byte k+1
static string one(string const& enc, wenc::encoding_name nm, string const& bytes, vector<uint32_t> const& want, unsigned cut)
{
	mc::state(); mc::transition(bytes.size() + 1);
	for (int fatal = 0; fatal < 2; ++fatal)
	{
		auto mode = fatal ? wenc::error_mode_name::Fatal : wenc::error_mode_name::Replacement;
		io_queue<char> in; io_queue<char32_t> out;
		auto c = get_encoding_decoder(nm);
		result_value rv = result_continue{};
		bool stopped = false;
		for (size_t k = 0; k < bytes.size() && !stopped; ++k)
		{
			if (k && (cut >> (k - 1) & 1))
			{
				rv = process_queue(c, in, out, mode);
				if (rv.index() != 1) stopped = true;
			}
			in.push(bytes[k]);
		}
		if (!stopped) { in.push({ 0, true }); rv = process_queue(c, in, out, mode); }
		vector<uint32_t> w; bool err = false;
		for (auto x : want) { if (x == ref::ERR) { if (fatal) { err = true; break; } w.push_back(0xFFFD); } else w.push_back(x); }
		bool eoq; auto got = drain(out, eoq);
		if (!fatal) mc::outcome(string_view((char const*)got.data(), got.size() * 4));
		if (got != w) return enc + " " + hex(bytes) + (fatal ? " fatal" : "") + " cut " + to_string(cut) + ": got " + show(got) + "want " + show(w);
		if (err) { if (!holds_alternative<result_error>(rv)) return enc + " " + hex(bytes) + ": error not reported"; if (eoq) return enc + " " + hex(bytes) + ": output ended though decoding failed"; }
		else { if (!holds_alternative<result_finished>(rv)) return enc + " " + hex(bytes) + ": not finished"; if (!eoq) return enc + " " + hex(bytes) + ": output not ended"; }
	}
	return "";
}
static string whole(string const& enc, wenc::encoding_name nm, string const& bytes) { return one(enc, nm, bytes, ref::decode(enc, bytes), 0); }

static string td(string const& enc, string const& bytes, unsigned cut, bool fatal, bool ignore_bom)
{
	mc::state(); mc::transition(bytes.size() + 1);
	auto full = ref::decode(enc, bytes);
	// a mark at the start of the decoded text is dropped for the Unicode encodings
	bool uni = enc == "utf-8" || enc == "utf-16be" || enc == "utf-16le";
	bool err = false; u32string want;
	for (size_t i = 0; i < full.size(); ++i)
	{
		if (full[i] == ref::ERR) { if (fatal) { err = true; break; } want += U'\xFFFD'; }
		else if (i == 0 && full[i] == 0xFEFF && uni && !ignore_bom) continue;
		else want += char32_t(full[i]);
	}
	wenc::text_decoder t(u32string(enc.begin(), enc.end()), fatal, ignore_bom);
	for (int round = 0; round < 2; ++round) // the object is reused: the second text must not see the first
	{
		u32string got; bool thrown = false;
		try
		{
			size_t a = 0;
			for (size_t k = 1; k <= bytes.size(); ++k)
				if (k == bytes.size() || (cut >> (k - 1) & 1)) { got += t.decode(bytes.begin() + a, bytes.begin() + k, k != bytes.size()); a = k; }
			if (bytes.empty()) got += t.decode();
		}
		catch (range_error const&) { thrown = true; }
		if (thrown != err) return "text_decoder " + enc + " " + hex(bytes) + (thrown ? ": unexpected error" : ": error not raised");
		if (!err && got != want) return "text_decoder " + enc + " " + hex(bytes) + " cut " + to_string(cut) + ": got " + show(vector<uint32_t>(got.begin(), got.end())) + "want " + show(vector<uint32_t>(want.begin(), want.end()));
		if (err && cut) break; // the state after a failure in the middle of a stream is not specified here
	}
	return "";
}

static string significant(string const& e)
{
	if (e == "utf-8") return unhex("41 7F 80 8F 90 9F A0 BF C1 C2 DF E0 ED EF F0 F4 F5");
	if (e == "gb18030" || e == "gbk") return unhex("2F 30 39 3A 40 7E 7F 80 81 84 90 E3 FE FF");
	if (e == "big5") return unhex("3F 40 62 64 7E 7F 80 81 88 A1 A3 A5 FE FF");
	if (e == "euc-jp") return unhex("41 7F 80 8E 8F A0 A1 A2 AF DF E0 F4 FE FF");
	if (e == "iso-2022-jp") return unhex("0E 1B 20 21 24 28 40 42 49 4A 5C 5F 7E 80");
	if (e == "shift_jis") return unhex("3F 40 7E 7F 80 81 9F A0 A1 DF E0 F0 FC FD");
	if (e == "euc-kr") return unhex("40 41 5B 7A 80 81 A1 C6 C9 FE FF");
	if (e == "utf-16be" || e == "utf-16le") return unhex("00 41 D7 D8 DB DC DF E0 FE FF");
	if (e == "replacement") return unhex("00 41 80 FF");
	return unhex("00 41 7F 80 FF");
}
static vector<string> sig(string const& e) { vector<string> v; for (char c : significant(e)) v.emplace_back(1, c); return v; }
static pair<string, string> split(string const& c) { auto p = c.find('|'); return { c.substr(0, p), unhex(c.substr(p + 1)) }; }

// whole characters of every class of the encoding, and every way in which one can be cut short or spoiled
static vector<string> segments(string const& e)
{
	vector<string> h;
	if (e == "utf-8") h = { "41", "C2A2", "E0A080", "E38182", "EFBFBF", "F0908080", "F48FBFBF", "C2", "E0A0", "E080", "EDA080", "F09F98", "F080", "F490", "80", "FF", "EFBBBF" };
	else if (e == "gb18030" || e == "gbk") h = { "41", "80", "8140", "FEFE", "81308130", "90308130", "E3329A36", "81", "8130", "813081", "813041", "817F", "81308141", "84318236", "FF", "8135F437" };
	else if (e == "big5") h = { "41", "A440", "8862", "8864", "88A3", "88A5", "8140", "A47F", "A4", "FF", "80", "FEFE", "8141", "8740" };
	else if (e == "euc-jp") h = { "41", "B0A1", "8EB1", "8FB0A1", "8F", "8FB0", "8FB041", "8FB0FF", "8FA1A1", "8E", "8E41", "8EE0", "B041", "B0FF", "A9A1", "FF", "80" };
	else if (e == "iso-2022-jp") h = { "41", "1B2842", "1B284A", "1B2849", "1B2440", "1B2442", "5C", "2422", "1B", "1B24", "1B28", "1B2843", "0E", "80", "7E", "7E7E", "31" };
	else if (e == "shift_jis") h = { "41", "80", "A0", "B1", "889F", "817F", "81", "F040", "FC4B", "FCFC", "FF", "8541", "E03F", "E0", "5C" };
	else if (e == "euc-kr") h = { "41", "B0A1", "8141", "C65B", "81", "8140", "817B", "C9A1", "FEFE", "FF", "80", "B041", "B0" };
	else if (e == "utf-16be") h = { "0041", "D83D", "DE00", "DBFF", "DC00", "D800", "FEFF", "FFFE", "00", "3042", "DE" };
	else if (e == "utf-16le") h = { "4100", "3DD8", "00DE", "FFDB", "00DC", "00D8", "FFFE", "FEFF", "00", "4230", "DE" };
	else h = { "00", "41", "80", "FF" };
	vector<string> v; for (auto& x : h) v.push_back(unhex(x)); return v;
}

void mc_register()
{
	ref::T();
	// every sequence of four such segments: nothing of one, right or wrong, may show in the next
	mc::add("segments", [](mc::enumerator& e) { for (auto& n : multi) for (auto& x : segments(n)) for (auto& y : segments(n)) e(n + "|" + hex(x) + "|" + hex(y)); }, [](string const& c) -> string
	{
		auto p = c.find('|'), q = c.find('|', p + 1); string enc = c.substr(0, p); auto x = unhex(c.substr(p + 1, q - p - 1)), y = unhex(c.substr(q + 1));
		auto nm = name_of(enc); auto a = segments(enc); string m;
		function<string(vector<string> const&, size_t)> rec = [&](vector<string> const& v, size_t d) -> string
		{
			string s, m; unsigned cut = 0; for (auto& i : v) { if (!s.empty() && s.size() < 30) cut |= 1u << (s.size() - 1); s += i; }
			auto want = ref::decode(enc, s);
			if (!(m = one(enc, nm, s, want, 0)).empty()) return m;
			if (d && !(m = one(enc, nm, s, want, cut)).empty()) return m; // one segment per delivery
			if (d == 0) return m;
			for (auto& i : a) { auto w = v; w.push_back(i); if (!(m = rec(w, d - 1)).empty()) return m; }
			return m;
		};
		return rec({ x, y }, mc::g_thorough ? 3 : 2);
	}, 120);
	// every sequence of one and two bytes, followed by nothing, an ASCII byte or a lead-like byte
	mc::add("bytes2", [](mc::enumerator& e) { for (auto& n : all_enc()) { e(n + "|"); for (int b = 0; b < 256; ++b) e(n + "|" + hex(string(1, char(b)))); } }, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto nm = name_of(enc); string m;
		if (pre.empty()) return whole(enc, nm, "");
		if (!(m = whole(enc, nm, pre)).empty()) return m;
		for (int b = 0; b < 256; ++b) for (string post : { "", "A", "\x81", "\xA1" })
		{
			if (!post.empty() && ref::is_single(enc)) continue;
			if (!(m = whole(enc, nm, pre + char(b) + post)).empty()) return m;
		}
		return "";
	});
	// every sequence over the structurally significant bytes
	mc::add("structure", [](mc::enumerator& e)
	{
		for (auto& n : multi) { auto a = sig(n); for (auto& x : a) for (auto& y : a) e(n + "|" + hex(x + y)); }
	}, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto nm = name_of(enc); auto a = significant(enc);
		size_t depth = (enc == "iso-2022-jp" ? 3 : enc == "gb18030" || enc.substr(0, 4) == "utf-" ? 3 : 2) + (mc::g_thorough ? 1 : 0);
		string m;
		function<string(string const&, size_t)> rec = [&](string const& s, size_t d) -> string
		{
			string m = whole(enc, nm, s); if (!m.empty() || d == 0) return m;
			for (char x : a) if (!(m = rec(s + x, d - 1)).empty()) return m;
			return "";
		};
		return rec(pre, depth);
	}, 120);
	// every UTF-8 sequence of three bytes, and of four with the four byte leads
	mc::add("utf8-3", [](mc::enumerator& e) { for (int b = 0xC0; b < 256; ++b) for (int d = 0x70; d < 0xD0; ++d) e("utf-8|" + hex(string(1, char(b)) + char(d))); }, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto nm = name_of(enc); string m;
		for (int b = 0; b < 256; ++b) if (!(m = whole(enc, nm, pre + char(b))).empty()) return m;
		return "";
	}, 60);
	mc::add("utf8-4", [](mc::enumerator& e) { for (int b = 0xEF; b < 0xF8; ++b) for (int d = 0x7F; d < 0xC1; ++d) for (int x = 0x7E; x < 0xC2; ++x) e("utf-8|" + hex(string(1, char(b)) + char(d) + char(x))); }, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto nm = name_of(enc); string m;
		for (int b = 0x7E; b < 0xC2; ++b) if (!(m = whole(enc, nm, pre + char(b))).empty()) return m;
		return "";
	}, 60);
	// every four byte sequence of gb18030
	mc::add("gb4", [](mc::enumerator& e) { for (int b = 0x80; b < 256; ++b) for (int d = 0x2F; d < 0x3B; ++d) for (int x = 0x80; x < 256; ++x) e("gb18030|" + hex(string(1, char(b)) + char(d) + char(x))); }, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto nm = name_of(enc); string m;
		for (int b = 0x2F; b < 0x3B; ++b) if (!(m = whole(enc, nm, pre + char(b))).empty()) return m;
		return "";
	}, 60);
	// every three byte sequence of EUC-JP starting with 8F
	mc::add("jis0212", [](mc::enumerator& e) { for (int b = 0; b < 256; ++b) e("euc-jp|8F" + hex(string(1, char(b)))); }, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto nm = name_of(enc); string m;
		for (int b = 0; b < 256; ++b) for (string post : { "", "A", "\xA1", "\xB0\xA1", "\x8F\xB0\xA1" }) if (!(m = whole(enc, nm, pre + char(b) + post)).empty()) return m;
		return "";
	}, 60);
	// ISO-2022-JP: every pair of bytes in every shift state
	mc::add("jis-shift", [](mc::enumerator& e) { for (string s : { "1B2842", "1B284A", "1B2849", "1B2440", "1B2442" }) for (int b = 0; b < 256; ++b) e("iso-2022-jp|" + s + hex(string(1, char(b)))); }, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto nm = name_of(enc); string m;
		for (int b = 0; b < 256; ++b) for (string post : { "", "!", "\x1b(B" }) if (!(m = whole(enc, nm, pre + char(b) + post)).empty()) return m;
		return "";
	}, 60);
	// every pair of UTF-16 code units around the surrogate boundaries with every code unit in between, both byte orders
	mc::add("utf16", [](mc::enumerator& e) { for (string n : { "utf-16be|", "utf-16le|" }) for (int b = 0; b < 256; ++b) for (string q : { "", "D800", "DBFF", "DC00", "0041" }) { string u = q; if (n[5] == '6' && n[6] == 'l' && !q.empty()) u = q.substr(2) + q.substr(0, 2); e(n + u + hex(string(1, char(b)))); } }, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto nm = name_of(enc); string m;
		for (int b = 0; b < 256; ++b) for (string post : { string(), string("A"), string("\0A", 2), string("A\0", 2), string("\xDC\0", 2), string("\0\xDC", 2) }) if (!(m = whole(enc, nm, pre + char(b) + post)).empty()) return m;
		return "";
	}, 60);
	// long texts: a unit of one to three significant bytes repeated, and a long ASCII text around it; in one delivery and in slices
	mc::add("long", [](mc::enumerator& e) { for (auto& n : multi) { auto a = sig(n); for (auto& x : a) { e(n + "|" + hex(x)); for (auto& y : a) e(n + "|" + hex(x + y)); } } for (auto n : ref::single) e(string(n) + "|80"); for (string s : { "utf-8|E38182", "utf-8|F09F9880", "gb18030|81308130", "gb18030|90308130", "gbk|8130813041", "euc-jp|8FB0A1", "iso-2022-jp|1B24422422", "iso-2022-jp|1B2442", "iso-2022-jp|1B2842", "iso-2022-jp|1B284A5C", "iso-2022-jp|1B244224221B2842", "big5|8862", "utf-16be|D83DDE00", "utf-16le|3DD800DE" }) e(s); }, [](string const& c) -> string
	{
		auto [enc, u] = split(c); auto nm = name_of(enc); string m;
		for (int n : { 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513 })
		{
			string rep, around; for (int i = 0; i < n; ++i) rep += u;
			string fill = enc == "utf-16be" ? string("\0A", 2) : enc == "utf-16le" ? string("A\0", 2) : string("A"); for (int i = 0; i < n; ++i) around += fill;
			for (string t : { rep, around + u, u + around, around + u + around, rep + "A", "A" + rep })
			{
				if (n > 130 && t.size() != rep.size() && t.size() != around.size() + u.size()) continue;
				auto want = ref::decode(enc, t); if (!(m = one(enc, nm, t, want, 0)).empty()) return m.substr(0, 300);
				if (enc == "replacement" || n > 260) continue;
				for (size_t sl : { size_t(1), size_t(3), size_t(64) }) // through a text decoder in slices
				{
					wenc::text_decoder d(u32string(enc.begin(), enc.end()), false, true); u32string got, w;
					for (size_t i = 0; i < t.size(); i += sl) { auto z = min(t.size(), i + sl); got += d.decode(t.begin() + i, t.begin() + z, z != t.size()); }
					for (auto x : want) w += x == ref::ERR ? U'\xFFFD' : char32_t(x);
					if (got != w) return "text_decoder " + enc + " " + hex(u) + " x " + to_string(n) + " in slices of " + to_string(sl) + " wrong";
				}
			}
		}
		return "";
	}, 120);
	// every way of cutting the input into deliveries
	mc::add("chunks", [](mc::enumerator& e) { for (auto& n : multi) for (auto& x : sig(n)) e(n + "|" + hex(x)); for (auto n : ref::single) e(string(n) + "|80"); }, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto nm = name_of(enc); auto a = significant(enc);
		size_t depth = mc::g_thorough ? 4 : 3;
		function<string(string const&, size_t)> rec = [&](string const& s, size_t d) -> string
		{
			string m; auto want = ref::decode(enc, s);
			for (unsigned cut = 0; cut < (1u << (s.size() - 1)); ++cut) if (!(m = one(enc, nm, s, want, cut)).empty()) return m;
			if (d == 0) return m;
			for (char x : a) if (!(m = rec(s + x, d - 1)).empty()) return m;
			return "";
		};
		return rec(pre, depth);
	}, 120);
	mc::add("text_decoder", [](mc::enumerator& e) { for (auto& n : all_enc()) if (n != "replacement") { e(n + "|"); for (auto& x : sig(n)) e(n + "|" + hex(x)); } for (string s : { "utf-8|EFBBBF", "utf-16be|FEFF", "utf-16le|FFFE", "utf-8|EFBB", "utf-16be|FFFE", "gb18030|84319533" }) e(s); }, [](string const& c) -> string
	{
		auto [enc, pre] = split(c); auto a = significant(enc);
		size_t depth = mc::g_thorough ? 3 : 2;
		function<string(string const&, size_t)> rec = [&](string const& s, size_t d) -> string
		{
			string m;
			for (unsigned cut = 0; cut < (s.empty() ? 1u : 1u << (s.size() - 1)); ++cut) for (int f = 0; f < 4; ++f) if (!(m = td(enc, s, cut, f & 1, f & 2)).empty()) return m;
			if (d == 0) return m;
			for (char x : a) if (!(m = rec(s + x, d - 1)).empty()) return m;
			return "";
		};
		return rec(pre, depth);
	}, 120);
}
MC_MAIN
