// Reference decoders and encoders, written from the Encoding Standard (2020) over tables taken from
// encoding_rs (data/encoding_index.bin; 18 entries of index gb18030 put back to the 2005 mapping that
// the 2020 standard used). Cross-checked against encoding_rs by tools/encgen (see DESIGN.md).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
namespace ref
{
	using namespace std;
	constexpr uint32_t NONE = 0xFFFFFFFFu, ERR = 0xFFFFFFFFu;
	struct tables
	{
		map<string, vector<uint32_t>> idx;
		map<string, map<uint32_t, uint32_t>> inv;        // code point -> pointer (as each encoder wants it)
		map<uint32_t, uint32_t> ranges;                  // code point -> pointer of the four byte part
		tables()
		{
			const char* d = getenv("VERIF_DATA");
			string fn = string(d ? d : "/verif/data") + "/encoding_index.bin";
			FILE* f = fopen(fn.c_str(), "rb"); if (!f) { fprintf(stderr, "no %s\n", fn.c_str()); exit(2); }
			for (;;)
			{
				string n; int c; while ((c = fgetc(f)) > 0) n += char(c);
				if (c < 0) break;
				uint32_t k = 0; if (fread(&k, 4, 1, f) != 1) exit(2);
				vector<uint32_t> v(k); if (fread(v.data(), 4, k, f) != k) exit(2);
				idx[n] = v;
			}
			fclose(f);
			auto& g = idx["gb18030"];
			static const uint32_t fix[][2] = { {7182,0xe78d},{7183,0xe78e},{7184,0xe78f},{7185,0xe790},{7186,0xe791},{7187,0xe792},{7188,0xe793},{7201,0xe794},{7202,0xe795},{7208,0xe796},
				{23775,0xe81e},{23783,0xe826},{23788,0xe82b},{23789,0xe82c},{23795,0xe832},{23812,0xe843},{23829,0xe854},{23845,0xe864} };
			for (auto& x : fix) g[x[0]] = x[1];
			for (auto& v : idx["big5"]) if (v == 0xFFFFFFFEu) v = NONE;
			for (auto& [n, v] : idx)
			{
				if (n == "gb18030-ranges") { for (uint32_t p = 0; p < v.size(); ++p) ranges.emplace(v[p], p); continue; }
				auto& m = inv[n];
				for (uint32_t p = 0; p < v.size(); ++p)
				{
					if (v[p] == NONE) continue;
					if (n == "big5" && p < (0xA1 - 0x81) * 157) continue;
					m.emplace(v[p], p);
				}
				if (n == "big5") for (uint32_t c : { 0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345 }) for (uint32_t p = 0; p < v.size(); ++p) if (v[p] == c) m[c] = p;
			}
			auto& s = inv["sjis"]; auto& j = idx["jis0208"];
			for (uint32_t p = 0; p < j.size(); ++p) if (j[p] != NONE && !(8272 <= p && p <= 8835)) s.emplace(j[p], p);
		}
	};
	inline tables& T() { static tables t; return t; }
	inline const char* const single[] = { "ibm866","iso-8859-2","iso-8859-3","iso-8859-4","iso-8859-5","iso-8859-6","iso-8859-7","iso-8859-8","iso-8859-8-i","iso-8859-10","iso-8859-13","iso-8859-14","iso-8859-15","iso-8859-16","koi8-r","koi8-u","macintosh","windows-874","windows-1250","windows-1251","windows-1252","windows-1253","windows-1254","windows-1255","windows-1256","windows-1257","windows-1258","x-mac-cyrillic" };
	inline bool is_single(string const& e) { for (auto s : single) if (e == s) return true; return false; }
	inline uint32_t at(string const& n, uint32_t p) { auto& v = T().idx[n]; return p < v.size() ? v[p] : NONE; }

	// the sequence of code points, ERR standing for one error
	inline vector<uint32_t> decode(string const& enc, string const& bytes)
	{
		vector<uint32_t> o;
		const size_t n = bytes.size();
		auto B = [&](size_t i) -> int { return i < n ? (unsigned char)bytes[i] : -1; };
		auto in = [](int b, int lo, int hi) { return lo <= b && b <= hi; };
		size_t i = 0;
		if (is_single(enc)) { auto& v = T().idx[enc]; for (; i < n; ++i) o.push_back(B(i) < 0x80 ? B(i) : v[B(i) - 0x80]); return o; }
		if (enc == "x-user-defined") { for (; i < n; ++i) o.push_back(B(i) < 0x80 ? B(i) : 0xF700 + B(i)); return o; }
		if (enc == "replacement") { if (n) o.push_back(ERR); return o; }
		if (enc == "utf-8")
		{
			while (i < n)
			{
				int b = B(i); ++i;
				if (b < 0x80) { o.push_back(b); continue; }
				int need = in(b, 0xC2, 0xDF) ? 1 : in(b, 0xE0, 0xEF) ? 2 : in(b, 0xF0, 0xF4) ? 3 : 0;
				if (!need) { o.push_back(ERR); continue; }
				uint32_t c = need == 1 ? b & 0x1F : need == 2 ? b & 0xF : b & 7;
				int lo = b == 0xE0 ? 0xA0 : b == 0xF0 ? 0x90 : 0x80, hi = b == 0xED ? 0x9F : b == 0xF4 ? 0x8F : 0xBF;
				int k = 0;
				for (; k < need && in(B(i), lo, hi); ++k, ++i) { c = c << 6 | (B(i) & 0x3F); lo = 0x80; hi = 0xBF; }
				o.push_back(k == need ? c : ERR);
			}
			return o;
		}
		if (enc == "utf-16be" || enc == "utf-16le")
		{
			bool be = enc == "utf-16be";
			auto U = [&](size_t k) -> int { return k + 1 < n ? (be ? B(k) << 8 | B(k + 1) : B(k + 1) << 8 | B(k)) : -1; };
			while (i < n)
			{
				int u = U(i);
				if (u < 0) { o.push_back(ERR); break; }      // odd byte
				i += 2;
				if (in(u, 0xDC00, 0xDFFF)) { o.push_back(ERR); continue; }
				if (!in(u, 0xD800, 0xDBFF)) { o.push_back(u); continue; }
				if (i + 1 >= n) { o.push_back(ERR); break; } // lead surrogate and possibly one odd byte: a single error
				int v = U(i);
				if (in(v, 0xDC00, 0xDFFF)) { i += 2; o.push_back(0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00)); }
				else o.push_back(ERR);
			}
			return o;
		}
		if (enc == "gb18030" || enc == "gbk")
		{
			while (i < n)
			{
				int b = B(i); ++i;
				if (b < 0x80) { o.push_back(b); continue; }
				if (b == 0x80) { o.push_back(0x20AC); continue; }
				if (b == 0xFF) { o.push_back(ERR); continue; }
				int s = B(i);
				if (s < 0) { o.push_back(ERR); break; }
				if (in(s, 0x30, 0x39))
				{
					int t = B(i + 1), f = B(i + 2);
					if (t < 0) { o.push_back(ERR); break; }
					if (!in(t, 0x81, 0xFE)) { o.push_back(ERR); continue; }
					if (f < 0) { o.push_back(ERR); break; }
					if (!in(f, 0x30, 0x39)) { o.push_back(ERR); continue; }
					i += 3;
					uint32_t p = ((b - 0x81) * 10 + (s - 0x30)) * 1260 + (t - 0x81) * 10 + f - 0x30;
					if (p <= 39419) o.push_back(at("gb18030-ranges", p));
					else if (189000 <= p && p <= 1237575) o.push_back(p - 189000 + 0x10000);
					else o.push_back(ERR);
					continue;
				}
				uint32_t c = NONE;
				if (in(s, 0x40, 0x7E) || in(s, 0x80, 0xFE)) c = at("gb18030", (b - 0x81) * 190 + s - (s < 0x7F ? 0x40 : 0x41));
				if (c != NONE) { o.push_back(c); ++i; }
				else { o.push_back(ERR); if (s >= 0x80) ++i; }
			}
			return o;
		}
		if (enc == "big5")
		{
			while (i < n)
			{
				int b = B(i); ++i;
				if (b < 0x80) { o.push_back(b); continue; }
				if (!in(b, 0x81, 0xFE)) { o.push_back(ERR); continue; }
				int s = B(i);
				if (s < 0) { o.push_back(ERR); break; }
				uint32_t c = NONE, p = NONE;
				if (in(s, 0x40, 0x7E)) p = (b - 0x81) * 157 + s - 0x40; else if (in(s, 0xA1, 0xFE)) p = (b - 0x81) * 157 + s - 0x62;
				if (p == 1133 || p == 1135 || p == 1164 || p == 1166) { o.push_back(p < 1150 ? 0xCA : 0xEA); o.push_back(p == 1133 || p == 1164 ? 0x304 : 0x30C); ++i; continue; }
				if (p != NONE) c = at("big5", p);
				if (c != NONE) { o.push_back(c); ++i; }
				else { o.push_back(ERR); if (s >= 0x80) ++i; }
			}
			return o;
		}
		if (enc == "euc-kr")
		{
			while (i < n)
			{
				int b = B(i); ++i;
				if (b < 0x80) { o.push_back(b); continue; }
				if (!in(b, 0x81, 0xFE)) { o.push_back(ERR); continue; }
				int s = B(i);
				if (s < 0) { o.push_back(ERR); break; }
				uint32_t c = in(s, 0x41, 0xFE) ? at("euc-kr", (b - 0x81) * 190 + s - 0x41) : NONE;
				if (c != NONE) { o.push_back(c); ++i; }
				else { o.push_back(ERR); if (s >= 0x80) ++i; }
			}
			return o;
		}
		if (enc == "shift_jis")
		{
			while (i < n)
			{
				int b = B(i); ++i;
				if (b <= 0x80) { o.push_back(b); continue; }
				if (in(b, 0xA1, 0xDF)) { o.push_back(0xFF61 + b - 0xA1); continue; }
				if (b == 0xA0 || b > 0xFC) { o.push_back(ERR); continue; }
				int s = B(i);
				if (s < 0) { o.push_back(ERR); break; }
				uint32_t c = NONE;
				if (in(s, 0x40, 0x7E) || in(s, 0x80, 0xFC))
				{
					uint32_t p = (b - (b < 0xA0 ? 0x81 : 0xC1)) * 188 + s - (s < 0x7F ? 0x40 : 0x41);
					c = 8836 <= p && p <= 10715 ? 0xE000 + p - 8836 : at("jis0208", p);
				}
				if (c != NONE) { o.push_back(c); ++i; }
				else { o.push_back(ERR); if (s >= 0x80) ++i; }
			}
			return o;
		}
		if (enc == "euc-jp")
		{
			while (i < n)
			{
				int b = B(i); ++i;
				if (b < 0x80) { o.push_back(b); continue; }
				if (b != 0x8E && b != 0x8F && !in(b, 0xA1, 0xFE)) { o.push_back(ERR); continue; }
				int s = B(i);
				if (s < 0) { o.push_back(ERR); break; }
				if (b == 0x8E && in(s, 0xA1, 0xDF)) { o.push_back(0xFF61 + s - 0xA1); ++i; continue; }
				bool x0212 = false;
				if (b == 0x8F && in(s, 0xA1, 0xFE))
				{
					x0212 = true; b = s; ++i; s = B(i);
					if (s < 0) { o.push_back(ERR); break; }
				}
				uint32_t c = NONE;
				if (in(b, 0xA1, 0xFE) && in(s, 0xA1, 0xFE)) c = at(x0212 ? "jis0212" : "jis0208", (b - 0xA1) * 94 + s - 0xA1);
				if (c != NONE) { o.push_back(c); ++i; }
				else { o.push_back(ERR); if (s >= 0x80) ++i; }
			}
			return o;
		}
		if (enc == "iso-2022-jp")
		{
			enum { A, R, K, L } st = A; bool output_flag = false;
			while (i < n)
			{
				int b = B(i); ++i;
				if (b == 0x1B)
				{
					int x = B(i), y = B(i + 1); bool ok = true; auto ns = st;
					if (x == 0x28 && y == 0x42) ns = A; else if (x == 0x28 && y == 0x4A) ns = R; else if (x == 0x28 && y == 0x49) ns = K;
					else if (x == 0x24 && (y == 0x40 || y == 0x42)) ns = L; else ok = false;
					if (!ok) { output_flag = false; o.push_back(ERR); continue; }
					i += 2; st = ns;
					if (output_flag) o.push_back(ERR);
					output_flag = true;
					continue;
				}
				output_flag = false;
				if (st == A) { o.push_back(b < 0x80 && b != 0x0E && b != 0x0F ? b : ERR); continue; }
				if (st == R) { o.push_back(b == 0x5C ? 0xA5 : b == 0x7E ? 0x203E : b < 0x80 && b != 0x0E && b != 0x0F ? b : ERR); continue; }
				if (st == K) { o.push_back(in(b, 0x21, 0x5F) ? 0xFF61 + b - 0x21 : ERR); continue; }
				if (!in(b, 0x21, 0x7E)) { o.push_back(ERR); continue; }
				int s = B(i);
				if (s < 0) { o.push_back(ERR); break; }
				if (s == 0x1B)
				{	// the error is for the lead; the escape is then processed
					o.push_back(ERR); continue;
				}
				++i;
				o.push_back(in(s, 0x21, 0x7E) ? at("jis0208", (b - 0x21) * 94 + s - 0x21) : ERR);
			}
			return o;
		}
		fprintf(stderr, "no reference decoder for %s\n", enc.c_str()); exit(2);
	}

	struct encoded { string bytes; bool error = false; uint32_t bad = 0; };
	// html: numeric references for errors; otherwise stops at the first error
	inline encoded encode(string const& enc, vector<uint32_t> const& cps, bool html, vector<pair<size_t, uint32_t>>* errs = nullptr)
	{
		encoded r; string& o = r.bytes;
		auto& t = T();
		auto find = [](map<uint32_t, uint32_t> const& m, uint32_t c) { auto it = m.find(c); return it == m.end() ? NONE : it->second; };
		auto two = [&](uint32_t a, uint32_t b) { o += char(a); o += char(b); };
		int st = 0; // iso-2022-jp: 0 ascii 1 roman 2 jis0208
		bool sb = is_single(enc);
		for (uint32_t c : cps)
		{
			bool err = false; uint32_t bad = c;
			if (enc == "iso-2022-jp")
			{
				auto to = [&](int s) { if (st != s) { o += s == 0 ? "\x1b(B" : s == 1 ? "\x1b(J" : "\x1b$B"; st = s; } };
				if (c == 0x0E || c == 0x0F || c == 0x1B) { if (st == 2) to(0); err = true; bad = 0xFFFD; }
				else if (c < 0x80) { if (st == 2 || c == 0x5C || c == 0x7E) to(0); o += char(c); }
				else if (c == 0xA5 || c == 0x203E) { to(1); o += c == 0xA5 ? '\x5C' : '\x7E'; }
				else
				{
					static const uint32_t kata[] = { 0x3002,0x300C,0x300D,0x3001,0x30FB,0x30F2,0x30A1,0x30A3,0x30A5,0x30A7,0x30A9,0x30E3,0x30E5,0x30E7,0x30C3,0x30FC,0x30A2,0x30A4,0x30A6,0x30A8,0x30AA,0x30AB,0x30AD,0x30AF,0x30B1,0x30B3,0x30B5,0x30B7,0x30B9,0x30BB,0x30BD,0x30BF,0x30C1,0x30C4,0x30C6,0x30C8,0x30CA,0x30CB,0x30CC,0x30CD,0x30CE,0x30CF,0x30D2,0x30D5,0x30D8,0x30DB,0x30DE,0x30DF,0x30E0,0x30E1,0x30E2,0x30E4,0x30E6,0x30E8,0x30E9,0x30EA,0x30EB,0x30EC,0x30ED,0x30EF,0x30F3,0x309B,0x309C };
					uint32_t d = c == 0x2212 ? 0xFF0D : 0xFF61 <= c && c <= 0xFF9F ? kata[c - 0xFF61] : c;
					uint32_t p = find(t.inv["jis0208"], d);
					if (p == NONE) { if (st == 2) to(0); err = true; bad = d; }
					else { to(2); two(p / 94 + 0x21, p % 94 + 0x21); }
				}
			}
			else if (c < 0x80) o += char(c);
			else if (enc == "utf-8")
			{
				if (c < 0x800) two(0xC0 | c >> 6, 0x80 | (c & 63));
				else if (c < 0x10000) { o += char(0xE0 | c >> 12); two(0x80 | (c >> 6 & 63), 0x80 | (c & 63)); }
				else { two(0xF0 | c >> 18, 0x80 | (c >> 12 & 63)); two(0x80 | (c >> 6 & 63), 0x80 | (c & 63)); }
			}
			else if (sb) { uint32_t p = find(t.inv[enc], c); if (p == NONE) err = true; else o += char(p + 0x80); }
			else if (enc == "x-user-defined") { if (0xF780 <= c && c <= 0xF7FF) o += char(c - 0xF700); else err = true; }
			else if (enc == "gb18030" || enc == "gbk")
			{
				uint32_t p;
				if (c == 0xE5E5) err = true;
				else if (enc == "gbk" && c == 0x20AC) o += '\x80';
				else if ((p = find(t.inv["gb18030"], c)) != NONE) { uint32_t x = p % 190; two(p / 190 + 0x81, x + (x < 0x3F ? 0x40 : 0x41)); }
				else if (enc == "gbk") err = true;
				else
				{
					p = c >= 0x10000 ? c - 0x10000 + 189000 : find(t.ranges, c);
					if (p == NONE) err = true; else { two(p / 12600 + 0x81, p / 1260 % 10 + 0x30); two(p / 10 % 126 + 0x81, p % 10 + 0x30); }
				}
			}
			else if (enc == "big5") { uint32_t p = find(t.inv["big5"], c); if (p == NONE) err = true; else { uint32_t x = p % 157; two(p / 157 + 0x81, x + (x < 0x3F ? 0x40 : 0x62)); } }
			else if (enc == "euc-kr") { uint32_t p = find(t.inv["euc-kr"], c); if (p == NONE) err = true; else two(p / 190 + 0x81, p % 190 + 0x41); }
			else if (enc == "euc-jp" || enc == "shift_jis")
			{
				bool sj = enc == "shift_jis";
				if (sj && c == 0x80) o += char(c);
				else if (c == 0xA5) o += '\x5C';
				else if (c == 0x203E) o += '\x7E';
				else if (0xFF61 <= c && c <= 0xFF9F) { if (!sj) o += '\x8E'; o += char(c - 0xFF61 + 0xA1); }
				else
				{
					uint32_t p = find(t.inv[sj ? "sjis" : "jis0208"], c == 0x2212 ? 0xFF0D : c);
					if (p == NONE) err = true;
					else if (!sj) two(p / 94 + 0xA1, p % 94 + 0xA1);
					else { uint32_t l = p / 188, x = p % 188; two(l + (l < 0x1F ? 0x81 : 0xC1), x + (x < 0x3F ? 0x40 : 0x41)); }
				}
			}
			else { fprintf(stderr, "no reference encoder for %s\n", enc.c_str()); exit(2); }
			if (err)
			{
				if (errs) { errs->push_back({ o.size(), bad }); continue; }
				if (!html) { r.error = true; r.bad = bad; return r; }
				o += "&#" + to_string(bad) + ";";
			}
		}
		if (enc == "iso-2022-jp" && st != 0) o += "\x1b(B";
		return r;
	}
	struct unit { bool error; uint32_t value; };
	// bytes and errors in order (encode or fail, resumed after each error)
	inline vector<unit> encode_fail(string const& enc, vector<uint32_t> const& cps)
	{
		vector<pair<size_t, uint32_t>> errs; auto e = encode(enc, cps, false, &errs); vector<unit> r; size_t k = 0;
		for (size_t i = 0; i <= e.bytes.size(); ++i) { while (k < errs.size() && errs[k].first == i) r.push_back({ true, errs[k++].second }); if (i < e.bytes.size()) r.push_back({ false, uint32_t((unsigned char)e.bytes[i]) }); }
		return r;
	}
}
