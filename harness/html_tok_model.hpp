// Reference HTML tokenizer: the WHATWG HTML tokenisation stage (12.2.5), pull style over a complete, newline-normalised text.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
namespace htmlref
{
	using u32 = std::u32string;
	enum mode { DATA, RCDATA, RAWTEXT, SCRIPT, PLAINTEXT, CDATA };
	struct token
	{
		enum kind { DOCTYPE, START, END, COMMENT, CHAR, EOFT } k;
		u32 name; bool flag = false;                       // DOCTYPE: force quirks, tags: self-closing
		std::vector<std::pair<u32, u32>> attrs;
		bool has_pub = false, has_sys = false; u32 pub, sys;
		char32_t c = 0;
	};
	inline std::string utf8(u32 const& s)
	{
		std::string o;
		for (char32_t c : s)
		{
			if (c < 0x20 || c == 0x7F || c == '\\' || (c >= 0xD800 && c < 0xE000) || c > 0x10FFFF) { char b[16]; std::snprintf(b, sizeof b, "\\x%X;", unsigned(c)); o += b; }
			else if (c < 0x80) o += char(c);
			else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
			else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
			else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
		}
		return o;
	}
	inline std::map<u32, u32> const& entities()
	{
		static std::map<u32, u32> m = [] {
			std::map<u32, u32> m; char const* d = std::getenv("VERIF_DATA"); std::ifstream f(std::string(d ? d : "/verif/data") + "/entities.txt"); std::string l;
			while (std::getline(f, l))
			{
				std::istringstream is(l); std::string n; is >> n; u32 v; std::string h; while (is >> h) v += char32_t(std::stoul(h, nullptr, 16));
				m[u32(n.begin(), n.end())] = v;
			}
			if (m.size() < 2231) { std::fprintf(stderr, "entities.txt missing\n"); std::exit(2); }
			return m; }();
		return m;
	}
	inline u32 normalise(u32 const& s) { u32 o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; } else o += s[i]; return o; }
	inline bool ws(char32_t c) { return c == 9 || c == 10 || c == 12 || c == 32; }
	inline bool up(char32_t c) { return c >= 'A' && c <= 'Z'; }
	inline bool lo(char32_t c) { return c >= 'a' && c <= 'z'; }
	inline bool al(char32_t c) { return up(c) || lo(c); }
	inline bool dg(char32_t c) { return c >= '0' && c <= '9'; }
	inline char32_t lower(char32_t c) { return up(c) ? c + 32 : c; }
	inline int hexv(char32_t c) { return dg(c) ? int(c - '0') : (c >= 'a' && c <= 'f') ? int(c - 'a' + 10) : (c >= 'A' && c <= 'F') ? int(c - 'A' + 10) : -1; }

	struct lexer
	{
		static constexpr char32_t END = 0xFFFFFFFF;
		u32 s; size_t p = 0; mode m = DATA; u32 last_start;
		std::function<void(token&)> sink; std::function<bool()> foreign = [] { return false; };
		// what the repository's own tests pin instead (a known finding): CDATA sections inside of HTML elements, comments in foreign ones
		bool cdata_seen = false, pinned = false; std::function<bool()> in_html = [] { return false; };
		bool done = false;
		explicit lexer(u32 in) : s(std::move(in)) {}
		char32_t at(size_t k = 0) const { return p + k < s.size() ? s[p + k] : END; }
		bool look(char const* w, bool ci = false) const
		{
			for (size_t i = 0; w[i]; ++i) { char32_t c = at(i); if ((ci && c != END ? lower(c) : c) != char32_t(w[i])) return false; }
			return true;
		}
		void ch(char32_t c) { token t; t.k = token::CHAR; t.c = c; sink(t); }
		void chs(u32 const& t) { for (char32_t c : t) ch(c); }
		void eof() { if (done) return; done = true; token t; t.k = token::EOFT; sink(t); }
		static char32_t nul(char32_t c) { return c == 0 ? 0xFFFD : c; }
		// "&" has been consumed. Returns the text the reference stands for.
		u32 reference(bool attr)
		{
			if (at() == '#')
			{
				size_t q = p; ++p; int base = 10; if (at() == 'x' || at() == 'X') { base = 16; ++p; }
				auto isd = [&](char32_t c) { return c != END && (base == 16 ? hexv(c) >= 0 : dg(c)); };
				if (!isd(at())) { u32 t = U"&" + s.substr(q, p - q); return t; }
				uint64_t v = 0; while (isd(at())) { v = v * base + unsigned(hexv(at())); if (v > 0x110000) v = 0x110000; ++p; }
				if (at() == ';') ++p;
				if (v == 0 || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) v = 0xFFFD;
				static std::map<uint64_t, char32_t> const w = { {0x80,0x20AC},{0x82,0x201A},{0x83,0x0192},{0x84,0x201E},{0x85,0x2026},{0x86,0x2020},{0x87,0x2021},{0x88,0x02C6},{0x89,0x2030},{0x8A,0x0160},{0x8B,0x2039},{0x8C,0x0152},{0x8E,0x017D},{0x91,0x2018},{0x92,0x2019},{0x93,0x201C},{0x94,0x201D},{0x95,0x2022},{0x96,0x2013},{0x97,0x2014},{0x98,0x02DC},{0x99,0x2122},{0x9A,0x0161},{0x9B,0x203A},{0x9C,0x0153},{0x9E,0x017E},{0x9F,0x0178} };
				auto it = w.find(v); if (it != w.end()) v = it->second;
				return u32(1, char32_t(v));
			}
			auto& e = entities(); u32 best; u32 cur;
			for (size_t i = 0; i < 33 && at(i) != END; ++i)
			{
				cur += at(i); auto it = e.lower_bound(cur);
				if (it == e.end() || it->first.compare(0, cur.size(), cur)) break;
				if (it->first == cur) best = cur;
			}
			if (best.empty()) return U"&";
			p += best.size();
			if (attr && best.back() != ';' && (at() == '=' || al(at()) || dg(at()))) return U"&" + best;
			return e.at(best);
		}
		// the rest of a tag, after its name's first letter was seen at p
		void tag(bool end)
		{
			token t; t.k = end ? token::END : token::START;
			while (!ws(at()) && at() != '/' && at() != '>') { if (at() == END) return eof(); t.name += nul(lower(at())); ++p; }
			attributes(t);
		}
		void attributes(token& t)
		{
			for (;;)
			{
				while (ws(at())) ++p;
				if (at() == END) return eof();
				if (at() == '/')
				{
					++p;
					if (at() == END) return eof();
					if (at() == '>') { t.flag = true; break; }
					continue;
				}
				if (at() == '>') break;
				u32 n, v;
				if (at() == '=') { n = U"="; ++p; }
				while (at() != END && !ws(at()) && at() != '/' && at() != '>' && at() != '=') { n += nul(lower(at())); ++p; }
				while (ws(at())) ++p;
				if (at() == END) return eof();
				if (at() == '=')
				{
					++p; while (ws(at())) ++p;
					char32_t q = at();
					if (q == '"' || q == '\'')
					{
						++p;
						while (at() != q) { if (at() == END) return eof(); char32_t c = at(); ++p; if (c == '&') v += reference(true); else v += nul(c); }
						++p;
					}
					else while (!ws(at()) && at() != '>') { if (at() == END) return eof(); char32_t c = at(); ++p; if (c == '&') v += reference(true); else v += nul(c); }
				}
				bool dup = false; for (auto& a : t.attrs) dup = dup || a.first == n;
				if (!dup) t.attrs.emplace_back(n, v);
			}
			++p; m = DATA;
			if (t.k == token::START) last_start = t.name;
			sink(t);
		}
		void comment_out(u32 d) { token t; t.k = token::COMMENT; t.name = std::move(d); sink(t); }
		void bogus() { u32 d; while (at() != END && at() != '>') { d += nul(at()); ++p; } if (at() == '>') ++p; comment_out(d); }
		void comment()   // "<!--" consumed
		{
			if (at() == '>') { ++p; return comment_out(U""); }
			if (at() == '-' && at(1) == '>') { p += 2; return comment_out(U""); }
			size_t b = p;
			auto text = [&](size_t e) { u32 d = s.substr(b, e - b); for (auto& c : d) c = nul(c); comment_out(d); };
			for (; at() != END; ++p)
			{
				if (look("-->")) { text(p); p += 3; return; }
				if (look("--!>")) { text(p); p += 4; return; }
			}
			// end of file: a trailing "-", "--" or "--!" that could still have started a terminator is dropped
			size_t e = s.size();
			auto ends = [&](char const* w) { size_t n = 0; while (w[n]) ++n; if (e - b < n) return false; for (size_t i = 0; i < n; ++i) if (s[e - n + i] != char32_t(w[i])) return false; return true; };
			if (ends("--!")) e -= 3; else if (ends("--")) e -= 2; else if (ends("-")) e -= 1;
			text(e);
		}
		void doctype()
		{
			token t; t.k = token::DOCTYPE;
			auto out = [&] { sink(t); };
			auto quirk_eof = [&] { t.flag = true; out(); eof(); };
			while (ws(at())) ++p;
			if (at() == END) return quirk_eof();
			if (at() == '>') { t.flag = true; ++p; return out(); }
			while (!ws(at()) && at() != '>') { if (at() == END) return quirk_eof(); t.name += nul(lower(at())); ++p; }
			auto rest = [&] { while (at() != END && at() != '>') ++p; bool e = at() == END; if (!e) ++p; out(); if (e) eof(); };   // bogus doctype
			auto quoted = [&](u32& id) -> int
			{
				char32_t q = at(); ++p;
				for (;;)
				{
					if (at() == END) { quirk_eof(); return 1; }
					if (at() == q) { ++p; return 0; }
					if (at() == '>') { ++p; t.flag = true; out(); return 1; }
					id += nul(at()); ++p;
				}
			};
			while (ws(at())) ++p;
			if (at() == END) return quirk_eof();
			if (at() == '>') { ++p; return out(); }
			bool pub = look("public", true), sys = look("system", true);
			if (!pub && !sys) { t.flag = true; return rest(); }
			p += 6;
			if (pub)
			{
				while (ws(at())) ++p;
				if (at() == END) return quirk_eof();
				if (at() == '>') { ++p; t.flag = true; return out(); }
				if (at() != '"' && at() != '\'') { t.flag = true; return rest(); }
				t.has_pub = true; if (quoted(t.pub)) return;
				while (ws(at())) ++p;
				if (at() == END) return quirk_eof();
				if (at() == '>') { ++p; return out(); }
				if (at() != '"' && at() != '\'') { t.flag = true; return rest(); }
			}
			else
			{
				while (ws(at())) ++p;
				if (at() == END) return quirk_eof();
				if (at() == '>') { ++p; t.flag = true; return out(); }
				if (at() != '"' && at() != '\'') { t.flag = true; return rest(); }
			}
			t.has_sys = true; if (quoted(t.sys)) return;
			while (ws(at())) ++p;
			if (at() == END) return quirk_eof();
			if (at() == '>') { ++p; return out(); }
			rest();
		}
		// an end tag at "</" that closes the current raw element? (p at '<')
		bool closes()
		{
			if (at(1) != '/' || last_start.empty()) return false;
			for (size_t i = 0; i < last_start.size(); ++i) { char32_t c = at(2 + i); if (c == END || !al(c) || lower(c) != last_start[i]) return false; }
			char32_t c = at(2 + last_start.size()); return c == '/' || c == '>' || ws(c);
		}
		void data()
		{
			char32_t c = at();
			if (c == '&') { ++p; return chs(reference(false)); }
			if (c != '<') { ++p; return ch(c); }
			++p; c = at();
			if (c == '!')
			{
				++p;
				if (look("--")) { p += 2; return comment(); }
				if (look("doctype", true)) { p += 7; return doctype(); }
				if (look("[CDATA[")) { cdata_seen = true; if (pinned ? in_html() : foreign()) { p += 7; m = CDATA; return; } }
				return bogus();
			}
			if (c == '/')
			{
				++p; c = at();
				if (c == END) { ch('<'); ch('/'); return eof(); }
				if (al(c)) return tag(true);
				if (c == '>') { ++p; return; }
				return bogus();
			}
			if (c != END && al(c)) return tag(false);
			if (c == '?') return bogus();
			ch('<'); if (c == END) eof();
		}
		// script data: 0 plain, 1 escaped, 2 double escaped
		void script()
		{
			int st = 0; int dashes = 0;
			for (;;)
			{
				char32_t c = at();
				if (c == END) return eof();
				if (c == '<')
				{
					if (st < 2 && closes()) { p += 2; return tag(true); }
					if (st == 0 && look("<!--")) { ch('<'); ch('!'); ch('-'); ch('-'); p += 4; st = 1; dashes = 2; continue; }
					// "<script" + terminator enters double escaping, "</script" + terminator leaves it
					size_t q = st == 2 ? 2 : 1; bool cand = st == 1 ? (at(1) != END && al(at(1))) : st == 2 ? at(1) == '/' : false;
					if (cand)
					{
						u32 w; size_t i = q; while (at(i) != END && al(at(i))) { w += lower(at(i)); ++i; }
						char32_t x = at(i);
						if (x != END && (ws(x) || x == '/' || x == '>')) { for (size_t j = 0; j <= i; ++j) ch(at(j)); p += i + 1; if (w == U"script") st = 3 - st; dashes = 0; continue; }
						// not a boundary: the letters are ordinary text
						for (size_t j = 0; j < i; ++j) ch(at(j));
						p += i; dashes = 0; continue;
					}
					ch('<'); ++p; dashes = 0; continue;
				}
				++p; ch(nul(c));
				if (st)
				{
					if (c == '-') { if (dashes < 2) ++dashes; }
					else { if (c == '>' && dashes == 2) st = 0; dashes = 0; }
				}
			}
		}
		void step()
		{
			if (m == DATA) { if (at() == END) return eof(); return data(); }
			if (m == CDATA)
			{
				if (at() == END) return eof();
				if (look("]]>")) { p += 3; m = DATA; return; }
				ch(at()); ++p; return;
			}
			if (m == SCRIPT) return script();
			char32_t c = at();
			if (c == END) return eof();
			if (m == PLAINTEXT) { ch(nul(c)); ++p; return; }
			if (c == '<' && closes()) { p += 2; return tag(true); }
			++p;
			if (c == '&' && m == RCDATA) return chs(reference(false));
			ch(nul(c));
		}
		void run() { while (!done) step(); }
	};
	// canonical text of a token sequence
	struct shower
	{
		std::string o; bool text = false;
		void brk() { if (text) { o += "' "; text = false; } }
		void add(token const& t)
		{
			if (t.k == token::CHAR) { if (!text) { o += '\''; text = true; } o += utf8(u32(1, t.c)); return; }
			brk();
			switch (t.k)
			{
			case token::DOCTYPE: o += "DOCTYPE(" + utf8(t.name) + "|" + utf8(t.pub) + "|" + utf8(t.sys) + (t.flag ? "|quirks" : "") + ") "; break;
			case token::START: case token::END:
				o += (t.k == token::END ? "</" : "<") + utf8(t.name); for (auto& a : t.attrs) o += " " + utf8(a.first) + "={" + utf8(a.second) + "}";
				if (t.flag) o += " /"; o += "> "; break;
			case token::COMMENT: o += "<!--" + utf8(t.name) + "--> "; break;
			case token::EOFT: o += "EOF "; break;
			default: break;
			}
		}
		std::string str() { brk(); return o; }
	};
}
