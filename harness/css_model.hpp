// Reference CSS Syntax Level 3 tokenizer and parser (written from the specification, index based, canonical text output).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <optional>
namespace cssref
{
using std::string; using std::u32string; using std::vector; using std::optional;
enum K { IDENT, FUNC, AT, HASH, STR, BADSTR, URL, BADURL, DELIM, NUM, PERCENT, DIM, WS, CDO, CDC, COLON, SEMI, COMMA, LSQ, RSQ, LP, RP, LC, RC, EOFT };
struct tok { K k; u32string s; double n = 0; bool integer = true, id = false; };
inline string u8(u32string const& s)
{
	string o; char b[12];
	for (char32_t c : s) if (c > 0x20 && c < 0x7F && c != '\\') o += char(c); else { snprintf(b, sizeof b, "\\%x ", unsigned(c)); o += b; }
	return o;
}
inline string num(double d) { char b[40]; if (d == 0) d = 0; snprintf(b, sizeof b, "%.9g", d); return b; }
inline string show(tok const& t)
{
	switch (t.k)
	{
	case IDENT: return "ident<" + u8(t.s) + ">"; case FUNC: return "function<" + u8(t.s) + ">"; case AT: return "at<" + u8(t.s) + ">";
	case HASH: return string(t.id ? "hash-id<" : "hash<") + u8(t.s) + ">"; case STR: return "string<" + u8(t.s) + ">"; case BADSTR: return "bad-string";
	case URL: return "url<" + u8(t.s) + ">"; case BADURL: return "bad-url"; case DELIM: return "delim<" + u8(t.s) + ">";
	case NUM: return string(t.integer ? "int<" : "number<") + num(t.n) + ">"; case PERCENT: return "percent<" + num(t.n) + ">";
	case DIM: return string(t.integer ? "dim-int<" : "dim<") + num(t.n) + "," + u8(t.s) + ">";
	case WS: return "ws"; case CDO: return "CDO"; case CDC: return "CDC"; case COLON: return ":"; case SEMI: return ";"; case COMMA: return ",";
	case LSQ: return "["; case RSQ: return "]"; case LP: return "("; case RP: return ")"; case LC: return "{"; case RC: return "}"; case EOFT: return "EOF";
	}
	return "?";
}
inline u32string preprocess(u32string const& in)
{
	u32string o;
	for (size_t i = 0; i < in.size(); ++i)
	{
		char32_t c = in[i];
		if (c == '\r') { if (i + 1 < in.size() && in[i + 1] == '\n') ++i; c = '\n'; }
		else if (c == '\f') c = '\n';
		else if (c == 0 || (c >= 0xD800 && c <= 0xDFFF)) c = 0xFFFD;
		o += c;
	}
	return o;
}
struct lexer
{
	u32string in; size_t p = 0;
	static constexpr char32_t END = 0xFFFFFFFF;
	explicit lexer(u32string s) : in(std::move(s)) {}
	char32_t at(size_t k) const { return k < in.size() ? in[k] : END; }
	static bool digit(char32_t c) { return c >= '0' && c <= '9'; }
	static bool hex(char32_t c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
	static bool name_start(char32_t c) { return c != END && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c >= 0x80); }
	static bool name(char32_t c) { return name_start(c) || digit(c) || c == '-'; }
	static bool ws(char32_t c) { return c == ' ' || c == '\t' || c == '\n'; }
	static bool nonprint(char32_t c) { return c <= 8 || c == 0xB || (c >= 0xE && c <= 0x1F) || c == 0x7F; }
	// note: a backslash at the end of the input is a valid escape (only a newline makes it invalid)
	bool escape(size_t k) const { return at(k) == '\\' && at(k + 1) != '\n'; }
	bool ident_starts(size_t k) const
	{
		if (at(k) == '-') return name_start(at(k + 1)) || at(k + 1) == '-' || escape(k + 1);
		if (at(k) == '\\') return escape(k);
		return name_start(at(k));
	}
	bool number_starts(size_t k) const
	{
		if (at(k) == '+' || at(k) == '-') ++k;
		return digit(at(k)) || (at(k) == '.' && digit(at(k + 1)));
	}
	char32_t eat_escape()   // p behind the backslash
	{
		if (p >= in.size()) return 0xFFFD;
		if (!hex(in[p])) return in[p++];
		unsigned v = 0;
		for (int i = 0; i < 6 && hex(at(p)); ++i, ++p) v = v * 16 + unsigned(digit(in[p]) ? in[p] - '0' : (in[p] | 32) - 'a' + 10);
		if (ws(at(p))) ++p;
		return v == 0 || (v >= 0xD800 && v <= 0xDFFF) || v > 0x10FFFF ? 0xFFFD : char32_t(v);
	}
	u32string eat_name()
	{
		u32string s;
		for (;;)
			if (name(at(p))) s += in[p++];
			else if (escape(p)) { ++p; s += eat_escape(); }
			else return s;
	}
	void eat_bad_url()
	{
		while (p < in.size()) { if (in[p] == ')') { ++p; return; } if (escape(p)) { ++p; eat_escape(); } else ++p; }
	}
	tok eat_url()
	{
		u32string s;
		while (ws(at(p))) ++p;
		for (;;)
		{
			char32_t c = at(p);
			if (c == END) return { URL, s };
			if (c == ')') { ++p; return { URL, s }; }
			if (ws(c)) { while (ws(at(p))) ++p; if (at(p) == END) return { URL, s }; if (at(p) == ')') { ++p; return { URL, s }; } eat_bad_url(); return { BADURL, U"" }; }
			if (c == '"' || c == '\'' || c == '(' || nonprint(c)) { eat_bad_url(); return { BADURL, U"" }; }
			if (c == '\\') { if (!escape(p)) { eat_bad_url(); return { BADURL, U"" }; } ++p; s += eat_escape(); }
			else { s += c; ++p; }
		}
	}
	tok eat_ident_like()
	{
		u32string s = eat_name();
		if (at(p) != '(') return { IDENT, s };
		++p;
		if (s.size() == 3 && (s[0] | 32) == 'u' && (s[1] | 32) == 'r' && (s[2] | 32) == 'l')
		{
			while (ws(at(p)) && ws(at(p + 1))) ++p;
			char32_t q = ws(at(p)) ? at(p + 1) : at(p);
			if (q != '"' && q != '\'') return eat_url();
		}
		return { FUNC, s };
	}
	tok eat_numeric()
	{
		size_t b = p; bool integer = true;
		if (at(p) == '+' || at(p) == '-') ++p;
		while (digit(at(p))) ++p;
		if (at(p) == '.' && digit(at(p + 1))) { integer = false; ++p; while (digit(at(p))) ++p; }
		if (at(p) == 'e' || at(p) == 'E')
		{
			size_t q = p + 1; if (at(q) == '+' || at(q) == '-') ++q;
			if (digit(at(q))) { integer = false; p = q; while (digit(at(p))) ++p; }
		}
		string r; for (size_t i = b; i < p; ++i) r += char(in[i]);
		double v = strtod(r.c_str() + (r[0] == '+'), nullptr);
		if (ident_starts(p)) return { DIM, eat_name(), v, integer };
		if (at(p) == '%') { ++p; return { PERCENT, U"", v, integer }; }
		return { NUM, U"", v, integer };
	}
	tok eat_string(char32_t q)
	{
		u32string s;
		for (;;)
		{
			char32_t c = at(p);
			if (c == END) return { STR, s };
			if (c == q) { ++p; return { STR, s }; }
			if (c == '\n') return { BADSTR, U"" };
			if (c == '\\')
			{
				++p;
				if (at(p) == END) continue;
				if (at(p) == '\n') ++p; else s += eat_escape();
				continue;
			}
			s += c; ++p;
		}
	}
	tok next()
	{
		while (at(p) == '/' && at(p + 1) == '*')
		{
			size_t e = in.find(U"*/", p + 2);
			p = e == u32string::npos ? in.size() : e + 2;
		}
		char32_t c = at(p);
		if (c == END) return { EOFT, U"" };
		if (ws(c)) { while (ws(at(p))) ++p; return { WS, U"" }; }
		auto one = [&](K k) { ++p; return tok{ k, U"" }; };
		auto delim = [&] { ++p; return tok{ DELIM, u32string(1, c) }; };
		switch (c)
		{
		case '"': case '\'': ++p; return eat_string(c);
		case '#': if (name(at(p + 1)) || escape(p + 1)) { ++p; tok t{ HASH, U"" }; t.id = ident_starts(p); t.s = eat_name(); return t; } return delim();
		case '(': return one(LP); case ')': return one(RP); case '[': return one(LSQ); case ']': return one(RSQ); case '{': return one(LC); case '}': return one(RC);
		case ',': return one(COMMA); case ':': return one(COLON); case ';': return one(SEMI);
		case '+': case '.': return number_starts(p) ? eat_numeric() : delim();
		case '-':
			if (number_starts(p)) return eat_numeric();
			if (at(p + 1) == '-' && at(p + 2) == '>') { p += 3; return { CDC, U"" }; }
			return ident_starts(p) ? eat_ident_like() : delim();
		case '<': if (in.compare(p, 4, U"<!--") == 0) { p += 4; return { CDO, U"" }; } return delim();
		case '@': if (ident_starts(p + 1)) { ++p; return { AT, eat_name() }; } return delim();
		case '\\': return escape(p) ? eat_ident_like() : delim();
		}
		if (digit(c)) return eat_numeric();
		if (name_start(c)) return eat_ident_like();
		return delim();
	}
	vector<tok> all() { vector<tok> v; for (;;) { v.push_back(next()); if (v.back().k == EOFT) { v.pop_back(); return v; } } }
};
inline vector<tok> tokens(u32string const& in) { return lexer(preprocess(in)).all(); }

// ---- parser: canonical text of the parsed objects
struct cv { K k; string text; u32string s; };   // k: token kind; FUNC function, LP/LSQ/LC simple blocks
struct parser
{
	vector<tok> t; size_t p = 0;
	explicit parser(vector<tok> v) : t(std::move(v)) {}
	tok const& at() const { static tok const e{ EOFT, U"" }; return p < t.size() ? t[p] : e; }
	static string join(vector<cv> const& v) { string s; for (auto& c : v) s += c.text + " "; return s; }
	cv component()
	{
		tok const& c = at();
		if (c.k == EOFT) return { EOFT, "EOF", U"" };
		if (c.k == LP || c.k == LSQ || c.k == LC)
		{
			K open = c.k, close = open == LP ? RP : open == LSQ ? RSQ : RC;
			string s = open == LP ? "( " : open == LSQ ? "[ " : "{ "; ++p;
			while (at().k != EOFT && at().k != close) s += component().text + " ";
			if (at().k == close) ++p;
			return { open, s + "}", U"" };
		}
		if (c.k == FUNC)
		{
			string s = "fn<" + u8(c.s) + "( "; ++p;
			while (at().k != EOFT && at().k != RP) s += component().text + " ";
			if (at().k == RP) ++p;
			return { FUNC, s + ")>", U"" };
		}
		cv r{ c.k, show(c), c.s }; ++p; return r;
	}
	string at_rule()
	{
		string s = "@" + u8(at().s) + " "; ++p;
		for (;;)
		{
			if (at().k == SEMI) { ++p; return s + ";"; }
			if (at().k == EOFT) return s + ";";
			bool b = at().k == LC;
			s += component().text + " ";
			if (b) return s;
		}
	}
	optional<string> qualified()
	{
		string s = "rule ";
		for (;;)
		{
			if (at().k == EOFT) return {};
			bool b = at().k == LC;
			s += component().text + " ";
			if (b) return s;
		}
	}
	vector<string> rules(bool top)
	{
		vector<string> v;
		for (;;) switch (at().k)
		{
		case WS: ++p; break;
		case EOFT: return v;
		case AT: v.push_back(at_rule()); break;
		case CDO: case CDC: if (top) { ++p; break; } [[fallthrough]];
		default: if (auto q = qualified()) v.push_back(*q);
		}
	}
	static optional<string> declaration(vector<cv> v, u32string const& name)   // v: what follows the name
	{
		size_t i = 0;
		while (i < v.size() && v[i].k == WS) ++i;
		if (i == v.size() || v[i].k != COLON) return {};
		++i;
		while (i < v.size() && v[i].k == WS) ++i;
		v.erase(v.begin(), v.begin() + i);
		size_t last[2]; int n = 0;
		for (size_t k = v.size(); k-- > 0 && n < 2;) if (v[k].k != WS) last[n++] = k;
		bool imp = false;
		if (n == 2 && v[last[0]].k == IDENT && v[last[1]].k == DELIM && v[last[1]].s == U"!")
		{
			u32string l = v[last[0]].s; for (auto& c : l) if (c >= 'A' && c <= 'Z') c += 32;
			if (l == U"important") { imp = true; v.erase(v.begin() + last[0]); v.erase(v.begin() + last[1]); }
		}
		while (!v.empty() && v.back().k == WS) v.pop_back();
		return "decl<" + u8(name) + ": " + join(v) + (imp ? "!important>" : ">");
	}
	vector<string> declarations()
	{
		vector<string> v;
		for (;;) switch (at().k)
		{
		case WS: case SEMI: ++p; break;
		case EOFT: return v;
		case AT: v.push_back(at_rule()); break;
		case IDENT:
		{
			u32string name = at().s; ++p; vector<cv> l;
			while (at().k != SEMI && at().k != EOFT) l.push_back(component());
			if (auto d = declaration(l, name)) v.push_back(*d);
			break;
		}
		default: while (at().k != SEMI && at().k != EOFT) component();
		}
	}
	void skip() { while (at().k == WS) ++p; }
	string parse_rule()
	{
		skip(); if (at().k == EOFT) return "error";
		string r;
		if (at().k == AT) r = at_rule(); else if (auto q = qualified()) r = *q; else return "error";
		skip(); return at().k == EOFT ? r : "error";
	}
	string parse_declaration()
	{
		skip(); if (at().k != IDENT) return "error";
		u32string name = at().s; ++p; vector<cv> l;
		while (at().k != EOFT) l.push_back(component());
		auto d = declaration(l, name); return d ? *d : "error";
	}
	string parse_component()
	{
		skip(); if (at().k == EOFT) return "error";
		string r = component().text; skip(); return at().k == EOFT ? r : "error";
	}
	vector<string> components() { vector<string> v; while (at().k != EOFT) v.push_back(component().text); return v; }
	vector<vector<string>> comma_lists()
	{
		vector<vector<string>> v(1);
		while (at().k != EOFT) { if (at().k == COMMA) { ++p; v.emplace_back(); } else v.back().push_back(component().text); }
		return v;
	}
};
}
