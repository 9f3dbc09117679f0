// Reference Selectors Level 4 parser (canonical form), on the reference CSS tokenizer.
#pragma once
#include "css_model.hpp"
#include <set>
namespace selref
{
using namespace cssref;
struct simple
{
	enum { TYPE, UNIVERSAL, ID, CLASS, ATTR, PCLASS, PELEM } kind;
	bool has_prefix = false; u32string prefix, name;      // TYPE, UNIVERSAL, ATTR (name also ID, CLASS, pseudo identifier)
	char32_t op = 0, mod = 0; u32string value;            // ATTR
	string fn;                                            // functional pseudo
};
struct part { char32_t comb; vector<simple> v; };         // comb: combinator before this compound (0 for the first)
using complex = vector<part>;
inline string show(simple const& s)
{
	string p = s.has_prefix ? u8(s.prefix) + "|" : "";
	switch (s.kind)
	{
	case simple::TYPE: return "type " + p + u8(s.name); case simple::UNIVERSAL: return "any " + p + "*";
	case simple::ID: return "id " + u8(s.name); case simple::CLASS: return "class " + u8(s.name);
	case simple::ATTR: return "attr " + p + u8(s.name) + " " + string(1, s.op ? char(s.op) : '-') + "'" + u8(s.value) + "'" + string(1, s.mod ? char(s.mod) : '-');
	case simple::PCLASS: return "pc " + (s.fn.empty() ? u8(s.name) : s.fn); case simple::PELEM: return "pe " + (s.fn.empty() ? u8(s.name) : s.fn);
	}
	return "?";
}
inline string show(complex const& c) { string r; for (auto& p : c) { if (p.comb) r += string(" [") + char(p.comb) + "] "; r += "{"; for (auto& s : p.v) r += show(s) + ";"; r += "}"; } return r; }
struct parser
{
	cssref::parser P; std::set<u32string> ns; bool bad = false;
	parser(vector<tok> v, std::set<u32string> n) : P(std::move(v)), ns(std::move(n)) {}
	tok at(size_t k = 0) const { return P.p + k < P.t.size() ? P.t[P.p + k] : tok{ EOFT, U"" }; }
	static bool delim(tok const& t, char32_t c) { return t.k == DELIM && t.s == u32string(1, c); }
	bool ws() { bool r = false; while (at().k == WS) { ++P.p; r = true; } return r; }
	static bool legacy(u32string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s == U"before" || s == U"after" || s == U"first-line" || s == U"first-letter"; }
	// name with optional prefix at k in t; star: '*' may stand for the name. Returns number of tokens, 0 none, -1 undeclared prefix
	int wq(vector<tok> const& t, size_t k, bool star, simple& s) const
	{
		auto g = [&](size_t i) { return i < t.size() ? t[i] : tok{ EOFT, U"" }; };
		auto is_name = [&](tok const& x) { return x.k == IDENT || (star && delim(x, '*')); };
		auto set = [&](tok const& x) { s.kind = x.k == IDENT ? simple::TYPE : simple::UNIVERSAL; s.name = x.k == IDENT ? x.s : U""; };
		size_t b = delim(g(k), '|') ? 0 : (g(k).k == IDENT || delim(g(k), '*')) ? 1 : 99;
		if (b != 99 && delim(g(k + b), '|') && is_name(g(k + b + 1)))
		{
			s.has_prefix = true; s.prefix = b == 0 ? U"" : g(k).k == IDENT ? g(k).s : U"*"; set(g(k + b + 1));
			if (b == 1 && g(k).k == IDENT && !ns.count(g(k).s)) return -1;
			return int(b + 2);
		}
		if (!is_name(g(k))) return 0;
		set(g(k)); return 1;
	}
	bool attribute(simple& s)   // behind the '['
	{
		vector<tok> v; bool nested = false;
		while (at().k != EOFT && at().k != RSQ)
		{
			K k = at().k;
			if (k == LP || k == LSQ || k == LC || k == FUNC) { P.component(); nested = true; }
			else { v.push_back(at()); ++P.p; }
		}
		if (at().k == RSQ) ++P.p;
		if (nested) return false;
		size_t i = 0; auto g = [&](size_t k) { return k < v.size() ? v[k] : tok{ EOFT, U"" }; }; auto skip = [&] { while (g(i).k == WS) ++i; };
		skip(); int n = wq(v, i, false, s); if (n <= 0) return false; i += n; s.kind = simple::ATTR; skip();
		if (i == v.size()) return true;
		if (delim(g(i), '=')) { s.op = '='; ++i; }
		else { for (char32_t c : U"~|^$*") if (c && delim(g(i), c) && delim(g(i + 1), '=')) s.op = c; if (!s.op) return false; i += 2; }
		skip(); if (g(i).k != IDENT && g(i).k != STR) return false;
		s.value = g(i++).s; skip();
		if (g(i).k == IDENT && g(i).s.size() == 1 && ((g(i).s[0] | 32) == 'i' || (g(i).s[0] | 32) == 's')) { s.mod = g(i).s[0] | 32; ++i; skip(); }
		return i == v.size();
	}
	bool pseudo(simple& s) { if (at().k == IDENT) { s.name = at().s; ++P.p; return true; } if (at().k == FUNC) { s.fn = P.component().text; return true; } return false; }
	vector<simple> compound()   // empty: none here; bad set: invalid
	{
		vector<simple> v; simple s{};
		int n = wq(P.t, P.p, true, s);
		if (n < 0) { bad = true; return v; }
		if (n) { P.p += n; v.push_back(s); }
		bool elem = false;
		for (;;)
		{
			s = simple{};
			bool colon = at().k == COLON, dbl = colon && at(1).k == COLON, leg = colon && at(1).k == IDENT && legacy(at(1).s);
			if (dbl || leg) { s.kind = simple::PELEM; P.p += dbl ? 2 : 1; if (!pseudo(s)) { bad = true; return v; } elem = true; }
			else if (colon) { s.kind = simple::PCLASS; ++P.p; if (!pseudo(s)) { bad = true; return v; } }
			else if (elem) return v;
			else if (at().k == HASH) { if (!at().id) { bad = true; return v; } s.kind = simple::ID; s.name = at().s; ++P.p; }
			else if (delim(at(), '.')) { if (at(1).k != IDENT) { bad = true; return v; } s.kind = simple::CLASS; s.name = at(1).s; P.p += 2; }
			else if (at().k == LSQ) { ++P.p; if (!attribute(s)) { bad = true; return v; } }
			else return v;
			v.push_back(s);
		}
	}
	optional<vector<complex>> list()
	{
		vector<complex> r;
		for (;;)
		{
			complex c; char32_t comb = 0;
			ws();
			for (;;)
			{
				auto v = compound(); if (bad || v.empty()) return {};
				c.push_back({ comb, v });
				bool w = ws();
				if (at().k == COMMA || at().k == EOFT) break;
				comb = w ? U' ' : 0;
				for (char32_t x : { U'>', U'+', U'~' }) if (delim(at(), x)) { comb = x; ++P.p; ws(); goto next; }
				if (delim(at(), '|') && delim(at(1), '|')) { comb = '|'; P.p += 2; ws(); goto next; }
				if (!comb) return {};
			next:;
			}
			r.push_back(c);
			if (at().k == EOFT) return r;
			++P.p;
		}
	}
};
inline optional<vector<complex>> parse(u32string const& in, std::set<u32string> const& ns) { return parser(tokens(in), ns).list(); }
}
