// Canonical text of the library's CSS objects, in the notation of css_model.hpp.
#pragma once
#include "css_model.hpp"
#include <wordring/wwwc/css_syntax/parsing.hpp>
namespace csslib
{
using namespace wordring::wwwc::css;
using std::string;
using N = syntax_primitive_name;
template <typename P> inline cssref::tok token(P const& t)
{
	using namespace cssref;
	auto integer = [](number_type_flag_name f) { return f == number_type_flag_name::integer; };
	switch (t.type())
	{
	case N::IdentToken: return { IDENT, t.template get<ident_token>().m_value };
	case N::AtKeywordToken: return { AT, t.template get<at_keyword_token>().m_value };
	case N::HashToken: { auto& h = t.template get<hash_token>(); tok r{ HASH, h.m_value }; r.id = h.m_type_flag == hash_token::type_flag_name::id; return r; }
	case N::StringToken: return { STR, t.template get<string_token>().m_value };
	case N::BadStringToken: return { BADSTR, U"" };
	case N::UrlToken: return { URL, t.template get<url_token>().m_value };
	case N::BadUrlToken: return { BADURL, U"" };
	case N::DelimToken: return { DELIM, std::u32string(1, t.template get<delim_token>().m_value) };
	case N::NumberToken: { auto& n = t.template get<number_token>(); return { NUM, U"", n.m_value, integer(n.m_type_flag) }; }
	case N::PercentageToken: return { PERCENT, U"", t.template get<percentage_token>().m_value };
	case N::DimensionToken: { auto& n = t.template get<dimension_token>(); return { DIM, n.m_unit, n.m_value, integer(n.m_type_flag) }; }
	case N::WhitespaceToken: return { WS, U"" };
	case N::CdoToken: return { CDO, U"" }; case N::CdcToken: return { CDC, U"" }; case N::ColonToken: return { COLON, U"" };
	case N::SemicolonToken: return { SEMI, U"" }; case N::CommaToken: return { COMMA, U"" };
	case N::CloseSquareToken: return { RSQ, U"" }; case N::CloseParenToken: return { RP, U"" }; case N::CloseCurlyToken: return { RC, U"" };
	case N::EofToken: return { EOFT, U"" };
	default: break;
	}
	if constexpr (std::is_same_v<P, syntax_primitive>) switch (t.type())
	{
	case N::FunctionToken: return { FUNC, t.template get<function_token>().m_value };
	case N::OpenSquareToken: return { LSQ, U"" }; case N::OpenParenToken: return { LP, U"" }; case N::OpenCurlyToken: return { LC, U"" };
	default: break;
	}
	return { DELIM, U"??" };
}
string show(component_value const& c);
inline string show(simple_block const& b)
{
	string s; s += char(b.m_associated_token); s += ' ';
	for (auto& c : b.m_value) s += show(c) + " ";
	return s + "}";
}
inline string show(function const& f)
{
	string s = "fn<" + cssref::u8(f.m_name) + "( ";
	for (auto& c : f.m_value) s += show(c) + " ";
	return s + ")>";
}
inline string show(component_value const& c)
{
	if (c.type() == N::Function) return show(c.get<function>());
	if (c.type() == N::SimpleBlock) return show(c.get<simple_block>());
	return cssref::show(token(c));
}
inline string show(declaration const& d)
{
	string s = "decl<" + cssref::u8(d.m_name) + ": ";
	for (auto& c : d.m_value) s += show(c) + " ";
	return s + (d.m_important_flag ? "!important>" : ">");
}
inline string show(syntax_primitive const& p)
{
	switch (p.type())
	{
	case N::AtRule:
	{
		auto& r = p.get<at_rule>(); string s = "@" + cssref::u8(r.m_name) + " ";
		for (auto& c : r.m_prelude) s += show(c) + " ";
		return r.m_block ? s + show(*r.m_block) + " " : s + ";";
	}
	case N::QualifiedRule:
	{
		auto& r = p.get<qualified_rule>(); string s = "rule ";
		for (auto& c : r.m_prelude) s += show(c) + " ";
		return s + show(r.m_block) + " ";
	}
	case N::Declaration: return show(p.get<declaration>());
	case N::Function: return show(p.get<function>());
	case N::SimpleBlock: return show(p.get<simple_block>());
	case N::ComponentValue: return show(p.get<component_value>());
	default: return cssref::show(token(p));
	}
}
}
