// C23: parse_selector accepts exactly the valid selector lists and represents them exactly
#include "mc.hpp"
#include "css_common.hpp"
#include "sel_model.hpp"
#include <wordring/wwwc/selectors/api.hpp>
#include <wordring/whatwg/infra/unicode.hpp>
using namespace std;
using selref::simple;
namespace css = wordring::wwwc::css;
static u32string w(string const& s) { return wordring::whatwg::encoding_cast<u32string>(u8string(s.begin(), s.end())); }
static void prefix(simple& s, optional<css::ns_prefix> const& p) { if (p) { s.has_prefix = true; s.prefix = p->string(); } }
static simple lib(css::pseudo_class_selector const& p, bool elem)
{
	simple s{}; s.kind = elem ? simple::PELEM : simple::PCLASS;
	if (p.type() == css::syntax_primitive_name::IdentToken) s.name = p.get<css::ident_token>().m_value; else s.fn = csslib::show(p.get<css::function>());
	return s;
}
static simple lib(css::type_selector const& t)
{
	simple s{};
	if (auto* n = get_if<css::wq_name>(&t.value())) { s.kind = simple::TYPE; s.name = n->name(); prefix(s, n->prefix()); }
	else { s.kind = simple::UNIVERSAL; prefix(s, get<1>(t.value())); }
	return s;
}
static simple lib(css::subclass_selector const& t)
{
	simple s{};
	if (auto* x = get_if<css::id_selector>(&t.value())) { s.kind = simple::ID; s.name = x->value(); }
	else if (auto* x = get_if<css::class_selector>(&t.value())) { s.kind = simple::CLASS; s.name = x->name(); }
	else if (auto* x = get_if<css::attribute_selector>(&t.value())) { s.kind = simple::ATTR; s.name = x->name(); prefix(s, x->prefix()); s.op = x->matcher(); s.value = x->value(); s.mod = x->modifier(); }
	else return lib(get<css::pseudo_class_selector>(t.value()), false);
	return s;
}
static selref::complex lib(css::complex_selector const& c)
{
	selref::complex r; char32_t comb = 0;
	for (auto& x : c.value())
		if (auto* k = get_if<css::combinator>(&x)) { if (comb) r.push_back({ comb, {} }); comb = k->type(); }
		else
		{
			selref::part p{ r.empty() ? comb : comb ? comb : U' ', {} }; comb = 0;
			for (auto& y : get<css::compound_selector>(x).value())
				if (auto* t = get_if<css::type_selector>(&y)) p.v.push_back(lib(*t));
				else if (auto* t = get_if<css::subclass_selector>(&y)) p.v.push_back(lib(*t));
				else if (auto* t = get_if<css::pseudo_element_selector>(&y)) p.v.push_back(lib(*t, true));
				else p.v.push_back(lib(get<css::pseudo_class_selector>(y), false));
			r.push_back(p);
		}
	return r;
}
static string check(string const& c)
{
	u32string in = w(c); mc::state();
	for (int k = 0; k < 3; ++k)
	{
		set<u32string> ns; css::parse_context ctx; mc::transition();
		if (k) ns.insert(U"n"), ctx.m_namespace_uris[U"n"] = U"http://n/";
		if (k == 2) ctx.m_namespace_uris[U""] = U"http://d/";     // a default namespace declares no prefix
		auto want = selref::parse(in, ns); css::selector_list sl = css::parse_selector(in, ctx);
		string m, r;
		if (want) for (auto& x : *want) m += selref::show(x) + " , "; else m = "invalid";
		if (sl) for (auto& x : sl.value().value()) r += selref::show(lib(x)) + " , "; else r = "invalid";
		mc::outcome(m);
		if (m != r) return "'" + mc::escape(c) + "'" + (k == 0 ? "" : k == 1 ? " with namespace n" : " with namespace n and a default namespace") + " parses as " + r + " not " + m;
		if (!sl == bool(sl)) return "operator! and operator bool agree for '" + mc::escape(c) + "'";
	}
	return "";
}
void mc_register()
{
	int X = mc::g_thorough ? 1 : 0;
	static const vector<string> t = { "a", "*", "|", "n", ".", "#i", "#1", "[", "]", "=", "~", "'s'", ":", "::b", "before", "f(a)", " ", ">", "+", "," };
	mc::add("tokens", [X](mc::enumerator& e) { mc::all_strings(e, t, 0, 4 + X); }, check);
	mc::add("attribute", [X](mc::enumerator& e) {
		mc::all_strings(e, { "a", "n", "*", "|", "=", "~", "^", "$", "'s'", "i", " ", "I" }, 0, 4 + X, "[", "]");
		mc::all_strings(e, { "b", "'s'", "''", "i", "S", "1", " ", "#c", "f()", "[", "]", "=", "\\69" }, 0, 3 + X, "[a=", "]"); mc::all_strings(e, { "b", "'s'", " ", "i", "s", "ii", ",", "]", "." }, 0, 4 + X, "[n|a|= "); }, check);
	mc::add("names", [X](mc::enumerator& e) { mc::all_strings(e, { "n", "*", "|", "a", " ", "u", ".c", "," }, 0, 6 + X); }, check);
	mc::add("pseudo", [X](mc::enumerator& e) { mc::all_strings(e, { ":", "root", "BEFORE", "first-line", "first-letter", "after", "f(a)", "before(a)", ".c", "a", " ", "x" }, 0, 4 + X); mc::all_strings(e, { ":r", "::b", ":before", "::After", ".c", "#i", "[a]", "a", " ", ":f(b)", "::f(b)" }, 5 - X, 5); mc::all_strings(e, { "a", " ", "b c", "(", ")", "[d]", ",", "#1" }, 0, 3 + X, ":f("); }, check);
	// what is long: compounds, chains, lists and arguments of up to 300 parts
	mc::add("long", [X](mc::enumerator& e) {
		vector<int> ns = { 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300 };
		mc::long_strings(e, { "a", ".c", "#i", "[a]", "[n|b='s' i]", ":r", "::b", ":f(x)", " ", " > ", ">", "+", ",", "*", "|", "n|d", "*|*" }, "", "", ns);
		mc::long_strings(e, { "a", " ", ".c", " a", ",a", ">a", " + .c", "~#i", ":before" }, "a", "", ns); mc::long_strings(e, { "a ", "a,", "a>", "*~", ".c+" }, "", "b", ns);
		mc::long_strings(e, { "a", "\\61 ", "-", "1" }, ".", "", ns); mc::long_strings(e, { "a", " ", "\\a " }, "[x='", "']", ns); mc::long_strings(e, { "a", "(", ")", "," }, ":f(", ")", ns); }, check, 60);
	mc::add("combinators", [X](mc::enumerator& e) { mc::all_strings(e, { "a", " ", ">", "+", "~", "||", ",", "*" }, 5, 6 + X); mc::all_strings(e, { "a", ".c", "#i", "[b]", " ", " > ", "+", "," , "\t", "/**/"}, 0, 5 + X); }, check);
}
MC_MAIN
