// C22: every CSS parsing entry point builds what CSS Syntax Level 3 prescribes, for every token sequence
#include "mc.hpp"
#include "css_common.hpp"
#include <wordring/whatwg/infra/unicode.hpp>
using namespace std;
using namespace csslib;
static u32string w(string const& s) { return wordring::whatwg::encoding_cast<u32string>(u8string(s.begin(), s.end())); }
static string str(vector<string> const& v) { string s = "["; for (auto& x : v) s += x + " | "; return s + "]"; }
static string str(vector<vector<string>> const& v) { string s = "["; for (auto& x : v) s += str(x); return s + "]"; }
static string str(vector<syntax_primitive> const& v) { vector<string> s; for (auto& x : v) s.push_back(show(x)); return str(s); }
static string str(vector<vector<syntax_primitive>> const& v) { string s = "["; for (auto& x : v) s += str(x); return s + "]"; }
template <class T> static string opt(optional<T> const& o) { return o ? show(*o) : "error"; }
static string check(string const& s)
{
	u32string in = w(s); mc::state(); mc::transition(16);
	auto toks = cssref::tokens(in);
	auto P = [&] { return cssref::parser(toks); };
	string msg;
	for (int form = 0; form < 3 && msg.empty(); ++form)
	{
		// the input as text, as tokens, and as component values already parsed
		auto T = [&](auto f) { if (form == 0) return f(u32string(in)); if (form == 1) return f(normalize_into_token_stream(u32string(in))); return f(parse_list_of_component_values(u32string(in))); };
		static const char* forms[] = { " (text)", " (tokens)", " (component values)" };
		auto is = [&](char const* what, string const& got, string const& want) { if (form == 0) mc::outcome(want); if (msg.empty() && got != want) msg = string(what) + " of '" + mc::escape(s) + "'" + forms[form] + " is " + got + " not " + want; };
		is("parse_stylesheet", T([](auto&& x) { return str(parse_stylesheet(move(x))); }), str(P().rules(true)));
		is("parse_list_of_rules", T([](auto&& x) { return str(parse_list_of_rules(move(x))); }), str(P().rules(false)));
		is("parse_rule", T([](auto&& x) { return opt(parse_rule(move(x))); }), P().parse_rule());
		is("parse_declaration", T([](auto&& x) { return opt(parse_declaration(move(x))); }), P().parse_declaration());
		is("parse_list_of_declarations", T([](auto&& x) { return str(parse_list_of_declarations(move(x))); }), str(P().declarations()));
		is("parse_component_value", T([](auto&& x) { return opt(parse_component_value(move(x))); }), P().parse_component());
		is("parse_list_of_component_values", T([](auto&& x) { return str(parse_list_of_component_values(move(x))); }), str(P().components()));
		is("parse_comma_separated_list_of_component_values", T([](auto&& x) { return str(parse_comma_separated_list_of_component_values(move(x))); }), str(P().comma_lists()));
	}
	if (!msg.empty()) return msg;
	string b(s); string r = str(parse_stylesheet(b));
	if (r != str(P().rules(true))) return "parse_stylesheet of the bytes '" + mc::escape(s) + "' is " + r;
	return "";
}
// copies of parsed objects are equal to and independent of the original, whatever they replace
static string copies(string const& c)   // a|b
{
	auto k = c.find('|'); mc::state(); mc::transition();
	auto v = parse_list_of_rules(w(c.substr(0, k))), u = parse_list_of_declarations(w(c.substr(k + 1)));
	for (auto& x : parse_list_of_component_values(w(c.substr(0, k)))) v.push_back(x);
	for (auto& x : u) v.push_back(x);
	for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j)
	{
		string a = show(v[i]), b = show(v[j]); syntax_primitive p = v[i]; syntax_primitive q(v[j]);
		p = q; if (show(p) != b || show(q) != b) return "assigning " + b + " over " + a + " gives " + show(p);
		syntax_primitive m(move(q)); if (show(m) != b || show(v[i]) != a || show(v[j]) != b) return "moving a copy of " + b + " disturbs an object";
	}
	auto copy = v; if (str(copy) != str(v)) return "copied list differs"; auto d = v; d = copy; if (str(d) != str(v)) return "assigned list differs";
	return "";
}
void mc_register()
{
	int X = mc::g_thorough ? 1 : 0;
	static const vector<string> t = { "a", " ", ":", ";", ",", "{", "}", "(", "[", "]", ")", "f(", "@b", "!", "important", "<!--", "-->", "1px" };
	mc::add("sequences", [X](mc::enumerator& e) { mc::all_strings(e, t, 0, 4 + X); }, check);
	mc::add("blocks", [X](mc::enumerator& e) { mc::all_strings(e, mc::chars("a{}()[]"), 5, 6 + X); mc::all_strings(e, { "f(", "(", ")", "{", "}", "@b ", ";" }, 0, 5 + X); }, check);
	mc::add("declarations", [X](mc::enumerator& e) {
		mc::all_strings(e, { "a", ":", ";", "!", " ", "IMPORTANT" }, 0, 6 + X);
		mc::all_strings(e, { "b", " ", "!", "important", "{", "}", ";", "," }, 0, 5 + X, "a:"); mc::all_strings(e, { "b", " ", "!", "important", "f(", ")", "!x" }, 0, 4 + X, "a : "); 
		mc::all_strings(e, { "a:b", ";", "@b", "{", "}", " ", "1", "!important", "(" }, 0, 5 + X); }, check);
	mc::add("rules", [X](mc::enumerator& e) { mc::all_strings(e, { "a{", "}", "<!--", "-->", "@b", ";", " ", "c" }, 0, 5 + X); mc::all_strings(e, { "a", "{b:c}", "@d", ";", "-->", " ", "{", "[}]" }, 0, 5 + X); }, check);
	// what is long and deep: every unit repeated up to 300 times, alone, with one other and alternating; and closed again
	mc::add("long", [X](mc::enumerator& e) {
		vector<int> ns = { 9, 17, 33, 65 }; if (mc::g_thorough) ns = { 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300 };
		mc::long_strings(e, { "(", ")", "{", "}", "[", "f(", "a", ";", ":", ",", "@b", "!important", "a:b;", "c{d}", "@b{", " ", "<!--" }, "", "", ns);
		mc::long_strings(e, { "b", ",", "(", ")", "!", " ", "{}" }, "a:", "!important;c:d", ns); mc::long_strings(e, { "b:c;", "@d;", "@d{}", "e", "[" }, "a{", "}f{}", ns); mc::long_strings(e, { "b", "(", "[c]", "," }, "@a ", "{d}e{}", ns);
		ns.push_back(129); ns.push_back(257);
		for (int n : ns) for (string o : { "(", "[", "{", "f(", "a{", "@b{" }) for (string q : { "(", "[", "{", "f(" }) for (int d : { -1, 0, 1 })
		{
			string s, t; for (int i = 0; i < n; ++i) { string u = i % 2 ? q : o; s += u; if (i + d >= 0) t.insert(t.begin(), u.back() == '(' ? ')' : u.back() == '[' ? ']' : '}'); } if (d == 1) t += ")";
			e(s + "x" + t + " y"); e("p:" + s + "x" + t + ";q:r");
		} }, check, 60);
	mc::add("copies", [X](mc::enumerator& e) { mc::all_strings(e, { "@a;", "@a{b}", "c{d}", "c(e)[f]{}", "#g 1 2% 3px 'h' url(i) \"\n" }, 0, 3 + X, "", "|a:b!important;@c;@d{e}"); }, copies);
}
MC_MAIN
