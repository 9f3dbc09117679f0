// the library's document in the reference's canonical text
#pragma once
#include "html_tree_model.hpp"
#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_node.hpp>
#include <wordring/html/simple_traits.hpp>
#include <wordring/whatwg/infra/unicode.hpp>
namespace htmllib
{
	template <typename S> inline std::string show(S const& s) { return htmlref::utf8(wordring::whatwg::encoding_cast<std::u32string>(s)); }
	inline std::string ns(wordring::html::ns_name n)
	{
		using wordring::html::ns_name;
		switch (n) { case ns_name::HTML: return "html"; case ns_name::MathML: return "math"; case ns_name::SVG: return "svg"; case ns_name::XLink: return "xlink"; case ns_name::XML: return "xml"; case ns_name::XMLNS: return "xmlns"; default: return n == static_cast<ns_name>(0) ? "" : "?"; }
	}
	template <typename It> inline void dump(It it, std::string& o)
	{
		auto& n = *it;
		if (n.is_document_type()) { o += "<!DOCTYPE " + show(n.name())  + ">"; return; }
		if (n.is_text()) { o += "\"" + show(n.data()) + "\""; return; }
		if (n.is_comment()) { o += "<!--" + show(n.data()) + "-->"; return; }
		if (n.is_element())
		{
			std::string s = ns(n.namespace_uri_name()); o += "<"; if (s != "html") o += s + " "; o += show(n.local_name());
			for (auto& a : n) { o += " "; std::string z = ns(a.namespace_uri_name()); if (!z.empty()) o += "{" + z + "}"; if (!a.prefix().empty()) o += show(a.prefix()) + ":"; o += show(a.local_name()) + "={" + show(a.value()) + "}"; }
			o += ">";
		}
		else if (!n.is_document()) o += "<?" ;
		auto b = it.begin(), e = it.end(); if (b == e) return;
		o += "("; for (; b != e; ++b) dump(b, o); o += ")";
	}
	template <typename Tree> inline std::string dump_tree(Tree& t)
	{
		std::string o; size_t n = 0;
		for (auto it = t.begin(); it != t.end(); ++it) { dump(it, o); ++n; }
		return n == 1 ? o : "[" + std::to_string(n) + " roots]" + o;
	}
	template <typename Tree> inline std::string doc_mode(Tree& t)
	{
		auto m = t.begin()->document_mode_name(); using M = decltype(m);
		return m == M::Quirks ? "quirks" : m == M::LimitedQuirks ? "limited" : "standard";
	}
}
