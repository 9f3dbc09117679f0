// the library's tokenizer behind the reference's token type
#pragma once
#include "html_tok_model.hpp"
#include <wordring/whatwg/html/parsing/token.hpp>
#include <wordring/whatwg/html/parsing/tokenization.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_node.hpp>
#include <wordring/html/simple_traits.hpp>
#include <wordring/tag_tree/tag_tree.hpp>
#include <deque>
namespace htmllib
{
	using namespace wordring::html;
	using namespace wordring::whatwg::html::parsing;
	using tree = wordring::tag_tree<simple_node<std::u32string>>;
	struct lexer : tokenizer<lexer, node_traits<typename tree::iterator>>
	{
		using base_type = tokenizer<lexer, node_traits<typename tree::iterator>>;
		using base_type::m_state; using base_type::base_type;
		struct stack_entry { start_tag_token m_token; tree::iterator m_it; };
		std::deque<stack_entry> m_stack; stack_entry m_none;
		tree m_tree; htmlref::shower out; std::size_t eofs = 0; bool after_eof = false; bool bad_atom = false;
		std::u32string lname;
		stack_entry const& adjusted_current_node() const { return m_stack.empty() ? m_none : m_stack.back(); }
		stack_entry& adjusted_current_node() { return m_stack.empty() ? m_none : m_stack.back(); }
		void enter(ns_name ns, std::u32string const& name)
		{
			auto it = m_tree.insert(m_tree.begin(), simple_element<std::u32string>(ns, U"", name)); m_stack.push_back({ start_tag_token(), it });
		}
		void on_report_error(error_name) {}
		void on_emit_token(DOCTYPE_token const& d) { htmlref::token t; t.k = t.DOCTYPE; t.name = d.m_name; t.pub = d.m_public_identifier; t.sys = d.m_system_identifier; t.flag = d.m_force_quirks_flag; put(t); }
		void on_emit_token(start_tag_token const& d) { tag(d, htmlref::token::START); }
		void on_emit_token(end_tag_token const& d) { tag(d, htmlref::token::END); }
		void on_emit_token(comment_token const& d) { htmlref::token t; t.k = t.COMMENT; t.name = d.m_data; put(t); }
		void on_emit_token(character_token const& d) { htmlref::token t; t.k = t.CHAR; t.c = d.m_data; put(t); }
		void on_emit_token(end_of_file_token const&) { htmlref::token t; t.k = t.EOFT; put(t); ++eofs; }
		void put(htmlref::token const& t) { if (eofs) after_eof = true; out.add(t); }
		void tag(tag_token const& d, htmlref::token::kind k)
		{
			htmlref::token t; t.k = k; t.name = d.m_tag_name; t.flag = d.m_self_closing_flag;
			for (auto& a : d) if (!a.m_omitted)
			{
				t.attrs.emplace_back(a.m_name, a.m_value);
				if (!a.m_prefix.empty() || a.m_namespace != static_cast<ns_name>(0)) t.attrs.back().first += U"?ns";
			}
			put(t);
		}
		void start(htmlref::mode m, std::u32string const& last)
		{
			switch (m)
			{
			case htmlref::RCDATA: m_state = RCDATA_state; break; case htmlref::RAWTEXT: m_state = RAWTEXT_state; break; case htmlref::SCRIPT: m_state = script_data_state; break;
			case htmlref::PLAINTEXT: m_state = PLAINTEXT_state; break; case htmlref::CDATA: m_state = CDATA_section_state; break; default: m_state = data_state;
			}
			m_last_start_tag_name = last;
		}
	};
}
