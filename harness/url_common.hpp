#pragma once
#include "../mc/mc.hpp"
#include <wordring/whatwg/url/api.hpp>
#include "url_model.hpp"
using U = wordring::whatwg::basic_url<std::u32string>;
inline std::u32string w(std::string const& s) { return ref::de8(s); }
inline std::string n(std::u32string const& s) { return ref::u8(s); }
inline std::string opt(std::optional<std::string> const& s) { return s ? "'" + *s + "'" : "none"; }
inline std::string diff(std::string const& what, U const& g, ref::rec const& r)
{
	auto c = [&](char const* k, std::string const& a, std::string const& b) { return a == b ? std::string() : what + ": " + k + " is '" + mc::escape(a) + "', not '" + mc::escape(b) + "'"; };
	std::string e, host = r.host ? *r.host : "", port = r.port ? std::to_string(*r.port) : "";
	if (!(e = c("href", n(g.href()), ref::href(r))).empty()) return e;
	if (!(e = c("protocol", n(g.protocol()), r.scheme + ":")).empty()) return e;
	if (!(e = c("username", n(g.username()), r.user)).empty()) return e;
	if (!(e = c("password", n(g.password()), r.pass)).empty()) return e;
	if (!(e = c("hostname", n(g.hostname()), host)).empty()) return e;
	if (!(e = c("host", n(g.host()), host + (port.empty() ? "" : ":" + port))).empty()) return e;
	if (!(e = c("port", n(g.port()), port)).empty()) return e;
	if (!(e = c("pathname", n(g.pathname()), ref::pathname(r))).empty()) return e;
	if (!(e = c("search", n(g.search()), r.query && !r.query->empty() ? "?" + *r.query : "")).empty()) return e;
	if (!(e = c("hash", n(g.hash()), r.frag && !r.frag->empty() ? "#" + *r.frag : "")).empty()) return e;
	return c("href without fragment", n(to_string(g, true)), ref::href(r, true));
}
template <class... A> std::unique_ptr<U> make(A const&... a) { try { return std::make_unique<U>(a...); } catch (std::error_code const&) { return nullptr; } }
// bases used for relative resolution
inline std::vector<std::string> const bases = { "", "http://u:p@h:81/a/b/c?q#f", "http://h", "https://h/", "ftp://h/a/../b", "file:///C:/a/b", "file://h/a/b?q", "file:///", "a://h/b/c?q", "a:/b/c", "a:///b", "a:b", "a:b?q#f", "ws://h/x/" };
