// Reference URL parser: written by splitting the input, not as a state machine.
// Edition: late 2020 (what the library states it implements). Cross-validated against
// Node's URL on the inputs where the editions agree (tools/url_xval).
#pragma once
#include <cstdint>
#include <functional>
#include <optional>
#include <string>
#include <vector>
namespace ref
{
	using std::string; using std::u32string; using std::optional; using std::vector; using std::nullopt;
	struct rec
	{
		string scheme, user, pass; optional<string> host; optional<unsigned> port; vector<string> path;
		optional<string> query, frag; bool opaque = false; string opath; // opaque: cannot be a base
	};
	inline string u8(uint32_t c)
	{
		string r;
		if (c < 0x80) r += char(c);
		else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
		else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
		return r;
	}
	inline string u8(u32string const& s) { string r; for (auto c : s) r += u8(c); return r; }
	// percent-encode sets, given as the ASCII characters that are encoded besides controls and everything above '~'
	inline char const* const S_C0 = "", * const S_FRAGMENT = " \"<>`", * const S_QUERY = " \"#<>", * const S_SPECIAL_QUERY = " \"#<>'",
		* const S_PATH = " \"<>`#?{}", * const S_USERINFO = " \"<>`#?{}/:;=@[\\]^|", * const S_COMPONENT = " \"<>`#?{}/:;=@[\\]^|$%&+,",
		* const S_FORM = " \"<>`#?{}/:;=@[\\]^|$%&+,!'()~";
	inline bool in_set(uint32_t c, char const* set) { if (c < 0x20 || c > 0x7E) return true; for (; *set; ++set) if (uint32_t(*set) == c) return true; return false; }
	inline string pct(unsigned char b) { char const* h = "0123456789ABCDEF"; return { '%', h[b >> 4], h[b & 15] }; }
	inline string enc_bytes(string const& bytes, char const* set) { string r; for (unsigned char b : bytes) if (in_set(b, set)) r += pct(b); else r += char(b); return r; }
	inline string enc(u32string const& s, char const* set) { return enc_bytes(u8(s), set); }
	inline int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
	inline string unpct(string const& s)
	{
		string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { r += char(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; } else r += s[i];
		return r;
	}
	// UTF-8 decode with replacement (maximal subpart practice of the Encoding standard)
	inline u32string de8(string const& s)
	{
		u32string r; size_t i = 0;
		while (i < s.size())
		{
			unsigned char b = s[i++]; int n = 0; uint32_t cp = 0, lo = 0x80, hi = 0xBF;
			if (b < 0x80) { r += b; continue; }
			if (b >= 0xC2 && b <= 0xDF) n = 1, cp = b & 31; else if (b >= 0xE0 && b <= 0xEF) { n = 2; cp = b & 15; if (b == 0xE0) lo = 0xA0; if (b == 0xED) hi = 0x9F; }
			else if (b >= 0xF0 && b <= 0xF4) { n = 3; cp = b & 7; if (b == 0xF0) lo = 0x90; if (b == 0xF4) hi = 0x8F; } else { r += 0xFFFD; continue; }
			bool ok = true;
			for (; n; --n) { unsigned char d = i < s.size() ? s[i] : 0; if (i >= s.size() || d < lo || d > hi) { ok = false; break; } lo = 0x80; hi = 0xBF; cp = cp << 6 | (d & 63); ++i; }
			r += ok ? cp : 0xFFFD;
		}
		return r;
	}
	inline string punycode(u32string const& in)
	{
		string out; for (auto c : in) if (c < 128) out += char(c);
		size_t b = out.size(), h = b; if (b) out += '-';
		uint32_t n = 128, delta = 0, bias = 72;
		while (h < in.size())
		{
			uint32_t m = 0x110000; for (uint32_t c : in) if (c >= n && c < m) m = c;
			delta += (m - n) * (h + 1); n = m;
			for (uint32_t c : in)
			{
				if (c < n) ++delta;
				if (c == n)
				{
					uint32_t q = delta;
					for (uint32_t k = 36;; k += 36) { uint32_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; if (q < t) break; uint32_t d = t + (q - t) % (36 - t); out += char(d < 26 ? 'a' + d : '0' + d - 26); q = (q - t) / (36 - t); }
					out += char(q < 26 ? 'a' + q : '0' + q - 26);
					delta = h == b ? delta / 700 : delta / 2; delta += delta / (h + 1); uint32_t k = 0; while (delta > 455) { delta /= 35; k += 36; } bias = k + 36 * delta / (delta + 38); delta = 0; ++h;
				}
			}
			++delta; ++n;
		}
		return out;
	}
	// Domain to ASCII for ASCII text and the few other code points the checks use
	inline optional<string> to_ascii(u32string const& d)
	{
		u32string m;
		for (uint32_t c : d)
		{
			if (c < 128) m += c >= 'A' && c <= 'Z' ? c + 32 : c;
			else if (c == 0xC9) m += 0xE9; else if (c == 0xE9 || c == 0xDF || c == 0x3042 || c == 0x4E2D || c == 0x1F600) m += c;
			else if (c >= 0xFF10 && c <= 0xFF19) m += c - 0xFF10 + '0'; else if (c >= 0xFF21 && c <= 0xFF3A) m += c - 0xFF21 + 'a';
			else if (c == 0xFF05) m += '%'; else if (c == 0xFF0F) m += '/';
			else if (c == 0x3002 || c == 0xFF0E) m += '.'; else if (c == 0xAD) ;
			else return nullopt;
		}
		string r; u32string label; 
		auto flush = [&] { bool a = true; for (auto c : label) if (c > 127) a = false; if (a) r += u8(label); else r += "xn--" + punycode(label); label.clear(); };
		for (auto c : m) if (c == '.') { flush(); r += '.'; } else label += c;
		flush();
		if (r.empty()) return nullopt;
		return r;
	}
	inline bool forbidden(uint32_t c) { return c < 128 && string("\0\t\n\r #%/:?@[\\]", 14).find(char(c)) != string::npos; }
	// one dotted part: number, or nullopt when it is not one. Values are capped far above 2^32.
	inline optional<uint64_t> v4num(string s)
	{
		unsigned radix = 10;
		if (s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { radix = 16; s.erase(0, 2); } else if (s.size() >= 2 && s[0] == '0') { radix = 8; s.erase(0, 1); }
		uint64_t v = 0; for (char c : s) { int d = hexv(c); if (d < 0 || unsigned(d) >= radix) return nullopt; v = v * radix + d; if (v > (1ull << 40)) v = 1ull << 40; }
		return v;
	}
	enum class v4 { address, name, failure };
	inline v4 parse_v4(string const& in, uint32_t& out)
	{
		vector<string> p(1); for (char c : in) if (c == '.') p.emplace_back(); else p.back() += c;
		if (p.back().empty() && p.size() > 1) p.pop_back();
		if (p.size() > 4) return v4::name;
		vector<uint64_t> n; for (auto& x : p) { if (x.empty()) return v4::name; auto v = v4num(x); if (!v) return v4::name; n.push_back(*v); }
		uint64_t a = 0; for (size_t i = 0; i + 1 < n.size(); ++i) { if (n[i] > 255) return v4::failure; a |= n[i] << (8 * (3 - i)); }
		if (n.back() >> (8 * (5 - n.size()))) return v4::failure;
		out = uint32_t(a + n.back()); return v4::address;
	}
	inline string show_v4(uint32_t a) { return std::to_string(a >> 24) + "." + std::to_string(a >> 16 & 255) + "." + std::to_string(a >> 8 & 255) + "." + std::to_string(a & 255); }
	// IPv6 by grammar: groups separated by ':', at most one "::", optional dotted tail
	inline bool parse_v6(string const& s, uint16_t out[8])
	{
		auto groups = [](string const& t, bool tail, vector<unsigned>& g) -> bool {
			if (t.empty()) return true;
			vector<string> p(1); for (char c : t) if (c == ':') p.emplace_back(); else p.back() += c;
			for (size_t i = 0; i < p.size(); ++i)
			{
				if (p[i].empty()) return false;
				if (p[i].find('.') != string::npos)
				{
					if (!tail || i + 1 != p.size()) return false;
					vector<string> q(1); for (char c : p[i]) if (c == '.') q.emplace_back(); else q.back() += c;
					if (q.size() != 4) return false; unsigned v[4];
					for (int k = 0; k < 4; ++k) { if (q[k].empty() || q[k].size() > 3 || (q[k].size() > 1 && q[k][0] == '0')) return false; v[k] = 0; for (char c : q[k]) { if (c < '0' || c > '9') return false; v[k] = v[k] * 10 + c - '0'; } if (v[k] > 255) return false; }
					g.push_back(v[0] << 8 | v[1]); g.push_back(v[2] << 8 | v[3]);
				}
				else { if (p[i].size() > 4) return false; unsigned v = 0; for (char c : p[i]) { int d = hexv(c); if (d < 0) return false; v = v * 16 + d; } g.push_back(v); }
			}
			return true;
		};
		vector<unsigned> a, b; size_t k = s.find("::");
		if (k == string::npos) { if (s.empty() || !groups(s, true, a) || a.size() != 8) return false; for (int i = 0; i < 8; ++i) out[i] = a[i]; return true; }
		if (s.find("::", k + 1) != string::npos) return false; // also rules out ":::"
		if (!groups(s.substr(0, k), false, a) || !groups(s.substr(k + 2), true, b) || a.size() + b.size() > 7) return false;
		for (int i = 0; i < 8; ++i) out[i] = 0;
		for (size_t i = 0; i < a.size(); ++i) out[i] = a[i];
		for (size_t i = 0; i < b.size(); ++i) out[8 - b.size() + i] = b[i];
		return true;
	}
	inline string show_v6(uint16_t const a[8])
	{
		int best = -1, len = 1; for (int i = 0; i < 8;) { int j = i; while (j < 8 && !a[j]) ++j; if (j - i > len) best = i, len = j - i; i = j > i ? j : i + 1; }
		string r; char b[8];
		for (int i = 0; i < 8;) { if (i == best) { r += i ? ":" : "::"; i += len; continue; } snprintf(b, 8, "%x", a[i]); r += b; if (i < 7) r += ':'; ++i; }
		return r;
	}
	inline optional<string> parse_host(u32string const& in, bool special)
	{
		if (!in.empty() && in[0] == '[')
		{
			if (in.back() != ']') return nullopt;
			for (auto c : in) if (c > 127) return nullopt;
			uint16_t a[8]; if (in.size() < 2 || !parse_v6(u8(in.substr(1, in.size() - 2)), a)) return nullopt;
			return "[" + show_v6(a) + "]";
		}
		if (!special) { for (auto c : in) if (forbidden(c) && c != '%') return nullopt; return enc(in, S_C0); }
		auto d = to_ascii(de8(unpct(u8(in)))); if (!d) return nullopt;
		for (unsigned char c : *d) if (forbidden(c)) return nullopt;
		uint32_t a; switch (parse_v4(*d, a)) { case v4::failure: return nullopt; case v4::address: return show_v4(a); default: return d; }
	}
	inline bool special(string const& s) { return s == "ftp" || s == "file" || s == "http" || s == "https" || s == "ws" || s == "wss"; }
	inline optional<unsigned> defport(string const& s) { if (s == "ftp") return 21; if (s == "http" || s == "ws") return 80; if (s == "https" || s == "wss") return 443; return nullopt; }
	inline bool alpha(uint32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
	inline bool digit(uint32_t c) { return c >= '0' && c <= '9'; }
	inline bool drive(u32string const& s) { return s.size() == 2 && alpha(s[0]) && (s[1] == ':' || s[1] == '|'); }
	inline bool starts_drive(u32string const& s) { return s.size() >= 2 && drive(s.substr(0, 2)) && (s.size() == 2 || s[2] == '/' || s[2] == '\\' || s[2] == '?' || s[2] == '#'); }
	inline bool norm_drive(string const& s) { return s.size() == 2 && alpha(uint32_t(s[0])) && s[1] == ':'; }
	inline string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
	inline u32string no_nl(u32string const& s) { u32string r; for (auto c : s) if (c != 9 && c != 10 && c != 13) r += c; return r; }
	struct parser
	{
		rec u; rec const* base = nullptr; bool over = false;
		std::function<string(u32string const&, char const*)> qenc; // query encoder for a non-UTF-8 document encoding
		bool sp() const { return special(u.scheme); }
		bool slash(uint32_t c) const { return c == '/' || (sp() && c == '\\'); }
		void fragment(u32string const& s) { u.frag = enc(s, S_FRAGMENT); }
		void query(u32string const& s)
		{
			size_t k = over ? u32string::npos : s.find(U'#');
			char const* set = sp() ? S_SPECIAL_QUERY : S_QUERY;
			u32string q = s.substr(0, k);
			u.query = qenc && sp() && u.scheme != "ws" && u.scheme != "wss" ? qenc(q, set) : enc(q, set);
			if (k != u32string::npos) fragment(s.substr(k + 1));
		}
		bool tail(u32string const& s) { if (!s.empty() && s[0] == '?') { query(s.substr(1)); return true; } if (!s.empty() && s[0] == '#') { fragment(s.substr(1)); return true; } return false; }
		void shorten() { if (u.path.empty() || (u.scheme == "file" && u.path.size() == 1 && norm_drive(u.path[0]))) return; u.path.pop_back(); }
		void path(u32string const& s)
		{
			size_t i = 0;
			for (;;)
			{
				size_t j = i; while (j < s.size() && !slash(s[j]) && (over || (s[j] != '?' && s[j] != '#'))) ++j;
				bool more = j < s.size() && slash(s[j]);
				string seg = enc(s.substr(i, j - i), S_PATH), l = lower(seg);
				if (l == ".." || l == ".%2e" || l == "%2e." || l == "%2e%2e") { shorten(); if (!more) u.path.push_back(""); }
				else if (l == "." || l == "%2e") { if (!more) u.path.push_back(""); }
				else { if (u.scheme == "file" && u.path.empty() && seg.size() == 2 && alpha(uint32_t(seg[0])) && (seg[1] == '|' || seg[1] == ':')) seg[1] = ':'; u.path.push_back(seg); }
				if (more) { i = j + 1; continue; }
				if (j < s.size()) tail(s.substr(j));
				return;
			}
		}
		void path_start(u32string const& s)
		{
			if (sp()) { path(!s.empty() && slash(s[0]) ? s.substr(1) : s); return; }
			if (!over && tail(s)) return;
			if (!s.empty()) path(s[0] == '/' ? s.substr(1) : s);
		}
		static size_t colon(u32string const& s) { bool in = false; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == ':' && !in) return i; if (s[i] == '[') in = true; if (s[i] == ']') in = false; } return u32string::npos; }
		bool set_port(u32string const& d) { if (d.empty()) return true; unsigned long v = 0; for (auto c : d) { v = v * 10 + (c - '0'); if (v > 99999) v = 99999; } if (v > 65535) return false; if (defport(u.scheme) == optional<unsigned>(v)) u.port.reset(); else u.port = v; return true; }
		bool authority(u32string const& s)
		{
			size_t e = 0; while (e < s.size() && !slash(s[e]) && s[e] != '?' && s[e] != '#') ++e;
			u32string a = s.substr(0, e); size_t at = a.rfind(U'@');
			if (at != u32string::npos)
			{
				u32string c = a.substr(0, at); a = a.substr(at + 1); if (a.empty()) return false;
				size_t k = c.find(U':'); u.user = enc(c.substr(0, k), S_USERINFO); if (k != u32string::npos) u.pass = enc(c.substr(k + 1), S_USERINFO);
			}
			size_t k = colon(a); u32string h = a.substr(0, k);
			if (h.empty() && (k != u32string::npos || sp())) return false;
			auto host = parse_host(h, sp()); if (!host) return false; u.host = host;
			if (k != u32string::npos) { u32string d = a.substr(k + 1); for (auto c : d) if (!digit(c)) return false; if (!set_port(d)) return false; }
			path_start(s.substr(e)); return true;
		}
		bool file(u32string const& r)
		{
			u.scheme = "file"; u.host = ""; bool fb = base && base->scheme == "file";
			if (!r.empty() && slash(r[0]))
			{
				u32string s = r.substr(1);
				if (!s.empty() && slash(s[0]))
				{
					s = s.substr(1); size_t e = 0; while (e < s.size() && !slash(s[e]) && s[e] != '?' && s[e] != '#') ++e;
					u32string h = s.substr(0, e);
					if (drive(h)) { path(s); return true; }
					if (!h.empty()) { auto x = parse_host(h, true); if (!x) return false; u.host = *x == "localhost" ? "" : *x; }
					path_start(s.substr(e)); return true;
				}
				if (fb) { u.host = base->host; if (!starts_drive(s) && !base->path.empty() && norm_drive(base->path[0])) u.path.push_back(base->path[0]); }
				path(s); return true;
			}
			if (fb)
			{
				u.host = base->host; u.path = base->path; u.query = base->query;
				if (r.empty() || tail(r)) return true;
				u.query.reset(); if (starts_drive(r)) u.path.clear(); else shorten();
			}
			path(r); return true;
		}
		bool relative(u32string const& r)
		{
			u.scheme = base->scheme;
			if (!r.empty() && slash(r[0]))
			{
				u32string s = r.substr(1);
				if (!s.empty() && slash(s[0])) { s = s.substr(1); while (sp() && !s.empty() && slash(s[0])) s = s.substr(1); return authority(s); }
				u.user = base->user; u.pass = base->pass; u.host = base->host; u.port = base->port; path(s); return true;
			}
			u.user = base->user; u.pass = base->pass; u.host = base->host; u.port = base->port; u.path = base->path; u.query = base->query;
			if (r.empty() || tail(r)) return true;
			u.query.reset(); if (!u.path.empty()) u.path.pop_back();
			path(r); return true;
		}
		bool parse(u32string s)
		{
			while (!s.empty() && s.back() <= 32) s.pop_back();
			size_t z = 0; while (z < s.size() && s[z] <= 32) ++z;
			s = no_nl(s.substr(z));
			size_t k = 0; while (k < s.size() && (alpha(s[k]) || (k && (digit(s[k]) || s[k] == '+' || s[k] == '-' || s[k] == '.')))) ++k;
			if (k == 0 || k >= s.size() || s[k] != ':')
			{
				if (!base) return false;
				if (base->opaque) { if (s.empty() || s[0] != '#') return false; u = *base; u.frag.reset(); fragment(s.substr(1)); return true; }
				return base->scheme == "file" ? file(s) : relative(s);
			}
			u.scheme = lower(u8(s.substr(0, k))); u32string r = s.substr(k + 1);
			if (u.scheme == "file") return file(r);
			if (sp())
			{
				if (base && base->scheme == u.scheme && !(r.size() >= 2 && r[0] == '/' && r[1] == '/')) return relative(r);
				size_t i = 0; while (i < r.size() && slash(r[i])) ++i;
				return authority(r.substr(i));
			}
			if (!r.empty() && r[0] == '/') { if (r.size() > 1 && r[1] == '/') return authority(r.substr(2)); path(r.substr(1)); return true; }
			u.opaque = true; size_t e = r.find_first_of(U"?#"); u.opath = enc(r.substr(0, e), S_C0); if (e != u32string::npos) tail(r.substr(e));
			return true;
		}
	};
	inline optional<rec> parse(u32string const& s, rec const* base = nullptr, std::function<string(u32string const&, char const*)> qenc = {})
	{
		parser p; p.base = base; p.qenc = qenc; if (!p.parse(s)) return nullopt; return p.u;
	}
	inline string pathname(rec const& u) { if (u.opaque) return u.opath; string r; for (auto& s : u.path) r += "/" + s; return r; }
	inline string href(rec const& u, bool nofrag = false)
	{
		string r = u.scheme + ":";
		if (u.host) { r += "//"; if (!u.user.empty() || !u.pass.empty()) { r += u.user; if (!u.pass.empty()) r += ":" + u.pass; r += "@"; } r += *u.host; if (u.port) r += ":" + std::to_string(*u.port); }
		else if (!u.opaque && u.path.size() > 1 && u.path[0].empty()) r += "/.";
		r += pathname(u); if (u.query) r += "?" + *u.query; if (u.frag && !nofrag) r += "#" + *u.frag;
		return r;
	}
	inline bool no_cred(rec const& u) { return !u.host || u.host->empty() || u.opaque || u.scheme == "file"; }
	inline void set_protocol(rec& u, u32string v)
	{
		v = no_nl(v) + U":"; size_t k = 0; while (k < v.size() && (alpha(v[k]) || (k && (digit(v[k]) || v[k] == '+' || v[k] == '-' || v[k] == '.')))) ++k;
		if (!k || v[k] != ':') return; string s = lower(u8(v.substr(0, k)));
		if (special(s) != special(u.scheme)) return;
		if ((!u.user.empty() || !u.pass.empty() || u.port) && s == "file") return;
		if (u.scheme == "file" && (!u.host || u.host->empty())) return;
		u.scheme = s; if (u.port && u.port == defport(s)) u.port.reset();
	}
	inline void set_user(rec& u, u32string const& v) { if (!no_cred(u)) u.user = enc(v, S_USERINFO); }
	inline void set_pass(rec& u, u32string const& v) { if (!no_cred(u)) u.pass = enc(v, S_USERINFO); }
	inline void port_tail(rec& u, u32string const& s) { size_t k = 0; while (k < s.size() && digit(s[k])) ++k; parser p; p.u = u; if (p.set_port(s.substr(0, k))) u.port = p.u.port; }
	inline void set_host(rec& u, u32string v, bool name_only)
	{
		if (u.opaque) return; v = no_nl(v); bool sp = special(u.scheme), f = u.scheme == "file";
		size_t e = 0; while (e < v.size() && v[e] != '/' && v[e] != '?' && v[e] != '#' && !(sp && v[e] == '\\')) ++e;
		v = v.substr(0, e);
		if (f) { if (v.empty()) { u.host = ""; return; } auto h = parse_host(v, true); if (h) u.host = *h == "localhost" ? "" : *h; return; }
		size_t k = parser::colon(v); u32string hs = v.substr(0, k);
		if (hs.empty() && (k != u32string::npos || sp)) return;
		if (hs.empty() && (!u.user.empty() || !u.pass.empty() || u.port)) return;
		auto h = parse_host(hs, sp); if (!h) return; u.host = h;
		if (k != u32string::npos && !name_only) port_tail(u, v.substr(k + 1));
	}
	inline void set_port(rec& u, u32string const& v) { if (no_cred(u)) return; if (v.empty()) u.port.reset(); else port_tail(u, no_nl(v)); }
	inline void set_path(rec& u, u32string const& v) { if (u.opaque) return; u.path.clear(); parser p; p.u = u; p.over = true; p.path_start(no_nl(v)); u = p.u; }
	inline void set_search(rec& u, u32string v) { if (v.empty()) { u.query.reset(); return; } if (v[0] == '?') v.erase(0, 1); parser p; p.u = u; p.over = true; p.query(no_nl(v)); u = p.u; }
	inline void set_hash(rec& u, u32string v) { if (v.empty()) { u.frag.reset(); return; } if (v[0] == '#') v.erase(0, 1); parser p; p.u = u; p.fragment(no_nl(v)); u = p.u; }
}
