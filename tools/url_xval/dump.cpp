// prints "base TAB input TAB href-or-!" (hex) from the reference for a large enumerated space
#include "../../harness/url_model.hpp"
#include <cstdio>
#include <iostream>
using namespace std;
static void hex(string const& s) { for (unsigned char c : s) printf("%02x", c); }
static vector<string> const bases = { "", "http://u:p@h:81/a/b/c?q#f", "http://h", "https://h/", "ftp://h/a/../b", "file:///C:/a/b", "file://h/a/b?q", "file:///", "a://h/b/c?q", "a:/b/c", "a:///b", "a:b", "a:b?q#f", "ws://h/x/" };
static void go(int b, string const& s) { optional<ref::rec> base; if (b) base = ref::parse(ref::de8(bases[b])); auto r = ref::parse(ref::de8(s), b ? &*base : nullptr); hex(bases[b]); putchar('\t'); hex(s); putchar('\t'); if (r) hex(ref::href(*r)); else putchar('!'); putchar('\n'); }
static void all(int b, vector<string> const& a, int hi, string const& pre) { go(b, pre); if (hi) for (auto& x : a) all(b, a, hi - 1, pre + x); }
static vector<string> ch(string const& s) { vector<string> r; for (char c : s) r.push_back(string(1, c)); return r; }
int main()
{
	all(0, ch("a:/\\?#@.%[0"), 5, ""); all(0, ch("a:/?#@.0x"), 5, "http://"); all(0, ch("a:/\\?#@."), 5, "a:/"); all(0, ch("0x18.f"), 6, "http://"); all(0, ch("01f:."), 7, "http://["); 
	for (int b = 1; b < 14; ++b) { all(b, ch("a:/\\?#.@"), 4, ""); all(b, ch("/\\?#.a"), 4, "http:"); all(b, ch("/?.a"), 4, "a:"); }
	for (int b : { 0, 1, 5, 6, 7 }) { all(b, ch("/\\C|:.?#"), 5, "file:"); all(b, ch("/C|:."), 5, "file:///"); }
	vector<string> t = { "http:", "A:", "//", "/", "u:p@", "ex.org", ":80", ":65535", ":65536", "..", "%2E", "\xC3\xA9", " ", "\t", "?q'\"", "#f`<", "localhost", "C|", "1.2.3", "[::1]", "\xF0\x9F\x98\x80", "%zz", "\xC3\x9F", "\xEF\xBC\x91", "\xE3\x80\x82", "\xC2\xAD" };
	for (int b : { 0, 1, 5, 8 }) all(b, t, b ? 3 : 4, "");
	vector<string> pre = { "", "http://", "http://u", "http://u:p", "http://h", "http://h:8", "http://h/", "http://h/?", "http://h/#", "a:", "a:/", "a://", "a://h", "a:?", "a:#", "file:", "file://", "file:///C" }, post = { "", "b", "@h/", ":1/x", "/..", "//x" };
	for (auto& p : pre) for (auto& q : post) for (uint32_t c = 0; c < 0x180; ++c) go(0, p + ref::u8(c) + q);
}
