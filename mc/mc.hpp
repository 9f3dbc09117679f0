// Exhaustive bounded explorer: forks workers, each of which enumerates the whole space
// and executes its share of the cases on the real code. A crash, an assertion, a sanitizer
// report, a hang or memory exhaustion is attributed to the case being executed.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <cassert>
#include <deque>
#include <iterator>
#include <list>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <stack>
#include <system_error>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

void mc_register();
namespace mc
{
	struct slot
	{
		std::atomic<uint64_t> beat;     // bumped at each case
		std::atomic<uint64_t> index;    // index of the case being executed
		std::atomic<uint64_t> cases, states, transitions, traces;
		std::atomic<uint32_t> space;
		std::atomic<uint32_t> in_case;
		std::atomic<uint32_t> len;
		char text[1 << 16];
	};
	inline slot* g_slot = nullptr;
	inline std::unordered_set<uint64_t> g_outcomes;
	inline bool g_thorough = false;
	inline bool g_verbose = false;

	inline uint64_t hash(std::string_view s)
	{
		uint64_t h = 1469598103934665603ull;
		for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
		h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
		return h;
	}
	inline void state(uint64_t n = 1) { if (g_slot) g_slot->states += n; }
	inline void transition(uint64_t n = 1) { if (g_slot) g_slot->transitions += n; }
	inline void outcome(std::string_view s) { if (g_outcomes.size() < 400000) g_outcomes.insert(hash(s)); }

	inline std::string escape(std::string_view s)
	{
		std::string r;
		char b[8];
		for (unsigned char c : s)
		{
			if (c == '\\') r += "\\\\";
			else if (c >= 0x20 && c < 0x7F) r += char(c);
			else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		}
		return r;
	}
	inline std::string unescape(std::string_view s)
	{
		std::string r;
		for (size_t i = 0; i < s.size(); ++i)
		{
			if (s[i] != '\\') { r += s[i]; continue; }
			if (i + 1 < s.size() && s[i + 1] == '\\') { r += '\\'; ++i; }
			else if (i + 3 < s.size() && s[i + 1] == 'x') { r += char(std::stoi(std::string(s.substr(i + 2, 2)), nullptr, 16)); i += 3; }
			else r += s[i];
		}
		return r;
	}

	struct enumerator
	{
		uint64_t idx = 0;
		uint64_t mod = 1, rem = 0;
		uint64_t skip = 0;                 // cases with index < skip are done already
		std::function<void(uint64_t, std::string const&)> exec;
		void operator()(std::string const& c)
		{
			uint64_t i = idx++;
			if (i % mod != rem || i < skip) return;
			exec(i, c);
		}
		bool mine_next() const { return idx % mod == rem && idx >= skip; }
		void pass() { ++idx; }
	};

	struct space
	{
		std::string name;
		std::function<void(enumerator&)> enumerate;
		std::function<std::string(std::string const&)> run; // "" = holds, otherwise what is wrong
		unsigned hang_s = 12;
	};
	inline std::vector<space>& spaces() { static std::vector<space> v; return v; }
	inline void add(std::string name, std::function<void(enumerator&)> en, std::function<std::string(std::string const&)> run, unsigned hang_s = 12)
	{
		spaces().push_back({ std::move(name), std::move(en), std::move(run), hang_s });
	}

	// every string over `alphabet` with length in [lo, hi]
	inline void all_strings(enumerator& e, std::vector<std::string> const& alphabet, size_t lo, size_t hi, std::string const& pre = "", std::string const& post = "")
	{
		for (size_t n = lo; n <= hi; ++n)
		{
			std::vector<size_t> d(n, 0);
			for (;;)
			{
				if (e.mine_next())
				{
					std::string s = pre;
					for (size_t k : d) s += alphabet[k];
					s += post;
					e(s);
				}
				else e.pass();
				size_t i = n;
				while (i > 0 && ++d[i - 1] == alphabet.size()) d[--i] = 0;
				if (i == 0) break;
			}
		}
	}
	// long strings: for every ordered pair (u, v) of units and every length n: u^n, u^n v, v u^n, (uv)^n/2, u^n/2 v u^n/2
	inline std::vector<int> const& lengths() { static std::vector<int> v{ 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 }; return v; }
	inline void long_strings(enumerator& e, std::vector<std::string> const& units, std::string const& pre = "", std::string const& post = "", std::vector<int> const& ns = lengths())
	{
		auto rep = [](std::string const& u, int n) { std::string r; while (n-- > 0) r += u; return r; };
		auto go = [&](auto&& f) { if (e.mine_next()) e(f()); else e.pass(); };
		for (int n : ns) for (auto& u : units)
		{
			go([&] { return pre + rep(u, n) + post; });
			for (auto& v : units) if (v != u)
			{
				go([&] { return pre + rep(u, n) + v + post; }); go([&] { return pre + v + rep(u, n) + post; });
				go([&] { return pre + rep(u + v, n / 2) + post; }); go([&] { return pre + rep(u, n / 2) + v + rep(u, n / 2) + post; });
			}
		}
	}
	inline std::vector<std::string> chars(std::string_view s)
	{
		std::vector<std::string> v;
		for (size_t i = 0; i < s.size();)
		{
			size_t n = 1; unsigned char c = s[i];
			if (c >= 0xF0) n = 4; else if (c >= 0xE0) n = 3; else if (c >= 0xC0) n = 2;
			v.emplace_back(s.substr(i, n)); i += n;
		}
		return v;
	}

	struct failure { std::string space, text, msg; };

	inline std::string json(std::string_view s)
	{
		std::string r = "\""; char b[8];
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c < 0x20 || c >= 0x7F) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += char(c);
		}
		return r + "\"";
	}

	inline size_t rss_mb(pid_t p)
	{
		char fn[64]; snprintf(fn, sizeof fn, "/proc/%d/statm", int(p));
		FILE* f = fopen(fn, "r"); if (!f) return 0;
		size_t a = 0, b = 0; int n = fscanf(f, "%zu %zu", &a, &b); fclose(f);
		return n == 2 ? b * 4096 / (1 << 20) : 0;
	}

	inline std::string run_guarded(space const& s, std::string const& c)
	{
		try { return s.run(c); }
		catch (std::exception const& x) { return std::string("unexpected exception: ") + x.what(); }
		catch (...) { return "unexpected exception"; }
	}

	inline std::string tail_of(std::string const& fn)
	{
		std::string r; FILE* f = fopen(fn.c_str(), "r"); if (!f) return r;
		char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < 20000) r.append(b, n);
		fclose(f);
		// keep the informative line
		std::istringstream in(r); std::string l, best;
		while (std::getline(in, l))
		{
			if (l.find("Assertion") != std::string::npos || l.find("ERROR: ") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos)
			{ best = l; break; }
		}
		return best.substr(0, 300);
	}

	// runs one case in a child; returns "" when the property holds
	inline std::string run_isolated(space const& s, std::string const& c, std::string const& tmp)
	{
		std::string mf = tmp + "/iso.msg", ef = tmp + "/iso.err";
		unlink(mf.c_str()); unlink(ef.c_str());
		pid_t p = fork();
		if (p == 0)
		{
			int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
			std::string m = run_guarded(s, c);
			if (!m.empty()) { FILE* f = fopen(mf.c_str(), "w"); fwrite(m.data(), 1, m.size(), f); fclose(f); _exit(3); }
			_exit(0);
		}
		auto t0 = std::chrono::steady_clock::now();
		int st = 0;
		for (;;)
		{
			pid_t r = waitpid(p, &st, WNOHANG);
			if (r == p) break;
			bool hang = std::chrono::steady_clock::now() - t0 > std::chrono::seconds(s.hang_s);
			bool mem = rss_mb(p) > 3000;
			if (hang || mem) { kill(p, SIGKILL); waitpid(p, &st, 0); return hang ? "does not terminate" : "memory exhausted"; }
			usleep(300);
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
		{
			std::string r; FILE* f = fopen(mf.c_str(), "r"); char b[4096]; size_t n;
			while (f && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
			if (f) fclose(f);
			return r.empty() ? "failed" : r;
		}
		return std::string("abnormal termination: ") + tail_of(ef);
	}

	inline int main_(int argc, char** argv)
	{
		std::string out = "", tmp = "/tmp", only, replay_space, replay_case, known;
		unsigned jobs = 8; bool replay = false, list = false, all = false;
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i];
			auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--out") out = next();
			else if (a == "--tmp") tmp = next();
			else if (a == "--jobs") jobs = std::stoi(next());
			else if (a == "--tier") g_thorough = next() == "thorough";
			else if (a == "--only") only = next();
			else if (a == "--replay") { replay = true; replay_space = next(); replay_case = unescape(next()); }
			else if (a == "--known") known = next();
			else if (a == "--list") list = true;
			else if (a == "-v") g_verbose = true;
			else if (a == "--all") all = true;
		}
		// the initialisation order of the spaces is the registration order
		::mc_register();
		if (list) { for (auto& s : spaces()) printf("%s\n", s.name.c_str()); return 0; }
		if (replay)
		{
			for (auto& s : spaces()) if (s.name == replay_space)
			{
				g_verbose = true;
				std::string m = run_guarded(s, replay_case);
				printf("%s\n", m.empty() ? "HOLDS" : m.c_str());
				return m.empty() ? 0 : 1;
			}
			fprintf(stderr, "no such space\n"); return 2;
		}
		// known findings: "space<TAB>escaped case" per line
		std::set<std::string> known_set;
		if (!known.empty())
		{
			FILE* f = fopen(known.c_str(), "r"); char* l = nullptr; size_t n = 0;
			while (f && getline(&l, &n, f) > 0) { std::string t = l; while (!t.empty() && (t.back() == '\n')) t.pop_back(); if (!t.empty()) known_set.insert(t); }
			if (f) fclose(f);
			free(l);
		}

		auto t0 = std::chrono::steady_clock::now();
		std::vector<failure> fails, knowns;
		std::string spaces_json, samples_json;
		uint64_t tot_c = 0, tot_s = 0, tot_t = 0, tot_o = 0;
		bool complete = true;
		size_t nslots = jobs;
		slot* slots = (slot*)mmap(nullptr, sizeof(slot) * nslots, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

		for (size_t si = 0; si < spaces().size(); ++si)
		{
			space& s = spaces()[si];
			if (!only.empty() && s.name.find(only) == std::string::npos) continue;
			if (!fails.empty() && !all) { complete = false; break; } // one confirmed violation decides
			auto ts = std::chrono::steady_clock::now();
			struct w_t { pid_t pid = 0; uint64_t skip = 0; bool done = false; uint64_t beat = 0; std::chrono::steady_clock::time_point t; unsigned crashes = 0; };
			std::vector<w_t> w(jobs);
			std::vector<failure> raw;
			for (unsigned j = 0; j < jobs; ++j) new (&slots[j]) slot();
			auto spawn = [&](unsigned j)
			{
				std::string of = tmp + "/w" + std::to_string(j);
				pid_t p = fork();
				if (p == 0)
				{
					g_slot = &slots[j];
					g_slot->in_case = 0;
					int fd = open((of + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
					FILE* ff = fopen((of + ".fail").c_str(), "a");
					enumerator e; e.mod = jobs; e.rem = j; e.skip = w[j].skip;
					unsigned nf = 0; unsigned ns = 0; std::string first, last; uint64_t next_sample = j;
					FILE* sf = fopen((of + ".sample").c_str(), "a");
					e.exec = [&](uint64_t i, std::string const& c)
					{
						slot& sl = *g_slot;
						sl.index = i; size_t n = std::min(c.size(), sizeof sl.text); memcpy(sl.text, c.data(), n); sl.len = n;
						sl.in_case = 1; ++sl.beat;
						std::string m = run_guarded(s, c);
						sl.in_case = 0; ++sl.cases;
						if (!m.empty())
						{
							if (known_set.count(s.name + "\t" + escape(c))) fprintf(ff, "K\t%s\t%s\n", escape(c).c_str(), escape(m).c_str());
							else if (++nf <= 40) fprintf(ff, "F\t%s\t%s\n", escape(c).c_str(), escape(m).c_str());
							fflush(ff);
						}
						if (i >= next_sample) { fprintf(sf, "%s\n", escape(c).substr(0, 200).c_str()); next_sample = next_sample * 9 + 1000; ++ns; fflush(sf); }
					};
					try { s.enumerate(e); }
					catch (std::exception const& x) { fprintf(stderr, "terminate called: enumeration threw %s\n", x.what()); _exit(97); }
					FILE* o = fopen((of + ".out").c_str(), "ab");
					for (uint64_t h : g_outcomes) fwrite(&h, 8, 1, o);
					fclose(o); fclose(ff); fclose(sf);
					_exit(0);
				}
				w[j].pid = p; w[j].beat = slots[j].beat; w[j].t = std::chrono::steady_clock::now();
			};
			for (unsigned j = 0; j < jobs; ++j)
			{
				std::string of = tmp + "/w" + std::to_string(j);
				unlink((of + ".fail").c_str()); unlink((of + ".out").c_str()); unlink((of + ".sample").c_str());
				fflush(stdout);
				spawn(j);
			}
			size_t alive = jobs;
			unsigned total_crashes = 0;
			while (alive)
			{
				usleep(2000);
				for (unsigned j = 0; j < jobs; ++j)
				{
					if (w[j].done) continue;
					int st = 0;
					pid_t r = waitpid(w[j].pid, &st, WNOHANG);
					std::string why;
					if (r == w[j].pid)
					{
						if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { w[j].done = true; --alive; continue; }
						why = "abnormal termination: " + tail_of(tmp + "/w" + std::to_string(j) + ".err");
					}
					else
					{
						if (slots[j].beat != w[j].beat) { w[j].beat = slots[j].beat; w[j].t = std::chrono::steady_clock::now(); }
						auto dt = std::chrono::steady_clock::now() - w[j].t;
						if (slots[j].in_case && dt > std::chrono::seconds(s.hang_s)) why = "does not terminate";
						else if (slots[j].in_case && dt > std::chrono::milliseconds(300) && rss_mb(w[j].pid) > 3000) why = "memory exhausted";
						if (why.empty()) continue;
						kill(w[j].pid, SIGKILL); waitpid(w[j].pid, &st, 0);
					}
					if (!slots[j].in_case)
					{
						fprintf(stderr, "explorer error outside a case in space %s: %s\n", s.name.c_str(), why.c_str());
						return 2;
					}
					std::string c(slots[j].text, slots[j].len);
					if (known_set.count(s.name + "\t" + escape(c))) knowns.push_back({ s.name, c, why });
					else { raw.push_back({ s.name, c, why }); ++total_crashes; }
					w[j].skip = slots[j].index + 1;
					if (why[0] == 'd' || why[0] == 'm') total_crashes += 9;
					if (++w[j].crashes > 25 || total_crashes > 40) { w[j].done = true; --alive; complete = false; continue; }
					spawn(j);
				}
			}
			uint64_t c = 0, st = 0, tr = 0; std::unordered_set<uint64_t> oc;
			std::string smp;
			for (unsigned j = 0; j < jobs; ++j)
			{
				c += slots[j].cases; st += slots[j].states; tr += slots[j].transitions;
				std::string of = tmp + "/w" + std::to_string(j);
				if (FILE* f = fopen((of + ".out").c_str(), "rb")) { uint64_t h; while (fread(&h, 8, 1, f) == 1) oc.insert(h); fclose(f); }
				char* l = nullptr; size_t n = 0;
				if (FILE* f = fopen((of + ".fail").c_str(), "r"))
				{
					while (getline(&l, &n, f) > 0)
					{
						std::string t = l; if (t.back() == '\n') t.pop_back();
						size_t a = t.find('\t'), b = t.find('\t', a + 1);
						failure x{ s.name, unescape(t.substr(a + 1, b - a - 1)), unescape(t.substr(b + 1)) };
						(t[0] == 'K' ? knowns : raw).push_back(x);
					}
					fclose(f);
				}
				if (FILE* f = fopen((of + ".sample").c_str(), "r"))
				{
					while (getline(&l, &n, f) > 0 && smp.size() < 600) { std::string t = l; if (t.back() == '\n') t.pop_back(); smp += (smp.empty() ? "" : ",") + json(s.name + ": " + t); }
					fclose(f);
				}
				free(l);
			}
			// shortest first; each is replayed alone before it is believed
			std::stable_sort(raw.begin(), raw.end(), [](auto& a, auto& b) { return a.text.size() < b.text.size(); });
			unsigned conf = 0, tried = 0;
			for (auto& f : raw)
			{
				if (conf >= 6 || tried++ >= 24) break;
				std::string m = run_isolated(s, f.text, tmp);
				if (m.empty()) { fprintf(stderr, "not reproduced alone, ignored: %s [%s] %s\n", s.name.c_str(), escape(f.text).c_str(), f.msg.c_str()); continue; }
				++conf;
				fails.push_back({ s.name, f.text, m });
			}
			if (conf == 0 && !raw.empty()) complete = false;
			if (!smp.empty()) samples_json += (samples_json.empty() ? "" : ",") + smp;
			tot_c += c; tot_s += st; tot_t += tr; tot_o += oc.size();
			double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - ts).count();
			char b[400]; snprintf(b, sizeof b, "%s{\"space\":%s,\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"distinct_outcomes\":%zu,\"failures\":%u,\"seconds\":%.2f}",
				spaces_json.empty() ? "" : ",", json(s.name).c_str(), (unsigned long long)c, (unsigned long long)st, (unsigned long long)tr, oc.size(), conf, dt);
			spaces_json += b;
			fprintf(stderr, "  %-34s cases %llu states %llu transitions %llu outcomes %zu failures %u  %.1fs\n", s.name.c_str(), (unsigned long long)c, (unsigned long long)st, (unsigned long long)tr, oc.size(), conf, dt);
		}
		std::string js = "{\"cases\":" + std::to_string(tot_c) + ",\"states\":" + std::to_string(tot_s) + ",\"transitions\":" + std::to_string(tot_t)
			+ ",\"distinct_outcomes\":" + std::to_string(tot_o) + ",\"complete\":" + (complete ? "true" : "false") + ",\"spaces\":[" + spaces_json + "],\"samples\":[" + samples_json + "],\"failures\":[";
		for (size_t i = 0; i < fails.size(); ++i) js += (i ? "," : "") + ("{\"space\":" + json(fails[i].space) + ",\"case\":" + json(escape(fails[i].text)) + ",\"msg\":" + json(escape(fails[i].msg)) + "}");
		js += "],\"known\":[";
		for (size_t i = 0; i < knowns.size(); ++i) js += (i ? "," : "") + ("{\"space\":" + json(knowns[i].space) + ",\"case\":" + json(escape(knowns[i].text)) + ",\"msg\":" + json(escape(knowns[i].msg)) + "}");
		js += "]}\n";
		if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); fwrite(js.data(), 1, js.size(), f); fclose(f); }
		else fputs(js.c_str(), stdout);
		return fails.empty() ? 0 : 1;
	}
}
void mc_register();
#define MC_MAIN int main(int argc, char** argv) { return mc::main_(argc, argv); }
