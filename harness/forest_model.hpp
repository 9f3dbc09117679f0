// Abstract ordered forest used as the reference for the tree containers.
#pragma once
#include <mc.hpp>
#include <memory>
#include <optional>
struct forest
{
	struct node { int label = 0; int parent = 0; std::vector<int> kids; bool live = false; };
	std::vector<node> n{ 1 };          // n[0] is the invisible parent of the roots; ids are creation numbers
	int size() const { int c = 0; for (auto& x : n) c += x.live; return c; }
	int add(int p, size_t k, int label)
	{
		n.push_back({ label, p, {}, true }); int id = int(n.size()) - 1;
		n[p].kids.insert(n[p].kids.begin() + k, id);
		return id;
	}
	void detach(int id) { auto& v = n[n[id].parent].kids; v.erase(std::find(v.begin(), v.end(), id)); }
	void erase(int id) { detach(id); kill(id); }
	void kill(int id) { n[id].live = false; for (int k : n[id].kids) kill(k); n[id].kids.clear(); }
	bool inside(int id, int top) const { for (int i = id; i != 0; i = n[i].parent) if (i == top) return true; return false; }
	size_t index(int id) const { auto& v = n[n[id].parent].kids; return std::find(v.begin(), v.end(), id) - v.begin(); }
	// insertion position (p, k) is in terms of the forest before detaching
	void move(int p, size_t k, int id)
	{
		bool same = n[id].parent == p; size_t i = index(id);
		detach(id);
		if (same && i < k) --k;
		n[p].kids.insert(n[p].kids.begin() + k, id); n[id].parent = p;
	}
	struct snap { int label; std::vector<snap> kids; };
	size_t take_size(int id) const { size_t c = 1; for (int k : n[id].kids) c += take_size(k); return c; }
	snap take(int id) const { snap s{ n[id].label, {} }; for (int k : n[id].kids) s.kids.push_back(take(k)); return s; }
	int put(int p, size_t k, snap const& s) { int id = add(p, k, s.label); for (size_t i = 0; i < s.kids.size(); ++i) put(id, i, s.kids[i]); return id; }
	std::string show(int id = 0) const { std::string s = id ? std::to_string(n[id].label) : ""; if (!n[id].kids.empty()) { s += "("; for (int k : n[id].kids) s += show(k) + " "; s.back() = ')'; } return s; }
	std::string shape(int id = 0) const { std::string s = "("; for (int k : n[id].kids) s += shape(k); return s + ")"; }
	void pre(int id, std::vector<int>& o) const { if (id) o.push_back(id); for (int k : n[id].kids) pre(k, o); }
	std::vector<int> ids() const { std::vector<int> o; pre(0, o); return o; }
};
// every forest shape with exactly c nodes as nested parentheses
inline void shapes(int c, std::vector<std::string>& out)
{
	std::string s;
	auto rec = [&](auto& self, int open, int used) -> void
	{
		if (used == c && open == 0) { out.push_back(s); return; }
		if (used < c) { s += '('; self(self, open + 1, used + 1); s.pop_back(); }
		if (open) { s += ')'; self(self, open - 1, used); s.pop_back(); }
	};
	rec(rec, 0, 0);
}
