// R04: breadth-first search over operation histories of sorted_map / sorted_set against std::map / std::set.
#include "mc.h"
#include <deque>
#include <set>
#include <string>
#include <string_view>
#include "graphqlservice/internal/SortedMap.h"
using namespace graphql::internal;

struct ByLast // compares a derived property only: equivalent keys are not equal
{
	bool operator()(int a, int b) const { return a % 10 < b % 10; }
};

template <class K>
std::string show(const K& k)
{
	if constexpr (std::is_same_v<K, int>) return std::to_string(k);
	else return "'" + std::string(k) + "'";
}

template <class K, class Cmp>
struct MapSpace
{
	using SM = sorted_map<K, int, Cmp>;
	using RM = std::map<K, int, Cmp>;
	std::vector<K> keys;
	std::string name;

	struct Op { int kind; size_t key; int val; };
	// 0 emplace 1 erase(key) 2 erase(iterator at position key) 3 operator[]= 4 clear 5 at()= 6 operator[] default
	// 7 copy 8 move 9 reserve

	std::string text(const Op& o) const
	{
		static const char* n[] = { "emplace", "erase", "eraseAt", "set", "clear", "atset", "touch", "copy", "move", "reserve" };
		std::string s = n[o.kind];
		if (o.kind == 2) return s + std::to_string(o.key);
		if (o.kind == 4 || o.kind >= 7) return s;
		return s + "(" + show(keys[o.key]) + (o.kind == 0 || o.kind == 3 || o.kind == 5 ? "," + std::to_string(o.val) : "") + ")";
	}

	void apply(mc::Ctx& c, SM& m, RM& r, const Op& o, bool check) const
	{
		const K& k = keys[o.key];
		auto f = [&](const char* what) { if (check) c.fail(name + ":" + what, what); };
		switch (o.kind)
		{
			case 0:
			{
				auto a = m.emplace(k, o.val);
				auto b = r.emplace(k, o.val);
				if (a.second != b.second) f("emplace-result");
				if (a.first == m.end() || a.first - m.begin() != std::distance(r.begin(), b.first)
					|| a.first->second != b.first->second)
					f("emplace-position");
				break;
			}
			case 1:
			{
				auto it = r.find(k);
				bool had = it != r.end();
				size_t pos = 0;
				if (had) { auto nx = r.erase(it); pos = std::distance(r.begin(), nx); }
				auto e = m.erase(k);
				if (had ? size_t(e - m.begin()) != pos : e != m.end()) f("erase-position");
				break;
			}
			case 2:
			{
				if (o.key >= r.size()) break;
				auto it = std::next(r.begin(), o.key);
				r.erase(it);
				auto e = m.erase(m.begin() + o.key);
				if (size_t(e - m.begin()) != o.key) f("erase-iterator-position");
				break;
			}
			case 3: m[k] = o.val; r[k] = o.val; break;
			case 4: m.clear(); r.clear(); break;
			case 5:
			{
				bool threw = false;
				try { m.at(k) = o.val; } catch (const std::out_of_range&) { threw = true; }
				auto it = r.find(k);
				if (threw != (it == r.end())) f("at-throws");
				if (it != r.end()) it->second = o.val;
				break;
			}
			case 6: if (m[k] != r[k]) f("index-default"); break;
			case 7: { SM t(m); m = t; break; }
			case 8: { SM t(std::move(m)); m = std::move(t); break; }
			case 9: m.reserve(7); if (m.capacity() < 7) f("reserve"); break;
		}
	}

	void observe(mc::Ctx& c, const SM& m, const RM& r) const
	{
		auto f = [&](const char* what) { c.fail(name + ":" + what, what); };
		if (m.size() != r.size() || m.empty() != r.empty()) f("size");
		if (std::vector<std::pair<K, int>>(m.begin(), m.end()) != std::vector<std::pair<K, int>>(r.begin(), r.end())) f("contents");
		if (std::vector<std::pair<K, int>>(m.rbegin(), m.rend()) != std::vector<std::pair<K, int>>(r.rbegin(), r.rend())) f("reverse");
		for (auto& k : keys)
		{
			auto a = m.find(k);
			auto b = r.find(k);
			if ((a == m.end()) != (b == r.end())) f("find-presence");
			else if (b != r.end() && (a - m.begin() != std::distance(r.begin(), b) || a->second != b->second)) f("find-position");
			if constexpr (!std::is_same_v<K, int>)
			{
				auto h = m.find(std::string(k).c_str());
				if (h != a) f("find-heterogeneous");
			}
		}
		SM same;
		for (auto it = r.rbegin(); it != r.rend(); ++it) same.emplace(it->first, it->second);
		if (!(same == m)) f("equality");
		if (!r.empty())
		{
			SM diff(same);
			diff[r.begin()->first] = -5;
			if (diff == m) f("equality-values");
			diff = same;
			diff.erase(K(r.begin()->first));
			if (diff == m) f("equality-size");
		}
		if constexpr (std::is_same_v<Cmp, std::less<K>> || std::is_same_v<Cmp, shorter_or_less>)
		{
			if (r.size() == 3)
			{
				auto b = std::next(r.begin());
				auto d = std::next(b);
				SM init { *d, *r.begin(), *b };
				if (!(init == m)) f("initializer-list");
			}
		}
	}

	void explore(mc::Ctx& c, int depth) const
	{
		std::vector<Op> ops;
		for (size_t k = 0; k < keys.size(); ++k)
		{
			ops.push_back({ 0, k, 1 });
			ops.push_back({ 0, k, 2 });
			ops.push_back({ 1, k, 0 });
			ops.push_back({ 2, k, 0 });
			ops.push_back({ 3, k, 1 });
			ops.push_back({ 3, k, 2 });
			ops.push_back({ 5, k, 2 });
			ops.push_back({ 6, k, 0 });
		}
		for (int k : { 4, 7, 8, 9 }) ops.push_back({ k, 0, 0 });
		std::set<std::vector<std::pair<K, int>>> seen;
		std::deque<std::vector<Op>> q { {} };
		seen.insert(std::vector<std::pair<K, int>> {});
		if (c.shard == 0) ++c.states;
		while (!q.empty())
		{
			auto h = q.front();
			q.pop_front();
			for (auto& o : ops)
			{
				SM m;
				RM r;
				std::string d = name + ":";
				for (auto& x : h) { apply(c, m, r, x, false); d += " " + text(x); }
				d += " " + text(o);
				bool own = c.mine();
				if (own && !c.begin(d, false)) own = false;
				apply(c, m, r, o, own);
				if (own)
				{
					observe(c, m, r);
					++c.transitions;
					++c.traces;
					c.outcome("size" + std::to_string(r.size()));
				}
				std::vector<std::pair<K, int>> key(r.begin(), r.end());
				if (seen.insert(key).second)
				{
					if (own) ++c.states;
					auto h2 = h;
					h2.push_back(o);
					if (int(h2.size()) < depth) q.push_back(h2);
				}
			}
		}
	}
};

template <class K, class Cmp>
struct SetSpace
{
	using SM = sorted_set<K, Cmp>;
	using RM = std::set<K, Cmp>;
	std::vector<K> keys;
	std::string name;
	struct Op { int kind; size_t key; };
	std::string text(const Op& o) const
	{
		static const char* n[] = { "emplace", "erase", "eraseAt", "clear", "copy", "move" };
		return std::string(n[o.kind]) + (o.kind < 2 ? "(" + show(keys[o.key]) + ")" : std::to_string(o.key));
	}
	void apply(mc::Ctx& c, SM& m, RM& r, const Op& o, bool check) const
	{
		const K& k = keys[o.key];
		auto f = [&](const char* what) { if (check) c.fail(name + ":" + what, what); };
		switch (o.kind)
		{
			case 0:
			{
				auto a = m.emplace(k);
				auto b = r.emplace(k);
				if (a.second != b.second) f("emplace-result");
				if (a.first == m.end() || a.first - m.begin() != std::distance(r.begin(), b.first) || *a.first != *b.first) f("emplace-position");
				break;
			}
			case 1:
			{
				auto it = r.find(k);
				bool had = it != r.end();
				size_t pos = 0;
				if (had) { auto nx = r.erase(it); pos = std::distance(r.begin(), nx); }
				auto e = m.erase(k);
				if (had ? size_t(e - m.begin()) != pos : e != m.end()) f("erase-position");
				break;
			}
			case 2:
			{
				if (o.key >= r.size()) break;
				r.erase(std::next(r.begin(), o.key));
				auto e = m.erase(m.begin() + o.key);
				if (size_t(e - m.begin()) != o.key) f("erase-iterator-position");
				break;
			}
			case 3: m.clear(); r.clear(); break;
			case 4: { SM t(m); m = t; break; }
			case 5: { SM t(std::move(m)); m = std::move(t); break; }
		}
	}
	void explore(mc::Ctx& c, int depth) const
	{
		std::vector<Op> ops;
		for (size_t k = 0; k < keys.size(); ++k)
			for (int kind : { 0, 1, 2 }) ops.push_back({ kind, k });
		for (int k : { 3, 4, 5 }) ops.push_back({ k, 0 });
		std::set<std::vector<K>> seen;
		std::deque<std::vector<Op>> q { {} };
		seen.insert(std::vector<K> {});
		if (c.shard == 0) ++c.states;
		auto f = [&](const char* what) { c.fail(name + ":" + what, what); };
		while (!q.empty())
		{
			auto h = q.front();
			q.pop_front();
			for (auto& o : ops)
			{
				SM m;
				RM r;
				std::string d = name + ":";
				for (auto& x : h) { apply(c, m, r, x, false); d += " " + text(x); }
				d += " " + text(o);
				bool own = c.mine();
				if (own && !c.begin(d, false)) own = false;
				apply(c, m, r, o, own);
				if (own)
				{
					if (m.size() != r.size() || m.empty() != r.empty()) f("size");
					if (std::vector<K>(m.begin(), m.end()) != std::vector<K>(r.begin(), r.end())) f("contents");
					if (std::vector<K>(m.rbegin(), m.rend()) != std::vector<K>(r.rbegin(), r.rend())) f("reverse");
					for (auto& k : keys)
					{
						auto a = m.find(k);
						auto b = r.find(k);
						if ((a == m.end()) != (b == r.end())) f("find-presence");
						else if (b != r.end() && (a - m.begin() != std::distance(r.begin(), b) || *a != *b)) f("find-position");
						if constexpr (!std::is_same_v<K, int>)
							if (m.find(std::string(k).c_str()) != a) f("find-heterogeneous");
					}
					SM same;
					for (auto it = r.rbegin(); it != r.rend(); ++it) same.emplace(*it);
					if (!(same == m)) f("equality");
					++c.transitions;
					++c.traces;
					c.outcome("size" + std::to_string(r.size()));
				}
				std::vector<K> key(r.begin(), r.end());
				if (seen.insert(key).second)
				{
					if (own) ++c.states;
					auto h2 = h;
					h2.push_back(o);
					if (int(h2.size()) < depth) q.push_back(h2);
				}
			}
		}
	}
};

// Many keys: regular insertion orders, checked after every step, then erased in regular orders.
static bool same(int a, int b) { return a == b; }
template <class A, class B>
static bool same(const A& a, const B& b) { return a.first == b.first && a.second == b.second; }
template <class SM, class RM, class Put>
static void large(mc::Ctx& c, const std::string& name, Put put)
{
	std::vector<int> ns;
	for (int n = 6; n <= 40; n += n < 18 ? 1 : 11) ns.push_back(n);
	for (int n : { 63, 64, 65, 127, 128, 129, 257 }) ns.push_back(n);
	for (int n : ns)
		for (int stride = 1; stride < n; ++stride)
		{
			if (n > 40 && stride != 1 && stride != n - 1 && stride != n / 2 - 1 && stride != 7) continue;
			int a = n, b = stride;
			while (b) { int t = a % b; a = b; b = t; }
			if (a != 1) continue;
			for (int start = 0; start < n; start += n < 10 ? 1 : n > 40 ? n / 2 : 5)
				for (int back = 0; back < 2; ++back)
				{
					if (!c.mine()) continue;
					if (!c.begin(name + " of " + std::to_string(n) + " from " + std::to_string(start) + " by " + std::to_string(stride) + (back ? " erased backwards" : ""))) continue;
					++c.traces;
					SM m;
					RM r;
					auto check = [&] {
						++c.transitions;
						if (m.size() != r.size()) c.fail(name + ":large-size", "size");
						auto it = r.begin();
						for (auto& e : m)
						{
							if (it == r.end() || !same(e, *it)) { c.fail(name + ":large-contents", "contents"); break; }
							++it;
						}
						for (int k = -1; k <= n; ++k)
						{
							auto x = m.find(k);
							auto y = r.find(k);
							if ((x == m.end()) != (y == r.end()) || (y != r.end() && (x - m.begin()) != std::distance(r.begin(), y))) c.fail(name + ":large-find", "find " + std::to_string(k));
						}
					};
					std::vector<int> order;
					for (int i = 0; i < n; ++i) order.push_back((start + i * stride) % n);
					for (int i = 0; i < n; ++i)
					{
						for (int k : { order[i], order[i / 2] })
						{
							auto x = put(m, k, i);
							auto y = put(r, k, i);
							if (x.second != y.second || x.first - m.begin() != std::distance(r.begin(), y.first)) c.fail(name + ":large-emplace", "emplace " + std::to_string(k));
						}
						check();
					}
					if (back) std::reverse(order.begin(), order.end());
					for (int i = 0; i < n; ++i)
					{
						int k = order[back ? i : (i * 2 + i / 2) % n];
						m.erase(k);
						r.erase(k);
						check();
					}
				}
		}
}

static void sorted(mc::Ctx& c)
{
	auto putMap = [](auto& m, int k, int v) { return m.emplace(k, v); };
	auto putSet = [](auto& m, int k, int) { return m.emplace(k); };
	large<sorted_map<int, int, std::less<int>>, std::map<int, int>>(c, "largemap", putMap);
	large<sorted_map<int, int, std::greater<int>>, std::map<int, int, std::greater<int>>>(c, "largemap,greater", putMap);
	large<sorted_set<int, std::less<int>>, std::set<int>>(c, "largeset", putSet);
	int d = c.thorough ? 9 : 8;
	MapSpace<int, std::less<int>> { { 1, 2, 3, 4, 5 }, "map<int>" }.explore(c, d);
	MapSpace<int, std::greater<int>> { { 1, 2, 3, 4 }, "map<int,greater>" }.explore(c, d);
	MapSpace<int, ByLast> { { 1, 2, 11, 3, 21 }, "map<int,equivalence>" }.explore(c, d);
	MapSpace<std::string_view, shorter_or_less> { { "", "a", "b", "ab", "ba", "aaa" }, "map<string_view,shorter_or_less>" }.explore(c, d);
	MapSpace<std::string, std::less<std::string>> { { "", "a", "b", "ab", "ba" }, "map<string>" }.explore(c, d);
	SetSpace<int, std::less<int>> { { 1, 2, 3, 4, 5, 6, 7, 8 }, "set<int>" }.explore(c, 9);
	SetSpace<int, ByLast> { { 1, 2, 11, 3, 21 }, "set<int,equivalence>" }.explore(c, d);
	SetSpace<std::string_view, shorter_or_less> { { "", "a", "b", "ab", "ba", "aaa", "aab" }, "set<string_view,shorter_or_less>" }.explore(c, 9);
	SetSpace<std::string, std::less<std::string>> { { "", "a", "b", "ab", "ba", "c" }, "set<string>" }.explore(c, 9);
	if (c.thorough)
	{
		MapSpace<int, std::less<int>> { { 1, 2, 3, 4, 5, 6, 7 }, "map7<int>" }.explore(c, 8);
		SetSpace<int, std::greater<int>> { { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 }, "set10<int>" }.explore(c, 11);
	}
}
MC_MAIN({ { "sorted", sorted } })
