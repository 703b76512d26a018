// R01: breadth-first search over histories of response::Value operations on two values, against a plain tree model.
// R02: exhaustive enumeration of value trees and JSON texts against an independent JSON writer and reader.
#include "mc.h"
#include <numeric>
#include <cmath>
#include <deque>
#include <limits>
#include <memory>
#include <optional>
#include "graphqlservice/GraphQLResponse.h"
#include "graphqlservice/JSONResponse.h"
using namespace graphql::response;

// ---------------------------------------------------------------- model
struct M
{
	enum K { Map, List, String, Null, Bool, Int, Float, Enum, Scalar, Moved } k = Null;
	std::string s;
	bool json = false; // the string came from JSON and may be an enum
	bool b = false;
	int i = 0;
	double f = 0;
	std::vector<std::pair<std::string, M>> map;
	std::vector<M> list; // also the scalar's content
	bool loose = false;  // a released string: content unspecified
};
static bool eq(const M& a, const M& b)
{
	if (a.k != b.k) return false;
	switch (a.k)
	{
		case M::Map:
			if (a.map.size() != b.map.size()) return false;
			for (size_t n = 0; n < a.map.size(); ++n)
				if (a.map[n].first != b.map[n].first || !eq(a.map[n].second, b.map[n].second)) return false;
			return true;
		case M::List:
		case M::Scalar:
			if (a.list.size() != b.list.size()) return false;
			for (size_t n = 0; n < a.list.size(); ++n)
				if (!eq(a.list[n], b.list[n])) return false;
			return true;
		case M::String: return a.s == b.s; // where it came from is no part of the value
		case M::Enum: return a.s == b.s;
		case M::Null: return true;
		case M::Bool: return a.b == b.b;
		case M::Int: return a.i == b.i;
		case M::Float: return a.f == b.f;
		default: return true;
	}
}
static std::string show(const M& m)
{
	switch (m.k)
	{
		case M::Map:
		{
			std::string o = "{";
			for (auto& e : m.map) o += e.first + ":" + show(e.second) + ",";
			return o + "}";
		}
		case M::List:
		{
			std::string o = "[";
			for (auto& e : m.list) o += show(e) + ",";
			return o + "]";
		}
		case M::Scalar: return m.list.empty() ? "scalar()" : "scalar(" + show(m.list[0]) + ")";
		case M::String: return m.loose ? "released-string" : (m.json ? "json'" : "'") + m.s + "'";
		case M::Enum: return m.loose ? "released-enum" : "enum " + m.s;
		case M::Null: return "null";
		case M::Bool: return m.b ? "true" : "false";
		case M::Int: return std::to_string(m.i);
		case M::Float: return std::to_string(m.f) + "f";
		case M::Moved: return "moved";
	}
	return "?";
}
static size_t weight(const M& m)
{
	size_t n = 1;
	for (auto& e : m.map) n += weight(e.second);
	for (auto& e : m.list) n += weight(e);
	return n;
}
static bool loose(const M& m)
{
	if (m.loose || m.k == M::Moved) return true;
	for (auto& e : m.map) if (loose(e.second)) return true;
	for (auto& e : m.list) if (loose(e)) return true;
	return false;
}

template <class F>
static bool throws(F&& f)
{
	try { f(); return false; }
	catch (const std::exception&) { return true; }
}

static const std::vector<uint8_t> ID1 { 1, 2, 3 }, ID2 { 0xfb, 0xff };
static const std::string ID1S = "AQID", ID2S = "+/8=";
static bool isBase64(const std::string& s) { return s.empty() || s == ID1S || s == ID2S; }

// Compares a real value with the model through every public observer. Returns a description of the difference.
static std::string observe(const Value& v, const M& m)
{
	static const Type T[] = { Type::Map, Type::List, Type::String, Type::Null, Type::Boolean, Type::Int, Type::Float, Type::EnumValue, Type::Scalar };
	if (m.k == M::Moved) return "";
	if (v.type() != T[m.k]) return "type() is " + std::to_string(int(v.type())) + " for " + show(m);
	if (m.loose) return v.maybe_enum() == (m.k == M::Enum) ? "" : "maybe_enum() after release of " + show(m);
	if (v.maybe_enum() != (m.k == M::Enum || (m.k == M::String && m.json))) return "maybe_enum() of " + show(m);
	auto th = [&](const char* what, bool t, bool want) { return t == want ? std::string() : std::string(what) + (t ? " throws for " : " does not throw for ") + show(m); };
	std::string e;
	auto add = [&](std::string x) { if (e.empty()) e = std::move(x); };
	bool isMap = m.k == M::Map, isList = m.k == M::List;
	add(th("size()", throws([&] { v.size(); }), !isMap && !isList));
	add(th("find()", throws([&] { v.find("a"); }), !isMap));
	add(th("begin()", throws([&] { v.begin(); }), !isMap));
	add(th("end()", throws([&] { v.end(); }), !isMap));
	add(th("get<Map>", throws([&] { v.get<MapType>(); }), !isMap));
	add(th("get<List>", throws([&] { v.get<ListType>(); }), !isList));
	add(th("get<String>", throws([&] { v.get<StringType>(); }), m.k != M::String && m.k != M::Enum));
	add(th("get<Bool>", throws([&] { v.get<BooleanType>(); }), m.k != M::Bool));
	add(th("get<Int>", throws([&] { v.get<IntType>(); }), m.k != M::Int));
	add(th("get<Float>", throws([&] { v.get<FloatType>(); }), m.k != M::Int && m.k != M::Float));
	add(th("get<Scalar>", throws([&] { v.get<ScalarType>(); }), m.k != M::Scalar || m.list.empty()));
	if (m.k != M::String || isBase64(m.s) || m.s == "x" || m.s == "y" || m.s == "p") add(th("get<Id>", throws([&] { v.get<IdType>(); }), m.k != M::String || !isBase64(m.s)));
	add(th("[0]", throws([&] { v[size_t(0)]; }), !isList || m.list.empty()));
	add(th("[\"a\"]", throws([&] { v["a"]; }), !isMap || std::none_of(m.map.begin(), m.map.end(), [](auto& x) { return x.first == "a"; })));
	if (!e.empty()) return e;
	switch (m.k)
	{
		case M::Map:
		{
			if (v.size() != m.map.size()) return "size() of " + show(m) + " is " + std::to_string(v.size());
			size_t n = 0;
			for (auto it = v.begin(); it != v.end(); ++it, ++n)
			{
				if (it->first != m.map[n].first) return "member " + std::to_string(n) + " of " + show(m) + " is named " + it->first;
				if (e = observe(it->second, m.map[n].second); !e.empty()) return e;
			}
			if (n != m.map.size()) return "iteration of " + show(m);
			for (std::string k : { "a", "b", "c", "zz", "" })
			{
				size_t at = 0;
				while (at < m.map.size() && m.map[at].first != k) ++at;
				auto it = v.find(k);
				if (size_t(it - v.begin()) != at) return "find(" + k + ") in " + show(m) + " is at " + std::to_string(it - v.begin());
				if (at < m.map.size() && &v[k] != &it->second) return "operator[](" + k + ") in " + show(m);
			}
			return &v.get<MapType>()[0] == &*v.begin() || m.map.empty() ? "" : "get<Map> of " + show(m);
		}
		case M::List:
		{
			if (v.size() != m.list.size()) return "size() of " + show(m) + " is " + std::to_string(v.size());
			for (size_t n = 0; n < m.list.size(); ++n)
				if (e = observe(v[n], m.list[n]); !e.empty()) return e;
			if (!throws([&] { v[m.list.size()]; })) return "out of range index accepted in " + show(m);
			return v.get<ListType>().size() == m.list.size() ? "" : "get<List> of " + show(m);
		}
		case M::String:
			if (v.get<StringType>() != m.s) return "string is '" + v.get<StringType>() + "' for " + show(m);
			if (m.s == ID1S && v.get<IdType>() != ID1) return "get<Id>";
			if (m.s == ID2S && v.get<IdType>() != ID2) return "get<Id>";
			return "";
		case M::Enum: return v.get<StringType>() == m.s ? "" : "enum is " + v.get<StringType>() + " for " + show(m);
		case M::Bool: return v.get<BooleanType>() == m.b ? "" : "get<Bool> of " + show(m);
		case M::Int: return v.get<IntType>() == m.i && v.get<FloatType>() == double(m.i) ? "" : "get<Int> of " + show(m);
		case M::Float: return v.get<FloatType>() == m.f ? "" : "get<Float> of " + show(m);
		case M::Scalar: return m.list.empty() ? "" : observe(v.get<ScalarType>(), m.list[0]);
		default: return "";
	}
}

struct World
{
	Value v[2];
	M m[2];
};

struct Op
{
	std::string name;
	// enabled in this model state?
	std::function<bool(const World&)> enabled;
	// performs the step on both; returns a difference
	std::function<std::string(World&)> step;
};

static std::vector<Op> makeOps()
{
	std::vector<Op> ops;
	auto always = [](const World&) { return true; };
	for (int s = 0; s < 2; ++s)
	{
		int o = 1 - s;
		std::string S = s ? "B" : "A", O = s ? "A" : "B";
		auto live = [s](const World& w) { return w.m[s].k != M::Moved; };
		auto strict = [s](const World& w) { return !loose(w.m[s]); };
		auto assign = [&](std::string n, std::function<Value()> mk, M m) {
			ops.push_back({ S + "=" + n, always, [s, mk, m](World& w) { w.v[s] = mk(); w.m[s] = m; return std::string(); } });
		};
		auto K = [](M::K k) { M m; m.k = k; return m; };
		assign("Null", [] { return Value {}; }, K(M::Null));
		assign("Map", [] { return Value { Type::Map }; }, K(M::Map));
		assign("List", [] { return Value { Type::List }; }, K(M::List));
		assign("String", [] { return Value { Type::String }; }, K(M::String));
		assign("Boolean", [] { return Value { Type::Boolean }; }, K(M::Bool));
		assign("Int", [] { return Value { Type::Int }; }, K(M::Int));
		assign("Float", [] { return Value { Type::Float }; }, K(M::Float));
		assign("Enum", [] { return Value { Type::EnumValue }; }, K(M::Enum));
		assign("Scalar", [] { return Value { Type::Scalar }; }, K(M::Scalar));
		{
			M m = K(M::String); m.s = "x";
			assign("Value(\"x\")", [] { return Value { "x" }; }, m);
			m.s = "y"; 
			assign("Value(string y)", [] { return Value { std::string("y") }; }, m);
			m.s = ID1S;
			assign("Value(IdType)", [] { return Value { ID1 }; }, m);
			m = K(M::Bool); m.b = true;
			assign("Value(true)", [] { return Value { true }; }, m);
			m = K(M::Int); m.i = 7;
			assign("Value(7)", [] { return Value { 7 }; }, m);
			m = K(M::Float); m.f = 1.5;
			assign("Value(1.5)", [] { return Value { 1.5 }; }, m);
		}
		ops.push_back({ S + "=" + S + ".from_json()", strict, [s](World& w) {
			Value t { w.v[s].from_json() };
			w.v[s] = std::move(t);
			if (w.m[s].k == M::String) w.m[s].json = true;
			return std::string();
		} });
		auto setter = [&](std::string n, std::function<void(Value&)> f, std::function<bool(M&)> mf) {
			ops.push_back({ S + ".set<" + n + ">", live, [s, f, mf, n](World& w) {
				bool t = throws([&] { f(w.v[s]); });
				bool ok = mf(w.m[s]);
				return t == !ok ? std::string() : "set<" + n + ">" + (t ? " throws" : " does not throw") + " on " + show(w.m[s]);
			} });
		};
		setter("String", [](Value& v) { v.set<StringType>("p"); }, [](M& m) { if (m.k != M::String && m.k != M::Enum) return false; m.s = "p"; m.loose = false; return true; });
		setter("Boolean", [](Value& v) { v.set<BooleanType>(true); }, [](M& m) { if (m.k != M::Bool) return false; m.b = true; return true; });
		setter("Int", [](Value& v) { v.set<IntType>(-3); }, [](M& m) { if (m.k == M::Float) { m.f = -3; return true; } if (m.k != M::Int) return false; m.i = -3; return true; });
		setter("Float", [](Value& v) { v.set<FloatType>(2.5); }, [](M& m) { if (m.k != M::Float) return false; m.f = 2.5; return true; });
		setter("Id", [](Value& v) { v.set<IdType>(ID2); }, [](M& m) { if (m.k != M::String) return false; m.s = ID2S; m.loose = false; return true; });
		ops.push_back({ S + ".set<Scalar>(move " + O + ")", [s, o](const World& w) { return w.m[s].k != M::Moved && !loose(w.m[o]); }, [s, o](World& w) {
			bool ok = w.m[s].k == M::Scalar;
			bool t = throws([&] { w.v[s].set<ScalarType>(std::move(w.v[o])); });
			if (t == ok) return std::string("set<Scalar> throws=") + (t ? "1" : "0");
			if (ok) { w.m[s].list = { w.m[o] }; w.m[o] = M {}; w.m[o].k = M::Moved; }
			return std::string();
		} });
		for (std::string key : { "b", "a", "c" })
		{
			ops.push_back({ S + ".emplace_back(\"" + key + "\", 1)", live, [s, key](World& w) {
				bool r = false;
				bool t = throws([&] { r = w.v[s].emplace_back(std::string(key), Value { 1 }); });
				auto& m = w.m[s];
				if (t != (m.k != M::Map)) return "emplace_back(name) throws=" + std::to_string(t) + " on " + show(m);
				if (t) return std::string();
				bool dup = std::any_of(m.map.begin(), m.map.end(), [&](auto& x) { return x.first == key; });
				if (r == dup) return "emplace_back(" + key + ") returns " + std::to_string(r) + " on " + show(m);
				if (!dup) { M x; x.k = M::Int; x.i = 1; m.map.emplace_back(key, x); }
				return std::string();
			} });
		}
		ops.push_back({ S + ".emplace_back(\"a\", move " + O + ")", [s, o](const World& w) { return w.m[s].k == M::Map && !loose(w.m[o])
			&& std::none_of(w.m[s].map.begin(), w.m[s].map.end(), [](auto& x) { return x.first == "a"; }); }, [s, o](World& w) {
			if (!w.v[s].emplace_back("a", std::move(w.v[o]))) return std::string("emplace_back(a, value) rejected");
			w.m[s].map.emplace_back("a", w.m[o]);
			w.m[o] = M {};
			w.m[o].k = M::Moved;
			return std::string();
		} });
		ops.push_back({ S + ".emplace_back(copy " + O + ")", [s, o](const World& w) { return w.m[s].k != M::Moved && !loose(w.m[o]); }, [s, o](World& w) {
			Value copy { w.v[o] };
			bool t = throws([&] { w.v[s].emplace_back(std::move(copy)); });
			if (t != (w.m[s].k != M::List)) return "emplace_back throws=" + std::to_string(t) + " on " + show(w.m[s]);
			if (!t) w.m[s].list.push_back(w.m[o]);
			return std::string();
		} });
		ops.push_back({ S + "=copy " + O, [o](const World& w) { return !loose(w.m[o]); }, [s, o](World& w) {
			Value copy { w.v[o] };
			if (!(copy == w.v[o]) || copy != w.v[o]) return "copy of " + show(w.m[o]) + " is not equal to it";
			w.v[s] = std::move(copy);
			w.m[s] = w.m[o];
			return std::string();
		} });
		ops.push_back({ S + "=move " + O, [o](const World& w) { return w.m[o].k != M::Moved; }, [s, o](World& w) {
			w.v[s] = std::move(w.v[o]);
			w.m[s] = w.m[o];
			w.m[o] = M {};
			w.m[o].k = M::Moved;
			return std::string();
		} });
		ops.push_back({ S + "=move " + S, live, [s](World& w) { Value& r = w.v[s]; w.v[s] = std::move(r); return std::string(); } });
		ops.push_back({ S + "=Value(move " + S + ")", live, [s](World& w) { Value t { std::move(w.v[s]) }; w.v[s] = std::move(t); return std::string(); } });
		if (s == 0) ops.push_back({ "swap", always, [](World& w) { std::swap(w.v[0], w.v[1]); std::swap(w.m[0], w.m[1]); return std::string(); } });
		ops.push_back({ S + ".reserve(5)", live, [s](World& w) {
			bool t = throws([&] { w.v[s].reserve(5); });
			return t == (w.m[s].k != M::Map && w.m[s].k != M::List) ? std::string() : "reserve throws=" + std::to_string(t);
		} });
		// releases
		ops.push_back({ S + ".release<Map>", strict, [s](World& w) {
			auto& m = w.m[s];
			MapType r;
			bool t = throws([&] { r = w.v[s].release<MapType>(); });
			if (t != (m.k != M::Map)) return "release<Map> throws=" + std::to_string(t);
			if (t) return std::string();
			if (r.size() != m.map.size()) return std::string("release<Map> size");
			for (size_t n = 0; n < r.size(); ++n)
			{
				if (r[n].first != m.map[n].first) return std::string("release<Map> order");
				if (auto e = observe(r[n].second, m.map[n].second); !e.empty()) return e;
			}
			m.map.clear();
			return std::string();
		} });
		ops.push_back({ S + ".release<List>", strict, [s](World& w) {
			auto& m = w.m[s];
			ListType r;
			bool t = throws([&] { r = w.v[s].release<ListType>(); });
			if (t != (m.k != M::List)) return "release<List> throws=" + std::to_string(t);
			if (t) return std::string();
			if (r.size() != m.list.size()) return std::string("release<List> size");
			for (size_t n = 0; n < r.size(); ++n)
				if (auto e = observe(r[n], m.list[n]); !e.empty()) return e;
			m.list.clear();
			return std::string();
		} });
		ops.push_back({ S + ".release<String>", strict, [s](World& w) {
			auto& m = w.m[s];
			std::string r;
			bool t = throws([&] { r = w.v[s].release<StringType>(); });
			if (t != (m.k != M::String && m.k != M::Enum)) return "release<String> throws=" + std::to_string(t);
			if (t) return std::string();
			if (r != m.s) return "release<String> gives '" + r + "' for " + show(m);
			m.loose = true;
			m.json = false;
			m.s.clear();
			return std::string();
		} });
		ops.push_back({ S + ".release<Id>", strict, [s](World& w) {
			auto& m = w.m[s];
			IdType r;
			bool t = throws([&] { r = w.v[s].release<IdType>(); });
			if (t != (m.k != M::String || !isBase64(m.s))) return "release<Id> throws=" + std::to_string(t);
			if (m.k != M::String) return std::string();
			if (!t && r != (m.s == ID1S ? ID1 : m.s == ID2S ? ID2 : IdType {})) return std::string("release<Id> value");
			// whatever it holds now, it is only destroyed or reassigned
			m = M {};
			m.k = M::Moved;
			return std::string();
		} });
		ops.push_back({ O + "=" + S + ".release<Scalar>", strict, [s, o](World& w) {
			auto& m = w.m[s];
			Value r;
			bool t = throws([&] { r = w.v[s].release<ScalarType>(); });
			if (t != (m.k != M::Scalar || m.list.empty())) return "release<Scalar> throws=" + std::to_string(t) + " on " + show(m);
			if (t) return std::string();
			M inner = m.list[0];
			if (auto e = observe(r, inner); !e.empty()) return e;
			w.v[o] = std::move(r);
			w.m[o] = inner;
			w.m[s].list.clear();
			return std::string();
		} });
	}
	return ops;
}

// Insertion orders of a map's members: every permutation of few keys and regular orders of many.
static std::vector<std::vector<int>> insertionOrders(int n)
{
	std::vector<std::vector<int>> out;
	std::vector<int> up(n);
	for (int i = 0; i < n; ++i) up[i] = i;
	if (n > 40)
	{
		out.push_back(up);
		out.emplace_back(up.rbegin(), up.rend());
		for (int stride : { n / 2 + 1, n / 3 + 1 })
		{
			while (std::gcd(stride, n) != 1) ++stride;
			for (int i = 0; i < n; ++i) up[i] = static_cast<int>(static_cast<long>(i) * stride % n);
			out.push_back(up);
		}
		return out;
	}
	if (n <= 7)
	{
		do out.push_back(up);
		while (std::next_permutation(up.begin(), up.end()));
		return out;
	}
	for (int stride = 1; stride < n; ++stride)
	{
		int a = n, b = stride;
		while (b) { int t = a % b; a = b; b = t; }
		if (a != 1) continue;
		for (int start = 0; start < n; start += n <= 12 ? 1 : 5)
		{
			std::vector<int> o(n);
			for (int i = 0; i < n; ++i) o[i] = (start + i * stride) % n;
			out.push_back(o);
		}
	}
	std::vector<int> zig;
	for (int lo = 0, hi = n - 1; lo <= hi; ++lo, --hi) { zig.push_back(lo); if (lo != hi) zig.push_back(hi); }
	out.push_back(zig);
	std::reverse(zig.begin(), zig.end());
	out.push_back(zig);
	return out;
}
static std::string memberName(int i, int style)
{
	switch (style)
	{
		case 0: return std::string("k") + char('0' + i / 100) + char('0' + i / 10 % 10) + char('0' + i % 10);
		case 3: return std::string(300, 'p') + std::to_string(i); // which differ far behind
		case 1: return std::string(1 + i, 'a');                    // each a prefix of the next
		default: return std::string(1 + i % 3, char('a' + i / 3)); // several lengths
	}
}
static void largeMaps(mc::Ctx& c)
{
	std::vector<int> counts;
	for (int n = 1; n <= 40; n += n < 12 ? 1 : 7) counts.push_back(n);
	for (int n : mc::sizes(c)) if (n > 40) counts.push_back(n);
	for (int n : counts)
		for (int style = 0; style < 4; ++style)
			for (auto& order : insertionOrders(n))
			{
				if (n > 40 && (style == 1 || style == 2 || (style == 3 && order[0] + 1 != n))) continue;
				if (!c.mine()) continue;
				std::string d = "map members in the order";
				for (int i : order) d += " " + memberName(i, style);
				if (!c.begin(d)) continue;
				++c.traces;
				Value v { Type::Map }, other { Type::Map };
				M m, m2;
				m.k = m2.k = M::Map;
				auto member = [&](Value& val, M& mod, int i, int x) {
					M e;
					e.k = M::Int;
					e.i = x;
					auto name = memberName(i, style);
					bool dup = std::any_of(mod.map.begin(), mod.map.end(), [&](auto& q) { return q.first == name; });
					if (val.emplace_back(std::string(name), Value { x }) == dup) c.fail("large-map-insert", "emplace_back(" + name + ") with " + std::to_string(mod.map.size()) + " members");
					if (!dup) mod.map.emplace_back(name, e);
					++c.transitions;
				};
				auto look = [&](const Value& val, const M& mod) {
					if (auto e = observe(val, mod); !e.empty()) c.fail("large-map-observe", e);
					for (int i = 0; i < n; ++i)
					{
						auto name = memberName(i, style);
						auto want = std::find_if(mod.map.begin(), mod.map.end(), [&](auto& q) { return q.first == name; });
						auto got = val.find(name);
						if ((got == val.end()) != (want == mod.map.end())) c.fail("large-map-find", name + (want == mod.map.end() ? " is found" : " is not found") + " among " + std::to_string(mod.map.size()));
						else if (want != mod.map.end() && (got->first != name || got->second.get<int>() != want->second.i || val[name].get<int>() != want->second.i)) c.fail("large-map-find", "wrong member for " + name);
					}
				};
				for (int k = 0; k < n; ++k)
				{
					member(v, m, order[k], 100 + k);
					member(v, m, order[k], -1);         // again
					member(v, m, order[k / 2], -2);     // an earlier one
					member(v, m, order[0], -3);
					if ((n > 8 && (n <= 40 || k % 37 == 0)) || k + 1 == n) look(v, m);
				}
				for (int k = 0; k < n; ++k) member(v, m, k, -4);
				if (v.size() != size_t(n)) c.fail("large-map-size", std::to_string(v.size()));
				Value copy { v };
				look(copy, m);
				if (!(copy == v)) c.fail("large-map-equality", "copy of " + show(m));
				M more = m;
				{
					M e;
					e.k = M::Int;
					e.i = 5;
					if (!copy.emplace_back("zzzz", Value { 5 })) c.fail("large-map-insert", "into a copy");
					more.map.emplace_back("zzzz", e);
				}
				look(copy, more);
				if (copy == v) c.fail("large-map-equality", "with one more member");
				auto members = copy.release<MapType>();
				if (members.size() != size_t(n) + 1) c.fail("large-map-release", "size");
				else
					for (int k = 0; k <= n; ++k)
						if (members[k].first != more.map[k].first || members[k].second.get<int>() != more.map[k].second.i) c.fail("large-map-release", "order");
				// and with one value changed
				for (int k = 0; k < n; ++k) member(other, m2, order[k], k == n / 2 ? 7 : 100 + k);
				if (other == v) c.fail("large-map-equality", "with another value");
				if (!copy.emplace_back("b", Value { 1 }) || !copy.emplace_back("a", Value { 2 }) || copy.emplace_back("b", Value { 3 })) c.fail("large-map-reuse", "after release");
			}
	std::vector<int> lengths { 0 };
	for (int n = 1; n <= 40; ++n) lengths.push_back(n);
	for (int n : { 63, 64, 65, 127, 128, 129, 255, 256, 257 }) lengths.push_back(n);
	for (int n : lengths)
	{
		if (!c.mine() || !c.begin("list of " + std::to_string(n))) continue;
		Value v { Type::List };
		M m;
		m.k = M::List;
		for (int k = 0; k < n; ++k)
		{
			v.emplace_back(Value { k });
			M e;
			e.k = M::Int;
			e.i = k;
			m.list.push_back(e);
			++c.transitions;
			if (auto e2 = observe(v, m); !e2.empty()) c.fail("large-list", e2);
		}
		for (int k = 0; k < n; ++k)
			for (int delta : { 0, 1 })
			{
				Value w { Type::List };
				for (int q = 0; q < n; ++q) w.emplace_back(Value { q == k ? q + delta : q });
				if ((w == v) != !delta) c.fail("large-list-equality", "element " + std::to_string(k) + " of " + std::to_string(n));
			}
		++c.traces;
	}
}

static void value(mc::Ctx& c)
{
	largeMaps(c);
	const auto ops = makeOps();
	const size_t maxWeight = c.thorough ? 9 : 6;
	const int depth = c.thorough ? 6 : 5;
	std::unordered_set<std::string> seen;
	struct Node { std::vector<uint16_t> h; };
	std::deque<Node> q { {} };
	auto keyOf = [](const World& w) { return show(w.m[0]) + "|" + show(w.m[1]); };
	{
		World w;
		seen.insert(keyOf(w));
		if (!c.shard) ++c.states;
	}
	// The breadth-first search runs in every worker on the model and is shared out by transition:
	// a worker executes the real operations only for the transitions that it owns.
	while (!q.empty())
	{
		auto n = q.front();
		q.pop_front();
		for (uint16_t k = 0; k < ops.size(); ++k)
		{
			if (c.expired("value operation histories")) return;
			World w;
			for (auto x : n.h) ops[x].step(w);
			if (!ops[k].enabled(w)) continue;
			bool own = (mc::fnv(keyOf(w)) % c.nshards) == uint64_t(c.shard);
			if (own)
			{
				std::string d;
				for (auto x : n.h) d += ops[x].name + "; ";
				d += ops[k].name;
				if (!c.begin(d, false)) own = false;
			}
			auto before = own ? keyOf(w) : std::string();
			auto e = ops[k].step(w);
			if (own)
			{
				++c.transitions;
				++c.traces;
				if (!e.empty()) c.fail("op:" + ops[k].name.substr(1), e);
				for (int s = 0; s < 2; ++s)
					if (auto x = observe(w.v[s], w.m[s]); !x.empty()) c.fail("observe:" + ops[k].name.substr(1), x + " after " + ops[k].name);
				if (!loose(w.m[0]) && !loose(w.m[1]))
				{
					bool want = eq(w.m[0], w.m[1]);
					if ((w.v[0] == w.v[1]) != want || (w.v[0] != w.v[1]) == want || (w.v[1] == w.v[0]) != want)
						c.fail("equality", show(w.m[0]) + " == " + show(w.m[1]) + " should be " + std::to_string(want));
				}
				for (int s = 0; s < 2; ++s)
					if (!loose(w.m[s]))
					{
						try
						{
							Value copy { w.v[s] };
							if (auto x = observe(copy, w.m[s]); !x.empty()) c.fail("copy", x);
							if (!(copy == w.v[s])) c.fail("copy-equality", show(w.m[s]));
							// independent: a member added to the copy does not appear in the original
							if (w.m[s].k == M::Map) { copy.emplace_back("zz", Value { 9 }); M m2 = w.m[s]; M x; x.k = M::Int; x.i = 9; m2.map.emplace_back("zz", x); if (auto y = observe(copy, m2); !y.empty()) c.fail("copy-then-insert", y); }
							if (w.m[s].k == M::List) copy.emplace_back(Value { 9 });
							if (auto x = observe(w.v[s], w.m[s]); !x.empty()) c.fail("copy-aliases", x);
						}
						catch (const std::exception& ex) { c.fail("copy-throws", show(w.m[s]) + ": " + ex.what()); }
					}
				c.outcome(std::to_string(w.m[0].k) + "/" + std::to_string(w.m[1].k));
			}
			if (weight(w.m[0]) > maxWeight || weight(w.m[1]) > maxWeight) continue;
			if (seen.insert(keyOf(w)).second)
			{
				if (own) ++c.states;
				if (int(n.h.size()) + 1 < depth) { Node n2 = n; n2.h.push_back(k); q.push_back(n2); }
			}
		}
	}
	c.counters["distinct_model_states"] = c.shard ? 0 : seen.size();
}

// ---------------------------------------------------------------- JSON
// An independent strict RFC 8259 reader producing the model.
struct JP
{
	const std::string& t;
	size_t p = 0;
	bool ok = true, big = false;
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
	bool lit(const char* s) { size_t n = std::strlen(s); if (t.compare(p, n, s) == 0) { p += n; return true; } return ok = false; }
	static void utf8(std::string& o, uint32_t c)
	{
		if (c < 0x80) o += char(c);
		else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
		else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	}
	int hex4()
	{
		if (p + 4 > t.size()) { ok = false; return 0; }
		int v = 0;
		for (int i = 0; i < 4; ++i)
		{
			char c = t[p++];
			int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
			if (d < 0) { ok = false; return 0; }
			v = v * 16 + d;
		}
		return v;
	}
	std::string str()
	{
		std::string o;
		if (p >= t.size() || t[p] != '"') { ok = false; return o; }
		++p;
		while (ok)
		{
			if (p >= t.size()) { ok = false; break; }
			unsigned char ch = t[p++];
			if (ch == '"') return o;
			if (ch < 0x20) { ok = false; break; }
			if (ch != '\\') { o += char(ch); continue; }
			if (p >= t.size()) { ok = false; break; }
			char e = t[p++];
			switch (e)
			{
				case '"': case '\\': case '/': o += e; break;
				case 'b': o += '\b'; break;
				case 'f': o += '\f'; break;
				case 'n': o += '\n'; break;
				case 'r': o += '\r'; break;
				case 't': o += '\t'; break;
				case 'u':
				{
					uint32_t a = hex4();
					if (a >= 0xD800 && a < 0xDC00)
					{
						if (p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u')
						{
							p += 2;
							uint32_t b = hex4();
							if (b < 0xDC00 || b > 0xDFFF) { ok = false; break; }
							a = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
						}
						else { ok = false; break; }
					}
					else if (a >= 0xDC00 && a < 0xE000) { ok = false; break; }
					utf8(o, a);
					break;
				}
				default: ok = false;
			}
		}
		return o;
	}
	M num()
	{
		size_t s = p;
		bool isFloat = false;
		if (p < t.size() && t[p] == '-') ++p;
		if (p >= t.size() || !isdigit((unsigned char)t[p])) { ok = false; return {}; }
		if (t[p] == '0') ++p;
		else while (p < t.size() && isdigit((unsigned char)t[p])) ++p;
		if (p < t.size() && t[p] == '.')
		{
			isFloat = true;
			++p;
			if (p >= t.size() || !isdigit((unsigned char)t[p])) { ok = false; return {}; }
			while (p < t.size() && isdigit((unsigned char)t[p])) ++p;
		}
		if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
		{
			isFloat = true;
			++p;
			if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
			if (p >= t.size() || !isdigit((unsigned char)t[p])) { ok = false; return {}; }
			while (p < t.size() && isdigit((unsigned char)t[p])) ++p;
		}
		auto n = t.substr(s, p - s);
		M m;
		if (isFloat) { m.k = M::Float; m.f = std::strtod(n.c_str(), nullptr); if (!std::isfinite(m.f)) big = true; return m; }
		errno = 0;
		long long v = std::strtoll(n.c_str(), nullptr, 10);
		if (errno || v > INT32_MAX || v < INT32_MIN) big = true;
		m.k = M::Int;
		m.i = int(v);
		return m;
	}
	M val(int d = 0)
	{
		ws();
		M m;
		if (p >= t.size() || d > 50) { ok = false; return m; }
		char ch = t[p];
		if (ch == '{')
		{
			m.k = M::Map;
			++p;
			ws();
			if (p < t.size() && t[p] == '}') { ++p; ws(); return m; }
			while (ok)
			{
				ws();
				auto k = str();
				ws();
				if (!ok || p >= t.size() || t[p] != ':') { ok = false; break; }
				++p;
				auto v = val(d + 1);
				if (!ok) break;
				if (std::none_of(m.map.begin(), m.map.end(), [&](auto& x) { return x.first == k; })) m.map.emplace_back(k, v);
				ws();
				if (p < t.size() && t[p] == ',') { ++p; continue; }
				if (p < t.size() && t[p] == '}') { ++p; break; }
				ok = false;
			}
		}
		else if (ch == '[')
		{
			m.k = M::List;
			++p;
			ws();
			if (p < t.size() && t[p] == ']') { ++p; ws(); return m; }
			while (ok)
			{
				m.list.push_back(val(d + 1));
				if (!ok) break;
				ws();
				if (p < t.size() && t[p] == ',') { ++p; continue; }
				if (p < t.size() && t[p] == ']') { ++p; break; }
				ok = false;
			}
		}
		else if (ch == '"') { m.k = M::String; m.s = str(); m.json = true; }
		else if (ch == 't') { lit("true"); m.k = M::Bool; m.b = true; }
		else if (ch == 'f') { lit("false"); m.k = M::Bool; }
		else if (ch == 'n') lit("null");
		else return num();
		ws();
		return m;
	}
};
static std::optional<M> readJson(const std::string& t, bool* big = nullptr)
{
	JP p { t };
	M m = p.val();
	p.ws();
	if (big) *big = p.big;
	if (!p.ok || p.p != t.size()) return {};
	return m;
}

// Is the text the JSON of the model? Strings and enums are JSON strings, a scalar is its content,
// a float must be a number with exactly that value.
static bool denotes(const M& json, const M& m)
{
	switch (m.k)
	{
		case M::Scalar: return denotes(json, m.list[0]);
		case M::Enum:
		case M::String: return json.k == M::String && json.s == m.s;
		case M::Float: return std::isfinite(m.f) ? json.k == M::Float && json.f == m.f && std::signbit(json.f) == std::signbit(m.f) : json.k == M::Null;
		case M::Map:
			if (json.k != M::Map || json.map.size() != m.map.size()) return false;
			for (size_t n = 0; n < m.map.size(); ++n)
				if (json.map[n].first != m.map[n].first || !denotes(json.map[n].second, m.map[n].second)) return false;
			return true;
		case M::List:
			if (json.k != M::List || json.list.size() != m.list.size()) return false;
			for (size_t n = 0; n < m.list.size(); ++n)
				if (!denotes(json.list[n], m.list[n])) return false;
			return true;
		default: return eq(json, m);
	}
}
static Value build(const M& m)
{
	switch (m.k)
	{
		case M::Map: { Value v { Type::Map }; for (auto& e : m.map) v.emplace_back(std::string(e.first), build(e.second)); return v; }
		case M::List: { Value v { Type::List }; for (auto& e : m.list) v.emplace_back(build(e)); return v; }
		case M::String: return m.json ? Value { Value { std::string(m.s) }.from_json() } : Value { std::string(m.s) };
		case M::Enum: { Value v { Type::EnumValue }; v.set<StringType>(std::string(m.s)); return v; }
		case M::Bool: return Value { m.b };
		case M::Int: return Value { m.i };
		case M::Float: return Value { m.f };
		case M::Scalar: { Value v { Type::Scalar }; v.set<ScalarType>(build(m.list[0])); return v; }
		default: return Value {};
	}
}
// JSON has nothing but null, booleans, numbers, strings, lists and maps: these come back equal.
static bool plain(const M& m)
{
	if (m.k == M::Enum || m.k == M::Scalar || (m.k == M::Float && !std::isfinite(m.f))) return false;
	for (auto& x : m.list) if (!plain(x)) return false;
	for (auto& x : m.map) if (!plain(x.second)) return false;
	return true;
}
static void jsonValue(mc::Ctx& c, const M& m)
{
	if (!c.begin("toJSON " + show(m))) return;
	++c.states;
	++c.traces;
	c.transitions += 2;
	std::string t;
	try { t = toJSON(build(m)); }
	catch (const std::exception& ex) { c.fail("toJSON-throws", ex.what()); return; }
	auto r = readJson(t);
	if (!r) { c.fail("invalid-json", "text: " + t); return; }
	if (!denotes(*r, m)) { c.fail("wrong-json", "text: " + t); return; }
	try
	{
		Value back = parseJSON(t);
		if (auto e = observe(back, *r); !e.empty()) c.fail("roundtrip", "text: " + t + ": " + e);
		else if (plain(m) && (!(back == build(m)) || build(m) != back)) c.fail("roundtrip", "text: " + t + ": the value parsed does not compare equal to the value written");
	}
	catch (const std::exception& ex) { c.fail("parse-throws", "text: " + t + ": " + ex.what()); }
	c.outcome(t.substr(0, 12));
}
static void jsonText(mc::Ctx& c, const std::string& t)
{
	bool big = false;
	auto r = readJson(t, &big);
	if (!r || big) return; // the property speaks about valid texts with representable numbers
	if (!c.begin("parseJSON " + t)) return;
	++c.states;
	++c.traces;
	++c.transitions;
	try
	{
		Value v = parseJSON(t);
		if (auto e = observe(v, *r); !e.empty()) c.fail("parse-value", e);
	}
	catch (const std::exception& ex) { c.fail("parse-throws", ex.what()); }
	c.outcome("text " + t.substr(0, 6));
}
static void json(mc::Ctx& c)
{
	auto K = [](M::K k) { M m; m.k = k; return m; };
	std::vector<M> leaves { K(M::Null), K(M::Map), K(M::List) };
	std::vector<std::string> strings { "", "a", "\"", "\\", "/", "\b\f\n\r\t", std::string("\0", 1), std::string("a\0b", 3), "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac",
		"\xf0\x9f\x98\x80", "\xe2\x80\xa8", "true", "null", "1", "{}", "</script>", "a\"b\\c" };
	for (auto& s : strings)
	{
		M m = K(M::String);
		m.s = s;
		leaves.push_back(m);
		m.json = true;
		if (s.size() < 2) leaves.push_back(m);
	}
	for (auto* s : { "RED", "A_1" }) { M m = K(M::Enum); m.s = s; leaves.push_back(m); }
	for (bool b : { false, true }) { M m = K(M::Bool); m.b = b; leaves.push_back(m); }
	for (int i : { 0, 1, -1, 9, 10, 99999, INT32_MAX, INT32_MIN, INT32_MAX - 1 }) { M m = K(M::Int); m.i = i; leaves.push_back(m); }
	std::vector<double> fl { 0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1.0 / 3, 1e21, 1e22, 1e23, 123456789012345678.0, 9007199254740993.0, 1e-7, 5e-324, 2.2250738585072014e-308, 2.2250738585072011e-308, 1.7976931348623157e308,
		3.141592653589793, 2.718281828459045, 1e100, 6.02214076e23, 0.30000000000000004, 8.41e21, 5.0e-323, 4.35, 1.1e-5, 123.456e-200, 9.5e150, 2147483648.0, -2147483649.0, 4294967296.0,
		std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() };
	for (double f : fl) { M m = K(M::Float); m.f = f; leaves.push_back(m); }
	for (auto& m : leaves) if (c.mine()) jsonValue(c, m);
	// every power-of-two and power-of-ten neighbourhood
	for (int e = -1074; e < 1024; e += c.thorough ? 1 : 3)
		for (int k = 0; k < (c.thorough ? 24 : 8); ++k)
		{
			if (!c.mine()) continue;
			M m = K(M::Float);
			m.f = std::ldexp(1.0 + (k % 8) / 8.0 * (k & 1 ? 0.9999999999999 : 1) + k * 1.1102230246251565e-15, e);
			if (std::isfinite(m.f) && m.f != 0) jsonValue(c, m);
		}
	for (int e = -320; e < 309; ++e)
		for (int d = 1; d <= 99; d += c.thorough ? 1 : 7)
		{
			if (!c.mine()) continue;
			M m = K(M::Float);
			m.f = std::strtod((std::to_string(d) + "e" + std::to_string(e)).c_str(), nullptr);
			if (!std::isfinite(m.f)) continue;
			jsonValue(c, m);
			double up = std::nextafter(m.f, 1e308), dn = std::nextafter(m.f, -1e308);
			m.f = up;
			if (std::isfinite(m.f)) jsonValue(c, m);
			m.f = dn;
			jsonValue(c, m);
		}
	// every string of length <= 2 (3) over a class-covering set of characters
	const std::vector<std::string> ch { std::string("\0", 1), "\x01", "\n", "\x1f", " ", "\"", "\\", "/", "u", "0", "\x7f", "\xc2\x80", "\xe2\x80\xa9", "\xf0\x90\x80\x80" };
	std::function<void(std::string, int)> srec = [&](std::string s, int d) {
		if (c.mine()) { M m = K(M::String); m.s = s; jsonValue(c, m); M e = K(M::Enum); e.s = s; M l = K(M::Map); l.map.emplace_back(s, m); l.map.emplace_back(s + "x", e); jsonValue(c, l); }
		if (d) for (auto& x : ch) srec(s + x, d - 1);
	};
	srec("", c.thorough ? 4 : 3);
	for (int i = 1; i < 128; ++i) if (c.mine()) { M m = K(M::String); m.s = std::string("x") + char(i) + "y"; jsonValue(c, m); }
	// trees: containers of leaves, containers of containers
	std::vector<M> small;
	for (auto& m : leaves)
		if (m.k == M::Null || m.k == M::Map || m.k == M::List || m.k == M::Bool || m.k == M::Enum || (m.k == M::Int && m.i <= 0) || (m.k == M::Float && m.f == 0.5) || (m.k == M::String && (m.s == "" || m.s == "\"" || m.s[0] == 0))) small.push_back(m);
	auto containers = [&](const std::vector<M>& els, std::vector<M>& out) {
		for (auto& a : els)
		{
			M l = K(M::List); l.list = { a }; out.push_back(l);
			M s = K(M::Scalar); s.list = { a }; out.push_back(s);
			M mp = K(M::Map); mp.map = { { "k", a } }; out.push_back(mp);
			for (auto& b : els)
			{
				M l2 = l; l2.list.push_back(b); out.push_back(l2);
				M m2 = mp; m2.map.emplace_back("a", b); out.push_back(m2);
			}
		}
	};
	std::vector<M> lvl1;
	containers(small, lvl1);
	for (auto& m : lvl1) if (c.mine()) jsonValue(c, m);
	std::vector<M> pick;
	for (size_t n = 0; n < lvl1.size(); n += c.thorough ? 2 : 5) pick.push_back(lvl1[n]);
	for (auto& m : small) pick.push_back(m);
	for (auto& a : pick)
		for (auto& b : pick)
		{
			if (!c.mine()) continue;
			M l = K(M::List); l.list = { a, b }; jsonValue(c, l);
			M m2 = K(M::Map); m2.map = { { "z", a }, { "", b } }; jsonValue(c, m2);
		}
	for (int d = 1; d <= 40; ++d)
	{
		if (!c.mine()) continue;
		M m = K(M::Null);
		for (int k = 0; k < d; ++k) { M o = K(k % 3 == 0 ? M::Map : k % 3 == 1 ? M::List : M::Scalar); if (o.k == M::Map) o.map = { { "n", m } }; else o.list = { m }; m = o; }
		jsonValue(c, m);
	}
	// long strings, names, lists and maps, with one that differs at every place
	for (int n : mc::sizes(c))
	{
		for (int j : mc::places(n))
		{
			if (!c.mine()) continue;
			for (auto& x : ch)
			{
				M m = K(M::String);
				for (int i = 0; i < n; ++i) m.s += i == j ? x : std::string(1, 'a' + i % 26);
				jsonValue(c, m);
				M o = K(M::Map);
				o.map = { { m.s, m }, { m.s + "2", K(M::Null) } };
				jsonValue(c, o);
				m.k = M::Enum;
				jsonValue(c, m);
			}
			for (auto& x : leaves)
			{
				M l = K(M::List), o = K(M::Map);
				for (int i = 0; i < n; ++i)
				{
					M e = K(M::Int);
					e.i = i;
					l.list.push_back(i == j ? x : e);
					o.map.emplace_back("m" + std::to_string((i * 7) % n) + (n % 7 ? "" : "," + std::to_string(i)), i == j ? x : e);
				}
				jsonValue(c, l);
				jsonValue(c, o);
			}
		}
		if (!c.mine()) continue;
		std::string text = "[";
		for (int i = 0; i < n; ++i) text += (i ? ", {\"k\": " : "{\"k\": ") + std::to_string(i) + "}";
		jsonText(c, text + "]");
		jsonText(c, "0." + std::string(n, '3'));
		jsonText(c, "1" + std::string(std::min(n, 300), '0') + ".0");
		jsonText(c, "[" + std::string(n, ' ') + "1" + std::string(n, '\n') + "]");
		if (n <= 64) jsonText(c, std::string(n, '[') + std::string(n, ']'));
	}
	// every valid text of at most N tokens
	const std::vector<std::string> tok { "{", "}", "[", "]", ":", ",", "\"a\"", "\"b\\n\"", "1", "-2.5e1", "null", "true", " " };
	int N = c.thorough ? 7 : 6;
	std::function<void(std::string, int)> trec = [&](std::string t, int d) {
		if (d < N && d > 0) jsonText(c, t);
		if (d == 0) { jsonText(c, t); return; }
		for (auto& x : tok) { if (d == N - 1 && !c.mine()) continue; trec(t + x, d - 1); }
	};
	trec("", N);
	for (auto* t : { "\"\\u0000\"", "\"a\\u0000b\"", "\"\\u00e9\"", "\"\\u20AC\"", "\"\\ud83d\\ude00\"", "\"\\/\\b\\f\\n\\r\\t\\\\\\\"\"", "{\"a\\u0000b\":1,\"a\":2}", "{\"\":{\"\":[]}}",
			 "2147483647", "-2147483648", "0", "-0", "-0.0", "1E5", "1e+5", "1e-5", "0.1", "1.7976931348623157e308", "4.9e-324", "[1,[2,[3,{\"a\":[4]}]],5]", "{\"a\":1,\"a\":2}", "{\"a\":1,\"b\":{\"a\":1},\"a\":[3]}", " [ ] ", "\t{ }\r\n",
			 "0.1000000000000000055511151231257827021181583404541015625", "123456789.123456789123456789", "2147483648.0", "9007199254740993.0", "1e22", "1e23", "8.5e-320" })
		if (c.mine()) jsonText(c, t);
	for (int a = 0; a < 0x10000; a += c.thorough ? 1 : 7)
	{
		if (!c.mine()) continue;
		char b[16];
		std::snprintf(b, sizeof b, "\"\\u%04x\"", a);
		jsonText(c, b);
		if (a >= 0xD800 && a < 0xDC00) { std::string s = b; s.pop_back(); for (auto* lo : { "\\udc00\"", "\\udfff\"", "\\uDE01\"" }) jsonText(c, s + lo); }
	}
}

MC_MAIN({ { "value", value }, { "json", json } })
