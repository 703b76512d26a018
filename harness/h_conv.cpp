// A01: ModifiedArgument against an independent conformance function over every modifier nesting and all value trees.
// A02: ModifiedResult over every modifier nesting, by value and by every kind of future, under both launch policies.
// C01: the client's variables through the service's arguments, the service's results through the client's parser, and
//      parseServiceResponse over enumerated responses.
#include "mc.h"
#include "conv.h"
#include "graphqlservice/JSONResponse.h"
#include <limits>

namespace conv {

std::string qq(std::string_view s) { return mc::jsonq(s); }
std::string num(double d)
{
	char t[64];
	std::snprintf(t, sizeof t, "%a", d);
	return t;
}

std::string show(const Value& v)
{
	switch (v.type())
	{
		case response::Type::Null: return "null";
		case response::Type::Int: return "i" + std::to_string(v.get<response::IntType>());
		case response::Type::Float: return "f" + num(v.get<response::FloatType>());
		case response::Type::String: return "s" + mc::jsonq(v.get<response::StringType>());
		case response::Type::EnumValue: return "e" + mc::jsonq(v.get<response::StringType>());
		case response::Type::Boolean: return v.get<response::BooleanType>() ? "true" : "false";
		case response::Type::Scalar: return "scalar(" + show(v.get<response::ScalarType>()) + ")";
		case response::Type::List:
		{
			std::string s = "[";
			for (auto& e : v.get<response::ListType>()) s += show(e) + ",";
			return s + "]";
		}
		case response::Type::Map:
		{
			std::string s = "{";
			for (auto& e : v.get<response::MapType>()) s += e.first + ":" + show(e.second) + ",";
			return s + "}";
		}
	}
	return "?";
}

Value str(const char* s) { return Value(std::string(s)); }
Value listOf(std::vector<Value> items)
{
	Value l(response::Type::List);
	for (auto& i : items) l.emplace_back(std::move(i));
	return l;
}

namespace {

std::string hex(const std::vector<uint8_t>& b)
{
	std::string s;
	for (auto c : b) { char t[4]; std::snprintf(t, sizeof t, "%02x", c); s += t; }
	return s;
}
const char* baseName(Base b)
{
	static const char* n[] = { "Int", "Float", "String", "Boolean", "ID", "Scalar", "Enum", "Object", "DerivedObject", "Interface" };
	return n[static_cast<int>(b)];
}

// Base64 by arithmetic on the text; empty optional when it is not Base64.
std::optional<std::vector<uint8_t>> unbase64(const std::string& s)
{
	static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	size_t n = s.size();
	size_t pad = 0;
	while (pad < 2 && pad < n && s[n - 1 - pad] == '=') ++pad;
	size_t m = n - pad;
	if (m % 4 == 1 || (pad && n % 4)) return std::nullopt;
	std::vector<uint8_t> out;
	uint32_t acc = 0;
	int bits = 0;
	for (size_t i = 0; i < m; ++i)
	{
		auto p = A.find(s[i]);
		if (p == std::string::npos) return std::nullopt;
		acc = (acc << 6 | static_cast<uint32_t>(p)) & 0xffffff;
		bits += 6;
		if (bits >= 8)
		{
			bits -= 8;
			out.push_back(static_cast<uint8_t>(acc >> bits));
		}
	}
	if (acc & ((1u << bits) - 1)) return std::nullopt;
	return out;
}

// text of the converted value, or nothing when the value does not conform
std::optional<std::string> conform(Base b, const std::vector<bool>& mods, size_t i, const Value* v)
{
	if (i < mods.size())
	{
		if (mods[i])
		{
			if (!v || v->type() == response::Type::Null) return "none";
			auto r = conform(b, mods, i + 1, v);
			if (!r) return r;
			return "some(" + *r + ")";
		}
		if (!v || v->type() != response::Type::List) return std::nullopt;
		std::string s = "[";
		for (auto& e : v->get<response::ListType>())
		{
			auto r = conform(b, mods, i + 1, &e);
			if (!r) return r;
			s += *r + ",";
		}
		return s + "]";
	}
	if (!v) return std::nullopt;
	auto t = v->type();
	switch (b)
	{
		case Base::Int:
			if (t != response::Type::Int) return std::nullopt;
			return "i" + std::to_string(v->get<response::IntType>());
		case Base::Float:
			if (t == response::Type::Int) return "f" + num(static_cast<double>(v->get<response::IntType>()));
			if (t != response::Type::Float) return std::nullopt;
			return "f" + num(v->get<response::FloatType>());
		case Base::String:
			if (t != response::Type::String) return std::nullopt;
			return "s" + mc::jsonq(v->get<response::StringType>());
		case Base::Boolean:
			if (t != response::Type::Boolean) return std::nullopt;
			return v->get<response::BooleanType>() ? "true" : "false";
		case Base::Id:
		{
			if (t != response::Type::String) return std::nullopt;
			auto r = unbase64(v->get<response::StringType>());
			if (!r) return std::nullopt;
			return "b" + hex(*r);
		}
		case Base::Scalar: return "v" + show(*v);
		default: break;
	}
	return std::nullopt;
}

std::vector<Value> copies(const std::vector<const Value*>& p)
{
	std::vector<Value> r;
	for (auto* v : p) r.emplace_back(*v);
	return r;
}

std::vector<Value> leaves()
{
	std::vector<Value> r;
	r.emplace_back();
	r.emplace_back(0);
	r.emplace_back(-7);
	r.emplace_back(std::numeric_limits<int>::max());
	r.emplace_back(std::numeric_limits<int>::min());
	r.emplace_back(0.0);
	r.emplace_back(-2.5);
	r.emplace_back(3.0);
	r.emplace_back(1e300);
	r.push_back(str(""));
	r.push_back(str("a"));
	r.push_back(str("QUJD"));
	r.push_back(str("QUI="));
	r.push_back(str("12"));
	r.push_back(str("AP8A"));
	r.push_back(str("true"));
	r.emplace_back(true);
	r.emplace_back(false);
	{
		Value e(response::Type::EnumValue);
		e.set<response::StringType>("QUJD");
		r.push_back(std::move(e));
	}
	for (int i = 0; i < 3; ++i)
	{
		Value s(response::Type::Scalar);
		s.set<response::ScalarType>(i == 0 ? Value(1) : i == 1 ? str("QUJD") : listOf({}));
		r.push_back(std::move(s));
	}
	r.emplace_back(response::Type::Map);
	{
		Value m(response::Type::Map);
		m.emplace_back("arg", Value(1));
		m.emplace_back("b", str("QUJD"));
		r.push_back(std::move(m));
	}
	r.emplace_back(Value(response::IdType { 1, 2, 3, 255 }));
	return r;
}

// All trees: the leaves, lists of <=2 leaves, then lists of <=2 of representatives, level by level.
std::vector<Value> universe(int levels, size_t reps)
{
	std::vector<Value> all = leaves(), prev = leaves();
	for (int l = 0; l < levels; ++l)
	{
		std::vector<Value> next;
		next.push_back(listOf({}));
		for (auto& a : prev) next.push_back(listOf(copies({ &a })));
		for (auto& a : prev)
			for (auto& b : prev) next.push_back(listOf(copies({ &a, &b })));
		for (auto& v : next) all.emplace_back(Value(v));
		// representatives for the next level: short lists of conforming and other leaves
		std::vector<Value> r;
		r.emplace_back();
		r.emplace_back(-7);
		r.push_back(str("QUJD"));
		r.emplace_back(true);
		size_t step = std::max<size_t>(1, next.size() / reps);
		for (size_t i = 0; i < next.size(); i += step) r.emplace_back(Value(next[i]));
		prev = std::move(r);
	}
	return all;
}

// One value of the wanted nesting all the way down (positions after lists), so that deep conforming values exist.
void conforming(const std::vector<bool>& mods, size_t i, const std::vector<Value>& ls, std::vector<Value>& out, size_t cap)
{
	if (i == mods.size())
	{
		for (auto& l : ls) out.emplace_back(Value(l));
		return;
	}
	std::vector<Value> inner;
	if (mods[i])
	{
		out.emplace_back();
		conforming(mods, i + 1, ls, out, cap);
		return;
	}
	conforming(mods, i + 1, ls, inner, cap);
	if (inner.size() > cap)
	{
		std::vector<Value> t;
		size_t step = inner.size() / cap + 1;
		for (size_t k = 0; k < inner.size(); k += step) t.emplace_back(Value(inner[k]));
		inner = std::move(t);
	}
	out.push_back(listOf({}));
	for (auto& a : inner) out.push_back(listOf(copies({ &a })));
	for (auto& a : inner)
		for (auto& b : inner) out.push_back(listOf(copies({ &a, &b })));
	for (auto& a : inner)
	{
		std::vector<const Value*> p(3, &a);
		p[1] = &inner[0];
		out.push_back(listOf(copies(p)));
	}
}


const std::vector<Inst>& table()
{
	static const std::vector<Inst> t = [] {
		std::vector<Inst> o;
		addInt(o); addFloat(o); addString(o); addBoolean(o); addId(o); addScalar(o);
		addEnum(o); addObject(o); addDerived(o); addInterface(o);
		return o;
	}();
	return t;
}
std::string tagOf(const Inst& i) { return std::string(baseName(i.base)) + "/" + i.mods; }

void checkArgument(mc::Ctx& c, const Inst& in, const std::string& name, const Value& arguments, const Value* v)
{
	auto expected = conform(in.base, in.list, 0, v);
	const auto tag = tagOf(in);
	const auto before = show(arguments);
	auto r = in.require(name, arguments);
	std::string error;
	for (auto& e : r.errors) error += e + ";";
	if (r.kind == 3) c.fail("unnamed", tag + ": not a schema exception naming the argument but: " + error);
	if (r.kind == 2)
	{
		bool named = !r.errors.empty();
		for (auto& e : r.errors) named = named && e.find(name) != std::string::npos;
		if (!named) c.fail("unnamed", tag + ": the error does not name the argument: " + error);
	}
	if (expected && r.kind != 1) c.fail("rejected", tag + ": conforming value rejected: " + error);
	else if (!expected && r.kind == 1) c.fail("accepted", tag + ": non-conforming value accepted as " + r.text);
	else if (expected && r.text != *expected) c.fail("altered", tag + ": got " + r.text + " expected " + *expected);
	for (int overload = 0; overload < (in.list.empty() ? 3 : 1); ++overload)
	{
		std::string t;
		bool found = in.find(name, arguments, overload, t);
		if (found != expected.has_value())
			c.fail("find-presence", tag + std::string(": find says ") + (found ? "present" : "absent") + ", expected " + expected.value_or("absent"));
		else if (expected && t != *expected) c.fail("find-altered", tag + ": find got " + t + " expected " + *expected);
		else if (!expected && t != in.defaultText()) c.fail("find-default", tag + ": find of a non-conforming value returned " + t);
		++c.counters["conversions"];
	}
	if (show(arguments) != before) c.fail("arguments-changed", tag + ": the arguments were changed to " + show(arguments));
	c.outcome(tag + ":" + std::to_string(r.kind));
	++c.counters["conversions"];
}

Value wrap(const std::string& name, const Value& v, int shape)
{
	Value m(response::Type::Map);
	if (shape == 1)
	{
		m.emplace_back("aa", Value(response::Type::Map));
		m.emplace_back(name + "2", listOf({}));
		m.emplace_back(name.substr(1), Value(true));
	}
	m.emplace_back(std::string(name), Value(v));
	if (shape == 1) m.emplace_back("zz", Value(3));
	return m;
}

void a01(mc::Ctx& c)
{
	const auto u = universe(c.thorough ? 3 : 2, c.thorough ? 40 : 24);
	const auto ls = leaves();
	c.notes["universe"] = std::to_string(u.size());
	c.notes["types"] = "Int Float String Boolean ID Scalar";
	for (auto& in : table())
	{
		if (!in.require || !c.mine()) continue;
		std::vector<Value> few;
		few.emplace_back();
		for (auto& l : ls)
			if (conform(in.base, {}, 0, &l) && l.type() != response::Type::Null) few.emplace_back(Value(l));
		for (auto& l : ls)
			if (!conform(in.base, {}, 0, &l) && (few.size() < 8)) few.emplace_back(Value(l));
		{
			const auto tag = tagOf(in);
			auto one = [&](const std::string& name, const Value& args, const Value* v, const char* how) {
				if (!c.begin("a01 " + tag + " " + how + " " + name + "=" + (v ? show(*v) : "missing") + " in " + show(args).substr(0, 300))) return;
				checkArgument(c, in, name, args, v);
				++c.traces;
			};
			// missing, in several surroundings
			one("arg", Value(response::Type::Map), nullptr, "missing");
			{
				Value m(response::Type::Map);
				m.emplace_back("ar", Value(1));
				m.emplace_back("arg2", Value(1));
				m.emplace_back("Arg", listOf({}));
				one("arg", m, nullptr, "missing");
				Value e(response::Type::Map);
				e.emplace_back("", Value(1));
				one("arg", e, nullptr, "missing");
			}
			for (auto& v : u) one("arg", wrap("arg", v, 0), &v, "tree");
			std::vector<Value> deep;
			conforming(in.list, 0, few, deep, c.thorough ? 40 : 14);
			size_t k = 0;
			for (auto& v : deep) one("arg", wrap("arg", v, ++k % 2), &v, "deep");
			// long lists with one odd element at every position
			for (size_t n : { 3u, 7u, 31u, 66u, 129u, 257u })
				for (size_t pos = 0; pos < n; pos += n > 10 && !c.thorough ? (n > 66 ? n / 2 : 5) : 1)
					for (size_t odd = 0; odd < 3; ++odd)
					{
						Value l(response::Type::List);
						for (size_t i = 0; i < n; ++i)
							l.emplace_back(i == pos && odd ? (odd == 1 ? Value() : Value(few.back())) : Value(few[1 + i % std::min<size_t>(3, few.size() - 1)]));
						one("list_argument", wrap("list_argument", l, 1), &l, "long");
						if (!odd && pos) break;
						Value ll = listOf({});
						ll.emplace_back(Value(l));
						one("nested", wrap("nested", ll, 0), &ll, "long");
					}
			++c.states;
		}
	}
}

const char* giveName[] = { "value", "ready", "deferred", "async" };

// All trees of the nesting whose node count is at most n; lists of up to 3 items.
void trees(const std::vector<bool>& mods, size_t i, int n, int leafCount, bool nullLeaf, const std::function<void(const Tree&, int)>& f)
{
	if (n < 1) return;
	if (i == mods.size())
	{
		for (int l = 0; l < leafCount; ++l)
		{
			Tree t;
			t.kind = 1;
			t.leaf = l;
			f(t, 1);
		}
		if (nullLeaf) f(Tree {}, 1);
		return;
	}
	if (mods[i])
	{
		if (!(nullLeaf && i + 1 == mods.size())) f(Tree {}, 1);
		trees(mods, i + 1, n, leafCount, nullLeaf, f);
		return;
	}
	Tree t;
	t.kind = 2;
	std::function<void(int)> more = [&](int used) {
		f(t, used);
		if (t.items.size() >= 3) return;
		trees(mods, i + 1, n - used, leafCount, nullLeaf, [&](const Tree& child, int k) {
			t.items.push_back(child);
			more(used + k);
			t.items.pop_back();
		});
	};
	more(1);
}

std::string treeShown(const Inst& in, const Tree& t)
{
	if (t.kind == 0) return "null";
	if (t.kind == 1) return in.leafShown(t.leaf);
	std::string s = "[";
	for (auto& i : t.items) s += treeShown(in, i) + ",";
	return s + "]";
}

// Long lists, at each of the levels.
void longTrees(const std::vector<bool>& list, const std::function<void(const Tree&)>& f)
{
	size_t depth = std::count(list.begin(), list.end(), false);
	for (size_t len : { 8u, 31u, 32u, 33u, 63u, 64u, 65u, 130u, 257u })
		for (size_t level = 0; level < depth; ++level)
		{
			std::function<Tree(size_t, size_t, int)> mk = [&](size_t i, size_t lists, int k) -> Tree {
				Tree t;
				if (i == list.size())
				{
					t.kind = 1;
					t.leaf = k % 3;
					return t;
				}
				if (list[i])
				{
					if (k % 5 == 4) return t;
					return mk(i + 1, lists, k);
				}
				t.kind = 2;
				size_t m = lists == level ? len : 2;
				for (size_t j = 0; j < m; ++j) t.items.push_back(mk(i + 1, lists + 1, static_cast<int>((j * 7 + j / 8 + k) % 11)));
				return t;
			};
			f(mk(0, 0, 1));
		}
}

void a02one(mc::Ctx& c, Env& e, const Inst& in)
{
	const bool isObject = in.base >= Base::Object;
	const auto tag = tagOf(in);
	const auto& list = in.list;
	const bool deep = list.size() > 4;
	auto check = [&](const Tree& t, Give g, std::launch launch) {
		if (!c.begin("a02 " + tag + " " + t.str() + " by " + giveName[static_cast<int>(g)] + (launch == std::launch::async ? " async" : " deferred"))) return;
		auto r = in.render(e, t, g, launch, isObject);
		auto got = show(r.data), expected = treeShown(in, t);
		if (!r.thrown.empty()) c.fail("thrown", tag + ": thrown " + r.thrown);
		else if (r.errors) c.fail("errors", tag + ": unexpected errors");
		else if (got != expected) c.fail("altered", tag + ": got " + got + " expected " + expected);
		++c.traces;
		c.outcome(tag + giveName[static_cast<int>(g)]);
	};
	auto mismatch = [&](const Tree& t, Give g, std::launch launch) {
		if (!c.begin("a02 " + tag + " " + t.str() + " with the wrong selection by " + giveName[static_cast<int>(g)])) return;
		auto r = in.render(e, t, g, launch, !isObject);
		auto got = show(r.data);
		// an error, and no leaf, when there is a leaf to render; the data of an empty tree is its own
		std::function<bool(const Tree&)> any = [&](const Tree& x) {
			bool n = x.kind == 1;
			for (auto& i : x.items) n = n || any(i);
			return n;
		};
		std::function<bool(const Value&)> leafless = [&](const Value& v) {
			if (v.type() == response::Type::Null) return true;
			if (v.type() != response::Type::List) return false;
			for (auto& i : v.get<response::ListType>())
				if (!leafless(i)) return false;
			return true;
		};
		if (any(t) && (!leafless(r.data) || !r.errors)) c.fail("selection", tag + ": got " + got + " with " + std::to_string(r.errors) + " errors");
		if (!any(t) && !leafless(r.data)) c.fail("selection-empty", tag + ": got " + got);
		++c.traces;
	};
	const std::launch both[] = { std::launch::deferred, std::launch::async };
	// deferred conversion of every tree, by value and by ready and deferred futures
	const int n = list.empty() ? 2 : (c.thorough ? 8 : 6) + (deep ? 1 : 0);
	trees(list, 0, n, isObject ? 2 : 3, isObject, [&](const Tree& t, int) {
		for (auto g : { Give::Value, Give::Ready, Give::Deferred }) check(t, g, std::launch::deferred);
	});
	// threads: smaller trees
	trees(list, 0, c.thorough ? 6 : 4, 2, isObject, [&](const Tree& t, int) {
		for (auto g : { Give::Value, Give::Deferred, Give::Ready, Give::Async })
			for (auto l : both) check(t, g, l);
	});
	trees(list, 0, c.thorough ? 6 : 5, 1, isObject, [&](const Tree& t, int) {
		if (in.base != Base::Enum && t.kind != 0)
			for (auto g : { Give::Value, Give::Ready, Give::Deferred }) mismatch(t, g, std::launch::deferred);
	});
	longTrees(list, [&](const Tree& t) {
		for (auto g : { Give::Value, Give::Deferred }) check(t, g, std::launch::deferred);
	});
	++c.states;
}


void a02(mc::Ctx& c)
{
	Env e;
	for (auto& in : table())
		if (in.render && c.mine()) a02one(c, e, in);
}

void c01one(mc::Ctx& c, Env& e, const Inst& in)
{
	const auto tag = tagOf(in);
	const auto& list = in.list;
	auto check = [&](const Tree& t) {
		if (!c.begin("c01 " + tag + " " + t.str())) return;
		++c.traces;
		// variables
		for (bool json : { false, true })
		{
			Value v;
			auto expected = in.serialise(t, v);
			if (show(v) != treeShown(in, t)) c.fail("serialised", tag + ": serialised as " + show(v) + ", expected " + treeShown(in, t));
			Value vars(response::Type::Map);
			vars.emplace_back("other", Value(1));
			vars.emplace_back("v", std::move(v));
			try
			{
				if (json) vars = response::parseJSON(response::toJSON(std::move(vars)));
				auto r = in.require("v", vars);
				if (r.kind != 1) throw std::runtime_error(r.errors.empty() ? "?" : r.errors[0]);
				auto& got = r.text;
				if (got != expected) c.fail("variable", tag + (json ? " through JSON" : "") + ": got " + got + " expected " + expected);
			}
			catch (const std::exception& ex)
			{
				c.fail("variable-rejected", tag + (json ? " through JSON: " : ": ") + ex.what());
			}
			// response
			if (!in.render) continue;
			Value data = in.render(e, t, Give::Value, std::launch::deferred, false).data;
			try
			{
				if (json)
				{
					Value doc(response::Type::Map);
					doc.emplace_back("data", std::move(data));
					auto parsed = client::parseServiceResponse(response::parseJSON(response::toJSON(std::move(doc))));
					if (!parsed.errors.empty()) c.fail("response-errors", tag + ": errors from nowhere");
					data = std::move(parsed.data);
				}
				std::string got = in.parseBack(std::move(data));
				if (got != expected) c.fail("response", tag + (json ? " through JSON" : "") + ": got " + got + " expected " + expected);
			}
			catch (const std::exception& ex)
			{
				c.fail("response-rejected", tag + (json ? " through JSON: " : ": ") + ex.what());
			}
		}
		c.outcome(tag);
	};
	trees(list, 0, list.empty() ? 2 : (c.thorough ? 8 : 6) + (list.size() > 4), 3, false, [&](const Tree& t, int) { check(t); });
	longTrees(list, check);
	// a leaf of another type instead is rejected
	auto wrong = [&](const Value& leaf) {
		if (!c.begin("c01 " + tag + " response leaf " + show(leaf))) return;
		std::function<Value(size_t)> mk = [&](size_t i) -> Value {
			if (i == list.size()) return Value(leaf);
			if (list[i]) return mk(i + 1);
			Value l(response::Type::List);
			l.emplace_back(mk(i + 1));
			return l;
		};
		auto v = mk(0);
		// the client reads what it can hold exactly: the conformance of the service's side, except that empty optionals cannot be missing
		auto expected = conform(in.base, list, 0, &v);
		std::string got;
		bool ok = false;
		try
		{
			got = in.parseBack(std::move(v));
			ok = true;
		}
		catch (const std::exception&)
		{
		}
		if (ok != expected.has_value()) c.fail(ok ? "response-accepted" : "response-rejected", tag + ": " + show(leaf) + " " + got);
		else if (ok && got != *expected) c.fail("response-altered", tag + ": got " + got + " expected " + *expected);
		++c.traces;
	};
	for (auto& l : leaves())
		if (l.type() != response::Type::List && (l.type() != response::Type::Null || list.empty() || list.back())) wrong(l);
	++c.states;
}

struct ErrModel
{
	std::string shown;
	Value value;
};

// Every way to write one error: message, locations, path, in every order, with and without an unknown member.
std::vector<ErrModel> errorForms(bool thorough)
{
	std::vector<ErrModel> out;
	std::vector<std::pair<std::string, Value>> messages, locations, paths, unknown;
	for (auto m : { "", "boom", "a \"quoted\"\nline" }) messages.emplace_back(std::string("m:") + m, str(m));
	messages.emplace_back("m:" + std::string("long ") + std::string(300, 'x'), Value(std::string("long ") + std::string(300, 'x')));
	auto loc = [](int line, int col, int form) {
		Value l(response::Type::Map);
		if (form == 1) l.emplace_back("column", Value(col));
		if (form == 2) l.emplace_back("lin", Value(99));
		l.emplace_back("line", Value(line));
		if (form == 2) l.emplace_back("offset", Value(98));
		if (form != 1) l.emplace_back("column", Value(col));
		return l;
	};
	auto locText = [](std::vector<std::pair<int, int>> v) {
		std::string s = " l:";
		for (auto& p : v) s += std::to_string(p.first) + ":" + std::to_string(p.second) + ",";
		return s;
	};
	locations.emplace_back(locText({}), listOf({}));
	for (int form = 0; form < 3; ++form)
	{
		std::vector<Value> one, two;
		one.push_back(loc(1, 2, form));
		two.push_back(loc(7, 3, form));
		two.push_back(loc(2147483647, 0, (form + 1) % 3));
		locations.emplace_back(locText({ { 1, 2 } }), listOf(std::move(one)));
		locations.emplace_back(locText({ { 7, 3 }, { 2147483647, 0 } }), listOf(std::move(two)));
	}
	// all paths of <=3 of two names and two indices
	const std::pair<std::string, Value> segs[] = { { "s:a", str("a") }, { "s:0", str("0") }, { "i:0", Value(0) }, { "i:12", Value(12) } };
	std::vector<std::vector<int>> ps { {} };
	for (size_t i = 0; i < ps.size(); ++i)
		if (ps[i].size() < 3)
			for (int k = 0; k < 4; ++k)
			{
				auto p = ps[i];
				p.push_back(k);
				ps.push_back(p);
			}
	for (auto& p : ps)
	{
		std::string s = " p:";
		std::vector<Value> items;
		for (int k : p)
		{
			s += segs[k].first + "/";
			items.emplace_back(Value(segs[k].second));
		}
		paths.emplace_back(s, listOf(std::move(items)));
	}
	const size_t shortPaths = paths.size(), shortLocations = locations.size();
	for (int n : { 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257 })
	{
		std::string s = " p:";
		std::vector<Value> items, many;
		std::vector<std::pair<int, int>> places;
		for (int k = 0; k < n; ++k)
		{
			auto& g = segs[k % 3 ? k % 4 : (k / 3) % 4];
			s += g.first + "/";
			items.emplace_back(Value(g.second));
			places.emplace_back(k + 1, n - k);
			many.push_back(loc(k + 1, n - k, k % 3));
		}
		paths.emplace_back(s, listOf(std::move(items)));
		locations.emplace_back(locText(places), listOf(std::move(many)));
	}
	auto add = [&](int mi, int li, int pi, int order, int unk) {
		std::vector<int> parts { 0, 1, 2, 3 };
		for (int k = 0; k < order; ++k) std::next_permutation(parts.begin(), parts.end());
		ErrModel e;
		e.value = Value(response::Type::Map);
		e.shown = (mi < 0 ? std::string("m:") : messages[mi].first) + (li < 0 ? std::string(" l:") : locations[li].first) + (pi < 0 ? std::string(" p:") : paths[pi].first);
		for (int part : parts)
		{
			if (part == 0 && mi >= 0) e.value.emplace_back("message", Value(messages[mi].second));
			if (part == 1 && li >= 0) e.value.emplace_back("locations", Value(locations[li].second));
			if (part == 2 && pi >= 0) e.value.emplace_back("path", Value(paths[pi].second));
			if (part == 3 && unk == 1) e.value.emplace_back("extensions", Value(locations[1].second));
			if (part == 3 && unk == 2) e.value.emplace_back("messages", str("not this"));
			if (part == 3 && unk == 3) e.value.emplace_back("pat", Value(paths[9].second));
			if (part == 3 && unk == 4) e.value.emplace_back("", listOf({}));
		}
		out.push_back(std::move(e));
	};
	for (size_t m = 0; m < messages.size(); ++m)
		for (size_t l = 0; l < shortLocations; ++l) add(static_cast<int>(m), static_cast<int>(l), static_cast<int>(m + l) % 9, 0, 0);
	for (size_t p = 0; p < shortPaths; ++p) add(1, 1, static_cast<int>(p), 0, 0);
	for (int order = 0; order < 24; ++order)
		for (int unk = 0; unk < 5; ++unk) add(1, 2, 7, order, unk);
	for (int mi : { -1, 1 })
		for (int li : { -1, 2 })
			for (int pi : { -1, 8 }) add(mi, li, pi, 0, 1);
	for (size_t p = shortPaths; p < paths.size(); ++p)
		for (size_t l : { size_t(1), p - shortPaths + shortLocations }) add(1, static_cast<int>(l), static_cast<int>(p), 0, 0);
	return out;
}

std::string errorText(const client::Error& e)
{
	std::string s = "m:" + e.message + " l:";
	for (auto& l : e.locations) s += std::to_string(l.line) + ":" + std::to_string(l.column) + ",";
	s += " p:";
	for (auto& p : e.path)
		s += (std::holds_alternative<response::StringType>(p) ? "s:" + std::get<response::StringType>(p) : "i:" + std::to_string(std::get<response::IntType>(p))) + "/";
	return s;
}

void c01responses(mc::Ctx& c)
{
	const auto forms = errorForms(c.thorough);
	c.notes["error-forms"] = std::to_string(forms.size());
	std::vector<Value> datas;
	for (auto& l : leaves()) datas.emplace_back(Value(l));
	datas.push_back(listOf({}));
	auto check = [&](const std::vector<const ErrModel*>& errs, const Value* data, bool withErrors, int order, int unk, bool json) {
		std::string desc = "c01 response order " + std::to_string(order) + " unknown " + std::to_string(unk) + (json ? " json" : "");
		for (auto* e : errs) desc += " | " + show(e->value);
		if (data) desc += " data " + show(*data);
		if (!c.begin(desc)) return;
		std::vector<int> parts { 0, 1, 2 };
		for (int k = 0; k < order; ++k) std::next_permutation(parts.begin(), parts.end());
		Value doc(response::Type::Map);
		for (int p : parts)
		{
			if (p == 0 && data) doc.emplace_back("data", Value(*data));
			if (p == 1 && withErrors)
			{
				Value l(response::Type::List);
				for (auto* e : errs) l.emplace_back(Value(e->value));
				doc.emplace_back("errors", std::move(l));
			}
			if (p == 2 && unk == 1) doc.emplace_back("extensions", Value(forms[0].value));
			if (p == 2 && unk == 2) doc.emplace_back("error", listOf({}));
			if (p == 2 && unk == 3) doc.emplace_back("dat", Value(1));
		}
		std::string expected = data ? show(*data) : "null";
		if (json && data) expected = show(response::parseJSON(response::toJSON(Value(*data))));
		if (json) doc = response::parseJSON(response::toJSON(std::move(doc)));
		try
		{
			auto r = client::parseServiceResponse(std::move(doc));
			auto got = show(r.data);
			if (got != expected) c.fail("data", "got " + got + " expected " + expected);
			if (r.errors.size() != errs.size()) c.fail("error-count", std::to_string(r.errors.size()) + " errors, expected " + std::to_string(errs.size()));
			else
				for (size_t i = 0; i < errs.size(); ++i)
					if (errorText(r.errors[i]) != errs[i]->shown) c.fail("error", "got " + errorText(r.errors[i]) + " expected " + errs[i]->shown);
		}
		catch (const std::exception& ex)
		{
			c.fail("response-thrown", ex.what());
		}
		++c.traces;
		++c.counters["responses"];
	};
	const Value zero(7);
	for (auto& f : forms)
	{
		if (!c.mine()) continue;
		for (bool json : { false, true }) check({ &f }, &zero, true, 0, 0, json);
	}
	for (int order = 0; order < 6; ++order)
		for (int unk = 0; unk < 4; ++unk)
			for (size_t d = 0; d <= datas.size(); ++d)
			{
				if (!c.mine()) continue;
				const Value* data = d < datas.size() ? &datas[d] : nullptr;
				check({}, data, false, order, unk, false);
				check({}, data, true, order, unk, false);
				check({ &forms[2], &forms[20] }, data, true, order, unk, false);
			}
	// every number of errors, with and without data
	auto counts = mc::sizes(c);
	counts.push_back(0);
	for (size_t n : counts)
		for (size_t d = 0; d <= (n > 12 ? 1 : datas.size()); ++d)
		{
			if (!c.mine()) continue;
			std::vector<const ErrModel*> errs;
			for (size_t k = 0; k < n; ++k) errs.push_back(&forms[(k * 17 + d) % forms.size()]);
			for (int order = 0; order < 6; ++order)
				for (bool json : { false, true }) check(errs, d < datas.size() ? &datas[d] : nullptr, n > 0, order, 0, json);
		}
	// every pair of error forms
	const size_t step = c.thorough ? 1 : 3;
	for (size_t i = 0; i < forms.size(); i += step)
	{
		if (!c.mine()) continue;
		for (size_t j = 0; j < forms.size(); j += step) check({ &forms[i], &forms[j], &forms[(i + j) % forms.size()] }, &zero, true, 0, 0, false);
	}
	// what the service itself writes
	auto svc = [&](size_t line, size_t col, const std::vector<int>& path, const std::string& message) {
		std::string desc = "c01 service error " + mc::jsonq(message) + " " + std::to_string(line) + ":" + std::to_string(col) + " path of " + std::to_string(path.size());
		if (!c.begin(desc)) return;
		for (bool json : { false, true })
		{
			std::list<service::schema_error> errs;
			service::error_path p;
			std::string expected = "m:" + message + " l:" + (line ? std::to_string(line) + ":" + std::to_string(col) + "," : "") + " p:";
			for (int k : path)
			{
				if (k < 2) p.emplace_back(std::string_view(k ? "0" : "alias"));
				else p.emplace_back(static_cast<size_t>(k - 2));
				expected += (k < 2 ? std::string("s:") + (k ? "0" : "alias") : "i:" + std::to_string(k - 2)) + "/";
			}
			errs.push_back({ message, { line, col }, p });
			Value doc(response::Type::Map);
			doc.emplace_back("data", Value());
			doc.emplace_back("errors", service::buildErrorValues(std::move(errs)));
			if (json) doc = response::parseJSON(response::toJSON(std::move(doc)));
			auto r = client::parseServiceResponse(std::move(doc));
			if (r.errors.size() != 1) c.fail("service-error-count", std::to_string(r.errors.size()));
			else if (errorText(r.errors[0]) != expected) c.fail("service-error", "got " + errorText(r.errors[0]) + " expected " + expected);
		}
		++c.traces;
	};
	for (size_t line : { 0u, 1u, 70000u })
		for (size_t col : { 1u, 300u })
			for (auto m : { "x", "Field error name: a unknown error: \"b\"" })
			{
				if (!c.mine()) continue;
				std::vector<std::vector<int>> ps { {} };
				for (size_t i = 0; i < ps.size(); ++i)
				{
					svc(line, col, ps[i], m);
					if (ps[i].size() < 4)
						for (int k = 0; k < 4; ++k)
						{
							auto p = ps[i];
							p.push_back(k);
							ps.push_back(p);
						}
				}
			}
	for (int n : mc::sizes(c))
		for (int step : { 1, 3, 5 })
		{
			if (!c.mine()) continue;
			std::vector<int> p;
			for (int i = 0; i < n; ++i) p.push_back(i * step % 4 < 2 ? i * step % 4 : 2 + i);
			svc(n, 257 - n % 257, p, std::string(n, 'y'));
		}
}

void c01(mc::Ctx& c)
{
	Env e;
	for (auto& in : table())
		if (in.serialise && c.mine()) c01one(c, e, in);
	c01responses(c);
}

} // namespace
} // namespace conv

MC_MAIN({ { "a01", conv::a01 }, { "a02", conv::a02 }, { "c01", conv::c01 } })
