// Families of request documents over the schema of svc_sdl.h.
// J(text) judges one document, J.w.S is the schema.
#pragma once
#include "mc.h"
#include "ref_validate.h"

#include <functional>

namespace svc {

inline std::vector<std::string> split(const std::string& s)
{
	std::vector<std::string> r;
	std::string t;
	for (char c : s)
		if (c == ' ') { if (!t.empty()) r.push_back(t); t.clear(); }
		else t += c;
	if (!t.empty()) r.push_back(t);
	return r;
}
inline std::string join(const std::vector<std::string>& v)
{
	std::string o;
	for (auto& s : v) o += (o.empty() ? "" : " ") + s;
	return o;
}

inline const std::vector<std::string>& bases()
{
	static const std::vector<std::string> b = {
		"{ i a { i } }",
		"query Q { i } mutation M { j }",
		"query Q ( $v : Int ) { xi ( x : $v ) }",
		"query ( $v : Int = 5 ) { xiN ( x : $v ) }",
		"query ( $v : Int ! ) { a { xi ( x : $v ) } }",
		"{ x : i y : i xr ( p : 1 q : 2 ) }",
		"{ I { i ... on A { only } ... on B { p } } }",
		"{ u { __typename ... on A { i } ... F } } fragment F on B { p }",
		"query ( $v : [ Int ! ] ) { ... F } fragment F on Query { xin ( x : { n : 1 l : $v } ) }",
		"{ ... F } fragment F on Query { a { ... G } } fragment G on A { i }",
		"{ i @ skip ( if : true ) s @ include ( if : false ) }",
		"query ( $b : Boolean ! ) { i @ skip ( if : $b ) a @ d ( x : 1 ) @ g { i } }",
		"subscription S { i }",
		"subscription { ... F } fragment F on Subscription { a { i s } }",
		"{ xe ( x : X ) xs ( x : \"s\" ) xb ( x : true ) xf ( x : 1.5 ) xid ( x : \"aWQ=\" ) xsc ( x : { k : [ 1 X ] } ) }",
		"{ xli ( x : [ 1 null ] ) xll ( x : [ [ 1 ] [ 2 ] ] ) xle ( x : [ X Y ] ) }",
		"query Q @ onq { i @ onf ... @ onif { i } ... F @ onfs } fragment F on Query @ onfd { s }",
		"{ i @ need ( x : 1 ) xiN ( x : 2 ) xiD }",
		"query ( $v : In = { n : 1 } ) { xin ( x : $v ) xinN ( x : { n : 2 in : $v } ) }",
		"{ __schema { queryType { name } } __type ( name : \"A\" ) { kind } __typename }",
		"mutation M ( $v : Int ) { xi ( x : $v ) i }",
		"{ a { I { i } } a { i } }",
		"{ li lI { i } la { t { w } } }",
		"{ I { xd y : xd ( x : 2 ) } a { xd } }",
	};
	return b;
}
inline const std::vector<std::string>& alphabet()
{
	static const std::vector<std::string> a = { "{", "}", "(", ")", ":", "!", "=", "@", "...", "[", "]", "$v", "$w", "1", "1.5", "\"s\"", "true", "null", "{ }", "{ i }", "( x : 1 )",
		"i", "s", "a", "I", "u", "xi", "x", "n", "p", "only", "zz", "__typename", "__schema", "on", "A", "B", "C", "U", "V", "J", "Int", "String", "In", "E", "X", "S", "Query", "Mutation",
		"F", "G", "Q", "query", "mutation", "subscription", "fragment", "d", "g", "skip", "onf", "need", "@ d", "... F", "... on A" };
	return a;
}

template <class J_> void editFamily(mc::Ctx& C, J_& J)
{
	auto& al = alphabet();
	for (auto& b : bases())
	{
		auto t = split(b);
		auto each = [&](const std::vector<std::string>& t, const std::function<void(const std::vector<std::string>&)>& f) {
			for (size_t i = 0; i <= t.size(); ++i)
			{
				auto e = t;
				if (i < t.size())
				{
					e.erase(e.begin() + i);
					f(e);
					e = t;
					for (auto& x : al) { e[i] = x; f(e); }
					for (size_t j = i + 1; j < t.size(); ++j) { e = t; std::swap(e[i], e[j]); f(e); }
					// a run of tokens left out or repeated
					for (size_t n = 2; i + n <= t.size(); ++n)
					{
						e = t;
						e.erase(e.begin() + i, e.begin() + i + n);
						f(e);
						e = t;
						e.insert(e.begin() + i, t.begin() + i, t.begin() + i + n);
						f(e);
					}
				}
				for (auto& x : al) { e = t; e.insert(e.begin() + i, x); f(e); }
			}
		};
		if (C.mine()) J(b);
		each(t, [&](auto& e) {
			if (!C.mine()) return;
			J(join(e));
		});
	}
	if (!C.thorough) return;
	// two edits: every pair of single token replacements and insertions from a smaller alphabet
	static const std::vector<std::string> small = { "{", "}", "$v", "1", "null", "{ i }", "( x : 1 )", "i", "a", "x", "A", "Int", "!", "F", "on", "@ d", "... F", "query", "zz", "[", "]", "=", ":" };
	for (auto& b : bases())
	{
		auto t = split(b);
		if (t.size() > 26) continue;
		for (size_t i = 0; i < t.size(); ++i)
			for (size_t j = i; j < t.size(); ++j)
				for (int kind = 0; kind < 4; ++kind)
					for (auto& x : small)
						for (auto& y : small)
						{
							if (!C.mine()) continue;
							if (C.expired("pairs of edits")) return;
							auto e = t;
							if (kind & 1) e[j] = y; else e.insert(e.begin() + j, y);
							if (kind & 2) e[i] = x; else e.insert(e.begin() + i, x);
							J(join(e));
						}
	}
}

// every literal of two levels at every argument
inline const std::vector<std::string>& literals(bool deep)
{
	static std::vector<std::string> a, b;
	if (a.empty())
	{
		std::vector<std::string> leaf = { "1", "0", "-1", "2147483647", "2147483648", "-2147483649", "1.0", "1e3", "\"\"", "\"s\"", "\"aWQ=\"", "\"aWQ\"", "\"YQ\"", "\"a\"", "\"****\"", "\"\"\"b\"\"\"", "true", "false", "null", "X", "Z", "W", "[]", "{}", "$u" };
		std::vector<std::string> two;
		for (auto& x : leaf) two.push_back("[" + x + "]");
		for (auto& x : { "1", "null", "\"s\"", "X", "[1]", "$u" })
			for (auto& y : { "1", "null", "X", "[]", "1.5" }) two.push_back(std::string("[") + x + " " + y + "]");
		std::vector<std::string> objs;
		const char* fields[] = { "i", "n", "d", "dN", "l", "in", "e", "s", "sc", "zz" };
		for (auto f : fields)
			for (auto& x : leaf)
			{
				objs.push_back("{n: 1 " + std::string(f) + ": " + x + "}");
				objs.push_back("{" + std::string(f) + ": " + x + "}");
			}
		for (auto& x : { "[1 2]", "[null]", "[[1]]", "{n: 1}", "{i: 1}", "{n: null}", "{n: 1 n: 2}", "{n: 1 in: {n: 2}}", "{n: 1 in: {i: 2}}", "{n: 1 in: {n: 2 zz: 1}}", "{n: 1 l: [1 null]}", "[{n: 1}]" })
			for (auto f : { "in", "l", "sc", "i", "e", "dN" })
				objs.push_back("{n: 1 " + std::string(f) + ": " + x + "}");
		// objects of several types within each other: the members of the outer one are still the outer one's
		const char* inner[] = { "a: {n: 1}", "a: {i: 1}", "a: {n: 1 b: 2}", "a: null", "p: {n: 1}", "p: {n: 1 o: {b: 1}}", "p: {n: 1 o: {b: \"s\"}}", "p: {n: 1 r: [{n: 1} {n: 2}]}", "p: {n: 1 r: [{n: 1} {q: 2}]}", "l: [{n: 1}]", "l: [{n: 1} {n: 2 o: {p: {n: 3}}}]", "l: {n: 1}", "l: [{b: 1}]", "p: {b: 1}" };
		const char* after[] = { "", " b: 1", " b: 1 c: 2", " c: null", " n: 1", " zz: 1", " q: 1", " i: 1" };
		for (auto i : inner)
			for (auto f : after)
			{
				objs.push_back(std::string("{") + i + f + "}");
				if (*f) objs.push_back("{" + std::string(f) + " " + i + "}");
			}
		for (auto i : inner)
			for (auto j : inner) objs.push_back(std::string("{") + i + " " + j + " b: 1}");
		for (auto& x : two) a.push_back(x);
		for (auto& x : leaf) a.push_back(x);
		for (auto& x : objs) a.push_back(x);
		for (auto& x : { "[{n: 1}]", "[{n: 1} null]", "[{i: 1}]", "[[1] [2]]", "[[1] 2]", "[[[1]]]", "[[null] null]", "[X [Y]]", "[{}]", "[{n: 1 in: {n: \"s\"}}]" }) a.push_back(x);
		for (auto& x : a)
		{
			b.push_back(x);
			b.push_back("[" + x + "]");
			b.push_back("[null " + x + "]");
			b.push_back("{n: 1 in: " + x + "}");
			b.push_back("{n: 1 sc: " + x + "}");
			b.push_back("{n: 1 l: " + x + "}");
		}
	}
	return deep ? b : a;
}

template <class J_> void literalFamily(mc::Ctx& C, J_& J)
{
	auto* q = J.w.S.type("Query");
	for (auto& lit : literals(true))
	{
		for (auto& f : q->fields)
		{
			if (f.args.empty()) continue;
			auto* rt = J.w.S.type(f.type->leaf());
			for (auto& a : f.args)
			{
				if (!C.mine()) continue;
				auto tail = ref::Schema::composite(rt) ? " { i }" : "";
				J("{ " + f.name + "(" + a.name + ": " + lit + ")" + tail + " }");
				// missing siblings filled in, so that only the literal decides
				std::string rest;
				for (auto& o : f.args)
					if (o.name != a.name && o.type->k == ref::Type::NonNull && !o.def) rest += " " + o.name + ": 1";
				if (!rest.empty()) J("{ " + f.name + "(" + a.name + ": " + lit + rest + ")" + tail + " }");
			}
		}
	}
	for (auto& lit : literals(false))
	{
		if (lit.find('$') == std::string::npos)
			for (auto t : { "Int", "Int!", "Float", "String", "Boolean", "ID", "E", "E!", "S", "In", "In!", "Out", "Pin", "[Int]", "[Int!]", "[Int!]!", "[[Int]]", "[In]", "[E]", "[S]" })
			{
				if (!C.mine()) continue;
				std::string loc = t;
				// used where any type goes: inside a custom scalar
				J("query($u: " + loc + " = " + lit + ") { xsc(x: $u) }");
				for (auto& f : q->fields)
					for (auto& a : f.args)
					{
						auto ft = a.type->str(), vt = loc;
						if (ft == vt || ft == vt + "!") J("query($u: " + loc + " = " + lit + ") { " + f.name + "(" + a.name + ": $u) }");
					}
			}
		for (auto d : { "d(x: ", "d(y: ", "need(x: ", "need(x: 1 y: ", "skip(if: ", "include(if: ", "g(x: ", "d(zz: ", "onf(x: " })
		{
			if (!C.mine()) continue;
			J(std::string("{ i @") + d + lit + ") }");
			J(std::string("query @") + d + lit + ") { i }");
			J(std::string("{ ... @") + d + lit + ") { i } ...F @" + d + lit + ") } fragment F on Query { s }");
			J(std::string("{ ...F } fragment F on Query @") + d + lit + ") { s }");
		}
	}
}

// every variable type and default at every location type
template <class J_> void variableFamily(mc::Ctx& C, J_& J)
{
	std::vector<std::string> leaf = { "Int", "String", "Float", "Boolean", "ID", "E", "In", "S", "A", "I", "U", "Zz" };
	std::vector<std::string> wraps = { "%", "%!", "[%]", "[%]!", "[%!]", "[%!]!", "[[%]]", "[[%!]!]!" };
	std::map<std::string, std::vector<std::string>> defs = { { "Int", { "1", "null", "\"s\"" } }, { "String", { "\"s\"", "null" } }, { "Float", { "1", "null" } }, { "Boolean", { "true", "null" } }, { "ID", { "\"aWQ=\"", "null" } }, { "E", { "X", "null", "W" } }, { "In", { "{n: 1}", "null", "{}" } }, { "S", { "1", "null", "{a: [1]}" } } };
	std::vector<std::pair<std::string, bool>> uses; // selection with $v, needs no fragment
	auto* q = J.w.S.type("Query");
	for (auto& f : q->fields)
		for (auto& a : f.args)
		{
			std::string rest;
			for (auto& o : f.args)
				if (o.name != a.name && o.type->k == ref::Type::NonNull && !o.def) rest += " " + o.name + ": 1";
			std::string tail = ref::Schema::composite(J.w.S.type(f.type->leaf())) ? " { i }" : "";
			for (auto shape : { "$v", "[$v]", "[[$v]]" })
				uses.push_back({ f.name + "(" + a.name + ": " + shape + rest + ")" + tail, false });
		}
	for (auto f : { "i", "n", "d", "dN", "l", "in", "e", "s", "sc" })
	{
		std::string n = f == std::string("n") ? "" : "n: 1 ";
		uses.push_back({ "xin(x: {" + n + f + ": $v})", false });
		uses.push_back({ "xin(x: {" + n + f + ": [$v]})", false });
		uses.push_back({ "xin(x: {n: 1 in: {" + n + f + ": $v}})", false });
		uses.push_back({ "xsc(x: {k: [$v]})", false });
		uses.push_back({ "xlin(x: [{" + n + f + ": $v}])", false });
	}
	for (auto d : { "@d(x: $v)", "@d(y: $v)", "@need(x: $v)", "@need(x: 1 y: $v)", "@skip(if: $v)", "@include(if: $v)" })
	{
		uses.push_back({ std::string("i ") + d, false });
		uses.push_back({ std::string("... ") + d + " { i }", false });
		uses.push_back({ std::string("...H ") + d, false });
		uses.push_back({ std::string("a { i ") + d + " }", false });
	}
	for (auto& l : leaf)
		for (auto& wr : wraps)
		{
			auto t = wr;
			t.replace(t.find('%'), 1, l);
			std::vector<std::string> ds = { "" };
			for (auto& d : defs[l])
			{
				ds.push_back(" = " + d);
				ds.push_back(" = [" + d + "]");
				if (wr.find("[[") == 0) ds.push_back(" = [[" + d + "]]");
			}
			if (wr[0] == '[') ds.push_back(" = []");
			for (auto& d : ds)
				for (auto& u : uses)
				{
					if (!C.mine()) continue;
					auto use = u.first;
					std::string h = use.find("...H") != std::string::npos ? " fragment H on Query { s }" : "";
					J("query($v: " + t + d + ") { " + use + " }" + h);
					J("query($v: " + t + d + ") { ...F } fragment F on Query { " + use + " }" + h);
				}
		}
	// definitions and uses across operations and fragments
	std::vector<std::string> def = { "", "($v: Int)", "($v: Int!)", "($w: Int)", "($v: Int $w: Int)", "($v: Int $v: Int)", "($v: String)", "($v: A)" };
	std::vector<std::string> body = { "{ i }", "{ xi(x: $v) }", "{ xi(x: $w) }", "{ ...F }", "{ ...G }", "{ xi(x: $v) ...F }", "{ ...F ...G }", "@d(x: $v) { i }", "@d(x: $v) { ...F }", "{ i @d(x: $v) }" };
	std::vector<std::string> frag = { "", "fragment F on Query { xi(x: $v) }", "fragment F on Query { s } fragment G on Query { xiN(x: $v) }", "fragment F on Query { ...G } fragment G on Query { xi(x: $v) }",
		"fragment F on Query @d(x: $v) { s }", "fragment F on Query { ...G @d(x: $v) } fragment G on Query { s }", "fragment F on Query { ... @d(x: $v) { s } a { xi(x: $w) } }" };
	for (auto& d1 : def)
		for (auto& b1 : body)
			for (auto& f : frag)
			{
				if (C.mine()) J("query Q" + d1 + " " + b1 + " " + f);
				for (auto& d2 : def)
					for (auto& b2 : body)
						if (C.mine()) J("query Q" + d1 + " " + b1 + " query P" + d2 + " " + b2 + " " + f);
			}
}

// every spread graph over three fragments
template <class J_> void fragmentFamily(mc::Ctx& C, J_& J)
{
	const char* types[] = { "Query", "A", "I", "U", "J", "C", "V", "In", "E", "Int", "Zz" };
	// cycles and use
	int n = 3;
	for (int edges = 0; edges < 1 << (n * n); ++edges)
		for (int roots = 0; roots < 1 << n; ++roots)
			for (int variant = 0; variant < (C.thorough ? 4 : 2); ++variant)
			{
				if (!C.mine()) continue;
				std::string doc = "{ a { i";
				for (int r = 0; r < n; ++r)
					if (roots >> r & 1) doc += std::string(" ...F") + char('0' + r);
				doc += " } }";
				for (int f = 0; f < n; ++f)
				{
					doc += std::string(" fragment F") + char('0' + f) + " on A { i";
					for (int g = 0; g < n; ++g)
						if (edges >> (f * n + g) & 1)
							doc += std::string(variant & 1 ? " t { ...F" : " ...F") + char('0' + g) + (variant & 1 ? " }" : "") + (variant & 2 ? " @d" : "");
					doc += " }";
				}
				J(doc);
			}
	// conditions: spread in every parent type, as fragment and inline, nested twice
	std::vector<std::pair<std::string, std::string>> parents = { { "Query", "{ % }" }, { "A", "{ a { % } }" }, { "I", "{ I { % } }" }, { "U", "{ u { % } }" }, { "C", "{ c { % } }" }, { "A2", "{ lI { ... on A { % } } }" },
		{ "J", "{ a { ... on J { % } } }" }, { "V", "{ u { ... on V { % } } }" }, { "li", "{ la { I { % } } }" }, { "M", "mutation { % }" }, { "S", "subscription { % }" } };
	const char* leafs[] = { "__typename", "i", "only", "p", "j", "s" };
	for (auto& p : parents)
		for (auto t : types)
			for (auto leaf : leafs)
			{
				auto put = [&](const std::string& s) {
					auto d = p.second;
					d.replace(d.find('%'), 1, s);
					return d;
				};
				if (C.mine()) J(put(std::string("... on ") + t + " { " + leaf + " }"));
				if (C.mine()) J(put("...F") + " fragment F on " + t + " { " + leaf + " }");
				if (C.mine()) J(put(std::string("... { ... on ") + t + " { " + leaf + " } }"));
				for (auto t2 : types)
				{
					if (C.mine()) J(put(std::string("... on ") + t + " { ... on " + t2 + " { " + leaf + " } }"));
					if (C.mine()) J(put("...F") + " fragment F on " + t + " { ...G } fragment G on " + t2 + " { " + leaf + " }");
					if (C.mine()) J(put("...F ...G") + " fragment F on " + t + " { " + leaf + " } fragment G on " + t2 + " { ...F }");
				}
			}
	// definitions: names, uniqueness, use
	const char* ds[] = { "fragment F on Query { i }", "fragment G on Query { s }", "fragment F on A { i }", "fragment G on Query { ...F }", "fragment on2 on Query { i }" };
	const char* ops[] = { "{ i }", "{ ...F }", "{ ...F ...G }", "{ ...G }", "{ ...F ...F }", "{ ...on2 }", "{ ...Zz }", "query A { ...F } query B { ...G }" };
	for (auto o : ops)
		for (int a = -1; a < 5; ++a)
			for (int b = -1; b < 5; ++b)
				for (int c = -1; c < 5; ++c)
				{
					if (!C.mine()) continue;
					std::string d;
					if (a >= 0) d += ds[a];
					d += std::string(" ") + o;
					if (b >= 0) d += std::string(" ") + ds[b];
					if (c >= 0) d += std::string(" ") + ds[c];
					J(d);
				}
}

// every pair (thorough: triple) of selections of one selection set
template <class J_> void mergeFamily(mc::Ctx& C, J_& J)
{
	std::vector<std::string> in = { "i", "x: i", "x: s", "x: w", "xi(x: 1)", "xi(x: 2)", "xi", "x: xi(x: 1)", "x: xi(x: $v)", "x: __typename", "x: p", "x: j", "x: q", "i: s", "x: zz",
		"x: c { i }", "x: c { x: i }", "x: c { x: iN }", "x: a { i }", "x: a { x: i }", "x: a { x: s }", "x: I { x: i }", "x: I { i }", "x: lI { i }", "x: lI { x: s }", "x: a { x: c { i } }", "x: a { x: c { i: iN } }", "x: i @d", "x: i @skip(if: true)", "w" };
	std::vector<std::pair<std::string, std::string>> hold = { { "", "" }, { "... on A { ", " }" }, { "... on B { ", " }" }, { "... on I { ", " }" }, { "... on J { ", " }" }, { "...F", "" } };
	auto body = [&](int h, const std::string& s, std::string& frag, const char* name) {
		if (hold[h].first != "...F") return hold[h].first + s + hold[h].second;
		frag += std::string(" fragment ") + name + " on I { " + s + " }";
		return std::string("...") + name;
	};
	for (auto root : { "I", "a", "lI" })
		for (size_t a = 0; a < in.size(); ++a)
			for (size_t b = 0; b < in.size(); ++b)
				for (size_t ha = 0; ha < hold.size(); ++ha)
					for (size_t hb = 0; hb < hold.size(); ++hb)
					{
						if (!C.mine()) continue;
						std::string frag;
						auto s = body(ha, in[a], frag, "F") + " " + body(hb, in[b], frag, "G");
						auto v = s.find("$v") != std::string::npos || frag.find("$v") != std::string::npos ? std::string("query($v: Int) ") : std::string();
						J(v + "{ " + root + " { " + s + " } }" + frag);
						// split over two fields of the same response key
						if (ha == 0 || C.thorough)
						{
							std::string f2;
							auto s1 = body(ha, in[a], f2, "F"), s2 = body(hb, in[b], f2, "G");
							J(v + "{ " + root + " { " + s1 + " } " + root + " { " + s2 + " } }" + f2);
						}
					}
	// argument values
	std::vector<std::string> args = { "", "(x: null)", "(x: {n: 1})", "(x: {n: 1 i: 2})", "(x: {i: 2 n: 1})", "(x: {n: 2})", "(x: {n: 1 l: [1 2]})", "(x: {n: 1 l: [2 1]})", "(x: {n: 1 l: [1]})", "(x: $v)", "(x: $w)", "(x: {n: 1 in: $v})", "(x: {n: 1 in: {n: 1}})", "(x: {n: 1 e: X})", "(x: {n: 1 e: Y})", "(x: {n: 1 s: \"X\"})", "(x: {n: 1 sc: X})", "(x: {n: 1 sc: \"X\"})", "(x: {n: 1 sc: 1})", "(x: {n: 1 sc: true})", "(x: {n: 1 sc: null})" };
	for (auto& a : args)
		for (auto& b : args)
		{
			if (!C.mine()) continue;
			std::string vars;
			for (auto v : { "$v", "$w" })
				if ((a + b).find(v) != std::string::npos) vars += std::string(vars.empty() ? "" : " ") + v + ": In";
			J((vars.empty() ? "" : "query(" + vars + ") ") + "{ xin" + a + " xin" + b + " }");
		}
	const char* two[] = { "x2", "x2(p: 1)", "x2(p: 1 q: \"a\")", "x2(q: \"a\" p: 1)", "x2(q: \"a\")", "x2(p: 1 q: \"b\")", "x2(p: 1 p: 1)" };
	for (auto a : two) for (auto b : two) if (C.mine()) J(std::string("{ ") + a + " " + b + " }");
	if (!C.thorough) return;
	for (size_t a = 0; a < in.size(); ++a)
		for (size_t b = 0; b < in.size(); ++b)
			for (size_t c = 0; c < in.size(); ++c)
				for (int ha = 0; ha < 4; ++ha)
					for (int hb = 0; hb < 4; ++hb)
						for (int hc = 0; hc < 4; ++hc)
						{
							if (!C.mine()) continue;
							if (C.expired("triples of selections")) return;
							auto h = [&](int k, size_t i) { return hold[k].first + in[i] + hold[k].second; };
							auto s = h(ha, a) + " " + h(hb, b) + " " + h(hc, c);
							J((s.find("$v") != std::string::npos ? "query($v: Int) { I { " : "{ I { ") + s + " } }");
						}
}

// every pair of directives at every location
template <class J_> void directiveFamily(mc::Ctx& C, J_& J)
{
	std::vector<std::string> ds = { "", "@d", "@d(x: 1)", "@d(y: \"s\")", "@d(x: 1 y: \"s\")", "@d(x: 1 x: 2)", "@d(z: 1)", "@d(x: \"s\")", "@g", "@need", "@need(x: 1)", "@need(x: null)", "@need(y: 1)", "@need(x: 1 y: null)", "@onq", "@onm", "@ons", "@onf", "@onfd", "@onfs", "@onif", "@onsch",
		"@skip(if: true)", "@skip", "@skip(if: null)", "@skip(if: 1)", "@include(if: false)", "@include(unless: true)", "@deprecated", "@deprecated(reason: \"s\")", "@zz", "@zz(x: 1)", "@d(x: $v)", "@need(x: $v)", "@skip(if: $v)" };
	std::vector<std::string> places = { "query Q% { i }", "mutation Q% { i }", "subscription Q% { i }", "query Q { i % }", "query Q { a % { i } }", "query Q { a { i % } }", "query Q { ... % { i } }", "query Q { ... on Query % { i } }", "query Q { ...F % } fragment F on Query { i }", "query Q { ...F } fragment F on Query % { i }",
		"query Q { ...F } fragment F on Query { i % }", "subscription Q { i % }", "mutation Q { i % }", "subscription Q { ... % { i } }", "query Q { i s % }", "query Q { i x: i % }" };
	for (auto& p : places)
		for (auto& a : ds)
			for (auto& b : ds)
			{
				if (!C.mine()) continue;
				auto d = p;
				d.replace(d.find('%'), 1, a + (a.empty() || b.empty() ? "" : " ") + b);
				J(d);
				if (d.find("$v") == std::string::npos) continue;
				for (auto t : { "($v: Int)", "($v: Int!)", "($v: Boolean!)", "($v: Boolean)", "($v: Boolean = true)" })
				{
					auto e = d;
					e.insert(e.find('Q') + 1, t);
					J(e);
				}
			}
}

// every combination of operations
template <class J_> void operationFamily(mc::Ctx& C, J_& J)
{
	std::vector<std::string> ops = { "{ i }", "query { i }", "query P { i }", "query Q { i }", "mutation { i }", "mutation P { i }", "mutation M { j }", "subscription { i }", "subscription P { i }", "subscription T { i i }", "subscription T { i a { i } }", "subscription T { x: i y: i }", "subscription T { x: i x: i }",
		"subscription T { ...G }", "subscription T { i ...H }", "subscription T { ... { i a { i } } }", "subscription T { ... on Subscription { i } }", "subscription T { __typename }", "subscription T { i __typename }", "subscription T { i @skip(if: true) }", "query P { ...F }", "query R { i s }", "query E { }", "subscription T { ...H i }", "subscription T { a { i s } }",
		"fragment F on Query { i }", "fragment G on Subscription { i a { i } }", "fragment H on Subscription { i }", "type Zz { i: Int }" };
	for (size_t a = 0; a < ops.size(); ++a)
	{
		if (C.mine()) J(ops[a]);
		for (size_t b = 0; b < ops.size(); ++b)
		{
			if (C.mine()) J(ops[a] + " " + ops[b]);
			for (size_t c = 0; c < ops.size(); ++c)
				if (C.mine()) J(ops[a] + " " + ops[b] + " " + ops[c]);
		}
	}
}

// untyped selections: every field name in every type, with and without selections and arguments
template <class J_> void fieldFamily(mc::Ctx& C, J_& J)
{
	std::set<std::string> names { "zz", "__schema", "__type(name: \"A\")", "__type", "__typename", "name", "kind" };
	for (auto& t : J.w.S.own.doc.types)
		for (auto& f : t.fields) names.insert(f.name);
	const char* subs[] = { "", " { i }", " { __typename }", " { zz }", " { i { i } }", " { name }" };
	const char* args[] = { "", "(x: 1)", "(zz: 1)", "(x: 1 x: 1)", "(x: 1 zz: 2)" };
	std::pair<const char*, const char*> at[] = { { "{ ", " }" }, { "mutation { ", " }" }, { "subscription { ", " }" }, { "{ a { ", " } }" }, { "{ I { ", " } }" }, { "{ u { ", " } }" }, { "{ c { ", " } }" }, { "{ lI { ", " } }" }, { "{ ll { ", " } }" }, { "{ __schema { ", " } }" }, { "{ __schema { types { ", " } } }" },
		{ "{ __schema { directives { args { ", " } } } }" }, { "{ a { ... on J { ", " } } }" }, { "{ u { ... on V { ", " } } }" }, { "{ ...F } fragment F on Query { I { ... on B { ", " } } }" } };
	for (auto& p : at)
		for (auto& n : names)
			for (auto s : subs)
				for (auto a : args)
				{
					if (!C.mine()) continue;
					auto name = n;
					if (*a && n.find('(') != std::string::npos) continue;
					J(p.first + name + a + s + p.second);
					J(std::string(p.first) + "i " + name + a + s + p.second);
					if (!*a) J(p.first + name + s + " @d" + p.second);
				}
}

// Rows and depths of every size up to a bound, with the odd one at every place.
template <class J_> void sizeFamily(mc::Ctx& C, J_& J)
{
	auto num = [](int n) { return std::to_string(n); };
	auto row = [](int n, const std::function<std::string(int)>& item) {
		std::string o;
		for (int i = 0; i < n; ++i) o += " " + item(i);
		return o;
	};
	auto one = [&](const std::string& text) { if (C.mine()) J(text); };
	for (int n : mc::sizes(C))
	{
		auto k = [&](int i) { return "k" + num(i); };
		std::string body = row(n, [&](int i) { return k(i) + ": i"; }), vars = row(n, [&](int i) { return "$v" + num(i) + ": Int"; });
		auto use = [&](int i) { return k(i) + ": xi(x: $v" + num(i) + ")"; };
		one("{" + body + " }");
		one("query(" + vars + ") {" + row(n, use) + " }");
		one("query(" + vars + ") { ...F } fragment F on Query {" + row(n, use) + " }");
		std::string spreads = row(n, [&](int i) { return "...F" + num(i); }), frags = row(n, [&](int i) { return "fragment F" + num(i) + " on Query { i }"; });
		one("{" + spreads + " }" + frags);
		one("subscription {" + row(n, [](int) { return "i"; }) + " }");
		one("subscription {" + body + " }");
		std::string x(n, 'x');
		for (auto& name : { x, x + "y", x + "yy" })
		{
			one("query(" + std::string("$") + x + "y: Int) { xi(x: $" + name + ") }");
			one("{ ..." + name + " } fragment " + x + "y on Query { i }");
			one("{ " + name + ": i " + x + "y: s }");
			one("query " + name + " { i } query " + x + "y { s }");
			one("{ i @" + name + " }");
			one("{ " + name + " }");
			one("{ xi(" + name + ": 1) }");
			one("{ xe(x: " + name + ") }");
		}
		for (int j : mc::places(n))
		{
			auto odd = [&](const std::string& usual, const std::string& other) { return row(n, [&](int i) { return i == j ? other : usual; }); };
			one("query(" + vars + ") {" + row(n, [&](int i) { return i == j ? "i" : use(i); }) + " }");
			one("query(" + vars + ") {" + row(n, use) + " xs(x: $v" + num(j) + ") }");
			one("query(" + vars + " $v" + num(j) + ": Int) {" + row(n, use) + " }");
			one("query(" + row(n, [&](int i) { return "$v" + num(i) + (i == j ? ": Zz" : ": Int"); }) + ") {" + row(n, use) + " }");
			one("query(" + vars + ") { ...F } fragment F on Query {" + row(n, [&](int i) { return i == j ? "i" : use(i); }) + " }");
			one("{" + row(n, [&](int i) { return k(i) + (i == j ? ": zz" : ": i"); }) + " }");
			one("{" + body + " " + k(j) + ": s }");
			one("{" + body + " ... { " + k(j) + ": s } }");
			one("{" + body + " k: " + k(j) + " }");
			one("{" + row(n, [&](int i) { return i == j ? std::string() : "...F" + num(i); }) + " i }" + frags);
			one("{" + spreads + " }" + row(n, [&](int i) { return i == j ? std::string() : "fragment F" + num(i) + " on Query { i }"; }));
			one("{" + spreads + " }" + frags + " fragment F" + num(j) + " on Query { i }");
			one("{ ...F0 }" + row(n, [&](int i) { return "fragment F" + num(i) + " on Query { " + k(i) + ": i " + (i + 1 < n ? "...F" + num(i + 1) : "") + (i == n - 1 ? " ...F" + num(j) : "") + " }"; }));
			one("{ ...F0 }" + row(n, [&](int i) { return "fragment F" + num(i) + " on Query { " + k(i) + (i == j ? ": zz" : ": i") + (i + 1 < n ? " ...F" + num(i + 1) : "") + " }"; }));
			one(row(n, [&](int i) { return "query Q" + num(i) + (i == j ? " { zz }" : " { i }"); }));
			one(row(n, [&](int i) { return "query Q" + num(i) + " { i }"; }) + " query Q" + num(j) + " { s }");
			one(row(n, [&](int i) { return "query " + (i == j ? std::string() : "Q" + num(i)) + " { i }"; }));
			one("{ xli(x: [" + odd("1", "1.5") + "]) }");
			one("{ xlN(x: [" + odd("1", "null") + "]) }");
			one("{ xle(x: [" + odd("X", "W") + "]) }");
			one("{ xlin(x: [" + odd("{n: 1}", "{}") + "]) }");
			one("{ xll(x: [" + odd("[1]", "[\"s\"]") + "]) }");
			one("query($u: [Int!] = [" + odd("1", "null") + "]) { xin(x: {n: 1 l: $u}) }");
			one("{ u {" + odd("... on A { i }", "... on C { i }") + " } }");
			one("{ a {" + odd("... on I { i }", "... on B { i }") + " } }");
			one("{ i" + odd("@d", "@g") + " }");
			one("{" + row(n, [&](int i) { return k(i) + ": i @d" + (i == j ? " @d" : " @g"); }) + " }");
			one("subscription { i " + odd("... { i }", "s: i") + " }");
		}
		if (n <= 50)
			for (int j : mc::places(n))
			{
				std::string f = "i", g = "i", h = "{n: 1}", p = "i", l = "1";
				for (int i = 0; i < n; ++i)
				{
					f = std::string(i == j ? "zz " : "") + "c { " + f + " }";
					g = std::string(i == j ? "... on B { p } " : "") + "... on Query { " + g + " }";
					h = "{n: 1 in: " + h + (i == j ? " zz: 1" : "") + "}";
					p = std::string("I { ") + (i == j ? "xi(x: \"s\") " : "i ") + (n > 24 && i > 24 ? "i" : "I { a { " + p + " } }") + " }";
					l = i == j ? "[" + l + " $u]" : "[" + l + "]";
				}
				one("{ " + f + " }");
				one("{ " + g + " }");
				one("{ xin(x: " + h + ") }");
				one("{ " + p + " }");
				one("{ xsc(x: " + l + ") }");
			}
	}
}

} // namespace svc
