// Execution of valid requests: exhaustive document families against the reference executor.
#include "svc_run.h"
using namespace svc;

// ---- selection shapes (E01, E08) --------------------------------------------------------------

struct Menu { const char* text; const char* child; }; // child: type of the nested selection set, or null

static const std::map<std::string, std::vector<Menu>>& menus()
{
	static const std::map<std::string, std::vector<Menu>> m = {
		{ "Query", { { "i", 0 }, { "x: i", 0 }, { "s", 0 }, { "__typename", 0 }, { "a", "A" }, { "I", "I" }, { "u", "U" }, { "lI", "I" }, { "anull", "A" }, { "x: c", "C" },
			{ "...", "Query" }, { "... on Query", "Query" }, { "...FQ", 0 }, { "ll", 0 }, { "lu", "U" }, { "la", "A" } } },
		{ "A", { { "i", 0 }, { "x: i", 0 }, { "only", 0 }, { "__typename", 0 }, { "I", "I" }, { "... on A", "A" }, { "... on I", "I" }, { "... on J", "J" }, { "... on U", "U" }, { "...", "A" }, { "...FA", 0 }, { "...FI", 0 }, { "...FU", 0 }, { "lI", "I" } } },
		{ "B", { { "i", 0 }, { "p", 0 }, { "__typename", 0 }, { "I", "I" }, { "... on I", "I" }, { "... on U", "U" }, { "...FI", 0 } } },
		{ "I", { { "i", 0 }, { "x: s", 0 }, { "__typename", 0 }, { "a", "A" }, { "I", "I" }, { "... on A", "A" }, { "... on B", "B" }, { "... on I", "I" }, { "... on J", "J" }, { "... on U", "U" }, { "...FA", 0 }, { "...FI", 0 }, { "...FU", 0 }, { "...FB", 0 } } },
		{ "J", { { "i", 0 }, { "j", 0 }, { "__typename", 0 }, { "... on A", "A" }, { "... on I", "I" }, { "...FA", 0 } } },
		{ "U", { { "__typename", 0 }, { "... on A", "A" }, { "... on B", "B" }, { "... on I", "I" }, { "... on J", "J" }, { "... on V", "V" }, { "...FA", 0 }, { "...FB", 0 }, { "...FI", 0 }, { "...FU", 0 } } },
		{ "V", { { "__typename", 0 }, { "... on B", "B" }, { "... on C", "C" }, { "... on U", "U" } } },
		{ "C", { { "i", 0 }, { "c", "C" }, { "__typename", 0 }, { "I", "I" }, { "... on V", "V" }, { "li", 0 } } },
	};
	return m;
}
static const char* fragments[][2] = {
	{ "FQ", "fragment FQ on Query { x: i a { i } ...FR }" }, { "FR", "fragment FR on Query { s I { ...FI } }" }, { "FA", "fragment FA on A { only x: i }" },
	{ "FB", "fragment FB on B { p I { i } }" }, { "FI", "fragment FI on I { s ... on A { j } ...FU }" }, { "FU", "fragment FU on U { __typename ... on B { p } }" },
};

static std::string withFragments(std::string doc)
{
	std::set<std::string> have;
	for (bool again = true; again;)
	{
		again = false;
		for (auto& f : fragments)
			if (!have.count(f[0]) && doc.find(std::string("...") + f[0]) != std::string::npos)
			{
				have.insert(f[0]);
				doc += std::string(" ") + f[1];
				again = true;
			}
	}
	return doc;
}

static const char* skips[] = { "", " @skip(if: $p)", " @include(if: $q)", " @include(if: $p) @skip(if: $q)", " @skip(if: true)", " @include(if: true)" };

struct Gen
{
	Chooser& ch;
	int nodes, dirs;	  // what is left
	int width;			  // menu entries used per type
	int ndirs;			  // directive choices used
	bool firstDirs = true;
	std::string sel(const std::string& type)
	{
		std::string o;
		for (bool first = true; nodes > 0; first = false)
		{
			auto& m = menus().at(type);
			int n = std::min<int>(width, m.size());
			// a selection set has at least one member
			int c = ch.choose(first ? n : n + 1);
			if (!first && c == 0) break;
			auto& e = m[first ? c : c - 1];
			if (e.child && nodes < 2) { o += " i_"; bad = true; break; } // no room for its members
			--nodes;
			o += std::string(" ") + e.text;
			if (dirs > 0)
			{
				int d = ch.choose(ndirs);
				if (d) { --dirs; o += skips[d]; }
			}
			if (e.child) o += " {" + sel(e.child) + " }";
		}
		return o;
	}
	bool bad = false;
};

static void shapes(mc::Ctx& C, unsigned facets, const char* sig)
{
	World w;
	Runner R { C, w, facets, sig };
	auto family = [&](int nodes, int dirs, int width, int ndirs, const char* root) {
		Chooser ch;
		do
		{
			Gen g { ch, nodes, dirs, width, ndirs };
			auto body = g.sel(root);
			if (g.bad || g.nodes) continue; // shorter documents belong to a smaller budget
			if (!C.mine()) continue;
			if (C.expired("selection shapes")) return;
			bool p = body.find("$p") != std::string::npos, q = body.find("$q") != std::string::npos;
			std::string head = p || q ? std::string("query(") + (p ? "$p: Boolean! " : "") + (q ? "$q: Boolean!" : "") + ")" : "";
			auto doc = withFragments(head + "{" + body + " }");
			if (!C.begin(doc)) continue;
			auto r = prepare(w, doc);
			if (!r.good) { ++C.counters["invalid documents left out"]; continue; }
			++C.counters["documents"];
			for (int b = 0; b < 4; ++b)
			{
				if ((!p && (b & 1)) || (!q && (b & 2))) continue;
				Vars v;
				ref::Val t, f;
				t.k = f.k = ref::Val::Bool;
				t.text = "true";
				f.text = "false";
				if (p) v["p"] = b & 1 ? t : f;
				if (q) v["q"] = b & 2 ? t : f;
				if (!R.run(r, "", v)) break;
			}
		} while (ch.next());
	};
	bool T = C.thorough;
	for (int n = 1; n <= 2; ++n) family(n, 2, 99, 6, "Query");
	family(3, 1, 99, 6, "Query");
	family(3, 2, 13, 4, "Query");
	family(4, 0, T ? 99 : 11, 1, "Query");
	family(4, 1, T ? 13 : 7, T ? 6 : 3, "Query");
	if (T)
	{
		family(4, 2, 9, 4, "Query");
		family(5, 0, 11, 1, "Query");
		family(5, 1, 7, 4, "Query");
	}
}
// Chains of nested fragments and fields: every sequence of wrappers, every place for one or two directives.
static void chains(mc::Ctx& C, unsigned facets, const char* sig)
{
	World w;
	Runner R { C, w, facets, sig };
	struct Wrap { const char* text; const char* from; const char* to; }; // from: usable inside, empty: anywhere
	static const Wrap wraps[] = {
		{ "...", "", "" }, { "... on ", "", "" }, { "named", "", "" }, { "... on I", "A", "I" }, { "a", "Query", "A" }, { "I", "A", "I" }, { "... on A", "I", "A" }, { "lI", "Query", "I" },
	};
	static const char* forms[] = { " @skip(if: true)", " @include(if: false)", " @skip(if: $p)", " @include(if: $p)" };
	const int most = C.thorough ? 6 : 5;
	std::function<void(std::vector<int>&, const std::string&)> go = [&](std::vector<int>& chain, const std::string& type) {
		auto emit = [&](const std::vector<int>& where) {
			if (!C.mine() || C.expired("chains")) return;
			std::string frags, body;
			bool p = false;
			std::string t = "Query";
			std::vector<std::string> open, close;
			std::vector<std::string> types { t };
			for (size_t k = 0; k < chain.size(); ++k)
			{
				auto& x = wraps[chain[k]];
				if (*x.to) t = x.to;
				types.push_back(t);
			}
			std::string inner = " s";
			for (size_t k = chain.size(); k-- > 0;)
			{
				auto& x = wraps[chain[k]];
				std::string d = where[k] < 0 ? "" : forms[where[k]];
				p = p || where[k] >= 2;
				auto& here = types[k];
				std::string set = "{ x" + std::to_string(k) + ": i" + inner + " y" + std::to_string(k) + ": __typename }";
				std::string text = x.text;
				if (text == "named")
				{
					std::string n = "F" + std::to_string(k);
					frags += " fragment " + n + " on " + here + " " + set;
					inner = " ..." + n + d;
				}
				else if (text == "... on ") inner = " ... on " + here + d + " " + set;
				else inner = " " + text + d + " " + set;
				if (k % 2) inner += " s";
			}
			auto doc = std::string(p ? "query($p: Boolean!) " : "") + "{" + inner + " i }" + frags;
			if (!C.begin(doc)) return;
			auto r = prepare(w, doc);
			if (!r.good) { ++C.counters["invalid documents left out"]; return; }
			++C.counters["chains"];
			for (int b = 0; b < (p ? 2 : 1); ++b)
			{
				Vars v;
				ref::Val t;
				t.k = ref::Val::Bool;
				t.text = b ? "true" : "false";
				if (p) v["p"] = t;
				if (!R.run(r, "", v)) break;
			}
		};
		if (!chain.empty())
		{
			std::vector<int> where(chain.size(), -1);
			emit(where);
			for (size_t a = 0; a < chain.size(); ++a)
				for (int f = 0; f < 4; ++f)
				{
					where[a] = f;
					emit(where);
					for (size_t b = a + 1; b < chain.size(); ++b)
						for (int g = 2; g < 4; ++g)
						{
							if (chain.size() > 4 && !C.thorough && f != 2) continue;
							where[b] = g;
							emit(where);
							where[b] = -1;
						}
					where[a] = -1;
				}
		}
		if (static_cast<int>(chain.size()) >= most) return;
		for (size_t k = 0; k < sizeof wraps / sizeof *wraps; ++k)
		{
			auto& x = wraps[k];
			if (*x.from && type != x.from) continue;
			chain.push_back(static_cast<int>(k));
			go(chain, *x.to ? x.to : type);
			chain.pop_back();
		}
	};
	std::vector<int> chain;
	go(chain, "Query");
}

// ---- sizes --------------------------------------------------------------------------------------
// Rows and depths of every size up to a bound that no small document reaches.

static std::string num(int n) { return std::to_string(n); }
static std::string row(int n, const std::function<std::string(int)>& item)
{
	std::string o;
	for (int i = 0; i < n; ++i) o += " " + item(i);
	return o;
}
static void ladder(mc::Ctx& C, unsigned facets, const char* sig)
{
	World w;
	Runner R { C, w, facets, sig };
	auto one = [&](const std::string& doc, const Vars& v = {}) {
		if (!C.mine() || !C.begin(doc)) return;
		auto r = prepare(w, doc);
		if (!r.good) { C.fail("harness", "not valid"); return; }
		++C.counters["rows and depths"];
		for (auto how : { How::Value, How::Deferred }) R.run(r, "", v, {}, how);
	};
	static const char* const fields[] = { "i", "s", "f", "b", "id", "e", "sc", "__typename", "li", "ll" };
	static const char* const sets[] = { "a { i }", "I { s i }", "c { j }", "lI { i }", "u { __typename ... on A { only } }", "... on Query { i }", "la { s }" };
	static const char* const inner[] = { "c", "I", "c", "I" };
	for (int n : mc::sizes(C))
	{
		auto name = [&](int i) { return "k" + num(i); };
		one("{" + row(n, [&](int i) { return name(i) + ": " + fields[i % 10]; }) + " }");
		one("{ a {" + row(n, [&](int i) { return name(i) + ": " + fields[i % 2]; }) + " } s }");
		one("{" + row(n, [&](int i) { return (i % 7 == 5 ? "" : name(i) + ": ") + sets[i % 7]; }) + " }");
		one("{" + row(n, [&](int i) { return "... { " + name(i) + ": i }"; }) + " s }");
		one("{" + row(n, [&](int i) { return "...F" + num(i); }) + " s }" + row(n, [&](int i) { return "fragment F" + num(i) + " on Query { " + name(i) + ": " + fields[i % 10] + " }"; }));
		one("{ ...F0 }" + row(n, [&](int i) { return "fragment F" + num(i) + " on Query { " + name(i) + ": " + fields[i % 10] + (i + 1 < n ? " ...F" + num(i + 1) : "") + " }"; }));
		one("mutation {" + row(n, [&](int i) { return name(i) + ": " + (i % 3 ? "i" : "a { s }"); }) + " }");
		one("{ " + std::string(n, 'z') + ": i " + std::string(n, 'z') + "b: s a { " + std::string(n, 'z') + ": s } }");
		if (n <= 20)
			for (int j : mc::places(n))
				for (auto* d : { "@skip(if: true)", "@include(if: false)", "@skip(if: $v)", "@include(if: $v)" })
					for (bool same : { false, true })
					{
						std::string head = d[std::strlen(d) - 2] == 'v' ? "query($v: Boolean!) " : "";
						Vars v;
						if (!head.empty()) v["v"] = lit(d[1] == 's' ? "true" : "false");
						one(head + "{" + row(n, [&](int i) { return (same ? std::string("k: i") : name(i) + ": i") + (i == j ? std::string(" ") + d : ""); }) + " s }", v);
					}
		if (n <= 60)
		{
			std::string o = "i", p = "i", q = "i";
			for (int i = 0; i < n; ++i)
			{
				o = std::string("c { ") + (i % 3 == 1 ? "li " : "") + o + " }";
				p = std::string(i % 2 ? "..." : "... on Query") + " { " + (i % 5 == 4 ? name(i) + ": s " : "") + p + " }";
				q = "a { i I { " + q + " } }";
				if (i > 25) q = "i";
			}
			one("{ " + o + " }");
			one("{ " + p + " }");
			one("{ " + q + " }");
		}
		listLength = n;
		one("{ li k: ll la { i } }");
		one("{ lI { __typename i ... on A { only } } lu { ... on B { p } } le lN }");
		listLength = 0;
	}
}
static void e01(mc::Ctx& C) { chains(C, DATA, "data"); ladder(C, DATA, "data"); shapes(C, DATA, "data"); }
static void e08(mc::Ctx& C) { chains(C, CALLS | EVENTS, "calls"); ladder(C, CALLS | EVENTS, "calls"); shapes(C, CALLS | EVENTS, "calls"); }


// ---- arguments (E02) --------------------------------------------------------------------------

struct ArgPool
{
	const char* field;
	const char* type;				   // of the argument
	std::vector<const char*> literals; // for the argument itself
	std::vector<const char*> values;   // a variable of the argument's (nullable) type may have these
};
static const std::vector<ArgPool>& pools()
{
	static const std::vector<ArgPool> p = {
		{ "xi", "Int", { "1", "-7", "null" }, { "1", "2" } },
		{ "xiN", "Int!", { "1", "0" }, { "1", "2" } },
		{ "xiD", "Int!", { "1" }, { "1", "2" } },
		{ "xd", "Int", { "1", "null" }, { "1", "2" } },
		{ "xf", "Float", { "1.5", "-2e3", "3", "null" }, { "1.5", "2.0" } },
		{ "xs", "String", { "\"\"", "\"a b\"", "null" }, { "\"x\"", "\"\"" } },
		{ "xb", "Boolean", { "true", "false", "null" }, { "true", "false" } },
		{ "xid", "ID", { "\"YQ==\"", "null" }, { "\"YQ==\"", "\"YWI=\"" } },
		{ "xe", "E", { "X", "Z", "null" }, { "X", "Y" } },
		{ "xsc", "S", { "1", "{a: [1, {b: null}]}", "[X]", "\"t\"", "null" }, { "1", "{a: [1, {b: null}], c: \"\"}", "[true, 2.5]" } },
		{ "xli", "[Int]", { "[]", "[1]", "[1, null, 3]", "null" }, { "[]", "[1, null]", "[3, 4]" } },
		{ "xlN", "[Int!]!", { "[]", "[1, 2]" }, { "[]", "[3, 4]" } },
		{ "xlD", "[Int!]!", { "[2]" }, { "[]", "[3, 4]" } },
		{ "xll", "[[Int]]", { "[[1], null, []]", "[[null]]" }, { "[[1], [2, 3]]", "[null]" } },
		{ "xle", "[E!]", { "[X, Y]", "[]" }, { "[X]", "[Z, X]" } },
		{ "xin", "In", { "{n: 1}", "{n: 1, l: [1], in: {n: 2, s: \"q\"}}", "null" }, { "{n: 1}", "{n: 2, i: null, l: [1, 2]}" } },
		{ "xlin", "[In]", { "[{n: 1}, null]", "[]" }, { "[{n: 1}]", "[{n: 1, e: Y}, {n: 3}]" } },
	};
	return p;
}

// How the field of interest is reached.
static const char* wraps[] = { "{ %s }", "{ k: %s }", "{ ... on Query { %s } }", "{ ...T } fragment T on Query { %s }", "{ ...T } fragment T on Query { ...U2 } fragment U2 on Query { %s }",
	"{ i ... @include(if: true) { s %s } id }" };
static std::string wrap(int n, const std::string& field)
{
	std::string t = wraps[n];
	return t.replace(t.find("%s"), 2, field);
}

static void e02(mc::Ctx& C)
{
	World w;
	Runner R { C, w, CALLS | ARGS | DATA, "arguments" };
	auto one = [&](const std::string& vars, const std::string& field, const std::vector<Vars>& supplied, int wrapLimit) {
		for (int k = 0; k < wrapLimit; ++k)
		{
			if (!C.mine()) continue;
			auto body = wrap(k, field);
			auto doc = (vars.empty() ? "" : "query Q(" + vars + ")") + body;
			if (!C.begin(doc)) continue;
			auto q = prepare(w, doc);
			if (!q.good) { ++C.counters["invalid documents left out"]; continue; }
			++C.counters["documents"];
			for (auto& v : supplied)
				if (!R.run(q, "", v)) break;
		}
	};
	int W = sizeof wraps / sizeof *wraps;
	for (auto& p : pools())
		for (auto* l : p.literals) one("", std::string(p.field) + "(x: " + l + ")", { {}, { { "x", lit("99") } }, { { "v", lit("99") } } }, W);
	one("", "xi", { {} }, W);
	one("", "ax(x: 4) { i xi(x: 5) }", { {} }, W);
	for (auto* s : { "x2(p: 1, q: \"a\")", "x2(q: \"a\", p: 1)", "x2(q: \"a\")", "x2", "xr(p: 1, q: 2, r: 3)", "xr(r: 3, q: 2, p: 1)", "xr(q: 2, p: 1)", "a { xi(x: 3) I { xi(x: 4) } }", "k: xi(x: 1) l: xi(x: 2)", "lI { xi(x: 6) }" })
		one("", s, { {} }, W);

	// one variable in every position, with and without a default, supplied or not
	struct Pos { const char* type; const char* field; };
	std::vector<Pos> positions;
	std::list<std::string> keep;
	for (auto& p : pools())
	{
		keep.push_back(std::string(p.field) + "(x: $v)");
		positions.push_back({ p.type, keep.back().c_str() });
	}
	for (auto& p : std::vector<Pos> { { "Int", "xli(x: [$v])" }, { "Int", "xli(x: [1, $v, 2])" }, { "Int!", "xlN(x: [$v])" }, { "[Int]", "xll(x: [$v, [1]])" }, { "Int", "xll(x: [[$v]])" }, { "Int!", "xin(x: {n: $v})" },
			 { "Int", "xin(x: {n: 1, i: $v})" }, { "[Int!]", "xin(x: {n: 1, l: $v})" }, { "Int!", "xin(x: {n: 1, l: [$v, 5]})" }, { "In", "xin(x: {n: 1, in: $v})" }, { "Int!", "xin(x: {n: 1, in: {n: $v}})" },
			 { "E", "xin(x: {n: 1, e: $v})" }, { "String", "xin(x: {n: 1, s: $v})" }, { "In", "xlin(x: [$v])" }, { "Int!", "xlin(x: [{n: $v}, {n: 2}])" }, { "E!", "xle(x: [$v, X])" }, { "S", "xin(x: {n: 1, sc: $v})" },
			 { "Int", "xin(x: {n: 1, d: $v})" }, { "Int!", "xin(x: {n: 1, dN: $v})" }, { "Int", "a { xi(x: $v) }" }, { "Int", "lI { xi(x: $v) }" }, { "Int", "k: xi(x: $v) l: xi(x: $v) x2(p: $v)" }, { "Int", "x2(p: $v, q: \"a\")" },
			 { "S", "xsc(x: $v)" }, { "Int", "i @d(x: $v)" }, { "Int", "... @d(x: $v) { xi(x: $v) }" }, { "Int", "xin(x: {n: 1, i: $v}) xli(x: [$v])" } })
		positions.push_back(p);
	std::map<std::string, std::vector<const char*>> vals;
	for (auto& p : pools())
	{
		std::string t = p.type;
		if (t.back() == '!') t.pop_back();
		auto& v = vals[t];
		if (v.empty()) v = p.values;
	}
	vals["[Int!]"] = { "[]", "[3, 4]" };
	for (auto& p : positions)
	{
		std::string base = p.type;
		if (base.back() == '!') base.pop_back();
		auto& pool = vals[base];
		for (int nn = 0; nn < 2; ++nn)
			for (int df = -2; df < static_cast<int>(pool.size()); ++df) // -2 none, -1 null
			{
				std::string decl = "$v: " + base + (nn ? "!" : "") + (df == -2 ? "" : df == -1 ? " = null" : std::string(" = ") + pool[df]);
				std::vector<Vars> sup;
				if (!nn || df != -2) sup.push_back({});
				if (!nn) sup.push_back({ { "v", ref::Val {} } });
				for (auto* x : pool) sup.push_back({ { "v", lit(x) } });
				auto n = sup.size();
				for (size_t i = 0; i < n; ++i) // variables the operation does not declare
				{
					auto v = sup[i];
					v["w"] = lit("98");
					v["x"] = lit("\"other\"");
					sup.push_back(v);
				}
				one(decl, p.field, sup, W);
			}
	}
	// two variables
	for (auto* f : { "x2(p: $v, q: $w)", "x2(q: $w, p: $v)", "xi(x: $v) xs(x: $w)", "xin(x: {n: 1, i: $v, s: $w})", "xs(x: $w) a { xi(x: $v) }", "xlin(x: [{n: 1, i: $v}, {n: 2, s: $w}])" })
		for (auto* a : { "$v: Int", "$v: Int = 5", "$v: Int = null", "$v: Int!" })
			for (auto* b : { "$w: String", "$w: String = \"d\"", "$w: String! = \"d\"" })
				for (int order = 0; order < 2; ++order)
				{
					std::vector<Vars> sup;
					for (int i = 0; i < 3; ++i)
						for (int j = 0; j < 3; ++j)
						{
							Vars v;
							if (i) v["v"] = i == 1 ? lit("8") : ref::Val {};
							if (j) v["w"] = j == 1 ? lit("\"z\"") : ref::Val {};
							if (std::string(a).back() == '!' && i != 1) continue;
							if (std::string(b).find('!') != std::string::npos && j == 2) continue;
							sup.push_back(v);
						}
					one(order ? std::string(b) + " " + a : std::string(a) + ", " + b, f, sup, W);
				}
	// several operations with their own variables
	for (int perm = 0; perm < 2; ++perm)
		for (auto* d1 : { "$v: Int = 1", "$v: Int" })
			for (auto* d2 : { "$v: String = \"q\"", "$u: String = \"q\"", "" })
				for (auto* extra : { "", " ...T" })
				{
					if (!C.mine()) continue;
					std::string var2 = *d2 ? (d2[1] == 'v' ? "$v" : "$u") : "\"l\"";
					std::string o1 = std::string("query P(") + d1 + ") { xi(x: $v)" + extra + " }", o2 = std::string("query Q") + (*d2 ? "(" + std::string(d2) + ")" : "") + " { xs(x: " + var2 + ") }";
					auto doc = (perm ? o2 + " " + o1 : o1 + " " + o2) + (*extra ? " fragment T on Query { a { xi(x: $v) } }" : "");
					if (!C.begin(doc)) continue;
					auto q = prepare(w, doc);
					if (!q.good) { ++C.counters["invalid documents left out"]; continue; }
					for (auto* name : { "P", "Q" })
						for (auto& v : std::vector<Vars> { {}, { { "v", lit(*name == 'P' ? "9" : "\"z\"") } }, { { "u", lit("\"y\"") } } })
							R.run(q, name, v);
				}
	// many variables, long lists, long strings
	for (int n : mc::sizes(C))
	{
		auto decl = [&](int i) { return "$v" + num(i) + ": Int" + (i % 3 == 1 ? " = " + num(1000 + i) : ""); };
		std::vector<Vars> sup(3);
		for (int i = 0; i < n; ++i)
		{
			sup[1]["v" + num(i)] = lit(num(i).c_str());
			if (i % 2) sup[2]["v" + num(i)] = lit(num(i).c_str());
		}
		one(row(n, decl), row(n, [&](int i) { return "k" + num(i) + ": xi(x: $v" + num(i) + ")"; }), sup, 4);
		one(row(n, decl), row(n, [&](int i) { return "k" + num(n - i) + ": x2(p: $v" + num(n - 1 - i) + ", q: \"" + num(i) + "\")"; }), sup, 1);
		one(row(n, decl), "xli(x: [" + row(n, [&](int i) { return "$v" + num(i); }) + "])", sup, 2);
		for (int j : mc::places(n))
		{
			one("$v: Int", "xli(x: [" + row(n, [&](int i) { return i == j ? std::string("$v") : num(i); }) + "])", { { { "v", lit("7") } }, { { "v", ref::Val {} } } }, 1);
			one("", "xs(x: \"" + row(n, [&](int i) { return std::string(i == j ? "\\u00e9" : "a"); }) + "\")", { {} }, 1);
		}
		std::string text;
		for (int i = 0; i < n; ++i) text += i % 7 == 3 ? "\\n" : "b";
		one("$v: String = \"" + text + "\"", "xs(x: $v)", { {}, { { "v", lit(("\"" + text + "c\"").c_str()) } } }, 1);
		one("$v: [Int] = [" + row(n, [](int i) { return num(i); }) + "]", "xli(x: $v)", { {}, { { "v", lit(("[" + row(n, [](int i) { return i % 4 ? num(i * 3) : "null"; }) + "]").c_str()) } } }, 1);
	}
}

// ---- failures (E03) ---------------------------------------------------------------------------

static const char* failDocs[] = {
	"{ i s a { i } }",
	"{ a { i s I { i s } } i }",
	"{ x: i y: a { z: i I { i } } s }",
	"{ la { i s } li }",
	"{ lI { i ... on A { only } a { s } } lu { ... on A { only } } }",
	"{ li ll lN le iN aN { i } anull { i } }",
	"{ c { iN li c { i } } u { __typename ... on A { i lI { s } } } }",
	"{ ...F ... { s } } fragment F on Query { i a { ...G } } fragment G on A { I { s } only }",
	"{\n  la {\n    k: I {\n      i\n    }\n  }\n  z: la { s }\n}",
	"{ f b id e sc xi(x: 1) }",
	"mutation { i j a { i s } k }",
	"query($v: Int) { xi(x: $v) a @d(x: $v) { xi(x: $v) } }",
};

static void e03(mc::Ctx& C)
{
	World w;
	Runner R { C, w, DATA | ERRORS, "errors" };
	static const Fail ways[] = { Fail::ThrowSchema, Fail::ThrowStd, Fail::FutureSchema, Fail::FutureStd, Fail::Throw2, Fail::FutureLate };
	static const Fail objWays[] = { Fail::Begin, Fail::End };
	for (auto* doc : failDocs)
	{
		auto q = prepare(w, doc);
		if (!q.good) { C.begin(doc); C.fail("harness", "base document is not valid"); continue; }
		Exec x(w.S, q.p.doc);
		auto r = x.run(q.p.doc.ops[0], {}, 0);
		struct Point { std::string path; bool obj; };
		std::vector<Point> pts;
		for (auto& c : r.calls) pts.push_back({ c.path, false });
		for (auto& o : r.objects)
			if (!o.path.empty())
			{
				// a list of non-null objects fails as a whole when one of them does not begin: left open
				bool inNonNullList = o.path.find(".lI.") != std::string::npos && std::isdigit(static_cast<unsigned char>(o.path.back())) && o.path.find("lI") == 1;
				if (!inNonNullList) pts.push_back({ o.path, true });
			}
		auto each = [&](auto&& self, size_t from, int left, std::map<std::string, Fail> fails) -> void {
			if (C.expired("failures")) return;
			if (!fails.empty() && C.mine())
			{
				std::string d = doc;
				for (auto& f : fails) d += "\n fails at " + f.first + " by " + std::to_string(static_cast<int>(f.second));
				if (C.begin(d))
					for (auto how : { How::Value, How::Ready, How::Deferred })
						if (!R.run(q, "", {}, fails, how)) break;
			}
			if (!left) return;
			for (size_t i = from; i < pts.size(); ++i)
			{
				if (fails.count(pts[i].path)) continue;
				if (pts[i].obj) for (auto f : objWays) { auto g = fails; g[pts[i].path] = f; self(self, i + 1, left - 1, g); }
				else for (auto f : ways) { auto g = fails; g[pts[i].path] = f; self(self, i + 1, left - 1, g); }
			}
		};
		each(each, 0, 2, {});
		if (C.thorough)
		{
			// every subset, one way for all
			for (auto f : ways)
				for (size_t b = 1; b < (size_t(1) << std::min<size_t>(pts.size(), 14)); ++b)
				{
					if (!C.mine()) continue;
					if (C.expired("failure subsets")) return;
					std::map<std::string, Fail> fails;
					for (size_t i = 0; i < pts.size() && i < 14; ++i)
						if (b >> i & 1) fails.emplace(pts[i].path, pts[i].obj ? Fail::Begin : f);
					if (C.begin(std::string(doc) + " subset " + std::to_string(b) + " way " + std::to_string(static_cast<int>(f)))) R.run(q, "", {}, fails, How::Deferred);
				}
			each(each, 0, 3, {});
		}
	}
	// one failure far out
	auto far = [&](const std::string& doc, const std::string& path) {
		if (!C.mine() || !C.begin(doc + " fails at " + path)) return;
		auto q = prepare(w, doc);
		if (!q.good) { C.fail("harness", "not valid"); return; }
		for (auto f : ways)
			for (auto how : { How::Value, How::Ready, How::Deferred })
				if (!R.run(q, "", {}, { { path, f } }, how)) return;
	};
	for (int n : mc::sizes(C))
	{
		for (int j : mc::places(n))
		{
			listLength = n;
			far("{ la { i s } }", ".la." + num(j) + ".s");
			far("{ a { lI { a { i } } } }", ".a.lI." + num(j) + ".a.i");
			listLength = 0;
			far("{" + row(n, [&](int i) { return "k" + num(i) + ": i"; }) + " }", ".k" + num(j));
			far("{ a {\n" + row(n, [&](int i) { return "k" + num(i) + ": i\n"; }) + " } }", ".a.k" + num(j));
			far("mutation {" + row(n, [&](int i) { return "k" + num(i) + ": i"; }) + " }", ".k" + num(j));
		}
		far(std::string(n, '\n') + std::string(n, ' ') + "{ i }", ".i");
		far("{ " + std::string(n, 'q') + ": i }", "." + std::string(n, 'q'));
		if (n <= 60)
		{
			std::string o = "i", p;
			for (int i = 0; i < n; ++i)
			{
				o = "c { " + o + " }";
				p += ".c";
			}
			far("{ " + o + " }", p + ".i");
		}
	}
}

// ---- directives (E04) -------------------------------------------------------------------------

static void e04(mc::Ctx& C)
{
	World w;
	Runner R { C, w, CALLS | DIRS, "directives" };
	// a chain of fragments around one field, with siblings, and directives from a small set at every place
	static const char* sets[] = { "", " @d(x: 1)", " @d(x: 2) @g(x: 3)", " @g", " @d(y: \"q\", x: $v)" };
	auto chain = [&](const std::vector<int>& kinds, const std::vector<int>& ds, int fd, int od, int where) {
		// kinds: 0 inline, 1 inline with type, 2 spread of a definition without directives, 3.. definition with directive 1, 2
		std::string frags, doc;
		std::function<std::string(size_t, const std::string&)> build = [&](size_t i, const std::string& type) -> std::string {
			if (i == kinds.size())
			{
				std::string f = "xi" + std::string(sets[fd]);
				if (where == 1) return "s " + f;
				if (where == 2) return "k: I" + std::string(sets[fd]) + " { i " + std::string(type == "Query" ? "" : "s") + " }"; // below a nested object
				if (where == 3) return f + " lI { ... on A @g(x: 9) { j } i }";
				return f;
			}
			std::string dir = sets[ds[i]];
			if (kinds[i] == 0) return "..." + dir + " { " + build(i + 1, type) + " }" + (where == 1 ? " k" + std::to_string(i) + ": i" : "");
			if (kinds[i] == 1) return "... on " + type + dir + " { " + build(i + 1, type) + " }" + (where == 1 ? " k" + std::to_string(i) + ": i" : "");
			std::string n = "F" + std::to_string(i);
			auto inner = build(i + 1, type);
			frags += " fragment " + n + " on " + type + sets[kinds[i] - 2] + " { " + inner + " }";
			return "i" + std::string(where == 1 ? " s" : "") + " ..." + n + dir + (where == 1 ? " k" + std::to_string(i) + ": i" : "");
		};
		for (auto* type : { "Query", "A" })
		{
			frags.clear();
			auto b = build(0, type);
			std::string body = *type == 'Q' ? "{ " + b + " }" : "{ a { " + b + " } }";
			std::string all = body + frags;
			std::string head = "query" + std::string(all.find("$v") != std::string::npos || std::string(sets[od]).find("$v") != std::string::npos ? "($v: Int = 7)" : "") + sets[od] + " ";
			doc = head + all;
			if (!C.mine()) continue;
			if (C.expired("directive chains")) return;
			if (!C.begin(doc)) continue;
			auto q = prepare(w, doc);
			if (!q.good) { ++C.counters["invalid documents left out"]; continue; }
			++C.counters["documents"];
			if (R.run(q, "", {}) && doc.find("$v") != std::string::npos)
			{
				R.run(q, "", { { "v", lit("4") } });
				R.run(q, "", { { "v", lit("5") } }, {}, How::Deferred);
			}
		}
	};
	int S = 5, K = 7, D = C.thorough ? 3 : 2;
	for (int len = 0; len <= D; ++len)
	{
		std::vector<int> kinds(len), ds(len);
		Chooser ch;
		do
		{
			for (auto& k : kinds) k = ch.choose(len == 3 ? 5 : K);
			for (auto& d : ds) d = ch.choose(len == 3 ? 4 : S);
			int fd = ch.choose(len >= 2 ? 3 : S);
			int od = ch.choose(len >= 2 ? 2 : S);
			int where = ch.choose(4);
			chain(kinds, ds, fd, od, where);
			if (C.capped) return;
		} while (ch.next());
	}
	// longer chains of one kind
	for (int len = 3; len <= (C.thorough ? 6 : 4); ++len)
		for (int base : { 0, 2 })
		{
			Chooser ch;
			do
			{
				std::vector<int> kinds(len), ds(len);
				for (auto& k : kinds) k = base + ch.choose(base ? 2 : 2);
				for (auto& d : ds) d = ch.choose(3);
				chain(kinds, ds, 1, 1, 1);
				if (C.capped) return;
			} while (ch.next());
		}
	// long ones, with directives at one place
	for (int n : mc::sizes(C, 50))
		for (int base : { 0, 2, 3, 9 })
			for (int j : mc::places(n))
			{
				std::vector<int> kinds(n), ds(n);
				for (int i = 0; i < n; ++i) kinds[i] = base == 9 ? i % 4 : base;
				ds[j] = 2;
				chain(kinds, ds, 1, 1, 1);
			}
}

// ---- operations (E07) -------------------------------------------------------------------------

static void e07(mc::Ctx& C)
{
	World w;
	// names and kinds of up to three operations, in every order, and every requested name
	static const char* kinds[] = { "query", "mutation", "subscription", "query with fragment", "query with variable" };
	static const char* names[] = { "", "P", "Q", "R", "query", "PQ" };
	auto text = [&](int kind, const std::string& name, int nth) {
		std::string k = std::to_string(nth);
		switch (kind)
		{
			case 0: return (name.empty() ? std::string(nth ? "query " : "") : "query " + name + " @d(x: " + k + ")") + "{ k" + k + ": i a { i } }";
			case 1: return "mutation " + name + "{ m" + k + ": i a { s } }";
			case 2: return "subscription " + name + "{ s" + k + ": i }";
			case 3: return "query " + name + "{ f" + k + ": i ...F }";
			default: return "query " + name + "($v: Int = " + k + ") { v" + k + ": xi(x: $v) }";
		}
	};
	auto run = [&](const std::vector<std::pair<int, int>>& ops, int fragAt) {
		std::string doc;
		bool frag = false;
		for (auto& o : ops) frag |= o.first == 3;
		for (size_t i = 0; i < ops.size(); ++i)
		{
			if (frag && static_cast<int>(i) == fragAt) doc += "fragment F on Query { s } ";
			doc += text(ops[i].first, names[ops[i].second], static_cast<int>(i)) + " ";
		}
		if (frag && fragAt >= static_cast<int>(ops.size())) doc += "fragment F on Query { s } ";
		if (!frag && fragAt) return;
		if (!C.mine()) return;
		if (!C.begin(doc)) return;
		auto q = prepare(w, doc);
		if (!q.good) { ++C.counters["invalid documents left out"]; return; }
		++C.counters["documents"];
		for (auto* n : { "", "P", "Q", "R", "query", "PQ", "p", "P ", "PQR" })
		{
			std::string name = n;
			if (name.empty() && ops.size() > 1) continue; // which one is meant is left open
			const ref::Op* op = nullptr;
			for (auto& o : q.p.doc.ops) if (name.empty() || o.name == name) { op = &o; break; }
			for (auto launch : { std::launch::deferred, std::launch::async })
			{
				++C.transitions;
				++C.traces;
				auto a = execute(w, q.ast, name, { { "v", lit("77") } }, launch);
				if (!op || op->type == "subscription")
				{
					if (!a.ok || a.malformed || a.data != "null" || !a.hasErrors || !w.rec.calls.empty())
						C.fail("operation-refused", "requested '" + name + "': expected null data, errors and no resolver, but got " + a.data + a.thrown + " and " + std::to_string(w.rec.calls.size()) + " calls");
					continue;
				}
				Exec x(w.S, q.p.doc);
				auto r = x.run(*op, { { "v", lit("77") } }, op->type == "mutation" ? 1 : 0);
				C.states += r.calls.size();
				auto d = differs(w.rec, a, r, DATA | CALLS | ARGS | DIRS | EVENTS);
				if (!d.empty()) C.fail("operation", "requested '" + name + "': " + d);
			}
		}
	};
	int N = C.thorough ? 4 : 3;
	for (int n = 1; n <= N; ++n)
	{
		Chooser ch;
		do
		{
			std::vector<std::pair<int, int>> ops(n);
			for (auto& o : ops) { o.first = ch.choose(n == 4 ? 4 : 5); o.second = ch.choose(n == 4 ? 4 : 6); }
			run(ops, ch.choose(n + 1));
		} while (ch.next());
	}
	// many operations and long names
	auto requested = [&](const std::string& doc, const std::string& name) {
		if (!C.mine() || !C.begin(doc + " requested " + name)) return;
		auto q = prepare(w, doc);
		if (!q.good) { C.fail("harness", "not valid"); return; }
		const ref::Op* op = nullptr;
		for (auto& o : q.p.doc.ops) if (o.name == name) { op = &o; break; }
		auto a = execute(w, q.ast, name, {});
		++C.transitions;
		++C.traces;
		if (!op)
		{
			if (!a.ok || a.malformed || a.data != "null" || !a.hasErrors || !w.rec.calls.empty()) C.fail("operation-refused", "got " + a.data + a.thrown);
			return;
		}
		Exec x(w.S, q.p.doc);
		auto r = x.run(*op, {}, op->type == "mutation" ? 1 : 0);
		auto d = differs(w.rec, a, r, DATA | CALLS | ARGS | DIRS | EVENTS);
		if (!d.empty()) C.fail("operation", d);
	};
	for (int n : mc::sizes(C))
	{
		auto doc = row(n, [&](int i) { return std::string(i % 3 == 2 ? "mutation" : "query") + " P" + num(i) + " { k" + num(i) + ": i }"; });
		for (int j : mc::places(n)) requested(doc, "P" + num(j));
		requested(doc, "P" + num(n));
		requested(doc, "P");
		std::string a(n, 'a');
		for (auto& name : { a, a + "b", a + "c", a + "bb", a.substr(1) })
			if (!name.empty()) requested("query " + a + " { x: i } query " + a + "b { y: i } query " + a + "c { z: i }", name);
	}
	// a service without a mutation or subscription object in its schema
	World q2("type Query { i: Int }");
	for (auto* doc : { "mutation { i }", "subscription { i }", "query A { i } mutation B { i }" })
		for (auto* name : { "", "A", "B" })
		{
			if (!C.mine() || !C.begin(std::string("query-only schema: ") + doc + " name '" + name + "'")) continue;
			auto ast = peg::parseString(doc);
			auto a = execute(q2, ast, name, {});
			++C.transitions;
			if (!a.ok || a.malformed || a.data != "null" || !a.hasErrors || !q2.rec.calls.empty()) C.fail("operation-refused", "got " + a.data + a.thrown);
		}
}

// ---- literals (P03) ---------------------------------------------------------------------------

static void p03(mc::Ctx& C)
{
	World w;
	Runner R { C, w, CALLS | ARGS, "literal" };
	auto check = [&](const std::string& field, const std::string& literal) {
		if (!C.mine()) return;
		auto doc = "{ " + field + "(x: " + literal + ") }";
		if (!C.begin(doc)) return;
		auto p = ref::parse(doc);
		if (!p.ok || p.ambiguous || p.badSurrogate) { ++C.counters["spellings left out"]; return; }
		auto q = prepare(w, doc);
		if (!q.good) { ++C.counters["invalid documents left out"]; return; }
		R.run(q, "", {});
	};
	bool T = C.thorough;
	// every sequence of string atoms
	static const std::vector<std::string> atoms = { "a", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u20AC", "\\u0000", "\\uFFFF", "\xC3\xA9", "\xE2\x82\xAC", "#", "{", " ", "\t", "u0041", "n", ",", "$v" };
	auto words = [&](auto&& f, const std::vector<std::string>& al, int len) {
		std::vector<size_t> i(len, 0);
		for (;;)
		{
			std::string s;
			for (auto x : i) s += al[x];
			f(s);
			int k = len - 1;
			while (k >= 0 && ++i[k] == al.size()) i[k--] = 0;
			if (k < 0) return;
		}
	};
	for (int n = 0; n <= (T ? 4 : 3); ++n)
	{
		words([&](const std::string& s) { if (!C.capped) check("xs", "\"" + s + "\""); }, atoms, n);
		if (C.expired("string atoms")) return;
	}
	// every code point of the basic plane by its escape, in both cases of the digits
	for (int c = 0; c < 0x10000; ++c)
	{
		if (c >= 0xD800 && c <= 0xDFFF) continue;
		char b[8], u[8];
		std::snprintf(b, sizeof b, "\\u%04x", c);
		std::snprintf(u, sizeof u, "\\u%04X", c);
		check("xs", std::string("\"") + b + "\"");
		if (std::strcmp(b, u) != 0) check("xs", std::string("\"a") + u + "z\"");
	}
	// and every character written as itself
	for (int c = 0x20; c < 0x10000; ++c)
	{
		if ((c >= 0xD800 && c <= 0xDFFF) || c == '"' || c == '\\') continue;
		std::string s;
		ref::utf8(s, c);
		check("xs", "\"" + s + "\"");
		if (c % 16 == 0) check("xs", "\"\"\"" + s + "\"\"\"");
	}
	// block strings: indentation, line ends, quotes
	static const std::vector<std::string> block = { "\n", "\r\n", "\r", " ", "\t", "a", "\\\"\"\"", "\" ", "\\", "  b" };
	for (int n = 0; n <= (T ? 6 : 5); ++n)
	{
		words([&](const std::string& s) { if (!C.capped) check("xs", "\"\"\"" + s + "\"\"\""); }, block, n);
		if (C.expired("block strings")) return;
	}
	for (int n = 6; n <= (T ? 9 : 7); ++n) words([&](const std::string& s) { check("xs", "\"\"\"" + s + "\"\"\""); }, { "\n", " ", "a" }, n);
	// numbers
	std::vector<std::string> ints = { "0", "-0", "1", "-1", "9", "10", "99", "123456789", "1000000000", "2147483646", "2147483647", "-2147483647", "-2147483648" };
	for (int k = 0; k < 31; ++k) { ints.push_back(std::to_string(1ll << k)); ints.push_back(std::to_string(-(1ll << k))); ints.push_back(std::to_string((1ll << k) - 1)); }
	for (auto& i : ints) { check("xi", i); check("xf", i); check("xsc", i); check("xsc", "[" + i + "]"); }
	for (auto* i : { "2147483648", "-2147483649", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "100000000000000000000000" }) { check("xf", i); check("xsc", i); }
	static const std::vector<std::string> mant = { "0", "-0", "1", "-1", "17", "2147483648", "123456789012345678" }, frac = { "", ".0", ".5", ".25", ".1", ".000001", ".333333333333333333", ".99999999999999999999" },
		ex = { "", "e0", "E1", "e+2", "e-1", "E-7", "e22", "e-22", "e300", "e-300", "e308", "E+05" };
	for (auto& m : mant)
		for (auto& f : frac)
			for (auto& e : ex)
				if (!(f + e).empty()) { check("xf", m + f + e); check("xsc", m + f + e); }
	// containers: every tree of a few nodes, in a custom scalar
	static const std::vector<std::string> leaves = { "1", "2.5", "\"a\"", "true", "false", "null", "X", "\"\\n\"" };
	auto tree = [&](auto&& self, Chooser& ch, int& budget, int depth) -> std::string {
		--budget;
		int k = ch.choose(depth >= 4 ? static_cast<int>(leaves.size()) : static_cast<int>(leaves.size()) + 2);
		if (k < static_cast<int>(leaves.size())) return leaves[k];
		bool list = k == static_cast<int>(leaves.size());
		std::string o = list ? "[" : "{";
		static const char* names[] = { "b", "a", "c", "true1", "query", "on" };
		for (int n = 0; budget > 0 && ch.choose(2); ++n)
			o += (n ? (n % 2 ? ", " : " ") : "") + (list ? std::string() : std::string(names[n % 6]) + ": ") + self(self, ch, budget, depth + 1);
		return o + (list ? "]" : "}");
	};
	for (int size = 1; size <= (T ? 5 : 4); ++size)
	{
		Chooser ch;
		do
		{
			int budget = size;
			auto s = tree(tree, ch, budget, 0);
			if (budget == 0) check("xsc", s);
			if (C.expired("value trees")) return;
		} while (ch.next());
	}
	for (auto* f : { "xli", "xll", "xlN", "xin", "xlin", "xle", "xe", "xb", "xid" })
		for (auto* v : { "[]", "[1]", "[1, 2, 3]", "[null]", "[[]]", "[[1], [2, 3], []]", "[[null], null]", "{n: 1}", "{s: \"a\\u0041\", n: 1, e: Z, l: [3, 2, 1]}", "{n: 1, in: {n: 2, in: {n: 3, sc: [{a: 1.5}]}}}",
				 "[{n: 1}, {n: 2, s: \"\"}, null]", "[X, Y, Z, X]", "X", "Y", "true", "false", "null", "\"YQ==\"", "\"\"", "{d: 1, n: 2, dN: 3, i: null}" })
			check(f, v);
	for (int depth = 1; depth <= 60; ++depth) check("xsc", std::string(depth, '[') + "1" + std::string(depth, ']'));
}

MC_MAIN({ { "e01", e01 }, { "e08", e08 }, { "e02", e02 }, { "e03", e03 }, { "e04", e04 }, { "e07", e07 }, { "p03", p03 } })
