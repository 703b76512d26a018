// Validation: exhaustive document families against the reference validator (V01), histories of
// requests on one service against a fresh one (V02).
#include "svc_run.h"
#include "valid_families.h"
using namespace svc;

static std::string showErrors(const std::list<service::schema_error>& es)
{
	std::string o;
	for (auto& e : es) o += "\n   " + e.message + " (" + std::to_string(e.location.line) + ":" + std::to_string(e.location.column) + ")";
	return o;
}

static std::set<std::string> runsRules; // rules exercised alone, for the notes

// The error list makes sense for this text.
static std::string badErrors(const std::string& text, const std::list<service::schema_error>& es)
{
	size_t lines = 1 + std::count(text.begin(), text.end(), '\n');
	for (auto& e : es)
	{
		if (e.message.empty()) return "an error without a message";
		if (e.location.line < 1 || e.location.line > lines || e.location.column < 1) return "an error without a location inside the document";
		size_t at = 0;
		for (size_t l = 1; l < e.location.line; ++l) at = text.find('\n', at) + 1;
		auto end = text.find('\n', at);
		if (end == std::string::npos) end = text.size();
		if (at + e.location.column - 1 >= end) return "an error at a column outside the document";
	}
	return "";
}

struct Judge
{
	mc::Ctx& C;
	World& w;
	uint64_t valid = 0, invalid = 0;
	std::function<void(const std::string&)> instead = nullptr;

	// One document: the verdict, and an invalid document is not executed.
	void operator()(const std::string& text)
	{
		if (instead) { instead(text); return; }
		if (!C.begin(text)) return;
		auto p = ref::parse(text);
		if (!p.ok || undecided(p) || p.badSurrogate) { ++C.counters["not a decided document"]; return; }
		ref::Validator v(w.S, p.doc);
		bool want = v.run();
		if (v.ambiguous) { ++C.counters["left open by the specification"]; return; }
		peg::ast ast;
		try { ast = peg::parseString(text); }
		catch (const std::exception&) { ++C.counters["not parsed (P01)"]; return; }
		std::list<service::schema_error> es;
		bool got = false;
		std::string thrown;
		try
		{
			es = w.svc->validate(ast);
			got = es.empty();
		}
		catch (const std::exception& ex) { thrown = ex.what(); }
		++C.transitions;
		++C.traces;
		C.states += 1 + v.errors.size();
		++C.counters[want ? "valid documents" : "invalid documents"];
		if (v.errors.size() == 1) C.outcome(*v.errors.begin());
		else if (want) C.outcome("valid");
		if (!thrown.empty()) { C.fail("threw", "validate threw " + thrown); return; }
		if (got != want)
		{
			std::string rules;
			for (auto& e : v.errors) rules += " " + e;
			C.fail(quirk(p, got), want ? "rejected a valid document:" + showErrors(es) : "accepted an invalid document, rules:" + rules);
			return;
		}
		if (want) return;
		auto b = badErrors(text, es);
		if (!b.empty()) C.fail("bad-error", b + showErrors(es));
		// never executed
		auto a = execute(w, ast, p.doc.ops.empty() ? "" : p.doc.ops.front().name, {});
		if (!a.ok || a.malformed) C.fail("invalid-executed", "resolve of an invalid document: " + a.thrown);
		else if (a.data != "null" || !a.hasErrors || a.errors.empty()) C.fail("invalid-executed", "an invalid document yields data " + a.data);
		else if (!w.rec.calls.empty() || !w.rec.events.empty()) C.fail("invalid-executed", "an invalid document called a resolver");
	}

	std::string quirk(const ref::Parsed& p, bool got)
	{
		for (int size = 1; size <= ref::Quirks::N; ++size)
			for (unsigned b = 1; b < (1u << ref::Quirks::N); ++b)
				if (__builtin_popcount(b) == size)
				{
					ref::Validator q(w.S, p.doc, ref::Quirks::bits(b));
					if (q.run() == got && !q.ambiguous) return ref::Quirks::name(__builtin_ctz(b));
				}
		return "verdict";
	}
};

static void v01(mc::Ctx& C)
{
	World w;
	Judge J { C, w };
	editFamily(C, J);
	literalFamily(C, J);
	variableFamily(C, J);
	fragmentFamily(C, J);
	directiveFamily(C, J);
	operationFamily(C, J);
	fieldFamily(C, J);
	mergeFamily(C, J);
	sizeFamily(C, J);
}

// ---- V02 ----------------------------------------------------------------------------------------

static const std::vector<std::string>& corpus()
{
	static const std::vector<std::string> d = {
		"{ i }", "query Q { i } query P { s }", "query Q { i } query Q { s }", "{ i } query Q { s }", "query Q($v: Int) { xi(x: $v) }", "query Q($v: Int) { i }", "query Q { xi(x: $v) }", "query Q($v: Int $v: Int) { xi(x: $v) }",
		"query Q($w: String $v: Int! = 3) { xs(x: $w) xiN(x: $v) }", "query Q($v: A) { xi(x: $v) }", "query Q($v: Int = \"s\") { xi(x: $v) }", "query Q($v: String) { xi(x: $v) }", "query Q($v: Int) { ...F } fragment F on Query { xi(x: $v) }", "{ ...F } fragment F on Query { xi(x: $v) }",
		"fragment F on A { i }", "{ a { ...F } } fragment F on A { i }", "{ a { ...F } } fragment F on A { t { ...F } }", "{ a { ...F } } fragment F on A { ...G } fragment G on A { ...F }", "{ ...F } fragment F on A { i }", "{ ...G }", "{ ...F } fragment F on Query { i } fragment F on Query { s }", "{ ...F } fragment F on Zz { i }", "{ ...F } fragment F on Int { i }",
		"subscription { i }", "subscription Q($v: Int) { ...F } fragment F on Subscription { i }", "subscription { i a { i } }", "subscription T { ...F } fragment F on Subscription { i a { i } }", "mutation M { i j }", "mutation M($v: Int) { xi(x: $v) }", "mutation M($v: Int) { zz(x: $v) }",
		"{ zz }", "{ i { i } }", "{ a }", "{ a { zz } I { zz } }", "{ xi(y: 1) }", "{ xi(x: 1 x: 2) }", "{ xi(x: \"s\") }", "{ xiN }", "{ xin(x: {n: 1 n: 2}) }", "{ xin(x: {zz: 1}) }", "{ xo(x: {a: {n: 1} b: 1 p: {n: 2 o: {b: 1} q: 3} c: 4}) }", "{ xo(x: {p: {n: 1 e: X o: {c: null}} b: 1}) }", "{ xe(x: W) }", "{ x: i x: s }", "{ a { x: i } a { x: q } }",
		"{ i @zz }", "{ i @onq }", "{ i @d @d }", "{ i @need }", "{ i @d(x: \"s\") }", "{ i @skip(if: $v) }", "query Q($v: Boolean!) @onq { i @skip(if: $v) }", "query Q($v: Boolean) { i @skip(if: $v) }", "{ ...F } fragment F on Query @zz { i }", "{ ...F } fragment F on Query @d(x: $v) { i }",
		"{ u { i } }", "{ u { __typename ... on C { i } } }", "{ I { ... on A { only } ... on C { i } } }", "{ __schema { types { name } } }", "{ __schema { zz } }", "type Zz { i: Int }", "{ xid(x: \"*\") }", "{ xli(x: 1) }",
		"query Q($v: Int) { xi(x: $v) ...F } query P($v: String) { xs(x: $v) ...F } fragment F on Query { x2(p: $v) }", "{\n i\n  zz\n\n\ta { yy }\n}", "query Q($a: Int $b: Int $c: Int) {\n i\n}", "{ i @onsch @g(x: 1) @g(x: 2) }",
		"query Q($v: In = {n: 1}) { xin(x: $v) }", "query Q($v: [Int!]) { xin(x: {n: 1 l: $v}) }", "subscription S($v: Int) { zz }", "subscription { zz }", "{ a { I { ... on B { p } ... on A { only zz } } } }", "query Q($v: Int) { a { xi(x: $v) } xs(x: \"\\uD800\") } fragment F on A { i }", "query Q { a { ...F } } fragment F on A { xi(x: 1) I { xs(x: \"\\uDC00x\") } }", "{ xs(x: \"\\uD800\") }",
		"{ ...F ...G } fragment F on Query { a { i zz } } fragment G on Query { a { i zz } }",
	};
	return d;
}

static std::vector<std::string> verdict(World& w, peg::ast& ast)
{
	std::vector<std::string> r;
	try
	{
		for (auto& e : w.svc->validate(ast)) r.push_back(e.message + " (" + std::to_string(e.location.line) + ":" + std::to_string(e.location.column) + ")");
	}
	catch (const std::exception& ex) { r.push_back(std::string("threw ") + ex.what()); }
	std::sort(r.begin(), r.end());
	return r;
}
static std::string text(const std::vector<std::string>& v)
{
	std::string o = v.empty() ? " valid" : "";
	for (auto& s : v) o += "\n     " + s;
	return o;
}

static void v02x(mc::Ctx& C, bool pairsOnly)
{
	// services which differ in the operations they offer; histories stay on one of them
	struct Kind { const char* name; std::string sdl; bool noIntro; };
	std::string full = SDL(), q = full;
	auto cut = [](std::string s, const std::string& a) { auto p = s.find(a); s.erase(p, a.size()); return s; };
	std::vector<Kind> kinds = { { "full", full, false }, { "query only", cut(cut(full, " mutation: Mutation"), " subscription: Subscription"), false }, { "no introspection", full, true } };
	auto& docs = corpus();
	for (auto& k : kinds)
	{
		World w(k.sdl, k.noIntro);
		auto fresh = [&] { w.fresh(); };
		std::vector<std::vector<std::string>> alone;
		for (auto& d : docs)
		{
			fresh();
			auto ast = peg::parseString(d);
			alone.push_back(verdict(w, ast));
			if (!C.mine()) continue;
			if (!C.begin(std::string(k.name) + ": " + d)) continue;
			++C.transitions;
			auto b = [&] {
				World w2(k.sdl, k.noIntro);
				auto a2 = peg::parseString(d);
				try { return badErrors(d, w2.svc->validate(a2)); }
				catch (const std::exception&) { return std::string(); } // a string which has no value: only its effect on others counts
			}();
			if (!b.empty()) C.fail("bad-error", b + text(alone.back()));
			C.outcome(alone.back().empty() ? "valid" : alone.back().front().substr(0, 40));
		}
		// what happens between two requests: validated, validated again (same tree), executed, subscribed
		auto touch = [&](size_t i, int how) -> std::string {
			auto ast = peg::parseString(docs[i]);
			if (how == 0 || how == 1)
			{
				auto v = verdict(w, ast);
				if (v != alone[i]) return "document '" + docs[i] + "' alone:" + text(alone[i]) + "\n   now:" + text(v);
				if (how == 1)
				{
					v = verdict(w, ast);
					if (v != alone[i]) return "document '" + docs[i] + "' validated again, alone:" + text(alone[i]) + "\n   now:" + text(v);
				}
				return "";
			}
			if (how == 2) { execute(w, ast, "", {}); return ""; }
			try
			{
				service::SubscriptionParams p { nullptr, std::move(ast), "", response::Value(response::Type::Map) };
				auto key = w.svc->subscribe(std::move(p), [](std::future<response::Value>) noexcept {});
				w.svc->unsubscribe(key);
			}
			catch (const std::exception&) {}
			return "";
		};
		auto history = [&](const std::vector<std::pair<size_t, int>>& h) {
			std::string desc = k.name;
			static const char* hn[] = { "validate", "validate twice", "execute", "subscribe" };
			for (auto& s : h) desc += std::string("; ") + hn[s.second] + " " + docs[s.first];
			if (!C.begin(desc)) return;
			fresh();
			++C.traces;
			for (auto& s : h)
			{
				++C.transitions;
				auto e = touch(s.first, s.second);
				if (!e.empty()) { C.fail("history", e); return; }
			}
			// finally everything still gets its verdict: checked for a window of the corpus
			C.states += h.size();
		};
		size_t n = docs.size();
		// long ones
		for (size_t stride = 1; stride < n; ++stride)
			for (int how = 0; how < (C.thorough ? 4 : 2); ++how)
			{
				if (!C.mine()) continue;
				std::vector<std::pair<size_t, int>> h;
				for (size_t t = 0; t < 4 * n; ++t) h.emplace_back(stride * t % n, how ? static_cast<int>((t + stride) % 4) : 0);
				history(h);
			}
		for (size_t a = 0; a < n; ++a)
			for (int ha = 0; ha < 4; ++ha)
				for (size_t b = 0; b < n; ++b)
				{
					for (int hb = 0; hb < 2; ++hb)
						if (C.mine()) history({ { a, ha }, { b, hb } });
				}
		for (size_t a = 0; a < n; ++a)
			for (size_t b = 0; b < n; ++b)
			{
				if (pairsOnly || (&k != &kinds[0] && !C.thorough)) continue;
				if (C.expired("histories of three")) return;
				for (size_t c = 0; c < n; ++c)
					if (C.mine()) history({ { a, 0 }, { b, int((a + b) % 4) }, { c, 0 } });
			}
		if (!C.thorough || pairsOnly) continue;
		for (size_t a = 0; a < n; ++a)
			for (int ha = 0; ha < 4; ++ha)
				for (size_t b = 0; b < n; ++b)
					for (int hb = 0; hb < 4; ++hb)
					{
						if (C.expired("histories of three with every touch")) return;
						for (size_t c = 0; c < n; ++c)
							if (C.mine()) history({ { a, ha }, { b, hb }, { c, 1 } });
					}
	}
}

// Every request of the families of V01 (quick: every n-th of the large ones) as the first one of a service, again on the same
// service, and on one which has validated everything before it.
static void v02cold(mc::Ctx& C)
{
	World warm, cold, first;
	Judge J { C, warm };
	uint64_t k = 0, step = 1;
	J.instead = [&](const std::string& text) {
		if (k++ % step) return;
		if (C.expired("v02cold")) return;
		if (!C.begin("cold: " + text)) return;
		peg::ast a;
		try { a = peg::parseString(text); }
		catch (const std::exception&) { return; }
		auto w = verdict(warm, a);
		cold.fresh();
		auto c1 = verdict(cold, a);
		auto c2 = verdict(cold, a);
		auto b = peg::parseString(text);
		auto c3 = verdict(cold, b);
		++C.traces;
		C.transitions += 4;
		++C.counters["cold requests"];
		if (c1 != w) C.fail("cold", "first request of a service:" + ::text(c1) + "\n   after others:" + ::text(w));
		else if (c1 != c2 || c1 != c3) C.fail("cold-again", "first:" + ::text(c1) + "\n   again:" + ::text(c2 != c1 ? c2 : c3));
	};
	for (auto& d : corpus())
		if (C.mine()) J(d);
	step = C.thorough ? 1 : 3;
	literalFamily(C, J);
	step = C.thorough ? 3 : 40;
	editFamily(C, J);
	step = C.thorough ? 1 : 20;
	variableFamily(C, J);
	fragmentFamily(C, J);
	directiveFamily(C, J);
	operationFamily(C, J);
	fieldFamily(C, J);
	sizeFamily(C, J);
	step = C.thorough ? 3 : 40;
	mergeFamily(C, J);
	C.states = C.traces;
}

static void v02(mc::Ctx& C) { v02x(C, false); }
static void v02pairs(mc::Ctx& C) { v02x(C, true); }

MC_MAIN({ { "v01", v01 }, { "v02", v02 }, { "v02pairs", v02pairs }, { "v02cold", v02cold } })
