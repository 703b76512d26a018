// Services made by schemagen from the schemas in /verif/schemas, against the reference (g01), and
// the same service made with every combination of the generator's options (g03).
#include "gen.h"
#include "svc_run.h"
#include "graphqlservice/JSONResponse.h"

using namespace svc;
using gen::GWorld;
using gen::Program;
using ref::TypeDef;

namespace {

const char* Q3 = "\"\"\"";

// The literals tried for a type: first the good ones, then those that do not fit.
struct Menus
{
	const ref::Schema& S;
	bool thorough;
	std::vector<std::string> good(const ref::Type& t, int depth = 2) const
	{
		std::vector<std::string> v;
		if (t.k == ref::Type::NonNull)
		{
			for (auto& x : good(*t.of, depth)) if (x != "null") v.push_back(x);
			return v;
		}
		if (t.k == ref::Type::List)
		{
			auto e = good(*t.of, depth);
			v.push_back("[]");
			for (auto& x : e) v.push_back("[" + x + "]");
			for (size_t i = 0; i + 1 < e.size() && i < (thorough ? 99 : 6); ++i) v.push_back("[" + e[i] + ", " + e[i + 1] + "]");
			if (e.size() > 2) v.push_back("[" + e[2] + ", " + e[0] + ", " + e[1] + ", " + e.back() + ", " + e[0] + "]");
		}
		else if (t.name == "Int") v = { "3", "0", "-2147483648", "2147483647" };
		else if (t.name == "Float") v = { "0.5", "2", "-1e300", "0.1" };
		else if (t.name == "String") v = { "\"s\"", "\"\"", "\"\\\"\\u00e9\\n\"", std::string(Q3) + "b\n c" + Q3 };
		else if (t.name == "Boolean") v = { "true", "false" };
		else if (t.name == "ID") v = { "\"AQID\"", "\"\"", "\"+/8=\"" };
		else if (auto* d = S.type(t.name); d->k == TypeDef::Enum)
			for (auto& e : d->values) v.push_back(e.name);
		else if (d->k == TypeDef::Input)
		{
			// the least and the greatest object, then each member with each of its values
			auto object = [&](bool all, const std::string& odd, const std::string& val) {
				std::string o;
				for (auto& f : d->inputs)
				{
					if (f.name == odd) { if (!val.empty()) o += (o.empty() ? "" : ", ") + f.name + ": " + val; continue; }
					if (f.type->k == ref::Type::NonNull ? (all || !f.def) : (all && depth > 0)) o += (o.empty() ? "" : ", ") + f.name + ": " + one(*f.type, depth - 1);
				}
				return "{" + o + "}";
			};
			v.push_back(object(false, "", ""));
			if (depth > 0) v.push_back(object(true, "", ""));
			if (depth > 1 || thorough)
				for (auto& f : d->inputs)
				{
					if (depth <= 0) break;
					for (auto& x : good(*f.type, depth - 1)) v.push_back(object(false, f.name, x));
					if (f.def && depth > 1) v.push_back(object(true, f.name, ""));
				}
		}
		else v = { "1", "\"x\"", "true", "ENUM", "2.5", "[1, \"y\"]", "{b: 1, a: [{c: null}]}" };
		v.push_back("null");
		return v;
	}
	std::string one(const ref::Type& t, int depth) const
	{
		auto& s = t.strip();
		if (s.k == ref::Type::List) return "[" + one(*s.of, depth) + "]";
		auto* d = S.type(s.name);
		if (d->k == TypeDef::Input)
		{
			std::string o;
			for (auto& f : d->inputs)
				if (f.type->k == ref::Type::NonNull && !f.def) o += (o.empty() ? "" : ", ") + f.name + ": " + one(*f.type, depth - 1);
			return "{" + o + "}";
		}
		return good(ref::Type { ref::Type::Named, s.name, nullptr }, 0)[0];
	}
	std::vector<std::string> bad(const ref::Type& t, int depth = 1) const
	{
		std::vector<std::string> all { "3", "1.5", "\"s\"", "true", "WRONG", "[3]", "[[null]]", "{zz: 1}", "\"?\"", "null", "[]", "{}" }, v = all;
		auto& s = t.strip();
		if (s.k == ref::Type::List && depth > 0)
			for (auto& x : bad(*s.of, depth - 1)) { v.push_back("[" + x + "]"); v.push_back("[" + one(*s.of, 1) + ", " + x + "]"); }
		if (s.k == ref::Type::Named && depth > 0)
			if (auto* d = S.type(s.name); d->k == TypeDef::Input)
				for (auto& f : d->inputs)
					for (auto& x : bad(*f.type, 0)) v.push_back("{" + f.name + ": " + x + "}");
		return v;
	}
};

struct Gen
{
	mc::Ctx& C;
	const Program& P;
	std::unique_ptr<GWorld> w;
	const ref::Schema& S;
	Menus m;
	Runner r;
	std::map<std::string, std::string> paths; // from the query to each object type: "{a{b%}}"

	Gen(mc::Ctx& C, const Program& P) : C(C), P(P), w(P.make()), S(w->S), m { S, C.thorough }, r { C, *w, DATA | CALLS | ARGS | DIRS | EVENTS | ERRORS, "differs" }
	{
		r.typed = true;
		enumNames().clear();
		for (auto& t : S.own.doc.types)
			if (t.k == TypeDef::Enum)
				for (auto& v : t.values) enumNames()[t.name].push_back(v.name);
		if (S.root("query").size()) reach(S.query, "{%}");
		if (S.root("mutation").size()) reach(S.mutation, "mutation{%}");
	}
	void reach(const std::string& type, const std::string& path)
	{
		if (!paths.emplace(type, path).second) return;
		std::vector<std::pair<std::string, std::string>> next;
		for (auto& f : S.type(type)->fields)
		{
			bool plain = true;
			for (auto& a : f.args) plain = plain && (a.type->k != ref::Type::NonNull || a.def);
			auto* t = S.type(f.type->leaf());
			if (!plain || !S.composite(t)) continue;
			for (auto& p : S.possible(t))
			{
				auto sel = p == t->name ? f.name + "{%}" : f.name + "{...on " + p + "{%}}";
				next.push_back({ p, path.substr(0, path.find('%')) + sel + path.substr(path.find('%') + 1) });
			}
		}
		// breadth first enough: direct ones before theirs
		for (auto& n : next)
			if (!paths.count(n.first)) reach(n.first, n.second);
	}
	std::string in(const std::string& type, const std::string& what) const
	{
		auto p = paths.at(type);
		return p.substr(0, p.find('%')) + what + p.substr(p.find('%') + 1);
	}
	std::string with(const std::string& vars, const std::string& text) const
	{
		if (vars.empty()) return text;
		return text[0] == '{' ? "query" + vars + text : "mutation" + vars + text.substr(8);
	}
	// What is selected of a result
	std::string sub(const ref::FieldDef& f) const
	{
		auto* t = S.type(f.type->leaf());
		if (!S.composite(t)) return "";
		std::string o = "{__typename";
		for (auto& p : S.possible(t))
		{
			std::string x;
			for (auto& g : S.type(p)->fields)
				if (!S.composite(S.type(g.type->leaf())) && g.args.empty() && x.size() < 60) x += " " + p + "_" + g.name + ":" + g.name;
			if (!x.empty()) o += " ...on " + p + "{" + x + "}";
		}
		return o + "}";
	}
	std::string required(const ref::FieldDef& f, const std::string& except) const
	{
		std::string o;
		for (auto& a : f.args)
			if (a.name != except && a.type->k == ref::Type::NonNull && !a.def) o += " " + a.name + ": " + m.one(*a.type, 2);
		return o;
	}
	static std::string args(const std::string& a) { return a.empty() ? "" : "(" + a + ")"; }

	bool run(const std::string& text, const Vars& vars = {}, const std::map<std::string, Fail>& fails = {}, How how = How::Value, std::launch l = std::launch::deferred)
	{
		if (!C.begin(P.name + " " + P.variant + ": " + text + describe(vars))) return true;
		auto q = prepare(*w, text);
		if (!q.good) { ++C.counters["not valid requests"]; return false; }
		++C.counters["requests"];
		r.run(q, "", vars, fails, how, l);
		return true;
	}
	// The same variables from a JSON text: enumeration values are strings there.
	void json(const std::string& text, const std::string& name, const std::string& literal)
	{
		auto q = prepare(*w, text);
		if (!q.good) return;
		auto val = lit(literal);
		std::string j = "{\"" + name + "\":" + response::toJSON(toResponse(val)) + "}";
		if (!C.begin(P.name + " " + P.variant + ": " + text + " " + j)) return;
		++C.counters["requests with JSON variables"];
		auto* op = Exec::pick(q.p.doc, "");
		w->rec.fails.clear();
		w->rec.how = How::Value;
		w->rec.clear();
		Actual a;
		try { a = document(w->svc->resolve(std::launch::deferred, nullptr, q.ast, "", response::parseJSON(j)).get()); }
		catch (const std::exception& ex) { a.thrown = ex.what(); }
		Exec x(S, q.p.doc);
		x.typed = true;
		auto e = x.run(*op, { { name, val } }, op->type == "mutation" ? 1 : 0);
		if (x.open) return;
		++C.transitions;
		++C.traces;
		C.states += e.calls.size() + 1;
		auto d = differs(w->rec, a, e, DATA | CALLS | ARGS | DIRS | EVENTS | ERRORS);
		if (!d.empty()) C.fail("json-variable", d);
	}
	static bool hasEnumOrScalar(const ref::Schema& S, const ref::Type& t, std::set<std::string>& seen)
	{
		auto* d = S.type(t.leaf());
		if (d->k == TypeDef::Scalar && t.leaf() != "Int" && t.leaf() != "Float" && t.leaf() != "String" && t.leaf() != "Boolean" && t.leaf() != "ID") return true;
		if (d->k == TypeDef::Input && seen.insert(d->name).second)
			for (auto& f : d->inputs) if (hasEnumOrScalar(S, *f.type, seen)) return true;
		return false;
	}

	void field(const std::string& type, const ref::FieldDef& f)
	{
		auto s = sub(f);
		if (C.mine()) run(in(type, f.name + args(required(f, "")) + s));
		for (auto& a : f.args)
		{
			auto rest = required(f, a.name);
			auto call = [&](const std::string& v) { return in(type, f.name + args(rest + " " + a.name + ": " + v) + s); };
			auto good = m.good(*a.type);
			std::set<std::string> seen;
			bool scalar = hasEnumOrScalar(S, *a.type, seen);
			auto t = a.type->str();
			if (C.mine()) run(in(type, f.name + args(rest) + s)); // absent
			for (auto& v : good)
			{
				if (!C.mine()) continue;
				run(call(v));
				run(with("($v: " + t + ")", call("$v")), { { "v", lit(v) } });
				run(with("($v: " + t + " = " + v + ")", call("$v")));
				if (!scalar) json(with("($v: " + t + ")", call("$v")), "v", v);
			}
			for (auto& v : m.bad(*a.type))
			{
				if (!C.mine()) continue;
				run(call(v));
				run(with("($v: " + t + ")", call("$v")), { { "v", lit(v) } });
			}
			// variables within the value
			auto& st = a.type->strip();
			if (st.k == ref::Type::List)
				for (auto& v : m.good(*st.of, 1))
				{
					if (!C.mine()) continue;
					run(with("($v: " + st.of->str() + ")", call("[$v, " + v + "]")), { { "v", lit(v) } });
				}
			else if (auto* d = S.type(st.name); d->k == TypeDef::Input)
				for (auto& x : d->inputs)
					for (auto& v : m.good(*x.type, 1))
					{
						if (!C.mine()) continue;
						std::string others;
						for (auto& y : d->inputs)
							if (y.name != x.name && y.type->k == ref::Type::NonNull && !y.def) others += ", " + y.name + ": " + m.one(*y.type, 1);
						run(with("($v: " + x.type->str() + ")", call("{" + x.name + ": $v" + others + "}")), { { "v", lit(v) } });
						if (x.type->k != ref::Type::NonNull && !x.def) run(with("($v: " + x.type->str() + ")", call("{" + x.name + ": $v" + others + "}")));
					}
		}
		// several arguments, in every order
		if (f.args.size() > 1)
		{
			std::vector<size_t> order;
			for (size_t i = 0; i < f.args.size(); ++i) order.push_back(i);
			if (order.size() > 4) order.resize(4);
			do
				for (size_t mask = 0; mask < 1u << order.size(); ++mask)
				{
					if (!C.mine()) continue;
					std::string o;
					for (auto i : order)
						if (mask & 1 << i) o += " " + f.args[i].name + ": " + m.one(*f.args[i].type, 2);
					run(in(type, f.name + args(o) + s));
				}
			while (std::next_permutation(order.begin(), order.end()));
		}
	}
	void object(const TypeDef& d)
	{
		if (!paths.count(d.name)) return;
		for (auto& f : d.fields) field(d.name, f);
		// all fields at once, by every way results arrive, each failing in every way
		std::string all = "__typename";
		for (auto& f : d.fields)
			if (required(f, "").empty()) all += " " + f.name + sub(f);
		auto text = in(d.name, all);
		for (auto how : { How::Value, How::Ready, How::Deferred, How::Async })
			for (auto l : { std::launch::deferred, std::launch::async })
				if (C.mine()) run(text, {}, {}, how, l);
		// the paths of the calls made for that object
		auto q = prepare(*w, text);
		if (!q.good) { C.begin(text); C.fail("not-valid", "the generated schema's request is not valid: " + text); return; }
		Exec x(S, q.p.doc);
		x.typed = true;
		auto e = x.run(*Exec::pick(q.p.doc, ""), {}, 0);
		std::set<std::string> fields;
		for (auto& c : e.calls)
			if (c.object == d.name && fields.insert(c.field).second)
				for (auto fail : { Fail::ThrowSchema, Fail::ThrowStd, Fail::FutureSchema, Fail::FutureStd, Fail::Throw2, Fail::FutureLate })
				{
					if (!C.mine()) continue;
					run(text, {}, { { c.path, fail } });
					run(text, {}, { { c.path, fail } }, How::Async);
				}
			else if (c.object == d.name) ++C.counters["further calls of the same field"];
		for (auto& c : e.calls) // the value null where there may be one
			if (c.object == d.name)
				if (auto* f = S.field(&d, c.field); f->type->k != ref::Type::NonNull && C.mine()) run(text, {}, { { c.path, Fail::Null } });
	}
	void fragments()
	{
		std::vector<const TypeDef*> comp;
		for (auto& d : S.own.doc.types)
			if (S.composite(&d)) comp.push_back(&d);
		for (auto& d : S.own.doc.types)
		{
			if (d.k != TypeDef::Object || !paths.count(d.name)) continue;
			for (auto& f : d.fields)
			{
				if (!S.composite(S.type(f.type->leaf())) || !required(f, "").empty()) continue;
				auto* t = S.type(f.type->leaf());
				for (auto* a : comp)
					for (auto* b : comp)
					{
						if (!C.mine()) continue;
						run(in(d.name, f.name + "{...on " + a->name + "{...on " + b->name + "{__typename x:__typename}}}"));
						run(in(d.name, f.name + "{...F}") + "fragment F on " + a->name + "{y:__typename ...on " + b->name + "{__typename}}");
					}
				// the fields of an interface
				if (t->k == TypeDef::Interface)
					for (auto& g : t->fields)
						if (required(g, "").empty() && C.mine()) run(in(d.name, f.name + "{" + g.name + sub(g) + "}"));
			}
		}
	}
};

// ---- descriptions of the schema
std::string flat(const response::Value& v, const std::string& key = "")
{
	if (v.type() == response::Type::Map)
	{
		std::string o = "{";
		for (auto& x : v) o += x.first + ":" + flat(x.second, x.first) + ",";
		return o + "}";
	}
	if (v.type() == response::Type::List)
	{
		std::vector<std::string> e;
		for (auto& x : v.get<response::ListType>()) e.push_back(flat(x));
		if (key == "types" || key == "directives" || key == "possibleTypes") std::sort(e.begin(), e.end());
		std::string o = "[";
		for (auto& x : e) o += x + ",\n";
		return o + "]";
	}
	if (key == "defaultValue" && v.type() == response::Type::String) return "D" + show(lit(v.get<response::StringType>()), {});
	return show(v);
}
struct Intro
{
	mc::Ctx& C;
	const Program& P;
	Gen& g;
	World ref;
	Intro(mc::Ctx& C, const Program& P, Gen& g) : C(C), P(P), g(g), ref(P.sdl, P.noIntrospection) {}
	std::string ask(service::Request& s, const std::string& q)
	{
		auto ast = peg::parseString(q);
		try { return flat(s.resolve(std::launch::deferred, nullptr, ast, "", response::Value(response::Type::Map)).get()); }
		catch (const std::exception& ex) { return std::string("threw ") + ex.what(); }
	}
	void same(const std::string& q)
	{
		if (!C.mine() || !C.begin(P.name + " " + P.variant + ": " + q)) return;
		++C.transitions;
		++C.traces;
		++C.counters["introspection requests"];
		auto a = ask(*g.w->svc, q), b = ask(*ref.svc, q);
		C.states += 1 + b.size() / 50;
		if (a == b) return;
		size_t p = 0;
		while (p < a.size() && p < b.size() && a[p] == b[p]) ++p;
		size_t s = p > 80 ? p - 80 : 0;
		C.fail("introspection", "generated service: ..." + a.substr(s, 300) + "\n schema: ..." + b.substr(s, 300));
	}
	void run()
	{
		static const std::string frags = " fragment TR on __Type { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } } } }"
										 " fragment IV on __InputValue { name description type { ...TR } defaultValue }";
		auto sel = [](const std::string& a) {
			return "{ __typename kind name description fields" + a + " { name description args { ...IV } type { ...TR } isDeprecated deprecationReason } inputFields { ...IV } interfaces { ...TR } enumValues" + a
				+ " { name description isDeprecated deprecationReason } possibleTypes { ...TR } ofType { name } }";
		};
		for (auto a : { "", "(includeDeprecated: true)", "(includeDeprecated: false)" })
			same("{ __schema { __typename queryType { ...TR } mutationType { ...TR } subscriptionType { ...TR } types " + sel(a) + " directives { name description locations args { ...IV } } } }" + frags);
		std::set<std::string> names { "Int", "Float", "String", "Boolean", "ID", "__Type", "__Schema", "__TypeKind" };
		for (auto& d : g.S.own.doc.types)
			if (!d.name.empty()) names.insert(d.name);
		for (auto& n : names)
			same("{ __type(name: \"" + n + "\") " + sel("(includeDeprecated: true)") + " }" + frags);
		for (auto n : { "Nothing", "", "int", "__type", "Quer", "Queryy", "[Int]", "Int!" })
			if (!names.count(n))
			{
				std::string q = std::string("{ a: __type(name: \"") + n + "\") { name kind } }";
				if (!C.mine() || !C.begin(P.name + " " + P.variant + ": " + q)) continue;
				++C.transitions;
				auto a = ask(*g.w->svc, q);
				if (P.noIntrospection ? a.find("errors") == std::string::npos : a.find("{data:{a:null,},") != 0) C.fail("unknown-type", a);
			}
		same("{ __typename }");
	}
};

// ---- subscriptions
void subscription(mc::Ctx& C, const Program& P, Gen& g)
{
	auto& root = g.S.subscription;
	if (root.empty()) return;
	for (auto& f : g.S.type(root)->fields)
		for (int n = 0; n < 3; ++n)
		{
			if (!C.mine()) continue;
			std::string a;
			if (n == 1) for (auto& x : f.args) a += " " + x.name + ": " + g.m.one(*x.type, 2);
			if (n == 2) for (auto& x : f.args) a += " " + x.name + ": null";
			auto text = "subscription{" + f.name + Gen::args(a) + g.sub(f) + "}";
			auto q = prepare(*g.w, text);
			if (!q.good || !C.begin(P.name + " " + P.variant + ": " + text)) continue;
			++C.counters["subscriptions"];
			auto none = g.w->svc->validate(q.ast);
			g.w->rec.clear();
			Actual got;
			int count = 0;
			try
			{
				auto key = g.w->svc->subscribe(service::SubscriptionParams { nullptr, peg::ast(q.ast), "", response::Value(response::Type::Map) },
					[&](std::future<response::Value> f) { ++count; got = document(f.get()); });
				for (int object = 0; object < 2; ++object)
				{
					g.w->rec.clear();
					count = 0;
					auto all = [](response::MapType::const_reference) { return true; };
					g.w->svc->deliver(std::launch::deferred, f.name, all, all, object ? g.w->obj(root, 4) : std::shared_ptr<service::Object> {});
					Exec x(g.S, q.p.doc);
					x.typed = true;
					x.rootId = object ? 4 : 0;
					auto e = x.run(q.p.doc.ops[0], {}, 3, root);
					++C.transitions;
					++C.traces;
					C.states += e.calls.size() + 1;
					auto d = count != 1 ? "called back " + std::to_string(count) + " times" : differs(g.w->rec, got, e, DATA | CALLS | ARGS | EVENTS | ERRORS);
					if (!d.empty()) C.fail("subscription", d);
				}
				g.w->svc->unsubscribe(key);
			}
			catch (const std::exception& ex) { C.fail("subscription", std::string("threw ") + ex.what()); }
		}
}

void all(mc::Ctx& C, const Program& P)
{
	Gen g(C, P);
	Intro(C, P, g).run();
	for (auto& d : g.S.own.doc.types)
		if (d.k == TypeDef::Object) g.object(d);
	g.fragments();
	subscription(C, P, g);
	++C.counters["services x shards"];
}

void g01(mc::Ctx& C)
{
	for (auto& p : gen::programs()) all(C, p);
}

} // namespace

MC_MAIN({ { "g01", g01 }, { "g03", g01 } })
