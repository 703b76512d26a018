// C02: the clients which clientgen makes, and what RequestLoader makes of every request.
#include "mc.h"
#include "keywords.h"
#include "client.h"
#include "ref_client.h"
#include "svc_sdl.h"
#include "valid_families.h"
#include "RequestLoader.h"
#include "SchemaLoader.h"
#include "graphqlservice/JSONResponse.h"

using namespace graphql;
using cli::Node;
using cli::Program;
using ref::Member;
using ref::TypeDef;

namespace cli {

std::vector<Program>& programs()
{
	static std::vector<Program> p;
	return p;
}
std::string quoted(const std::string& s) { return mc::jsonq(s); }
std::string number(double d)
{
	char b[64];
	std::snprintf(b, sizeof b, "F%a", d);
	return b;
}
response::Value toValue(const Node& n)
{
	switch (n.k)
	{
		case Node::Int: return response::Value(static_cast<int>(n.n));
		case Node::Float: return response::Value(n.f);
		case Node::Str: return response::Value(std::string(n.s));
		case Node::Bool: return response::Value(n.n != 0);
		case Node::Id: return response::Value(response::IdType { n.s.begin(), n.s.end() });
		case Node::Enum:
		{
			response::Value v(response::Type::EnumValue);
			v.set<response::StringType>(std::string(n.s));
			return v;
		}
		case Node::List:
		{
			response::Value v(response::Type::List);
			for (auto& x : n.list) v.emplace_back(toValue(x));
			return v;
		}
		case Node::Obj:
		{
			response::Value v(response::Type::Map);
			for (auto& x : n.obj) v.emplace_back(std::string(x.first), toValue(x.second));
			return v;
		}
		default: return {};
	}
}
// The order of the members of a map has no meaning.
static std::string canon(const response::Value& v)
{
	switch (v.type())
	{
		case response::Type::Int: return "I" + std::to_string(v.get<response::IntType>());
		case response::Type::Float: return number(v.get<response::FloatType>());
		case response::Type::String: return "S" + quoted(v.get<response::StringType>());
		case response::Type::Boolean: return v.get<response::BooleanType>() ? "true" : "false";
		case response::Type::EnumValue: return "E" + v.get<response::StringType>();
		case response::Type::List:
		{
			std::string o = "[";
			for (auto& e : v.get<response::ListType>()) o += canon(e) + ",";
			return o + "]";
		}
		case response::Type::Map:
		{
			std::vector<std::string> m;
			for (auto& e : v.get<response::MapType>()) m.push_back(quoted(e.first) + ":" + canon(e.second) + ",");
			std::sort(m.begin(), m.end());
			std::string o = "{";
			for (auto& e : m) o += e;
			return o + "}";
		}
		default: return "null";
	}
}
std::string anyText(const response::Value& v) { return canon(v); }

} // namespace cli

namespace {

// ---------------------------------------------------------------- all values within a number of departures from the first
struct Chooser
{
	std::vector<int> arity, taken;
	std::vector<std::pair<size_t, int>> plan; // departures: position, alternative
	bool on = true;
	int pick(int n)
	{
		if (!on || n < 2) return 0;
		size_t at = arity.size();
		arity.push_back(n);
		for (auto& p : plan)
			if (p.first == at) return p.second;
		return 0;
	}
	// Calls f for the plan with no departure and for every plan with at most k of them.
	template <class F> static void all(int k, F&& f) { go({}, 0, k, f); }

private:
	template <class F> static void go(std::vector<std::pair<size_t, int>> plan, size_t from, int k, F& f)
	{
		Chooser c;
		c.plan = plan;
		f(c);
		if (!k) return;
		for (size_t i = from; i < c.arity.size(); ++i)
			for (int a = 1; a < c.arity[i]; ++a)
			{
				auto p = plan;
				p.emplace_back(i, a);
				go(p, i + 1, k - 1, f);
			}
	}
};

struct Values
{
	const ref::Schema& S;
	Chooser& c;
	int count = 0;

	Node leaf(const TypeDef* d, const std::string& t)
	{
		Node v;
		int n = ++count;
		if (t == "Int")
		{
			static const long long x[] = { 0, 0, -1, INT32_MAX, INT32_MIN };
			int i = c.pick(5);
			v.k = Node::Int;
			v.n = i ? x[i] : 100 + n;
		}
		else if (t == "Float")
		{
			static const double x[] = { 0, 0, -1e300, 3, 0.1 };
			int i = c.pick(5);
			v.k = Node::Float;
			v.f = i ? x[i] : n + 0.5;
		}
		else if (t == "String")
		{
			static const std::string x[] = { "", "", "RED", std::string("\"\\\n\0\xC3\xA9", 6) };
			int i = c.pick(4);
			v.k = Node::Str;
			v.s = i ? x[i] : "s" + std::to_string(n);
		}
		else if (t == "Boolean")
		{
			v.k = Node::Bool;
			v.n = (c.pick(2) + n) % 2;
		}
		else if (t == "ID")
		{
			static const std::string x[] = { "", "", std::string("\0\xFF\0", 3) };
			int i = c.pick(3);
			v.k = Node::Id;
			v.s = i ? x[i] : "i" + std::to_string(n);
		}
		else if (d->k == TypeDef::Enum)
		{
			v.k = Node::Enum;
			int m = static_cast<int>(d->values.size());
			v.s = d->values[(c.pick(m) + n) % m].name;
		}
		else
		{
			int i = c.pick(4);
			Node one;
			one.k = Node::Int;
			one.n = n;
			v = one;
			if (i) v = Node {};
			if (i == 1) v.k = Node::List;
			if (i == 2) { v.k = Node::Str; v.s = "a"; }
			if (i == 3) { v.k = Node::Obj; v.obj = { { "k", one }, { "l", Node {} } }; }
		}
		return v;
	}
	// A value of a type; named: of its named types; deep: the shortest.
	template <class F> Node value(const ref::Type& t, bool deep, F&& named)
	{
		if (t.k != ref::Type::NonNull)
		{
			if (deep) return {};
			if (c.pick(2)) return {};
		}
		auto& s = t.strip();
		if (s.k != ref::Type::List) return named(s.name);
		Node v;
		v.k = Node::List;
		static const int lengths[] = { 1, 0, 2 };
		int n = deep ? 0 : lengths[c.pick(3)];
		for (int i = 0; i < n; ++i) v.list.push_back(value(*s.of, deep, named));
		return v;
	}
	Node input(const ref::Type& t, bool deep = false)
	{
		auto* d = S.type(t.leaf());
		return value(t, deep, [&](const std::string& n) {
			if (d->k != TypeDef::Input) return leaf(d, n);
			Node v;
			v.k = Node::Obj;
			for (auto& i : d->inputs) v.obj.emplace_back(i.name, input(*i.type, deep));
			return v;
		});
	}
};

// ---------------------------------------------------------------- responses
struct Answer
{
	const ref::Request& Q;
	Values& V;
	std::map<std::string, bool> vars;
	std::string focus;

	bool included(const std::vector<ref::Dir>& ds)
	{
		for (auto& d : ds)
			for (auto& a : d.args)
			{
				bool b = a.val.k == ref::Val::Var ? vars.at(a.val.text) : a.val.text == "true";
				if (d.name == "include" && !b) return false;
				if (d.name == "skip" && b) return false;
			}
		return true;
	}
	struct Got
	{
		std::string key, name;
		ref::TypeP type;
		std::vector<const std::vector<ref::Sel>*> subs;
	};
	void collect(const std::vector<ref::Sel>& sels, const TypeDef* t, std::vector<Got>& out)
	{
		for (auto& s : sels)
		{
			if (!included(s.dirs)) continue;
			if (s.k == ref::Sel::Field)
			{
				Got* g = nullptr;
				for (auto& x : out)
					if (x.key == s.key()) g = &x;
				if (!g)
				{
					out.push_back({ s.key(), s.name, Q.fieldType(t, s.name), {} });
					g = &out.back();
				}
				if (s.hasSels) g->subs.push_back(&s.sels);
				continue;
			}
			auto* f = s.k == ref::Sel::Spread ? Q.frags.at(s.name) : nullptr;
			auto& cond = f ? f->cond : s.cond;
			if (cond.empty() || cond == t->name || Q.S.possible(Q.S.type(cond)).count(t->name)) collect(f ? f->sels : s.sels, t, out);
		}
	}
	Node object(const std::vector<const std::vector<ref::Sel>*>& subs, const TypeDef* t, bool root)
	{
		std::vector<Got> got;
		for (auto* s : subs) collect(*s, t, got);
		Node v;
		v.k = Node::Obj;
		for (auto& g : got)
		{
			if (root)
			{
				// the other members are there once
				V.c.on = g.key == focus;
				if (!V.c.on && !V.c.plan.empty()) continue;
			}
			Node x;
			if (g.name == "__typename")
			{
				x.k = Node::Str;
				x.s = t->name;
			}
			else
				x = V.value(*g.type, false, [&](const std::string& n) {
					auto* d = Q.S.type(n);
					if (g.subs.empty()) return V.leaf(d, n);
					auto names = Q.S.possible(d);
					std::vector<std::string> all(names.begin(), names.end());
					auto& rt = all[V.c.pick(static_cast<int>(all.size()))];
					return object(g.subs, Q.S.type(rt), false);
				});
			v.obj.emplace_back(g.key, x);
		}
		if (root) V.c.on = true;
		return v;
	}
};

// What the members of the response show.
std::string expected(const std::vector<Member>& ms, const ref::Schema& S, const Node* v);
std::string expected(const Member& m, const ref::Type& t, const ref::Schema& S, const Node* v)
{
	auto& s = t.strip();
	if (t.k != ref::Type::NonNull && (!v || v->k == Node::Null)) return "null";
	if (s.k == ref::Type::List)
	{
		std::string o = "[";
		if (v)
			for (auto& x : v->list) o += expected(m, *s.of, S, &x) + ",";
		return o + "]";
	}
	if (!m.parts.empty()) return expected(m.members, S, v);
	auto* d = S.type(s.name);
	auto& n = s.name;
	if (n == "Int") return "I" + std::to_string(v ? v->n : 0);
	if (n == "Float") return cli::number(v ? v->f : 0);
	if (n == "String") return "S" + cli::quoted(v ? v->s : "");
	if (n == "Boolean") return v && v->n ? "true" : "false";
	if (n == "ID") return "ID" + cli::quoted(v ? v->s : "");
	if (d->k == TypeDef::Enum) return "E:" + (v ? v->s : d->values[0].name);
	return v ? cli::anyText(cli::toValue(*v)) : "null";
}
std::string expected(const std::vector<Member>& ms, const ref::Schema& S, const Node* v)
{
	std::string o = "{";
	for (auto& m : ms) o += m.key + ":" + expected(m, *m.type, S, v ? v->find(m.key) : nullptr) + ",";
	return o + "}";
}
Node reversed(Node v)
{
	std::reverse(v.obj.begin(), v.obj.end());
	for (auto& m : v.obj) m.second = reversed(m.second);
	for (auto& x : v.list) x = reversed(x);
	return v;
}

std::string tokens(const std::string& text)
{
	auto l = ref::lex(text);
	if (!l.ok) return "(does not lex)";
	std::string o;
	for (auto& t : l.toks) o += (t.k == ref::Tok::Str || t.k == ref::Tok::Block ? cli::quoted(t.val) : t.text) + "\n";
	return o;
}
std::string tree(const peg::ast_node& n)
{
	std::string o = "(";
	if (n.is_type<peg::string_value>()) o += cli::quoted(std::string(n.unescaped_view()));
	else if (n.children.empty() && n.has_content()) o += " " + std::string(n.string_view());
	for (auto& c : n.children)
		if (!n.is_type<peg::string_value>()) o += tree(*c);
	return o + ")";
}

void programMode(mc::Ctx& C)
{
	auto& ps = cli::programs();
	std::sort(ps.begin(), ps.end(), [](const Program& a, const Program& b) { return a.name < b.name; });
	int k = C.thorough ? 3 : 2;
	for (auto& p : ps)
	{
		ref::Schema S(p.sdl, !p.noIntrospection);
		auto doc = ref::parse(p.request);
		ref::Request Q(S, doc.doc, p.op);
		auto ms = Q.members();
		if (C.mine() && C.begin(p.name + ": text"))
		{
			++C.states;
			++C.traces;
			if (tokens(p.text()) != tokens(p.request)) C.fail("request-text", "the embedded text is\n" + p.text());
			else
			{
				auto& ast = p.object();
				if (!ast.root || !ast.validated) C.fail("request-object", ast.root ? "not marked as validated" : "no document");
				else if (auto want = tree(*peg::parseString(p.request).root), got = tree(*ast.root); want != got) C.fail("request-object", got + "\ninstead of\n" + want);
			}
		}
		auto guarded = [&](const char* sig, auto&& f) {
			try { f(); }
			catch (const std::exception& ex) { C.fail(sig, std::string("an exception: ") + ex.what()); }
		};
		if (p.serialize)
			for (auto& focus : Q.op->vars)
			{
				if (!C.mine() || !C.begin(p.name + ": $" + focus.name)) continue;
				auto name = C.current;
				Chooser::all(k, [&](Chooser& c) {
					Values V { S, c };
					Node all;
					all.k = Node::Obj;
					for (auto& v : Q.op->vars)
					{
						c.on = v.name == focus.name;
						all.obj.emplace_back(v.name, V.input(*v.type, !c.on && !c.plan.empty()));
					}
					++C.transitions;
					++C.traces;
					auto want = cli::canon(cli::toValue(all));
					C.current = name + " = " + want;
					guarded("variables", [&] {
						auto got = cli::canon(p.serialize(all));
						if (got != want) C.fail("variables", "sent as " + got);
					});
				});
				++C.states;
			}
		std::set<std::string> flags;
		std::function<void(const std::vector<ref::Sel>&)> uses = [&](const std::vector<ref::Sel>& sels) {
			for (auto& s : sels)
			{
				for (auto& d : s.dirs)
					for (auto& a : d.args)
						if (a.val.k == ref::Val::Var) flags.insert(a.val.text);
				uses(s.sels);
			}
		};
		uses(Q.op->sels);
		for (auto& f : Q.frags) uses(f.second->sels);
		for (auto& m : ms)
		{
			if (!C.mine() || !C.begin(p.name + ": " + m.key)) continue;
			auto name = C.current;
			Chooser::all(k, [&](Chooser& c) {
				Values V { S, c };
				Answer A { Q, V, {}, m.key };
				for (auto& f : flags) A.vars[f] = (c.pick(2) != 0) != (f != "no");
				auto v = A.object({ &Q.op->sels }, Q.root(), true);
				auto want = expected(ms, S, &v);
				for (int way = 0; way < 4; ++way)
				{
					auto data = cli::toValue(way & 1 ? reversed(v) : v);
					++C.transitions;
					++C.traces;
					if (way & 2) C.current = response::toJSON(cli::toValue(way & 1 ? reversed(v) : v));
					else C.current = cli::canon(data);
					C.current = name + (way & 2 ? " as JSON " : " ") + C.current;
					guarded("response", [&] {
						auto got = p.parse(way & 2 ? response::parseJSON(response::toJSON(std::move(data))) : std::move(data));
						if (got != want) C.fail("response", "understood as " + got + "\ninstead of     " + want);
					});
				}
			});
			++C.states;
		}
	}
	C.notes["programs"] = std::to_string(ps.size());
}

// ---------------------------------------------------------------- the loader
// A file in memory.
struct File
{
	int fd = memfd_create("c02", 0);
	std::string path = "/proc/self/fd/" + std::to_string(fd);
	void set(const std::string& text)
	{
		if (ftruncate(fd, 0) || pwrite(fd, text.data(), text.size(), 0) != static_cast<ssize_t>(text.size())) std::abort();
	}
};

std::string modifiers(const generator::TypeModifierStack& ms)
{
	std::string o;
	for (auto m : ms) o += m == service::TypeModifier::Nullable ? "?" : m == service::TypeModifier::List ? "[" : "";
	return o;
}
std::string modifiers(const ref::Type& t)
{
	auto& s = t.strip();
	return (t.k == ref::Type::NonNull ? "" : "?") + (s.k == ref::Type::List ? "[" + modifiers(*s.of) : "");
}
std::string shown(const generator::ResponseFieldList& fs)
{
	std::string o = "{";
	for (auto& f : fs)
		o += std::string(f.name) + "=" + std::string(f.cppName) + ":" + modifiers(f.modifiers) + std::string(f.type->name()) + (f.children.empty() ? "" : shown(f.children)) + " ";
	return o + "}";
}
std::string shown(const std::vector<Member>& ms)
{
	std::string o = "{";
	for (auto& m : ms) o += m.key + "=" + identifier(ref::cppName(m.key)) + ":" + modifiers(*m.type) + m.leaf() + (m.members.empty() ? "" : shown(m.members)) + " ";
	return o + "}";
}

struct Loading
{
	mc::Ctx& C;
	std::string sdl;
	ref::Schema S;
	File schemaFile, requestFile;
	bool noIntro, own = false; // own: this shard runs every case
	Loading& w = *this; // as the families of documents want it
	void operator()(const std::string& text)
	{
		// the name of the first operation, where there are several
		auto at = text.find("query "), end = at;
		std::string op;
		if (at != std::string::npos && text.find("query ", at + 1) != std::string::npos)
		{
			end = at = at + 6;
			while (end < text.size() && (isalnum(static_cast<unsigned char>(text[end])) || text[end] == '_')) ++end;
			op = text.substr(at, end - at);
		}
		run(text, op);
	}
	std::unique_ptr<generator::SchemaLoader> schema;

	Loading(mc::Ctx& C, const std::string& sdl, bool noIntro = false) : C(C), sdl(sdl), S(sdl, !noIntro), noIntro(noIntro)
	{
		schemaFile.set(sdl);
		schema = std::make_unique<generator::SchemaLoader>(generator::SchemaOptions { schemaFile.path, "X", "x" });
	}
	void run(const std::string& text, const std::string& op = "")
	{
		if ((!own && !C.mine()) || !C.begin((op.empty() ? "" : "[" + op + "] ") + text)) return;
		auto p = ref::parse(text);
		if (p.ambiguous || p.badSurrogate || p.missingSep || p.sigilSep || p.varInConst) { ++C.counters["not judged"]; return; }
		bool valid = false, undecided = false;
		if (p.ok)
		{
			ref::Validator v(S, p.doc);
			valid = v.run();
			undecided = v.ambiguous;
		}
		ref::Request Q(S, p.doc, op);
		if (op.empty() && p.doc.ops.size() > 1) { ++C.counters["not judged"]; return; }
		bool want = valid && Q.op && Q.root();
		++C.states;
		++C.traces;
		requestFile.set(text);
		std::unique_ptr<generator::RequestLoader> l;
		std::string why;
		try
		{
			l = std::make_unique<generator::RequestLoader>(generator::RequestOptions { requestFile.path, op, noIntro }, *schema);
		}
		catch (const peg::parse_error& ex) { why = ex.what(); }
		catch (service::schema_exception& ex) { for (auto& e : ex.getStructuredErrors()) why += " " + e.message; }
		catch (const std::runtime_error& ex) { why = ex.what(); }
		catch (const std::exception& ex)
		{
			C.fail("not-reported", std::string("an exception which the tool does not report: ") + ex.what());
			return;
		}
		C.outcome(l ? "accepted" : why.substr(0, 40));
		if (want != bool(l))
		{
			if (undecided || (p.ok && Q.op && Q.root() && explained(p, bool(l)))) { ++C.counters["validator's known findings"]; return; }
			C.fail(want ? "refused" : "accepted", want ? "refused a request which is valid:" + why : "accepted a request which is not");
			return;
		}
		if (!l) return;
		auto fail = [&](const char* what, const std::string& got, const std::string& want) {
			if (got != want) C.fail(what, std::string(what) + ": " + got + "\ninstead of " + want);
		};
		fail("operation", std::string(l->getOperationType()), Q.op->type);
		fail("response", shown(l->getResponseType().fields), shown(Q.members()));
		std::string got, exp;
		for (auto& v : l->getVariables()) got += std::string(v.name) + "=" + std::string(v.cppName) + ":" + modifiers(v.modifiers) + std::string(v.type->name()) + " ";
		for (auto& v : Q.op->vars) exp += v.name + "=" + identifier(ref::cppName(v.name)) + ":" + modifiers(*v.type) + v.type->leaf() + " ";
		fail("variables", got, exp);
		fail("request text", tokens(std::string(l->getRequestText())), tokens(text));
		std::vector<const TypeDef*> types;
		for (auto& v : Q.op->vars) ref::needed(S, v.type->leaf(), types);
		std::set<std::string> inputs, enums, seen;
		for (auto* d : types)
			if (d->k == TypeDef::Input) inputs.insert(d->name);
		ref::needed(S, Q.members(), types);
		for (auto* d : types)
			if (d->k == TypeDef::Enum) enums.insert(d->name);
		auto text_ = [](const std::set<std::string>& s) { std::string o; for (auto& x : s) o += x + " "; return o; };
		for (auto& t : l->getReferencedEnums())
			if (!seen.insert(std::string(t->name())).second) C.fail("enums", "twice: " + std::string(t->name()));
		fail("enums", text_(seen), text_(enums));
		seen.clear();
		for (auto& t : l->getReferencedInputTypes())
		{
			std::string n(t->name());
			if (!seen.insert(n).second) C.fail("inputs", "twice: " + n);
			for (auto& i : S.type(n)->inputs)
				if (auto x = i.type->leaf(); S.type(x)->k == TypeDef::Input && x != n && !seen.count(x) && !reaches(x, n)) C.fail("inputs", n + " comes before " + x);
		}
		fail("inputs", text_(seen), text_(inputs));
	}
	bool explained(const ref::Parsed& p, bool got)
	{
		for (unsigned b = 1; b < (1u << ref::Quirks::N); ++b)
		{
			ref::Validator q(S, p.doc, ref::Quirks::bits(b));
			if (q.run() == got && !q.ambiguous) return true;
		}
		return false;
	}
	bool reaches(const std::string& from, const std::string& to)
	{
		std::set<std::string> seen { from };
		std::vector<std::string> todo { from };
		while (!todo.empty())
		{
			auto n = todo.back();
			todo.pop_back();
			for (auto& i : S.type(n)->inputs)
			{
				auto x = i.type->leaf();
				if (x == to) return true;
				if (S.type(x)->k == TypeDef::Input && seen.insert(x).second) todo.push_back(x);
			}
		}
		return false;
	}
};

const char* const NODE[] = { "id", "x: name", "__typename", "peer { id }", "peer { shared }", "... on A { a }", "... on A { peer { _Meta } deep { a } }", "... on B { deep { peer { id } } shared }", "... { kind }", "...F",
	"other { x__y }", "list { name }", "name @include(if: true)", "... on Node @skip(if: false) { peer { name } }", "other { more { ...O } }", "... on A { one }", "... on U { ... on B { u { ...G } } }" };
const char* const UNION[] = { "__typename", "... on A { id deep { a } }", "... on A { deep { id } one }", "... on B { deep { kind } }", "... on C { c deep { other { last } } }", "... on Node { id peer { name } }", "...G", "...H @include(if: true)",
	"... on C { us { ...H } }", "... on U { ... on B { u { __typename } } }", "... on A { other { ...O } }", "... on Node { other { more { _Z } } }" };
const std::pair<const char*, const char*> FRAGS[] = { { "F", "fragment F on Node { _Meta peer { kind } ...H }" }, { "G", "fragment G on U { ...H ... on C { shared } }" },
	{ "H", "fragment H on A { shared peer { ... on B { b } } }" }, { "O", "fragment O on Other { _Z more { x__y val } u { ... on A { kind } } }" } };

std::string withFragments(std::string text)
{
	std::string add;
	std::set<std::string> done;
	for (bool more = true; more;)
	{
		more = false;
		for (auto& f : FRAGS)
			if ((text + add).find(std::string("...") + f.first) != std::string::npos && done.insert(f.first).second)
			{
				add += std::string(" ") + f.second;
				more = true;
			}
	}
	return text + add;
}
const char* const BASES[] = {
	"query Both($i: Int = 7, $n: String!, $c: [Color!], $in: In1, $e: Early) { all(i: $i, n: $n, c: $c, in: $in, e: $e) }",
	"query A($x: Boolean!) { node { ... on A @include(if: $x) { a peer { id } } ...F } u { __typename } } fragment F on B { b deep { other { u { ... on C { c } } } } }",
	"mutation M($in: In2!, $one: One = ONLY) { set(in: $in, one: ONLY) { id one } drop }",
	"subscription S($id: ID) { changed(id: $id) { kind ... on A { a } } }",
	"{ v: vint_0(x: 3) vcolor_2(x: [RED, null]) w: vin2_0(x: {id: \"AA==\"}) }",
	"query P { __schema { types { name kind } } __type(name: \"x\") { fields { type { kind } } } }",
};
const char* const VOCABULARY[] = { "{", "}", "(", ")", ":", "$", "!", "[", "]", "=", "@", "...", "|", "on", "query", "mutation", "subscription", "fragment", "id", "name", "node", "u", "a", "b", "kind", "x", "in", "one", "i",
	"__typename", "__schema", "A", "B", "C", "U", "Node", "Int", "ID", "Boolean", "In2", "Color", "Query", "One", "RED", "ONLY", "null", "true", "1", "1.5", "\"AA==\"", "\"s\"", "F", "M", "include", "skip", "if", "$x", "$i", "zz" };

std::vector<std::string> wraps(const std::string& t, int depth)
{
	std::vector<std::string> o { t, t + "!" };
	if (depth)
		for (auto& w : wraps(t, depth - 1))
		{
			o.push_back("[" + w + "]");
			o.push_back("[" + w + "]!");
		}
	return o;
}

void loadMode(mc::Ctx& C)
{
	std::string c1;
	for (auto& p : cli::programs())
		if (p.name == "both") c1 = p.sdl;
	if (c1.empty()) return; // the client could not be made, which is reported
	{
		Loading L(C, c1);
		// selections
		int n = C.thorough ? 4 : 3;
		auto tuples = [&](auto& items, const std::string& root, int n) {
			size_t m = std::size(items);
			std::vector<size_t> at(1, 0);
			while (!at.empty())
			{
				std::string body;
				for (auto i : at) body += std::string(items[i]) + " ";
				L.run(withFragments("{ r: " + root + " { " + body + "} }"));
				if (static_cast<int>(at.size()) == 2) L.run(withFragments("{ r: " + root + " { " + items[at[0]] + " } r: " + root + " { " + items[at[1]] + " } " + root + " { __typename } }"));
				if (static_cast<int>(at.size()) < n) { at.push_back(0); continue; }
				while (!at.empty() && ++at.back() == m) at.pop_back();
			}
		};
		tuples(NODE, "node", n);
		tuples(UNION, "u", n);
		tuples(NODE, "sure", 2);
		tuples(UNION, "us", 2);
		// operations
		static const char* const types[] = { "query", "mutation", "subscription" };
		static const char* const sets[] = { "{ node { id } }", "{ drop }", "{ tick }" };
		static const char* const names[] = { "", "A", "AB", "a_" };
		std::vector<std::string> ops;
		for (int t = 0; t < 3; ++t)
			for (auto* nm : names) ops.push_back(std::string(types[t]) + " " + nm + " " + sets[t]);
		ops.push_back(sets[0]);
		Loading small(C, "type Query { node: A } type A { id: ID }"), lean(C, c1, true);
		for (auto& a : ops)
			for (auto& b : ops)
				for (auto* req : { "", "A", "AB", "a_", "a", "query" })
				{
					L.run(a + " " + b, req);
					if (&b == &ops[0])
					{
						L.run(a, req);
						small.run(a, req);
						lean.run(a, req);
					}
				}
		for (auto& p : cli::programs())
			if (p.sdl == c1)
			{
				L.run(p.request, p.op);
				lean.run(p.request, p.op);
			}
		// edits
		for (auto* base : BASES)
		{
			auto lx = ref::lex(base);
			lx.toks.pop_back();
			auto text = [&](size_t from, size_t skip, const std::string& put) {
				std::string o;
				for (size_t i = 0; i <= lx.toks.size(); ++i)
				{
					if (i == from) o += put + " ";
					if (i < lx.toks.size() && !(i >= from && i < from + skip)) o += lx.toks[i].text + (lx.toks[i].text == "$" || lx.toks[i].text == "@" ? "" : " ");
				}
				return o;
			};
			for (size_t i = 0; i <= lx.toks.size(); ++i)
			{
				for (auto* w : VOCABULARY)
				{
					L.run(text(i, 0, w));
					if (i < lx.toks.size()) L.run(text(i, 1, w));
					if (C.thorough && i + 1 < lx.toks.size()) L.run(text(i, 2, w));
				}
				for (size_t m = 1; m <= 12 && i + m <= lx.toks.size(); ++m) L.run(text(i, m, ""));
			}
		}
	}
	// every wrapping as variable and as result
	std::string sdl = "enum Color { RED GREEN } scalar Any input In { x: Int c: Color } interface Node { id: ID } type A implements Node { id: ID } union U = A type Query {";
	std::vector<std::pair<std::string, std::string>> in, out;
	int depth = C.thorough ? 4 : 3;
	for (auto* t : { "Int", "Float", "String", "Boolean", "ID", "Color", "Any", "In" })
		for (auto& w : wraps(t, depth))
		{
			in.emplace_back("i" + std::to_string(in.size()), w);
			sdl += " " + in.back().first + "(x: " + w + "): Int";
		}
	for (auto* t : { "Int", "Float", "String", "Boolean", "ID", "Color", "Any", "Node", "A", "U" })
		for (auto& w : wraps(t, depth))
		{
			out.emplace_back("o" + std::to_string(out.size()), w);
			sdl += " " + out.back().first + ": " + w;
		}
	Loading W(C, sdl + " }");
	for (auto& i : in)
		for (auto* d : { "", " = null", " = []" })
			W.run("query Q($v: " + i.second + d + ") { " + i.first + "(x: $v) }");
	for (auto& o : out)
	{
		bool obj = o.second.find_first_of("NAU") != std::string::npos && o.second.find("Any") == std::string::npos;
		W.run("{ " + o.first + (obj ? " { __typename ... on A { id } } " : " ") + (obj ? "again: " + o.first + " { ... on Node { id } } }" : "}"));
	}
	// dependencies between input types
	static const char* const forms[] = { "", " x%: % ", " x%: %! ", " x%: [%!]! ", " x%: [[%]] " };
	int nf = C.thorough ? 5 : 4;
	int total = 1;
	for (int i = 0; i < 6; ++i) total *= nf;
	for (int code = 0; code < total; ++code)
	{
		if (code % C.nshards != C.shard) continue;
		// a relation of three types
		bool edge[3][3] = {};
		std::string text = "type Query { f(x: I0, y: I1, z: I2): Int }";
		int c = code;
		for (int i = 0; i < 3; ++i)
		{
			text += " input I" + std::to_string(i) + " { v: Int";
			for (int j = 0; j < 3; ++j)
			{
				if (i == j) continue;
				std::string f = forms[c % nf];
				edge[i][j] = c % nf;
				c /= nf;
				for (size_t p; (p = f.find('%')) != std::string::npos;) f.replace(p, 1, (p && f[p - 1] == 'x' ? "" : "I") + std::to_string(j));
				text += f;
			}
			text += " }";
		}
		for (int m = 0; m < 3; ++m)
			for (int i = 0; i < 3; ++i)
				for (int j = 0; j < 3; ++j) edge[i][j] |= edge[i][m] && edge[m][j];
		if (edge[0][0] || edge[1][1] || edge[2][2]) continue; // refused with the schema
		Loading D(C, text);
		D.own = true;
		for (auto* q : { "query Q($x: I0) { f(x: $x) }", "query Q($y: I1, $x: I0) { f(x: $x, y: $y) }", "query Q($z: I2, $y: I1, $x: I0) { f(x: $x, y: $y, z: $z) }" })
			D.run(q);
		close(D.schemaFile.fd);
		close(D.requestFile.fd);
	}
}

// The families of documents by which V01 judges the validation of a service: the generator's is built from another description of the schema.
void validMode(mc::Ctx& C)
{
	std::string sdl = svc::SDL();
	for (auto* cycle : { " in: In e: E", " o: Out" }) // refused with the schema
	{
		auto at = sdl.find(cycle);
		if (at == std::string::npos) std::abort();
		sdl.replace(at, std::strlen(cycle), cycle[1] == 'o' ? "" : " e: E");
	}
	Loading L(C, sdl);
	L.own = true;
	svc::literalFamily(C, L);
	svc::variableFamily(C, L);
	svc::fragmentFamily(C, L);
	svc::directiveFamily(C, L);
	svc::operationFamily(C, L);
	svc::fieldFamily(C, L);
	svc::mergeFamily(C, L);
	svc::sizeFamily(C, L);
	svc::editFamily(C, L);
}

} // namespace

MC_MAIN({ { "c02", programMode }, { "c02load", loadMode }, { "c02valid", validMode } })
