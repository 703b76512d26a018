// A mock service over a schema given as text, a reference executor for the same data, and the
// observations (data, errors, resolver calls) by which the two are compared.
#pragma once
#include "ref_validate.h"
#include "svc_sdl.h"
#include "mc.h"

#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/introspection/Introspection.h"

#include <mutex>
#include <thread>

#ifdef SCHED
#include "fibers.h"
#endif

namespace svc {

using namespace graphql;

// ---- printing -------------------------------------------------------------------------------

inline std::string num(double d)
{
	char b[40];
	std::snprintf(b, sizeof b, "%.17gf", d);
	return b;
}

// A canonical text of a response value. Map members in order, or sorted by name.
inline std::string show(const response::Value& v, bool sorted = false)
{
	switch (v.type())
	{
		case response::Type::Null: return "null";
		case response::Type::Boolean: return v.get<response::BooleanType>() ? "true" : "false";
		case response::Type::Int: return std::to_string(v.get<response::IntType>());
		case response::Type::Float: return num(v.get<response::FloatType>());
		case response::Type::String: return mc::jsonq(v.get<response::StringType>());
		case response::Type::EnumValue: return "E:" + v.get<response::StringType>();
		case response::Type::Scalar: return "S:" + show(v.get<response::ScalarType>(), sorted);
		case response::Type::List:
		{
			std::string o = "[";
			for (auto& x : v.get<response::ListType>()) o += (o.size() > 1 ? "," : "") + show(x, sorted);
			return o + "]";
		}
		case response::Type::Map:
		{
			std::vector<std::string> m;
			for (auto& x : v) m.push_back(x.first + ":" + show(x.second, sorted));
			if (sorted) std::sort(m.begin(), m.end());
			std::string o = "{";
			for (auto& x : m) o += (o.size() > 1 ? "," : "") + x;
			return o + "}";
		}
	}
	return "?";
}

using Vars = std::map<std::string, ref::Val>;

// The value a literal (or variable) denotes, in the same canonical text.
inline std::string show(const ref::Val& v, const Vars& vars, bool sorted = false)
{
	using V = ref::Val;
	switch (v.k)
	{
		case V::Null: return "null";
		case V::Bool: return v.text;
		case V::Int:
		{
			double d = std::strtod(v.text.c_str(), nullptr);
			if (d >= -2147483648.0 && d <= 2147483647.0) return std::to_string(std::atoll(v.text.c_str()));
			return num(d);
		}
		case V::Float: return num(std::strtod(v.text.c_str(), nullptr));
		case V::Str: return mc::jsonq(v.text);
		case V::Enum: return "E:" + v.text;
		case V::Var:
		{
			auto i = vars.find(v.text);
			return i == vars.end() ? "UNDEFINED" : show(i->second, {}, sorted);
		}
		case V::List:
		{
			std::string o = "[";
			for (auto& x : v.list) o += (o.size() > 1 ? "," : "") + show(x, vars, sorted);
			return o + "]";
		}
		case V::Obj:
		{
			std::vector<std::string> m;
			for (auto& x : v.obj) m.push_back(x.first + ":" + show(x.second, vars, sorted));
			if (sorted) std::sort(m.begin(), m.end());
			std::string o = "{";
			for (auto& x : m) o += (o.size() > 1 ? "," : "") + x;
			return o + "}";
		}
	}
	return "?";
}

inline response::Value toResponse(const ref::Val& v)
{
	using V = ref::Val;
	switch (v.k)
	{
		case V::Bool: return response::Value(v.text == "true");
		case V::Int:
		{
			double d = std::strtod(v.text.c_str(), nullptr);
			if (d >= -2147483648.0 && d <= 2147483647.0) return response::Value(std::atoi(v.text.c_str()));
			return response::Value(d);
		}
		case V::Float: return response::Value(std::strtod(v.text.c_str(), nullptr));
		case V::Str: return response::Value(std::string(v.text));
		case V::Enum:
		{
			response::Value r(response::Type::EnumValue);
			r.set<response::StringType>(std::string(v.text));
			return r;
		}
		case V::List:
		{
			response::Value r(response::Type::List);
			for (auto& x : v.list) r.emplace_back(toResponse(x));
			return r;
		}
		case V::Obj:
		{
			response::Value r(response::Type::Map);
			for (auto& x : v.obj) r.emplace_back(std::string(x.first), toResponse(x.second));
			return r;
		}
		default: return {};
	}
}

inline ref::Val lit(const std::string& text)
{
	auto p = ref::parse("{f(x:" + text + ")}");
	if (!p.ok) { std::fprintf(stderr, "bad literal %s\n", text.c_str()); std::abort(); }
	return p.doc.ops[0].sels[0].args[0].val;
}

// As a string literal: other than jsonq, what is not ASCII stays as it is.
inline std::string quoted(const std::string& t)
{
	std::string o;
	for (char c : t)
		if (static_cast<unsigned char>(c) < 0x80) { auto q = mc::jsonq(std::string_view(&c, 1)); o += q.substr(1, q.size() - 2); }
		else o += c;
	return '"' + o + '"';
}
inline std::string printVal(const ref::Val& v)
{
	using V = ref::Val;
	switch (v.k)
	{
		case V::Null: return "null";
		case V::Str: return quoted(v.text);
		case V::Var: return "$" + v.text;
		case V::List:
		{
			std::string o = "[";
			for (auto& x : v.list) o += (o.size() > 1 ? ", " : "") + printVal(x);
			return o + "]";
		}
		case V::Obj:
		{
			std::string o = "{";
			for (auto& x : v.obj) o += (o.size() > 1 ? ", " : "") + x.first + ": " + printVal(x.second);
			return o + "}";
		}
		default: return v.text;
	}
}

// ---- the data behind the service ------------------------------------------------------------

struct Datum
{
	enum K { Null, List, Leaf, Obj } k = Null;
	std::vector<Datum> list;
	std::string leaf, type; // leaf: the scalar or enum type's name, or the runtime type of an object
	long n = 0;				// payload
	int id = 0;
};

inline long hashOf(const std::string& s) { return static_cast<long>(mc::fnv(s) % 9973); }

inline int listLength = 0; // of outermost lists, where not 0

inline Datum dataOf(const ref::Schema& S, const ref::Type& t, const std::string& key, int id, int idx, bool nullable = true)
{
	Datum d;
	if (t.k == ref::Type::NonNull) return dataOf(S, *t.of, key, id, idx, false);
	long h = hashOf(key);
	if (nullable && key.size() > 4 && key.compare(key.size() - 4, 4, "null") == 0) return d;
	if (nullable && idx % 10 == 2) return d; // the third element of a list of nullable elements
	if (t.k == ref::Type::List)
	{
		d.k = Datum::List;
		int n = listLength && !idx ? listLength : 2 + (h + id) % 2;
		for (int i = 0; i < n; ++i) d.list.push_back(dataOf(S, *t.of, key, id, idx * 10 + i));
		return d;
	}
	auto* td = S.type(t.name);
	if (S.composite(td))
	{
		auto p = S.possible(td);
		std::vector<std::string> v(p.begin(), p.end());
		d.k = Datum::Obj;
		d.type = v[(h + id + idx) % v.size()];
		d.id = (id * 3 + static_cast<int>(h % 5) + idx + 1) % 7;
		return d;
	}
	d.k = Datum::Leaf;
	d.leaf = t.name;
	d.n = (h % 50) * 100 + id * 10 + idx % 10;
	return d;
}
inline Datum dataOf(const ref::Schema& S, const std::string& type, int id, const ref::FieldDef& f)
{
	return dataOf(S, *f.type, type + "." + f.name, id, 0);
}

inline std::string b64(const std::vector<uint8_t>& b)
{
	static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < b.size(); i += 3)
	{
		uint32_t w = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
		o += a[w >> 18];
		o += a[w >> 12 & 63];
		o += i + 1 < b.size() ? a[w >> 6 & 63] : '=';
		o += i + 2 < b.size() ? a[w & 63] : '=';
	}
	return o;
}
inline std::vector<uint8_t> idBytes(long n) { return { static_cast<uint8_t>(n), static_cast<uint8_t>(n >> 8), static_cast<uint8_t>(n * 7), 0 }; }

inline std::map<std::string, std::vector<std::string>>& enumNames()
{
	static std::map<std::string, std::vector<std::string>> m { { "E", { "X", "Y", "Z" } } };
	return m;
}
inline std::string showLeaf(const Datum& d)
{
	if (d.leaf == "Int") return std::to_string(d.n);
	if (d.leaf == "Float") return num(d.n + 0.25);
	if (d.leaf == "String") return mc::jsonq("s" + std::to_string(d.n));
	if (d.leaf == "Boolean") return d.n % 20 < 10 ? "true" : "false";
	if (d.leaf == "ID") return mc::jsonq(b64(idBytes(d.n)));
	if (auto e = enumNames().find(d.leaf); e != enumNames().end()) return "E:" + e->second[d.n % e->second.size()];
	return "{n:" + std::to_string(d.n) + ",l:[null,true]}";
}

// ---- what is observed -----------------------------------------------------------------------

struct Call
{
	std::string path; // response path, e.g. .a.lI.0.x
	std::string object, field, args;
	std::string dOp, dDef, dSpread, dInline, dField;
	int context = 0;
	int id = 0;
};
struct Ev
{
	enum K { Begin, CallK, End, Done } k;
	std::string path, object;
	int id;
	size_t call = 0;
};

struct Err
{
	std::string message, path;
	size_t line = 0, col = 0;
	std::string str() const { return message + " @" + std::to_string(line) + ":" + std::to_string(col) + " " + path; }
};

enum class Fail { None, ThrowSchema, ThrowStd, FutureSchema, FutureStd, Throw2, FutureLate, Begin, End, Null };
// Value to Deferred stay in the thread of the caller; Async: std::async, Thread: a promise kept by another thread.
enum class How { Value, Ready, Deferred, Async, Thread };

// Protects the record. Under the controlled scheduler it must not order the threads it observes.
struct RecGuard
{
#ifdef SCHED
	explicit RecGuard(std::mutex&) {}
	sched::Ignore ignore;
#else
	explicit RecGuard(std::mutex& m) : g(m) {}
	std::lock_guard<std::mutex> g;
#endif
};

struct Record
{
	std::mutex m;
	std::vector<Call> calls;
	std::vector<Ev> events;
	std::map<std::string, Fail> fails; // by path
	How how = How::Value;
	std::map<std::string, How> hows; // by path, instead of how
	std::vector<std::thread> threads;
	std::function<void()> onEvent; // something happened, outside of the lock
	bool done = false;			   // record when a result was made
	const service::RequestState* state = nullptr;
	bool wrongState = false;
	std::function<void(const Call&)> onCall; // before the result is made
	void clear()
	{
		calls.clear();
		events.clear();
		wrongState = false;
	}
	void join()
	{
		for (;;)
		{
			std::thread t;
			{
				RecGuard g(m);
				if (threads.empty()) return;
				t = std::move(threads.back());
				threads.pop_back();
			}
			t.join();
		}
	}
};

inline std::string pathOf(const std::optional<service::field_path>& p)
{
	std::string o;
	for (auto& s : service::buildErrorPath(p))
		o += "." + (std::holds_alternative<size_t>(s) ? std::to_string(std::get<size_t>(s)) : std::string(std::get<std::string_view>(s)));
	return o;
}

// ---- the mock -------------------------------------------------------------------------------

struct World;

class Node : public service::Object
{
public:
	Node(World& w, const ref::TypeDef& t, int id);
	World& w;
	const ref::TypeDef& t;
	const int id;
	void beginSelectionSet(const service::SelectionSetParams& params) const override;
	void endSelectionSet(const service::SelectionSetParams& params) const override;
	std::future<service::ResolverResult> resolveField(const ref::FieldDef& f, service::ResolverParams&& params);
	static service::TypeNames names(const ref::Schema& S, const ref::TypeDef& t);
	static service::ResolverMap resolvers(Node* self, const ref::TypeDef& t, World& w);
};

class Svc : public service::Request
{
public:
	Svc(service::TypeMap&& ops, const std::shared_ptr<schema::Schema>& s) : service::Request(std::move(ops), s) {}
};

std::shared_ptr<schema::Schema> buildSchema(const ref::Schema& S, std::list<std::string>& keep, bool noIntrospection = false);

struct World
{
	ref::Schema S;
	std::list<std::string> keep;
	std::shared_ptr<schema::Schema> schema;
	Record rec;
	std::map<std::pair<std::string, int>, std::shared_ptr<Node>> nodes;
	std::mutex nodesMutex;
	std::shared_ptr<service::Request> svc;
	std::shared_ptr<service::Object> query, mutation, subscription;
	bool noIntrospection;

	explicit World(const std::string& sdl = SDL(), bool noIntro = false) : S(sdl, !noIntro), noIntrospection(noIntro)
	{
		schema = buildSchema(S, keep, noIntro);
		fresh();
	}
	void fresh(bool withSubscription = true)
	{
		service::TypeMap m;
		query = node(S.query, 0);
		m.emplace("query", query);
		if (!S.mutation.empty()) m.emplace("mutation", mutation = node(S.mutation, 0));
		if (!S.subscription.empty() && withSubscription) m.emplace("subscription", subscription = node(S.subscription, 0));
		svc = std::make_shared<Svc>(std::move(m), schema);
	}
	bool transient = false; // objects live only as long as the library holds them
	std::shared_ptr<Node> node(const std::string& type, int id)
	{
		if (transient) return std::make_shared<Node>(*this, *S.type(type), id);
		RecGuard g(nodesMutex);
		auto& n = nodes[{ type, id }];
		if (!n) n = std::make_shared<Node>(*this, *S.type(type), id);
		return n;
	}
};

// Defined in svc_mock.cpp: Node, buildSchema.

// ---- the reference executor -----------------------------------------------------------------

struct Result
{
	std::string data;
	std::vector<Err> errors;
	std::vector<Call> calls;			// in document order, depth first
	std::vector<Ev> objects;			// Begin events, for every selected object
	bool introspective = false;
};

class Exec
{
public:
	Exec(const ref::Schema& S, const ref::Doc& D, bool firstOnly = false) : S(S), D(D), firstOnly(firstOnly) {}
	std::map<std::string, Fail> fails;
	int rootId = 0;
	bool open = false;	// null was given to what is not nullable, but has a default: not decided
	bool typed = false; // arguments as typed accessors receive them: all that are declared, with defaults

	static bool builtin(const std::string& n) { return n == "Int" || n == "Float" || n == "String" || n == "Boolean" || n == "ID"; }
	// Whether a text is what some bytes are written as.
	static bool base64(const std::string& t)
	{
		if (t.size() % 4) return false;
		size_t pad = t.size() - t.find_last_not_of('=') - 1;
		if (t.empty()) return true;
		if (pad > 2) return false;
		static const std::string a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		for (size_t i = 0; i + pad < t.size(); ++i)
			if (a.find(t[i]) == std::string::npos) return false;
		auto last = a.find(t[t.size() - pad - 1]);
		return pad == 0 || (pad == 1 ? last % 4 == 0 : last % 16 == 0);
	}
	// A value as something of a declared type receives it; v is null if it is absent. "BAD" somewhere if it is not of the type.
	std::string coerced(const ref::Type& t, const ref::Val* v, const std::optional<ref::Val>& def)
	{
		if (v && v->k == ref::Val::Var)
		{
			auto i = vars.find(v->text);
			if (i == vars.end()) return "BAD";
			return coerced(t, &i->second, def);
		}
		if (!v)
		{
			if (def) return coerced(t, &*def, std::nullopt);
			return t.k == ref::Type::NonNull ? "BAD" : "null";
		}
		if (t.k == ref::Type::NonNull && v->k == ref::Val::Null)
		{
			// a custom scalar may take null as one of its values
			if (def) open = true;
			auto* td = t.of->k == ref::Type::Named ? S.type(t.of->name) : nullptr;
			return td && td->k == ref::TypeDef::Scalar && !builtin(t.of->name) ? "null" : "BAD";
		}
		if (t.k == ref::Type::NonNull) return coerced(*t.of, v, std::nullopt);
		if (v->k == ref::Val::Null) return "null";
		if (t.k == ref::Type::List)
		{
			if (v->k != ref::Val::List) return "BAD";
			std::string o = "[";
			for (auto& x : v->list) o += (o.size() > 1 ? "," : "") + coerced(*t.of, &x, std::nullopt);
			return o + "]";
		}
		auto text = show(*v, vars);
		if (t.name == "Int") return v->k == ref::Val::Int && text.back() != 'f' ? text : "BAD";
		if (t.name == "Float") return v->k == ref::Val::Int || v->k == ref::Val::Float ? num(std::strtod(v->text.c_str(), nullptr)) : "BAD";
		if (t.name == "ID") return v->k == ref::Val::Str && base64(v->text) ? text : "BAD";
		if (t.name == "String") return v->k == ref::Val::Str ? text : "BAD";
		if (t.name == "Boolean") return v->k == ref::Val::Bool ? text : "BAD";
		auto* td = S.type(t.name);
		if (td && td->k == ref::TypeDef::Enum)
		{
			if (v->k != ref::Val::Enum) return "BAD";
			for (auto& e : td->values) if (e.name == v->text) return text;
			return "BAD";
		}
		if (td && td->k == ref::TypeDef::Input)
		{
			if (v->k != ref::Val::Obj) return "BAD";
			std::string o = "{";
			for (auto& f : td->inputs)
			{
				const ref::Val* m = nullptr;
				for (auto& x : v->obj) if (x.first == f.name) m = &x.second;
				o += (o.size() > 1 ? "," : "") + f.name + ":" + coerced(*f.type, m, f.def);
			}
			return o + "}";
		}
		return text;
	}

	static const ref::Op* pick(const ref::Doc& D, const std::string& name)
	{
		for (auto& o : D.ops) if (name.empty() || o.name == name) return &o;
		return nullptr;
	}
	// The values of the operation's variables: supplied, else the default, else null.
	static Vars variables(const ref::Op& o, const Vars& supplied)
	{
		Vars v;
		for (auto& d : o.vars)
		{
			auto i = supplied.find(d.name);
			v[d.name] = i != supplied.end() ? i->second : d.def ? *d.def : ref::Val {};
		}
		return v;
	}
	Result run(const ref::Op& o, const Vars& supplied, int context, const std::string& rootType = "")
	{
		R = {};
		vars = variables(o, supplied);
		ctx = context;
		dOp = dirs(o.dirs);
		R.data = object(o.sels, rootType.empty() ? S.root(o.type) : rootType, rootId, "");
		return R;
	}
	bool skipped(const std::vector<ref::Dir>& ds)
	{
		for (auto& d : ds)
			if (d.name == "skip" || d.name == "include")
				for (auto& a : d.args)
					if (a.name == "if" && (show(a.val, vars) == "true") == (d.name == "skip")) return true;
		return false;
	}
	using DirMap = std::map<std::string, std::string>;
	DirMap dirMap(const std::vector<ref::Dir>& ds)
	{
		DirMap m;
		for (auto& d : ds)
		{
			std::map<std::string, std::string> a;
			for (auto& x : d.args) a[x.name] = show(x.val, vars, true);
			std::string o = "{";
			for (auto& x : a) o += (o.size() > 1 ? "," : "") + x.first + ":" + x.second;
			m[d.name] = o + "}";
		}
		return m;
	}
	static std::string text(const DirMap& m)
	{
		// sorted as show() sorts "name:value"
		std::vector<std::string> v;
		for (auto& x : m) v.push_back(x.first + ":" + x.second);
		std::sort(v.begin(), v.end());
		std::string o = "{";
		for (auto& x : v) o += (o.size() > 1 ? "," : "") + x;
		return o + "}";
	}
	std::string dirs(const std::vector<ref::Dir>& ds) { return text(dirMap(ds)); }
	Vars vars;

private:
	const ref::Schema& S;
	const ref::Doc& D;
	bool firstOnly;
	Result R;
	int ctx = 0;
	std::string dOp;

	struct Scope
	{
		DirMap def, spread, inl;
	};
	struct Group
	{
		std::vector<const ref::Sel*> fields;
		Scope scope; // of the first occurrence
	};
	bool matches(const std::string& cond, const std::string& type)
	{
		auto* t = S.type(cond);
		return t && S.possible(t).count(type) > 0;
	}
	static DirMap inner(DirMap own, const DirMap& outer)
	{
		own.insert(outer.begin(), outer.end());
		return own;
	}
	void collect(const std::vector<ref::Sel>& sels, const std::string& type, const Scope& scope, std::vector<std::pair<std::string, Group>>& out, std::set<std::string>& visited)
	{
		for (auto& s : sels)
		{
			if (skipped(s.dirs)) continue;
			if (s.k == ref::Sel::Field)
			{
				auto i = std::find_if(out.begin(), out.end(), [&](auto& g) { return g.first == s.key(); });
				if (i == out.end()) out.push_back({ s.key(), { { &s }, scope } });
				else if (!firstOnly) i->second.fields.push_back(&s);
			}
			else if (s.k == ref::Sel::Inline)
			{
				if (!s.cond.empty() && !matches(s.cond, type)) continue;
				Scope n = scope;
				n.inl = inner(dirMap(s.dirs), scope.inl);
				collect(s.sels, type, n, out, visited);
			}
			else
			{
				for (auto& f : D.frags)
					if (f.name == s.name && matches(f.cond, type))
					{
						if (!visited.insert(f.name).second && !firstOnly) break;
						Scope n = scope;
						n.spread = inner(dirMap(s.dirs), scope.spread);
						n.def = inner(dirMap(f.dirs), scope.def);
						collect(f.sels, type, n, out, visited);
						break;
					}
			}
		}
	}
	void fail(Fail f, const std::string& path, const ref::Sel& s)
	{
		auto add = [&](const std::string& m) { R.errors.push_back({ m, path, s.loc.line, s.loc.col }); };
		if (f == Fail::ThrowStd || f == Fail::FutureStd || f == Fail::FutureLate) add("std" + path);
		else if (f == Fail::Throw2) { add("one" + path); add("two" + path); }
		else if (f == Fail::Begin) add("begin" + path);
		else if (f == Fail::End) add("end" + path);
		else add("schema" + path);
	}
	std::string object(const std::vector<ref::Sel>& one, const std::string& type, int id, const std::string& path)
	{
		std::vector<const ref::Sel*> none;
		return object(std::vector<const std::vector<ref::Sel>*> { &one }, type, id, path);
	}
	std::string object(const std::vector<const std::vector<ref::Sel>*>& sels, const std::string& type, int id, const std::string& path)
	{
		R.objects.push_back({ Ev::Begin, path, type, id });
		std::vector<std::pair<std::string, Group>> groups;
		std::set<std::string> visited;
		for (auto* s : sels) collect(*s, type, {}, groups, visited);
		auto* td = S.type(type);
		std::string o = "{";
		for (auto& g : groups)
		{
			auto& s = *g.second.fields[0];
			std::string p = path + "." + g.first;
			o += (o.size() > 1 ? "," : "") + g.first + ":";
			if (s.name == "__typename") { o += mc::jsonq(type); continue; }
			if (s.name == "__schema" || s.name == "__type") { R.introspective = true; o += "?"; continue; }
			auto* f = S.field(td, s.name);
			Call c;
			c.path = p;
			c.object = type;
			c.id = id;
			c.field = s.name;
			c.args = "{";
			if (typed)
				for (auto& d : f->args)
				{
					const ref::Val* v = nullptr;
					for (auto& a : s.args) if (a.name == d.name) v = &a.val;
					c.args += (c.args.size() > 1 ? "," : "") + d.name + ":" + coerced(*d.type, v, d.def);
				}
			else
				for (auto& a : s.args) c.args += (c.args.size() > 1 ? "," : "") + a.name + ":" + show(a.val, vars);
			c.args += "}";
			if (typed && c.args.find("BAD") != std::string::npos) // no accessor is called
			{
				R.errors.push_back({ "", p, s.loc.line, s.loc.col });
				o += "null";
				continue;
			}
			c.dOp = dOp;
			c.dDef = text(g.second.scope.def);
			c.dSpread = text(g.second.scope.spread);
			c.dInline = text(g.second.scope.inl);
			c.dField = dirs(s.dirs);
			c.context = ctx;
			R.calls.push_back(c);
			auto fi = fails.find(p);
			if (fi != fails.end() && fi->second != Fail::Begin && fi->second != Fail::End && fi->second != Fail::Null) { fail(fi->second, p, s); o += "null"; continue; }
			std::vector<const std::vector<ref::Sel>*> sub;
			for (auto* x : g.second.fields) if (x->hasSels) sub.push_back(&x->sels);
			auto d = dataOf(S, type, id, *f);
			if (fi != fails.end() && fi->second == Fail::Null) d = Datum {};
			o += complete(d, sub, p, s);
		}
		return o + "}";
	}
	std::string complete(const Datum& d, const std::vector<const std::vector<ref::Sel>*>& sub, const std::string& path, const ref::Sel& s)
	{
		switch (d.k)
		{
			case Datum::Null: return "null";
			case Datum::Leaf: return showLeaf(d);
			case Datum::Obj:
			{
				auto fi = fails.find(path);
				if (fi != fails.end() && (fi->second == Fail::Begin || fi->second == Fail::End))
				{
					fail(fi->second, path, s);
					return "null";
				}
				return object(sub, d.type, d.id, path);
			}
			case Datum::List:
			{
				std::string o = "[";
				for (size_t i = 0; i < d.list.size(); ++i) o += (i ? "," : "") + complete(d.list[i], sub, path + "." + std::to_string(i), s);
				return o + "]";
			}
		}
		return "?";
	}
};

// ---- running the implementation -------------------------------------------------------------

struct Actual
{
	bool ok = false; // a response document came back
	std::string thrown, data;
	bool hasErrors = false, malformed = false;
	std::vector<Err> errors;
};

inline Actual document(const response::Value& doc)
{
	Actual a;
	a.ok = true;
	if (doc.type() != response::Type::Map) { a.malformed = true; return a; }
	bool sawData = false;
	for (auto& m : doc)
		if (m.first == "data" && !sawData) { a.data = show(m.second); sawData = true; }
		else if (m.first == "errors" && !a.hasErrors)
		{
			a.hasErrors = true;
			if (m.second.type() != response::Type::List || m.second.size() == 0) { a.malformed = true; continue; }
			for (auto& e : m.second.get<response::ListType>())
			{
				Err r;
				if (e.type() != response::Type::Map) { a.malformed = true; continue; }
				for (auto& x : e)
				{
					if (x.first == "message" && x.second.type() == response::Type::String) r.message = x.second.get<response::StringType>();
					else if (x.first == "locations" && x.second.type() == response::Type::List && x.second.size() == 1)
					{
						r.line = x.second[0]["line"].get<response::IntType>();
						r.col = x.second[0]["column"].get<response::IntType>();
					}
					else if (x.first == "path" && x.second.type() == response::Type::List)
						for (auto& s : x.second.get<response::ListType>())
							r.path += "." + (s.type() == response::Type::Int ? std::to_string(s.get<response::IntType>()) : s.get<response::StringType>());
					else a.malformed = true;
				}
				a.errors.push_back(r);
			}
		}
		else a.malformed = true;
	if (!sawData) a.malformed = true;
	return a;
}

inline response::Value toVars(const Vars& v)
{
	response::Value r(response::Type::Map);
	for (auto& x : v) r.emplace_back(std::string(x.first), toResponse(x.second));
	return r;
}

inline Actual execute(World& w, peg::ast& ast, const std::string& name, const Vars& vars, std::launch launch = std::launch::deferred)
{
	w.rec.clear();
	try
	{
		std::shared_ptr<service::RequestState> state;
		if (w.rec.state) state = const_cast<service::RequestState*>(w.rec.state)->shared_from_this();
		auto doc = w.svc->resolve(launch, state, ast, name, toVars(vars)).get();
		return document(doc);
	}
	catch (const std::exception& ex)
	{
		Actual a;
		a.thrown = ex.what();
		return a;
	}
}

inline std::string describe(const Vars& v)
{
	std::string o;
	for (auto& x : v) o += " $" + x.first + "=" + printVal(x.second);
	return o;
}

// Odometer over nested choices: every combination of choose() results is visited once.
struct Chooser
{
	std::vector<std::pair<int, int>> c; // choice, bound
	size_t pos = 0;
	int choose(int n)
	{
		if (pos == c.size()) c.push_back({ 0, n });
		return c[pos++].first;
	}
	bool next()
	{
		pos = 0;
		while (!c.empty())
		{
			if (++c.back().first < c.back().second) return true;
			c.pop_back();
		}
		return false;
	}
};

} // namespace svc
