// I01: enumerated schemas built through the public interface and described by introspection queries, against the
// description derived independently from the list of definitions.
#include "mc.h"
#include <deque>
#include <functional>
#include <memory>
#include <optional>
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/introspection/Introspection.h"
using namespace graphql;
using Kind = introspection::TypeKind;
using Loc = introspection::DirectiveLocation;
using service::ModifiedResult;
using service::TypeModifier;

// ---------------------------------------------------------------- the definitions
struct DArg { std::string name, desc, type, def; };
struct DField { std::string name, desc, type; std::optional<std::string> dep; std::vector<DArg> args; };
struct DEnum { std::string name, desc; std::optional<std::string> dep; };
struct DType
{
	char kind = 'O'; // S O I U E N(input)
	std::string name, desc;
	std::vector<DField> fields;
	std::vector<std::string> of; // interfaces of an object, members of a union
	std::vector<DEnum> values;
	std::vector<DArg> inputs;
};
struct DDir { std::string name, desc; std::vector<std::string> locs; std::vector<DArg> args; };
struct Spec
{
	std::vector<DType> types;
	std::vector<DDir> dirs;
	std::string query = "Query", mutation, subscription;
	bool hidden = false;
	std::vector<size_t> fill; // order in which the members are added
	const DType* find(const std::string& n) const
	{
		for (auto& t : types)
			if (t.name == n) return &t;
		return nullptr;
	}
};
static const char* LOCS[] = { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT",
	"FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION" };
static Loc locOf(const std::string& n)
{
	static const std::map<std::string, Loc> m {
		{ "QUERY", Loc::QUERY }, { "MUTATION", Loc::MUTATION }, { "SUBSCRIPTION", Loc::SUBSCRIPTION }, { "FIELD", Loc::FIELD }, { "FRAGMENT_DEFINITION", Loc::FRAGMENT_DEFINITION },
		{ "FRAGMENT_SPREAD", Loc::FRAGMENT_SPREAD }, { "INLINE_FRAGMENT", Loc::INLINE_FRAGMENT }, { "SCHEMA", Loc::SCHEMA }, { "SCALAR", Loc::SCALAR }, { "OBJECT", Loc::OBJECT },
		{ "FIELD_DEFINITION", Loc::FIELD_DEFINITION }, { "ARGUMENT_DEFINITION", Loc::ARGUMENT_DEFINITION }, { "INTERFACE", Loc::INTERFACE }, { "UNION", Loc::UNION }, { "ENUM", Loc::ENUM },
		{ "ENUM_VALUE", Loc::ENUM_VALUE }, { "INPUT_OBJECT", Loc::INPUT_OBJECT }, { "INPUT_FIELD_DEFINITION", Loc::INPUT_FIELD_DEFINITION } };
	return m.at(n);
}
// What every schema has (GraphQL, June 2018, section 4).
static void standard(Spec& s)
{
	std::vector<DType> t;
	for (auto n : { "Int", "Float", "String", "Boolean", "ID" }) t.push_back({ 'S', n });
	auto obj = [&](const char* n, std::vector<DField> f) { DType d; d.name = n; d.fields = std::move(f); t.push_back(d); };
	DArg dep { "includeDeprecated", "", "Boolean", "false" };
	obj("__Schema", { { "types", "", "[__Type!]!" }, { "queryType", "", "__Type!" }, { "mutationType", "", "__Type" }, { "subscriptionType", "", "__Type" }, { "directives", "", "[__Directive!]!" } });
	obj("__Type", { { "kind", "", "__TypeKind!" }, { "name", "", "String" }, { "description", "", "String" }, { "fields", "", "[__Field!]", {}, { dep } }, { "interfaces", "", "[__Type!]" },
					  { "possibleTypes", "", "[__Type!]" }, { "enumValues", "", "[__EnumValue!]", {}, { dep } }, { "inputFields", "", "[__InputValue!]" }, { "ofType", "", "__Type" } });
	obj("__Field", { { "name", "", "String!" }, { "description", "", "String" }, { "args", "", "[__InputValue!]!" }, { "type", "", "__Type!" }, { "isDeprecated", "", "Boolean!" }, { "deprecationReason", "", "String" } });
	obj("__InputValue", { { "name", "", "String!" }, { "description", "", "String" }, { "type", "", "__Type!" }, { "defaultValue", "", "String" } });
	obj("__EnumValue", { { "name", "", "String!" }, { "description", "", "String" }, { "isDeprecated", "", "Boolean!" }, { "deprecationReason", "", "String" } });
	obj("__Directive", { { "name", "", "String!" }, { "description", "", "String" }, { "locations", "", "[__DirectiveLocation!]!" }, { "args", "", "[__InputValue!]!" } });
	DType k;
	k.kind = 'E';
	k.name = "__TypeKind";
	for (auto n : { "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "LIST", "NON_NULL" }) k.values.push_back({ n, "" });
	t.push_back(k);
	DType l;
	l.kind = 'E';
	l.name = "__DirectiveLocation";
	for (auto n : LOCS) l.values.push_back({ n, "" });
	t.push_back(l);
	s.types.insert(s.types.begin(), t.begin(), t.end());
	std::vector<DDir> d {
		{ "skip", "", { "FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" }, { { "if", "", "Boolean!", "" } } },
		{ "include", "", { "FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" }, { { "if", "", "Boolean!", "" } } },
		{ "deprecated", "", { "FIELD_DEFINITION", "ENUM_VALUE" }, { { "reason", "", "String", "\"No longer supported\"" } } },
	};
	s.dirs.insert(s.dirs.begin(), d.begin(), d.end());
}
static bool isStandard(const std::string& n) { return n.substr(0, 2) == "__" || n == "Int" || n == "Float" || n == "String" || n == "Boolean" || n == "ID"; }

// ---------------------------------------------------------------- the service
struct Svc : service::Request
{
	Svc(service::TypeMap&& m, const std::shared_ptr<schema::Schema>& s) : service::Request(std::move(m), s) {}
};
struct Obj : service::Object
{
	Obj(service::TypeNames&& n, service::ResolverMap&& r) : service::Object(std::move(n), std::move(r)) {}
};
static std::shared_ptr<const schema::BaseType> typeOf(const std::shared_ptr<schema::Schema>& s, const std::string& t)
{
	if (t.back() == '!') return s->WrapType(Kind::NON_NULL, typeOf(s, t.substr(0, t.size() - 1)));
	if (t.front() == '[') return s->WrapType(Kind::LIST, typeOf(s, t.substr(1, t.size() - 2)));
	return s->LookupType(t);
}
struct Built
{
	const Spec& spec;
	std::shared_ptr<schema::Schema> schema;
	std::shared_ptr<Svc> svc;

	std::vector<std::shared_ptr<const schema::InputValue>> args(const std::vector<DArg>& a)
	{
		std::vector<std::shared_ptr<const schema::InputValue>> r;
		for (auto& x : a) r.push_back(schema::InputValue::Make(x.name, x.desc, typeOf(schema, x.type), x.def));
		return r;
	}
	static std::optional<std::string_view> dep(const std::optional<std::string>& d) { return d ? std::optional<std::string_view>(*d) : std::nullopt; }
	explicit Built(const Spec& sp) : spec(sp), schema(std::make_shared<schema::Schema>(sp.hidden))
	{
		introspection::AddTypesToSchema(schema);
		std::map<std::string, std::shared_ptr<schema::BaseType>> made;
		for (auto& t : spec.types)
		{
			if (isStandard(t.name)) continue;
			std::shared_ptr<schema::BaseType> b;
			switch (t.kind)
			{
				case 'S': b = schema::ScalarType::Make(t.name, t.desc); break;
				case 'O': b = schema::ObjectType::Make(t.name, t.desc); break;
				case 'I': b = schema::InterfaceType::Make(t.name, t.desc); break;
				case 'U': b = schema::UnionType::Make(t.name, t.desc); break;
				case 'E': b = schema::EnumType::Make(t.name, t.desc); break;
				default: b = schema::InputObjectType::Make(t.name, t.desc); break;
			}
			made[t.name] = b;
			schema->AddType(t.name, b);
		}
		std::vector<const DType*> order;
		for (auto& t : spec.types)
			if (!isStandard(t.name)) order.push_back(&t);
		if (!spec.fill.empty())
		{
			auto o = order;
			for (size_t i = 0; i < order.size() && i < spec.fill.size(); ++i) order[i] = o[spec.fill[i]];
		}
		for (auto* tp : order)
		{
			auto& t = *tp;
			auto b = made[t.name];
			std::vector<std::shared_ptr<const schema::Field>> f;
			for (auto& x : t.fields) f.push_back(schema::Field::Make(x.name, x.desc, dep(x.dep), typeOf(schema, x.type), args(x.args)));
			switch (t.kind)
			{
				case 'O':
				{
					auto o = std::static_pointer_cast<schema::ObjectType>(b);
					if (!t.of.empty())
					{
						std::vector<std::shared_ptr<const schema::InterfaceType>> i;
						for (auto& n : t.of) i.push_back(std::static_pointer_cast<const schema::InterfaceType>(schema->LookupType(n)));
						o->AddInterfaces(std::move(i));
					}
					o->AddFields(std::move(f));
					break;
				}
				case 'I': std::static_pointer_cast<schema::InterfaceType>(b)->AddFields(std::move(f)); break;
				case 'U':
				{
					std::vector<std::weak_ptr<const schema::BaseType>> p;
					for (auto& n : t.of) p.push_back(schema->LookupType(n));
					std::static_pointer_cast<schema::UnionType>(b)->AddPossibleTypes(std::move(p));
					break;
				}
				case 'E':
				{
					std::vector<schema::EnumValueType> v;
					for (auto& x : t.values) v.push_back({ x.name, x.desc, dep(x.dep) });
					std::static_pointer_cast<schema::EnumType>(b)->AddEnumValues(std::move(v));
					break;
				}
				case 'N': std::static_pointer_cast<schema::InputObjectType>(b)->AddInputValues(args(t.inputs)); break;
			}
		}
		for (auto& d : spec.dirs)
		{
			if (d.name == "skip" || d.name == "include" || d.name == "deprecated") continue;
			std::vector<Loc> l;
			for (auto& n : d.locs) l.push_back(locOf(n));
			schema->AddDirective(schema::Directive::Make(d.name, d.desc, std::move(l), args(d.args)));
		}
		auto root = [&](const std::string& n) { return std::static_pointer_cast<schema::ObjectType>(made.at(n)); };
		schema->AddQueryType(root(spec.query));
		if (!spec.mutation.empty()) schema->AddMutationType(root(spec.mutation));
		if (!spec.subscription.empty()) schema->AddSubscriptionType(root(spec.subscription));
		service::TypeMap m;
		m.emplace("query", object(spec.query, 2));
		if (!spec.mutation.empty()) m.emplace("mutation", object(spec.mutation, 2));
		if (!spec.subscription.empty()) m.emplace("subscription", object(spec.subscription, 2));
		svc = std::make_shared<Svc>(std::move(m), schema);
	}
	// An object of the type; its fields of object type without modifiers lead to another object, abstract ones to the first member.
	std::shared_ptr<service::Object> object(const std::string& type, int depth)
	{
		auto& t = *spec.find(type);
		service::ResolverMap r;
		service::TypeNames names { t.name };
		for (auto& i : t.of) names.emplace(spec.find(i)->name);
		for (auto& x : spec.types)
			if (x.kind == 'U')
				for (auto& n : x.of)
					if (n == type) names.emplace(x.name);
		r.emplace("__typename", [type](service::ResolverParams&& p) { return ModifiedResult<response::StringType>::convert(std::string(type), std::move(p)); });
		for (auto& f : t.fields)
		{
			auto* ft = spec.find(f.type);
			std::string target;
			if (ft && ft->kind == 'O') target = f.type;
			else if (ft && ft->kind == 'U' && !ft->of.empty()) target = ft->of[0];
			else if (ft && ft->kind == 'I')
				for (auto& x : spec.types)
					if (x.kind == 'O' && target.empty() && std::find(x.of.begin(), x.of.end(), f.type) != x.of.end()) target = x.name;
			if (target.empty()) continue;
			if (depth) r.emplace(f.name, [this, target, depth](service::ResolverParams&& p) { return ModifiedResult<service::Object>::convert<TypeModifier::Nullable>(object(target, depth - 1), std::move(p)); });
		}
		if (type == spec.query && !spec.hidden)
		{
			r.emplace("__schema", [this](service::ResolverParams&& p) {
				return ModifiedResult<service::Object>::convert(std::static_pointer_cast<service::Object>(std::make_shared<introspection::Schema>(schema)), std::move(p));
			});
			r.emplace("__type", [this](service::ResolverParams&& p) {
				auto name = service::ModifiedArgument<response::StringType>::require("name", p.arguments);
				return ModifiedResult<service::Object>::convert<TypeModifier::Nullable>(std::static_pointer_cast<service::Object>(std::make_shared<introspection::Type>(schema->LookupType(name))), std::move(p));
			});
		}
		return std::make_shared<Obj>(std::move(names), std::move(r));
	}
	response::Value run(const std::string& q, response::Value&& vars = response::Value(response::Type::Map))
	{
		auto ast = peg::parseString(q);
		return svc->resolve(std::make_shared<service::RequestState>(), ast, "", std::move(vars)).get();
	}
};

// ---------------------------------------------------------------- canonical text of a response
static std::string text(const response::Value& v, const std::string& key = "")
{
	switch (v.type())
	{
		case response::Type::Map:
		{
			std::string o = "{";
			for (auto it = v.begin(); it != v.end(); ++it) o += (o.size() > 1 ? "," : "") + it->first + ":" + text(it->second, it->first);
			return o + "}";
		}
		case response::Type::List:
		{
			std::vector<std::string> e;
			for (size_t i = 0; i < v.size(); ++i) e.push_back(text(v[i]));
			if (key == "types" || key == "directives" || key == "possibleTypes") std::sort(e.begin(), e.end());
			std::string o = "[";
			for (auto& x : e) o += (o.size() > 1 ? "," : "") + x;
			return o + "]";
		}
		case response::Type::String:
		case response::Type::EnumValue: return "'" + v.get<std::string>() + "'";
		case response::Type::Null: return "null";
		case response::Type::Boolean: return v.get<bool>() ? "true" : "false";
		case response::Type::Int: return std::to_string(v.get<int>());
		default: return "?";
	}
}
static std::string joined(std::vector<std::string> e, bool sorted)
{
	if (sorted) std::sort(e.begin(), e.end());
	std::string o = "[";
	for (auto& x : e) o += (o.size() > 1 ? "," : "") + x;
	return o + "]";
}

// ---------------------------------------------------------------- the expected description
static std::string str(const std::string& s) { return "'" + s + "'"; }
static std::string orNull(const std::string& s) { return s.empty() ? "null" : str(s); }
struct Describe
{
	const Spec& s;
	bool deprecated;
	static std::string kindName(char k)
	{
		switch (k)
		{
			case 'S': return "'SCALAR'";
			case 'O': return "'OBJECT'";
			case 'I': return "'INTERFACE'";
			case 'U': return "'UNION'";
			case 'E': return "'ENUM'";
			default: return "'INPUT_OBJECT'";
		}
	}
	std::string desc(const DType& t) const { return orNull(t.desc); }
	// matches fragment TR
	std::string ref(const std::string& t, int depth = 9) const
	{
		std::string kind, name = "null", of = "null", inner;
		if (t.back() == '!') { kind = "'NON_NULL'"; inner = t.substr(0, t.size() - 1); }
		else if (t.front() == '[') { kind = "'LIST'"; inner = t.substr(1, t.size() - 2); }
		else { kind = kindName(s.find(t)->kind); name = str(t); }
		if (!inner.empty()) of = ref(inner, depth - 1);
		std::string o = "{kind:" + kind + ",name:" + name;
		if (depth) o += ",ofType:" + of;
		return o + "}";
	}
	std::string iv(const DArg& a) const { return "{__typename:'__InputValue',name:" + str(a.name) + ",description:" + orNull(a.desc) + ",type:" + ref(a.type) + ",defaultValue:" + orNull(a.def) + "}"; }
	std::string ivs(const std::vector<DArg>& a) const
	{
		std::vector<std::string> e;
		for (auto& x : a) e.push_back(iv(x));
		return joined(e, false);
	}
	std::string type(const DType& t) const
	{
		std::string o = "{__typename:'__Type',kind:" + kindName(t.kind) + ",name:" + str(t.name);
		if (!isStandard(t.name)) o += ",description:" + desc(t);
		o += ",fields:";
		if (t.kind == 'O' || t.kind == 'I')
		{
			std::vector<std::string> e;
			for (auto& f : t.fields)
				if (deprecated || !f.dep)
					e.push_back("{__typename:'__Field',name:" + str(f.name) + ",description:" + orNull(f.desc) + ",args:" + ivs(f.args) + ",type:" + ref(f.type) + ",isDeprecated:" + (f.dep ? "true" : "false")
						+ ",deprecationReason:" + (f.dep ? str(*f.dep) : "null") + "}");
			o += joined(e, false);
		}
		else o += "null";
		o += ",inputFields:" + (t.kind == 'N' ? ivs(t.inputs) : "null");
		o += ",interfaces:";
		if (t.kind == 'O')
		{
			std::vector<std::string> e;
			for (auto& n : t.of) e.push_back(ref(n));
			o += joined(e, false);
		}
		else o += "null";
		o += ",enumValues:";
		if (t.kind == 'E')
		{
			std::vector<std::string> e;
			for (auto& v : t.values)
				if (deprecated || !v.dep)
					e.push_back("{__typename:'__EnumValue',name:" + str(v.name) + ",description:" + orNull(v.desc) + ",isDeprecated:" + (v.dep ? "true" : "false") + ",deprecationReason:" + (v.dep ? str(*v.dep) : "null") + "}");
			o += joined(e, false);
		}
		else o += "null";
		o += ",possibleTypes:";
		std::vector<std::string> e;
		if (t.kind == 'U')
			for (auto& n : t.of) e.push_back(ref(n));
		if (t.kind == 'I')
			for (auto& x : s.types)
				if (x.kind == 'O' && std::find(x.of.begin(), x.of.end(), t.name) != x.of.end()) e.push_back(ref(x.name));
		o += t.kind == 'U' || t.kind == 'I' ? joined(e, true) : "null";
		return o + ",ofType:null}";
	}
	std::string schema() const
	{
		std::vector<std::string> t, d;
		for (auto& x : s.types) t.push_back(type(x));
		for (auto& x : s.dirs)
		{
			std::vector<std::string> l;
			for (auto& n : x.locs) l.push_back(str(n));
			d.push_back("{__typename:'__Directive',name:" + str(x.name) + ",description:" + orNull(x.desc) + ",locations:" + joined(l, false) + ",args:" + ivs(x.args) + "}");
		}
		auto root = [&](const std::string& n) { return n.empty() ? std::string("null") : ref(n); };
		return "{__typename:'__Schema',queryType:" + root(s.query) + ",mutationType:" + root(s.mutation) + ",subscriptionType:" + root(s.subscription) + ",types:" + joined(t, true) + ",directives:" + joined(d, true) + "}";
	}
};
static const char* FRAGMENTS =
	" fragment TR on __Type { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } } } } } } }"
	" fragment IV on __InputValue { __typename name description type { ...TR } defaultValue }";
static std::string typeSelection(const std::string& arg, bool described)
{
	return std::string("{ __typename kind name ") + (described ? "description " : "") + "fields" + arg + " { __typename name description args { ...IV } type { ...TR } isDeprecated deprecationReason } inputFields { ...IV } interfaces { ...TR } enumValues" + arg
		+ " { __typename name description isDeprecated deprecationReason } possibleTypes { ...TR } ofType { name } }";
}

// Whether a set of types is asked for by way of __schema or by name, the description is the same.
struct Check
{
	mc::Ctx& c;
	const Spec& s;
	Built b;
	Check(mc::Ctx& ctx, const Spec& spec) : c(ctx), s(spec), b(spec) {}

	void same(const std::string& sig, const std::string& q, const std::string& want, response::Value&& vars = response::Value(response::Type::Map))
	{
		++c.transitions;
		std::string got;
		try { got = text(b.run(q, std::move(vars))); }
		catch (const std::exception& ex) { got = std::string("threw ") + ex.what(); }
		if (got != want)
		{
			size_t p = 0;
			while (p < got.size() && p < want.size() && got[p] == want[p]) ++p;
			size_t a = p > 60 ? p - 60 : 0;
			c.fail(sig, q.substr(0, 300) + "\n gives ..." + got.substr(a, 300) + "\n but the schema says ..." + want.substr(a, 300));
		}
	}
	void whole(const std::string& arg, bool deprecated)
	{
		Describe d { s, deprecated };
		// the standard scalars' descriptions are the library's own, so descriptions are asked for by name
		std::string want = d.schema();
		std::string q = "{ __schema { __typename queryType { ...TR } mutationType { ...TR } subscriptionType { ...TR } types " + typeSelection(arg, false)
			+ " directives { __typename name description locations args { ...IV } } } }" + FRAGMENTS;
		Spec plain = s;
		for (auto& t : plain.types) t.desc.clear();
		std::string w = Describe { plain, deprecated }.schema();
		for (size_t p; (p = w.find(",description:null,fields:")) != std::string::npos;) w.erase(p, 17);
		same("schema", q, "{data:{__schema:" + w + "}}");
	}
	void byName(const std::string& name, const std::string& arg, bool deprecated)
	{
		auto& t = *s.find(name);
		bool described = !isStandard(name);
		same("type-by-name", "{ __type(name: \"" + name + "\") " + typeSelection(arg, described) + " }" + FRAGMENTS, "{data:{__type:" + Describe { s, deprecated }.type(t) + "}}");
	}
	void everything()
	{
		whole("", false);
		whole("(includeDeprecated: true)", true);
		for (auto& t : s.types)
			if (!isStandard(t.name)) byName(t.name, "(includeDeprecated: true)", true);
	}
	void rejected(const std::string& q)
	{
		++c.transitions;
		auto ast = peg::parseString(q);
		auto r = b.run(q);
		auto e = r.find("errors");
		if (b.svc->validate(ast).empty()) c.fail("hidden-accepted", "a schema without introspection accepts " + q);
		if (e == r.end() || e->second.size() == 0 || r["data"].type() != response::Type::Null) c.fail("hidden-answered", q + " gives " + text(r));
	}
};

// ---------------------------------------------------------------- families of schemas
static Spec base()
{
	Spec s;
	standard(s);
	DType q;
	q.name = "Query";
	q.fields = { { "v", "", "Int" } };
	s.types.push_back(q);
	return s;
}
// Every way to wrap a type up to a number of list levels.
static std::vector<std::string> wrappings(const std::string& t, int levels)
{
	std::vector<std::string> out { t, t + "!" };
	if (levels)
		for (auto& i : wrappings(t, levels - 1))
		{
			out.push_back("[" + i + "]");
			out.push_back("[" + i + "]!");
		}
	std::sort(out.begin(), out.end());
	out.erase(std::unique(out.begin(), out.end()), out.end());
	return out;
}
static void addKinds(Spec& s)
{
	DType t;
	t.kind = 'S'; t.name = "Date"; s.types.push_back(t);
	t.kind = 'E'; t.name = "Color"; t.values = { { "RED", "" } }; s.types.push_back(t);
	t = DType {}; t.kind = 'I'; t.name = "Node"; t.fields = { { "id", "", "ID!" } }; s.types.push_back(t);
	t = DType {}; t.name = "Item"; t.fields = { { "id", "", "ID!" } }; t.of = { "Node" }; s.types.push_back(t);
	t = DType {}; t.kind = 'U'; t.name = "Any"; t.of = { "Item" }; s.types.push_back(t);
	t = DType {}; t.kind = 'N'; t.name = "In"; t.inputs = { { "a", "", "Int", "" } }; s.types.push_back(t);
}
static const char* DESCS[] = { "", "plain", "with \"quotes\" and \\ and\nlines and \xc3\xa9", "null" };

static void intro(mc::Ctx& c)
{
	// 1. every wrapping of every kind of type as field, argument and input field
	{
		const int levels = c.thorough ? 4 : 3;
		for (std::string b : { "Int", "Float", "String", "Boolean", "ID", "Date", "Color", "Item", "Node", "Any", "In" })
			for (auto& w : wrappings(b, levels))
				for (int place = 0; place < 4; ++place)
				{
					if (!c.mine() || !c.begin("type " + w + " in place " + std::to_string(place))) continue;
					bool in = b == "In", out = b == "Item" || b == "Node" || b == "Any";
					if ((place == 0 && in) || (place && out)) continue;
					Spec s = base();
					addKinds(s);
					DType t;
					if (place == 0) t.fields = { { "f", "", w } };
					if (place == 1) t.fields = { { "f", "", "Int", {}, { { "a", "", w, "" } } } };
					if (place == 2) { t.kind = 'N'; t.inputs = { { "a", "", w, "" } }; }
					if (place == 3) { t.fields = { { "f", "", "Int" } }; s.dirs.push_back({ "d", "", { "FIELD" }, { { "a", "", w, "" } } }); }
					t.name = "Holder";
					s.types.push_back(t);
					Check k(c, s);
					k.whole("", false);
					k.byName("Holder", "", false);
					++c.traces;
				}
	}
	// 2. members with every deprecation pattern, and every way to ask for them
	{
		std::vector<std::optional<std::string>> deps { std::nullopt, "", "why \"so\"" };
		const int most = c.thorough ? 4 : 3;
		for (int n = 0; n <= most; ++n)
		{
			int total = 1;
			for (int i = 0; i < n; ++i) total *= 3;
			for (int pat = 0; pat < total; ++pat)
			{
				if (!c.mine() || !c.begin("deprecations " + std::to_string(n) + "/" + std::to_string(pat))) continue;
				Spec s = base();
				DType o, i, e;
				o.name = "Obj";
				i.kind = 'I';
				i.name = "Inter";
				e.kind = 'E';
				e.name = "En";
				for (int k = 0, p = pat; k < n; ++k, p /= 3)
				{
					std::string nm(1, char('z' - k));
					o.fields.push_back({ nm, "", "Int", deps[p % 3] });
					i.fields.push_back({ nm, "d", "Int!", deps[p % 3] });
					e.values.push_back({ "V" + nm, "x", deps[p % 3] });
				}
				s.types.push_back(o);
				s.types.push_back(i);
				s.types.push_back(e);
				Check k(c, s);
				for (auto& a : std::vector<std::pair<std::string, bool>> { { "", false }, { "(includeDeprecated: true)", true }, { "(includeDeprecated: false)", false }, { "(includeDeprecated: null)", false } })
				{
					k.whole(a.first, a.second);
					for (auto t : { "Obj", "Inter", "En" }) k.byName(t, a.first, a.second);
				}
				for (int v = 0; v < 4; ++v) // a variable: absent, true, false, null
					for (auto t : { "Obj", "En" })
					{
						response::Value vars(response::Type::Map);
						if (v == 1 || v == 2) vars.emplace_back("x", response::Value(v == 1));
						if (v == 3) vars.emplace_back("x", response::Value());
						k.same("variable", "query ($x: Boolean) { __type(name: \"" + std::string(t) + "\") " + typeSelection("(includeDeprecated: $x)", true) + " }" + FRAGMENTS,
							"{data:{__type:" + Describe { s, v == 1 }.type(*s.find(t)) + "}}", std::move(vars));
					}
				// both ways in one request
				k.same("both", std::string("{ __type(name: \"Obj\") { a: fields { name } b: fields(includeDeprecated: true) { name } } }"), [&] {
					std::vector<std::string> a, bb;
					for (auto& f : o.fields)
					{
						if (!f.dep) a.push_back("{name:" + str(f.name) + "}");
						bb.push_back("{name:" + str(f.name) + "}");
					}
					return "{data:{__type:{a:" + joined(a, false) + ",b:" + joined(bb, false) + "}}}";
				}());
				++c.traces;
			}
		}
	}
	// 3. interfaces and unions: every relation between 3 objects, 2 interfaces and 1 union
	for (int rel = 0; rel < 512; ++rel)
	{
		if (!c.mine() || !c.begin("relations " + std::to_string(rel))) continue;
		for (int order = 0; order < 2; ++order)
		{
			Spec s = base();
			DType t;
			t.kind = 'I';
			t.fields = { { "a", "", "Int" } };
			t.name = "I0"; s.types.push_back(t);
			t.name = "I1"; s.types.push_back(t);
			DType u;
			u.kind = 'U';
			u.name = "U";
			for (int o = 0; o < 3; ++o)
			{
				DType x;
				x.name = "O" + std::to_string(o);
				x.fields = { { "a", "", "Int" } };
				for (int i = 0; i < 2; ++i)
					if (rel >> (o * 3 + i) & 1) x.of.push_back("I" + std::to_string(order ? 1 - i : i));
				if (rel >> (o * 3 + 2) & 1) u.of.push_back(x.name);
				s.types.push_back(x);
			}
			s.types.push_back(u);
			if (order)
			{
				size_t n = 0;
				for (auto& x : s.types) if (!isStandard(x.name)) ++n;
				for (size_t i = n; i-- > 0;) s.fill.push_back(i);
			}
			Check k(c, s);
			k.everything();
			++c.traces;
		}
	}
	// 4. directives: every location alone, every pair, all, and arguments
	for (int a = -1; a < 18; ++a)
		for (int b = a; b < 18; ++b)
		{
			if (!c.mine() || !c.begin("directive locations " + std::to_string(a) + "," + std::to_string(b))) continue;
			Spec s = base();
			DDir d { "custom", DESCS[(a + 1) % 4] };
			if (a < 0 && b >= 0)
				for (int i = 0; i <= b; ++i) d.locs.push_back(LOCS[17 - i]);
			else if (a >= 0)
			{
				d.locs.push_back(LOCS[b]);
				if (a != b) d.locs.push_back(LOCS[a]);
			}
			for (int i = 0; i < (a + b + 2) % 4; ++i) d.args.push_back({ std::string(1, char('q' - i)), DESCS[i], i ? "Int" : "[String!]!", i == 1 ? "3" : "" });
			s.dirs.push_back(d);
			s.dirs.push_back({ "another", "", { LOCS[0] } });
			Check k(c, s);
			k.whole("", false);
			++c.traces;
		}
	// 5. defaults and descriptions
	{
		std::vector<std::string> defs { "", "null", "1", "\"text\"", "[1, 2]", "{ a: 1 }", "false", "0", "\"\"", "RED" };
		for (auto& d1 : defs)
			for (auto& d2 : defs)
				for (int ds = 0; ds < 4; ++ds)
				{
					if (!c.mine() || !c.begin("defaults " + d1 + " and " + d2 + " description " + std::to_string(ds))) continue;
					Spec s = base();
					addKinds(s);
					for (auto& t : s.types)
					{
						if (isStandard(t.name)) continue;
						t.desc = DESCS[ds];
						for (auto& f : t.fields) f.desc = DESCS[(ds + 1) % 4];
						for (auto& v : t.values) v.desc = DESCS[(ds + 2) % 4];
						for (auto& v : t.inputs) { v.desc = DESCS[(ds + 3) % 4]; v.def = d1; }
					}
					DType t;
					t.name = "Holder";
					t.desc = DESCS[(ds + 1) % 4];
					t.fields = { { "f", DESCS[ds], "Int", {}, { { "y", DESCS[ds], "Int", d1 }, { "x", DESCS[(ds + 1) % 4], "String!", d2 } } } };
					s.types.push_back(t);
					s.dirs.push_back({ "d", DESCS[ds], { "FIELD", "QUERY" }, { { "y", DESCS[(ds + 2) % 4], "Int", d1 }, { "x", "", "In", d2 } } });
					Check k(c, s);
					k.everything();
					++c.traces;
				}
	}
	// 6. roots, and schemas without introspection
	for (int m = 0; m < 2; ++m)
		for (int sub = 0; sub < 2; ++sub)
			for (int hidden = 0; hidden < 2; ++hidden)
				for (std::string root : { "Query", "Root", "A" })
				{
					if (!c.mine() || !c.begin("roots " + root + (m ? " mutation" : "") + (sub ? " subscription" : "") + (hidden ? " hidden" : ""))) continue;
					Spec s = base();
					s.types.back().name = root;
					s.query = root;
					addKinds(s);
					s.types[s.types.size() - 7].fields = { { "v", "", "Int" }, { "item", "", "Item" }, { "node", "", "Node" }, { "any", "", "Any" } };
					auto more = [&](const char* n) {
						DType t;
						t.name = n;
						t.fields = { { "v", "", "Int" }, { "item", "", "Item" } };
						s.types.push_back(t);
						return std::string(n);
					};
					if (m) s.mutation = more("Mu");
					if (sub) s.subscription = more("Su");
					s.hidden = hidden;
					Check k(c, s);
					++c.traces;
					// the name of the type of an object is always there
					k.same("typename", "{ __typename t: __typename item { __typename id2: __typename } node { __typename } any { __typename ... on Item { t: __typename } ... on Node { n: __typename } } ... { __typename } ...F } fragment F on " + root + " { f: __typename }",
						"{data:{__typename:" + str(root) + ",t:" + str(root) + ",item:{__typename:'Item',id2:'Item'},node:{__typename:'Item'},any:{__typename:'Item',t:'Item',n:'Item'},f:" + str(root) + "}}");
					if (m) k.same("typename", "mutation { __typename item { __typename } }", "{data:{__typename:'Mu',item:{__typename:'Item'}}}");
					static const char* asks[] = { "{ __schema { queryType { name } } }", "{ v: __schema { __typename } }", "{ __type(name: \"Item\") { name } }", "{ ... { __schema { __typename } } }",
						"{ ... on ROOT { __type(name: \"Int\") { kind } } }", "{ ...F } fragment F on ROOT { __schema { __typename } }", "query ($n: String!) { __type(name: $n) { name } }",
						"{ __typename __schema { types { name } } }", "{ __typename ... @include(if: true) { x: __type(name: \"__Schema\") { name } } }", "{ v { __schema { __typename } } }", "{ item { __schema { __typename } } }",
						"{ item { __type(name: \"Int\") { name } } }" };
					int n = 0;
					for (std::string q : asks)
					{
						if (auto p = q.find("ROOT"); p != std::string::npos) q.replace(p, 4, root);
						++n;
						if (hidden || n >= 10) k.rejected(q);
					}
					if (m) { k.rejected("mutation { __schema { __typename } }"); k.rejected("mutation { __type(name: \"Int\") { name } }"); }
					if (!hidden)
					{
						k.everything();
						k.whole("(includeDeprecated: false)", false);
						for (auto& t : s.types) k.byName(t.name, "", false);
						response::Value vars(response::Type::Map);
						vars.emplace_back("n", response::Value("Item"));
						k.same("by-variable", "query ($n: String!) { __type(name: $n) { name kind } }", "{data:{__type:{name:'Item',kind:'OBJECT'}}}", std::move(vars));
						k.same("fragment", "{ ...F ...G } fragment F on " + root + " { a: __type(name: \"Item\") { name } } fragment G on " + root + " { s: __schema { queryType { name } } }",
							"{data:{a:{name:'Item'},s:{queryType:{name:" + str(root) + "}}}}");
					}
				}
	// 7. definitions in every order: members and types refer to later ones
	{
		std::vector<int> o { 0, 1, 2, 3, 4, 5 };
		do
		{
			if (!c.mine()) continue;
			std::string d = "order of definitions";
			for (int i : o) d += " " + std::to_string(i);
			if (!c.begin(d)) continue;
			Spec s = base(), kinds;
			addKinds(kinds);
			kinds.types[3].fields = { { "self", "", "[Item!]!" }, { "node", "", "Node", {}, { { "in", "", "In", "{ a: 2 }" } } }, { "any", "", "[Any]" }, { "color", "", "Color!" } };
			kinds.types[5].inputs = { { "in", "", "In", "" }, { "c", "", "[Color!]", "[RED]" }, { "d", "", "Date", "" } };
			kinds.types[2].fields = { { "id", "", "ID!" }, { "items", "", "[Item]" } };
			for (int i : o) s.types.push_back(kinds.types[i]);
			for (size_t i = 7; i-- > 0;) s.fill.push_back((i * 3 + o[0]) % 7);
			Check k(c, s);
			k.everything();
			++c.traces;
		} while (std::next_permutation(o.begin(), o.end()));
	}
	// 8. each introspection field alone and each pair of them, on every kind of type
	{
		Spec s = base();
		addKinds(s);
		for (auto& t : s.types)
			if (!isStandard(t.name)) t.desc = "about " + t.name;
		Check k(c, s);
		static const std::pair<const char*, const char*> sel[] = { { "kind", "kind" }, { "name", "name" }, { "description", "description" }, { "fields { name }", "fields" }, { "inputFields { name }", "inputFields" },
			{ "interfaces { name }", "interfaces" }, { "enumValues { name }", "enumValues" }, { "possibleTypes { name }", "possibleTypes" }, { "ofType { name }", "ofType" }, { "__typename", "__typename" } };
		auto value = [&](const DType& t, int f) -> std::string {
			std::vector<std::string> e;
			switch (f)
			{
				case 0: return Describe::kindName(t.kind);
				case 1: return str(t.name);
				case 2: return orNull(t.desc);
				case 3: if (t.kind != 'O' && t.kind != 'I') return "null"; for (auto& x : t.fields) e.push_back("{name:" + str(x.name) + "}"); return joined(e, false);
				case 4: if (t.kind != 'N') return "null"; for (auto& x : t.inputs) e.push_back("{name:" + str(x.name) + "}"); return joined(e, false);
				case 5: if (t.kind != 'O') return "null"; for (auto& x : t.of) e.push_back("{name:" + str(x) + "}"); return joined(e, false);
				case 6: if (t.kind != 'E') return "null"; for (auto& x : t.values) e.push_back("{name:" + str(x.name) + "}"); return joined(e, false);
				case 7: return t.kind == 'U' || t.kind == 'I' ? "[{name:'Item'}]" : "null";
				case 8: return "null";
				default: return "'__Type'";
			}
		};
		for (auto& t : s.types)
		{
			if (isStandard(t.name)) continue;
			for (int f = 0; f < 10; ++f)
				for (int g = 0; g < 10; ++g)
				{
					if (!c.mine() || !c.begin("fields " + std::string(sel[f].first) + " and " + sel[g].first + " of " + t.name)) continue;
					std::string q = std::string("{ __type(name: \"") + t.name + "\") { " + sel[f].first + " " + (f == g ? "" : sel[g].first) + " } }";
					k.same("alone", q, std::string("{data:{__type:{") + sel[f].second + ":" + value(t, f) + (f == g ? "" : std::string(",") + sel[g].second + ":" + value(t, g)) + "}}}");
					++c.traces;
				}
		}
		for (auto& w : wrappings("Item", 3))
		{
			// the wrappers themselves have no members
			Spec s2 = base();
			addKinds(s2);
			DType t;
			t.name = "Holder";
			t.fields = { { "f", "", w } };
			s2.types.push_back(t);
			if (!c.mine() || !c.begin("members of " + w)) continue;
			if (w == "Item") continue;
			Check k2(c, s2);
			k2.same("wrapper", "{ __type(name: \"Holder\") { fields { type { name description fields { name } inputFields { name } interfaces { name } enumValues { name } possibleTypes { name } __typename } } } }",
				"{data:{__type:{fields:[{type:{name:null,description:null,fields:null,inputFields:null,interfaces:null,enumValues:null,possibleTypes:null,__typename:'__Type'}}]}}}");
			++c.traces;
		}
	}
	c.states = c.traces;
}
MC_MAIN({ { "i01", intro } })
