// The mock service of svc.h: objects whose resolvers answer from dataOf() and record every call.
#include "svc.h"

namespace svc {

using namespace graphql;

enum class E { X, Y, Z };

} // namespace svc

namespace graphql::service {

// What schemagen generates for an enum.
template <>
inline std::future<ResolverResult> ModifiedResult<svc::E>::convert(FieldResult<svc::E>&& result, ResolverParams&& params)
{
	return resolve(std::move(result), std::move(params), [](svc::E value, const ResolverParams&) {
		static const char* names[] = { "X", "Y", "Z" };
		response::Value v(response::Type::EnumValue);
		v.set<response::StringType>(std::string(names[static_cast<size_t>(value)]));
		return v;
	});
}

} // namespace graphql::service

namespace svc {

service::TypeNames Node::names(const ref::Schema& S, const ref::TypeDef& t)
{
	service::TypeNames n { t.name };
	for (auto& i : t.implements) n.emplace(i);
	for (auto& x : S.own.doc.types)
		if (x.k == ref::TypeDef::Union && std::find(x.members.begin(), x.members.end(), t.name) != x.members.end()) n.emplace(x.name);
	return n;
}

service::ResolverMap Node::resolvers(Node* self, const ref::TypeDef& t, World& w)
{
	service::ResolverMap m;
	for (auto& f : t.fields)
		m.emplace(f.name, [self, &f](service::ResolverParams&& params) { return self->resolveField(f, std::move(params)); });
	m.emplace("__typename", [self](service::ResolverParams&& params) {
		return service::ModifiedResult<response::StringType>::convert(std::string(self->t.name), std::move(params));
	});
	if (!w.noIntrospection && t.name == w.S.query)
	{
		m.emplace("__schema", [&w](service::ResolverParams&& params) {
			return service::ModifiedResult<service::Object>::convert(
				std::static_pointer_cast<service::Object>(std::make_shared<introspection::Schema>(w.schema)), std::move(params));
		});
		m.emplace("__type", [&w](service::ResolverParams&& params) {
			auto name = service::ModifiedArgument<response::StringType>::require("name", params.arguments);
			std::shared_ptr<introspection::object::Type> result;
			const auto& base = w.schema->LookupType(name);
			if (base) result = std::make_shared<introspection::Type>(base);
			return service::ModifiedResult<introspection::object::Type>::convert<service::TypeModifier::Nullable>(result, std::move(params));
		});
	}
	return m;
}

Node::Node(World& w, const ref::TypeDef& t, int id)
	: service::Object(names(w.S, t), resolvers(this, t, w)), w(w), t(t), id(id)
{
}

void Node::beginSelectionSet(const service::SelectionSetParams& params) const
{
	std::string path = pathOf(params.errorPath);
	auto f = Fail::None;
	{
		RecGuard g(w.rec.m);
		w.rec.events.push_back({ Ev::Begin, path, t.name, id });
		auto i = w.rec.fails.find(path);
		if (i != w.rec.fails.end()) f = i->second;
	}
	if (w.rec.onEvent) w.rec.onEvent();
	if (f == Fail::Begin) throw std::runtime_error("begin" + path);
}
void Node::endSelectionSet(const service::SelectionSetParams& params) const
{
	std::string path = pathOf(params.errorPath);
	auto f = Fail::None;
	{
		RecGuard g(w.rec.m);
		w.rec.events.push_back({ Ev::End, path, t.name, id });
		auto i = w.rec.fails.find(path);
		if (i != w.rec.fails.end()) f = i->second;
	}
	if (w.rec.onEvent) w.rec.onEvent();
	if (f == Fail::End) throw std::runtime_error("end" + path);
}

using service::TypeModifier;

template <class T, TypeModifier... M>
struct Make;

template <class T>
T leafValue(World& w, const Datum& d)
{
	if constexpr (std::is_same_v<T, response::IntType>) return static_cast<int>(d.n);
	else if constexpr (std::is_same_v<T, response::FloatType>) return d.n + 0.25;
	else if constexpr (std::is_same_v<T, response::StringType>) return "s" + std::to_string(d.n);
	else if constexpr (std::is_same_v<T, response::BooleanType>) return d.n % 20 < 10;
	else if constexpr (std::is_same_v<T, response::IdType>) return idBytes(d.n);
	else if constexpr (std::is_same_v<T, E>) return static_cast<E>(d.n % 3);
	else
	{
		response::Value v(response::Type::Map), l(response::Type::List);
		l.emplace_back(response::Value());
		l.emplace_back(response::Value(true));
		v.emplace_back("n", response::Value(static_cast<int>(d.n)));
		v.emplace_back("l", std::move(l));
		return v;
	}
}

template <class T>
struct Make<T>
{
	using type = std::conditional_t<std::is_same_v<T, service::Object>, std::shared_ptr<service::Object>, T>;
	static type make(World& w, const Datum& d)
	{
		if constexpr (std::is_same_v<T, service::Object>) return w.node(d.type, d.id);
		else return leafValue<T>(w, d);
	}
};
template <class T, TypeModifier... M>
struct Make<T, TypeModifier::Nullable, M...>
{
	using inner = typename Make<T, M...>::type;
	static constexpr bool ptr = std::is_same_v<T, service::Object> && sizeof...(M) == 0;
	using type = std::conditional_t<ptr, inner, std::optional<inner>>;
	static type make(World& w, const Datum& d)
	{
		if (d.k == Datum::Null)
		{
			if constexpr (ptr) return nullptr;
			else return std::nullopt;
		}
		return Make<T, M...>::make(w, d);
	}
};
template <class T, TypeModifier... M>
struct Make<T, TypeModifier::List, M...>
{
	using type = std::vector<typename Make<T, M...>::type>;
	static type make(World& w, const Datum& d)
	{
		type v;
		for (auto& x : d.list) v.push_back(Make<T, M...>::make(w, x));
		return v;
	}
};

[[noreturn]] inline void failNow(Fail f, const std::string& path)
{
	if (f == Fail::ThrowStd || f == Fail::FutureStd || f == Fail::FutureLate) throw std::runtime_error("std" + path);
	if (f == Fail::Throw2) throw service::schema_exception { std::vector<std::string> { "one" + path, "two" + path } };
	throw service::schema_exception { std::vector<std::string> { "schema" + path } };
}

template <class T, TypeModifier... M>
std::future<service::ResolverResult> finish(World& w, const Datum& d, Fail fail, How how, const std::string& path, service::ResolverParams&& params)
{
	using V = typename Make<T, M...>::type;
	if (fail == Fail::ThrowSchema || fail == Fail::ThrowStd || fail == Fail::Throw2) failNow(fail, path);
	auto go = [&](service::FieldResult<V>&& r) {
		if constexpr (sizeof...(M) == 0) return service::ModifiedResult<T>::convert(std::move(r), std::move(params));
		else return service::ModifiedResult<T>::template convert<M...>(std::move(r), std::move(params));
	};
	auto made = [&w, path]() {
		if (!w.rec.done) return;
		{
			RecGuard g(w.rec.m);
			w.rec.events.push_back({ Ev::Done, path, "", 0 });
		}
		if (w.rec.onEvent) w.rec.onEvent();
	};
	bool late = fail == Fail::FutureSchema || fail == Fail::FutureStd || fail == Fail::FutureLate;
	if (how == How::Async)
		return go(std::async(std::launch::async, [&w, d, fail, late, path, made]() -> V {
			if (late) { made(); failNow(fail, path); }
			V v = Make<T, M...>::make(w, d);
			made();
			return v;
		}));
	if (how == How::Thread)
	{
		auto p = std::make_shared<std::promise<V>>();
		auto f = p->get_future();
		std::thread t([&w, d, fail, late, path, made, p]() {
			try
			{
				if (late) failNow(fail, path);
				V v = Make<T, M...>::make(w, d);
				made();
				p->set_value(std::move(v));
			}
			catch (...)
			{
				if (late) made();
				p->set_exception(std::current_exception());
			}
		});
		{
			RecGuard g(w.rec.m);
			w.rec.threads.push_back(std::move(t));
		}
		return go(std::move(f));
	}
	if (fail == Fail::FutureSchema || fail == Fail::FutureStd)
	{
		std::promise<V> p;
		try { failNow(fail, path); } catch (...) { p.set_exception(std::current_exception()); }
		return go(p.get_future());
	}
	if (fail == Fail::FutureLate)
		return go(std::async(std::launch::deferred, [path]() -> V { failNow(Fail::FutureLate, path); }));
	if (how == How::Deferred)
		return go(std::async(std::launch::deferred, [&w, d, made]() -> V {
			V v = Make<T, M...>::make(w, d);
			made();
			return v;
		}));
	made();
	if (how == How::Ready)
	{
		std::promise<V> p;
		p.set_value(Make<T, M...>::make(w, d));
		return go(p.get_future());
	}
	return go(Make<T, M...>::make(w, d));
}

template <class T, int Lists, TypeModifier... M>
std::future<service::ResolverResult> conv(World& w, const ref::Type& t, const Datum& d, Fail fail, How how, const std::string& path, service::ResolverParams&& params)
{
	auto* n = t.k == ref::Type::NonNull ? t.of.get() : &t;
	if (n->k == ref::Type::List)
	{
		if constexpr (Lists == 0) std::abort();
		else if (n != &t) return conv<T, Lists - 1, M..., TypeModifier::List>(w, *n->of, d, fail, how, path, std::move(params));
		else return conv<T, Lists - 1, M..., TypeModifier::Nullable, TypeModifier::List>(w, *n->of, d, fail, how, path, std::move(params));
	}
	else if (n != &t) return finish<T, M...>(w, d, fail, how, path, std::move(params));
	else return finish<T, M..., TypeModifier::Nullable>(w, d, fail, how, path, std::move(params));
}

std::future<service::ResolverResult> Node::resolveField(const ref::FieldDef& f, service::ResolverParams&& params)
{
	Call c;
	c.path = pathOf(params.errorPath);
	c.object = t.name;
	c.id = id;
	c.field = f.name;
	c.args = show(params.arguments);
	c.dOp = show(params.operationDirectives, true);
	c.dDef = show(params.fragmentDefinitionDirectives, true);
	c.dSpread = show(params.fragmentSpreadDirectives, true);
	c.dInline = show(params.inlineFragmentDirectives, true);
	c.dField = show(params.fieldDirectives, true);
	c.context = static_cast<int>(params.resolverContext);
	auto fail = Fail::None;
	auto how = How::Value;
	{
		RecGuard g(w.rec.m);
		w.rec.events.push_back({ Ev::CallK, c.path, t.name, id, w.rec.calls.size() });
		w.rec.calls.push_back(c);
		if (params.state.get() != w.rec.state) w.rec.wrongState = true;
		auto i = w.rec.fails.find(c.path);
		if (i != w.rec.fails.end()) fail = i->second;
		how = w.rec.how;
		auto h = w.rec.hows.find(c.path);
		if (h != w.rec.hows.end()) how = h->second;
	}
	if (w.rec.onEvent) w.rec.onEvent();
	if (w.rec.onCall) w.rec.onCall(c);
	auto d = dataOf(w.S, t.name, id, f);
	if (fail == Fail::Null) d = Datum {};
	auto& leaf = f.type->leaf();
	auto* td = w.S.type(leaf);
	if (ref::Schema::composite(td)) return conv<service::Object, 1>(w, *f.type, d, fail, how, c.path, std::move(params));
	if (leaf == "Int") return conv<response::IntType, 2>(w, *f.type, d, fail, how, c.path, std::move(params));
	if (leaf == "Float") return conv<response::FloatType, 0>(w, *f.type, d, fail, how, c.path, std::move(params));
	if (leaf == "String") return conv<response::StringType, 0>(w, *f.type, d, fail, how, c.path, std::move(params));
	if (leaf == "Boolean") return conv<response::BooleanType, 0>(w, *f.type, d, fail, how, c.path, std::move(params));
	if (leaf == "ID") return conv<response::IdType, 0>(w, *f.type, d, fail, how, c.path, std::move(params));
	if (leaf == "E") return conv<E, 1>(w, *f.type, d, fail, how, c.path, std::move(params));
	return conv<response::Value, 0>(w, *f.type, d, fail, how, c.path, std::move(params));
}

// ---- the schema through the library's own interface -----------------------------------------

std::shared_ptr<schema::Schema> buildSchema(const ref::Schema& S, std::list<std::string>& keep, bool noIntrospection)
{
	auto sv = [&](const std::string& s) -> std::string_view { keep.push_back(s); return keep.back(); };
	auto schema = std::make_shared<schema::Schema>(noIntrospection);
	introspection::AddTypesToSchema(schema);
	std::map<std::string, std::shared_ptr<schema::BaseType>> made;
	using TD = ref::TypeDef;
	for (auto& t : S.own.doc.types)
	{
		std::shared_ptr<schema::BaseType> b;
		switch (t.k)
		{
			case TD::Scalar: b = schema::ScalarType::Make(sv(t.name), sv(t.desc)); break;
			case TD::Object: b = schema::ObjectType::Make(sv(t.name), sv(t.desc)); break;
			case TD::Interface: b = schema::InterfaceType::Make(sv(t.name), sv(t.desc)); break;
			case TD::Union: b = schema::UnionType::Make(sv(t.name), sv(t.desc)); break;
			case TD::Enum: b = schema::EnumType::Make(sv(t.name), sv(t.desc)); break;
			case TD::Input: b = schema::InputObjectType::Make(sv(t.name), sv(t.desc)); break;
			default: continue;
		}
		made[t.name] = b;
		schema->AddType(sv(t.name), b);
	}
	std::function<std::shared_ptr<const schema::BaseType>(const ref::Type&)> ty = [&](const ref::Type& t) -> std::shared_ptr<const schema::BaseType> {
		if (t.k == ref::Type::Named) return schema->LookupType(t.name);
		return schema->WrapType(t.k == ref::Type::List ? introspection::TypeKind::LIST : introspection::TypeKind::NON_NULL, ty(*t.of));
	};
	auto depr = [&](const std::vector<ref::Dir>& ds) -> std::optional<std::string_view> {
		for (auto& d : ds)
			if (d.name == "deprecated") return d.args.empty() ? sv("No longer supported") : sv(d.args[0].val.text);
		return std::nullopt;
	};
	auto inputs = [&](const std::vector<ref::InputDef>& in) {
		std::vector<std::shared_ptr<const schema::InputValue>> v;
		for (auto& i : in) v.push_back(schema::InputValue::Make(sv(i.name), sv(i.desc), ty(*i.type), i.def ? sv(printVal(*i.def)) : std::string_view {}));
		return v;
	};
	auto fields = [&](const std::vector<ref::FieldDef>& fs) {
		std::vector<std::shared_ptr<const schema::Field>> v;
		for (auto& f : fs) v.push_back(schema::Field::Make(sv(f.name), sv(f.desc), depr(f.dirs), ty(*f.type), inputs(f.args)));
		return v;
	};
	for (auto& t : S.own.doc.types)
	{
		switch (t.k)
		{
			case TD::Object:
			{
				auto o = std::static_pointer_cast<schema::ObjectType>(made[t.name]);
				std::vector<std::shared_ptr<const schema::InterfaceType>> v;
				for (auto& i : t.implements) v.push_back(std::static_pointer_cast<const schema::InterfaceType>(made[i]));
				if (!v.empty()) o->AddInterfaces(std::move(v));
				o->AddFields(fields(t.fields));
				break;
			}
			case TD::Interface: std::static_pointer_cast<schema::InterfaceType>(made[t.name])->AddFields(fields(t.fields)); break;
			case TD::Union:
			{
				std::vector<std::weak_ptr<const schema::BaseType>> v;
				for (auto& m : t.members) v.push_back(schema->LookupType(m));
				std::static_pointer_cast<schema::UnionType>(made[t.name])->AddPossibleTypes(std::move(v));
				break;
			}
			case TD::Enum:
			{
				std::vector<schema::EnumValueType> v;
				for (auto& e : t.values) v.push_back({ sv(e.name), sv(e.desc), depr(e.dirs) });
				std::static_pointer_cast<schema::EnumType>(made[t.name])->AddEnumValues(std::move(v));
				break;
			}
			case TD::Input: std::static_pointer_cast<schema::InputObjectType>(made[t.name])->AddInputValues(inputs(t.inputs)); break;
			case TD::Directive:
			{
				static const char* locs[] = { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT",
					"SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION" };
				using L = introspection::DirectiveLocation;
				static const L vals[] = { L::QUERY, L::MUTATION, L::SUBSCRIPTION, L::FIELD, L::FRAGMENT_DEFINITION, L::FRAGMENT_SPREAD, L::INLINE_FRAGMENT,
					L::SCHEMA, L::SCALAR, L::OBJECT, L::FIELD_DEFINITION, L::ARGUMENT_DEFINITION, L::INTERFACE, L::UNION, L::ENUM, L::ENUM_VALUE, L::INPUT_OBJECT, L::INPUT_FIELD_DEFINITION };
				std::vector<L> v;
				for (auto& l : t.locations)
					for (int i = 0; i < 18; ++i) if (l == locs[i]) v.push_back(vals[i]);
				schema->AddDirective(schema::Directive::Make(sv(t.name), sv(t.desc), std::move(v), inputs(t.inputs)));
				break;
			}
			default: break;
		}
	}
	auto root = [&](const std::string& n) { return std::static_pointer_cast<schema::ObjectType>(made[n]); };
	if (!S.query.empty()) schema->AddQueryType(root(S.query));
	if (!S.mutation.empty()) schema->AddMutationType(root(S.mutation));
	if (!S.subscription.empty()) schema->AddSubscriptionType(root(S.subscription));
	return schema;
}

} // namespace svc
