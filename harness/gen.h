// What the implementations of generated services have in common: each accessor records what it
// receives, and answers from the same data as the reference (see gen_mock.cpp, h_gen.cpp).
#pragma once
#include "svc.h"

namespace gen {

using namespace graphql;
using svc::Datum;

struct GWorld : svc::World
{
	explicit GWorld(const std::string& sdl, bool noIntro) : svc::World(sdl, noIntro) {}
	virtual ~GWorld() = default;
	virtual std::shared_ptr<service::Object> make(const std::string& type, int id) = 0;
	std::shared_ptr<service::Object> obj(const std::string& type, int id)
	{
		svc::RecGuard g(nodesMutex);
		auto& o = objs[{ type, id }];
		if (!o) o = make(type, id);
		return o;
	}

protected:
	std::map<std::pair<std::string, int>, std::shared_ptr<service::Object>> objs;
};
struct Program
{
	std::string name, variant, sdl;
	bool noIntrospection;
	std::function<std::unique_ptr<GWorld>()> make;
};
inline std::vector<Program>& programs()
{
	static std::vector<Program> p;
	return p;
}
struct Register
{
	explicit Register(Program&& p) { programs().push_back(std::move(p)); }
};

// ---- what an accessor receives
template <class T> struct In;
template <> struct In<response::IntType> { static std::string show(const response::IntType& v) { return std::to_string(v); } };
template <> struct In<response::FloatType> { static std::string show(const response::FloatType& v) { return svc::num(v); } };
template <> struct In<response::StringType> { static std::string show(const response::StringType& v) { return mc::jsonq(v); } };
template <> struct In<response::BooleanType> { static std::string show(const response::BooleanType& v) { return v ? "true" : "false"; } };
template <> struct In<response::IdType> { static std::string show(const response::IdType& v) { return mc::jsonq(svc::b64(v)); } };
template <> struct In<response::Value> { static std::string show(const response::Value& v) { return svc::show(v); } };
template <class T> struct In<std::optional<T>> { static std::string show(const std::optional<T>& v) { return v ? In<T>::show(*v) : "null"; } };
template <class T> struct In<std::vector<T>>
{
	static std::string show(const std::vector<T>& v)
	{
		std::string o = "[";
		for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + In<T>::show(v[i]);
		return o + "]";
	}
};

// ---- what it returns
template <class T> struct Out;
template <> struct Out<response::IntType> { static auto make(GWorld&, const Datum& d) { return static_cast<response::IntType>(d.n); } };
template <> struct Out<response::FloatType> { static auto make(GWorld&, const Datum& d) { return d.n + 0.25; } };
template <> struct Out<response::StringType> { static auto make(GWorld&, const Datum& d) { return "s" + std::to_string(d.n); } };
template <> struct Out<response::BooleanType> { static auto make(GWorld&, const Datum& d) { return d.n % 20 < 10; } };
template <> struct Out<response::IdType> { static auto make(GWorld&, const Datum& d) { return svc::idBytes(d.n); } };
template <> struct Out<response::Value>
{
	static auto make(GWorld&, const Datum& d)
	{
		response::Value v(response::Type::Map), l(response::Type::List);
		l.emplace_back(response::Value());
		l.emplace_back(response::Value(true));
		v.emplace_back("n", response::Value(static_cast<int>(d.n)));
		v.emplace_back("l", std::move(l));
		return v;
	}
};
template <class T> struct Out<std::optional<T>>
{
	static std::optional<T> make(GWorld& w, const Datum& d)
	{
		if (d.k == Datum::Null) return std::nullopt;
		return std::optional<T>(Out<T>::make(w, d));
	}
};
template <class T> struct Out<std::vector<T>>
{
	static std::vector<T> make(GWorld& w, const Datum& d)
	{
		std::vector<T> v;
		for (auto& x : d.list) v.push_back(Out<T>::make(w, x));
		return v;
	}
};
template <class T> struct Out<std::shared_ptr<T>>
{
	static std::shared_ptr<T> make(GWorld& w, const Datum& d)
	{
		if (d.k == Datum::Null) return nullptr;
		return std::static_pointer_cast<T>(w.obj(d.type, d.id));
	}
};

// ---- what every object does
inline void event(GWorld& w, const char* type, int id, const service::SelectionSetParams& params, bool begin)
{
	std::string path = svc::pathOf(params.errorPath);
	auto f = svc::Fail::None;
	{
		svc::RecGuard g(w.rec.m);
		w.rec.events.push_back({ begin ? svc::Ev::Begin : svc::Ev::End, path, type, id });
		auto i = w.rec.fails.find(path);
		if (i != w.rec.fails.end()) f = i->second;
	}
	if (begin && f == svc::Fail::Begin) throw std::runtime_error("begin" + path);
	if (!begin && f == svc::Fail::End) throw std::runtime_error("end" + path);
}
[[noreturn]] inline void failNow(svc::Fail f, const std::string& path)
{
	using svc::Fail;
	if (f == Fail::ThrowStd || f == Fail::FutureStd || f == Fail::FutureLate) throw std::runtime_error("std" + path);
	if (f == Fail::Throw2) throw service::schema_exception { std::vector<std::string> { "one" + path, "two" + path } };
	throw service::schema_exception { std::vector<std::string> { "schema" + path } };
}
template <class V>
service::FieldResult<V> answer(GWorld& w, const char* type, int id, const char* field, service::FieldParams& params, const std::string& args)
{
	using svc::Fail;
	using svc::How;
	svc::Call c;
	c.path = svc::pathOf(params.errorPath);
	c.object = type;
	c.id = id;
	c.field = field;
	c.args = "{" + args + "}";
	c.dOp = svc::show(params.operationDirectives, true);
	c.dDef = svc::show(params.fragmentDefinitionDirectives, true);
	c.dSpread = svc::show(params.fragmentSpreadDirectives, true);
	c.dInline = svc::show(params.inlineFragmentDirectives, true);
	c.dField = svc::show(params.fieldDirectives, true);
	c.context = static_cast<int>(params.resolverContext);
	auto fail = Fail::None;
	auto how = How::Value;
	{
		svc::RecGuard g(w.rec.m);
		w.rec.events.push_back({ svc::Ev::CallK, c.path, type, id, w.rec.calls.size() });
		w.rec.calls.push_back(c);
		if (params.state.get() != w.rec.state) w.rec.wrongState = true;
		auto i = w.rec.fails.find(c.path);
		if (i != w.rec.fails.end()) fail = i->second;
		how = w.rec.how;
	}
	auto* td = w.S.type(type);
	auto d = svc::dataOf(w.S, type, id, *w.S.field(td, field));
	if (fail == Fail::Null) d = Datum {};
	if (fail == Fail::ThrowSchema || fail == Fail::ThrowStd || fail == Fail::Throw2) failNow(fail, c.path);
	bool late = fail == Fail::FutureSchema || fail == Fail::FutureStd || fail == Fail::FutureLate;
	auto path = c.path;
	auto result = [&w, d, late, fail, path]() -> V {
		if (late) failNow(fail, path);
		return Out<V>::make(w, d);
	};
	if (how == How::Deferred || fail == Fail::FutureLate) return std::async(std::launch::deferred, result);
	if (how == How::Async || how == How::Thread) return std::async(std::launch::async, result);
	if (how == How::Ready || late)
	{
		std::promise<V> p;
		try { p.set_value(result()); }
		catch (...) { p.set_exception(std::current_exception()); }
		return p.get_future();
	}
	return result();
}

} // namespace gen
