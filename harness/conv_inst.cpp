// Instantiates the conversions for one base type: compiled with -DCONV_TYPE=... (see registry.py).
#include "conv.h"
#include <array>

using namespace graphql;
using response::Value;
using service::TypeModifier;
using CMod = client::TypeModifier;

namespace conv {
namespace {

constexpr TypeModifier N = TypeModifier::Nullable, L = TypeModifier::List;
template <TypeModifier... M> struct Mods {};
template <TypeModifier M> constexpr CMod cm = M == N ? CMod::Nullable : M == L ? CMod::List : CMod::None;

std::string hex(const std::vector<uint8_t>& b)
{
	std::string s;
	for (auto c : b) { char t[4]; std::snprintf(t, sizeof t, "%02x", c); s += t; }
	return s;
}
std::string num(double d)
{
	char t[64];
	std::snprintf(t, sizeof t, "%a", d);
	return t;
}

std::string leafText(const int& v) { return "i" + std::to_string(v); }
std::string leafText(const double& v) { return "f" + num(v); }
std::string leafText(const std::string& v) { return "s" + qq(v); }
std::string leafText(const bool& v) { return v ? "true" : "false"; }
std::string leafText(const std::vector<uint8_t>& v) { return "b" + hex(v); }
std::string leafText(const Value& v) { return "v" + show(v); }

// C++ values of a nesting -> text (vector<uint8_t> is a leaf type, so the modifiers decide).
template <class Leaf, class T> std::string text(const T& v, Mods<>) { return leafText(static_cast<const Leaf&>(v)); }
template <class Leaf, class T, TypeModifier... O> std::string text(const T& v, Mods<N, O...>)
{
	return v ? "some(" + text<Leaf>(*v, Mods<O...> {}) + ")" : "none";
}
template <class Leaf, class T, TypeModifier... O> std::string text(const T& v, Mods<L, O...>)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i)
	{
		if constexpr (std::is_same_v<T, std::vector<bool>>) s += text<Leaf>(static_cast<bool>(v[i]), Mods<O...> {}) + ",";
		else s += text<Leaf>(v[i], Mods<O...> {}) + ",";
	}
	return s + "]";
}

struct Holder : service::Object
{
	explicit Holder(int i)
		: service::Object({ "Holder" }, {
			  { "x", [i](service::ResolverParams&& p) { return service::ModifiedResult<response::IntType>::convert(response::IntType { i }, std::move(p)); } } })
	{
	}
};
struct Derived : Holder
{
	explicit Derived(int i)
		: Holder(i)
	{
	}
};
enum class Color { Red, Green, Blue };
const std::string_view colorNames[] = { "Red", "Green", "Blue" };

template <class T> T leafValue(int i);
template <> int leafValue<int>(int i) { static const int v[] = { 0, -41, 2147483647 }; return v[i % 3]; }
template <> double leafValue<double>(int i) { static const double v[] = { 0.5, -3.0, 1e-300 }; return v[i % 3]; }
template <> std::string leafValue<std::string>(int i) { static const std::string v[] = { "", std::string("a\n\0", 3), "QUJD" }; return v[i % 3]; }
template <> bool leafValue<bool>(int i) { return i % 2; }
template <> response::IdType leafValue<response::IdType>(int i)
{
	static const response::IdType v[] = { {}, { 0, 255, 0 }, { 1, 2, 3 } };
	return v[i % 3];
}
template <> Value leafValue<Value>(int i)
{
	if (i % 3 == 0) return Value(response::Type::Map);
	if (i % 3 == 1) return listOf({});
	return Value(2.5);
}
template <> Color leafValue<Color>(int i) { return static_cast<Color>(i % 3); }
template <> std::shared_ptr<Holder> leafValue<std::shared_ptr<Holder>>(int i) { return std::make_shared<Holder>(i); }
template <> std::shared_ptr<Derived> leafValue<std::shared_ptr<Derived>>(int i) { return std::make_shared<Derived>(i); }
template <> std::shared_ptr<service::Object> leafValue<std::shared_ptr<service::Object>>(int i) { return std::make_shared<Holder>(i); }

template <class V> void build(V& out, const Tree& t, Mods<>)
{
	if (t.kind == 1) out = leafValue<V>(t.leaf);
}
template <class V, TypeModifier... O> void build(V& out, const Tree& t, Mods<N, O...>)
{
	if (t.kind == 0) return;
	if constexpr (std::is_convertible_v<V, std::shared_ptr<service::Object>>) build(out, t, Mods<O...> {});
	else
	{
		out.emplace();
		build(*out, t, Mods<O...> {});
	}
}
template <class V, TypeModifier... O> void build(V& out, const Tree& t, Mods<L, O...>)
{
	for (auto& i : t.items)
	{
		typename V::value_type e {};
		build(e, i, Mods<O...> {});
		out.push_back(std::move(e));
	}
}

template <class T> std::string leafShown(int i)
{
	if constexpr (std::is_base_of_v<service::Object, T>) return "{x:i" + std::to_string(i) + ",}";
	else if constexpr (std::is_same_v<T, Color>) return "e\"" + std::string(colorNames[i % 3]) + "\"";
	else if constexpr (std::is_same_v<T, response::IdType>)
	{
		static const char* v[] = { "", "AP8A", "AQID" };
		return "s\"" + std::string(v[i % 3]) + "\"";
	}
	else if constexpr (std::is_same_v<T, Value>) return show(leafValue<Value>(i));
	else return leafText(leafValue<T>(i));
}

} // namespace
} // namespace conv

namespace graphql::service {
template <> std::future<ResolverResult> ModifiedResult<conv::Color>::convert(FieldResult<conv::Color>&& result, ResolverParams&& params)
{
	return resolve(std::move(result), std::move(params), [](conv::Color value, const ResolverParams&) {
		Value result(response::Type::EnumValue);
		result.set<response::StringType>(response::StringType { conv::colorNames[static_cast<size_t>(value)] });
		return result;
	});
}
}

namespace conv {
namespace {

template <class R, class V> R give(Give g, V&& v, std::thread& th)
{
	if (g == Give::Value) return R(std::move(v));
	if (g == Give::Deferred) return R(std::async(std::launch::deferred, [x = std::move(v)]() mutable { return std::move(x); }));
	auto p = std::make_shared<std::pair<std::promise<V>, V>>(std::promise<V> {}, std::move(v));
	auto f = p->first.get_future();
	std::function<void()> set = [p] { p->first.set_value(std::move(p->second)); };
	if (g == Give::Ready) set();
	else th = std::thread(std::move(set));
	return R(std::move(f));
}

template <class T, TypeModifier... M> struct Instance
{
	static Conversion require(const std::string& name, const Value& arguments)
	{
		Conversion c;
		try
		{
			auto r = service::ModifiedArgument<T>::template require<M...>(name, arguments);
			c.text = text<T>(r, Mods<M...> {});
			c.kind = 1;
		}
		catch (service::schema_exception& ex)
		{
			c.kind = 2;
			for (auto& e : ex.getStructuredErrors()) c.errors.push_back(e.message);
		}
		catch (const std::exception& ex)
		{
			c.kind = 3;
			c.errors.push_back(ex.what());
		}
		return c;
	}
	static bool find(const std::string& name, const Value& arguments, int overload, std::string& t)
	{
		if constexpr (sizeof...(M) == 0)
		{
			auto f = overload == 1 ? service::ModifiedArgument<T>::find(name, arguments)
				: overload == 2    ? service::ModifiedArgument<T>::template find<TypeModifier::None>(name, arguments)
								   : service::ModifiedArgument<T>::template find<>(name, arguments);
			t = text<T>(f.first, Mods<> {});
			return f.second;
		}
		else
		{
			auto f = service::ModifiedArgument<T>::template find<M...>(name, arguments);
			t = text<T>(f.first, Mods<M...> {});
			return f.second;
		}
	}
	static std::string defaultText()
	{
		typename service::ModifiedArgument<T>::template ArgumentTraits<T, M...>::type d {};
		return text<T>(d, Mods<M...> {});
	}
	static Rendered render(Env& e, const Tree& t, Give g, std::launch launch, bool withSub)
	{
		using V = typename service::ModifiedResult<T>::template ResultTraits<T, M...>::type;
		V v {};
		build(v, t, Mods<M...> {});
		std::thread th;
		Rendered r;
		try
		{
			using R = service::FieldResult<V>;
			auto res = service::ModifiedResult<T>::template convert<M...>(give<R>(g, std::move(v), th), e.params(withSub, launch)).get();
			r.errors = res.errors.size();
			r.data = std::move(res.data);
		}
		catch (service::schema_exception& ex)
		{
			r.thrown = "schema_exception";
			r.errors = ex.getStructuredErrors().size();
		}
		catch (const std::exception& ex)
		{
			r.thrown = ex.what();
		}
		if (th.joinable()) th.join();
		return r;
	}
	static std::string serialise(const Tree& t, Value& out)
	{
		using V = typename client::ModifiedVariable<T>::template VariableTraits<T, cm<M>...>::type;
		V v {};
		build(v, t, Mods<M...> {});
		auto s = text<T>(v, Mods<M...> {});
		if constexpr (sizeof...(M) == 0) out = client::ModifiedVariable<T>::serialize(std::move(v));
		else out = client::ModifiedVariable<T>::template serialize<cm<M>...>(std::move(v));
		return s;
	}
	static std::string parseBack(Value&& v)
	{
		return text<T>(client::ModifiedResponse<T>::template parse<cm<M>...>(std::move(v)), Mods<M...> {});
	}
};

// which: 1 arguments, 2 results, 4 the client
template <class T, int which, TypeModifier... M> void one(std::vector<Inst>& out, Base b)
{
	using I = Instance<T, M...>;
	Inst i;
	i.base = b;
	((i.mods += M == N ? 'N' : 'L'), ...);
	if (i.mods.empty()) i.mods = "-";
	i.list = { (M == N)... };
	i.leafShown = &leafShown<T>;
	if constexpr (which & 1)
	{
		i.require = &I::require;
		i.find = &I::find;
		i.defaultText = &I::defaultText;
	}
	if constexpr (which & 2) i.render = &I::render;
	if constexpr (which & 4)
	{
		i.serialise = &I::serialise;
		i.parseBack = &I::parseBack;
	}
	out.push_back(std::move(i));
}

template <class T, int W> void all(std::vector<Inst>& o, Base b)
{
	one<T, W>(o, b);
	one<T, W, N>(o, b); one<T, W, L>(o, b);
	one<T, W, N, L>(o, b); one<T, W, L, N>(o, b); one<T, W, L, L>(o, b);
	one<T, W, N, L, N>(o, b); one<T, W, N, L, L>(o, b); one<T, W, L, N, L>(o, b); one<T, W, L, L, N>(o, b); one<T, W, L, L, L>(o, b);
	// Beyond three modifiers results are instantiated for the longest chain only: each one is a suffix of it or of another.
	constexpr int V = W & 5;
	one<T, W, N, L, N, L, N>(o, b);
	one<T, W, L, L, L, N>(o, b);
	if constexpr (V)
	{
		one<T, V, N, L, N, L>(o, b); one<T, V, N, L, L, N>(o, b); one<T, V, N, L, L, L>(o, b); one<T, V, L, N, L, N>(o, b);
		one<T, V, L, N, L, L>(o, b); one<T, V, L, L, N, L>(o, b); one<T, V, L, L, L, L>(o, b);
	}
}

} // namespace

#define INT 1
#define FLOAT 2
#define STRING 3
#define BOOLEAN 4
#define ID 5
#define SCALAR 6
#define ENUM 7
#define OBJECT 8
#define DERIVED 9
#define INTERFACE 10
#if CONV_TYPE == INT
void addInt(std::vector<Inst>& o) { all<response::IntType, 7>(o, Base::Int); }
#elif CONV_TYPE == FLOAT
void addFloat(std::vector<Inst>& o) { all<response::FloatType, 7>(o, Base::Float); }
#elif CONV_TYPE == STRING
void addString(std::vector<Inst>& o) { all<response::StringType, 7>(o, Base::String); }
#elif CONV_TYPE == BOOLEAN
void addBoolean(std::vector<Inst>& o) { all<response::BooleanType, 7>(o, Base::Boolean); }
#elif CONV_TYPE == ID
void addId(std::vector<Inst>& o) { all<response::IdType, 7>(o, Base::Id); }
#elif CONV_TYPE == SCALAR
void addScalar(std::vector<Inst>& o) { all<Value, 7>(o, Base::Scalar); }
#elif CONV_TYPE == ENUM
void addEnum(std::vector<Inst>& o) { all<Color, 2>(o, Base::Enum); }
#elif CONV_TYPE == OBJECT
void addObject(std::vector<Inst>& o) { all<Holder, 2>(o, Base::Object); }
#elif CONV_TYPE == DERIVED
void addDerived(std::vector<Inst>& o) { all<Derived, 2>(o, Base::Derived); }
#elif CONV_TYPE == INTERFACE
void addInterface(std::vector<Inst>& o)
{
	one<service::Object, 2>(o, Base::Interface);
	one<service::Object, 2, N>(o, Base::Interface);
	one<service::Object, 2, L>(o, Base::Interface);
	one<service::Object, 2, L, N>(o, Base::Interface);
	one<service::Object, 2, N, L, N>(o, Base::Interface);
	one<service::Object, 2, L, L, N>(o, Base::Interface);
}
#endif

} // namespace conv
