// What the drivers of the generated clients share.
#pragma once
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLResponse.h"
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>

namespace cli {

// A value as data: for variables and responses.
struct Node
{
	enum K { Null, Int, Float, Str, Bool, Id, Enum, List, Obj } k = Null;
	long long n = 0;
	double f = 0;
	std::string s;
	std::vector<Node> list;
	std::vector<std::pair<std::string, Node>> obj;
	const Node* find(const std::string& key) const
	{
		for (auto& m : obj)
			if (m.first == key) return &m.second;
		return nullptr;
	}
	const Node& at(const std::string& key) const { return *find(key); }
};

std::string quoted(const std::string& s);
std::string number(double d);
std::string anyText(const graphql::response::Value& v); // of a custom scalar
graphql::response::Value toValue(const Node& n);

template <class T> struct Show;
template <class T> std::string show(const T& v) { return Show<T>::of(v); }
template <> struct Show<int> { static std::string of(int v) { return "I" + std::to_string(v); } };
template <> struct Show<double> { static std::string of(double v) { return number(v); } };
template <> struct Show<std::string> { static std::string of(const std::string& v) { return "S" + quoted(v); } };
template <> struct Show<bool> { static std::string of(bool v) { return v ? "true" : "false"; } };
template <> struct Show<graphql::response::IdType> { static std::string of(const graphql::response::IdType& v) { return "ID" + quoted(std::string(v.begin(), v.end())); } };
template <> struct Show<graphql::response::Value> { static std::string of(const graphql::response::Value& v) { return anyText(v); } };
template <class T> struct Show<std::optional<T>> { static std::string of(const std::optional<T>& v) { return v ? show(*v) : "null"; } };
template <class T> struct Show<std::vector<T>>
{
	static std::string of(const std::vector<T>& v)
	{
		std::string o = "[";
		for (auto&& x : v) o += show<T>(x) + ",";
		return o + "]";
	}
};

template <class T> struct Fill;
template <> struct Fill<int> { static int of(const Node& d) { return static_cast<int>(d.n); } };
template <> struct Fill<double> { static double of(const Node& d) { return d.f; } };
template <> struct Fill<std::string> { static std::string of(const Node& d) { return d.s; } };
template <> struct Fill<bool> { static bool of(const Node& d) { return d.n != 0; } };
template <> struct Fill<graphql::response::IdType> { static graphql::response::IdType of(const Node& d) { return { d.s.begin(), d.s.end() }; } };
template <> struct Fill<graphql::response::Value> { static graphql::response::Value of(const Node& d) { return toValue(d); } };
template <class T> struct Fill<std::optional<T>>
{
	static std::optional<T> of(const Node& d)
	{
		if (d.k == Node::Null) return std::nullopt;
		return std::optional<T>(Fill<T>::of(d));
	}
};
template <class T> struct Fill<std::vector<T>>
{
	static std::vector<T> of(const Node& d)
	{
		std::vector<T> v;
		for (auto& x : d.list) v.push_back(Fill<T>::of(x));
		return v;
	}
};

// The type without lists and optionals. The bytes of an ID are no list.
template <class T> struct BareOf { using type = T; };
template <class T> struct BareOf<std::optional<T>> : BareOf<T> {};
template <class T> struct BareOf<std::vector<T>> : BareOf<T> {};
template <> struct BareOf<graphql::response::IdType> { using type = graphql::response::IdType; };
template <class T> using Bare = typename BareOf<T>::type;

struct Program
{
	std::string name, sdl, request, op;
	bool noIntrospection;
	std::function<graphql::response::Value(const Node&)> serialize; // none: no variables
	std::function<std::string(graphql::response::Value&&)> parse;
	const std::string& (*text)() noexcept;
	const graphql::peg::ast& (*object)() noexcept;
};
std::vector<Program>& programs();
struct Register
{
	explicit Register(Program&& p) { programs().push_back(std::move(p)); }
};

} // namespace cli
