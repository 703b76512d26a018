// The conversions of GraphQLService.h and GraphQLClient.h behind plain functions, one table entry per base type and nesting of
// modifiers (conv_inst.cpp instantiates them, one base type per object file), and the trees they are fed with.
#pragma once
#include "graphqlservice/GraphQLClient.h"
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/internal/Grammar.h"
#include <cstdio>
#include <functional>
#include <future>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

namespace conv {

using namespace graphql;
using response::Value;

std::string show(const Value& v);
std::string qq(std::string_view s);
Value str(const char* s);
Value listOf(std::vector<Value> items);

enum class Base { Int, Float, String, Boolean, Id, Scalar, Enum, Object, Derived, Interface };

// A result tree: empty, a leaf (index), or a list.
struct Tree
{
	int kind = 0; // 0 empty, 1 leaf, 2 list
	int leaf = 0;
	std::vector<Tree> items;
	std::string str() const
	{
		if (kind == 0) return "null";
		if (kind == 1) return std::to_string(leaf);
		std::string s = "[";
		for (auto& i : items) s += i.str() + ",";
		return s + "]";
	}
};

enum class Give { Value, Ready, Deferred, Async };

struct Conversion
{
	int kind = 0; // 1 value, 2 schema_exception, 3 another exception
	std::string text;
	std::vector<std::string> errors;
};

struct Rendered
{
	Value data;
	size_t errors = 0;
	std::string thrown;
};

struct Env
{
	peg::ast plain = peg::parseString("{f}"), sub = peg::parseString("{f{x}}");
	service::FragmentMap fragments;
	Value variables { response::Type::Map }, directives { response::Type::Map };
	std::shared_ptr<service::RequestState> state;
	const peg::ast_node* selection(peg::ast& a)
	{
		for (auto& ch : find<peg::field>(*a.root)->children)
			if (ch->is_type<peg::selection_set>()) return ch.get();
		return nullptr;
	}
	template <class R> const peg::ast_node* find(const peg::ast_node& n)
	{
		if (n.is_root() == false && n.is_type<R>()) return &n;
		for (auto& ch : n.children)
			if (auto* r = find<R>(*ch)) return r;
		return nullptr;
	}
	service::ResolverParams params(bool withSub, std::launch launch)
	{
		service::SelectionSetParams s { service::ResolverContext::Query, state, directives, directives, directives, directives,
			std::make_optional(service::field_path { std::nullopt, service::path_segment { std::string_view("f") } }), launch };
		auto& a = withSub ? sub : plain;
		return service::ResolverParams(s, *find<peg::field>(*a.root), std::string("f"), Value(response::Type::Map), Value(response::Type::Map), selection(a), fragments, variables);
	}
};

struct Inst
{
	Base base;
	std::string mods;
	std::vector<bool> list; // true: nullable, false: list
	Conversion (*require)(const std::string& name, const Value& arguments) = nullptr;
	// overload: 0 with the modifiers, 1 without any, 2 with an explicit None (1 and 2 only without modifiers)
	bool (*find)(const std::string& name, const Value& arguments, int overload, std::string& text) = nullptr;
	std::string (*defaultText)() = nullptr;
	Rendered (*render)(Env& e, const Tree& t, Give g, std::launch launch, bool withSub) = nullptr;
	std::string (*serialise)(const Tree& t, Value& out) = nullptr;
	std::string (*parseBack)(Value&& v) = nullptr;
	std::string (*leafShown)(int leaf) = nullptr;
};

void addInt(std::vector<Inst>&);
void addFloat(std::vector<Inst>&);
void addString(std::vector<Inst>&);
void addBoolean(std::vector<Inst>&);
void addId(std::vector<Inst>&);
void addScalar(std::vector<Inst>&);
void addEnum(std::vector<Inst>&);
void addObject(std::vector<Inst>&);
void addDerived(std::vector<Inst>&);
void addInterface(std::vector<Inst>&);

} // namespace conv
