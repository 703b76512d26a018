// What a client for a request must hold: the response's members and the variables, from the reference reader's documents.
#pragma once
#include "ref_validate.h"

namespace ref {

// The C++ name of a name: no two underscores in a row, none before a capital at the beginning.
inline std::string cppName(const std::string& n)
{
	std::string o;
	for (char c : n)
		if (!(c == '_' && !o.empty() && o.back() == '_')) o += c;
	if (o.size() > 1 && o[0] == '_' && o[1] >= 'A' && o[1] <= 'Z') o = o.substr(1);
	return o;
}

using Part = std::pair<const std::vector<Sel>*, const TypeDef*>; // a selection set and the type it applies to

// A member of the response: every field with its key anywhere in the selection sets of its parent.
struct Member
{
	std::string key;
	TypeP type;
	std::vector<Part> parts;
	std::vector<Member> members;
	std::string leaf() const { return type->leaf(); }
};

struct Request
{
	const Schema& S;
	const Doc& D;
	const Op* op = nullptr;
	std::map<std::string, const Frag*> frags;

	Request(const Schema& s, const Doc& d, const std::string& name) : S(s), D(d)
	{
		for (auto& o : D.ops)
			if (!op && (name.empty() || o.name == name)) op = &o;
		for (auto& f : D.frags) frags.emplace(f.name, &f);
	}
	const TypeDef* root() const { return op && !S.root(op->type).empty() ? S.type(S.root(op->type)) : nullptr; }

	std::vector<Member> members() const { return members({ { &op->sels, root() } }); }
	std::vector<Member> members(const std::vector<Part>& parts) const
	{
		std::vector<Member> out;
		for (auto& p : parts) collect(*p.first, p.second, out);
		for (auto& m : out)
			if (!m.parts.empty()) m.members = members(m.parts);
		return out;
	}
	static TypeP named(const std::string& n, bool nonNull = false)
	{
		auto t = std::make_shared<Type>();
		t->name = n;
		if (!nonNull) return t;
		auto o = std::make_shared<Type>();
		o->k = Type::NonNull;
		o->of = t;
		return o;
	}
	TypeP fieldType(const TypeDef* parent, const std::string& n) const
	{
		if (n == "__typename") return named("String", true);
		if (n == "__schema") return named("__Schema"); // an optional in the client, although there always is one
		return S.field(parent, n)->type;
	}

private:
	void collect(const std::vector<Sel>& sels, const TypeDef* parent, std::vector<Member>& out) const
	{
		for (auto& s : sels)
			if (s.k == Sel::Field)
			{
				Member* m = nullptr;
				for (auto& x : out)
					if (x.key == s.key()) m = &x;
				auto t = fieldType(parent, s.name);
				if (!m)
				{
					out.emplace_back();
					m = &out.back();
					m->key = s.key();
					m->type = t;
				}
				if (s.hasSels) m->parts.emplace_back(&s.sels, S.type(t->leaf()));
			}
			else if (s.k == Sel::Inline) collect(s.sels, s.cond.empty() ? parent : S.type(s.cond), out);
			else collect(frags.at(s.name)->sels, S.type(frags.at(s.name)->cond), out);
	}
};

// The enums and input objects which a type brings along, those it needs first.
inline void needed(const Schema& S, const std::string& t, std::vector<const TypeDef*>& out)
{
	auto* d = S.type(t);
	if (d->k != TypeDef::Enum && d->k != TypeDef::Input) return;
	for (auto* x : out)
		if (x == d) return;
	static std::set<const TypeDef*> open;
	if (!open.insert(d).second) return;
	for (auto& i : d->inputs) needed(S, i.type->leaf(), out);
	open.erase(d);
	out.push_back(d);
}
inline void needed(const Schema& S, const std::vector<Member>& ms, std::vector<const TypeDef*>& out)
{
	for (auto& m : ms)
		if (m.parts.empty()) needed(S, m.leaf(), out);
		else needed(S, m.members, out);
}

} // namespace ref
