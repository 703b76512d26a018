// Reference validator: the June 2018 validation rules (section 5), written from the specification.
// Deviations of the implementation which are recorded as known findings are switchable "quirks".
#pragma once
#include "ref_ast.h"
#include <algorithm>

namespace ref {

inline const char* builtinSDL()
{
	return R"(
scalar Int scalar Float scalar String scalar Boolean scalar ID
directive @skip(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @include(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @deprecated(reason: String = "No longer supported") on FIELD_DEFINITION | ENUM_VALUE
type __Schema { types: [__Type!]! queryType: __Type! mutationType: __Type subscriptionType: __Type directives: [__Directive!]! }
type __Type { kind: __TypeKind! name: String description: String fields(includeDeprecated: Boolean = false): [__Field!]
 interfaces: [__Type!] possibleTypes: [__Type!] enumValues(includeDeprecated: Boolean = false): [__EnumValue!]
 inputFields: [__InputValue!] ofType: __Type }
type __Field { name: String! description: String args: [__InputValue!]! type: __Type! isDeprecated: Boolean! deprecationReason: String }
type __InputValue { name: String! description: String type: __Type! defaultValue: String }
type __EnumValue { name: String! description: String isDeprecated: Boolean! deprecationReason: String }
enum __TypeKind { SCALAR OBJECT INTERFACE UNION ENUM INPUT_OBJECT LIST NON_NULL }
type __Directive { name: String! description: String locations: [__DirectiveLocation!]! args: [__InputValue!]! }
enum __DirectiveLocation { QUERY MUTATION SUBSCRIPTION FIELD FRAGMENT_DEFINITION FRAGMENT_SPREAD INLINE_FRAGMENT
 SCHEMA SCALAR OBJECT FIELD_DEFINITION ARGUMENT_DEFINITION INTERFACE UNION ENUM ENUM_VALUE INPUT_OBJECT INPUT_FIELD_DEFINITION }
)";
}

inline TypeP named(const std::string& n) { auto t = std::make_shared<Type>(); t->name = n; return t; }
inline TypeP nonNull(TypeP of) { auto t = std::make_shared<Type>(); t->k = Type::NonNull; t->of = of; return t; }
inline TypeP listOf(TypeP of) { auto t = std::make_shared<Type>(); t->k = Type::List; t->of = of; return t; }

struct Schema
{
	Parsed own, builtin;
	std::map<std::string, const TypeDef*> types, dirs;
	std::string query, mutation, subscription;
	bool introspection = true;
	FieldDef fTypename, fSchema, fType;

	explicit Schema(const std::string& sdl, bool withIntrospection = true)
		: own(parse(sdl)), builtin(parse(builtinSDL())), introspection(withIntrospection)
	{
		if (!own.ok || !builtin.ok) { std::fprintf(stderr, "bad SDL\n"); std::abort(); }
		auto has = [&](const char* n) { for (auto& t : own.doc.types) if (t.k == TypeDef::Object && t.name == n) return true; return false; };
		bool any = false;
		for (auto* d : { &builtin.doc, &own.doc })
			for (auto& t : d->types)
			{
				if (t.k == TypeDef::Schema)
				{
					any = true;
					for (auto& o : t.ops) (o.first == "query" ? query : o.first == "mutation" ? mutation : subscription) = o.second;
				}
				else if (t.k == TypeDef::Directive) dirs[t.name] = &t;
				else types[t.name] = &t;
			}
		if (!any)
		{
			if (has("Query")) query = "Query";
			if (has("Mutation")) mutation = "Mutation";
			if (has("Subscription")) subscription = "Subscription";
		}
		fTypename.name = "__typename";
		fTypename.type = nonNull(named("String"));
		fSchema.name = "__schema";
		fSchema.type = nonNull(named("__Schema"));
		fType.name = "__type";
		fType.type = named("__Type");
		InputDef a;
		a.name = "name";
		a.type = nonNull(named("String"));
		fType.args.push_back(a);
	}
	const TypeDef* type(const std::string& n) const { auto i = types.find(n); return i == types.end() ? nullptr : i->second; }
	static bool composite(const TypeDef* t) { return t && (t->k == TypeDef::Object || t->k == TypeDef::Interface || t->k == TypeDef::Union); }
	static bool input(const TypeDef* t) { return t && (t->k == TypeDef::Scalar || t->k == TypeDef::Enum || t->k == TypeDef::Input); }
	std::set<std::string> possible(const TypeDef* t) const
	{
		std::set<std::string> r;
		if (t->k == TypeDef::Object) r.insert(t->name);
		else if (t->k == TypeDef::Union) r.insert(t->members.begin(), t->members.end());
		else if (t->k == TypeDef::Interface)
			for (auto& d : own.doc.types)
				if (d.k == TypeDef::Object && std::find(d.implements.begin(), d.implements.end(), t->name) != d.implements.end()) r.insert(d.name);
		return r;
	}
	const FieldDef* field(const TypeDef* t, const std::string& n) const
	{
		if (n == "__typename") return &fTypename;
		if (t->k == TypeDef::Object || t->k == TypeDef::Interface)
			for (auto& f : t->fields) if (f.name == n) return &f;
		if (introspection && t->name == query)
		{
			if (n == "__schema") return &fSchema;
			if (n == "__type") return &fType;
		}
		return nullptr;
	}
	const std::string& root(const std::string& op) const { return op == "query" ? query : op == "mutation" ? mutation : subscription; }
};

struct Quirks
{
	bool merge = false;		 // field merging is decided by the first occurrence of a response key
	bool nullDefault = false; // null is accepted for a non-null input with a default
	bool noListCoercion = false; // a single value is not accepted where a list is expected
	bool scalarVars = false; // variables inside custom scalar literals are not seen
	bool fragDirVars = false; // variables in directives on fragment definitions are not seen
	static constexpr int N = 5;
	static const char* name(int i)
	{
		static const char* n[] = { "field-merging", "null-for-defaulted-non-null", "single-value-for-list", "variable-in-custom-scalar", "fragment-definition-directive-variable" };
		return n[i];
	}
	static Quirks bits(unsigned b) { return { bool(b & 1), bool(b & 2), bool(b & 4), bool(b & 8), bool(b & 16) }; }
};

class Validator
{
public:
	Validator(const Schema& s, const Doc& d, Quirks q = {}) : S(s), D(d), Q(q) {}
	std::set<std::string> errors; // names of the rules which are broken
	bool ambiguous = false;		  // the verdict depends on something the specification leaves open
	bool b64 = true;			  // ID literals are Base64 strings in this library

	bool run()
	{
		if (!D.types.empty()) err("ExecutableDefinitions");
		std::map<std::string, int> names;
		int anon = 0;
		for (auto& o : D.ops)
			if (o.name.empty()) ++anon;
			else if (names[o.name]++) err("OperationNameUniqueness");
		if (anon && D.ops.size() > 1) err("LoneAnonymousOperation");
		for (auto& f : D.frags)
			if (!frags.emplace(f.name, &f).second) err("FragmentNameUniqueness");
		for (auto& f : D.frags) fragment(f);
		for (auto& o : D.ops) operation(o);
		for (auto& f : frags)
			if (!used.count(f.first)) err("FragmentsMustBeUsed");
		return errors.empty();
	}

private:
	const Schema& S;
	const Doc& D;
	Quirks Q;
	std::map<std::string, const Frag*> frags;
	std::set<std::string> used;
	// current operation, or none while visiting a fragment definition on its own
	const Op* op = nullptr;
	std::set<std::string> varsUsed;
	std::vector<std::string> stack;

	void err(const char* r) { errors.insert(r); }

	struct Seen // quirk "merge": what the implementation remembers of a response key
	{
		std::string type;
		const TypeDef* object;
		const Sel* sel;
	};
	using SeenMap = std::map<std::string, Seen>;

	static bool sameVal(const Val& a, const Val& b, bool& amb)
	{
		if (a.k != b.k) return false;
		switch (a.k)
		{
			case Val::Null: return true;
			case Val::List:
				if (a.list.size() != b.list.size()) return false;
				for (size_t i = 0; i < a.list.size(); ++i) if (!sameVal(a.list[i], b.list[i], amb)) return false;
				return true;
			case Val::Obj:
			{
				if (a.obj.size() != b.obj.size()) return false;
				for (size_t i = 0; i < a.obj.size(); ++i)
				{
					if (a.obj[i].first != b.obj[i].first) amb = true;
					bool f = false;
					for (auto& x : b.obj) if (x.first == a.obj[i].first) f = sameVal(a.obj[i].second, x.second, amb);
					if (!f) return false;
				}
				return true;
			}
			default:
				if (a.text != b.text)
				{
					// 1.0 and 1.00, "a" and """a""": equal values in different spelling
					if (a.k == Val::Int || a.k == Val::Float) { if (std::atof(a.text.c_str()) == std::atof(b.text.c_str())) amb = true; }
					return false;
				}
				if (a.k == Val::Str && a.block != b.block) amb = true;
				return true;
		}
	}
	bool sameArgs(const Sel& a, const Sel& b)
	{
		if (a.args.size() != b.args.size()) return false;
		for (auto& x : a.args)
		{
			bool f = false;
			for (auto& y : b.args) if (x.name == y.name) f = sameVal(x.val, y.val, ambiguous);
			if (!f) return false;
		}
		return true;
	}

	void fragment(const Frag& f)
	{
		dirs(f.dirs, "FRAGMENT_DEFINITION", Q.fragDirVars);
		auto* t = S.type(f.cond);
		if (!t) { err("FragmentSpreadTypeExistence"); return; }
		if (!S.composite(t)) { err("FragmentsOnCompositeTypes"); return; }
		stack = { f.name };
		SeenMap seen;
		selections(f.sels, t, seen);
		if (!Q.merge) mergeCheck(f.sels, t);
		stack.clear();
	}

	void operation(const Op& o)
	{
		op = &o;
		varsUsed.clear();
		std::set<std::string> names;
		for (auto& v : o.vars)
		{
			if (!names.insert(v.name).second) err("VariableUniqueness");
			auto* t = S.type(v.type->leaf());
			if (!S.input(t)) { err("VariablesAreInputTypes"); continue; }
			if (v.def) value(*v.def, *v.type, false);
		}
		dirs(o.dirs, o.type == "query" ? "QUERY" : o.type == "mutation" ? "MUTATION" : "SUBSCRIPTION", false);
		auto& rootName = S.root(o.type);
		auto* root = rootName.empty() ? nullptr : S.type(rootName);
		if (!root) err("UnsupportedOperation");
		else
		{
			SeenMap seen;
			selections(o.sels, root, seen);
			if (!Q.merge) mergeCheck(o.sels, root);
			if (o.type == "subscription")
			{
				// 5.2.3.1: exactly one response key at the root, after collecting fields
				std::set<std::string> keys;
				std::set<std::string> visited;
				rootKeys(o.sels, keys, visited);
				if (keys.size() > 1) err("SingleRootField");
			}
		}
		// variables used, including transitively through fragments
		for (auto& v : o.vars)
			if (!varsUsed.count(v.name)) err("AllVariablesUsed");
		op = nullptr;
	}

	void rootKeys(const std::vector<Sel>& sels, std::set<std::string>& keys, std::set<std::string>& visited)
	{
		for (auto& s : sels)
			if (s.k == Sel::Field) keys.insert(s.key());
			else if (s.k == Sel::Inline) rootKeys(s.sels, keys, visited);
			else if (visited.insert(s.name).second)
			{
				auto f = frags.find(s.name);
				if (f != frags.end()) rootKeys(f->second->sels, keys, visited);
			}
	}

	bool overlap(const TypeDef* a, const TypeDef* b)
	{
		auto x = S.possible(a), y = S.possible(b);
		for (auto& n : x) if (y.count(n)) return true;
		return a == b;
	}

	void selections(const std::vector<Sel>& sels, const TypeDef* parent, SeenMap& seen)
	{
		for (auto& s : sels)
			if (s.k == Sel::Field) field(s, parent, seen);
			else if (s.k == Sel::Inline)
			{
				dirs(s.dirs, "INLINE_FRAGMENT", false);
				auto* t = parent;
				if (!s.cond.empty())
				{
					t = S.type(s.cond);
					if (!t) { err("FragmentSpreadTypeExistence"); continue; }
					if (!S.composite(t)) { err("FragmentsOnCompositeTypes"); continue; }
					if (!overlap(parent, t)) { err("FragmentSpreadIsPossible"); continue; }
				}
				selections(s.sels, t, seen);
			}
			else
			{
				dirs(s.dirs, "FRAGMENT_SPREAD", false);
				auto f = frags.find(s.name);
				if (f == frags.end()) { err("FragmentSpreadTargetDefined"); continue; }
				used.insert(s.name);
				if (std::find(stack.begin(), stack.end(), s.name) != stack.end()) { err("FragmentSpreadsMustNotFormCycles"); continue; }
				auto* t = S.type(f->second->cond);
				if (!S.composite(t)) { err("FragmentsOnCompositeTypes"); continue; }
				if (!overlap(parent, t)) { err("FragmentSpreadIsPossible"); continue; }
				if (op && !Q.fragDirVars) dirs(f->second->dirs, "FRAGMENT_DEFINITION", false);
				stack.push_back(s.name);
				selections(f->second->sels, t, seen);
				stack.pop_back();
			}
	}

	void field(const Sel& s, const TypeDef* parent, SeenMap& seen)
	{
		dirs(s.dirs, "FIELD", false);
		auto* f = S.field(parent, s.name);
		if (!f) { err("FieldSelections"); return; }
		auto* t = S.type(f->type->leaf());
		if (Q.merge)
		{
			// an argument which occurs twice counts once
			Seen me { f->type->str(), parent->k == TypeDef::Object ? parent : nullptr, &s };
			auto i = seen.find(s.key());
			if (i != seen.end())
			{
				bool amb = false;
				bool same = i->second.type == me.type
					&& ((i->second.object && me.object && i->second.object != me.object) || (i->second.sel->name == s.name && sameArgs(*i->second.sel, s)));
				(void)amb;
				if (same)
				{
					argUniqueness(s.args); // seen before the comparison
					for (auto& a : s.args) objectUniqueness(a.val);
					return;
				}
				err("FieldSelectionMerging");
			}
			else seen.emplace(s.key(), me);
		}
		args(s.args, f->args);
		if (S.composite(t))
		{
			if (!s.hasSels) { err("LeafFieldSelections"); return; }
			SeenMap inner;
			selections(s.sels, t, inner);
		}
		else if (s.hasSels) err("LeafFieldSelections");
	}

	void argUniqueness(const std::vector<Arg>& as)
	{
		std::set<std::string> names;
		for (auto& a : as) if (!names.insert(a.name).second) err("ArgumentUniqueness");
	}
	void objectUniqueness(const Val& v)
	{
		if (v.k == Val::List) for (auto& x : v.list) objectUniqueness(x);
		if (v.k == Val::Obj)
		{
			std::set<std::string> names;
			for (auto& x : v.obj)
			{
				if (!names.insert(x.first).second) err("InputObjectFieldUniqueness");
				objectUniqueness(x.second);
			}
		}
	}

	void args(const std::vector<Arg>& as, const std::vector<InputDef>& defs)
	{
		argUniqueness(as);
		for (auto& a : as)
		{
			auto d = std::find_if(defs.begin(), defs.end(), [&](auto& x) { return x.name == a.name; });
			if (d == defs.end()) { err("ArgumentNames"); objectUniqueness(a.val); continue; }
			if (Q.nullDefault && a.val.k == Val::Null && d->def) continue;
			value(a.val, *d->type, d->def.has_value());
		}
		for (auto& d : defs)
			if (d.type->k == Type::NonNull && !d.def)
			{
				auto a = std::find_if(as.begin(), as.end(), [&](auto& x) { return x.name == d.name; });
				if (a == as.end()) err("RequiredArguments");
			}
	}

	void dirs(const std::vector<Dir>& ds, const char* location, bool blind)
	{
		std::set<std::string> names;
		for (auto& d : ds)
		{
			if (!names.insert(d.name).second) err("DirectivesAreUniquePerLocation");
			auto i = S.dirs.find(d.name);
			if (i == S.dirs.end()) { err("DirectivesAreDefined"); continue; }
			auto& l = i->second->locations;
			if (std::find(l.begin(), l.end(), location) == l.end()) err("DirectivesAreInValidLocations");
			auto* o = op;
			if (blind) op = nullptr;
			args(d.args, i->second->inputs);
			op = o;
		}
	}

	const VarDef* var(const std::string& n)
	{
		for (auto& v : op->vars) if (v.name == n) return &v;
		return nullptr;
	}

	static bool base64(const std::string& s)
	{
		size_t n = 0, pad = 0;
		for (char c : s)
		{
			if (c == '=') { ++pad; continue; }
			if (pad) return false;
			if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/')) return false;
			++n;
		}
		if (n % 4 == 1) return false;
		if (pad) return (n + pad) % 4 == 0 && pad <= 2;
		return true; // the final quantum may be left unpadded
	}

	// locDefault: the location (argument or input field) has a default value
	void value(const Val& v, const Type& t, bool locDefault)
	{
		if (v.k == Val::Var)
		{
			if (!op) return; // judged where an operation uses the fragment
			auto* d = var(v.text);
			if (!d) { err("AllVariableUsesDefined"); return; }
			varsUsed.insert(v.text);
			if (!S.input(S.type(d->type->leaf()))) return; // already an error
			if (!usageAllowed(*d, t, locDefault)) err("AllVariableUsagesAreAllowed");
			return;
		}
		if (t.k == Type::NonNull)
		{
			if (v.k == Val::Null) { err("ValuesOfCorrectType"); return; }
			value(v, *t.of, false);
			return;
		}
		if (v.k == Val::Null) return;
		if (t.k == Type::List)
		{
			if (v.k == Val::List) { for (auto& x : v.list) value(x, *t.of, false); return; }
			if (Q.noListCoercion) { err("ValuesOfCorrectType"); objectUniqueness(v); return; }
			value(v, *t.of, false);
			return;
		}
		auto* d = S.type(t.name);
		bool ok = true;
		if (d->k == TypeDef::Enum)
		{
			ok = v.k == Val::Enum && std::any_of(d->values.begin(), d->values.end(), [&](auto& e) { return e.name == v.text; });
		}
		else if (d->k == TypeDef::Scalar)
		{
			if (t.name == "Int") ok = v.k == Val::Int && fits(v.text);
			else if (t.name == "Float") ok = v.k == Val::Int || v.k == Val::Float;
			else if (t.name == "String") ok = v.k == Val::Str;
			else if (t.name == "Boolean") ok = v.k == Val::Bool;
			else if (t.name == "ID") ok = v.k == Val::Str && (!b64 || base64(v.text));
			else { objectUniqueness(v); customVars(v); return; }
		}
		else // input object
		{
			if (v.k != Val::Obj) { err("ValuesOfCorrectType"); objectUniqueness(v); return; }
			std::set<std::string> names;
			for (auto& x : v.obj)
			{
				if (!names.insert(x.first).second) err("InputObjectFieldUniqueness");
				auto f = std::find_if(d->inputs.begin(), d->inputs.end(), [&](auto& y) { return y.name == x.first; });
				if (f == d->inputs.end()) { err("InputObjectFieldNames"); objectUniqueness(x.second); continue; }
				if (Q.nullDefault && x.second.k == Val::Null && f->def) continue;
				value(x.second, *f->type, f->def.has_value());
			}
			for (auto& f : d->inputs)
				if (f.type->k == Type::NonNull && !f.def && !names.count(f.name)) err("InputObjectRequiredFields");
			return;
		}
		if (!ok) { err("ValuesOfCorrectType"); objectUniqueness(v); }
	}
	static bool fits(const std::string& s)
	{
		if (s.size() > 11) return false;
		long long x = std::atoll(s.c_str());
		return x >= -2147483648ll && x <= 2147483647ll;
	}
	void customVars(const Val& v)
	{
		if (v.k == Val::Var && op && !Q.scalarVars)
		{
			if (!var(v.text)) err("AllVariableUsesDefined");
			else varsUsed.insert(v.text);
		}
		for (auto& x : v.list) customVars(x);
		for (auto& x : v.obj) customVars(x.second);
	}

	// 5.8.5 IsVariableUsageAllowed
	bool usageAllowed(const VarDef& v, const Type& loc, bool locDefault)
	{
		if (loc.k == Type::NonNull && v.type->k != Type::NonNull)
		{
			bool nonNullDefault = v.def && v.def->k != Val::Null;
			if (!nonNullDefault && !locDefault) return false;
			return compatible(*v.type, *loc.of);
		}
		return compatible(*v.type, loc);
	}
	static bool compatible(const Type& v, const Type& loc)
	{
		if (loc.k == Type::NonNull) return v.k == Type::NonNull && compatible(*v.of, *loc.of);
		if (v.k == Type::NonNull) return compatible(*v.of, loc);
		if (loc.k == Type::List) return v.k == Type::List && compatible(*v.of, *loc.of);
		if (v.k == Type::List) return false;
		return v.name == loc.name;
	}

	// 5.3.2 Field Selection Merging
	struct Entry
	{
		const Sel* sel;
		const TypeDef* parent;
	};
	void collect(const std::vector<Sel>& sels, const TypeDef* parent, std::map<std::string, std::vector<Entry>>& out, std::set<std::string>& visited)
	{
		for (auto& s : sels)
			if (s.k == Sel::Field) out[s.key()].push_back({ &s, parent });
			else if (s.k == Sel::Inline)
			{
				auto* t = s.cond.empty() ? parent : S.type(s.cond);
				if (S.composite(t)) collect(s.sels, t, out, visited);
			}
			else
			{
				auto f = frags.find(s.name);
				if (f == frags.end() || !visited.insert(s.name).second) continue;
				auto* t = S.type(f->second->cond);
				if (S.composite(t)) collect(f->second->sels, t, out, visited);
			}
	}
	void mergeCheck(const std::vector<Sel>& sels, const TypeDef* parent)
	{
		if (!errors.empty()) return; // the rest of the document has to make sense first
		std::map<std::string, std::vector<Entry>> set;
		std::set<std::string> visited;
		collect(sels, parent, set, visited);
		if (!canMerge(set, 0)) err("FieldSelectionMerging");
		// every selection set within, on its own
		for (auto& k : set)
			for (auto& e : k.second) nested(e);
	}
	void nested(const Entry& e)
	{
		if (!e.sel->hasSels) return;
		auto* f = S.field(e.parent, e.sel->name);
		if (!f) return;
		mergeCheck(e.sel->sels, S.type(f->type->leaf()));
	}
	bool canMerge(std::map<std::string, std::vector<Entry>>& set, int depth)
	{
		if (depth > 40) return true;
		for (auto& k : set)
			for (size_t i = 0; i < k.second.size(); ++i)
				for (size_t j = i + 1; j < k.second.size(); ++j)
				{
					auto &a = k.second[i], &b = k.second[j];
					if (!sameShape(a, b, depth)) return false;
					if (a.parent == b.parent || a.parent->k != TypeDef::Object || b.parent->k != TypeDef::Object)
					{
						if (a.sel->name != b.sel->name || !sameArgs(*a.sel, *b.sel)) return false;
						auto m = merged(a, b);
						if (!canMerge(m, depth + 1)) return false;
					}
				}
		return true;
	}
	std::map<std::string, std::vector<Entry>> merged(const Entry& a, const Entry& b)
	{
		std::map<std::string, std::vector<Entry>> m;
		for (auto* e : { &a, &b })
		{
			auto* f = S.field(e->parent, e->sel->name);
			std::set<std::string> visited;
			if (f && e->sel->hasSels) collect(e->sel->sels, S.type(f->type->leaf()), m, visited);
		}
		return m;
	}
	bool sameShape(const Entry& a, const Entry& b, int depth)
	{
		if (depth > 40) return true;
		auto *fa = S.field(a.parent, a.sel->name), *fb = S.field(b.parent, b.sel->name);
		if (!fa || !fb) return true;
		const Type *x = fa->type.get(), *y = fb->type.get();
		for (;;)
		{
			if (x->k == Type::NonNull || y->k == Type::NonNull)
			{
				if (x->k != y->k) return false;
				x = x->of.get();
				y = y->of.get();
			}
			if (x->k == Type::List || y->k == Type::List)
			{
				if (x->k != y->k) return false;
				x = x->of.get();
				y = y->of.get();
				continue;
			}
			break;
		}
		auto *tx = S.type(x->name), *ty = S.type(y->name);
		if (!S.composite(tx) || !S.composite(ty)) return tx == ty;
		auto m = merged(a, b);
		for (auto& k : m)
			for (size_t i = 0; i < k.second.size(); ++i)
				for (size_t j = i + 1; j < k.second.size(); ++j)
					if (!sameShape(k.second[i], k.second[j], depth + 1)) return false;
		return true;
	}
};

} // namespace ref
