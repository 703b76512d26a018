// G02: what SchemaLoader makes of a schema text, against a reader of its own.
#include "mc.h"
#include "keywords.h"
#include "ref_ast.h"
#include "SchemaLoader.h"
#include <cmath>
#include <unistd.h>

using namespace graphql;
using ref::TypeDef;

// ---------------------------------------------------------------- what is expected
static const std::set<std::string> BUILTIN { "Int", "Float", "String", "Boolean", "ID" };
static std::string q(std::string_view s) { return mc::jsonq(s); }

static std::string number(double d)
{
	char b[64];
	std::snprintf(b, sizeof b, "F%a", d);
	return b;
}
static std::string canon(const ref::Val& v)
{
	using V = ref::Val;
	switch (v.k)
	{
		case V::Int:
		{
			errno = 0;
			long long n = std::strtoll(v.text.c_str(), nullptr, 10);
			if (errno || n < INT32_MIN || n > INT32_MAX) return number(std::strtod(v.text.c_str(), nullptr));
			return "I" + std::to_string(n);
		}
		case V::Float: return number(std::strtod(v.text.c_str(), nullptr));
		case V::Str: return "S" + q(v.text);
		case V::Bool: return v.text;
		case V::Null: return "null";
		case V::Enum: return "E" + v.text;
		case V::List:
		{
			std::string o = "[";
			for (auto& e : v.list) o += canon(e) + ",";
			return o + "]";
		}
		case V::Obj:
		{
			std::string o = "{";
			for (auto& e : v.obj) o += e.first + ":" + canon(e.second) + ",";
			return o + "}";
		}
		default: return "?";
	}
}
static std::string canon(const response::Value& v)
{
	switch (v.type())
	{
		case response::Type::Int: return "I" + std::to_string(v.get<response::IntType>());
		case response::Type::Float: return number(v.get<response::FloatType>());
		case response::Type::String: return "S" + q(v.get<response::StringType>());
		case response::Type::Boolean: return v.get<response::BooleanType>() ? "true" : "false";
		case response::Type::Null: return "null";
		case response::Type::EnumValue: return "E" + v.get<response::StringType>();
		case response::Type::List:
		{
			std::string o = "[";
			for (auto& e : v.get<response::ListType>()) o += canon(e) + ",";
			return o + "]";
		}
		case response::Type::Map:
		{
			std::string o = "{";
			for (auto& e : v.get<response::MapType>()) o += e.first + ":" + canon(e.second) + ",";
			return o + "}";
		}
		default: return "?";
	}
}
// A literal on its own, read as the default value of a variable.
static std::string canonText(std::string_view text)
{
	auto p = ref::parse("query($v: T = " + std::string(text) + ") { f }");
	if (!p.ok || p.doc.ops.size() != 1 || p.doc.ops[0].vars.size() != 1 || !p.doc.ops[0].vars[0].def) return "unreadable " + q(text);
	return canon(*p.doc.ops[0].vars[0].def);
}
static std::string modifiers(const ref::Type& t)
{
	std::string o = t.k == ref::Type::NonNull ? "" : "N";
	auto& s = t.strip();
	return s.k == ref::Type::List ? o + "L" + modifiers(*s.of) : o;
}
// A C++ name in the place of a GraphQL name: no reserved name, and the name itself when it is not reserved.
static std::string cppName(const std::string& n)
{
	std::string o;
	for (char c : n)
		if (!(c == '_' && !o.empty() && o.back() == '_')) o += c;
	if (o.size() > 1 && o[0] == '_' && o[1] >= 'A' && o[1] <= 'Z') o = o.substr(1);
	return o;
}
static std::string cppBase(const std::string& t, const std::set<std::string>& scalars)
{
	if (t == "ID") return "response::IdType";
	if (BUILTIN.count(t)) return "response::" + t + "Type";
	if (scalars.count(t)) return "response::Value";
	return cppName(t);
}
static std::string cppInput(const ref::Type& t, const std::set<std::string>& scalars)
{
	auto& s = t.strip();
	std::string in = s.k == ref::Type::List ? "std::vector<" + cppInput(*s.of, scalars) + ">" : cppBase(s.name, scalars);
	return t.k == ref::Type::NonNull ? in : "std::optional<" + in + ">";
}

struct Model
{
	std::map<std::string, char> kinds; // S E I U N(interface) O
	std::vector<TypeDef> defs;		   // with what extends them
	std::vector<std::pair<std::string, std::string>> ops;
	bool judged = true, ok = true;
	std::string why;
	void refuse(const std::string& s) { ok = false; if (why.empty()) why = s; }
	const TypeDef* find(const std::string& n) const
	{
		for (auto& d : defs) if (d.name == n && d.k != TypeDef::Directive && d.k != TypeDef::Schema) return &d;
		return nullptr;
	}
};
static char kindOf(TypeDef::K k)
{
	switch (k)
	{
		case TypeDef::Scalar: return 'S';
		case TypeDef::Enum: return 'E';
		case TypeDef::Input: return 'I';
		case TypeDef::Union: return 'U';
		case TypeDef::Interface: return 'N';
		case TypeDef::Object: return 'O';
		default: return '-';
	}
}
template <class L, class F> static bool unique(const L& l, F f)
{
	std::set<std::string> seen;
	for (auto& e : l) if (!seen.insert(f(e)).second) return false;
	return true;
}
static std::string nameOf(const std::string& s) { return s; }
template <class T> static std::string nameOf(const T& t) { return t.name; }

static Model read(const ref::Doc& doc)
{
	Model m;
	if (!doc.ops.empty() || !doc.frags.empty()) { m.refuse("executable definition"); return m; }
	std::set<std::string> directives;
	int schemas = 0, schemaExtensions = 0;
	for (auto& d : doc.types)
	{
		if (d.k == TypeDef::Schema) { ++(d.extend ? schemaExtensions : schemas); continue; }
		if (d.extend) continue;
		if (d.k == TypeDef::Directive)
		{
			if (!directives.insert(d.name).second) m.judged = false;
		}
		else if (!m.kinds.emplace(d.name, kindOf(d.k)).second) m.judged = false;
		m.defs.push_back(d);
	}
	if (schemas > 1 || (schemaExtensions && !schemas)) m.judged = false;
	// The definition of the schema and what extends it.
	for (int ext = 0; ext < 2; ++ext)
		for (auto& d : doc.types)
			if (d.k == TypeDef::Schema && d.extend == !!ext) m.ops.insert(m.ops.end(), d.ops.begin(), d.ops.end());
	for (auto& x : doc.types)
	{
		if (!x.extend || x.k == TypeDef::Schema) continue;
		auto k = m.kinds.find(x.name);
		if (k == m.kinds.end() && x.k == TypeDef::Scalar && BUILTIN.count(x.name)) { m.judged = false; continue; }
		if (k == m.kinds.end() || k->second != kindOf(x.k)) { m.refuse("extends the undefined " + x.name); continue; }
		for (auto& d : m.defs)
			if (d.name == x.name && d.k == x.k)
			{
				d.implements.insert(d.implements.end(), x.implements.begin(), x.implements.end());
				d.members.insert(d.members.end(), x.members.begin(), x.members.end());
				d.fields.insert(d.fields.end(), x.fields.begin(), x.fields.end());
				d.values.insert(d.values.end(), x.values.begin(), x.values.end());
				d.inputs.insert(d.inputs.end(), x.inputs.begin(), x.inputs.end());
			}
	}
	if (!unique(m.ops, [](auto& o) { return o.first; })) m.judged = false;
	auto inputs = [&](const std::vector<ref::InputDef>& l, const std::string& of) {
		if (!unique(l, nameOf<ref::InputDef>)) m.judged = false;
		for (auto& i : l)
		{
			auto t = i.type->leaf();
			auto k = m.kinds.find(t);
			if (!BUILTIN.count(t) && k == m.kinds.end()) m.refuse("unknown type " + t + " of " + of + "." + i.name);
			else if (k != m.kinds.end() && k->second != 'S' && k->second != 'E' && k->second != 'I') m.refuse("type " + t + " of " + of + "." + i.name + " is not for input");
			if (i.def && i.def->k == ref::Val::Null && i.type->k == ref::Type::NonNull) m.refuse("null is the default of " + of + "." + i.name);
		}
	};
	for (auto& d : m.defs)
	{
		if (d.k != TypeDef::Directive && BUILTIN.count(d.name)) m.refuse("defines the built-in " + d.name);
		if (!unique(d.fields, nameOf<ref::FieldDef>) || !unique(d.values, nameOf<ref::EnumValDef>) || !unique(d.implements, [](auto& s) { return s; })
			|| !unique(d.members, [](auto& s) { return s; }) || !unique(d.locations, [](auto& s) { return s; }))
			m.judged = false;
		for (auto& v : d.values) if (!unique(v.dirs, nameOf<ref::Dir>)) m.judged = false;
		inputs(d.inputs, d.name);
		for (auto& f : d.fields)
		{
			if (!unique(f.dirs, nameOf<ref::Dir>)) m.judged = false;
			auto t = f.type->leaf();
			auto k = m.kinds.find(t);
			if (!BUILTIN.count(t) && k == m.kinds.end()) m.refuse("unknown type " + t + " of " + d.name + "." + f.name);
			else if (k != m.kinds.end() && k->second == 'I') m.refuse("type " + t + " of " + d.name + "." + f.name + " is only for input");
			inputs(f.args, d.name + "." + f.name);
		}
		for (auto& i : d.implements)
		{
			auto k = m.kinds.find(i);
			if (k == m.kinds.end() || k->second != 'N') m.refuse(d.name + " implements " + i);
		}
		for (auto& u : d.members)
		{
			auto k = m.kinds.find(u);
			if (k == m.kinds.end() || k->second != 'O') m.refuse(d.name + " has the member " + u);
		}
	}
	// roots
	if (m.ops.empty())
	{
		for (auto o : { "Query", "Mutation", "Subscription" })
		{
			auto k = m.kinds.find(o);
			std::string op = o;
			op[0] = static_cast<char>(op[0] + 32);
			if (k != m.kinds.end() && k->second == 'O') m.ops.emplace_back(op, o);
		}
	}
	bool query = false;
	for (auto& o : m.ops)
	{
		auto k = m.kinds.find(o.second);
		if (k == m.kinds.end() || k->second != 'O') m.refuse("the root " + o.first + " is " + o.second);
		query = query || o.first == "query";
	}
	if (!query) m.refuse("there is no query root");
	// input objects which contain each other
	for (auto& d : m.defs)
	{
		if (d.k != TypeDef::Input) continue;
		std::set<std::string> seen;
		std::vector<std::string> todo { d.name };
		while (!todo.empty())
		{
			auto* t = m.find(todo.back());
			todo.pop_back();
			if (!t || t->k != TypeDef::Input) continue;
			for (auto& i : t->inputs)
			{
				auto n = i.type->leaf();
				if (n == d.name) m.refuse(d.name + " contains itself");
				if (seen.insert(n).second) todo.push_back(n);
			}
		}
	}
	return m;
}
// The reason of a deprecation, if there is one that is judged.
static bool deprecation(const std::vector<ref::Dir>& dirs, std::string& out)
{
	for (auto& d : dirs)
		if (d.name == "deprecated")
		{
			out = "No longer supported";
			for (auto& a : d.args)
			{
				if (a.name != "reason") return false;
				if (a.val.k != ref::Val::Str) return false;
				out = a.val.text;
			}
			if (!unique(d.args, nameOf<ref::Arg>)) return false;
			out = q(out);
			return true;
		}
	out = "-";
	return true;
}

struct Dump
{
	std::vector<std::string> lines;
	bool judged = true;
	void add(const std::string& s) { lines.push_back(s); }
};
static const char* fieldKind(char k, bool output)
{
	switch (k)
	{
		case 'S': return "Scalar";
		case 'E': return "Enum";
		case 'I': return "Input";
		case 'U': return "Union";
		case 'N': return "Interface";
		case 'O': return "Object";
		default: return "Builtin";
	}
}
static Dump expected(const Model& m)
{
	Dump o;
	std::set<std::string> scalars;
	for (auto& k : m.kinds) if (k.second == 'S') scalars.insert(k.first);
	auto kind = [&](const std::string& t) { auto k = m.kinds.find(t); return k == m.kinds.end() ? 'B' : k->second; };
	auto inputs = [&](const std::vector<ref::InputDef>& l, const std::string& of) {
		for (auto& i : l)
			o.add(of + " input " + i.name + "/" + identifier(cppName(i.name)) + ": " + i.type->leaf() + "/" + modifiers(*i.type) + " " + fieldKind(kind(i.type->leaf()), false) + " "
				+ cppInput(*i.type, scalars) + " " + q(i.desc) + (i.def ? " = " + canon(*i.def) : ""));
	};
	std::string mutation;
	for (auto& p : m.ops)
	{
		o.add("root " + p.first + ": " + p.second + "/" + cppName(p.second));
		if (p.first == "mutation") mutation = p.second;
	}
	for (char pass : std::string("SEIUNOD"))
		for (auto& d : m.defs)
		{
			if ((d.k == TypeDef::Directive ? 'D' : kindOf(d.k)) != pass || pass == 'I') continue;
			std::string head = std::string(1, pass) + " " + d.name;
			o.add(head + (pass == 'S' || pass == 'D' ? "" : "/" + cppName(d.name)) + " " + q(d.desc));
			for (auto& v : d.values)
			{
				std::string dep;
				if (!deprecation(v.dirs, dep)) o.judged = false;
				o.add(head + " value " + v.name + "/" + identifier(cppName(v.name)) + " " + q(v.desc) + " " + dep);
			}
			std::set<std::string> inherited;
			for (auto& i : d.implements)
			{
				o.add(head + " implements " + i);
				if (auto* t = m.find(i)) for (auto& f : t->fields) inherited.insert(f.name);
			}
			if (pass == 'O')
				for (auto& u : m.defs)
					if (u.k == TypeDef::Union)
						for (auto& e : u.members) if (e == d.name) o.add(head + " in " + u.name);
			for (auto& e : d.members) o.add(head + " member " + e);
			for (auto& e : d.locations) o.add(head + " on " + e);
			inputs(d.inputs, head);
			for (auto& f : d.fields)
			{
				std::string dep;
				if (!deprecation(f.dirs, dep)) o.judged = false;
				char k = kind(f.type->leaf());
				// Nullable objects have no std::optional of their own.
				std::string base = k == 'O' ? "std::shared_ptr<" + std::string(pass == 'N' ? "object::" : "") + cppName(f.type->leaf()) + ">"
					: k == 'U' || k == 'N' ? "std::shared_ptr<service::Object>" : cppBase(f.type->leaf(), scalars);
				std::function<std::string(const ref::Type&)> out = [&](const ref::Type& t) {
					auto& s = t.strip();
					bool list = s.k == ref::Type::List, null = t.k != ref::Type::NonNull;
					std::string in = list ? "std::vector<" + out(*s.of) + ">" : base;
					return null && (list || k == 'B' || k == 'S' || k == 'E') ? "std::optional<" + in + ">" : in;
				};
				o.add(head + " field " + f.name + "/" + cppName(f.name) + ": " + f.type->leaf() + "/" + modifiers(*f.type) + " " + fieldKind(k, true) + " " + out(*f.type) + " "
					+ q(f.desc) + " " + dep + (inherited.count(f.name) ? " inherited" : "") + (pass == 'O' && d.name == mutation && !inherited.count(f.name) ? " apply" : ""));
				inputs(f.args, head + "." + f.name);
			}
		}
	return o;
}
// Input types may come in any order in which each follows those it uses: each is compared on its own.
static std::map<std::string, std::vector<std::string>> expectedInputs(const Model& m)
{
	std::map<std::string, std::vector<std::string>> out;
	std::set<std::string> scalars;
	for (auto& k : m.kinds) if (k.second == 'S') scalars.insert(k.first);
	for (auto& d : m.defs)
	{
		if (d.k != TypeDef::Input) continue;
		auto& l = out[d.name];
		l.push_back("/" + cppName(d.name) + " " + q(d.desc));
		for (auto& i : d.inputs)
		{
			auto k = m.kinds.find(i.type->leaf());
			l.push_back("input " + i.name + "/" + identifier(cppName(i.name)) + ": " + i.type->leaf() + "/" + modifiers(*i.type) + " " + fieldKind(k == m.kinds.end() ? 'B' : k->second, false) + " "
				+ cppInput(*i.type, scalars) + " " + q(i.desc) + (i.def ? " = " + canon(*i.def) : ""));
		}
	}
	return out;
}

// ---------------------------------------------------------------- what the loader says
namespace gen = graphql::generator;
static std::string mods(const gen::TypeModifierStack& s)
{
	std::string o;
	for (auto m : s) o += m == service::TypeModifier::Nullable ? "N" : m == service::TypeModifier::List ? "L" : "";
	return o;
}
static std::string sv(std::string_view s) { return std::string(s); }
static std::string bare(std::string s)
{
	s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
	return s;
}
static std::string inputLine(const gen::SchemaLoader& L, const gen::InputField& i)
{
	const char* k = i.fieldType == gen::InputFieldType::Builtin ? "Builtin" : i.fieldType == gen::InputFieldType::Scalar ? "Scalar" : i.fieldType == gen::InputFieldType::Enum ? "Enum" : "Input";
	std::string o = "input " + sv(i.name) + "/" + sv(i.cppName) + ": " + sv(i.type) + "/" + mods(i.modifiers) + " " + k + " " + bare(L.getInputCppType(i)) + " " + q(i.description);
	if (!i.defaultValueString.empty())
	{
		auto v = canon(i.defaultValue), t = canonText(i.defaultValueString);
		o += " = " + v + (v == t ? "" : " written " + t);
	}
	else if (i.defaultValue.type() != response::Type::Null) o += " = " + canon(i.defaultValue) + " unwritten";
	return o;
}
static Dump actual(const gen::SchemaLoader& L)
{
	Dump o;
	auto fields = [&](const gen::OutputFieldList& l, const std::string& head) {
		for (auto& f : l)
		{
			const char* k = "?";
			switch (f.fieldType)
			{
				case gen::OutputFieldType::Builtin: k = "Builtin"; break;
				case gen::OutputFieldType::Scalar: k = "Scalar"; break;
				case gen::OutputFieldType::Enum: k = "Enum"; break;
				case gen::OutputFieldType::Union: k = "Union"; break;
				case gen::OutputFieldType::Interface: k = "Interface"; break;
				case gen::OutputFieldType::Object: k = "Object"; break;
			}
			o.add(head + " field " + sv(f.name) + "/" + sv(f.cppName) + ": " + sv(f.type) + "/" + mods(f.modifiers) + " " + k + " " + bare(L.getOutputCppType(f)) + " " + q(f.description) + " "
				+ (f.deprecationReason ? q(*f.deprecationReason) : "-") + (f.inheritedField ? " inherited" : "") + (f.accessor == "apply" ? " apply" : f.accessor == "get" ? "" : " by " + sv(f.accessor)));
			for (auto& a : f.arguments) o.add(head + "." + sv(f.name) + " " + inputLine(L, a));
		}
	};
	for (auto& p : L.getOperationTypes()) o.add("root " + sv(p.operation) + ": " + sv(p.type) + "/" + sv(p.cppType));
	for (auto& d : L.getScalarTypes()) o.add("S " + sv(d.type) + " " + q(d.description));
	for (auto& d : L.getEnumTypes())
	{
		std::string head = "E " + sv(d.type);
		o.add(head + "/" + sv(d.cppType) + " " + q(d.description));
		for (auto& v : d.values) o.add(head + " value " + sv(v.value) + "/" + sv(v.cppValue) + " " + q(v.description) + " " + (v.deprecationReason ? q(*v.deprecationReason) : "-"));
	}
	for (auto& d : L.getUnionTypes())
	{
		o.add("U " + sv(d.type) + "/" + sv(d.cppType) + " " + q(d.description));
		for (auto& e : d.options) o.add("U " + sv(d.type) + " member " + sv(e));
	}
	for (auto& d : L.getInterfaceTypes())
	{
		o.add("N " + sv(d.type) + "/" + sv(d.cppType) + " " + q(d.description));
		fields(d.fields, "N " + sv(d.type));
	}
	for (auto& d : L.getObjectTypes())
	{
		std::string head = "O " + sv(d.type);
		o.add(head + "/" + sv(d.cppType) + " " + q(d.description));
		for (auto& i : d.interfaces) o.add(head + " implements " + sv(i));
		for (auto& u : d.unions) o.add(head + " in " + sv(u));
		fields(d.fields, head);
	}
	for (auto& d : L.getDirectives())
	{
		std::string head = "D " + sv(d.name);
		o.add(head + " " + q(d.description));
		for (auto& l : d.locations) o.add(head + " on " + sv(l));
		for (auto& a : d.arguments) o.add(head + " " + inputLine(L, a));
	}
	return o;
}

// ---------------------------------------------------------------- one text
struct Check
{
	mc::Ctx& c;
	std::string path;
	explicit Check(mc::Ctx& c_) : c(c_), path("load." + std::to_string(c_.shard) + "." + std::to_string(getpid()) + ".graphql") {}
	~Check() { unlink(path.c_str()); }

	void text(const std::string& t)
	{
		if (!c.mine() || !c.begin(t)) return;
		auto p = ref::parse(t);
		if (p.ambiguous || p.ambiguousExtend || p.missingSep || p.sigilSep || p.varInConst || p.badSurrogate) { ++c.counters["texts the grammars differ about (see P02), not judged"]; return; }
		FILE* f = std::fopen(path.c_str(), "w");
		std::fwrite(t.data(), 1, t.size(), f);
		std::fclose(f);
		Model m;
		if (p.ok) m = read(p.doc);
		else m.refuse("not a document");
		if (!m.judged) { ++c.counters["texts which define something twice, not judged"]; return; }
		++c.transitions;
		std::string refused;
		std::unique_ptr<gen::SchemaLoader> L;
		try
		{
			L = std::make_unique<gen::SchemaLoader>(gen::SchemaOptions { path, "Prefix", "ns" });
		}
		catch (const std::exception& ex)
		{
			refused = ex.what();
			if (refused.empty()) refused = "an exception without text";
		}
		if (!refused.empty())
		{
			if (m.ok) { c.fail("refused", "a good schema is refused: " + refused); return; }
			c.outcome("refused: " + (p.ok ? m.why : "not a document"));
			++c.counters["refused"];
			++c.traces;
			return;
		}
		if (!m.ok) { c.fail("accepted " + m.why.substr(0, m.why.find(' ')), "accepted although " + m.why); return; }
		auto e = expected(m), a = actual(*L);
		if (!e.judged) { ++c.counters["texts with odd deprecations, not judged"]; return; }
		for (size_t i = 0; i < std::max(e.lines.size(), a.lines.size()); ++i)
		{
			// Each is followed by its members: what is missing may show as the next.
			std::string x = i < e.lines.size() ? e.lines[i] : "(nothing)", y = i < a.lines.size() ? a.lines[i] : "(nothing)";
			if (x == y) continue;
			auto word = [](const std::string& s) { auto p = s.find(' '); auto r = s.substr(0, 1); for (auto k : { " value ", " field ", " input ", " implements ", " in ", " member ", " on ", "root " }) if (s.find(k) != std::string::npos) { r += k; break; } return r; };
			c.fail("differs " + word(x), "expected " + x + "\n    found " + y);
			return;
		}
		auto ei = expectedInputs(m);
		std::set<std::string> before;
		for (auto& d : L->getInputTypes())
		{
			auto it = ei.find(sv(d.type));
			if (it == ei.end()) { c.fail("input types", "has the input type " + sv(d.type)); return; }
			std::vector<std::string> l { "/" + sv(d.cppType) + " " + q(d.description) };
			for (auto& i : d.fields)
			{
				l.push_back(inputLine(*L, i));
				auto k = m.kinds.find(sv(i.type));
				if (k != m.kinds.end() && k->second == 'I' && !before.count(k->first)) { c.fail("input order", sv(d.type) + " comes before " + k->first + " which it uses"); return; }
			}
			if (l != it->second)
			{
				std::string w;
				for (size_t i = 0; i < std::max(l.size(), it->second.size()); ++i)
					w += "\n  expected " + (i < it->second.size() ? it->second[i] : "-") + "\n     found " + (i < l.size() ? l[i] : "-");
				c.fail("differs input type", "input type " + sv(d.type) + w);
				return;
			}
			before.insert(sv(d.type));
			ei.erase(it);
		}
		if (!ei.empty()) { c.fail("input types", "lacks the input type " + ei.begin()->first); return; }
		for (auto& k : m.kinds)
		{
			using S = gen::SchemaType;
			S want = k.second == 'S' ? S::Scalar : k.second == 'E' ? S::Enum : k.second == 'I' ? S::Input : k.second == 'U' ? S::Union : k.second == 'N' ? S::Interface : S::Object;
			if (L->getSchemaType(k.first) != want) { c.fail("kind", "getSchemaType(" + k.first + ")"); return; }
			std::string_view there;
			switch (k.second)
			{
				case 'S': there = L->getScalarTypes().at(L->getScalarIndex(k.first)).type; break;
				case 'E': there = L->getEnumTypes().at(L->getEnumIndex(k.first)).type; break;
				case 'I': there = L->getInputTypes().at(L->getInputIndex(k.first)).type; break;
				case 'U': there = L->getUnionTypes().at(L->getUnionIndex(k.first)).type; break;
				case 'N': there = L->getInterfaceTypes().at(L->getInterfaceIndex(k.first)).type; break;
				case 'O': there = L->getObjectTypes().at(L->getObjectIndex(k.first)).type; break;
			}
			if (there != k.first) { c.fail(std::string("index ") + k.second, "the index of " + k.first + " leads to " + sv(there)); return; }
		}
		++c.traces;
		++c.counters["loaded"];
		c.outcome("loaded " + std::to_string(m.defs.size()) + " definitions");
	}
};

// ---------------------------------------------------------------- texts
static std::vector<std::string> wrappings(const std::string& t, int levels)
{
	std::vector<std::string> out { t, t + "!" };
	if (levels)
		for (auto& i : wrappings(t, levels - 1))
		{
			out.push_back("[" + i + "]");
			out.push_back("[" + i + "]!");
		}
	std::sort(out.begin(), out.end());
	out.erase(std::unique(out.begin(), out.end()), out.end());
	return out;
}
static const char* KINDS = "scalar Date enum Color { RED GREEN } interface Node { id: ID! } type Item implements Node { id: ID! } union Any = Item input In { a: Int } ";
// The places a type can be at; $ is the type.
static const char* PLACES[] = {
	"type Query { f: $ }",
	"type Query { f(a: $): Int }",
	"type Query { f(a: $): Item }",
	"type Query { f(z: Int, a: $, b: Int = 1): [Color!]! g: Int }",
	"type Query { v: Int } input Holder { a: $ }",
	"type Query { v: Int } input Holder { z: Int b: In a: $ }",
	"type Query { v: Int } directive @d(a: $) on FIELD",
	"type Query { v: Int } interface Face { f: $ g(a: Color): Date }",
	"type Query { v: Int } interface Face { f(a: $): Int }",
	"type Query { v: Int } interface Face { f(a: $): Node }",
	"schema { query: Query mutation: Change } type Query { v: Int } type Change { f(a: In): $ g(a: $): Int }",
	"type Query { v: Int } extend type Query { f: $ }",
	"type Query { v: Int } extend type Query { f(a: $): String }",
	"type Query { v: Int } extend interface Node { f: $ }",
	"type Query { v: Int } extend input In { f: $ }",
};
static std::string fill(std::string t, const std::string& with)
{
	for (size_t p = 0; (p = t.find('$', p)) != std::string::npos; p += with.size()) t.replace(p, 1, with);
	return t;
}

static const char* LITERALS[] = { "0", "1", "-1", "2147483647", "-2147483648", "2147483648", "-2147483649", "123456789012345678901234567890", "0.0", "-0.0", "1.5", "1e3", "1E-7", "123456.789", "0.1",
	"1.7976931348623157e308", "\"\"", "\"a\"", "\"a\\n\\\"b\\\"\\u00e9\\\\\"", "\"\"\"block\"\"\"", "\"\"\"\n   one\n     two\n   \"\"\"", "true", "false", "null", "RED", "nullish", "trueish", "[]", "[1]", "[1, 2.5, \"a\"]",
	"[null]", "[[1], [], [null, 2]]", "{}", "{a: 1}", "{a: null, b: [RED, {c: \"x\"}]}", "[{a: 1} {a: 2}]", "[ 1 2 , 3 ]", "{ a : 1 , b : true }", "{a: {a: {a: {a: 1}}}}", "$v", "[$v]", "{a: $v}" };

static const char* BASES[] = {
	"schema { query: Root mutation: Change subscription: Root } extend schema { } type Root { a: Int } type Change { b: Int }",
	"type Query { a: Int b(x: Int = 1, y: [Color!] = [RED]): Item! @deprecated(reason: \"why\") c: [[Any]!]! } scalar Date enum Color { RED GREEN @deprecated } interface Node { id: ID! } type Item implements Node { id: ID! when: Date } union Any = Item | Query input In { a: Int = 3 b: Other } input Other { c: Color! = RED } directive @d(x: In, y: Date) on FIELD | QUERY",
	"schema { query: Query } extend schema { mutation: Item } type Query { a: Int } type Item { b: Int } extend type Item implements Node { c(x: In): Any } interface Node { b: Int } extend interface Node { c(x: In): Any } enum Color { RED } extend enum Color { GREEN } union Any = Item extend union Any = Query input In { a: Int } extend input In { b: Color } scalar Date extend scalar Date @d",
	"\"about\" type Query { \"field\" a(\"arg\" x: Int): Int \"\"\"block\"\"\" b: Int } \"s\" scalar Date \"e\" enum Color { \"v\" RED } \"n\" interface Node { \"nf\" id: ID } \"u\" union Any = Query \"i\" input In { \"if\" a: Int } \"d\" directive @d(\"da\" x: Int) on FIELD",
	"input A { b: B c: [C!] } input B { c: C } input C { x: Int } input D { a: A b: [B]! } type Query { f(d: D): Int }",
	"type Query { node: Node items(first: Int! = 10, after: ID): [Item!]! } type Mutation { add(in: In!): Item } type Subscription { changed(id: ID!): Item } interface Node { id: ID! } type Item implements Node & Named { id: ID! name: String } interface Named { name: String } input In { name: String! = \"x\" tags: [String!] }",
};
static const char* TOKENS[] = { "{", "}", "(", ")", "[", "]", "!", ":", "=", "|", "&", "@", "\"s\"", "1", "null", "extend", "schema", "scalar", "enum", "union", "interface", "type", "input", "directive", "implements", "on", "query", "mutation",
	"subscription", "Query", "Mutation", "Item", "Node", "Any", "Color", "Date", "In", "Int", "ID", "Missing", "FIELD", "deprecated", "reason", "a", "_A", "a__b" };

static std::vector<std::string> tokens(const std::string& t)
{
	std::vector<std::string> out;
	for (size_t i = 0; i < t.size();)
	{
		if (t[i] == ' ' || t[i] == ',') { ++i; continue; }
		size_t s = i;
		if (t.compare(i, 3, "\"\"\"") == 0) { i = t.find("\"\"\"", i + 3) + 3; }
		else if (t[i] == '"') { i = t.find('"', i + 1) + 1; }
		else if (isalnum(static_cast<unsigned char>(t[i])) || t[i] == '_') while (i < t.size() && (isalnum(static_cast<unsigned char>(t[i])) || t[i] == '_')) ++i;
		else ++i;
		out.push_back(t.substr(s, i - s));
	}
	return out;
}
static std::string join(const std::vector<std::string>& l)
{
	std::string o;
	for (auto& s : l) o += (o.empty() || o.back() == '@' ? "" : " ") + s;
	return o;
}

static void load(mc::Ctx& c)
{
	Check k(c);
	// 1. every wrapping of every kind of type at every place
	for (std::string b : { "Int", "Float", "String", "Boolean", "ID", "Date", "Color", "Item", "Node", "Any", "In", "Missing", "Query", "Holder", "Face" })
		for (auto& w : wrappings(b, c.thorough ? 5 : 3))
			for (auto p : PLACES) k.text(KINDS + fill(p, w));
	// 2. every literal as the default of every type at every place
	for (std::string b : { "Int", "String", "Date", "Color", "In" })
		for (auto& w : wrappings(b, 2))
			for (auto l : LITERALS)
				for (int i = 1; i < 15; ++i)
				{
					if (i == 7 || i == 11 || i == 13 || (i == 0) || i == 10) continue;
					k.text(KINDS + fill(PLACES[i], w + " = " + l));
				}
	// 3. descriptions and directives of every kind of definition and member
	{
		const char* descs[] = { "", "\"plain\"", "\"\"", "\"esc \\\"q\\\" \\\\ \\n \\u00e9\"", "\"\"\"block\"\"\"", "\"\"\"\n    one\n      two\n\n    three \\\"\"\" x\n  \"\"\"", "\"\"\"\"\"\"" };
		const char* dirs[] = { "", "@d", "@deprecated", "@deprecated(reason: \"why\")", "@deprecated(reason: \"\")", "@deprecated(reason: \"a \\\"b\\\" \\u0041\")", "@deprecated(reason: \"\"\"\n  block\n    more\n  \"\"\")",
			"@d @deprecated", "@deprecated @d", "@d(reason: \"no\")", "@d(reason: \"no\") @deprecated(reason: \"yes\")", "@deprecated(reason: \"yes\") @d(reason: \"no\")", "@deprecated(why: \"no\", reason: \"yes\")", "@deprecated(why: \"no\")",
			"@deprecatedly", "@Deprecated" };
		const char* things[] = { "% type Query { v: Int }", "type Query @@ { v: Int }", "type Query { % v: Int @@ }", "type Query { % v: Int @@ w: Item }", "type Query { v: Int % w(a: Int): [Item] @@ x: Int }", "type Query { v(% a: Int @@): Int }",
			"type Query { v(% a: In = {} @@, b: Int): Int }", "type Query { v: Int } % scalar Time @@", "type Query { v: Int } % enum Hue @@ { X }", "type Query { v: Int } enum Hue { % X @@ }", "type Query { v: Int } enum Hue { W % X @@ Y }",
			"type Query { v: Int } extend enum Color { % X @@ Y }", "type Query { v: Int } % interface Face @@ { v: Int }", "type Query { v: Int } interface Face { % v: Int @@ w: Int }", "type Query { v: Int } interface Face { v(% a: Int @@): Int }",
			"type Query { v: Int } extend interface Node { % v: Int @@ w: Int }", "type Query { v: Int } extend type Query { % w: Int @@ x: Int }", "type Query { v: Int } % union Some @@ = Item", "type Query { v: Int } % input Holder @@ { a: Int }",
			"type Query { v: Int } input Holder { % a: Int @@ b: Int }", "type Query { v: Int } extend input In { % b: Int = 1 @@ c: Int }", "type Query { v: Int } % directive @x on FIELD", "type Query { v: Int } directive @x(% a: Int @@) on FIELD",
			"type Query { v: Int } directive @x(b: Int % a: Int = 3 @@) on FIELD | ENUM", "schema @@ { query: Query } type Query { v: Int }" };
		for (std::string t : things)
			for (auto d : descs)
				for (auto x : dirs)
				{
					std::string s = t;
					if (auto p = s.find('%'); p != std::string::npos) s.replace(p, 1, d);
					if (auto p = s.find("@@"); p != std::string::npos) s.replace(p, 2, x);
					k.text(KINDS + s);
				}
	}
	// 4. definitions and what extends them in every order
	{
		const std::vector<std::vector<std::string>> sets {
			{ "type Query { a: Item }", "type Item { b: Int }", "extend type Item { c: Int }", "extend type Item implements Node { d: Color }", "interface Node { e: Int }", "enum Color { RED }" },
			{ "type Query { a: Any }", "union Any = Query", "extend union Any = Item", "type Item { a: Int }", "extend union Any = Other", "type Other { a: Int }" },
			{ "type Query { a(x: A): Int }", "input A { a: Int }", "extend input A { b: B }", "input B { a: Color }", "extend input B { b: [Color!]! = [GREEN] }", "enum Color { RED }", "extend enum Color { GREEN }" },
			{ "schema { query: Root }", "extend schema { mutation: Change }", "type Root { a: Int }", "type Change { a: Int }", "extend type Change { b(x: Color): Int }", "enum Color { RED }" },
			{ "interface Node { a: Int }", "extend interface Node { b: Item }", "extend interface Node { c(x: Color): Item }", "type Item implements Node { a: Int b: Item c: Item }", "type Query { n: Node }", "enum Color { RED }" },
			{ "scalar Date", "extend scalar Date @a", "type Query { d(x: Date): Date }", "extend type Query @b", "directive @a on SCALAR", "extend type Query { e(y: In): Int }", "input In { d: Date }" },
			{ "extend type Missing { a: Int }", "type Query { a: Int }", "type Item { a: Int }", "extend type Item { b: Int }" },
			{ "type Query { a: Int }", "extend schema { mutation: Change }", "type Change { a: Int }", "schema @d { query: Query }", "extend schema @d" },
			{ "type Query { a(x: D): Int }", "input D { c: C b: B }", "input C { b: B a: A }", "input B { a: [A!]! }", "input A { i: Int }", "extend input A { j: Color }", "enum Color { RED }" },
		};
		for (auto& s : sets)
		{
			std::vector<int> o(s.size());
			for (size_t i = 0; i < o.size(); ++i) o[i] = static_cast<int>(i);
			do
			{
				std::string t;
				for (int i : o) t += s[i] + " ";
				k.text(t);
			} while (std::next_permutation(o.begin(), o.end()));
			// every subset
			for (int mask = 1; mask < 1 << s.size(); ++mask)
			{
				std::string t;
				for (size_t i = 0; i < s.size(); ++i) if (mask >> i & 1) t += s[i] + " ";
				k.text(t);
			}
		}
		// what extends a type of another kind
		for (std::string n : { "Date", "Color", "Node", "Item", "Any", "In", "Query", "Int", "String", "Missing" })
			for (std::string x : { "extend scalar $ @d", "extend enum $ { X }", "extend enum $ @d", "extend interface $ { x: Int }", "extend interface $ @d", "extend type $ { x: Int }", "extend type $ implements Face", "extend type $ @d", "extend union $ = Query",
					 "extend union $ @d", "extend input $ { x: Int }", "extend input $ @d" })
				for (int place = 0; place < 2; ++place)
					k.text((place ? "" : fill(x, n) + " ") + KINDS + "type Query { v: Int } interface Face { f: Int } " + (place ? fill(x, n) : ""));
	}
	// 5. input types which use each other: every graph
	{
		const int n = 3;
		const char* wraps[] = { "$", "$!", "[$!]!", "[[$]]" };
		for (int edges = 0; edges < 1 << (n * n); ++edges)
			for (int order = 0; order < (c.thorough ? 6 : 2); ++order)
				for (int w = 0; w < 4; ++w)
				{
					static const int ORD[6][3] = { { 0, 1, 2 }, { 2, 1, 0 }, { 1, 2, 0 }, { 0, 2, 1 }, { 2, 0, 1 }, { 1, 0, 2 } };
					std::string t = "type Query { v(x: A): Int } ";
					for (int i : ORD[order])
					{
						t += std::string("input ") + char('A' + i) + " { i: Int ";
						for (int j = 0; j < n; ++j) if (edges >> (i * n + j) & 1) t += std::string(1, char('a' + j)) + ": " + fill(wraps[w], std::string(1, char('A' + j))) + " ";
						t += "} ";
					}
					k.text(t);
				}
		const int m = c.thorough ? 4 : 4;
		for (int edges = 0; edges < 1 << (m * (m - 1)); ++edges)
		{
			std::string t = "type Query { v(x: A): Int } ";
			int bit = 0;
			for (int i = 0; i < m; ++i)
			{
				t += std::string("input ") + char('A' + i) + " { i: Int ";
				for (int j = 0; j < m; ++j)
					if (i != j && (edges >> bit++ & 1)) t += std::string(1, char('a' + j)) + ": " + char('A' + j) + " ";
				t += "} ";
			}
			k.text(t);
		}
		// chains in every order
		const int len = c.thorough ? 7 : 6;
		std::vector<int> o(len);
		for (int i = 0; i < len; ++i) o[i] = i;
		do
		{
			std::string t = "type Query { v: Int } ";
			for (int i : o) t += std::string("input ") + char('A' + i) + " { i: Int " + (i + 1 < len ? std::string("n: [") + char('A' + i + 1) + "] " : "") + "} ";
			k.text(t);
		} while (std::next_permutation(o.begin(), o.end()));
	}
	// 6. roots
	{
		const char* types[] = { "", "Query", "Mutation", "Subscription", "Root", "Date", "Node", "Any", "In", "Color", "Missing", "Int" };
		const char* defs = "scalar Date enum Color { RED } interface Node { id: ID! } union Any = Root input In { a: Int } type Root { a: Int } ";
		for (auto qt : types)
			for (auto mt : types)
				for (auto st : types)
					for (int have = 0; have < 8; ++have)
					{
						std::string t = defs, s;
						if (*qt) s += std::string("query: ") + qt + " ";
						if (*mt) s += std::string("mutation: ") + mt + " ";
						if (*st) s += std::string("subscription: ") + st + " ";
						if (have & 1) t += "type Query { a: Int } ";
						if (have & 2) t += "type Mutation { a: Int } ";
						if (have & 4) t += "type Subscription { a: Int } ";
						if (!s.empty()) t += "schema { " + s + "}";
						k.text(t);
					}
		for (std::string d : { "scalar $", "enum $ { A }", "interface $ { a: Int }", "union $ = Root", "input $ { a: Int }" })
			for (auto n : { "Query", "Mutation", "Subscription", "Int", "Float", "String", "Boolean", "ID", "Long", "IntType", "int" })
				for (auto s : { "", "schema { query: Root }", "schema { query: Root mutation: Mutation }", "type Query { a: Int }" }) k.text("type Root { a: Int } " + fill(d, n) + " " + s);
		for (auto n : { "Query", "Int", "Float", "String", "Boolean", "ID" }) k.text(std::string("type ") + n + " { a: String } type Root { a: Int } schema { query: Root }");
		for (std::string a : { "query: Root", "mutation: Root", "subscription: Root", "query: Other", "mutation: Other", "mutation: Missing" })
			for (std::string b : { "query: Root", "mutation: Root", "subscription: Other", "query: Missing", "subscription: In" })
				for (std::string e : { "", "extend schema { $ }", "extend schema @d { $ }", "extend schema @d" }) k.text("input In { a: Int } type Root { a: Int } schema { " + a + " } " + fill(e, b) + " type Other { b(x: In): Int }");
	}
	// 7. names: every name of a few characters, as everything that has a name
	{
		std::string alphabet = "_Aa1";
		std::vector<std::string> names { "" }, all;
		for (int len = 1; len <= (c.thorough ? 6 : 4); ++len)
		{
			std::vector<std::string> next;
			for (auto& n : names)
				for (char ch : alphabet) if (!(n.empty() && ch == '1')) next.push_back(n + ch);
			all.insert(all.end(), next.begin(), next.end());
			names = next;
		}
		for (auto& n : all)
			k.text("schema { query: Query" + n + " mutation: Change" + n + "} type Query" + n + " { " + n + "(" + n + ": " + n + "): " + n + "2 } type Change" + n + " { a: " + n + "3 b: " + n + "4 c: [" + n + "5!] } enum " + n + "2 { " + n + " } interface " + n + "3 { " + n + ": "
				+ n + "5 } union " + n + "4 = Change" + n + " | " + n + "5 type " + n + "5 implements " + n + "3 { " + n + ": " + n + "5 } input " + n + " { " + n + ": Int }");
	}
	for (auto n : { "new", "delete", "class", "default", "int", "operator", "public", "register", "union", "enum", "this", "typename", "char16_t", "co_await", "requires", "and", "not_eq", "wchar_t", "news", "New", "new_", "_new", "__new", "string", "final", "override", "module" })
	{
		std::string N = n;
		k.text("type Query { " + N + "(" + N + ": Int = 4): E i: I } enum E { " + N + " OTHER } interface I { " + N + "(" + N + ": In): Int } input In { " + N + ": Int = 3 } type Mutation implements I { " + N + "(" + N + ": In): Int other: Int } directive @" + N + "(" + N + ": E) on FIELD");
	}
	// 8. directive definitions
	{
		const char* locs[] = { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE",
			"INPUT_OBJECT", "INPUT_FIELD_DEFINITION" };
		for (auto a : locs)
			for (auto b : locs)
				for (auto args : { "", "(x: Int)", "(x: In = {a: 1}, y: Date, z: [Color!]! = [RED])", "(x: Item)", "(x: Missing)", "(x: Int! = null)" })
					k.text(std::string(KINDS) + "type Query { v: Int } directive @d" + args + " on " + a + (a == b ? "" : std::string(" | ") + b) + " directive @e on | " + b);
	}
	// 9. every single edit of the base texts (thorough: every two of them, with fewer tokens)
	for (std::string b : BASES)
	{
		auto t = tokens(b);
		k.text(join(t));
		for (size_t i = 0; i <= t.size(); ++i)
		{
			if (c.expired("edits")) return;
			for (size_t len = 1; len <= 12 && i + len <= t.size(); ++len)
			{
				auto e = t;
				e.erase(e.begin() + i, e.begin() + i + len);
				k.text(join(e));
				e = t;
				e.insert(e.begin() + i, t.begin() + i, t.begin() + i + len);
				k.text(join(e));
			}
			for (auto n : TOKENS)
			{
				auto e = t;
				e.insert(e.begin() + i, n);
				k.text(join(e));
				if (i == t.size()) continue;
				e = t;
				e[i] = n;
				k.text(join(e));
			}
			if (i + 1 < t.size())
				for (size_t j = i + 1; j < t.size(); ++j)
				{
					auto e = t;
					std::swap(e[i], e[j]);
					k.text(join(e));
				}
			if (c.thorough)
				for (size_t j = i + 1; j < t.size(); ++j)
				{
					if (c.expired("pairs of edits")) return;
					for (auto n : { "Query", "Item", "Node", "Any", "Color", "Date", "In", "Int", "Missing", "!", "extend", "type", "input" })
						for (auto n2 : { "Query", "Item", "Node", "Color", "In", "Int", "null", "!", "]", "}" })
						{
							if (i == t.size()) continue;
							auto e = t;
							e[i] = n;
							e[j] = n2;
							k.text(join(e));
						}
				}
		}
	}
}

MC_MAIN({ { "g02", load } })
