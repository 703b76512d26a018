// Writes the C++ which drives a generated client: gen_client SCHEMA REQUEST OPERATION HEADER NAME NOINTROSPECTION(0/1) > driver.cpp
#include "keywords.h"
#include "ref_client.h"
#include <fstream>
#include <iostream>

using namespace ref;

static std::string read(const char* f)
{
	std::ifstream s(f, std::ios::binary);
	return std::string((std::istreambuf_iterator<char>(s)), {});
}
static std::string literal(const std::string& t)
{
	std::string o = "std::string(\"";
	char b[8];
	for (unsigned char c : t) { std::snprintf(b, sizeof b, "\\%03o", c); o += b; }
	return o + "\", " + std::to_string(t.size()) + ")";
}
struct Writer
{
	const Schema& S;
	std::ostream& o;

	std::string base(const std::string& t, const std::string& structs) const
	{
		auto* d = S.type(t);
		if (t == "ID") return "graphql::response::IdType";
		if (t == "Int" || t == "Float" || t == "String" || t == "Boolean") return "graphql::response::" + t + "Type";
		if (d->k == TypeDef::Scalar) return "graphql::response::Value";
		if (d->k == TypeDef::Input) return "R::Variables::" + cppName(t);
		return d->k == TypeDef::Enum ? "R::" + cppName(t) : structs;
	}
	std::string type(const Type& t, const std::string& structs) const
	{
		auto& s = t.strip();
		auto in = s.k == Type::List ? "std::vector<" + type(*s.of, structs) + ">" : base(s.name, structs);
		return t.k == Type::NonNull ? in : "std::optional<" + in + ">";
	}
	void shown(const std::string& n, const std::vector<Member>& ms)
	{
		for (auto& m : ms)
		{
			auto x = "decltype(" + n + "::" + identifier(cppName(m.key)) + ")";
			auto inner = "Bare<" + x + ">";
			if (!m.parts.empty()) shown(inner, m.members);
			o << "static_assert(std::is_same_v<" << x << ", " << type(*m.type, inner) << ">, \"" << m.key << "\");\n";
		}
		o << "template <> struct Show<" << n << "> { static std::string of(const " << n << "& v) { std::string o = \"{\";\n";
		for (auto& m : ms) o << "	o += \"" << m.key << ":\" + show(v." << identifier(cppName(m.key)) << ") + \",\";\n";
		o << "	return o + \"}\"; } };\n";
	}
};

int main(int argc, char** argv)
{
	auto sdl = read(argv[1]), text = read(argv[2]);
	bool noIntro = argv[6][0] == '1';
	Schema S(sdl, !noIntro);
	auto p = parse(text);
	if (!p.ok) { std::cerr << "the request does not parse\n"; return 1; }
	if (Validator v(S, p.doc); !v.run()) { std::cerr << "the request is not valid:"; for (auto& e : v.errors) std::cerr << " " << e; std::cerr << "\n"; return 1; }
	Request q(S, p.doc, argv[3]);
	auto ms = q.members();
	std::ostream& o = std::cout;
	Writer w { S, o };
	std::string ns = q.op->name;
	if (ns.empty())
	{
		ns = q.op->type;
		ns[0] = static_cast<char>(ns[0] - 32);
	}
	o << "#include \"" << argv[4] << "\"\n#include \"client.h\"\nnamespace cli {\nnamespace {\nnamespace R = graphql::client::" << q.op->type << "::" << ns << ";\n}\n";
	std::vector<const TypeDef*> types;
	for (auto& v : q.op->vars) needed(S, v.type->leaf(), types);
	auto inputs = types;
	needed(S, ms, types);
	for (auto* d : types)
		if (d->k == TypeDef::Enum)
		{
			auto n = "R::" + cppName(d->name);
			o << "template <> struct Show<" << n << "> { static std::string of(const " << n << "& v) {";
			for (auto& v : d->values) o << " if (v == " << n << "::" << identifier(cppName(v.name)) << ") return \"E:" << v.name << "\";";
			o << " return \"E:?\"; } };\n";
			o << "template <> struct Fill<" << n << "> { static " << n << " of(const Node& d) { static const std::map<std::string, " << n << "> m {";
			for (auto& v : d->values) o << " { \"" << v.name << "\", " << n << "::" << identifier(cppName(v.name)) << " },";
			o << " }; return m.at(d.s); } };\n";
		}
	for (auto* d : inputs)
		if (d->k == TypeDef::Input) o << "template <> struct Fill<R::Variables::" << cppName(d->name) << "> { static R::Variables::" << cppName(d->name) << " of(const Node& d); };\n";
	for (auto* d : inputs)
	{
		if (d->k != TypeDef::Input) continue;
		auto n = "R::Variables::" + cppName(d->name);
		for (auto& i : d->inputs) o << "static_assert(std::is_same_v<decltype(" << n << "::" << identifier(cppName(i.name)) << "), " << w.type(*i.type, "") << ">, \"" << d->name << "." << i.name << "\");\n";
		o << "inline " << n << " Fill<" << n << ">::of(const Node& d)\n{\n	" << n << " v;\n";
		for (auto& i : d->inputs) o << "	v." << identifier(cppName(i.name)) << " = Fill<" << w.type(*i.type, "") << ">::of(d.at(\"" << i.name << "\"));\n";
		o << "	return v;\n}\n";
	}
	w.shown("R::Response", ms);
	o << "namespace {\nRegister r(Program { \"" << argv[5] << "\", " << literal(sdl) << ", " << literal(text) << ", \"" << argv[3] << "\", " << (noIntro ? "true" : "false") << ",\n";
	if (q.op->vars.empty()) o << "	nullptr,\n";
	else
	{
		o << "	[](const Node& d) {\n		R::Variables v;\n";
		for (auto& v : q.op->vars)
		{
			o << "		static_assert(std::is_same_v<decltype(v." << identifier(cppName(v.name)) << "), " << w.type(*v.type, "") << ">, \"$" << v.name << "\");\n";
			o << "		v." << identifier(cppName(v.name)) << " = Fill<" << w.type(*v.type, "") << ">::of(d.at(\"" << v.name << "\"));\n";
		}
		o << "		return R::serializeVariables(std::move(v));\n	},\n";
	}
	o << "	[](graphql::response::Value&& d) { return show(R::parseResponse(std::move(d))); }, R::GetRequestText, R::GetRequestObject });\n} // namespace\n} // namespace cli\n";
	return 0;
}
