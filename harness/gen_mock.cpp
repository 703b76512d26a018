// Writes the C++ which implements a service generated for a schema, from a mapping of types and
// names of its own: gen_mock SCHEMA NAMESPACE HEADER NAME NOINTROSPECTION(0/1) > mock.cpp
#include "keywords.h"
#include "ref_validate.h"
#include <fstream>
#include <iostream>

using ref::TypeDef;

static std::string cppName(const std::string& n)
{
	std::string o;
	for (char c : n)
		if (!(c == '_' && !o.empty() && o.back() == '_')) o += c;
	if (o.size() > 1 && o[0] == '_' && o[1] >= 'A' && o[1] <= 'Z') o = o.substr(1);
	return o;
}
static std::string capital(std::string s)
{
	if (s[0] >= 'a' && s[0] <= 'z') s[0] = static_cast<char>(s[0] - 32);
	return s;
}
struct Writer
{
	bool inherited(const TypeDef& d, const std::string& field) const
	{
		for (auto& t : S.own.doc.types)
			if (t.name == d.name)
				for (auto& i : t.implements)
					for (auto& x : S.type(i)->fields)
						if (x.name == field) return true;
		return false;
	}
	const ref::Schema& S;
	std::string ns;
	std::string base(const std::string& t, bool out) const
	{
		auto* d = S.type(t);
		if (t == "ID") return "graphql::response::IdType";
		if (t == "Int" || t == "Float" || t == "String" || t == "Boolean") return "graphql::response::" + t + "Type";
		if (d->k == TypeDef::Scalar) return "graphql::response::Value";
		if (d->k == TypeDef::Object) return "std::shared_ptr<N::object::" + cppName(t) + ">";
		if (d->k == TypeDef::Interface || d->k == TypeDef::Union) return "std::shared_ptr<graphql::service::Object>";
		return "N::" + cppName(t);
	}
	std::string type(const ref::Type& t, bool out) const
	{
		auto& s = t.strip();
		bool list = s.k == ref::Type::List;
		std::string in = list ? "std::vector<" + type(*s.of, out) + ">" : base(s.name, out);
		bool shared = !list && ref::Schema::composite(S.type(s.name));
		return t.k == ref::Type::NonNull || shared ? in : "std::optional<" + in + ">";
	}
};

int main(int argc, char** argv)
{
	std::ifstream f(argv[1]);
	std::string sdl((std::istreambuf_iterator<char>(f)), {});
	bool noIntro = argv[5][0] == '1';
	ref::Schema S(sdl, !noIntro);
	Writer w { S, argv[2] };
	std::ostream& o = std::cout;
	o << "#include \"" << argv[3] << "\"\n#include \"gen.h\"\n";
	o << "namespace N = graphql::" << argv[2] << ";\nnamespace gen {\n";
	for (auto& d : S.own.doc.types)
	{
		if (d.extend) continue;
		auto n = "N::" + cppName(d.name);
		if (d.k == TypeDef::Enum)
		{
			o << "template <> struct Out<" << n << "> { static " << n << " make(GWorld&, const Datum& d) { static const " << n << " v[] = {";
			for (auto& v : d.values) o << " " << n << "::" << identifier(cppName(v.name)) << ",";
			o << " }; return v[d.n % " << d.values.size() << "]; } };\n";
			o << "template <> struct In<" << n << "> { static std::string show(const " << n << "& v) {";
			for (auto& v : d.values) o << " if (v == " << n << "::" << identifier(cppName(v.name)) << ") return \"E:" << v.name << "\";";
			o << " return \"E:?\"; } };\n";
		}
		if (d.k == TypeDef::Input)
		{
			o << "template <> struct In<" << n << "> { static std::string show(const " << n << "& v); };\n";
		}
	}
	for (auto& d : S.own.doc.types)
	{
		if (d.extend || d.k != TypeDef::Input) continue;
		auto n = "N::" + cppName(d.name);
		o << "inline std::string In<" << n << ">::show(const " << n << "& v) { std::string o = \"{\";\n";
		bool first = true;
		for (auto& i : d.inputs)
		{
			o << "	o += \"" << (first ? "" : ",") << i.name << ":\" + In<" << w.type(*i.type, false) << ">::show(v." << identifier(cppName(i.name)) << ");\n";
			first = false;
		}
		o << "	return o + \"}\"; }\n";
	}
	o << "namespace {\nstruct W : GWorld\n{\n	W(const std::string& sdl) : GWorld(sdl, " << (noIntro ? "true" : "false") << ") {}\n	std::shared_ptr<service::Object> make(const std::string& type, int id) override;\n};\n";
	for (auto& d : S.own.doc.types)
	{
		if (d.extend || d.k != TypeDef::Object) continue;
		auto n = cppName(d.name);
		o << "struct M_" << n << " : N::object::" << n << "\n{\n	W& w; int id;\n	M_" << n << "(W& w, int id) : w(w), id(id) {}\n";
		o << "	void beginSelectionSet(const service::SelectionSetParams& p) const override { event(w, \"" << d.name << "\", id, p, true); }\n";
		o << "	void endSelectionSet(const service::SelectionSetParams& p) const override { event(w, \"" << d.name << "\", id, p, false); }\n";
		for (auto& x : d.fields)
		{
			auto t = w.type(*x.type, true);
			o << "	service::FieldResult<" << t << "> " << (d.name == S.mutation && !w.inherited(d, x.name) ? "apply" : "get") << capital(cppName(x.name)) << "(service::FieldParams&& params";
			for (size_t i = 0; i < x.args.size(); ++i) o << ", " << w.type(*x.args[i].type, false) << "&& a" << i;
			o << ") const override { return answer<" << t << ">(w, \"" << d.name << "\", id, \"" << x.name << "\", params, std::string()";
			for (size_t i = 0; i < x.args.size(); ++i) o << " + \"" << (i ? "," : "") << x.args[i].name << ":\" + In<" << w.type(*x.args[i].type, false) << ">::show(a" << i << ")";
			o << "); }\n";
		}
		o << "};\n";
	}
	o << "std::shared_ptr<service::Object> W::make(const std::string& type, int id)\n{\n";
	for (auto& d : S.own.doc.types)
		if (!d.extend && d.k == TypeDef::Object) o << "	if (type == \"" << d.name << "\") return std::make_shared<M_" << cppName(d.name) << ">(*this, id);\n";
	o << "	std::abort();\n}\n";
	std::vector<std::pair<std::string, std::string>> ops;
	for (auto& d : S.own.doc.types)
		if (d.k == TypeDef::Schema) ops.insert(ops.end(), d.ops.begin(), d.ops.end());
	if (ops.empty())
		for (std::string k : { "query", "mutation", "subscription" })
			if (!S.root(k).empty()) ops.emplace_back(k, S.root(k));
	o << "const char sdl[] = R\"~sdl~(" << sdl << ")~sdl~\";\n";
	o << "Register r(Program { \"" << argv[4] << "\", \"" << argv[2] << "\", sdl, " << (noIntro ? "true" : "false") << ", [] {\n";
	o << "	auto w = std::make_unique<W>(sdl);\n	w->schema = N::GetSchema();\n";
	for (auto& k : ops) o << "	auto p_" << k.first << " = std::static_pointer_cast<N::object::" << cppName(k.second) << ">(w->obj(\"" << k.second << "\", 0));\n	w->" << k.first << " = p_" << k.first << ";\n";
	o << "	w->svc = std::make_shared<N::Operations>(";
	for (size_t i = 0; i < ops.size(); ++i) o << (i ? ", " : "") << "p_" << ops[i].first;
	o << ");\n	return std::unique_ptr<GWorld>(std::move(w));\n} });\n} // namespace\n} // namespace gen\n";
	return 0;
}
