// An independent reference reader for the June 2018 GraphQL language: lexer, parser and AST.
// Written from the specification text; shares nothing with the code under test.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

struct Loc
{
	size_t line = 0, col = 0;
	bool operator<(const Loc& o) const { return line != o.line ? line < o.line : col < o.col; }
	bool operator==(const Loc& o) const { return line == o.line && col == o.col; }
};

struct Tok
{
	enum K { Punct, Name, Int, Float, Str, Block, End } k = End;
	std::string text; // spelling
	std::string val;  // decoded string value
	std::string raw;  // block string before BlockStringValue()
	size_t off = 0;
	Loc loc;
	bool sep = true;	 // preceded by an ignored token (or by the beginning)
	bool glued = false;	 // a number directly followed by a name, digit or dot: spelling left open by the edition
	bool badSurrogate = false;
};

struct Lexed
{
	bool ok = true;
	bool ambiguous = false; // contains a spelling on which editions of the specification differ
	std::vector<Tok> toks;
};

inline bool nameStart(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool digit(unsigned char c) { return c >= '0' && c <= '9'; }

inline void utf8(std::string& o, uint32_t c)
{
	if (c < 0x80) o += char(c);
	else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
}

// http://spec.graphql.org/June2018/#BlockStringValue()
inline std::string blockStringValue(const std::string& raw)
{
	std::vector<std::string> lines(1);
	for (size_t i = 0; i < raw.size(); ++i)
	{
		if (raw[i] == '\r') { if (i + 1 < raw.size() && raw[i + 1] == '\n') ++i; lines.emplace_back(); }
		else if (raw[i] == '\n') lines.emplace_back();
		else lines.back() += raw[i];
	}
	auto indent = [](const std::string& l) { size_t n = 0; while (n < l.size() && (l[n] == ' ' || l[n] == '\t')) ++n; return n; };
	size_t common = std::string::npos;
	for (size_t i = 1; i < lines.size(); ++i)
	{
		size_t n = indent(lines[i]);
		if (n < lines[i].size()) common = std::min(common, n);
	}
	if (common != std::string::npos)
		for (size_t i = 1; i < lines.size(); ++i) lines[i] = lines[i].size() > common ? lines[i].substr(common) : "";
	while (!lines.empty() && indent(lines.front()) == lines.front().size()) lines.erase(lines.begin());
	while (!lines.empty() && indent(lines.back()) == lines.back().size()) lines.pop_back();
	std::string o;
	for (size_t i = 0; i < lines.size(); ++i) o += (i ? "\n" : "") + lines[i];
	return o;
}

// A SourceCharacter (Unicode up to U+FFFF, encoded as UTF-8) at t[p]: its length in bytes, else 0.
inline size_t sourceChar(const std::string& t, size_t p)
{
	unsigned char c = t[p];
	if (c == 9 || c == 10 || c == 13 || (c >= 0x20 && c < 0x80)) return 1;
	auto cont = [&](size_t i) { return p + i < t.size() && (static_cast<unsigned char>(t[p + i]) & 0xC0) == 0x80; };
	if (c >= 0xC2 && c <= 0xDF) return cont(1) ? 2 : 0;
	if (c >= 0xE0 && c <= 0xEF)
	{
		if (!cont(1) || !cont(2)) return 0;
		unsigned char d = t[p + 1];
		if (c == 0xE0 && d < 0xA0) return 0;
		if (c == 0xED && d > 0x9F) return 0;
		return 3;
	}
	return 0;
}

inline Lexed lex(const std::string& t)
{
	Lexed L;
	size_t p = 0, line = 1, bol = 0;
	bool sep = true;
	if (t.compare(0, 3, "\xEF\xBB\xBF") == 0) p = 3;
	auto fail = [&] { L.ok = false; return L; };
	auto push = [&](Tok::K k, size_t s) -> Tok& {
		Tok x;
		x.k = k;
		x.text = t.substr(s, p - s);
		x.off = s;
		x.loc = { line, s - bol + 1 };
		x.sep = sep;
		sep = false;
		L.toks.push_back(x);
		return L.toks.back();
	};
	while (p < t.size())
	{
		char c = t[p];
		if (c == '\n') { ++p; ++line; bol = p; sep = true; continue; }
		if (c == ' ' || c == '\t' || c == ',' || c == '\r') { ++p; sep = true; continue; }
		if (c == '#')
		{
			while (p < t.size() && t[p] != '\n' && t[p] != '\r')
			{
				size_t n = sourceChar(t, p);
				if (!n) { L.ambiguous = true; n = 1; } // other bytes in comments: not judged
				p += n;
			}
			sep = true;
			continue;
		}
		if (std::string_view("!$():=@[]{|}&").find(c) != std::string_view::npos) { size_t s = p++; push(Tok::Punct, s); continue; }
		if (c == '.')
		{
			if (t.compare(p, 3, "...") != 0) return fail();
			size_t s = p;
			p += 3;
			push(Tok::Punct, s);
			continue;
		}
		if (nameStart(c))
		{
			size_t s = p;
			while (p < t.size() && (nameStart(t[p]) || digit(t[p]))) ++p;
			push(Tok::Name, s);
			continue;
		}
		if (c == '-' || digit(c))
		{
			size_t s = p;
			bool fl = false;
			if (c == '-') ++p;
			if (p >= t.size() || !digit(t[p])) return fail();
			if (t[p] == '0') ++p;
			else while (p < t.size() && digit(t[p])) ++p;
			if (p < t.size() && t[p] == '.')
			{
				if (p + 1 < t.size() && digit(t[p + 1]))
				{
					fl = true;
					++p;
					while (p < t.size() && digit(t[p])) ++p;
				}
				else
				{
					// "1..." could be an integer followed by an ellipsis
					if (t.compare(p, 3, "...") == 0) L.ambiguous = true;
					return fail();
				}
			}
			if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
			{
				size_t q = p + 1;
				if (q < t.size() && (t[q] == '+' || t[q] == '-')) ++q;
				if (q < t.size() && digit(t[q]))
				{
					fl = true;
					p = q;
					while (p < t.size() && digit(t[p])) ++p;
				}
			}
			bool glued = p < t.size() && (nameStart(t[p]) || digit(t[p]) || t[p] == '.');
			if (glued) L.ambiguous = true;
			push(fl ? Tok::Float : Tok::Int, s).glued = glued;
			continue;
		}
		if (t.compare(p, 3, "\"\"\"") == 0)
		{
			size_t s = p, sl = line, sb = bol;
			p += 3;
			std::string raw;
			bool closed = false;
			while (p < t.size())
			{
				if (t.compare(p, 4, "\\\"\"\"") == 0) { raw += "\"\"\""; p += 4; continue; }
				if (t.compare(p, 3, "\"\"\"") == 0) { p += 3; closed = true; break; }
				size_t n = sourceChar(t, p);
				if (!n) return fail();
				raw += t.substr(p, n);
				if (t[p] == '\n') { ++line; bol = p + 1; }
				p += n;
			}
			if (!closed) return fail();
			auto& x = push(Tok::Block, s);
			x.loc = { sl, s - sb + 1 };
			x.raw = raw;
			x.val = blockStringValue(raw);
			continue;
		}
		if (c == '"')
		{
			size_t s = p++;
			std::string v;
			bool closed = false, bad = false;
			while (p < t.size())
			{
				if (t[p] == '"') { ++p; closed = true; break; }
				if (t[p] == '\n' || t[p] == '\r') return fail();
				if (t[p] != '\\')
				{
					size_t n = sourceChar(t, p);
					if (!n) return fail();
					v += t.substr(p, n);
					p += n;
					continue;
				}
				++p;
				if (p >= t.size()) return fail();
				char e = t[p++];
				switch (e)
				{
					case '"': case '\\': case '/': v += e; break;
					case 'b': v += '\b'; break;
					case 'f': v += '\f'; break;
					case 'n': v += '\n'; break;
					case 'r': v += '\r'; break;
					case 't': v += '\t'; break;
					case 'u':
					{
						auto hex = [&](size_t at) -> int {
							if (at + 4 > t.size()) return -1;
							int r = 0;
							for (size_t i = at; i < at + 4; ++i)
							{
								char h = t[i];
								int d = digit(h) ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1;
								if (d < 0) return -1;
								r = r * 16 + d;
							}
							return r;
						};
						int a = hex(p);
						if (a < 0) return fail();
						p += 4;
						if (a >= 0xD800 && a <= 0xDBFF)
						{
							int b = t.compare(p, 2, "\\u") == 0 ? hex(p + 2) : -1;
							if (b >= 0xDC00 && b <= 0xDFFF) { p += 6; utf8(v, 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00)); }
							else bad = true;
						}
						else if (a >= 0xDC00 && a <= 0xDFFF) bad = true;
						else utf8(v, a);
						break;
					}
					default: return fail();
				}
			}
			if (!closed) return fail();
			auto& x = push(Tok::Str, s);
			x.val = v;
			x.badSurrogate = bad;
			continue;
		}
		return fail();
	}
	Tok e;
	e.off = t.size();
	e.loc = { line, t.size() - bol + 1 };
	e.sep = sep;
	L.toks.push_back(e);
	return L;
}

struct Val
{
	enum K { Var, Int, Float, Str, Bool, Null, Enum, List, Obj } k = Null;
	std::string text; // name, spelling or decoded string
	std::string raw;  // undedented block string
	bool block = false, badSurrogate = false;
	std::vector<Val> list;
	std::vector<std::pair<std::string, Val>> obj;
	std::vector<Loc> objLocs;
	Loc loc;
};

struct Type
{
	enum K { Named, List, NonNull } k = Named;
	std::string name;
	std::shared_ptr<Type> of;
	std::string str() const
	{
		return k == Named ? name : k == List ? "[" + of->str() + "]" : of->str() + "!";
	}
	const Type& strip() const { return k == NonNull ? *of : *this; }
	const std::string& leaf() const { return k == Named ? name : of->leaf(); }
};
using TypeP = std::shared_ptr<Type>;

struct Arg
{
	std::string name;
	Val val;
	Loc loc;
};
struct Dir
{
	std::string name;
	std::vector<Arg> args;
	Loc loc;
};
struct Sel
{
	enum K { Field, Spread, Inline } k = Field;
	std::string alias, name, cond; // cond: type condition of an inline fragment
	std::vector<Arg> args;
	std::vector<Dir> dirs;
	std::vector<Sel> sels;
	bool hasSels = false;
	Loc loc;
	const std::string& key() const { return alias.empty() ? name : alias; }
};
struct VarDef
{
	std::string name;
	TypeP type;
	std::optional<Val> def;
	Loc loc;
};
struct Op
{
	std::string type = "query", name;
	std::vector<VarDef> vars;
	std::vector<Dir> dirs;
	std::vector<Sel> sels;
	Loc loc;
	bool shorthand = false;
};
struct Frag
{
	std::string name, cond;
	std::vector<Dir> dirs;
	std::vector<Sel> sels;
	Loc loc;
};

struct InputDef
{
	std::string desc, name;
	TypeP type;
	std::optional<Val> def;
	std::vector<Dir> dirs;
};
struct FieldDef
{
	std::string desc, name;
	std::vector<InputDef> args;
	TypeP type;
	std::vector<Dir> dirs;
};
struct EnumValDef
{
	std::string desc, name;
	std::vector<Dir> dirs;
};
struct TypeDef
{
	enum K { Schema, Scalar, Object, Interface, Union, Enum, Input, Directive } k = Object;
	bool extend = false;
	std::string desc, name;
	std::vector<std::string> implements, members, locations;
	std::vector<Dir> dirs;
	std::vector<FieldDef> fields;
	std::vector<EnumValDef> values;
	std::vector<InputDef> inputs; // input fields or directive arguments
	std::vector<std::pair<std::string, std::string>> ops;
	bool hasBody = false;
};

struct Doc
{
	std::vector<Op> ops;
	std::vector<Frag> frags;
	std::vector<TypeDef> types;
	std::vector<char> order; // 'o', 'f', 't'
};

struct Parsed
{
	bool ok = false;
	bool viable = false;		// the text is a proper prefix of the token sequence of some document
	bool ambiguous = false;
	bool ambiguousExtend = false;
	bool missingSep = false;	// some repetition has no ignored token between two of its elements
	bool sigilSep = false;		// an ignored token between '$' or '@' and its name
	bool varInConst = false;	// a variable where the grammar demands a constant
	bool badSurrogate = false;
	size_t failTok = 0;
	Doc doc;
	Lexed lx;
};

// A recursive descent parser for the whole grammar (executable and type system).
class Parser
{
public:
	explicit Parser(Parsed& r) : R(r), T(r.lx.toks) {}

	bool document()
	{
		try
		{
			do definition();
			while (T[p].k != Tok::End);
			return true;
		}
		catch (const Fail&)
		{
			R.failTok = p;
			R.viable = T[p].k == Tok::End;
			return false;
		}
	}

private:
	struct Fail {};
	Parsed& R;
	std::vector<Tok>& T;
	size_t p = 0;

	[[noreturn]] void fail() { throw Fail {}; }
	bool isP(const char* s) const { return T[p].k == Tok::Punct && T[p].text == s; }
	bool isN(const char* s) const { return T[p].k == Tok::Name && T[p].text == s; }
	bool eatP(const char* s) { if (!isP(s)) return false; ++p; return true; }
	void needP(const char* s) { if (!eatP(s)) fail(); }
	bool eatN(const char* s) { if (!isN(s)) return false; ++p; return true; }
	std::string name() { if (T[p].k != Tok::Name) fail(); return T[p++].text; }
	// between two elements of a repetition
	void element(bool first) { if (!first && !T[p].sep) R.missingSep = true; }

	Val value(bool isConst)
	{
		Val v;
		auto& t = T[p];
		v.loc = t.loc;
		switch (t.k)
		{
			case Tok::Int: v.k = Val::Int; v.text = t.text; ++p; return v;
			case Tok::Float: v.k = Val::Float; v.text = t.text; ++p; return v;
			case Tok::Str:
			case Tok::Block:
				v.k = Val::Str;
				v.text = t.val;
				v.raw = t.raw;
				v.block = t.k == Tok::Block;
				v.badSurrogate = t.badSurrogate;
				if (t.badSurrogate) R.badSurrogate = true;
				++p;
				return v;
			case Tok::Name:
				v.text = t.text;
				v.k = t.text == "null" ? Val::Null : t.text == "true" || t.text == "false" ? Val::Bool : Val::Enum;
				++p;
				return v;
			case Tok::Punct: break;
			default: fail();
		}
		if (eatP("$"))
		{
			v.k = Val::Var;
			glue();
			v.text = name();
			if (isConst) R.varInConst = true;
			return v;
		}
		if (eatP("["))
		{
			v.k = Val::List;
			bool first = true;
			while (!isP("]")) { element(first); first = false; v.list.push_back(value(isConst)); }
			++p;
			return v;
		}
		if (eatP("{"))
		{
			v.k = Val::Obj;
			bool first = true;
			while (!isP("}"))
			{
				element(first);
				first = false;
				v.objLocs.push_back(T[p].loc);
				auto n = name();
				needP(":");
				v.obj.emplace_back(n, value(isConst));
			}
			++p;
			return v;
		}
		fail();
	}
	// '$' and its name, '@' and its name are separate tokens: ignored tokens are allowed between them
	void glue() { if (T[p].sep && T[p].k == Tok::Name) R.sigilSep = true; }

	TypeP type()
	{
		auto t = std::make_shared<Type>();
		if (eatP("["))
		{
			t->k = Type::List;
			t->of = type();
			needP("]");
		}
		else t->name = name();
		if (eatP("!"))
		{
			auto n = std::make_shared<Type>();
			n->k = Type::NonNull;
			n->of = t;
			return n;
		}
		return t;
	}
	std::vector<Arg> arguments(bool isConst)
	{
		std::vector<Arg> a;
		if (!eatP("(")) return a;
		bool first = true;
		do
		{
			element(first);
			first = false;
			Arg x;
			x.loc = T[p].loc;
			x.name = name();
			needP(":");
			x.val = value(isConst);
			a.push_back(x);
		} while (!isP(")"));
		++p;
		return a;
	}
	std::vector<Dir> directives(bool isConst)
	{
		std::vector<Dir> d;
		bool first = true;
		while (isP("@"))
		{
			element(first);
			first = false;
			Dir x;
			x.loc = T[p].loc;
			++p;
			glue();
			x.name = name();
			x.args = arguments(isConst);
			d.push_back(x);
		}
		return d;
	}
	std::vector<Sel> selectionSet()
	{
		std::vector<Sel> s;
		needP("{");
		bool first = true;
		do
		{
			element(first);
			first = false;
			s.push_back(selection());
		} while (!isP("}"));
		++p;
		return s;
	}
	Sel selection()
	{
		Sel s;
		s.loc = T[p].loc;
		if (eatP("..."))
		{
			if (T[p].k == Tok::Name && T[p].text != "on")
			{
				s.k = Sel::Spread;
				s.name = name();
				s.dirs = directives(false);
				return s;
			}
			s.k = Sel::Inline;
			if (eatN("on")) s.cond = name();
			s.dirs = directives(false);
			s.sels = selectionSet();
			s.hasSels = true;
			return s;
		}
		s.name = name();
		if (eatP(":"))
		{
			s.alias = s.name;
			s.name = name();
		}
		s.args = arguments(false);
		s.dirs = directives(false);
		if (isP("{"))
		{
			s.hasSels = true;
			s.sels = selectionSet();
		}
		return s;
	}
	std::string description()
	{
		if (T[p].k == Tok::Str || T[p].k == Tok::Block)
		{
			if (T[p].badSurrogate) R.badSurrogate = true;
			return T[p++].val;
		}
		return "";
	}
	InputDef inputDef()
	{
		InputDef d;
		d.desc = description();
		d.name = name();
		needP(":");
		d.type = type();
		if (eatP("=")) d.def = value(true);
		d.dirs = directives(true);
		return d;
	}
	std::vector<InputDef> inputDefs(const char* open, const char* close)
	{
		std::vector<InputDef> v;
		needP(open);
		bool first = true;
		do { element(first); first = false; v.push_back(inputDef()); } while (!isP(close));
		++p;
		return v;
	}
	void fields(TypeDef& d)
	{
		needP("{");
		d.hasBody = true;
		bool first = true;
		do
		{
			element(first);
			first = false;
			FieldDef f;
			f.desc = description();
			f.name = name();
			if (isP("(")) f.args = inputDefs("(", ")");
			needP(":");
			f.type = type();
			f.dirs = directives(true);
			d.fields.push_back(f);
		} while (!isP("}"));
		++p;
	}
	void rootOps(TypeDef& d)
	{
		needP("{");
		d.hasBody = true;
		bool first = true;
		do
		{
			element(first);
			first = false;
			auto n = name();
			if (n != "query" && n != "mutation" && n != "subscription") { --p; fail(); }
			needP(":");
			d.ops.emplace_back(n, name());
		} while (!isP("}"));
		++p;
	}
	void definition()
	{
		if (isP("{"))
		{
			Op o;
			o.loc = T[p].loc;
			o.shorthand = true;
			o.sels = selectionSet();
			R.doc.ops.push_back(o);
			R.doc.order.push_back('o');
			return;
		}
		if (isN("query") || isN("mutation") || isN("subscription"))
		{
			Op o;
			o.loc = T[p].loc;
			o.type = name();
			if (T[p].k == Tok::Name) o.name = name();
			if (eatP("("))
			{
				bool first = true;
				do
				{
					element(first);
					first = false;
					VarDef v;
					v.loc = T[p].loc;
					needP("$");
					glue();
					v.name = name();
					needP(":");
					v.type = type();
					if (eatP("=")) v.def = value(true);
					o.vars.push_back(v);
				} while (!isP(")"));
				++p;
			}
			o.dirs = directives(false);
			o.sels = selectionSet();
			R.doc.ops.push_back(o);
			R.doc.order.push_back('o');
			return;
		}
		if (isN("fragment"))
		{
			Frag f;
			f.loc = T[p].loc;
			++p;
			if (isN("on")) fail();
			f.name = name();
			if (!eatN("on")) fail();
			f.cond = name();
			f.dirs = directives(false);
			f.sels = selectionSet();
			R.doc.frags.push_back(f);
			R.doc.order.push_back('f');
			return;
		}
		typeSystem();
		R.doc.order.push_back('t');
	}
	void typeSystem()
	{
		TypeDef d;
		bool described = T[p].k == Tok::Str || T[p].k == Tok::Block;
		d.desc = description();
		if (!described && eatN("extend")) d.extend = true;
		if (!described && eatN("schema"))
		{
			d.k = TypeDef::Schema;
			d.dirs = directives(true);
			// "extend schema @d {" may also end there, with a query in shorthand form after it: not judged.
			if (d.extend && !d.dirs.empty() && isP("{")) R.ambiguousExtend = true;
			if (d.extend ? isP("{") || d.dirs.empty() : true) { rootOps(d); R.ambiguousExtend = false; }
		}
		else if (eatN("scalar"))
		{
			d.k = TypeDef::Scalar;
			d.name = name();
			d.dirs = directives(true);
			if (d.extend && d.dirs.empty()) fail();
		}
		else if (eatN("type"))
		{
			d.k = TypeDef::Object;
			d.name = name();
			if (eatN("implements"))
			{
				eatP("&");
				do d.implements.push_back(name());
				while (eatP("&"));
			}
			d.dirs = directives(true);
			if (isP("{")) fields(d);
			else if (d.extend && d.implements.empty() && d.dirs.empty()) fail();
		}
		else if (eatN("interface"))
		{
			d.k = TypeDef::Interface;
			d.name = name();
			d.dirs = directives(true);
			if (isP("{")) fields(d);
			else if (d.extend && d.dirs.empty()) fail();
		}
		else if (eatN("union"))
		{
			d.k = TypeDef::Union;
			d.name = name();
			d.dirs = directives(true);
			if (eatP("="))
			{
				d.hasBody = true;
				eatP("|");
				do d.members.push_back(name());
				while (eatP("|"));
			}
			else if (d.extend && d.dirs.empty()) fail();
		}
		else if (eatN("enum"))
		{
			d.k = TypeDef::Enum;
			d.name = name();
			d.dirs = directives(true);
			if (eatP("{"))
			{
				d.hasBody = true;
				bool first = true;
				do
				{
					element(first);
					first = false;
					EnumValDef v;
					v.desc = description();
					v.name = name();
					if (v.name == "true" || v.name == "false" || v.name == "null") { --p; fail(); }
					v.dirs = directives(true);
					d.values.push_back(v);
				} while (!isP("}"));
				++p;
			}
			else if (d.extend && d.dirs.empty()) fail();
		}
		else if (eatN("input"))
		{
			d.k = TypeDef::Input;
			d.name = name();
			d.dirs = directives(true);
			if (isP("{")) { d.hasBody = true; d.inputs = inputDefs("{", "}"); }
			else if (d.extend && d.dirs.empty()) fail();
		}
		else if (!d.extend && eatN("directive"))
		{
			d.k = TypeDef::Directive;
			needP("@");
			glue();
			d.name = name();
			if (isP("(")) { d.inputs = inputDefs("(", ")"); if (isN("on") && !T[p].sep) R.missingSep = true; }
			if (!eatN("on")) fail();
			if (isP("|") && !T[p].sep) R.missingSep = true;
			eatP("|");
			static const std::set<std::string> L { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA",
				"SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION" };
			do
			{
				auto n = name();
				if (!L.count(n)) { --p; fail(); }
				d.locations.push_back(n);
			} while (eatP("|"));
		}
		else fail();
		R.doc.types.push_back(d);
	}
};

inline Parsed parse(const std::string& text)
{
	Parsed r;
	r.lx = lex(text);
	r.ambiguous = r.lx.ambiguous;
	if (!r.lx.ok) return r;
	r.ok = Parser(r).document();
	if (r.ambiguousExtend) r.ambiguous = true;
	return r;
}

} // namespace ref
