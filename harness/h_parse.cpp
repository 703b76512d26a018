// P01 / P02: the parser's language and trees against the reference grammar.
#include "mc.h"
#include "ref_ast.h"
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/internal/SyntaxTree.h"
#include <sys/wait.h>
using namespace graphql;

static void dump(const peg::ast_node& n, std::string& o)
{
	o += '(';
	if (n.children.empty())
	{
		auto s = n.string_view();
		// the spelling of an empty list or object includes what is ignored inside it
		o += !s.empty() && (s[0] == '{' || s[0] == '[') ? std::string(s.substr(0, 1)) : std::string(s);
	}
	for (auto& c : n.children) dump(*c, o);
	o += ')';
}

struct Outcome
{
	bool ok = false;
	size_t defs = 0;
	std::string tree, error;
};

static Outcome run(bool schema, const std::string& t)
{
	Outcome r;
	try
	{
		auto a = schema ? peg::parseSchemaString(t) : peg::parseString(t);
		if (!a.root) { r.error = "no tree"; return r; }
		r.ok = true;
		r.defs = a.root->children.size();
		dump(*a.root, r.tree);
	}
	catch (const std::exception& ex) { r.error = ex.what(); }
	return r;
}

struct P
{
	mc::Ctx& c;
	bool schema;

	std::string quirk(const ref::Parsed& p)
	{
		std::string q;
		if (p.missingSep) q += "missing-separator";
		else if (p.sigilSep) q += "sigil-separator";
		return q;
	}

	// Compares the verdict with the reference grammar; returns the implementation's tree.
	Outcome check(const std::string& t, const char* what, const ref::Parsed* given = nullptr)
	{
		ref::Parsed own;
		if (!given) { own = ref::parse(t); given = &own; }
		const auto& p = *given;
		if (p.ambiguous) return {};
		if (!c.begin(std::string(what) + ": " + t)) return {};
		++c.states;
		++c.transitions;
		++c.traces;
		auto r = run(schema, t);
		c.outcome(std::string(what) + (r.ok ? " accepted" : " rejected"));
		// deviations of the grammar that are recorded as findings have their own signatures
		if (p.ok && (p.missingSep || p.sigilSep))
		{
			if (!r.ok) c.fail(quirk(p), "valid document rejected: " + r.error);
		}
		else if (p.ok && p.varInConst) { if (r.ok) c.fail("variable-in-constant", "a variable is accepted where a constant is required"); }
		else if (p.ok && !r.ok) c.fail("rejects-valid", "valid document rejected: " + r.error);
		else if (!p.ok && r.ok) c.fail("accepts-invalid", "invalid document accepted, tree " + r.tree.substr(0, 300));
		else if (r.ok && r.defs != p.doc.order.size())
			c.fail("partial-tree", "the tree has " + std::to_string(r.defs) + " definitions, the document " + std::to_string(p.doc.order.size()));
		return r;
	}

	static std::string join(const std::vector<std::string>& t)
	{
		std::string s;
		for (auto& x : t) { if (!s.empty()) s += ' '; s += x; if (x == "#") s += '\n'; }
		return s;
	}
	// '$' and '@' are written next to their names
	static std::string joinTight(const std::vector<std::string>& t)
	{
		std::string s;
		bool tight = true;
		for (auto& x : t)
		{
			if (!tight) s += ' ';
			s += x;
			tight = x == "$" || x == "@";
		}
		return s;
	}

	// every token sequence of which each proper prefix can be continued to a document, and every way to leave that set
	void viable(const std::vector<std::string>& alphabet, size_t depth, std::vector<std::string> prefix = {})
	{
		std::vector<std::string> s = prefix;
		std::function<void()> rec = [&] {
			for (auto& a : alphabet)
			{
				if (c.expired("token sequences")) return;
				if (s.size() == prefix.size() + 3 && !c.mine()) continue;
				s.push_back(a);
				auto t = joinTight(s);
				auto p = ref::parse(t);
				bool emit = s.size() > prefix.size() + 3 || c.shard == 0;
				if (emit) check(t, "tokens", &p);
				if ((p.ok || p.viable) && s.size() < prefix.size() + depth) rec();
				s.pop_back();
			}
		};
		rec();
	}
	// every sequence over the alphabet, viable or not
	void all(const std::vector<std::string>& alphabet, size_t depth)
	{
		std::vector<std::string> s;
		std::function<void()> rec = [&] {
			for (auto& a : alphabet)
			{
				if (s.size() == 2 && !c.mine()) continue;
				s.push_back(a);
				if (s.size() > 2 || c.shard == 0) check(joinTight(s), "sequence");
				if (s.size() < depth) rec();
				s.pop_back();
			}
		};
		rec();
	}
	static std::vector<std::string> tokens(const std::string& t)
	{
		std::vector<std::string> v;
		auto l = ref::lex(t);
		for (auto& x : l.toks) if (x.k != ref::Tok::End) v.push_back(x.text);
		return v;
	}
	void edits(const std::string& base, const std::vector<std::string>& alphabet, bool pairs)
	{
		auto t = tokens(base);
		auto one = [&](const std::vector<std::string>& x, const char* w) { if (c.mine()) check(joinTight(x), w); };
		if (c.mine()) check(joinTight(t), "base");
		auto single = [&](const std::vector<std::string>& x, auto&& f) {
			for (size_t i = 0; i < x.size(); ++i) { auto y = x; y.erase(y.begin() + i); f(y); }
			for (size_t i = 0; i + 1 < x.size(); ++i) { auto y = x; std::swap(y[i], y[i + 1]); f(y); }
			for (size_t i = 0; i <= x.size(); ++i)
				for (auto& a : alphabet) { auto y = x; y.insert(y.begin() + i, a); f(y); }
			for (size_t i = 0; i < x.size(); ++i)
				for (auto& a : alphabet) if (a != x[i]) { auto y = x; y[i] = a; f(y); }
			for (size_t i = 0; i < x.size(); ++i) { auto y = x; y.insert(y.begin() + i, x[i]); f(y); }
		};
		single(t, [&](const std::vector<std::string>& y) { one(y, "edit"); });
		if (pairs)
			for (size_t i = 0; i < t.size(); ++i)
			{
				if (c.expired("pairs of edits")) return;
				auto y = t;
				y.erase(y.begin() + i);
				single(y, [&](const std::vector<std::string>& z) { one(z, "edit2"); });
				for (auto& a : alphabet)
				{
					if (a == t[i]) continue;
					auto r = t;
					r[i] = a;
					for (size_t j = i + 1; j < r.size(); ++j)
					{
						auto d = r;
						d.erase(d.begin() + j);
						one(d, "edit2");
						for (auto& b : alphabet) { auto e = r; e[j] = b; one(e, "edit2"); }
					}
				}
			}
	}
	// names which resemble a word of the grammar, in the place of every name and word
	void lookalikes(const std::string& base)
	{
		static const std::vector<std::string> words = [] {
			std::set<std::string> o;
			for (std::string w : { "on", "fragment", "query", "mutation", "subscription", "true", "false", "null", "extend", "schema", "scalar", "type", "implements", "interface", "union", "enum", "input", "directive", "repeatable", "FIELD", "FIELD_DEFINITION", "QUERY", "ENUM", "ENUM_VALUE" })
			{
				auto upper = w, title = w;
				for (auto& ch : upper) ch = char(std::toupper(static_cast<unsigned char>(ch)) == ch ? std::tolower(static_cast<unsigned char>(ch)) : std::toupper(static_cast<unsigned char>(ch)));
				title[0] = upper[0];
				for (auto& x : { w, w + "a", w + "Z", w + "_", w + "0", w + w, "a" + w, "_" + w, w.substr(0, w.size() - 1), w.substr(1), upper, title }) o.insert(x);
			}
			return std::vector<std::string>(o.begin(), o.end());
		}();
		auto t = tokens(base);
		for (size_t i = 0; i < t.size(); ++i)
		{
			if (!(std::isalpha(static_cast<unsigned char>(t[i][0])) || t[i][0] == '_')) continue;
			for (auto& w : words)
			{
				if (!c.mine()) continue;
				auto y = t;
				y[i] = w;
				check(joinTight(y), "lookalike");
			}
		}
	}
	// every ignorable text in every gap: same verdict, same tree
	void spelling(const std::string& base, bool pairs)
	{
		auto t = tokens(base);
		static const std::vector<std::string> gaps { "", " ", "\t", ",", "\n", "\r", "\r\n", "#c\n", "#\"{\r", "# c\r\n", ", ,", " \n\t", "#a\n#b\n", "\v", "\f", "\xC2\xA0", "\xEF\xBB\xBF" };
		auto plain = joinTight(t);
		auto want = run(schema, plain);
		auto text = [&](size_t i, const std::string& g, size_t j, const std::string& h) {
			std::string s;
			for (size_t k = 0; k <= t.size(); ++k)
			{
				if (k == i) s += g;
				else if (k == j) s += h;
				else if (k && k < t.size() && t[k - 1] != "$" && t[k - 1] != "@") s += ' ';
				if (k < t.size()) s += t[k];
			}
			return s;
		};
		auto one = [&](const std::string& s) {
			auto p = ref::parse(s);
			auto r = check(s, "spelling", &p);
			if (!r.ok || p.ambiguous) return;
			// same tokens: same tree
			bool same = true;
			size_t n = 0;
			for (auto& x : p.lx.toks) if (x.k != ref::Tok::End) { if (n >= t.size() || x.text != t[n]) same = false; ++n; }
			if (same && n == t.size() && want.ok && r.tree != want.tree) c.fail("spelling-changes-tree", r.tree.substr(0, 300) + " instead of " + want.tree.substr(0, 300));
		};
		for (size_t i = 0; i <= t.size(); ++i)
			for (auto& g : gaps)
			{
				if (c.mine()) one(text(i, g, t.size() + 5, ""));
				if (pairs)
					for (size_t j = i + 1; j <= t.size(); ++j)
						for (auto& h : gaps)
						{
							if (!c.mine()) continue;
							one(text(i, g, j, h));
						}
			}
		// all gaps the same
		for (auto& g : gaps)
		{
			if (!c.mine()) continue;
			std::string s;
			for (size_t k = 0; k < t.size(); ++k) { if (k && t[k - 1] != "$" && t[k - 1] != "@") s += g; s += t[k]; }
			one(s);
			one("\xEF\xBB\xBF" + s + g);
		}
	}
	// every string of characters in a context
	void characters(const std::string& pre, const std::string& post, const std::string& alphabet, size_t depth)
	{
		std::string s;
		std::function<void()> rec = [&] {
			if (s.size() != 2 || c.mine())
			{
				if (s.size() >= 2 || c.shard == 0) check(pre + s + post, "characters");
			}
			else return;
			if (s.size() == depth) return;
			for (char ch : alphabet) { s += ch; rec(); s.pop_back(); }
		};
		rec();
	}
	void bytes(const std::string& pre, const std::string& post)
	{
		for (int a = 0; a < 256; ++a)
		{
			if (!c.mine()) continue;
			check(pre + char(a) + post, "byte");
			for (int b = 0; b < 256; b += (a >= 0xC0 ? 1 : 37)) check(pre + char(a) + char(b) + post, "byte2");
			if (a >= 0xE0)
				for (int b = 0x7f; b <= 0xC0; ++b)
					for (int d : { 0x41, 0x7f, 0x80, 0x9f, 0xA0, 0xBF, 0xC0 })
					{
						auto t = pre + char(a) + char(b) + char(d) + post;
						if (a >= 0xF0) t = pre + char(a) + char(b) + char(d) + "\x80" + post;
						if (a >= 0xF0 && a <= 0xF4) continue; // beyond U+FFFF: see DESIGN.md
						check(t, "byte3");
					}
		}
	}
	// rows of every size up to a bound, one that differs at every place
	void rows()
	{
		auto row = [](int n, const std::function<std::string(int)>& item) {
			std::string o;
			for (int i = 0; i < n; ++i) o += item(i);
			return o;
		};
		auto one = [&](const std::string& t) { if (c.mine()) check(t, "row"); };
		for (int n : mc::sizes(c))
		{
			auto id = [](int i) { return " a" + std::to_string(i); };
			std::string name(n, 'n');
			if (schema)
			{
				for (auto& t : { "scalar " + name, "type " + name + "{" + name + ":" + name + "}", "directive@" + name + " on FIELD", "enum " + name + "{" + name + "}", "union " + name + "=" + name })
					one(t);
				one(row(n, [&](int i) { return " scalar" + id(i); }));
			}
			else
				for (auto& t : { "{" + name + "}", "query " + name + "{a}", "{..." + name + "}fragment " + name + " on " + name + "{a}", "{a(" + name + ":$" + name + ")@" + name + "}", "{a:" + name + "}", "{a(x:" + name + ")}", "{a(x:1" + std::string(n, '0') + ")}", "{a(x:0." + std::string(n, '7') + "e" + std::string(n, '1') + ")}", "{a(x:0" + std::string(n, '1') + ")}" })
					one(t);
			one((schema ? "scalar A#" : "{a #") + std::string(n, '"') + (schema ? "\nscalar B" : "\nb}"));
			one(std::string(n, '\n') + (schema ? "scalar A" : "{a}") + std::string(n, ','));
			one(row(n, [&](int i) { return std::string(i % 2 ? "#\r" : "#\n"); }) + (schema ? "scalar A" : "{a}"));
			for (int j : mc::places(n))
			{
				auto odd = [&](const std::string& usual, const std::string& other) { return row(n, [&](int i) { return i == j ? other : usual; }); };
				std::vector<std::string> strings;
				for (auto* x : { "\\n", "\\u00e9", "\\x", "\n", "\\", "\xC3\xA9", "\xC3", "\"", "\x01" }) strings.push_back("\"" + odd("b", x) + "\"");
				for (auto* x : { "\\\"\"\"", "\"\"", "\"\"\"", "\n", "\r", "\\", "\x01" }) strings.push_back("\"\"\"" + odd("b", x) + "\"\"\"");
				for (auto& s : strings)
				{
					one(schema ? s + "scalar A" : "{a(x:" + s + ")}");
					if (schema) one("input A{a:Int=" + s + "}");
				}
				std::vector<std::string> usual, other;
				if (schema)
				{
					for (auto* bad : { "", "a", "a:", "a:[Int", "a:Int=", "a:Int=$v", "\"d\"", "\"d\"a:Int", "a:Int@d" })
					{
						one("type A{" + row(n, [&](int i) { return i == j ? std::string(" ") + bad : id(i) + ":Int"; }) + "}");
						one("input A{" + row(n, [&](int i) { return i == j ? std::string(" ") + bad : id(i) + ":Int"; }) + "}");
						one("type A{a(" + row(n, [&](int i) { return i == j ? std::string(" ") + bad : id(i) + ":Int"; }) + "):Int}");
					}
					for (auto* bad : { "", "true", "1", "\"d\"", "\"d\" X", "X@d", "X:" })
						one("enum A{" + row(n, [&](int i) { return i == j ? std::string(" ") + bad : id(i); }) + "}");
					for (auto* bad : { "", "|", "|B", "&B", "B", "|B|" }) one("union A=B" + odd("|B", bad));
					for (auto* bad : { "", "&", "&B", "|B", "B" }) one("type A implements B" + odd("&B", bad) + "{a:Int}");
					for (auto* bad : { "", "|", "|FIELD", "|Field", "FIELD", "&FIELD" }) one("directive@a on FIELD" + odd("|QUERY", bad));
					for (auto* bad : { "@", "@d(", "@d(x:1)", "@d()", "d" }) one("scalar A" + odd("@d", bad));
					for (auto* bad : { "scalar", "extend scalar B", "type", "\"d\"", "\"d\"extend scalar B@d", "{a}" }) one(row(n, [&](int i) { return i == j ? std::string(" ") + bad : " scalar" + id(i); }));
				}
				else
				{
					for (auto* bad : { "", "a:", "...", "...F", "a(", "a()", "1", "a{}", "a{b}", ":a", "@d", "a@d" })
						one("{a" + row(n, [&](int i) { return i == j ? std::string(" ") + bad : id(i); }) + "}");
					for (auto* bad : { "", "a", "a:", "a:$", "a:$v", "a:[", "a:{}", "a:1.", "a:01", "a:\"" })
					{
						one("{a(" + row(n, [&](int i) { return i == j ? std::string(" ") + bad : id(i) + ":1"; }) + ")}");
						one("{a(x:{" + row(n, [&](int i) { return i == j ? std::string(" ") + bad : id(i) + ":1"; }) + "})}");
					}
					for (auto* bad : { "", "[", "]", "[1]", "1.", "true", "$v", "-", "{", "\"s\"" }) one("{a(x:[" + odd(" 1", std::string(" ") + bad) + "])}");
					for (auto* bad : { "", "$a", "$a:", "$a:Int=1", "$a:[Int", "a:Int", "$a:Int@d", "$a:Int=$b" })
						one("query(" + row(n, [&](int i) { return i == j ? std::string(" ") + bad : " $" + id(i).substr(1) + ":Int"; }) + "){a}");
					for (auto* bad : { "@", "@d(", "@d(x:1)", "@d()", "{b}" }) one("{a" + odd("@d", bad) + "}");
					for (auto* bad : { "query", "query{", "{b}", "fragment F on T{a}", "fragment on on T{a}", "scalar A", "mutation M{b}" }) one(row(n, [&](int i) { return i == j ? std::string(" ") + bad : " query" + id(i) + "{a}"; }));
				}
			}
		}
	}
	// Nested types must not take time exponential in their depth.
	void nesting()
	{
		auto deep = [&](size_t n, const std::string& open, const std::string& mid, const std::string& close, const char* what) {
			if (!c.mine()) return;
			std::string t = schema ? "type A{a:" : "query($a:", e = schema ? "}" : "){a}";
			for (size_t i = 0; i < n; ++i) t += open;
			t += mid;
			for (size_t i = 0; i < n; ++i) t += close;
			check(t + e, what);
		};
		for (size_t n = 0; n <= 13; ++n) { deep(n, "[", "Int", "]", "nested type"); deep(n, "[", "Int", "]!", "nested type"); deep(n, "[", "Int!", "]", "nested type"); }
		auto doc = [&](size_t n, const std::string& pre, const std::string& open, const std::string& mid, const std::string& close, const std::string& post) {
			if (!c.mine()) return;
			std::string t = pre;
			for (size_t i = 0; i < n; ++i) t += open;
			t += mid;
			for (size_t i = 0; i < n; ++i) t += close;
			check(t + post, "nesting");
		};
		for (size_t n : { 1, 2, 5, 20, 64 })
			if (!schema)
			{
				doc(n, "{", "a{", "b", "}", "}");
				doc(n, "{", "...on T{", "b", "}", "}");
				doc(n, "{", "...@d{", "b", "}", "}");
				doc(n, "{a(x:", "[", "1", "]", ")}");
				doc(n, "{a(x:", "{k:", "1", "}", ")}");
				doc(n, "{a(x:", "{k:[", "$v", "]}", ")}");
				doc(n, "{", "a(x:1)@d(y:2){", "b", "}", "}");
				doc(n, "{", "a{", "b", "}", "");
			}
			else
			{
				doc(n, "input A{a:Int=", "[", "1", "]", "}");
				doc(n, "input A{a:Int=", "{k:", "1", "}", "}");
				doc(n, "scalar A", "@d(x:1)", " ", "", "");
			}
		// 2^40 steps if nesting doubles the work: cannot finish; linear: microseconds
		if (c.shard == c.nshards - 1 && c.begin("exponential nesting of 40 list types"))
		{
			pid_t pid = fork();
			if (pid == 0)
			{
				std::string t = schema ? "type A{a:" : "query($a:", e = schema ? "}" : "){a}";
				t += std::string(40, '[') + "Int" + std::string(40, ']') + e;
				alarm(4);
				_exit(run(schema, t).ok ? 0 : 1);
			}
			int st = 0;
			waitpid(pid, &st, 0);
			if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) c.fail("nested-list-type-exponential", "parsing 40 nested list types takes more than 4 s");
			else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) c.fail("nested-list-type", "40 nested list types are not accepted");
		}
	}
};

static const std::vector<std::string> EXEC_ALPHA { "{", "}", "(", ")", "a", ":", "$", "@", "...", "on", "fragment", "query", "1", "\"s\"", "[", "]", "=", "!", "null", "true", "-2.5e3", "\"\"\"b\"\"\"", "|", "&", "mutation", "subscription" };
static const std::vector<std::string> EXEC_SMALL { "{", "}", "(", ")", "a", ":", "$", "@", "...", "on", "fragment", "query", "1", "[", "]", "=", "!" };
static const std::vector<std::string> SDL_ALPHA { "{", "}", "(", ")", "a", ":", "@", "=", "|", "&", "!", "[", "]", "\"s\"", "\"\"\"b\"\"\"", "1", "null", "true", "on", "extend", "schema", "scalar", "type", "interface", "union", "enum", "input", "directive", "implements", "query", "FIELD", "ENUM_VALUE", "$", "..." };

static const std::vector<std::string> EXEC_BASE {
	"{a}", "query{a}", "query Q{a b}", "mutation M{a:b}", "subscription S($a:Int){a}",
	"query Q($a:Int=1,$b:[String!]!=[\"x\"]){a(x:$a,y:$b)}",
	"query Q($a:In={k:[1 2]m:{n:null}})@d(x:$a){a@include(if:true)@b{c}}",
	"{a(i:1 f:-1.5 e:1e3 g:1.5E-2 s:\"q\\n\\u00e9\" b:true n:null E:RED l:[1[2]]o:{p:1 q:{}}v:$v)}",
	"{...F ...on T{a}...{b}...@d{c}...F@d(x:1)...on T@d{e}}fragment F on T{a}",
	"fragment F on T@d{a}fragment G on on{a}{a}query Q{b}",
	"{on fragment query mutation subscription true false null type on:on query:query(true:1 null:2 on:3)}",
	"{a(s:\"\"\"block \"q\" \\\"\"\" \\n end\"\"\" t:\"\" u:\"\"\"\"\"\")}",
	"query fragment{a}query query{a}query on{a}mutation mutation{a}",
	"query($a:[[Int!]!]!$b:Int@c){a}",
	"{a} type T{a:Int} {b}",
};
static const std::vector<std::string> SDL_BASE {
	"schema{query:Q}", "schema@d{query:Q mutation:M subscription:S}", "scalar S", "\"d\"scalar S@d(x:1)",
	"type A{a:Int}", "\"\"\"d\"\"\"type A implements B&C@d{\"f\"a(\"x\"x:Int=1@d y:[In!]!={k:[1]}):[A!]!@deprecated(reason:\"r\")b:B}",
	"type A", "type A implements&B", "type A@d", "interface I{a:Int}", "\"d\"interface I@d{a(x:I):I!}", "interface I",
	"union U=A", "\"d\"union U@d=|A|B|C", "union U", "enum E{A}", "\"d\"enum E@d{\"x\"A@deprecated B@d(x:1)}", "enum E",
	"input I{a:Int=1}", "\"d\"input I@d{\"x\"a:[Int!]=[1 2]@d b:I}", "input I",
	"directive@d on FIELD", "\"x\"directive@d(a:Int=1 b:[S!]!)on|FIELD|FIELD_DEFINITION|ENUM|ENUM_VALUE|QUERY",
	"extend schema@d", "extend schema{mutation:M}", "extend schema@d{mutation:M}", "extend scalar S@d", "extend type A{a:Int}", "extend type A implements B", "extend type A implements B@d", "extend type A implements B@d{a:Int}", "extend type A@d",
	"extend interface I@d", "extend interface I{a:Int}", "extend interface I@d{a:Int}", "extend union U=A", "extend union U@d", "extend union U@d=A|B", "extend enum E{A}", "extend enum E@d", "extend enum E@d{A}",
	"extend input I{a:Int}", "extend input I@d", "extend input I@d{a:Int}",
	"type type{type:type}enum enum{enum input}union union=union|type input input{input:input}interface interface{on:extend implements:schema query:directive}",
	"type A{a:Int}scalar S type B{a:A}{a}fragment F on A{b}",
};

static void exec(mc::Ctx& c)
{
	P p { c, false };
	p.all(EXEC_ALPHA, c.thorough ? 5 : 4);
	p.viable(EXEC_SMALL, c.thorough ? 9 : 7);
	p.viable({ "{", "}", "(", ")", "a", ":", "1", "$", "[", "]", "\"s\"", "=" }, c.thorough ? 9 : 7, { "{", "a", "(", "a", ":" });
	p.viable({ "{", "}", "(", ")", "a", ":", "Int", "$", "[", "]", "!", "=", "1" }, c.thorough ? 9 : 7, { "query", "(", "$", "a" });
	p.viable({ "{", "}", "a", "...", "on", "@", ":", "(", ")" }, c.thorough ? 9 : 7, { "fragment", "a", "on", "a", "{" });
	for (auto& b : EXEC_BASE) p.lookalikes(b);
	for (auto& b : EXEC_BASE) { p.edits(b, EXEC_ALPHA, c.thorough); p.spelling(b, c.thorough || b.size() < 40); }
	p.characters("{a(x:", ")}", std::string("\"\\un0dD8x\n\r -1.e+a_#", 20), c.thorough ? 5 : 4);
	p.characters("{a(x:\"", "\")}", std::string("\"\\ub/09aF\n\r", 11), c.thorough ? 6 : 5);
	p.characters("{a(x:\"\"\"", "\"\"\")}", std::string("\"\\n \n\r\t#", 8), c.thorough ? 7 : 6);
	p.characters("{a(x:[", "])}", std::string("-01.eE+9 ", 9), c.thorough ? 7 : 6);
	p.characters("", "", std::string("{}a(:1)\"#\n,$@.\\ _", 17), c.thorough ? 6 : 5);
	p.characters("{", "}", std::string("a1_{}.#\n\r\" :", 12), c.thorough ? 6 : 5);
	for (auto& x : std::vector<std::pair<std::string, std::string>> { { "{a", "}" }, { "{a ", " b}" }, { "{a(x:\"", "\")}" }, { "{a(x:\"\"\"", "\"\"\")}" }, { "", "{a}" }, { "{a}", "" }, { "{a #", "\n}" }, { "{a(x:\"\\", "\")}" }, { "{a(x:\"\\u00", "0\")}" }, { "{a(x:1", ")}" } }) p.bytes(x.first, x.second);
	p.nesting();
	p.rows();
}
static void sdl(mc::Ctx& c)
{
	P p { c, true };
	p.all(SDL_ALPHA, c.thorough ? 4 : 3);
	p.viable(SDL_ALPHA, c.thorough ? 6 : 5);
	for (auto& pre : std::vector<std::vector<std::string>> { { "type", "a" }, { "type", "a", "{", "a" }, { "type", "a", "{", "a", "(", "a" }, { "interface", "a" }, { "union", "a" }, { "enum", "a" }, { "input", "a" }, { "schema" }, { "scalar", "a" }, { "directive", "@", "a" }, { "extend", "schema" }, { "extend", "type", "a" }, { "extend", "union", "a" }, { "extend", "enum", "a" }, { "extend", "input", "a" }, { "extend", "interface", "a" }, { "extend", "scalar", "a" } })
		p.viable({ "{", "}", "(", ")", "a", ":", "@", "=", "|", "&", "!", "[", "]", "\"s\"", "1", "on", "implements", "query", "FIELD", "type" }, c.thorough ? 7 : 5, pre);
	for (auto& b : SDL_BASE) p.lookalikes(b);
	for (auto& b : SDL_BASE) { p.edits(b, SDL_ALPHA, c.thorough); p.spelling(b, c.thorough || b.size() < 30); }
	p.characters("\"", "\"type A", std::string("\"\\ubn09aF\n\r", 11), c.thorough ? 6 : 4);
	p.characters("\"\"\"", "\"\"\"type A", std::string("\"\\n \n\r\t", 7), c.thorough ? 7 : 5);
	p.characters("input A{a:Int=", "}", std::string("\"\\[]{}:1a.$-e ", 14), c.thorough ? 5 : 4);
	for (auto& x : std::vector<std::pair<std::string, std::string>> { { "type A", "{a:Int}" }, { "\"", "\"type A" }, { "", "type A" }, { "type A#", "\n" } }) p.bytes(x.first, x.second);
	p.nesting();
	p.rows();
}
MC_MAIN({ { "exec", exec }, { "sdl", sdl } })
