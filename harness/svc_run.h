// One request on the implementation and on the reference, compared facet by facet.
#pragma once
#include "svc.h"

namespace svc {

enum Facet : unsigned { DATA = 1, CALLS = 2, ARGS = 4, DIRS = 8, EVENTS = 16, ERRORS = 32 };

struct Request
{
	std::string text;
	ref::Parsed p;
	peg::ast ast;
	bool good = false; // parsed by both, valid, and nothing about it is left open by the specification
};

inline bool undecided(const ref::Parsed& p) { return p.varInConst || p.ambiguous; }

inline Request prepare(World& w, const std::string& text)
{
	Request r;
	r.text = text;
	r.p = ref::parse(text);
	if (!r.p.ok || undecided(r.p)) return r;
	ref::Validator v(w.S, r.p.doc);
	if (!v.run() || v.ambiguous) return r;
	// rejected by the implementation because of a known finding of V01: judged there
	ref::Validator q(w.S, r.p.doc, ref::Quirks::bits(31));
	if (!q.run()) return r;
	try { r.ast = peg::parseString(text); }
	catch (const std::exception&) { return r; }
	r.good = true;
	return r;
}

inline bool endsWith(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

// Empty if the implementation's observations equal the reference's, else what differs.
inline std::string differs(const Record& rec, const Actual& a, const Result& r, unsigned facets)
{
	if (!a.ok) return "resolve threw: " + a.thrown;
	if (a.malformed) return "malformed response document";
	if ((facets & DATA) && !r.introspective && a.data != r.data) return "data: expected " + r.data + " but got " + a.data;
	if (facets & ERRORS)
	{
		bool same = a.errors.size() == r.errors.size() && a.hasErrors == !r.errors.empty();
		for (size_t i = 0; same && i < a.errors.size(); ++i)
			same = endsWith(a.errors[i].message, r.errors[i].message) && a.errors[i].path == r.errors[i].path
				&& a.errors[i].line == r.errors[i].line && a.errors[i].col == r.errors[i].col;
		if (!same)
		{
			std::string o = "errors: expected";
			for (auto& e : r.errors) o += " [" + e.str() + "]";
			o += " but got";
			for (auto& e : a.errors) o += " [" + e.str() + "]";
			return o;
		}
	}
	else if (a.hasErrors)
	{
		std::string o = "unexpected errors:";
		for (auto& e : a.errors) o += " [" + e.str() + "]";
		return o;
	}
	if (facets & (CALLS | ARGS | DIRS))
	{
		auto key = [&](const Call& c) {
			std::string o = c.path + " " + c.object + "." + c.field + " context " + std::to_string(c.context);
			if (facets & ARGS) o += " args " + c.args;
			if (facets & DIRS) o += " op " + c.dOp + " def " + c.dDef + " spread " + c.dSpread + " inline " + c.dInline + " field " + c.dField;
			return o;
		};
		std::vector<std::string> x, y;
		for (auto& c : r.calls) x.push_back(key(c));
		for (auto& c : rec.calls) y.push_back(key(c));
		std::sort(x.begin(), x.end());
		std::sort(y.begin(), y.end());
		if (x != y)
		{
			std::string o = "resolver calls:";
			std::vector<std::string> d;
			std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(d));
			for (auto& s : d) o += "\n   missing " + s;
			d.clear();
			std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(d));
			for (auto& s : d) o += "\n   extra   " + s;
			return o;
		}
		if (rec.wrongState) return "a resolver saw another request state";
	}
	if (facets & EVENTS)
	{
		// per object: begin, the accessors of its fields, end
		std::map<std::string, std::string> seq;
		for (auto& e : rec.events)
		{
			if (e.k == Ev::CallK)
			{
				auto path = rec.calls[e.call].path;
				seq[path.substr(0, path.rfind('.'))] += "c";
			}
			else seq[e.path] += (e.k == Ev::Begin ? "b " : "e ") + e.object + "#" + std::to_string(e.id) + ";";
		}
		std::map<std::string, std::string> want;
		std::map<std::string, size_t> calls;
		for (auto& c : r.calls) ++calls[c.path.substr(0, c.path.rfind('.'))];
		for (auto& e : r.objects)
		{
			auto o = e.object + "#" + std::to_string(e.id) + ";";
			want[e.path] += "b " + o + std::string(calls[e.path], 'c') + "e " + o;
		}
		if (seq != want)
		{
			std::string o = "selection set events:";
			for (auto& x : want) if (seq[x.first] != x.second) o += "\n   at '" + x.first + "' expected " + x.second + " got " + seq[x.first];
			for (auto& x : seq) if (!want.count(x.first)) o += "\n   at '" + x.first + "' unexpected " + x.second;
			return o;
		}
	}
	return "";
}

struct Runner
{
	mc::Ctx& C;
	World& w;
	unsigned facets;
	const char* what;
	bool typed = false; // accessors with typed arguments

	// Runs a prepared request and reports a difference.
	bool run(Request& q, const std::string& opName, const Vars& vars, const std::map<std::string, Fail>& fails = {}, How how = How::Value,
		std::launch launch = std::launch::deferred)
	{
		auto* op = Exec::pick(q.p.doc, opName);
		if (!op) return true;
		w.rec.fails = fails;
		w.rec.how = how;
		auto a = execute(w, q.ast, opName, vars, launch);
		Exec x(w.S, q.p.doc);
		x.typed = typed;
		x.fails = fails;
		int ctx = op->type == "mutation" ? 1 : 0;
		auto r = x.run(*op, vars, ctx);
		if (x.open) { w.rec.fails.clear(); return true; }
		++C.transitions;
		C.traces += 1;
		C.states += r.calls.size() + 1;
		auto d = differs(w.rec, a, r, facets);
		w.rec.fails.clear();
		if (d.empty()) return true;
		Exec y(w.S, q.p.doc, true);
		y.typed = typed;
		y.fails = fails;
		auto r2 = y.run(*op, vars, ctx);
		bool quirk = (r2.data != r.data || r2.calls.size() != r.calls.size()) && differs(w.rec, a, r2, facets).empty();
		C.fail(quirk ? "field-merging" : what, d);
		return false;
	}
};

} // namespace svc
