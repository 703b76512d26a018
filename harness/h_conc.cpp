// The service under a controlled scheduler: every interleaving of the threads of asynchronous
// requests, mutations, subscriptions and independent callers.
#include "svc_run.h"

using namespace graphql;
using svc::World;
using svc::How;
using svc::Fail;
using svc::Vars;

namespace {

std::string howName(How h)
{
	static const char* n[] = { "value", "ready", "deferred", "async", "thread" };
	return n[static_cast<int>(h)];
}
std::string launchName(std::launch l)
{
	if (l == std::launch::async) return "async";
	if (l == std::launch::deferred) return "deferred";
	return "async|deferred";
}

// What one scenario needs; lives across the runs.
struct Scenario
{
	std::string text;				 // description
	std::string sig;				 // of a wrong outcome
	std::function<void()> setup, body, warm;
	std::function<std::string()> after;
};

int bound(const mc::Ctx& C) { return C.thorough ? 3 : 2; }

void explore(mc::Ctx& C, const Scenario& s, int preemptions, uint64_t maxRuns, bool atomics = false, bool delays = false)
{
	if (!C.mine()) return;
	if (C.expired(s.text.c_str())) return;
	if (!C.begin(s.text)) return;
	sched::Options o;
	o.preemptions = preemptions;
	o.maxRuns = maxRuns;
	o.atomics = atomics;
	o.delays = delays;
	uint64_t n = 0;
	o.beat = [&](const std::string& sch) {
		if (!C.shared) return;
		std::string d = s.text + " schedule " + sch;
		uint32_t len = static_cast<uint32_t>(std::min(d.size(), sizeof(C.shared->desc) - 1));
		std::memcpy(C.shared->desc, d.data(), len);
		C.shared->desc[len] = 0;
		C.shared->len = len;
		++C.shared->beat;
		++n;
	};
	o.expired = [&]() { return std::chrono::steady_clock::now() > C.deadline; };
	auto r = sched::explore(o, s.warm ? s.warm : s.body, s.setup, s.body, s.after);
	C.transitions += r.points;
	C.states += r.states;
	C.traces += r.runs;
	C.counters["schedules"] += r.runs;
	C.counters["schedules cut at a state seen before"] += r.pruned;
	C.counters["memory accesses checked for races"] += r.accesses;
	C.counters["scenarios"] += 1;
	if (auto trace = std::getenv("MC_TRACE"))
		if (auto f = std::fopen(trace, "a")) std::fprintf(f, "%8llu runs %9llu points %2d threads %s\n", (unsigned long long)r.runs, (unsigned long long)r.points, (int)r.threads, s.text.c_str()), std::fclose(f);
	if (r.complete) C.counters["scenarios explored completely within the bound"] += 1;
	auto& t = C.counters["most threads in a scenario"];
	t = std::max<uint64_t>(t, r.threads);
	if (!r.kind.empty())
	{
		C.current = s.text + " schedule [" + r.schedule + "]";
		C.fail(r.kind == "outcome" ? s.sig : r.kind, r.what);
	}
	else if (!r.complete && r.runs < maxRuns) C.expired(s.text.c_str());
}

// ---- E05 ------------------------------------------------------------------------------------

struct One
{
	World* w = nullptr;
	peg::ast ast;
	svc::Actual got;
	std::shared_ptr<service::RequestState> state;
};

void request(mc::Ctx& C, World& ref, const std::string& text, const Vars& vars, std::launch launch, const std::map<std::string, How>& hows,
	const std::map<std::string, Fail>& fails, int preemptions, bool drop = false, bool atomics = false)
{
	std::string d = "resolve " + launchName(launch) + " " + text + svc::describe(vars);
	for (auto& h : hows) d += " " + h.first + "=" + howName(h.second);
	for (auto& f : fails) d += " " + f.first + " fails " + std::to_string(static_cast<int>(f.second));
	if (drop) d += " dropped";
	if (atomics) d += " atomics";
	auto p = ref::parse(text);
	if (!p.ok) { std::fprintf(stderr, "bad document %s\n", text.c_str()); std::abort(); }
	svc::Exec x(ref.S, p.doc);
	x.fails = fails;
	auto want = x.run(*svc::Exec::pick(p.doc, ""), vars, 0);
	One* one = nullptr;
	Scenario s;
	s.text = d;
	s.sig = "async-result";
	s.setup = [&]() {
		one = new One;
		one->w = new World();
		one->w->transient = true;
		one->w->rec.hows = hows;
		one->w->rec.fails = fails;
		one->ast = peg::parseString(text);
		one->w->svc->validate(one->ast);
	};
	s.warm = [&]() {
		s.setup();
		svc::execute(*one->w, one->ast, "", vars, launch);
		one->w->rec.join();
	};
	s.body = [&]() {
		auto& w = *one->w;
		std::future<response::Value> f;
		bool threw = false;
		try { f = w.svc->resolve(launch, nullptr, one->ast, "", svc::toVars(vars)); }
		catch (...) { threw = true; }
		if (!threw && !drop)
		{
			try
			{
				auto doc = f.get();
				sched::Ignore ignore;
				one->got = svc::document(doc);
			}
			catch (const std::exception& ex) { sched::Ignore ignore; one->got = {}; one->got.thrown = ex.what(); }
		}
		if (drop) f = {};
		w.rec.join();
	};
	s.after = [&]() -> std::string {
		if (drop) return "";
		auto& w = *one->w;
		return svc::differs(w.rec, one->got, want, svc::DATA | svc::ERRORS | svc::CALLS | svc::ARGS | svc::DIRS);
	};
	// how many threads there will be
	size_t threads = 0;
	for (auto& h : hows)
	{
		if (h.second == How::Async || h.second == How::Thread) ++threads;
		if (launch != std::launch::deferred) ++threads;
	}
	if (hows.empty() && launch != std::launch::deferred) threads = 3; // introspection
	explore(C, s, preemptions, C.thorough ? 400000 : 40000, atomics, threads > 2);
}

using Hows = std::map<std::string, How>;
using Fails = std::map<std::string, Fail>;
const std::launch A = std::launch::async, D = std::launch::deferred, AD = std::launch::async | std::launch::deferred;

void e05(mc::Ctx& C)
{
	World ref;
	int b = bound(C);
	const How all[] = { How::Value, How::Ready, How::Deferred, How::Async, How::Thread };
	const How threads[] = { How::Async, How::Thread };
	auto uniform = [&](const std::string& text, How h, const Vars& vars = {}) {
		auto p = ref::parse(text);
		svc::Exec x(ref.S, p.doc);
		auto r = x.run(*svc::Exec::pick(p.doc, ""), vars, 0);
		Hows hows;
		for (auto& c : r.calls) hows[c.path] = h;
		return hows;
	};
	// every way the results arrive, every launch policy
	for (std::string text : { "{i}", "{i s}", "{a{i}}", "{aN{i s}}", "{li}", "{anull{i}}", "{la{i}}", "{i a{i} s}", "{a{i} c{i}}", "{a{t{i}}}", "{I{i ...on A{s}}}" })
		for (auto l : { A, D, AD })
			for (auto h : all) request(C, ref, text, {}, l, uniform(text, h), {}, b, false);
	// every assignment of the ways to the fields
	for (std::string text : { "{i s}", "{a{i}}", "{la{i}}", "{anull{i} i}", "{i a{s}}" })
	{
		auto base = uniform(text, How::Value);
		std::vector<std::string> paths;
		for (auto& x : base) paths.push_back(x.first);
		if (paths.size() > 3) paths.resize(3);
		svc::Chooser ch;
		do
		{
			auto hows = base;
			for (auto& x : paths) hows[x] = all[ch.choose(5)];
			for (auto l : { A, D }) request(C, ref, text, {}, l, hows, {}, std::min(b, 2));
		} while (ch.next());
	}
	// every field fails in every way
	for (std::string text : { "{i}", "{i s}", "{a{i}}", "{aN{i}}", "{la{i}}", "{c{iN}}", "{lI{i s}}" })
		for (auto h : all)
			for (auto& x : uniform(text, h))
				for (auto f : { Fail::ThrowSchema, Fail::ThrowStd, Fail::FutureSchema, Fail::FutureStd, Fail::FutureLate, Fail::Throw2 })
					for (auto l : { A, D }) request(C, ref, text, {}, l, uniform(text, h), { { x.first, f } }, std::min(b, 2));
	for (std::string text : { "{i s}", "{a{i} c{i}}" })
		for (auto h : threads)
			for (auto f : { Fail::FutureStd, Fail::FutureSchema })
			{
				auto hows = uniform(text, h);
				Fails fails;
				for (auto& x : hows) fails[x.first] = f;
				request(C, ref, text, {}, A, hows, fails, std::min(b, 2));
			}
	// fragments, directives, variables, introspection
	struct { const char* text; Vars vars; } more[] = {
		{ "{...F} fragment F on Query{i s}", {} },
		{ "{...F} fragment F on Query @d(x:1){a{...G}} fragment G on A @g{i}", {} },
		{ "query @d(x:2){i @g(x:3)}", {} },
		{ "{...on Query @d(y:\"y\"){a{...on A @g{i @d}}}}", {} },
		{ "{...F @d(x:4)} fragment F on Query{a{i}}", {} },
		{ "query($x:Int=5){xi(x:$x) xin(x:{n:$x})}", {} },
		{ "query($x:Int){xi(x:$x) a{xi(x:$x)}}", { { "x", svc::lit("8") } } },
		{ "query($b:Boolean!){i @skip(if:$b) s @include(if:$b)}", { { "b", svc::lit("true") } } },
		{ "query($b:Boolean!){...F @include(if:$b)} fragment F on Query{a{i @skip(if:$b) s}}", { { "b", svc::lit("true") } } },
		{ "{x:i y:i __typename}", {} },
		{ "{__schema{queryType{name}}}", {} },
		{ "{__type(name:\"C\"){kind fields{name}}}", {} },
		{ "{u{...on A{i} ...on B{s}}}", {} },
		{ "{lu{...on A{i} ...on B{s}}}", {} },
		{ "{xsc(x:{a:[1]}) xlin(x:[{n:1}])}", {} },
	};
	for (auto& m : more)
		for (auto h : { How::Value, How::Async, How::Thread })
			for (auto l : { A, D })
			{
				bool intro = std::string(m.text).find("__") == 1;
				if (intro && h != How::Value) continue;
				request(C, ref, m.text, m.vars, l, uniform(m.text, h, m.vars), {}, intro ? 1 : std::min(b, 2));
			}
	// a response nobody waits for
	for (std::string text : { "{i}", "{i s}", "{a{i}}", "{la{i}}" })
		for (auto h : all)
			for (auto l : { A, D }) request(C, ref, text, {}, l, uniform(text, h), {}, b, true);
	// reference counts in every order
	for (std::string text : { "{i}", "{a{i}}", "{...F} fragment F on Query{a{i}}" })
		for (auto h : { How::Value, How::Async, How::Thread })
			for (bool drop : { false, true }) request(C, ref, text, {}, A, uniform(text, h), {}, C.thorough ? 2 : 1, drop, true);
}

// ---- E06 ------------------------------------------------------------------------------------

int orderObject;

void mutation(mc::Ctx& C, World& ref, const std::string& text, std::launch launch, const Hows& hows, const Fails& fails, int preemptions)
{
	std::string d = "mutate " + launchName(launch) + " " + text;
	for (auto& h : hows) d += " " + h.first + "=" + howName(h.second);
	for (auto& f : fails) d += " " + f.first + " fails " + std::to_string(static_cast<int>(f.second));
	auto p = ref::parse(text);
	if (!p.ok) { std::fprintf(stderr, "bad document %s\n", text.c_str()); std::abort(); }
	svc::Exec x(ref.S, p.doc);
	x.fails = fails;
	auto want = x.run(*svc::Exec::pick(p.doc, ""), {}, 1);
	std::vector<std::string> roots; // response keys in document order
	for (auto& c : want.calls)
	{
		auto r = c.path.substr(0, c.path.find('.', 1));
		if (std::find(roots.begin(), roots.end(), r) == roots.end()) roots.push_back(r);
	}
	One* one = nullptr;
	Scenario s;
	s.text = d;
	s.sig = "mutation-order";
	s.setup = [&]() {
		one = new One;
		one->w = new World();
		one->w->transient = true;
		one->w->rec.hows = hows;
		one->w->rec.fails = fails;
		one->w->rec.done = true;
		one->w->rec.onEvent = []() { sched::point(&orderObject); };
		one->ast = peg::parseString(text);
		one->w->svc->validate(one->ast);
	};
	s.warm = [&]() {
		s.setup();
		svc::execute(*one->w, one->ast, "", {}, launch);
		one->w->rec.join();
	};
	s.body = [&]() {
		auto got = svc::execute(*one->w, one->ast, "", {}, launch);
		one->w->rec.join();
		sched::Ignore ignore;
		one->got = got;
	};
	s.after = [&]() -> std::string {
		auto& rec = one->w->rec;
		auto d = svc::differs(rec, one->got, want, svc::DATA | svc::ERRORS | svc::CALLS | svc::ARGS);
		if (!d.empty()) return d;
		size_t at = 0;
		std::string trace;
		for (auto& e : rec.events)
		{
			auto path = e.k == svc::Ev::CallK ? rec.calls[e.call].path : e.path;
			if (path.empty()) continue; // of the mutation object
			trace += " " + std::string(e.k == svc::Ev::Begin ? "begin" : e.k == svc::Ev::CallK ? "call" : e.k == svc::Ev::End ? "end" : "done") + path;
			auto r = path.substr(0, path.find('.', 1));
			size_t i = std::find(roots.begin(), roots.end(), r) - roots.begin();
			if (i < at) return "something of " + r + " happens after the next field started:" + trace;
			at = i;
		}
		return "";
	};
	explore(C, s, preemptions, 20000);
}

void e06(mc::Ctx& C)
{
	World ref;
	int b = bound(C);
	const How all[] = { How::Value, How::Ready, How::Deferred, How::Async, How::Thread };
	auto paths = [&](const std::string& text) {
		auto p = ref::parse(text);
		svc::Exec x(ref.S, p.doc);
		auto r = x.run(*svc::Exec::pick(p.doc, ""), {}, 1);
		std::vector<std::string> v;
		for (auto& c : r.calls) if (c.field != "__typename") v.push_back(c.path);
		return v;
	};
	auto uniform = [&](const std::string& text, How h) {
		Hows m;
		for (auto& x : paths(text)) m[x] = h;
		return m;
	};
	std::vector<std::string> docs { "mutation{i j}", "mutation{j i}", "mutation{i j k}", "mutation{k i:j j:i}", "mutation{a{i s} j}", "mutation{i a{s}}", "mutation{li i}", "mutation{x:i y:i}",
		"mutation{...F k} fragment F on Mutation{i j}", "mutation{i ...on Mutation{j} k}", "mutation{i @skip(if:true) j k}", "mutation{a{t{i}} a2:a{s}}", "mutation{i __typename j}",
		"mutation{xi(x:1) y:xi(x:2)}" };
	for (auto& text : docs)
		for (auto l : { A, D, AD })
			for (auto h : all) mutation(C, ref, text, l, uniform(text, h), {}, b);
	// mixed
	for (std::string text : { "mutation{i j}", "mutation{i j k}", "mutation{a{i} j}", "mutation{i a{i}}" })
	{
		auto ps = paths(text);
		svc::Chooser ch;
		do
		{
			Hows hows;
			for (auto& x : ps) hows[x] = all[ch.choose(5)];
			for (auto l : { A, D }) mutation(C, ref, text, l, hows, {}, std::min(b, 2));
		} while (ch.next());
	}
	// failures don't stop the later fields
	for (std::string text : { "mutation{i j}", "mutation{i j k}", "mutation{a{i} j}", "mutation{li j}" })
		for (auto h : all)
			for (auto& x : paths(text))
				for (auto f : { Fail::ThrowSchema, Fail::ThrowStd, Fail::FutureSchema, Fail::FutureStd, Fail::FutureLate, Fail::Throw2 })
					for (auto l : { A, D }) mutation(C, ref, text, l, uniform(text, h), { { x, f } }, std::min(b, 2));
	for (std::string text : { "mutation{i j k}" })
		for (auto h : all)
			for (auto f : { Fail::ThrowStd, Fail::FutureStd, Fail::FutureLate })
			{
				Fails fails;
				for (auto& x : paths(text)) fails[x] = f;
				mutation(C, ref, text, A, uniform(text, h), fails, b);
			}
}

// ---- S03 ------------------------------------------------------------------------------------

// One call of a thread's program.
struct Op
{
	enum K { Sub, SubAsync, Unsub, UnsubAsync, UnsubOwn, Deliver, DeliverAsync } k;
	int field = 0;	// 0: i, 1: xi(x:1), 2: xi(x:2)
	int target = 0; // which of the subscriptions made before the threads start
};
std::string opName(const Op& o)
{
	static const char* k[] = { "subscribe", "subscribeAsync", "unsubscribe", "unsubscribeAsync", "unsubscribeOwn", "deliver", "deliverAsync" };
	static const char* f[] = { "i", "x1", "x2" };
	std::string s = k[o.k];
	if (o.k == Op::Unsub || o.k == Op::UnsubAsync) return s + " #" + std::to_string(o.target);
	if (o.k == Op::UnsubOwn) return s;
	return s + " " + f[o.field];
}
const char* subText(int field)
{
	static const char* t[] = { "subscription{i}", "subscription{xi(x:1)}", "subscription{xi(x:2)}" };
	return t[field];
}

using Programs = std::vector<std::vector<Op>>;

// The outcome of the calls in one order: who got which event, and who is subscribed at the end.
struct Model
{
	std::set<std::pair<int, int>> live; // tag, field
	std::string out;
	static std::string tags(std::vector<int> v)
	{
		std::sort(v.begin(), v.end());
		std::string s = "{";
		for (auto t : v) s += std::to_string(t) + " ";
		return s + "}";
	}
};

// tag: 0.. for the initial ones, 10*(thread+1)+index for the others
void orders(const Programs& ps, std::vector<size_t>& at, std::set<std::pair<int, int>> live, std::map<std::pair<int, int>, std::string> results, std::set<std::string>& out)
{
	bool any = false;
	for (size_t t = 0; t < ps.size(); ++t)
	{
		if (at[t] == ps[t].size()) continue;
		any = true;
		auto& o = ps[t][at[t]];
		auto l = live;
		auto r = results;
		int tag = 10 * (static_cast<int>(t) + 1) + static_cast<int>(at[t]);
		switch (o.k)
		{
			case Op::Sub:
			case Op::SubAsync: l.emplace(tag, o.field); break;
			case Op::Unsub:
			case Op::UnsubAsync:
				for (int f = 0; f < 3; ++f) l.erase({ o.target, f });
				break;
			case Op::UnsubOwn:
				for (int i = 0; i < static_cast<int>(at[t]); ++i)
					for (int f = 0; f < 3; ++f) l.erase({ 10 * (static_cast<int>(t) + 1) + i, f });
				break;
			case Op::Deliver:
			case Op::DeliverAsync:
			{
				std::vector<int> got;
				for (auto& x : live) if (x.second == o.field) got.push_back(x.first);
				r[{ static_cast<int>(t), static_cast<int>(at[t]) }] = Model::tags(got);
				break;
			}
		}
		++at[t];
		orders(ps, at, l, r, out);
		--at[t];
	}
	if (!any)
	{
		std::string s;
		for (auto& r : results) s += std::to_string(r.first.first) + "." + std::to_string(r.first.second) + r.second + " ";
		s += "end ";
		for (int f = 0; f < 3; ++f)
		{
			std::vector<int> got;
			for (auto& x : live) if (x.second == f) got.push_back(x.first);
			s += Model::tags(got);
		}
		out.insert(s);
	}
}

struct SubWorld
{
	World* w = nullptr;
	std::map<int, peg::ast> asts;							   // by tag
	std::map<int, service::SubscriptionKey> keys;			   // by tag
	std::map<std::pair<int, int>, std::vector<int>> delivered; // by call
	std::vector<int> final[3];
	std::string problem;
	int finalField = -1;
};

void subscriptions(mc::Ctx& C, const std::vector<int>& initial, const Programs& ps, int preemptions)
{
	// A key may be used again once its subscription is gone: no call may remove a key which another
	// call has removed while a third can be given it.
	{
		std::map<int, int> removed;
		bool adds = false, twice = false;
		for (auto& p : ps)
			for (auto& o : p)
			{
				if (o.k == Op::Sub || o.k == Op::SubAsync) adds = true;
				if ((o.k == Op::Unsub || o.k == Op::UnsubAsync) && ++removed[o.target] > 1) twice = true;
			}
		if (adds && twice) return;
	}
	std::string d = "with";
	for (auto f : initial) d += std::string(" ") + subText(f);
	if (initial.empty()) d += " none";
	for (auto& p : ps)
	{
		d += " |";
		for (auto& o : p) d += " " + opName(o) + ";";
	}
	// the asynchronous calls bring threads of their own
	int async = 0;
	for (auto& p : ps)
		for (auto& o : p) async += o.k == Op::SubAsync || o.k == Op::UnsubAsync || o.k == Op::DeliverAsync;
	std::set<std::string> allowed;
	std::vector<size_t> at(ps.size(), 0);
	std::set<std::pair<int, int>> live;
	for (size_t i = 0; i < initial.size(); ++i) live.emplace(static_cast<int>(i), initial[i]);
	std::map<std::pair<int, int>, std::string> results;
	for (size_t t = 0; t < ps.size(); ++t)
		for (size_t i = 0; i < ps[t].size(); ++i)
			if (ps[t][i].k == Op::Deliver || ps[t][i].k == Op::DeliverAsync) results[{ static_cast<int>(t), static_cast<int>(i) }] = "{}";
	orders(ps, at, live, results, allowed);
	SubWorld* q = nullptr;
	// The call in which a callback runs: deliver waits for its callbacks, so the event's object tells.
	auto callback = [&q](int tag) {
		return [&q, tag](std::future<response::Value> f) {
			auto doc = f.get();
			sched::Ignore ignore;
			auto a = svc::document(doc);
			// data is {i:N} or {xi:N}: which event this is comes with the id of the object
			int id = -1;
			std::map<std::string, int> events;
			for (int e = 0; e < 40; ++e)
				for (auto& name : { "i", "xi" })
				{
					ref::FieldDef const* fd = nullptr;
					for (auto& x : q->w->S.type("Subscription")->fields) if (x.name == name) fd = &x;
					if (a.data == std::string("{") + name + ":" + svc::showLeaf(svc::dataOf(q->w->S, "Subscription", e, *fd)) + "}") id = e;
				}
			if (id < 0 || a.hasErrors) q->problem = "a response is " + a.data;
			else q->delivered[{ id / 10, id % 10 }].push_back(tag);
		};
	};
	auto params = [&q](int tag) {
		service::SubscriptionParams p;
		p.query = peg::ast { q->asts[tag] };
		p.variables = response::Value(response::Type::Map);
		return p;
	};
	auto deliver = [&q](int field, int id, bool async) {
		std::shared_ptr<service::Object> object;
		{
			sched::Ignore ignore;
			object = std::make_shared<svc::Node>(*q->w, *q->w->S.type("Subscription"), id);
		}
		auto l = async ? std::launch::async : std::launch::deferred;
		if (field == 0) q->w->svc->deliver(l, "i", object);
		else
		{
			service::SubscriptionArguments args;
			args.emplace("x", response::Value(field));
			q->w->svc->deliver(l, "xi", args, object);
		}
	};
	auto runOp = [&](int t, int i) {
		auto& o = ps[t][i];
		int tag = 10 * (t + 1) + i;
		auto note = [&](service::SubscriptionKey key) {
			sched::Ignore ignore;
			q->keys[tag] = key;
		};
		switch (o.k)
		{
			case Op::Sub: note(q->w->svc->subscribe(params(tag), callback(tag))); break;
			case Op::SubAsync: note(q->w->svc->subscribe(std::launch::async, params(tag), callback(tag)).get()); break;
			case Op::Unsub: q->w->svc->unsubscribe(q->keys[o.target]); break;
			case Op::UnsubAsync: q->w->svc->unsubscribe(std::launch::async, q->keys[o.target]).get(); break;
			case Op::UnsubOwn:
				for (int k = 0; k < i; ++k)
					if (q->keys.count(10 * (t + 1) + k)) q->w->svc->unsubscribe(q->keys[10 * (t + 1) + k]);
				break;
			case Op::Deliver: deliver(o.field, 10 * (t + 1) + i, false); break;
			case Op::DeliverAsync: deliver(o.field, 10 * (t + 1) + i, true); break;
		}
	};
	Scenario s;
	s.text = d;
	s.sig = "not-sequential";
	s.setup = [&]() {
		q = new SubWorld;
		q->w = new World();
		for (size_t i = 0; i < initial.size(); ++i) q->asts[static_cast<int>(i)] = peg::parseString(subText(initial[i]));
		for (size_t t = 0; t < ps.size(); ++t)
			for (size_t i = 0; i < ps[t].size(); ++i)
				if (ps[t][i].k == Op::Sub || ps[t][i].k == Op::SubAsync)
					q->asts[10 * (static_cast<int>(t) + 1) + static_cast<int>(i)] = peg::parseString(subText(ps[t][i].field));
	};
	s.body = [&]() {
		for (size_t i = 0; i < initial.size(); ++i) q->keys[static_cast<int>(i)] = q->w->svc->subscribe(params(static_cast<int>(i)), callback(static_cast<int>(i)));
		std::vector<std::thread> threads;
		for (size_t t = 0; t < ps.size(); ++t)
			threads.emplace_back([&, t]() {
				try
				{
					for (size_t i = 0; i < ps[t].size(); ++i) runOp(static_cast<int>(t), static_cast<int>(i));
				}
				catch (const std::exception& ex)
				{
					sched::Ignore ignore;
					q->problem = std::string("a call threw ") + ex.what();
				}
			});
		for (auto& t : threads) t.join();
		for (int f = 0; f < 3; ++f) deliver(f, f, false);
	};
	s.warm = [&]() { s.setup(); s.body(); };
	s.after = [&]() -> std::string {
		if (!q->problem.empty()) return q->problem;
		std::string got;
		for (auto& r : results) got += std::to_string(r.first.first) + "." + std::to_string(r.first.second) + Model::tags(q->delivered[{ r.first.first + 1, r.first.second }]) + " ";
		got += "end ";
		for (int f = 0; f < 3; ++f) got += Model::tags(q->delivered[{ 0, f }]);
		if (!allowed.count(got))
		{
			std::string o = "no order of the calls gives [" + got + "], only";
			for (auto& a : allowed) o += " [" + a + "]";
			return o;
		}
		return "";
	};
	explore(C, s, preemptions, C.thorough ? 400000 : 40000, false, async > 0);
}

void s03(mc::Ctx& C)
{
	int b = bound(C);
	std::vector<Op> ops;
	for (auto k : { Op::Sub, Op::SubAsync, Op::Deliver, Op::DeliverAsync })
		for (int f : { 0, 1 }) ops.push_back({ k, f, 0 });
	for (auto k : { Op::Unsub, Op::UnsubAsync })
		for (int t : { 0, 1 }) ops.push_back({ k, 0, t });
	const std::vector<std::vector<int>> initials { { 0, 0 }, { 0, 1 }, { 1, 0, 2 } };
	// two threads with one call each
	for (auto& in : initials)
		for (size_t x = 0; x < ops.size(); ++x)
			for (size_t y = x; y < ops.size(); ++y)
			{
				// whether removing the same subscription twice notifies twice is left open
				subscriptions(C, in, { { ops[x] }, { ops[y] } }, b);
			}
	// nothing subscribed before
	for (size_t x = 0; x < 8; ++x)
		for (size_t y = x; y < 8; ++y) subscriptions(C, {}, { { ops[x] }, { ops[y] } }, b);
	// two calls against one, and two against two
	const Op S { Op::Sub, 0, 0 }, SA { Op::SubAsync, 0, 0 }, U { Op::Unsub, 0, 0 }, U1 { Op::Unsub, 0, 1 }, O { Op::UnsubOwn, 0, 0 }, V { Op::Deliver, 0, 0 };
	const std::vector<std::vector<Op>> twos { { S, O }, { S, V }, { S, S }, { U, S }, { U, U1 }, { V, V }, { U, V }, { SA, O }, { V, U }, { S, U } };
	for (auto& in : std::vector<std::vector<int>> { { 0, 0 }, { 0, 1 } })
		for (auto& two : twos)
		{
			for (auto& o : ops) subscriptions(C, in, { two, { o } }, std::min(b, 2));
			for (auto& other : twos) subscriptions(C, in, { two, other }, C.thorough ? 2 : 1);
		}
	// three threads
	const Op three[] = { S, U, V, { Op::Unsub, 0, 1 }, { Op::Deliver, 1, 0 }, SA };
	for (int x = 0; x < 6; ++x)
		for (int y = x; y < 6; ++y)
			for (int z = y; z < 6; ++z) subscriptions(C, { 0, 1 }, { { three[x] }, { three[y] }, { three[z] } }, C.thorough ? 2 : 1);
}

// ---- T01 ------------------------------------------------------------------------------------

// What one caller does with its own document.
struct Job
{
	enum K { Request, Validate, Wrap, Lookup } k;
	std::string text;
	std::launch launch = std::launch::deferred;
	Vars vars;
};
std::string jobName(const Job& j)
{
	static const char* k[] = { "resolve", "validate", "wrap", "look up" };
	return std::string(k[j.k]) + " " + (j.k == Job::Request ? launchName(j.launch) + " " : "") + j.text;
}

struct JobWorld
{
	World* w = nullptr;
	std::vector<std::string> out;
	std::map<int, peg::ast> asts;
	std::vector<std::vector<const void*>> pointers;
};

std::string alone(World& w, const Job& j, peg::ast& ast, std::vector<const void*>* pointers)
{
	switch (j.k)
	{
		case Job::Validate:
		{
			auto errors = w.svc->validate(ast);
			sched::Ignore ignore;
			std::string o;
			for (auto& e : errors) o += e.message + " " + std::to_string(e.location.line) + ":" + std::to_string(e.location.column) + ";";
			return "verdict " + o;
		}
		case Job::Request:
		{
			try
			{
				auto doc = w.svc->resolve(j.launch, nullptr, ast, "", svc::toVars(j.vars)).get();
				sched::Ignore ignore;
				return svc::show(doc);
			}
			catch (const service::schema_exception& ex)
			{
				sched::Ignore ignore;
				return "threw " + svc::show(const_cast<service::schema_exception&>(ex).getErrors());
			}
			catch (const std::exception& ex)
			{
				sched::Ignore ignore;
				return std::string("threw ") + ex.what();
			}
		}
		case Job::Wrap:
		{
			auto t = w.schema->LookupType(j.text);
			auto l = w.schema->WrapType(introspection::TypeKind::LIST, t);
			auto n = w.schema->WrapType(introspection::TypeKind::NON_NULL, t);
			auto ln = w.schema->WrapType(introspection::TypeKind::LIST, n);
			auto nl = w.schema->WrapType(introspection::TypeKind::NON_NULL, l);
			if (pointers)
			{
				pointers->push_back(l.get());
				pointers->push_back(n.get());
				pointers->push_back(ln.get());
				pointers->push_back(nl.get());
			}
			bool good = l->kind() == introspection::TypeKind::LIST && n->kind() == introspection::TypeKind::NON_NULL && l->ofType().lock() == t && n->ofType().lock() == t
				&& ln->ofType().lock() == n && nl->ofType().lock() == l;
			return good ? "wrapped" : "wrong wrapper";
		}
		case Job::Lookup:
		{
			auto t = w.schema->LookupType(j.text);
			std::string s { t->name() };
			for (auto& f : t->fields()) s += std::string(f->name());
			return s;
		}
	}
	return "";
}

void independent(mc::Ctx& C, const std::vector<Job>& jobs, int preemptions, bool parse = false)
{
	std::string d = parse ? "parsing, " : "";
	for (auto& j : jobs) d += jobName(j) + svc::describe(j.vars) + " | ";
	JobWorld* q = nullptr;
	std::vector<std::string> want;
	for (auto& j : jobs)
	{
		World w;
		peg::ast ast;
		if (j.k == Job::Request || j.k == Job::Validate) ast = peg::parseString(j.text);
		// an asynchronous request alone gives the deferred result: E05
		Job k = j;
		k.launch = std::launch::deferred;
		want.push_back(alone(w, k, ast, nullptr));
	}
	Scenario s;
	s.text = d;
	s.sig = "interference";
	auto threads = [&](bool concurrent) {
		std::vector<std::thread> ts;
		for (size_t t = 0; t < jobs.size(); ++t)
		{
			auto go = [&, t]() {
				peg::ast own;
				peg::ast* ast = &q->asts[static_cast<int>(t)];
				if (parse && (jobs[t].k == Job::Request || jobs[t].k == Job::Validate))
				{
					own = peg::parseString(jobs[t].text);
					ast = &own;
				}
				auto r = alone(*q->w, jobs[t], *ast, &q->pointers[t]);
				sched::Ignore ignore;
				q->out[t] = r;
			};
			if (concurrent) ts.emplace_back(go);
			else go();
		}
		for (auto& t : ts) t.join();
	};
	s.setup = [&]() {
		q = new JobWorld;
		q->w = new World();
		q->w->transient = true;
		q->out.resize(jobs.size());
		q->pointers.resize(jobs.size());
		for (size_t t = 0; t < jobs.size(); ++t)
		{
			q->asts[static_cast<int>(t)];
			if (jobs[t].k == Job::Request || jobs[t].k == Job::Validate) q->asts[static_cast<int>(t)] = peg::parseString(jobs[t].text);
		}
	};
	s.body = [&]() { threads(true); };
	s.warm = [&]() { s.setup(); threads(true); };
	s.after = [&]() -> std::string {
		for (size_t t = 0; t < jobs.size(); ++t)
			if (q->out[t] != want[t]) return jobName(jobs[t]) + " alone gives " + want[t] + ", here " + q->out[t];
		for (size_t t = 0; t < jobs.size(); ++t)
			for (size_t u = 0; u < t; ++u)
				if (jobs[t].k == Job::Wrap && jobs[u].k == Job::Wrap && jobs[t].text == jobs[u].text && q->pointers[t] != q->pointers[u]) return "two wrappers of the same type " + jobs[t].text;
		return "";
	};
	bool async = false, big = false;
	for (auto& j : jobs)
	{
		async |= j.k == Job::Request && j.launch == A;
		big |= j.k == Job::Request && j.text.substr(0, 3) == "{__";
	}
	explore(C, s, big ? preemptions - 1 : preemptions, C.thorough ? 400000 : 40000, false, async);
}

void t01(mc::Ctx& C)
{
	int b = bound(C);
	std::vector<Job> jobs;
	for (std::string t : { "{i}", "{a{i ...F}} fragment F on A{s}", "query($x:Int!){xiN(x:$x)}", "{zz}", "{i s a{q p}} query Q{i}", "{xin(x:{n:1,in:{n:2}})}", "{xin(x:{z:1})}",
			 "{...F} fragment F on Query{...F}", "query($u:Int){i}", "{I{i} u{...on A{i}}}", "{i @skip(if:true) @d(x:1)}" })
		jobs.push_back({ Job::Validate, t });
	for (std::string t : { "{i s}", "{la{i}}", "{nope}", "mutation{i j}", "{__type(name:\"A\"){fields{name type{name kind ofType{name}}}}}", "{__schema{types{name}}}", "query($x:Int=3){xi(x:$x)}" })
		jobs.push_back({ Job::Request, t });
	jobs.push_back({ Job::Request, "{i s}", A });
	jobs.push_back({ Job::Request, "{a{i}}", A });
	for (std::string t : { "A", "Int", "E", "In" }) jobs.push_back({ Job::Wrap, t });
	jobs.push_back({ Job::Lookup, "A" });
	for (size_t x = 0; x < jobs.size(); ++x)
		for (size_t y = x; y < jobs.size(); ++y) independent(C, { jobs[x], jobs[y] }, b);
	// with the parser in the threads
	for (size_t x = 0; x < jobs.size(); x += 3)
		for (size_t y = x; y < jobs.size(); y += 2) independent(C, { jobs[x], jobs[y] }, 1, true);
	// three threads
	std::vector<Job> few;
	for (auto& j : jobs)
		if (j.k == Job::Wrap ? j.text == "A" || j.text == "E" : j.k == Job::Lookup || j.text == "{i}" || j.text == "{zz}" || j.text == "{i s}" || j.text == "query($x:Int!){xiN(x:$x)}") few.push_back(j);
	for (size_t x = 0; x < few.size(); ++x)
		for (size_t y = x; y < few.size(); ++y)
			for (size_t z = y; z < few.size(); ++z) independent(C, { few[x], few[y], few[z] }, C.thorough ? 2 : 1);
}

} // namespace

MC_MAIN({ { "e05", e05 }, { "e06", e06 }, { "s03", s03 }, { "t01", t01 } })
