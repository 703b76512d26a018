// Subscriptions: histories (s01), filters (s02), asynchronous overloads and notifications (s04).
#include "svc_run.h"
#include "graphqlservice/JSONResponse.h"

#include <utility>

using namespace svc;

namespace {

using Key = service::SubscriptionKey;

// A subscription request; parsed once, copied for every use.
struct Doc
{
	std::string text, name;
	Vars vars;
	bool good = true;	 // a subscription the service must accept
	std::string field;	 // its root field, empty if that is skipped
	Request q;
	const ref::Op* op = nullptr;
};

Doc doc(World& w, const std::string& text, const std::string& field, const std::string& name = "", const Vars& vars = {})
{
	Doc d;
	d.text = text;
	d.name = name;
	d.vars = vars;
	d.field = field;
	d.q = prepare(w, text);
	if (!d.q.good) { std::fprintf(stderr, "bad subscription %s\n", text.c_str()); std::abort(); }
	d.op = Exec::pick(d.q.p.doc, name);
	auto none = w.svc->validate(d.q.ast); // marks it as validated
	return d;
}
// A request subscribe() must refuse.
Doc refused(World& w, const std::string& text, const std::string& name = "")
{
	Doc d;
	d.text = text;
	d.name = name;
	d.good = false;
	d.q.ast = peg::parseString(text);
	return d;
}

Result expected(World& w, const Doc& d, int context, int id)
{
	Exec x(w.S, d.q.p.doc);
	x.rootId = id;
	return x.run(*d.op, d.vars, context, "Subscription");
}

struct Got
{
	int serial;
	std::string text; // what came, or ""
	std::future<response::Value> held;
};

std::string text(std::future<response::Value>& f)
{
	try
	{
		auto v = f.get();
		auto a = document(v);
		std::string o = a.malformed ? "malformed " + show(v) : a.data;
		if (a.hasErrors)
			for (auto& e : a.errors) o += " ERROR " + e.str();
		return o;
	}
	catch (const std::exception& ex)
	{
		return std::string("threw ") + ex.what();
	}
}

struct Live
{
	int serial;
	const Doc* d;
};

// One service, the model of its subscriptions, and what its callbacks saw.
struct Session
{
	World& w;
	bool hold;
	std::map<Key, Live> live;
	std::vector<Key> order;	  // live keys, oldest first
	Key last = 12345;		  // the key removed last
	int serials = 0;
	std::vector<Got> got;
	std::vector<std::pair<std::string, std::future<response::Value>>> kept; // expected, held
	std::vector<std::string> want;
	std::string wrong;
	std::shared_ptr<service::RequestState> state = std::make_shared<service::RequestState>();
	std::function<void(int)> reenter;
	std::shared_ptr<void> nextGuard; // kept by the next callback

	explicit Session(World& w, bool hold = false, bool withDefault = true) : w(w), hold(hold)
	{
		w.fresh();
		if (!withDefault)
		{
			service::TypeMap m;
			m.emplace("query", w.query);
			m.emplace("mutation", w.mutation);
			m.emplace("subscription", std::shared_ptr<service::Object> {});
			w.svc = std::make_shared<Svc>(std::move(m), w.schema);
		}
		w.rec.clear();
		w.rec.state = state.get();
	}
	~Session() { w.rec.state = nullptr; }

	void bad(const std::string& s) { if (wrong.empty()) wrong = s; }

	service::SubscriptionParams params(const Doc& d)
	{
		return { state, peg::ast(d.q.ast), std::string(d.name), toVars(d.vars) };
	}
	service::SubscriptionCallback callback(int serial)
	{
		return [this, serial, guard = std::exchange(nextGuard, nullptr)](std::future<response::Value> f) {
			Got g { serial, "", {} };
			if (hold) g.held = std::move(f);
			else g.text = text(f);
			got.push_back(std::move(g));
			if (reenter) reenter(serial);
		};
	}
	void added(Key k, int serial, const Doc& d)
	{
		if (live.count(k)) bad("subscribe returned the key " + std::to_string(k) + " of a live subscription");
		live[k] = { serial, &d };
		order.push_back(k);
	}
	// how: 0 synchronous, else with this launch policy
	Key subscribe(const Doc& d, bool async = false, std::launch launch = std::launch::deferred)
	{
		int serial = serials++;
		try
		{
			auto k = async ? w.svc->subscribe(launch, params(d), callback(serial)).get() : w.svc->subscribe(params(d), callback(serial));
			if (!d.good) bad("subscribe accepted " + d.text);
			else added(k, serial, d);
			return k;
		}
		catch (const service::schema_exception& ex)
		{
			if (d.good) bad("subscribe refused " + d.text + ": " + ex.what());
		}
		catch (const std::exception& ex)
		{
			bad("subscribe threw " + std::string(ex.what()) + " for " + d.text);
		}
		return 0;
	}
	void forget(Key k)
	{
		if (!live.erase(k)) return;
		order.erase(std::find(order.begin(), order.end(), k));
		last = k;
	}
	void unsubscribe(Key k, bool async = false, std::launch launch = std::launch::deferred)
	{
		try
		{
			if (async) w.svc->unsubscribe(launch, k).get();
			else w.svc->unsubscribe(k);
		}
		catch (const std::exception& ex)
		{
			bad("unsubscribe of " + std::to_string(k) + " threw " + ex.what());
		}
		forget(k);
	}
	static std::string describe(int serial, const std::string& t) { return "#" + std::to_string(serial) + " " + t; }

	// Compares what the callbacks saw with the expected (serial, text) pairs.
	void check(std::vector<std::pair<int, std::string>> expect, const std::string& what)
	{
		std::vector<std::string> x, y;
		if (hold)
		{
			// which callbacks ran is compared now, the documents at the end
			for (auto& e : expect) x.push_back(describe(e.first, ""));
			for (auto& g : got)
			{
				y.push_back(describe(g.serial, ""));
				std::string t = "?";
				for (auto& e : expect) if (e.first == g.serial) t = e.second;
				kept.emplace_back(t, std::move(g.held));
			}
		}
		else
		{
			for (auto& e : expect) x.push_back(describe(e.first, e.second));
			for (auto& g : got) y.push_back(describe(g.serial, g.text));
		}
		got.clear();
		std::sort(x.begin(), x.end());
		std::sort(y.begin(), y.end());
		if (x != y)
		{
			std::string o = what + ": expected";
			for (auto& s : x) o += " [" + s + "]";
			o += " but got";
			for (auto& s : y) o += " [" + s + "]";
			bad(o);
		}
	}
	std::vector<std::pair<int, std::string>> targets(const std::string& field, int id)
	{
		std::vector<std::pair<int, std::string>> e;
		for (auto& l : live)
			if (l.second.d->field == field) e.emplace_back(l.second.serial, expected(w, *l.second.d, 3, id).data);
		return e;
	}
	// id < 0: the default object. All filters accept.
	void deliver(const std::string& field, int id, std::launch launch = std::launch::deferred, bool plain = false)
	{
		auto object = id < 0 ? std::shared_ptr<service::Object> {} : std::static_pointer_cast<service::Object>(w.node("Subscription", id));
		auto expect = targets(field, id < 0 ? 0 : id);
		w.rec.clear();
		size_t calls = 0;
		for (auto& l : live)
			if (l.second.d->field == field) calls += expected(w, *l.second.d, 3, id < 0 ? 0 : id).calls.size();
		try
		{
			auto all = [](response::MapType::const_reference) noexcept { return true; };
			if (plain) w.svc->deliver(launch, field, object);
			else w.svc->deliver(launch, field, all, all, object);
		}
		catch (const std::exception& ex)
		{
			bad("deliver of " + field + " threw " + ex.what());
		}
		if (!hold)
		{
			if (w.rec.calls.size() != calls) bad("deliver of " + field + " called " + std::to_string(w.rec.calls.size()) + " accessors instead of " + std::to_string(calls));
			for (auto& c : w.rec.calls) if (c.context != 3) bad("accessor called in context " + std::to_string(c.context) + " for an event");
			if (w.rec.wrongState) bad("an accessor saw another request state");
		}
		check(expect, "deliver of " + field);
	}
	// The responses which were held, after everything is removed.
	void release()
	{
		w.svc.reset();
		for (auto& k : kept)
		{
			auto t = text(k.second);
			if (t != k.first) bad("a held response is " + t + " instead of " + k.first);
		}
		kept.clear();
	}
};

struct Op
{
	const char* name;
	std::function<void(Session&)> run;
	bool uses; // does nothing without live subscriptions
};

void unsubNth(Session& s, size_t n, bool async, std::launch l = std::launch::deferred)
{
	if (n < s.order.size()) s.unsubscribe(s.order[n], async, l);
}

// Every history of `depth` operations; ends with an event for each field.
void histories(mc::Ctx& C, World& w, const std::vector<Op>& ops, int depth, const std::vector<bool>& holds, const char* what)
{
	std::vector<int> h(depth, 0);
	// shard by the first two operations
	for (bool more = true; more;)
	{
		bool mineToo = static_cast<int>((h[0] * ops.size() + h[1]) % C.nshards) == C.shard;
		if (!mineToo)
		{
			int i = 1;
			std::fill(h.begin() + 2, h.end(), 0);
			while (i >= 0 && ++h[i] == static_cast<int>(ops.size())) h[i--] = 0;
			if (i < 0) break;
			continue;
		}
		for (bool hold : holds)
		{
			std::string t = what;
			for (int i : h) t += std::string(" ") + ops[i].name;
			if (hold) t += " (responses held)";
			if (!C.begin(t)) continue;
			Session s(w, hold);
			for (size_t i = 0; i < h.size() && s.wrong.empty(); ++i)
			{
				ops[h[i]].run(s);
				++C.transitions;
				if (!s.wrong.empty()) s.wrong = "after operation " + std::to_string(i + 1) + ": " + s.wrong;
			}
			for (auto* f : { "i", "a" })
				if (s.wrong.empty()) s.deliver(f, 3);
			if (hold)
			{
				if (h.back() % 2) while (!s.order.empty()) s.unsubscribe(s.order[0]);
				s.release();
			}
			++C.traces;
			C.states += s.live.size() + 1;
			if (!s.wrong.empty()) C.fail("history", s.wrong);
		}
		if (C.expired(what)) return;
		int i = depth - 1;
		while (i >= 0 && ++h[i] == static_cast<int>(ops.size())) h[i--] = 0;
		if (i < 0) break;
	}
}

void s01(mc::Ctx& C, bool small)
{
	World w;
	std::list<Doc> docs;
	auto add = [&](Doc d) -> Doc& { docs.push_back(std::move(d)); return docs.back(); };
	auto& di = add(doc(w, "subscription{i}", "i"));
	auto& dk = add(doc(w, "subscription{k:i}", "i"));
	auto& da = add(doc(w, "subscription{a{i s I{__typename xi(x:4) ...on A{j}}}}", "a"));
	auto& dav = add(doc(w, "subscription($v:Int=9,$w:Int){a{p:xi(x:$v) q:xi(x:$w)}}", "a", "", { { "v", lit("3") } }));
	auto& df = add(doc(w, "subscription{...F} fragment F on Subscription{...G} fragment G on Subscription{i}", "i"));
	auto& dn = add(doc(w, "subscription{...on Subscription{...{a{w}}}}", "a"));
	auto& dm = add(doc(w, "query Q{i} subscription S{a{j}} mutation M{i} subscription T{t:i}", "i", "T"));
	auto& dms = add(doc(w, "query Q{i} subscription S{a{j}} mutation M{i} subscription T{t:i}", "a", "S"));
	auto& dx = add(doc(w, "subscription{i @skip(if:true)}", ""));
	auto& dxi = add(doc(w, "subscription($b:Boolean!){...on Subscription @include(if:$b){a{i}}}", "", "", { { "b", lit("false") } }));
	auto& ddirs = add(doc(w, "subscription @d(x:1){i @g(x:2)}", "i"));
	std::vector<Doc*> bads {
		&add(refused(w, "subscription{nope}")), &add(refused(w, "{i}")), &add(refused(w, "subscription X{i}", "Y")),
		&add(refused(w, "subscription{i a{i}}")), &add(refused(w, "query Q{i} subscription S{i}", "Q")), &add(refused(w, "mutation{i}")),
		&add(refused(w, "subscription{i k:i}")), &add(refused(w, "fragment F on Subscription{i}")), &add(refused(w, "subscription{...F} fragment F on Subscription{i a{i}}")),
	};
	auto D = std::launch::deferred;
	auto sub = [](Doc& d, bool async = false) { return [&d, async](Session& s) { s.subscribe(d, async); }; };
	auto un = [](size_t n, bool async = false) { return [n, async](Session& s) { unsubNth(s, n, async); }; };
	auto del = [](const char* f, int id, bool plain = false) { return [f, id, plain](Session& s) { s.deliver(f, id, std::launch::deferred, plain); }; };
	auto lastOne = [](bool async) { return [async](Session& s) { s.unsubscribe(s.last, async); }; };
	auto newest = [](bool async) { return [async](Session& s) { if (!s.order.empty()) s.unsubscribe(s.order.back(), async); }; };
	auto badAll = [&bads](bool async) { return [&bads, async](Session& s) { for (auto* b : bads) s.subscribe(*b, async); }; };
	std::vector<Op> all {
		{ "sub{i}", sub(di) }, { "sub{k:i}", sub(dk) }, { "sub{a}", sub(da) }, { "sub{a,$v}", sub(dav) }, { "sub{...F}", sub(df) },
		{ "sub{...on}", sub(dn) }, { "subT", sub(dm) }, { "subS", sub(dms) }, { "sub{skipped}", sub(dx) }, { "sub{skipped inline}", sub(dxi) },
		{ "sub{i@g}", sub(ddirs) },
		{ "async-sub{i}", sub(di, true) }, { "async-sub{a}", sub(dav, true) }, { "bad-subs", badAll(false) }, { "async-bad-subs", badAll(true) },
		{ "unsub#0", un(0) }, { "unsub#1", un(1) }, { "unsub-newest", newest(false) }, { "async-unsub#0", un(0, true) }, { "async-unsub#1", un(1, true) },
		{ "unsub-last-removed", lastOne(false) }, { "async-unsub-last-removed", lastOne(true) },
		{ "unsub-unknown", [](Session& s) { s.unsubscribe(99); } }, { "async-unsub-unknown", [](Session& s) { s.unsubscribe(99, true); } },
		{ "deliver-i", del("i", 1) }, { "deliver-a", del("a", 2) }, { "deliver-i-default", del("i", -1) }, { "deliver-zz", del("zz", 1) }, { "deliver-empty", [](Session& s) {
			// nothing subscribes to a field without a name
			s.deliver("xi", 1);
		} },
	};
	std::vector<Op> core {
		{ "sub{i}", sub(di) }, { "sub{a}", sub(dn) }, { "async-sub{k:i}", sub(dk, true) }, { "unsub#0", un(0) }, { "unsub#1", un(1) }, { "async-unsub-newest", newest(true) },
		{ "deliver-i", del("i", 1) }, { "deliver-a", del("a", 2) }, { "unsub-last-removed", lastOne(false) },
	};
	(void)D;

	// deliver() without filters reaches the subscriptions without arguments and directives only; the
	// documents above have none on their root field except sub{i@g}
	histories(C, w, all, small && !C.thorough ? 3 : 4, { false, true }, "s01");
	if (C.thorough && !small) histories(C, w, all, 5, { false }, "s01");
	if (!small) histories(C, w, core, C.thorough ? 7 : 6, { false }, "s01core");
	histories(C, w, core, small ? 4 : C.thorough ? 6 : 5, { true }, "s01held");

	// Many subscriptions, removed in every order.
	int n = C.thorough ? 7 : small ? 5 : 6;
	std::vector<int> perm(n);
	for (int i = 0; i < n; ++i) perm[i] = i;
	std::vector<Doc*> mix { &di, &da, &dk, &dn, &df, &dm, &dav };
	do
	{
		if (!C.mine()) continue;
		std::string t = "s01 remove in the order";
		for (int i : perm) t += " " + std::to_string(i);
		if (!C.begin(t)) continue;
		Session s(w);
		std::vector<Key> keys;
		for (int i = 0; i < n; ++i) keys.push_back(s.subscribe(*mix[i]));
		for (int i = 0; i < n && s.wrong.empty(); ++i)
		{
			s.unsubscribe(keys[perm[i]], i % 2);
			s.deliver("i", 1);
			s.deliver("a", 2);
			if (i % 3 == 0) s.subscribe(*mix[perm[i]]); // a new one, whose key must not collide
			C.transitions += 3;
		}
		s.deliver("i", 4);
		s.deliver("a", 4);
		++C.traces;
		if (!s.wrong.empty()) C.fail("history", s.wrong);
	} while (std::next_permutation(perm.begin(), perm.end()) && !C.expired("s01 permutations"));

	// Sets of subscriptions removed together, followed by as many new ones and two more, twice over.
	for (int m = 1; m <= (C.thorough ? 10 : small ? 5 : 8); ++m)
		for (int set = 1; set < 1 << m; ++set)
			for (int order = 0; order < 3; ++order)
			{
				if (!C.mine()) continue;
				if (!C.begin("s01 of " + std::to_string(m) + " remove the set " + std::to_string(set) + (order == 0 ? " upwards" : order == 1 ? " downwards" : " adding after each"))) continue;
				Session s(w);
				std::vector<Key> keys;
				for (int i = 0; i < m; ++i) keys.push_back(s.subscribe(*mix[(i * 2) % 4]));
				std::vector<int> gone;
				for (int i = 0; i < m; ++i) if (set >> i & 1) gone.push_back(i);
				if (order == 1) std::reverse(gone.begin(), gone.end());
				for (int i : gone)
				{
					s.unsubscribe(keys[i], i % 2);
					if (order == 2) s.subscribe(i % 2 ? di : dn, i % 3 == 0);
				}
				s.deliver("i", 1);
				for (size_t i = 0; i < gone.size() + 2 && s.wrong.empty(); ++i) s.subscribe(i % 2 ? di : dn, i % 3 == 0);
				s.deliver("i", 2);
				s.deliver("a", 2);
				for (int i : gone) if (s.wrong.empty()) unsubNth(s, i, i % 2 == 0);
				for (size_t i = 0; i < gone.size() && s.wrong.empty(); ++i) s.subscribe(i % 2 ? dk : da);
				s.deliver("i", 3);
				s.deliver("a", 3);
				C.transitions += 5 + 4 * gone.size();
				++C.traces;
				if (!s.wrong.empty()) C.fail("history", s.wrong);
			}
	// More subscriptions than any branch of the bookkeeping could tell apart.
	for (size_t m : mc::sizes(C, small ? 64 : 256))
		for (size_t at : mc::places(m))
			for (int kind = 0; kind < 3; ++kind)
			{
				if (!C.mine()) continue;
				if (!C.begin("s01 " + std::to_string(m) + " subscriptions of the kind " + std::to_string(kind) + ", remove #" + std::to_string(at))) continue;
				Session s(w);
				std::vector<Key> keys;
				for (size_t i = 0; i < m && s.wrong.empty(); ++i) keys.push_back(s.subscribe(kind == 0 ? di : kind == 1 ? (i % 2 ? di : dn) : (i == at ? dn : dk), i % 5 == 4));
				if (s.wrong.empty()) s.deliver("i", 1);
				if (s.wrong.empty()) s.unsubscribe(keys[at], at % 2);
				for (int i = 0; i < 3 && s.wrong.empty(); ++i) s.subscribe(di, i == 1);
				if (s.wrong.empty()) s.deliver("i", 2);
				if (s.wrong.empty()) s.deliver("a", 2);
				// all but the last one are removed
				while (s.order.size() > 1 && s.wrong.empty()) s.unsubscribe(s.order[at % (s.order.size() - 1)], s.order.size() % 2);
				if (s.wrong.empty()) s.deliver("i", 3);
				if (s.wrong.empty()) s.subscribe(di);
				if (s.wrong.empty()) s.deliver("i", 4);
				C.transitions += 2 * m;
				++C.traces;
				if (!s.wrong.empty()) C.fail("history", s.wrong);
			}

	// Callbacks which call back: subscriptions live through the whole delivery get exactly one event,
	// ones removed or added by a callback at most one, and the books are right afterwards.
	const char* actions[] = { "unsub-self", "unsub-next", "unsub-previous", "sub", "deliver-a", "deliver-i", "unsub-sub", "unsub-all" };
	for (int subs = 1; subs <= 3; ++subs)
		for (int actor1 = 0; actor1 < subs; ++actor1)
			for (int actor2 = actor1; actor2 < subs; ++actor2)
				for (int a1 = 0; a1 < 8; ++a1)
					for (int a2 = 0; a2 < (actor1 == actor2 ? 1 : 8); ++a2)
						for (int async = 0; async < 2; ++async)
						{
							if (!C.mine()) continue;
							if (!C.begin("s01 reentrant: " + std::to_string(subs) + " subscriptions, callback " + std::to_string(actor1) + " does " + actions[a1]
									+ (actor1 != actor2 ? ", callback " + std::to_string(actor2) + " does " + actions[a2] : "") + (async ? " asynchronously" : "")))
								continue;
							Session s(w);
							for (int i = 0; i < subs; ++i) s.subscribe(i % 2 ? dk : di);
							s.subscribe(da);
							auto before = s.live;
							auto keys = s.order;
							std::set<int> touched;
							int depth = 0;
							std::vector<int> runs(16, 0);
							s.reenter = [&](int serial) {
								if (serial < 16) ++runs[serial];
								if (depth || (serial != actor1 && serial != actor2)) return;
								depth = 1;
								auto remove = [&](int i) {
									if (i >= 0 && i < subs && s.live.count(keys[i]) && s.live[keys[i]].serial == i)
									{
										touched.insert(i);
										s.unsubscribe(keys[i], async);
									}
								};
								switch (serial == actor1 ? a1 : a2)
								{
									case 0: remove(serial); break;
									case 1: remove((serial + 1) % subs); break;
									case 2: remove((serial + subs - 1) % subs); break;
									case 6: remove(serial); [[fallthrough]];
									case 3: touched.insert(s.serials); s.subscribe(di, async); break;
									case 4: { auto g = std::move(s.got); s.got.clear(); s.deliver("a", 2); s.got = std::move(g); break; }
									case 5: { auto g = std::move(s.got); auto r = runs; s.got.clear(); s.deliver("i", 5); s.got = std::move(g); runs = r; break; }
									case 7: for (int i = 0; i < subs; ++i) remove(i); break;
								}
								depth = 0;
							};
							auto all = [](response::MapType::const_reference) noexcept { return true; };
							try
							{
								w.svc->deliver("i", all, all, w.node("Subscription", 1));
							}
							catch (const std::exception& ex)
							{
								s.bad(std::string("deliver threw ") + ex.what());
							}
							for (int i = 0; i < 16; ++i)
							{
								bool mustOne = i < subs && !touched.count(i);
								if (mustOne ? runs[i] != 1 : runs[i] > (touched.count(i) ? 1 : 0))
									if (!(i == subs)) // the subscription to a
										s.bad("subscription #" + std::to_string(i) + " got " + std::to_string(runs[i]) + " events");
							}
							for (auto& g : s.got)
							{
								auto want = expected(w, g.serial < subs && g.serial % 2 ? dk : di, 3, 1).data;
								if (g.serial != subs && g.text != want) s.bad("subscription #" + std::to_string(g.serial) + " got " + g.text + " instead of " + want);
							}
							s.got.clear();
							s.reenter = {};
							s.deliver("i", 2);
							s.deliver("a", 2);
							C.transitions += 5;
							++C.traces;
							if (!s.wrong.empty()) C.fail("reentrant", s.wrong);
						}

	// Objects which the callbacks own, and which use the service again when they are destroyed.
	const char* last[] = { "unsub-next", "unsub-previous", "unsub-itself-again", "sub", "deliver-a", "deliver-i", "unsub-all" };
	for (int subs = 1; subs <= 4; ++subs)
		for (int actor = 0; actor < subs; ++actor)
			for (int action = 0; action < 7; ++action)
				for (int async = 0; async < 2; ++async)
					for (int within = 0; within < 2; ++within)
					{
						if (!C.mine()) continue;
						if (!C.begin("s01 the callback " + std::to_string(actor) + " of " + std::to_string(subs) + " does " + last[action] + " when it is destroyed"
								+ (async ? ", asynchronously" : "") + (within ? ", removed by another callback" : "")))
							continue;
						Session s(w);
						std::vector<Key> keys(subs);
						bool armed = true;
						for (int i = 0; i < subs; ++i)
						{
							if (i == actor)
								s.nextGuard = std::shared_ptr<void>(nullptr, [&, i](void*) {
									if (!armed) return;
									armed = false;
									// the service has forgotten this one, the test not yet
									s.forget(keys[i]);
									auto got = std::move(s.got);
									s.got.clear();
									auto re = std::exchange(s.reenter, nullptr);
									auto remove = [&](int k) { if (k >= 0 && k < subs && k != actor) s.unsubscribe(keys[k], async); };
									switch (action)
									{
										case 0: remove((i + 1) % subs); break;
										case 1: remove((i + subs - 1) % subs); break;
										case 2: s.unsubscribe(keys[i], async); break;
										case 3: s.subscribe(di, async); break;
										case 4: s.deliver("a", 2); break;
										case 5: s.deliver("i", 2); break;
										case 6: for (int k = 0; k < subs; ++k) remove(k); break;
									}
									s.got = std::move(got);
									s.reenter = std::move(re);
								});
							keys[i] = s.subscribe(i % 2 ? dn : di, i % 2);
						}
						if (within)
						{
							s.subscribe(dm);
							bool once = true;
							int serial = s.serials - 1;
							s.reenter = [&](int n) {
								if (n != serial || !once) return;
								once = false;
								w.svc->unsubscribe(keys[actor]);
							};
							auto all = [](response::MapType::const_reference) noexcept { return true; };
							w.svc->deliver("i", all, all, w.node("Subscription", 1));
							s.reenter = nullptr;
							s.got.clear();
						}
						else if (async) w.svc->unsubscribe(std::launch::deferred, keys[actor]).get();
						else w.svc->unsubscribe(keys[actor]);
						if (std::exchange(armed, false)) s.forget(keys[actor]);
						s.deliver("i", 3);
						s.deliver("a", 3);
						C.transitions += 4;
						++C.traces;
						if (!s.wrong.empty()) C.fail("destroyed", s.wrong);
					}

	// Services without a default object, and without subscriptions.
	if (C.mine() && C.begin("s01 a service without a default subscription object"))
	{
		Session s(w, false, false);
		s.subscribe(di);
		s.subscribe(da, true);
		s.subscribe(df);
		s.deliver("i", 1);
		s.deliver("a", 2);
		s.unsubscribe(s.order[0], true);
		s.unsubscribe(s.order[0]);
		s.deliver("i", 1);
		s.deliver("a", 1);
		bool threw = false;
		try { w.svc->deliver("i", std::shared_ptr<service::Object> {}); }
		catch (const std::invalid_argument&) { threw = true; }
		if (!threw) s.bad("an event without an object was accepted by a service without a default one");
		s.check({}, "deliver without an object");
		if (!s.wrong.empty()) C.fail("no-default", s.wrong);
		++C.traces;
	}
	if (C.mine() && C.begin("s01 a service without subscriptions"))
	{
		w.fresh(false);
		bool threw = false;
		try { w.svc->deliver("i", w.node("Subscription", 1)); }
		catch (const std::logic_error&) { threw = true; }
		if (!threw) C.fail("unsupported", "a service without subscriptions accepted an event");
		++C.traces;
	}
}

// ---- filters --------------------------------------------------------------------------------

using FilterMap = std::map<std::string, ref::Val>;

// EnumValue and string are told apart, as are 1 and 1.0.
bool equalVal(const ref::Val& a, const ref::Val& b) { return show(a, {}) == show(b, {}); }

void s02(mc::Ctx& C)
{
	World w;
	struct Form { std::string arg, decl; Vars vars; ref::Val value; bool present; };
	// How the value of one argument reaches the subscription.
	auto forms = [](const std::string& name, const std::string& type, const std::vector<std::string>& literals, const std::string& other) {
		std::vector<Form> f;
		f.push_back({ "", "", {}, {}, false });
		for (auto& l : literals)
		{
			auto v = "v" + name;
			f.push_back({ name + ":" + l, "", {}, lit(l), true });
			f.push_back({ name + ":$" + v, "$" + v + ":" + type, { { v, lit(l) } }, lit(l), true });
			if (l != "null")
			{
				f.push_back({ name + ":$" + v, "$" + v + ":" + type + "=" + l, {}, lit(l), true });
				f.push_back({ name + ":$" + v, "$" + v + ":" + type + "=" + l, { { v, lit(other) } }, lit(other), true });
			}
			f.push_back({ name + ":$" + v, "$" + v + ":" + type + "=" + other, { { v, lit(l) } }, lit(l), true });
		}
		f.push_back({ name + ":$v" + name, "$v" + name + ":" + type, {}, lit("null"), true });
		return f;
	};
	struct Root { std::string field, sel; std::vector<std::vector<Form>> args; std::vector<std::vector<std::string>> filters; };
	std::vector<Root> roots {
		{ "xi", "", { forms("x", "Int", { "1", "2", "null" }, "7") }, { { "", "1", "2", "7", "null", "1.0", "\"1\"" } } },
		{ "xe", "", { forms("x", "E", { "X", "null" }, "Z") }, { { "", "X", "Z", "null" } } },
		{ "xs", "", { forms("x", "String", { "\"p\"", "\"\"" }, "\"q\""), forms("y", "Int", { "1" }, "2") }, { { "", "\"p\"", "\"\"", "\"q\"", "null" }, { "", "1", "2", "null" } } },
		{ "xin", "", { forms("x", "In", { "{n:1}", "{n:1,i:null}", "{n:2,l:[1,2],e:X,in:{n:3}}" }, "{n:2}") },
			{ { "", "{n:1}", "{n:1,i:null}", "{n:2}", "{n:2,l:[1,2],e:X,in:{n:3}}", "{n:2,l:[2,1],e:X,in:{n:3}}", "{n:2,l:[1,2],e:Y,in:{n:3}}", "{n:2,l:[1,2],e:X,in:{n:4}}", "null" } } },
		{ "xl", "", { forms("x", "[Int]", { "[]", "[1,2]", "[null]", "null" }, "[1]") }, { { "", "[]", "[1]", "[1,2]", "[2,1]", "[1,2,2]", "[null]", "null", "1" } } },
		{ "xb", "", { forms("x", "Boolean", { "true", "null" }, "false") }, { { "", "true", "false", "null", "0" } } },
		{ "xsc", "", { forms("x", "S", { "{}", "[]", "0", "false", "\"\"", "{a:[{b:1}]}" }, "null") }, { { "", "{}", "[]", "0", "false", "\"\"", "null", "{a:[{b:1}]}", "{a:[{b:2}]}", "{a:[]}" } } },
	};
	struct DirForm { std::string text, decl; Vars vars; std::map<std::string, std::string> dirs; }; // dirs: name -> literal of its arguments
	std::vector<DirForm> dirForms {
		{ "", "", {}, {} }, { "@d", "", {}, { { "d", "{}" } } }, { "@d(x:1)", "", {}, { { "d", "{x:1}" } } }, { "@d(x:1,y:\"a\")", "", {}, { { "d", "{x:1,y:\"a\"}" } } },
		{ "@d(x:2)", "", {}, { { "d", "{x:2}" } } }, { "@d(x:$w)", "$w:Int", { { "w", lit("1") } }, { { "d", "{x:1}" } } }, { "@d(x:$w)", "$w:Int=2", {}, { { "d", "{x:2}" } } },
		{ "@d(x:$w)", "$w:Int", {}, { { "d", "{x:null}" } } }, { "@g(x:1)", "", {}, { { "g", "{x:1}" } } }, { "@d @g(x:1)", "", {}, { { "d", "{}" }, { "g", "{x:1}" } } },
		{ "@g(x:1) @d(x:1)", "", {}, { { "d", "{x:1}" }, { "g", "{x:1}" } } },
	};
	std::vector<std::map<std::string, std::string>> dirFilters {
		{}, { { "d", "{}" } }, { { "d", "{x:1}" } }, { { "d", "{x:2}" } }, { { "d", "{x:null}" } }, { { "d", "{x:1,y:\"a\"}" } }, { { "g", "{x:1}" } }, { { "d", "{}" }, { "g", "{x:1}" } },
		{ { "d", "{x:1}" }, { "g", "{x:1}" } }, { { "d", "{x:1}" }, { "g", "{x:2}" } }, { { "d", "{x:1}" }, { "g", "{x:1}" }, { "other", "{}" } }, { { "d", "null" } },
	};
	const int places = 5;
	auto place = [](int p, const std::string& decls, const std::string& sel) -> std::string {
		auto head = "subscription" + (decls.empty() ? std::string() : "(" + decls + ")");
		switch (p)
		{
			case 0: return head + "{" + sel + "}";
			case 1: return head + "{...F} fragment F on Subscription{" + sel + "}";
			case 2: return head + "{... on Subscription{" + sel + "}}";
			case 3: return head + "{...{...F}} fragment F on Subscription{...G} fragment G on Subscription{..." + (decls.size() % 2 ? "on Subscription" : "") + "{" + sel + "}}";
			default: return "query Q{i} " + head.insert(12, " S") + " @d(x:5){al:" + sel + "} subscription T{i}";
		}
	};
	auto object = w.node("Subscription", 1);
	auto state = std::make_shared<service::RequestState>();
	for (auto& root : roots)
	{
		std::vector<std::pair<std::vector<const Form*>, std::string>> choices; // forms per argument
		for (auto& f0 : root.args[0])
			if (root.args.size() == 1) choices.push_back({ { &f0 }, f0.arg });
			else
				for (auto& f1 : root.args[1])
				{
					auto both = f0.arg + (f0.arg.empty() || f1.arg.empty() ? "" : ",") + f1.arg;
					choices.push_back({ { &f0, &f1 }, both });
					if (!f0.arg.empty() && !f1.arg.empty()) choices.push_back({ { &f0, &f1 }, f1.arg + "," + f0.arg });
				}
		for (auto& ch : choices)
			for (size_t df = 0; df < dirForms.size(); ++df)
				for (int p = 0; p < places; ++p)
					for (int json = 0; json < 2; ++json)
					{
						auto& dir = dirForms[df];
						// directives are combined with every argument form directly, other places with a few
						if (!C.thorough && p && df % 3 != static_cast<size_t>(p) % 3) continue;
						std::string decls = dir.decl;
						Vars vars = dir.vars;
						for (auto* f : ch.first)
						{
							if (!f->decl.empty()) decls += (decls.empty() ? "" : ",") + f->decl;
							for (auto& v : f->vars) vars.insert(v);
						}
						if (json && vars.empty()) continue;
						auto sel = root.field + (ch.second.empty() ? "" : "(" + ch.second + ")") + dir.text;
						auto text = place(p, decls, sel);
						if (!C.mine()) continue;
						auto d = doc(w, text, root.field, p == 4 ? "S" : "", vars);
						w.fresh();
						w.rec.clear();
						auto given = toVars(vars);
						bool jsonEnum = false;
						if (json)
						{
							std::string j = "{";
							std::function<std::string(const ref::Val&)> enc = [&](const ref::Val& v) -> std::string {
								switch (v.k)
								{
									case ref::Val::Enum: jsonEnum = true; return mc::jsonq(v.text);
									case ref::Val::Str: return mc::jsonq(v.text);
									case ref::Val::List: { std::string o = "["; for (auto& x : v.list) o += (o.size() > 1 ? "," : "") + enc(x); return o + "]"; }
									case ref::Val::Obj: { std::string o = "{"; for (auto& x : v.obj) o += (o.size() > 1 ? "," : "") + mc::jsonq(x.first) + ":" + enc(x.second); return o + "}"; }
									default: return printVal(v);
								}
							};
							for (auto& v : vars) j += (j.size() > 1 ? "," : "") + mc::jsonq(v.first) + ":" + enc(v.second);
							given = response::parseJSON(j + "}");
						}
						int calls = 0;
						std::string data;
						try
						{
							w.svc->subscribe({ state, peg::ast(d.q.ast), std::string(d.name), std::move(given) }, [&](std::future<response::Value> f) {
								++calls;
								data = ::text(f);
							});
						}
						catch (const std::exception& ex)
						{
							if (C.begin("s02 " + text + svc::describe(vars))) C.fail("subscribe", ex.what());
							continue;
						}
						auto want = expected(w, d, 3, 1).data;
						// every combination of filters
						std::vector<size_t> pick(root.filters.size() + 1, 0);
						bool first = true;
						for (bool more = true; more;)
						{
							for (int extra = 0; extra < 2; ++extra)
								for (int how = 0; how < 4; ++how)
								{
									auto& dm = dirFilters[pick.back()];
									if (extra && how) continue;
									if (how == 1 && !dm.empty()) continue; // the overload without directives
									std::string t = "s02 " + text + svc::describe(vars) + (json ? " from JSON" : "") + " | filter";
									FilterMap args;
									const char* names[] = { "x", "y" };
									for (size_t a = 0; a < root.filters.size(); ++a)
										if (auto& l = root.filters[a][pick[a]]; !l.empty()) args[names[a]] = lit(l);
									if (extra) args["other"] = lit("1");
									for (auto& a : args) t += " " + a.first + "=" + printVal(a.second);
									for (auto& m : dm) t += " @" + m.first + m.second;
									t += how == 0 ? "" : how == 1 ? " (arguments only)" : how == 2 ? " (callbacks)" : " (argument callback only)";
									if (!C.begin(t, true)) continue;
									bool matchArgs = true, matchDirs = true;
									std::map<std::string, std::string> seenA, seenD, wantA, wantD;
									for (size_t a = 0; a < ch.first.size(); ++a)
										if (ch.first[a]->present)
										{
											auto i = args.find(names[a]);
											wantA[names[a]] = show(ch.first[a]->value, {});
											if (i == args.end() || !equalVal(i->second, ch.first[a]->value)) matchArgs = false;
										}
									for (auto& m : dir.dirs)
									{
										auto i = dm.find(m.first);
										wantD[m.first] = show(lit(m.second), {});
										if (i == dm.end() || i->second != m.second) matchDirs = false;
									}
									bool match = matchArgs && (matchDirs || how == 3);
									calls = 0;
									data.clear();
									service::SubscriptionArguments fa, fd;
									for (auto& a : args) fa.emplace(a.first, toResponse(a.second));
									for (auto& m : dm) fd.emplace(m.first, toResponse(lit(m.second)));
									bool askedWrong = false;
									auto cb = [&](const service::SubscriptionArguments& f, std::map<std::string, std::string>& seen) {
										return service::SubscriptionFilterCallback([&f, &seen](response::MapType::const_reference r) noexcept {
											seen[r.first] = show(r.second);
											auto i = f.find(r.first);
											return i != f.end() && show(i->second) == show(r.second);
										});
									};
									try
									{
										switch (how)
										{
											case 0: w.svc->deliver(root.field, fa, fd, object); break;
											case 1: w.svc->deliver(root.field, fa, object); break;
											case 2: w.svc->deliver(root.field, cb(fa, seenA), cb(fd, seenD), object); break;
											case 3: w.svc->deliver(root.field, cb(fa, seenA), object); break;
										}
									}
									catch (const std::exception& ex)
									{
										C.fail("deliver", ex.what());
										continue;
									}
									++C.transitions;
									++C.traces;
									first = false;
									// a JSON string for an enum variable is not the enum value: see known_findings.txt
									const char* sig = jsonEnum && matchArgs && match && !calls ? "json-enum-variable" : "filter";
									if (calls != (match ? 1 : 0)) C.fail(sig, "delivered " + std::to_string(calls) + " times instead of " + (match ? "1" : "0"));
									else if (match && data != want) C.fail("data", "got " + data + " instead of " + want);
									else if (how >= 2)
										for (auto* s : { &seenA, &seenD })
											for (auto& x : *s)
												if (auto& wm = s == &seenA ? wantA : wantD; !jsonEnum && (!wm.count(x.first) || wm[x.first] != x.second))
													C.fail("asked", "the filter was asked about " + x.first + " = " + x.second);
									if (how == 2 && match && !jsonEnum && (seenA != wantA || seenD != wantD)) C.fail("asked", "the filter was not asked about everything");
									(void)askedWrong;
								}
							size_t i = 0;
							while (i < pick.size() && ++pick[i] == (i + 1 == pick.size() ? dirFilters.size() : root.filters[i].size())) pick[i++] = 0;
							more = i < pick.size();
						}
						C.states += 1;
						(void)first;
						if (C.expired("s02")) return;
					}
	}
}

// ---- the asynchronous overloads -------------------------------------------------------------

void s04(mc::Ctx& C)
{
	World w;
	std::list<Doc> docs;
	std::vector<std::tuple<std::string, std::string, std::string, Vars>> texts {
		{ "subscription{i}", "i", "", {} },
		{ "subscription{k:i}", "i", "", {} },
		{ "subscription{a{i s I{__typename i}}}", "a", "", {} },
		{ "subscription{la{i a{j}}}", "la", "", {} },
		{ "subscription($v:Int){xi(x:$v)}", "xi", "", { { "v", lit("3") } } },
		{ "subscription($v:Int=4){xi(x:$v)}", "xi", "", {} },
		{ "subscription($v:Int){xi(x:$v)}", "xi", "", {} },
		{ "subscription{xin(x:{n:1,l:[1,2]})}", "xin", "", {} },
		{ "subscription{xs(x:\"q\",y:2)}", "xs", "", {} },
		{ "subscription{xs(y:2,x:\"q\") @d(x:1)}", "xs", "", {} },
		{ "subscription @g(x:9){...F @d(x:2)} fragment F on Subscription @d(y:\"f\"){a{...{i}}}", "a", "", {} },
		{ "query Q{i} subscription S{a{i}} subscription T{xe(x:Y)}", "xe", "T", {} },
		{ "query Q{i} subscription S{a{i}} subscription T{xe(x:Y)}", "a", "S", {} },
		{ "subscription{i @skip(if:true)}", "", "", {} },
	};
	for (auto& t : texts) docs.push_back(doc(w, std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)));
	using F = Fail;
	const std::pair<const char*, Fail> faults[] = { { "none", F::None }, { "begin", F::Begin }, { "end", F::End }, { "throw", F::ThrowStd }, { "throw-schema", F::ThrowSchema },
		{ "throw-two", F::Throw2 }, { "future", F::FutureStd }, { "future-schema", F::FutureSchema }, { "future-late", F::FutureLate } };
	const std::pair<const char*, std::launch> launches[] = { { "deferred", std::launch::deferred }, { "async", std::launch::async } };
	for (auto& d : docs)
		for (auto& la : launches)
			for (int others = 0; others < 3; ++others)
				for (auto& f1 : faults)
					for (auto& f2 : faults)
						for (int how = 0; how < 3; ++how)
						{
							if (!C.mine()) continue;
							if (!C.begin("s04 " + d.text + svc::describe(d.vars) + " launch " + la.first + ", " + std::to_string(others) + " other subscriptions, fault on subscribing "
									+ f1.first + ", on unsubscribing " + f2.first + ", results " + (how == 0 ? "values" : how == 1 ? "ready futures" : "deferred futures")))
								continue;
							Session s(w);
							w.rec.how = static_cast<How>(how);
							for (int i = 0; i < others; ++i) s.subscribe(docs.front());
							auto faultPath = [&](Fail f) {
								auto r = expected(w, d, 2, 0);
								if (f == F::Begin || f == F::End || r.calls.empty()) return std::string();
								return r.calls[0].path;
							};
							auto arm = [&](Fail f) {
								w.rec.clear();
								w.rec.fails.clear();
								if (f != F::None && !(faultPath(f).empty() && f != F::Begin && f != F::End)) w.rec.fails[faultPath(f)] = f;
							};
							auto armed = [&]() { return !w.rec.fails.empty(); };
							// what the notification must have called
							auto notified = [&](int context, const char* when) {
								Exec x(w.S, d.q.p.doc);
								for (auto& f : w.rec.fails) if (!f.first.empty()) x.fails.insert(f);
								auto r = x.run(*d.op, d.vars, context, "Subscription");
								Actual a;
								a.ok = true;
								a.data = r.data;
								if (w.rec.fails.count("") && w.rec.fails[""] == F::Begin) r.calls.clear();
								auto diff = differs(w.rec, a, r, CALLS | ARGS | DIRS);
								// only the accessors of the root object run before End fails
								if (w.rec.fails.count("") && w.rec.fails[""] == F::End) diff.clear();
								if (!diff.empty()) s.bad(std::string(when) + ": " + diff);
							};
							int serial = s.serials++;
							std::string thrown;
							bool schemaEx = false;
							Key key = 0;
							arm(f1.second);
							bool willFail = armed();
							try
							{
								auto fut = w.svc->subscribe(la.second, s.params(d), s.callback(serial));
								key = fut.get();
							}
							catch (const service::schema_exception& ex) { thrown = ex.what(); schemaEx = true; }
							catch (const std::runtime_error& ex) { thrown = ex.what(); if (typeid(ex) != typeid(std::runtime_error)) s.bad("another type of exception"); }
							catch (const std::exception& ex) { thrown = ex.what(); s.bad(std::string("another type of exception: ") + ex.what()); }
							notified(2, "subscribing");
							if (w.rec.wrongState) s.bad("the notification saw another request state");
							std::string path = faultPath(f1.second);
							bool schemaWant = path.empty() ? false : true; // failures of a field are reported as schema errors
							w.rec.fails.clear();
							if (willFail)
							{
								auto want = f1.second == F::Begin ? "begin" : f1.second == F::End ? "end" : f1.second == F::Throw2 ? "one" + path
									: f1.second == F::ThrowSchema || f1.second == F::FutureSchema ? "schema" + path : "std" + path;
								if (thrown.empty()) s.bad("the notification failed, but subscribe returned a key");
								else if (!endsWith(thrown, want)) s.bad("subscribe threw \"" + thrown + "\" instead of \"" + want + "\"");
								else if (schemaEx != schemaWant) s.bad("subscribe threw another type of exception");
							}
							else if (!thrown.empty()) s.bad("subscribe threw " + thrown);
							else s.added(key, serial, d);
							++C.transitions;
							auto probe = [&]() {
								for (auto* f : { "i", "a", "xi", "xe", "xs", "xin", "la" }) if (s.wrong.empty()) s.deliver(f, 1);
								s.wrong.empty();
							};
							probe();
							if (thrown.empty() && s.wrong.empty())
							{
								arm(f2.second);
								bool fails2 = armed();
								std::string thrown2;
								try
								{
									w.svc->unsubscribe(la.second, key).get();
								}
								catch (const std::exception& ex) { thrown2 = ex.what(); }
								notified(4, "unsubscribing");
								w.rec.fails.clear();
								bool rootFault = f2.second == F::Begin || f2.second == F::End;
								if (fails2 && rootFault)
								{
									auto want = f2.second == F::Begin ? "begin" : "end";
									if (thrown2 != want) s.bad("unsubscribe threw \"" + thrown2 + "\" instead of \"" + want + "\"");
								}
								else if (!fails2 && !thrown2.empty()) s.bad("unsubscribe threw " + thrown2);
								++C.transitions;
								if (!fails2)
								{
									s.forget(key);
									probe();
									// once more: nothing is registered, so nothing is notified
									w.rec.clear();
									try { w.svc->unsubscribe(la.second, key).get(); }
									catch (const std::exception& ex) { s.bad(std::string("unsubscribing twice threw ") + ex.what()); }
									if (!w.rec.calls.empty() && !s.live.count(key)) s.bad("unsubscribing twice notified twice");
								}
								else
								{
									// A hook which throws leaves it registered; after errors of accessors that is not specified.
									if (rootFault) probe();
									// remove it for good
									w.svc->unsubscribe(key);
									s.forget(key);
									probe();
								}
							}
							else if (s.wrong.empty())
							{
								// the service goes on as if it had never been asked
								s.subscribe(d);
								probe();
							}
							w.rec.how = How::Value;
							++C.traces;
							C.states += s.live.size() + 1;
							if (!s.wrong.empty())
							{
								bool accessor = f1.second != F::None && f1.second != F::Begin && f1.second != F::End && s.wrong.find("subscribe returned a key") != std::string::npos;
								C.fail(accessor ? "accessor-error-ignored" : "notify", s.wrong);
							}
							if (C.expired("s04")) return;
						}

	// Response futures which are read only after the subscription, the event object's owner and the service are gone.
	for (auto& d : docs)
		for (auto& la : launches)
			for (int how = 0; how < 3; ++how)
				for (int end = 0; end < 6; ++end)
				{
					if (d.field.empty()) continue;
					if (!C.mine()) continue;
					const char* ends[] = { "nothing", "unsubscribe", "async unsubscribe", "dropping the service", "unsubscribe and dropping the service", "unsubscribe within the callback" };
					if (!C.begin("s04 " + d.text + svc::describe(d.vars) + " launch " + la.first + " response held over " + ends[end] + ", results " + std::to_string(how))) continue;
					Session s(w, true);
					w.rec.how = static_cast<How>(how);
					auto key = s.subscribe(d, how == 1, la.second);
					auto t = s.targets(d.field, 2);
					if (end == 5) s.reenter = [&](int) { s.unsubscribe(key); };
					auto all = [](response::MapType::const_reference) noexcept { return true; };
					w.svc->deliver(la.second, d.field, all, all, w.node("Subscription", 2));
					s.check(t, "deliver");
					if (end == 1 || end == 4) s.unsubscribe(key);
					if (end == 2) s.unsubscribe(key, true, la.second);
					if (end != 3 && end != 4 && end < 3) { auto keep = w.svc; s.release(); w.svc = keep; }
					else s.release();
					w.rec.how = How::Value;
					++C.traces;
					++C.transitions;
					if (!s.wrong.empty()) C.fail("held", s.wrong);
				}
}

} // namespace

MC_MAIN({ { "s01", [](mc::Ctx& C) { s01(C, false); } }, { "s01small", [](mc::Ctx& C) { s01(C, true); } }, { "s02", s02 }, { "s04", s04 } })
