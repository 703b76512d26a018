#include "fibers.h"

#include <bits/atomic_futex.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <future>
#include <link.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <time.h>
#include <unordered_map>
#include <unistd.h>
#include <unordered_set>

#pragma GCC optimize("no-tree-loop-distribute-patterns")

namespace sched {

// ---- memory ---------------------------------------------------------------------------------

constexpr uintptr_t ARENA = 0x100000000000ull, ARENA_SIZE = 1ull << 30;
constexpr uintptr_t STACKS = 0x110000000000ull;
constexpr size_t STACK_SIZE = 512 * 1024, GUARD = 4096;
constexpr int MAXF = 64;
constexpr size_t STACKS_SIZE = STACK_SIZE * MAXF;

// The scheduler's own memory is never the run's.
template <class T>
struct Own
{
	using value_type = T;
	Own() = default;
	template <class U> Own(const Own<U>&) {}
	T* allocate(size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
	void deallocate(T* p, size_t) { std::free(p); }
	bool operator==(const Own&) const { return true; }
	bool operator!=(const Own&) const { return false; }
};
template <class K, class V>
using OwnMap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Own<std::pair<const K, V>>>;

static uintptr_t bump = ARENA;
static bool inSetup = false;
static bool ready = false;

constexpr int RECS = 6;
struct Rec
{
	uint32_t clock;
	uint32_t pc;
	uint8_t tid, mask, write, used;
};
struct Cell
{
	uint32_t gen;
	uint8_t freed, freedBy;
	uint8_t n, next;
	Rec rec[RECS];
};
static Cell* arenaCells;
static Cell* stackCells;
static uint32_t gen = 1;
static OwnMap<uintptr_t, Cell>* otherCells;

static void raw(const char* s)
{
	ssize_t r = write(2, s, __builtin_strlen(s));
	(void)r;
}

static void* reserve(uintptr_t at, size_t n)
{
	void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
	if (p == MAP_FAILED) { raw("sched: mmap failed\n"); _exit(96); }
	return p;
}

// ---- fibers ---------------------------------------------------------------------------------

struct Clock
{
	uint32_t v[MAXF];
};
static inline void join(Clock& a, const Clock& b, int n)
{
	for (int i = 0; i < n; ++i) if (b.v[i] > a.v[i]) a.v[i] = b.v[i];
}

struct Sync // whatever is keyed by an address: mutex, rwlock, atomic, once, condition
{
	uint32_t gen = 0;
	Clock r, q;
	int owner = -1, count = 0, readers = 0;
	uint32_t seq = 0;
	uint32_t lastBy = 0; // bit set of fibers
};
static OwnMap<uintptr_t, Sync>* syncs;

enum Wait { None, Mutex, RdLock, WrLock, Futex, Join, Once, Cond, Yield };

struct Fiber
{
	int id = 0;
	void* sp = nullptr;
	bool alive = false, done = false, detached = false, joined = false;
	void* (*fn)(void*) = nullptr;
	void* arg = nullptr;
	void* ret = nullptr;
	Wait wait = None;
	uintptr_t addr = 0;
	uint32_t val = 0;
	int ignore = 0, guard = 0;
	Clock r, q;
	uint64_t canon = 0;
	uint32_t events = 0;
	// per thread state of the C++ runtime
	void* eh[2] = { nullptr, nullptr };
	void* onceCallable = nullptr;
	void (*onceCall)() = nullptr;
	uint64_t yieldAt = 0;
};

static Fiber fibers[MAXF];
static int nf = 0, cur = -1;
static void* schedulerSp;
static bool running = false;
static const Options* opt;
static Report* rep;
static std::function<void()>* mainBody;

struct Point
{
	uint8_t n, pick, order[MAXF > 16 ? 16 : MAXF];
	bool curEnabled;
	int pre;
};
static std::vector<Point, Own<Point>>* path;
static size_t depth;
static size_t prefix;
static int pre;
static uint64_t stateHash, steps;
static OwnMap<uint64_t, int>* seen;
static bool abandon;
static bool warming;
static Clock globalR;
static uint64_t switches;

static uint64_t mix(uint64_t x)
{
	x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
	return x;
}

extern "C" void sched_switch(void** save, void* to);
asm(R"(
.text
.globl sched_switch
.type sched_switch,@function
sched_switch:
 pushq %rbp
 pushq %rbx
 pushq %r12
 pushq %r13
 pushq %r14
 pushq %r15
 subq $8,%rsp
 stmxcsr (%rsp)
 fnstcw 4(%rsp)
 movq %rsp,(%rdi)
 movq %rsi,%rsp
 ldmxcsr (%rsp)
 fldcw 4(%rsp)
 addq $8,%rsp
 popq %r15
 popq %r14
 popq %r13
 popq %r12
 popq %rbx
 popq %rbp
 ret
.size sched_switch,.-sched_switch
)");

static int busy = 0; // inside the scheduler
struct Busy
{
	Busy() { ++busy; }
	~Busy() { --busy; }
};
struct Outside
{
	bool was = running;
	Outside() { running = false; }
	~Outside() { running = was; }
};

static std::string symbol(uint32_t off)
{
	static uintptr_t base = [] {
		Dl_info i;
		dladdr(reinterpret_cast<void*>(&sched_switch), &i);
		return reinterpret_cast<uintptr_t>(i.dli_fbase);
	}();
	(void)base;
	char cmd[200], line[600] = "";
	std::snprintf(cmd, sizeof cmd, "addr2line -Cfe /proc/%d/exe 0x%x 2>/dev/null", getpid(), off);
	if (FILE* p = popen(cmd, "r"))
	{
		if (!std::fgets(line, sizeof line, p)) line[0] = 0;
		pclose(p);
	}
	std::string s = line;
	while (!s.empty() && s.back() == '\n') s.pop_back();
	return s.empty() ? "?" : s.substr(0, 300);
}
static uintptr_t imageBase()
{
	static uintptr_t base = 0;
	if (!base)
	{
		Dl_info i;
		dladdr(reinterpret_cast<void*>(&sched_switch), &i);
		base = reinterpret_cast<uintptr_t>(i.dli_fbase);
	}
	return base;
}

static std::string scheduleText()
{
	std::string s;
	for (size_t i = 0; i < depth && i < path->size(); ++i)
	{
		auto& p = (*path)[i];
		if (p.n > 1) s += (s.empty() ? "" : " ") + std::to_string(i) + ":" + std::to_string(p.order[p.pick]);
	}
	return s;
}

[[noreturn]] static void toScheduler()
{
	void* dummy;
	sched_switch(&dummy, schedulerSp);
	__builtin_unreachable();
}

// Records a violation found inside a run and gives the run up.
static void violate(const char* kind, const std::string& what)
{
	Outside o;
	if (rep->kind.empty())
	{
		rep->kind = kind;
		rep->what = what;
		rep->schedule = scheduleText();
	}
	abandon = true;
}

// The executable's thread_local variables: one copy per fiber, swapped in and out.
static char* tlsAt = nullptr;
static size_t tlsSize = 0, tlsInit = 0;
static const char* tlsImage = nullptr;
static char* tlsCopies = nullptr;
static void findTls()
{
	dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
		for (int k = 0; k < i->dlpi_phnum; ++k)
			if (i->dlpi_phdr[k].p_type == PT_TLS)
			{
				tlsSize = i->dlpi_phdr[k].p_memsz;
				tlsInit = i->dlpi_phdr[k].p_filesz;
				tlsImage = reinterpret_cast<const char*>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
				tlsAt = static_cast<char*>(i->dlpi_tls_data);
			}
		return 1; // the executable comes first
	}, nullptr);
	if (tlsSize) tlsCopies = static_cast<char*>(std::calloc(MAXF + 1, tlsSize));
}
static void rawCopy(char* d, const char* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }

static void save(Fiber& f)
{
	if (tlsSize) rawCopy(tlsCopies + tlsSize * (&f >= fibers && &f < fibers + MAXF ? f.id : MAXF), tlsAt, tlsSize);
	auto* g = reinterpret_cast<void**>(abi::__cxa_get_globals());
	f.eh[0] = g[0];
	f.eh[1] = g[1];
	f.onceCallable = std::__once_callable;
	f.onceCall = std::__once_call;
}
static void restore(Fiber& f)
{
	if (tlsSize) rawCopy(tlsAt, tlsCopies + tlsSize * (&f >= fibers && &f < fibers + MAXF ? f.id : MAXF), tlsSize);
	auto* g = reinterpret_cast<void**>(abi::__cxa_get_globals());
	g[0] = f.eh[0];
	g[1] = f.eh[1];
	std::__once_callable = f.onceCallable;
	std::__once_call = f.onceCall;
}

static Sync& sync(uintptr_t a)
{
	Busy b;
	auto& s = (*syncs)[a];
	if (s.gen != gen)
	{
		s = Sync {};
		s.gen = gen;
		s.r = Clock {};
		s.q = Clock {};
	}
	return s;
}

static bool enabled(Fiber& f)
{
	if (!f.alive || f.done) return false;
	switch (f.wait)
	{
		case None: return true;
		case Mutex: return sync(f.addr).owner < 0;
		case WrLock: return sync(f.addr).owner < 0 && sync(f.addr).readers == 0;
		case RdLock: return sync(f.addr).owner < 0;
		case Futex: return *reinterpret_cast<volatile uint32_t*>(f.addr) != f.val;
		case Join: return fibers[f.val].done;
		case Once: return sync(f.addr).owner < 0;
		case Cond: return sync(f.addr).seq != f.val;
		case Yield: return switches > f.yieldAt;
	}
	return true;
}

// An event of the equivalence relation: op of the current fiber on an object.
static void event(uintptr_t object)
{
	auto& f = fibers[cur];
	++f.events;
	++f.q.v[cur];
	if (object)
	{
		auto& s = sync(object);
		join(f.q, s.q, nf);
		s.q = f.q;
	}
	uint64_t h = f.canon * 31 + f.events;
	for (int i = 0; i < nf; ++i) if (f.q.v[i]) h += mix(fibers[i].canon + 0x9e3779b97f4a7c15ull * f.q.v[i]);
	stateHash += mix(h);
}

static void resume(int next)
{
	int was = cur;
	if (next == was) return;
	++switches;
	save(fibers[was]);
	cur = next;
	restore(fibers[next]);
	sched_switch(&fibers[was].sp, fibers[next].sp);
	// back here: cur == was again
}

// Picks who runs next. The current fiber may be blocked (wait set) or done.
static void choose()
{
	if (abandon) toScheduler();
	if (++steps > 100000)
	{
		violate("livelock", "a run of the scenario does not end within 100000 steps");
		toScheduler();
	}
	Point p {};
	p.curEnabled = enabled(fibers[cur]);
	if (p.curEnabled) p.order[p.n++] = static_cast<uint8_t>(cur);
	for (int i = 0; i < nf && p.n < 16; ++i)
		if (i != cur && enabled(fibers[i])) p.order[p.n++] = static_cast<uint8_t>(i);
	if (!p.n)
	{
		bool all = true;
		std::string who;
		for (int i = 0; i < nf; ++i)
			if (fibers[i].alive && !fibers[i].done)
			{
				static const char* names[] = { "", "a mutex", "a shared lock", "an exclusive lock", "a future", "a thread to end", "a once flag", "a condition", "others" };
				who += " thread " + std::to_string(i) + " waits for " + names[fibers[i].wait];
				if (fibers[i].wait == Mutex || fibers[i].wait == WrLock || fibers[i].wait == RdLock || fibers[i].wait == Once)
					who += " held by thread " + std::to_string(sync(fibers[i].addr).owner);
				who += ";";
				all = false;
			}
		if (!all) violate("deadlock", "no thread can go on:" + who);
		toScheduler(); // everything is done
	}
	if (warming)
	{
		resume(p.order[0]);
		fibers[cur].wait = None;
		return;
	}
	p.pre = pre;
	if (depth < prefix)
	{
		auto& w = (*path)[depth];
		if (w.n != p.n || __builtin_memcmp(w.order, p.order, p.n))
		{
			violate("divergence", "the same schedule does not lead to the same choices");
			toScheduler();
		}
		p.pick = w.pick;
		w = p;
	}
	else
	{
		if (opt->prune)
		{
			uint64_t k = mix(stateHash ^ fibers[cur].canon ^ (p.curEnabled ? 0 : 77));
			Busy b;
			auto r = seen->emplace(k, pre);
			if (!r.second)
			{
				if (r.first->second <= pre)
				{
					++rep->pruned;
					abandon = true;
					busy = 0;
					toScheduler();
				}
				r.first->second = pre;
			}
		}
		p.pick = 0;
		Busy b;
		path->resize(depth);
		path->push_back(p);
	}
	++depth;
	++rep->points;
	if (p.pick > 0 && (p.curEnabled || opt->delays)) ++pre;
	int next = p.order[p.pick];
	resume(next);
	if (abandon) toScheduler();
	fibers[cur].wait = None;
}

static void block(Wait w, uintptr_t addr, uint32_t val = 0)
{
	auto& f = fibers[cur];
	f.wait = w;
	f.addr = addr;
	f.val = val;
	choose();
}

static void finishFiber()
{
	auto& f = fibers[cur];
	f.done = true;
	event(0);
	choose(); // never returns: this fiber is not enabled again
	__builtin_unreachable();
}

static void entry()
{
	auto& f = fibers[cur];
	f.ret = f.fn ? f.fn(f.arg) : ((*mainBody)(), nullptr);
	finishFiber();
}

static int spawn(void* (*fn)(void*), void* arg)
{
	if (nf >= MAXF) { violate("threads", "more than 64 threads"); toScheduler(); }
	int id = nf++;
	auto& f = fibers[id];
	f = Fiber {};
	f.id = id;
	f.alive = true;
	f.fn = fn;
	f.arg = arg;
	f.r = Clock {};
	f.q = Clock {};
	if (cur >= 0)
	{
		auto& p = fibers[cur];
		f.r = p.r;
		++p.r.v[cur];
		event(0);
		f.q = p.q;
		f.canon = mix(p.canon * 1000003 + p.events + 7);
	}
	else f.canon = 12345;
	f.r.v[id] = 1;
	if (tlsSize)
	{
		rawCopy(tlsCopies + tlsSize * id, tlsImage, tlsInit);
		for (size_t i = tlsInit; i < tlsSize; ++i) *const_cast<volatile char*>(tlsCopies + tlsSize * id + i) = 0;
	}
	uintptr_t top = STACKS + STACK_SIZE * (id + 1);
	auto* sp = reinterpret_cast<uint64_t*>(top - 64);
	// return address = entry, with rsp % 16 == 8 at its first instruction
	*--sp = 0;
	*--sp = reinterpret_cast<uint64_t>(&entry);
	for (int i = 0; i < 6; ++i) *--sp = 0;
	--sp;
	auto* m = reinterpret_cast<uint32_t*>(sp);
	m[0] = 0x1f80;
	m[1] = 0x037f;
	f.sp = sp;
	return id;
}

// ---- accesses -------------------------------------------------------------------------------

static inline Cell* cellOf(uintptr_t granule)
{
	uintptr_t a = granule << 3;
	if (a - ARENA < ARENA_SIZE) return &arenaCells[(a - ARENA) >> 3];
	if (a - STACKS < STACKS_SIZE) return &stackCells[(a - STACKS) >> 3];
	return &(*otherCells)[granule];
}

static void raceReport(uintptr_t a, const Rec& r, bool write, uint32_t pc, const char* kind, int other)
{
	Outside o; // allocations of the report are not the run's
	std::string s;
	if (kind[0] == 'r')
		s = std::string("thread ") + std::to_string(cur) + (write ? " writes" : " reads") + " in " + symbol(pc) + " unordered with thread " + std::to_string(r.tid)
			+ (r.write ? " writing" : " reading") + " in " + symbol(r.pc);
	else s = "thread " + std::to_string(cur) + (write ? " writes" : " reads") + " memory which thread " + std::to_string(other) + " freed, in " + symbol(pc);
	(void)a;
	violate(kind, s);
}

static inline void access1(uintptr_t granule, uint8_t mask, bool write, uint32_t pc)
{
	Cell* c = cellOf(granule);
	if (c->gen != gen)
	{
		c->gen = gen;
		c->n = 0;
		c->next = 0;
		c->freed = 0;
	}
	auto& f = fibers[cur];
	if (c->freed & mask)
	{
		raceReport(granule << 3, Rec {}, write, pc, "use after free", c->freedBy);
		return;
	}
	int slot = -1;
	uint32_t now = f.r.v[cur];
	for (int i = 0; i < c->n; ++i)
	{
		auto& r = c->rec[i];
		if (r.tid == cur)
		{
			if (r.write == write && r.mask == mask)
			{
				if (r.clock == now) return; // nothing new since
				slot = i;
			}
			continue;
		}
		if ((write || r.write) && (r.mask & mask) && r.clock > f.r.v[r.tid])
		{
			raceReport(granule << 3, r, write, pc, "race", r.tid);
			return;
		}
	}
	if (slot < 0)
	{
		if (c->n < RECS) slot = c->n++;
		else
		{
			// prefer to drop a record which is ordered before us
			slot = -1;
			for (int i = 0; i < RECS && slot < 0; ++i) if (c->rec[i].tid != cur && c->rec[i].clock <= f.r.v[c->rec[i].tid] && (write || !c->rec[i].write)) slot = i;
			for (int i = 0; i < RECS && slot < 0; ++i) if (c->rec[i].tid == cur && (write || !c->rec[i].write)) slot = i;
			if (slot < 0) slot = c->next++ % RECS;
		}
	}
	c->rec[slot] = { now, pc, static_cast<uint8_t>(cur), mask, write, 1 };
}

static inline bool watching() { return running && !busy && cur >= 0 && !fibers[cur].ignore && !abandon; }

static uintptr_t threadPointer;

static void access(const void* p, size_t n, bool write, void* pc)
{
	if (!watching() || !n) return;
	Busy b;
	++rep->accesses;
	auto a = reinterpret_cast<uintptr_t>(p);
	if (threadPointer - a < 65536) return; // thread local
	uint32_t at = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc) - imageBase());
	uintptr_t g = a >> 3, last = (a + n - 1) >> 3;
	if (g == last)
	{
		access1(g, static_cast<uint8_t>(((1u << n) - 1) << (a & 7)), write, at);
	}
	else
		for (; g <= last && !abandon; ++g)
		{
			uintptr_t lo = std::max(a, g << 3), hi = std::min(a + n, (g + 1) << 3);
			access1(g, static_cast<uint8_t>(((1u << (hi - lo)) - 1) << (lo & 7)), write, at);
		}
	if (abandon)
	{
		busy = 0;
		toScheduler();
	}
}

// New memory: nothing happened to it yet.
static void fresh(uintptr_t a, size_t n)
{
	if (a - ARENA < ARENA_SIZE) return; // never reused within a run
	for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) otherCells->erase(g);
}

static void* allocate(size_t n, size_t align)
{
	if (align < 16) align = 16;
	uintptr_t a = (bump + 16 + align - 1) / align * align;
	bump = (a + (n ? n : 1) + 15) / 16 * 16;
	if (bump > ARENA + ARENA_SIZE) { raw("sched: arena exhausted\n"); _exit(95); }
	reinterpret_cast<uint64_t*>(a)[-1] = n;
	if (running)
	{
		Cell* c = cellOf((a >> 3) - 1); // the header is out of bounds for everyone
		c->gen = gen;
		c->n = 0;
		c->next = 0;
		c->freed = 0xff;
		c->freedBy = static_cast<uint8_t>(cur);
	}
	return reinterpret_cast<void*>(a);
}

static bool toArena() { return (inSetup || (running && cur >= 0)) && !(running && cur >= 0 && fibers[cur].guard); }

static void release(void* p, void* pc)
{
	auto a = reinterpret_cast<uintptr_t>(p);
	if (a - ARENA >= ARENA_SIZE)
	{
		std::free(p);
		return;
	}
	if (!running || cur < 0) return;
	size_t n = reinterpret_cast<uint64_t*>(a)[-1];
	if (!n) n = 1;
	if (fibers[cur].ignore || abandon) return;
	access(p, n, true, pc);
	for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
	{
		Cell* c = cellOf(g);
		c->gen = gen;
		c->freed = 0xff;
		c->freedBy = static_cast<uint8_t>(cur);
	}
}

// ---- synchronisation ------------------------------------------------------------------------

static void acquireR(Clock& c) { join(fibers[cur].r, c, nf); }
static void releaseR(Clock& c)
{
	join(c, fibers[cur].r, nf);
	++fibers[cur].r.v[cur];
}

static bool in() { return running && !busy && cur >= 0 && !abandon; }

static void lockAny(uintptr_t a, Wait w, bool recursive)
{
	auto& s = sync(a);
	if (recursive && s.owner == cur) { ++s.count; return; }
	block(w, a);
	auto& t = sync(a);
	event(a);
	acquireR(t.r);
	if (w == RdLock) ++t.readers;
	else { t.owner = cur; t.count = 1; }
}

static void unlockAny(uintptr_t a)
{
	auto& s = sync(a);
	if (s.owner == cur)
	{
		if (--s.count > 0) return;
		releaseR(s.r);
		s.owner = -1;
		event(a);
	}
	else if (s.readers > 0)
	{
		releaseR(s.r);
		--s.readers;
		event(a);
	}
	else
	{
		++fibers[cur].ignore;
		violate("unlock", "thread " + std::to_string(cur) + " unlocks a lock it does not hold");
		toScheduler();
	}
}

static void globalSync()
{
	if (!in()) return;
	acquireR(globalR);
	releaseR(globalR);
}

static bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// Before an atomic operation. kind: 0 load, 1 store, 2 read-modify-write
static void atomicOp(const volatile void* p, size_t n, int mo, int kind, void* pc)
{
	if (!in() || fibers[cur].ignore) return;
	auto a = reinterpret_cast<uintptr_t>(p);
	{
		// freed memory only: atomics don't race with each other
		for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
		{
			Cell* c = cellOf(g);
			if (c->gen == gen && c->freed)
			{
				raceReport(a, Rec {}, kind != 0, static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc) - imageBase()), "use after free", c->freedBy);
				toScheduler();
			}
		}
	}
	{
		auto& s = sync(a);
		bool shared = (s.lastBy & ~(1u << (cur & 31))) != 0;
		if (opt->atomics && shared && kind != 0 && !warming)
		{
			block(None, 0);
			event(a);
		}
		s.lastBy |= 1u << (cur & 31);
	}
	auto& s = sync(a);
	if (isAcq(mo) && kind != 1) acquireR(s.r);
	if (isRel(mo) && kind != 0)
	{
		if (kind == 1) s.r = Clock {};
		releaseR(s.r);
	}
}

Ignore::Ignore() { if (running && cur >= 0) ++fibers[cur].ignore; }
Ignore::~Ignore() { if (running && cur >= 0) --fibers[cur].ignore; }
bool active() { return running && cur >= 0; }
int self() { return cur; }
int preemptionsUsed() { return pre; }
void point(const void* object)
{
	if (!in()) return;
	block(None, 0);
	event(reinterpret_cast<uintptr_t>(object));
}

static void init()
{
	if (ready) return;
	ready = true;
	reserve(ARENA, ARENA_SIZE);
	reserve(STACKS, STACKS_SIZE);
	for (int i = 0; i < MAXF; ++i) mprotect(reinterpret_cast<void*>(STACKS + STACK_SIZE * i), GUARD, PROT_NONE);
	arenaCells = static_cast<Cell*>(reserve(0, ARENA_SIZE / 8 * sizeof(Cell)));
	stackCells = static_cast<Cell*>(reserve(0, STACKS_SIZE / 8 * sizeof(Cell)));
	otherCells = new OwnMap<uintptr_t, Cell>;
	syncs = new OwnMap<uintptr_t, Sync>;
	seen = new OwnMap<uint64_t, int>;
	path = new std::vector<Point, Own<Point>>;
	__libc_single_threaded = 0;
	threadPointer = reinterpret_cast<uintptr_t>(__builtin_thread_pointer());
	findTls();
}

static void oneRun(const std::function<void()>& body)
{
	++gen;
	otherCells->clear();
	if (syncs->size() > 20000) syncs->clear();
	nf = 0;
	cur = -1;
	depth = 0;
	pre = 0;
	steps = 0;
	switches = 0;
	stateHash = 0;
	abandon = false;
	busy = 0;
	globalR = Clock {};
	std::function<void()> b = body;
	mainBody = &b;
	Fiber outer;
	save(outer);
	int id = spawn(nullptr, nullptr);
	cur = id;
	restore(fibers[id]);
	running = true;
	sched_switch(&schedulerSp, fibers[id].sp);
	running = false;
	if (nf > static_cast<int>(rep->threads)) rep->threads = nf;
	cur = -1;
	restore(outer);
}

Report explore(const Options& o, const std::function<void()>& warm, const std::function<void()>& setup,
	const std::function<void()>& body, const std::function<std::string()>& after)
{
	init();
	Report r;
	opt = &o;
	rep = &r;
	seen->clear();
	path->clear();
	prefix = 0;
	if (warm)
	{
		warming = true;
		oneRun(warm);
		warming = false;
		if (!r.kind.empty()) { r.kind += " (warm up)"; return r; }
	}
	uintptr_t from = bump;
	inSetup = true;
	if (setup) setup();
	inSetup = false;
	uintptr_t to = bump;
	std::vector<char> snapshot(reinterpret_cast<char*>(from), reinterpret_cast<char*>(to));
	for (;;)
	{
		if (r.runs)
		{
			auto* d = reinterpret_cast<char*>(from);
			asm volatile("" ::: "memory");
			std::copy(snapshot.begin(), snapshot.end(), d);
			bump = to;
		}
		if (o.beat)
		{
			std::string s;
			for (size_t i = 0; i < path->size(); ++i)
				if ((*path)[i].n > 1) s += (s.empty() ? "" : " ") + std::to_string(i) + ":" + std::to_string((*path)[i].order[(*path)[i].pick]);
			o.beat(s);
		}
		oneRun(body);
		++r.runs;
		r.longest = std::max<uint64_t>(r.longest, depth);
		if (r.kind.empty() && !abandon && after)
		{
			auto w = after();
			if (!w.empty())
			{
				r.kind = "outcome";
				r.what = w;
				r.schedule = scheduleText();
			}
		}
		if (!r.kind.empty()) break;
		path->resize(std::min(path->size(), depth));
		// the next schedule
		while (!path->empty())
		{
			auto& p = path->back();
			bool more = p.pick + 1 < p.n && ((!p.curEnabled && !o.delays) || p.pre < o.preemptions);
			if (more)
			{
				++p.pick;
				break;
			}
			path->pop_back();
		}
		prefix = path->size();
		if (!prefix)
		{
			r.complete = true;
			break;
		}
		if (r.runs >= o.maxRuns || (o.expired && o.expired())) break;
	}
	r.states = seen->size();
	bump = to; // what the warm up and the setup made stays
	return r;
}

} // namespace sched

using namespace sched;

#define PC __builtin_return_address(0)

// ---- operator new and delete ----------------------------------------------------------------

static void* make(size_t n, size_t align)
{
	if (!toArena())
	{
		void* p = align > 16 ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
		if (!p) std::abort();
		return p;
	}
	return allocate(n, align);
}
void* operator new(size_t n) { return make(n, 16); }
void* operator new[](size_t n) { return make(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return make(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return make(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return make(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return make(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { if (p) release(p, PC); }
void operator delete[](void* p) noexcept { if (p) release(p, PC); }
void operator delete(void* p, size_t) noexcept { if (p) release(p, PC); }
void operator delete[](void* p, size_t) noexcept { if (p) release(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) release(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) release(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { if (p) release(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { if (p) release(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (p) release(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { if (p) release(p, PC); }

// ---- libstdc++'s futex ----------------------------------------------------------------------

static bool futexWait(unsigned* addr, unsigned val, bool timeout)
{
	if (!in())
	{
		if (*addr == val && !timeout) { raw("sched: waits for ever outside of a run\n"); std::abort(); }
		return *addr != val;
	}
	if (timeout)
	{
		point(addr);
		return *addr != val;
	}
	if (*reinterpret_cast<volatile unsigned*>(addr) == val)
	{
		block(Futex, reinterpret_cast<uintptr_t>(addr), val);
		event(reinterpret_cast<uintptr_t>(addr));
	}
	return true;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool t, chrono::seconds, chrono::nanoseconds) { return futexWait(a, v, t); }
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool t, chrono::seconds, chrono::nanoseconds) { return futexWait(a, v, t); }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
	if (in()) event(reinterpret_cast<uintptr_t>(a));
}

extern "C" {

// ---- threads --------------------------------------------------------------------------------

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
	if (!running || cur < 0) { raw("sched: a thread outside of a run\n"); std::abort(); }
	int id = spawn(fn, arg);
	*t = static_cast<pthread_t>(id + 1);
	block(None, 0);
	event(0);
	return 0;
}
int pthread_join(pthread_t t, void** ret)
{
	int id = static_cast<int>(t) - 1;
	if (id < 0 || id >= nf || id == cur)
	{
		++fibers[cur].ignore;
		violate("self join", "thread " + std::to_string(cur) + " waits for itself to end");
		toScheduler();
	}
	block(Join, 0, static_cast<uint32_t>(id));
	event(0);
	join(fibers[cur].q, fibers[id].q, nf);
	join(fibers[cur].r, fibers[id].r, nf);
	fibers[id].joined = true;
	if (ret) *ret = fibers[id].ret;
	return 0;
}
int pthread_detach(pthread_t t)
{
	int id = static_cast<int>(t) - 1;
	if (id >= 0 && id < nf) fibers[id].detached = true;
	return 0;
}
pthread_t pthread_self() { return static_cast<pthread_t>(cur >= 0 ? cur + 1 : 1000); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield()
{
	if (in())
	{
		fibers[cur].yieldAt = switches;
		bool others = false;
		for (int i = 0; i < nf; ++i) others = others || (i != cur && enabled(fibers[i]));
		block(others ? Yield : None, 0);
		event(0);
	}
	return 0;
}
int nanosleep(const timespec*, timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { return sched_yield(); }

// ---- locks ----------------------------------------------------------------------------------

int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (in()) lockAny(reinterpret_cast<uintptr_t>(m), Mutex, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!in()) return 0;
	auto a = reinterpret_cast<uintptr_t>(m);
	block(None, 0);
	auto& s = sync(a);
	event(a);
	if (s.owner == cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++s.count; return 0; }
	if (s.owner >= 0) return EBUSY;
	s.owner = cur;
	s.count = 1;
	acquireR(s.r);
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return pthread_mutex_trylock(m) ? ETIMEDOUT : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) { return pthread_mutex_trylock(m) ? ETIMEDOUT : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (in()) unlockAny(reinterpret_cast<uintptr_t>(m));
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
	if (in()) lockAny(reinterpret_cast<uintptr_t>(m), RdLock, false);
	return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
	if (in()) lockAny(reinterpret_cast<uintptr_t>(m), WrLock, false);
	return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
	if (!in()) return 0;
	auto a = reinterpret_cast<uintptr_t>(m);
	block(None, 0);
	event(a);
	auto& s = sync(a);
	if (s.owner >= 0) return EBUSY;
	++s.readers;
	acquireR(s.r);
	return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
	if (!in()) return 0;
	auto a = reinterpret_cast<uintptr_t>(m);
	block(None, 0);
	event(a);
	auto& s = sync(a);
	if (s.owner >= 0 || s.readers) return EBUSY;
	s.owner = cur;
	s.count = 1;
	acquireR(s.r);
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	if (in()) unlockAny(reinterpret_cast<uintptr_t>(m));
	return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!in()) { raw("sched: waits outside of a run\n"); std::abort(); }
	auto a = reinterpret_cast<uintptr_t>(c);
	uint32_t seq = sync(a).seq;
	unlockAny(reinterpret_cast<uintptr_t>(m));
	block(Cond, a, seq);
	event(a);
	acquireR(sync(a).r);
	lockAny(reinterpret_cast<uintptr_t>(m), Mutex, false);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!in()) return 0;
	auto a = reinterpret_cast<uintptr_t>(c);
	event(a);
	auto& s = sync(a);
	++s.seq;
	releaseR(s.r);
	return 0;
}
// Waking every waiter is allowed (spurious wakeups).
int pthread_cond_signal(pthread_cond_t* c) { return pthread_cond_broadcast(c); }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const timespec*)
{
	if (!in()) return ETIMEDOUT;
	unlockAny(reinterpret_cast<uintptr_t>(m));
	lockAny(reinterpret_cast<uintptr_t>(m), Mutex, false);
	return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return pthread_cond_timedwait(c, m, t); }

int pthread_once(pthread_once_t* o, void (*fn)())
{
	if (!in())
	{
		if (*o != 2) { fn(); *o = 2; }
		return 0;
	}
	auto a = reinterpret_cast<uintptr_t>(o);
	block(Once, a);
	event(a);
	auto& s = sync(a);
	if (*o == 2)
	{
		acquireR(s.r);
		return 0;
	}
	s.owner = cur;
	try { fn(); }
	catch (...)
	{
		if (in()) { sync(a).owner = -1; event(a); }
		throw;
	}
	*o = 2;
	auto& t = sync(a);
	t.owner = -1;
	releaseR(t.r);
	event(a);
	return 0;
}

// ---- static initialisation ------------------------------------------------------------------

int __cxa_guard_acquire(long long* g)
{
	auto* b = reinterpret_cast<unsigned char*>(g);
	if (*b) return 0;
	if (in())
	{
		auto a = reinterpret_cast<uintptr_t>(g);
		block(Once, a);
		event(a);
		auto& s = sync(a);
		if (*b)
		{
			acquireR(s.r);
			return 0;
		}
		s.owner = cur;
		++fibers[cur].guard;
	}
	return 1;
}
void __cxa_guard_release(long long* g)
{
	*reinterpret_cast<unsigned char*>(g) = 1;
	if (in())
	{
		auto& s = sync(reinterpret_cast<uintptr_t>(g));
		s.owner = -1;
		releaseR(s.r);
		--fibers[cur].guard;
	}
}
void __cxa_guard_abort(long long* g)
{
	if (in())
	{
		sync(reinterpret_cast<uintptr_t>(g)).owner = -1;
		--fibers[cur].guard;
	}
}

// ---- exceptions: their reference counts live in the library, which is not instrumented ---------

void* __cxa_allocate_exception(size_t n) noexcept
{
	static auto real = reinterpret_cast<void* (*)(size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
	void* p = real(n);
	if (running) fresh(reinterpret_cast<uintptr_t>(p), n);
	return p;
}
void __cxa_end_catch()
{
	static auto real = reinterpret_cast<void (*)()>(dlsym(RTLD_NEXT, "__cxa_end_catch"));
	globalSync();
	real();
}

// ---- memory functions -----------------------------------------------------------------------

void* memcpy(void* d, const void* s, size_t n)
{
	if (running && n)
	{
		access(s, n, false, PC);
		access(d, n, true, PC);
	}
	void* r = d;
	asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
	return r;
}
void* memmove(void* d, const void* s, size_t n)
{
	if (running && n)
	{
		access(s, n, false, PC);
		access(d, n, true, PC);
	}
	void* r = d;
	if (static_cast<char*>(d) <= s || static_cast<char*>(d) >= static_cast<const char*>(s) + n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
	else
	{
		char* e = static_cast<char*>(d) + n - 1;
		const char* f = static_cast<const char*>(s) + n - 1;
		asm volatile("std; rep movsb; cld" : "+D"(e), "+S"(f), "+c"(n)::"memory");
	}
	return r;
}
void* memset(void* d, int c, size_t n)
{
	if (running && n) access(d, n, true, PC);
	void* r = d;
	asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
	return r;
}
int memcmp(const void* a, const void* b, size_t n)
{
	if (running && n)
	{
		access(a, n, false, PC);
		access(b, n, false, PC);
	}
	auto *x = static_cast<const volatile unsigned char*>(a), *y = static_cast<const volatile unsigned char*>(b);
	for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
	return 0;
}

// ---- instrumentation ------------------------------------------------------------------------

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { access(p, 8, *p != v, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) { globalSync(); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* p, int mo) { atomicOp(p, sizeof(T), mo, 0, PC); return *p; } \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { atomicOp(p, sizeof(T), mo, 1, PC); *p = v; } \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) \
	{ \
		if (sched::in() && !fibers[cur].ignore && !opt->atomics) { block(None, 0); event(reinterpret_cast<uintptr_t>(p)); } \
		atomicOp(p, sizeof(T), mo, 2, PC); T o = *p; *p = v; return o; \
	} \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { atomicOp(p, sizeof(T), mo, 2, PC); T o = *p; *p = static_cast<T>(o + v); return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { atomicOp(p, sizeof(T), mo, 2, PC); T o = *p; *p = static_cast<T>(o - v); return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { atomicOp(p, sizeof(T), mo, 2, PC); T o = *p; *p = static_cast<T>(o & v); return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { atomicOp(p, sizeof(T), mo, 2, PC); T o = *p; *p = static_cast<T>(o | v); return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { atomicOp(p, sizeof(T), mo, 2, PC); T o = *p; *p = static_cast<T>(o ^ v); return o; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { atomicOp(p, sizeof(T), mo, 2, PC); T o = *p; *p = static_cast<T>(~(o & v)); return o; } \
	bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) \
	{ \
		atomicOp(p, sizeof(T), mo, 2, PC); \
		if (*p == *c) { *p = v; return true; } \
		*c = *p; \
		return false; \
	} \
	bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
}

// exception_ptr's reference counts
namespace std::__exception_ptr {
using Ptr = void (*)(exception_ptr*);
void exception_ptr::_M_addref() noexcept
{
	static auto real = reinterpret_cast<Ptr>(dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"));
	globalSync();
	real(this);
}
void exception_ptr::_M_release() noexcept
{
	static auto real = reinterpret_cast<Ptr>(dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"));
	globalSync();
	real(this);
}
}
