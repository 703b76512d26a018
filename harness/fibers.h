// A controlled scheduler: every thread of the code under test is a fiber of one OS thread, every
// synchronisation operation is a scheduling point, and the schedules are enumerated depth first up to
// a bound on preemptions. Alongside, each schedule is checked for data races, uses of freed memory,
// deadlock and livelock. Implemented by defining the thread primitives (pthread_*, libstdc++'s futex,
// static guards), operator new/delete and the __tsan_* hooks in the executable.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Options
{
	int preemptions = 2;
	bool delays = false; // the bound is on every departure from the default order, also where the running thread blocks or ends
	uint64_t maxRuns = 1000000;
	bool atomics = false; // reference counts and other atomics shared by threads are scheduling points too
	bool prune = true;	  // stop a run which reached an equivalent state before
	std::function<void(const std::string&)> beat; // called before each run with the schedule so far
	std::function<bool()> expired;
};

struct Report
{
	uint64_t runs = 0, points = 0, states = 0, pruned = 0, accesses = 0, threads = 0, longest = 0;
	bool complete = false;
	std::string kind, what, schedule; // of the first failing run
};

// warm: run once in a fiber first (static initialisation). setup: run once, its allocations are restored
// before every run. body: the main thread of every run. after: judges a finished run, empty if good.
Report explore(const Options& o, const std::function<void()>& warm, const std::function<void()>& setup,
	const std::function<void()>& body, const std::function<std::string()>& after);

// Replays one schedule (as printed in Report::schedule).
void point(const void* object = nullptr); // a scheduling point of the harness; object: something whose order matters
bool active();							  // inside a run
int self();								  // 0 is the main thread
int preemptionsUsed();

// Accesses of the current thread are not looked at in its lifetime.
struct Ignore
{
	Ignore();
	~Ignore();
	Ignore(const Ignore&) = delete;
};

} // namespace sched
