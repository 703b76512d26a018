// Bounded exhaustive exploration: sharding, counting, crash/hang capture, deterministic replay.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

inline std::string jsonq(std::string_view s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 0x20 || c >= 0x7f)
		{
			char b[8];
			std::snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else o += c;
	}
	return o + '"';
}

inline uint64_t fnv(std::string_view s, uint64_t h = 1469598103934665603ull)
{
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

struct Shared
{
	std::atomic<uint64_t> idx;
	std::atomic<uint64_t> beat; // progress within a case
	std::atomic<uint32_t> len;
	char desc[1 << 16];
};

struct Violation
{
	std::string sig, what, input;
	uint64_t idx = 0, count = 0;
};

class Ctx
{
public:
	int shard = 0, nshards = 1;
	bool thorough = false;
	uint64_t seed = 1;
	int64_t only = -1; // replay: stop after this case
	uint64_t states = 0, transitions = 0, traces = 0;
	bool capped = false;
	std::string cap_note;
	std::map<std::string, uint64_t> counters;
	std::map<std::string, uint64_t> outcomes;
	std::map<std::string, Violation> violations;
	std::vector<std::string> samples;
	std::map<std::string, std::string> notes;
	Shared* shared = nullptr;
	uint64_t idx = 0;
	std::string current;
	std::chrono::steady_clock::time_point deadline;

	// Announces the next case. Every case is deterministic in (shard, nshards, idx).
	// skippable: the case does not depend on earlier ones (false for histories that go on).
	bool begin(std::string desc, bool skippable = true)
	{
		++idx;
		if (only >= 0)
		{
			if (static_cast<int64_t>(idx) > only) finish();
			if (skippable && static_cast<int64_t>(idx) < only) return false;
		}
		current = std::move(desc);
		if (shared)
		{
			uint32_t n = static_cast<uint32_t>(std::min(current.size(), sizeof(shared->desc) - 1));
			std::memcpy(shared->desc, current.data(), n);
			shared->desc[n] = 0;
			shared->len = n;
			shared->idx = idx;
		}
		if ((idx & 127) == 1 || idx <= 3)
			if (samples.size() < 3 && shard == 0) samples.push_back(current.substr(0, 400));
		return true;
	}
	// Round-robin ownership of independent cases between shards.
	uint64_t seq = 0;
	bool mine() { return static_cast<int>(seq++ % nshards) == shard; }

	void fail(const std::string& sig, const std::string& what)
	{
		auto& v = violations[sig];
		if (!v.count)
		{
			v.sig = sig;
			v.what = what;
			v.input = current;
			v.idx = idx;
		}
		++v.count;
	}
	void outcome(const std::string& o)
	{
		if (outcomes.size() < 4000 || outcomes.count(o)) ++outcomes[o];
	}
	bool expired(const char* where)
	{
		if (capped) return true;
		if (std::chrono::steady_clock::now() < deadline) return false;
		capped = true;
		cap_note = where;
		return true;
	}
	std::string json() const
	{
		std::ostringstream o;
		o << "{\"states\":" << states << ",\"transitions\":" << transitions << ",\"traces\":" << traces
		  << ",\"cases\":" << idx << ",\"capped\":" << (capped ? "true" : "false")
		  << ",\"cap_note\":" << jsonq(cap_note) << ",\"counters\":{";
		bool f = true;
		for (auto& c : counters) { o << (f ? "" : ",") << jsonq(c.first) << ":" << c.second; f = false; }
		o << "},\"outcomes\":{";
		f = true;
		for (auto& c : outcomes) { o << (f ? "" : ",") << jsonq(c.first) << ":" << c.second; f = false; }
		o << "},\"notes\":{";
		f = true;
		for (auto& c : notes) { o << (f ? "" : ",") << jsonq(c.first) << ":" << jsonq(c.second); f = false; }
		o << "},\"samples\":[";
		f = true;
		for (auto& s : samples) { o << (f ? "" : ",") << jsonq(s); f = false; }
		o << "],\"violations\":[";
		f = true;
		for (auto& v : violations)
		{
			o << (f ? "" : ",") << "{\"sig\":" << jsonq(v.second.sig) << ",\"what\":" << jsonq(v.second.what.substr(0, 4000))
			  << ",\"input\":" << jsonq(v.second.input.substr(0, 8000)) << ",\"idx\":" << v.second.idx
			  << ",\"shard\":" << shard << ",\"nshards\":" << nshards << ",\"count\":" << v.second.count << "}";
			f = false;
		}
		o << "]}";
		return o.str();
	}
	std::string outfile;
	void write()
	{
		std::fflush(nullptr);
		FILE* fp = std::fopen((outfile + ".tmp").c_str(), "w");
		if (!fp) _exit(97);
		auto s = json();
		std::fwrite(s.data(), 1, s.size(), fp);
		std::fclose(fp);
		std::rename((outfile + ".tmp").c_str(), outfile.c_str());
	}
	[[noreturn]] void finish()
	{
		write();
		_exit(0);
	}
};

using Mode = std::function<void(Ctx&)>;

// Sizes around those at which an implementation may change its ways.
inline std::vector<int> sizes(const Ctx& C, int limit = 1 << 30)
{
	std::vector<int> o;
	for (int n = 1; n <= 20; ++n) o.push_back(n);
	for (int p = 32; p <= (C.thorough ? 1024 : 256); p *= 2)
		for (int n : { p - 1, p, p + 1 }) o.push_back(n);
	while (o.back() > limit) o.pop_back();
	return o;
}
// Places in a row of n: all of a short one, the ends and the middle of a long one.
inline std::vector<int> places(int n)
{
	std::vector<int> o;
	for (int i = 0; i < n; ++i)
		if (n <= 20 || i < 2 || i == n / 2 || i >= n - 2) o.push_back(i);
	return o;
}

// usage: harness MODE --tier quick|thorough --workers N --out PREFIX [--seconds S]
//        harness MODE --tier T --shard I --workers N --only IDX --out PREFIX     (replay, in process)
inline int run_main(int argc, char** argv, const std::map<std::string, Mode>& modes)
{
	std::string mode = argc > 1 ? argv[1] : "", tier = "quick", out = "/tmp/mc";
	int workers = 8, shard = -1;
	int64_t only = -1;
	double seconds = 240, hang = 60;
	uint64_t seed = 1;
	std::map<std::string, std::string> opts;
	for (int i = 2; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--tier") tier = v;
		else if (k == "--workers") workers = std::stoi(v);
		else if (k == "--out") out = v;
		else if (k == "--seconds") seconds = std::stod(v);
		else if (k == "--hang") hang = std::stod(v);
		else if (k == "--shard") shard = std::stoi(v);
		else if (k == "--only") only = std::stoll(v);
		else if (k == "--seed") seed = std::stoull(v);
	}
	auto it = modes.find(mode);
	if (it == modes.end())
	{
		std::cerr << "unknown mode " << mode << "\n";
		return 2;
	}
	rlimit rl { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	auto setup = [&](Ctx& c, int s) {
		c.shard = s;
		c.nshards = workers;
		c.thorough = tier == "thorough";
		c.seed = seed;
		c.only = only;
		c.outfile = out + "." + std::to_string(s) + ".json";
		c.deadline = std::chrono::steady_clock::now()
			+ std::chrono::milliseconds(static_cast<int64_t>(seconds * 1000));
	};
	if (shard >= 0)
	{
		Ctx c;
		setup(c, shard);
		it->second(c);
		c.finish();
	}
	auto* shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::vector<pid_t> pids(workers, 0);
	for (int s = 0; s < workers; ++s)
	{
		new (&shared[s]) Shared {};
		pid_t p = fork();
		if (p < 0) return 2;
		if (p == 0)
		{
			int fd = open((out + "." + std::to_string(s) + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			dup2(fd, 1);
			dup2(fd, 2);
			Ctx c;
			setup(c, s);
			c.shared = &shared[s];
			try
			{
				it->second(c);
			}
			catch (const std::exception& ex)
			{
				std::fprintf(stderr, "HARNESS EXCEPTION %s\n", ex.what());
				c.fail("harness-exception", std::string("an exception escaped: ") + ex.what());
			}
			c.finish();
		}
		pids[s] = p;
	}
	std::ostringstream crash;
	bool first = true;
	int live = workers;
	std::vector<uint64_t> last(workers, 0);
	std::vector<std::chrono::steady_clock::time_point> seen(workers, std::chrono::steady_clock::now());
	std::vector<bool> done(workers, false), hung(workers, false);
	while (live)
	{
		for (int s = 0; s < workers; ++s)
		{
			if (done[s]) continue;
			int st = 0;
			pid_t r = waitpid(pids[s], &st, WNOHANG);
			auto now = std::chrono::steady_clock::now();
			if (r == pids[s])
			{
				done[s] = true;
				--live;
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
				{
					std::string kind = hung[s] ? "hang"
						: WIFSIGNALED(st)      ? "signal " + std::to_string(WTERMSIG(st))
											   : "exit " + std::to_string(WEXITSTATUS(st));
					crash << (first ? "" : ",") << "{\"sig\":" << jsonq(hung[s] ? "hang" : "crash")
						  << ",\"what\":" << jsonq(kind) << ",\"input\":" << jsonq(std::string(shared[s].desc, shared[s].len))
						  << ",\"idx\":" << shared[s].idx << ",\"shard\":" << s << ",\"nshards\":" << workers
						  << ",\"count\":1}";
					first = false;
				}
				continue;
			}
			if (shared[s].idx + shared[s].beat != last[s])
			{
				last[s] = shared[s].idx + shared[s].beat;
				seen[s] = now;
			}
			else if (!hung[s] && std::chrono::duration<double>(now - seen[s]).count() > hang)
			{
				hung[s] = true;
				kill(pids[s], SIGKILL);
			}
		}
		usleep(20000);
	}
	FILE* fp = std::fopen((out + ".crash.json").c_str(), "w");
	std::fprintf(fp, "[%s]", crash.str().c_str());
	std::fclose(fp);
	return 0;
}

} // namespace mc

#define MC_MAIN(...)                                                                              \
	int main(int argc, char** argv)                                                               \
	{                                                                                             \
		return mc::run_main(argc, argv, __VA_ARGS__);                                             \
	}
