// Stateless model checker for deterministic C++ programs.
//
// A harness is a function that asks mc::choose(n) for every nondeterministic decision (operation, argument,
// fault, scheduling choice...).  The engine runs the harness once for every sequence of answers (depth-first,
// by re-execution), in several worker processes, until the whole decision tree has been covered.
// Everything else has to be deterministic.  A failing execution is identified by its sequence of answers, which
// is written to a replay file; `--replay FILE` re-executes exactly that one and prints the history.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc
{
	constexpr int max_trail = 20000;

	struct WorkerShared
	{
		std::atomic<int> len;          // answers given so far in the running execution
		std::atomic<int> scenario;
		std::atomic<std::uint64_t> beat;
		std::atomic<int> violated;     // 1: a check failed in the running execution
		std::atomic<int> finished;
		std::uint64_t executions, claimed, transitions, checks, choices, max_len;
		std::uint64_t childTransitions, childChecks, childOutcome;
		int cap_hit;
		char msg[4096];
		std::uint16_t n[max_trail];
		std::uint16_t pick[max_trail];
		static constexpr int sample_len = 600;
		int sampleLen[3];
		std::uint16_t sample[3][sample_len];
	};

	struct Sets // shared, lock-free hash sets
	{
		static constexpr std::size_t cap = std::size_t{1} << 23;
		std::atomic<std::uint64_t>* tab{};
		std::atomic<std::uint64_t>* count{};
		void init()
		{
			void* p = mmap(nullptr, (cap + 8) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) { std::perror("mmap"); std::_Exit(2); }
			tab = static_cast<std::atomic<std::uint64_t>*>(p);
			count = tab + cap;
		}
		void insert(std::uint64_t h)
		{
			if (h == 0) h = 1;
			if (count->load(std::memory_order_relaxed) > cap / 4 * 3) return; // saturated: lower bound only
			std::size_t i = (h * 0x9E3779B97F4A7C15ull) >> 41;
			for (;; i = (i + 1) & (cap - 1))
			{
				std::uint64_t cur = tab[i].load(std::memory_order_relaxed);
				if (cur == h) return;
				if (cur == 0)
				{
					if (tab[i].compare_exchange_strong(cur, h)) { count->fetch_add(1); return; }
					if (cur == h) return;
				}
			}
		}
		std::uint64_t size() const { return count->load(); }
	};

	struct Scenario
	{
		std::string name;
		std::function<void()> fn;
		bool thoroughOnly{false};
	};

	struct Findings // keys of defects the harness recognises as known classes (decided by the runner, not here)
	{
		std::atomic<int> n;
		struct { char key[96]; char text[400]; std::atomic<int> ready; } item[64];
	};

	struct Engine
	{
		Findings* findings{};
		std::string prop{"C00"}, tier{"quick"};
		bool thorough{}, replaying{}, verbose{};
		int jobs{8};
		double limit{600};
		WorkerShared* w{};
		Sets states, outcomes;
		std::atomic<std::uint8_t>* claims{};
		static constexpr std::size_t claimCap = std::size_t{1} << 22;

		std::vector<std::uint16_t> forced; // answers replayed in this execution
		int pos{};
		std::string log;
		std::uint64_t outcome{};
		std::uint64_t curTransitions{}, curChecks{};
		bool violated{};
		std::function<std::string()> context;
	};

	inline Engine& E()
	{
		static Engine e;
		return e;
	}

	inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
	{
		auto c = static_cast<const unsigned char*>(p);
		for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
		h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
		return h;
	}

	inline void fatal_note(const char* why)
	{
		if (E().w) std::snprintf(E().w->msg, sizeof E().w->msg, "%s", why);
	}

	[[noreturn]] inline void fatal(const char* why)
	{
		std::fprintf(stderr, "mc: internal error: %s\n", why);
		fatal_note(why);
		std::fflush(nullptr);
		std::_Exit(70);
	}

	// ---- harness-facing API -------------------------------------------------------------------------------

	inline bool thorough() { return E().thorough; }
	template <typename T> T by_tier(T quick, T thoroughValue) { return E().thorough ? thoroughValue : quick; }

	//! asks for one of n alternatives
	inline int choose(int n)
	{
		Engine& e = E();
		if (n <= 0) fatal("choose(0)");
		int k = e.pos++;
		if (k >= max_trail) fatal("trail too long");
		int pick = 0;
		if (k < static_cast<int>(e.forced.size()))
		{
			pick = e.forced[k];
			if (pick >= n) fatal("replay diverged (answer out of range): harness or code is nondeterministic");
		}
		e.w->n[k] = static_cast<std::uint16_t>(n);
		e.w->pick[k] = static_cast<std::uint16_t>(pick);
		e.w->len.store(k + 1, std::memory_order_relaxed);
		return pick;
	}

	inline bool choose_bool() { return choose(2) == 1; }

	template <typename C>
	decltype(auto) pick_from(const C& c) { return c[choose(static_cast<int>(std::size(c)))]; }

	//! history text, only kept while replaying
	template <typename... Ts>
	void note(const Ts&... ts)
	{
		Engine& e = E();
		++e.curTransitions;
		if (!e.replaying) return;
		std::ostringstream ss;
		(ss << ... << ts);
		e.log += ss.str();
		e.log += '\n';
		if (e.verbose) { std::printf("%s\n", ss.str().c_str()); std::fflush(stdout); }
	}

	template <typename... Ts>
	void fail(const Ts&... ts)
	{
		Engine& e = E();
		if (e.violated) return;
		e.violated = true;
		std::ostringstream ss;
		(ss << ... << ts);
		std::snprintf(e.w->msg, sizeof e.w->msg, "%s", ss.str().c_str());
		e.w->violated = 1;
		if (e.replaying) { e.log += "CHECK FAILED: " + ss.str() + "\n"; if (e.verbose) std::printf("CHECK FAILED: %s\n", ss.str().c_str()); }
	}

	template <typename... Ts>
	bool check(bool cond, const Ts&... ts)
	{
		++E().curChecks;
		if (!cond) [[unlikely]] fail(ts...);
		return cond;
	}

	inline bool violated() { return E().violated; }

	//! reports a failure that may be listed as known (exact key) by the runner; unlisted ones count as violations
	inline void finding(const std::string& key, const std::string& text)
	{
		Findings& f = *E().findings;
		for (int i = 0; i < std::min(f.n.load(), 64); ++i)
			if (f.item[i].ready && key == f.item[i].key) return;
		int i = f.n.fetch_add(1);
		if (i >= 64) { f.n = 64; return; }
		std::snprintf(f.item[i].key, sizeof f.item[i].key, "%s", key.c_str());
		std::snprintf(f.item[i].text, sizeof f.item[i].text, "%s", text.c_str());
		f.item[i].ready = 1;
	}

	template <typename A, typename B, typename... Ts>
	bool check_eq(const A& actual, const B& expected, const Ts&... ts)
	{
		++E().curChecks;
		if (actual == expected) return true;
		std::ostringstream ss;
		(ss << ... << ts);
		ss << ": got <" << actual << ">, expected <" << expected << ">";
		fail(ss.str());
		return false;
	}

	//! registers an abstract state (for the coverage counters)
	inline void state(std::uint64_t h) { E().states.insert(h ^ (static_cast<std::uint64_t>(E().w->scenario.load()) << 56)); }
	inline void state(const std::string& s) { state(hash_bytes(s.data(), s.size())); }
	//! adds an observation of the running execution (for the count of distinct outcomes)
	inline void observe(std::uint64_t v) { E().outcome = hash_bytes(&v, 8, E().outcome); }
	inline void observe(const std::string& s) { E().outcome = hash_bytes(s.data(), s.size(), E().outcome); }

	// ---- engine ------------------------------------------------------------------------------------------

	inline void run_one(const Scenario& s)
	{
		Engine& e = E();
		e.pos = 0;
		e.outcome = 1469598103934665603ull;
		e.violated = false;
		e.curTransitions = e.curChecks = 0;
		e.w->violated = 0;
		e.w->len = 0;
		e.w->msg[0] = 0;
		try
		{
			s.fn();
		}
		catch (const std::exception& ex)
		{
			fail("exception escaped the scenario: ", ex.what());
		}
		catch (...)
		{
			fail("unknown exception escaped the scenario");
		}
		e.w->beat.fetch_add(1, std::memory_order_relaxed);
		++e.w->executions;
		e.w->max_len = std::max<std::uint64_t>(e.w->max_len, e.pos);
		if (e.pos < static_cast<int>(e.forced.size()) && !e.violated) fatal("replay diverged (fewer decisions): harness or code is nondeterministic");
		e.outcomes.insert(e.outcome ^ static_cast<std::uint64_t>(e.w->scenario.load()) << 56);
	}

	//! runs fn (which may call choose etc.) in a forked child; returns the wait status, e.g. to observe termination
	inline int in_child(const std::function<void()>& fn)
	{
		Engine& e = E();
		std::fflush(nullptr);
		pid_t pid = fork();
		if (pid < 0) fatal("fork");
		if (pid == 0)
		{
			alarm(20);
			try { fn(); }
			catch (...) { fail("exception escaped from the child"); }
			e.w->childTransitions = e.curTransitions;
			e.w->childChecks = e.curChecks;
			e.w->childOutcome = e.outcome;
			std::fflush(nullptr);
			std::_Exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		e.pos = e.w->len;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 70) std::_Exit(70);
		if (e.w->violated) e.violated = true;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
		{
			e.curTransitions = e.w->childTransitions;
			e.curChecks = e.w->childChecks;
			e.outcome = e.w->childOutcome;
		}
		return st;
	}

	// explores the subtrees claimed by this worker; returns false on violation
	inline bool explore(const Scenario& s, int splitDepth, std::atomic<std::uint8_t>* claims, std::size_t claimCap, double deadline)
	{
		Engine& e = E();
		e.forced.clear();
		std::size_t subtree = 0;
		bool mine = false;
		std::vector<std::uint16_t> lastPrefix;
		bool first = true;
		for (;;)
		{
			run_one(s);
			// which subtree is it?
			std::size_t pl = std::min<std::size_t>(splitDepth, e.pos);
			std::vector<std::uint16_t> prefix(e.w->pick, e.w->pick + pl);
			if (first || prefix != lastPrefix)
			{
				if (!first) ++subtree;
				first = false;
				lastPrefix = prefix;
				if (subtree >= claimCap) fatal("too many subtrees");
				mine = claims[subtree].exchange(1) == 0;
			}
			if (mine)
			{
				auto c = ++e.w->claimed;
				e.w->transitions += e.curTransitions;
				e.w->checks += e.curChecks;
				e.w->choices += static_cast<std::uint64_t>(e.pos);
				if ((c == 1 || c == 97 || c == 1013) && e.pos <= WorkerShared::sample_len)
				{
					int k = c == 1 ? 0 : c == 97 ? 1 : 2;
					e.w->sampleLen[k] = e.pos;
					std::copy(e.w->pick, e.w->pick + e.pos, e.w->sample[k]);
				}
			}
			if (e.violated) return false;
			int i = e.pos - 1;
			if (!mine) i = std::min<int>(i, splitDepth - 1);
			while (i >= 0 && e.w->pick[i] + 1 >= e.w->n[i]) --i;
			if (i < 0) return true;
			e.forced.assign(e.w->pick, e.w->pick + i + 1);
			++e.forced[i];
			if ((e.w->executions & 63) == 0)
			{
				timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
				if (ts.tv_sec + ts.tv_nsec * 1e-9 > deadline) { e.w->cap_hit = 1; return true; }
			}
		}
	}

	inline std::string json_str(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
			else if (c == '\n') r += "\\n";
			else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += static_cast<char>(c);
		}
		return r + "\"";
	}

	//! processor time used by a process, in seconds
	inline double cpu_of(pid_t pid)
	{
		std::ifstream in("/proc/" + std::to_string(pid) + "/stat");
		std::string all;
		std::getline(in, all);
		const auto close = all.rfind(')');
		if (close == std::string::npos) return 0;
		std::istringstream rest(all.substr(close + 2));
		std::string field;
		double ticks = 0;
		for (int i = 3; i <= 15 && rest >> field; ++i)
			if (i >= 14) ticks += std::atof(field.c_str());
		return ticks / static_cast<double>(sysconf(_SC_CLK_TCK));
	}

	inline double now()
	{
		timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
		return ts.tv_sec + ts.tv_nsec * 1e-9;
	}

	struct ReplayResult { bool violated{}; std::string how, log; };

	// executes one trail in a child process (verbose log through a pipe)
	inline ReplayResult replay_child(const std::vector<Scenario>& scs, int sc, const std::vector<std::uint16_t>& trail, double limit)
	{
		Engine& e = E();
		int fd[2];
		if (pipe(fd)) fatal("pipe");
		std::fflush(nullptr);
		e.w->violated = 0;
		e.w->finished = 0;
		e.w->msg[0] = 0;
		pid_t pid = fork();
		if (pid == 0)
		{
			dup2(fd[1], 1); dup2(fd[1], 2);
			close(fd[0]); close(fd[1]);
			e.replaying = true; e.verbose = true;
			e.forced = trail;
			e.w->scenario = sc;
			run_one(scs[sc]);
			e.w->finished = 1;
			std::fflush(nullptr);
			std::_Exit(e.violated ? 1 : 0);
		}
		close(fd[1]);
		fcntl(fd[0], F_SETFL, O_NONBLOCK);
		ReplayResult r;
		double end = now() + limit;
		int st = 0;
		bool done = false;
		auto drain = [&] {
			char buf[4096]; ssize_t k;
			while ((k = read(fd[0], buf, sizeof buf)) > 0) if (r.log.size() < 200000) r.log.append(buf, k);
		};
		while (!done)
		{
			drain();
			pid_t x = waitpid(pid, &st, WNOHANG);
			if (x == pid) done = true;
			else if (now() > end)
			{
				kill(pid, SIGKILL); waitpid(pid, &st, 0);
				r.violated = true; r.how = "no progress (hang/deadlock)"; done = true;
			}
			else usleep(2000);
		}
		drain();
		close(fd[0]);
		if (r.how.empty())
		{
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.violated = false;
			else if (WIFEXITED(st) && WEXITSTATUS(st) == 70) { std::fprintf(stderr, "%s\n", r.log.c_str()); fatal("replay failed"); }
			else
			{
				r.violated = true;
				if (e.w->violated) r.how = e.w->msg;
				else if (WIFSIGNALED(st)) r.how = "process killed by signal " + std::to_string(WTERMSIG(st));
				else r.how = "process died with exit code " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report, assertion or termination)";
			}
		}
		return r;
	}

	inline int main(int argc, char** argv, std::vector<Scenario> scs, int splitDepth = 3)
	{
		Engine& e = E();
		std::string replay, statsOut, replayOut = "replay.txt", only;
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i];
			auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--prop") e.prop = next();
			else if (a == "--tier") e.tier = next();
			else if (a == "--jobs") e.jobs = std::stoi(next());
			else if (a == "--limit") e.limit = std::stod(next());
			else if (a == "--stats") statsOut = next();
			else if (a == "--replay-out") replayOut = next();
			else if (a == "--replay") replay = next();
			else if (a == "--only") only = next();
		}
		e.thorough = e.tier == "thorough";
		std::erase_if(scs, [&](const Scenario& s) { return (s.thoroughOnly && !e.thorough && replay.empty()) || (!only.empty() && s.name != only); });
		e.states.init();
		e.outcomes.init();
		auto shm = [](std::size_t n) {
			void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) fatal("mmap");
			return p;
		};
		auto* ws = static_cast<WorkerShared*>(shm(sizeof(WorkerShared) * (e.jobs + 1)));
		e.findings = static_cast<Findings*>(shm(sizeof(Findings)));
		rlimit rl{0, 0};
		setrlimit(RLIMIT_CORE, &rl);

		if (!replay.empty())
		{
			std::ifstream in(replay);
			std::string key; int sc = -1; std::vector<std::uint16_t> trail;
			std::string line;
			while (std::getline(in, line))
			{
				std::istringstream ls(line);
				ls >> key;
				if (key == "tier:") { ls >> e.tier; e.thorough = e.tier == "thorough"; }
				if (key == "scenario:")
				{
					std::string nm; std::getline(ls >> std::ws, nm);
					for (std::size_t k = 0; k < scs.size(); ++k) if (scs[k].name == nm) sc = static_cast<int>(k);
				}
				if (key == "trail:") { int v; while (ls >> v) trail.push_back(static_cast<std::uint16_t>(v)); }
			}
			if (sc < 0) { std::fprintf(stderr, "replay: unknown scenario\n"); return 2; }
			e.w = &ws[e.jobs];
			auto r = replay_child(scs, sc, trail, 60);
			std::printf("%s", r.log.c_str());
			std::printf("%s\n", r.violated ? ("REPLAY: violated: " + r.how).c_str() : "REPLAY: no violation");
			return r.violated ? 1 : 0;
		}

		double t0 = now();
		struct ScStat { std::string name; std::uint64_t executions, transitions, checks; double wall; bool cap; };
		std::vector<ScStat> per;
		bool bad = false;
		std::uint64_t exec = 0, trans = 0, checks = 0, choices = 0, maxlen = 0;
		bool cap = false;
		std::vector<std::pair<int, std::vector<std::uint16_t>>> sampleTrails;
		std::vector<std::string> samples;

		int retries = 0;
		for (std::size_t si = 0; si < scs.size() && !bad; ++si)
		{
			double ts0 = now();
			double deadline = t0 + e.limit;
			auto* claims = static_cast<std::atomic<std::uint8_t>*>(shm(Engine::claimCap));
			std::memset(ws, 0, sizeof(WorkerShared) * e.jobs);
			std::vector<pid_t> pids(e.jobs);
			std::fflush(nullptr);
			for (int j = 0; j < e.jobs; ++j)
			{
				pids[j] = fork();
				if (pids[j] == 0)
				{
					e.w = &ws[j];
					e.w->scenario = static_cast<int>(si);
					if (!std::getenv("MC_STDERR")) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1); close(nul); }
					bool ok = explore(scs[si], splitDepth, claims, Engine::claimCap, deadline);
					e.w->finished = 1;
					std::fflush(nullptr);
					std::_Exit(ok ? 0 : 1);
				}
			}
			std::vector<std::uint64_t> lastBeat(e.jobs, 0);
			std::vector<double> lastTime(e.jobs, now()), lastCpu(e.jobs, -1);
			std::vector<bool> live(e.jobs, true);
			int nlive = e.jobs;
			int culprit = -1;
			while (nlive > 0)
			{
				bool any = false;
				for (int j = 0; j < e.jobs; ++j)
				{
					if (!live[j]) continue;
					int st;
					if (waitpid(pids[j], &st, WNOHANG) == pids[j])
					{
						any = true;
						live[j] = false; --nlive;
						if (WIFEXITED(st) && WEXITSTATUS(st) == 70)
						{
							std::fprintf(stderr, "mc: worker failed in scenario %s: %s\n", scs[si].name.c_str(), ws[j].msg);
							for (int k = 0; k < e.jobs; ++k) if (live[k]) kill(pids[k], SIGKILL);
							return 2;
						}
						if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && culprit < 0) culprit = j;
						continue;
					}
					auto b = ws[j].beat.load();
					if (b != lastBeat[j]) { lastBeat[j] = b; lastTime[j] = now(); lastCpu[j] = -1; }
					else if (const double stalled = now() - lastTime[j]; stalled > 5)
					{
						// hung: much processor time in one execution, or none at all; on a busy machine wall time says little
						const double cpu = cpu_of(pids[j]);
						if (lastCpu[j] < 0) lastCpu[j] = cpu;
						const double used = cpu - lastCpu[j];
						if (!(used > 20 || (stalled > 30 && used < 0.2) || stalled > 200)) continue;
						kill(pids[j], SIGKILL);
						if (culprit < 0) culprit = j;
					}
				}
				if (culprit >= 0) { for (int j = 0; j < e.jobs; ++j) if (live[j]) kill(pids[j], SIGKILL); }
				if (!any) usleep(3000);
			}
			munmap(static_cast<void*>(claims), Engine::claimCap);
			ScStat s{scs[si].name, 0, 0, 0, now() - ts0, false};
			for (int j = 0; j < e.jobs; ++j)
			{
				s.executions += ws[j].claimed; s.transitions += ws[j].transitions; s.checks += ws[j].checks;
				choices += ws[j].choices; maxlen = std::max(maxlen, ws[j].max_len);
				if (ws[j].cap_hit) s.cap = cap = true;
			}
			exec += s.executions; trans += s.transitions; checks += s.checks;
			per.push_back(s);
			if (culprit >= 0)
			{
				auto& cw = ws[culprit];
				std::vector<std::uint16_t> trail(cw.pick, cw.pick + cw.len.load());
				const bool reported = cw.violated;
				e.w = &ws[e.jobs];
				auto r = replay_child(scs, static_cast<int>(si), trail, 60);
				if (!r.violated)
				{
					// once more: never report what does not reproduce
					r = replay_child(scs, static_cast<int>(si), trail, 60);
				}
				if (!r.violated)
				{
					// state may have leaked from earlier executions: repeat the whole scenario in one fresh process
					auto* cl = static_cast<std::atomic<std::uint8_t>*>(shm(Engine::claimCap));
					std::memset(&ws[0], 0, sizeof(WorkerShared));
					std::fflush(nullptr);
					pid_t pid = fork();
					if (pid == 0)
					{
						int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1);
						e.w = &ws[0];
						e.w->scenario = static_cast<int>(si);
						bool ok = explore(scs[si], splitDepth, cl, Engine::claimCap, now() + 120);
						std::_Exit(ok ? 0 : 1);
					}
					int st = 0;
					double end = now() + 150;
					while (waitpid(pid, &st, WNOHANG) == 0) { if (now() > end) { kill(pid, SIGKILL); waitpid(pid, &st, 0); st = 0; break; } usleep(3000); }
					munmap(static_cast<void*>(cl), Engine::claimCap);
					if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 70))
					{
						r.violated = true;
						r.how = std::string{"only after earlier executions in the same process (state leaks between histories): "}
								+ (ws[0].violated ? ws[0].msg : "process died");
						r.log = "sequential exploration of scenario '" + scs[si].name + "' fails after " + std::to_string(ws[0].executions) + " executions\n";
						trail.assign(ws[0].pick, ws[0].pick + ws[0].len.load());
					}
				}
				if (!r.violated && !reported && retries < 2)
				{
					// a worker was ended or starved from outside (memory, load): explore this scenario again
					++retries;
					exec -= s.executions; trans -= s.transitions; checks -= s.checks;
					per.pop_back();
					std::fprintf(stderr, "mc: a worker was lost in scenario '%s', exploring it again\n", scs[si].name.c_str());
					--si;
					continue;
				}
				if (!r.violated)
				{
					std::fprintf(stderr, "mc: failure in scenario '%s' did not reproduce on replay (%s)\n", scs[si].name.c_str(), cw.msg);
					return 2;
				}
				// minimisation: the shortest prefix of answers that still fails when continued with first alternatives
				double mend = now() + 20;
				std::size_t step = std::max<std::size_t>(1, trail.size() / 200);
				for (std::size_t k = 0; k < trail.size() && now() < mend; k += step)
				{
					auto r2 = replay_child(scs, static_cast<int>(si), {trail.begin(), trail.begin() + k}, 20);
					if (r2.violated) { trail.resize(k); r = r2; break; }
				}
				std::ofstream out(replayOut);
				out << "property: " << e.prop << "\nprogram: " << argv[0] << "\ntier: " << e.tier << "\nscenario: " << scs[si].name << "\ntrail:";
				for (auto v : trail) out << ' ' << v;
				out << "\nfailure: " << r.how << "\nhistory:\n" << r.log << "\n";
				out.close();
				std::printf("FAILED scenario=%s: %s\n%s\n", scs[si].name.c_str(), r.how.c_str(), r.log.substr(0, 4000).c_str());
				bad = true;
			}
			else
			{
				for (auto [j, k] : {std::pair{0, 2}, std::pair{3 % e.jobs, 1}, std::pair{1 % e.jobs, 2}, std::pair{0, 0}})
				{
					auto& cw = ws[j];
					if (cw.sampleLen[k] <= 0 || samples.size() >= 2 * (si + 1) || samples.size() >= 16) continue;
					e.w = &ws[e.jobs];
					auto r = replay_child(scs, static_cast<int>(si), {cw.sample[k], cw.sample[k] + cw.sampleLen[k]}, 60);
					samples.push_back("[" + scs[si].name + "] " + r.log.substr(0, 700));
				}
			}
			std::printf("scenario %-40s executions=%llu transitions=%llu checks=%llu wall=%.1fs%s\n", scs[si].name.c_str(),
				(unsigned long long)s.executions, (unsigned long long)s.transitions, (unsigned long long)s.checks, s.wall, s.cap ? " (time cap hit)" : "");
			std::fflush(stdout);
		}

		std::map<std::string, std::string> fnd;
		for (int i = 0; i < std::min(e.findings->n.load(), 64); ++i) fnd[e.findings->item[i].key] = e.findings->item[i].text;
		for (auto& [k, t] : fnd) std::printf("FINDING key=%s %s\n", k.c_str(), t.c_str());
		if (!statsOut.empty())
		{
			std::ofstream o(statsOut);
			o << "{\"executions\":" << exec << ",\"transitions\":" << trans << ",\"checks\":" << checks
				<< ",\"decisions\":" << choices << ",\"max_decisions\":" << maxlen
				<< ",\"states\":" << e.states.size() << ",\"distinct_outcomes\":" << e.outcomes.size()
				<< ",\"cap_hit\":" << (cap ? "true" : "false") << ",\"violations\":" << (bad ? 1 : 0) << ",\"scenarios\":[";
			for (std::size_t k = 0; k < per.size(); ++k)
				o << (k ? "," : "") << "{\"name\":" << json_str(per[k].name) << ",\"executions\":" << per[k].executions
					<< ",\"transitions\":" << per[k].transitions << ",\"checks\":" << per[k].checks << ",\"wall_s\":" << per[k].wall
					<< ",\"capped\":" << (per[k].cap ? "true" : "false") << "}";
			o << "],\"samples\":[";
			for (std::size_t k = 0; k < samples.size(); ++k) o << (k ? "," : "") << json_str(samples[k]);
			o << "]}\n";
		}
		return bad ? 1 : 0;
	}
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:handle_abort=1:print_legend=0:quarantine_size_mb=16"; }
extern "C" __attribute__((used)) const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=98"; }
#endif
