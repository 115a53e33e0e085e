// C06: the reporter throws for the incomplete sequence; the exception has to reach the scope that let go of the last
// user.  Every execution runs in a child process, because the failure mode is termination.
#define CORE_MAX_SEQS 1
#include "histories.hpp"
using namespace core;

struct Shared { int phase; char what[64]; };
static Shared* sh;

static void scenario()
{
	sh->phase = 0;
	std::snprintf(sh->what, sizeof sh->what, "before any release");
	int st = mc::in_child([] {
		World w{SEQERR, 1, {mc::choose_bool()}};
		const int n = 1 + mc::choose(2);
		for (int i = 0; i < n; ++i) w.create({.mask = 1, .min = mc::choose(2), .max = 2, .seqs = {0}});
		const int calls = mc::choose(3);
		for (int i = 0; i < calls; ++i) w.call(0, 0);
		rec::log().throwError = true;
		const bool unfulfilledThrows = mc::choose_bool();
		// owners: n expectations and the sequence object, released in every order
		std::vector<int> owners;
		for (int i = 0; i <= n; ++i) owners.push_back(i);
		while (!owners.empty())
		{
			const int k = mc::choose(static_cast<int>(owners.size()));
			const int o = owners[k];
			owners.erase(owners.begin() + k);
			const bool isObject = o == n;
			const int incomplete = owners.empty() ? w.m.incomplete(0) : -1;
			const bool unfulfilled = !isObject && !w.m.exps[o].satisfied();
			mc::note("release ", isObject ? std::string{"sequence object"} : "E" + std::to_string(o), incomplete >= 0 ? " (incomplete sequence ends here)" : "");
			sh->phase = incomplete >= 0 ? 1 : 2;
			std::snprintf(sh->what, sizeof sh->what, "%s", isObject ? "last-user-is-sequence-object" : unfulfilled ? "last-user-is-unfulfilled-expectation" : "last-user-is-satisfied-expectation");
			const auto before = rec::log().events.size();
			bool gotUnf = false, gotErr = false;
			rec::log().throwUnfulfilled = unfulfilledThrows;
			try
			{
				if (isObject) std::visit([](auto& p) { auto* raw = p.release(); delete raw; }, w.seqs[0]);
				else delete std::exchange(w.real[o], nullptr);
			}
			catch (const rec::Unfulfilled&) { gotUnf = true; }
			catch (const rec::SequenceError&) { gotErr = true; }
			sh->phase = 0;
			int errs = 0;
			for (auto i = before; i < rec::log().events.size(); ++i) errs += rec::log().events[i].kind == rec::Kind::error;
			mc::check_eq(errs, incomplete >= 0 ? 1 : 0, "sequence reports at this release");
			if (unfulfilled && unfulfilledThrows) mc::check(gotUnf, "the unfulfilled exception did not arrive");
			else if (incomplete >= 0) mc::check(gotErr, "the sequence exception did not arrive at the scope that released the last user");
			else mc::check(!gotErr, "unexpected sequence exception");
			if (!isObject) w.m.exps[o].alive = false;
		}
		rec::log().throwError = rec::log().throwUnfulfilled = false;
	});
	if (mc::violated()) return;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && sh->phase == 1)
	{
		mc::note("std::terminate: ", sh->what);
		mc::finding(std::string{"sequence-report-terminates:"} + sh->what,
			"std::terminate when a reporter throws for an incomplete sequence and the " + std::string{sh->what});
	}
	else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) mc::fail("process died (status ", st, ") while: ", sh->what);
}

int main(int argc, char** argv)
{
	return mc::main(argc, argv, {{"throwing-reporter", [] {
		// one private shared page per worker process
		static pid_t owner = 0;
		if (owner != getpid())
		{
			owner = getpid();
			sh = static_cast<Shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		}
		scenario();
	}}}, 2);
}
