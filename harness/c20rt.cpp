// Runtime for exploring thread interleavings of code compiled with -fsanitize=thread (but linked without libtsan):
// - a scheduler that lets exactly one thread run and asks sched_choose() whenever a thread reaches a synchronisation operation
// - a happens-before race detector (vector clocks) and a use-after-free detector behind the __tsan_* entry points
// Deliberately free of C++ library templates, so that no uninstrumented instantiation replaces an instrumented one.
#include <errno.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

extern "C" int sched_choose(int n); // provided by the harness

namespace
{
	constexpr int maxT = 5; // 0 is the controlling thread
	typedef uint32_t Clock;
	struct VC { Clock c[maxT]; };

	enum State { unused, ready, blocked, done };
	struct Thread
	{
		pthread_t handle;
		sem_t sem;
		State state;
		const void* waitsFor;
		bool waitsShared;
		VC vc;
		int ignore;
	};
	Thread th[maxT];
	__thread int self = 0;
	bool tracking = false;  // memory accesses are being checked
	bool running = false;   // threads are being scheduled
	int nThreads, preemptions, bound;
	unsigned long points, switches, accesses;
	bool atomicPoints;
	uint32_t generation = 1;
	unsigned long stamps;
	char error[600];
	void (*body)(void*, int);
	void* bodyCtx;

	void report(const char* fmt, ...)
	{
		if (error[0]) return;
		va_list a;
		va_start(a, fmt);
		vsnprintf(error, sizeof error, fmt, a);
		va_end(a);
	}

	// ---- locks ----------------------------------------------------------------------------------------------
	struct Lock
	{
		const void* addr;
		int owner; // -1: free
		int count; // recursion
		int readers;
		int heldShared[maxT];
		VC vc, rvc; // released by writers / by readers
	};
	constexpr int maxLocks = 256;
	Lock locks[maxLocks];
	int usedLocks;
	Lock& lock_of(const void* a)
	{
		unsigned i = static_cast<unsigned>((reinterpret_cast<uintptr_t>(a) * 0x9E3779B97F4A7C15ull) >> 56);
		for (int n = 0; n < maxLocks; ++n, i = (i + 1) % maxLocks)
		{
			if (locks[i].addr == a) return locks[i];
			if (!locks[i].addr)
			{
				memset(&locks[i], 0, sizeof(Lock));
				locks[i].addr = a;
				locks[i].owner = -1;
				++usedLocks;
				return locks[i];
			}
		}
		fprintf(stderr, "c20rt: too many locks\n");
		_Exit(70);
	}
	void join(VC& to, const VC& from)
	{
		for (int i = 0; i < maxT; ++i) if (from.c[i] > to.c[i]) to.c[i] = from.c[i];
	}
	bool available(const Lock& l, int t, bool shared)
	{
		if (shared) return l.owner < 0 || l.owner == t;
		return (l.owner < 0 || l.owner == t) && l.readers == 0;
	}

	// ---- scheduling -------------------------------------------------------------------------------------------
	bool enabled(int t)
	{
		if (th[t].state == ready) return true;
		if (th[t].state != blocked) return false;
		const Lock& l = lock_of(th[t].waitsFor);
		return th[t].waitsShared ? l.owner < 0 : l.owner < 0 && l.readers == 0;
	}
	void switch_to(int t)
	{
		if (t == self) return;
		++switches;
		const int me = self;
		sem_post(&th[t].sem);
		while (sem_wait(&th[me].sem) != 0) { }
	}
	void give_up(int t) { sem_post(&th[t].sem); }
	// chooses the thread that continues; -1: none can
	int next(bool selfCan)
	{
		int cand[maxT], n = 0;
		if (selfCan) cand[n++] = self;
		if (!selfCan || preemptions < bound)
			for (int t = 1; t <= nThreads; ++t) if (t != self && enabled(t)) cand[n++] = t;
		if (n == 0) return -1;
		int k = 0;
		if (n > 1)
		{
			++th[self].ignore;
			k = sched_choose(n);
			--th[self].ignore;
		}
		if (selfCan && k != 0) ++preemptions;
		return cand[k];
	}
	void finished_all(bool deadlock)
	{
		if (deadlock)
		{
			char who[200] = "";
			for (int t = 1; t <= nThreads; ++t)
				if (th[t].state == blocked) snprintf(who + strlen(who), sizeof who - strlen(who), " thread %d waits for a lock held by %s%d;", t, lock_of(th[t].waitsFor).owner == t ? "itself, " : "", lock_of(th[t].waitsFor).owner);
			report("deadlock:%s", who);
		}
		give_up(0);
	}
	void point()
	{
		if (!running || self == 0 || th[self].ignore) return;
		++points;
		const int t = next(true);
		switch_to(t);
	}
	void acquire(const void* a, bool shared)
	{
		Lock* l = &lock_of(a);
		if (running && self != 0)
		{
			point();
			while (!available(*l, self, shared) || (l->owner == self && !l->count))
			{
				th[self].state = blocked;
				th[self].waitsFor = a;
				th[self].waitsShared = shared;
				const int t = next(false);
				if (t < 0) { finished_all(true); for (;;) pause_forever: while (sem_wait(&th[self].sem) != 0) goto pause_forever; }
				switch_to(t);
				th[self].state = ready;
			}
		}
		join(th[self].vc, l->vc);
		if (!shared) join(th[self].vc, l->rvc);
	}
	void acquire_exclusive(const void* a, bool recursive)
	{
		Lock& l = lock_of(a);
		if (l.owner == self && l.count > 0)
		{
			if (recursive) { ++l.count; return; }
			if (running && self != 0)
			{
				th[self].state = blocked; // relocking a plain mutex never returns
				th[self].waitsFor = a;
				th[self].waitsShared = false;
				for (;;)
				{
					const int t = next(false);
					if (t < 0) { finished_all(true); for (;;) sem_wait(&th[self].sem); }
					switch_to(t);
				}
			}
		}
		acquire(a, false);
		l.owner = self;
		l.count = 1;
	}
	void release_exclusive(const void* a)
	{
		Lock& l = lock_of(a);
		if (l.owner != self) { if (running) report("thread %d unlocks a mutex it does not own", self); return; }
		if (--l.count > 0) return;
		l.owner = -1;
		l.vc = th[self].vc;
		++th[self].vc.c[self];
	}

	// ---- memory -------------------------------------------------------------------------------------------------
	struct Cell
	{
		uintptr_t key;
		uint32_t gen;
		uint8_t freed;
		Clock w[8];
		uint8_t wt[8];
		Clock r[maxT][8];
		const void* wpc;
		const void* rpc[maxT];
	};
	constexpr size_t nCells = size_t{1} << 16;
	Cell* cells;
	size_t cellsUsed;
	Cell& cell(uintptr_t key)
	{
		size_t i = (key * 0x9E3779B97F4A7C15ull) >> 48;
		for (size_t n = 0; n < nCells; ++n, i = (i + 1) & (nCells - 1))
		{
			Cell& c = cells[i];
			if (c.gen != generation) { memset(&c, 0, sizeof c); c.key = key; c.gen = generation; if (++cellsUsed > nCells / 2) { fprintf(stderr, "c20rt: too many memory cells\n"); _Exit(70); } return c; }
			if (c.key == key) return c;
		}
		abort();
	}
	void clear_range(const void* p, size_t n)
	{
		if (!tracking || !running || self == 0) return;
		for (uintptr_t k = reinterpret_cast<uintptr_t>(p) >> 3; k <= (reinterpret_cast<uintptr_t>(p) + n - 1) >> 3; ++k)
		{
			Cell& c = cell(k);
			const auto key = c.key;
			memset(&c, 0, sizeof c);
			c.key = key;
			c.gen = generation;
		}
	}
	void access(const void* p, size_t n, bool write, const void* pc, bool freeing = false)
	{
		if (!tracking || !running || self == 0 || th[self].ignore || n == 0) return;
		++accesses;
		const VC& vc = th[self].vc;
		uintptr_t a = reinterpret_cast<uintptr_t>(p), end = a + n;
		while (a < end)
		{
			Cell& c = cell(a >> 3);
			if (c.freed) { report("thread %d accesses freed memory (pc %p)", self, pc); return; }
			for (unsigned b = a & 7; b < 8 && a < end; ++b, ++a)
			{
				if (c.w[b] && c.wt[b] != self && c.w[b] > vc.c[c.wt[b]])
				{
					report("data race: thread %d %s (pc %p) what thread %d wrote (pc %p)", self, freeing ? "frees" : write ? "writes" : "reads", pc, c.wt[b], c.wpc);
					return;
				}
				if (write)
				{
					for (int t = 1; t <= nThreads; ++t)
						if (t != self && c.r[t][b] && c.r[t][b] > vc.c[t])
						{
							report("data race: thread %d %s (pc %p) what thread %d read (pc %p)", self, freeing ? "frees" : "writes", pc, t, c.rpc[t]);
							return;
						}
					c.w[b] = vc.c[self];
					c.wt[b] = static_cast<uint8_t>(self);
					c.wpc = pc;
				}
				else
				{
					c.r[self][b] = vc.c[self];
					c.rpc[self] = pc;
				}
			}
			if (freeing) c.freed = 1;
		}
	}

	struct Quarantine { void* p[20000]; int n; } quarantine;

	// ---- atomics ---------------------------------------------------------------------------------------------------
	struct Sync { uintptr_t key; uint32_t gen; VC vc; };
	constexpr size_t nSync = 4096;
	Sync syncs[nSync];
	VC& sync_of(const volatile void* p)
	{
		const auto key = reinterpret_cast<uintptr_t>(p);
		size_t i = (key * 0x9E3779B97F4A7C15ull) >> 52;
		for (size_t n = 0; n < nSync; ++n, i = (i + 1) % nSync)
		{
			if (syncs[i].gen != generation) { memset(&syncs[i], 0, sizeof(Sync)); syncs[i].gen = generation; syncs[i].key = key; return syncs[i].vc; }
			if (syncs[i].key == key) return syncs[i].vc;
		}
		fprintf(stderr, "c20rt: too many atomics\n");
		_Exit(70);
	}
	void atomic_op(const volatile void* p, int order, bool load, bool store)
	{
		if (!tracking || !running || self == 0 || th[self].ignore) return;
		if (atomicPoints) point();
		if (Cell& c = cell(reinterpret_cast<uintptr_t>(p) >> 3); c.freed) { report("thread %d uses an atomic in freed memory", self); return; }
		const bool acq = load && (order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST);
		const bool rel = store && (order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST);
		VC& s = sync_of(p);
		if (acq) join(th[self].vc, s);
		if (rel)
		{
			if (load) join(s, th[self].vc); else s = th[self].vc;
			++th[self].vc.c[self];
		}
		else if (store && !load) memset(&s, 0, sizeof s);
	}

	void* thread_main(void* arg)
	{
		self = static_cast<int>(reinterpret_cast<intptr_t>(arg));
		while (sem_wait(&th[self].sem) != 0) { }
		body(bodyCtx, self - 1);
		th[self].state = done;
		const int t = next(false);
		if (t >= 0) give_up(t);
		else
		{
			bool all = true;
			for (int k = 1; k <= nThreads; ++k) all = all && th[k].state == done;
			finished_all(!all);
		}
		return nullptr;
	}
	bool is_recursive(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
}

extern "C"
{
	// runs body(ctx, 0..n-1) in n threads under every schedule chosen by sched_choose; 0: finished, 1: deadlock
	int sched_run(int n, void (*fn)(void*, int), void* ctx, int preemptionBound, int withAtomicPoints)
	{
		if (!cells) { cells = static_cast<Cell*>(calloc(nCells, sizeof(Cell))); sem_init(&th[0].sem, 0, 0); }
		++generation;
		cellsUsed = 0;
		error[0] = 0;
		memset(locks, 0, sizeof(Lock) * maxLocks);
		nThreads = n;
		preemptions = 0;
		bound = preemptionBound;
		atomicPoints = withAtomicPoints != 0;
		points = switches = accesses = stamps = 0;
		body = fn;
		bodyCtx = ctx;
		memset(&th[0].vc, 0, sizeof(VC));
		th[0].vc.c[0] = 1;
		for (int t = 1; t <= n; ++t)
		{
			th[t].state = ready;
			th[t].waitsFor = nullptr;
			th[t].ignore = 0;
			th[t].vc = th[0].vc;
			th[t].vc.c[t] = 1;
			sem_init(&th[t].sem, 0, 0);
			pthread_attr_t a;
			pthread_attr_init(&a);
			pthread_attr_setstacksize(&a, 512 * 1024);
			if (pthread_create(&th[t].handle, &a, thread_main, reinterpret_cast<void*>(static_cast<intptr_t>(t))) != 0) { perror("pthread_create"); _Exit(70); }
			pthread_attr_destroy(&a);
		}
		tracking = running = true;
		const int first = next(false);
		sem_post(&th[first].sem);
		while (sem_wait(&th[0].sem) != 0) { }
		bool all = true;
		for (int t = 1; t <= n; ++t) all = all && th[t].state == done;
		tracking = running = false;
		if (!all) return 1;
		for (int t = 1; t <= n; ++t) { pthread_join(th[t].handle, nullptr); sem_destroy(&th[t].sem); }
		for (int i = 0; i < quarantine.n; ++i) free(quarantine.p[i]);
		quarantine.n = 0;
		memset(locks, 0, sizeof(Lock) * maxLocks);
		return 0;
	}
	const char* sched_error() { return error; }
	void sched_point() { point(); }
	unsigned long sched_stamp() { return ++stamps; }
	unsigned long sched_points() { return points; }
	unsigned long sched_accesses() { return accesses; }
	int sched_self() { return self - 1; }
	void sched_ignore(int d) { th[self].ignore += d; }

	// ---- pthread ---------------------------------------------------------------------------------------------------
	int pthread_mutex_lock(pthread_mutex_t* m) noexcept
	{
		acquire_exclusive(m, is_recursive(m));
		return 0;
	}
	int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
	{
		point();
		Lock& l = lock_of(m);
		if (l.owner == self && is_recursive(m)) { ++l.count; return 0; }
		if (l.owner >= 0) return EBUSY;
		join(th[self].vc, l.vc);
		l.owner = self;
		l.count = 1;
		return 0;
	}
	int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) noexcept { return pthread_mutex_lock(m); }
	int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) noexcept { return pthread_mutex_lock(m); }
	int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
	{
		release_exclusive(m);
		return 0;
	}
	int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
	{
		Lock& l = lock_of(m);
		if (running && l.owner >= 0) report("a locked mutex is destroyed");
		return 0;
	}
	int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { acquire_exclusive(m, false); return 0; }
	int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
	{
		acquire(m, true);
		Lock& l = lock_of(m);
		++l.readers;
		++l.heldShared[self];
		return 0;
	}
	int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
	{
		point();
		Lock& l = lock_of(m);
		if (l.owner >= 0 || l.readers) return EBUSY;
		acquire_exclusive(m, false);
		return 0;
	}
	int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
	{
		point();
		if (lock_of(m).owner >= 0) return EBUSY;
		return pthread_rwlock_rdlock(m);
	}
	int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
	{
		Lock& l = lock_of(m);
		if (l.heldShared[self] > 0)
		{
			--l.heldShared[self];
			--l.readers;
			join(l.rvc, th[self].vc);
			++th[self].vc.c[self];
			return 0;
		}
		release_exclusive(m);
		return 0;
	}
	int sched_yield() noexcept // a thread that spins lets the others run
	{
		if (!running || self == 0 || th[self].ignore) return 0;
		int cand[maxT], n = 0;
		for (int t = 1; t <= nThreads; ++t) if (t != self && enabled(t)) cand[n++] = t;
		if (n == 0) return 0;
		++th[self].ignore;
		const int k = n > 1 ? sched_choose(n) : 0;
		--th[self].ignore;
		switch_to(cand[k]);
		return 0;
	}

	// ---- instrumentation -------------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
	void __tsan_init() { }
	void __tsan_func_entry(void*) { }
	void __tsan_func_exit() { }
#define RW(n) \
	void __tsan_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
	void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
	void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, sizeof *p, true, PC); }
	void __tsan_vptr_read(void** p) { access(p, sizeof *p, false, PC); }
	void __tsan_atomic_thread_fence(int) { }
	void __tsan_atomic_signal_fence(int) { }
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* p, int o) { atomic_op(p, o, true, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int o) { atomic_op(p, o, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o) { atomic_op(p, o, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o) { atomic_op(p, o, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o) { atomic_op(p, o, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o) { atomic_op(p, o, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o) { atomic_op(p, o, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o) { atomic_op(p, o, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int o) { atomic_op(p, o, true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int) { atomic_op(p, o, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int) { atomic_op(p, o, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int o, int) { atomic_op(p, o, true, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
	AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

	// plain library calls of instrumented code (linked with --wrap)
	void* __real_memcpy(void*, const void*, size_t);
	void* __real_memmove(void*, const void*, size_t);
	void* __real_memset(void*, int, size_t);
	void* __real___cxa_allocate_exception(size_t) noexcept;
	void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
	void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
	void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
	void* __wrap___cxa_allocate_exception(size_t n) noexcept
	{
		void* p = __real___cxa_allocate_exception(n);
		clear_range(p, n);
		return p;
	}
}

// ---- allocation: memory freed while threads run is kept until the execution ends -----------------------------------------
void* operator new(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p) { fprintf(stderr, "out of memory\n"); _Exit(70); }
	clear_range(p, n ? n : 1);
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { return aligned_alloc(static_cast<size_t>(a), (n + static_cast<size_t>(a) - 1) / static_cast<size_t>(a) * static_cast<size_t>(a)); }
static void release(void* p, const void* pc)
{
	if (!p) return;
	if (tracking && running && self != 0)
	{
		access(p, malloc_usable_size(p), true, pc, true);
		if (quarantine.n < 20000) { quarantine.p[quarantine.n++] = p; return; }
		fprintf(stderr, "c20rt: quarantine is full\n");
		_Exit(70);
	}
	free(p);
}
void operator delete(void* p) noexcept { release(p, PC); }
void operator delete[](void* p) noexcept { release(p, PC); }
void operator delete(void* p, size_t) noexcept { release(p, PC); }
void operator delete[](void* p, size_t) noexcept { release(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { release(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p, PC); }
