// Scheduler, choices, memory, synchronisation, time.
#include <execinfo.h>
#include "core.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sys/time.h>
#include <time.h>
#include <sched.h>
#include <signal.h>
#include <ucontext.h>
#include <algorithm>
#include "real.h"

extern "C" {
int   __real_pthread_create(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
}

Shared*    sh;
SimThread* cur;
uint64_t   now_ns;
bool       in_sim;

static std::vector<SimThread*> threads;
static uint64_t  g_count, g_next;      // of the current thread
static uint64_t  budget_left;
static uint64_t  n_switches, n_sync;
static uint64_t  H, SH, seq_no;
static Rng       rng_sched, rng_fault, rng_pick, rng_work[SIM_STREAMS];
static uint64_t  idx_work[SIM_STREAMS], idx_fault[SIM_F_MAX], idx_pick[64];
static int       fault_rate[SIM_F_MAX];
static bool      faults_master;
static bool      fair_mode;
static int       cur_epoch;
static SimScenario* scen;
static uint64_t sum_counts();

// schedule strategy of this run
static int       strat;                // 0 random walk, 1 priorities (PCT), 2 sync only
static uint64_t  mean_access;
static int       p_sync;               // per 1000
static uint64_t  pct_points[8]; static int pct_n;
static int       pct_low;

struct KeyHash { size_t operator()(const uint64_t& k) const { return k * 0x9E3779B97F4A7C15ull >> 7; } };
static std::unordered_map<uint64_t, uint64_t, KeyHash> in_choice;
static std::map<int, std::vector<Choice>> in_events;

uint64_t mix(uint64_t a, uint64_t b)
{
	Rng r{a * 0xD1342543DE82EF95ull + b + 0x632BE59BD9B4E019ull};
	r.next();
	return r.next() ^ (b << 1);
}

uint64_t real_ns()
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

void hash_add(uint64_t v) { H = (H ^ v) * 0x100000001B3ull; H ^= H >> 29; }
static void shash_add(uint64_t v) { SH = (SH ^ v) * 0x100000001B3ull; SH ^= SH >> 31; }

static uint64_t ckey(int kind, int a, uint64_t b)
{
	return ((uint64_t)kind << 56) ^ ((uint64_t)(a & 0xffff) << 40) ^ (b & 0xffffffffffull);
}

static void record(int kind, int a, uint64_t b, uint64_t v)
{
	if (!sh->record)
		return;
	if (sh->out_count >= MAX_CHOICES) { sh->out_overflow = 1; return; }
	Choice* c = &sh->out[sh->out_count++];
	c->kind = kind; c->epoch = cur_epoch; c->a = a; c->pad = 0; c->b = b; c->v = v;
}

static bool lookup(int kind, int a, uint64_t b, uint64_t* v)
{
	auto it = in_choice.find(ckey(kind, a, b));
	if (it == in_choice.end())
		return false;
	*v = it->second;
	return true;
}

// ------------------------------------------------------------------ choices
extern "C" uint64_t sim_choose(int stream, uint64_t n)
{
	if (n <= 1)
		return 0;
	stream &= SIM_STREAMS - 1;
	uint64_t i = idx_work[stream]++;
	uint64_t r = rng_work[stream].next();
	uint64_t v;
	if (sh->replay) {
		if (!lookup(K_WORK, stream, i, &v)) v = 0;
		v %= n;
	} else {
		v = (uint64_t)(((unsigned __int128)r * n) >> 64);
	}
	if (v) record(K_WORK, stream, i, v);
	hash_add(v + 77);
	return v;
}

uint64_t pick(int site, uint64_t n)
{
	if (n <= 1) return 0;
	uint64_t i = idx_pick[site]++;
	uint64_t v;
	if (sh->replay) { if (!lookup(K_PICK, site, i, &v)) v = 0; v %= n; }
	else v = rng_pick.below(n);
	if (v) record(K_PICK, site, i, v);
	return v;
}

uint64_t fault_draw(SimFault f, uint64_t n)
{
	if (!faults_master || !fault_rate[f])
		return 0;
	uint64_t i = idx_fault[f]++;
	uint64_t v = 0;
	if (sh->replay) { if (!lookup(K_FAULT, f, i, &v)) v = 0; if (v > n) v = n; }
	else if (rng_fault.below(10000) < (uint64_t)fault_rate[f]) v = 1 + rng_fault.below(n);
	if (v) { record(K_FAULT, f, i, v); sh->faults[f]++; hash_add(0xF00 + f * 31 + v); }
	return v;
}

extern "C" void sim_fault_rate(SimFault f, int r) { fault_rate[f] = r; }
extern "C" void sim_faults(bool on) { faults_master = on; }
extern "C" bool sim_faults_on(void) { return faults_master; }
extern "C" void sim_fault_count(SimFault f) { sh->faults[f]++; hash_add(0xE00 + f); }
extern "C" uint64_t sim_fault_seen(SimFault f) { return sh->faults[f]; }

// ------------------------------------------------------------------ verdicts
static void text(const char* fmt, va_list ap)
{
	char b[1024];
	int n = vsnprintf(b, sizeof b, fmt, ap);
	if (n < 0) return;
	if (n >= (int)sizeof b) n = sizeof b - 1;
	for (int i = 0; i < n; i++) hash_add((uint8_t)b[i]);
	sh->log_events++;
	if (sh->logging && sh->log_size + n + 64 < LOG_MAX) {
		sh->log_size += snprintf(sh->log + sh->log_size, 64, "[e%d %06llu t%d %llu.%06llums] ", cur_epoch,
			(unsigned long long)seq_no, cur ? cur->id : -1, (unsigned long long)(now_ns / 1000000), (unsigned long long)(now_ns % 1000000));
		memcpy(sh->log + sh->log_size, b, n); sh->log_size += n;
		sh->log[sh->log_size++] = '\n';
	}
}
extern "C" void sim_log(const char* fmt, ...)
{
	seq_no++;
	va_list ap; va_start(ap, fmt); text(fmt, ap); va_end(ap);
}

void finish(int status)
{
	sh->status = status;
	sh->hash = sh->hash * 1099511628211ull ^ H;
	sh->sched_hash = sh->sched_hash * 1099511628211ull ^ SH;
	sh->steps += sum_counts();
	sh->switches += n_switches;
	sh->sync_points += n_sync;
	sh->sim_ns += now_ns;
	_exit(0);
}

void mem_trace_dump();
static bool failing;
extern "C" void sim_fail(const char* cls, const char* fmt, ...)
{
	if (failing) _exit(99);
	failing = true;
	va_list ap; va_start(ap, fmt);
	vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
	va_end(ap);
	snprintf(sh->cls, sizeof sh->cls, "%s", cls);
	for (const char* p = cls; *p; p++) hash_add((uint8_t)*p);
	if (!strcmp(cls, "leak")) mem_trace_dump();
	if (getenv("SIM_BT")) {
		void* at[40]; char line[800]; int used = 0;
		int n = backtrace(at, 40);
		for (int i = 0; i < n && used < 760; i++)
			used += snprintf(line + used, sizeof line - used, " %p", at[i]);
		sim_log("stack%s", line);
	}
	sim_log("VIOLATION %s: %s", cls, sh->msg);
	finish(ST_VIOLATION);
}
extern "C" void sim_broken(const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
	va_end(ap);
	snprintf(sh->cls, sizeof sh->cls, "harness");
	finish(ST_BROKEN);
}
extern "C" uint64_t sim_seq(void) { return ++seq_no; }
extern "C" uint64_t sim_now(void) { return now_ns; }
extern "C" int  sim_epoch(void) { return cur_epoch; }
extern "C" bool sim_last_crashed(void) { return sh->last_crashed; }
extern "C" int  sim_crash_kind(void) { return sh->last_kind; }
extern "C" void* sim_board(size_t size)
{
	if (size > BOARD_MAX) sim_broken("board too large");
	if (size > sh->board_used) sh->board_used = size;
	return sh->board;
}
extern "C" void sim_probe(const char* name)
{
	for (uint32_t i = 0; i < sh->probes_count; i++)
		if (!strcmp(sh->probes[i].name, name)) { sh->probes[i].count++; return; }
	if (sh->probes_count >= MAX_PROBES) return;
	Probe* p = &sh->probes[sh->probes_count++];
	snprintf(p->name, sizeof p->name, "%s", name);
	p->count = 1;
}
extern "C" void sim_state(uint64_t h)
{
	hash_add(h);
	if (sh->states_count < STATES_MAX) sh->states[sh->states_count++] = h;
}

// ------------------------------------------------------------------ scheduler
static void futex_wait(int* p)
{
	while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
		syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
	__atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void futex_wake(int* p)
{
	__atomic_store_n(p, 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

struct Timed { uint64_t at; uint64_t n; std::function<void()> fn; };
static std::vector<Timed> timed;      // kept sorted by (at, n)
static uint64_t timed_n;
void add_timed(uint64_t at, std::function<void()> fn)
{
	Timed t{at, timed_n++, std::move(fn)};
	auto it = std::upper_bound(timed.begin(), timed.end(), t,
		[](const Timed& a, const Timed& b) { return a.at < b.at || (a.at == b.at && a.n < b.n); });
	timed.insert(it, std::move(t));
}
static void run_timed()
{
	while (!timed.empty() && timed.front().at <= now_ns) {
		auto fn = std::move(timed.front().fn);
		timed.erase(timed.begin());
		fn();
	}
}

static bool runnable(SimThread* t)
{
	if (t->state == T_RUN) return true;
	if (t->state == T_DONE) return false;
	if (t->stalled) {
		if (t->deadline > now_ns) return false;
		return true;
	}
	if (t->pred && (*t->pred)()) return true;
	return t->deadline <= now_ns;
}

static void plan_next()
{
	// in generation mode: next instrumented access at which to look around
	uint64_t d = 200000;
	if (!sh->replay) {
		if (fair_mode) d = 2000 + rng_sched.below(4000);
		else if (strat == 0) { d = 1 + rng_sched.below(2 * mean_access); }
		else if (strat == 1) d = 1 + rng_sched.below(4000);
	} else {
		// events are sorted; skip stale ones
		while (cur->ev < cur->events.size() && cur->events[cur->ev].b < g_count) cur->ev++;
		if (cur->ev < cur->events.size()) {
			uint64_t left = cur->events[cur->ev].b - g_count;
			if (left < d) d = left;
		}
	}
	// the budget is looked at at fixed positions of every thread
	if (cur->next <= g_count) cur->next = (g_count | 0xffff) + 1;
	if (cur->next - g_count < d) d = cur->next - g_count;
	g_next = g_count + (d ? d : 1);
}

static void switch_to(SimThread* t)
{
	if (t == cur) return;
	SimThread* me = cur;
	me->count = g_count;
	me->err_save = errno;
	n_switches++;
	hash_add(0x5000 + t->id); hash_add(g_count);
	shash_add(((uint64_t)me->id << 8 | t->id) * 131 + n_sync);
	cur = t;
	g_count = t->count;
	plan_next();
	futex_wake(&t->go);
	if (me->state == T_DONE)
		return;
	futex_wait(&me->go);
	errno = me->err_save;
}

static void wake_state(SimThread* t)
{
	// t is about to run
	if (t->state == T_BLOCK) {
		if (t->stalled) t->timedout = false;
		else t->timedout = !(t->pred && (*t->pred)());
		t->state = T_RUN;
		t->stalled = false;
		t->deadline = UINT64_MAX;
	}
}

static void dump_threads(char* b, size_t n)
{
	size_t o = 0;
	for (auto t : threads) {
		if (o + 80 > n) break;
		o += snprintf(b + o, n - o, "t%d:%s(%s) ", t->id,
			t->state == T_RUN ? "run" : t->state == T_DONE ? "done" : "blocked", t->why ? t->why : "");
	}
}

static SimThread* choose_runnable(bool exclude_cur, bool* advanced, bool preemptive = false)
{
	std::vector<SimThread*> r;
	for (;;) {
		run_timed();
		r.clear();
		for (auto t : threads)
			if (!(exclude_cur && t == cur) && runnable(t)) r.push_back(t);
		if (!r.empty()) break;
		if (exclude_cur && cur->state == T_RUN) return NULL;
		// advance simulated time
		uint64_t at = UINT64_MAX;
		if (!timed.empty()) at = timed.front().at;
		for (auto t : threads)
			if (t->state == T_BLOCK && t->deadline < at) at = t->deadline;
		if (at == UINT64_MAX) {
			char b[1024]; dump_threads(b, sizeof b);
			sim_fail("stuck", "no thread can ever run again: %s", b);
		}
		if (at > now_ns) now_ns = at;
		*advanced = true;
	}
	uint64_t v = 0;
	// default: next in round robin order
	size_t def = 0;
	for (size_t i = 0; i < r.size(); i++) if (r[i]->id > cur->id) { def = i; break; }
	if (sh->replay) {
		SimThread* c = NULL;
		while (cur->ev < cur->events.size() && cur->events[cur->ev].b < g_count) cur->ev++;
		if (cur->ev < cur->events.size() && cur->events[cur->ev].b == g_count && cur->events[cur->ev].kind == K_SWITCH) {
			v = cur->events[cur->ev].v;
			for (auto t : r) if ((uint64_t)t->id + 1 == v) c = t;
			cur->ev++;
		}
		if (c) { record(K_SWITCH, cur->id, g_count, c->id + 1); return c; }
		return r[def];
	}
	SimThread* c;
	if (strat == 1 && !fair_mode) {
		c = r[0];
		for (auto t : r) if (t->prio > c->prio) c = t;
	} else
		c = r[rng_sched.below(r.size())];
	if (preemptive || c != r[def]) record(K_SWITCH, cur->id, g_count, c->id + 1);
	return c;
}

static void preempt(bool forced)
{
	// current stays runnable; let another thread run (if any)
	bool adv = false;
	SimThread* t = choose_runnable(true, &adv, true);
	if (!t) return;
	wake_state(t);
	(void)forced;
	switch_to(t);
}

static void budget_check()
{
	uint64_t used = sum_counts();
	if (used > budget_left) {
		char b[1024]; dump_threads(b, sizeof b);
		sim_fail("no-progress", "step budget exhausted (%llu steps, %llu ms simulated): %s",
			(unsigned long long)used, (unsigned long long)(now_ns / 1000000), b);
	}
}
static uint64_t sum_counts()
{
	uint64_t s = 0;
	for (auto t : threads) s += t == cur ? g_count : t->count;
	return s;
}

static inline void budget_tick()
{
	if (__builtin_expect(g_count >= cur->next, 0)) {
		cur->next = (g_count | 0xffff) + 1;
		budget_check();
	}
}

static void do_event_time(uint64_t us)
{
	now_ns += us * 1000;
	hash_add(0x7100 + us);
	run_timed();
}
static void do_stall(uint64_t us)
{
	cur->state = T_BLOCK; cur->stalled = true; cur->deadline = now_ns + us * 1000;
	cur->why = "stalled";
	hash_add(0x7200 + us);
	g_count++;
	bool adv = false;
	SimThread* t = choose_runnable(false, &adv);
	wake_state(t);
	switch_to(t);
	if (cur->state == T_BLOCK) wake_state(cur);
}

static __attribute__((noinline)) void access_slow()
{
	if (!in_sim) { g_next = UINT64_MAX; return; }
	budget_tick();
	if (sh->replay) {
		while (cur->ev < cur->events.size() && cur->events[cur->ev].b == g_count) {
			Choice c = cur->events[cur->ev];
			if (c.kind == K_SWITCH) { preempt(false); break; }
			cur->ev++;
			if (c.kind == K_TIME) { sh->faults[SIM_F_TIMEJUMP]++; record(K_TIME, cur->id, g_count, c.v); do_event_time(c.v); }
			else if (c.kind == K_STALL) { sh->faults[SIM_F_STALL]++; record(K_STALL, cur->id, g_count, c.v); do_stall(c.v); break; }
		}
		plan_next();
		return;
	}
	if (fair_mode || strat == 0) {
		preempt(false);
	} else if (strat == 1) {
		// priority change points
		uint64_t s = sum_counts();
		for (int i = 0; i < pct_n; i++)
			if (pct_points[i] && s >= pct_points[i]) {
				pct_points[i] = 0;
				cur->prio = pct_low--;
				preempt(false);
				break;
			}
	}
	plan_next();
}

#define ACCESS() do { if (__builtin_expect(++g_count >= g_next, 0)) access_slow(); } while (0)

static void sync_point_slow();
void sync_point(const char* what)
{
	if (!in_sim) return;
	(void)what;
	n_sync++;
	now_ns += 150;
	if (!timed.empty() && timed.front().at <= now_ns) run_timed();
	g_count++;
	budget_tick();
	if (sh->replay) {
		if (g_count >= g_next) access_slow();
		return;
	}
	sync_point_slow();
}
static void sync_point_slow()
{
	if (faults_master) {
		if (fault_rate[SIM_F_TIMEJUMP] && rng_sched.below(10000) < (uint64_t)fault_rate[SIM_F_TIMEJUMP]) {
			static const uint64_t d[] = {1000, 5000, 20000, 100000, 1000000, 5000000};
			uint64_t us = d[rng_sched.below(6)];
			record(K_TIME, cur->id, g_count, us);
			sh->faults[SIM_F_TIMEJUMP]++;
			do_event_time(us);
		}
		if (fault_rate[SIM_F_STALL] && rng_sched.below(10000) < (uint64_t)fault_rate[SIM_F_STALL]) {
			static const uint64_t d[] = {100, 1000, 20000, 200000, 2000000};
			uint64_t us = d[rng_sched.below(5)];
			record(K_STALL, cur->id, g_count, us);
			sh->faults[SIM_F_STALL]++;
			do_stall(us);
			return;
		}
	}
	int p = fair_mode ? 200 : p_sync;
	if (strat == 1 && !fair_mode) {
		if (g_count >= g_next) access_slow();
		return;
	}
	if (rng_sched.below(1000) < (uint64_t)p) { preempt(false); plan_next(); }
}

bool block_until(const char* why, std::function<bool()> pred, uint64_t deadline)
{
	if (!in_sim) {
		if (pred()) return true;
		sim_broken("blocking outside of the simulation: %s", why);
	}
	if (pred()) return true;
	cur->state = T_BLOCK;
	cur->pred = &pred;
	cur->deadline = deadline;
	cur->why = why;
	cur->timedout = false;
	g_count++;
	n_sync++;
	budget_tick();
	if (strat == 1) cur->prio += 0;
	bool adv = false;
	SimThread* t = choose_runnable(false, &adv);
	wake_state(t);
	SimThread* me = cur;
	switch_to(t);
	me->pred = NULL;
	me->why = "";
	plan_next();
	return !me->timedout;
}

static void forced_yield()
{
	g_count++;
	budget_tick();
	n_sync++;
	now_ns += 1000;
	if (strat == 1 && !sh->replay) cur->prio = pct_low--;
	bool adv = false;
	run_timed();
	SimThread* t = choose_runnable(true, &adv);
	if (!t) {
		// spinning on something that only time can change
		uint64_t at = UINT64_MAX;
		if (!timed.empty()) at = timed.front().at;
		for (auto x : threads) if (x->state == T_BLOCK && x->deadline < at) at = x->deadline;
		if (at != UINT64_MAX && at > now_ns) now_ns = at;
		plan_next();
		return;
	}
	wake_state(t);
	switch_to(t);
	plan_next();
}
extern "C" void sim_yield(void) { if (in_sim) forced_yield(); }
extern "C" void sim_budget(uint64_t n) { budget_left = sum_counts() + n; }
extern "C" void sim_sched_mode(int mode) { fair_mode = mode == 1; plan_next(); }
extern "C" int  sim_threads(void) { int n = 0; for (auto t : threads) n += t->state != T_DONE; return n; }

// ------------------------------------------------------------------ threads
#define STACK_BASE 0x200000000000ull
#define STACK_SIZE (1ull << 20)
static void thread_altstack()
{
	stack_t ss;
	ss.ss_size = 65536;
	ss.ss_sp = mmap(NULL, ss.ss_size, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	ss.ss_flags = 0;
	sigaltstack(&ss, NULL);
}
static void* thread_main(void* arg)
{
	SimThread* t = (SimThread*)arg;
	thread_altstack();
	futex_wait(&t->go);
	t->ret = t->fn(t->arg);
	// exit
	t->state = T_DONE;
	g_count++;
	bool adv = false;
	SimThread* n = choose_runnable(true, &adv);
	if (!n) sim_broken("last thread exited");
	wake_state(n);
	switch_to(n);
	return NULL;
}

static SimThread* thread_new()
{
	SimThread* t = new SimThread();
	t->id = threads.size();
	t->state = T_RUN;
	t->deadline = UINT64_MAX;
	t->why = "";
	if (sh->replay) {
		auto it = in_events.find(t->id);
		if (it != in_events.end()) t->events = it->second;
	} else
		t->prio = 1000 + (int)rng_sched.below(1000);
	threads.push_back(t);
	return t;
}

extern "C" int __wrap_pthread_create(pthread_t* th, const pthread_attr_t*, void*(*fn)(void*), void* arg)
{
	sync_point("thread_create");
	SimThread* t = thread_new();
	t->fn = fn; t->arg = arg;
	pthread_attr_t a;
	pthread_attr_init(&a);
	void* st = mmap((void*)(STACK_BASE + t->id * (STACK_SIZE * 2)), STACK_SIZE, PROT_READ|PROT_WRITE,
		MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0);
	if (st == MAP_FAILED) sim_broken("stack");
	pthread_attr_setstack(&a, st, STACK_SIZE);
	int rc = __real_pthread_create(&t->th, &a, thread_main, t);
	if (rc) sim_broken("pthread_create %d", rc);
	*th = (pthread_t)(t->id + 1);
	sync_point("thread_created");
	return 0;
}
extern "C" int __wrap_pthread_join(pthread_t th, void** ret)
{
	SimThread* t = threads[(int)th - 1];
	sync_point("join");
	block_until("pthread_join", [t] { return t->state == T_DONE; }, UINT64_MAX);
	if (t->joined) sim_fail("double-join", "thread joined twice");
	t->joined = true;
	if (ret) *ret = t->ret;
	return 0;
}
extern "C" pthread_t __wrap_pthread_self(void) { return (pthread_t)(cur->id + 1); }
extern "C" int __wrap_pthread_setname_np(pthread_t, const char*) { return 0; }
extern "C" int __wrap_pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
extern "C" int __wrap_sched_yield(void) { if (in_sim) forced_yield(); return 0; }
extern "C" int __wrap_gettid(void) { return 100 + cur->id; }
extern "C" int __wrap_getpid(void) { return 100; }

// mutex / cond: state lives outside of the objects
struct Mutex { int owner = -1; };
struct CondW { uint64_t n; SimThread* t; bool signaled; };
struct Cond { std::vector<CondW*> w; };
static std::unordered_map<void*, Mutex*> mutexes;
static std::unordered_map<void*, Cond*> conds;
static Mutex* mutex_of(void* p) { auto& m = mutexes[p]; if (!m) m = new Mutex(); return m; }
static Cond* cond_of(void* p) { auto& c = conds[p]; if (!c) c = new Cond(); return c; }

extern "C" int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { auto x = mutex_of(m); x->owner = -1; return 0; }
extern "C" int __wrap_pthread_mutex_destroy(pthread_mutex_t* m)
{
	auto it = mutexes.find(m);
	if (it != mutexes.end()) {
		if (it->second->owner != -1) sim_fail("mutex-destroy-locked", "mutex destroyed while locked");
		delete it->second; mutexes.erase(it);
	}
	return 0;
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* p)
{
	sync_point("mutex_lock");
	Mutex* m = mutex_of(p);
	if (m->owner == cur->id) sim_fail("self-deadlock", "mutex locked twice by the same thread");
	if (m->owner != -1)
		block_until("mutex", [m] { return m->owner == -1; }, UINT64_MAX);
	m->owner = cur->id;
	return 0;
}
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t* p)
{
	sync_point("mutex_trylock");
	Mutex* m = mutex_of(p);
	if (m->owner != -1) return EBUSY;
	m->owner = cur->id;
	return 0;
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* p)
{
	Mutex* m = mutex_of(p);
	if (m->owner != cur->id) sim_fail("mutex-not-owner", "mutex unlocked by a thread which does not own it");
	m->owner = -1;
	sync_point("mutex_unlock");
	return 0;
}
extern "C" int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { cond_of(c)->w.clear(); return 0; }
extern "C" int __wrap_pthread_cond_destroy(pthread_cond_t* c)
{
	auto it = conds.find(c);
	if (it != conds.end()) {
		if (!it->second->w.empty()) sim_fail("cond-destroy-waiters", "condition destroyed with waiters");
		delete it->second; conds.erase(it);
	}
	return 0;
}
static int cond_wait(void* cp, void* mp, uint64_t deadline)
{
	sync_point("cond_wait");
	Cond* c = cond_of(cp);
	Mutex* m = mutex_of(mp);
	if (m->owner != cur->id) sim_fail("mutex-not-owner", "condition wait without the mutex");
	if (fault_draw(SIM_F_COND_SPURIOUS, 1)) {
		m->owner = -1;
		forced_yield();
		if (m->owner != -1) block_until("mutex", [m] { return m->owner == -1; }, UINT64_MAX);
		m->owner = cur->id;
		return 0;
	}
	CondW* w = new CondW{0, cur, false};
	c->w.push_back(w);
	m->owner = -1;
	bool ok = block_until("cond", [w] { return w->signaled; }, deadline);
	if (!w->signaled) {
		for (size_t i = 0; i < c->w.size(); i++) if (c->w[i] == w) { c->w.erase(c->w.begin() + i); break; }
	}
	delete w;
	if (m->owner != -1)
		block_until("mutex", [m] { return m->owner == -1; }, UINT64_MAX);
	m->owner = cur->id;
	return ok ? 0 : ETIMEDOUT;
}
static uint64_t wall_base = 1700000000ull * 1000000000ull;
static int64_t  wall_skew;
static uint64_t wall_now() { return wall_base + now_ns + wall_skew; }
extern "C" int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, UINT64_MAX); }
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) {
		return EINVAL;
	}
	int64_t at = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
	int64_t d = at - (int64_t)wall_now();
	return cond_wait(c, m, d <= 0 ? now_ns : now_ns + d);
}
extern "C" int __wrap_pthread_cond_signal(pthread_cond_t* p)
{
	Cond* c = cond_of(p);
	if (!c->w.empty()) {
		size_t i = pick(1, c->w.size());
		c->w[i]->signaled = true;
		c->w.erase(c->w.begin() + i);
	}
	sync_point("cond_signal");
	return 0;
}
extern "C" int __wrap_pthread_cond_broadcast(pthread_cond_t* p)
{
	Cond* c = cond_of(p);
	for (auto w : c->w) w->signaled = true;
	c->w.clear();
	sync_point("cond_broadcast");
	return 0;
}

// ------------------------------------------------------------------ time
extern "C" void sim_clock_jump(int64_t ns) { wall_skew += ns; sh->faults[SIM_F_CLOCKJUMP]++; hash_add(0xC10C + ns); }
extern "C" uint64_t sim_wall_ns(void) { return wall_now(); }
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	sync_point("clock");
	uint64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall_now() : now_ns + 1000000000ull;
	if (id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE)
		t = t / 1000000 * 1000000;
	ts->tv_sec = t / 1000000000ull;
	ts->tv_nsec = t % 1000000000ull;
	return 0;
}
extern "C" int __wrap_gettimeofday(struct timeval* tv, void*)
{
	uint64_t t = wall_now();
	tv->tv_sec = t / 1000000000ull;
	tv->tv_usec = t % 1000000000ull / 1000;
	return 0;
}
extern "C" time_t __wrap_time(time_t* t) { time_t v = wall_now() / 1000000000ull; if (t) *t = v; return v; }
extern "C" int __wrap_nanosleep(const struct timespec* ts, struct timespec*)
{
	sync_point("nanosleep");
	block_until("nanosleep", [] { return false; }, now_ns + ts->tv_sec * 1000000000ull + ts->tv_nsec);
	return 0;
}
extern "C" int __wrap_usleep(unsigned us)
{
	sync_point("usleep");
	block_until("usleep", [] { return false; }, now_ns + us * 1000ull);
	return 0;
}
extern "C" int __wrap_rand(void) { return (int)(pick(2, 0x7fffffff)); }
extern "C" ssize_t __wrap_getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = (uint8_t)pick(3, 256); return n; }

// ------------------------------------------------------------------ memory
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (2048ull << 20)
#define MMAP_BASE  0x180000000000ull
#define MMAP_SIZE  (64ull << 30)
static uint8_t* shadow;               // one byte per 8: 0 none, 1..8 valid bytes, 0xFD freed
static uint64_t arena_pos = 4096, mmap_pos;
struct BlkHdr { uint64_t size; uint64_t magic; };
static size_t live_bytes, live_blocks;
static std::vector<void*> freelists[48];
static std::deque<std::pair<void*, int>> quarantine; static size_t quarantine_bytes;

// for debugging: who allocated what is left (environment variable SIM_MEMTRACE)
struct MemTrace { size_t n; uintptr_t pc[10]; };
static std::map<void*, MemTrace>* mem_trace;
static void mem_trace_add(void* p, size_t n)
{
	MemTrace t; t.n = n;
	uintptr_t* fp = (uintptr_t*)__builtin_frame_address(0);
	int i = 0;
	for (; i < 10; i++)
	{
		t.pc[i] = fp[1];
		uintptr_t* next = (uintptr_t*)fp[0];
		if (next <= fp || (char*)next - (char*)fp > 65536) { i++; break; }
		fp = next;
	}
	for (; i < 10; i++) t.pc[i] = 0;
	(*mem_trace)[p] = t;
}
void mem_trace_dump()
{
	if (!mem_trace) return;
	for (auto& it : *mem_trace)
	{
		fprintf(stderr, "left %zu:", it.second.n);
		for (int i = 0; i < 10 && it.second.pc[i]; i++) fprintf(stderr, " %lx", (unsigned long)it.second.pc[i]);
		fprintf(stderr, "\n");
	}
}

static void arena_init()
{
	if (getenv("SIM_MEMTRACE")) mem_trace = new std::map<void*, MemTrace>;
	void* a = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0);
	shadow = (uint8_t*)mmap(NULL, ARENA_SIZE / 8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (a == MAP_FAILED || shadow == MAP_FAILED) { perror("arena"); abort(); }
}
static int size_class(size_t n) { int c = 0; size_t s = 32; while (s < n) { s <<= 1; c++; } return c; }

static void mem_report(const char* what, uintptr_t a, size_t n, void* pc)
{
	char c[64];
	snprintf(c, sizeof c, "memory-%s", what);
	sim_fail(c, "%s access of %zu bytes at 0x%llx pc=%p", what, n, (unsigned long long)a, pc);
}
static inline void mem_check(uintptr_t a, size_t n, void* pc)
{
	uint64_t off = a - ARENA_BASE;
	if (__builtin_expect(off >= ARENA_SIZE, 1)) {
		return;
	}
	if (n == 0) return;
	uint64_t last = off + n - 1;
	uint64_t g0 = off >> 3, g1 = last >> 3;
	for (uint64_t g = g0; g <= g1; g++) {
		uint8_t s = shadow[g];
		if (__builtin_expect(s == 8, 1)) continue;
		if (s == 0xFD) mem_report("use-after-free", a, n, pc);
		uint64_t end = g == g1 ? (last & 7) + 1 : 8;
		if (s == 0 || end > s) mem_report("out-of-bounds", a, n, pc);
	}
}
extern "C" bool sim_mem_valid(const void* p, size_t n)
{
	uint64_t off = (uintptr_t)p - ARENA_BASE;
	if (off >= ARENA_SIZE) return true;
	for (uint64_t g = off >> 3; g <= (off + (n ? n - 1 : 0)) >> 3; g++)
		if (shadow[g] == 0 || shadow[g] == 0xFD) return false;
	return true;
}

static void* sim_alloc(size_t n)
{
	int c = size_class(n + 48);
	size_t cap = 32ull << c;
	uint8_t* b;
	if (c < 48 && !freelists[c].empty()) { b = (uint8_t*)freelists[c].back(); freelists[c].pop_back(); }
	else {
		size_t need = cap > 65536 ? ((n + 48 + 4095) & ~4095ull) : cap;
		if (arena_pos + need > ARENA_SIZE) sim_broken("simulated heap exhausted");
		b = (uint8_t*)ARENA_BASE + arena_pos;
		arena_pos += need;
		// big blocks are exact: no reuse by class
	}
	BlkHdr* h = (BlkHdr*)b;
	h->size = n; h->magic = 0xA110C8ED;
	uint8_t* p = b + 16;
	uint64_t g = (uintptr_t)(p - (uint8_t*)ARENA_BASE) >> 3;
	memset(shadow + g, 8, n / 8);
	if (n % 8) shadow[g + n / 8] = n % 8;
	if (n < 65536) memset(p, 0xBE, n); else { memset(p, 0xBE, 4096); }
	live_bytes += n; live_blocks++;
	if (mem_trace) mem_trace_add(p, n);
	return p;
}
static void sim_free_at(void* p, void* pc)
{
	uint64_t off = (uintptr_t)p - ARENA_BASE;
	if (off >= ARENA_SIZE) { sim_fail("memory-bad-free", "free of a pointer that is not allocated: %p pc=%p", p, pc); }
	BlkHdr* h = (BlkHdr*)((uint8_t*)p - 16);
	uint64_t g = off >> 3;
	if ((off & 15) || h->magic != 0xA110C8ED) {
		if (h->magic == 0xF4EED) sim_fail("memory-double-free", "double free %p pc=%p", p, pc);
		sim_fail("memory-bad-free", "free of an invalid pointer %p pc=%p", p, pc);
	}
	size_t n = h->size;
	h->magic = 0xF4EED;
	memset(shadow + g, 0xFD, (n + 7) / 8);
	if (n < 65536) memset(p, 0xDD, n);
	live_bytes -= n; live_blocks--;
	if (mem_trace) mem_trace->erase(p);
	int c = size_class(n + 48);
	if ((32ull << c) <= 65536) {
		quarantine.push_back({(uint8_t*)p - 16, c});
		quarantine_bytes += 32ull << c;
		while (quarantine_bytes > (32ull << 20)) {
			auto q = quarantine.front(); quarantine.pop_front();
			quarantine_bytes -= 32ull << q.second;
			uint64_t g2 = ((uintptr_t)q.first - ARENA_BASE) >> 3;
			memset(shadow + g2, 0, (32ull << q.second) / 8);
			freelists[q.second].push_back(q.first);
		}
	} else {
		madvise((void*)(((uintptr_t)p + 4095) & ~4095ull), n > 8192 ? (n - 4096) & ~4095ull : 0, MADV_DONTNEED);
	}
}
extern "C" size_t sim_mem_live(void) { return live_bytes; }
extern "C" size_t sim_mem_blocks(void) { return live_blocks; }

extern "C" void* __real_malloc(size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void  __real_free(void*);
static bool inited;
extern "C" void* __wrap_malloc(size_t n)
{
	if (!inited) return __real_malloc(n);
	if (fault_draw(SIM_F_OOM, 1)) { errno = ENOMEM; return NULL; }
	return sim_alloc(n);
}
static bool in_arena(void* p) { return (uintptr_t)p - ARENA_BASE < ARENA_SIZE; }
extern "C" void __wrap_free(void* p)
{
	if (!p) return;
	if (!in_arena(p)) { if (!inited) { __real_free(p); return; } }
	sim_free_at(p, __builtin_return_address(0));
}
extern "C" void* __wrap_realloc(void* p, size_t n)
{
	if (!inited) return __real_realloc(p, n);
	if (!p) return sim_alloc(n);
	if (!in_arena(p)) sim_fail("memory-bad-free", "realloc of a pointer that is not allocated");
	BlkHdr* h = (BlkHdr*)((uint8_t*)p - 16);
	if (h->magic != 0xA110C8ED) sim_fail("memory-use-after-free", "realloc of a freed pointer %p pc=%p", p, __builtin_return_address(0));
	void* q = sim_alloc(n);
	memcpy(q, p, h->size < n ? h->size : n);
	sim_free_at(p, __builtin_return_address(0));
	return q;
}
extern "C" void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }

extern "C" void* __wrap_mmap(void*, size_t n, int prot, int, int, off_t)
{
	size_t sz = ((n + 4095) & ~4095ull) + 4096;
	if (mmap_pos + sz > MMAP_SIZE) sim_broken("simulated mmap exhausted");
	void* at = (void*)(MMAP_BASE + mmap_pos);
	mmap_pos += sz;
	void* p = (void*)syscall(SYS_mmap, at, (n + 4095) & ~4095ull, prot, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0);
	return p;
}
extern "C" int __wrap_munmap(void* p, size_t n)
{
	// keep the range unmapped for good: late access is a fault
	return (int)syscall(SYS_munmap, p, (n + 4095) & ~4095ull);
}
extern "C" void* __wrap_mremap(void* p, size_t o, size_t n, int)
{
	void* q = __wrap_mmap(NULL, n, PROT_READ|PROT_WRITE, 0, -1, 0);
	memcpy(q, p, o < n ? o : n);
	__wrap_munmap(p, o);
	return q;
}

// ------------------------------------------------------------------ tsan callbacks
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) \
void __tsan_read##n(void* p) { ACCESS(); mem_check((uintptr_t)p, n, __builtin_return_address(0)); } \
void __tsan_write##n(void* p) { ACCESS(); mem_check((uintptr_t)p, n, __builtin_return_address(0)); } \
void __tsan_unaligned_read##n(void* p) { ACCESS(); mem_check((uintptr_t)p, n, __builtin_return_address(0)); } \
void __tsan_unaligned_write##n(void* p) { ACCESS(); mem_check((uintptr_t)p, n, __builtin_return_address(0)); } \
void __tsan_read_write##n(void* p) { ACCESS(); mem_check((uintptr_t)p, n, __builtin_return_address(0)); } \
void __tsan_unaligned_read_write##n(void* p) { ACCESS(); mem_check((uintptr_t)p, n, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { ACCESS(); mem_check((uintptr_t)p, n, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { ACCESS(); mem_check((uintptr_t)p, n, __builtin_return_address(0)); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{ ACCESS(); mem_check((uintptr_t)d, n, __builtin_return_address(0)); mem_check((uintptr_t)s, n, __builtin_return_address(0)); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n)
{ ACCESS(); mem_check((uintptr_t)d, n, __builtin_return_address(0)); mem_check((uintptr_t)s, n, __builtin_return_address(0)); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n)
{ ACCESS(); mem_check((uintptr_t)d, n, __builtin_return_address(0)); return memset(d, c, n); }
}

static uintptr_t spin_addr; static int spin_count; static int spin_tid;
static inline void atomic_point(const volatile void* p, size_t n, void* pc)
{
	mem_check((uintptr_t)p, n, pc);
	sync_point("atomic");
	(void)pc;
}
static inline void spin_note(const volatile void* p, bool progress)
{
	if (!in_sim) return;
	if (progress) { spin_count = 0; return; }
	if (spin_addr == (uintptr_t)p && spin_tid == cur->id) {
		if (++spin_count >= 24) { spin_count = 0; forced_yield(); }
	} else { spin_addr = (uintptr_t)p; spin_tid = cur->id; spin_count = 0; }
}
#define ATOMICS(T, N, S) \
extern "C" T __tsan_atomic##N##_load(const volatile T* p, int) { atomic_point(p, S, __builtin_return_address(0)); T v = *p; spin_note(p, false); return v; } \
extern "C" void __tsan_atomic##N##_store(volatile T* p, T v, int) { atomic_point(p, S, __builtin_return_address(0)); *p = v; spin_note(p, true); } \
extern "C" T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { atomic_point(p, S, __builtin_return_address(0)); T o = *p; *p = v; spin_note(p, o != v); return o; } \
extern "C" T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { atomic_point(p, S, __builtin_return_address(0)); T o = *p; *p = o + v; spin_note(p, v != 0); return o; } \
extern "C" T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { atomic_point(p, S, __builtin_return_address(0)); T o = *p; *p = o - v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { atomic_point(p, S, __builtin_return_address(0)); T o = *p; *p = o & v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { atomic_point(p, S, __builtin_return_address(0)); T o = *p; *p = o | v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { atomic_point(p, S, __builtin_return_address(0)); T o = *p; *p = o ^ v; return o; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomic_point(p, S, __builtin_return_address(0)); if (*p == *e) { *p = v; spin_note(p, true); return 1; } *e = *p; spin_note(p, false); return 0; } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomic_point(p, S, __builtin_return_address(0)); if (*p == *e) { *p = v; spin_note(p, true); return 1; } *e = *p; spin_note(p, false); return 0; } \
extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomic_point(p, S, __builtin_return_address(0)); T o = *p; if (o == e) *p = v; spin_note(p, o == e); return o; }
ATOMICS(uint8_t, 8, 1)
ATOMICS(uint16_t, 16, 2)
ATOMICS(uint32_t, 32, 4)
ATOMICS(uint64_t, 64, 8)
extern "C" void __tsan_atomic_thread_fence(int) { sync_point("fence"); }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ crashes of the code under test
extern "C" void __wrap___assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
	const char* f = strrchr(file, '/');
	char c[160];
	snprintf(c, sizeof c, "assert %s:%s", f ? f + 1 : file, fn);
	sim_fail(c, "assertion failed: %s (%s:%u %s)", e, f ? f + 1 : file, line, fn);
}
extern "C" void __wrap_abort(void)
{
	sim_fail("abort", "abort() called from %p", __builtin_return_address(0));
}
static void on_signal(int sig, siginfo_t* si, void* uc)
{
	ucontext_t* u = (ucontext_t*)uc;
	if (failing) _exit(98);
	sim_fail(sig == SIGSEGV ? "signal-SIGSEGV" : sig == SIGBUS ? "signal-SIGBUS" : sig == SIGFPE ? "signal-SIGFPE" : "signal",
		"signal %d at address %p pc=0x%llx", sig, si->si_addr, (unsigned long long)u->uc_mcontext.gregs[REG_RIP]);
}

// ------------------------------------------------------------------ start
void core_child_start(SimScenario* s, int epoch)
{
	scen = s;
	cur_epoch = epoch;
	arena_init();
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGSEGV, &sa, NULL);
	sigaction(SIGBUS, &sa, NULL);
	sigaction(SIGFPE, &sa, NULL);
	sigaction(SIGILL, &sa, NULL);
	thread_altstack();

	uint64_t base = mix(sh->seed, 1000 + epoch);
	rng_sched.s = mix(base, 1);
	rng_fault.s = mix(base, 2);
	rng_pick.s  = mix(base, 3);
	for (int i = 0; i < SIM_STREAMS; i++) rng_work[i].s = mix(base, 100 + i);
	H = 1469598103934665603ull; SH = H;
	budget_left = s->budget ? s->budget : 40000000;

	// strategy of this run (all epochs)
	Rng r{mix(sh->seed, 77)};
	int k = r.below(100);
	static const uint64_t means[] = {8, 30, 100, 400, 2000, 10000, 100000};
	static const int ps[] = {5, 20, 60, 150, 300, 500};
	if (k < 60) { strat = 0; mean_access = means[r.below(7)]; p_sync = ps[r.below(6)]; }
	else if (k < 80) { strat = 2; p_sync = ps[r.below(6)]; mean_access = 1u << 30; }
	else {
		strat = 1;
		pct_n = 1 + r.below(6);
		static const uint64_t spans[] = {3000, 20000, 100000, 500000};
		uint64_t span = spans[r.below(4)];
		for (int i = 0; i < pct_n; i++) pct_points[i] = 1 + r.below(span);
		p_sync = 0; pct_low = 900;
	}
	if (sh->replay) {
		for (uint32_t i = 0; i < sh->in_count; i++) {
			Choice* c = &sh->in[i];
			if (c->epoch != epoch) continue;
			if (c->kind <= K_PICK) in_choice[ckey(c->kind, c->a, c->b)] = c->v;
			else in_events[c->a].push_back(*c);
		}
		for (auto& e : in_events)
			std::stable_sort(e.second.begin(), e.second.end(), [](const Choice& a, const Choice& b) { return a.b < b.b; });
	}
	inited = true;
	io_child_start();
	disk_load_image();
	SimThread* t = thread_new();
	cur = t;
	g_count = 0;
	in_sim = true;
	plan_next();
	s->epoch();
	in_sim = false;
	disk_clean_image();
	finish(ST_OK);
}
