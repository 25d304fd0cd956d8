// Sleeps, timers, timed waits and signals.
#include "common.h"

#define TASKS 3
#define CORO  5
#define EVENTS 4

typedef struct
{
	Event    event;
	bool     attached;
	int      signals;      // signals sent (counted before they are sent)
	int      seen;         // signals the waiter had counted at its last wake up
	bool     closed;
} Chan;

typedef struct { Task task; int id; int count; int timers; Chan chan[CORO]; int running; bool ready; } TimeTask;
typedef struct { TimeTask* task; int id; int ops; } TimeCoro;

static TimeTask* tt; static int tt_count;
static bool exact;          // time passes only while everything waits

static uint64_t wall_ms(void) { return sim_wall_ns() / 1000000; }

// ---- order of timers in one task
typedef struct { Timer timer; int id; uint64_t deadline; uint64_t seq; bool fired; bool stopped; } OrderTimer;
typedef struct { OrderTimer t[16]; int n; int fired; uint64_t last_deadline; uint64_t last_seq; uint64_t seq; Event done; bool waiting; } OrderSet;

static void
order_fire(Timer* timer)
{
	OrderTimer* t = container_of(timer, OrderTimer, timer);
	OrderSet* set = timer->function_arg;
	sim_check(! t->stopped, "timer-stopped", "timer %d fired after it was stopped", t->id);
	sim_check(! t->fired, "timer-twice", "timer %d fired twice", t->id);
	t->fired = true;
	set->fired++;
	if (exact)
	{
		sim_check(wall_ms() + 2 >= t->deadline, "timer-early", "timer %d fired %d ms before its deadline", t->id, (int)(t->deadline - wall_ms()));
		sim_check(wall_ms() <= t->deadline + 5, "timer-late", "timer %d fired %d ms after its deadline", t->id, (int)(wall_ms() - t->deadline));
	}
	bool inorder = t->deadline > set->last_deadline || (t->deadline == set->last_deadline && t->seq > set->last_seq);
	if (exact)
		sim_check(inorder, "timer-order", "timer %d (deadline %d, started %d) fired after a later one (deadline %d, started %d)", t->id,
		          (int)(t->deadline % 1000000), (int)t->seq, (int)(set->last_deadline % 1000000), (int)set->last_seq);
	set->last_deadline = t->deadline;
	set->last_seq = t->seq;
	if (set->waiting)
		event_signal(&set->done);
}

static void
order_run(int st)
{
	OrderSet* set = am_malloc(sizeof(OrderSet));
	memset(set, 0, sizeof(*set));
	event_init(&set->done);
	set->n = sim_range(st, 2, 16);
	int stopped = 0;
	int span = sim_choose(st, 2) ? 4 : 40;
	for (int i = 0; i < set->n; i++)
	{
		auto t = &set->t[i];
		t->id = i;
		int ms = sim_range(st, 1, span);
		timer_init(&t->timer, order_fire, set, ms);
		t->deadline = wall_ms() + ms;
		t->seq = ++set->seq;
		timer_start(&am_task->timer_mgr, &t->timer);
		if (sim_chance(st, 200))
		{
			int k = sim_choose(st, i + 1);
			if (! set->t[k].fired && ! set->t[k].stopped)
			{
				set->t[k].stopped = true;
				timer_stop(&set->t[k].timer);
				stopped++;
			}
		}
		if (sim_chance(st, 150))
			coroutine_sleep(sim_range(st, 0, 3));
	}
	set->waiting = true;
	while (set->fired + stopped < set->n)
		event_wait(&set->done, -1);
	for (int i = 0; i < set->n; i++)
		sim_check(set->t[i].fired != set->t[i].stopped, "timer-lost", "timer %d fired %d stopped %d", i, set->t[i].fired, set->t[i].stopped);
	am_free(set);
}

static void
chan_wait(TimeCoro* self, int st)
{
	auto chan = &self->task->chan[self->id];
	int  mode = sim_choose(st, 3);
	int  n    = mode == 0 ? sim_range(st, 1, 12) : mode == 1 ? 100000 : -1;
	uint64_t from = wall_ms();
	uint64_t from_ns = sim_now();
	bool timedout = event_wait(&chan->event, n);
	uint64_t to = wall_ms();
	int signals = __atomic_load_n(&chan->signals, __ATOMIC_SEQ_CST);
	sim_state(scn_hash(mode, timedout));
	if (timedout)
	{
		sim_check(n > 0, "wait-timeout", "a wait without a deadline timed out");
		sim_probe("wait timed out");
		if (exact)
			sim_check(to + 2 >= from + n, "wait-early", "a wait for %d ms timed out after %d ms", n, (int)(to - from));
	} else
	{
		// every wake up is paid by a signal
		chan->seen++;
		sim_check(signals >= chan->seen, "wait-spurious", "%d waits returned as signalled, but only %d signals were sent", chan->seen, signals);
	}
	if (exact && n > 0)
		sim_check(to <= from + n + 5, "wait-late", "a wait for %d ms took %d ms", n, (int)(to - from));
	(void)from_ns;
}

static void
time_coro(void* arg)
{
	TimeCoro* self = arg;
	int st = 10 + self->task->id * CORO + self->id;
	auto chan = &self->task->chan[self->id];
	event_init(&chan->event);
	event_attach(&chan->event);
	__atomic_store_n(&chan->attached, true, __ATOMIC_SEQ_CST);
	for (int i = 0; i < self->ops; i++)
	{
		switch (sim_choose(st, 6)) {
		case 0:
		{
			int n = sim_chance(st, 100) ? sim_range(st, 100, 5000) : sim_range(st, 1, 20);
			uint64_t from = wall_ms();
			coroutine_sleep(n);
			uint64_t to = wall_ms();
			if (exact)
			{
				sim_check(to + 2 >= from + n, "sleep-early", "a sleep of %d ms ended after %d ms", n, (int)(to - from));
				sim_check(to <= from + n + 5, "sleep-late", "a sleep of %d ms ended after %d ms", n, (int)(to - from));
			}
			break;
		}
		case 1:
			coroutine_yield();
			break;
		case 2:
		{
			// signal another coroutine, of this or of another task
			auto dest = &tt[sim_choose(st, tt_count)];
			auto c = &dest->chan[sim_choose(st, dest->count)];
			if (! __atomic_load_n(&c->attached, __ATOMIC_SEQ_CST) || c == chan)
				break;
			__atomic_fetch_add(&c->signals, 1, __ATOMIC_SEQ_CST);
			event_signal(&c->event);
			break;
		}
		case 3:
			chan_wait(self, st);
			break;
		case 4:
			if (exact)
			{
				uint64_t a = time_ms();
				sim_check(a + 2 >= wall_ms() && a <= wall_ms() + 2, "time-stale", "the time of the task is %d ms away from the clock", (int)(wall_ms() - a));
			}
			break;
		case 5:
			if (sim_chance(st, 300))
				order_run(st);
			break;
		}
	}
	self->task->running--;
}

// every signal wakes its waiter: closes the channels one by one
static void
time_main_task(void* arg)
{
	TimeTask* self = arg;
	TimeCoro c[CORO]; uint64_t id[CORO];
	self->running = self->count;
	for (int i = 0; i < self->count; i++)
	{
		c[i] = (TimeCoro){ self, i, sim_range(1 + self->id, 1, 8) };
		id[i] = coroutine_create(time_coro, &c[i]);
	}
	// poke the waiters without a deadline until all are done
	while (self->running > 0)
	{
		coroutine_sleep(7);
		for (int i = 0; i < self->count; i++)
		{
			auto chan = &self->chan[i];
			if (! chan->attached)
				continue;
			__atomic_fetch_add(&chan->signals, 1, __ATOMIC_SEQ_CST);
			event_signal(&chan->event);
		}
	}
	for (int i = 0; i < self->count; i++)
		coroutine_wait(id[i]);
}

static void
time_main(void* arg)
{
	unused(arg);
	tt_count = sim_range(0, 1, TASKS);
	tt = am_malloc(sizeof(TimeTask) * tt_count);
	memset(tt, 0, sizeof(TimeTask) * tt_count);
	for (int i = 0; i < tt_count; i++)
	{
		tt[i].id = i;
		tt[i].count = sim_range(0, 1, CORO);
		task_init(&tt[i].task);
	}
	for (int i = 0; i < tt_count; i++)
		scn_task(&tt[i].task, "time", time_main_task, &tt[i]);
	if (! exact)
	{
		int n = sim_choose(0, 4);
		for (int i = 0; i < n; i++)
		{
			coroutine_sleep(sim_range(0, 1, 15));
			static int64_t jumps[] = {1000000, 50000000, 3600000000000ll, -5000000, -3000000000ll};
			sim_clock_jump(jumps[sim_choose(0, 5)]);
		}
	}
	for (int i = 0; i < tt_count; i++)
		task_wait(&tt[i].task);
	for (int i = 0; i < tt_count; i++)
		task_free(&tt[i].task);
	am_free(tt);
}

static void
time_epoch(void)
{
	exact = sim_choose(62, 3) != 2;
	sim_fault_rate(SIM_F_EPOLL_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	if (! exact)
	{
		sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 20 : 0);
		sim_fault_rate(SIM_F_TIMEJUMP, sim_choose(62, 2) ? 20 : 0);
	}
	sim_faults(true);
	scn_run(time_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

// ---- signals are not lost: a counter handed over with signals only
typedef struct { Task task; Event event; int target; int value; int got; int timeouts; bool ready; int timeout; bool early; } Hand;
typedef struct { Task task; int id; int n; } HandSender;
static Hand* hand; static HandSender* hs; static int hs_count;

static void
hand_main(void* arg)
{
	Hand* self = arg;
	event_init(&self->event);
	event_attach(&self->event);
	__atomic_store_n(&self->ready, true, __ATOMIC_SEQ_CST);
	// other coroutines keep this task busy
	while (__atomic_load_n(&self->value, __ATOMIC_SEQ_CST) < self->target)
	{
		int n = -1;
		if (self->timeout && sim_choose(8, 2))
			n = 60000;
		uint64_t from = sim_now();
		int before = __atomic_load_n(&self->value, __ATOMIC_SEQ_CST);
		bool timedout = event_wait(&self->event, n);
		int after = __atomic_load_n(&self->value, __ATOMIC_SEQ_CST);
		// the senders never pause that long: a timeout means a lost wake up
		sim_check(! timedout || after == before || sim_now() - from < 60000000000ull, "signal-lost", "value went from %d to %d but the waiter slept to its deadline", before, after);
	}
}

static void
hand_sender(void* arg)
{
	HandSender* self = arg;
	while (! __atomic_load_n(&hand->ready, __ATOMIC_SEQ_CST))
		coroutine_sleep(1);
	for (int i = 0; i < self->n; i++)
	{
		__atomic_fetch_add(&hand->value, 1, __ATOMIC_SEQ_CST);
		event_signal(&hand->event);
		if (sim_chance(10 + self->id, 200))
			coroutine_sleep(sim_range(10 + self->id, 1, 3));
	}
}

static void
hand_main_run(void* arg)
{
	unused(arg);
	hand = am_malloc(sizeof(Hand));
	memset(hand, 0, sizeof(Hand));
	hs_count = sim_range(0, 1, 3);
	hs = am_malloc(sizeof(HandSender) * hs_count);
	hand->timeout = sim_choose(0, 2);
	for (int i = 0; i < hs_count; i++)
	{
		hs[i].id = i;
		hs[i].n = sim_range(0, 1, 12);
		hand->target += hs[i].n;
		task_init(&hs[i].task);
	}
	task_init(&hand->task);
	scn_task(&hand->task, "hand", hand_main, hand);
	for (int i = 0; i < hs_count; i++)
		scn_task(&hs[i].task, "snd", hand_sender, &hs[i]);
	for (int i = 0; i < hs_count; i++)
		task_wait(&hs[i].task);
	task_wait(&hand->task);
	for (int i = 0; i < hs_count; i++)
		task_free(&hs[i].task);
	task_free(&hand->task);
	am_free(hs);
	am_free(hand);
}

static void
hand_epoch(void)
{
	sim_fault_rate(SIM_F_EPOLL_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 20 : 0);
	sim_faults(true);
	scn_run(hand_main_run, NULL, 0);
}

// ---- signals inside of one task: a wait that timed out has not swallowed a signal
typedef struct { Event event; int n; int sent; int taken; bool done; } Local1;
static Local1* lo;
static int lo_count;

static void
local_waiter(void* arg)
{
	Local1* self = arg;
	int st = 10 + (self - lo);
	while (self->taken < self->n)
	{
		int before = self->sent;
		int ms = sim_choose(st, 4) ? sim_range(st, 1, 4) : -1;
		bool timedout = event_wait(&self->event, ms);
		if (timedout)
		{
			sim_probe("local wait timed out");
			sim_check(self->sent == before && self->taken == self->sent, "signal-lost", "a signal was sent while a wait for %d ms went on, but the wait reports a timeout", ms);
		} else
		{
			sim_check(self->sent > self->taken, "wait-spurious", "a wait returned as signalled without a signal");
			self->taken = self->sent;
		}
	}
	self->done = true;
}

static void
local_sender(void* arg)
{
	int st = 30 + (intptr_t)arg;
	int done = 0;
	while (! done)
	{
		if (sim_choose(st, 3))
			coroutine_sleep(sim_range(st, 1, 4));
		else
			coroutine_yield();
		auto self = &lo[sim_choose(st, lo_count)];
		if (self->sent < self->n)
		{
			self->sent++;
			event_signal(&self->event);
		}
		done = 1;
		for (int i = 0; i < lo_count; i++)
			done &= lo[i].sent == lo[i].n;
	}
}

static void
local_main(void* arg)
{
	unused(arg);
	uint64_t id[8]; int n = 0;
	lo_count = sim_range(0, 1, 3);
	lo = am_malloc(sizeof(Local1) * lo_count);
	memset(lo, 0, sizeof(Local1) * lo_count);
	int senders = sim_range(0, 1, 2);
	for (int i = 0; i < lo_count; i++)
	{
		lo[i].n = sim_range(0, 1, 6);
		event_init(&lo[i].event);
		id[n++] = coroutine_create(local_waiter, &lo[i]);
		if (senders > i)
			id[n++] = coroutine_create(local_sender, (void*)(intptr_t)i);
	}
	for (int i = senders > lo_count ? lo_count : senders; i < senders; i++)
		id[n++] = coroutine_create(local_sender, (void*)(intptr_t)i);
	for (int i = 0; i < n; i++)
		coroutine_wait(id[i]);
	am_free(lo);
}

static void
local_epoch(void)
{
	sim_fault_rate(SIM_F_EPOLL_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_faults(true);
	scn_run(local_main, NULL, 0);
}

SimScenario sim_scenarios[] =
{
	{ "C03", "timers", time_epoch, 1, 30000000, 3, 0 },
	{ "C03", "local", local_epoch, 1, 30000000, 1, 0 },
	{ "C03", "signals", hand_epoch, 1, 30000000, 1, 0 },
	{ 0 }
};
const char* sim_real_parts = "task main loop, timer manager, events, timed waits, coroutines, bus, poller, notify (repository code, instrumented)";
const char* sim_stub_parts = "clock, epoll, eventfd, pthreads scheduling, malloc (simulated)";
const char* sim_rule = "Workload: tasks, coroutines, sleeps, timed and untimed waits, signals from other threads, timers started and stopped, wall clock jumps (in a third of the runs).";
