// Lock manager: exclusion, order, progress, cancellation.
#include "common.h"

#define RELS  3
#define TASKS 3
#define CORO  5
#define SPAWN 10

typedef struct LockTask LockTask;
typedef struct
{
	LockTask* task;
	int       slot;      // unique
	uint64_t  id;
	bool      done;
	bool      cancelled; // was told to stop
	int       ops;
	bool      twice;     // starts with several modes of one relation
} LockCoro;

struct LockTask { Task task; int id; LockCoro coro[SPAWN]; int count; int kills; bool twice; };

// requests in progress
typedef struct { bool active; bool queued; int rel; LockId mode; int task; int slot; uint64_t seq; } Request;

static LockTask* lt; static int lt_count;
static int double_family;
static int doubles;      // coroutines that have not taken their two modes yet
static Relation  rels[RELS]; static int rel_count;
static Str       rel_names[RELS];
static int       held[RELS][LOCK_MAX];
static Request   req[TASKS * SPAWN];
static uint64_t  req_seq;
static int       granted;
static LockId    modes[] = { LOCK_SHARED, LOCK_SHARED_RW, LOCK_EXCLUSIVE_RO, LOCK_EXCLUSIVE, LOCK_CALL };

static bool
compatible(LockId a, LockId b)
{
	if (a == LOCK_EXCLUSIVE || b == LOCK_EXCLUSIVE)
		return false;
	if (a == LOCK_EXCLUSIVE_RO && b == LOCK_SHARED_RW) return false;
	if (b == LOCK_EXCLUSIVE_RO && a == LOCK_SHARED_RW) return false;
	return true;
}

static void
mark_queued(LockCoro* self)
{
	// another coroutine of this task runs: requests of its siblings that
	// have not returned are in the queue, or granted
	for (int i = 0; i < TASKS * SPAWN; i++)
		if (req[i].active && req[i].task == self->task->id && req[i].slot != self->slot)
			req[i].queued = true;
}

static void
take(LockCoro* self, Access* access, int rel, LockId mode, Lock** ref)
{
	auto r = &req[self->slot];
	// earlier requests that must be served before this one
	int  before[TASKS * SPAWN]; uint64_t before_seq[TASKS * SPAWN]; int n = 0;
	mark_queued(self);
	for (int i = 0; i < TASKS * SPAWN; i++)
		if (req[i].active && req[i].queued && req[i].rel == rel && ! compatible(req[i].mode, mode) && i != self->slot)
		{
			before[n] = i;
			before_seq[n++] = req[i].seq;
		}
	r->queued = false;
	r->rel  = rel;
	r->mode = mode;
	r->task = self->task->id;
	r->slot = self->slot;
	r->seq  = __atomic_add_fetch(&req_seq, 1, __ATOMIC_SEQ_CST);
	__atomic_store_n(&r->active, true, __ATOMIC_SEQ_CST);
	uint64_t seq = r->seq;
	sim_log("c%d wants %s on %d", self->slot, lock_id_cstr(mode), rel);
	Lock* lock = NULL;
	int on_error;
	if (access)
		on_error = error_catch ( lock_access(access) );
	else
		on_error = error_catch ( lock = lock(&rels[rel], mode) );
	__atomic_store_n(&r->active, false, __ATOMIC_SEQ_CST);
	sim_check(seq == r->seq, "harness", "request slot reused");
	if (on_error)
	{
		sim_check(self->cancelled && am_self()->error.code == CANCEL, "lock-error", "c%d: a lock request failed", self->slot);
		sim_probe("cancelled while waiting for a lock");
		sim_log("c%d gave up", self->slot);
		rethrow();
	}

	sim_log("c%d got %s on %d", self->slot, lock_id_cstr(mode), rel);
	for (int i = 1; i < LOCK_MAX; i++)
		sim_check(! held[rel][i] || compatible(i, mode), "lock-conflict", "c%d holds %s on relation %d while another coroutine holds %s",
		          self->slot, lock_id_cstr(mode), rel, lock_id_cstr(i));
	__atomic_fetch_add(&held[rel][mode], 1, __ATOMIC_SEQ_CST);
	for (int i = 0; i < n; i++)
	{
		auto b = &req[before[i]];
		bool gone = lt[before[i] / SPAWN].coro[before[i] % SPAWN].cancelled;
		sim_check(! (b->active && b->seq == before_seq[i]) || gone, "lock-order", "c%d got %s on relation %d before the earlier request of c%d for %s",
		          self->slot, lock_id_cstr(mode), rel, b->slot, lock_id_cstr(b->mode));
	}
	uint64_t h = rel;
	for (int i = 1; i < LOCK_MAX; i++)
		h = scn_hash(h, held[rel][i]);
	sim_state(h);
	if (ref)
		*ref = lock;
}

static void
pause_some(LockCoro* self, int st)
{
	switch (sim_choose(st, 4)) {
	case 0: break;
	case 1: coroutine_yield(); break;
	case 2: coroutine_yield(); coroutine_yield(); break;
	case 3: coroutine_sleep(sim_range(st, 1, 3)); break;
	}
	mark_queued(self);
}

typedef struct { LockCoro* coro; Lock* lock[RELS * 3]; int rel[RELS * 3]; LockId mode[RELS * 3]; int n; bool all; } Hold;

static void
hold_release(Hold* hold)
{
	for (int i = 0; i < hold->n; i++)
	{
		__atomic_fetch_sub(&held[hold->rel[i]][hold->mode[i]], 1, __ATOMIC_SEQ_CST);
		sim_log("c%d releases %d", hold->coro->slot, hold->rel[i]);
	}
	unlock_all();
	hold->n = 0;
}

// give back the locks one by one
static void
hold_unlock(Hold* hold, int st)
{
	while (hold->n)
	{
		int i = sim_choose(st, hold->n);
		__atomic_fetch_sub(&held[hold->rel[i]][hold->mode[i]], 1, __ATOMIC_SEQ_CST);
		sim_log("c%d unlocks %d", hold->coro->slot, hold->rel[i]);
		auto l = hold->lock[i];
		hold->n--;
		hold->lock[i] = hold->lock[hold->n];
		hold->rel[i]  = hold->rel[hold->n];
		hold->mode[i] = hold->mode[hold->n];
		unlock(l);
		if (sim_choose(st, 2))
			pause_some(hold->coro, st);
	}
}

static void
lock_tx(LockCoro* self, int st)
{
	Hold hold = { .coro = self };
	defer(hold_release, &hold);
	int from = sim_choose(st, rel_count);
	bool single = sim_chance(st, 300);
	bool byone  = sim_chance(st, 400);
	for (int r = from; r < rel_count; r++)
	{
		if (r > from && (single || sim_chance(st, 400)))
			continue;
		LockId mode = modes[sim_choose(st, 5)];
		Lock* ref = NULL;
		if (!byone && sim_chance(st, 300))
		{
			Access access;
			access_init(&access);
			access_add(&access, &rels[r], mode);
			access_sort(&access);
			int on_error = error_catch ( take(self, &access, r, mode, NULL) );
			access_free(&access);
			if (on_error)
				rethrow();
		} else
			take(self, NULL, r, mode, &ref);
		hold.lock[hold.n] = ref;
		hold.rel[hold.n] = r;
		hold.mode[hold.n++] = mode;
		if (sim_chance(st, 200))
		{
			// reentrant
			auto again = lock(&rels[r], mode);
			pause_some(self, st);
			unlock(again);
		}
		pause_some(self, st);
	}
	if (byone)
		hold_unlock(&hold, st);
}

// several modes of one relation, taken while nobody waits for it
static void
lock_double(LockCoro* self, int st)
{
	Hold hold = { .coro = self };
	defer(hold_release, &hold);
	static LockId family[2][3] =
	{
		{ LOCK_SHARED, LOCK_SHARED_RW, LOCK_CALL }, { LOCK_SHARED, LOCK_EXCLUSIVE_RO, LOCK_CALL }
	};
	int r = sim_choose(st, rel_count);
	int from = sim_choose(st, 3);
	int n = sim_range(st, 2, 3);
	auto on_error = error_catch
	(
		for (int i = 0; i < n; i++)
		{
			auto mode = family[double_family][(from + i * (1 + self->slot % 2)) % 3];
			take(self, NULL, r, mode, &hold.lock[hold.n]);
			hold.rel[hold.n] = r;
			hold.mode[hold.n++] = mode;
		}
	);
	__atomic_fetch_sub(&doubles, 1, __ATOMIC_SEQ_CST);
	if (on_error)
		rethrow();
	while (__atomic_load_n(&doubles, __ATOMIC_SEQ_CST) > 0)
		coroutine_sleep(1);
	sim_probe("several modes of one relation");
	pause_some(self, st);
	pause_some(self, st);
	if (sim_choose(st, 2))
		hold_unlock(&hold, st);
}

static void
lock_coro(void* arg)
{
	LockCoro* self = arg;
	int st = 1 + self->slot;
	int on_error = error_catch (
		if (self->twice)
			lock_double(self, st);
		for (int i = 0; i < self->ops; i++)
		{
			lock_tx(self, st);
			pause_some(self, st);
		}
	);
	if (on_error)
		sim_check(self->cancelled, "lock-error", "c%d failed", self->slot);
	self->done = true;
}

static void
lock_task_main(void* arg)
{
	LockTask* self = arg;
	int st = 40 + self->id;
	if (self->twice)
	{
		auto c = &self->coro[self->count];
		c->task = self;
		c->slot = self->id * SPAWN + self->count;
		c->ops = sim_choose(st, 3);
		c->twice = true;
		c->id = coroutine_create(lock_coro, c);
		self->count++;
	}
	while (__atomic_load_n(&doubles, __ATOMIC_SEQ_CST) > 0)
		coroutine_sleep(1);
	int n = sim_range(st, 1, CORO);
	for (int i = 0; i < n; i++)
	{
		auto c = &self->coro[self->count];
		c->task = self;
		c->slot = self->id * SPAWN + self->count;
		c->ops = sim_range(st, 1, 5);
		c->id = coroutine_create(lock_coro, c);
		self->count++;
	}
	for (int k = 0; k < self->kills; k++)
	{
		if (sim_choose(st, 2))
			coroutine_yield();
		else
			coroutine_sleep(sim_range(st, 1, 3));
		auto c = &self->coro[sim_choose(st, self->count)];
		if (c->done)
			continue;
		c->cancelled = true;
		sim_fault_count(SIM_F_CANCEL);
		sim_log("kill c%d", c->slot);
		if (sim_choose(st, 2))
			coroutine_kill_nowait(c->id);
		else
			coroutine_kill(c->id);
		if (self->count < SPAWN)
		{
			auto c = &self->coro[self->count];
			c->task = self;
			c->slot = self->id * SPAWN + self->count;
			c->ops = sim_range(st, 1, 3);
			c->id = coroutine_create(lock_coro, c);
			self->count++;
		}
	}
	for (int i = 0; i < self->count; i++)
		coroutine_wait(self->coro[i].id);
}

static void
lock_main(void* arg)
{
	unused(arg);
	rel_count = sim_range(0, 1, RELS);
	lt_count = sim_range(0, 1, TASKS);
	memset(held, 0, sizeof(held));
	memset(req, 0, sizeof(req));
	req_seq = 0;
	granted = 0;
	doubles = 0;
	double_family = sim_choose(0, 2);
	static const char* names[] = { "r0", "r1", "r2" };
	for (int i = 0; i < RELS; i++)
	{
		relation_init(&rels[i]);
		str_set_cstr(&rel_names[i], names[i]);
		relation_set_name(&rels[i], &rel_names[i]);
		relation_set_rsn(&rels[i], i);
	}
	bool kills = sim_choose(0, 2);
	lt = am_malloc(sizeof(LockTask) * lt_count);
	memset(lt, 0, sizeof(LockTask) * lt_count);
	for (int i = 0; i < lt_count; i++)
	{
		lt[i].id = i;
		lt[i].kills = kills ? sim_choose(0, 6) : 0;
		lt[i].twice = sim_chance(0, 300);
		doubles += lt[i].twice;
		task_init(&lt[i].task);
	}
	for (int i = 0; i < lt_count; i++)
		scn_task(&lt[i].task, "lock", lock_task_main, &lt[i]);
	for (int i = 0; i < lt_count; i++)
		task_wait(&lt[i].task);
	// nothing is left behind: the relations can be locked exclusively
	for (int i = 0; i < RELS; i++)
	{
		sim_check(lock_mgr_count(&runtime()->lock_mgr, &rel_names[i]) == 0, "lock-leak", "%d locks of relation %d are left",
		          lock_mgr_count(&runtime()->lock_mgr, &rel_names[i]), i);
		auto l = lock(&rels[i], LOCK_EXCLUSIVE);
		unlock(l);
	}
	Buf* buf = buf_create();
	lock_mgr_list(&runtime()->lock_mgr, buf);
	buf_free(buf);
}

static void
lock_epoch(void)
{
	sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 20 : 0);
	sim_fault_rate(SIM_F_EPOLL_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_faults(true);
	scn_run(lock_main, NULL, 0);
	for (int i = 0; i < lt_count; i++)
		task_free(&lt[i].task);
	am_free(lt);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

SimScenario sim_scenarios[] =
{
	{ "C07", "locks", lock_epoch, 1, 30000000, 1, 0 },
	{ 0 }
};
const char* sim_real_parts = "lock manager, relations, access lists, tasks, coroutines, events, bus (repository code, instrumented)";
const char* sim_stub_parts = "pthreads scheduling, epoll, eventfd, clock, malloc (simulated)";
const char* sim_rule = "Workload: 1-3 tasks with up to 10 coroutines lock up to 3 relations in order, in all modes, re-entrantly and through access lists, hold them over waits, and are cancelled while they wait or hold.";
