// Coroutines: cancellation and clean up. Buffers. Background jobs.
#include "common.h"

// ------------------------------------------------------------------ C04
#define SLOTS 24
#define DEPTH 24

typedef struct Job04 Job04;
typedef struct { Job04* job; int id; int mode; } Res;

struct Job04
{
	int      slot;
	uint64_t id;
	bool     created;
	bool     started;
	bool     done;
	bool     killed;       // cancellation was requested while it was not paused
	int      pending;      // requested while paused
	int      paused;
	bool     waited;       // somebody waits for its end
	bool     last;         // main coroutine is ending
	int      stack[DEPTH]; // clean up actions registered and not executed
	int      top;
	int      cleaning;
	int      actions;      // registered
	int      executed;
	int      level;
};

typedef struct
{
	Task  task;
	int   id;
	Job04 job[SLOTS];
	int   count;
	int   limit;
	bool  throwing;    // clean up actions can fail
	bool  leave;       // the main coroutine ends while others run
	int   done;
} CoroTask;

static CoroTask* ct; static int ct_count;
static void job04_main(void*);

static inline CoroTask* ct_self(void) { return container_of(am_task, CoroTask, task); }
static inline int job04_stream(Job04* self, CoroTask* t) { return 1 + t->id * 16 + self->slot % 16; }

// a coroutine that was cancelled before its start never runs
static bool job04_ended(Job04* self) { return self->done || (! self->started && self->killed); }

static void
kill_mark(Job04* dest)
{
	if (dest->done)
		return;
	if (dest->paused)
		dest->pending++;
	else
		dest->killed = true;
	sim_fault_count(SIM_F_CANCEL);
}

static void
pause_begin(Job04* self) { self->paused++; cancel_pause(); }

static bool
pause_left(Job04* self)
{
	self->paused--;
	if (self->paused || ! self->pending)
		return false;
	self->pending = 0;
	self->killed  = true;
	return true;
}

static void
pause_end(Job04* self)
{
	bool pending = pause_left(self);
	cancel_resume();
	sim_check(! pending, "cancel-lost", "coroutine %d continued after resume although it was cancelled meanwhile", self->slot);
}

static void
cancelled_check(Job04* self, const char* at)
{
	// a cancelled coroutine does not continue past a waiting point
	if (! self->paused && ! self->cleaning)
		sim_check(! self->killed, "cancel-lost", "coroutine %d continued after %s although it is cancelled", self->slot, at);
}

static void
paused_waits(Job04* self, int st)
{
	pause_begin(self);
	int n = sim_range(st, 1, 3);
	bool nested = sim_chance(st, 200);
	if (nested)
		pause_begin(self);
	auto on_error = error_catch
	(
		for (int i = 0; i < n; i++)
		{
			if (sim_choose(st, 2))
				coroutine_yield();
			else
				coroutine_sleep(sim_range(st, 1, 3));
		}
	);
	sim_check(! on_error, "cancel-paused", "coroutine %d was interrupted while its cancellation is paused", self->slot);
	if (nested)
	{
		auto thrown = error_catch ( pause_end(self) );
		sim_check(! thrown, "cancel-paused", "coroutine %d was interrupted by an inner resume", self->slot);
	}
	pause_end(self);
}

static void
res_release(Res* res)
{
	auto self = res->job;
	int st = job04_stream(self, ct_self());
	sim_check(self->top > 0 && self->stack[self->top - 1] == res->id, "cleanup-order",
	          "coroutine %d: clean up action %d executed, expected %d (%d registered)", self->slot, res->id,
	          self->top > 0 ? self->stack[self->top - 1] : -1, self->top);
	self->top--;
	self->executed++;
	if (res->mode == 0)
		return;
	self->cleaning++;
	if (res->mode == 1)
	{
		// clean up that waits
		auto on_error = error_catch ( paused_waits(self, st) );
		if (on_error)
			sim_probe("cancelled again while cleaning up");
		self->cleaning--;
		if (on_error && ct_self()->throwing)
		{
			sim_probe("clean up interrupted");
			rethrow();
		}
		return;
	}
	self->cleaning--;
	if (ct_self()->throwing)
	{
		sim_probe("clean up action failed");
		error("clean up %d failed", res->id);
	}
}

static int
res_mode(int st, CoroTask* t)
{
	if (sim_chance(st, 200)) return 1;
	if (t->throwing && sim_chance(st, 150)) return 2;
	return 0;
}

static void level_run(Job04* self, int depth);

static void
level_do(Job04* self, int depth)
{
	auto t = ct_self();
	int st = job04_stream(self, t);
	Res res;
	bool has = self->top < DEPTH - 2;
	if (has)
	{
		res.job  = self;
		res.id   = self->actions++;
		res.mode = res_mode(st, t);
		self->stack[self->top++] = res.id;
	}
	Res res2;
	bool has2 = has && sim_chance(st, 300);
	if (! has)
		return;
	defer(res_release, &res);
	int n = sim_choose(st, 4);
	if (has2)
	{
		res2.job  = self;
		res2.id   = self->actions++;
		res2.mode = res_mode(st, t);
		self->stack[self->top++] = res2.id;
		defer(res_release, &res2);
		level_run(self, depth + 1);
		return;
	}
	uint32_t* mem = NULL; int words = 0; uint32_t tag = self->slot * 1000 + res.id;
	if (sim_chance(st, 400))
	{
		words = sim_range(st, 1, 700);
		mem = palloc(words * 4);
		for (int i = 0; i < words; i++)
			memcpy(&mem[i], &tag, 4);
	}
	for (int i = 0; i < n; i++)
	{
		switch (sim_choose(st, 8)) {
		case 0:
			coroutine_yield();
			cancelled_check(self, "yield");
			break;
		case 1:
			coroutine_sleep(sim_range(st, 1, 6));
			cancelled_check(self, "sleep");
			break;
		case 2:
			paused_waits(self, st);
			break;
		case 3:
			if (depth < 4)
				level_run(self, depth + 1);
			break;
		case 4:
			if (t->count < t->limit)
			{
				auto c = &t->job[t->count];
				c->slot = t->count++;
				c->created = true;
				c->id = coroutine_create(job04_main, c);
			}
			break;
		case 5:
		{
			// wait for a later one
			int k = self->slot + 1 + sim_choose(st, 3);
			auto c = &t->job[k < SLOTS ? k : SLOTS - 1];
			if (k >= t->count || c->waited || ! c->created)
				break;
			c->waited = true;
			self->paused++;
			auto on_error = error_catch ( coroutine_wait(c->id) );
			bool pending = pause_left(self);
			sim_check(job04_ended(c), "wait-early", "coroutine %d waited for %d, but it is not finished", self->slot, c->slot);
			if (on_error)
				rethrow();
			sim_check(! pending, "cancel-lost", "coroutine %d continued after a wait although it was cancelled meanwhile", self->slot);
			break;
		}
		case 6:
		{
			int k = sim_choose(st, t->count);
			auto c = &t->job[k];
			if (k == self->slot || ! c->created)
				break;
			if (k > self->slot && ! c->waited && sim_choose(st, 2))
			{
				c->waited = true;
				kill_mark(c);
				self->paused++;
				auto on_error = error_catch ( coroutine_kill(c->id) );
				bool pending = pause_left(self);
				sim_check(job04_ended(c), "kill-early", "coroutine %d was killed by %d, but it is not finished", c->slot, self->slot);
				if (on_error)
					rethrow();
				sim_check(! pending, "cancel-lost", "coroutine %d continued after a kill although it was cancelled meanwhile", self->slot);
			} else
			{
				kill_mark(c);
				coroutine_kill_nowait(c->id);
			}
			break;
		}
		case 7:
			if (sim_chance(st, 300))
				error("error of %d at %d", self->slot, depth);
			break;
		}
	}
	for (int i = 0; i < words; i++)
		sim_check(! memcmp(&mem[i], &tag, 4), "arena-overlap", "memory of coroutine %d was overwritten", self->slot);
}

static void
level_run(Job04* self, int depth)
{
	int st = job04_stream(self, ct_self());
	if (! sim_chance(st, 500))
	{
		level_do(self, depth);
		return;
	}
	int top = self->top;
	auto on_error = error_catch ( level_do(self, depth) );
	sim_check(self->top == top, "cleanup-missed", "coroutine %d: %d clean up actions are left behind by a caught error", self->slot, self->top - top);
	if (! on_error)
		return;
	auto error = &am_self()->error;
	if (error->code == CANCEL)
	{
		sim_check(self->killed, "cancel-spurious", "coroutine %d received a cancellation nobody asked for", self->slot);
		rethrow();
	}
	if (self->killed || ct_self()->throwing)
		return;
	char expect[32];
	snprintf(expect, sizeof(expect), "error of %d at ", self->slot);
	sim_check(buf_size(&error->text) > (int)strlen(expect) && ! memcmp(buf_cstr(&error->text), expect, strlen(expect)), "error-text",
	          "coroutine %d caught '%.*s'", self->slot, buf_size(&error->text), buf_cstr(&error->text));
}

static void
job04_exit(Job04* self)
{
	self->done = true;
	ct_self()->done++;
}

static void
job04_body(Job04* self)
{
	int st = job04_stream(self, ct_self());
	int n = sim_range(st, 1, 3);
	for (int i = 0; i < n; i++)
		level_run(self, 0);
}

static void
job04_main(void* arg)
{
	Job04* self = arg;
	self->started = true;
	auto on_error = error_catch ( job04_body(self) );
	sim_check(self->top == 0, "cleanup-missed", "coroutine %d ends with %d clean up actions left", self->slot, self->top);
	sim_check(self->executed == self->actions, "cleanup-count", "coroutine %d executed %d of %d clean up actions", self->slot, self->executed, self->actions);
	if (on_error && am_self()->error.code == CANCEL)
		sim_check(self->killed, "cancel-spurious", "coroutine %d ends with a cancellation nobody asked for", self->slot);
	sim_state(scn_hash(self->killed * 2 + !!on_error, am_self()->error.code));
	int st = job04_stream(self, ct_self());
	if (sim_chance(st, 150))
	{
		// ends inside of a section: the next user of the coroutine starts without it
		pause_begin(self);
		if (sim_choose(st, 2))
			coroutine_yield();
		sim_probe("ended inside of a section");
	}
	job04_exit(self);
}

static void
ct_main(void* arg)
{
	CoroTask* self = arg;
	int n = sim_range(0, 1, 5);
	for (int i = 0; i < n; i++)
	{
		auto c = &self->job[self->count];
		c->slot = self->count++;
		c->created = true;
		c->id = coroutine_create(job04_main, c);
	}
	if (self->leave)
	{
		// the task ends: everything that still runs is cancelled
		int k = sim_choose(0, 4);
		for (int i = 0; i < k; i++)
			coroutine_yield();
		for (int i = 0; i < SLOTS; i++)
		{
			auto c = &self->job[i];
			if (c->created && ! c->done)
			{
				if (c->paused) c->pending++;
				else c->killed = true;
			}
		}
		self->limit = 0;  // no new ones
		return;
	}
	for (int i = 0; i < self->count; i++)
	{
		auto c = &self->job[i];
		if (c->waited || job04_ended(c))
			continue;
		c->waited = true;
		if (sim_chance(0, 300))
		{
			kill_mark(c);
			coroutine_kill(c->id);
		} else
			coroutine_wait(c->id);
		sim_check(job04_ended(c), "wait-early", "main waited for %d, but it is not finished", c->slot);
	}
	// somebody else may still wait for the rest
	for (int guard = 0; guard < 10000; guard++)
	{
		int left = 0;
		for (int i = 0; i < self->count; i++)
			left += ! job04_ended(&self->job[i]);
		if (! left)
			break;
		coroutine_sleep(5);
	}
}

static void
coro_main(void* arg)
{
	unused(arg);
	ct_count = sim_range(0, 1, 2);
	ct = am_malloc(sizeof(CoroTask) * ct_count);
	memset(ct, 0, sizeof(CoroTask) * ct_count);
	for (int i = 0; i < ct_count; i++)
	{
		ct[i].id = i;
		ct[i].limit = sim_range(0, 5, SLOTS);
		ct[i].throwing = sim_chance(0, 300);
		ct[i].leave = sim_chance(0, 300);
		task_init(&ct[i].task);
	}
	for (int i = 0; i < ct_count; i++)
		scn_task(&ct[i].task, "coro", ct_main, &ct[i]);
	for (int i = 0; i < ct_count; i++)
		task_wait(&ct[i].task);
	for (int i = 0; i < ct_count; i++)
	{
		for (int k = 0; k < ct[i].count; k++)
		{
			auto c = &ct[i].job[k];
			if (! c->started)
			{
				// cancelled before it began
				sim_check(c->killed || c->pending, "coroutine-lost", "coroutine %d never ran", k);
				continue;
			}
			sim_check(c->done, "coroutine-lost", "task ended but coroutine %d is not finished", k);
		}
		task_free(&ct[i].task);
	}
	am_free(ct);
}

static void
coro_epoch(void)
{
	sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 10 : 0);
	sim_fault_rate(SIM_F_EPOLL_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_faults(true);
	scn_run(coro_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

// ------------------------------------------------------------------ C05
#define BUFS 16
typedef struct { Msg msg; Buf* buf; uint64_t tag; int size; int refs; } BufMsg;
typedef struct { Task task; int id; int sent; int got; int ops; } BufTask;
static BufTask* bt; static int bt_count; static int bt_left;

static void
buf_fill(Buf* buf, uint64_t tag, int size, int st)
{
	int done = 0;
	while (done < size)
	{
		int n = 1 + sim_choose(st, 4) * 40;
		if (n > size - done)
			n = size - done;
		uint8_t tmp[256];
		for (int i = 0; i < n; i++)
			tmp[i] = (uint8_t)(scn_hash(tag, done + i) >> 13);
		switch (sim_choose(st, 3)) {
		case 0: buf_write(buf, tmp, n); break;
		case 1: memcpy(buf_emplace(buf, n), tmp, n); break;
		case 2: buf_reserve(buf, n); buf_append(buf, tmp, n); break;
		}
		done += n;
		if (sim_chance(st, 60))
			coroutine_yield();
	}
}

static void
buf_verify(Buf* buf, uint64_t tag, int size, const char* where)
{
	sim_check(buf_size(buf) == size, "buf-size", "%s: buffer has %d bytes, expected %d", where, buf_size(buf), size);
	for (int i = 0; i < size; i++)
		sim_check(buf->start[i] == (uint8_t)(scn_hash(tag, i) >> 13), "buf-content", "%s: byte %d of a buffer of %d bytes changed", where, i, size);
}

static void
buf_owner(void* arg)
{
	BufTask* self = arg;
	int st = 1 + self->id;
	struct { Buf* buf; uint64_t tag; int size; } own[BUFS];
	int n = 0;
	for (int i = 0; i < self->ops; i++)
	{
		int op = sim_choose(st, 5);
		if (op <= 1 && n < BUFS)
		{
			int size = sim_chance(st, 60) ? sim_range(st, 30000, 40000) : sim_range(st, 0, 500);
			uint64_t tag = scn_hash(self->id, i);
			auto buf = buf_create();
			sim_check(buf_size(buf) == 0, "buf-size", "a new buffer holds %d bytes", buf_size(buf));
			if (size > 1000)
			{
				buf_reserve(buf, size);
				for (int k = 0; k < size; k++)
					buf_append_u8(buf, (uint8_t)(scn_hash(tag, k) >> 13));
			} else
				buf_fill(buf, tag, size, st);
			own[n].buf = buf; own[n].tag = tag; own[n].size = size;
			n++;
		} else
		if (op == 2 && n > 0)
		{
			int k = sim_choose(st, n);
			buf_verify(own[k].buf, own[k].tag, own[k].size, "before free");
			buf_free(own[k].buf);
			own[k] = own[--n];
		} else
		if (op == 3 && n > 0)
		{
			// hand over, or share with several tasks
			int k = sim_choose(st, n);
			int share = sim_chance(st, 400) ? bt_count : 1;
			bool keep = sim_choose(st, 2);
			int refs = share - 1 + (keep ? 1 : 0);
			for (int r = 0; r < refs; r++)
				buf_ref(own[k].buf);
			for (int r = 0; r < share; r++)
			{
				BufMsg* m = am_malloc(sizeof(BufMsg));
				msg_init(&m->msg, MSG_CLIENT);
				m->buf = own[k].buf; m->tag = own[k].tag; m->size = own[k].size;
				self->sent++;
				auto dest = &bt[share > 1 ? r : sim_choose(st, bt_count)];
				task_send(&dest->task, &m->msg);
			}
			if (! keep)
				own[k] = own[--n];
		} else
			coroutine_yield();
	}
	for (int k = 0; k < n; k++)
	{
		buf_verify(own[k].buf, own[k].tag, own[k].size, "at end");
		buf_free(own[k].buf);
	}
	if (__atomic_sub_fetch(&bt_left, 1, __ATOMIC_SEQ_CST) == 0)
	{
		for (int i = 0; i < bt_count; i++)
		{
			Msg* stop = am_malloc(sizeof(Msg));
			msg_init(stop, MSG_STOP);
			task_send(&bt[i].task, stop);
		}
	}
}

static void
buf_main(void* arg)
{
	BufTask* self = arg;
	coroutine_create(buf_owner, self);
	for (;;)
	{
		auto msg = task_recv();
		if (msg->id == MSG_STOP)
		{
			am_free(msg);
			break;
		}
		BufMsg* m = container_of(msg, BufMsg, msg);
		buf_verify(m->buf, m->tag, m->size, "received");
		if (sim_chance(10 + self->id, 300))
			coroutine_yield();
		buf_verify(m->buf, m->tag, m->size, "received");
		buf_free(m->buf);
		self->got++;
		am_free(m);
	}
}

static void
bufs_main(void* arg)
{
	unused(arg);
	bt_count = sim_range(0, 1, 4);
	bt_left = bt_count;
	bt = am_malloc(sizeof(BufTask) * bt_count);
	memset(bt, 0, sizeof(BufTask) * bt_count);
	for (int i = 0; i < bt_count; i++)
	{
		bt[i].id = i;
		bt[i].ops = sim_range(0, 3, 40);
		task_init(&bt[i].task);
	}
	for (int i = 0; i < bt_count; i++)
		scn_task(&bt[i].task, "buf", buf_main, &bt[i]);
	int sent = 0, got = 0;
	for (int i = 0; i < bt_count; i++)
	{
		task_wait(&bt[i].task);
		sent += bt[i].sent;
		got += bt[i].got;
	}
	sim_check(sent == got, "buf-lost", "%d buffers sent, %d received", sent, got);
	for (int i = 0; i < bt_count; i++)
		task_free(&bt[i].task);
	am_free(bt);
}

static void
bufs_epoch(void)
{
	sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 10 : 0);
	sim_faults(true);
	scn_run(bufs_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

// ------------------------------------------------------------------ C06
typedef struct { uint64_t in, out; int fail; int slow; int executed; bool finished; bool left; uint64_t more; } Work;
typedef struct { Task task; int id; int coros; int kills; int jobs; } WorkTask;
static WorkTask* wt; static int wt_count;
static int work_running, work_max, work_total;

static void work_end(Work* w) { __atomic_sub_fetch(&work_running, 1, __ATOMIC_SEQ_CST); w->finished = true; }

static void
work_main(intptr_t* argv)
{
	Work* w = (Work*)argv[0];
	sim_check(! w->left, "job-abandoned", "a job starts after its owner has left");
	sim_check(w->executed == 0, "job-twice", "a job is executed twice");
	sim_check((uint64_t)argv[1] == w->in && (uint64_t)argv[2] == w->in * 3, "job-args", "a job received wrong arguments");
	w->executed++;
	int n = __atomic_add_fetch(&work_running, 1, __ATOMIC_SEQ_CST);
	if (n > work_max)
		work_max = n;
	defer(work_end, w);
	if (w->slow == 1)
		coroutine_yield();
	else
	if (w->slow > 1)
		coroutine_sleep(w->slow);
	w->out = scn_hash(w->in, 77);
	__atomic_add_fetch(&work_total, 1, __ATOMIC_SEQ_CST);
	sim_check(! w->left, "job-abandoned", "the owner of a job left while the job runs");
	if (w->fail)
		error("job %d failed", (int)w->in);
}

static void work_left(Work* w) { w->left = true; }

static void
work_coro(void* arg)
{
	intptr_t id = (intptr_t)arg;
	int st = 10 + id;
	auto self = container_of(am_task, WorkTask, task);
	int n = sim_range(st, 1, 5);
	for (int i = 0; i < n; i++)
	{
		Work* w = am_malloc(sizeof(Work));
		defer(am_free, w);
		memset(w, 0, sizeof(*w));
		defer(work_left, w);
		w->in = id * 1000 + sim_choose(st, 1000);
		w->fail = sim_chance(st, 300);
		w->slow = sim_chance(st, 400) ? sim_range(st, 1, 3) : 0;
		uint64_t in = w->in; int fail = w->fail;
		self->jobs++;
		auto on_error = error_catch ( run(work_main, 3, w, w->in, w->in * 3) );
		auto error = &am_self()->error;
		sim_check(w->executed == 1, "job-count", "a job was executed %d times when its owner continued", w->executed);
		sim_check(w->finished, "job-incomplete", "the owner continued before its job has finished");
		if (on_error && error->code == CANCEL)
		{
			sim_probe("owner of a job cancelled");
			rethrow();
		}
		sim_check(on_error == fail, "job-error", "job %d: error %d, expected %d", (int)in, on_error, fail);
		if (on_error)
		{
			char expect[64];
			snprintf(expect, sizeof(expect), "job %d failed", (int)in);
			sim_check(buf_size(&error->text) == (int)strlen(expect) && ! memcmp(buf_cstr(&error->text), expect, strlen(expect)), "job-error",
			          "error '%.*s', expected '%s'", buf_size(&error->text), buf_cstr(&error->text), expect);
		}
		sim_check(w->out == scn_hash(in, 77), "job-result", "wrong result of job %d", (int)in);
	}
}

static void
work_task_main(void* arg)
{
	WorkTask* self = arg;
	uint64_t id[4];
	for (int i = 0; i < self->coros; i++)
		id[i] = coroutine_create(work_coro, (void*)(intptr_t)(self->id * 4 + i));
	int st = 40 + self->id;
	for (int i = 0; i < self->kills; i++)
	{
		coroutine_sleep(sim_choose(st, 3));
		sim_fault_count(SIM_F_CANCEL);
		if (sim_choose(st, 2))
			coroutine_kill(id[sim_choose(st, self->coros)]);
		else
			coroutine_kill_nowait(id[sim_choose(st, self->coros)]);
	}
	for (int i = 0; i < self->coros; i++)
		coroutine_wait(id[i]);
}

static int workers;

static void
jobs_main(void* arg)
{
	unused(arg);
	wt_count = sim_range(0, 1, 3);
	wt = am_malloc(sizeof(WorkTask) * wt_count);
	memset(wt, 0, sizeof(WorkTask) * wt_count);
	bool kills = sim_choose(0, 2);
	for (int i = 0; i < wt_count; i++)
	{
		wt[i].id = i;
		wt[i].coros = sim_range(0, 1, 4);
		wt[i].kills = kills ? sim_choose(0, 4) : 0;
		task_init(&wt[i].task);
	}
	for (int i = 0; i < wt_count; i++)
		scn_task(&wt[i].task, "work", work_task_main, &wt[i]);
	int jobs = 0;
	for (int i = 0; i < wt_count; i++)
	{
		task_wait(&wt[i].task);
		jobs += wt[i].jobs;
	}
	sim_check(jobs == work_total, "job-count", "%d jobs submitted, %d executed", jobs, work_total);
	sim_check(work_max <= workers, "job-workers", "%d jobs ran at once on %d workers", work_max, workers);
}

static void
jobs_epoch(void)
{
	sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 20 : 0);
	sim_fault_rate(SIM_F_COND_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_fault_rate(SIM_F_EPOLL_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_faults(true);
	workers = sim_range(62, 1, 3);
	work_running = work_max = work_total = 0;
	scn_run(jobs_main, NULL, workers);
	// (a task must outlive the workers that signal it)
	for (int i = 0; i < wt_count; i++)
		task_free(&wt[i].task);
	am_free(wt);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

// jobs that nobody waits for: all of them run before the workers stop
typedef struct { Job job; intptr_t argv[1]; Error error; int executed; int id; } Loose;
static Loose* loose; static int loose_count;

static void
loose_job(intptr_t* argv)
{
	Loose* self = (Loose*)argv[0];
	self->executed++;
	if (self->id % 3 == 1)
		coroutine_yield();
}

static void
loose_main(void* arg)
{
	unused(arg);
	JobMgr mgr;
	job_mgr_init(&mgr);
	int n = sim_range(0, 1, 3);
	job_mgr_start(&mgr, n);
	loose_count = sim_range(0, 1, 12);
	loose = am_malloc(sizeof(Loose) * loose_count);
	memset(loose, 0, sizeof(Loose) * loose_count);
	for (int i = 0; i < loose_count; i++)
	{
		loose[i].id = i;
		loose[i].argv[0] = (intptr_t)&loose[i];
		job_init(&loose[i].job, &loose[i].error, loose_job, loose[i].argv);
		job_mgr_add(&mgr, &loose[i].job);
		if (sim_chance(0, 200))
			coroutine_yield();
	}
	job_mgr_stop(&mgr);
	for (int i = 0; i < loose_count; i++)
		sim_check(loose[i].executed == 1, "job-count", "job %d of %d was executed %d times before the workers stopped", i, loose_count, loose[i].executed);
	job_mgr_free(&mgr);
	am_free(loose);
}

static void
loose_epoch(void)
{
	sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 20 : 0);
	sim_fault_rate(SIM_F_COND_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_faults(true);
	scn_run(loose_main, NULL, 0);
}

SimScenario sim_scenarios[] =
{
	{ "C04", "coroutines", coro_epoch, 1, 30000000, 1, 0 },
	{ "C05", "buffers", bufs_epoch, 1, 30000000, 1, 0 },
	{ "C06", "jobs", jobs_epoch, 1, 30000000, 3, 0 },
	{ "C06", "shutdown", loose_epoch, 1, 30000000, 1, 0 },
	{ 0 }
};
const char* sim_real_parts = "coroutines, context switch, exceptions, deferred actions, arenas, buffer manager, job manager and workers, tasks, events, bus (repository code, instrumented)";
const char* sim_stub_parts = "pthreads scheduling, condition variables, epoll, eventfd, clock, malloc (simulated)";
const char* sim_rule = "Workload: trees of coroutines with nested error handlers, clean up actions (waiting, failing), kills and waits; buffers filled, shared and handed over; jobs with failures and cancelled owners.";
