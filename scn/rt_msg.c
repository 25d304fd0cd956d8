// Messages between tasks; remote calls.
#include "common.h"

// ------------------------------------------------------------------ mailbox
#define TASKS 4
#define CORO  4
#define MSGS  64

typedef struct { Msg msg; int sender; int seq; int got; uint64_t body; } TestMsg;
typedef struct { Task task; int id; int last[TASKS * CORO]; int count; uint64_t sum; bool stopped; } Receiver;
typedef struct { int task; int id; int dest[MSGS]; int pause[MSGS]; TestMsg msgs[MSGS]; int n; bool done; } Sender;
typedef struct { Task task; int id; Sender s[CORO]; int count; } SenderTask;

static Receiver*   rcv; static int rcv_count;
static SenderTask* snd; static int snd_count;

static void
receiver_main(void* arg)
{
	Receiver* self = arg;
	for (;;)
	{
		Msg* msg = NULL;
		int mode = sim_choose(10 + self->id, 4);
		if (mode == 1)
			msg = task_recv_try();
		if (! msg)
			msg = task_recv();
		if (msg->id == MSG_STOP)
		{
			sim_check(! self->stopped, "msg-duplicate", "stop delivered twice to receiver %d", self->id);
			self->stopped = true;
			break;
		}
		TestMsg* tm = container_of(msg, TestMsg, msg);
		sim_check(tm->got == 0, "msg-duplicate", "message %d of sender %d delivered twice", tm->seq, tm->sender);
		tm->got++;
		sim_check(tm->body == scn_hash(tm->sender, tm->seq), "msg-content", "message %d of sender %d has wrong content", tm->seq, tm->sender);
		sim_check(tm->seq > self->last[tm->sender], "msg-order", "receiver %d: message %d of sender %d after %d", self->id, tm->seq, tm->sender, self->last[tm->sender]);
		self->last[tm->sender] = tm->seq;
		self->count++;
		if (mode == 2)
			coroutine_yield();
		else
		if (mode == 3 && sim_chance(10 + self->id, 100))
			coroutine_sleep(sim_range(10 + self->id, 1, 5));
	}
}

static void
sender_coro(void* arg)
{
	Sender* self = arg;
	for (int i = 0; i < self->n; i++)
	{
		auto tm = &self->msgs[i];
		msg_init(&tm->msg, MSG_CLIENT);
		tm->sender = self->id;
		tm->seq    = i + 1;
		tm->got    = 0;
		tm->body   = scn_hash(self->id, i + 1);
		task_send(&rcv[self->dest[i]].task, &tm->msg);
		if (self->pause[i] == 1)
			coroutine_yield();
		else if (self->pause[i] == 2)
			coroutine_sleep(1);
	}
	self->done = true;
}

static void
sender_main(void* arg)
{
	SenderTask* self = arg;
	uint64_t id[CORO];
	for (int i = 0; i < self->count; i++)
		id[i] = coroutine_create(sender_coro, &self->s[i]);
	for (int i = 0; i < self->count; i++)
		coroutine_wait(id[i]);
}

static void
msg_main(void* arg)
{
	unused(arg);
	rcv_count = sim_range(0, 1, 3);
	snd_count = sim_range(0, 1, 3);
	rcv = am_malloc(sizeof(Receiver) * rcv_count);
	snd = am_malloc(sizeof(SenderTask) * snd_count);
	memset(rcv, 0, sizeof(Receiver) * rcv_count);
	memset(snd, 0, sizeof(SenderTask) * snd_count);
	int expect[3] = {0};
	static int sizes[] = {1024, 2, 4, 16};
	for (int i = 0; i < rcv_count; i++)
	{
		rcv[i].id = i;
		task_init(&rcv[i].task);
		scn_ring(&rcv[i].task, sizes[sim_choose(0, 4)]);
	}
	int burst = sim_choose(0, 3);
	for (int t = 0; t < snd_count; t++)
	{
		snd[t].id = t;
		snd[t].count = sim_range(0, 1, CORO);
		task_init(&snd[t].task);
		for (int c = 0; c < snd[t].count; c++)
		{
			auto s = &snd[t].s[c];
			s->id = t * CORO + c;
			s->n = sim_range(0, 1, burst ? MSGS : 12);
			for (int i = 0; i < s->n; i++)
			{
				s->dest[i] = sim_choose(0, rcv_count);
				s->pause[i] = sim_chance(0, burst == 2 ? 30 : 300) ? sim_range(0, 1, 2) : 0;
				expect[s->dest[i]]++;
			}
		}
	}
	for (int i = 0; i < rcv_count; i++)
		scn_task(&rcv[i].task, "rcv", receiver_main, &rcv[i]);
	for (int i = 0; i < snd_count; i++)
		scn_task(&snd[i].task, "snd", sender_main, &snd[i]);
	for (int i = 0; i < snd_count; i++)
		task_wait(&snd[i].task);
	Msg stop[3];
	for (int i = 0; i < rcv_count; i++)
	{
		msg_init(&stop[i], MSG_STOP);
		task_send(&rcv[i].task, &stop[i]);
	}
	for (int i = 0; i < rcv_count; i++)
	{
		task_wait(&rcv[i].task);
		sim_check(rcv[i].stopped, "msg-lost", "receiver %d ended without its stop message", i);
		sim_check(rcv[i].count == expect[i], "msg-lost", "receiver %d got %d of %d messages", i, rcv[i].count, expect[i]);
		sim_log("receiver %d got %d", i, rcv[i].count);
		task_free(&rcv[i].task);
	}
	for (int i = 0; i < snd_count; i++)
		task_free(&snd[i].task);
	am_free(rcv);
	am_free(snd);
}

static void
msg_epoch(void)
{
	sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 20 : 0);
	sim_fault_rate(SIM_F_EPOLL_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_fault_rate(SIM_F_TIMEJUMP, sim_choose(62, 2) ? 20 : 0);
	sim_faults(true);
	scn_run(msg_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

// ------------------------------------------------------------------ rpc
typedef struct
{
	int      depth;
	int      dest;
	uint64_t in, out;
	int      fail;
	int      slow;
	int      executed;
	bool     owner_left;     // the caller returned
	bool     finished;
} Call;

typedef struct { Task task; int id; bool spawn; int calls; int running; } Server;
typedef struct { Task task; int id; int n; int kills; uint64_t coro[8]; int count; } ClientTask;

static Server*     srv; static int srv_count;
static ClientTask* cli; static int cli_count;

static void call_do(Call*, int stream, int from);
static void call_finished(Call* call) { call->finished = true; }

static void
server_execute(Rpc* req, void* arg)
{
	Server* self = arg;
	Call* call = req->arg;
	sim_check(! call->owner_left, "rpc-abandoned", "server %d executes a call whose caller has already returned", self->id);
	sim_check(call->executed == 0, "rpc-twice", "a call is executed twice");
	sim_check(call->dest == self->id, "rpc-misrouted", "a call for server %d is executed by %d", call->dest, self->id);
	call->executed++;
	self->calls++;
	defer(call_finished, call);
	if (call->slow == 1)
		coroutine_yield();
	else
	if (call->slow > 1)
		coroutine_sleep(call->slow);
	call->out = scn_hash(call->in, self->id);
	if (call->depth > 0 && self->id + 1 < srv_count)
	{
		// nested call to the next server; its error travels to the first caller
		Call next = { .depth = call->depth - 1, .dest = self->id + 1, .in = call->in + 1, .fail = call->fail, .slow = call->slow };
		call->fail = 0;
		rpc(&srv[next.dest].task, MSG_REQ, &next);
		sim_check(next.executed == 1 && next.finished, "rpc-incomplete", "nested call returned before it was executed");
	}
	sim_check(! call->owner_left, "rpc-abandoned", "caller returned while server %d executes its call", self->id);
	if (call->fail)
		error("call %d failed", (int)call->in);
}

static void
server_coro(void* arg)
{
	Rpc* rpc = arg;
	Call* call = rpc->arg;
	auto self = &srv[call->dest];
	self->running++;
	rpc_execute(rpc, server_execute, self);
	self->running--;
}

static void
server_main(void* arg)
{
	Server* self = arg;
	for (;;)
	{
		auto msg = task_recv();
		if (msg->id == MSG_STOP)
			break;
		sim_check(msg->id == MSG_REQ, "rpc-content", "unexpected message id");
		auto rpc = rpc_of(msg);
		if (self->spawn)
			coroutine_create(server_coro, rpc);
		else
			rpc_execute(rpc, server_execute, self);
	}
}

static void call_left(Call* call) { call->owner_left = true; }

static void
call_do(Call* call, int stream, int from)
{
	unused(stream);
	defer(call_left, call);
	uint64_t in = call->in; int fail = call->fail;
	auto on_error = error_catch ( rpc(&srv[call->dest].task, MSG_REQ, call) );
	if (on_error)
	{
		auto error = &am_self()->error;
		sim_check(call->finished, "rpc-incomplete", "client %d: call left by an error before the server completed it", from);
		if (error->code == CANCEL)
		{
			sim_probe("caller cancelled during a call");
			call->owner_left = true;
			rethrow();
		}
		char expect[64];
		snprintf(expect, sizeof(expect), "call %d failed", fail);
		sim_check(fail, "rpc-error", "client %d: unexpected error '%.*s'", from, buf_size(&error->text), buf_cstr(&error->text));
		sim_check(buf_size(&error->text) == (int)strlen(expect) && !memcmp(buf_cstr(&error->text), expect, strlen(expect)),
		          "rpc-error", "client %d: error text '%.*s', expected '%s'", from, buf_size(&error->text), buf_cstr(&error->text), expect);
	} else
		sim_check(! fail, "rpc-error-lost", "client %d: the server failed the call but no error was raised", from);
	sim_check(call->executed == 1, "rpc-count", "client %d: the call was executed %d times", from, call->executed);
	sim_check(call->out == scn_hash(in, call->dest), "rpc-result", "client %d: wrong result", from);
}

typedef struct { ClientTask* task; int id; int n; } ClientArg;

static void
call_make(Call* call, int st, int id)
{
	memset(call, 0, sizeof(*call));
	call->dest  = sim_choose(st, srv_count);
	call->in    = id * 1000 + sim_choose(st, 900);
	call->depth = sim_choose(st, 3);
	if (sim_chance(st, 300))
	{
		int d = call->depth; int last = call->dest;
		while (d > 0 && last + 1 < srv_count) { d--; last++; }
		call->fail = call->in + (last - call->dest);
	}
	if (sim_chance(st, 400))
		call->slow = sim_range(st, 1, 4);
}

static void
client_set(int st, int id)
{
	// several calls at once
	RpcSet set;
	rpc_set_init(&set);
	defer(rpc_set_free, &set);
	int n = sim_range(st, 1, 4);
	Call* calls = am_malloc(sizeof(Call) * n);
	defer(am_free, calls);
	rpc_set_prepare(&set, n);
	for (int i = 0; i < n; i++)
	{
		call_make(&calls[i], st, id);
		rpc_set_add(&set, i, MSG_REQ, &calls[i]);
	}
	int failing[8]; int any = 0;
	for (int i = 0; i < n; i++) { failing[i] = calls[i].fail; any |= failing[i]; }
	for (int i = 0; i < n; i++)
		rpc_send(rpc_set_at(&set, i), &srv[calls[i].dest].task);
	cancel_pause();
	auto on_error = error_catch ( rpc_set_wait(&set) );
	for (int i = 0; i < n; i++)
	{
		sim_check(calls[i].executed == 1, "rpc-count", "client %d: call %d of a set was executed %d times", id, i, calls[i].executed);
		sim_check(calls[i].finished, "rpc-incomplete", "client %d: call %d of a set is not finished", id, i);
		calls[i].owner_left = true;
	}
	if (on_error)
		sim_check(any, "rpc-error", "client %d: unexpected error of a set", id);
	else
		sim_check(! any, "rpc-error-lost", "client %d: the error of a set was lost", id);
	cancel_resume();
}

static void
client_last_call(void* arg)
{
	// clean up code of a cancelled coroutine makes a call as well
	ClientArg* self = arg;
	int st = 20 + self->id;
	if (! sim_chance(st, 300))
		return;
	Call* call = am_malloc(sizeof(Call));
	call_make(call, st, self->id);
	call->fail = 0;
	auto on_error = error_catch ( call_do(call, st, self->id) );
	if (on_error)
		sim_check(call->finished, "rpc-incomplete", "client %d: call left by an error before the server completed it", self->id);
	sim_probe("call from clean up");
	am_free(call);
}

static void
client_coro(void* arg)
{
	ClientArg* self = arg;
	int st = 20 + self->id;
	bool late = sim_chance(st, 300);
	auto on_error = error_catch
	(
		for (int i = 0; i < self->n; i++)
		{
			if (sim_chance(st, 200))
			{
				client_set(st, self->id);
				continue;
			}
			Call* call = am_malloc(sizeof(Call));
			defer(am_free, call);
			call_make(call, st, self->id);
			call_do(call, st, self->id);
			if (sim_chance(st, 100))
				coroutine_yield();
		}
	);
	if (on_error)
		sim_check(am_self()->error.code == CANCEL, "rpc-error", "client %d: unexpected error", self->id);
	if (on_error && late)
		client_last_call(self);
}

static void
client_main(void* arg)
{
	ClientTask* self = arg;
	int st = 40 + self->id;
	ClientArg args[4];
	uint64_t ids[4];
	for (int i = 0; i < self->count; i++)
	{
		args[i] = (ClientArg){ .task = self, .id = self->id * 4 + i, .n = sim_range(st, 1, 6) };
		ids[i] = coroutine_create(client_coro, &args[i]);
	}
	for (int k = 0; k < self->kills; k++)
	{
		if (sim_choose(st, 2))
			coroutine_sleep(sim_range(st, 1, 6));
		else
			coroutine_yield();
		int i = sim_choose(st, self->count);
		sim_fault_count(SIM_F_CANCEL);
		if (sim_choose(st, 2))
			coroutine_kill(ids[i]);
		else
			coroutine_kill_nowait(ids[i]);
	}
	for (int i = 0; i < self->count; i++)
		coroutine_wait(ids[i]);
}

static void
rpc_main(void* arg)
{
	unused(arg);
	srv_count = sim_range(0, 1, 3);
	cli_count = sim_range(0, 1, 3);
	srv = am_malloc(sizeof(Server) * srv_count);
	cli = am_malloc(sizeof(ClientTask) * cli_count);
	memset(srv, 0, sizeof(Server) * srv_count);
	memset(cli, 0, sizeof(ClientTask) * cli_count);
	static int sizes[] = {1024, 128, 64};  // larger than the number of calls in flight
	bool kills = sim_choose(0, 2);
	for (int i = 0; i < srv_count; i++)
	{
		srv[i].id = i;
		srv[i].spawn = sim_choose(0, 2);
		task_init(&srv[i].task);
		scn_ring(&srv[i].task, sizes[sim_choose(0, 3)]);
	}
	for (int i = 0; i < cli_count; i++)
	{
		cli[i].id = i;
		cli[i].count = sim_range(0, 1, 4);
		cli[i].kills = kills ? sim_choose(0, 5) : 0;
		task_init(&cli[i].task);
	}
	for (int i = 0; i < srv_count; i++)
		scn_task(&srv[i].task, "srv", server_main, &srv[i]);
	for (int i = 0; i < cli_count; i++)
		scn_task(&cli[i].task, "cli", client_main, &cli[i]);
	for (int i = 0; i < cli_count; i++)
		task_wait(&cli[i].task);
	Msg stop[3];
	for (int i = 0; i < srv_count; i++)
	{
		msg_init(&stop[i], MSG_STOP);
		task_send(&srv[i].task, &stop[i]);
	}
	int calls = 0;
	for (int i = 0; i < srv_count; i++)
	{
		task_wait(&srv[i].task);
		calls += srv[i].calls;
		sim_check(srv[i].running == 0, "rpc-incomplete", "server %d still runs %d calls", i, srv[i].running);
	}
	sim_log("calls %d", calls);
	for (int i = 0; i < srv_count; i++)
		task_free(&srv[i].task);
	for (int i = 0; i < cli_count; i++)
		task_free(&cli[i].task);
	am_free(srv);
	am_free(cli);
}

static void
rpc_epoch(void)
{
	sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 20 : 0);
	sim_fault_rate(SIM_F_EPOLL_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_fault_rate(SIM_F_TIMEJUMP, sim_choose(62, 2) ? 20 : 0);
	sim_faults(true);
	scn_run(rpc_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

SimScenario sim_scenarios[] =
{
	{ "C01", "mailbox", msg_epoch, 1, 30000000, 1, 0 },
	{ "C02", "rpc",     rpc_epoch, 1, 30000000, 1, 0 },
	{ 0 }
};
const char* sim_real_parts = "tasks, bus, ring, mailbox, events, rpc, rpc sets, coroutines, timers, poller, notify, buffer manager (repository code, instrumented)";
const char* sim_stub_parts = "pthreads scheduling, epoll, eventfd, clock, malloc (simulated)";
const char* sim_rule = "Workload: number of tasks, coroutines, messages or calls, destinations, pauses, nested calls, failures and cancellations are drawn per seed; the ring capacity is a per-run knob.";
