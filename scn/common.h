#pragma once
// Shared start up for scenarios: a Runtime with one main task, without the
// parts that read the host (time zones, entropy).
#include <amelie_runtime>
#include <sim.h>

typedef struct
{
	Runtime      rt;
	MainFunction fn;
	void*        arg;
	int          jobs;
	bool         done;
} Scn;

static Scn* scn;

static void
scn_logger(TaskLog* log, const char* fmt, va_list args)
{
	unused(log);
	char msg[512];
	vsnprintf(msg, sizeof(msg), fmt, args);
	sim_log("log: %s", msg);
}

static void
scn_main(void* arg)
{
	Scn* self = arg;
	auto rt = &self->rt;
	auto on_error = error_catch
	(
		tls_lib_init();
		rt->random.seed[0] = 1 + sim_choose(63, 1000000);
		rt->random.seed[1] = 2;
		if (self->jobs)
			job_mgr_start(&rt->job_mgr, self->jobs);
		config_prepare(&rt->config);
		state_prepare(&rt->state);
		self->fn(self->arg);
	);
	if (on_error)
		sim_fail("unhandled-error", "unexpected error: %.*s",
		         buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
	if (self->jobs)
		job_mgr_stop(&rt->job_mgr);
	self->done = true;
}

// run fn as the main coroutine of a task of a new runtime; returns when it ended
static void
scn_run(MainFunction fn, void* arg, int jobs)
{
	scn = am_malloc(sizeof(Scn));
	memset(scn, 0, sizeof(*scn));
	scn->fn   = fn;
	scn->arg  = arg;
	scn->jobs = jobs;
	auto rt = &scn->rt;
	runtime_init(rt);
	int rc;
	rc = task_create_nothrow(&rt->task, "main", scn_main, scn, rt, NULL,
	                         scn_logger, NULL,
	                         &rt->buf_mgr);
	if (rc == -1)
		sim_broken("task create");
	task_wait(&rt->task);
	if (! scn->done)
		sim_broken("main task did not finish");
	runtime_free(rt);
	am_free(scn);
}

// swap the bus ring of a task that is not started yet for a smaller one
static void
scn_ring(Task* task, int size)
{
	ring_free(&task->bus.ring);
	ring_init(&task->bus.ring);
	ring_prepare(&task->bus.ring, size);
}

// start a task of the scenario
static void
scn_task(Task* task, char* name, MainFunction fn, void* arg)
{
	int rc;
	rc = task_create_nothrow(task, name, fn, arg, am_runtime, am_share,
	                         scn_logger, NULL, am_task->buf_mgr);
	if (rc == -1)
		sim_broken("task create");
}

static inline uint64_t
scn_hash(uint64_t a, uint64_t b)
{
	uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
