#pragma once
// Shared by scenarios that run the whole system through its public API.
#include <amelie_runtime>
#include <amelie_server>
#include <amelie_db>
#include <amelie_sync>
#include <amelie_value.h>
#include <amelie_set.h>
#include <amelie_output.h>
#include <amelie_executor.h>
#include <amelie_func.h>
#include <amelie_vm.h>
#include <amelie_parser.h>
#include <amelie_plan.h>
#include <amelie_compiler.h>
#include <amelie_backend.h>
#include <amelie_frontend.h>
#include <amelie_session.h>
#include <amelie_system.h>
#include <amelie.h>
#include <pthread.h>
#include <sim.h>

// host time zones: one, UTC
static void
sys_host(void)
{
	if (sim_disk_exists("/sim/.zoneinfo"))
		return;
	sim_disk_mkdir("/sim/.zoneinfo");
	static struct { TimezoneHeader header; TimezoneTime time; } packed utc;
	memset(&utc, 0, sizeof(utc));
	memcpy(utc.header.magic, "TZif", 4);
	utc.header.typecnt = htobe32(1);
	sim_disk_put("/sim/.zoneinfo/UTC", &utc, sizeof(utc));
}

typedef struct
{
	char  text[32][96];
	char* argv[32];
	int   argc;
} SysArgs;

static void __attribute__((format(printf, 2, 3)))
sys_arg(SysArgs* self, const char* fmt, ...)
{
	va_list args;
	va_start(args, fmt);
	auto at = self->text[self->argc];
	vsnprintf(at, sizeof(self->text[0]), fmt, args);
	va_end(args);
	self->argv[self->argc++] = at;
}

// returns the code; the reply is copied to out
static int
sys_sql(amelie_session_t* session, const char* sql, char* out, int size)
{
	auto req = amelie_execute(session, sql, 0, NULL, NULL, NULL);
	amelie_arg_t result = { NULL, 0 };
	int code = amelie_wait(req, -1, &result);
	int n = (int)result.data_size;
	if (out)
	{
		if (n >= size)
			n = size - 1;
		memcpy(out, result.data, n);
		out[n] = 0;
	}
	amelie_free(req);
	return code;
}
