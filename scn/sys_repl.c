// Replication: a primary and one or two replicas in one process, each a whole
// database, connected by the simulated network. Clients change the primary,
// readers look at the replicas; connections are cut, nodes are restarted, the
// process is killed, roles change. A replica shows states of the primary in
// commit order, refuses writes, and catches up once the faults stop.
#include "sys.h"

#define NODES   3
#define CLIENTS 3
#define ACCOUNTS 4
#define AMOUNT  100
#define LIVES   3

typedef struct
{
	bool init, ready;
	int  nodes, primary, next;         // next: promotion in progress
	int  frontends, backends, partitions, worker, readahead, wal_size;
	bool crc, http;
	int  acked[CLIENTS], sent[CLIENTS]; // log entries of every client
	int  extra;                         // serial number of other tables
	int  rounds;
} Board;
static Board* b;

typedef struct
{
	int       id;
	amelie_t* env;
	char      uuid[40];
	int       port;
} Node;
static Node nodes[NODES];
static bool working;

typedef struct
{
	int               id, ops;
	amelie_session_t* session;
	pthread_t         thread;
	char              sql[1024];
	char              out[4096];
} Client_;

static bool*
working_of(void)
{
	return &working;
}

static int
query(Client_* self)
{
	int code = sys_sql(self->session, self->sql, self->out, sizeof(self->out));
	sim_log("%d: %d %s: %s", self->id, code, self->sql, self->out);
	return code;
}

#define ask(self, ...) (snprintf((self)->sql, sizeof((self)->sql), __VA_ARGS__), query(self))

static void
done(Client_* self, int code)
{
	sim_check(code == 204 || code == 200, "statement", "%s: %d %s", self->sql, code, self->out);
}

// the integer of a reply [n]; -1 when there is none
static int64_t
number(Client_* self)
{
	auto at = self->out;
	while (*at == '[' || *at == ' ' || *at == '\n')
		at++;
	if (*at == ']' || *at == 'n')
		return -1;
	char* end = NULL;
	int64_t value = strtoll(at, &end, 10);
	sim_check(end != at, "reply", "%s: '%s'", self->sql, self->out);
	return value;
}

// ------------------------------------------------------------------ nodes
static void
node_start(Node* self)
{
	static const char* dirs[] = { "/sim/n0", "/sim/n1", "/sim/n2" };
	snprintf(self->uuid, sizeof(self->uuid), "00000000-0000-0000-0000-00000000000%d", self->id);
	self->port = 3480 + self->id;
	SysArgs args;
	args.argc = 0;
	sys_arg(&args, "--log_to_stdout=%s", getenv("SIM_LOGOUT") ? "true" : "false");
	sys_arg(&args, "--uuid=%s", self->uuid);
	sys_arg(&args, "--listen=[{\"host\":\"127.0.0.1\",\"port\":%d}]", self->port);
	sys_arg(&args, "--cpu_affinity=false");
	sys_arg(&args, "--frontends=%d", b->frontends);
	sys_arg(&args, "--backends=%d", b->backends);
	sys_arg(&args, "--jobs=1");
	sys_arg(&args, "--repl_reconnect_ms=10");
	sys_arg(&args, "--repl_readahead=%d", b->readahead);
	sys_arg(&args, "--wal_worker=%s", b->worker ? "true" : "false");
	sys_arg(&args, "--wal_crc=%s", b->crc ? "true" : "false");
	sys_arg(&args, "--wal_sync_on_write=false");
	sys_arg(&args, "--wal_sync_on_create=false");
	sys_arg(&args, "--wal_sync_on_close=false");
	sys_arg(&args, "--storage_sync=false");
	if (b->wal_size)
		sys_arg(&args, "--wal_size=%d", b->wal_size);
	self->env = amelie_init();
	int rc = amelie_open(self->env, dirs[self->id], args.argc, args.argv);
	sim_check(rc == 0, "open", "node %d: amelie_open() failed", self->id);
}

static void
node_stop(Node* self)
{
	sim_log("node %d: stop", self->id);
	amelie_free(self->env);
	self->env = NULL;
	sim_log("node %d: stopped", self->id);
}

static void
client_open(Client_* self, Node* node)
{
	self->session = amelie_connect(node->env, "amelie://");
}

static void
client_close_(Client_* self)
{
	amelie_free(self->session);
	self->session = NULL;
}

// ------------------------------------------------------------------ roles
static void
roles(int primary)
{
	static Client_ c;
	c.id = 90;
	for (int i = 0; i < b->nodes; i++)
	{
		auto node = &nodes[i];
		client_open(&c, node);
		if (i == primary)
		{
			done(&c, ask(&c, "start repl"));
			done(&c, ask(&c, "unsubscribe"));
		} else
		{
			// former replicas of this node
			for (int j = 0; j < b->nodes; j++)
				if (j != i)
					done(&c, ask(&c, "drop replica if exists \"%s\"", nodes[j].uuid));
			done(&c, ask(&c, "start repl"));
			done(&c, ask(&c, "subscribe \"%s\"", nodes[primary].uuid));
		}
		client_close_(&c);
	}
	client_open(&c, &nodes[primary]);
	for (int i = 0; i < b->nodes; i++)
		if (i != primary)
			done(&c, ask(&c, "create replica if not exists \"%s\" \"127.0.0.1:%d\"", nodes[i].uuid, nodes[i].port));
	client_close_(&c);
	b->primary = primary;
	b->next    = primary;
}

// ------------------------------------------------------------------ workload
static void
tables(Client_* c)
{
	done(c, ask(c, "create table if not exists a (id int primary key, v int) partitions %d", b->partitions));
	done(c, ask(c, "create table if not exists b (id int primary key using hash, v int) partitions %d", b->partitions));
	done(c, ask(c, "create table if not exists l (c int, s int, primary key (c, s)) partitions %d", b->partitions));
	done(c, ask(c, "create table if not exists u (id int primary key as identity, v int) partitions %d", b->partitions));
	done(c, ask(c, "create table if not exists w (id int primary key, v int, s string) partitions 1"));
	// money: all at once
	auto at = c->sql;
	int  n  = snprintf(at, sizeof(c->sql), "begin; ");
	for (int i = 0; i < ACCOUNTS; i++)
		n += snprintf(at + n, sizeof(c->sql) - n, "insert into a values (%d, %d) on conflict do nothing; insert into b values (%d, %d) on conflict do nothing; ", i, AMOUNT, i, AMOUNT);
	snprintf(at + n, sizeof(c->sql) - n, "end");
	done(c, query(c));
}

static void*
writer_main(void* arg)
{
	Client_* self = arg;
	int st = 8 + self->id;
	client_open(self, &nodes[b->primary]);
	for (int i = 0; i < self->ops; i++)
	{
		int t = sim_choose(st, 2);
		int k = sim_choose(st, ACCOUNTS), k2 = sim_choose(st, ACCOUNTS), v = sim_choose(st, 50);
		bool planned = false;
		switch (sim_choose(st, 12)) {
		default:
		{
			// next entry of the log, sometimes several
			int s = __atomic_load_n(&b->sent[self->id], __ATOMIC_SEQ_CST);
			int n = 1 + sim_choose(st, 3);
			__atomic_store_n(&b->sent[self->id], s + n, __ATOMIC_SEQ_CST);
			auto at = self->sql + snprintf(self->sql, sizeof(self->sql), "insert into l values ");
			for (int j = 1; j <= n; j++)
				at += sprintf(at, "%s(%d, %d)", j > 1 ? ", " : "", self->id, s + j);
			// cancelled together with a transaction that failed: no effect
			while (query(self) == 400 && strstr(self->out, "aborted during commit"))
				sim_probe("cascade-abort");
			done(self, *self->out ? 400 : 204);
			__atomic_store_n(&b->acked[self->id], s + n, __ATOMIC_SEQ_CST);
			continue;
		}
		case 0: case 1:
			snprintf(self->sql, sizeof(self->sql), "begin; update %c set v = v - %d where id = %d; update %c set v = v + %d where id = %d; end", "ab"[t], v, k, "ba"[t], v, k2);
			break;
		case 2:
			snprintf(self->sql, sizeof(self->sql), "insert into u (v) values (%d), (%d)", v, v + 1);
			break;
		case 3:
			snprintf(self->sql, sizeof(self->sql), "delete from u where v < %d", v);
			break;
		case 4:
			snprintf(self->sql, sizeof(self->sql), "insert into w values (%d, %d, 'text %d') on conflict do update set v = v + 1", k, v, v);
			break;
		case 5:
			snprintf(self->sql, sizeof(self->sql), "begin; insert into w values (%d, 1, 'x') on conflict do update set v = v + 1; insert into a values (0, 0); end", k);
			planned = true;
			break;
		case 6:
			snprintf(self->sql, sizeof(self->sql), "update w set s = s || '%d', v = v + 1", k);
			break;
		case 7:
			snprintf(self->sql, sizeof(self->sql), "delete from w where id = %d", k);
			break;
		}
		int code = query(self);
		if (planned)
			sim_check(code == 400, "statement", "%s: %d %s", self->sql, code, self->out);
		else
		if (! (code == 400 && strstr(self->out, "aborted during commit")))
			done(self, code);
	}
	client_close_(self);
	return NULL;
}

static void*
ddl_main(void* arg)
{
	Client_* self = arg;
	int st = 20;
	client_open(self, &nodes[b->primary]);
	for (int i = 0; i < self->ops; i++)
	{
		int t = sim_choose(st, 4);
		switch (sim_choose(st, 9)) {
		case 0: case 1:
			snprintf(self->sql, sizeof(self->sql), "checkpoint");
			break;
		case 2:
			snprintf(self->sql, sizeof(self->sql), "create table if not exists x%d (id int primary key, v int default %d) partitions 2", t, ++b->extra);
			break;
		case 3:
			snprintf(self->sql, sizeof(self->sql), "drop table if exists x%d", t);
			break;
		case 4:
			snprintf(self->sql, sizeof(self->sql), "truncate u");
			break;
		case 5:
			snprintf(self->sql, sizeof(self->sql), "create index if not exists i on a (id) using tree");
			break;
		case 6:
			snprintf(self->sql, sizeof(self->sql), "drop index if exists i on a");
			break;
		case 7:
			snprintf(self->sql, sizeof(self->sql), "create or replace function f%d(k int) begin update w set v = v + %d where id = k; end", t, ++b->extra);
			break;
		case 8:
			snprintf(self->sql, sizeof(self->sql), "alter table u set identity to %d", 1000 * ++b->extra);
			break;
		}
		done(self, query(self));
	}
	client_close_(self);
	return NULL;
}

typedef struct
{
	Client_ client;
	Node*   node;
	int     seen[CLIENTS];
	int     st;
} Reader_;

static void
look(Reader_* self)
{
	auto c = &self->client;
	int st = self->st;
	switch (sim_choose(st, 4)) {
	case 0: case 1:
	{
		// entries of one writer: in order, none is missing, none is taken back
		int  w    = sim_choose(st, CLIENTS);
		int  code = ask(c, "select count(*) + max(s) * 100000 from l where c = %d", w);
		if (code == 400 && strstr(c->out, "not found"))
			break;
		done(c, code);
		int  sent = __atomic_load_n(&b->sent[w], __ATOMIC_SEQ_CST);
		auto n    = number(c);
		int  count = n == -1 ? 0 : n % 100000, last = n == -1 ? 0 : n / 100000;
		sim_check(count == last, "replica-order", "replica %d has %d entries of client %d, the last one is %d", self->node->id, count, w, last);
		sim_check(count <= sent, "replica-order", "replica %d has %d entries of client %d, which wrote %d", self->node->id, count, w, sent);
		sim_check(count >= self->seen[w], "replica-order", "replica %d had %d entries of client %d and has %d now", self->node->id, self->seen[w], w, count);
		self->seen[w] = count;
		break;
	}
	case 2:
	{
		int code = ask(c, "select (select sum(v) from a) + (select sum(v) from b)");
		if (code == 400 && strstr(c->out, "not found"))
			break;
		done(c, code);
		auto n = number(c);
		sim_check(n == -1 || n == 2 * ACCOUNTS * AMOUNT, "replica-atomic", "replica %d has the sum %" PRIi64, self->node->id, n);
		break;
	}
	case 3:
	{
		static const char* writes[] =
		{
			"insert into l values (0, 1000000)", "delete from a", "update a set v = 1",
			"create table replica_table (id int primary key)", "truncate u", "drop table if exists a"
		};
		// changes of one row by statements that visit all partitions, the row
		// may not be there yet: a change would be seen in the sums
		static const char* rows[] =
		{
			"update a set v = v + 1 where id + 0 = %d", "delete from b where id + 0 = %d",
			"begin; select * from b; update b set v = v + 3 where id + 0 = %d; end", "update b set v = v - 1 where id = %d"
		};
		int way = sim_choose(st, 10);
		if (way >= 6)
		{
			char text[128];
			snprintf(text, sizeof(text), rows[way - 6], sim_choose(st, ACCOUNTS));
			int code = ask(c, "%s", text);
			sim_check(code == 400 || code == 204 || code == 200, "replica-write", "replica %d: %s: %d %s", self->node->id, c->sql, code, c->out);
			if (code == 400)
				sim_probe("replica-write-refused");
			break;
		}
		int code = ask(c, "%s", writes[way]);
		sim_check(code == 400, "replica-write", "replica %d: %s: %d %s", self->node->id, c->sql, code, c->out);
		sim_probe("replica-write-refused");
		break;
	}
	}
}

static void*
reader_main(void* arg)
{
	Reader_* self = arg;
	auto c = &self->client;
	client_open(c, self->node);
	for (int i = 0; i < c->ops || __atomic_load_n(working_of(), __ATOMIC_SEQ_CST); i++)
	{
		if (i > c->ops)
		{
			usleep(5000);
			if (i > 60)
				continue;
		}
		if (sim_choose(self->st, 12) == 11)
		{
			sim_probe("replica-restart");
			client_close_(c);
			node_stop(self->node);
			if (sim_choose(self->st, 2))
				usleep(1000 * sim_choose(self->st, 50));
			node_start(self->node);
			client_open(c, self->node);
			continue;
		}
		look(self);
	}
	client_close_(c);
	return NULL;
}

// ------------------------------------------------------------------ progress
static int
sort_cmp(const void* p1, const void* p2)
{
	return strcmp(*(char**)p1, *(char**)p2);
}

// lists of the catalog have no order
static void
sort(char* text)
{
	static char copy[4096];
	char* names[64];
	int   count = 0;
	strcpy(copy, text);
	for (auto at = strtok(copy, "\n"); at && count < 64; at = strtok(NULL, "\n"))
		names[count++] = at;
	qsort(names, count, sizeof(*names), sort_cmp);
	*text = 0;
	for (int i = 0; i < count; i++)
		strcat(strcat(text, names[i]), "\n");
}

static int64_t
node_lsn(Client_* c)
{
	done(c, ask(c, "select show('state').lsn"));
	return number(c);
}

static void
converge(void)
{
	static Client_ p, r;
	p.id = 91;
	r.id = 92;
	client_open(&p, &nodes[b->primary]);
	auto lsn = node_lsn(&p);
	for (int i = 0; i < b->nodes; i++)
	{
		if (i == b->primary)
			continue;
		client_open(&r, &nodes[i]);
		auto from = sim_now();
		int64_t now = node_lsn(&r);
		while (now != lsn)
		{
			sim_check(now < lsn, "replica-ahead", "replica %d has lsn %" PRIi64 ", the primary %" PRIi64, i, now, lsn);
			if (sim_now() - from > 30000000000ull)
			{
				ask(&p, "show replicas");
				sim_fail("no-progress", "replica %d did not catch up: lsn %" PRIi64 " of %" PRIi64 ": %s", i, now, lsn, p.out);
			}
			usleep(10000);
			now = node_lsn(&r);
		}
		sim_probe("replica-caught-up");
		static const char* queries[] =
		{
			"select * from a order by id", "select * from b order by id", "select * from l order by c, s",
			"select * from u order by id", "select * from w order by id",
			"show tables", "show functions", "show databases",
			"select * from x0", "select * from x1", "select * from x2", "select * from x3"
		};
		for (int q = 0; q < (int)(sizeof(queries) / sizeof(*queries)); q++)
		{
			int pc = ask(&p, "%s", queries[q]);
			int rc = ask(&r, "%s", queries[q]);
			if (! strncmp(queries[q], "show", 4))
			{
				sort(p.out);
				sort(r.out);
			}
			sim_check(pc == rc && !strcmp(p.out, r.out), "replica-differs", "%s: primary %d %s, replica %d: %d %s", queries[q], pc, p.out, i, rc, r.out);
		}
		client_close_(&r);
	}
	// nothing acknowledged is missing
	for (int w = 0; w < CLIENTS; w++)
	{
		done(&p, ask(&p, "select count(*) from l where c = %d", w));
		auto n = number(&p);
		sim_check(n >= b->acked[w] && n <= b->sent[w], "lost", "%" PRIi64 " entries of client %d, acknowledged %d of %d", n, w, b->acked[w], b->sent[w]);
		// one statement that was not answered may be missing
		b->sent[w] = b->acked[w] = n;
	}
	client_close_(&p);
}

// ------------------------------------------------------------------ epoch
static void
round_run(void)
{
	static Client_ writers[CLIENTS], ddl;
	static Reader_ readers[NODES];
	int count = sim_range(1, 1, CLIENTS);
	__atomic_store_n(working_of(), true, __ATOMIC_SEQ_CST);
	int faults = sim_choose(1, 3);
	if (faults)
	{
		sim_fault_rate(SIM_F_NET_RESET, faults == 2 ? 100 : 20);
		sim_fault_rate(SIM_F_NET_SHORT, 1000);
		sim_fault_rate(SIM_F_NET_EINTR, 100);
		sim_fault_rate(SIM_F_NET_DELAY, 1000);
		sim_faults(true);
	}
	for (int i = 0; i < b->nodes; i++)
	{
		if (i == b->primary)
			continue;
		auto r = &readers[i];
		memset(r, 0, sizeof(*r));
		r->node       = &nodes[i];
		r->st         = 24 + i;
		r->client.id  = 50 + i;
		r->client.ops = sim_range(1, 1, 10);
		if (pthread_create(&r->client.thread, NULL, reader_main, r))
			sim_broken("thread");
	}
	for (int i = 0; i < count; i++)
	{
		auto w = &writers[i];
		w->id  = i;
		w->ops = sim_range(1, 1, 8);
		if (pthread_create(&w->thread, NULL, writer_main, w))
			sim_broken("thread");
	}
	ddl.id  = 40;
	ddl.ops = sim_choose(1, 2) ? sim_range(1, 1, 6) : 0;
	if (ddl.ops && pthread_create(&ddl.thread, NULL, ddl_main, &ddl))
		sim_broken("thread");
	if (sim_choose(1, 3) == 2)
	{
		usleep(sim_choose(1, 3000));
		sim_net_partition(true);
		sim_probe("partition");
		usleep(sim_choose(1, 50000));
		sim_net_partition(false);
	}
	for (int i = 0; i < count; i++)
		pthread_join(writers[i].thread, NULL);
	if (ddl.ops)
		pthread_join(ddl.thread, NULL);
	__atomic_store_n(working_of(), false, __ATOMIC_SEQ_CST);
	for (int i = 0; i < b->nodes; i++)
		if (i != b->primary)
			pthread_join(readers[i].client.thread, NULL);
	if (sim_choose(1, 4) == 3)
	{
		sim_probe("primary-restart");
		node_stop(&nodes[b->primary]);
		node_start(&nodes[b->primary]);
	}
	sim_faults(false);
}

static void
epoch(void)
{
	b = sim_board(sizeof(Board));
	if (! b->init)
	{
		b->init       = true;
		b->nodes      = sim_range(1, 2, NODES);
		b->frontends  = sim_range(1, 1, 2);
		b->backends   = sim_range(1, 1, 2);
		b->partitions = sim_range(1, 1, 2);
		b->worker     = sim_choose(1, 2);
		b->crc        = sim_choose(1, 4) > 0;
		b->wal_size   = sim_choose(1, 2) ? 512 : 0;
		static const int sizes[] = { 1048576, 128, 1 };
		b->readahead  = sizes[sim_choose(1, 3)];
	}
	sys_host();
	if (sim_epoch() < LIVES - 1 && sim_choose(0, 3) == 2)
	{
		static const int ops[] = { 2000, 400, 100, 40 };
		sim_crash_plan(ops[sim_choose(0, 4)]);
		sim_crash_kill_only();
	}
	for (int i = 0; i < b->nodes; i++)
	{
		nodes[i].id = i;
		node_start(&nodes[i]);
	}
	roles(b->next);
	static Client_ c;
	c.id = 93;
	client_open(&c, &nodes[b->primary]);
	tables(&c);
	client_close_(&c);
	converge();
	int rounds = sim_range(1, 1, 3);
	for (int i = 0; i < rounds; i++)
	{
		round_run();
		converge();
		if (sim_choose(1, 3) == 2)
		{
			// promotion of a replica that has everything
			b->next = (b->primary + 1 + sim_choose(1, b->nodes - 1)) % b->nodes;
			sim_probe("promotion");
			roles(b->next);
			converge();
		}
	}
	sim_crash_plan_off();
	for (int i = 0; i < b->nodes; i++)
		node_stop(&nodes[i]);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

SimScenario sim_scenarios[] = {
	{ "C26", "repl", epoch, LIVES, 600000000, 1, 0 },
	{ 0 },
};
const char* sim_real_parts = "two or three whole databases with their replication: streamers, log cursors, HTTP client and server, listeners, replay on the replicas, roles, executor, commit, backends, log, catalog (repository code, instrumented)";
const char* sim_stub_parts = "db/service (checkpoint, gc, recovery loop, index creation: scenario, follows the sources, which do not compile at this commit); disk, network, pthreads scheduling, clock, malloc (simulated)";
const char* sim_rule = "Workload: up to 3 writers and one DDL client on the primary, one reader per replica, 1-3 rounds of faults followed by a quiet phase in which every replica has to catch up; restarts of nodes, promotion of a caught-up replica, kills of the process, up to 3 lives.";
