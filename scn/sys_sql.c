// Transactions through SQL: clients run random transactions over two
// partitioned tables; the history has to be strictly serializable (there is an
// order of the acknowledged transactions that respects real time and explains
// every reply), failed transactions have no effect, and what was acknowledged
// survives restarts and crashes.
#include "sys.h"

#define DIRECTORY "/sim/db"
#define KEYS    6
#define TABLES  2
#define CLIENTS 4
#define ADMIN   (CLIENTS + 1)   // CLIENTS: the main thread
#define LISTS   (CLIENTS + 2)
#define OPS     160
#define STMTS   4
#define NONE    INT32_MIN
#define LIVES   4

enum { M_RUN, M_FAULTS, M_CRASH };
static int mode;

// ------------------------------------------------------------------ model
typedef struct { int32_t v[TABLES][KEYS]; } Model;

enum
{
	S_INSERT,        // k = a [, k2 = b]; a key that exists is an error
	S_UPDATE,        // where id = k: v += a
	S_UPDATE_ALL,    // v += a
	S_DELETE,        // where id = k
	S_DELETE_ALL,
	S_UPSERT,        // k = a, on conflict v += b
	S_NOTHING,       // k = a, on conflict do nothing
	S_COPY,          // insert into t select id, v + a from other where id = k
	S_CHECK,         // error when a row has v = a (division by zero)
	S_IF,            // if k exists in t then v += a in the other table
	S_FOR,           // keys below k: upsert into the other table in a loop
	S_ERROR,
	S_MOVE,          // function: k of t -= a, k2 of the other table += a
	S_SUB,           // v += number of rows of the other table
	S_SELF,          // v += number of rows of t
	S_JOIN,          // insert into t rows of the other one: key + a, where both have the key k
	S_EXISTS,        // if k exists in the other table then insert k2 = a
	S_MAX
};

typedef struct { uint8_t kind, t, k, k2; int32_t a, b; } St;

enum { Q_NONE, Q_ALL, Q_KEY, Q_COUNT, Q_SUM, Q_RANGE, Q_RETURNING, Q_VALUE, Q_JOIN, Q_MAX };

enum { O_PENDING, O_DONE, O_FAILED, O_LOST };

typedef struct
{
	uint8_t  client, epoch, stmts, query, qt, qk, result;
	bool     truncate, strict;
	int32_t  qv;
	uint32_t gen;
	uint64_t inv, resp;
	St       st[STMTS];
	int32_t  reply[KEYS];     // by key (Q_ALL, Q_KEY, Q_RANGE, Q_RETURNING)
	int64_t  number;          // Q_COUNT, Q_SUM
} Txn;

typedef struct
{
	bool     created;
	int      partitions[TABLES], hash[TABLES], block;
	int      frontends, backends, worker;
	bool     sync;
	uint64_t clock;
	int      ops;
	int      created_acked;
	bool     functions, index[TABLES], others;
	bool     power, crc;
	int      wal_size;
	int      exists; // table x is there (-1: not known)
	bool     torn; // the log may end with a record cut by a power failure
	uint32_t gen;
	Model    initial[2];
	Txn       op[OPS];
	int      value;
} Board;

static Board* b;

#define PURE __attribute__((no_sanitize("thread")))

PURE static bool
apply(Model* s, St* st)
{
	auto t = s->v[st->t];
	auto o = s->v[1 - st->t];
	switch (st->kind) {
	case S_INSERT:
		if (t[st->k] != NONE)
			return false;
		t[st->k] = st->a;
		if (st->k2 < KEYS)
		{
			if (t[st->k2] != NONE)
				return false;
			t[st->k2] = st->b;
		}
		break;
	case S_UPDATE:
		if (t[st->k] != NONE)
			t[st->k] += st->a;
		break;
	case S_UPDATE_ALL:
		for (int i = 0; i < KEYS; i++)
			if (t[i] != NONE)
				t[i] += st->a;
		break;
	case S_DELETE:
		t[st->k] = NONE;
		break;
	case S_DELETE_ALL:
		for (int i = 0; i < KEYS; i++)
			t[i] = NONE;
		break;
	case S_UPSERT:
		t[st->k] = t[st->k] == NONE ? st->a : t[st->k] + st->b;
		break;
	case S_NOTHING:
		if (t[st->k] == NONE)
			t[st->k] = st->a;
		break;
	case S_COPY:
		if (o[st->k] == NONE)
			break;
		if (t[st->k] != NONE)
			return false;
		t[st->k] = o[st->k] + st->a;
		break;
	case S_CHECK:
		for (int i = 0; i < KEYS; i++)
			if (t[i] == st->a)
				return false;
		break;
	case S_IF:
		if (t[st->k] != NONE && o[st->k2 % KEYS] != NONE)
			o[st->k2 % KEYS] += st->a;
		break;
	case S_FOR:
		for (int i = 0; i < st->k; i++)
			o[i] = o[i] == NONE ? st->a : o[i] + i;
		break;
	case S_ERROR:
		return false;
	case S_MOVE:
		if (t[st->k] != NONE)
			t[st->k] -= st->a;
		if (o[st->k2] != NONE)
			o[st->k2] += st->a;
		break;
	case S_EXISTS:
		if (o[st->k] == NONE)
			break;
		if (t[st->k2] != NONE)
			return false;
		t[st->k2] = st->a;
		break;
	case S_JOIN:
		// delete the key from t, return to the other table its value
		if (t[st->k] == NONE || o[st->k] == NONE)
			break;
		if (t[st->k2] != NONE)
			return false;
		t[st->k2] = t[st->k] + o[st->k];
		break;
	case S_SUB:
	case S_SELF:
	{
		int count = 0;
		for (int i = 0; i < KEYS; i++)
			count += (st->kind == S_SUB ? o : t)[i] != NONE;
		for (int i = 0; i < KEYS; i++)
			if (t[i] != NONE)
				t[i] += count;
		break;
	}
	}
	return true;
}

// false: the transaction fails in this state
PURE static bool
op_apply(Model* s, Txn* op)
{
	for (int i = 0; i < op->stmts; i++)
		if (! apply(s, &op->st[i]))
			return false;
	return true;
}

PURE static bool
op_reply_is(Model* s, Txn* op)
{
	auto t = s->v[op->qt];
	int64_t sum = 0, count = 0;
	switch (op->query) {
	case Q_ALL:
		for (int i = 0; i < KEYS; i++)
			if (op->reply[i] != t[i])
				return false;
		break;
	case Q_KEY:
	case Q_RETURNING:
		for (int i = 0; i < KEYS; i++)
			if (op->reply[i] != (i == op->qk ? t[i] : NONE))
				return false;
		break;
	case Q_RANGE:
		for (int i = 0; i < KEYS; i++)
			if (op->reply[i] != (i >= op->qk ? t[i] : NONE))
				return false;
		break;
	case Q_VALUE:
		for (int i = 0; i < KEYS; i++)
			if (op->reply[i] != (t[i] != NONE && t[i] >= op->qv ? t[i] : NONE))
				return false;
		break;
	case Q_JOIN:
		for (int i = 0; i < KEYS; i++)
			count += t[i] != NONE && s->v[1 - op->qt][i] != NONE;
		return op->number == count;
	case Q_COUNT:
	case Q_SUM:
		for (int i = 0; i < KEYS; i++)
			if (t[i] != NONE)
			{
				count++;
				sum += t[i];
			}
		if (op->query == Q_COUNT)
			return op->number == count;
		return op->number == (count ? sum : INT64_MIN);
	}
	return true;
}

// ------------------------------------------------------------------ checker
// depth first over per client positions, states seen are kept
#define SEEN (1 << 20)
static uint64_t seen[SEEN];
static int      seen_count;
static Txn*      list[LISTS][OPS];
static int      list_size[LISTS];
static int      best;

PURE static bool
seen_add(uint64_t h)
{
	if (! h)
		h = 1;
	for (uint64_t i = h;; i++)
	{
		auto at = &seen[i % SEEN];
		if (*at == h)
			return false;
		if (! *at)
		{
			*at = h;
			return ++seen_count < SEEN / 2;
		}
	}
}

PURE static bool
search(Model* s, int* pos, int done, int need)
{
	if (done > best)
		best = done;
	if (done == need)
		return true;
	uint64_t h = 14695981039346656037ull;
	for (int i = 0; i < LISTS; i++)
		h = (h ^ pos[i]) * 1099511628211ull;
	for (size_t i = 0; i < sizeof(*s) / sizeof(int32_t); i++)
		h = (h ^ (uint32_t)((int32_t*)s)[i]) * 1099511628211ull;
	h ^= h >> 29;
	if (! seen_add(h))
		return false;

	// the next one has to be invoked before the first of the others returned
	uint64_t first = UINT64_MAX;
	for (int i = 0; i < LISTS; i++)
		for (int j = pos[i]; j < list_size[i]; j++)
			if (list[i][j]->result != O_LOST && list[i][j]->resp < first)
				first = list[i][j]->resp;
	for (int i = 0; i < LISTS; i++)
	{
		if (pos[i] == list_size[i])
			continue;
		auto op = list[i][pos[i]];
		if (op->inv > first)
			continue;
		pos[i]++;
		// the outcome of lost ones is not known
		if (op->result == O_LOST && search(s, pos, done, need))
			return true;
		Model n = *s;
		bool applied = op_apply(&n, op);
		if (op->result == O_FAILED)
		{
			// it had to fail, exactly here
			if (! applied && search(s, pos, done + 1, need))
				return true;
		} else
		if (applied && (op->result == O_LOST || op_reply_is(&n, op)))
			if (search(&n, pos, done + (op->result == O_DONE), need))
				return true;
		pos[i]--;
	}
	return false;
}

static void
put_statement(char* out, int size, St* s);

static void
op_text(Txn* op, char* text, int size)
{
	int n = snprintf(text, size, "client %d [%" PRIu64 ", %" PRIu64 "] %s:", op->client, op->inv, op->resp,
	                 op->result == O_DONE ? "ok" : op->result == O_FAILED ? "failed" : "lost");
	for (int j = 0; j < op->stmts; j++)
	{
		n += snprintf(text + n, size - n, " ");
		put_statement(text + n, size - n, &op->st[j]);
		n = strlen(text);
	}
	if (op->query == Q_COUNT || op->query == Q_SUM || op->query == Q_JOIN)
		n += snprintf(text + n, size - n, " %s t%d = %" PRIi64, op->query == Q_SUM ? "sum" : op->query == Q_JOIN ? "join" : "count", op->qt, op->number);
	else
	if (op->query)
	{
		n += snprintf(text + n, size - n, " query %d t%d k%d =", op->query, op->qt, op->qk);
		for (int i = 0; i < KEYS; i++)
			if (op->reply[i] != NONE)
				n += snprintf(text + n, size - n, " %d:%d", i, op->reply[i]);
	}
}

static void
check_history(const char* where)
{
	int need = 0;
	memset(list_size, 0, sizeof(list_size));
	memset(seen, 0, sizeof(seen));
	seen_count = 0;
	best = 0;
	for (int i = 0; i < b->ops; i++)
	{
		auto op = &b->op[i];
		// of a previous check, or not sent before the crash
		if (op->gen != b->gen || !op->inv)
			continue;
		if (op->result == O_FAILED && !op->strict)
			continue;
		if (op->result == O_PENDING)
			op->result = O_LOST;
		list[op->client][list_size[op->client]++] = op;
		need += op->result != O_LOST;
	}
	int pos[LISTS] = { 0 };
	Model s = b->initial[b->gen % 2];
	if (search(&s, pos, 0, need))
		return;
	if (seen_count >= SEEN / 2)
	{
		sim_probe("checker-gave-up");
		return;
	}
	static char text[1024];
	for (int i = 0; i < b->ops; i++)
	{
		op_text(&b->op[i], text, sizeof(text));
		sim_log("history: %s", text);
	}
	sim_fail("not-serializable", "%s: no order of the %d acknowledged transactions explains the replies (at most %d of them)", where, need, best);
}

// ------------------------------------------------------------------ sql
static void
put_statement(char* out, int size, St* s)
{
	int t = s->t, o = 1 - s->t;
	switch (s->kind) {
	case S_INSERT:
		if (s->k2 < KEYS)
			snprintf(out, size, "insert into t%d values (%d, %d), (%d, %d)", t, s->k, s->a, s->k2, s->b);
		else
			snprintf(out, size, "insert into t%d values (%d, %d)", t, s->k, s->a);
		break;
	case S_UPDATE:
		snprintf(out, size, "update t%d set v = v + %d where id = %d", t, s->a, s->k);
		break;
	case S_UPDATE_ALL:
		snprintf(out, size, "update t%d set v = v + %d", t, s->a);
		break;
	case S_DELETE:
		snprintf(out, size, "delete from t%d where id = %d", t, s->k);
		break;
	case S_DELETE_ALL:
		snprintf(out, size, "delete from t%d", t);
		break;
	case S_UPSERT:
		snprintf(out, size, "insert into t%d values (%d, %d) on conflict do update set v = v + %d", t, s->k, s->a, s->b);
		break;
	case S_NOTHING:
		snprintf(out, size, "insert into t%d values (%d, %d) on conflict do nothing", t, s->k, s->a);
		break;
	case S_COPY:
		snprintf(out, size, "insert into t%d select id, v + %d from t%d where id = %d", t, s->a, o, s->k);
		break;
	case S_CHECK:
		snprintf(out, size, "update t%d set v = v + 0 / (v - %d)", t, s->a);
		break;
	case S_IF:
		snprintf(out, size, "select count(*) into c from t%d where id = %d; if c > 0 then update t%d set v = v + %d where id = %d; end", t, s->k, o, s->a, s->k2 % KEYS);
		break;
	case S_FOR:
		snprintf(out, size, "i := 0; while i < %d do insert into t%d values (i, %d) on conflict do update set v = v + i; i := i + 1; end", s->k, o, s->a);
		break;
	case S_MOVE:
		snprintf(out, size, "execute move%d(%d, %d, %d)", t, s->k, s->k2, s->a);
		break;
	case S_EXISTS:
		snprintf(out, size, "insert into t%d select %d, %d from t%d where id = %d and exists (select id from t%d where id = %d)", t, s->k2, s->a, o, s->k, o, s->k);
		break;
	case S_JOIN:
		snprintf(out, size, "insert into t%d select %d, t%d.v + t%d.v from t%d join t%d on t%d.id = t%d.id where t%d.id = %d", t, s->k2, t, o, t, o, t, o, t, s->k);
		break;
	case S_SUB:
		snprintf(out, size, "select count(*) into c from t%d; update t%d set v = v + c", o, t);
		break;
	case S_SELF:
		snprintf(out, size, "select count(*) into c from t%d; update t%d set v = v + c", t, t);
		break;
	case S_ERROR:
		snprintf(out, size, "select error(\"planned\")");
		break;
	}
}

static void
put_op(Txn* op, char* out, int size)
{
	char text[256];
	int n = 0;
	if (op->truncate)
	{
		snprintf(out, size, "truncate t%d", op->st[0].t);
		return;
	}
	bool last = op->query != Q_NONE && op->query != Q_RETURNING;
	bool block = op->stmts + last > 1;
	for (int i = 0; i < op->stmts; i++)
		block |= op->st[i].kind == S_IF || op->st[i].kind == S_FOR || op->st[i].kind == S_SUB || op->st[i].kind == S_SELF;
	*out = 0;
	if (block)
		n += snprintf(out + n, size - n, "begin declare c int; declare i int; ");
	for (int i = 0; i < op->stmts; i++)
	{
		put_statement(text, sizeof(text), &op->st[i]);
		bool ret = op->query == Q_RETURNING && i == op->stmts - 1;
		n += snprintf(out + n, size - n, "%s%s%s ", text, ret ? " returning id, v" : "", block ? ";" : "");
	}
	int t = op->qt;
	switch (op->query) {
	case Q_ALL:   n += snprintf(out + n, size - n, "select id, v from t%d", t); break;
	case Q_KEY:   n += snprintf(out + n, size - n, "select id, v from t%d where id = %d", t, op->qk); break;
	case Q_RANGE: n += snprintf(out + n, size - n, "select id, v from t%d where id >= %d", t, op->qk); break;
	case Q_COUNT: n += snprintf(out + n, size - n, "select count(*) from t%d", t); break;
	case Q_VALUE: n += snprintf(out + n, size - n, "select id, v from t%d where v >= %d", t, op->qv); break;
	case Q_JOIN:  n += snprintf(out + n, size - n, "select count(*) from t%d join t%d on t%d.id = t%d.id", t, 1 - t, t, 1 - t); break;
	case Q_SUM:   n += snprintf(out + n, size - n, "select sum(v) from t%d", t); break;
	}
	if (block)
		n += snprintf(out + n, size - n, "%s end", last ? ";" : "");
}

static void
make_op(Txn* op, int st)
{
	op->stmts = sim_choose(st, 3) ? 1 : sim_choose(st, STMTS);
	for (int i = 0; i < op->stmts; i++)
	{
		auto s = &op->st[i];
		static const uint8_t kinds[] = {
			S_INSERT, S_UPDATE, S_INSERT, S_UPSERT, S_UPDATE, S_DELETE, S_UPDATE_ALL, S_UPSERT,
			S_NOTHING, S_COPY, S_CHECK, S_IF, S_FOR, S_DELETE, S_ERROR, S_DELETE_ALL,
			S_MOVE, S_MOVE, S_SUB, S_SELF, S_JOIN, S_EXISTS };
		s->kind = kinds[sim_choose(st, sizeof(kinds))];
		if (s->kind == S_MOVE && !b->functions)
			s->kind = S_UPDATE;
		s->t  = sim_choose(st, TABLES);
		s->k  = sim_choose(st, KEYS);
		s->k2 = s->kind == S_INSERT && sim_choose(st, 2) ? KEYS : (s->k + 1 + sim_choose(st, KEYS - 1)) % KEYS;
		s->a  = __atomic_add_fetch(&b->value, 1, __ATOMIC_RELAXED);
		s->b  = __atomic_add_fetch(&b->value, 1, __ATOMIC_RELAXED);
		if (s->kind == S_CHECK)
			s->a = sim_choose(st, s->a + 1);
	}
	bool alone = false;
	for (int i = 0; i < op->stmts; i++)
		if (op->st[i].kind == S_MOVE)
			op->st[0] = op->st[i], alone = true;
	if (alone)
	{
		// EXECUTE cannot be a part of a block
		op->stmts = 1;
		return;
	}
	op->query = sim_choose(st, Q_MAX);
	if (op->query == Q_RETURNING)
		op->query = Q_ALL;
	op->qv    = sim_choose(st, b->value + 1);
	op->qt    = sim_choose(st, TABLES);
	op->qk    = sim_choose(st, KEYS);
	if (op->stmts == 0 && op->query == Q_NONE)
		op->query = Q_ALL;
	if (op->stmts && op->query == Q_NONE)
	{
		auto s = &op->st[op->stmts - 1];
		if ((s->kind == S_UPDATE || s->kind == S_UPSERT) && sim_choose(st, 2))
		{
			op->query = Q_RETURNING;
			op->qt = s->t;
			op->qk = s->k;
		}
	}
}

// [[id, v], ...] or [n]
static void
parse_reply(Txn* op, char* out, const char* sql)
{
	for (int i = 0; i < KEYS; i++)
		op->reply[i] = NONE;
	op->number = INT64_MIN;
	if (op->query == Q_NONE)
		return;
	auto p = out;
	sim_check(*p == '[', "reply", "%s: reply '%s'", sql, out);
	p++;
	if (op->query == Q_COUNT || op->query == Q_SUM || op->query == Q_JOIN)
	{
		if (strncmp(p, "null", 4))
		{
			char* end;
			op->number = strtoll(p, &end, 10);
			sim_check(end != p && *end == ']', "reply", "%s: reply '%s'", sql, out);
		}
		return;
	}
	while (*p != ']')
	{
		if (*p == ',' || *p == ' ' || *p == '\n')
		{
			p++;
			continue;
		}
		long id = -1, v = 0;
		int n = 0;
		sim_check(sscanf(p, "[%ld, %ld]%n", &id, &v, &n) == 2 && n, "reply", "%s: reply '%s'", sql, out);
		sim_check(id >= 0 && id < KEYS, "reply", "%s: reply '%s'", sql, out);
		sim_check(op->reply[id] == NONE, "reply-duplicate", "%s: key %ld is there twice: %s", sql, id, out);
		op->reply[id] = v;
		p += n;
	}
}

// ------------------------------------------------------------------ clients
#define clock_next() __atomic_add_fetch(&b->clock, 1, __ATOMIC_SEQ_CST)

typedef struct
{
	int               id, ops, pipeline;
	amelie_session_t* session;
	pthread_t         thread;
	char              sql[4][1024];
	char              out[1024];
} Worker;

static amelie_t* env;
static bool      strict;
static Worker    workers[CLIENTS];
static int       clients;

static Txn*
op_new(int client)
{
	int at = __atomic_fetch_add(&b->ops, 1, __ATOMIC_SEQ_CST);
	sim_check(at < OPS, "harness", "too many operations");
	auto op = &b->op[at];
	memset(op, 0, sizeof(*op));
	op->client = client;
	op->epoch  = sim_epoch();
	op->gen    = b->gen;
	return op;
}

static void
op_done(Worker* self, Txn* op, amelie_request_t* req, const char* sql)
{
	amelie_arg_t result = { NULL, 0 };
	int code = amelie_wait(req, -1, &result);
	sim_check(result.data_size < sizeof(self->out), "reply", "%s: reply has %zu bytes", sql, result.data_size);
	memcpy(self->out, result.data, result.data_size);
	self->out[result.data_size] = 0;
	amelie_free(req);
	sim_log("client %d: %d %s: %s", self->id, code, sql, self->out);
	if (code == 200 || code == 204)
	{
		sim_check((code == 200) == (op->query != Q_NONE), "reply", "%s: code %d, reply '%s'", sql, code, self->out);
		parse_reply(op, self->out, sql);
		op->resp   = clock_next();
		op->result = O_DONE;
		return;
	}
	sim_check(code == 400, "reply", "%s: code %d, reply '%s'", sql, code, self->out);
	op->resp   = clock_next();
	op->result = O_FAILED;
	sim_probe("transaction-failed");
	if (strstr(self->out, "aborted during commit"))
	{
		// strict: one client, no aborts of others
		if (mode == M_FAULTS && sim_faults_on())
			op->strict = false;
		sim_probe("cascade-abort");
	} else
	if (! (strstr(self->out, "planned") || strstr(self->out, "zero") || strstr(self->out, "unique")))
	{
		if (mode != M_FAULTS)
			sim_fail("unexpected-error", "%s: %s", sql, self->out);
		op->strict = false;
	}
}

static void*
worker_main(void* arg)
{
	Worker* self = arg;
	int st = 8 + self->id;
	self->session = amelie_connect(env, "amelie://");
	Txn* ops[4];
	amelie_request_t* reqs[4];
	for (int i = 0; i < self->ops;)
	{
		int n = 1 + sim_choose(st, self->pipeline);
		for (int j = 0; j < n; j++)
		{
			auto op = ops[j] = op_new(self->id);
			make_op(op, st);
			put_op(op, self->sql[j], sizeof(self->sql[j]));
			sim_log("client %d: > %s", self->id, self->sql[j]);
			op->inv = clock_next();
			op->strict = strict;
			reqs[j] = amelie_execute(self->session, self->sql[j], 0, NULL, NULL, NULL);
		}
		for (int j = 0; j < n; j++)
			op_done(self, ops[j], reqs[j], self->sql[j]);
		i += n;
	}
	amelie_free(self->session);
	return NULL;
}

// ------------------------------------------------------------------ epoch
static bool
sql(Worker* self, const char* text)
{
	int code = sys_sql(self->session, text, self->out, sizeof(self->out));
	sim_log("%d %s: %s", code, text, self->out);
	if (mode == M_FAULTS && code == 400 && sim_faults_on())
	{
		sim_probe("statement-failed");
		return false;
	}
	sim_check(code == 204, "statement", "%s: %d %s", text, code, self->out);
	return true;
}

static void
read_all(Worker* self, const char* where)
{
	Model now;
	if (b->exists != -1)
	{
		int code = sys_sql(self->session, "select id from x", self->out, sizeof(self->out));
		sim_check(code == (b->exists ? 200 : 400), "table", "%s: table x %s: %d %s", where, b->exists ? "was created" : "does not exist", code, self->out);
	}
	for (int t = 0; t < TABLES; t++)
	{
		auto op = op_new(self->id);
		op->query = Q_ALL;
		op->qt    = t;
		put_op(op, self->sql[0], sizeof(self->sql[0]));
		op->inv = clock_next();
		op_done(self, op, amelie_execute(self->session, self->sql[0], 0, NULL, NULL, NULL), self->sql[0]);
		sim_check(op->result == O_DONE, "read-failed", "%s failed: %s", self->sql[0], self->out);
		memcpy(now.v[t], op->reply, sizeof(now.v[t]));
	}
	check_history(where);
	// what was read is the truth from now on
	b->initial[(b->gen + 1) % 2] = now;
	__atomic_store_n(&b->gen, b->gen + 1, __ATOMIC_SEQ_CST);
	__atomic_store_n(&b->ops, 0, __ATOMIC_SEQ_CST);
	uint64_t h = 0;
	for (int t = 0; t < TABLES; t++)
		for (int k = 0; k < KEYS; k++)
			h = h * 31 + (now.v[t][k] != NONE);
	sim_state(h);
}

// ------------------------------------------------------------------ admin
static void*
admin_main(void* arg)
{
	Worker* self = arg;
	int st = 20;
	self->session = amelie_connect(env, "amelie://");
	auto text = self->sql[0];
	for (int i = 0; i < self->ops; i++)
	{
		int t = sim_choose(st, TABLES);
		switch (sim_choose(st, 8)) {
		case 0: case 1: case 2:
			snprintf(text, 1024, "checkpoint");
			break;
		case 3:
			// functions depend on the table
			if (b->index[t] && b->functions)
				continue;
			if (b->index[t])
				snprintf(text, 1024, "drop index if exists i on t%d", t);
			else
				snprintf(text, 1024, "create index if not exists i on t%d (id) using tree", t);
			b->index[t] = !b->index[t];
			break;
		case 4:
		{
			auto op = op_new(ADMIN);
			op->stmts     = 1;
			op->st[0].t   = t;
			op->st[0].kind = S_DELETE_ALL;
			op->truncate  = true;
			put_op(op, text, 1024);
			op->inv = clock_next();
			sim_log("admin: > %s", text);
			op_done(self, op, amelie_execute(self->session, text, 0, NULL, NULL, NULL), text);
			continue;
		}
		case 5:
			// a statement that failed is done again
			if (b->exists == -1 || b->others == (b->exists == 1))
				b->others = !b->others;
			snprintf(text, 1024, b->others ? "create table if not exists x (id int primary key, v int) partitions 2" : "drop table if exists x");
			break;
		case 6:
			snprintf(text, 1024, "alter table t%d set identity to %d", t, (int)sim_choose(st, 100));
			break;
		case 7:
			if (! b->functions)
				continue;
			snprintf(text, 1024, "create or replace function move2(k int) begin update t%d set v = v + 1 where id = k; end", t);
			break;
		}
		sim_log("admin: > %s", text);
		bool other = strstr(text, "exists x") != NULL;
		int  was   = b->exists;
		if (other)
			b->exists = -1;
		bool ok = sql(self, text);
		if (other)
			b->exists = ok ? b->others : was;
	}
	amelie_free(self->session);
	return NULL;
}

static void
config_choose(void)
{
	b->frontends = sim_range(1, 1, 3);
	b->backends  = sim_range(1, 1, 3);
	b->worker    = sim_choose(1, 2);
	b->sync      = sim_choose(1, 2);
	b->functions = sim_choose(1, 2);
	b->crc       = sim_choose(1, 4) > 0;
	b->wal_size  = mode != M_RUN && sim_choose(1, 2) ? 512 : 0;
	for (int i = 0; i < TABLES; i++)
	{
		b->partitions[i] = sim_range(1, 1, 3);
		b->hash[i]       = sim_choose(1, 2);
	}
	for (int t = 0; t < TABLES; t++)
		for (int k = 0; k < KEYS; k++)
			b->initial[0].v[t][k] = NONE;
}

static void
tables_create(Worker* self)
{
	static char text[256];
	for (int i = b->created_acked; i < TABLES; i++)
	{
		snprintf(text, sizeof(text), "create table if not exists t%d (id int primary key using %s, v int) partitions %d", i, b->hash[i] ? "hash" : "tree", b->partitions[i]);
		sql(self, text);
		b->created_acked = i + 1;
	}
	if (! b->functions)
		return;
	for (int i = b->created_acked - TABLES; i < TABLES; i++)
	{
		snprintf(text, sizeof(text), "create or replace function move%d(k int, k2 int, a int) begin update t%d set v = v - a where id = k; update t%d set v = v + a where id = k2; end", i, i, 1 - i);
		sql(self, text);
		b->created_acked = TABLES + i + 1;
	}
}

static void
faults_on(void)
{
	// a failed write of the log that cannot be undone stops the process
	int rate   = sim_choose(1, 2) ? 50 : 400;
	bool write = sim_choose(1, 2);
	sim_fault_rate(SIM_F_WRITE_ENOSPC, write ? 2 * rate : 0);
	sim_fault_rate(SIM_F_WRITE_EIO, write ? rate : 0);
	sim_fault_rate(SIM_F_FSYNC_EIO, write ? 2 * rate : 0);
	sim_fault_rate(SIM_F_META_EIO, write ? 0 : 2 * rate);
	sim_fault_rate(SIM_F_OPEN_EIO, write ? 0 : 2 * rate);
	sim_fault_rate(SIM_F_READ_EIO, write ? 0 : rate);
	sim_faults(true);
}

static void
log_file_remove(void* arg, const char* name)
{
	unused(arg);
	char path[256];
	snprintf(path, sizeof(path), DIRECTORY "/wal/%s", name);
	if (unlink(path))
		sim_broken("unlink");
}

static void
db_start(SysArgs* args)
{
	if (sim_epoch() && sim_last_crashed() && sim_crash_kind() != 1)
		b->torn = true;
	env = amelie_init();
	int rc = amelie_open(env, DIRECTORY, args->argc, args->argv);
	if (rc != 0 && b->torn)
	{
		// a record cut by a power failure: the operator truncates the log
		// to the last valid lsn, which is reported in the log of the server
		auto file = sim_disk_file(DIRECTORY "/log");
		static const char mark[] = "last valid lsn is: ";
		int64_t lsn = -1;
		for (size_t i = 0; file.exists && i + sizeof(mark) < file.size; i++)
			if (! memcmp(file.data + i, mark, sizeof(mark) - 1))
				lsn = strtoll((char*)file.data + i + sizeof(mark) - 1, NULL, 10);
		sim_check(lsn >= 0, "open", "amelie_open() failed after a power failure");
		sim_log("truncate the log to %" PRIi64, lsn);
		sim_probe("log-tail-cut");
		amelie_free(env);
		if (lsn == 0)
			sim_disk_list(DIRECTORY "/wal", log_file_remove, NULL);
		else
			sys_arg(args, "--wal_truncate=%" PRIi64, lsn);
		env = amelie_init();
		rc = amelie_open(env, DIRECTORY, args->argc, args->argv);
	}
	sim_check(rc == 0, "open", "amelie_open() failed");
	b->torn = false;
}

static void
epoch(void)
{
	b = sim_board(sizeof(Board));
	if (sim_epoch() == 0)
		config_choose();
	sys_host();
	if (mode != M_RUN && sim_epoch() < LIVES - 1 && (mode == M_CRASH || sim_choose(0, 3) == 2))
	{
		static const int ops[] = { 2000, 400, 100, 40 };
		sim_crash_plan(ops[sim_choose(0, 4)]);
		if (! (b->sync && b->crc))
			sim_crash_kill_only();
	}
	SysArgs args;
	args.argc = 0;
	sys_arg(&args, "--log_to_stdout=%s", getenv("SIM_LOGOUT") ? "true" : "false");
	sys_arg(&args, "--listen=[]");
	sys_arg(&args, "--cpu_affinity=false");
	sys_arg(&args, "--frontends=%d", b->frontends);
	sys_arg(&args, "--backends=%d", b->backends);
	sys_arg(&args, "--jobs=1");
	sys_arg(&args, "--wal_worker=%s", b->worker ? "true" : "false");
	sys_arg(&args, "--wal_sync_on_write=%s", b->sync ? "true" : "false");
	sys_arg(&args, "--wal_sync_on_create=%s", b->sync ? "true" : "false");
	sys_arg(&args, "--wal_sync_on_close=%s", b->sync ? "true" : "false");
	sys_arg(&args, "--storage_sync=%s", b->sync ? "true" : "false");
	sys_arg(&args, "--wal_crc=%s", b->crc ? "true" : "false");
	if (b->wal_size)
		sys_arg(&args, "--wal_size=%d", b->wal_size);
	db_start(&args);
	static Worker main;
	main.id      = CLIENTS;
	main.session = amelie_connect(env, "amelie://");
	tables_create(&main);
	if (sim_epoch())
		read_all(&main, "after restart");

	if (mode == M_FAULTS && sim_epoch() < LIVES - 1)
		faults_on();
	clients = sim_range(1, 1, CLIENTS);
	strict  = clients == 1;
	for (int i = 0; i < clients; i++)
	{
		auto w = &workers[i];
		w->id       = i;
		w->ops      = sim_range(1, 1, 7);
		w->pipeline = sim_range(1, 1, 3);
		if (pthread_create(&w->thread, NULL, worker_main, w))
			sim_broken("thread");
	}
	static Worker admin;
	admin.id  = ADMIN;
	admin.ops = sim_choose(1, 2) ? sim_range(1, 1, 4) : 0;
	if (admin.ops)
	{
		strict = false;
		if (pthread_create(&admin.thread, NULL, admin_main, &admin))
			sim_broken("thread");
	}
	for (int i = 0; i < clients; i++)
		pthread_join(workers[i].thread, NULL);
	if (admin.ops)
		pthread_join(admin.thread, NULL);
	sim_faults(false);
	read_all(&main, "after the clients");
	if (mode != M_RUN)
		sim_crash_plan_off();

	amelie_free(main.session);
	amelie_free(env);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

static void
epoch_crash(void)
{
	mode = M_CRASH;
	epoch();
}

static void
epoch_faults(void)
{
	mode = M_FAULTS;
	epoch();
}

SimScenario sim_scenarios[] = {
	{ "C23", "sql", epoch, 2, 400000000, 1, 0 },
	{ "C24", "crash", epoch_crash, LIVES, 400000000, 1, 0 },
	{ "C25", "faults", epoch_faults, LIVES, 400000000, 1, 0 },
	{ 0 },
};
const char* sim_real_parts = "the whole database: public API, native clients, frontends, sessions, parser, compiler, VM, executor, commit, backends, partitions, indexes, transactions, catalog, log (repository code, instrumented)";
const char* sim_stub_parts = "db/service (checkpoint, gc, recovery loop, index creation: scenario, follows the sources, which do not compile at this commit); disk, pthreads scheduling, clock, malloc (simulated)";
const char* sim_rule = "Workload: up to 4 clients with pipelined single and multi-statement transactions over two tables of 1-3 partitions (all DML, joins, subqueries, loops, functions, planned errors), checkpoints, indexes, truncation and DDL at the same time, up to 3 lives.";
