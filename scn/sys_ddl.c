// Definitions: every client owns tables, functions, databases and storages of
// its own and changes their definition and contents, all at the same time,
// through checkpoints, crashes and disk errors. What a client sees of its own
// relations is exactly what a model of its statements says.
#include "sys.h"

#define DIRECTORY "/sim/db"
#define CLIENTS 3
#define LIVES   4
#define NAMES   3   // names of tables, of databases and of storages
#define COLS    6   // positions of columns
#define CNAMES  4
#define KEYS    5
#define INDEXES 2

enum { M_RUN, M_FAULTS, M_CRASH };
static int mode;

typedef struct
{
	bool dropped, has_default, not_null;
	int  name;  // -1: id
	int  def;
	int  refs;
} Col;

typedef struct
{
	bool there;
	bool set[COLS];
	int  v[COLS];
} Row_;

typedef struct
{
	bool there;
	int  count;
	Col  col[COLS];
	struct { bool there; int col; } index[INDEXES];
	Row_ row[KEYS];
} Table_;

typedef struct
{
	Table_ t[NAMES];
	bool   db[NAMES], storage[NAMES];
	bool   udf;
	int    udf_table, udf_col; // name of the table, position of the column
} Model;

typedef struct
{
	int      mode, frontends, backends, worker, wal_size;
	bool     sync, crc, torn;
	bool     pending[CLIENTS];
	Model    cur[CLIENTS], next[CLIENTS];
} Board;

static Board*   b;
static amelie_t* env;

typedef struct
{
	int               id, st, ops;
	amelie_session_t* session;
	pthread_t         thread;
	char              sql[1024];
	char              out[65536];
	Model             m; // next
} Client_;
static Client_ client[CLIENTS + 1];
static int     working;

// ------------------------------------------------------------------ tools
static const char*
col_name(Col* self)
{
	static const char* names[] = { "id", "c0", "c1", "c2", "c3" };
	return names[self->name + 1];
}

static Table_*
udf_on(Model* m, int name)
{
	return m->udf && m->udf_table == name ? &m->t[name] : NULL;
}

static int
col_find(Table_* self, int name)
{
	for (int i = 0; i < self->count; i++)
		if (!self->col[i].dropped && self->col[i].name == name)
			return i;
	return -1;
}

static int
ask(Client_* self)
{
	int code = sys_sql(self->session, self->sql, self->out, sizeof(self->out));
	sim_log("%d: %d %s: %s", self->id, code, self->sql, self->out);
	return code;
}

// executed over a transaction of a session that failed
static bool
aborted(Client_* self)
{
	return strstr(self->out, "transaction aborted during commit") != NULL;
}

static int
ask_again(Client_* self)
{
	int code = 0;
	for (int i = 0; i < 100; i++)
	{
		code = ask(self);
		if (code != 400 || !aborted(self))
			break;
	}
	return code;
}

#define text(self, ...) snprintf((self)->sql, sizeof((self)->sql), __VA_ARGS__)
#define more(self, ...) do { \
	int at = strlen((self)->sql); \
	snprintf((self)->sql + at, sizeof((self)->sql) - at, __VA_ARGS__); \
} while (0)

// execute a statement which changes the state of the client to self->m when
// it is valid and has no effect otherwise
static bool
change(Client_* self, bool valid)
{
	b->next[self->id]    = valid ? self->m : b->cur[self->id];
	__atomic_store_n(&b->pending[self->id], true, __ATOMIC_SEQ_CST);
	int code = ask(self);
	bool done = code == 204 || code == 200;
	sim_check(done || code == 400, "reply", "%s: %d", self->sql, code);
	if (mode == M_FAULTS && sim_faults_on() && !done && valid)
		sim_probe("statement-failed");
	else
	if (!done && aborted(self))
		sim_probe("cascade");
	else
		sim_check(done == valid, "statement", "%s: %d %s, but it is %s", self->sql, code, self->out, valid ? "valid" : "not valid");
	if (done)
		b->cur[self->id] = self->m;
	__atomic_store_n(&b->pending[self->id], false, __ATOMIC_SEQ_CST);
	return done;
}

// ------------------------------------------------------------------ check
static int // next value, INT32_MIN: null, -1: none
value_next(const char** pos, bool* more_)
{
	auto p = *pos;
	while (*p == ' ' || *p == ',' || *p == '[' || *p == ']')
		p++;
	*more_ = *p != 0;
	int v = INT32_MIN;
	if (! strncmp(p, "null", 4))
		p += 4;
	else
	if (*p)
	{
		char* end;
		v = (int)strtol(p, &end, 10);
		if (end == p)
			*more_ = false;
		p = end;
	}
	*pos = p;
	return v;
}

// why the table is not the one of the model, NULL: it is
static const char*
differs(Client_* self, Model* m, int name)
{
	auto t = &m->t[name];
	static char why[CLIENTS + 1][128];
	auto w = why[self->id];
	auto who = self->id;
	text(self, "select * from w%d_%c", who, 'a' + name);
	int code = ask_again(self);
	if (code != (t->there ? 200 : 400))
		return t->there ? "it does not exist" : "it exists";
	if (! t->there)
		return NULL;
	// rows
	int rows = 0, cols = 0;
	for (int i = 0; i < KEYS; i++)
		rows += t->row[i].there;
	for (int i = 0; i < t->count; i++)
		cols += !t->col[i].dropped;
	const char* pos = self->out;
	bool seen[KEYS] = { false };
	for (int r = 0; ; r++)
	{
		bool more_;
		int  v[COLS];
		for (int i = 0; i < cols; i++)
		{
			v[i] = value_next(&pos, &more_);
			if (!more_ && i == 0)
				break;
			if (! more_)
				return "row is cut";
		}
		if (! more_)
		{
			if (r == rows)
				break;
			snprintf(w, 128, "%d rows of %d", r, rows);
			return w;
		}
		if (r == rows)
			return "it has more rows";
		int k = v[0];
		if (k < 0 || k >= KEYS || !t->row[k].there || seen[k])
		{
			snprintf(w, 128, "unexpected row %d", k);
			return w;
		}
		seen[k] = true;
		for (int i = 0, at = 0; i < t->count; i++)
		{
			if (t->col[i].dropped)
				continue;
			int want = i == 0 ? k : t->row[k].set[i] ? t->row[k].v[i] : INT32_MIN;
			if (v[at] != want)
			{
				snprintf(w, 128, "row %d column %s is %d, not %d", k, col_name(&t->col[i]), v[at], want);
				return w;
			}
			at++;
		}
	}
	// definition
	text(self, "show table w%d_%c extended", who, 'a' + name);
	code = ask(self);
	if (code != 200)
		return "show table failed";
	auto out = self->out;
	for (int i = 0; i < INDEXES; i++)
	{
		char mark[16];
		snprintf(mark, sizeof(mark), "\"name\": \"i%d\"", i);
		if ((strstr(out, mark) != NULL) != t->index[i].there)
		{
			snprintf(w, 128, "index i%d %s", i, t->index[i].there ? "is missing" : "is there");
			return w;
		}
	}
	auto at = out;
	for (int i = 0; ; i++)
	{
		char* next = strstr(at, "\"dropped\": ");
		if (! next)
		{
			if (i == t->count)
				break;
			return "column is missing";
		}
		if (i == t->count)
			return "it has more columns";
		auto col = &t->col[i];
		bool dropped = !strncmp(next + 11, "true", 4);
		if (dropped != col->dropped)
		{
			snprintf(w, 128, "column %d %s dropped", i, dropped ? "is" : "is not");
			return w;
		}
		char mark[24];
		snprintf(mark, sizeof(mark), "\"name\": \"%s\"", col_name(col));
		char* found = strstr(at, mark);
		if (!dropped && (!found || found > next))
		{
			snprintf(w, 128, "column %d is not %s", i, col_name(col));
			return w;
		}
		char* end = strstr(next, "}");
		if (! end)
			return "definition";
		char* nn = strstr(next, "\"not_null\", true");
		bool not_null = nn && nn < end;
		if (!dropped && not_null != col->not_null)
		{
			snprintf(w, 128, "column %s %s null", col_name(col), not_null ? "cannot be" : "can be");
			return w;
		}
		at = end;
	}
	return NULL;
}

static const char*
differs_any(Client_* self, Model* m, int* name)
{
	for (int i = 0; i < NAMES; i++)
	{
		auto why = differs(self, m, i);
		*name = i;
		if (why)
			return why;
	}
	// databases and storages
	for (int kind = 0; kind < 2; kind++)
	{
		text(self, "show %s", kind ? "storages" : "databases");
		if (ask(self) != 200)
			return "show failed";
		for (int i = 0; i < NAMES; i++)
		{
			char mark[24];
			snprintf(mark, sizeof(mark), "\"%c%d_%c\"", kind ? 's' : 'd', self->id, 'a' + i);
			bool there = strstr(self->out, mark) != NULL;
			if (there != (kind ? m->storage[i] : m->db[i]))
				return kind ? "storages" : "databases";
		}
	}
	text(self, "show functions");
	if (ask(self) != 200)
		return "show failed";
	char mark[24];
	snprintf(mark, sizeof(mark), "\"f%d\"", self->id);
	if ((strstr(self->out, mark) != NULL) != m->udf)
		return "function";
	return NULL;
}

static void
check_state(Client_* self, const char* where)
{
	int name = 0;
	auto w = self->id;
	auto why = differs_any(self, &b->cur[w], &name);
	if (why && b->pending[w])
	{
		sim_probe("statement-survived");
		why = differs_any(self, &b->next[w], &name);
		if (! why)
			b->cur[w] = b->next[w];
	}
	sim_check(!why, "state", "%s: client %d, table %c%s: %s", where, w, 'a' + name, b->pending[w] ? " (or after the pending statement)" : "", why);
	b->pending[w] = false;
}

// ------------------------------------------------------------------ change
static bool
row_write(Table_* t, int key, int mask, const int* v)
{
	auto row = &t->row[key];
	if (row->there)
		return false;
	row->there = true;
	for (int i = 1; i < t->count; i++)
	{
		auto col = &t->col[i];
		row->set[i] = true;
		if (! col->dropped && (mask & (1 << i)))
			row->v[i] = v[i];
		else
		if (!col->dropped && col->has_default)
			row->v[i] = col->def;
		else
			row->set[i] = false;
		if (!col->dropped && !row->set[i] && col->not_null)
			return false;
	}
	return true;
}

static void
table_new(Client_* self, Table_* t)
{
	int st = self->st;
	memset(t, 0, sizeof(*t));
	t->there = true;
	t->count = 2 + sim_choose(st, 2);
	t->col[0].name     = -1;
	t->col[0].not_null = true;
	t->col[0].refs     = 1;
	for (int i = 1; i < t->count; i++)
	{
		t->col[i].name        = i - 1;
		t->col[i].not_null    = sim_choose(st, 3) == 2;
		t->col[i].has_default = sim_choose(st, 2);
		t->col[i].def         = sim_choose(st, 100);
	}
}

static void
relations(Client_* self)
{
	auto st = self->st;
	auto m  = &self->m;
	int  kind = sim_choose(st, 2);
	auto set  = kind ? m->storage : m->db;
	auto word = kind ? "storage" : "database";
	int  n = sim_choose(st, NAMES), n2 = sim_choose(st, NAMES);
	char c = kind ? 's' : 'd';
	bool valid;
	switch (sim_choose(st, 3)) {
	case 0:
		text(self, "create %s %c%d_%c", word, c, self->id, 'a' + n);
		valid  = !set[n];
		set[n] = true;
		break;
	case 1:
		text(self, "drop %s %c%d_%c", word, c, self->id, 'a' + n);
		valid  = set[n];
		set[n] = false;
		break;
	default:
		text(self, "alter %s %c%d_%c rename to %c%d_%c", word, c, self->id, 'a' + n, c, self->id, 'a' + n2);
		valid   = set[n] && !set[n2];
		set[n]  = false;
		set[n2] = true;
		break;
	}
	change(self, valid);
}

static void
step(Client_* self)
{
	auto st = self->st;
	auto m  = &self->m;
	*m = b->cur[self->id];
	int  w = self->id, n = sim_choose(st, NAMES);
	// mostly tables which are there
	for (int i = 0; i < 2 && !m->t[n].there; i++)
		n = sim_choose(st, NAMES);
	auto t    = &m->t[n];
	char name = 'a' + n;
	bool udf  = udf_on(m, n) != NULL;
	// a column which is there
	int  c = t->there ? (int)sim_choose(st, t->count) : 0;
	bool cthere = t->there && !t->col[c].dropped;
	int  free_ = sim_choose(st, CNAMES);
	int  k = sim_choose(st, KEYS), v = sim_choose(st, 50);
	int  op = sim_choose(st, 26);
	if (!t->there && op > 4 && op < 22)
		op = 0;
	switch (op) {
	case 0: case 1:
	{
		bool was  = t->there;
		auto save = *t;
		bool maybe = sim_choose(st, 3) == 2;
		table_new(self, t);
		text(self, "create table %sw%d_%c (id int primary key using %s", maybe ? "if not exists " : "", w, name, sim_choose(st, 2) ? "hash" : "tree");
		for (int i = 1; i < t->count; i++)
		{
			more(self, ", %s int", col_name(&t->col[i]));
			if (t->col[i].has_default)
				more(self, " default %d", t->col[i].def);
			if (t->col[i].not_null)
				more(self, " not null");
		}
		more(self, ") partitions %d", (int)sim_range(st, 1, 3));
		if (was)
			*t = save;
		change(self, !was || maybe);
		break;
	}
	case 2:
	{
		bool maybe = sim_choose(st, 2);
		text(self, "drop table %sw%d_%c", maybe ? "if exists " : "", w, name);
		bool valid = (t->there || maybe) && !udf;
		memset(t, 0, sizeof(*t));
		change(self, valid);
		break;
	}
	case 3: case 4:
	{
		int n2 = sim_choose(st, NAMES);
		text(self, "alter table w%d_%c rename to w%d_%c", w, name, w, 'a' + n2);
		bool valid = t->there && !m->t[n2].there && !udf;
		m->t[n2] = *t;
		memset(t, 0, sizeof(*t));
		change(self, valid);
		break;
	}
	case 5:
		text(self, "truncate w%d_%c", w, name);
		memset(t->row, 0, sizeof(t->row));
		change(self, true);
		break;
	case 6: case 7:
	{
		if (t->count == COLS)
			break;
		bool valid = col_find(t, free_) == -1 && !udf;
		auto col = &t->col[t->count];
		memset(col, 0, sizeof(*col));
		col->name = free_;
		col->has_default = sim_choose(st, 2);
		col->def  = v;
		text(self, "alter table w%d_%c add column %s int", w, name, col_name(col));
		if (col->has_default)
			more(self, " default %d", v);
		for (int i = 0; i < KEYS; i++)
			t->row[i].set[t->count] = false;
		t->count++;
		change(self, valid);
		break;
	}
	case 8:
	{
		text(self, "alter table w%d_%c drop column %s", w, name, col_name(&t->col[c]));
		// the name can be the one of a later column
		int at = c == 0 ? 0 : col_find(t, t->col[c].name);
		bool valid = at >= 0 && !t->col[at].refs && !udf;
		if (valid)
		{
			memset(&t->col[at], 0, sizeof(Col));
			t->col[at].dropped = true;
		}
		change(self, valid);
		break;
	}
	case 9:
	{
		if (c == 0)
			break;
		int at = col_find(t, t->col[c].name);
		text(self, "alter table w%d_%c rename column %s to c%d", w, name, col_name(&t->col[c]), free_);
		bool valid = at >= 0 && col_find(t, free_) == -1 && !udf;
		if (valid)
			t->col[at].name = free_;
		change(self, valid);
		break;
	}
	case 10:
	{
		if (c == 0 || !cthere)
			break;
		auto col = &t->col[c];
		if (sim_choose(st, 2))
		{
			text(self, "alter table w%d_%c set column %s default %d", w, name, col_name(col), v);
			col->has_default = true;
			col->def = v;
		} else
		{
			text(self, "alter table w%d_%c unset column %s default", w, name, col_name(col));
			col->has_default = false;
		}
		change(self, !udf);
		break;
	}
	case 11: case 12:
	{
		if (!cthere || (c == 0 && sim_choose(st, 2)))
			break;
		int i = sim_choose(st, INDEXES);
		text(self, "create index i%d on w%d_%c (%s) using %s", i, w, name, col_name(&t->col[c]), sim_choose(st, 2) ? "hash" : "tree");
		bool valid = !t->index[i].there && !(udf && !t->col[c].not_null);
		for (int r = 0; r < KEYS && c; r++)
			if (t->row[r].there && !t->row[r].set[c])
				valid = false;
		if (valid)
		{
			t->index[i].there = true;
			t->index[i].col   = c;
			t->col[c].refs++;
			t->col[c].not_null = true;
		}
		change(self, valid);
		break;
	}
	case 13:
	{
		int i = sim_choose(st, INDEXES);
		text(self, "drop index i%d on w%d_%c", i, w, name);
		bool valid = t->index[i].there && !udf;
		if (valid)
		{
			t->col[t->index[i].col].refs--;
			t->index[i].there = false;
		}
		change(self, valid);
		break;
	}
	case 14:
	{
		int i = sim_choose(st, INDEXES), j = sim_choose(st, INDEXES);
		text(self, "alter index i%d on w%d_%c rename to i%d", i, w, name, j);
		bool valid = t->index[i].there && !t->index[j].there && !udf;
		if (valid)
		{
			t->index[j] = t->index[i];
			t->index[i].there = false;
		}
		change(self, valid);
		break;
	}
	case 15: case 16: case 17: case 18:
	{
		int mask = 0, values[2][COLS], keys[2] = { k, (int)sim_choose(st, KEYS) };
		for (int i = 1; i < t->count; i++)
			if (!t->col[i].dropped && (sim_choose(st, 4) || (t->col[i].not_null && !t->col[i].has_default && sim_choose(st, 4))))
				mask |= 1 << i;
		text(self, "insert into w%d_%c (id", w, name);
		for (int i = 1; i < t->count; i++)
			if (mask & (1 << i))
				more(self, ", %s", col_name(&t->col[i]));
		more(self, ") values ");
		int rows = 1 + (int)sim_choose(st, 2);
		bool valid = true;
		for (int r = 0; r < rows; r++)
		{
			more(self, "%s(%d", r ? ", " : "", keys[r]);
			for (int i = 1; i < t->count; i++)
				if (mask & (1 << i))
				{
					values[r][i] = sim_choose(st, 50);
					more(self, ", %d", values[r][i]);
				}
			more(self, ")");
			if (valid)
				valid = row_write(t, keys[r], mask, values[r]);
		}
		change(self, valid);
		break;
	}
	case 19:
	{
		if (c == 0 || !cthere)
			break;
		text(self, "update w%d_%c set %s = %d where id = %d", w, name, col_name(&t->col[c]), v, k);
		if (t->row[k].there)
		{
			t->row[k].set[c] = true;
			t->row[k].v[c]   = v;
		}
		change(self, !t->col[c].refs);
		break;
	}
	case 20:
		text(self, "delete from w%d_%c where id = %d", w, name, k);
		t->row[k].there = false;
		change(self, true);
		break;
	case 21:
	{
		// rows with a value, by the index when there is one
		if (c == 0 || !cthere)
			break;
		text(self, "select id from w%d_%c where %s = %d", w, name, col_name(&t->col[c]), t->row[k].set[c] ? t->row[k].v[c] : v);
		int want = t->row[k].set[c] ? t->row[k].v[c] : v, mask = 0, got = 0;
		for (int i = 0; i < KEYS; i++)
			if (t->row[i].there && t->row[i].set[c] && t->row[i].v[c] == want)
				mask |= 1 << i;
		int code = ask_again(self);
		if (code != 200 && mode == M_FAULTS && sim_faults_on())
			break;
		sim_check(code == 200, "statement", "%s: %d %s", self->sql, code, self->out);
		const char* pos = self->out;
		for (;;)
		{
			bool more_;
			int  id = value_next(&pos, &more_);
			if (! more_)
				break;
			sim_check(id >= 0 && id < KEYS && !(got & (1 << id)), "rows", "%s: %s", self->sql, self->out);
			got |= 1 << id;
		}
		sim_check(got == mask, "rows", "%s: %s, not %x", self->sql, self->out, mask);
		break;
	}
	case 22:
		text(self, "checkpoint");
		{
			int code = ask(self);
			sim_check(code == 204 || (mode == M_FAULTS && sim_faults_on()), "statement", "checkpoint: %d %s", code, self->out);
		}
		break;
	case 23:
		relations(self);
		break;
	case 24:
	{
		if (m->udf && sim_choose(st, 3))
		{
			// execute
			auto ut = &m->t[m->udf_table];
			int values[COLS] = { 0 };
			values[m->udf_col] = 77;
			text(self, "execute f%d(%d)", w, k);
			change(self, row_write(ut, k, 1 << m->udf_col, values));
			break;
		}
		if (m->udf)
		{
			text(self, "drop function f%d", w);
			m->udf = false;
			change(self, true);
			break;
		}
		if (c == 0 || !cthere)
			break;
		text(self, "create function f%d(k int) begin insert into w%d_%c (id, %s) values (k, 77); end", w, w, name, col_name(&t->col[c]));
		m->udf       = true;
		m->udf_table = n;
		m->udf_col   = c;
		// columns that cannot be null need a value
		bool valid = true;
		for (int i = 1; i < t->count; i++)
			if (i != c && t->col[i].not_null && !t->col[i].has_default)
				valid = false;
		change(self, valid);
		break;
	}
	case 25:
		if (mode == M_FAULTS && sim_faults_on())
			break;
		check_state(self, "while running");
		break;
	}
}

static void*
client_main(void* arg)
{
	Client_* self = arg;
	for (int i = 0; i < self->ops; i++)
		step(self);
	amelie_free(self->session);
	__atomic_sub_fetch(&working, 1, __ATOMIC_SEQ_CST);
	return NULL;
}

// looks at the tables of others
static void*
reader_main(void* arg)
{
	Client_* self = arg;
	int st = self->st;
	for (int i = 0; i < 40 && __atomic_load_n(&working, __ATOMIC_SEQ_CST); i++)
	{
		int w = sim_choose(st, CLIENTS), n = sim_choose(st, NAMES);
		switch (sim_choose(st, 4)) {
		case 0:
			text(self, "select * from w%d_%c", w, 'a' + n);
			break;
		case 1:
			text(self, "select c%d from w%d_%c where c%d = 77", (int)sim_choose(st, CNAMES), w, 'a' + n, (int)sim_choose(st, CNAMES));
			break;
		case 2:
			text(self, "select count(*) from w%d_%c", w, 'a' + n);
			break;
		case 3:
			text(self, "show tables extended");
			break;
		}
		int code = ask(self);
		sim_check(code == 200 || code == 400, "reply", "%s: %d", self->sql, code);
	}
	amelie_free(self->session);
	return NULL;
}

// ------------------------------------------------------------------ epoch
static void
faults_on(void)
{
	// a failed write of the log that cannot be undone stops the process
	int rate   = sim_choose(1, 2) ? 50 : 400;
	bool write = sim_choose(1, 2);
	sim_fault_rate(SIM_F_WRITE_ENOSPC, write ? 2 * rate : 0);
	sim_fault_rate(SIM_F_WRITE_EIO, write ? rate : 0);
	sim_fault_rate(SIM_F_FSYNC_EIO, write ? 2 * rate : 0);
	sim_fault_rate(SIM_F_META_EIO, write ? 0 : 2 * rate);
	sim_fault_rate(SIM_F_OPEN_EIO, write ? 0 : 2 * rate);
	sim_fault_rate(SIM_F_READ_EIO, write ? 0 : rate);
	sim_faults(true);
}

static void
log_file_remove(void* arg, const char* name)
{
	unused(arg);
	char path[256];
	snprintf(path, sizeof(path), DIRECTORY "/wal/%s", name);
	if (unlink(path))
		sim_broken("unlink");
}

static void
db_start(SysArgs* args)
{
	if (sim_epoch() && sim_last_crashed() && sim_crash_kind() != 1)
		b->torn = true;
	env = amelie_init();
	int rc = amelie_open(env, DIRECTORY, args->argc, args->argv);
	if (rc != 0 && b->torn)
	{
		// as in sys_sql.c: the operator cuts the log
		auto file = sim_disk_file(DIRECTORY "/log");
		static const char mark[] = "last valid lsn is: ";
		int64_t lsn = -1;
		for (size_t i = 0; file.exists && i + sizeof(mark) < file.size; i++)
			if (! memcmp(file.data + i, mark, sizeof(mark) - 1))
				lsn = strtoll((char*)file.data + i + sizeof(mark) - 1, NULL, 10);
		sim_check(lsn >= 0, "open", "amelie_open() failed after a power failure");
		sim_log("truncate the log to %" PRIi64, lsn);
		amelie_free(env);
		if (lsn == 0)
			sim_disk_list(DIRECTORY "/wal", log_file_remove, NULL);
		else
			sys_arg(args, "--wal_truncate=%" PRIi64, lsn);
		env = amelie_init();
		rc = amelie_open(env, DIRECTORY, args->argc, args->argv);
	}
	sim_check(rc == 0, "open", "amelie_open() failed");
	b->torn = false;
}

static void
epoch(void)
{
	b = sim_board(sizeof(Board));
	if (sim_epoch() == 0)
	{
		b->frontends = sim_range(1, 1, 3);
		b->backends  = sim_range(1, 1, 3);
		b->worker    = sim_choose(1, 2);
		b->sync      = sim_choose(1, 2);
		b->crc       = sim_choose(1, 4) > 0;
		b->wal_size  = sim_choose(1, 2) ? 512 : 0;
		b->mode      = sim_choose(1, 3);
	}
	sys_host();
	mode = b->mode;
	if (mode != M_RUN && sim_epoch() < LIVES - 1 && (mode == M_CRASH || sim_choose(0, 3) == 2))
	{
		static const int ops[] = { 2000, 400, 100, 40 };
		sim_crash_plan(ops[sim_choose(0, 4)]);
		if (! (b->sync && b->crc))
			sim_crash_kill_only();
	}
	SysArgs args;
	args.argc = 0;
	sys_arg(&args, "--log_to_stdout=%s", getenv("SIM_LOGOUT") ? "true" : "false");
	sys_arg(&args, "--listen=[]");
	sys_arg(&args, "--cpu_affinity=false");
	sys_arg(&args, "--frontends=%d", b->frontends);
	sys_arg(&args, "--backends=%d", b->backends);
	sys_arg(&args, "--jobs=1");
	sys_arg(&args, "--wal_worker=%s", b->worker ? "true" : "false");
	sys_arg(&args, "--wal_sync_on_write=%s", b->sync ? "true" : "false");
	sys_arg(&args, "--wal_sync_on_create=%s", b->sync ? "true" : "false");
	sys_arg(&args, "--wal_sync_on_close=%s", b->sync ? "true" : "false");
	sys_arg(&args, "--storage_sync=%s", b->sync ? "true" : "false");
	sys_arg(&args, "--wal_crc=%s", b->crc ? "true" : "false");
	if (b->wal_size)
		sys_arg(&args, "--wal_size=%d", b->wal_size);
	db_start(&args);

	int clients = 1 + sim_choose(1, CLIENTS);
	for (int i = 0; i < CLIENTS; i++)
	{
		auto c = &client[i];
		c->id      = i;
		c->st      = 2 + i;
		c->ops     = i < clients ? sim_range(1, 1, 20) : 0;
		c->session = amelie_connect(env, "amelie://");
		if (sim_epoch())
			check_state(c, "after restart");
	}
	if (mode == M_FAULTS && sim_epoch() < LIVES - 1)
		faults_on();
	working = CLIENTS;
	auto reader = &client[CLIENTS];
	reader->id      = CLIENTS;
	reader->st      = 2 + CLIENTS;
	reader->session = amelie_connect(env, "amelie://");
	for (int i = 0; i < CLIENTS; i++)
		if (pthread_create(&client[i].thread, NULL, client_main, &client[i]))
			sim_broken("thread");
	if (pthread_create(&reader->thread, NULL, reader_main, reader))
		sim_broken("thread");
	for (int i = 0; i <= CLIENTS; i++)
		pthread_join(client[i].thread, NULL);
	sim_faults(false);
	for (int i = 0; i < CLIENTS; i++)
	{
		client[i].session = amelie_connect(env, "amelie://");
		check_state(&client[i], "after the clients");
		amelie_free(client[i].session);
	}
	if (mode != M_RUN)
		sim_crash_plan_off();
	amelie_free(env);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

SimScenario sim_scenarios[] = {
	{ "C27", "ddl", epoch, LIVES, 400000000, 1, 0 },
	{ 0 },
};
const char* sim_real_parts = "the whole database: public API, native clients, frontends, sessions, parser, compiler, VM, executor, commit, backends, partitions, indexes, transactions, catalog, log (repository code, instrumented)";
const char* sim_stub_parts = "db/service (checkpoint, gc, recovery loop, index creation: scenario, follows the sources, which do not compile at this commit); disk, pthreads scheduling, clock, malloc (simulated)";
const char* sim_rule = "Workload: up to 3 clients that create, drop, rename and alter tables, columns, indexes, functions, databases and storages of their own and change rows in between, a reader of all tables, checkpoints, up to 4 lives with crashes or disk errors.";
