// Catalog: DDL statements, their undo, the catalog file, recovery, snapshots.
#include "common.h"
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>

#define DIRECTORY "/sim/db"

enum { S_MAX = 4, D_MAX = 4, T_MAX = 5, CO_MAX = 8, IX_MAX = 4, R_MAX = 3, V_MAX = 3, U_MAX = 4, ROWS = 24, NAMES = 9 };
enum { M_DDL, M_CRASH };

// a name: base * 2 + 1 if it is written in upper case
typedef struct { uint8_t used, name, ext, comp, level; } MStorage;
typedef struct { uint8_t used, name; } MDb;
typedef struct { uint8_t name, pause, objects; uint32_t id; } MVolume;
typedef struct { uint8_t name, type, dropped, not_null, identity, modulo, stored, resolved, def; } MColumn;
typedef struct { uint8_t name, hash, uniq, primary, key; } MIndex;
typedef struct { uint8_t name, vols; MVolume vol[V_MAX]; uint32_t region, object; } MTier;
typedef struct
{
	uint8_t  used, db, name, unlogged, tainted, parts, cols, idxs, tiers, vols;
	uint8_t  identity_set;     // the identity was set by a statement
	uint8_t  identity_back;    // to a value that was given before
	uint32_t id;
	int64_t  seq;
	int64_t  seq_log;          // not counting rows of aborted transactions
	uint64_t identity_lsn;     // position of that statement
	MVolume  vol[V_MAX];
	MColumn  col[CO_MAX];
	MIndex   idx[IX_MAX];
	MTier    tier[R_MAX];
	uint16_t row[ROWS];        // version of the row of an id, 0 none
} MTable;
typedef struct { uint8_t used, db, name, dep, text, type, args, ret; } MUdf;
typedef struct { MStorage storage[S_MAX]; MDb db[D_MAX]; MTable table[T_MAX]; MUdf udf[U_MAX]; } Model;

// survives crashes
typedef struct
{
	int      wal_size, crc, sync, kill_only;
	bool     ready;            // the directory was set up once
	bool     in_flight;        // a statement is being executed
	bool     loose;            // files may be left of statements that failed on disk errors or crashed
	uint32_t ids, version;
	Model    acked, pending;
	int      doubts;           // statements that failed on disk errors: their records can come back until the next one is written
	Model    doubt[6];
} Board;

static Board*  b;
static int     mode;
static Catalog cat;
static WalMgr  wm;
static bool    open_ok;

// ------------------------------------------------------------------ names
static const char* names[NAMES] = { "main", "alpha", "be ta", "ga\"m'ma", "de\\lta", "ep\nsi\tlon", "z\xc3\xa9ta", "eta_12345678901234567890", "t" };
static const char* exprs[6] = { "", "id + 1", "case when \"a\" then '\\n' end", "null", "x", "\xe2\x82\xac || 'a'" };
static const int   types[4][2] = { { TYPE_INT, 8 }, { TYPE_INT, 4 }, { TYPE_STRING, 0 }, { TYPE_BOOL, 1 } };

static char*
name_of(int id)
{
	static char out[1024][64];
	static int  at;
	char* text = out[at++ % 1024];
	strcpy(text, names[id / 2]);
	if (id & 1)
		for (char* c = text; *c; c++)
			*c = toupper(*c);
	return text;
}

static Str
str_of_name(int id)
{
	Str str;
	str_set_cstr(&str, name_of(id));
	return str;
}

static int
name_id(Str* str, const char* what)
{
	for (int i = 0; i < NAMES * 2; i++)
	{
		Str s = str_of_name(i);
		if (str_compare(&s, str))
			return i;
	}
	sim_fail("catalog-name", "the name of a %s is '%.*s', no such name was given", what, str_size(str), str_of(str));
	return -1;
}

static int
expr_id(Str* str)
{
	for (int i = 0; i < 6; i++)
	{
		Str s;
		str_set_cstr(&s, (char*)exprs[i]);
		if (str_compare(&s, str) || (str_empty(&s) && str_empty(str)))
			return i;
	}
	sim_fail("catalog-text", "an expression is '%.*s', no such expression was given", str_size(str), str_of(str));
	return -1;
}

static void
default_of(Buf* buf, int id)
{
	static char data[200];
	Str str;
	memset(data, 'q', sizeof(data));
	str_set(&str, data, id * 37);
	switch (id) {
	case 0: break;
	case 1: encode_null(buf); break;
	case 2: encode_integer(buf, -5000000000ll); break;
	default: encode_string(buf, &str); break;
	}
}

static int
default_id(Buf* value)
{
	for (int i = 0; i < 5; i++)
	{
		Buf buf;
		buf_init(&buf);
		default_of(&buf, i);
		bool same = buf_size(&buf) == buf_size(value) && (buf_empty(value) || !memcmp(buf.start, value->start, buf_size(value)));
		buf_free(&buf);
		if (same)
			return i;
	}
	sim_fail("catalog-default", "a column default has %d bytes, no such default was given", buf_size(value));
	return -1;
}

static Uuid
uuid_of_id(uint32_t id)
{
	Uuid uuid = { .a = 0x1234567800000000ull | id, .b = 0x8000000000000000ull | id * 77 };
	return uuid;
}

static uint32_t
id_of_uuid(Uuid* uuid)
{
	uint32_t id = uuid->a;
	Uuid same = uuid_of_id(id);
	sim_check(uuid_is(uuid, &same), "catalog-uuid", "an id differs from the one given");
	return id;
}

static bool
same(int a, int c)
{
	return a / 2 == c / 2;
}

// ------------------------------------------------------------------ rendering
typedef struct { char data[24000]; int size; } Text;

static void
put(Text* self, const char* fmt, ...)
{
	va_list args;
	va_start(args, fmt);
	self->size += vsnprintf(self->data + self->size, sizeof(self->data) - self->size, fmt, args);
	va_end(args);
	if (self->size >= (int)sizeof(self->data))
		sim_broken("text is full");
}

static void
put_volumes(Text* t, const char* what, MVolume* vol, int n)
{
	for (int i = 0; i < n; i++)
		put(t, "  %s volume %s #%u%s objects %d\n", what, name_of(vol[i].name), vol[i].id, vol[i].pause ? " paused" : "", vol[i].objects);
}

enum { RENDER_CATALOG = 1, RENDER_ROWS = 2, RENDER_SEQ = 4 };

static void
put_table(Text* t, MTable* m, int flags)
{
	put(t, "table %s", name_of(m->db));
	put(t, " . %s #%u partitions %d%s\n", name_of(m->name), m->id, m->parts, m->unlogged ? " unlogged" : "");
	put_volumes(t, "partition", m->vol, m->vols);
	for (int i = 0; i < m->cols; i++)
	{
		auto c = &m->col[i];
		put(t, "  column %d %s type %d%s%s identity %d modulo %d stored <%s> resolved <%s> default %d\n", i, name_of(c->name), c->type, c->dropped ? " dropped" : "",
		    c->not_null ? " not null" : "", c->identity, c->modulo, exprs[c->stored], exprs[c->resolved], c->def);
	}
	for (int i = 0; i < m->idxs; i++)
	{
		auto x = &m->idx[i];
		put(t, "  index %s%s%s%s on column %d\n", name_of(x->name), x->hash ? " hash" : "", x->uniq ? " unique" : "", x->primary ? " primary" : "", x->key);
	}
	for (int i = 0; i < m->tiers; i++)
	{
		auto r = &m->tier[i];
		put(t, "  tier %s region %u object %u\n", name_of(r->name), r->region, r->object);
		put_volumes(t, "tier", r->vol, r->vols);
	}
	if (flags & RENDER_SEQ)
		put(t, "  sequence %" PRIi64 "\n", m->seq);
	if ((flags & RENDER_ROWS) && !m->tainted)
	{
		put(t, "  rows");
		for (int i = 0; i < ROWS; i++)
			if (m->row[i])
				put(t, " %d:%d", i, m->row[i]);
		put(t, "\n");
	}
}

static int
cmp_text(const void* a, const void* c)
{
	return strcmp(*(char**)a, *(char**)c);
}

static Text*
render(Text* out, Model* m, int flags)
{
	static Text  part[S_MAX + D_MAX + T_MAX + U_MAX];
	char*        list[S_MAX + D_MAX + T_MAX + U_MAX];
	int          n = 0;
	for (int i = 0; i < S_MAX; i++)
		if (m->storage[i].used)
		{
			auto s = &m->storage[i];
			auto t = &part[n];
			t->size = 0;
			put(t, "storage %s path %d compression %d level %d\n", name_of(s->name), s->ext, s->comp, s->level);
			list[n++] = t->data;
		}
	for (int i = 0; i < D_MAX; i++)
		if (m->db[i].used)
		{
			auto t = &part[n];
			t->size = 0;
			put(t, "db %s\n", name_of(m->db[i].name));
			list[n++] = t->data;
		}
	for (int i = 0; i < T_MAX; i++)
		if (m->table[i].used)
		{
			auto t = &part[n];
			t->size = 0;
			put_table(t, &m->table[i], flags);
			list[n++] = t->data;
		}
	for (int i = 0; i < U_MAX; i++)
		if (m->udf[i].used)
		{
			auto u = &m->udf[i];
			auto t = &part[n];
			t->size = 0;
			put(t, "function %s", name_of(u->db));
			put(t, " . %s text %d depends %d type %d args %d returning %d\n", name_of(u->name), u->text, u->dep, u->type, u->args, u->ret);
			list[n++] = t->data;
		}
	qsort(list, n, sizeof(char*), cmp_text);
	out->size = 0;
	out->data[0] = 0;
	for (int i = 0; i < n; i++)
		put(out, "%s", list[i]);
	return out;
}

// first line of a that differs from c
static const char*
differs(Text* a, Text* c)
{
	int i = 0, line = 0;
	while (a->data[i] && a->data[i] == c->data[i])
	{
		if (a->data[i] == '\n')
			line = i + 1;
		i++;
	}
	static char out[4][200];
	static int  at;
	auto o = out[at++ % 4];
	int n = 0;
	for (i = line; a->data[i] && a->data[i] != '\n' && n < 190; i++)
		o[n++] = a->data[i];
	o[n] = 0;
	if (! n)
		strcpy(o, "(nothing)");
	return o;
}

// ------------------------------------------------------------------ configurations of the model
static Column*
make_column(MColumn* c)
{
	auto column = column_allocate();
	Str s = str_of_name(c->name);
	column_set_name(column, &s);
	column_set_type(column, types[c->type][0], types[c->type][1]);
	auto cons = &column->constraints;
	constraints_set_not_null(cons, c->not_null);
	constraints_set_as_identity(cons, c->identity);
	if (c->modulo)
		constraints_set_as_identity_modulo(cons, c->modulo);
	str_set_cstr(&s, (char*)exprs[c->stored]);
	if (c->stored)
		constraints_set_as_stored(cons, &s);
	str_set_cstr(&s, (char*)exprs[c->resolved]);
	if (c->resolved)
		constraints_set_as_resolved(cons, &s);
	Buf buf;
	buf_init(&buf);
	default_of(&buf, c->def);
	if (c->def)
		constraints_set_default(cons, &buf);
	buf_free(&buf);
	return column;
}

static IndexConfig*
make_index(MIndex* x, Columns* columns)
{
	auto config = index_config_allocate(columns);
	Str s = str_of_name(x->name);
	index_config_set_name(config, &s);
	index_config_set_type(config, x->hash ? INDEX_HASH : INDEX_TREE);
	index_config_set_unique(config, x->uniq);
	index_config_set_primary(config, x->primary);
	auto key = key_allocate();
	key_set_ref(key, x->key);
	keys_add(&config->keys, key);
	if (! x->uniq)
	{
		// the primary key makes it distinct
		key = key_allocate();
		key_set_ref(key, 0);
		keys_add(&config->keys, key);
	}
	return config;
}

static Volume*
make_volume(MVolume* v)
{
	auto volume = volume_allocate();
	Str s = str_of_name(v->name);
	volume_set_name(volume, &s);
	Uuid uuid = uuid_of_id(v->id);
	volume_set_id(volume, &uuid);
	volume_set_pause(volume, v->pause);
	return volume;
}

static TierConfig*
make_tier(MTier* r)
{
	auto config = tier_config_allocate();
	Str s = str_of_name(r->name);
	tier_config_set_name(config, &s);
	tier_config_set_region_size(config, r->region);
	tier_config_set_object_size(config, r->object);
	for (int i = 0; i < r->vols; i++)
		volume_mgr_add(&config->volumes, make_volume(&r->vol[i]));
	return config;
}

static TableConfig*
make_table(MTable* m)
{
	auto config = table_config_allocate();
	Str s = str_of_name(m->db);
	table_config_set_db(config, &s);
	s = str_of_name(m->name);
	table_config_set_name(config, &s);
	Uuid uuid = uuid_of_id(m->id);
	table_config_set_id(config, &uuid);
	table_config_set_unlogged(config, m->unlogged);
	for (int i = 0; i < m->cols; i++)
		columns_add(&config->columns, make_column(&m->col[i]));
	for (int i = 0; i < m->idxs; i++)
		table_config_index_add(config, make_index(&m->idx[i], &config->columns));
	part_mgr_config_set_partitions(&config->part_mgr_config, m->parts);
	for (int i = 0; i < m->vols; i++)
		volume_mgr_add(&config->part_mgr_config.volumes, make_volume(&m->vol[i]));
	for (int i = 0; i < m->tiers; i++)
		table_config_tier_add(config, make_tier(&m->tier[i]));
	return config;
}

static void
make_args(Columns* columns, int variant)
{
	for (int i = 0; i < variant; i++)
	{
		MColumn c = { .name = 2 + i * 2, .type = i ? 2 : 0 };
		columns_add(columns, make_column(&c));
	}
}

// the text of a function begins with what it depends on: the number of a name, 99 does not compile
static void
udf_text(char* out, MUdf* u)
{
	sprintf(out, "%02d%d begin return '%s'; end", u->dep, u->text, exprs[2]);
}

static UdfConfig*
make_udf(MUdf* u)
{
	auto config = udf_config_allocate();
	Str s = str_of_name(u->db);
	udf_config_set_db(config, &s);
	s = str_of_name(u->name);
	udf_config_set_name(config, &s);
	char text[128];
	udf_text(text, u);
	str_set_cstr(&s, text);
	udf_config_set_text(config, &s);
	udf_config_set_type(config, types[u->type][0]);
	make_args(&config->args, u->args);
	make_args(&config->returning, u->ret);
	return config;
}

// ------------------------------------------------------------------ function compiler stand-in
static int
udf_dep(Udf* udf)
{
	auto s = str_of(&udf->config->text);
	return (s[0] - '0') * 10 + (s[1] - '0');
}

static void
on_udf_compile(Catalog* self, Udf* udf)
{
	(void)self;
	if (udf_dep(udf) == 99)
		error("function does not compile");
	sim_check(udf->data == NULL, "udf-compile", "a function is compiled twice");
	udf->data = am_malloc(32);
}

static void
on_udf_free(Udf* udf)
{
	if (udf->data)
		am_free(udf->data);
	udf->data = NULL;
}

static bool
on_udf_depends(Udf* udf, Str* name)
{
	sim_check(udf->data != NULL, "udf-compile", "a function of the catalog is not compiled");
	if (udf_dep(udf) >= NAMES)
		return false;
	Str s = str_of_name(udf_dep(udf) * 2);
	return str_compare_case(&s, name);
}

static CatalogIf catalog_if = { on_udf_compile, on_udf_free, on_udf_depends };

static int attached;

static void
on_attach(PartMgr* self)
{
	list_foreach(&self->list)
		part_open(list_at(Part, link));
	attached++;
}

static void
on_detach(PartMgr* self)
{
	(void)self;
}

static PartMgrIf part_mgr_if = { on_attach, on_detach };

// ------------------------------------------------------------------ the catalog as it is
typedef struct { char dir[128]; int files, other; } Dir;
static bool snapshot_on;

static void
dir_add(void* arg, const char* name)
{
	Dir* self = arg;
	int64_t id = 0, version = 0;
	if (id_of(name, &id, &version) == STATE_COMPLETE)
		self->files++;
	else
		self->other++;
}

static void
read_volume(MVolume* out, Volume* v, bool parts)
{
	out->name  = name_id(&v->name, "volume");
	out->pause = v->pause;
	out->id    = id_of_uuid(&v->id);
	out->objects = parts ? 0 : v->list_count;
	sim_check(v->storage != NULL, "volume-storage", "volume %s has no storage", name_of(out->name));
	sim_check(same(name_id(&v->storage->config->name, "storage"), out->name), "volume-storage", "volume %s is on storage %.*s", name_of(out->name),
	          str_size(&v->storage->config->name), str_of(&v->storage->config->name));
	bool found = false;
	list_foreach(&cat.storage_mgr.mgr.list)
		found |= storage_of(list_at(Relation, link)) == v->storage;
	sim_check(found, "volume-storage", "the storage of volume %s is not in the catalog", name_of(out->name));
	// files
	char uuid[UUID_SZ];
	uuid_get(&v->id, uuid, sizeof(uuid));
	Dir dir = { .files = 0, .other = 0 };
	if (str_empty(&v->storage->config->path))
		sprintf(dir.dir, DIRECTORY "/storage/%s", uuid);
	else
		sprintf(dir.dir, "%s/%s", str_of(&v->storage->config->path), uuid);
	sim_check(sim_disk_exists(dir.dir), "volume-directory", "volume %s has no directory", name_of(out->name));
	char link[128];
	sprintf(link, DIRECTORY "/storage/%s", uuid);
	sim_check(sim_disk_exists(link), "volume-directory", "volume %s has no directory", name_of(out->name));
	sim_disk_list(dir.dir, dir_add, &dir);
	sim_check(dir.files == v->list_count || (b->loose && dir.files >= v->list_count), "volume-files", "volume %s has %d files, %d are in use", name_of(out->name), dir.files, v->list_count);
	sim_check(dir.other == 0 || b->loose || snapshot_on, "volume-files", "volume %s has %d files that belong to nothing", name_of(out->name), dir.other);
}

static void
read_column(MColumn* out, Column* c)
{
	out->name = name_id(&c->name, "column");
	for (int i = 0; i < 4; i++)
		if (types[i][0] == c->type && types[i][1] == c->type_size)
			out->type = i;
	out->dropped  = c->dropped;
	auto cons = &c->constraints;
	out->not_null = cons->not_null;
	out->identity = cons->as_identity;
	out->modulo   = cons->as_identity_modulo == INT64_MAX ? 0 : cons->as_identity_modulo;
	out->stored   = expr_id(&cons->as_stored);
	out->resolved = expr_id(&cons->as_resolved);
	out->def      = default_id(&cons->value);
}

static void
read_rows(MTable* out, Table* table)
{
	int total = -1;
	list_foreach(&table->part_mgr.list)
	{
		auto part = list_at(Part, link);
		sim_check(part->indexes_count == table->config->indexes_count, "index-parts", "a partition has %d indexes, the table has %d", part->indexes_count, table->config->indexes_count);
		auto index = part->indexes;
		int  x = 0, rows = 0;
		auto at = table->config->indexes.next;
		for (; index; index = index->next, x++, at = at->next)
		{
			auto config = container_of(at, IndexConfig, link);
			sim_check(index->config == config, "index-parts", "index %d of a partition is not the one of the table", x);
			auto it = index_iterator(index);
			iterator_open(it, NULL);
			int n = 0;
			for (; iterator_has(it); iterator_next(it))
			{
				auto row = iterator_at(it);
				auto id = *(int64_t*)row_at(row, 0);
				auto v  = *(int64_t*)row_at(row, 1);
				sim_check(id >= 0 && id < ROWS && v % ROWS == id, "row-content", "a row with id %" PRIi64 " and value %" PRIi64, id, v);
				if (x == 0)
				{
					sim_check(out->row[id] == 0, "row-twice", "the row of id %" PRIi64 " is there twice", id);
					out->row[id] = v / ROWS;
				}
				sim_check(out->row[id] == v / ROWS, "index-rows", "index %d has version %" PRIi64 " of id %" PRIi64 ", the primary index has version %d", x, v / ROWS, id, out->row[id]);
				n++;
			}
			iterator_close(it);
			if (x == 0)
				rows = n;
			sim_check(n == rows, "index-rows", "index %d has %d rows, the primary index has %d", x, n, rows);
		}
	}
	(void)total;
}

static void
read_table(MTable* out, Table* table)
{
	memset(out, 0, sizeof(*out));
	auto c = table->config;
	out->used = 1;
	out->db   = name_id(&c->db, "db");
	out->name = name_id(&c->name, "table");
	out->id   = id_of_uuid(&c->id);
	out->unlogged = c->unlogged;
	sim_check(table->part_arg.unlogged == c->unlogged, "table-unlogged", "table %s: partitions are %s, the table is %s", name_of(out->name),
	          table->part_arg.unlogged ? "unlogged" : "logged", c->unlogged ? "unlogged" : "logged");
	out->parts = c->part_mgr_config.partitions;
	out->seq   = sequence_get(&table->seq);
	int n = 0;
	list_foreach(&c->part_mgr_config.volumes.list)
		read_volume(&out->vol[out->vols++], list_at(Volume, link), true);
	n = 0;
	int stored = 0, resolved = 0;
	Column* identity = NULL;
	list_foreach(&c->columns.list)
	{
		auto column = list_at(Column, link);
		sim_check(column->order == n, "column-order", "column %d has order %d", n, column->order);
		n++;
		int refs = 0;
		list_foreach(&c->indexes)
		{
			auto config = list_at(IndexConfig, link);
			list_foreach(&config->keys.list)
				refs += list_at(Key, link)->column == column;
		}
		sim_check(column->refs == refs, "column-refs", "column %d is used by %d keys, it counts %d", n, refs, column->refs);
		stored   += !str_empty(&column->constraints.as_stored);
		resolved += !str_empty(&column->constraints.as_resolved);
		if (column->constraints.as_identity && !identity)
			identity = column;
		read_column(&out->col[out->cols++], column);
	}
	sim_check(c->columns.count == n && c->columns.count_stored == stored && c->columns.count_resolved == resolved && c->columns.identity == identity,
	          "column-counters", "table %s: counters of its columns are wrong", name_of(out->name));
	n = 0;
	list_foreach(&c->indexes)
	{
		auto config = list_at(IndexConfig, link);
		auto x = &out->idx[out->idxs++];
		x->name    = name_id(&config->name, "index");
		x->hash    = config->type == INDEX_HASH;
		x->uniq    = config->unique;
		x->primary = config->primary;
		x->key     = container_of(config->keys.list.next, Key, link)->ref;
		sim_check(config->keys.primary == (n == 0), "index-primary", "index %d of table %s: primary is %d", n, name_of(out->name), config->keys.primary);
		n++;
	}
	sim_check(c->indexes_count == n, "index-count", "table %s counts %d indexes, it has %d", name_of(out->name), c->indexes_count, n);
	n = 0;
	list_foreach(&c->tiers)
	{
		auto config = list_at(TierConfig, link);
		auto r = &out->tier[out->tiers++];
		r->name   = name_id(&config->name, "tier");
		r->region = config->region_size;
		r->object = config->object_size;
		n = 0;
		int objects = 0;
		list_foreach(&config->volumes.list)
		{
			auto volume = list_at(Volume, link);
			objects += volume->list_count;
			read_volume(&r->vol[r->vols++], volume, false);
		}
		Tier* tier = NULL;
		list_foreach(&table->tier_mgr.list)
			if (list_at(Tier, link)->config == config)
				tier = list_at(Tier, link);
		sim_check(tier != NULL, "tier-config", "a tier of the configuration does not exist");
		sim_check(tier->list_count == objects, "tier-objects", "tier %s has %d objects, its volumes have %d", name_of(r->name), tier->list_count, objects);
		Str s = str_of_name(r->name ^ 1);
		sim_check(tier_mgr_find(&table->tier_mgr, &s) == tier, "tier-find", "tier %s is not found by its name", name_of(r->name));
	}
	sim_check(c->tiers_count == out->tiers && table->tier_mgr.list_count == out->tiers, "tier-count", "table %s counts %d tiers and opened %d, it has %d", name_of(out->name),
	          c->tiers_count, table->tier_mgr.list_count, out->tiers);
	sim_check(table->part_mgr.list_count == out->parts, "part-count", "table %s has %d partitions open of %d", name_of(out->name), table->part_mgr.list_count, out->parts);
	read_rows(out, table);
	// found by name and by id
	Str db = str_of_name(out->db ^ 1), name = str_of_name(out->name ^ 1);
	sim_check(table_mgr_find(&cat.table_mgr, &db, &name, false) == table, "table-find", "table %s is not found by its name", name_of(out->name));
	sim_check(table_mgr_find_by(&cat.table_mgr, &c->id, false) == table, "table-find", "table %s is not found by its id", name_of(out->name));
}

static void
read_catalog(Model* out)
{
	memset(out, 0, sizeof(*out));
	int n = 0;
	list_foreach(&cat.storage_mgr.mgr.list)
	{
		auto storage = storage_of(list_at(Relation, link));
		auto c = storage->config;
		int refs = 0;
		list_foreach(&cat.table_mgr.mgr.list)
		{
			auto table = table_of(list_at(Relation, link));
			list_foreach(&table->config->part_mgr_config.volumes.list)
				refs += list_at(Volume, link)->storage == storage;
			list_foreach(&table->config->tiers)
			{
				auto config = list_at(TierConfig, link);
				list_foreach(&config->volumes.list)
					refs += list_at(Volume, link)->storage == storage;
			}
		}
		sim_check(storage->refs == refs, "storage-refs", "storage %.*s is used by %d volumes, it counts %d", str_size(&c->name), str_of(&c->name), refs, storage->refs);
		if (c->system)
		{
			sim_check(name_id(&c->name, "storage") == 0, "catalog-system", "the system storage is named %.*s", str_size(&c->name), str_of(&c->name));
			continue;
		}
		sim_check(n < S_MAX, "catalog-count", "there are more storages than were created");
		auto s = &out->storage[n++];
		s->used  = 1;
		s->name  = name_id(&c->name, "storage");
		s->ext   = str_empty(&c->path) ? 0 : str_of(&c->path)[str_size(&c->path) - 1] - '0';
		s->comp  = ! str_empty(&c->compression);
		s->level = c->compression_level;
		Str other = str_of_name(s->name ^ 1);
		sim_check(storage_mgr_find(&cat.storage_mgr, &other, false) == storage, "storage-find", "storage %s is not found by its name", name_of(s->name));
	}
	n = 0;
	list_foreach(&cat.db_mgr.mgr.list)
	{
		auto db = database_of(list_at(Relation, link));
		if (db->config->system)
		{
			sim_check(name_id(&db->config->name, "db") == 0, "catalog-system", "the system database is named %.*s", str_size(&db->config->name), str_of(&db->config->name));
			continue;
		}
		sim_check(n < D_MAX, "catalog-count", "there are more databases than were created");
		auto d = &out->db[n++];
		d->used = 1;
		d->name = name_id(&db->config->name, "db");
		Str other = str_of_name(d->name ^ 1);
		sim_check(database_mgr_find(&cat.db_mgr, &other, false) == db, "db-find", "database %s is not found by its name", name_of(d->name));
	}
	n = 0;
	list_foreach(&cat.table_mgr.mgr.list)
	{
		sim_check(n < T_MAX, "catalog-count", "there are more tables than were created");
		read_table(&out->table[n++], table_of(list_at(Relation, link)));
	}
	n = 0;
	list_foreach(&cat.udf_mgr.mgr.list)
	{
		auto udf = udf_of(list_at(Relation, link));
		sim_check(n < U_MAX, "catalog-count", "there are more functions than were created");
		auto u = &out->udf[n++];
		u->used = 1;
		u->db   = name_id(&udf->config->db, "db");
		u->name = name_id(&udf->config->name, "function");
		u->dep  = udf_dep(udf);
		u->text = str_of(&udf->config->text)[2] - '0';
		u->args = udf->config->args.count;
		u->ret  = udf->config->returning.count;
		for (int i = 0; i < 4; i++)
			if (types[i][0] == udf->config->type)
			{
				u->type = i;
				break;
			}
		char text[128];
		udf_text(text, u);
		sim_check(str_is(&udf->config->text, text, strlen(text)), "catalog-text", "the text of function %s differs from the one given", name_of(u->name));
		sim_check(udf->data != NULL, "udf-compile", "function %s is not compiled", name_of(u->name));
		Str db = str_of_name(u->db ^ 1), name = str_of_name(u->name ^ 1);
		sim_check(udf_mgr_find(&cat.udf_mgr, &db, &name, false) == udf, "udf-find", "function %s is not found by its name", name_of(u->name));
	}
	sim_check(cat.storage_mgr.mgr.list_count >= 1 && cat.db_mgr.mgr.list_count >= 1, "catalog-system", "the system storage or database is gone");
}

// directories of volumes: those of the catalog, no others
static Model now;
static Text  text_now, text_want;

static void
dir_known(void* arg, const char* name)
{
	(void)arg;
	bool found = false;
	for (int i = 0; i < T_MAX; i++)
	{
		auto t = &now.table[i];
		if (! t->used)
			continue;
		char uuid[UUID_SZ];
		for (int j = 0; j < t->vols; j++)
		{
			Uuid id = uuid_of_id(t->vol[j].id);
			uuid_get(&id, uuid, sizeof(uuid));
			found |= !strcmp(uuid, name);
		}
		for (int k = 0; k < t->tiers; k++)
			for (int j = 0; j < t->tier[k].vols; j++)
			{
				Uuid id = uuid_of_id(t->tier[k].vol[j].id);
				uuid_get(&id, uuid, sizeof(uuid));
				found |= !strcmp(uuid, name);
			}
	}
	sim_check(found, "volume-leftover", "directory %s belongs to no table", name);
}

static void
check_dirs(void)
{
	if (b->loose)
		return;
	sim_disk_list(DIRECTORY "/storage", dir_known, NULL);
	for (int i = 1; i < 3; i++)
	{
		char path[32];
		sprintf(path, "/sim/ext%d", i);
		if (sim_disk_exists(path))
			sim_disk_list(path, dir_known, NULL);
	}
}

static void
check_catalog(Model* want, const char* where)
{
	read_catalog(&now);
	for (int i = 0; i < T_MAX; i++)
		for (int j = 0; j < T_MAX; j++)
			if (now.table[i].used && want->table[j].used && now.table[i].id == want->table[j].id)
				now.table[i].tainted = want->table[j].tainted;
	render(&text_now, &now, RENDER_ROWS|RENDER_SEQ);
	render(&text_want, want, RENDER_ROWS|RENDER_SEQ);
	if (strcmp(text_now.data, text_want.data))
		sim_fail("catalog-differs", "%s: the catalog has <%s>, expected <%s>", where, differs(&text_now, &text_want), differs(&text_want, &text_now));
	check_dirs();
}

// ------------------------------------------------------------------ lookups in the model
static int
find_storage(Model* m, int name)
{
	if (same(name, 0))
		return -2;
	for (int i = 0; i < S_MAX; i++)
		if (m->storage[i].used && same(m->storage[i].name, name))
			return i;
	return -1;
}

static int
find_db(Model* m, int name)
{
	if (same(name, 0))
		return -2;
	for (int i = 0; i < D_MAX; i++)
		if (m->db[i].used && same(m->db[i].name, name))
			return i;
	return -1;
}

static int
find_table(Model* m, int db, int name)
{
	for (int i = 0; i < T_MAX; i++)
		if (m->table[i].used && same(m->table[i].db, db) && same(m->table[i].name, name))
			return i;
	return -1;
}

static int
find_udf(Model* m, int db, int name)
{
	for (int i = 0; i < U_MAX; i++)
		if (m->udf[i].used && same(m->udf[i].db, db) && same(m->udf[i].name, name))
			return i;
	return -1;
}

static int
find_column(MTable* t, int name)
{
	for (int i = 0; i < t->cols; i++)
		if (!t->col[i].dropped && same(t->col[i].name, name))
			return i;
	return -1;
}

static int
find_index(MTable* t, int name)
{
	for (int i = 0; i < t->idxs; i++)
		if (same(t->idx[i].name, name))
			return i;
	return -1;
}

static int
find_tier(MTable* t, int name)
{
	for (int i = 0; i < t->tiers; i++)
		if (same(t->tier[i].name, name))
			return i;
	return -1;
}

static int
find_volume(MTier* r, int name)
{
	for (int i = 0; i < r->vols; i++)
		if (same(r->vol[i].name, name))
			return i;
	return -1;
}

static bool
storage_used(Model* m, int name)
{
	for (int i = 0; i < T_MAX; i++)
	{
		auto t = &m->table[i];
		if (! t->used)
			continue;
		for (int j = 0; j < t->vols; j++)
			if (same(t->vol[j].name, name))
				return true;
		for (int k = 0; k < t->tiers; k++)
			if (find_volume(&t->tier[k], name) != -1)
				return true;
	}
	return false;
}

static bool
function_depends(Model* m, int name)
{
	for (int i = 0; i < U_MAX; i++)
		if (m->udf[i].used && m->udf[i].dep == name / 2)
			return true;
	return false;
}

static int
active(MTier* r)
{
	int n = 0;
	for (int i = 0; i < r->vols; i++)
		n += !r->vol[i].pause;
	return n;
}

static int
identity_of(MTable* t)
{
	for (int i = 0; i < t->cols; i++)
		if (t->col[i].identity)
			return i;
	return -1;
}

// ------------------------------------------------------------------ statements
enum { E_OK, E_NOOP, E_ERR };

typedef struct
{
	Buf  op;
	int  flags;
	int  expect;
	bool index;
	char what[100];
} Stmt;

static Stmt stmt;
static int  ST = 1;

static int any_name(void) { return sim_choose(ST, NAMES * 2); }
static int vary(int name) { return sim_choose(ST, 4) == 3 ? name ^ 1 : name; }
static bool rarely(void) { return sim_choose(ST, 8) == 7; }

// the name of something that exists, now and then of nothing
#define PICK(list, max, field, fallback) ({ \
	int n_ = 0, at_ = -1; \
	for (int i_ = 0; i_ < max; i_++) n_ += !!(list)[i_].used; \
	if (n_) { int k_ = sim_choose(ST, n_); for (int i_ = 0; i_ < max; i_++) if ((list)[i_].used && k_-- == 0) at_ = i_; } \
	at_ == -1 || rarely() ? (fallback) : vary((list)[at_].field); })

static int
pick_storage(Model* m)
{
	if (sim_choose(ST, 3) == 0)
		return sim_choose(ST, 2);
	return PICK(m->storage, S_MAX, name, any_name());
}

static int
pick_db(Model* m)
{
	if (sim_choose(ST, 2) == 0)
		return sim_choose(ST, 2);
	return PICK(m->db, D_MAX, name, any_name());
}

// a database that exists
static int
some_db(Model* m)
{
	int name = pick_db(m);
	return find_db(m, name) == -1 ? 0 : name;
}

static int
pick_table(Model* m, int* db, int* name)
{
	int n = 0, at = -1;
	for (int i = 0; i < T_MAX; i++)
		n += m->table[i].used;
	if (n)
	{
		int k = sim_choose(ST, n);
		for (int i = 0; i < T_MAX; i++)
			if (m->table[i].used && k-- == 0)
				at = i;
	}
	if (at == -1 || rarely())
	{
		*db   = pick_db(m);
		*name = any_name();
	} else
	{
		*db   = vary(m->table[at].db);
		*name = vary(m->table[at].name);
	}
	return find_table(m, *db, *name);
}

// volumes on different storages; false if one of them does not exist
static bool
pick_volumes(Model* m, MVolume* vol, uint8_t* count, int objects)
{
	bool ok = true;
	int n = 1 + sim_choose(ST, V_MAX);
	*count = 0;
	for (int i = 0; i < n; i++)
	{
		int name = i == 0 && !rarely() ? vary(0) : pick_storage(m);
		bool twice = false;
		for (int j = 0; j < *count; j++)
			twice |= same(vol[j].name, name);
		if (twice)
			continue;
		if (find_storage(m, name) == -1)
		{
			if (! rarely())
				continue;
			ok = false;
		}
		auto v = &vol[(*count)++];
		v->name    = name;
		v->pause   = 0;
		v->objects = objects;
		v->id      = ++b->ids;
	}
	if (! *count)
	{
		auto v = &vol[(*count)++];
		v->name    = 0;
		v->pause   = 0;
		v->objects = objects;
		v->id      = ++b->ids;
	}
	return ok;
}

static void
pick_column(MColumn* c, bool identity)
{
	memset(c, 0, sizeof(*c));
	c->name     = any_name();
	c->type     = sim_choose(ST, 4);
	c->not_null = sim_choose(ST, 2);
	c->identity = identity && c->type < 2 && sim_choose(ST, 3) == 2;
	c->modulo   = sim_choose(ST, 4) == 3 ? 7 : 0;
	c->stored   = sim_choose(ST, 3) == 2 ? sim_choose(ST, 6) : 0;
	c->resolved = sim_choose(ST, 3) == 2 ? sim_choose(ST, 6) : 0;
	c->def      = sim_choose(ST, 5);
}

static bool
pick_tier(Model* m, MTier* r)
{
	memset(r, 0, sizeof(*r));
	r->name   = any_name();
	r->region = 1024 << sim_choose(ST, 4);
	r->object = 100000 + sim_choose(ST, 4);
	return pick_volumes(m, r->vol, &r->vols, 1);
}

static void
table_create(Model* m, Stmt* s)
{
	MTable t;
	memset(&t, 0, sizeof(t));
	t.used     = 1;
	t.db       = some_db(m);
	t.name     = any_name();
	t.unlogged = sim_choose(ST, 6) == 5;
	t.parts    = 1 + sim_choose(ST, 3);
	t.id       = ++b->ids;
	t.cols     = 2;
	t.col[0]   = (MColumn) { .name = any_name(), .type = 0, .not_null = 1, .identity = sim_choose(ST, 2) };
	t.col[1] = (MColumn) { .name = any_name(), .type = 0 };
	while (same(t.col[0].name, t.col[1].name))
		t.col[1].name = (t.col[1].name + 1) % (NAMES * 2);
	int n = sim_choose(ST, 3);
	for (int i = 0; i < n; i++)
	{
		pick_column(&t.col[t.cols], false);
		if (find_column(&t, t.col[t.cols].name) == -1)
			t.cols++;
	}
	t.idxs   = 1;
	t.idx[0] = (MIndex) { .name = any_name(), .hash = sim_choose(ST, 2), .uniq = 1, .primary = 1, .key = 0 };
	bool ok = pick_volumes(m, t.vol, &t.vols, 0);
	n = sim_choose(ST, 3);
	for (int i = 0; i < n; i++)
	{
		MTier r;
		bool tier_ok = pick_tier(m, &r);
		if (find_tier(&t, r.name) != -1)
			continue;
		ok &= tier_ok;
		t.tier[t.tiers++] = r;
	}
	auto config = make_table(&t);
	table_op_create(&s->op, config);
	table_config_free(config);
	sprintf(s->what, "create table %s #%u", name_of(t.name), t.id);
	if (find_table(m, t.db, t.name) != -1)
		s->expect = s->flags & DDL_IF_NOT_EXISTS ? E_NOOP : E_ERR;
	else
	if (! ok)
		s->expect = E_ERR;
	else
	{
		int i = 0;
		while (i < T_MAX && m->table[i].used)
			i++;
		if (i == T_MAX)
			sim_broken("tables");
		m->table[i] = t;
	}
}

static int
missing(Stmt* s, int flag)
{
	return s->flags & flag ? E_NOOP : E_ERR;
}

enum
{
	K_STORAGE_CREATE, K_STORAGE_DROP, K_STORAGE_RENAME, K_DB_CREATE, K_DB_DROP, K_DB_RENAME, K_TABLE_CREATE, K_TABLE_DROP, K_TABLE_RENAME, K_TRUNCATE, K_SET_IDENTITY,
	K_SET_UNLOGGED, K_COLUMN_ADD, K_COLUMN_DROP, K_COLUMN_RENAME, K_COLUMN_SET, K_INDEX_CREATE, K_INDEX_DROP, K_INDEX_RENAME, K_TIER_CREATE, K_TIER_DROP, K_TIER_RENAME,
	K_TIER_ADD, K_TIER_SUB, K_TIER_PAUSE, K_TIER_SET, K_UDF_CREATE, K_UDF_REPLACE, K_UDF_DROP, K_UDF_RENAME, K_KINDS
};

// a statement on the catalog; m becomes what it makes of it
static void
make_statement(Model* m, Stmt* s)
{
	static const uint8_t often[] = {
		K_TABLE_CREATE, K_TABLE_CREATE, K_TABLE_CREATE, K_STORAGE_CREATE, K_STORAGE_CREATE, K_DB_CREATE, K_DB_CREATE, K_TIER_CREATE, K_TIER_CREATE, K_INDEX_CREATE, K_INDEX_CREATE,
		K_COLUMN_ADD, K_COLUMN_ADD, K_UDF_CREATE, K_TIER_ADD, K_TIER_ADD, K_TRUNCATE, K_TIER_SUB, K_TIER_PAUSE };
	int r = sim_choose(ST, K_KINDS + (int)sizeof(often));
	int kind = r < (int)sizeof(often) ? often[r] : r - (int)sizeof(often);
	int tables = 0, udfs = 0, dbs = 0, storages = 0;
	for (int i = 0; i < T_MAX; i++) tables += m->table[i].used;
	for (int i = 0; i < U_MAX; i++) udfs += m->udf[i].used;
	for (int i = 0; i < D_MAX; i++) dbs += m->db[i].used;
	for (int i = 0; i < S_MAX; i++) storages += m->storage[i].used;
	if (kind == K_TABLE_CREATE && tables == T_MAX) kind = K_TABLE_DROP;
	if ((kind == K_UDF_CREATE || kind == K_UDF_REPLACE) && udfs == U_MAX) kind = K_UDF_DROP;
	if (kind == K_DB_CREATE && dbs == D_MAX) kind = K_DB_DROP;
	if (kind == K_STORAGE_CREATE && storages == S_MAX) kind = K_STORAGE_DROP;

	buf_reset(&s->op);
	s->flags  = sim_choose(ST, 3) ? 0 : sim_choose(ST, 64);
	s->expect = E_OK;
	s->index  = false;
	strcpy(s->what, "");
	int db, name, db2, name2, name3;
	Str a, c, d, e;
	switch (kind) {
	case K_STORAGE_CREATE:
	{
		MStorage x = { .used = 1, .name = any_name(), .ext = sim_choose(ST, 3), .comp = sim_choose(ST, 2), .level = sim_choose(ST, 3) };
		auto config = storage_config_allocate();
		a = str_of_name(x.name);
		storage_config_set_name(config, &a);
		char path[32];
		sprintf(path, "/sim/ext%d", x.ext);
		if (x.ext)
		{
			str_set_cstr(&a, path);
			storage_config_set_path(config, &a);
		}
		str_set_cstr(&a, "zstd");
		if (x.comp)
			storage_config_set_compression(config, &a);
		storage_config_set_compression_level(config, x.level);
		storage_op_create(&s->op, config);
		storage_config_free(config);
		sprintf(s->what, "create storage %s", name_of(x.name));
		if (find_storage(m, x.name) != -1)
			s->expect = missing(s, DDL_IF_NOT_EXISTS);
		else
			for (int i = 0; i < S_MAX; i++)
				if (! m->storage[i].used)
				{
					m->storage[i] = x;
					break;
				}
		break;
	}
	case K_STORAGE_DROP:
	{
		name = pick_storage(m);
		a = str_of_name(name);
		storage_op_drop(&s->op, &a);
		sprintf(s->what, "drop storage %s", name_of(name));
		int i = find_storage(m, name);
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		if (i == -2 || storage_used(m, name))
			s->expect = E_ERR;
		else
			memset(&m->storage[i], 0, sizeof(MStorage));
		break;
	}
	case K_STORAGE_RENAME:
	{
		name = pick_storage(m);
		name2 = any_name();
		a = str_of_name(name);
		c = str_of_name(name2);
		storage_op_rename(&s->op, &a, &c);
		sprintf(s->what, "rename storage %s", name_of(name));
		int i = find_storage(m, name);
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		if (i == -2 || storage_used(m, name) || find_storage(m, name2) != -1)
			s->expect = E_ERR;
		else
			m->storage[i].name = name2;
		break;
	}
	case K_DB_CREATE:
	{
		name = any_name();
		auto config = database_config_allocate();
		a = str_of_name(name);
		database_config_set_name(config, &a);
		database_op_create(&s->op, config);
		database_config_free(config);
		sprintf(s->what, "create database %s", name_of(name));
		if (find_db(m, name) != -1)
			s->expect = missing(s, DDL_IF_NOT_EXISTS);
		else
			for (int i = 0; i < D_MAX; i++)
				if (! m->db[i].used)
				{
					m->db[i] = (MDb) { 1, name };
					break;
				}
		break;
	}
	case K_DB_DROP:
	{
		name = pick_db(m);
		bool cascade = sim_choose(ST, 2);
		a = str_of_name(name);
		database_op_drop(&s->op, &a, cascade);
		sprintf(s->what, "drop database %s%s", name_of(name), cascade ? " cascade" : "");
		int i = find_db(m, name);
		int deps = 0;
		for (int k = 0; k < T_MAX; k++)
			deps += m->table[k].used && same(m->table[k].db, name);
		for (int k = 0; k < U_MAX; k++)
			deps += m->udf[k].used && same(m->udf[k].db, name);
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		if (i == -2 || (deps && !cascade))
			s->expect = E_ERR;
		else
		{
			for (int k = 0; k < T_MAX; k++)
				if (m->table[k].used && same(m->table[k].db, name))
					memset(&m->table[k], 0, sizeof(MTable));
			for (int k = 0; k < U_MAX; k++)
				if (m->udf[k].used && same(m->udf[k].db, name))
					memset(&m->udf[k], 0, sizeof(MUdf));
			memset(&m->db[i], 0, sizeof(MDb));
		}
		break;
	}
	case K_DB_RENAME:
	{
		name = pick_db(m);
		name2 = any_name();
		a = str_of_name(name);
		c = str_of_name(name2);
		database_op_rename(&s->op, &a, &c);
		sprintf(s->what, "rename database %s to %s", name_of(name), name_of(name2));
		int i = find_db(m, name);
		bool used = false;
		for (int k = 0; k < U_MAX; k++)
			used |= m->udf[k].used && same(m->udf[k].db, name);
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		if (i == -2 || used || find_db(m, name2) != -1)
			s->expect = E_ERR;
		else
		{
			m->db[i].name = name2;
			for (int k = 0; k < T_MAX; k++)
				if (m->table[k].used && same(m->table[k].db, name))
					m->table[k].db = name2;
		}
		break;
	}
	case K_TABLE_CREATE:
		table_create(m, s);
		break;
	case K_TABLE_DROP:
	{
		int i = pick_table(m, &db, &name);
		a = str_of_name(db);
		c = str_of_name(name);
		table_op_drop(&s->op, &a, &c);
		sprintf(s->what, "drop table %s", name_of(name));
		if (function_depends(m, name))
			s->expect = E_ERR;
		else
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
			memset(&m->table[i], 0, sizeof(MTable));
		break;
	}
	case K_TABLE_RENAME:
	{
		int i = pick_table(m, &db, &name);
		db2   = sim_choose(ST, 2) ? db : pick_db(m);
		name2 = sim_choose(ST, 4) ? any_name() : name;
		a = str_of_name(db);
		c = str_of_name(name);
		d = str_of_name(db2);
		e = str_of_name(name2);
		table_op_rename(&s->op, &a, &c, &d, &e);
		sprintf(s->what, "rename table %s to %s", name_of(name), name_of(name2));
		if (find_db(m, db2) == -1 || function_depends(m, name))
			s->expect = E_ERR;
		else
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		if (find_table(m, db2, name2) != -1)
			s->expect = E_ERR;
		else
		{
			auto t = &m->table[i];
			if (! same(t->db, db2))
				t->db = db2;
			if (! same(t->name, name2))
				t->name = name2;
		}
		break;
	}
	case K_TRUNCATE:
	{
		int i = pick_table(m, &db, &name);
		a = str_of_name(db);
		c = str_of_name(name);
		table_op_truncate(&s->op, &a, &c);
		sprintf(s->what, "truncate %s", name_of(name));
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		{
			auto t = &m->table[i];
			memset(t->row, 0, sizeof(t->row));
			for (int k = 0; k < t->tiers; k++)
				for (int j = 0; j < t->tier[k].vols; j++)
					t->tier[k].vol[j].objects = 0;
		}
		break;
	}
	case K_SET_IDENTITY:
	{
		int i = pick_table(m, &db, &name);
		int64_t value = sim_choose(ST, 1000);
		a = str_of_name(db);
		c = str_of_name(name);
		table_op_set_identity(&s->op, &a, &c, value);
		sprintf(s->what, "set identity of %s to %d", name_of(name), (int)value);
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		{
			m->table[i].seq = value;
			m->table[i].seq_log = value;
			m->table[i].identity_set = 1;
			for (int k = 0; k < ROWS; k++)
				m->table[i].identity_back |= m->table[i].row[k] && m->table[i].seq <= k;
			m->table[i].identity_lsn = UINT64_MAX;
		}
		break;
	}
	case K_SET_UNLOGGED:
	{
		int i = pick_table(m, &db, &name);
		bool value = sim_choose(ST, 2);
		a = str_of_name(db);
		c = str_of_name(name);
		table_op_set_unlogged(&s->op, &a, &c, value);
		sprintf(s->what, "set %s %s", name_of(name), value ? "unlogged" : "logged");
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
			m->table[i].unlogged = value;
		break;
	}
	case K_COLUMN_ADD:
	{
		int i = pick_table(m, &db, &name);
		MColumn x;
		pick_column(&x, true);
		if (i != -1 && m->table[i].cols == CO_MAX)
			x.name = m->table[i].col[0].name;
		a = str_of_name(db);
		c = str_of_name(name);
		auto column = make_column(&x);
		table_op_column_add(&s->op, &a, &c, column);
		column_free(column);
		sprintf(s->what, "add column %s to %s", name_of(x.name), name_of(name));
		if (function_depends(m, name))
			s->expect = E_ERR;
		else
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		if (find_column(&m->table[i], x.name) != -1)
			s->expect = missing(s, DDL_IF_COLUMN_NOT_EXISTS);
		else
		if (x.identity && identity_of(&m->table[i]) != -1)
			s->expect = E_ERR;
		else
			m->table[i].col[m->table[i].cols++] = x;
		break;
	}
	case K_COLUMN_DROP:
	case K_COLUMN_RENAME:
	case K_COLUMN_SET:
	{
		int i = pick_table(m, &db, &name);
		name2 = any_name();
		if (i != -1 && !rarely())
			name2 = vary(m->table[i].col[sim_choose(ST, m->table[i].cols)].name);
		name3 = any_name();
		a = str_of_name(db);
		c = str_of_name(name);
		d = str_of_name(name2);
		e = str_of_name(name3);
		int op = sim_choose(ST, 3), value = 0;
		Buf buf;
		buf_init(&buf);
		if (kind == K_COLUMN_DROP)
			table_op_column_drop(&s->op, &a, &c, &d);
		else
		if (kind == K_COLUMN_RENAME)
			table_op_column_rename(&s->op, &a, &c, &d, &e);
		else
		{
			static const int ops[] = { DDL_TABLE_COLUMN_SET_DEFAULT, DDL_TABLE_COLUMN_SET_STORED, DDL_TABLE_COLUMN_SET_RESOLVED };
			value = op ? sim_choose(ST, 6) : 1 + sim_choose(ST, 4);
			if (op)
				str_set_cstr(&e, (char*)exprs[value]);
			else
			{
				default_of(&buf, value);
				buf_str(&buf, &e);
			}
			table_op_column_set(&s->op, ops[op], &a, &c, &d, &e);
		}
		buf_free(&buf);
		sprintf(s->what, "%s column %s of %s", kind == K_COLUMN_DROP ? "drop" : kind == K_COLUMN_RENAME ? "rename" : "set", name_of(name2), name_of(name));
		if (function_depends(m, name))
			s->expect = E_ERR;
		else
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		{
			auto t = &m->table[i];
			int k = find_column(t, name2);
			if (k == -1)
				s->expect = missing(s, DDL_IF_COLUMN_EXISTS);
			else
			if (kind == K_COLUMN_DROP)
			{
				bool key = false;
				for (int x = 0; x < t->idxs; x++)
					key |= t->idx[x].key == k || k == 0;
				if (key)
					s->expect = E_ERR;
				else
					t->col[k] = (MColumn) { .name = t->col[k].name, .type = t->col[k].type, .dropped = 1 };
			} else
			if (kind == K_COLUMN_RENAME)
			{
				if (find_column(t, name3) != -1)
					s->expect = E_ERR;
				else
					t->col[k].name = name3;
			} else
			if (op == 0)
				t->col[k].def = value;
			else
			if (op == 1)
				t->col[k].stored = value;
			else
				t->col[k].resolved = value;
		}
		break;
	}
	case K_INDEX_CREATE:
	{
		int i = pick_table(m, &db, &name);
		MIndex x = { .name = any_name(), .hash = sim_choose(ST, 2), .uniq = 1 };
		x.key = 0;
		if (i != -1 && !m->table[i].col[1].dropped && sim_choose(ST, 2))
		{
			x.key  = 1;
			x.uniq = sim_choose(ST, 2);
		}
		if (i != -1 && m->table[i].idxs == IX_MAX)
			x.name = m->table[i].idx[1].name;
		a = str_of_name(db);
		c = str_of_name(name);
		Columns empty, *columns = &empty;
		columns_init(&empty);
		if (i != -1)
		{
			MTable t = m->table[i];
			for (int k = 0; k < t.cols; k++)
				columns_add(&empty, make_column(&t.col[k]));
		} else
		{
			MColumn t = { .name = 0 };
			columns_add(&empty, make_column(&t));
		}
		auto config = make_index(&x, columns);
		table_op_index_create(&s->op, &a, &c, config);
		index_config_free(config);
		columns_free(&empty);
		s->index = true;
		sprintf(s->what, "create index %s on %s", name_of(x.name), name_of(name));
		if (i == -1)
			s->expect = E_ERR;
		else
		if (find_index(&m->table[i], x.name) != -1)
			s->expect = missing(s, DDL_IF_NOT_EXISTS);
		else
			m->table[i].idx[m->table[i].idxs++] = x;
		break;
	}
	case K_INDEX_DROP:
	case K_INDEX_RENAME:
	{
		int i = pick_table(m, &db, &name);
		name2 = any_name();
		if (i != -1 && !rarely())
			name2 = vary(m->table[i].idx[sim_choose(ST, m->table[i].idxs)].name);
		name3 = any_name();
		a = str_of_name(db);
		c = str_of_name(name);
		d = str_of_name(name2);
		e = str_of_name(name3);
		if (kind == K_INDEX_DROP)
			table_op_index_drop(&s->op, &a, &c, &d);
		else
			table_op_index_rename(&s->op, &a, &c, &d, &e);
		sprintf(s->what, "%s index %s of %s", kind == K_INDEX_DROP ? "drop" : "rename", name_of(name2), name_of(name));
		if (function_depends(m, name) || i == -1)
		{
			s->expect = E_ERR;
			break;
		}
		auto t = &m->table[i];
		int k = find_index(t, name2);
		if (k == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		if (kind == K_INDEX_RENAME)
		{
			if (find_index(t, name3) != -1)
				s->expect = E_ERR;
			else
				t->idx[k].name = name3;
		} else
		if (k == 0)
			s->expect = E_ERR;
		else
		{
			memmove(&t->idx[k], &t->idx[k + 1], sizeof(MIndex) * (t->idxs - k - 1));
			t->idxs--;
		}
		break;
	}
	case K_TIER_CREATE:
	{
		int i = pick_table(m, &db, &name);
		MTier x;
		bool ok = pick_tier(m, &x);
		if (i != -1 && m->table[i].tiers == R_MAX)
			x.name = vary(m->table[i].tier[0].name);
		a = str_of_name(db);
		c = str_of_name(name);
		auto config = make_tier(&x);
		table_op_tier_create(&s->op, &a, &c, config);
		tier_config_free(config);
		sprintf(s->what, "create tier %s on %s", name_of(x.name), name_of(name));
		if (i == -1)
			s->expect = E_ERR;
		else
		if (find_tier(&m->table[i], x.name) != -1)
			s->expect = missing(s, DDL_IF_NOT_EXISTS);
		else
		if (! ok)
			s->expect = E_ERR;
		else
			m->table[i].tier[m->table[i].tiers++] = x;
		break;
	}
	case K_TIER_DROP:
	case K_TIER_RENAME:
	case K_TIER_ADD:
	case K_TIER_SUB:
	case K_TIER_PAUSE:
	case K_TIER_SET:
	{
		int i = pick_table(m, &db, &name);
		MTable* t = i == -1 ? NULL : &m->table[i];
		name2 = any_name();
		if (t && t->tiers && !rarely())
			name2 = vary(t->tier[sim_choose(ST, t->tiers)].name);
		int k = t ? find_tier(t, name2) : -1;
		MTier* tier = k == -1 ? NULL : &t->tier[k];
		name3 = kind == K_TIER_RENAME ? any_name() : pick_storage(m);
		if (tier && (kind == K_TIER_SUB || kind == K_TIER_PAUSE) && !rarely())
			name3 = vary(tier->vol[sim_choose(ST, tier->vols)].name);
		int j = tier ? find_volume(tier, name3) : -1;
		a = str_of_name(db);
		c = str_of_name(name);
		d = str_of_name(name2);
		e = str_of_name(name3);
		if (kind == K_TIER_DROP)
		{
			table_op_tier_drop(&s->op, &a, &c, &d);
			sprintf(s->what, "drop tier %s of %s", name_of(name2), name_of(name));
		} else
		if (kind == K_TIER_RENAME)
		{
			table_op_tier_rename(&s->op, &a, &c, &d, &e);
			sprintf(s->what, "rename tier %s of %s", name_of(name2), name_of(name));
		} else
		if (kind == K_TIER_ADD)
		{
			MVolume v = { .name = name3, .id = ++b->ids };
			auto volume = make_volume(&v);
			table_op_tier_storage_add(&s->op, &a, &c, &d, volume);
			volume_free(volume);
			sprintf(s->what, "tier %s of %s: add storage %s", name_of(name2), name_of(name), name_of(name3));
			if (tier && j == -1 && tier->vols < V_MAX && find_storage(m, name3) != -1)
			{
				tier->vol[tier->vols++] = v;
				break;
			}
			if (t && !tier)
				s->expect = missing(s, DDL_IF_EXISTS);
			else
			if (!tier || find_storage(m, name3) == -1)
				s->expect = E_ERR;
			else
			if (j != -1)
				s->expect = missing(s, DDL_IF_STORAGE_NOT_EXISTS);
			else
			{
				// no room in the model
				buf_reset(&s->op);
				table_op_tier_drop(&s->op, &a, &c, &d);
				sprintf(s->what, "drop tier %s of %s", name_of(name2), name_of(name));
				memmove(tier, tier + 1, sizeof(MTier) * (t->tiers - k - 1));
				t->tiers--;
			}
			break;
		} else
		if (kind == K_TIER_SUB)
		{
			table_op_tier_storage_drop(&s->op, &a, &c, &d, &e);
			sprintf(s->what, "tier %s of %s: drop storage %s", name_of(name2), name_of(name), name_of(name3));
		} else
		if (kind == K_TIER_PAUSE)
		{
			bool pause = sim_choose(ST, 3) != 2;
			table_op_tier_storage_pause(&s->op, &a, &c, &d, &e, pause);
			sprintf(s->what, "tier %s of %s: %s storage %s", name_of(name2), name_of(name), pause ? "pause" : "resume", name_of(name3));
			if (! t)
				s->expect = E_ERR;
			else
			if (! tier)
				s->expect = missing(s, DDL_IF_EXISTS);
			else
			if (j == -1)
				s->expect = missing(s, DDL_IF_STORAGE_EXISTS);
			else
			if (tier->vol[j].pause == pause)
				s->expect = E_NOOP;
			else
			if (pause && active(tier) <= 1)
				s->expect = E_ERR;
			else
				tier->vol[j].pause = pause;
			break;
		} else
		{
			MTier x = { .name = name2, .region = 1024 << sim_choose(ST, 4), .object = 100000 + sim_choose(ST, 4) };
			int mask = sim_choose(ST, 4);
			auto config = make_tier(&x);
			table_op_tier_set(&s->op, &a, &c, config, mask);
			tier_config_free(config);
			sprintf(s->what, "set tier %s of %s", name_of(name2), name_of(name));
			if (! t)
				s->expect = E_ERR;
			else
			if (! tier)
				s->expect = missing(s, DDL_IF_EXISTS);
			else
			{
				if (mask & TIER_REGION_SIZE)
					tier->region = x.region;
				if (mask & TIER_OBJECT_SIZE)
					tier->object = x.object;
			}
			break;
		}
		if (! t)
			s->expect = E_ERR;
		else
		if (! tier)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		if (kind == K_TIER_DROP)
		{
			memmove(tier, tier + 1, sizeof(MTier) * (t->tiers - k - 1));
			t->tiers--;
		} else
		if (kind == K_TIER_RENAME)
		{
			if (find_tier(t, name3) != -1)
				s->expect = E_ERR;
			else
				tier->name = name3;
		} else
		if (j == -1)
			s->expect = missing(s, DDL_IF_STORAGE_EXISTS);
		else
		if (!tier->vol[j].pause && active(tier) <= 1)
			s->expect = E_ERR;
		else
		{
			memmove(&tier->vol[j], &tier->vol[j + 1], sizeof(MVolume) * (tier->vols - j - 1));
			tier->vols--;
		}
		break;
	}
	case K_UDF_CREATE:
	case K_UDF_REPLACE:
	{
		MUdf x = { .used = 1, .db = some_db(m), .name = any_name(), .dep = sim_choose(ST, 3) ? 98 : sim_choose(ST, NAMES), .text = sim_choose(ST, 10),
		           .type = sim_choose(ST, 4), .args = sim_choose(ST, 3), .ret = sim_choose(ST, 3) };
		if (x.type == 1)
			x.type = 0;
		if (kind == K_UDF_REPLACE && sim_choose(ST, 2))
			for (int i = 0; i < U_MAX; i++)
				if (m->udf[i].used)
				{
					int text = x.text, dep = x.dep;
					x = m->udf[i];
					x.db   = vary(x.db);
					x.name = vary(x.name);
					x.text = text;
					x.dep  = dep;
					if (rarely())
						x.args = (x.args + 1) % 3;
				}
		if (rarely())
			x.dep = 99;
		auto config = make_udf(&x);
		if (kind == K_UDF_CREATE)
			udf_op_create(&s->op, config);
		else
			udf_op_replace(&s->op, config);
		udf_config_free(config);
		sprintf(s->what, "%s function %s", kind == K_UDF_CREATE ? "create" : "replace", name_of(x.name));
		int i = find_udf(m, x.db, x.name);
		if (i != -1 && kind == K_UDF_CREATE)
			s->expect = E_ERR;
		else
		if (i != -1 && (m->udf[i].args != x.args || m->udf[i].ret != x.ret || m->udf[i].type != x.type))
			s->expect = E_ERR;
		else
		if (x.dep == 99)
			s->expect = E_ERR;
		else
		{
			for (int k = 0; k < U_MAX && i == -1; k++)
				if (! m->udf[k].used)
					i = k;
			m->udf[i] = x;
		}
		break;
	}
	case K_UDF_DROP:
	case K_UDF_RENAME:
	{
		db   = pick_db(m);
		name = any_name();
		int n = sim_choose(ST, U_MAX);
		if (m->udf[n].used && !rarely())
		{
			db   = vary(m->udf[n].db);
			name = vary(m->udf[n].name);
		}
		db2   = sim_choose(ST, 2) ? db : pick_db(m);
		name2 = any_name();
		a = str_of_name(db);
		c = str_of_name(name);
		d = str_of_name(db2);
		e = str_of_name(name2);
		if (kind == K_UDF_DROP)
			udf_op_drop(&s->op, &a, &c);
		else
			udf_op_rename(&s->op, &a, &c, &d, &e);
		sprintf(s->what, "%s function %s", kind == K_UDF_DROP ? "drop" : "rename", name_of(name));
		int i = find_udf(m, db, name);
		if ((kind == K_UDF_RENAME && find_db(m, db2) == -1) || function_depends(m, name))
			s->expect = E_ERR;
		else
		if (i == -1)
			s->expect = missing(s, DDL_IF_EXISTS);
		else
		if (kind == K_UDF_DROP)
			memset(&m->udf[i], 0, sizeof(MUdf));
		else
		if (find_udf(m, db2, name2) != -1)
			s->expect = E_ERR;
		else
		{
			if (! same(m->udf[i].db, db2))
				m->udf[i].db = db2;
			if (! same(m->udf[i].name, name2))
				m->udf[i].name = name2;
		}
		break;
	}
	}
}

// ------------------------------------------------------------------ execution
static uint64_t
disk_errors(void)
{
	uint64_t n = 0;
	for (int f = SIM_F_WRITE_ENOSPC; f <= SIM_F_META_EIO; f++)
		n += sim_fault_seen(f);
	return n;
}

static const char*
error_text(void)
{
	static char text[200];
	snprintf(text, sizeof(text), "%.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
	return text;
}

static IndexConfig* ix_config;
static Table*       ix_table;

static void
index_build(Tr* tr, uint8_t* op)
{
	list_foreach(&ix_table->part_mgr.list)
	{
		auto part = list_at(Part, link);
		Index* index;
		if (ix_config->type == INDEX_TREE)
			index = index_tree_allocate(ix_config, part);
		else
			index = index_hash_allocate(ix_config, part);
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, part->heap, NULL);
		for (; heap_iterator_has(&it); heap_iterator_next(&it))
			sim_check(! index_replace_by(index, heap_iterator_at(&it)), "index-unique", "two rows have the same key in a new index");
		part_index_add(part, index);
	}
	table_index_add(ix_table, tr, ix_config);
	log_persist_relation(&tr->log, op);
}

// follows service_create_index()
static bool
index_create(Tr* tr, uint8_t* op, int flags)
{
	Str db, name;
	auto pos = table_op_index_create_read(op, &db, &name);
	ix_table  = table_mgr_find(&cat.table_mgr, &db, &name, true);
	ix_config = index_config_read(table_columns(ix_table), &pos);
	keys_set_primary(&ix_config->keys, false);
	if (table_index_find(ix_table, &ix_config->name, false))
	{
		index_config_free(ix_config);
		if (! ddl_if_not_exists(flags))
			error("index already exists");
		return false;
	}
	index_build(tr, op);
	return true;
}

static void fault_rates(int percent);

static void
in_doubt(void)
{
	b->doubt[b->doubts++] = b->pending;
	if (b->doubts == 6)
		fault_rates(0);
	sim_probe("failed-in-doubt");
}

static Tr        tr;
static Write     wr;
static WriteList wr_list;
static bool      did;

static void
log_write(void)
{
	write_begin(&wr);
	write_add(&wr, &tr.log.write_log);
	write_list_add(&wr_list, &wr);
	wal_mgr_write(&wm, &wr_list);
}

static void
transaction_begin(void)
{
	tr_init(&tr);
	write_init(&wr);
	write_list_init(&wr_list);
	did = false;
}

// end of a transaction: what is in the log is applied, what failed is as before
static void
transaction_end(bool failed, const char* what)
{
	static bool end_failed;
	if (failed)
		end_failed = error_catch( tr_abort(&tr) );
	else
		end_failed = error_catch( tr_commit(&tr) );
	if (end_failed)
		sim_fail("transaction-end", "%s: %s failed: %s", what, failed ? "abort" : "commit", error_text());
	tr_free(&tr);
	write_free(&wr);
}

static Model next;

static void
execute(Stmt* s, bool abort_it)
{
	auto errors = disk_errors();
	__atomic_store_n(&b->in_flight, false, __ATOMIC_SEQ_CST);
	b->pending = next;
	if (s->expect == E_OK && !abort_it)
		__atomic_store_n(&b->in_flight, true, __ATOMIC_SEQ_CST);
	sim_log("%s flags %d expect %d%s", s->what, s->flags, s->expect, abort_it ? " abort" : "");
	transaction_begin();
	bool failed = error_catch
	(
		tr_begin(&tr);
		if (s->index)
			did = index_create(&tr, s->op.start, s->flags);
		else
			did = catalog_execute(&cat, &tr, s->op.start, s->flags);
		if (abort_it)
			error("abort");
		if (did)
		{
			log_write();
			opt_int_set(&state()->catalog_pending, state_lsn());
		}
	);
	char text[200];
	strcpy(text, failed ? error_text() : "");
	transaction_end(failed, s->what);
	bool hit = disk_errors() != errors;
	if (hit)
		b->loose = true;
	if (failed)
	{
		if (!abort_it && !hit)
			sim_check(s->expect == E_ERR, "ddl-error", "%s: failed: %s", s->what, text);
		sim_probe(abort_it ? "ddl-abort" : hit ? "ddl-disk-error" : "ddl-refused");
		if (hit && !abort_it && s->expect == E_OK)
			in_doubt();
	} else
	{
		sim_check(s->expect != E_ERR, "ddl-accepted", "%s: was accepted", s->what);
		sim_check(did == (s->expect == E_OK), "ddl-effect", "%s: it reports that it did %s", s->what, did ? "something" : "nothing");
		if (did)
		{
			for (int i = 0; i < T_MAX; i++)
				if (next.table[i].identity_lsn == UINT64_MAX)
					next.table[i].identity_lsn = state_lsn();
			b->acked  = next;
			b->doubts = 0;
		}
	}
	__atomic_store_n(&b->in_flight, false, __ATOMIC_SEQ_CST);
	check_catalog(&b->acked, s->what);
}

// ------------------------------------------------------------------ rows
static Row*
row_make(Heap* heap, Buf* buf, MTable* t, int id, int version)
{
	int k = identity_of(t);
	int size = 16;
	if (k > 1)
		size += types[t->col[k].type][1];
	auto row = heap ? row_allocate(heap, t->cols, size) : row_allocate_buf(buf, t->cols, size);
	auto pos = (uint8_t*)row_data(row, t->cols);
	for (int c = 0; c < t->cols; c++)
	{
		if (c < 2)
		{
			row_set(row, c, pos - (uint8_t*)row);
			*(int64_t*)pos = c == 0 ? id : (int64_t)version * ROWS + id;
			pos += 8;
		} else
		if (c == k)
		{
			row_set(row, c, pos - (uint8_t*)row);
			if (types[t->col[k].type][1] == 4)
				*(int32_t*)pos = id;
			else
				*(int64_t*)pos = id;
			pos += types[t->col[k].type][1];
		} else
			row_set_null(row, c);
	}
	return row;
}

static Table*
table_of_model(MTable* t)
{
	Uuid id = uuid_of_id(t->id);
	return table_mgr_find_by(&cat.table_mgr, &id, true);
}

static Buf row_buf;

static void
change_row(MTable* t, Table* table, int id, int version)
{
	buf_reset(&row_buf);
	auto key = row_make(NULL, &row_buf, t, id, version ? version : t->row[id]);
	auto part = part_mapping_map(&table->part_mgr.mapping, key);
	sim_check(part != NULL, "part-hole", "a row has no partition");
	if (version)
		part_insert(part, &tr, true, row_copy(part->heap, key));
	else
		part_delete_by(part, &tr, key);
	t->row[id] = version;
	if (version && identity_of(t) != -1 && t->seq < id + 1)
		t->seq = id + 1;
}

static void
rows_statement(void)
{
	int n = 0;
	next = b->acked;
	for (int i = 0; i < T_MAX; i++)
		n += next.table[i].used && !next.table[i].unlogged;
	if (! n)
		return;
	int k = sim_choose(ST, n);
	MTable* t = NULL;
	for (int i = 0; i < T_MAX; i++)
		if (next.table[i].used && !next.table[i].unlogged && k-- == 0)
			t = &next.table[i];
	auto table = table_of_model(t);
	auto seq = t->seq;
	(void)seq;
	int  ids[6], versions[6], count = 1 + sim_choose(ST, 6);
	bool on_value = false;
	for (int i = 0; i < t->idxs; i++)
		on_value |= t->idx[i].key == 1;
	int spread = sim_choose(ST, 2) ? ROWS : 4;
	MTable plan = *t;
	int done = 0;
	for (int i = 0; i < count; i++)
	{
		int id = sim_choose(ST, spread);
		if (plan.row[id] && (on_value || sim_choose(ST, 2)))
			versions[done] = 0;
		else
			versions[done] = ++b->version;
		ids[done++] = id;
		plan.row[id] = versions[done - 1];
	}
	bool abort_it = rarely();
	int  abort_at = abort_it ? sim_choose(ST, count + 1) : -1;
	for (int i = 0; i < done; i++)
		if (versions[i] > 60000)
			return;
	// what it will be
	MTable was = *t;
	*t = plan;
	for (int i = 0; i < done; i++)
		if (versions[i] && identity_of(t) != -1 && t->seq < ids[i] + 1)
			t->seq = ids[i] + 1;
	for (int i = 0; i < done; i++)
		if (versions[i] && identity_of(t) != -1 && t->seq_log < ids[i] + 1)
			t->seq_log = ids[i] + 1;
	auto errors = disk_errors();
	__atomic_store_n(&b->in_flight, false, __ATOMIC_SEQ_CST);
	b->pending = next;
	if (! abort_it)
		__atomic_store_n(&b->in_flight, true, __ATOMIC_SEQ_CST);
	sim_log("%d rows of %s%s", count, name_of(t->name), abort_it ? " abort" : "");
	static MTable work;
	work = was;
	transaction_begin();
	bool failed = error_catch
	(
		tr_begin(&tr);
		for (int i = 0; i < done; i++)
		{
			if (i == abort_at)
				error("abort");
			change_row(&work, table, ids[i], versions[i]);
		}
		if (abort_it)
			error("abort");
		log_write();
		list_foreach(&table->part_mgr.list)
			track_lsn_follow(&list_at(Part, link)->track, state_lsn());
	);
	char text[200];
	strcpy(text, failed ? error_text() : "");
	transaction_end(failed, "rows");
	bool hit = disk_errors() != errors;
	if (hit)
		b->loose = true;
	if (failed)
	{
		sim_check(abort_it || hit, "rows-error", "changing rows failed: %s", text);
		// numbers given are not given again
		for (int i = 0; i < T_MAX; i++)
			if (b->acked.table[i].used && b->acked.table[i].id == t->id)
				b->acked.table[i].seq = work.seq;
		if (! abort_it)
			in_doubt();
	} else
	{
		b->acked  = next;
		b->doubts = 0;
	}
	__atomic_store_n(&b->in_flight, false, __ATOMIC_SEQ_CST);
	check_catalog(&b->acked, "rows");
}

// ------------------------------------------------------------------ checkpoint
// follows service/refresh.c and service/service_recover.c
typedef struct { char old_path[160], new_path[160], done_path[160]; uint64_t check; } Service;

#define SERVICE DIRECTORY "/service"

static Part* ck_part;
static Id    ck_id;
static File  ck_file;
static bool  ck_committed;

static void
ck_done(void)
{
	id_delete(&ck_part->id, STATE_COMPLETE);
	id_rename(&ck_id, STATE_INCOMPLETE, STATE_COMPLETE);
	if (fs_exists("%s", SERVICE))
		fs_unlink("%s", SERVICE);
}

static void
ck_create(void)
{
	bool sync = opt_int_of(&config()->storage_sync);
	heap_create(ck_part->heap, &ck_file, &ck_id, STATE_INCOMPLETE);
	if (sync)
		file_sync(&ck_file);
	file_close(&ck_file);
	static char path[PATH_MAX];
	static Service s;
	memset(&s, 0, sizeof(s));
	id_path(&ck_part->id, path, STATE_COMPLETE, false);
	snprintf(s.old_path, sizeof(s.old_path), "%s", path);
	id_path(&ck_id, path, STATE_INCOMPLETE, false);
	snprintf(s.new_path, sizeof(s.new_path), "%s", path);
	id_path(&ck_id, path, STATE_COMPLETE, false);
	snprintf(s.done_path, sizeof(s.done_path), "%s", path);
	File file;
	file_init(&file);
	defer(file_close, &file);
	file_open_as(&file, SERVICE ".incomplete", O_CREAT|O_RDWR|O_TRUNC, 0600);
	file_write(&file, &s, sizeof(s));
	if (sync)
		file_sync(&file);
	file_close(&file);
	fs_rename(SERVICE ".incomplete", "%s", SERVICE);
	ck_committed = true;
	ck_done();
}

static void
refresh(Table* table, Part* part)
{
	ck_part       = part;
	ck_committed  = false;
	ck_id.id      = state_psn_next();
	ck_id.version = 0;
	ck_id.volume  = sim_choose(ST, 2) ? part->id.volume : volume_mgr_next(&table->config->part_mgr_config.volumes);
	file_init(&ck_file);
	auto header = part->heap->header;
	auto was = header->lsn;
	header->lsn = track_lsn(&part->track);
	auto errors = disk_errors();
	if (error_catch( ck_create() ))
	{
		sim_check(disk_errors() != errors, "checkpoint-error", "checkpoint failed: %s", error_text());
		b->loose = true;
		bool on = sim_faults_on();
		sim_faults(false);
		file_close(&ck_file);
		if (ck_committed)
			ck_done();
		else
		{
			header->lsn = was;
			id_delete(&ck_id, STATE_INCOMPLETE);
			sim_faults(on);
			return;
		}
		sim_faults(on);
	}
	volume_remove(part->id.volume, &part->link_volume);
	part->id = ck_id;
	volume_add(ck_id.volume, &part->link_volume);
	sim_probe("refresh");
}

static void
checkpoint(bool full)
{
	sim_log("checkpoint%s", full ? "" : " some");
	bool all = true;
	list_foreach(&cat.table_mgr.mgr.list)
	{
		auto table = table_of(list_at(Relation, link));
		list_foreach(&table->part_mgr.list)
		{
			auto part = list_at(Part, link);
			if (! part_has_updates(part))
				continue;
			if (full || sim_choose(ST, 2))
				refresh(table, part);
			all &= !part_has_updates(part);
		}
	}
	// the catalog file comes last: the statements it passes are not replayed
	auto errors = disk_errors();
	if (full && all && state_catalog() < state_catalog_pending())
	{
		if (error_catch( catalog_write(&cat) ))
		{
			sim_check(disk_errors() != errors, "catalog-write", "writing the catalog failed: %s", error_text());
			b->loose = true;
		} else
			sim_probe("catalog-write");
	}
	if (! full)
		return;
	uint64_t lsn = UINT64_MAX;
	if (state_catalog_pending() > state_catalog())
		lsn = state_catalog();
	list_foreach(&cat.table_mgr.mgr.list)
	{
		auto table = table_of(list_at(Relation, link));
		list_foreach(&table->part_mgr.list)
		{
			auto part = list_at(Part, link);
			if (part_has_updates(part) && part->heap->header->lsn < lsn)
				lsn = part->heap->header->lsn;
		}
	}
	if (error_catch( wal_gc(&wm.wal, lsn) ))
		sim_check(disk_errors() != errors, "wal-gc", "wal gc failed: %s", error_text());
}

static void
service_recover(void)
{
	if (sim_disk_exists(SERVICE ".incomplete"))
		fs_unlink("%s", SERVICE ".incomplete");
	if (! sim_disk_exists(SERVICE))
		return;
	Service s;
	auto f = sim_disk_file(SERVICE);
	sim_check(f.size == sizeof(s), "service", "the service file is not complete");
	memcpy(&s, f.data, sizeof(s));
	if (fs_exists("%s", s.old_path))
		fs_unlink("%s", s.old_path);
	if (fs_exists("%s", s.new_path))
		fs_rename(s.new_path, "%s", s.done_path);
	fs_unlink("%s", SERVICE);
	sim_probe("checkpoint-completed");
}

// ------------------------------------------------------------------ backup
typedef struct { char path[200]; uint64_t hash; } Linked;
static Linked linked[200];
static int    links;

static uint64_t
file_hash(const char* path)
{
	auto f = sim_disk_file(path);
	uint64_t h = f.size + 1;
	for (size_t i = 0; i < f.size; i++)
		h = h * 1099511628211ull ^ f.data[i];
	return f.exists ? h : 0;
}

static void
link_find(void* arg, const char* name)
{
	if (strstr(name, ".snapshot"))
		sim_fail("snapshot-leftover", "%s/%s is left after the snapshot was removed", (char*)arg, name);
}

static void
each_dir(void (*fn)(void*, const char*))
{
	for (int i = 0; i < T_MAX; i++)
	{
		auto t = &b->acked.table[i];
		if (! t->used)
			continue;
		char uuid[UUID_SZ];
		static char path[128];
		for (int j = 0; j < t->vols; j++)
		{
			Uuid id = uuid_of_id(t->vol[j].id);
			uuid_get(&id, uuid, sizeof(uuid));
			snprintf(path, sizeof(path), DIRECTORY "/storage/%s", uuid);
			sim_disk_list(path, fn, path);
		}
		for (int k = 0; k < t->tiers; k++)
			for (int j = 0; j < t->tier[k].vols; j++)
			{
				Uuid id = uuid_of_id(t->tier[k].vol[j].id);
				uuid_get(&id, uuid, sizeof(uuid));
				snprintf(path, sizeof(path), DIRECTORY "/storage/%s", uuid);
				sim_disk_list(path, fn, path);
			}
	}
}

static void
snapshot_make(Buf* buf)
{
	encode_obj(buf);
	catalog_snapshot(&cat, buf);
	encode_obj_end(buf);
}

static void
snapshot_statement(void)
{
	// a backup: links to all files; they stay as they are
	bool on = sim_faults_on();
	sim_faults(false);
	Buf buf;
	buf_init(&buf);
	if (error_catch( snapshot_make(&buf) ))
		sim_fail("snapshot-error", "snapshot failed: %s", error_text());
	uint8_t* pos = buf.start;
	uint8_t* pos_catalog = NULL;
	uint8_t* pos_volumes = NULL;
	uint8_t* pos_files = NULL;
	Decode obj[] =
	{
		{ DECODE_OBJ,   "catalog", &pos_catalog },
		{ DECODE_ARRAY, "volumes", &pos_volumes },
		{ DECODE_ARRAY, "files",   &pos_files },
		{ 0,             NULL,      NULL },
	};
	decode_obj(obj, "snapshot", &pos);
	int want = 0, volumes = 0, n = 0;
	for (int i = 0; i < T_MAX; i++)
	{
		auto t = &b->acked.table[i];
		if (! t->used)
			continue;
		want    += t->parts;
		volumes += t->vols;
		for (int k = 0; k < t->tiers; k++)
		{
			volumes += t->tier[k].vols;
			for (int j = 0; j < t->tier[k].vols; j++)
				want += t->tier[k].vol[j].objects;
		}
	}
	json_read_array(&pos_volumes);
	while (! json_read_array_end(&pos_volumes))
	{
		Str str;
		json_read_string(&pos_volumes, &str);
		n++;
	}
	sim_check(n == volumes, "snapshot-volumes", "the snapshot lists %d volumes, there are %d", n, volumes);
	json_read_array(&pos_files);
	links = 0;
	while (! json_read_array_end(&pos_files))
	{
		Str     str;
		int64_t size, perm;
		decode_basefile(&pos_files, &str, &size, &perm);
		auto l = &linked[links++];
		snprintf(l->path, sizeof(l->path), DIRECTORY "/%.*s", str_size(&str), str_of(&str));
		auto f = sim_disk_file(l->path);
		sim_check(f.exists && (int64_t)f.size == size, "snapshot-files", "%s has %zu bytes, the snapshot says %" PRIi64, l->path, f.size, size);
		l->hash = file_hash(l->path);
	}
	sim_check(links == want, "snapshot-files", "the snapshot lists %d files, there are %d", links, want);
	snapshot_on = true;
	if (sim_choose(ST, 2))
		rows_statement();
	if (sim_choose(ST, 2))
		checkpoint(sim_choose(ST, 2));
	snapshot_on = false;
	if (sim_choose(ST, 4) == 3 && mode == M_CRASH)
	{
		// it was interrupted; the links are removed at start
		buf_free(&buf);
		sim_probe("snapshot-abandoned");
		if (! (b->sync && b->crc))
			sim_crash_kill_only();
		sim_crash();
	}
	for (int i = 0; i < links; i++)
		sim_check(file_hash(linked[i].path) == linked[i].hash, "snapshot-files", "%s changed while the snapshot was there", linked[i].path);
	if (error_catch( catalog_snapshot_cleanup(&buf) ))
		sim_fail("snapshot-error", "the snapshot cannot be removed: %s", error_text());
	each_dir(link_find);
	buf_free(&buf);
	sim_faults(on);
	sim_probe("snapshot");
}

// ------------------------------------------------------------------ recovery
static void
ddl_of_log(Record* record, RecordCmd* cmd, uint8_t* op)
{
	if (ddl_of(op) == DDL_TABLE_TRUNCATE)
	{
		// partitions that have it in their files are left alone
		Str db, name;
		table_op_truncate_read(op, &db, &name);
		if (record->lsn <= (uint64_t)state_catalog())
			return;
		auto table = table_mgr_find(&cat.table_mgr, &db, &name, true);
		tier_mgr_truncate(&table->tier_mgr);
		list_foreach(&table->part_mgr.list)
		{
			auto part = list_at(Part, link);
			track_lsn_follow(&part->track, record->lsn);
			if (record->lsn > part->heap->header->lsn)
				part_truncate(part);
		}
		opt_int_set(&state()->catalog_pending, record->lsn);
		return;
	}
	if (record->lsn <= (uint64_t)state_catalog())
		return;
	if (cmd->cmd == CMD_DDL_CREATE_INDEX)
		index_create(&tr, op, 0);
	else
		catalog_execute(&cat, &tr, op, 0);
	opt_int_set(&state()->catalog_pending, record->lsn);
	if (ddl_of(op) != DDL_TABLE_SET_IDENTITY)
		return;
	// partitions may have later rows in their files
	Str db, name;
	int64_t value;
	table_op_set_identity_read(op, &db, &name, &value);
	auto table = table_mgr_find(&cat.table_mgr, &db, &name, true);
	list_foreach(&table->part_mgr.list)
	{
		auto part = list_at(Part, link);
		auto identity = table_columns(table)->identity;
		if (!identity || record->lsn > part->heap->header->lsn)
			continue;
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, part->heap, NULL);
		for (; heap_iterator_has(&it); heap_iterator_next(&it))
		{
			auto data = row_column(heap_iterator_at(&it), identity);
			if (data)
				sequence_sync(part->arg->seq, identity->type_size == 4 ? *(int32_t*)data : *(int64_t*)data);
		}
	}
}

static bool
dropped(uint32_t id)
{
	// a table that the log drops later
	for (int i = 0; i < T_MAX; i++)
		if (b->acked.table[i].used && b->acked.table[i].id == id)
			return b->in_flight;
	return true;
}

static void
replay_record(Record* record)
{
	auto cmd = record_cmd(record);
	auto pos = record_data(record);
	for (uint32_t i = 0; i < record->count; i++, cmd++)
	{
		auto end = pos + cmd->size;
		if (b->crc && !record_validate_cmd(cmd, pos))
			error("recover: record command mismatch");
		if (cmd->cmd == CMD_DDL || cmd->cmd == CMD_DDL_CREATE_INDEX)
		{
			ddl_of_log(record, cmd, pos);
			json_skip(&pos);
			sim_check(pos == end, "log-size", "a statement of the log has %d bytes, its command says %d", (int)(pos - end) + cmd->size, cmd->size);
			continue;
		}
		auto table = table_mgr_find_by(&cat.table_mgr, &cmd->id, false);
		if (! table)
		{
			pos = end;
			continue;
		}
		while (pos < end)
		{
			auto row  = (Row*)pos;
			pos += row_size(row);
			auto part = part_mapping_map(&table->part_mgr.mapping, row);
			sim_check(part != NULL, "part-hole", "a row of the log has no partition");
			track_lsn_follow(&part->track, record->lsn);
			if (record->lsn <= part->heap->header->lsn)
				continue;
			if (cmd->cmd == CMD_REPLACE)
			{
				part_insert(part, &tr, true, row_copy(part->heap, row));
				continue;
			}
			auto it = index_iterator(part_primary(part));
			bool match = iterator_open(it, row);
			iterator_close(it);
			if (! match)
			{
				sim_check(dropped(id_of_uuid(&cmd->id)), "replay-delete", "the log deletes a row that is not there");
				sim_probe("replay-dropped-table");
				continue;
			}
			part_delete_by(part, &tr, row);
		}
	}
	state_lsn_follow(record->lsn);
}

static Record* replayed;

static void
replay(void)
{
	uint64_t id = 0;
	for (;;)
	{
		WalCursor cursor;
		wal_cursor_init(&cursor);
		defer(wal_cursor_close, &cursor);
		wal_cursor_open(&cursor, &wm.wal, id, false, b->crc);
		while (wal_cursor_next(&cursor))
		{
			replayed = wal_cursor_at(&cursor);
			tr_init(&tr);
			if (error_catch( tr_begin(&tr); replay_record(replayed); tr_commit(&tr); ))
			{
				tr_abort(&tr);
				tr_free(&tr);
				rethrow();
			}
			tr_free(&tr);
		}
		if (! wal_cursor_active(&cursor))
			break;
		id = id_mgr_next(&wm.wal.list, cursor.file->id);
		if (id == UINT64_MAX)
			break;
	}
}

// ------------------------------------------------------------------ lives
static void
fault_rates(int percent)
{
	// a failed write of the log that cannot be undone stops the process
	bool writes = percent && sim_choose(0, 2);
	int  other = writes ? 0 : percent;
	if (! writes)
		percent = 0;
	sim_fault_rate(SIM_F_WRITE_ENOSPC, 2 * percent);
	sim_fault_rate(SIM_F_WRITE_EIO, 1 * percent);
	sim_fault_rate(SIM_F_FSYNC_EIO, 2 * percent);
	sim_fault_rate(SIM_F_META_EIO, 3 * other);
	sim_fault_rate(SIM_F_OPEN_EIO, 2 * other);
	sim_fault_rate(SIM_F_READ_EIO, 1 * other);
}

static void
db_close(void)
{
	catalog_close(&cat);
	wal_mgr_stop(&wm);
	wal_mgr_free(&wm);
}

static void
db_start(bool bootstrap)
{
	service_recover();
	catalog_open(&cat, bootstrap);
	wal_mgr_start(&wm);
	replay();
}

static bool tail_cut;

static void
db_open(void)
{
	bool bootstrap = !b->ready;
	state_lsn_set(0);
	opt_int_set(&state()->catalog, 0);
	opt_int_set(&state()->catalog_pending, 0);
	catalog_init(&cat, &catalog_if, NULL, &part_mgr_if, NULL);
	wal_mgr_init(&wm);
	auto errors = disk_errors();
	open_ok = ! error_catch( db_start(bootstrap) );
	if (disk_errors() != errors)
		b->loose = true;
	if (open_ok)
		return;
	if (disk_errors() == errors && sim_last_crashed() && sim_crash_kind() != 1 && !tail_cut && (strstr(error_text(), "wal") || strstr(error_text(), "record command mismatch")))
	{
		// a record cut by a power failure: operator truncates the log to the last valid one
		tail_cut = true;
		auto lsn = state_lsn();
		sim_log("truncate the log to %" PRIu64, lsn);
		db_close();
		if (lsn == 0)
		{
			for (int i = 0; i < 20; i++)
				if (fs_exists(DIRECTORY "/wal/%d", i))
					fs_unlink(DIRECTORY "/wal/%d", i);
		}
		sim_probe("log-tail-cut");
		opt_int_set(&config()->wal_truncate, lsn);
		db_open();
		opt_int_set(&config()->wal_truncate, 0);
		return;
	}
	if (disk_errors() == errors)
	{
		auto f = sim_disk_file(DIRECTORY "/catalog.json");
		for (size_t at = 0; f.exists && at < f.size && at < 6000; at += 200)
			sim_log("catalog.json: %.*s", (int)(f.size - at < 200 ? f.size - at : 200), (char*)f.data + at);
	}
	sim_check(disk_errors() != errors, "recover-error", "the database does not start: %s", error_text());
	sim_probe("open-failed");
	b->loose = true;
	// disk works again
	fault_rates(0);
	db_close();
	db_open();
}

static void
dirs_make(void)
{
	static const char* dirs[] = { DIRECTORY, DIRECTORY "/storage", DIRECTORY "/wal" };
	for (int i = 0; i < 3; i++)
		if (! sim_disk_exists(dirs[i]))
			sim_disk_mkdir(dirs[i]);
}

// empty objects are not created again in directories that were there, files that cannot be removed come back
static void
objects_follow(Model* m)
{
	for (int i = 0; i < T_MAX; i++)
		for (int j = 0; j < T_MAX; j++)
			if (now.table[i].used && m->table[j].used && now.table[i].id == m->table[j].id)
				for (int k = 0; k < m->table[j].tiers && k < now.table[i].tiers; k++)
					for (int v = 0; v < m->table[j].tier[k].vols && v < now.table[i].tier[k].vols; v++)
						if (m->table[j].tier[k].vol[v].id == now.table[i].tier[k].vol[v].id)
							m->table[j].tier[k].vol[v].objects = now.table[i].tier[k].vol[v].objects;
}

static bool
doubt_is(void)
{
	static Text text;
	for (int i = 0; i < b->doubts; i++)
	{
		if (b->loose)
			objects_follow(&b->doubt[i]);
		render(&text, &b->doubt[i], RENDER_ROWS);
		if (strcmp(text_now.data, text.data))
			continue;
		b->acked = b->doubt[i];
		sim_probe("failed-done");
		return true;
	}
	return false;
}

static void
check_recovered(void)
{
	read_catalog(&now);
	if (b->loose)
	{
		objects_follow(&b->acked);
		objects_follow(&b->pending);
	}
	static Text acked, pending;
	render(&text_now, &now, RENDER_ROWS);
	render(&acked, &b->acked, RENDER_ROWS);
	render(&pending, &b->pending, RENDER_ROWS);
	if (! strcmp(text_now.data, acked.data))
	{
		if (b->in_flight)
			sim_probe("in-flight-undone");
	} else
	if (b->in_flight && !strcmp(text_now.data, pending.data))
	{
		b->acked = b->pending;
		sim_probe("in-flight-done");
	} else
	if (! doubt_is())
		sim_fail("catalog-lost", "after restart the catalog has <%s>, it had <%s>%s%s", differs(&text_now, &acked), differs(&acked, &text_now),
		         b->in_flight ? ", the statement in progress makes it " : "", b->in_flight ? differs(&pending, &text_now) : "");
	for (int i = 0; i < T_MAX; i++)
		for (int j = 0; j < T_MAX; j++)
		{
			auto t = &now.table[i];
			auto w = &b->acked.table[j];
			if (!t->used || !w->used || t->id != w->id)
				continue;
			// the statement in progress may set it, too
			for (int k = 0; k < T_MAX && b->in_flight; k++)
				if (b->pending.table[k].used && b->pending.table[k].id == w->id)
				{
					if (b->pending.table[k].seq_log < w->seq_log)
						w->seq_log = b->pending.table[k].seq_log;
					w->identity_back |= b->pending.table[k].identity_back;
				}
			for (int k = 0; k < ROWS && identity_of(w) == 0 && !w->identity_back; k++)
				if (w->row[k])
					sim_check(t->seq >= k + 1, "identity-reused", "after restart table %s continues with %" PRIi64 ", it has a row with %d", name_of(w->name), t->seq, k);
			if (w->identity_set)
				sim_check(t->seq >= w->seq_log, w->identity_lsn <= (uint64_t)state_catalog() ? "identity-checkpoint" : "identity-lost", "after restart table %s continues with %" PRIi64 ", the identity was set to %" PRIi64, name_of(w->name), t->seq, w->seq_log);
			w->seq = t->seq;
			w->seq_log = t->seq;
			w->identity_set = 0;
		}
	b->doubts = 0;
	__atomic_store_n(&b->in_flight, false, __ATOMIC_SEQ_CST);
	check_catalog(&b->acked, "restart");
}

static void
step(void)
{
	static Text state;
	render(&state, &b->acked, RENDER_CATALOG);
	uint64_t h = 14695981039346656037ull;
	for (int i = 0; i < state.size; i++)
		h = (h ^ (uint8_t)state.data[i]) * 1099511628211ull;
	sim_state(h);
	int r = sim_choose(ST, 20);
	if (r < 13)
	{
		next = b->acked;
		make_statement(&next, &stmt);
		execute(&stmt, stmt.expect == E_OK && sim_choose(ST, 6) == 5);
	} else
	if (r < 18)
		rows_statement();
	else
	if (r < 19 && mode == M_CRASH)
		checkpoint(sim_choose(ST, 4) != 3);
	else
	if (mode == M_CRASH && sim_choose(ST, 2))
		snapshot_statement();
}

static void
life(void)
{
	sim_log("wal size %d crc %d sync %d", b->wal_size, b->crc, b->sync);
	sim_faults(true);
	sim_fault_rate(SIM_F_WRITE_SHORT, 300);
	sim_fault_rate(SIM_F_READ_SHORT, 300);
	sim_fault_rate(SIM_F_EINTR, 100);
	opt_string_set_cstr(&state()->directory, DIRECTORY);
	opt_int_set(&config()->wal_crc, b->crc);
	opt_int_set(&config()->storage_crc, b->crc);
	opt_int_set(&config()->wal_size, b->wal_size);
	opt_int_set(&config()->wal_worker, false);
	opt_int_set(&config()->wal_sync_on_create, b->sync);
	opt_int_set(&config()->wal_sync_on_close, b->sync);
	opt_int_set(&config()->wal_sync_on_write, b->sync);
	opt_int_set(&config()->storage_sync, b->sync);
	opt_int_set(&config()->catalog_sync, b->sync);
	buf_init(&stmt.op);
	buf_init(&row_buf);
	dirs_make();
	if (sim_last_crashed())
		b->loose = true;
	if (! sim_last_crashed())
		b->in_flight = false;
	int crash = mode == M_CRASH ? sim_choose(0, 4) : 0;
	int fault = sim_choose(0, 6);
	static int ops[] = { 20, 60, 150, 400 };
	if (crash == 3)
		sim_crash_plan(ops[sim_choose(0, 4)]);
	if (mode == M_CRASH && fault == 5)
		fault_rates(50 + sim_choose(0, 2) * 250);
	if (sim_crash_planned() && !(b->sync && b->crc))
		sim_crash_kill_only();
	db_open();
	b->ready = true;
	fault_rates(0);
	check_recovered();
	if (crash == 1 || crash == 2)
	{
		sim_crash_plan(ops[sim_choose(0, 4)]);
		if (! (b->sync && b->crc))
			sim_crash_kill_only();
	}
	static int steps[] = { 5, 15, 40, 80 };
	int n = steps[sim_choose(0, 4)];
	int bad = fault >= 3 && fault < 5 ? sim_choose(0, n) : n;
	for (int i = 0; i < n; i++)
	{
		if (i == bad)
			fault_rates(20 + sim_choose(0, 3) * 100);
		step();
		if (i > bad && sim_choose(0, 8) == 7)
			fault_rates(0);
	}
	if (sim_crash_planned())
		sim_crash_plan_off();
	fault_rates(0);
	if (mode == M_CRASH && sim_choose(0, 3) == 2)
		checkpoint(true);
	db_close();
	buf_free(&stmt.op);
	buf_free(&row_buf);
}

static void
life_main(void* arg)
{
	(void)arg;
	life();
}

static void
config_choose(void)
{
	static int sizes[] = { 200, 1000, 5000, 100000 };
	b->wal_size = sizes[sim_choose(0, 4)];
	b->crc      = sim_choose(0, 4) != 3;
	b->sync     = mode == M_CRASH && sim_choose(0, 3) != 2;
}

static void
epoch(void)
{
	b = sim_board(sizeof(Board));
	if (sim_epoch() == 0)
		config_choose();
	scn_run(life_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

static void epoch_ddl(void)   { mode = M_DDL;   epoch(); }
static void epoch_crash(void) { mode = M_CRASH; epoch(); }

SimScenario sim_scenarios[] =
{
	{ "C19", "ddl",   epoch_ddl,   1, 60000000, 1, 0 },
	{ "C20", "crash", epoch_crash, 4, 60000000, 1, 0 },
	{ 0 }
};
const char* sim_real_parts = "catalog, its statements and their undo, the catalog file, backups of it, storages, volumes, tiers, partitions, transactions, write ahead log (repository code, instrumented)";
const char* sim_stub_parts = "disk, pthreads scheduling, epoll, eventfd, clock, malloc (simulated); statement execution, index building, checkpoint and recovery loops (scenario, follow db/service and db/db, which do not compile at this commit); the compiler of functions";
const char* sim_rule = "Workload: all DDL statements with all their IF flags on up to 4 storages, 4 databases, 5 tables and 4 functions, names reused in other case, changes of rows between them, transactions aborted after they were executed; checkpoints, backups, disk errors and crashes anywhere, also during start.";
