// Partitions: indexes, transactions, heap, checkpoints, partition sets.
#include "common.h"
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>

#define DIRECTORY "/sim/db"
#define KEYS      2600
#define UNIQS     4096
#define PARTS     8
#define LOGSIZE   (12 << 20)
#define RECORDS   2000

enum { M_INDEX, M_TR, M_CHECKPOINT, M_DAMAGE, M_SEQ };
enum { K_INT64, K_INT32, K_STRING, K_UUID, K_PAIR, K_MAX };
enum { C_ID, C_ID2, C_U, C_S, C_TAG, C_DATA, C_K, C_MAX };

typedef struct { uint32_t tag, u; } Cell;
typedef struct { int k; Cell cell; } Change;

// survives crashes: configuration, and the log an ideal disk would keep
typedef struct
{
	int      kind, parts, pk_hash, u_hash, volumes, external, compression, crc, sync;
	int      s_index;
	uint32_t tags;
	bool     created;          // the set was opened once
	bool     failed;           // the creation failed once
	bool     dropped;          // drop was started
	uint32_t count;            // records
	struct { uint32_t pos, size, changes; uint64_t lsn; bool truncate; } rec[RECORDS];
	uint32_t log_size;
	uint8_t  log[LOGSIZE];
} Board;

static Board*        b;
static int           mode;
static Columns       columns;
static List          indexes;
static IndexConfig*  cfg[3];
static int           cfg_count;
static PartMgrConfig pmc;
static PartMgr       pm;
static PartArg       part_arg;
static Sequence      seq;
static StorageMgr    sm;
static TierMgr       tm;
static Uuid          table_id;
static Volume*       volume[3];

// model: what is in place now
static Cell          cell[KEYS];
static uint8_t       owner[KEYS];            // partition of a key
static uint16_t      uowner[PARTS][UNIQS];   // key + 1
static Part*         part[PARTS];
static int           parts;
static uint32_t      live[PARTS];

// ------------------------------------------------------------------ rows
static inline uint32_t
data_size(uint32_t tag)
{
	// size classes of the data column; the tag carries the class
	uint32_t h = scn_hash(tag, 77);
	switch (tag & 7) {
	case 0: case 1: case 2: return h % 24;
	case 3: case 4: return h % 400;
	case 5: return h % 3000;
	case 6: return h % 70000;
	default:
		if (tag & 8)
			return 500000 + h % 700000;
		return h % 300000;
	}
}

static uint32_t
tag_next(int st)
{
	// smaller rows are simpler
	static int cls[] = { 0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 5, 3, 0, 1, 2, 3, 6, 0, 1, 2 };
	int c = cls[sim_choose(st, 32)];
	if (c == 6)
	{
		static int big[] = { 6, 6, 6, 6, 6, 6, 6, 7, 7, 15 };
		c = big[sim_choose(st, 10)];
	}
	if (mode != M_INDEX && c == 7 && b->log_size > LOGSIZE / 4)
		c = 5;
	return (++b->tags << 4) | c;
}

static void
key_string(int k, char* out, Str* str)
{
	int n = sprintf(out, "%04d", k);
	for (int i = 0; i < k % 37; i++)
		out[n++] = 'x';
	str_set(str, out, n);
}

// write the row of a key; keys: only the columns of these keys
static Row*
row_make(Heap* heap, Buf* buf, int k, uint32_t tag, uint32_t u, Keys* keys)
{
	char  id_text[64];
	Str   id_str, id2_str;
	str_init(&id_str);
	str_init(&id2_str);
	char  id2_text[32];
	int   size_id = 0, size_id2 = 0;
	switch (b->kind) {
	case K_INT64:  size_id = 8; break;
	case K_INT32:  size_id = 4; break;
	case K_UUID:   size_id = 16; break;
	case K_STRING:
		key_string(k, id_text, &id_str);
		size_id = json_size_string(str_size(&id_str));
		break;
	case K_PAIR:
		size_id = 4;
		str_set(&id2_str, id2_text, sprintf(id2_text, "%02d%.*s", k % 16, k % 5, "abcde"));
		size_id2 = json_size_string(str_size(&id2_str));
		break;
	}
	bool full = keys == NULL;
	uint32_t ds = full ? data_size(tag) : 0;
	int has[C_MAX] = { full, full && b->kind == K_PAIR, full, full, full, full, full };
	if (keys)
	{
		list_foreach(&keys->list)
			has[list_at(Key, link)->column->order] = 1;
	}
	int size = 0;
	if (has[C_ID])   size += size_id;
	if (has[C_ID2])  size += size_id2;
	if (has[C_U])    size += 8;
	if (has[C_S])    size += 4;
	if (has[C_TAG])  size += 8;
	if (has[C_DATA]) size += json_size_string(ds);
	if (has[C_K])    size += 4;
	auto row = heap ? row_allocate(heap, C_MAX, size) : row_allocate_buf(buf, C_MAX, size);
	uint8_t* pos = row_data(row, C_MAX);
	for (int c = 0; c < C_MAX; c++)
	{
		if (! has[c]) { row_set_null(row, c); continue; }
		row_set(row, c, pos - (uint8_t*)row);
		switch (c) {
		case C_ID:
			switch (b->kind) {
			case K_INT64: *(int64_t*)pos = ((int64_t)k - 900) * 3000000000ll; pos += 8; break;
			case K_INT32: *(int32_t*)pos = (k - 900) * 3; pos += 4; break;
			case K_UUID:  { Uuid id = { .a = k / 3, .b = (uint64_t)(k % 3) << 62 | k }; memcpy(pos, &id, 16); pos += 16; break; }
			case K_STRING: json_write_string(&pos, &id_str); break;
			case K_PAIR:  *(int32_t*)pos = k / 16; pos += 4; break;
			}
			break;
		case C_ID2:  json_write_string(&pos, &id2_str); break;
		case C_U:    *(int64_t*)pos = u; pos += 8; break;
		case C_S:    *(int32_t*)pos = k % 7; pos += 4; break;
		case C_TAG:  *(int64_t*)pos = tag; pos += 8; break;
		case C_K:    *(int32_t*)pos = k; pos += 4; break;
		case C_DATA:
		{
			auto at = pos;
			// header as for a string of this size
			Str str;
			static char fill[1 << 21];
			memset(fill, 'a' + tag / 16 % 26, ds);
			str_set(&str, fill, ds);
			json_write_string(&at, &str);
			pos = at;
			break;
		}
		}
	}
	return row;
}

// key of a stored row; everything in it is as it was written
static int
row_check(Row* row, const char* where)
{
	sim_check(row->columns == C_MAX, "row-content", "%s: a row has %d columns", where, row->columns);
	auto pk  = (int32_t*)row_at(row, C_K);
	auto ptag = (int64_t*)row_at(row, C_TAG);
	auto pu  = (int64_t*)row_at(row, C_U);
	sim_check(pk && ptag && pu, "row-content", "%s: a row misses columns", where);
	int k = *pk;
	sim_check(k >= 0 && k < KEYS, "row-content", "%s: a row with key %d", where, k);
	uint32_t tag = *ptag;
	auto pos = (uint8_t*)row_at(row, C_DATA);
	Str str;
	json_read_string(&pos, &str);
	uint32_t ds = data_size(tag);
	bool same = (uint32_t)str_size(&str) == ds;
	if (same && ds)
	{
		char c = 'a' + tag / 16 % 26;
		auto s = str_of(&str);
		same = s[0] == c && s[ds - 1] == c && s[ds / 2] == c && s[ds / 3] == c;
	}
	sim_check(same, "row-content", "%s: key %d version %u: the data differs from what was written", where, k, tag);
	return k;
}

static void
row_expect(Row* row, int k, const char* where)
{
	int got = row_check(row, where);
	sim_check(got == k, "index-lookup", "%s: key %d is found instead of key %d", where, got, k);
	uint32_t tag = *(int64_t*)row_at(row, C_TAG);
	uint32_t u   = *(int64_t*)row_at(row, C_U);
	sim_check(cell[k].tag != 0, "index-ghost", "%s: key %d is found (version %u), it does not exist", where, k, tag);
	sim_check(cell[k].tag == tag && cell[k].u == u, "index-stale", "%s: key %d has version %u, the current version is %u", where, k, tag, cell[k].tag);
}

// ------------------------------------------------------------------ model
static void
cell_set(int k, Cell c)
{
	int p = owner[k];
	auto old = &cell[k];
	if (old->tag)
	{
		if (uowner[p][old->u] == k + 1)
			uowner[p][old->u] = 0;
		live[p]--;
	}
	*old = c;
	if (c.tag)
	{
		uowner[p][c.u] = k + 1;
		live[p]++;
	}
}

// ------------------------------------------------------------------ table
static Column*
column_make(char* name, int type, int size)
{
	auto column = column_allocate();
	Str str;
	str_set_cstr(&str, name);
	column_set_name(column, &str);
	column_set_type(column, type, size);
	return column;
}

static void
index_make(int i, char* name, int type, bool primary, bool unique, int c1, int c2)
{
	auto config = index_config_allocate(&columns);
	Str str;
	str_set_cstr(&str, name);
	index_config_set_name(config, &str);
	index_config_set_type(config, type);
	index_config_set_unique(config, unique);
	index_config_set_primary(config, primary);
	int c[2] = { c1, c2 };
	for (int j = 0; j < 2; j++)
	{
		if (c[j] < 0) continue;
		auto key = key_allocate();
		key_set_ref(key, c[j]);
		keys_add(&config->keys, key);
	}
	if (! unique)
		keys_copy_distinct(&config->keys, &cfg[0]->keys);
	cfg[i] = config;
	list_append(&indexes, &config->link);
}

static void
on_attach(PartMgr* self)
{
	list_foreach(&self->list)
		part_open(list_at(Part, link));
}

static void
on_detach(PartMgr* self)
{
	(void)self;
}

static PartMgrIf part_mgr_if = { on_attach, on_detach };

static void
table_prepare(void)
{
	auto c = config();
	opt_int_set(&c->storage_crc, b->crc);
	opt_int_set(&c->storage_sync, b->sync);
	opt_int_set(&c->wal_crc, 0);
	opt_string_set_cstr(&state()->directory, DIRECTORY);

	columns_init(&columns);
	list_init(&indexes);
	static int type[K_MAX] = { TYPE_INT, TYPE_INT, TYPE_STRING, TYPE_UUID, TYPE_INT };
	static int size[K_MAX] = { 8, 4, 0, sizeof(Uuid), 4 };
	auto id_column = column_make("id", type[b->kind], size[b->kind]);
	if (b->kind == K_INT64 || b->kind == K_INT32)
		id_column->constraints.as_identity = IDENTITY_SERIAL;
	columns_add(&columns, id_column);
	columns_add(&columns, column_make("id2", TYPE_STRING, 0));
	columns_add(&columns, column_make("u", TYPE_INT, 8));
	columns_add(&columns, column_make("s", TYPE_INT, 4));
	columns_add(&columns, column_make("tag", TYPE_INT, 8));
	columns_add(&columns, column_make("data", TYPE_STRING, 0));
	columns_add(&columns, column_make("k", TYPE_INT, 4));

	cfg_count = 0;
	index_make(cfg_count++, "primary", b->pk_hash ? INDEX_HASH : INDEX_TREE, true, true, C_ID, b->kind == K_PAIR ? C_ID2 : -1);
	if (mode != M_SEQ)
		index_make(cfg_count++, "u", b->u_hash ? INDEX_HASH : INDEX_TREE, false, true, C_U, -1);
	if (b->s_index && mode != M_SEQ)
		index_make(cfg_count++, "s", INDEX_TREE, false, false, C_S, -1);

	storage_mgr_init(&sm);
	Tr tr;
	tr_init(&tr);
	tr_begin(&tr);
	for (int i = 0; i < b->volumes; i++)
	{
		auto sc = storage_config_allocate();
		Str str;
		char name[16], path[32];
		str_set(&str, name, sprintf(name, "storage%d", i));
		storage_config_set_name(sc, &str);
		if (b->external && i == 0)
		{
			str_set(&str, path, sprintf(path, "/sim/ext"));
			storage_config_set_path(sc, &str);
		}
		if (b->compression)
		{
			str_set_cstr(&str, "zstd");
			storage_config_set_compression(sc, &str);
		}
		storage_mgr_create(&sm, &tr, sc, false);
		storage_config_free(sc);
	}
	tr_commit(&tr);
	tr_free(&tr);
	tier_mgr_init(&tm, &sm, &cfg[0]->keys);

	part_mgr_config_init(&pmc);
	part_mgr_config_set_partitions(&pmc, b->parts);
	for (int i = 0; i < b->volumes; i++)
	{
		auto v = volume_allocate();
		Str str;
		char name[16];
		str_set(&str, name, sprintf(name, "storage%d", i));
		volume_set_name(v, &str);
		Uuid id = { .a = 0x1111111111111111ull * (i + 1), .b = 7 };
		volume_set_id(v, &id);
		volume_mgr_add(&pmc.volumes, v);
		volume[i] = v;
	}
	sequence_init(&seq);
	Uuid id = { .a = 42, .b = 43 };
	table_id = id;
	part_arg.seq      = &seq;
	part_arg.unlogged = false;
	part_arg.id_table = &table_id;
	part_mgr_init(&pm, &part_mgr_if, NULL, &pmc, &part_arg, &tm, &cfg[0]->keys);
}

static void
table_close(void)
{
	part_mgr_close(&pm);
	part_mgr_free(&pm);
	tier_mgr_free(&tm);
	part_mgr_config_free(&pmc);
	sequence_free(&seq);
	storage_mgr_free(&sm);
	for (int i = 0; i < cfg_count; i++)
		index_config_free(cfg[i]);
	columns_free(&columns);
}

// the mapping covers every hash once, and is what the partitions say
static void
mapping_check(void)
{
	sim_check(pm.list_count == b->parts, "part-count", "%d partitions are open, the table has %d", pm.list_count, b->parts);
	for (int i = 0; i < PART_MAPPING_MAX; i++)
		sim_check(pm.mapping.map && pm.mapping.map[i], "part-hole", "hash %d has no partition", i);
	int total = 0;
	list_foreach(&pm.list)
	{
		auto p = list_at(Part, link);
		int min = p->heap->header->hash_min, max = p->heap->header->hash_max;
		sim_check(min < max && max <= PART_MAPPING_MAX, "part-range", "partition %" PRIu64 " has range %d - %d", p->id.id, min, max);
		total += max - min;
		for (int i = min; i < max; i++)
			sim_check(pm.mapping.map[i] == p, "part-overlap", "hash %d belongs to two partitions", i);
	}
	sim_check(total == PART_MAPPING_MAX, "part-overlap", "partitions cover %d hashes", total);
}

static void
parts_read(void)
{
	parts = 0;
	list_foreach(&pm.list)
		part[parts++] = list_at(Part, link);
	memset(cell, 0, sizeof(cell));
	memset(uowner, 0, sizeof(uowner));
	memset(live, 0, sizeof(live));
	Buf buf;
	buf_init(&buf);
	for (int k = 0; k < KEYS; k++)
	{
		buf_reset(&buf);
		auto key = row_make(NULL, &buf, k, 0, 0, &cfg[0]->keys);
		auto p = part_mapping_map(&pm.mapping, key);
		for (int i = 0; i < parts; i++)
			if (part[i] == p)
				owner[k] = i;
	}
	buf_free(&buf);
}

// ------------------------------------------------------------------ transactions
#define PENDING 8
typedef struct
{
	Tr*   tr[PARTS];
	Buf   undo;      // Change: previous cells
	Buf   redo;      // Change: new cells
	bool  failed;
	Limit limit;
} Dtx;

static Dtx       pending[PENDING];
static int       pending_count;
static int       unsynced[PARTS];      // 0 none, 1 C, 2 A, 3 CA, 4 AC
static bool      snapshot_on[PARTS];

static void
sync_part(int p)
{
	track_sync(&part[p]->track, &part[p]->track.consensus);
	unsynced[p] = 0;
}

static void
dtx_free(Dtx* self)
{
	buf_free(&self->undo);
	buf_free(&self->redo);
}

static void
decide_one(int p, uint64_t id, bool commit)
{
	// the latest commit and abort positions are all a partition gets to know
	if (commit)
	{
		if (unsynced[p] == 3) sync_part(p);
		unsynced[p] = unsynced[p] == 2 || unsynced[p] == 4 ? 4 : 1;
		part[p]->track.consensus.commit = id;
	} else
	{
		if (unsynced[p] == 4) sync_part(p);
		unsynced[p] = unsynced[p] == 1 || unsynced[p] == 3 ? 3 : 2;
		part[p]->track.consensus.abort = id;
	}
}

static void
record_add(Dtx* self)
{
	// write the log before the partitions learn
	Write write;
	write_init(&write);
	write_begin(&write);
	for (int p = 0; p < parts; p++)
		if (self->tr[p] && tr_persists(self->tr[p]))
			write_add(&write, &self->tr[p]->log.write_log);
	if (write.header.count)
	{
		auto lsn = state_lsn_next();
		write_end(&write, lsn);
		auto i = b->count;
		auto r = &b->rec[i];
		r->lsn      = lsn;
		r->pos      = b->log_size;
		r->changes  = buf_size(&self->redo) / sizeof(Change);
		r->truncate = false;
		if (mode == M_INDEX)
		{
			write_free(&write);
			return;
		}
		if (i + 1 >= RECORDS || b->log_size + buf_size(&self->redo) + write.header.size > LOGSIZE)
			sim_broken("log is full");
		memcpy(b->log + b->log_size, self->redo.start, buf_size(&self->redo));
		auto at = b->log + b->log_size + buf_size(&self->redo);
		uint32_t size = 0;
		Buf flat;
		buf_init(&flat);
		buf_write(&flat, &write.header, sizeof(Record));
		for (int p = 0; p < parts; p++)
			if (self->tr[p] && tr_persists(self->tr[p]))
				buf_write(&flat, self->tr[p]->log.write_log.meta.start, buf_size(&self->tr[p]->log.write_log.meta));
		for (int p = 0; p < parts; p++)
			if (self->tr[p] && tr_persists(self->tr[p]))
			{
				auto iov = &self->tr[p]->log.write_log.iov;
				auto v = iov_pointer(iov);
				for (int j = 0; j < iov->iov_count; j++)
					buf_write(&flat, v[j].iov_base, v[j].iov_len);
			}
		size = buf_size(&flat);
		sim_check(size == write.header.size, "log-size", "the record of a transaction has %u bytes, its header says %u", size, write.header.size);
		memcpy(at, flat.start, size);
		buf_free(&flat);
		r->size = buf_size(&self->redo) + size;
		b->log_size += r->size;
		__atomic_store_n(&b->count, i + 1, __ATOMIC_SEQ_CST);
		for (int p = 0; p < parts; p++)
			if (self->tr[p])
				track_lsn_follow(&part[p]->track, lsn);
	} else
	{
		sim_check(buf_size(&self->redo) == 0, "log-lost", "a transaction that changed rows has an empty log");
	}
	write_free(&write);
}

// commit the first n pending transactions, abort the others if asked
static void
decide(int n, bool abort_rest)
{
	for (int i = 0; i < n; i++)
	{
		auto self = &pending[i];
		record_add(self);
		for (int p = 0; p < parts; p++)
			if (self->tr[p])
				decide_one(p, self->tr[p]->id, true);
		dtx_free(self);
	}
	if (abort_rest)
	{
		for (int i = pending_count - 1; i >= n; i--)
		{
			auto self = &pending[i];
			auto list = (Change*)self->undo.start;
			for (int j = buf_size(&self->undo) / sizeof(Change) - 1; j >= 0; j--)
				cell_set(list[j].k, list[j].cell);
		}
		for (int i = n; i < pending_count; i++)
		{
			auto self = &pending[i];
			for (int p = 0; p < parts; p++)
				if (self->tr[p])
					decide_one(p, self->tr[p]->id, false);
			dtx_free(self);
		}
		if (pending_count > n)
			sim_probe("abort");
		pending_count = 0;
	} else
	{
		memmove(pending, pending + n, sizeof(Dtx) * (pending_count - n));
		pending_count -= n;
	}
}

// what may be committed: transactions up to the first failed one
static int
decidable(void)
{
	int n = 0;
	while (n < pending_count && !pending[n].failed)
		n++;
	return n;
}

static void
settle(void)
{
	decide(decidable(), true);
	for (int p = 0; p < parts; p++)
		sync_part(p);
}

static Tr*
tr_of(Dtx* self, int p)
{
	if (self->tr[p])
		return self->tr[p];
	sync_part(p);
	auto track = &part[p]->track;
	auto tr = tr_create(&track->cache);
	tr_begin(tr);
	tr_set_id(tr, track->seq++);
	tr_set_limit(tr, &self->limit);
	tr_list_add(&track->prepared, tr);
	self->tr[p] = tr;
	return tr;
}

static void
change(Dtx* self, int k, Cell c)
{
	Change undo = { k, cell[k] };
	Change redo = { k, c };
	buf_write(&self->undo, &undo, sizeof(undo));
	buf_write(&self->redo, &redo, sizeof(redo));
	cell_set(k, c);
}

// ------------------------------------------------------------------ statements
// key row of an index for a key
static Row*
search_key(Buf* buf, int i, int k, uint32_t u)
{
	return row_make(NULL, buf, k, 0, u, &cfg[i]->keys);
}

static Iterator*
primary_open(int p, Buf* buf, int k, bool* match)
{
	auto index = part_primary(part[p]);
	auto it = index_iterator(index);
	*match = iterator_open(it, search_key(buf, 0, k, 0));
	return it;
}

// insert; throws
static void
st_insert(Dtx* self, int k, uint32_t tag, uint32_t u)
{
	int  p  = owner[k];
	auto tr = tr_of(self, p);
	sim_log("insert key %d version %u u %u", k, tag, u);
	auto row = row_make(part[p]->heap, NULL, k, tag, u, NULL);
	bool violates = cell[k].tag || uowner[p][u];
	int  holder = uowner[p][u];
	part_insert(part[p], tr, false, row);
	sim_check(! violates, "unique", "key %d (u %u) was inserted, the key %s and u belongs to key %d", k, u, cell[k].tag ? "exists" : "is free", holder - 1);
	Cell c = { tag, u };
	change(self, k, c);
}

static void
st_upsert(Dtx* self, int st, int k, uint32_t tag, uint32_t u)
{
	int  p  = owner[k];
	auto tr = tr_of(self, p);
	auto row = row_make(part[p]->heap, NULL, k, tag, u, NULL);
	auto it = index_iterator(part_primary(part[p]));
	defer(iterator_close, it);
	bool holder = uowner[p][u] && !cell[k].tag;
	bool exists = part_upsert(part[p], tr, it, row);
	if (! exists)
	{
		sim_check(! cell[k].tag, "upsert", "upsert of key %d inserted it, it exists with version %u", k, cell[k].tag);
		sim_check(! holder, "unique", "key %d was inserted with u %u of another key", k, u);
		Cell c = { tag, u };
		change(self, k, c);
		return;
	}
	sim_check(cell[k].tag != 0, "upsert", "upsert of key %d says it exists, it does not", k);
	sim_check(iterator_has(it), "upsert", "upsert of existing key %d leaves no position", k);
	row_expect(iterator_at(it), k, "upsert");
	if (sim_choose(st, 4) == 3)
		return;
	// update what is there
	u = cell[k].u;
	row = row_make(part[p]->heap, NULL, k, tag, u, NULL);
	part_update(part[p], tr, it, row);
	Cell c = { tag, u };
	change(self, k, c);
	// the position stays
	row_expect(iterator_at(it), k, "update");
}

static void
st_update(Dtx* self, int k, uint32_t tag)
{
	int  p  = owner[k];
	auto tr = tr_of(self, p);
	Buf buf;
	buf_init(&buf);
	defer(buf_free, &buf);
	bool match;
	auto it = primary_open(p, &buf, k, &match);
	defer(iterator_close, it);
	sim_check(match == (cell[k].tag != 0), "index-lookup", "primary key lookup of key %d: %s", k, match ? "found, it does not exist" : "not found, it exists");
	if (! match)
		return;
	row_expect(iterator_at(it), k, "primary key lookup");
	auto row = row_make(part[p]->heap, NULL, k, tag, cell[k].u, NULL);
	part_update(part[p], tr, it, row);
	Cell c = { tag, cell[k].u };
	change(self, k, c);
}

static void
st_delete(Dtx* self, int k, bool by)
{
	int  p  = owner[k];
	auto tr = tr_of(self, p);
	Buf buf;
	buf_init(&buf);
	defer(buf_free, &buf);
	Cell none = { 0, 0 };
	if (by)
	{
		if (! cell[k].tag)
			return;
		// by the row, as it comes from the log
		auto row = row_make(NULL, &buf, k, cell[k].tag, cell[k].u, NULL);
		// the log keeps the stored row, not this one
		part_delete_by(part[p], tr, row);
		change(self, k, none);
		return;
	}
	bool match;
	auto it = primary_open(p, &buf, k, &match);
	defer(iterator_close, it);
	sim_check(match == (cell[k].tag != 0), "index-lookup", "primary key lookup of key %d: %s", k, match ? "found, it does not exist" : "not found, it exists");
	if (! match)
		return;
	part_delete(part[p], tr, it);
	change(self, k, none);
}

// change rows while the primary index is scanned
static void
st_scan(Dtx* self, int st, int p, int what, int mod)
{
	auto tr = tr_of(self, p);
	auto it = index_iterator(part_primary(part[p]));
	defer(iterator_close, it);
	iterator_open(it, NULL);
	uint32_t seen = 0, was = live[p];
	int last = -1;
	bool desc = false;
	int rem = sim_choose(st, mod);
	while (iterator_has(it))
	{
		auto row = iterator_at(it);
		int k = row_check(row, "scan");
		row_expect(row, k, "scan");
		if (! b->pk_hash)
		{
			sim_check(k > last, "index-order", "scan: key %d follows key %d", k, last);
			last = k;
		}
		(void)desc;
		seen++;
		if (k % mod == rem)
		{
			if (what == 0)
			{
				uint32_t tag = (++b->tags << 4) | (b->tags % 4);
				auto n = row_make(part[p]->heap, NULL, k, tag, cell[k].u, NULL);
				part_update(part[p], tr, it, n);
				Cell c = { tag, cell[k].u };
				change(self, k, c);
			} else
			{
				part_delete(part[p], tr, it);
				Cell none = { 0, 0 };
				change(self, k, none);
			}
		}
		iterator_next(it);
	}
	sim_check(seen == was, "index-scan", "scan of a partition visits %u rows, it has %u", seen, was);
	sim_probe(what ? "scan-delete" : "scan-update");
}

// ------------------------------------------------------------------ checks
static void
check_point(int k)
{
	int p = owner[k];
	sync_part(p);
	Buf buf;
	buf_init(&buf);
	for (int i = 0; i < cfg_count; i++)
	{
		uint32_t u = cell[k].u;
		if (i == 1 && !cell[k].tag)
			continue;
		buf_reset(&buf);
		auto key = search_key(&buf, i, k, u);
		bool local = i > 0 || k % 2;
		auto it = cursor_open(&pm, local ? part[p] : NULL, cfg[i], true, key);
		bool hit = iterator_has(it) && compare(&cfg[i]->keys, iterator_at(it), key) == 0;
		if (cell[k].tag)
		{
			sim_check(hit, "index-lookup", "index %s: lookup of key %d finds nothing, the key exists (version %u)", cfg[i]->name.pos, k, cell[k].tag);
			row_expect(iterator_at(it), k, "lookup");
		} else
		{
			sim_check(! hit, "index-ghost", "index %s: lookup finds key %d, it does not exist", cfg[i]->name.pos, k);
		}
		iterator_close(it);
	}
	buf_free(&buf);
}

// rows an index scan of partition p (or all, p = -1) returns, in order, from
// the row with key from on
typedef struct { uint32_t a; int k; } Entry;
static Entry expect_list[KEYS];
static int   expect_count;

static int
entry_cmp(const void* x, const void* y)
{
	auto a = (const Entry*)x;
	auto b = (const Entry*)y;
	if (a->a != b->a) return a->a < b->a ? -1 : 1;
	return a->k - b->k;
}

static void
expect_build(int i, int p)
{
	expect_count = 0;
	for (int k = 0; k < KEYS; k++)
	{
		if (!cell[k].tag || (p >= 0 && owner[k] != p))
			continue;
		Entry e = { i == 0 ? 0 : i == 1 ? cell[k].u : (uint32_t)(k % 7), k };
		expect_list[expect_count++] = e;
	}
	qsort(expect_list, expect_count, sizeof(Entry), entry_cmp);
}

static void
check_scan(int i, int p, int from, int limit)
{
	for (int j = 0; j < parts; j++)
		if (p < 0 || p == j)
			sync_part(j);
	bool hash = cfg[i]->type == INDEX_HASH;
	expect_build(i, p);
	Buf buf;
	buf_init(&buf);
	Row* key = NULL;
	int pos = 0;
	if (from >= 0 && !hash)
	{
		uint32_t u = i == 1 ? (cell[from].tag ? cell[from].u : (uint32_t)from) : 0;
		key = search_key(&buf, i, from, u);
		Entry e = { i == 0 ? 0 : i == 1 ? u : (uint32_t)(from % 7), i == 1 ? 0 : from };
		while (pos < expect_count && entry_cmp(&expect_list[pos], &e) < 0)
			pos++;
	}
	auto it = cursor_open(&pm, p >= 0 ? part[p] : NULL, cfg[i], false, key);
	if (hash)
	{
		static uint8_t seen[KEYS];
		memset(seen, 0, sizeof(seen));
		int n = 0;
		for (; iterator_has(it); iterator_next(it))
		{
			auto row = iterator_at(it);
			int k = row_check(row, "hash scan");
			row_expect(row, k, "hash scan");
			sim_check(! seen[k], "index-duplicate", "index %s: the scan returns key %d twice", cfg[i]->name.pos, k);
			seen[k] = 1;
			n++;
		}
		sim_check(n == expect_count, "index-scan", "index %s: the scan of %s returns %d rows of %d", cfg[i]->name.pos, p >= 0 ? "a partition" : "the table", n, expect_count);
	} else
	{
		uint32_t last = 0;
		int n = 0;
		for (; iterator_has(it) && n < limit; iterator_next(it), n++)
		{
			auto row = iterator_at(it);
			int k = row_check(row, "tree scan");
			row_expect(row, k, "tree scan");
			sim_check(pos + n < expect_count, "index-scan", "index %s: the scan of %s returns key %d after all rows", cfg[i]->name.pos, p >= 0 ? "a partition" : "the table", k);
			auto e = &expect_list[pos + n];
			// across partitions u is not unique
			uint32_t a = i == 1 ? cell[k].u : 0;
			if (i == 1 && p < 0)
				sim_check(a == e->a && (n == 0 || a >= last), "index-scan", "index u: the scan of the table from %d returns u %u at %d, expected u %u", from, a, n, e->a);
			else
				sim_check(k == e->k, "index-scan", "index %s: the scan of %s from %d returns key %d at %d, expected key %d", cfg[i]->name.pos, p >= 0 ? "a partition" : "the table", from, k, n, e->k);
			last = a;
		}
		if (n < limit)
			sim_check(pos + n == expect_count, "index-scan", "index %s: the scan of %s from %d ends after %d rows of %d", cfg[i]->name.pos, p >= 0 ? "a partition" : "the table", from, n, expect_count - pos);
	}
	iterator_close(it);
	buf_free(&buf);
}

// the heap has exactly the rows of the model; nothing may be pending
static void
check_heap(int p)
{
	auto heap = part[p]->heap;
	sim_check(part[p]->track.prepared.list_count == 0, "tr-pending", "partition %d has %d transactions that were all decided", p, part[p]->track.prepared.list_count);
	if (snapshot_on[p])
		return;
	static uint8_t seen[KEYS];
	memset(seen, 0, sizeof(seen));
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, heap, NULL);
	uint32_t n = 0;
	uint64_t size = 0;
	for (; heap_iterator_has(&it); heap_iterator_next(&it))
	{
		auto row = heap_iterator_at(&it);
		int k = row_check(row, "heap");
		uint32_t tag = *(int64_t*)row_at(row, C_TAG);
		sim_check(owner[k] == p && cell[k].tag == tag, "heap-ghost", "heap: key %d version %u is allocated, the current version is %u", k, tag, cell[k].tag);
		sim_check(! seen[k], "heap-ghost", "heap: key %d version %u is stored twice", k, tag);
		seen[k] = 1;
		size += heap->buckets[heap_chunk_of(row)->bucket].size;
		n++;
	}
	sim_check(n == live[p], "heap-lost", "heap: %u rows are allocated, the partition has %u", n, live[p]);
	sim_check(heap->header->count_used == n && heap->header->size_used == size, "heap-accounting", "heap: %u rows of %" PRIu64 " bytes are allocated, the header says %u rows of %" PRIu64 " bytes", n, size, heap->header->count_used, heap->header->size_used);
}

static void
check_full(void)
{
	for (int p = 0; p < parts; p++)
		for (int i = 0; i < cfg_count; i++)
			check_scan(i, p, -1, KEYS);
	for (int i = 0; i < cfg_count; i++)
		check_scan(i, -1, -1, KEYS);
	uint64_t h = 0;
	for (int p = 0; p < parts; p++)
		h = scn_hash(h, live[p]);
	sim_state(h);
}

static void
check_some(int st)
{
	int n = 1 + sim_choose(st, 4);
	for (int i = 0; i < n; i++)
		check_point(sim_choose(st, KEYS));
	int i = sim_choose(st, cfg_count);
	int p = (int)sim_choose(st, parts + 1) - 1;
	check_scan(i, p, sim_choose(st, KEYS + 1) - 1, 1 + sim_choose(st, 40));
}

static void
check_end(void)
{
	settle();
	check_full();
	for (int p = 0; p < parts; p++)
		check_heap(p);
	int step = 1 + KEYS / 400;
	for (int k = 0; k < KEYS; k += step)
		check_point(k);
}

// ------------------------------------------------------------------ workload
static int hotset;      // keys used most

static int
pick_key(int st)
{
	if (sim_choose(st, 8) == 7)
		return sim_choose(st, KEYS);
	return sim_choose(st, hotset);
}

static int
pick_u(int st, int k)
{
	int r = sim_choose(st, 12);
	if (r < 9)
		return k;
	return sim_choose(st, hotset + 4);
}

static void
statement(Dtx* self, int st)
{
	int k = pick_key(st);
	uint32_t tag = tag_next(st);
	int r = sim_choose(st, 100);
	if (r < 34)
	{
		uint32_t u = pick_u(st, k);
		st_insert(self, k, tag, u);
	} else
	if (r < 52)
	{
		uint32_t u = pick_u(st, k);
		st_upsert(self, st, k, tag, u);
	} else
	if (r < 70)
		st_update(self, k, tag);
	else
	if (r < 90)
		st_delete(self, k, sim_choose(st, 4) == 3);
	else
	if (r < 93)
	{
		int what = sim_choose(st, 2);
		int p = sim_choose(st, parts);
		st_scan(self, st, p, what, 1 + sim_choose(st, 9));
	} else
	if (r < 97)
	{
		// many rows, in some order
		static int sizes[] = { 20, 60, 140, 300, 700, 1500 };
		int n = sizes[sim_choose(st, mode == M_CHECKPOINT ? 4 : 6)];
		int from = sim_choose(st, KEYS - n);
		int order = sim_choose(st, 3);
		int  what = sim_choose(st, 4);
		bool del = what == 2;
		for (int i = 0; i < n; i++)
		{
			int at = from + (order == 0 ? i : order == 1 ? n - 1 - i : (int)((uint64_t)i * 7919 % n));
			if (del)
			{
				if (cell[at].tag)
					st_delete(self, at, false);
			} else
			if (!cell[at].tag && !uowner[owner[at]][at])
			{
				st_insert(self, at, (++b->tags << 4) | (b->tags & 3), at);
				// come and go
				if (what == 3 && i % 16)
					st_delete(self, at, i % 3 == 0);
			}
		}
		sim_probe("bulk");
	} else
	{
		// insert what is there or take another's u: fails
		st_insert(self, k, tag, pick_u(st, k));
	}
}

// give a failed statement's reason a name: only these are allowed
static bool
error_allowed(void)
{
	static const char* allowed[] = { "unique key constraint violation", "transaction log limit reached", "row is too large" };
	auto e = &am_self()->error;
	char text[256];
	snprintf(text, sizeof(text), "%.*s", buf_size(&e->text), buf_cstr(&e->text));
	for (int i = 0; i < 3; i++)
		if (strstr(text, allowed[i]))
			return true;
	return false;
}

// one transaction; false when nothing more fits
static bool
transaction(int st)
{
	if (b->count + PENDING + 2 >= RECORDS || b->log_size + (4 << 20) > LOGSIZE)
		return false;
	if (pending_count == PENDING)
		decide(decidable(), true);
	auto self = &pending[pending_count++];
	memset(self, 0, sizeof(*self));
	buf_init(&self->undo);
	buf_init(&self->redo);
	static int limits[] = { 0, 0, 0, 0, 0, 5000, 300, 90 };
	limit_init(&self->limit, limits[sim_choose(st, 8)]);
	int n = 1 + sim_choose(st, 6);
	bool error = error_catch
	(
		for (int i = 0; i < n; i++)
			statement(self, st);
	);
	if (error)
	{
		// the model does not know what it left behind, only an abort undoes it
		if (! error_allowed())
			sim_fail("statement-error", "a statement failed: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		self->failed = true;
		decide(decidable(), true);
		sim_probe("statement-failed");
	}
	return true;
}


static void
truncate_table(void)
{
	if (b->count + PENDING + 2 >= RECORDS)
		return;
	// committed transactions may still be unknown to the partitions
	decide(decidable(), true);
	if (mode != M_INDEX)
	{
		auto r = &b->rec[b->count];
		memset(r, 0, sizeof(*r));
		r->lsn      = state_lsn_next();
		r->truncate = true;
		r->pos      = b->log_size;
		__atomic_store_n(&b->count, b->count + 1, __ATOMIC_SEQ_CST);
	}
	sim_log("truncate");
	part_mgr_truncate(&pm);
	Cell none = { 0, 0 };
	for (int k = 0; k < KEYS; k++)
		if (cell[k].tag)
			cell_set(k, none);
	sim_probe("truncate");
}

static void
step(int st)
{
	int r = sim_choose(st, 40);
	if (r == 39 && sim_choose(st, 4) == 3)
		truncate_table();
	else
	if (r < 26)
		transaction(st);
	else
	if (r < 32)
	{
		int n = decidable();
		bool rest = sim_choose(st, 3) == 2;
		if (n)
			n = sim_choose(st, n + 1);
		decide(n, rest);
	} else
	if (r < 38)
		check_some(st);
	else
	{
		settle();
		for (int p = 0; p < parts; p++)
			check_heap(p);
	}
}

// ------------------------------------------------------------------ recovery
// follows db/recover.c
static Part*
recover_map(uint64_t lsn, Row* row)
{
	auto p = part_mapping_map(&pm.mapping, row);
	sim_check(p != NULL, "part-hole", "a row of the log has no partition");
	track_lsn_follow(&p->track, lsn);
	if (lsn <= p->heap->header->lsn)
		p = NULL;
	return p;
}

static void
recover(void)
{
	Tr tr;
	tr_init(&tr);
	for (uint32_t i = 0; i < b->count; i++)
	{
		auto r = &b->rec[i];
		state_lsn_follow(r->lsn);
		if (r->truncate)
		{
			list_foreach(&pm.list)
			{
				auto p = list_at(Part, link);
				if (r->lsn > p->heap->header->lsn)
					part_truncate(p);
			}
			Cell none = { 0, 0 };
			for (int k = 0; k < KEYS; k++)
				if (cell[k].tag)
					cell_set(k, none);
			continue;
		}
		auto redo = (Change*)(b->log + r->pos);
		for (uint32_t j = 0; j < r->changes; j++)
			cell_set(redo[j].k, redo[j].cell);

		tr_reset(&tr);
		tr_begin(&tr);
		auto record = (Record*)(redo + r->changes);
		auto cmd = record_cmd(record);
		auto pos = record_data(record);
		for (uint32_t j = 0; j < record->count; j++, cmd++)
		{
			auto end = pos + cmd->size;
			auto p = recover_map(r->lsn, (Row*)pos);
			if (! p)
			{
				record_cmd_skip(cmd, &pos);
				continue;
			}
			while (pos < end)
			{
				if (cmd->cmd == CMD_REPLACE)
				{
					auto row = row_copy(p->heap, (Row*)pos);
					part_insert(p, &tr, true, row);
				} else
					part_delete_by(p, &tr, (Row*)pos);
				pos += row_size((Row*)pos);
			}
			sim_check(pos == end, "log-size", "a command of the log does not end with a row");
		}
		tr_commit(&tr);
	}
	tr_free(&tr);
	if (b->count)
		sim_probe("replay");
}

// ------------------------------------------------------------------ checkpoint
static Part*   ck_part;
static Heap*   ck_shadow;
static File    ck_file;
static Id      ck_id;
static bool    ck_failed;
static bool    ck_committed;
static Cell    ck_cell[KEYS];
static bool    ck_stop, ck_done;

static void
ck_create_job(intptr_t* argv)
{
	auto lsn = (uint64_t)argv[0];
	ck_part->heap->header->lsn = lsn;
	heap_create(ck_part->heap, &ck_file, &ck_id, STATE_INCOMPLETE);
}

// what the service file does: after it is there the checkpoint is completed, by recovery if need be
typedef struct { uint64_t old_id, new_id; uint64_t old_volume, new_volume; uint64_t check; } Service;

#define SERVICE DIRECTORY "/service"

static void
service_create(void)
{
	Service s = { ck_part->id.id, ck_id.id, ck_part->id.volume == volume[0] ? 0 : 1, ck_id.volume == volume[0] ? 0 : 1, 77 };
	File file;
	file_init(&file);
	defer(file_close, &file);
	file_create(&file, SERVICE ".incomplete");
	file_write(&file, &s, sizeof(s));
	if (opt_int_of(&config()->storage_sync))
		file_sync(&file);
	file_close(&file);
	fs_rename(SERVICE ".incomplete", "%s", SERVICE);
}

static void
ck_finish(void)
{
	id_delete(&ck_part->id, STATE_COMPLETE);
	id_rename(&ck_id, STATE_INCOMPLETE, STATE_COMPLETE);
	if (fs_exists("%s", SERVICE))
		fs_unlink("%s", SERVICE);
	ck_committed = false;
}

static void
ck_complete_job(intptr_t* argv)
{
	(void)argv;
	if (opt_int_of(&config()->storage_sync))
		file_sync(&ck_file);
	file_close(&ck_file);
	service_create();
	ck_committed = true;
	ck_finish();
}

static void
ck_complete_again(intptr_t* argv)
{
	(void)argv;
	ck_finish();
}

static bool
disk_failed(void)
{
	return sim_fault_seen(SIM_F_WRITE_ENOSPC) || sim_fault_seen(SIM_F_WRITE_EIO) || sim_fault_seen(SIM_F_FSYNC_EIO) ||
	       sim_fault_seen(SIM_F_OPEN_EIO) || sim_fault_seen(SIM_F_META_EIO) || sim_fault_seen(SIM_F_READ_EIO);
}

// the image holds the rows of the snapshot, nothing else
static void
image_check(Id* id, int p, uint64_t lsn)
{
	auto heap = heap_allocate(false);
	if (error_catch( heap_open(heap, id, STATE_COMPLETE) ))
		sim_fail("image-open", "the image of a complete checkpoint cannot be opened: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
	sim_check(heap->header->lsn == lsn, "image-lsn", "the image has lsn %" PRIu64 ", the snapshot was taken at lsn %" PRIu64, heap->header->lsn, lsn);
	sim_check(heap->header->hash_min == part[p]->heap->header->hash_min && heap->header->hash_max == part[p]->heap->header->hash_max, "image-range", "the image has another hash range");
	static uint8_t seen[KEYS];
	memset(seen, 0, sizeof(seen));
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, heap, NULL);
	uint32_t n = 0, want = 0;
	for (; heap_iterator_has(&it); heap_iterator_next(&it))
	{
		auto row = heap_iterator_at(&it);
		int k = row_check(row, "image");
		uint32_t tag = *(int64_t*)row_at(row, C_TAG);
		sim_check(owner[k] == p && ck_cell[k].tag == tag, "image-content", "image: key %d has version %u, it had version %u when the snapshot was taken", k, tag, owner[k] == p ? ck_cell[k].tag : 0);
		sim_check(! seen[k], "image-content", "image: key %d is there twice", k);
		seen[k] = 1;
		n++;
	}
	for (int k = 0; k < KEYS; k++)
		want += owner[k] == p && ck_cell[k].tag;
	sim_check(n == want, "image-content", "the image has %u rows, the partition had %u when the snapshot was taken", n, want);
	sim_check(heap->header->count_used == n, "image-content", "the header of the image counts %u rows, it has %u", heap->header->count_used, n);
	heap_free(heap);
}

static void
checkpoint(int st, int p)
{
	ck_part   = part[p];
	ck_failed = false;
	decide(decidable(), true);
	sync_part(p);
	auto heap = ck_part->heap;
	auto lsn  = track_lsn(&ck_part->track);
	auto lsn_was = heap->header->lsn;
	memcpy(ck_cell, cell, sizeof(cell));
	auto v = volume_mgr_next(&pmc.volumes);
	if (sim_choose(st, 2))
		v = ck_part->id.volume;
	ck_id.id      = state_psn_next();
	ck_id.version = 0;
	ck_id.volume  = v;
	file_init(&ck_file);
	ck_shadow = heap_allocate(false);
	ck_part->heap_shadow = ck_shadow;
	snapshot_on[p] = true;
	heap_snapshot(heap, ck_shadow, true);
	if (error_catch( run(ck_create_job, 1, lsn) ))
	{
		sim_check(disk_failed(), "checkpoint-error", "checkpoint failed: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		ck_failed = true;
		sim_probe("checkpoint-failed");
	}
	if (sim_choose(st, 3) == 2)
		coroutine_sleep(sim_choose(st, 5));

	// apply
	decide(decidable(), true);
	sync_part(p);
	sim_check(ck_part->track.prepared.list_count == 0, "tr-pending", "transactions are pending after all were decided");
	heap_snapshot(heap, NULL, false);
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, ck_shadow, NULL);
	int merged = 0, removed = 0;
	for (; heap_iterator_has(&it); heap_iterator_next(&it))
	{
		auto chunk = heap_iterator_at_chunk(&it);
		if (chunk->is_shadow_free)
		{
			heap_remove(heap, *(void**)chunk->data);
			removed++;
			continue;
		}
		auto row_shadow = heap_iterator_at(&it);
		auto row = row_copy(heap, row_shadow);
		auto prev = part_apply(ck_part, row, false);
		sim_check(prev == row_shadow, "checkpoint-merge", "a row written during the checkpoint is not the current one when it is merged");
		merged++;
	}
	if (merged)
		sim_probe("merge-rows");
	if (removed)
		sim_probe("merge-removes");
	ck_part->heap_shadow = NULL;
	heap_free(ck_shadow);
	snapshot_on[p] = false;
	if (ck_failed)
	{
		heap->header->lsn = lsn_was;
		file_close(&ck_file);
		bool on = sim_faults_on();
		sim_faults(false);
		id_delete(&ck_id, STATE_INCOMPLETE);
		sim_faults(on);
		return;
	}
	// the rows are all where they belong again
	check_heap(p);
	if (error_catch( run(ck_complete_job, 1, 0) ))
	{
		sim_check(disk_failed(), "checkpoint-error", "checkpoint failed: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		bool on = sim_faults_on();
		sim_faults(false);
		file_close(&ck_file);
		if (ck_committed)
			// past the point of no return
			run(ck_complete_again, 1, 0);
		else
		{
			heap->header->lsn = lsn_was;
			id_delete(&ck_id, STATE_INCOMPLETE);
			sim_faults(on);
			return;
		}
		sim_faults(on);
	}
	volume_remove(ck_part->id.volume, &ck_part->link_volume);
	ck_part->id = ck_id;
	volume_add(ck_id.volume, &ck_part->link_volume);
	bool on = sim_faults_on();
	sim_faults(false);
	image_check(&ck_id, p, lsn);
	sim_faults(on);
	sim_probe("checkpoint");
}

static void
checkpoint_main(void* arg)
{
	(void)arg;
	int n = 1 + sim_choose(30, 6);
	for (int i = 0; i < n && !ck_stop; i++)
	{
		coroutine_sleep(sim_choose(30, 4));
		checkpoint(30, sim_choose(30, parts));
	}
	ck_done = true;
}

// ------------------------------------------------------------------ lives
static void
config_choose(void)
{
	b->kind        = sim_choose(0, K_MAX);
	static int np[] = { 1, 2, 3, 4, 1, 2, 7, 8 };
	b->parts       = np[sim_choose(0, 8)];
	b->pk_hash     = sim_choose(0, 2);
	b->u_hash      = sim_choose(0, 2);
	b->s_index     = sim_choose(0, 2);
	b->volumes     = 1 + sim_choose(0, 2);
	b->external    = sim_choose(0, 4) == 3;
	b->compression = sim_choose(0, 3) == 2;
	b->crc         = mode == M_DAMAGE || sim_choose(0, 4) != 3;
	b->sync        = sim_choose(0, 4) != 3;
}

// a checkpoint that crashed after its point of no return is finished first
static void
service_recover(void)
{
	if (sim_disk_exists(SERVICE ".incomplete"))
		fs_unlink("%s", SERVICE ".incomplete");
	if (! sim_disk_exists(SERVICE))
		return;
	Service s;
	File file;
	file_init(&file);
	file_open(&file, SERVICE);
	sim_check(file.size == sizeof(s), "service", "the service file is not complete");
	file_pread(&file, &s, sizeof(s), 0);
	file_close(&file);
	volume_mgr_ref(&pmc.volumes, &sm);
	Id old = { s.old_id, 0, volume[s.old_volume] };
	Id new = { s.new_id, 0, volume[s.new_volume] };
	id_delete(&old, STATE_COMPLETE);
	id_rename(&new, STATE_INCOMPLETE, STATE_COMPLETE);
	fs_unlink("%s", SERVICE);
	volume_mgr_unref(&pmc.volumes);
	sim_probe("checkpoint-completed");
}

static void
dirs_make(void)
{
	if (! sim_disk_exists(DIRECTORY))
		sim_disk_mkdir(DIRECTORY);
	if (! sim_disk_exists(DIRECTORY "/storage"))
		sim_disk_mkdir(DIRECTORY "/storage");
}

// identity values given out from now on are above those in use
static void
check_sequence(void)
{
	if (b->kind != K_INT64 && b->kind != K_INT32)
		return;
	int64_t next = sequence_get(&seq);
	sim_check(next >= 0 && next < INT64_MAX / 2, "identity", "the sequence of the identity column is %" PRIi64 " after recovery", next);
	for (int k = 0; k < KEYS; k++)
	{
		int64_t id = b->kind == K_INT64 ? ((int64_t)k - 900) * 3000000000ll : (k - 900) * 3;
		if (cell[k].tag)
			sim_check(id < next, "identity", "the next identity value is %" PRIi64 ", a row has %" PRIi64, next, id);
	}
}

// ------------------------------------------------------------------ identity values
#define ISSUED 4000
static uint8_t issued[ISSUED];
static int64_t synced, issued_max;
static Task    seq_task[8];

static void
max_set(int64_t* at, int64_t value)
{
	int64_t now = __atomic_load_n(at, __ATOMIC_SEQ_CST);
	while (now < value && !__atomic_compare_exchange_n(at, &now, value, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
}

static void
session_main(void* arg)
{
	int id = (intptr_t)arg, st = 10 + id;
	int n = 1 + sim_choose(st, 20);
	for (int i = 0; i < n; i++)
	{
		int64_t floor = __atomic_load_n(&synced, __ATOMIC_SEQ_CST);
		int64_t v = sequence_next(&seq);
		sim_log("session %d gets %" PRIi64, id, v);
		sim_check(v > floor, "identity", "identity value %" PRIi64 " is given out, a row has %" PRIi64 " already", v, floor);
		sim_check(v >= 0 && v < ISSUED, "identity", "identity value %" PRIi64 " is given out", v);
		sim_check(! __atomic_fetch_add(&issued[v], 1, __ATOMIC_SEQ_CST), "identity", "identity value %" PRIi64 " is given out twice", v);
		max_set(&issued_max, v);
		if (sim_choose(st, 4) == 3)
			sim_yield();
	}
}

static void
backend_main(void* arg)
{
	int id = (intptr_t)arg, st = 20 + id;
	int n = 1 + sim_choose(st, 12);
	for (int i = 0; i < n; i++)
	{
		int64_t v = __atomic_load_n(&issued_max, __ATOMIC_SEQ_CST);
		int r = sim_choose(st, 8);
		if (r < 4)
			v -= r;
		else
		if (r < 7)
			v += sim_choose(st, 4);
		else
			v = -1 - (int64_t)sim_choose(st, 3);
		auto p   = part[id];
		auto row = row_make(p->heap, NULL, 0, 0, 0, &cfg[0]->keys);
		*(int64_t*)row_data(row, C_MAX) = v;
		sim_log("partition %d stores a row with %" PRIi64, id, v);
		auto prev = part_apply(p, row, false);
		if (prev)
			row_free(p->heap, prev);
		max_set(&synced, v);
	}
}

static void
seq_work(void)
{
	dirs_make();
	table_prepare();
	part_mgr_open(&pm, &indexes);
	parts_read();
	memset(issued, 0, sizeof(issued));
	synced = issued_max = -1;
	int sessions = 1 + sim_choose(0, 3), backends = 1 + sim_choose(0, parts < 3 ? parts : 3);
	for (int i = 0; i < sessions + backends; i++)
		task_init(&seq_task[i]);
	for (int i = 0; i < sessions; i++)
		scn_task(&seq_task[i], "session", session_main, (void*)(intptr_t)i);
	for (int i = 0; i < backends; i++)
		scn_task(&seq_task[sessions + i], "backend", backend_main, (void*)(intptr_t)i);
	for (int i = 0; i < sessions + backends; i++)
	{
		task_wait(&seq_task[i]);
		task_free(&seq_task[i]);
	}
	int64_t next = sequence_get(&seq);
	sim_check(next > synced && next > issued_max, "identity", "the next identity value is %" PRIi64 ", %" PRIi64 " was given out and a row has %" PRIi64, next, issued_max, synced);
	table_close();
}

static void
leftovers_find(void* arg, const char* name)
{
	int64_t id, version;
	int* bad = arg;
	if (name[0] == '.')
		return;
	if (id_of(name, &id, &version) != STATE_COMPLETE)
	{
		sim_log("left over file %s", name);
		(*bad)++;
	}
}

static void
files_check(void)
{
	// nothing but the images of the partitions
	char path[PATH_MAX];
	int bad = 0;
	for (int i = 0; i < b->volumes; i++)
	{
		char id[UUID_SZ];
		uuid_get(&volume[i]->id, id, sizeof(id));
		if (b->external && i == 0)
			snprintf(path, sizeof(path), "/sim/ext/%s", id);
		else
			snprintf(path, sizeof(path), DIRECTORY "/storage/%s", id);
		sim_disk_list(path, leftovers_find, &bad);
	}
	sim_check(bad == 0, "part-leftover", "%d files of unfinished operations are left after the table was opened", bad);
}

typedef struct { char path[4][PATH_MAX]; char dir[PATH_MAX]; int count; } Images;

static Images images[2];

static void
images_add(void* arg, const char* name)
{
	Images* self = arg;
	if (name[0] != '.')
		snprintf(self->path[self->count++ % 4], PATH_MAX, "%.*s/%.80s", 900, self->dir, name);
}

// a damaged image is refused, or what it holds is what was written
static void
damage(void)
{
	for (int p = 0; p < parts; p++)
		checkpoint(30, p);
	check_end();
	static Cell saved[KEYS];
	memcpy(saved, cell, sizeof(cell));
	memset(images, 0, sizeof(images));
	for (int i = 0; i < b->volumes; i++)
	{
		char id[UUID_SZ];
		uuid_get(&volume[i]->id, id, sizeof(id));
		snprintf(images[i].dir, PATH_MAX, "%s/%s", b->external && i == 0 ? "/sim/ext" : DIRECTORY "/storage", id);
		sim_disk_list(images[i].dir, images_add, &images[i]);
	}
	table_close();

	int n = sim_range(0, 1, 2);
	for (int i = 0; i < n; i++)
	{
		auto list = &images[sim_choose(0, b->volumes)];
		if (! list->count)
			list = &images[! (list - images)];
		auto path = list->path[sim_choose(0, list->count < 4 ? list->count : 4)];
		size_t size = sim_disk_file(path).size;
		size_t header = sizeof(HeapHeader) + 385 * sizeof(HeapBucket);
		size_t at = 0;
		int what = sim_choose(0, 6);
		if (what == 0)
			sim_disk_cut(path, at = sim_choose(0, size));
		else
		if (what == 1 && size > header + 24)
			// header of the first page
			sim_disk_flip(path, at = header + sim_choose(0, 24), 1 << sim_choose(0, 8));
		else
		if (what == 2)
			sim_disk_flip(path, at = sim_choose(0, header), 1 << sim_choose(0, 8));
		else
			sim_disk_flip(path, at = sim_choose(0, size), 1 << sim_choose(0, 8));
		sim_log("damage %s at %zu of %zu", path, at, size);
		sim_fault_count(SIM_F_CORRUPT);
	}

	table_prepare();
	if (error_catch( part_mgr_open(&pm, &indexes) ))
	{
		sim_probe("damage-refused");
		table_close();
		return;
	}
	mapping_check();
	parts_read();
	for (int k = 0; k < KEYS; k++)
		if (saved[k].tag)
			cell_set(k, saved[k]);
	check_end();
	// it can be written to
	for (int i = 0; i < 5; i++)
		step(1);
	check_end();
	sim_probe("damage-harmless");
	table_close();
}

static void
fault_rates(void)
{
	sim_fault_rate(SIM_F_WRITE_ENOSPC, 200);
	sim_fault_rate(SIM_F_WRITE_EIO, 100);
	sim_fault_rate(SIM_F_FSYNC_EIO, 300);
	sim_fault_rate(SIM_F_META_EIO, 300);
	sim_fault_rate(SIM_F_OPEN_EIO, 200);
}

static void
life_work(void)
{
	dirs_make();
	table_prepare();
	// recovery and the creation of the table can be interrupted as well
	bool open_faults = false;
	sim_faults(true);
	if (mode == M_CHECKPOINT && sim_epoch() < 2)
	{
		int r = sim_choose(0, 8);
		if (r >= 6)
		{
			sim_crash_plan(40);
			if (! b->sync)
				sim_crash_kill_only();
		} else
		if (r == 5)
		{
			open_faults = true;
			fault_rates();
		}
	}
	if (error_catch( service_recover(); part_mgr_open(&pm, &indexes) ))
	{
		if (! (open_faults && disk_failed()))
			sim_fail("part-open", "the partitions cannot be opened: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		sim_probe("open-failed");
		table_close();
		return;
	}
	if (sim_crash_planned())
		sim_crash_plan_off();
	for (int f = SIM_F_WRITE_ENOSPC; f <= SIM_F_META_EIO; f++)
		sim_fault_rate(f, 0);
	mapping_check();
	files_check();
	parts_read();
	memset(unsynced, 0, sizeof(unsynced));
	memset(snapshot_on, 0, sizeof(snapshot_on));
	pending_count = 0;
	static int hots[] = { 8, 40, 200, 700, 2000 };
	hotset = hots[sim_choose(0, 5)];
	if (sim_epoch() > 0)
	{
		recover();
		check_end();
		check_sequence();
	}
	if (mode == M_TR && sim_epoch() > 0)
	{
		table_close();
		return;
	}

	bool faults = false;
	if (mode == M_CHECKPOINT)
	{
		if (sim_choose(0, 2))
		{
			sim_crash_plan(60);
			if (! b->sync)
				sim_crash_kill_only();
		} else
			faults = sim_choose(0, 2);
		if (faults)
		{
			fault_rates();
		}
		sim_fault_rate(SIM_F_WRITE_SHORT, 500);
		sim_fault_rate(SIM_F_READ_SHORT, 500);
		sim_fault_rate(SIM_F_EINTR, 200);
	}
	uint64_t ck = 0;
	ck_stop = false;
	ck_done = mode != M_CHECKPOINT;
	if (mode == M_CHECKPOINT)
		ck = coroutine_create(checkpoint_main, NULL);
	(void)ck;
	static int steps[] = { 6, 12, 25, 60 };
	int n = steps[sim_choose(0, 4)];
	for (int i = 0; i < n; i++)
	{
		step(1);
		if (mode == M_CHECKPOINT)
			coroutine_sleep(sim_choose(1, 3));
	}
	ck_stop = true;
	while (! ck_done)
		coroutine_sleep(1);
	if (sim_crash_planned())
		sim_crash_plan_off();
	sim_faults(false);
	check_end();
	if (mode == M_DAMAGE)
	{
		damage();
		return;
	}
	table_close();
}

static void
life_main(void* arg)
{
	(void)arg;
	if (mode == M_SEQ)
		seq_work();
	else
		life_work();
}

static void
epoch(void)
{
	b = sim_board(sizeof(Board));
	if (sim_epoch() == 0)
		config_choose();
	if (mode == M_SEQ)
		b->kind = K_INT64;
	scn_run(life_main, NULL, mode == M_CHECKPOINT || mode == M_DAMAGE ? 1 : 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

static void epoch_index(void)      { mode = M_INDEX;      epoch(); }
static void epoch_tr(void)         { mode = M_TR;         epoch(); }
static void epoch_seq(void)        { mode = M_SEQ;        epoch(); }
static void epoch_damage(void)     { mode = M_DAMAGE;     epoch(); }
static void epoch_checkpoint(void) { mode = M_CHECKPOINT; epoch(); }

SimScenario sim_scenarios[] =
{
	{ "C13", "index",      epoch_index,      1, 100000000, 1, 0 },
	{ "C14", "tr",         epoch_tr,         2, 100000000, 1, 0 },
	{ "C15", "checkpoint", epoch_checkpoint, 3, 100000000, 1, 0 },
	{ "C17", "identity",   epoch_seq,        1, 100000000, 3, 0 },
	{ "C17", "recovered",  epoch_checkpoint, 3, 100000000, 1, 0 },
	{ "C16", "damage",     epoch_damage,     1, 100000000, 1, 0 },
	{ 0 }
};
const char* sim_real_parts = "partition manager, partition operations, indexes, heap and its images, transactions and their log, relation and storage managers, jobs (repository code, instrumented)";
const char* sim_stub_parts = "disk, pthreads scheduling, epoll, eventfd, clock, malloc (simulated); executor, checkpoint and recovery loops (scenario, follow vm/executor, db/service/refresh.c and db/db/recover.c, which do not compile at this commit); the write ahead log is an ideal list of records";
const char* sim_rule = "Workload: transactions of inserts, upserts, updates, deletes, scans with updates, bulk changes and truncates over 1-8 partitions with tree and hash indexes; pending transactions are committed by prefix or aborted by suffix, partitions learn late; checkpoints run on a job thread meanwhile.";
