// Write ahead log: durability, atomic append, cursors, retention, damage.
#include "common.h"
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>

#define DIRECTORY "/sim/db"
#define RECS      4096
#define WRITERS   3
#define READERS   2

enum { R_NONE, R_PENDING, R_ACKED, R_FAILED, R_LOST };
enum { M_CRASH, M_IOERR, M_READ, M_DAMAGE, M_WORKER };

typedef struct { uint64_t hash; int state; uint32_t lsn; uint32_t first; uint32_t pos; } Rec;

// survives crashes
typedef struct
{
	int      worker, crc, sync_create, sync_close, sync_write, size, interval, writers;
	int      strict;           // a power failure leaves a gapless prefix
	uint32_t count;            // record ids handed out (1..count)
	Rec      rec[RECS];
	uint32_t exp[RECS];        // lsn -> record id, 0 unknown
	uint32_t synced;           // lsn known to be on disk
	uint32_t gc;               // records before may be gone
	uint32_t checkpoint;       // lsn known without the log
	uint32_t cut;              // truncation point asked for
	bool     damaged;
	bool     clean;            // previous life ended in order
} Board;

static Board* b;
static int    mode;
static WalMgr wm;

// ------------------------------------------------------------------ records
typedef struct { Buf ops; Buf rows; WriteLog logs[3]; int count; Write write; uint32_t id; } Item;

static uint64_t
hash_record(Record* record, uint8_t* limit)
{
	// commands and data
	uint64_t h = record->count;
	auto cmd = record_cmd(record);
	auto pos = record_data(record);
	for (uint32_t i = 0; i < record->count; i++)
	{
		h = scn_hash(h, cmd[i].cmd);
		h = scn_hash(h, cmd[i].size);
		uint64_t n;
		memcpy(&n, &cmd[i].id, 8);
		h = scn_hash(h, n);
	}
	for (; pos < limit; pos++)
		h = h * 0x100000001B3ull + *pos + 1;
	return h;
}

static void
item_build(Item* self, int st, uint32_t id)
{
	memset(self, 0, sizeof(*self));
	self->id = id;
	buf_init(&self->ops);
	buf_init(&self->rows);
	write_init(&self->write);
	self->count = 1 + (int)sim_choose(st, 3);
	// the first command carries the number of the record
	encode_raw(&self->ops, (char*)&id, 4);
	int      op[3], rows[3];
	uint32_t ops_off[3], row_off[3];
	for (int i = 0; i < self->count; i++)
	{
		op[i] = i == 0 || sim_choose(st, 2);
		ops_off[i] = buf_size(&self->ops);
		row_off[i] = buf_size(&self->rows);
		rows[i] = 0;
		if (op[i])
		{
			char text[64];
			memset(text, 'a' + (id + i) % 20, sizeof(text));
			if (i)
				encode_raw(&self->ops, text, sim_choose(st, 64));
		} else
		{
			rows[i] = 1 + (int)sim_choose(st, 6);
			if (sim_choose(st, 60) == 59)
				rows[i] = 1100;
			for (int j = 0; j < rows[i]; j++)
			{
				int factor = sim_choose(st, 3);
				int size = 8 + (int)sim_choose(st, factor ? 400 : 200);
				if (rows[i] > 100)
					size = 8 + j % 5;
				if (factor == 2)
					factor = 3;
				auto row = (Row*)buf_emplace(&self->rows, size);
				memset(row, (int)(id * 7 + j), size);
				row_init(row, 1, factor, size);
			}
		}
	}
	ops_off[0] = 0;
	write_begin(&self->write);
	uint8_t* row = self->rows.start;
	for (int i = 0; i < self->count; i++)
	{
		auto log = &self->logs[i];
		write_log_init(log);
		if (op[i])
		{
			auto pos = self->ops.start + ops_off[i];
			if (i && pos >= self->ops.position)
				pos = self->ops.start;
			write_log_add_op(log, sim_choose(st, 2) ? CMD_DDL_CREATE_INDEX : CMD_DDL, pos);
		} else
		{
			Uuid uuid;
			memset(&uuid, 0, sizeof(uuid));
			for (int j = 0; j < rows[i]; j++)
			{
				uuid.a = sim_choose(st, 2);
				write_log_add(log, sim_choose(st, 4) == 3 ? CMD_DELETE : CMD_REPLACE, &uuid, (Row*)row);
				row += row_size((Row*)row);
			}
		}
		write_add(&self->write, log);
	}
	// expected content: flattened
	Buf flat;
	buf_init(&flat);
	buf_write(&flat, &self->write.header, sizeof(Record));
	for (int i = 0; i < self->count; i++)
		buf_write(&flat, self->logs[i].meta.start, buf_size(&self->logs[i].meta));
	for (int i = 0; i < self->count; i++)
	{
		auto v = iov_pointer(&self->logs[i].iov);
		for (int j = 0; j < self->logs[i].iov.iov_count; j++)
			buf_write(&flat, v[j].iov_base, v[j].iov_len);
	}
	b->rec[id].hash = hash_record((Record*)flat.start, flat.position);
	buf_free(&flat);
}

static void
item_free(Item* self)
{
	for (int i = 0; i < self->count; i++)
		write_log_free(&self->logs[i]);
	write_free(&self->write);
	buf_free(&self->ops);
	buf_free(&self->rows);
}

// identify a record read back; returns its number
static uint32_t
record_check(Record* record, const char* who)
{
	sim_check(record->size >= sizeof(Record) + (uint64_t)record->count * sizeof(RecordCmd) && record->count > 0,
	          "wal-garbage", "%s: record lsn %" PRIu64 " has size %d, commands %d", who, record->lsn, record->size, record->count);
	auto data = record_data(record);
	auto end  = (uint8_t*)record + record->size;
	uint32_t id = 0;
	auto pos = data;
	if (end - pos < 5 || !json_is_string(pos))
		sim_fail("wal-garbage", "%s: record lsn %" PRIu64 " was never written", who, record->lsn);
	Str str;
	json_read_string(&pos, &str);
	if (str_size(&str) != 4)
		sim_fail("wal-garbage", "%s: record lsn %" PRIu64 " was never written", who, record->lsn);
	memcpy(&id, str_of(&str), 4);
	uint32_t count = __atomic_load_n(&b->count, __ATOMIC_SEQ_CST);
	if (id == 0 || id > count || b->rec[id].hash != hash_record(record, end))
		sim_fail("wal-garbage", "%s: record lsn %" PRIu64 " differs from what was written (record %u)", who, record->lsn, id);
	return id;
}

// ------------------------------------------------------------------ recovery
typedef struct { uint32_t lsn, id; } Got;
static Got got[RECS]; static int got_count;

// replay, as the database does at start; throws
static void
replay(bool check)
{
	got_count = 0;
	auto crc = opt_int_of(&config()->wal_crc);
	uint64_t id = 0;
	for (;;)
	{
		WalCursor cursor;
		wal_cursor_init(&cursor);
		defer(wal_cursor_close, &cursor);
		wal_cursor_open(&cursor, &wm.wal, id, false, crc);
		while (wal_cursor_next(&cursor))
		{
			auto record = wal_cursor_at(&cursor);
			auto cmd = record_cmd(record);
			auto pos = record_data(record);
			if (crc)
			{
				for (uint32_t i = 0; i < record->count; i++)
				{
					if (! record_validate_cmd(&cmd[i], pos))
						error("recover: record command mismatch");
					pos += cmd[i].size;
				}
			}
			if (check)
			{
				got[got_count].lsn = record->lsn;
				got[got_count].id  = record_check(record, "recovery");
				got_count++;
			}
			state_lsn_follow(record->lsn);
		}
		if (! wal_cursor_active(&cursor))
			break;
		id = id_mgr_next(&wm.wal.list, cursor.file->id);
		if (id == UINT64_MAX)
			break;
	}
}

static void
recover_check(bool failed)
{
	bool power = sim_last_crashed() && sim_crash_kind() != 1;
	uint32_t floor = 0;
	for (uint32_t lsn = 1; lsn < RECS; lsn++)
	{
		if (!b->exp[lsn]) continue;
		if (lsn >= b->gc && (!power || b->sync_write || lsn <= b->synced))
			floor = lsn;
	}
	uint32_t prev = 0;
	uint32_t next_exp[RECS] = { 0 };
	for (int i = 0; i < got_count; i++)
	{
		auto lsn = got[i].lsn;
		auto id  = got[i].id;
		auto r   = &b->rec[id];
		if (lsn == 0 || lsn >= RECS)
			sim_fail("wal-garbage", "record with lsn %u", lsn);
		if (i == 0)
			sim_check(lsn == 1 || lsn <= b->gc, "wal-gap", "the log starts with lsn %u, records before %u were not needed any more", lsn, b->gc);
		else
			sim_check(lsn == prev + 1, "wal-gap", "record lsn %u follows record lsn %u", lsn, prev);
		sim_check(r->state != R_FAILED, "wal-failed-replayed", "record %u (lsn %u) is replayed, its write was reported as failed", id, lsn);
		sim_check(r->state != R_LOST, "wal-resurrected", "record %u (lsn %u) is replayed, it was lost by an earlier recovery", id, lsn);
		if (b->exp[lsn])
			sim_check(b->exp[lsn] == id, "wal-order", "lsn %u is record %u, it was record %u when it was written", lsn, id, b->exp[lsn]);
		else
		{
			sim_check(r->state == R_PENDING, "wal-order", "record %u is replayed with lsn %u, it was written as %u", id, lsn, r->lsn);
			if (r->pos > 0)
				sim_check(i > 0 && got[i - 1].id == id - 1, "wal-order", "record %u of a batch is replayed without its predecessor", id);
		}
		for (int j = 0; j < i; j++)
			if (got[j].id == id)
				sim_fail("wal-twice", "record %u is replayed twice", id);
		next_exp[lsn] = id;
		prev = lsn;
	}
	if (! b->damaged)
	{
		if (prev < floor)
			sim_fail("wal-lost", "recovery ended with lsn %u, lsn %u was acknowledged as durable (crash kind %d)%s", prev, floor, sim_last_crashed() ? sim_crash_kind() : -1, failed ? ", with an error" : "");
		for (uint32_t lsn = 1; lsn <= floor; lsn++)
			if (lsn >= b->gc && b->exp[lsn] && !next_exp[lsn])
				sim_fail("wal-lost", "record lsn %u was acknowledged as durable and is not replayed", lsn);
		if (!sim_last_crashed())
			sim_check(!failed, "wal-error", "recovery after an orderly shutdown failed");
	}
	if (prev < b->checkpoint)
		prev = b->checkpoint;
	sim_check(state_lsn() == prev, "wal-lsn", "lsn is %" PRIu64 " after recovery up to %u", state_lsn(), prev);
	sim_log("recovered %d records up to lsn %u, floor %u", got_count, prev, floor);
	if (prev > floor) sim_probe("unacknowledged-survived");
	// what is there now is the truth
	for (uint32_t lsn = 0; lsn < RECS; lsn++)
		if (next_exp[lsn] || lsn > b->checkpoint)
			b->exp[lsn] = next_exp[lsn];
	for (uint32_t id = 1; id <= b->count; id++)
	{
		bool found = false;
		for (int i = 0; i < got_count; i++)
			if (got[i].id == id) { found = true; b->rec[id].lsn = got[i].lsn; }
		auto r = &b->rec[id];
		if (found) r->state = R_ACKED;
		else if (r->state == R_PENDING || (r->state == R_ACKED && r->lsn > prev)) r->state = R_LOST;
	}
	b->synced = prev;
}

static void
config_apply(void)
{
	auto c = config();
	opt_int_set(&c->wal_worker, b->worker);
	opt_int_set(&c->wal_crc, b->crc);
	opt_int_set(&c->wal_sync_on_create, b->sync_create);
	opt_int_set(&c->wal_sync_on_close, b->sync_close);
	opt_int_set(&c->wal_sync_on_write, b->sync_write);
	opt_int_set(&c->wal_size, b->size);
	char text[32];
	snprintf(text, sizeof(text), "%d ms", b->interval);
	opt_string_set_cstr(&c->wal_sync_interval, text);
	opt_string_set_cstr(&state()->directory, DIRECTORY);
}

static void
config_choose(void)
{
	b->worker      = sim_choose(0, 4) != 3;
	b->crc         = mode == M_DAMAGE || mode == M_CRASH || sim_choose(0, 6) != 5;
	b->sync_create = sim_choose(0, 8) != 7;
	b->sync_close  = sim_choose(0, 8) != 7;
	b->sync_write  = sim_choose(0, 2);
	static int sizes[] = { 1000000, 4000, 1500, 600, 200, 1 };
	b->size        = sizes[sim_choose(0, 6)];
	static int intervals[] = { 0, 5, 50, 1000 };
	b->interval    = intervals[sim_choose(0, 4)];
	b->writers     = 1;
	if (sim_choose(0, 3) == 2)
		b->writers = sim_range(0, 2, WRITERS);
	if (mode == M_WORKER)
	{
		b->worker = true;
		if (b->interval == 0) b->interval = 20;
	}
	// a file that is not synced when the next one is started may lose its end
	b->strict      = b->sync_close || b->sync_write;
}

static void
wal_recover(void)
{
	wal_mgr_init(&wm);
	state_lsn_set(b->checkpoint);
	bool failed = error_catch
	(
		wal_mgr_start(&wm);
		replay(true);
	);
	if (failed)
	{
		// allowed after a power failure took unsynced data, and after damage
		bool power = sim_last_crashed() && sim_crash_kind() != 1;
		sim_log("recovery failed: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		sim_check(b->damaged || power, "wal-error", "recovery failed: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		sim_probe("recovery-error");
	}
	recover_check(failed);
	if (failed)
	{
		// operator: truncate to the last valid record
		wal_mgr_stop(&wm);
		wal_mgr_free(&wm);
		wal_mgr_init(&wm);
		auto lsn = state_lsn();
		if (lsn == 0)
		{
			// nothing is left to keep
			for (int i = 0; i < RECS; i++)
				if (fs_exists(DIRECTORY "/wal/%d", i))
					fs_unlink(DIRECTORY "/wal/%d", i);
		}
		opt_int_set(&config()->wal_truncate, lsn);
		wal_mgr_start(&wm);
		int count = got_count;
		replay(true);
		sim_check(got_count == count, "wal-truncate", "%d records are left after truncation to lsn %" PRIu64 ", there were %d", got_count, lsn, count);
		recover_check(false);
	}
	b->damaged = false;
}

// ------------------------------------------------------------------ writers
typedef struct { Task task; int st; int batches; bool faults; int acked; int failed; } Producer;
static Producer writer[WRITERS];
static int    writers_done;

static void
write_batch(Producer* self)
{
	int st = self->st;
	int n = 1 + (int)sim_choose(st, 3);
	uint32_t first = __atomic_fetch_add(&b->count, n, __ATOMIC_SEQ_CST) + 1;
	if (first + n >= RECS)
		return;
	Item item[3];
	WriteList list;
	write_list_init(&list);
	for (int i = 0; i < n; i++)
	{
		auto r = &b->rec[first + i];
		r->first = first;
		r->pos   = i;
		item_build(&item[i], st, first + i);
		write_list_add(&list, &item[i].write);
		__atomic_store_n(&r->state, R_PENDING, __ATOMIC_SEQ_CST);
	}
	bool failed = error_catch( wal_mgr_write(&wm, &list) );
	for (int i = 0; i < n; i++)
	{
		auto r = &b->rec[first + i];
		if (failed)
		{
			if (__atomic_load_n(&r->lsn, __ATOMIC_SEQ_CST))
				sim_fail("wal-uncommitted-read", "record %u was delivered by a cursor with lsn %u, its write failed", first + i, r->lsn);
			__atomic_store_n(&r->state, R_FAILED, __ATOMIC_SEQ_CST);
			continue;
		}
		uint32_t lsn = item[i].write.header.lsn;
		if (i == n - 1)
			sim_check(lsn == list.lsn, "wal-lsn", "batch ends with lsn %u, %" PRIu64 " is reported", lsn, list.lsn);
		if (i > 0)
			sim_check(lsn == item[i - 1].write.header.lsn + 1, "wal-lsn", "records of a batch have lsn %u after %" PRIu64, lsn, item[i - 1].write.header.lsn);
		if (__atomic_load_n(&b->exp[lsn], __ATOMIC_SEQ_CST) != 0)
			sim_fail("wal-lsn", "lsn %u is given twice", lsn);
		uint32_t seen = __atomic_exchange_n(&r->lsn, lsn, __ATOMIC_SEQ_CST);
		if (seen != 0 && seen != lsn)
			sim_fail("wal-order", "record %u was read with lsn %u, written with %u", first + i, seen, lsn);
		__atomic_store_n(&b->exp[lsn], first + i, __ATOMIC_SEQ_CST);
		__atomic_store_n(&r->state, R_ACKED, __ATOMIC_SEQ_CST);
	}
	sim_log("writer %d: records %u..%u %s lsn %" PRIu64, st, first, first + n - 1, failed ? "failed" : "written", list.lsn);
	if (failed)
		self->failed++;
	else
		self->acked++;
	for (int i = 0; i < n; i++)
		item_free(&item[i]);
	if (failed && !self->faults)
		sim_fail("wal-error", "write failed without a fault: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
}

static void
writer_main(void* arg)
{
	Producer* self = arg;
	for (int i = 0; i < self->batches; i++)
	{
		write_batch(self);
		if (sim_choose(self->st, 3) == 2)
			coroutine_sleep(sim_choose(self->st, 8));
	}
	__atomic_fetch_add(&writers_done, 1, __ATOMIC_SEQ_CST);
}

// ------------------------------------------------------------------ readers
typedef struct
{
	Task      task;
	int       st;
	WalSlot   slot;
	WalCursor cursor;
	uint64_t  lsn;
	bool      stop;
	uint64_t  target;       // done when reached
	int       id;
	uint64_t  loop;
	int       reopens;
	bool      faults;
	int       errors;
	bool      finished;
} Consumer;
static Consumer reader[READERS];

static void
reader_take(Consumer* self)
{
	// records in the collected data
	auto buf = &self->cursor.buf;
	auto pos = buf->start;
	uint64_t lsn = atomic_u64_of(&self->slot.lsn);
	while (pos < buf->position)
	{
		auto record = (Record*)pos;
		sim_check(buf->position - pos >= (int)sizeof(Record) && record->size <= buf->position - pos, "cursor-garbage", "incomplete record is delivered");
		if (record->lsn != lsn + 1)
			sim_fail("cursor-gap", "cursor delivers lsn %" PRIu64 " after %" PRIu64, record->lsn, lsn);
		if (record->lsn > state_lsn())
			sim_fail("wal-uncommitted-read", "cursor delivers lsn %" PRIu64 ", the log is committed up to %" PRIu64, record->lsn, state_lsn());
		uint32_t id = record_check(record, "cursor");
		auto r = &b->rec[id];
		int state = __atomic_load_n(&r->state, __ATOMIC_SEQ_CST);
		sim_check(state == R_PENDING || state == R_ACKED, "wal-uncommitted-read", "cursor delivers record %u, its write failed", id);
		uint32_t seen = __atomic_load_n(&r->lsn, __ATOMIC_SEQ_CST);
		sim_check(seen == 0 || seen == record->lsn, "wal-order", "record %u is read with lsn %" PRIu64 ", before with %u", id, record->lsn, seen);
		uint32_t exp = __atomic_load_n(&b->exp[record->lsn], __ATOMIC_SEQ_CST);
		sim_check(exp == 0 || exp == id, "wal-order", "lsn %" PRIu64 " is record %u, it was written as record %u", record->lsn, id, exp);
		__atomic_store_n(&r->lsn, (uint32_t)record->lsn, __ATOMIC_SEQ_CST);
		lsn = record->lsn;
		pos += record->size;
	}
	sim_check(lsn == self->lsn, "cursor-lsn", "cursor reports lsn %" PRIu64 ", last record is %" PRIu64, self->lsn, lsn);
	sim_log("reader %d: up to lsn %" PRIu64, self->id, lsn);
	wal_slot_set(&self->slot, lsn);
}

static void
reader_loop(void* arg)
{
	Consumer* self = arg;
	wal_attach(&wm.wal, &self->slot);
	wal_cursor_open(&self->cursor, &wm.wal, self->lsn + 1, true, b->crc);
	for (;;)
	{
		// wait and collect as the replication streamer does
		for (;;)
		{
			static int sizes[] = { 1, 300, 5000, 100000 };
			auto lsn_max = state_lsn();
			if (wal_cursor_readahead(&self->cursor, sizes[sim_choose(self->st, 4)], &self->lsn, lsn_max) > 0)
				break;
			auto target = __atomic_load_n(&self->target, __ATOMIC_SEQ_CST);
			if (self->lsn >= target)
				return;
			Event on_event;
			event_init(&on_event);
			event_set_parent(&self->slot.on_write, &on_event);
			auto on_error = error_catch( event_wait(&on_event, -1) );
			event_set_parent(&self->slot.on_write, NULL);
			if (on_error)
				rethrow();
		}
		reader_take(self);
		if (self->lsn >= __atomic_load_n(&self->target, __ATOMIC_SEQ_CST))
			return;
		if (self->reopens > 0 && sim_choose(self->st, 6) == 5)
		{
			// reconnect
			self->reopens--;
			wal_detach(&wm.wal, &self->slot);
			wal_cursor_close(&self->cursor);
			if (sim_choose(self->st, 2))
				coroutine_sleep(sim_choose(self->st, 20));
			wal_attach(&wm.wal, &self->slot);
			self->lsn = atomic_u64_of(&self->slot.lsn);
			wal_cursor_open(&self->cursor, &wm.wal, self->lsn + 1, true, b->crc);
			sim_probe("cursor-reopen");
		}
	}
}

static void
reader_main(void* arg)
{
	Consumer* self = arg;
	while (error_catch( reader_loop(self) ))
	{
		// the streamer reconnects; a failed write that is undone under
		// the cursor is a reason, nothing else is
		sim_check(self->faults && self->errors++ < 100, "cursor-error", "cursor failed at lsn %" PRIu64 ": %.*s", self->lsn, buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		wal_detach(&wm.wal, &self->slot);
		wal_cursor_close(&self->cursor);
		self->lsn = atomic_u64_of(&self->slot.lsn);
		coroutine_sleep(1);
	}
	wal_detach(&wm.wal, &self->slot);
	wal_cursor_close(&self->cursor);
	__atomic_store_n(&self->finished, true, __ATOMIC_SEQ_CST);
	// the slot goes away before its task
	task_recv();
}

// ------------------------------------------------------------------ retention
// every record >= lsn is in a file of the directory
typedef struct { uint64_t id[256]; int count; } Files;
static void
files_add(void* arg, const char* name)
{
	Files* self = arg;
	if (self->count < 256)
		self->id[self->count++] = strtoull(name, NULL, 10);
}

static void
retention_check(uint64_t need, const char* what)
{
	Files files = { .count = 0 };
	sim_disk_list(DIRECTORY "/wal", files_add, &files);
	uint64_t min = UINT64_MAX;
	for (int i = 0; i < files.count; i++)
		if (files.id[i] < min)
			min = files.id[i];
	sim_check(files.count > 0 && min <= need, "wal-gc", "the oldest file of the log is %" PRIu64 ", records from lsn %" PRIu64 " on are needed (%s)", min, need, what);
}

static void
gc_once(int st, bool readers)
{
	// no slot goes back, so what is needed now is a lower bound
	uint64_t lsn = state_lsn();
	uint64_t min = lsn;
	static int back[] = { 0, 0, 1, 3, 10, 1000000 };
	uint64_t d = back[sim_choose(st, 6)];
	min = d > min ? 0 : min - d;
	if (min < b->checkpoint)
		min = b->checkpoint;
	if (min > b->gc) b->gc = min;
	if (min > b->checkpoint) b->checkpoint = min;
	wal_gc(&wm.wal, min);
	retention_check(min + 1, "checkpoint");
	for (int i = 0; readers && i < READERS; i++)
		if (reader[i].slot.added)
		{
			uint64_t now = atomic_u64_of(&reader[i].slot.lsn);
			retention_check(now + 1, "reader");
		}
	sim_probe("gc");
}

// backup: the files of the list can be copied until the slot is dropped
static void
snapshot_once(int st)
{
	WalSlot slot;
	wal_slot_init(&slot);
	Buf buf;
	buf_init(&buf);
	auto lsn = state_lsn();
	wal_snapshot(&wm.wal, &slot, &buf);
	int rounds = 1 + (int)sim_choose(st, 3);
	for (int i = 0; i < rounds; i++)
	{
		auto pos = buf.start;
		json_read_array(&pos);
		uint64_t last = 0;
		int count = 0;
		while (! json_read_array_end(&pos))
		{
			Str str;
			auto at = pos;
			json_read_array(&at);
			json_read_string(&at, &str);
			char path[256];
			snprintf(path, sizeof(path), DIRECTORY "/%.*s", (int)str_size(&str), str_of(&str));
			sim_check(sim_disk_exists(path), "wal-snapshot", "file %s of a snapshot was removed", path);
			last = strtoull(strrchr(path, '/') + 1, NULL, 10);
			count++;
			json_skip(&pos);
		}
		sim_check(count > 0, "wal-snapshot", "snapshot lists no files");
		(void)last; (void)lsn;
		coroutine_sleep(sim_choose(st, 6));
	}
	wal_del(&wm.wal, &slot);
	buf_free(&buf);
	sim_probe("snapshot");
}

static void
gc_coroutine(void* arg)
{
	(void)arg;
	int n = sim_choose(20, 8);
	for (int i = 0; i < n; i++)
	{
		coroutine_sleep(sim_choose(20, 6));
		gc_once(20, true);
	}
}

static void
snapshot_coroutine(void* arg)
{
	(void)arg;
	int n = sim_choose(21, 4);
	for (int i = 0; i < n; i++)
	{
		coroutine_sleep(sim_choose(21, 6));
		snapshot_once(21);
	}
}

// lost end of a file: at any point of the last file, in the middle of a
// record of the others (a file that ends early with a complete record is
// not distinguishable from a shorter one)
static void
damage_cut(const char* path, uint64_t id, uint64_t last, size_t at)
{
	auto f = sim_disk_file(path);
	if (id != last)
	{
		size_t pos = 0;
		while (pos < at)
			pos += ((Record*)(f.data + pos))->size;
		if (pos == at)
			at++;
	}
	sim_disk_cut(path, at);
}

// ------------------------------------------------------------------ one life
static void
life(void)
{
	config_apply();
	if (! sim_disk_exists(DIRECTORY))
		fs_mkdir(0755, DIRECTORY);
	wal_recover();
	b->clean = false;

	writers_done = 0;
	bool faults = mode == M_IOERR || (mode == M_READ && sim_choose(0, 3) == 2);
	if (mode == M_CRASH)
	{
		sim_crash_plan(sim_choose(0, 2) ? 200 : 40);
		if (! b->strict)
			sim_crash_kill_only();
	}
	int writers = b->writers;
	for (int i = 0; i < writers; i++)
	{
		memset(&writer[i], 0, sizeof(Producer));
		writer[i].st      = 1 + i;
		writer[i].batches = sim_choose(1 + i, mode == M_READ ? 20 : 12);
		writer[i].faults  = faults;
		task_init(&writer[i].task);
	}
	wal_periodic_start(&wm.wal_periodic);
	int readers = mode == M_READ ? sim_range(0, 1, READERS) : 0;
	for (int i = 0; i < READERS; i++)
	{
		memset(&reader[i], 0, sizeof(Consumer));
		if (i >= readers)
			continue;
		reader[i].id = i;
		reader[i].st = 10 + i;
		reader[i].target = UINT64_MAX;
		reader[i].reopens = 2;
		reader[i].faults = faults;
		task_init(&reader[i].task);
		wal_slot_init(&reader[i].slot);
		wal_cursor_init(&reader[i].cursor);
		uint64_t lsn = state_lsn();
		if (lsn > 0 && sim_choose(0, 2))
			lsn = sim_choose(0, lsn + 1);
		// the log may have been cut before
		if (! wal_in_range(&wm.wal, lsn))
			lsn = state_lsn();
		reader[i].lsn = lsn;
		wal_slot_set(&reader[i].slot, lsn);
		wal_add(&wm.wal, &reader[i].slot);
	}
	for (int i = 0; i < readers; i++)
		scn_task(&reader[i].task, "reader", reader_main, &reader[i]);
	if (faults)
	{
		sim_fault_path("/wal/");
		sim_fault_rate(SIM_F_WRITE_ENOSPC, sim_choose(62, 2) ? 300 : 60);
		sim_fault_rate(SIM_F_WRITE_EIO, sim_choose(62, 2) ? 200 : 0);
		sim_fault_rate(SIM_F_FSYNC_EIO, sim_choose(62, 2) ? 300 : 0);
		sim_fault_rate(SIM_F_OPEN_EIO, sim_choose(62, 2) && !readers ? 500 : 0);
	}
	sim_fault_rate(SIM_F_WRITE_SHORT, sim_choose(62, 2) ? 1500 : 0);
	sim_fault_rate(SIM_F_READ_SHORT, sim_choose(62, 2) ? 1000 : 0);
	sim_fault_rate(SIM_F_EINTR, sim_choose(62, 2) ? 500 : 0);
	sim_fault_rate(SIM_F_STALL, sim_choose(62, 2) ? 20 : 0);
	sim_fault_rate(SIM_F_COND_SPURIOUS, sim_choose(62, 2) ? 500 : 0);
	sim_faults(true);

	for (int i = 0; i < writers; i++)
		scn_task(&writer[i].task, "writer", writer_main, &writer[i]);
	int64_t gc = -1, snap = -1;
	if (mode == M_READ)
	{
		gc = coroutine_create(gc_coroutine, NULL);
		if (sim_choose(0, 2))
			snap = coroutine_create(snapshot_coroutine, NULL);
	}
	while (__atomic_load_n(&writers_done, __ATOMIC_SEQ_CST) < writers)
		coroutine_sleep(1);
	for (int i = 0; i < writers; i++)
	{
		task_wait(&writer[i].task);
		task_free(&writer[i].task);
	}
	if (gc != -1) coroutine_wait(gc);
	if (snap != -1) coroutine_wait(snap);
	sim_faults(false);

	if (readers)
	{
		// wake up the readers that have nothing to wait for, let the rest catch up
		auto lsn = state_lsn();
		for (int i = 0; i < readers; i++)
			__atomic_store_n(&reader[i].target, lsn, __ATOMIC_SEQ_CST);
		for (int i = 0; i < readers; i++)
		{
			for (int j = 0; !__atomic_load_n(&reader[i].finished, __ATOMIC_SEQ_CST); j++)
			{
				if (j > 5000)
					sim_fail("cursor-stuck", "reader is at lsn %" PRIu64 ", the log at %" PRIu64, atomic_u64_of(&reader[i].slot.lsn), lsn);
				if (atomic_u64_of(&reader[i].slot.lsn) >= lsn)
					event_signal(&reader[i].slot.on_write);
				coroutine_sleep(1);
			}
			wal_del(&wm.wal, &reader[i].slot);
			Msg stop;
			msg_init(&stop, MSG_STOP);
			task_send(&reader[i].task, &stop);
			task_wait(&reader[i].task);
			task_free(&reader[i].task);
		}
		// nothing holds the log any more
		auto last = id_mgr_max(&wm.wal.list);
		wal_gc(&wm.wal, state_lsn() + 1);
		retention_check(state_lsn() + 1, "current file");
		sim_check(id_mgr_min(&wm.wal.list) == last || id_mgr_max(&wm.wal.list) != last, "wal-retained", "files before %" PRIu64 " are kept although nothing needs them", last);
		b->gc = state_lsn() + 1;
		b->checkpoint = state_lsn();
	}

	if (mode == M_WORKER && b->interval)
	{
		// quiet: what was written gets to the disk within two intervals
		uint64_t until = sim_now() + (uint64_t)(2 * b->interval + 2500) * 1000000;
		while (sim_now() < until)
			coroutine_sleep(5);
		sim_check(wm.wal.current->file.size < b->size, "wal-not-rotated", "the current file has %zu bytes (limit %d), it is not rotated %d ms after the last write",
		          (size_t)wm.wal.current->file.size, (int)b->size, 2 * b->interval + 2500);
		Files files = { .count = 0 };
		sim_disk_list(DIRECTORY "/wal", files_add, &files);
		for (int i = 0; i < files.count; i++)
		{
			char path[256];
			snprintf(path, sizeof(path), DIRECTORY "/wal/%" PRIu64, files.id[i]);
			auto f = sim_disk_file(path);
			if (!b->sync_close && files.id[i] != id_mgr_max(&wm.wal.list))
				continue;
			sim_check(sim_disk_synced(path) == f.size, "wal-not-synced", "%zu of %zu bytes of wal/%" PRIu64 " are on disk %d ms after the last write (interval %d ms)",
			          sim_disk_synced(path), f.size, files.id[i], 2 * b->interval + 2500, b->interval);
		}
	}

	// lsn and sequence of the log
	uint32_t max = 0;
	for (uint32_t lsn = 1; lsn < RECS; lsn++)
		if (b->exp[lsn])
			max = lsn;
	sim_check(state_lsn() == max, "wal-lsn", "lsn is %" PRIu64 ", last record written is %u", state_lsn(), max);

	sim_crash_plan_off();
	int  pending = sim_choose(0, 3);
	if (pending && b->worker)
	{
		// stop while the worker has something to do
		wal_worker_request(&wm.wal_worker, pending == 1 ? WAL_SYNC : WAL_CREATE);
	}
	wal_mgr_stop(&wm);
	if (b->sync_close)
	{
		b->synced = max;
		Files files = { .count = 0 };
		sim_disk_list(DIRECTORY "/wal", files_add, &files);
		for (int i = 0; i < files.count && !faults; i++)
		{
			char path[256];
			snprintf(path, sizeof(path), DIRECTORY "/wal/%" PRIu64, files.id[i]);
			sim_check(sim_disk_synced(path) == sim_disk_file(path).size, "wal-not-synced", "wal/%" PRIu64 " is not on disk after shutdown", files.id[i]);
		}
	}
	wal_mgr_free(&wm);

	if (mode == M_DAMAGE)
	{
		Files files = { .count = 0 };
		sim_disk_list(DIRECTORY "/wal", files_add, &files);
		int n = sim_range(0, 1, 3);
		for (int i = 0; i < n && files.count; i++)
		{
			char path[256];
			uint64_t last = 0;
			for (int j = 0; j < files.count; j++)
				if (files.id[j] > last) last = files.id[j];
			uint64_t fid = files.id[sim_choose(0, files.count)];
			snprintf(path, sizeof(path), DIRECTORY "/wal/%" PRIu64, fid);
			size_t size = sim_disk_file(path).size;
			if (! size)
				continue;
			if (i == 0 && sim_choose(0, 4) == 3)
				damage_cut(path, fid, last, sim_choose(0, size));
			else
				sim_disk_flip(path, sim_choose(0, size), 1 << sim_choose(0, 8));
			sim_log("damage %s", path);
			sim_fault_count(SIM_F_CORRUPT);
			b->damaged = true;
		}
	}
	b->clean = true;
}

static void
life_main(void* arg)
{
	unused(arg);
	life();
}

static void
epoch(void)
{
	b = sim_board(sizeof(Board));
	if (sim_epoch() == 0)
		config_choose();
	scn_run(life_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

static void epoch_crash(void)  { mode = M_CRASH;  epoch(); }
static void epoch_ioerr(void)  { mode = M_IOERR;  epoch(); }
static void epoch_read(void)   { mode = M_READ;   epoch(); }
static void epoch_damage(void) { mode = M_DAMAGE; epoch(); }
static void epoch_worker(void) { mode = M_WORKER; epoch(); }

SimScenario sim_scenarios[] =
{
	{ "C08", "crash",  epoch_crash,  4, 60000000, 1, 0 },
	{ "C09", "ioerr",  epoch_ioerr,  2, 60000000, 1, 0 },
	{ "C10", "read",   epoch_read,   2, 60000000, 1, 0 },
	{ "C11", "damage", epoch_damage, 3, 60000000, 1, 0 },
	{ "C12", "worker", epoch_worker, 2, 60000000, 1, 0 },
	{ 0 }
};
const char* sim_real_parts = "write ahead log, its worker, periodic sync, cursor and slots, write lists and record format, tasks and coroutines (repository code, instrumented)";
const char* sim_stub_parts = "disk, pthreads scheduling, epoll, eventfd, clock, malloc (simulated); replay loop of the database (scenario, follows db/recover.c, which does not compile at this commit)";
const char* sim_rule = "Workload: 1-3 tasks write batches of 1-3 records of ops and rows with small file sizes (rotation) under every setting of worker, crc and sync options; lives end in a crash (process kill or power failure with lost, torn or partly written data) or in order; recovery replays and compares with a model.";
