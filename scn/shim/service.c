// Stand-in for db/service (see amelie_service.h): checkpoint of partitions,
// index creation, wal gc. Follows db/service/*.c line by line where it can.
#include <amelie_runtime>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>
#include <amelie_service.h>
#include <sim.h>

void
service_init(Service* self, Catalog* catalog, WalMgr* wal_mgr)
{
	self->catalog = catalog;
	self->wal_mgr = wal_mgr;
	service_lock_mgr_init(&self->lock_mgr);
}

void
service_free(Service* self)
{
	service_lock_mgr_free(&self->lock_mgr);
}

// ------------------------------------------------------------------ refresh
// file "service": names of the file that is replaced and of the one that replaces it
typedef struct { char old_path[128], new_path[128], done_path[128]; } Step;

typedef struct
{
	ServiceLock lock;
	Service*    service;
	Table*      table;
	Part*       origin;
	uint64_t    origin_lsn;
	Id          id_origin;
	Id          id_part;
	File        file_part;
	bool        applied, committed;
	Step        step;
	char        step_path[256];
} Refresh;

static void
step_path(char* out, size_t size, int64_t psn, const char* state)
{
	snprintf(out, size, "%s/storage/%05" PRIi64 ".service%s", state_directory(), psn, state);
}

static void
refresh_abort(Refresh* self)
{
	auto lock_table = lock(&self->table->rel, LOCK_EXCLUSIVE);
	auto origin = self->origin;
	track_sync(&origin->track, &origin->track.consensus);
	heap_snapshot(origin->heap, NULL, false);
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, origin->heap_shadow, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it))
	{
		auto chunk = heap_iterator_at_chunk(&it);
		if (chunk->is_shadow_free)
		{
			heap_remove(origin->heap, *(void**)chunk->data);
			continue;
		}
		auto row_shadow = heap_iterator_at(&it);
		auto row = row_copy(origin->heap, row_shadow);
		part_apply(origin, row, false);
	}
	auto shadow = origin->heap_shadow;
	origin->heap_shadow = NULL;
	heap_free(shadow);
	unlock(lock_table);
}

static void
refresh_snapshot_job(intptr_t* argv)
{
	auto self   = (Refresh*)argv[0];
	auto origin = self->origin;
	heap_create(origin->heap, &self->file_part, &self->id_part, STATE_INCOMPLETE);
}

static void
refresh_apply(Refresh* self)
{
	auto origin = self->origin;
	auto lock_table = lock(&self->table->rel, LOCK_EXCLUSIVE);
	defer(unlock, lock_table);

	track_sync(&origin->track, &origin->track.consensus);
	heap_snapshot(origin->heap, NULL, false);
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, origin->heap_shadow, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it))
	{
		auto chunk = heap_iterator_at_chunk(&it);
		if (chunk->is_shadow_free)
		{
			heap_remove(origin->heap, *(void**)chunk->data);
			continue;
		}
		auto row_shadow = heap_iterator_at(&it);
		auto row = row_copy(origin->heap, row_shadow);
		auto prev = part_apply(origin, row, false);
		sim_check(prev == row_shadow, "checkpoint-apply", "a row written during a checkpoint is not the one in the index");
	}
	auto shadow = origin->heap_shadow;
	origin->heap_shadow = NULL;
	heap_free(shadow);

	volume_remove(origin->id.volume, &origin->link_volume);
	origin->id = self->id_part;
	volume_add(origin->id.volume, &origin->link_volume);
}

static void
refresh_complete_job(intptr_t* argv)
{
	auto self = (Refresh*)argv[0];
	bool sync = opt_int_of(&config()->storage_sync);
	if (sync)
		file_sync(&self->file_part);
	file_close(&self->file_part);

	Step step;
	char path[PATH_MAX];
	memset(&step, 0, sizeof(step));
	id_path(&self->id_origin, path, STATE_COMPLETE, false);
	snprintf(step.old_path, sizeof(step.old_path), "%s", path);
	id_path(&self->id_part, path, STATE_INCOMPLETE, false);
	snprintf(step.new_path, sizeof(step.new_path), "%s", path);
	id_path(&self->id_part, path, STATE_COMPLETE, false);
	snprintf(step.done_path, sizeof(step.done_path), "%s", path);

	char incomplete[256], complete[256];
	int64_t psn = state_psn_next();
	step_path(incomplete, sizeof(incomplete), psn, ".incomplete");
	step_path(complete, sizeof(complete), psn, "");
	File file;
	file_init(&file);
	defer(file_close, &file);
	file_open_as(&file, incomplete, O_CREAT|O_RDWR|O_TRUNC, 0600);
	file_write(&file, &step, sizeof(step));
	if (sync)
		file_sync(&file);
	file_close(&file);
	fs_rename(incomplete, "%s", complete);
	self->committed = true;
	self->step      = step;
	snprintf(self->step_path, sizeof(self->step_path), "%s", complete);

	id_delete(&self->id_origin, STATE_COMPLETE);
	id_rename(&self->id_part, STATE_INCOMPLETE, STATE_COMPLETE);
	fs_unlink("%s", complete);
}

static void
refresh_retry(Refresh* self)
{
	// the files are replaced by the next start otherwise, until then the
	// partition could not be used
	for (;;)
	{
		auto on_error = error_catch
		(
			if (fs_exists("%s", self->step.old_path))
				fs_unlink("%s", self->step.old_path);
			if (fs_exists("%s", self->step.new_path))
				fs_rename(self->step.new_path, "%s", self->step.done_path);
			if (fs_exists("%s", self->step_path))
				fs_unlink("%s", self->step_path);
		);
		if (! on_error)
			break;
	}
}

static bool
refresh_begin(Refresh* self, Table* table, uint64_t id, Str* storage)
{
	auto volumes = &table->config->part_mgr_config.volumes;
	self->table = table;
	Volume* volume = NULL;
	if (storage)
	{
		volume = volume_mgr_find(volumes, storage);
		if (! volume)
			return false;
	}
	auto heap_shadow = heap_allocate(false);

	auto lock_table = lock(&table->rel, LOCK_EXCLUSIVE);
	defer(unlock, lock_table);

	auto origin = part_mgr_find(&table->part_mgr, id);
	if (! origin)
	{
		heap_free(heap_shadow);
		return false;
	}
	if (! volume)
		volume = volume_mgr_next(volumes);
	if (! volume)
		volume = origin->id.volume;
	self->origin          = origin;
	self->id_origin       = origin->id;
	self->id_part.id      = state_psn_next();
	self->id_part.version = 0;
	self->id_part.volume  = volume;

	track_sync(&origin->track, &origin->track.consensus);
	self->origin_lsn = track_lsn(&origin->track);
	sim_check(! origin->heap_shadow, "checkpoint-twice", "two checkpoints of one partition at the same time");
	origin->heap_shadow = heap_shadow;
	heap_snapshot(origin->heap, heap_shadow, true);
	return true;
}

static bool
refresh_run(Service* service, Table* table, uint64_t id, Str* storage)
{
	Refresh self;
	memset(&self, 0, sizeof(self));
	service_lock_init(&self.lock);
	self.service = service;
	file_init(&self.file_part);

	service_lock(service, &self.lock, LOCK_EXCLUSIVE, id);
	if (! refresh_begin(&self, table, id, storage))
	{
		service_unlock(&self.lock);
		return false;
	}
	auto header  = self.origin->heap->header;
	auto was     = header->lsn;
	auto on_error = error_catch
	(
		header->lsn = self.origin_lsn;
		run(refresh_snapshot_job, 1, &self);
		refresh_apply(&self);
		self.applied = true;
		run(refresh_complete_job, 1, &self);
	);
	if (on_error)
	{
		sim_probe("checkpoint-failed");
		if (! self.applied)
			refresh_abort(&self);
		error_catch( file_close(&self.file_part) );
		if (! self.committed)
		{
			header->lsn = was;
			if (self.applied)
			{
				auto lock_table = lock(&table->rel, LOCK_EXCLUSIVE);
				volume_remove(self.origin->id.volume, &self.origin->link_volume);
				self.origin->id = self.id_origin;
				volume_add(self.origin->id.volume, &self.origin->link_volume);
				unlock(lock_table);
			}
			error_catch( id_delete(&self.id_part, STATE_INCOMPLETE) );
		} else
		{
			refresh_retry(&self);
		}
		service_unlock(&self.lock);
		rethrow();
	}
	service_unlock(&self.lock);
	sim_probe("checkpoint-partition");
	return true;
}

void
service_recover(Service* self)
{
	unused(self);
	char path[PATH_MAX];
	sfmt(path, sizeof(path), "%s/storage", state_directory());
	auto dir = opendir(path);
	if (unlikely(dir == NULL))
		error("service: directory '%s' open error", path);
	defer(fs_closedir_defer, dir);
	for (;;)
	{
		auto entry = readdir(dir);
		if (entry == NULL)
			break;
		auto at = strstr(entry->d_name, ".service");
		if (! at)
			continue;
		state_psn_follow(strtoll(entry->d_name, NULL, 10));
		if (strcmp(at, ".service"))
		{
			fs_unlink("%s/%s", path, entry->d_name);
			continue;
		}
		auto buf = file_import("%s/%s", path, entry->d_name);
		defer_buf(buf);
		Step step;
		sim_check(buf_size(buf) == sizeof(step), "service-file", "the service file is not complete");
		memcpy(&step, buf->start, sizeof(step));
		if (fs_exists("%s", step.old_path))
			fs_unlink("%s", step.old_path);
		if (fs_exists("%s", step.new_path))
			fs_rename(step.new_path, "%s", step.done_path);
		fs_unlink("%s/%s", path, entry->d_name);
		sim_probe("checkpoint-completed");
	}
}

// ------------------------------------------------------------------ operations
void
service_refresh(Service* self, Uuid* id_table, uint64_t id, Str* storage)
{
	auto table = table_mgr_find_by(&self->catalog->table_mgr, id_table, true);
	if (! refresh_run(self, table, id, storage))
		error("partition or storage not found");
}

void
service_flush(Service* self, Uuid* id_table, uint64_t id)
{
	unused(self);
	unused(id_table);
	unused(id);
	error("not supported");
}

void
service_checkpoint(Service* self)
{
	auto lsn = state_lsn();
	auto catalog = self->catalog;
	if (state_catalog() < state_catalog_pending())
		catalog_write(catalog);
	list_foreach(&catalog->table_mgr.mgr.list)
	{
		auto table = table_of(list_at(Relation, link));
		for (;;)
		{
			uint64_t id = UINT64_MAX;
			auto table_lock = lock(&table->rel, LOCK_SHARED);
			list_foreach(&table->part_mgr.list)
			{
				auto part = list_at(Part, link);
				if (part->heap->header->lsn < lsn && part_has_updates(part))
				{
					id = part->id.id;
					break;
				}
			}
			unlock(table_lock);
			if (id == UINT64_MAX)
				break;
			refresh_run(self, table, id, NULL);
		}
	}
	service_gc(self);
}

void
service_gc(Service* self)
{
	auto lock_catalog = lock_system(REL_CATALOG, LOCK_SHARED);
	uint64_t lsn         = state_lsn();
	auto catalog         = state_catalog();
	auto catalog_pending = state_catalog_pending();
	if (catalog_pending > catalog && catalog < lsn)
		lsn = catalog;
	list_foreach(&self->catalog->table_mgr.mgr.list)
	{
		auto table = table_of(list_at(Relation, link));
		auto table_lock = lock(&table->rel, LOCK_EXCLUSIVE);
		list_foreach(&table->part_mgr.list)
		{
			auto part = list_at(Part, link);
			if (! part_has_updates(part))
				continue;
			auto part_lsn = part->heap->header->lsn;
			if (part_lsn < lsn)
				lsn = part_lsn;
		}
		unlock(table_lock);
	}
	unlock(lock_catalog);
	wal_gc(&self->wal_mgr->wal, lsn);
}

static void
index_build(Part* part, IndexConfig* config)
{
	Index* index;
	if (config->type == INDEX_TREE)
		index = index_tree_allocate(config, part);
	else
		index = index_hash_allocate(config, part);
	track_sync(&part->track, &part->track.consensus);
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, part->heap, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it))
	{
		if (keys_has_null(&config->keys, heap_iterator_at(&it)))
		{
			index_free(index);
			error("indexate: index key column cannot be NULL");
		}
		auto prev = index_replace_by(index, heap_iterator_at(&it));
		if (prev)
		{
			index_free(index);
			error("indexate: index unique constraint violation");
		}
	}
	part_index_add(part, index);
}

void
service_create_index(Service* self, Tr* tr, uint8_t* op, int flags)
{
	auto if_not_exists = ddl_if_not_exists(flags);
	Str  name_db;
	Str  name;
	auto pos = table_op_index_create_read(op, &name_db, &name);

	// (the real one builds the index with a shared lock first)
	lock_system(REL_CATALOG, LOCK_EXCLUSIVE);
	auto table = table_mgr_find(&self->catalog->table_mgr, &name_db, &name, true);
	auto config = index_config_read(table_columns(table), &pos);
	keys_set_primary(&config->keys, false);
	if (table_index_find(table, &config->name, false))
	{
		index_config_free(config);
		if (! if_not_exists)
			error("index already exists");
		return;
	}
	lock(&table->rel, LOCK_EXCLUSIVE);
	auto on_error = error_catch
	(
		if (keys_nullable(&config->keys))
			catalog_validate_udfs(self->catalog, &name);
		keys_set_not_null(&config->keys);
		list_foreach(&table->part_mgr.list)
			index_build(list_at(Part, link), config);
	);
	if (on_error)
	{
		list_foreach(&table->part_mgr.list)
		{
			auto part = list_at(Part, link);
			if (part_index_find(part, &config->name, false))
				part_index_drop(part, &config->name);
		}
		keys_unset_not_null(&config->keys);
		index_config_free(config);
		rethrow();
	}
	table_index_add(table, tr, config);
	log_persist_relation(&tr->log, op);
}
