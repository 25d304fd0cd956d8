#pragma once
// Stand-in for db/service, which does not compile at this commit: the same
// interface, the same locking, the current naming of partition files.
#include "service/service_lock_mgr.h"
#include "service/service.h"
void service_recover(Service*);
void service_refresh(Service*, Uuid*, uint64_t, Str*);
void service_flush(Service*, Uuid*, uint64_t);
void service_checkpoint(Service*);
void service_gc(Service*);
void service_create_index(Service*, Tr*, uint8_t*, int);
