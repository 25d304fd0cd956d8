#pragma once
// Deterministic simulator: interface for scenarios (C, instrumented code).
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

// ---- choices -------------------------------------------------------------
// Every workload decision is drawn here. Stream identifies a logical client;
// 0 is always the simplest value (minimisation replaces values by 0).
#define SIM_STREAMS 64
uint64_t sim_choose(int stream, uint64_t n);          // [0, n)
static inline int  sim_range(int stream, int lo, int hi)   // [lo, hi]
{ return lo + (int)sim_choose(stream, (uint64_t)(hi - lo + 1)); }
static inline bool sim_chance(int stream, int permille)
{ return (int)sim_choose(stream, 1000) > 999 - permille; }

// ---- verdicts ------------------------------------------------------------
// Violation: cls is the stable class, fmt the details. Does not return.
void sim_fail(const char* cls, const char* fmt, ...)
	__attribute__((format(printf, 2, 3), noreturn));
// Internal harness problem (error exit).
void sim_broken(const char* fmt, ...)
	__attribute__((format(printf, 1, 2), noreturn));
#define sim_check(cond, cls, ...) \
	do { if (!(cond)) sim_fail(cls, __VA_ARGS__); } while (0)

// ---- history -------------------------------------------------------------
void     sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t sim_seq(void);          // global event sequence number (monotonic)
uint64_t sim_now(void);          // simulated monotonic time, ns
void     sim_probe(const char* name);  // rare condition reached
void     sim_state(uint64_t h);        // abstract state reached (coverage)

// ---- epochs / persistence -------------------------------------------------
int      sim_epoch(void);
void*    sim_board(size_t size);  // memory that survives crashes (oracle only)
bool     sim_last_crashed(void);  // previous epoch ended in a crash
int      sim_crash_kind(void);    // of the previous epoch: 1 process kill, else power failure
void     sim_crash(void) __attribute__((noreturn)); // power/process failure now

// ---- fault control ---------------------------------------------------------
typedef enum {
	SIM_F_WRITE_SHORT,   // short write (legal)
	SIM_F_READ_SHORT,    // short read (legal)
	SIM_F_EINTR,         // EINTR from read/write
	SIM_F_WRITE_ENOSPC,  // write fails (after a partial write or none)
	SIM_F_WRITE_EIO,
	SIM_F_READ_EIO,
	SIM_F_FSYNC_EIO,     // fsync fails, data not durable
	SIM_F_OPEN_EIO,
	SIM_F_META_EIO,      // rename/unlink/link/mkdir/ftruncate fails
	SIM_F_CORRUPT,       // stored byte flipped
	SIM_F_COND_SPURIOUS, // spurious condition variable wake up
	SIM_F_STALL,         // thread stalled
	SIM_F_TIMEJUMP,      // time passes while threads are runnable
	SIM_F_CLOCKJUMP,     // wall clock jumps
	SIM_F_NET_DELAY,
	SIM_F_NET_RESET,
	SIM_F_NET_SHORT,     // partial socket read / write
	SIM_F_NET_EINTR,
	SIM_F_CRASH,         // crash (power failure or process kill)
	SIM_F_CRASH_TORN,    // unsynced write partially survived
	SIM_F_CRASH_LOST,    // unsynced write lost
	SIM_F_OOM,
	SIM_F_EPOLL_SPURIOUS,
	SIM_F_CANCEL,        // cancellation delivered (counted by scenarios)
	SIM_F_USER0, SIM_F_USER1, SIM_F_USER2, SIM_F_USER3,
	SIM_F_MAX
} SimFault;
void sim_fault_rate(SimFault f, int per_10k);  // 0 disables
void sim_faults(bool on);                      // master switch
bool sim_faults_on(void);
uint64_t sim_fault_seen(SimFault f);
void sim_fault_count(SimFault f);              // count a scenario-made fault
void sim_fault_path(const char* substr);       // restrict disk faults to paths
void sim_crash_plan(int max_disk_ops);         // choose a disk op to crash at
void sim_crash_plan_off(void);
void sim_crash_kill_only(void);                // planned crashes are process kills
bool sim_crash_planned(void);
uint64_t sim_disk_ops(void);

// ---- scheduling ------------------------------------------------------------
void sim_yield(void);
void sim_budget(uint64_t accesses);   // instrumented accesses allowed per epoch
void sim_sched_mode(int mode);        // 0 swarm, 1 fair random (liveness phases)
int  sim_threads(void);
void sim_clock_jump(int64_t ns);
uint64_t sim_wall_ns(void);

// ---- disk helpers (oracle side: no faults, no scheduling) -------------------
typedef struct { const uint8_t* data; size_t size; bool exists; } SimFile;
SimFile sim_disk_file(const char* path);
int     sim_disk_list(const char* dir, void (*cb)(void*, const char* name), void* arg);
bool    sim_disk_exists(const char* path);
bool    sim_disk_flip(const char* path, size_t off, uint8_t mask);
bool    sim_disk_cut(const char* path, size_t size);
void    sim_disk_put(const char* path, const void* data, size_t size);
void    sim_disk_mkdir(const char* path);
size_t  sim_disk_synced(const char* path);    // bytes that a crash cannot take

// ---- memory -----------------------------------------------------------------
size_t  sim_mem_live(void);      // live bytes of malloc
size_t  sim_mem_blocks(void);
bool    sim_mem_valid(const void* p, size_t n);

// ---- network ----------------------------------------------------------------
int  sim_net_pair(int sv[2]);                  // connected stream pair (nonblocking)
void sim_net_window(int bytes);                // send buffer size
void sim_net_cut(int fd);                      // reset connection
int  sim_net_partition(bool on);

// ---- scenario ---------------------------------------------------------------
typedef struct {
	const char* property;
	const char* name;
	void      (*epoch)(void);      // runs one epoch (process life) on thread 0
	int         epochs;            // maximum number of epochs
	uint64_t    budget;            // access budget per epoch
	int         weight;
	int         no_deadlock;       // reserved
} SimScenario;
extern SimScenario sim_scenarios[];    // terminated by property == NULL
extern const char* sim_real_parts;     // evidence: what ran real code
extern const char* sim_stub_parts;     // evidence: what was stubbed
extern const char* sim_rule;           // evidence: pruning_or_sampling detail
#ifdef __cplusplus
}
#endif
