#pragma once
// Internals shared by the simulator's own translation units (not instrumented).
#include "sim.h"
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <functional>
#include <deque>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <cerrno>
#include <pthread.h>

// choice / event kinds
enum Kind : uint8_t {
	K_WORK = 1,    // workload draw:      a = stream, b = index
	K_FAULT,       // fault decision:     a = fault,  b = index
	K_PICK,        // scheduler-free pick (cond waiter, epoll order): a = site, b = index
	K_SWITCH,      // schedule: a = tid, b = per-thread count, value = target tid + 1
	K_TIME,        // time passes: a = tid, b = count, value = ns/1000
	K_STALL,       // thread stalled: a = tid, b = count, value = us
};
struct Choice {
	uint8_t  kind;
	uint8_t  epoch;
	uint16_t a;
	uint32_t pad;
	uint64_t b;
	uint64_t v;
};

enum Status { ST_RUNNING, ST_OK, ST_CRASH, ST_VIOLATION, ST_BROKEN };

#define MAX_CHOICES (1u << 20)
#define MAX_PROBES 96
#define IMAGE_MAX (192ull << 20)
#define BOARD_MAX (64ull << 20)
#define LOG_MAX (4ull << 20)
#define STATES_MAX 4096

struct Probe { char name[48]; uint64_t count; };

struct Shared {
	// in
	uint64_t seed;
	int      replay;      // choices are taken from the list below
	int      record;      // record non-default choices
	int      logging;     // keep text log
	uint32_t in_count;
	uint32_t out_count;
	uint32_t out_overflow;
	int      epoch;
	int      last_crashed;
	int      last_kind;
	int      workers_note;
	// out
	int      status;
	char     cls[192];
	char     msg[2048];
	uint64_t hash;
	uint64_t sched_hash;
	uint64_t steps;        // instrumented accesses + sync points
	uint64_t switches;
	uint64_t sim_ns;
	uint64_t sync_points;
	uint64_t disk_ops;
	uint64_t net_bytes;
	uint64_t log_events;
	uint64_t faults[SIM_F_MAX];
	uint32_t probes_count;
	Probe    probes[MAX_PROBES];
	uint32_t states_count;
	uint64_t states[STATES_MAX];
	uint64_t image_size;
	uint64_t log_size;
	uint64_t board_used;
	// payload (same mapping)
	Choice   in[MAX_CHOICES];
	Choice   out[MAX_CHOICES];
	char     log[LOG_MAX];
	uint8_t  image[IMAGE_MAX];
	uint8_t  board[BOARD_MAX];
};
extern Shared* sh;

struct Rng {
	uint64_t s;
	uint64_t next() {
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
};
uint64_t mix(uint64_t a, uint64_t b);

enum TState { T_RUN, T_BLOCK, T_DONE };
struct SimThread {
	int       id;
	pthread_t th;
	int       go;                 // futex
	TState    state;
	uint64_t  count;              // own access/sync counter
	uint64_t  next;               // next count needing attention
	uint64_t  deadline;           // wake time (UINT64_MAX none)
	bool      timedout;
	bool      stalled;
	std::function<bool()>* pred;  // runnable predicate
	const char* why;
	void*   (*fn)(void*);
	void*     arg;
	void*     ret;
	bool      joined;
	int       prio;
	int       err_save;
	size_t    ev;                 // replay event cursor
	std::vector<Choice> events;
};
extern SimThread* cur;

// core services
void     core_child_start(SimScenario* s, int epoch);
void     sync_point(const char* what);
bool     block_until(const char* why, std::function<bool()> pred, uint64_t deadline); // false: timed out
void     finish(int status) __attribute__((noreturn));
uint64_t pick(int site, uint64_t n);      // recorded nondeterministic pick, default 0
uint64_t fault_draw(SimFault f, uint64_t n); // 0: no fault, else 1..n
void     hash_add(uint64_t v);
extern uint64_t now_ns;
extern bool     in_sim;        // sim threads are running
void     add_timed(uint64_t at, std::function<void()> fn);
uint64_t real_ns();

// io
void     io_child_start();
void     disk_crash_image(int mode_hint);
void     disk_clean_image();
void     disk_load_image();
