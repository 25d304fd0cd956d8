// Search driver: seeds, workers, gate, minimisation, replay, evidence.
#include "core.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sched.h>
#include <signal.h>
#include <unordered_set>
#include <set>
#include <algorithm>
#include <regex.h>
#include "real.h"

static const char* fault_names[SIM_F_MAX] = {
	"write_short", "read_short", "eintr", "write_enospc", "write_eio", "read_eio", "fsync_eio", "open_error",
	"metadata_eio", "corrupt_byte", "cond_spurious", "thread_stall", "time_jump", "clock_jump", "net_delay",
	"net_reset", "net_short", "net_eintr", "crash", "crash_torn_write", "crash_lost_write", "alloc_failure",
	"epoll_spurious", "cancel", "user0", "user1", "user2", "user3"
};
static const char* kind_names[] = { "", "work", "fault", "pick", "switch", "time", "stall" };

struct Result { int status; std::string cls, msg; uint64_t hash, sched_hash; };

static Shared* shared_new()
{
	void* p = mmap(NULL, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return (Shared*)p;
}

static Result run_once(SimScenario* s, uint64_t seed, bool replay, bool record, bool logging)
{
	if (sh->board_used) memset(sh->board, 0, sh->board_used);
	uint32_t in_count = sh->in_count;
	memset((void*)sh, 0, offsetof(Shared, in));
	sh->in_count = in_count;
	sh->seed = seed; sh->replay = replay; sh->record = record; sh->logging = logging;
	Result r;
	for (int e = 0; e < s->epochs; e++) {
		sh->epoch = e;
		sh->status = ST_RUNNING;
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); exit(3); }
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			struct itimerval it; memset(&it, 0, sizeof it);
			it.it_value.tv_sec = 25;
			setitimer(ITIMER_PROF, &it, NULL);
			core_child_start(s, e);
			_exit(97);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
		if (WIFSIGNALED(st)) {
			if (WTERMSIG(st) == SIGPROF) {
				sh->status = ST_VIOLATION;
				snprintf(sh->cls, sizeof sh->cls, "hang");
				snprintf(sh->msg, sizeof sh->msg, "code under test loops without end and without touching memory or synchronising");
				sh->hash = 1; sh->sched_hash = 1;
			} else {
				sh->status = ST_BROKEN;
				snprintf(sh->cls, sizeof sh->cls, "harness");
				snprintf(sh->msg, sizeof sh->msg, "simulation ended by signal %d", WTERMSIG(st));
			}
		} else if (WEXITSTATUS(st) != 0 || sh->status == ST_RUNNING) {
			sh->status = ST_BROKEN;
			char prev[512]; snprintf(prev, sizeof prev, "%s %.400s", sh->cls, sh->msg);
			snprintf(sh->msg, sizeof sh->msg, "simulation exited with %d: %s", WEXITSTATUS(st), prev);
			snprintf(sh->cls, sizeof sh->cls, "harness");
		}
		if (sh->status == ST_VIOLATION || sh->status == ST_BROKEN) break;
		sh->last_crashed = sh->status == ST_CRASH;
	}
	r.status = sh->status; r.cls = sh->cls; r.msg = sh->msg; r.hash = sh->hash; r.sched_hash = sh->sched_hash;
	return r;
}

// ------------------------------------------------------------------ workers
#define HASH_MAX (4u << 20)
struct Out {
	uint64_t runs, steps, switches, sim_ns, sync_points, disk_ops, net_bytes, log_events, interesting, epochs;
	uint64_t faults[SIM_F_MAX];
	uint64_t fault_runs[SIM_F_MAX];
	uint64_t scen_runs[64];
	uint32_t probes_count;
	Probe    probes[MAX_PROBES];
	uint64_t n_hash, n_state;
	int      found, broken;
	int      scen;
	uint64_t seed;
	char     cls[192]; char msg[2048];
	uint64_t known[64];
	int      done;
	uint64_t hash[HASH_MAX];
	uint64_t state[HASH_MAX];
};

struct Known { std::string prop, cls, match, text; uint64_t hits = 0; };
static std::vector<Known> known;
static int known_match(const char* prop, const std::string& cls, const std::string& msg)
{
	for (size_t i = 0; i < known.size(); i++) {
		if (known[i].prop != prop || known[i].cls != cls) continue;
		if (known[i].match.empty()) return i;
		regex_t re;
		if (regcomp(&re, known[i].match.c_str(), REG_EXTENDED | REG_NOSUB)) continue;
		int rc = regexec(&re, msg.c_str(), 0, NULL, 0);
		regfree(&re);
		if (rc == 0) return i;
	}
	return -1;
}
static void load_known(const char* path)
{
	// property <TAB> class <TAB> regex of the message <TAB> description
	FILE* f = path ? fopen(path, "r") : NULL;
	if (!f) return;
	char line[4096];
	while (fgets(line, sizeof line, f)) {
		line[strcspn(line, "\n")] = 0;
		if (strncmp(line, "known\t", 6)) continue;
		Known k; std::string* f4[] = { &k.prop, &k.cls, &k.match, &k.text };
		char* p = line + 6;
		for (int i = 0; i < 4 && p; i++) { char* t = strchr(p, '\t'); if (t) *t = 0; *f4[i] = p; p = t ? t + 1 : NULL; }
		known.push_back(k);
	}
	fclose(f);
}

static uint64_t seed_of(uint64_t base, uint64_t i) { uint64_t v = mix(base * 0x9E37 + 11, i + 1); return v ? v : 1; }

static std::vector<SimScenario*> scens;
static std::vector<int> wheel;

static void worker(int w, int nw, uint64_t base, uint64_t max_runs, uint64_t deadline, Out* o, int cpu)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
	sh = shared_new();
	std::unordered_set<uint64_t> hs, ss;
	for (uint64_t i = w; max_runs == 0 || i < max_runs; i += nw) {
		if (real_ns() >= deadline) break;
		uint64_t seed = seed_of(base, i);
		int si = wheel[i % wheel.size()];
		SimScenario* s = scens[si];
		Result r = run_once(s, seed, false, false, false);
		o->runs++; o->scen_runs[si]++;
		o->epochs += sh->epoch + 1;
		o->steps += sh->steps; o->switches += sh->switches; o->sim_ns += sh->sim_ns; o->sync_points += sh->sync_points;
		o->disk_ops += sh->disk_ops; o->net_bytes += sh->net_bytes; o->log_events += sh->log_events;
		bool any = sh->switches > 2;
		for (int f = 0; f < SIM_F_MAX; f++) { o->faults[f] += sh->faults[f]; if (sh->faults[f]) { o->fault_runs[f]++; any = true; } }
		for (uint32_t p = 0; p < sh->probes_count; p++) {
			uint32_t q = 0;
			for (; q < o->probes_count; q++) if (!strcmp(o->probes[q].name, sh->probes[p].name)) break;
			if (q == o->probes_count) { if (q >= MAX_PROBES) continue; o->probes[q] = sh->probes[p]; o->probes[q].count = 0; o->probes_count++; }
			o->probes[q].count++;
		}
		if (any) { o->interesting++; if (hs.insert(r.hash).second && o->n_hash < HASH_MAX) o->hash[o->n_hash++] = r.hash; }
		for (uint32_t k = 0; k < sh->states_count; k++)
			if (ss.insert(sh->states[k]).second && o->n_state < HASH_MAX) o->state[o->n_state++] = sh->states[k];
		if (r.status == ST_BROKEN) {
			o->seed = seed; o->scen = si; snprintf(o->msg, sizeof o->msg, "%s", r.msg.c_str());
			__atomic_store_n(&o->broken, 1, __ATOMIC_RELEASE);
			_exit(0);
		}
		if (r.status == ST_VIOLATION) {
			int k = known_match(s->property, r.cls, r.msg);
			if (k >= 0) { o->known[k]++; continue; }
			o->seed = seed; o->scen = si;
			snprintf(o->cls, sizeof o->cls, "%s", r.cls.c_str()); snprintf(o->msg, sizeof o->msg, "%s", r.msg.c_str());
			__atomic_store_n(&o->found, 1, __ATOMIC_RELEASE);
			_exit(0);
		}
	}
	o->done = 1;
	_exit(0);
}

// ------------------------------------------------------------------ replay files
static bool replay_write(const char* path, SimScenario* s, uint64_t seed, const Result& r, const std::vector<Choice>& c, bool seed_only, const char* log, size_t log_size)
{
	FILE* f = fopen(path, "w");
	if (!f) return false;
	fprintf(f, "simreplay 1\nproperty %s\nscenario %s\nseed %llu\nmode %s\nclass %s\nhash %016llx\n", s->property, s->name,
		(unsigned long long)seed, seed_only ? "seed" : "choices", r.cls.c_str(), (unsigned long long)r.hash);
	std::string m = r.msg; for (auto& ch : m) if (ch == '\n') ch = ' ';
	fprintf(f, "message %s\nchoices %zu\n", m.c_str(), c.size());
	for (auto& x : c)
		fprintf(f, "%s %d %d %llu %llu\n", kind_names[x.kind], x.epoch, x.a, (unsigned long long)x.b, (unsigned long long)x.v);
	fprintf(f, "end\n# history of the minimised run\n");
	size_t n = log_size > 200000 ? 200000 : log_size;
	size_t o = log_size - n;
	for (size_t i = 0; i < n;) { const char* e = (const char*)memchr(log + o + i, '\n', n - i); size_t l = e ? e - (log + o + i) : n - i; fprintf(f, "# %.*s\n", (int)l, log + o + i); i += l + 1; }
	fclose(f);
	return true;
}
static SimScenario* find_scen(const char* prop, const char* name)
{
	for (SimScenario* s = sim_scenarios; s->property; s++)
		if ((!prop || !strcmp(s->property, prop)) && !strcmp(s->name, name)) return s;
	return NULL;
}
static int do_replay(const char* path, bool quiet)
{
	FILE* f = fopen(path, "r");
	if (!f) { perror(path); return 3; }
	char line[8192], prop[64] = "", name[128] = "", mode[32] = "", cls[256] = "", msg[4096] = "";
	unsigned long long seed = 0, hash = 0; size_t n = 0;
	while (fgets(line, sizeof line, f)) {
		line[strcspn(line, "\n")] = 0;
		if (sscanf(line, "property %63s", prop) == 1) continue;
		if (sscanf(line, "scenario %127s", name) == 1) continue;
		if (sscanf(line, "seed %llu", &seed) == 1) continue;
		if (sscanf(line, "mode %31s", mode) == 1) continue;
		if (!strncmp(line, "class ", 6)) { snprintf(cls, sizeof cls, "%s", line + 6); continue; }
		if (sscanf(line, "hash %llx", &hash) == 1) continue;
		if (!strncmp(line, "message ", 8)) { snprintf(msg, sizeof msg, "%s", line + 8); continue; }
		if (sscanf(line, "choices %zu", &n) == 1) break;
	}
	SimScenario* s = find_scen(prop, name);
	if (!s) { fprintf(stderr, "unknown scenario %s/%s\n", prop, name); return 3; }
	sh->in_count = 0;
	for (size_t i = 0; i < n && fgets(line, sizeof line, f); i++) {
		char k[16]; int e, a; unsigned long long b, v;
		if (sscanf(line, "%15s %d %d %llu %llu", k, &e, &a, &b, &v) != 5) { fprintf(stderr, "bad replay line: %s\n", line); return 3; }
		Choice* c = &sh->in[sh->in_count++];
		memset(c, 0, sizeof *c);
		for (int j = 1; j <= 6; j++) if (!strcmp(kind_names[j], k)) c->kind = j;
		c->epoch = e; c->a = a; c->b = b; c->v = v;
	}
	fclose(f);
	bool choices = !strcmp(mode, "choices");
	Result r = run_once(s, seed, choices, false, !quiet);
	if (!quiet) { fwrite(sh->log, 1, sh->log_size, stdout); fflush(stdout); }
	if (r.status == ST_VIOLATION && r.cls == cls && r.hash == hash) {
		if (!quiet) printf("reproduced: %s: %s\nVIOLATION property=%s replay=%s\n", r.cls.c_str(), r.msg.c_str(), prop, path);
		return 1;
	}
	if (!quiet) printf("not reproduced: status %d class '%s' (expected '%s') hash %016llx (expected %016llx): %s\n", r.status, r.cls.c_str(), cls,
		(unsigned long long)r.hash, hash, r.msg.c_str());
	return r.status == ST_VIOLATION ? 4 : 0;
}

// ------------------------------------------------------------------ minimise
static uint64_t min_runs, min_deadline;
static bool try_choices(SimScenario* s, uint64_t seed, const std::vector<Choice>& c, const std::string& cls, std::vector<Choice>* got, Result* res)
{
	min_runs++;
	sh->in_count = c.size();
	memcpy(sh->in, c.data(), c.size() * sizeof(Choice));
	Result r = run_once(s, seed, true, true, false);
	if (r.status != ST_VIOLATION || r.cls != cls) return false;
	if (known_match(s->property, r.cls, r.msg) >= 0) return false;
	if (got) got->assign(sh->out, sh->out + sh->out_count);
	if (res) *res = r;
	return true;
}
static void minimise(SimScenario* s, uint64_t seed, std::vector<Choice>& c, const std::string& cls)
{
	std::vector<Choice> got; Result r;
	auto late = [] { return real_ns() > min_deadline; };
	auto attempt = [&](std::vector<Choice>& t) {
		if (t.size() > c.size()) return false;
		if (!try_choices(s, seed, t, cls, &got, &r)) return false;
		// keep the choices that were made, provided they lead to the same run
		std::vector<Choice> mine = got;
		if (mine.size() <= t.size() && try_choices(s, seed, mine, cls, NULL, NULL)) c = mine;
		else c = t;
		return true;
	};
	// whole kinds first
	for (int k : {K_STALL, K_TIME, K_PICK, K_FAULT, K_SWITCH, K_WORK}) {
		if (late()) return;
		std::vector<Choice> t;
		for (auto& x : c) if (x.kind != k) t.push_back(x);
		if (t.size() < c.size()) attempt(t);
	}
	size_t n = 2;
	while (c.size() > 0 && !late()) {
		size_t chunk = (c.size() + n - 1) / n;
		bool cut = false;
		for (size_t at = 0; at < c.size() && !late();) {
			std::vector<Choice> t(c.begin(), c.begin() + at);
			if (at + chunk < c.size()) t.insert(t.end(), c.begin() + at + chunk, c.end());
			if (attempt(t)) { cut = true; } else at += chunk;
		}
		if (chunk == 1) { if (!cut) break; }
		else n = std::min(n * 2, c.size() ? c.size() : 1);
	}
	// smaller values
	for (size_t i = 0; i < c.size() && !late(); i++) {
		if (c[i].kind != K_WORK && c[i].kind != K_PICK && c[i].kind != K_FAULT) continue;
		for (uint64_t v : {(uint64_t)1, c[i].v / 4, c[i].v / 2, c[i].v - 1}) {
			if (v == 0 || v >= c[i].v || late()) continue;
			std::vector<Choice> t = c; t[i].v = v;
			if (attempt(t)) break;
			if (i >= c.size()) break;
		}
	}
}

// ------------------------------------------------------------------ json
static std::string js(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

int main(int argc, char** argv)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
			setenv("SIM_NO_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	const char* prop = NULL; const char* scen_name = NULL; const char* replay = NULL; const char* evidence = NULL;
	const char* replay_dir = "."; const char* known_path = NULL; const char* tier = getenv("VERIF_TIER");
	uint64_t base = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), NULL, 10) : 1;
	double secs = 30; uint64_t max_runs = 0; int nw = 0; bool quiet = false, logrun = false; int64_t one = -1; uint64_t digest = 0; uint64_t rawseed = 0;
	double min_secs = 60;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(3); } return argv[++i]; };
		if (a == "--property") prop = nx();
		else if (a == "--scenario") scen_name = nx();
		else if (a == "--replay") replay = nx();
		else if (a == "--evidence") evidence = nx();
		else if (a == "--replay-dir") replay_dir = nx();
		else if (a == "--known") known_path = nx();
		else if (a == "--tier") tier = nx();
		else if (a == "--seed") base = strtoull(nx(), NULL, 10);
		else if (a == "--secs") secs = atof(nx());
		else if (a == "--runs") max_runs = strtoull(nx(), NULL, 10);
		else if (a == "--workers") nw = atoi(nx());
		else if (a == "--min-secs") min_secs = atof(nx());
		else if (a == "--one") one = atoll(nx());
		else if (a == "--raw") rawseed = strtoull(nx(), NULL, 10);
		else if (a == "--digest") digest = strtoull(nx(), NULL, 10);
		else if (a == "--log") logrun = true;
		else if (a == "--quiet") quiet = true;
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
	}
	if (!tier) tier = "quick";
	load_known(known_path);
	for (SimScenario* s = sim_scenarios; s->property; s++) {
		if (prop && strcmp(s->property, prop)) continue;
		if (scen_name && strcmp(s->name, scen_name)) continue;
		scens.push_back(s);
		for (int i = 0; i < (s->weight ? s->weight : 1); i++) wheel.push_back(scens.size() - 1);
	}
	if (replay) { sh = shared_new(); return do_replay(replay, quiet); }
	if (scens.empty()) { fprintf(stderr, "no scenario\n"); return 3; }
	// spread scenarios over consecutive seeds
	{ std::vector<int> w2; Rng r{5}; while (!wheel.empty()) { size_t k = r.below(wheel.size()); w2.push_back(wheel[k]); wheel.erase(wheel.begin() + k); } wheel = w2; }

	cpu_set_t allowed; CPU_ZERO(&allowed);
	std::vector<int> cpus;
	if (sched_getaffinity(0, sizeof allowed, &allowed) == 0)
		for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &allowed)) cpus.push_back(i);

	if (one >= 0 || rawseed) {
		sh = shared_new();
		if (!cpus.empty()) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpus[0], &s); sched_setaffinity(0, sizeof s, &s); }
		SimScenario* s = rawseed ? scens[0] : scens[wheel[one % wheel.size()]];
		uint64_t seed = rawseed ? rawseed : seed_of(base, one);
		Result r = run_once(s, seed, false, true, true);
		if (logrun) fwrite(sh->log, 1, sh->log_size, stdout);
		printf("%s seed %llu status %d class '%s' %s\nhash %016llx steps %llu switches %llu sync %llu sim %.3f ms choices %u disk %llu\n", s->name, (unsigned long long)seed, r.status,
			r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash, (unsigned long long)sh->steps, (unsigned long long)sh->switches, (unsigned long long)sh->sync_points, sh->sim_ns / 1e6, sh->out_count, (unsigned long long)sh->disk_ops);
		for (uint32_t p = 0; p < sh->probes_count; p++) printf("probe %s %llu\n", sh->probes[p].name, (unsigned long long)sh->probes[p].count);
		for (int f = 0; f < SIM_F_MAX; f++) if (sh->faults[f]) printf("fault %s %llu\n", fault_names[f], (unsigned long long)sh->faults[f]);
		// generation and replay must agree
		if (!sh->out_overflow) {
			std::vector<Choice> c(sh->out, sh->out + sh->out_count);
			sh->in_count = c.size(); memcpy(sh->in, c.data(), c.size() * sizeof(Choice));
			Result q = run_once(s, seed, true, false, false);
			printf("replay hash %016llx %s\n", (unsigned long long)q.hash, q.hash == r.hash ? "same" : "DIFFERENT");
		}
		return r.status == ST_VIOLATION;
	}
	if (digest) {
		sh = shared_new();
		for (uint64_t i = 0; i < digest; i++) {
			SimScenario* s = scens[wheel[i % wheel.size()]];
			Result r = run_once(s, seed_of(base, i), false, true, false);
			uint64_t h = r.hash, st = sh->steps; int over = sh->out_overflow; uint32_t cnt = sh->out_count;
			uint64_t h2 = 0;
			if (!over) {
				memcpy(sh->in, sh->out, cnt * sizeof(Choice)); sh->in_count = cnt;
				h2 = run_once(s, seed_of(base, i), true, false, false).hash;
			}
			printf("%s %llu %d %016llx %llu %s\n", s->name, (unsigned long long)i, r.status, (unsigned long long)h, (unsigned long long)st, over ? "long" : h == h2 ? "replay-same" : "replay-DIFFERENT");
		}
		return 0;
	}

	uint64_t t0 = real_ns();
	if (nw <= 0) nw = cpus.empty() ? 4 : cpus.size();
	std::vector<Out*> outs; std::vector<pid_t> pids;
	uint64_t deadline = t0 + (uint64_t)(secs * 1e9);
	for (int w = 0; w < nw; w++) {
		Out* o = (Out*)mmap(NULL, sizeof(Out), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		outs.push_back(o);
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) worker(w, nw, base, max_runs, deadline, o, cpus.empty() ? -1 : cpus[w % cpus.size()]);
		pids.push_back(p);
	}
	int found = -1, broken = -1; int alive = nw;
	std::vector<bool> dead(nw);
	while (alive > 0 && found < 0) {
		usleep(20000);
		for (int w = 0; w < nw; w++) {
			if (dead[w]) continue;
			int st;
			if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
				dead[w] = true; alive--;
				if (outs[w]->found) { if (found < 0) found = w; }
				else if (outs[w]->broken || !outs[w]->done) { broken = w; if (!outs[w]->broken) snprintf(outs[w]->msg, sizeof outs[w]->msg, "worker ended unexpectedly (status %d)", st); }
			}
		}
	}
	for (int w = 0; w < nw; w++) if (!dead[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], NULL, 0); }
	double search_s = (real_ns() - t0) / 1e9;

	// aggregate
	Out* T = outs[0];
	static Out* A; A = (Out*)mmap(NULL, sizeof(Out), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	(void)T;
	std::unordered_set<uint64_t> hs, ss;
	std::map<std::string, uint64_t> probes;
	for (Out* o : outs) {
		A->runs += o->runs; A->steps += o->steps; A->switches += o->switches; A->sim_ns += o->sim_ns; A->sync_points += o->sync_points;
		A->disk_ops += o->disk_ops; A->net_bytes += o->net_bytes; A->log_events += o->log_events; A->interesting += o->interesting; A->epochs += o->epochs;
		for (int f = 0; f < SIM_F_MAX; f++) { A->faults[f] += o->faults[f]; A->fault_runs[f] += o->fault_runs[f]; }
		for (int f = 0; f < 64; f++) { A->scen_runs[f] += o->scen_runs[f]; A->known[f] += o->known[f]; }
		for (uint32_t p = 0; p < o->probes_count; p++) probes[o->probes[p].name] += o->probes[p].count;
		hs.insert(o->hash, o->hash + o->n_hash); ss.insert(o->state, o->state + o->n_state);
	}
	sh = shared_new();
	if (!cpus.empty()) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpus[0], &s); sched_setaffinity(0, sizeof s, &s); }
	int rc = 0; std::string replay_path; Result fin; size_t min_from = 0, min_to = 0;
	bool fatal = false;
	if (found >= 0) {
		SimScenario* s = scens[outs[found]->scen]; uint64_t seed = outs[found]->seed;
		Result a = run_once(s, seed, false, true, false);
		std::vector<Choice> c(sh->out, sh->out + sh->out_count); bool over = sh->out_overflow;
		Result b = run_once(s, seed, false, true, false);
		if (a.status != ST_VIOLATION || a.hash != b.hash || a.cls != outs[found]->cls || b.cls != a.cls) {
			printf("ERROR: violation of seed %llu (%s: %s) does not reproduce (%d %s %016llx / %d %s %016llx)\n", (unsigned long long)seed, outs[found]->cls, outs[found]->msg,
				a.status, a.cls.c_str(), (unsigned long long)a.hash, b.status, b.cls.c_str(), (unsigned long long)b.hash);
			rc = 2; fatal = true;
		} else {
			Result r;
			min_from = c.size();
			// the minimised choices, else all of them, else the seed alone: the first form that reproduces in a fresh process
			std::vector<Choice> full = c, small;
			if (!over && try_choices(s, seed, c, a.cls, NULL, &r)) {
				min_deadline = real_ns() + (uint64_t)(min_secs * 1e9);
				small = c;
				minimise(s, seed, small, a.cls);
			} else over = true;
			char path[1024];
			snprintf(path, sizeof path, "%s/%s-%s-%016llx.replay", replay_dir, s->property, s->name, (unsigned long long)seed);
			int st = 0;
			for (int form = over ? 2 : 0; form < 3 && !rc; form++) {
				bool seed_only = form == 2;
				c = form == 0 ? small : form == 1 ? full : std::vector<Choice>();
				min_to = c.size();
				sh->in_count = c.size();
				if (!c.empty()) memcpy(sh->in, c.data(), c.size() * sizeof(Choice));
				fin = run_once(s, seed, !seed_only, false, true);
				if (fin.status != ST_VIOLATION || fin.cls != a.cls) { st = -1; continue; }
				if (!replay_write(path, s, seed, fin, c, seed_only, sh->log, sh->log_size)) { printf("ERROR: cannot write %s\n", path); rc = 2; fatal = true; break; }
				char* args[] = { argv[0], (char*)"--replay", path, (char*)"--quiet", NULL };
				fflush(stdout);
				pid_t p = fork();
				if (p == 0) { unsetenv("SIM_NO_REEXEC"); execv("/proc/self/exe", args); _exit(9); }
				waitpid(p, &st, 0);
				if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) continue;
				printf("class: %s\nwhat: %s\nseed: %llu scenario: %s\nchoices: %zu recorded, %zu after minimisation (%llu runs)%s\n", fin.cls.c_str(), fin.msg.c_str(), (unsigned long long)seed, s->name,
					min_from, min_to, (unsigned long long)min_runs, seed_only ? " (replayed by seed)" : "");
				printf("VIOLATION property=%s replay=%s\n", s->property, path);
				rc = 1; replay_path = path;
			}
			if (!rc) { printf("ERROR: replay of %s in a fresh process does not reproduce (%d)\n", path, st); rc = 2; fatal = true; }
		}
	} else if (broken >= 0) {
		printf("ERROR: scenario %s seed %llu: %s\n", scens[outs[broken]->scen]->name, (unsigned long long)outs[broken]->seed, outs[broken]->msg);
		rc = 2; fatal = true;
	}
	for (size_t k = 0; k < known.size(); k++)
		if (!prop || known[k].prop == prop)
			printf("KNOWN-FINDING: property=%s %s (met in %llu runs)\n", known[k].prop.c_str(), known[k].text.c_str(), (unsigned long long)A->known[k]);

	// evidence
	std::string samples;
	for (size_t k = 0; k < scens.size() && k < 3 && !fatal; k++) {
		uint64_t i = 0; while (wheel[i % wheel.size()] != (int)k) i++;
		Result r = run_once(scens[k], seed_of(base, i), false, false, true);
		std::string t = "scenario " + std::string(scens[k]->name) + " seed " + std::to_string(seed_of(base, i)) + " outcome " + (r.status == ST_OK || r.status == ST_CRASH ? "held" : r.cls) +
			" steps " + std::to_string(sh->steps) + " switches " + std::to_string(sh->switches) + " history: ";
		t += std::string(sh->log, std::min<size_t>(sh->log_size, 1500));
		samples += (samples.empty() ? "" : ",") + js(t);
	}
	if (samples.empty()) samples = js("no sample: the run ended early");
	double wall = (real_ns() - t0) / 1e9;
	if (evidence) {
		FILE* f = fopen(evidence, "w");
		if (!f) { perror(evidence); return 2; }
		fprintf(f, "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", js(prop ? prop : scens[0]->property).c_str(), js(tier).c_str(), (unsigned long long)base);
		fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n", (unsigned long long)A->runs, hs.size());
		fprintf(f, "  \"rule\": %s,\n", js(std::string("one evaluation is one complete simulated execution decided by one seed (workload, schedule, faults). Non-trivial: at least three thread switches or one injected fault happened; distinct: the hash over the executed switches (thread and position), fired faults, workload draws and the recorded history differs. ") + sim_rule).c_str());
		fprintf(f, "  \"samples\": [%s],\n", samples.c_str());
		fprintf(f, "  \"simulated_runs\": %llu,\n  \"seeds_per_hour\": %.0f,\n  \"process_lives\": %llu,\n  \"simulated_time_s\": %.3f,\n", (unsigned long long)A->runs, search_s > 0 ? A->runs * 3600.0 / search_s : 0, (unsigned long long)A->epochs, A->sim_ns / 1e9);
		fprintf(f, "  \"workers\": %d,\n  \"instrumented_steps\": %llu,\n  \"thread_switches\": %llu,\n  \"sync_points\": %llu,\n  \"disk_operations\": %llu,\n  \"network_bytes\": %llu,\n  \"history_events\": %llu,\n", nw, (unsigned long long)A->steps, (unsigned long long)A->switches, (unsigned long long)A->sync_points, (unsigned long long)A->disk_ops, (unsigned long long)A->net_bytes, (unsigned long long)A->log_events);
		fprintf(f, "  \"distinct_states\": %zu,\n  \"distinct_states_measure\": \"distinct values of the abstract state hash reported by the scenarios\",\n", ss.size());
		fprintf(f, "  \"scenarios\": {"); for (size_t k = 0; k < scens.size(); k++) fprintf(f, "%s%s: %llu", k ? ", " : "", js(scens[k]->name).c_str(), (unsigned long long)A->scen_runs[k]); fprintf(f, "},\n");
		fprintf(f, "  \"faults_injected\": {"); bool first = true; for (int k = 0; k < SIM_F_MAX; k++) if (A->faults[k]) { fprintf(f, "%s%s: {\"times\": %llu, \"runs\": %llu}", first ? "" : ", ", js(fault_names[k]).c_str(), (unsigned long long)A->faults[k], (unsigned long long)A->fault_runs[k]); first = false; } fprintf(f, "},\n");
		fprintf(f, "  \"probes_runs\": {"); first = true; for (auto& p : probes) { fprintf(f, "%s%s: %llu", first ? "" : ", ", js(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(f, "},\n");
		fprintf(f, "  \"known_findings_met\": {"); first = true; for (size_t k = 0; k < known.size(); k++) if (!prop || known[k].prop == prop) { fprintf(f, "%s%s: %llu", first ? "" : ", ", js(known[k].text).c_str(), (unsigned long long)A->known[k]); first = false; } fprintf(f, "},\n");
		fprintf(f, "  \"real_code\": %s,\n  \"stubs\": %s,\n", js(sim_real_parts).c_str(), js(sim_stub_parts).c_str());
		fprintf(f, "  \"replay\": %s,\n  \"minimised_choices\": %zu\n },\n", js(replay_path).c_str(), min_to);
		fprintf(f, " \"assumptions\": [\"sequentially consistent interleavings at the granularity of instrumented memory accesses (weak memory reordering is not simulated)\", \"the disk keeps what a successful fsync covered; directory operations are journaled in order\", \"a clean batch samples schedules and faults, it does not enumerate them\"],\n");
		fprintf(f, " \"wall_s\": %.3f,\n \"violations\": %d\n}\n", wall, rc == 1 ? 1 : 0);
		fclose(f);
	}
	printf("%s: %llu runs in %.1f s, %zu distinct, %zu states, %.1f s simulated; exit %d\n", prop ? prop : "all", (unsigned long long)A->runs, search_s, hs.size(), ss.size(), A->sim_ns / 1e9, rc);
	return rc;
}
