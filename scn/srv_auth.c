// Settings, users and their tokens: persistence of config.json and state.json,
// counters of the state, authentication.
#include "common.h"
#include <amelie_user.h>
#include <amelie_auth.h>
#include <openssl/hmac.h>
#include <openssl/evp.h>

#define USERS 5

typedef struct { int used; char name[48]; char secret[80]; } SUser;
typedef struct
{
	SUser   user[USERS];
	int     repl;
	char    primary[80];
	int     replicas;
	int64_t replica[3];
} SState;

typedef struct
{
	int    boot;
	SState cur;
	SState alt[8];    // changes that failed or were interrupted
	int    alts;
	bool   attempt;   // alt[alts-1] is in progress
	int    config_size;
	char   config[6000];
} SBoard;
static SBoard* sb;
static UserMgr* um;
static RuntimeIf rt_if;

static void
save_state(void* arg)
{
	unused(arg);
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/state.json", state_directory());
	state_save(state(), path);
}

// a string of valid UTF-8 with anything in it
static void
text_make(int st, char* out, int max)
{
	static const char* part[] = { "a", "b", "Z", "0", "_", "\"", "\\", "'", "\t", "\n", "\r", "\b", "\f", "\x01", "\x1b", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "/", "{", "}", ":", ",", " ", "\\n", "%s", "\\u0041", "]", "\v", "\a" };
	int n = 1 + sim_choose(st, 8);
	bool plain = sim_choose(st, 2) == 0;
	out[0] = 0;
	for (int i = 0; i < n; i++)
	{
		auto p = part[sim_choose(st, plain ? 5 : (int)(sizeof(part) / sizeof(*part)))];
		if ((int)(strlen(out) + strlen(p)) >= max)
			break;
		strcat(out, p);
	}
}

static void
name_make(int st, char* out)
{
	// few names, so that they are reused
	static const char* names[] = { "u", "U", "admin", "a\"b", "x\\", "n\xc3\xa9", "t\tb" };
	snprintf(out, 48, "%s", names[sim_choose(st, 7)]);
}

// ---- model against the real state ---------------------------------------------

static int
state_find(SState* s, const char* name)
{
	for (int i = 0; i < USERS; i++)
		if (s->user[i].used && ! strcmp(s->user[i].name, name))
			return i;
	return -1;
}

static bool
str_same(Str* str, const char* with)
{
	return str_size(str) == (int)strlen(with) && (str_empty(str) || ! memcmp(str_of(str), with, strlen(with)));
}

// returns NULL if the memory state equals s
static const char*
state_differs(SState* s)
{
	static char why[300];
	int count = 0, expect = 0;
	for (int i = 0; i < USERS; i++)
		expect += s->user[i].used;
	auto list = user_mgr_list(um, NULL, FSECRETS);
	defer_buf(list);
	uint8_t* pos = list->start;
	json_read_array(&pos);
	while (! json_read_array_end(&pos))
	{
		Str name, secret;
		str_init(&name);
		str_init(&secret);
		Decode obj[] =
		{
			{ DECODE_STRING_READ, "name",   &name   },
			{ DECODE_STRING_READ, "secret", &secret },
			{ 0,                  NULL,     NULL    },
		};
		decode_obj(obj, "user", &pos);
		char n[64];
		snprintf(n, sizeof(n), "%.*s", str_size(&name), str_of(&name));
		int at = state_find(s, n);
		count++;
		if (at == -1)
		{
			snprintf(why, sizeof(why), "user '%s' should not exist", n);
			return why;
		}
		if (! str_same(&secret, s->user[at].secret))
		{
			snprintf(why, sizeof(why), "user '%s' has secret '%.*s' instead of '%s'", n, str_size(&secret), str_of(&secret), s->user[at].secret);
			return why;
		}
	}
	if (count != expect)
	{
		snprintf(why, sizeof(why), "%d users instead of %d", count, expect);
		return why;
	}
	if ((int)opt_int_of(&state()->repl) != s->repl)
		return "repl differs";
	if (! str_same(opt_string_of(&state()->repl_primary), s->primary))
		return "repl_primary differs";
	auto rep = &state()->replicas;
	int n = 0;
	if (! opt_json_empty(rep) && ! json_is_null(opt_json_of(rep)))
	{
		pos = opt_json_of(rep);
		json_read_array(&pos);
		while (! json_read_array_end(&pos))
		{
			int64_t value;
			json_read_integer(&pos, &value);
			if (n >= s->replicas || value != s->replica[n])
				return "replicas differ";
			n++;
		}
	}
	if (n != s->replicas)
		return "number of replicas differs";
	return NULL;
}

static void
memory_reset(void)
{
	// what a new process starts with
	state_free(state());
	state_init(state());
	state_prepare(state());
	config_free(config());
	config_init(config());
	config_prepare(config());
	user_mgr_free(um);
	memset(um, 0, sizeof(*um));
	user_mgr_init(um);
	opt_string_set_cstr(&state()->directory, "/sim/db");
}

static void
config_random(void)
{
	// as on the first start: options of the command line, then defaults
	static char json[2048];
	int n = sim_choose(0, 5);
	for (int i = 0; i < n; i++)
	{
		char text[80], esc[300], arg[400];
		char* argv[1] = { arg };
		text_make(0, text, 60);
		switch (sim_choose(0, 6)) {
		case 0: snprintf(arg, sizeof(arg), "--tls_cert=%s", text); break;
		case 1: snprintf(arg, sizeof(arg), "--wal_size=%d", (int)sim_choose(0, 1000000000)); break;
		case 2: snprintf(arg, sizeof(arg), "--wal_sync_on_write=%s", sim_choose(0, 2) ? "true" : "false"); break;
		case 3: snprintf(arg, sizeof(arg), "--listen=[{\"host\": \"*\", \"port\": %d, \"x\": [1, [], {}, null, true, -5]}]", (int)sim_choose(0, 70000)); break;
		case 4:
		{
			Buf buf;
			buf_init(&buf);
			Str str;
			str_set_cstr(&str, text);
			escape_str(&buf, &str);
			snprintf(esc, sizeof(esc), "%.*s", buf_size(&buf), (char*)buf.start);
			buf_free(&buf);
			if (strchr(text, '\a') || strchr(text, '\v'))
				esc[0] = 0;
			snprintf(json, sizeof(json), "--json={\"tls_key\": \"%s\", \"limit_write\": %lld, \"cpu_affinity\": false}", esc, (long long)sim_choose(0, 1ull << 40) - (1ll << 39));
			argv[0] = json;
			break;
		}
		case 5: snprintf(arg, sizeof(arg), "--cpu_affinity"); break;
		}
		opts_set_argv(&config()->opts, 1, argv);
	}
	opt_string_set_cstr(&config()->uuid, "5ee3b5f5-0000-4000-8000-000000000001");
	opt_string_set_cstr(&config()->timezone, "UTC");
}

static bool
config_same(void)
{
	auto buf = opts_list_persistent(&config()->opts);
	defer_buf(buf);
	return buf_size(buf) == sb->config_size && ! memcmp(buf->start, sb->config, sb->config_size);
}

static void
life_open(void)
{
	if (sb->boot == 0)
	{
		sim_faults(false);
		config_random();
		config_save(config(), "/sim/db/config.json");
		auto buf = opts_list_persistent(&config()->opts);
		if (buf_size(buf) > (int)sizeof(sb->config))
			sim_broken("config size");
		memcpy(sb->config, buf->start, buf_size(buf));
		sb->config_size = buf_size(buf);
		buf_free(buf);
		save_state(NULL);
		sb->boot = 1;
		user_mgr_open(um);
		sim_faults(true);
		return;
	}
	bool faulty = sim_choose(0, 4) == 3;
	for (int i = 0;; i++)
	{
		sim_faults(faulty && i == 0);
		uint64_t seen = sim_fault_seen(SIM_F_OPEN_EIO) + sim_fault_seen(SIM_F_READ_EIO) + sim_fault_seen(SIM_F_META_EIO) + sim_fault_seen(SIM_F_WRITE_EIO) + sim_fault_seen(SIM_F_FSYNC_EIO) + sim_fault_seen(SIM_F_WRITE_ENOSPC);
		auto on_error = error_catch
		(
			config_open(config(), "/sim/db/config.json");
			state_open(state(), "/sim/db/state.json");
			user_mgr_open(um);
		);
		if (! on_error)
			break;
		uint64_t now = sim_fault_seen(SIM_F_OPEN_EIO) + sim_fault_seen(SIM_F_READ_EIO) + sim_fault_seen(SIM_F_META_EIO) + sim_fault_seen(SIM_F_WRITE_EIO) + sim_fault_seen(SIM_F_FSYNC_EIO) + sim_fault_seen(SIM_F_WRITE_ENOSPC);
		sim_check(now != seen, "state-start", "start failed: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		sim_probe("start failed by a disk error");
		memory_reset();
	}
	sim_faults(true);
	sim_check(config_same(), "state-config", "options differ from the ones saved on the first start");
}

static void
life_check(void)
{
	// which state was found
	bool power = sim_last_crashed() && sim_crash_kind() != 1;
	auto why = state_differs(&sb->cur);
	if (! why)
	{
		sim_probe("last acknowledged state found");
	} else
	{
		char first[300];
		snprintf(first, sizeof(first), "%s", why);
		int at = -1;
		for (int i = sb->alts - 1; i >= 0 && at == -1; i--)
			if (! state_differs(&sb->alt[i]))
				at = i;
		if (at != -1)
		{
			sim_probe("interrupted change found");
			// it may still be undone by a power failure
			SState old = sb->cur;
			sb->cur     = sb->alt[at];
			sb->alt[at] = old;
		} else
			sim_fail("state-lost", "after restart (%s): %s", power ? "power failure" : sim_last_crashed() ? "process kill" : "shutdown", first);
	}
	sim_state(scn_hash(sb->alts, scn_hash(power, sb->cur.repl)));
}

// ---- operations -----------------------------------------------------------------

static SState next_state;

static UserConfig*
user_config_make(const char* name, const char* secret)
{
	auto config = user_config_allocate();
	Str str;
	str_set_cstr(&str, name);
	user_config_set_name(config, &str);
	if (secret && *secret)
	{
		str_set_cstr(&str, secret);
		user_config_set_secret(config, &str);
	}
	return config;
}

// returns true if the operation is accepted; next_state is the model after it
static bool
user_op(int st, void (*before)(void))
{
	char name[48], secret[80];
	name_make(st, name);
	text_make(st, secret, 70);
	if (sim_choose(st, 8) == 7)
		secret[0] = 0;
	auto s = &next_state;
	int at = state_find(s, name);
	int free_slot = -1;
	for (int i = USERS - 1; i >= 0; i--)
		if (! s->user[i].used)
			free_slot = i;
	bool flag = sim_choose(st, 2);
	bool accepted = true;
	int op = sim_choose(st, 3);
	if (op == 0 && free_slot == -1)
		op = 1;
	if (op == 0)
	{
		if (at != -1)
			accepted = flag;
		else
		{
			s->user[free_slot].used = true;
			strcpy(s->user[free_slot].name, name);
			strcpy(s->user[free_slot].secret, secret);
		}
		sim_log("create user %s secret %s%s", name, secret, flag ? " if not exists" : "");
	} else
	if (op == 1)
	{
		if (at == -1)
			accepted = flag;
		else
			s->user[at].used = false;
		sim_log("drop user %s%s", name, flag ? " if exists" : "");
	} else
	{
		if (at == -1)
			accepted = false;
		else
			strcpy(s->user[at].secret, secret);
		sim_log("alter user %s secret %s", name, secret);
	}
	before();
	auto config = user_config_make(name, secret);
	defer(user_config_free, config);
	switch (op) {
	case 0: user_mgr_create(um, config, flag); break;
	case 1: user_mgr_drop(um, &config->name, flag); break;
	case 2: user_mgr_alter(um, config); break;
	}
	sim_check(accepted, "user-accepted", "statement on user '%s' should have failed", name);
	return true;
}


static bool op_changes;

static void
op_before(void)
{
	op_changes = memcmp(&next_state, &sb->cur, sizeof(SState)) != 0;
	if (! op_changes)
		return;
	if (sb->alts == 8)
	{
		memmove(&sb->alt[0], &sb->alt[1], sizeof(SState) * 7);
		sb->alts--;
	}
	sb->alt[sb->alts++] = next_state;
}

static void
op_ack(void)
{
	if (! op_changes)
		return;
	sb->cur  = next_state;
	sb->alts = 0;
}

static void
repl_set(SState* s)
{
	opt_int_set(&state()->repl, s->repl);
	opt_string_set_cstr(&state()->repl_primary, s->primary);
	auto buf = buf_create();
	defer_buf(buf);
	encode_array(buf);
	for (int i = 0; i < s->replicas; i++)
		encode_integer(buf, s->replica[i]);
	encode_array_end(buf);
	opt_json_set_buf(&state()->replicas, buf);
}

static void
repl_op(int st)
{
	auto s = &next_state;
	s->repl = sim_choose(st, 2);
	text_make(st, s->primary, 70);
	s->replicas = sim_choose(st, 4);
	for (int i = 0; i < s->replicas; i++)
	{
		static int64_t value[] = { 0, 1, 31, 32, 127, 128, 40000, -1, -1000, 5000000000ll, -5000000000ll };
		s->replica[i] = value[sim_choose(st, 11)];
	}
	sim_log("replication settings");
	op_before();
	repl_set(s);
	auto on_error = error_catch( control_save_state() );
	if (on_error)
	{
		repl_set(&sb->cur);
		rethrow();
	}
}

static uint64_t
faults_seen(void)
{
	return sim_fault_seen(SIM_F_OPEN_EIO) + sim_fault_seen(SIM_F_READ_EIO) + sim_fault_seen(SIM_F_META_EIO) + sim_fault_seen(SIM_F_WRITE_EIO) + sim_fault_seen(SIM_F_FSYNC_EIO) + sim_fault_seen(SIM_F_WRITE_ENOSPC);
}

static void
life(int st)
{
	int ops = sim_range(st, 1, 8);
	for (int i = 0; i < ops; i++)
	{
		next_state = sb->cur;
		op_changes = false;
		uint64_t seen = faults_seen();
		auto on_error = error_catch
		(
			if (sim_choose(st, 4) == 3)
				repl_op(st);
			else
				user_op(st, op_before);
		);
		if (! on_error)
		{
			op_ack();
		} else
		if (faults_seen() != seen && op_changes)
		{
			sim_probe("change failed by a disk error");
		} else
		{
			// refused
			sim_check(! op_changes, "user-refused", "valid statement failed: %.*s", buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		}
		auto why = state_differs(&sb->cur);
		if (why)
			sim_fail("state-memory", "after a statement that %s: %s", on_error ? "failed" : "was acknowledged", why);
		// secrets are listed on request only
		auto list = user_mgr_list(um, NULL, 0);
		uint8_t* pos = list->start;
		json_read_array(&pos);
		while (! json_read_array_end(&pos))
		{
			json_read_obj(&pos);
			while (! json_read_obj_end(&pos))
			{
				Str key;
				json_read_string(&pos, &key);
				sim_check(str_is_cstr(&key, "name"), "user-secret", "list of users has '%.*s'", str_size(&key), str_of(&key));
				json_skip(&pos);
			}
		}
		buf_free(list);
	}
}

static void
life_main(void* arg)
{
	unused(arg);
	UserMgr mgr;
	um = &mgr;
	memset(um, 0, sizeof(*um));
	user_mgr_init(um);
	rt_if.save_state = save_state;
	rt_if.arg        = NULL;
	runtime()->iface = &rt_if;
	opt_string_set_cstr(&state()->directory, "/sim/db");

	// faults of this life
	static SimFault kinds[] = { SIM_F_OPEN_EIO, SIM_F_READ_EIO, SIM_F_META_EIO, SIM_F_WRITE_EIO, SIM_F_FSYNC_EIO, SIM_F_WRITE_ENOSPC, SIM_F_WRITE_SHORT, SIM_F_READ_SHORT, SIM_F_EINTR };
	for (int i = 0; i < 9; i++)
		sim_fault_rate(kinds[i], sim_choose(0, 3) == 2 ? 700 : 0);
	bool crash = sim_choose(0, 4) != 3;
	life_open();
	life_check();
	if (crash)
		sim_crash_plan(40);
	life(1 + sim_epoch());
	sim_crash_plan_off();
	sim_faults(false);
	if (sim_epoch() < 3 && sim_choose(0, 3) == 2)
		sim_crash();
	user_mgr_free(um);
	runtime()->iface = NULL;
}

static void
epoch_state(void)
{
	sb = sim_board(sizeof(SBoard));
	if (sim_epoch() == 0)
		sim_disk_mkdir("/sim/db");
	scn_run(life_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

// ---- counters ---------------------------------------------------------------------

typedef struct { Task task; int id; } CTask;
static uint8_t  given[4096];

static void
counter_task(void* arg)
{
	CTask* self = arg;
	int st = 10 + self->id;
	int ops = sim_range(st, 1, 12);
	uint64_t last = 0;   // lower bound of what this task may see
	for (int i = 0; i < ops; i++)
	{
		switch (sim_choose(st, 4)) {
		case 0:
		case 1:
		{
			auto value = state_psn_next();
			sim_check(value > last, "counter-back", "task %d got %d after it had seen %d", self->id, (int)value, (int)last);
			if (value < 4096)
				sim_check(! __atomic_exchange_n(&given[value], 1, __ATOMIC_SEQ_CST), "counter-twice", "the value %d was given twice", (int)value);
			last = value;
			break;
		}
		case 2:
		{
			uint64_t value = last + sim_choose(st, 12);
			state_psn_follow(value);
			if (value > last)
				last = value;
			auto now = state_psn();
			sim_check(now >= last, "counter-follow", "counter is %d after it was told to follow %d", (int)now, (int)last);
			break;
		}
		case 3:
		{
			auto value = state_psn();
			sim_check(value >= last, "counter-back", "task %d sees %d after %d", self->id, (int)value, (int)last);
			last = value;
			break;
		}
		}
		if (sim_choose(st, 4) == 0)
			coroutine_sleep(0);
	}
}

static void
counter_main(void* arg)
{
	unused(arg);
	int n = sim_range(0, 2, 4);
	CTask* t = am_malloc(sizeof(CTask) * n);
	for (int i = 0; i < n; i++)
	{
		t[i].id = i;
		task_init(&t[i].task);
	}
	for (int i = 0; i < n; i++)
		scn_task(&t[i].task, "counter", counter_task, &t[i]);
	for (int i = 0; i < n; i++)
		task_wait(&t[i].task);
	for (int i = 0; i < n; i++)
		task_free(&t[i].task);
	am_free(t);
}

static void
epoch_counter(void)
{
	memset(given, 0, sizeof(given));
	scn_run(counter_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks are still allocated after shutdown", sim_mem_blocks());
}

// ---- authentication -----------------------------------------------------------------

#define TOKENS 12

typedef struct
{
	int     used;       // published with release
	int     good;       // well formed and signed
	char    name[48];
	char    secret[80];
	int64_t exp;        // s
	char    text[700];
} Token;
static Token  tokens[TOKENS];
static SState au;           // users of the manager
static int    front_count;

typedef struct { Task task; int id; bool stop; Auth* auth; SState users; int synced; int accepted; } Front;
static Front* fronts;

static void no_save(void* arg) { unused(arg); }

static void
token_sign(Token* t, const char* header, const char* payload, const char* secret)
{
	Buf buf;
	buf_init(&buf);
	Str str;
	str_set_cstr(&str, header);
	base64url_encode(&buf, &str);
	buf_write(&buf, ".", 1);
	str_set_cstr(&str, payload);
	base64url_encode(&buf, &str);
	uint8_t digest[32];
	HMAC(EVP_sha256(), secret, strlen(secret), buf.start, buf_size(&buf), digest, NULL);
	buf_write(&buf, ".", 1);
	str_set_u8(&str, digest, 32);
	base64url_encode(&buf, &str);
	snprintf(t->text, sizeof(t->text), "Bearer %.*s", buf_size(&buf), (char*)buf.start);
	buf_free(&buf);
}

static void
token_make(int st, int slot)
{
	// a token for a user that exists, or not
	Token* t = &tokens[slot];
	if (t->used)
		return;
	int u = sim_choose(st, USERS);
	if (! au.user[u].used)
		name_make(st, t->name);
	else
		strcpy(t->name, au.user[u].name);
	if (au.user[u].used)
		strcpy(t->secret, au.user[u].secret);
	else
		text_make(st, t->secret, 70);
	int64_t now = time_ms() / 1000;
	t->exp = now + sim_choose(st, 5);
	t->good = true;
	int kind = sim_choose(st, 10);
	if (kind < 6 && t->secret[0])
	{
		// issued by the server
		Str name, secret;
		str_set_cstr(&name, t->name);
		str_set_cstr(&secret, t->secret);
		Timestamp ts;
		timestamp_init(&ts);
		timestamp_set_unixtime(&ts, t->exp * 1000000);
		auto jwt = jwt_create(&name, &secret, &ts);
		snprintf(t->text, sizeof(t->text), "Bearer %.*s", buf_size(jwt), (char*)jwt->start);
		buf_free(jwt);
		if (t->exp <= now)
			t->good = t->exp == now ? t->good : false;
	} else
	{
		// made elsewhere, with the right secret
		char payload[400], esc[300];
		Buf buf;
		buf_init(&buf);
		Str str;
		str_set_cstr(&str, t->name);
		escape_str(&buf, &str);
		snprintf(esc, sizeof(esc), "%.*s", buf_size(&buf), (char*)buf.start);
		buf_free(&buf);
		const char* header = "{\"alg\":\"HS256\",\"typ\":\"JWT\"}";
		int64_t iat = now;
		t->exp += 2;
		snprintf(payload, sizeof(payload), "{\"sub\":\"%s\",\"iat\":%lld,\"exp\":%lld}", esc, (long long)iat, (long long)t->exp);
		switch (kind) {
		case 6:
			switch (sim_choose(st, 4)) {
			case 0: header = "{\"alg\":\"none\",\"typ\":\"JWT\"}"; break;
			case 1: header = "{\"alg\":\"HS512\",\"typ\":\"JWT\"}"; break;
			case 2: header = "{\"alg\":\"HS256\",\"typ\":\"JWS\"}"; break;
			case 3: header = "{\"alg\":\"HS256\""; break;
			}
			t->good = false;
			break;
		case 7:
			switch (sim_choose(st, 4)) {
			case 0: snprintf(payload, sizeof(payload), "{\"sub\":\"%s\",\"iat\":%lld}", esc, (long long)iat); break;
			case 1: snprintf(payload, sizeof(payload), "{\"sub\":\"%s\",\"iat\":%lld,\"exp\":\"%lld\"}", esc, (long long)iat, (long long)t->exp); break;
			case 2: snprintf(payload, sizeof(payload), "{\"sub\":\"%s\",\"iat\":%lld,\"exp\":%lld", esc, (long long)iat, (long long)t->exp); break;
			case 3: snprintf(payload, sizeof(payload), "{\"sub\":\"%s\",\"iat\":%lld,\"exp\":%lld}", esc, (long long)t->exp + 1, (long long)t->exp); break;
			}
			t->good = false;
			break;
		}
		if (! t->secret[0])
			t->good = false;
		token_sign(t, header, payload, t->secret);
	}
	sim_log("token %d of %s expires %lld good %d", slot, t->name, (long long)t->exp, t->good);
	__atomic_store_n(&t->used, 1, __ATOMIC_RELEASE);
}

// change a token so that it must be rejected
static void
token_damage(int st, char* text)
{
	int size = strlen(text);
	char* dot = strrchr(text, '.');
	char* mid = strchr(text, '.');
	switch (sim_choose(st, 9)) {
	case 0:
	{
		// another character of the signed part
		int at = 7 + sim_choose(st, dot - text - 7);
		char was = text[at];
		text[at] = was == 'A' ? 'B' : 'A';
		break;
	}
	case 1:
	{
		// another character of the signature
		int at = dot - text + 1 + sim_choose(st, size - (dot - text) - 2);
		text[at] = text[at] == 'A' ? 'B' : 'A';
		break;
	}
	case 2: // cut
		text[sim_choose(st, size)] = 0;
		break;
	case 3: // bytes outside of the alphabet
	{
		static const uint8_t bytes[] = { 0x80, 0xff, 0xc3, '=', '+', ' ', 1 };
		int at = 7 + sim_choose(st, size - 7);
		if (text[at] == '.')
			at++;
		text[at] = bytes[sim_choose(st, 7)];
		break;
	}
	case 4: // signature of nothing
		dot[1] = 0;
		break;
	case 5: // payload of another token
	{
		Token* other = &tokens[sim_choose(st, TOKENS)];
		if (! __atomic_load_n(&other->used, __ATOMIC_ACQUIRE) || ! strncmp(other->text, text, dot - text))
		{
			text[0] = 'b';
			break;
		}
		char sign[200];
		snprintf(sign, sizeof(sign), "%s", dot);
		strcpy(text, other->text);
		char* d = strrchr(text, '.');
		if (! strcmp(d, sign))
			text[0] = 'b';
		else
			strcpy(d, sign);
		break;
	}
	case 6: // no payload
		memmove(mid + 1, dot, strlen(dot) + 1);
		break;
	case 7: // longer signature
		strcat(text, "AAAA");
		break;
	case 8:
		text[6] = '_';
		break;
	}
}

static void
front_try(Front* self, int st)
{
	int slot = sim_choose(st, TOKENS);
	if (self->accepted && sim_choose(st, 2))
		slot = self->accepted - 1;
	auto t = &tokens[slot];
	bool damage = sim_choose(st, 4) == 3;
	if (! __atomic_load_n(&t->used, __ATOMIC_ACQUIRE))
		return;
	char* text = am_malloc(900);
	strcpy(text, t->text);
	if (damage)
		token_damage(st, text);
	// exact size: reads behind the token are seen
	int size = strlen(text);
	char* token = am_malloc(size);
	memcpy(token, text, size);
	Str str;
	str_set(&str, token, size);
	int64_t before = time_ms() / 1000;
	User* user = auth(self->auth, &str);
	int64_t after = time_ms() / 1000;
	int at = state_find(&self->users, t->name);
	bool valid = ! damage && t->good && at != -1 && ! strcmp(self->users.user[at].secret, t->secret) && self->users.user[at].secret[0];
	if (user)
	{
		sim_check(! damage, "auth-altered", "front %d accepted an altered token: %s", self->id, text);
		sim_check(t->good, "auth-malformed", "front %d accepted a token that is not valid: %s", self->id, text);
		sim_check(at != -1, "auth-dropped", "front %d accepted a token of '%s' which does not exist", self->id, t->name);
		sim_check(valid, "auth-secret", "front %d accepted a token of '%s' that was not signed with its current secret", self->id, t->name);
		sim_check(before < t->exp || after < t->exp, "auth-expired", "front %d accepted a token that expired at %lld, now %lld", self->id, (long long)t->exp, (long long)after);
		sim_check(str_same(&user->config->name, t->name), "auth-user", "token of '%s' gives '%.*s'", t->name, str_size(&user->config->name), str_of(&user->config->name));
		sim_probe("token accepted");
		self->accepted = slot + 1;
	} else
	if (valid)
	{
		sim_check(before >= t->exp || after >= t->exp, "auth-rejected", "front %d rejected a valid token of '%s' (expires %lld, now %lld): %.*s", self->id, t->name, (long long)t->exp, (long long)after,
		          buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		sim_probe("token expired");
	}
	sim_state(scn_hash(valid * 8 + !! user * 4 + damage * 2 + t->good, scn_hash(at + 1, self->synced)));
	am_free(token);
	am_free(text);
}

static void
front_worker(void* arg)
{
	Front* self = arg;
	int st = 20 + self->id;
	int n = sim_range(st, 1, 25);
	for (int i = 0; i < n && ! self->stop; i++)
	{
		front_try(self, st);
		static int waits[] = { 0, 0, 1, 100, 900, 1500 };
		coroutine_sleep(waits[sim_choose(st, 6)]);
	}
}

static void
front_sync(Rpc* rpc, void* arg)
{
	Front* self = arg;
	auth_sync(self->auth, rpc->arg);
	self->users = au;
	self->synced++;
}

static void
front_main(void* arg)
{
	Front* self = arg;
	Auth au_;
	self->auth = &au_;
	auth_init(self->auth);
	auto id = coroutine_create(front_worker, self);
	unused(id);
	for (;;)
	{
		auto msg = task_recv();
		if (msg->id == MSG_STOP)
			break;
		rpc_execute(rpc_of(msg), front_sync, self);
	}
	self->stop = true;
	coroutine_kill(id);
	auth_free(self->auth);
}

static void nothing(void) {}

static void
auth_main(void* arg)
{
	unused(arg);
	rt_if.save_state = no_save;
	rt_if.arg        = NULL;
	runtime()->iface = &rt_if;
	UserMgr mgr;
	um = &mgr;
	memset(um, 0, sizeof(*um));
	user_mgr_init(um);
	memset(&au, 0, sizeof(au));
	memset(tokens, 0, sizeof(tokens));
	front_count = sim_range(0, 1, 3);
	fronts = am_malloc(sizeof(Front) * front_count);
	memset(fronts, 0, sizeof(Front) * front_count);
	for (int i = 0; i < front_count; i++)
	{
		fronts[i].id = i;
		task_init(&fronts[i].task);
	}
	for (int i = 0; i < front_count; i++)
		scn_task(&fronts[i].task, "front", front_main, &fronts[i]);
	int ops = sim_range(1, 3, 30);
	int slot = 0;
	for (int i = 0; i < ops; i++)
	{
		switch (i == 0 ? 0 : sim_choose(1, 6)) {
		case 0:
		case 1:
		{
			next_state = au;
			auto on_error = error_catch( user_op(1, nothing) );
			if (! on_error)
				au = next_state;
			for (int j = 0; j < front_count; j++)
				rpc(&fronts[j].task, MSG_SYNC_USERS, &um->cache);
			break;
		}
		case 2:
		case 3:
			if (slot < TOKENS)
				token_make(1, slot++);
			break;
		case 4:
		{
			static int waits[] = { 0, 10, 500, 1000, 3000 };
			coroutine_sleep(waits[sim_choose(1, 5)]);
			break;
		}
		case 5:
		{
			static int64_t jumps[] = { 1000000000ll, -1000000000ll, 5000000000ll, -5000000000ll };
			sim_clock_jump(jumps[sim_choose(1, 4)]);
			break;
		}
		}
	}
	Msg stop[3];
	for (int i = 0; i < front_count; i++)
	{
		msg_init(&stop[i], MSG_STOP);
		task_send(&fronts[i].task, &stop[i]);
	}
	for (int i = 0; i < front_count; i++)
		task_wait(&fronts[i].task);
	for (int i = 0; i < front_count; i++)
		task_free(&fronts[i].task);
	am_free(fronts);
	user_mgr_free(um);
	runtime()->iface = NULL;
}

static void
epoch_auth(void)
{
	scn_run(auth_main, NULL, 0);
	sim_check(sim_mem_blocks() == 0, "leak", "%zu blocks, %zu bytes are still allocated after shutdown", sim_mem_blocks(), sim_mem_live());
}

SimScenario sim_scenarios[] =
{
	{ "C21", "state",   epoch_state,   4, 20000000, 3, 0 },
	{ "C21", "counter", epoch_counter, 1, 5000000,  1, 0 },
	{ "C22", "auth",    epoch_auth,    1, 40000000, 1, 0 },
	{ 0 }
};
const char* sim_real_parts = "options, config.json, state.json, counters of the state, user manager, authentication, tokens and their cache (repository code, instrumented); HMAC of OpenSSL";
const char* sim_stub_parts = "disk, pthreads scheduling, clock, malloc (simulated); the order of start (scenario, follows system/repo.c and system/system.c, which do not compile at this commit)";
const char* sim_rule = "Workload: up to 4 lives with changes of up to 5 users and of the replication settings, texts of any valid UTF-8; tasks that use the counters of the state; up to 3 tasks that check up to 12 tokens (issued, forged, altered, expired) while users change and the clock jumps.";
