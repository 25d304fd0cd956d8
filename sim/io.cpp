// Simulated file descriptors: disk, event fds, epoll, sockets.
#include "core.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <dirent.h>
#include <algorithm>
#include <memory>
#include <climits>

typedef std::vector<uint8_t> Bytes;

// ------------------------------------------------------------------ disk model
// Contract of the simulated disk:
//  - file data written since the last successful sync of the file may be lost,
//    kept or torn (sector granularity, any subset) by a power failure;
//  - directory operations are journaled: a power failure keeps a prefix of
//    them, and a successful file sync commits all earlier ones;
//  - a process kill keeps everything handed to the kernel.
struct Pend { int type; uint64_t off; Bytes data; uint64_t id = 0; };
static uint64_t pend_id;
#define PEND_ID (++pend_id)
 // 0 write 1 truncate
struct Inode {
	int id, type, nlink = 0, opens = 0;   // type: 0 file 1 dir 2 symlink
	int mode = 0;
	Bytes data, ddata;
	std::vector<Pend> pend;
	std::string target;
	std::map<std::string, int> ent;
	std::map<std::string, int> dent;      // durable entries
	bool lost_sync = false;
	std::vector<int> flock_fds;
};
struct Meta { int op; int dir; std::string name; int ino; int dir2; std::string name2; uint64_t id = 0; };
static std::vector<Inode*> inodes;
static std::vector<Meta> journal; static uint64_t journal_base;
static uint64_t disk_ops, crash_at; static bool crash_set; static int crash_kind;
static std::string fault_path;

static Inode* inode_new(int type)
{
	Inode* i = new Inode();
	i->id = inodes.size(); i->type = type;
	inodes.push_back(i);
	return i;
}

static void apply_meta(const Meta& m)
{
	switch (m.op) {
	case 0: inodes[m.dir]->dent[m.name] = m.ino; break;
	case 1: inodes[m.dir]->dent.erase(m.name); break;
	case 2: inodes[m.dir]->dent.erase(m.name); inodes[m.dir2]->dent[m.name2] = m.ino; break;
	}
}
static void apply_pend(Bytes& d, const Pend& p)
{
	if (p.type == 1) d.resize(p.off);
	else {
		if (d.size() < p.off + p.data.size()) d.resize(p.off + p.data.size());
		memcpy(d.data() + p.off, p.data.data(), p.data.size());
	}
}

static bool sim_path(const char* p) { return !strncmp(p, "/sim", 4) && (p[4] == 0 || p[4] == '/'); }

// resolve; returns inode or -1 with errno; parent and leaf name are filled in
static int walk(const char* path, int* parent, std::string* leaf, bool follow, int depth = 0)
{
	if (depth > 8) { errno = ELOOP; return -1; }
	int at = 0;
	std::vector<std::string> parts;
	const char* p = path + 4;
	while (*p) {
		while (*p == '/') p++;
		const char* e = p;
		while (*e && *e != '/') e++;
		if (e > p) parts.push_back(std::string(p, e - p));
		p = e;
	}
	if (parent) { *parent = 0; *leaf = ""; }
	for (size_t i = 0; i < parts.size(); i++) {
		Inode* d = inodes[at];
		if (d->type != 1) { errno = ENOTDIR; return -1; }
		bool last = i == parts.size() - 1;
		if (parts[i] == ".") continue;
		if (last && parent) { *parent = at; *leaf = parts[i]; }
		auto it = d->ent.find(parts[i]);
		if (it == d->ent.end()) { errno = last ? ENOENT : ENOENT; if (!last && parent) *parent = -1; return -1; }
		int n = it->second;
		if (inodes[n]->type == 2 && (!last || follow)) {
			std::string t = inodes[n]->target;
			for (size_t j = i + 1; j < parts.size(); j++) t += "/" + parts[j];
			if (!sim_path(t.c_str())) { errno = ENOENT; return -1; }
			return walk(t.c_str(), parent, leaf, follow, depth + 1);
		}
		at = n;
	}
	return at;
}

// ------------------------------------------------------------------ fds
enum { FD_NONE, FD_FILE, FD_EVENT, FD_EPOLL, FD_SOCK };
struct Seg { uint64_t at; Bytes data; bool fin; bool rst; };
struct Sock {
	int family = 0;
	bool listening = false, connecting = false, connected = false;
	int conn_err = 0;
	Sock* peer = NULL;
	bool peer_closed = false;      // fin received
	bool reset = false;
	bool closed = false;
	std::deque<uint8_t> rx;
	uint64_t inflight = 0;
	uint64_t last_at = 0;
	std::string addr;              // bound address
	std::string peer_addr;
	std::deque<Sock*> backlog;
	int backlog_max = 128;
	std::string local_name, peer_name;
};
struct Fd {
	int type = FD_NONE;
	Inode* ino = NULL; uint64_t pos = 0; int flags = 0;
	uint64_t ev = 0;
	std::map<int, std::pair<uint32_t, uint64_t>> watch;    // fd -> events, data
	Sock* sock = NULL;
};
#define FD_BASE 1000
static std::vector<Fd*> fds;
static std::map<std::string, Sock*> listeners;
static int net_window = 65536;
static bool net_parted;

static Fd* fd_of(int fd) {
	int i = fd - FD_BASE;
	if (i < 0 || i >= (int)fds.size() || fds[i]->type == FD_NONE) return NULL;
	return fds[i];
}
static int fd_new(int type)
{
	int i = 0;
	// lowest free number, as the kernel does (exposes use of closed descriptors)
	for (; i < (int)fds.size(); i++) if (fds[i]->type == FD_NONE) break;
	if (i == (int)fds.size()) fds.push_back(new Fd());
	*fds[i] = Fd();
	fds[i]->type = type;
	return FD_BASE + i;
}

static bool faulty(Inode* i, const char* path)
{
	if (!sim_faults_on()) return false;
	if (fault_path.empty()) return true;
	if (path) return strstr(path, fault_path.c_str()) != NULL;
	(void)i;
	return true;
}
extern "C" void sim_fault_path(const char* s) { fault_path = s ? s : ""; }

static std::string ino_path(int id, int at = 0, std::string pre = "/sim")
{
	for (auto& e : inodes[at]->ent) {
		if (e.second == id) return pre + "/" + e.first;
		if (inodes[e.second]->type == 1) { auto r = ino_path(id, e.second, pre + "/" + e.first); if (!r.empty()) return r; }
	}
	return "";
}
static bool faulty_ino(Inode* i)
{
	if (!sim_faults_on()) return false;
	if (fault_path.empty()) return true;
	return ino_path(i->id).find(fault_path) != std::string::npos;
}

// ------------------------------------------------------------------ crash
static Bytes crash_file(Inode* i, int mode, Rng* unused)
{
	(void)unused;
	Bytes d = i->ddata;
	size_t n = i->pend.size();
	if (mode == 1) return i->data;            // process kill
	if (n == 0) return d;
	if (mode == 0) { sh->faults[SIM_F_CRASH_LOST]++; return d; }
	if (mode == 2) {
		// prefix of the writes survives, the next one torn at a byte
		size_t k = pick(10, n + 1);
		for (size_t j = 0; j < k; j++) apply_pend(d, i->pend[j]);
		if (k < n) {
			sh->faults[SIM_F_CRASH_LOST]++;
			Pend p = i->pend[k];
			if (p.type == 0 && p.data.size() > 1) {
				size_t cut = pick(11, p.data.size());
				if (cut) { p.data.resize(cut); apply_pend(d, p); sh->faults[SIM_F_CRASH_TORN]++; }
			}
		}
		return d;
	}
	// any subset of the 512 byte sectors of the writes
	for (size_t j = 0; j < n; j++) {
		Pend& p = i->pend[j];
		uint64_t v = pick(12, 4);
		if (v == 0) { sh->faults[SIM_F_CRASH_LOST]++; continue; }
		if (v == 1 || p.type == 1) { apply_pend(d, p); continue; }
		uint64_t a = p.off, e = p.off + p.data.size();
		while (a < e) {
			uint64_t s = std::min(e, (a / 512 + 1) * 512);
			if (pick(13, 2)) { Pend q{0, a, Bytes(p.data.begin() + (a - p.off), p.data.begin() + (s - p.off))}; apply_pend(d, q); }
			else sh->faults[SIM_F_CRASH_TORN]++;
			a = s;
		}
	}
	return d;
}

static void put64(uint64_t v) { memcpy(sh->image + sh->image_size, &v, 8); sh->image_size += 8; }
static void putb(const void* p, size_t n)
{
	if (sh->image_size + n + 64 > IMAGE_MAX) sim_broken("disk image too large");
	put64(n); memcpy(sh->image + sh->image_size, p, n); sh->image_size += n;
}
static void image(bool crashed, int mode)
{
	if (crashed && mode != 1) {
		size_t keep = pick(14, journal.size() + 1);
		// commonly the metadata journal is written out shortly
		if (pick(15, 2) == 0) keep = journal.size();
		if (keep < journal.size()) sh->faults[SIM_F_CRASH_LOST]++;
		for (size_t i = 0; i < keep; i++) apply_meta(journal[i]);
		journal.clear();
	}
	sh->image_size = 0;
	put64(inodes.size());
	for (auto i : inodes) {
		put64(i->type);
		if (i->type == 0) {
			bool torn = crashed && mode != 1;
			Bytes b = torn ? crash_file(i, mode, NULL) : i->data;
			putb(b.data(), b.size());
		} else if (i->type == 2) putb(i->target.data(), i->target.size());
		else {
			auto& e = crashed && mode != 1 ? i->dent : i->ent;
			put64(e.size());
			for (auto& x : e) { putb(x.first.data(), x.first.size()); put64(x.second); }
		}
	}
}
void disk_clean_image() { image(false, 1); }
void disk_load_image()
{
	if (sh->image_size == 0) return;
	for (auto i : inodes) delete i;
	inodes.clear();
	size_t o = 0;
	auto g64 = [&] { uint64_t v; memcpy(&v, sh->image + o, 8); o += 8; return v; };
	uint64_t n = g64();
	for (uint64_t k = 0; k < n; k++) {
		Inode* i = inode_new(g64());
		if (i->type == 0) { uint64_t s = g64(); i->data.assign(sh->image + o, sh->image + o + s); o += s; i->ddata = i->data; }
		else if (i->type == 2) { uint64_t s = g64(); i->target.assign((char*)sh->image + o, s); o += s; }
		else {
			uint64_t c = g64();
			for (uint64_t j = 0; j < c; j++) { uint64_t s = g64(); std::string nm((char*)sh->image + o, s); o += s; i->ent[nm] = g64(); }
			i->dent = i->ent;
		}
	}
	for (auto i : inodes) if (i->type == 1) for (auto& e : i->ent) inodes[e.second]->nlink++;
}

extern "C" void sim_crash(void)
{
	sh->faults[SIM_F_CRASH]++;
	int mode = crash_kind;
	sh->last_kind = mode;
	sim_log("CRASH kind=%d diskop=%llu", mode, (unsigned long long)disk_ops);
	image(true, mode);
	finish(ST_CRASH);
}
extern "C" void sim_crash_plan(int max_ops)
{
	uint64_t v = pick(16, max_ops + 1);
	crash_set = v != 0;
	crash_at = disk_ops + v;
	// 0 all unsynced lost, 1 process kill, 2 prefix + torn, 3 sectors
	crash_kind = pick(17, 4);
}
extern "C" void sim_crash_kill_only(void) { crash_kind = 1; }
extern "C" void sim_crash_plan_off(void) { crash_set = false; }
extern "C" bool sim_crash_planned(void) { return crash_set; }
extern "C" uint64_t sim_disk_ops(void) { return disk_ops; }

// every operation that changes the disk passes here; true: crash after a part of it
static bool disk_op(const char* what)
{
	(void)what;
	sh->disk_ops++;
	disk_ops++;
	if (crash_set && in_sim && disk_ops >= crash_at) return true;
	return false;
}

void io_child_start()
{
	inodes.clear();
	Inode* r = inode_new(1);
	r->nlink = 1;
}

// ------------------------------------------------------------------ file system calls
extern "C" {
int   __real_open(const char*, int, ...);
int   __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
DIR*  __real_opendir(const char*);
struct dirent* __real_readdir(DIR*);
int   __real_closedir(DIR*);

// host files a whole system reads at start: scenarios put them on the simulated disk
static std::string host_path(const char* p)
{
	static const char* zone = "/usr/share/zoneinfo";
	if (in_sim && !strncmp(p, zone, strlen(zone))) return std::string("/sim/.zoneinfo") + (p + strlen(zone));
	return p;
}

static int do_open(const char* name, int flags, int mode)
{
	std::string host = host_path(name);
	const char* path = host.c_str();
	if (!sim_path(path)) { if (!in_sim) return __real_open(path, flags, mode); errno = ENOENT; return -1; }
	sync_point("open");
	if (faulty(NULL, path) && fault_draw(SIM_F_OPEN_EIO, 1)) { errno = EMFILE; return -1; }
	int parent; std::string leaf;
	int n = walk(path, &parent, &leaf, true);
	if (n >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	if (n < 0) {
		if (!(flags & O_CREAT) || parent < 0 || leaf.empty()) { errno = ENOENT; return -1; }
		if (inodes[parent]->type != 1) { errno = ENOTDIR; return -1; }
		if (disk_op("create") && pick(18, 2) == 0) sim_crash();
		if (faulty(NULL, path) && fault_draw(SIM_F_WRITE_ENOSPC, 1)) { errno = ENOSPC; return -1; }
		Inode* i = inode_new(0);
		i->nlink = 1; i->mode = mode;
		inodes[parent]->ent[leaf] = i->id;
		journal.push_back({0, parent, leaf, i->id, 0, ""});
		n = i->id;
		if (crash_set && in_sim && disk_ops >= crash_at) sim_crash();
	} else if (inodes[n]->type == 1 && (flags & 3) != O_RDONLY) { errno = EISDIR; return -1; }
	if ((flags & O_TRUNC) && inodes[n]->type == 0 && !inodes[n]->data.empty()) {
		if (disk_op("trunc")) sim_crash();
		inodes[n]->data.clear(); inodes[n]->pend.push_back({1, 0, {}, PEND_ID});
	}
	int fd = fd_new(FD_FILE);
	Fd* f = fd_of(fd);
	f->ino = inodes[n]; f->flags = flags; f->ino->opens++;
	return fd;
}
int __wrap_open(const char* path, int flags, ...)
{ va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); return do_open(path, flags, mode); }
int __wrap_open64(const char* path, int flags, ...)
{ va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); return do_open(path, flags, mode); }

static void sock_close(Sock* s);
int __wrap_close(int fd)
{
	Fd* f = fd_of(fd);
	if (!f) { if (!in_sim || fd < FD_BASE) return __real_close(fd); sim_fail("bad-fd", "close of a descriptor that is not open: %d", fd); }
	sync_point("close");
	f = fd_of(fd);
	if (!f) sim_fail("bad-fd", "close of a descriptor that is not open: %d", fd);
	if (f->type == FD_SOCK) sock_close(f->sock);
	if (f->type == FD_FILE) {
		f->ino->opens--;
		auto& v = f->ino->flock_fds; v.erase(std::remove(v.begin(), v.end(), fd), v.end());
	}
	for (auto e : fds) if (e->type == FD_EPOLL) e->watch.erase(fd);
	*f = Fd();
	return 0;
}

static ssize_t file_write_at(Fd* f, uint64_t off, const uint8_t* p, size_t n)
{
	Inode* i = f->ino;
	if ((f->flags & 3) == O_RDONLY) { errno = EBADF; return -1; }
	bool flt = faulty_ino(i);
	size_t todo = n;
	int err = 0;
	if (flt && n > 0) {
		if (fault_draw(SIM_F_EINTR, 1)) { errno = EINTR; return -1; }
		uint64_t v;
		if (n > 1 && (v = fault_draw(SIM_F_WRITE_SHORT, n - 1))) todo = v;
		if (fault_draw(SIM_F_WRITE_ENOSPC, 1)) { err = ENOSPC; todo = 0; }
		else if (fault_draw(SIM_F_WRITE_EIO, 1)) { err = EIO; todo = 0; }
	}
	if (err) { errno = err; return -1; }
	bool crash = disk_op("write");
	if (crash) todo = pick(19, n + 1) ? todo : 0;     // before or after the write
	if (todo) {
		if (i->data.size() < off + todo) i->data.resize(off + todo);
		memcpy(i->data.data() + off, p, todo);
		if (!i->pend.empty() && i->pend.back().type == 0 && i->pend.back().off + i->pend.back().data.size() == off && i->pend.back().data.size() < 65536 && pick(20, 8) != 0)
			i->pend.back().data.insert(i->pend.back().data.end(), p, p + todo);
		else
			i->pend.push_back({0, off, Bytes(p, p + todo), PEND_ID});
	}
	if (crash) sim_crash();
	return todo;
}
static void inode_write_mem_check(const void* p, size_t n)
{
	if (!sim_mem_valid(p, n)) sim_fail("memory-invalid-io", "I/O from or to invalid memory %p size %zu", p, n);
}
static ssize_t sock_write(Fd* f, const uint8_t* p, size_t n);
static ssize_t sock_read(Fd* f, uint8_t* p, size_t n);

ssize_t __wrap_write(int fd, const void* p, size_t n)
{
	Fd* f = fd_of(fd);
	if (!f) { if (fd < FD_BASE && (!in_sim || fd == 1 || fd == 2)) return __real_write(fd, p, n); errno = EBADF; return -1; }
	sync_point("write");
	if (!(f = fd_of(fd))) { errno = EBADF; return -1; }
	inode_write_mem_check(p, n);
	if (f->type == FD_EVENT) { uint64_t v; memcpy(&v, p, 8); f->ev += v; return 8; }
	if (f->type == FD_SOCK) return sock_write(f, (const uint8_t*)p, n);
	if (f->type != FD_FILE) { errno = EBADF; return -1; }
	if (f->flags & O_APPEND) f->pos = f->ino->data.size();
	ssize_t rc = file_write_at(f, f->pos, (const uint8_t*)p, n);
	if (rc > 0) f->pos += rc;
	return rc;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c)
{
	Fd* f = fd_of(fd);
	if (!f) { errno = EBADF; return -1; }
	sync_point("writev");
	if (!(f = fd_of(fd))) { errno = EBADF; return -1; }
	if (c > IOV_MAX) { errno = EINVAL; return -1; }
	Bytes b;
	for (int i = 0; i < c; i++) { inode_write_mem_check(v[i].iov_base, v[i].iov_len); b.insert(b.end(), (uint8_t*)v[i].iov_base, (uint8_t*)v[i].iov_base + v[i].iov_len); }
	if (f->type == FD_SOCK) return sock_write(f, b.data(), b.size());
	if (f->type != FD_FILE) { errno = EBADF; return -1; }
	if (f->flags & O_APPEND) f->pos = f->ino->data.size();
	ssize_t rc = file_write_at(f, f->pos, b.data(), b.size());
	if (rc > 0) f->pos += rc;
	return rc;
}
ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t off)
{
	Fd* f = fd_of(fd);
	if (!f || f->type != FD_FILE) { errno = EBADF; return -1; }
	sync_point("pwrite");
	inode_write_mem_check(p, n);
	return file_write_at(f, off, (const uint8_t*)p, n);
}
ssize_t __wrap_pwrite64(int fd, const void* p, size_t n, off_t off) { return __wrap_pwrite(fd, p, n, off); }
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int c, off_t off)
{
	Fd* f = fd_of(fd);
	if (!f || f->type != FD_FILE) { errno = EBADF; return -1; }
	sync_point("pwritev");
	Bytes b;
	for (int i = 0; i < c; i++) b.insert(b.end(), (uint8_t*)v[i].iov_base, (uint8_t*)v[i].iov_base + v[i].iov_len);
	return file_write_at(f, off, b.data(), b.size());
}
static ssize_t file_read_at(Fd* f, uint64_t off, uint8_t* p, size_t n)
{
	Inode* i = f->ino;
	if (i->type == 1) { errno = EISDIR; return -1; }
	size_t have = off < i->data.size() ? i->data.size() - off : 0;
	if (have > n) have = n;
	if (faulty_ino(i) && n > 0) {
		if (fault_draw(SIM_F_EINTR, 1)) { errno = EINTR; return -1; }
		if (fault_draw(SIM_F_READ_EIO, 1)) { errno = EIO; return -1; }
		uint64_t v;
		if (have > 1 && (v = fault_draw(SIM_F_READ_SHORT, have - 1))) have = v;
	}
	inode_write_mem_check(p, have);
	memcpy(p, i->data.data() + off, have);
	return have;
}
ssize_t __wrap_read(int fd, void* p, size_t n)
{
	Fd* f = fd_of(fd);
	if (!f) { if (fd < FD_BASE && !in_sim) return __real_read(fd, p, n); errno = EBADF; return -1; }
	sync_point("read");
	if (!(f = fd_of(fd))) { errno = EBADF; return -1; }
	if (f->type == FD_EVENT) { if (!f->ev) { errno = EAGAIN; return -1; } memcpy(p, &f->ev, 8); f->ev = 0; return 8; }
	if (f->type == FD_SOCK) return sock_read(f, (uint8_t*)p, n);
	if (f->type != FD_FILE) { errno = EBADF; return -1; }
	ssize_t rc = file_read_at(f, f->pos, (uint8_t*)p, n);
	if (rc > 0) f->pos += rc;
	return rc;
}
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t off)
{
	Fd* f = fd_of(fd);
	if (!f || f->type != FD_FILE) { errno = EBADF; return -1; }
	sync_point("pread");
	return file_read_at(f, off, (uint8_t*)p, n);
}
ssize_t __wrap_pread64(int fd, void* p, size_t n, off_t off) { return __wrap_pread(fd, p, n, off); }
off_t __wrap_lseek(int fd, off_t off, int wh)
{
	Fd* f = fd_of(fd);
	if (!f || f->type != FD_FILE) { errno = EBADF; return -1; }
	if (wh == SEEK_SET) f->pos = off;
	else if (wh == SEEK_CUR) f->pos += off;
	else f->pos = f->ino->data.size() + off;
	return f->pos;
}
off_t __wrap_lseek64(int fd, off_t off, int wh) { return __wrap_lseek(fd, off, wh); }

static int do_fsync(int fd)
{
	Fd* f = fd_of(fd);
	if (!f || f->type != FD_FILE) { errno = EBADF; return -1; }
	sync_point("fsync");
	if (!(f = fd_of(fd)) || f->type != FD_FILE) { errno = EBADF; return -1; }
	Inode* i = f->ino;
	// syncing takes time: writes issued meanwhile are not covered
	std::vector<Pend> todo = i->pend;
	uint64_t jend = journal_base + journal.size();
	if (in_sim && !crash_set && pick(21, 4) == 0) {
		static const uint64_t d[] = {20000, 200000, 2000000, 20000000};
		uint64_t at = now_ns + d[pick(22, 4)];
		block_until("fsync", [] { return false; }, at);
	} else if (in_sim) {
		static const uint64_t d[] = {5000, 50000, 1000000};
		if (pick(21, 3) == 0) { uint64_t at = now_ns + d[pick(22, 3)]; block_until("fsync", [] { return false; }, at); }
	}
	if (disk_op("fsync") && pick(23, 2) == 0) sim_crash();
	if (faulty_ino(i) && fault_draw(SIM_F_FSYNC_EIO, 1)) {
		errno = EIO;
		if (crash_set && in_sim && disk_ops >= crash_at) sim_crash();
		return -1;
	}
	// durable: everything that was pending at the start
	std::vector<Pend> rest;
	for (auto& now : i->pend) {
		Pend* t = NULL;
		for (auto& x : todo) if (x.id == now.id) t = &x;
		if (!t) { rest.push_back(now); continue; }
		apply_pend(i->ddata, *t);
		// a pending write may have grown by appends meanwhile
		if (now.type == 0 && now.data.size() > t->data.size())
			rest.push_back({0, now.off + t->data.size(), Bytes(now.data.begin() + t->data.size(), now.data.end()), PEND_ID});
	}
	i->pend = rest;
	size_t njournal = jend > journal_base ? jend - journal_base : 0;
	journal_base += njournal;
	for (size_t k = 0; k < njournal; k++) apply_meta(journal[k]);
	journal.erase(journal.begin(), journal.begin() + njournal);
	if (crash_set && in_sim && disk_ops >= crash_at) sim_crash();
	return 0;
}
int __wrap_fsync(int fd) { return do_fsync(fd); }
int __wrap_fdatasync(int fd) { return do_fsync(fd); }
int __wrap_sync_file_range(int, off_t, off_t, unsigned) { sync_point("sfr"); return 0; }

int __wrap_ftruncate(int fd, off_t n)
{
	Fd* f = fd_of(fd);
	if (!f || f->type != FD_FILE) { errno = EBADF; return -1; }
	sync_point("ftruncate");
	if (faulty_ino(f->ino) && fault_draw(SIM_F_META_EIO, 1)) { errno = EIO; return -1; }
	bool crash = disk_op("ftruncate");
	if (crash && pick(24, 2) == 0) sim_crash();
	f->ino->data.resize(n);
	f->ino->pend.push_back({1, (uint64_t)n, {}, PEND_ID});
	if (crash) sim_crash();
	return 0;
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }

static int fill_stat(int n, struct stat* st)
{
	Inode* i = inodes[n];
	memset(st, 0, sizeof *st);
	st->st_ino = n + 1; st->st_nlink = i->nlink;
	st->st_size = i->type == 0 ? (off_t)i->data.size() : i->type == 2 ? (off_t)i->target.size() : 4096;
	st->st_mode = (i->type == 0 ? S_IFREG | 0644 : i->type == 1 ? S_IFDIR | 0755 : S_IFLNK | 0777);
	return 0;
}
int __wrap_lstat(const char* name, struct stat* st)
{
	std::string host = host_path(name);
	const char* path = host.c_str();
	if (!sim_path(path)) { errno = ENOENT; return -1; }
	sync_point("lstat");
	int n = walk(path, NULL, NULL, false);
	if (n < 0) return -1;
	return fill_stat(n, st);
}
int __wrap_stat(const char* name, struct stat* st)
{
	std::string host = host_path(name);
	const char* path = host.c_str();
	if (!sim_path(path)) { errno = ENOENT; return -1; }
	sync_point("stat");
	int n = walk(path, NULL, NULL, true);
	if (n < 0) return -1;
	return fill_stat(n, st);
}
int __wrap_fstat(int fd, struct stat* st)
{
	Fd* f = fd_of(fd);
	if (!f || f->type != FD_FILE) { errno = EBADF; return -1; }
	return fill_stat(f->ino->id, st);
}
int __wrap_access(const char* path, int)
{
	if (!sim_path(path)) { errno = ENOENT; return -1; }
	return walk(path, NULL, NULL, true) < 0 ? -1 : 0;
}
int __wrap_chmod(const char*, mode_t) { return 0; }

static void unref_inode(int id) { inodes[id]->nlink--; }

int __wrap_unlink(const char* path)
{
	if (!sim_path(path)) { errno = ENOENT; return -1; }
	sync_point("unlink");
	int parent; std::string leaf;
	int n = walk(path, &parent, &leaf, false);
	if (n < 0) return -1;
	if (inodes[n]->type == 1) { errno = EISDIR; return -1; }
	if (faulty(NULL, path) && fault_draw(SIM_F_META_EIO, 1)) { errno = EIO; return -1; }
	bool crash = disk_op("unlink");
	if (crash && pick(24, 2) == 0) sim_crash();
	inodes[parent]->ent.erase(leaf);
	unref_inode(n);
	journal.push_back({1, parent, leaf, n, 0, ""});
	if (crash) sim_crash();
	return 0;
}
int __wrap_rename(const char* a, const char* b)
{
	if (!sim_path(a) || !sim_path(b)) { errno = ENOENT; return -1; }
	sync_point("rename");
	int pa, pb; std::string la, lb;
	int n = walk(a, &pa, &la, false);
	if (n < 0) return -1;
	int m = walk(b, &pb, &lb, false);
	if (m < 0 && (pb < 0 || lb.empty())) { errno = ENOENT; return -1; }
	if (m == n) return 0;
	if (faulty(NULL, a) && fault_draw(SIM_F_META_EIO, 1)) { errno = EIO; return -1; }
	bool crash = disk_op("rename");
	if (crash && pick(24, 2) == 0) sim_crash();
	if (m >= 0) unref_inode(m);
	inodes[pa]->ent.erase(la);
	inodes[pb]->ent[lb] = n;
	journal.push_back({2, pa, la, n, pb, lb});
	if (crash) sim_crash();
	return 0;
}
int __wrap_link(const char* a, const char* b)
{
	if (!sim_path(a) || !sim_path(b)) { errno = ENOENT; return -1; }
	sync_point("link");
	int pb; std::string lb;
	int n = walk(a, NULL, NULL, false);
	if (n < 0) return -1;
	int m = walk(b, &pb, &lb, false);
	if (m >= 0) { errno = EEXIST; return -1; }
	if (pb < 0 || lb.empty()) { errno = ENOENT; return -1; }
	if (faulty(NULL, a) && fault_draw(SIM_F_META_EIO, 1)) { errno = EIO; return -1; }
	bool crash = disk_op("link");
	if (crash && pick(24, 2) == 0) sim_crash();
	inodes[pb]->ent[lb] = n;
	inodes[n]->nlink++;
	journal.push_back({0, pb, lb, n, 0, ""});
	if (crash) sim_crash();
	return 0;
}
int __wrap_symlink(const char* t, const char* b)
{
	if (!sim_path(b)) { errno = ENOENT; return -1; }
	sync_point("symlink");
	int pb; std::string lb;
	int m = walk(b, &pb, &lb, false);
	if (m >= 0) { errno = EEXIST; return -1; }
	if (pb < 0 || lb.empty()) { errno = ENOENT; return -1; }
	bool crash = disk_op("symlink");
	if (crash && pick(24, 2) == 0) sim_crash();
	Inode* i = inode_new(2); i->target = t; i->nlink = 1;
	inodes[pb]->ent[lb] = i->id;
	journal.push_back({0, pb, lb, i->id, 0, ""});
	if (crash) sim_crash();
	return 0;
}
uid_t __wrap_getuid(void) { return 0; }
ssize_t __wrap_readlink(const char* p, char* b, size_t n)
{
	if (in_sim && !strcmp(p, "/etc/localtime")) {
		const char* t = "/usr/share/zoneinfo/UTC";
		size_t c = std::min(n, strlen(t));
		memcpy(b, t, c);
		return c;
	}
	if (!sim_path(p)) { errno = ENOENT; return -1; }
	int i = walk(p, NULL, NULL, false);
	if (i < 0) return -1;
	if (inodes[i]->type != 2) { errno = EINVAL; return -1; }
	size_t c = std::min(n, inodes[i]->target.size());
	memcpy(b, inodes[i]->target.data(), c);
	return c;
}
int __wrap_mkdir(const char* p, mode_t)
{
	if (!sim_path(p)) { errno = ENOENT; return -1; }
	sync_point("mkdir");
	int pb; std::string lb;
	int m = walk(p, &pb, &lb, false);
	if (m >= 0) { errno = EEXIST; return -1; }
	if (pb < 0 || lb.empty()) { errno = ENOENT; return -1; }
	if (faulty(NULL, p) && fault_draw(SIM_F_META_EIO, 1)) { errno = EIO; return -1; }
	bool crash = disk_op("mkdir");
	if (crash && pick(24, 2) == 0) sim_crash();
	Inode* i = inode_new(1); i->nlink = 1;
	inodes[pb]->ent[lb] = i->id;
	journal.push_back({0, pb, lb, i->id, 0, ""});
	if (crash) sim_crash();
	return 0;
}
int __wrap_rmdir(const char* p)
{
	if (!sim_path(p)) { errno = ENOENT; return -1; }
	sync_point("rmdir");
	int pb; std::string lb;
	int m = walk(p, &pb, &lb, false);
	if (m < 0) return -1;
	if (inodes[m]->type != 1) { errno = ENOTDIR; return -1; }
	if (!inodes[m]->ent.empty()) { errno = ENOTEMPTY; return -1; }
	if (faulty(NULL, p) && fault_draw(SIM_F_META_EIO, 1)) { errno = EIO; return -1; }
	bool crash = disk_op("rmdir");
	if (crash && pick(24, 2) == 0) sim_crash();
	inodes[pb]->ent.erase(lb);
	journal.push_back({1, pb, lb, m, 0, ""});
	if (crash) sim_crash();
	return 0;
}
int __wrap_flock(int fd, int op)
{
	Fd* f = fd_of(fd);
	if (!f || f->type != FD_FILE) { errno = EBADF; return -1; }
	sync_point("flock");
	auto& v = f->ino->flock_fds;
	if (op & LOCK_UN) { v.erase(std::remove(v.begin(), v.end(), fd), v.end()); return 0; }
	for (int o : v) if (o != fd) { errno = EWOULDBLOCK; return -1; }
	if (std::find(v.begin(), v.end(), fd) == v.end()) v.push_back(fd);
	return 0;
}

// directories
struct SimDir { uint64_t magic; std::vector<std::string> names; size_t pos; struct dirent ent; };
DIR* __wrap_opendir(const char* name)
{
	std::string host = host_path(name);
	const char* p = host.c_str();
	if (!sim_path(p)) { if (!in_sim) return __real_opendir(p); errno = ENOENT; return NULL; }
	sync_point("opendir");
	if (faulty(NULL, p) && fault_draw(SIM_F_OPEN_EIO, 1)) { errno = EMFILE; return NULL; }
	int n = walk(p, NULL, NULL, true);
	if (n < 0) return NULL;
	if (inodes[n]->type != 1) { errno = ENOTDIR; return NULL; }
	SimDir* d = new SimDir();
	d->magic = 0x51D1; d->pos = 0;
	for (auto& e : inodes[n]->ent) d->names.push_back(e.first);
	// directory order is unspecified
	for (size_t i = d->names.size(); i > 1; i--) { size_t j = i - 1 - pick(25, i); std::swap(d->names[i - 1], d->names[j]); }
	d->names.insert(d->names.begin(), "..");
	d->names.insert(d->names.begin(), ".");
	return (DIR*)d;
}
struct dirent* __wrap_readdir(DIR* p)
{
	SimDir* d = (SimDir*)p;
	if (d->magic != 0x51D1) return __real_readdir(p);
	sync_point("readdir");
	if (d->pos >= d->names.size()) return NULL;
	memset(&d->ent, 0, sizeof d->ent);
	snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", d->names[d->pos++].c_str());
	d->ent.d_type = DT_UNKNOWN;
	return &d->ent;
}
struct dirent* __wrap_readdir64(DIR* p) { return __wrap_readdir(p); }
int __wrap_closedir(DIR* p)
{
	SimDir* d = (SimDir*)p;
	if (d->magic != 0x51D1) return __real_closedir(p);
	d->magic = 0;
	delete d;
	return 0;
}

// ------------------------------------------------------------------ oracle access
SimFile sim_disk_file(const char* path)
{
	SimFile r = {NULL, 0, false};
	int e = errno;
	int n = walk(path, NULL, NULL, true);
	errno = e;
	if (n < 0 || inodes[n]->type != 0) return r;
	r.exists = true; r.data = inodes[n]->data.data(); r.size = inodes[n]->data.size();
	return r;
}
bool sim_disk_exists(const char* path) { int e = errno; int n = walk(path, NULL, NULL, false); errno = e; return n >= 0; }
int sim_disk_list(const char* dir, void (*cb)(void*, const char*), void* arg)
{
	int e = errno;
	int n = walk(dir, NULL, NULL, true);
	errno = e;
	if (n < 0 || inodes[n]->type != 1) return -1;
	for (auto& x : inodes[n]->ent) cb(arg, x.first.c_str());
	return inodes[n]->ent.size();
}
bool sim_disk_flip(const char* path, size_t off, uint8_t mask)
{
	int n = walk(path, NULL, NULL, true);
	if (n < 0 || off >= inodes[n]->data.size()) return false;
	inodes[n]->data[off] ^= mask;
	inodes[n]->ddata = inodes[n]->data; inodes[n]->pend.clear();
	return true;
}
bool sim_disk_cut(const char* path, size_t size)
{
	int n = walk(path, NULL, NULL, true);
	if (n < 0) return false;
	inodes[n]->data.resize(size); inodes[n]->ddata = inodes[n]->data; inodes[n]->pend.clear();
	return true;
}
void sim_disk_mkdir(const char* path)
{
	int pb; std::string lb;
	int m = walk(path, &pb, &lb, false);
	if (m >= 0 || pb < 0) return;
	Inode* i = inode_new(1); i->nlink = 1;
	inodes[pb]->ent[lb] = i->id; inodes[pb]->dent[lb] = i->id;
}
void sim_disk_put(const char* path, const void* data, size_t size)
{
	int pb; std::string lb;
	int m = walk(path, &pb, &lb, true);
	Inode* i;
	if (m >= 0) i = inodes[m];
	else { if (pb < 0) sim_broken("sim_disk_put %s", path); i = inode_new(0); i->nlink = 1; inodes[pb]->ent[lb] = i->id; inodes[pb]->dent[lb] = i->id; }
	i->data.assign((const uint8_t*)data, (const uint8_t*)data + size); i->ddata = i->data; i->pend.clear();
}
size_t sim_disk_synced(const char* path)
{
	int n = walk(path, NULL, NULL, true);
	if (n < 0) return 0;
	uint64_t lo = inodes[n]->data.size();
	for (auto& p : inodes[n]->pend) lo = std::min(lo, p.off);
	return lo;
}

// ------------------------------------------------------------------ event fd / epoll
int __wrap_eventfd(unsigned v, int)
{
	int fd = fd_new(FD_EVENT);
	fd_of(fd)->ev = v;
	return fd;
}
int __wrap_epoll_create(int) { return fd_new(FD_EPOLL); }
int __wrap_epoll_create1(int) { return fd_new(FD_EPOLL); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* e)
{
	sync_point("epoll_ctl");
	Fd* f = fd_of(ep);
	if (!f || f->type != FD_EPOLL) { errno = EBADF; return -1; }
	if (!fd_of(fd)) { errno = EBADF; return -1; }
	bool has = f->watch.count(fd);
	switch (op) {
	case EPOLL_CTL_ADD: if (has) { errno = EEXIST; return -1; } f->watch[fd] = {e->events, e->data.u64}; break;
	case EPOLL_CTL_MOD: if (!has) { errno = ENOENT; return -1; } f->watch[fd] = {e->events, e->data.u64}; break;
	case EPOLL_CTL_DEL: if (!has) { errno = ENOENT; return -1; } f->watch.erase(fd); break;
	}
	return 0;
}
static uint32_t fd_events(Fd* f)
{
	switch (f->type) {
	case FD_EVENT: return (f->ev ? EPOLLIN : 0) | EPOLLOUT;
	case FD_SOCK: {
		Sock* s = f->sock;
		uint32_t e = 0;
		if (s->listening) return s->backlog.empty() ? 0 : EPOLLIN;
		if (s->reset) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
		if (s->connecting) return 0;
		if (s->conn_err) return EPOLLOUT | EPOLLERR | EPOLLHUP;
		if (!s->rx.empty() || s->peer_closed) e |= EPOLLIN;
		if (s->connected) {
			if (!s->peer || s->peer->closed) e |= EPOLLOUT;
			else if (s->peer->rx.size() + s->inflight < (size_t)net_window) e |= EPOLLOUT;
		}
		return e;
	}
	case FD_FILE: return EPOLLIN | EPOLLOUT;
	}
	return 0;
}
static int epoll_gather(Fd* f, struct epoll_event* out, int max)
{
	std::vector<struct epoll_event> r;
	for (auto& w : f->watch) {
		Fd* x = fd_of(w.first);
		if (!x) continue;
		uint32_t e = fd_events(x) & (w.second.first | EPOLLERR | EPOLLHUP);
		if (!e) continue;
		struct epoll_event ev; ev.events = e; ev.data.u64 = w.second.second;
		r.push_back(ev);
	}
	if (!out) return r.size();
	if (r.empty()) return 0;
	// order is unspecified: rotate
	size_t rot = pick(26, r.size());
	int n = std::min((int)r.size(), max);
	for (int i = 0; i < n; i++) out[i] = r[(i + rot) % r.size()];
	return n;
}
int __wrap_epoll_wait(int ep, struct epoll_event* out, int max, int timeout)
{
	sync_point("epoll_wait");
	Fd* f = fd_of(ep);
	if (!f || f->type != FD_EPOLL) { errno = EBADF; return -1; }
	if (max <= 0) { errno = EINVAL; return -1; }
	int n = epoll_gather(f, out, max);
	if (n || timeout == 0) return n;
	if (timeout != 0 && fault_draw(SIM_F_EPOLL_SPURIOUS, 1)) { errno = EINTR; return -1; }
	uint64_t dl = timeout < 0 ? UINT64_MAX : now_ns + (uint64_t)timeout * 1000000ull;
	block_until("epoll", [f] { return epoll_gather(f, NULL, 0) > 0; }, dl);
	return epoll_gather(f, out, max);
}

// ------------------------------------------------------------------ sockets
static uint64_t net_delay()
{
	uint64_t d = 20000;
	if (fault_draw(SIM_F_NET_DELAY, 1)) { static const uint64_t x[] = {100000, 1000000, 30000000, 400000000}; d = x[pick(27, 4)]; }
	return d;
}
static void deliver(Sock* from, Sock* to, Bytes data, bool fin)
{
	uint64_t at = std::max(now_ns + net_delay(), from->last_at + 1);
	from->last_at = at;
	from->inflight += data.size();
	sh->net_bytes += data.size();
	add_timed(at, [from, to, data, fin] {
		from->inflight -= data.size();
		if (to->closed || to->reset) return;
		to->rx.insert(to->rx.end(), data.begin(), data.end());
		if (fin) to->peer_closed = true;
	});
}
static ssize_t sock_write(Fd* f, const uint8_t* p, size_t n)
{
	Sock* s = f->sock;
	if (s->reset) { errno = ECONNRESET; return -1; }
	if (!s->connected) { errno = ENOTCONN; return -1; }
	if (!s->peer || s->peer->closed) { errno = EPIPE; return -1; }
	if (n == 0) return 0;
	if (fault_draw(SIM_F_NET_RESET, 1)) { s->reset = true; s->rx.clear(); Sock* q = s->peer; if (q) { q->reset = true; q->rx.clear(); } errno = ECONNRESET; return -1; }
	if (fault_draw(SIM_F_NET_EINTR, 1)) { errno = EINTR; return -1; }
	size_t used = s->peer->rx.size() + s->inflight;
	if (used >= (size_t)net_window) { errno = EAGAIN; return -1; }
	size_t c = std::min(n, (size_t)net_window - used);
	uint64_t v;
	if (c > 1 && (v = fault_draw(SIM_F_NET_SHORT, c - 1))) c = v;
	deliver(s, s->peer, Bytes(p, p + c), false);
	return c;
}
static ssize_t sock_read(Fd* f, uint8_t* p, size_t n)
{
	Sock* s = f->sock;
	if (s->reset) { errno = ECONNRESET; return -1; }
	if (s->rx.empty()) {
		if (s->peer_closed) return 0;
		if (!s->connected) { errno = ENOTCONN; return -1; }
		errno = EAGAIN; return -1;
	}
	size_t c = std::min(n, s->rx.size());
	uint64_t v;
	if (c > 1 && (v = fault_draw(SIM_F_NET_SHORT, c - 1))) c = v;
	std::copy(s->rx.begin(), s->rx.begin() + c, p);
	s->rx.erase(s->rx.begin(), s->rx.begin() + c);
	return c;
}
static void sock_close(Sock* s)
{
	s->closed = true;
	if (s->listening) {
		for (auto it = listeners.begin(); it != listeners.end();) { if (it->second == s) it = listeners.erase(it); else ++it; }
		for (auto b : s->backlog) { b->reset = true; if (b->peer) b->peer->reset = true; }
	}
	if (s->peer && !s->peer->closed) deliver(s, s->peer, Bytes(), true);
}
static int sock_fd(Sock* s) { int fd = fd_new(FD_SOCK); fd_of(fd)->sock = s; return fd; }
int sim_net_pair(int sv[2])
{
	Sock* a = new Sock(); Sock* b = new Sock();
	a->peer = b; b->peer = a; a->connected = b->connected = true;
	a->family = b->family = AF_UNIX;
	sv[0] = sock_fd(a); sv[1] = sock_fd(b);
	return 0;
}
void sim_net_window(int n) { net_window = n; }
void sim_net_cut(int fd)
{
	Fd* f = fd_of(fd);
	if (!f || f->type != FD_SOCK) return;
	sh->faults[SIM_F_NET_RESET]++;
	f->sock->reset = true; f->sock->rx.clear();
	if (f->sock->peer) { f->sock->peer->reset = true; f->sock->peer->rx.clear(); }
}
int sim_net_partition(bool on) { net_parted = on; return 0; }

static std::string addr_str(const struct sockaddr* sa)
{
	char b[256];
	if (sa->sa_family == AF_UNIX) snprintf(b, sizeof b, "unix:%s", ((struct sockaddr_un*)sa)->sun_path);
	else if (sa->sa_family == AF_INET) snprintf(b, sizeof b, "inet:%d", ntohs(((struct sockaddr_in*)sa)->sin_port));
	else snprintf(b, sizeof b, "inet:%d", ntohs(((struct sockaddr_in6*)sa)->sin6_port));
	return b;
}
int __wrap_socket(int family, int, int) { sync_point("socket"); if (fault_draw(SIM_F_OPEN_EIO, 1)) { errno = EMFILE; return -1; } Sock* s = new Sock(); s->family = family; return sock_fd(s); }
int __wrap_bind(int fd, const struct sockaddr* sa, socklen_t)
{
	Fd* f = fd_of(fd); if (!f || f->type != FD_SOCK) { errno = EBADF; return -1; }
	f->sock->addr = addr_str(sa);
	if (listeners.count(f->sock->addr)) { errno = EADDRINUSE; return -1; }
	if (sa->sa_family == AF_UNIX && sim_path(((struct sockaddr_un*)sa)->sun_path))
		sim_disk_put(((struct sockaddr_un*)sa)->sun_path, "", 0);
	return 0;
}
int __wrap_listen(int fd, int n)
{
	Fd* f = fd_of(fd); if (!f || f->type != FD_SOCK) { errno = EBADF; return -1; }
	f->sock->listening = true; f->sock->backlog_max = n;
	listeners[f->sock->addr] = f->sock;
	return 0;
}
int __wrap_accept(int fd, struct sockaddr* sa, socklen_t* n)
{
	sync_point("accept");
	Fd* f = fd_of(fd); if (!f || f->type != FD_SOCK) { errno = EBADF; return -1; }
	if (f->sock->backlog.empty()) { errno = EAGAIN; return -1; }
	if (fault_draw(SIM_F_OPEN_EIO, 1)) { errno = EMFILE; return -1; }
	Sock* s = f->sock->backlog.front(); f->sock->backlog.pop_front();
	if (sa && n) { memset(sa, 0, *n); sa->sa_family = s->family; }
	return sock_fd(s);
}
int __wrap_connect(int fd, const struct sockaddr* sa, socklen_t)
{
	sync_point("connect");
	Fd* f = fd_of(fd); if (!f || f->type != FD_SOCK) { errno = EBADF; return -1; }
	Sock* s = f->sock;
	std::string a = addr_str(sa);
	s->connecting = true;
	add_timed(now_ns + net_delay(), [s, a] {
		s->connecting = false;
		auto it = listeners.find(a);
		if (s->closed) return;
		if (it == listeners.end() || net_parted) { s->conn_err = ECONNREFUSED; return; }
		Sock* p = new Sock();
		p->family = s->family; p->peer = s; s->peer = p; p->connected = s->connected = true;
		it->second->backlog.push_back(p);
	});
	errno = EINPROGRESS;
	return -1;
}
int __wrap_getsockopt(int fd, int, int opt, void* v, socklen_t*)
{
	Fd* f = fd_of(fd); if (!f || f->type != FD_SOCK) { errno = EBADF; return -1; }
	if (opt == SO_ERROR) { *(int*)v = f->sock->conn_err ? f->sock->conn_err : f->sock->reset ? ECONNRESET : 0; return 0; }
	*(int*)v = 0;
	return 0;
}
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_getsockname(int fd, struct sockaddr* sa, socklen_t* n)
{
	Fd* f = fd_of(fd); if (!f || f->type != FD_SOCK) { errno = EBADF; return -1; }
	memset(sa, 0, *n); sa->sa_family = f->sock->family;
	return 0;
}
int __wrap_getpeername(int fd, struct sockaddr* sa, socklen_t* n) { return __wrap_getsockname(fd, sa, n); }
int __wrap_fcntl(int fd, int, ...) { return fd_of(fd) ? 0 : -1; }
int __wrap_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
int __wrap_isatty(int) { return 0; }
int __wrap_getaddrinfo(const char*, const char* service, const struct addrinfo*, struct addrinfo** out)
{
	struct addrinfo* a = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in));
	struct sockaddr_in* in = (struct sockaddr_in*)(a + 1);
	in->sin_family = AF_INET; in->sin_port = htons(service ? atoi(service) : 0); in->sin_addr.s_addr = htonl(0x7f000001);
	a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (struct sockaddr*)in; a->ai_addrlen = sizeof *in;
	*out = a;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* a) { free(a); }
} // extern C
