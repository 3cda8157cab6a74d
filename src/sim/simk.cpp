#include "simk.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <map>

namespace sim { extern int g_nopreempt; void sync_point(); }

namespace simk
{
	config cfg;
	marks m;
	std::function<void()> on_call;
	static std::map<std::string, std::shared_ptr<inode>>* g_names;
	static std::vector<open_file*>* g_fds; // index + base
	static const int base = 500;
	static bool g_zero; // the first descriptor is 0, as in a process whose standard input is closed
	static int number(size_t i) { return g_zero && !i ? 0 : base + (int)i; }
	static int index(int fd) { return g_zero && !fd ? 0 : fd < base || (g_zero && fd == base) ? -1 : fd - base; }
	void low_descriptors() { g_zero = g_fds->empty(); }
	static unsigned g_bad_closes, g_calls;
	static uint64_t g_inodes;

	struct guard { guard() { ++sim::g_nopreempt; } ~guard() { --sim::g_nopreempt; } };

	static void drop(int i)
	{
		open_file* o = (*g_fds)[i];
		(*g_fds)[i] = nullptr;
		if (!--o->refs) delete o;
	}
	void run_begin()
	{
		if (!g_names) { g_names = new std::map<std::string, std::shared_ptr<inode>>; g_fds = new std::vector<open_file*>; }
		g_names->clear();
		g_fds->clear();
		g_zero = false;
		g_bad_closes = g_calls = 0;
		g_inodes = 0;
		cfg = config();
		m = marks();
		on_call = nullptr;
	}
	void run_end()
	{
		for (size_t i = 0; i < g_fds->size(); ++i) if ((*g_fds)[i]) drop((int)i);
		g_fds->clear();
		g_names->clear();
		on_call = nullptr;
	}
	open_file* of(int fd)
	{
		int i = index(fd);
		return i < 0 || (size_t)i >= g_fds->size() ? nullptr : (*g_fds)[i];
	}
	static int add(open_file* o)
	{
		++o->refs;
		for (size_t i = 0; i < g_fds->size(); ++i)
			if (!(*g_fds)[i]) { (*g_fds)[i] = o; return number(i); } // lowest free number, as POSIX has it
		g_fds->push_back(o);
		return number(g_fds->size() - 1);
	}
	unsigned fds_open() { unsigned n = 0; for (auto o : *g_fds) if (o) ++n; return n; }
	unsigned bad_closes() { return g_bad_closes; }
	unsigned calls() { return g_calls; }
	uint64_t disk_used() { uint64_t n = 0; for (auto& x : *g_names) n += x.second->data.size(); return n; }
	std::shared_ptr<inode> file(const char* path) { guard g; auto i = g_names->find(path); return i == g_names->end() ? nullptr : i->second; }
	static int64_t wall() { return 1700000000000000000ll + (int64_t)sim::now_ns(); }
	std::shared_ptr<inode> make_file(const char* path, const std::vector<uint8_t>& content)
	{
		guard g;
		auto i = std::make_shared<inode>();
		i->id = ++g_inodes;
		i->data = i->durable = content;
		i->atime = i->mtime = i->ctime = wall();
		(*g_names)[path] = i;
		return i;
	}
	int open_stream(std::shared_ptr<stream> s) { guard g; auto o = new open_file; o->str = s; o->flags = O_RDWR; return add(o); }
	int open_sim(const char* path, int flags)
	{
		guard g;
		auto i = file(path);
		if (!i) i = make_file(path, {});
		auto o = new open_file; o->ino = i; o->flags = flags;
		return add(o);
	}
	int close_quiet(int fd) { guard g; if (!of(fd)) return -1; drop(index(fd)); return 0; }

	std::vector<uint8_t> crash_image(const inode& i)
	{
		guard g;
		std::vector<uint8_t> d = i.durable;
		for (auto& w : i.pending) {
			switch (sim::choose(4)) {
			case 0: continue; // lost
			case 1: // torn
				if (!w.trunc && w.data.size() > 1) {
					uint32_t a = sim::choose((uint32_t)w.data.size()), b = a + 1 + sim::choose((uint32_t)w.data.size() - a);
					if (b > w.data.size()) b = (uint32_t)w.data.size();
					if (d.size() < w.off + b) d.resize(w.off + b);
					memcpy(d.data() + w.off + a, w.data.data() + a, b - a);
					sim::count_fault("torn_write");
					break;
				}
				[[fallthrough]];
			default:
				if (w.trunc) d.resize(w.size);
				else {
					if (d.size() < w.off + w.data.size()) d.resize(w.off + w.data.size());
					memcpy(d.data() + w.off, w.data.data(), w.data.size());
				}
			}
		}
		return d;
	}

	static void enter(bool disk)
	{
		sim::sync_point();
		++g_calls; ++m.calls;
		if (disk && on_call) { guard g; auto f = on_call; f(); }
	}
	static bool fail(const char* kind, uint32_t p, unsigned& mark, int err)
	{
		guard g;
		if (!sim::inject(kind, p, 1000)) return false;
		++mark; ++m.errors;
		errno = err;
		return true;
	}
	static ssize_t do_read(int fd, void* buf, size_t n, int64_t at, bool sock)
	{
		open_file* o = of(fd);
		if (!o) { errno = EBADF; return -1; }
		enter((bool)o->ino);
		guard g;
		if (o->ino && (o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
		if (fail("EINTR", cfg.eintr, m.eintr, EINTR)) return -1;
		if (o->str && o->str->reset) {
			if (o->str->reset == 2) { o->str->reset = 3; ++m.read_errors; ++m.errors; errno = ECONNRESET; return -1; }
			if (o->str->reset == 3) return 0;
			++m.read_errors; ++m.errors; errno = ECONNRESET; return -1;
		}
		if (fail(sock ? "recv_error" : "read_error", cfg.read_error, m.read_errors, sock ? ECONNRESET : EIO)) {
			if (o->str && o->str->sticky_reset) o->str->reset = 1;
			return -1;
		}
		if (o->str) {
			stream& s = *o->str;
			if (s.shut_rd) return 0;
			size_t avail = s.in.size() - s.in_pos;
			if (!avail && s.reset_after_data) { s.reset = 3; sim::count_fault("connection_reset"); ++m.read_errors; ++m.errors; errno = ECONNRESET; return -1; }
			if (avail && n && fail("EAGAIN", cfg.eagain, m.eagain, EAGAIN)) return -1;
			if (!avail) { if (s.in_closed || !n) return 0; ++m.eagain; errno = EAGAIN; return -1; }
			if (n > avail) n = avail;
			if (n > 1 && sim::inject(sock ? "short_recv" : "short_read", cfg.short_read, 1000)) n = 1 + sim::choose((uint32_t)(n < 5000 ? n - 1 : 4999));
			memcpy(buf, s.in.data() + s.in_pos, n);
			s.in_pos += n;
			sim::evn(0x30, fd, n);
			return (ssize_t)n;
		}
		uint64_t pos = at >= 0 ? (uint64_t)at : o->pos;
		inode& i = *o->ino;
		if (pos >= i.data.size()) { i.atime = wall(); return 0; }
		if (n > i.data.size() - pos) n = i.data.size() - pos;
		if (n > 1 && sim::inject("short_read", cfg.short_read, 1000)) n = 1 + sim::choose((uint32_t)(n < 70000 ? n - 1 : 69999));
		memcpy(buf, i.data.data() + pos, n);
		if (at < 0) o->pos += n;
		i.atime = wall();
		sim::evn(0x30, fd, n);
		return (ssize_t)n;
	}
	static ssize_t do_write(int fd, const void* buf, size_t n, int64_t at, bool sock)
	{
		open_file* o = of(fd);
		if (!o) { errno = EBADF; return -1; }
		enter((bool)o->ino);
		guard g;
		if (o->ino && (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
		if (fail("EINTR", cfg.eintr, m.eintr, EINTR)) return -1;
		if (o->str && o->str->reset) { ++m.write_errors; ++m.errors; errno = ECONNRESET; return -1; }
		if (fail(sock ? "send_error" : "write_error", cfg.write_error, m.write_errors, sock ? ECONNRESET : EIO)) {
			if (o->str && o->str->sticky_reset) o->str->reset = 1;
			return -1;
		}
		if (o->str) {
			stream& s = *o->str;
			if (s.out_broken || s.shut_wr) { ++m.write_errors; ++m.errors; errno = EPIPE; return -1; }
			if (n && !s.out_room) { sim::count_fault("peer_stalled"); ++m.eagain; errno = EAGAIN; return -1; }
			if (n > s.out_room) n = (size_t)s.out_room;
			if (n && fail("EAGAIN", cfg.eagain, m.eagain, EAGAIN)) return -1;
			if (n > 1 && sim::inject(sock ? "short_send" : "short_write", cfg.short_write, 1000)) n = 1 + sim::choose((uint32_t)(n < 5000 ? n - 1 : 4999));
			if (s.out_room != UINT64_MAX) s.out_room -= n;
			s.out.insert(s.out.end(), (const uint8_t*)buf, (const uint8_t*)buf + n);
			sim::evn(0x31, fd, n);
			return (ssize_t)n;
		}
		inode& i = *o->ino;
		uint64_t pos = at >= 0 ? (uint64_t)at : (o->flags & O_APPEND) ? i.data.size() : o->pos;
		if (!n) return 0;
		if (n > 1 && sim::inject("short_write", cfg.short_write, 1000)) n = 1 + sim::choose((uint32_t)(n < 70000 ? n - 1 : 69999));
		if (cfg.capacity != UINT64_MAX && pos + n > i.data.size()) {
			uint64_t used = disk_used(), grow = pos + n - i.data.size();
			if (used + grow > cfg.capacity) {
				uint64_t room = cfg.capacity > used ? cfg.capacity - used : 0;
				uint64_t end = i.data.size() + room;
				sim::count_fault("disk_full");
				++m.nospace; ++m.errors;
				if (end <= pos) { errno = ENOSPC; return -1; }
				n = end - pos; // the kernel stores what fits
			}
		}
		if (pos + n > (1u << 28)) sim::harness_error("simulated file grows beyond 256 MB");
		if (i.data.size() < pos + n) i.data.resize(pos + n);
		memcpy(i.data.data() + pos, buf, n);
		write_rec r; r.off = pos; r.trunc = false; r.size = 0; r.data.assign((const uint8_t*)buf, (const uint8_t*)buf + n);
		i.pending.push_back(std::move(r));
		if (o->flags & O_DSYNC) { i.durable = i.data; i.pending.clear(); ++i.fsyncs; }
		if (at < 0) o->pos = pos + n;
		i.mtime = i.ctime = wall();
		sim::evn(0x31, fd, n);
		return (ssize_t)n;
	}
	static int64_t do_seek(int fd, int64_t off, int whence)
	{
		open_file* o = of(fd);
		if (!o) { errno = EBADF; return -1; }
		enter((bool)o->ino);
		guard g;
		if (o->str) { errno = ESPIPE; return -1; }
		if (!(cfg.tell_works && whence == SEEK_CUR && !off) && fail("seek_error", cfg.seek_error, m.seek_errors, EIO)) return -1;
		int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o->pos : whence == SEEK_END ? (int64_t)o->ino->data.size() : -1;
		if (b < 0 || b + off < 0) { errno = EINVAL; return -1; }
		o->pos = (uint64_t)(b + off);
		return (int64_t)o->pos;
	}
	static int do_trunc(int fd, int64_t size)
	{
		open_file* o = of(fd);
		if (!o) { errno = EBADF; return -1; }
		enter((bool)o->ino);
		guard g;
		if (o->str || size < 0) { errno = EINVAL; return -1; }
		if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
		if (fail("truncate_error", cfg.truncate_error, m.trunc_errors, EIO)) return -1;
		if (size > (1 << 28)) { errno = EFBIG; return -1; }
		o->ino->data.resize((size_t)size);
		write_rec r; r.off = 0; r.trunc = true; r.size = (uint64_t)size;
		o->ino->pending.push_back(std::move(r));
		o->ino->mtime = o->ino->ctime = wall();
		return 0;
	}
	static int do_sync(int fd)
	{
		open_file* o = of(fd);
		if (!o) { errno = EBADF; return -1; }
		enter((bool)o->ino);
		guard g;
		if (o->str) { errno = EINVAL; return -1; }
		if (fail("fsync_error", cfg.fsync_error, m.fsync_errors, EIO)) { static const int e[] = { EIO, EINTR, ENOSPC }; errno = e[sim::choose(3)]; return -1; }
		o->ino->durable = o->ino->data;
		o->ino->pending.clear();
		++o->ino->fsyncs;
		sim::evn(0x32, fd);
		return 0;
	}
	static int do_lock(int fd, int cmd, int64_t off, int64_t len)
	{
		open_file* o = of(fd);
		if (!o) { errno = EBADF; return -1; }
		enter((bool)o->ino);
		guard g;
		if (!o->ino) { errno = EINVAL; return -1; }
		if (fail("lock_error", cfg.lock_error, m.lock_errors, cmd == F_TLOCK ? EAGAIN : EDEADLK)) return -1;
		if (len < 0) { off += len; len = -len; }
		if (off < 0) { errno = EINVAL; return -1; }
		if (len && off > INT64_MAX - (len - 1)) { errno = EOVERFLOW; return -1; }
		const uint64_t b = (uint64_t)off, e = len ? b + (uint64_t)len : UINT64_MAX;
		auto& L = o->ino->locks;
		if (cmd == F_TEST || cmd == F_TLOCK || cmd == F_LOCK) {
			if (cmd != F_TEST && (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
			auto& F = o->ino->foreign;
			for (size_t i = 0; i < F.size();) {
				if (F[i].off >= e || F[i].off + F[i].len <= b) { ++i; continue; }
				if (cmd != F_LOCK) { errno = EAGAIN; ++m.lock_errors; ++m.errors; return -1; }
				sim::count_fault("lock_conflict");
				if (sim::choose(3) == 1) { errno = EDEADLK; ++m.lock_errors; ++m.errors; return -1; }
				F.erase(F.begin() + (long)i); // the other process lets go of it while we wait
				++m.lock_waits;
			}
			if (cmd == F_TEST) return 0;
		}
		else if (cmd != F_ULOCK) { errno = EINVAL; return -1; }
		std::vector<lock_rec> out;
		uint64_t nb = b, ne = e;
		for (auto& k : L) {
			uint64_t ke = k.off + k.len;
			if (cmd == F_ULOCK) {
				if (ke <= b || k.off >= e) { out.push_back(k); continue; }
				if (k.off < b) out.push_back({ k.off, b - k.off });
				if (ke > e) out.push_back({ e, ke - e });
			}
			else if (ke < b || k.off > e) out.push_back(k);
			else { if (k.off < nb) nb = k.off; if (ke > ne) ne = ke; }
		}
		if (cmd != F_ULOCK) out.push_back({ nb, ne - nb });
		std::sort(out.begin(), out.end(), [](const lock_rec& x, const lock_rec& y) { return x.off < y.off; });
		L = out;
		sim::evn(0x36, b, e);
		return 0;
	}
	static int do_open(const char* path, int flags, int mode = 0666)
	{
		enter(true);
		guard g;
		if (fail("open_error", cfg.open_error, m.open_errors, EMFILE)) return -1;
		auto it = g_names->find(path);
		if (it == g_names->end()) {
			if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
			make_file(path, {})->mode = (unsigned)mode & 0755;
			it = g_names->find(path);
		}
		else {
			if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
			if ((flags & O_TRUNC) && it->second->data.size()) { it->second->data.clear(); write_rec r; r.off = 0; r.trunc = true; r.size = 0; it->second->pending.push_back(r); }
		}
		auto o = new open_file; o->ino = it->second; o->flags = flags;
		int fd = add(o);
		sim::evn(0x33, fd);
		return fd;
	}
	static int do_close(int fd)
	{
		sim::sync_point();
		guard g;
		++g_calls;
		open_file* o = of(fd);
		sim::evn(0x34, fd);
		if (!o) { ++g_bad_closes; errno = EBADF; return -1; }
		auto ino = o->ino;
		drop(index(fd));
		if (ino) ino->locks.clear(); // POSIX: closing any descriptor of a file drops the process' locks
		if (fail("close_error", cfg.close_error, m.close_errors, EIO)) { static const int e[] = { EIO, EINTR, ENOSPC }; errno = e[sim::choose(3)]; return -1; } // the descriptor is gone nevertheless, as on Linux
		return 0;
	}
	static int do_dup(int fd)
	{
		sim::sync_point();
		guard g;
		open_file* o = of(fd);
		if (!o) { errno = EBADF; return -1; }
		if (fail("dup_error", cfg.dup_error, m.dup_errors, EMFILE)) return -1;
		return add(o);
	}
	static void fill(const inode* ino, struct stat* st)
	{
		memset(st, 0, sizeof(*st));
		st->st_mode = ino ? (S_IFREG | ino->mode) : (S_IFIFO | 0644);
		st->st_nlink = 1;
		if (ino) {
			st->st_size = (off_t)ino->data.size();
			st->st_ino = ino->id;
			st->st_blksize = 4096;
			auto set = [](struct timespec& ts, int64_t t) { ts.tv_sec = t / 1000000000; ts.tv_nsec = t % 1000000000; if (ts.tv_nsec < 0) { ts.tv_nsec += 1000000000; --ts.tv_sec; } };
			set(st->st_atim, ino->atime); set(st->st_mtim, ino->mtime); set(st->st_ctim, ino->ctime);
		}
	}
	static int do_fstat(int fd, struct stat* st)
	{
		open_file* o = of(fd);
		if (!o) { errno = EBADF; return -1; }
		enter(false);
		guard g;
		if (fail("stat_error", cfg.stat_error, m.stat_errors, EIO)) return -1;
		fill(o->ino.get(), st);
		return 0;
	}
	static int do_stat(const char* path, struct stat* st)
	{
		enter(false);
		guard g;
		if (fail("stat_error", cfg.stat_error, m.stat_errors, EACCES)) return -1;
		auto i = g_names->find(path);
		if (i == g_names->end()) { errno = ENOENT; return -1; }
		fill(i->second.get(), st);
		return 0;
	}
	static int do_access(const char* path, int how)
	{
		struct stat st;
		if (do_stat(path, &st) < 0) return -1;
		if ((how & W_OK) && !(st.st_mode & 0222)) { errno = EACCES; return -1; }
		return 0;
	}
	static int do_futimens(int fd, const struct timespec ts[2])
	{
		open_file* o = of(fd);
		if (!o || !o->ino) { errno = EBADF; return -1; }
		enter(false);
		guard g;
		if (fail("utime_error", cfg.utime_error, m.utime_errors, EPERM)) return -1;
		for (int k = 0; k < 2; ++k) {
			if (ts && ts[k].tv_nsec == UTIME_OMIT) continue;
			int64_t t;
			if (!ts || ts[k].tv_nsec == UTIME_NOW) t = wall();
			else {
				if (ts[k].tv_nsec < 0 || ts[k].tv_nsec > 999999999) { errno = EINVAL; return -1; }
				__int128 w = (__int128)ts[k].tv_sec * 1000000000 + ts[k].tv_nsec; // a file system stores what it can
				t = w > INT64_MAX ? INT64_MAX : w < INT64_MIN ? INT64_MIN : (int64_t)w;
			}
			(k ? o->ino->mtime : o->ino->atime) = t;
		}
		o->ino->ctime = wall();
		return 0;
	}
}
using namespace simk;
#define REAL(call) if (!sim::active) return call
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __wrap_read(int fd, void* b, size_t n) { REAL(__real_read(fd, b, n)); return do_read(fd, b, n, -1, false); }
ssize_t __real_write(int, const void*, size_t); ssize_t __wrap_write(int fd, const void* b, size_t n) { REAL(__real_write(fd, b, n)); return do_write(fd, b, n, -1, false); }
ssize_t __wrap_pread(int fd, void* b, size_t n, int64_t o) { return do_read(fd, b, n, o, false); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, int64_t o) { return do_read(fd, b, n, o, false); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, int64_t o) { return do_write(fd, b, n, o, false); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, int64_t o) { return do_write(fd, b, n, o, false); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int c)
{
	ssize_t t = 0;
	for (int i = 0; i < c; ++i) { ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1, false); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
	return t;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c)
{
	ssize_t t = 0;
	for (int i = 0; i < c; ++i) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1, false); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
	return t;
}
off_t __real_lseek(int, off_t, int); off_t __wrap_lseek(int fd, off_t o, int w) { REAL(__real_lseek(fd, o, w)); return do_seek(fd, o, w); }
off64_t __real_lseek64(int, off64_t, int); off64_t __wrap_lseek64(int fd, off64_t o, int w) { REAL(__real_lseek64(fd, o, w)); return do_seek(fd, o, w); }
int __real_ftruncate(int, off_t); int __wrap_ftruncate(int fd, off_t s) { REAL(__real_ftruncate(fd, s)); return do_trunc(fd, s); }
int __real_ftruncate64(int, off64_t); int __wrap_ftruncate64(int fd, off64_t s) { REAL(__real_ftruncate64(fd, s)); return do_trunc(fd, s); }
int __real_fsync(int); int __wrap_fsync(int fd) { REAL(__real_fsync(fd)); return do_sync(fd); }
int __real_fdatasync(int); int __wrap_fdatasync(int fd) { REAL(__real_fdatasync(fd)); return do_sync(fd); }
int __wrap_lockf(int fd, int c, off_t n) { open_file* o = of(fd); return do_lock(fd, c, o ? (int64_t)o->pos : 0, n); }
int __wrap_lockf64(int fd, int c, off64_t n) { open_file* o = of(fd); return do_lock(fd, c, o ? (int64_t)o->pos : 0, n); }
int __wrap_flock(int fd, int op) { return do_lock(fd, (op & LOCK_UN) ? F_ULOCK : (op & LOCK_NB) ? F_TLOCK : F_LOCK, 0, 0); }
static int fcntl_common(int fd, int cmd, void* arg)
{
	open_file* o = of(fd);
	if (!o) { errno = EBADF; return -1; }
	switch (cmd) {
	case F_GETFL: return o->flags;
	case F_SETFL: case F_GETFD: case F_SETFD: return 0;
	case F_DUPFD: case F_DUPFD_CLOEXEC: return do_dup(fd);
	case F_SETLK: case F_SETLKW: case F_OFD_SETLK: case F_OFD_SETLKW: {
		auto l = (struct flock*)arg;
		int64_t b = l->l_start + (l->l_whence == SEEK_CUR ? (int64_t)o->pos : l->l_whence == SEEK_END ? (int64_t)o->ino->data.size() : 0);
		return do_lock(fd, l->l_type == F_UNLCK ? F_ULOCK : cmd == F_SETLK || cmd == F_OFD_SETLK ? F_TLOCK : F_LOCK, b, l->l_len);
	}
	}
	errno = EINVAL;
	return -1;
}
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); REAL(__real_fcntl(fd, cmd, a)); return fcntl_common(fd, cmd, a); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); REAL(__real_fcntl(fd, cmd, a)); return fcntl_common(fd, cmd, a); }
int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int f, ...) { va_list ap; va_start(ap, f); int m = (f & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); REAL(__real_open(p, f, m)); return do_open(p, f, m); }
int __wrap_open64(const char* p, int f, ...) { va_list ap; va_start(ap, f); int m = (f & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); REAL(__real_open(p, f, m)); return do_open(p, f, m); }
int __wrap_creat(const char* p, mode_t) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
int __real_close(int); int __wrap_close(int fd) { REAL(__real_close(fd)); return do_close(fd); }
int __real_dup(int); int __wrap_dup(int fd) { REAL(__real_dup(fd)); return do_dup(fd); }
int __real_fstat(int, struct stat*); int __wrap_fstat(int fd, struct stat* st) { REAL(__real_fstat(fd, st)); return do_fstat(fd, st); }
int __wrap_fstat64(int fd, struct stat* st) { REAL(__real_fstat(fd, st)); return do_fstat(fd, st); }
int __real_stat(const char*, struct stat*); int __wrap_stat(const char* p, struct stat* st) { REAL(__real_stat(p, st)); return do_stat(p, st); }
int __wrap_stat64(const char* p, struct stat* st) { REAL(__real_stat(p, st)); return do_stat(p, st); }
int __real_lstat(const char*, struct stat*); int __wrap_lstat(const char* p, struct stat* st) { REAL(__real_lstat(p, st)); return do_stat(p, st); }
int __real_access(const char*, int); int __wrap_access(const char* p, int how) { REAL(__real_access(p, how)); return do_access(p, how); }
int __wrap_futimens(int fd, const struct timespec* ts) { return do_futimens(fd, ts); }
int __wrap_utimensat(int fd, const char*, const struct timespec* ts, int) { return do_futimens(fd, ts); }
int __wrap_unlink(const char* p) { guard g; auto i = g_names->find(p); if (i == g_names->end()) { errno = ENOENT; return -1; } g_names->erase(i); return 0; }
ssize_t __wrap_send(int fd, const void* b, size_t n, int) { return do_write(fd, b, n, -1, true); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int) { return do_read(fd, b, n, -1, true); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int, const struct sockaddr*, socklen_t) { return do_write(fd, b, n, -1, true); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int, struct sockaddr*, socklen_t*) { return do_read(fd, b, n, -1, true); }
int __wrap_shutdown(int fd, int how)
{
	open_file* o = of(fd);
	if (!o || !o->str) { errno = ENOTSOCK; return -1; }
	if (how != SHUT_WR) o->str->shut_rd = true;
	if (how != SHUT_RD) o->str->shut_wr = true;
	return 0;
}
}
