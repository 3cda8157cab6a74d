"""Planted bugs: written from the property texts and the code. plant.py turns them into seeded/<id>/."""
PLANTS = {}


def plant(id, prop, edits, needs, breaks, demo, libs=""):
    PLANTS[id] = dict(property=prop, edits=[("include/stdex/" + f, a, b) for f, a, b in edits], needs=needs, breaks=breaks, demo=demo, libs=libs)


PRE = r'''
#include <stdex/stream.hpp>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <vector>
using namespace stdex::stream;
static int bad(const char* m) { printf("BAD: %s\n", m); fflush(stdout); _exit(1); return 1; }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
'''

plant("ring-quit-producer", "C01", [("ring.hpp", "			m_head_moved.notify_one();\n			m_tail_moved.notify_one();\n", "			m_tail_moved.notify_one();\n")],
      "quit() called by another thread while the producer is blocked in back() on a full ring", "the producer stays blocked forever",
      r'''
#include <stdex/ring.hpp>
#include <stdio.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <thread>
int main()
{
	stdex::ring<int, 4> r;
	std::atomic<bool> out{ false };
	for (size_t n = 0; n < 4;) { size_t k = std::get<1>(r.back()); r.push(k); n += k; }
	std::thread t([&] { auto b = r.back(); out = std::get<0>(b) == nullptr; });
	std::this_thread::sleep_for(std::chrono::milliseconds(200));
	r.quit();
	for (int i = 0; i < 50 && !out; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(100));
	if (!out) { printf("BAD: the producer is stuck\n"); fflush(stdout); _exit(1); }
	t.join();
	return 0;
}
''')

plant("async-writer-push-early", "C02", [("stream.hpp", "					memcpy(ptr, data, num_write);\n					m_ring.push(num_write);\n", "					m_ring.push(num_write);\n					memcpy(ptr, data, num_write);\n")],
      "the writer's thread takes the new bytes before the caller has copied them", "the sink gets stale bytes",
      PRE + r'''
struct sink : basic {
	uint64_t n = 0; bool wrong = false;
	size_t write(const void* d, size_t l) override { auto p = (const uint8_t*)d; for (size_t i = 0; i < l; ++i, ++n) if (p[i] != (uint8_t)(n * 7 + (n >> 9))) wrong = true; m_state = state_t::ok; return l; }
};
int main()
{
	// The caller's memory is slow to read (fresh pages), the sink is fast
	for (int round = 0; round < 30; ++round) {
		sink s;
		uint64_t n = 0;
		{
			auto w = std::make_unique<async_writer<1 << 22>>(s);
			std::vector<uint8_t> b(1 << 20);
			for (int i = 0; i < 20; ++i) {
				size_t l = 1 + (i * 7919 + round * 104729) % b.size();
				for (size_t k = 0; k < l; ++k, ++n) b[k] = (uint8_t)(n * 7 + (n >> 9));
				w->write(b.data(), l);
				if (i % 4 == 3) w->flush();
			}
		}
		if (s.wrong || s.n != n) return bad("the sink got other bytes");
	}
	return 0;
}
''')

plant("async-reader-pop-early", "C03", [("stream.hpp", "					memcpy(data, ptr, num_read);\n					m_ring.pop(num_read);\n", "					m_ring.pop(num_read);\n					memcpy(data, ptr, num_read);\n")],
      "the read-ahead thread refills a full ring while the caller is still copying out of it", "the caller reads bytes of a later position",
      PRE + r'''
static uint8_t at(uint64_t n) { return (uint8_t)(n * 11 + (n >> 13)); }
struct source : basic {
	uint64_t n = 0;
	size_t read(void* d, size_t l) override { auto p = (uint8_t*)d; for (size_t i = l; i--;) p[i] = at(n + i); n += l; m_state = state_t::ok; return l; }
};
int main()
{
	for (int round = 0; round < 8; ++round) {
		source s;
		auto r = std::make_unique<async_reader<1 << 20>>(s);
		uint64_t n = 0;
		std::vector<uint8_t> b(1 << 20);
		for (int i = 0; i < 40; ++i) {
			ms(i % 3);
			size_t l = r->read(b.data(), b.size());
			for (size_t k = 0; k < l; ++k, ++n) if (b[k] != at(n)) return bad("wrong byte");
		}
	}
	return 0;
}
''')

plant("replicator-early-return", "C04", [("stream.hpp", "					if (_w->num_written < num_written)\n						num_written = _w->num_written;\n					if (ok() && !_w->source->ok())\n						m_state = _w->source->state();\n				}\n				return num_written;", "					if (_w->num_written < num_written)\n						num_written = _w->num_written;\n					if (!_w->source->ok()) {\n						m_state = _w->source->state();\n						break;\n					}\n				}\n				return num_written;")],
      "an earlier sink fails while a later one is still writing", "write returns while a sink is still using the caller's buffer",
      PRE + r'''
struct failing : basic { size_t write(const void*, size_t) override { m_state = state_t::fail; return 0; } };
struct slow : basic { std::vector<uint8_t> got; size_t write(const void* d, size_t l) override { ms(200); got.insert(got.end(), (const uint8_t*)d, (const uint8_t*)d + l); m_state = state_t::ok; return l; } };
int main()
{
	failing a; slow b;
	{
		replicator r;
		r.push_back(&a); r.push_back(&b);
		char buf[64];
		memset(buf, 1, sizeof(buf));
		r.write(buf, sizeof(buf));
		if (r.ok()) return bad("state");
		if (b.got.size() != sizeof(buf)) return bad("write returned before the second sink was finished");
		memset(buf, 2, sizeof(buf));
	}
	for (auto x : b.got) if (x != 1) return bad("wrong bytes");
	return 0;
}
''')

plant("watchdog-lost-rearm", "C05", [("watchdog.hpp", "					std::unique_lock<std::mutex> lk(m_mutex);\n					m_cv.wait(lk,", "					std::unique_lock<std::mutex> lk(m_mutex);\n					phase = m_phase;\n					m_cv.wait(lk,")],
      "reset() arrives while the callback is running", "the watchdog is not armed again by this reset and misses the next deadline",
      r'''
#include <stdex/watchdog.hpp>
#include <stdio.h>
#include <atomic>
int main()
{
	std::atomic<int> n{ 0 };
	stdex::watchdog<std::chrono::steady_clock> w(std::chrono::milliseconds(100), [&] { if (++n == 1) std::this_thread::sleep_for(std::chrono::milliseconds(300)); });
	std::this_thread::sleep_for(std::chrono::milliseconds(250)); // in the first callback
	w.reset();
	std::this_thread::sleep_for(std::chrono::milliseconds(1500));
	if (n != 2) { printf("BAD: %d callbacks\n", (int)n); return 1; }
	return 0;
}
''')

plant("spinlock-try-lock-store", "C06", [("spinlock.hpp", "			return\n				!m_lock.load(std::memory_order_relaxed) &&\n				!m_lock.exchange(true, std::memory_order_acquire);", "			if (m_lock.load(std::memory_order_acquire))\n				return false;\n			m_lock.store(true, std::memory_order_relaxed);\n			return true;")],
      "two threads are in try_lock() at once", "both get the lock",
      r'''
#include <stdex/spinlock.hpp>
#include <stdio.h>
#include <thread>
#include <vector>
int main()
{
	stdex::spinlock l;
	std::atomic<int> in{ 0 }; std::atomic<bool> two{ false };
	std::vector<std::thread> t;
	for (int i = 0; i < 6; ++i)
		t.emplace_back([&] {
			for (int k = 0; k < 2000000 && !two; ++k)
				if (l.try_lock()) { if (in++) two = true; in--; l.unlock(); }
		});
	for (auto& x : t) x.join();
	if (two) { printf("BAD: two holders\n"); return 1; }
	return 0;
}
''')

plant("pool-clear-unlocked", "C07", [("pool.hpp", "				const std::lock_guard<spinlock> guard_l(ne.second.lock);\n				while", "				while")],
      "clear() runs while another thread pushes or pops", "an item is handed out and destroyed, the list is corrupted",
      r'''
#include <stdex/pool.hpp>
#include <stdio.h>
#include <memory>
#include <thread>
#include <vector>
int main()
{
	for (int round = 0; round < 20; ++round) {
		static std::atomic<long> live{ 0 };
		struct item { bool v = false; item() {} item(bool) : v(true) { ++live; } item(item&& o) : v(o.v) { o.v = false; } ~item() { if (v) --live; } };
		{
			stdex::pool<item> p;
			std::atomic<bool> stop{ false };
			std::vector<std::thread> t;
			for (int i = 0; i < 4; ++i) t.emplace_back([&] { for (int k = 0; k < 100000; ++k) { if (k & 1) p.push(item(true)); else p.pop(); } });
			std::thread c([&] { while (!stop) p.clear(); });
			for (auto& x : t) x.join();
			stop = true;
			c.join();
		}
		if (live) { printf("BAD: %ld items\n", (long)live); return 1; }
	}
	return 0;
}
''')

plant("aggregate-detach-unlocked", "C08", [("progress.hpp", "		progress<T>* detach()\n		{\n			std::unique_lock<std::shared_mutex> lk(m_mutex);\n", "		progress<T>* detach()\n		{\n")],
      "detach() is called while a worker is inside of the host", "the old host is still in use after detach() has returned",
      r'''
#include <mutex>
#include <stdex/progress.hpp>
#include <stdio.h>
#include <thread>
struct host : stdex::progress<int> {
	std::atomic<bool> in{ false };
	void set(int v) override { in = true; if (v) std::this_thread::sleep_for(std::chrono::milliseconds(400)); in = false; }
};
int main()
{
	host h;
	stdex::aggregate_progress<int> a(2, &h);
	std::thread t([&] { a[0].set(5); });
	std::this_thread::sleep_for(std::chrono::milliseconds(150));
	a.detach();
	bool b = h.in;
	t.join();
	if (b) { printf("BAD: the host is in use after detach()\n"); return 1; }
	return 0;
}
''')

plant("lazy-progress-starves", "C09", [("progress.hpp", "				if (now - m_last < m_timeout)\n					return;\n				m_last = now;\n", "				auto elapsed = now - m_last;\n				m_last = now;\n				if (elapsed < m_timeout)\n					return;\n")],
      "positions are set more often than the interval", "after the first report nothing is reported any more",
      r'''
#include <mutex>
#include <stdex/progress.hpp>
#include <stdio.h>
#include <thread>
struct lazy : stdex::lazy_progress<int> { int n = 0; lazy() : stdex::lazy_progress<int>(std::chrono::milliseconds(100)) {} void do_set() override { ++n; } };
int main()
{
	lazy p;
	p.set_range(0, 1000);
	for (int i = 1; i < 100; ++i) { p.set(i); std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
	if (p.n < 3) { printf("BAD: %d reports in a second\n", p.n); return 1; }
	return 0;
}
''')

PIECES = PRE + r'''
struct src : basic { // gives at most `step` bytes at a time
	std::vector<uint8_t> d; size_t p = 0, step, fail_at = SIZE_MAX;
	src(size_t n, size_t s) : step(s) { for (size_t i = 0; i < n; ++i) d.push_back((uint8_t)(i * 7 + (i >> 8))); }
	src(const std::string& t, size_t s) : d(t.begin(), t.end()), step(s) {}
	size_t read(void* o, size_t l) override {
		if (!l) { m_state = state_t::ok; return 0; }
		if (p >= fail_at) { m_state = state_t::fail; return 0; }
		if (p >= d.size()) { m_state = state_t::eof; return 0; }
		size_t n = l < step ? l : step; if (n > d.size() - p) n = d.size() - p; if (n > fail_at - p) n = fail_at - p;
		memcpy(o, d.data() + p, n); p += n; m_state = state_t::ok; return n;
	}
};
struct snk : basic { // takes `room` bytes, then fails
	std::vector<uint8_t> d; size_t room = SIZE_MAX, step = SIZE_MAX;
	size_t write(const void* o, size_t l) override {
		size_t n = l < step ? l : step; m_state = state_t::ok;
		if (n > room) { n = room; m_state = state_t::fail; }
		d.insert(d.end(), (const uint8_t*)o, (const uint8_t*)o + n); room -= n; return n;
	}
};
'''

plant("cache-rewrite-shrinks", "C10", [("stream.hpp", "								m_cache.region.end = std::max(m_cache.region.end, m_offset);\n", "								m_cache.region.end = m_offset;\n")],
      "bytes in the middle of a cached block are written again before the bytes behind them have reached the file", "the bytes behind are lost",
      PRE + r'''
int main()
{
	{
		cached_file f("x", mode_for_reading | mode_for_writing | mode_create | mode_binary);
		f.write("0123456789", 10);
		f.seek(3);
		f.write("ab", 2);
		if (f.size() != 10) return bad("size");
		f.seek(0);
		char b[10];
		if (f.read(b, 10) != 10 || memcmp(b, "012ab56789", 10)) return bad("content");
	}
	file g("x", mode_for_reading | mode_open_existing | mode_binary);
	char b[20];
	return g.read(b, 20) == 10 && !memcmp(b, "012ab56789", 10) ? 0 : bad("stored content");
}
''')

plant("cache-load-failure-empty", "C11", [("stream.hpp", "				m_source->seekbeg(start);\n				if (m_source->ok()) {\n					m_cache.region.start = start;\n", "				m_source->seekbeg(start);\n				m_cache.region.start = start;\n				if (m_source->ok()) {\n")],
      "a seek of the underlying file fails while a clean block is cached; then the cache is used again", "bytes of the old block are returned as those of the new one",
      PRE + r'''
struct flaky : memory_file {
	bool fail_seek = false;
	stdex::stream::fpos_t seek(foff_t o, seek_t h = seek_t::beg) override { if (fail_seek) { m_state = state_t::fail; return fpos_max; } return memory_file::seek(o, h); }
};
int main()
{
	flaky m;
	for (unsigned i = 0; i < 64; ++i) { uint8_t x = (uint8_t)i; m.write(&x, 1); }
	m.seek(0);
	{
	cache c(m, 16);
	uint8_t b[8];
	c.seek(20);
	c.read(b, 8);
	c.seek(0);
	m.fail_seek = true;
	c.read(b, 4);
	m.fail_seek = false;
	c.seek(0);
	if (c.read(b, 8) != 8) return bad("read");
	for (unsigned i = 0; i < 8; ++i) if (b[i] != i) return bad("wrong byte");
	c.seek(20);
	if (c.read(b, 8) != 8) return bad("read");
	for (unsigned i = 0; i < 8; ++i) if (b[i] != 20 + i) return bad("wrong byte behind");
	}
	return 0;
}
''')

plant("cache-flush-clean-not-synced", "C12", [("stream.hpp", "				m_atime = m_mtime = time_point::min();\n#endif\n				flush_cache();\n				if (!ok()) _Unlikely_\n					return;\n				m_source->flush();\n", "				m_atime = m_mtime = time_point::min();\n#endif\n				bool dirty = m_cache.status == cache_t::cache_t::status_t::dirty;\n				flush_cache();\n				if (!ok() || !dirty) _Unlikely_\n					return;\n				m_source->flush();\n")],
      "a write as large as several cache blocks bypasses the cache, flush() is called, then a crash", "flush() reports ok, the data was never synchronised to the disk",
      PRE + r'''
static int syncs;
extern "C" int fsync(int) { ++syncs; return 0; }
extern "C" int fdatasync(int) { ++syncs; return 0; }
int main()
{
	cached_file f("x", mode_for_reading | mode_for_writing | mode_create | mode_binary, 512);
	std::vector<char> d(2048, 'x');
	f.write(d.data(), d.size());
	f.flush();
	if (!f.ok()) return bad("flush");
	return syncs ? 0 : bad("not synchronised");
}
''')

plant("sys-write-hides-partial", "C13", [("stream.hpp", "					if (num_written < 0) _Unlikely_ {\n						m_state = state_t::fail;\n						return length - to_write;\n					}\n					to_write -= static_cast<size_t>(num_written);\n					if (!to_write) {\n						m_state = state_t::ok;\n						return length;\n					}\n					reinterpret_cast<const uint8_t*&>(data) += num_written;\n#endif\n", "					if (num_written < 0) _Unlikely_ {\n						m_state = to_write < length ? state_t::ok : state_t::fail;\n						return length - to_write;\n					}\n					to_write -= static_cast<size_t>(num_written);\n					if (!to_write) {\n						m_state = state_t::ok;\n						return length;\n					}\n					reinterpret_cast<const uint8_t*&>(data) += num_written;\n#endif\n")],
      "the system accepts a part of a write and then fails", "the state is ok although the write was cut short",
      PRE + r'''
#include <fcntl.h>
int main()
{
	int p[2];
	if (pipe2(p, O_NONBLOCK)) return 3;
	file f(p[1]);
	std::vector<char> d(1 << 21, 'x');
	size_t n = f.write(d.data(), d.size());
	if (n == 0 || n >= d.size()) return 3;
	return !f.ok() ? 0 : bad("a short write is ok");
}
''')

plant("file-reopen-leaks", "C14", [("stream.hpp", "				if (m_h != invalid_handle)\n					close();\n\n#ifdef _WIN32\n				DWORD dwDesiredAccess = 0;", "				if (m_h != invalid_handle && !m_state)\n					close();\n\n#ifdef _WIN32\n				DWORD dwDesiredAccess = 0;".replace("!m_state", "ok()"))],
      "an open file whose last operation ended with end of file or failure is opened again", "the descriptor of the former file is never closed",
      PRE + r'''
#include <dirent.h>
static int open_files() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
int main()
{
	{ file f("x", mode_for_writing | mode_create | mode_binary); f.write("abc", 3); }
	int before = open_files();
	{
		file f("x", mode_for_reading | mode_open_existing | mode_binary);
		char b[10];
		while (f.read(b, 10));
		f.open("x", mode_for_reading | mode_open_existing | mode_binary);
		if (!f.ok()) return bad("open");
	}
	return open_files() == before ? 0 : bad("a descriptor is left");
}
''')

plant("buffer-short-read-repeats", "C15", [("stream.hpp", "						memcpy(data, m_read_buffer.data, m_read_buffer.tail);\n						m_read_buffer.head = m_read_buffer.tail;\n", "						memcpy(data, m_read_buffer.data, m_read_buffer.tail);\n")],
      "the source gives less than the caller asked for and less than the buffer holds", "the bytes are delivered twice",
      PIECES + r'''
int main()
{
	src s(1000, 3);
	buffer b(s, 64, 0);
	std::vector<uint8_t> got(1000);
	size_t n = 0;
	while (n < 1000) { size_t k = b.read(got.data() + n, 1000 - n < 5 ? 1000 - n : 5); if (!k) break; n += k; }
	return n == 1000 && got == s.d ? 0 : bad("content");
}
''')

plant("remainder-limit", "C16", [("stream.hpp", "				while (offset < max_length) {\n					length = std::min(length, max_length);\n", "				while (offset < max_length) {\n")],
      "the limit of read_remainder() is not a multiple of the block size and the source has more", "more than the limit is read",
      PIECES + r'''
int main()
{
	src s(200000, SIZE_MAX);
	auto r = s.read_remainder(1000);
	return r.size() == 1000 && s.p == 1000 ? 0 : bad("limit");
}
''')

plant("limiter-counts-requested", "C17", [("stream.hpp", "					num_written = 0;\n					m_state = state_t::fail;\n				}\n				else {\n					num_written = converter::write(data, static_cast<size_t>(write_limit));\n					write_limit -= num_written;\n", "					num_written = 0;\n					m_state = state_t::fail;\n				}\n				else {\n					num_written = converter::write(data, static_cast<size_t>(write_limit));\n					write_limit = 0;\n")],
      "a write beyond the limit that the sink accepts only in part", "the rest of the window can not be written any more",
      PIECES + r'''
int main()
{
	snk s;
	s.step = 4;
	limiter l(s, 0, 10);
	size_t n = l.write("0123456789abcdef", 16);
	if (n != 4) return bad("first");
	s.step = SIZE_MAX;
	n = l.write("456789", 6);
	return n == 6 && s.d.size() == 10 ? 0 : bad("the limit is used up");
}
''')

plant("fifo-size-before-alloc", "C18", [("stream.hpp", "				try {\n					std::unique_ptr<uint8_t[]> block(new uint8_t[sizeof(node_t) + length]);\n", "				m_size += length;\n				try {\n					std::unique_ptr<uint8_t[]> block(new uint8_t[sizeof(node_t) + length]);\n"),
                                        ("stream.hpp", "					memcpy(n->data, data, length);\n					m_size += length;\n					if (m_head)\n", "					memcpy(n->data, data, length);\n					if (m_head)\n")],
      "a write that can not allocate", "the size counts bytes that are not there",
      PRE + r'''
int main()
{
	fifo f;
	f.write("abc", 3);
	static char c;
	if (f.write(&c, SIZE_MAX / 4) != 0 || f.ok()) return bad("impossible write");
	return f.size() == 3 ? 0 : bad("size");
}
''')

plant("memory-file-reserve-order", "C19", [("stream.hpp", "				if (!data && reserved) _Unlikely_ {\n					m_state = state_t::fail;\n					return;\n				}\n				m_data = data;\n				if (reserved < m_size)\n					m_size = reserved;\n				m_reserved = reserved;\n", "				m_reserved = reserved;\n				if (!data && reserved) _Unlikely_ {\n					m_state = state_t::fail;\n					return;\n				}\n				m_data = data;\n				if (reserved < m_size)\n					m_size = reserved;\n")],
      "growing fails, then less is written", "memory behind the block is overwritten",
      PRE + r'''
#include <sys/resource.h>
int main()
{
	memory_file m;
	m.write("abc", 3);
	m.reserve(SIZE_MAX / 4);
	if (m.ok()) return bad("impossible reservation");
	// The block is still the small one: filling it must allocate
	std::vector<char> d(1 << 26, 'x');
	rlimit r{ 0, 0 };
	setrlimit(RLIMIT_CORE, &r);
	size_t n = m.write(d.data(), d.size());
	if (n != d.size()) return bad("write");
	return m.size() == 3 + d.size() ? 0 : bad("size");
}
''')

plant("zlib-reader-short-block", "C20", [("zlib.hpp", "				num_read += num_deflated;\n				reinterpret_cast<Bytef*&>(data) += num_deflated;\n", "				num_read += num_deflated;\n				m_zlib.avail_in = 0;\n				reinterpret_cast<Bytef*&>(data) += num_deflated;\n")],
      "a read that ends inside of a block of compressed data", "the rest of the block is lost",
      PIECES + r'''
#include <stdex/zlib.hpp>
int main()
{
	snk s;
	std::vector<uint8_t> d;
	for (int i = 0; i < 5000; ++i) d.push_back((uint8_t)(rand() >> 4));
	{ stdex::zlib_writer w(s); w.write(d.data(), d.size()); }
	src r(0, SIZE_MAX);
	r.d = s.d;
	stdex::zlib_reader z(r);
	std::vector<uint8_t> got(d.size());
	try {
	for (size_t n = 0; n < got.size();) { size_t k = z.read(got.data() + n, std::min<size_t>(700, got.size() - n)); if (!k) return bad("ends"); n += k; }
	} catch (...) { return bad("refused"); }
	return got == d ? 0 : bad("content");
}
''')

plant("base64-reader-lost-tail", "C22", [("base64.hpp", "					m_temp_off = 0;\n					m_temp_len = 0;\n				}\n				// Read one Base64 block (4 chars)\n", "					m_temp_off = 0;\n					m_temp_len = 0;\n				}\n				m_num = 0;\n				// Read one Base64 block (4 chars)\n")],
      "the source fails for a moment in the middle of a block of four characters and reading continues", "the characters of the block read so far are lost",
      PIECES + r'''
#include <stdex/base64.hpp>
struct moment : src { bool once = false; using src::src; size_t read(void* o, size_t l) override { if (p == 6 && !once) { once = true; m_state = state_t::fail; return 0; } m_state = state_t::ok; return src::read(o, l); } };
int main()
{
	moment s(std::string("aGVsbG8gaGVsbG8h"), SIZE_MAX);
	stdex::base64_reader r(s);
	char b[12];
	size_t n = r.read(b, 12);
	s.read(b, 0);
	n += r.read(b + n, 12 - n);
	return n == 12 && !memcmp(b, "hello hello!", 12) ? 0 : bad("content");
}
''')

plant("hasher-hashes-requested", "C23", [("hash.hpp", "			size_t num_written = stdex::stream::converter::write(data, length);\n			m_hash.hash(data, num_written);\n", "			size_t num_written = stdex::stream::converter::write(data, length);\n			m_hash.hash(data, length);\n")],
      "the underlying stream accepts a part of a write", "bytes that were not written are hashed",
      PIECES + r'''
#include <stdex/hash.hpp>
int main()
{
	snk s;
	s.step = 5;
	stdex::crc32_hash h, g;
	h.clear(); g.clear();
	stdex::stream_hasher<stdex::crc32_t> w(h, s);
	const char* t = "the quick brown fox";
	for (size_t n = 0; n < 19;) n += w.write(t + n, 19 - n);
	g.hash(t, 19);
	h.finalize(); g.finalize();
	return h.data() == g.data() ? 0 : bad("digest");
}
''')

plant("read-str-short", "C24", [("stream.hpp", "					*this >> el;\n					if (!ok()) _Unlikely_\n						return *this;\n					data.push_back(std::move(el));\n", "					*this >> el;\n					data.push_back(std::move(el));\n					if (!ok()) _Unlikely_\n						return *this;\n")],
      "the input ends inside of a vector", "an element that was not completely read is presented as read",
      PIECES + r'''
int main()
{
	memory_file m;
	std::vector<uint32_t> v{ 1, 2, 3, 4 }, w;
	m.basic::operator<<(v);
	src s(0, SIZE_MAX);
	s.d.assign((const uint8_t*)m.data(), (const uint8_t*)m.data() + 4 + 4 * 2 + 2);
	(basic&)s >> w;
	if (s.ok()) return bad("ok");
	return w.size() == 2 ? 0 : bad("elements");
}
''')

plant("idrec-close-end", "C25", [("idrec.hpp", "				stream.write_array(padding, sizeof(char), remainder);\n				end += remainder;\n", "				stream.write_array(padding, sizeof(char), remainder);\n				size += remainder;\n				end += remainder;\n")],
      "a record whose length is not a multiple of the alignment", "padding is read as data of the record",
      PRE + r'''
#include <mutex>
#include <stdex/idrec.hpp>
int main()
{
	memory_file m;
	for (unsigned n = 0; n < 5; ++n) {
		auto start = stdex::idrec::open<uint32_t, uint32_t>(m, n);
		m.write("abcdef", n);
		stdex::idrec::close<uint32_t, uint32_t, 2>(m, start);
	}
	for (unsigned n = 0; n < 5; ++n) {
		m.seekbeg(0);
		if (!stdex::idrec::find<uint32_t, uint32_t, 2>(m, n)) return bad("lost");
		uint32_t size;
		m >> size;
		if (size != n) return bad("size");
	}
	return 0;
}
''')

plant("wav-window-not-followed", "C26", [("wav.hpp", "						if (i && cue_less(cues[i], cues[i - 1]))\n							ordered = false;\n", "						if (i && cue_less(cues[i], cues[0]))\n							ordered = false;\n")],
      "cue points are stored out of order without any of them belonging before the first", "labels, notes and lengths are not found for some of the cue points",
      PRE + r'''
#include <mutex>
#include <stdex/wav.hpp>
using namespace stdex::wav;
int main()
{
	memory_file m;
	std::vector<uint32_t> ids{ 1, 5, 4, 3, 2, 6, 7 };
	m.write("cue ", 4);
	m << (uint32_t)(4 + 24 * ids.size()) << (uint32_t)ids.size();
	for (auto i : ids) m << i << i << (uint32_t)0 << (uint32_t)0 << (uint32_t)0 << i * 10;
	for (auto i : ids) {
		m.write("LIST", 4);
		m << (uint32_t)(4 + 8 + 6) ;
		m.write("adtl", 4);
		m.write("labl", 4);
		m << (uint32_t)6 << i;
		char t[2] = { (char)('a' + i), 0 };
		m.write(t, 2);
	}
	m.seekbeg(0);
	cue_ex_vector c;
	if (!read_cues(m, c, m.size())) return bad("read");
	if (c.size() != ids.size()) return bad("count");
	for (auto& x : c) if (x.title != std::string(1, (char)('a' + x.id)).c_str()) return bad("label");
	return 0;
}
''')

plant("diag-write-state", "C27", [("stream.hpp", "					if (m_files[i]->write(data, length) != result)\n						throw std::runtime_error(\"write mismatch\");\n					if (m_files[i]->state() != m_state)\n						throw std::runtime_error(\"state mismatch\");\n", "					if (m_files[i]->write(data, length) != result)\n						throw std::runtime_error(\"write mismatch\");\n					if (m_files[i]->state() != m_state && !result)\n						throw std::runtime_error(\"state mismatch\");\n")],
      "one of the files accepts a part of a write with failure, the other one without", "the difference is hidden",
      PRE + r'''
struct part : memory_file { state_t s; part(state_t _s) : s(_s) {} size_t write(const void* d, size_t l) override { size_t n = memory_file::write(d, l / 2); m_state = s; return n; } };
int main()
{
	part a(state_t::ok), b(state_t::fail);
	basic_file* f[] = { &a, &b };
	diag_file d(f, 2);
	try { d.write("abcd", 4); } catch (const std::exception&) { return 0; }
	return bad("hidden");
}
''')

plant("sanitizing-size-in-bytes", "C28", [("memory.hpp", "			memset(p, 0, sizeof(T) * n);\n			__asm__", "			memset(p, 0, n);\n			__asm__")],
      "elements larger than a byte", "a part of the secret stays in released memory",
      r'''
#include <stdex/memory.hpp>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include <vector>
static bool watch, leak;
void* operator new(size_t n) { return malloc(n); }
void operator delete(void* p) noexcept { if (watch) for (size_t i = 0; i < 400; ++i) if (((volatile unsigned char*)p)[i] == 0x5a) leak = true; free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
int main()
{
	{
		std::vector<unsigned, stdex::sanitizing_allocator<unsigned>> v(100, 0x5a5a5a5a);
		watch = true;
	}
	watch = false;
	if (leak) { printf("BAD: secret left\n"); return 1; }
	return 0;
}
''')

plant("cached-open-write-only", "C29", [("stream.hpp", "				m_source.open(filename, mode & mode_for_writing ? mode | mode_for_reading : mode);\n", "				m_source.open(filename, mode);\n")],
      "a cached file opened with open() for writing only over existing content", "writing a part of a block destroys or loses the rest of it",
      PRE + r'''
int main()
{
	{ file f("x", mode_for_writing | mode_create | mode_binary); f.write("0123456789", 10); }
	{
		cached_file f;
		f.open("x", mode_for_writing | mode_open_existing | mode_binary);
		f.write("ab", 2);
		char r[4];
		if (f.read(r, 3) != 3 || memcmp(r, "234", 3)) return bad("the rest of the block");
		f.seek(0);
		if (f.read(r, 3) != 3 || memcmp(r, "ab2", 3)) return bad("the block");
		f.flush();
	}
	file g("x", mode_for_reading | mode_open_existing | mode_binary);
	char b[20];
	return g.read(b, 20) == 10 && !memcmp(b, "ab23456789", 10) ? 0 : bad("content");
}
''')

plant("queue-full-pop-head", "C30", [("vector_queue.hpp", "				size_type pos = m_head;\n				m_data[pos] = v;\n				m_head = abs(1);\n				return pos;\n", "				size_type pos = m_head;\n				m_head = abs(1);\n				m_data[pos] = v;\n				return pos;\n")],
      "the copy of an element pushed onto a full queue fails", "the elements are out of order afterwards: the oldest one is now the last",
      r'''
#include <stddef.h>
#include <stdexcept>
#include <memory>
#include <utility>
#include <stdex/vector_queue.hpp>
#include <stdio.h>
struct el { int v = 0; bool bad = false; el() {} el(int x, bool b = false) : v(x), bad(b) {} el(const el&) = default; el& operator=(const el& o) { if (o.bad) throw std::runtime_error("copy"); v = o.v; return *this; } };
int main()
{
	stdex::vector_queue<el> q(3);
	for (int i = 1; i <= 3; ++i) { el e(i); q.push_back(e); }
	el e(9, true);
	try { q.push_back(e); return 3; } catch (const std::runtime_error&) {}
	for (int i = 0; i < 3; ++i) if (q[i].v != i + 1) { printf("BAD: order\n"); return 1; }
	return 0;
}
''')

plant("minisign-short", "C31", [("minisign.hpp", "			if (data.size() < 74)\n", "			if (data.size() < 64)\n")],
      "the signature is cut by a few bytes", "it is accepted with whatever lies behind in memory",
      PIECES + r'''
#include <stdex/minisign.hpp>
int main()
{
	std::string raw = "ED";
	for (int i = 0; i < 68; ++i) raw += (char)i;
	std::string t = "untrusted comment: x\n";
	stdex::base64_enc e;
	std::string line;
	e.encode(line, raw.data(), raw.size());
	src s(t + line + "\n", 7);
	uint8_t a, k[8], g[64];
	try { stdex::minisign::parse_minisig(s, a, k, g); } catch (const std::runtime_error&) { return 0; }
	return bad("accepted");
}
''')

plant("encoder-kept-charset", "C42", [("unicode.hpp", "		charset_encoder<char, wchar_t>(charset, wchar_t_charset).strcat(dst, src, count_src);\n", "		static charset_encoder<char, wchar_t> encoder(charset, wchar_t_charset);\n		encoder.strcat(dst, src, count_src);\n")],
      "text in two character sets is converted by the functions that take no converter", "the second text is taken for one in the first character set",
      r'''
#include <string.h>
#include <stdex/unicode.hpp>
#include <stdio.h>
int main()
{
	if (stdex::str2wstr("\xc4\x8d", 2, stdex::charset_id::utf8) != L"\x10d") return 3;
	if (stdex::str2wstr("\xe8", 1, stdex::charset_id::windows1250) != L"\x10d") { printf("BAD\n"); return 1; }
	return 0;
}
''')

plant("sysinfo-real-user", "C45", [("sys_info.hpp", "				struct passwd *pw = getpwuid(geteuid());\n", "				struct passwd *pw = getpwuid(getuid());\n")],
      "the process runs with an effective user other than the real one", "the name is that of another user",
      r'''
#include <stdio.h>
#include <string.h>
#include <string>
#include <pwd.h>
#include <unistd.h>
#include <sys/types.h>
static uid_t real = 0, effective = 0;
extern "C" uid_t getuid() noexcept { return real; }
extern "C" uid_t geteuid() noexcept { return effective; }
extern "C" struct passwd* getpwuid(uid_t u)
{
	static struct passwd p;
	static char names[][8] = { "root", "one", "two" };
	if (u > 2) return nullptr;
	p.pw_name = names[u];
	return &p;
}
#include <stdex/sys_info.hpp>
int main()
{
	for (real = 0; real < 4; ++real)
		for (effective = 0; effective < 4; ++effective) {
			stdex::sys_info_t i;
			static const char* const want[] = { "root", "one", "two", "" };
			if (i.username != want[effective] || i.elevated != !effective) { printf("BAD: %u %u: %s\n", real, effective, i.username.c_str()); return 1; }
		}
	return 0;
}
''')

plant("lent-array-moved", "C46", [("memory.hpp", "		ref_unique_ptr(_Inout_ ref_unique_ptr<T[], D> &&other) :\n			m_own(other.m_own),\n			m_ptr(other.m_ptr)\n		{\n			other.m_ptr = nullptr;\n		}\n", "		ref_unique_ptr(_Inout_ ref_unique_ptr<T[], D> &&other) :\n			m_own(other.m_own),\n			m_ptr(other.m_ptr)\n		{}\n")],
      "the helper that lends an array is moved", "the array is released while its owner still refers to it",
      r'''
#include <stdex/memory.hpp>
#include <stdio.h>
#include <utility>
static int released;
struct gone { void operator()(int*) const { ++released; } };
int main()
{
	static int a[3];
	{
		std::unique_ptr<int[], gone> p(a);
		{
			stdex::ref_unique_ptr<int[], gone> l(p);
			stdex::ref_unique_ptr<int[], gone> m(std::move(l));
			if (static_cast<int*&>(m) != a) return 3;
		}
		if (released || p.get() != a) { printf("BAD: released early\n"); return 1; }
	}
	if (released != 1) { printf("BAD: released %d times\n", released); return 1; }
	return 0;
}
''')

plant("curl-undo-failed-init", "C46", [("curl.hpp", "			if (code != CURLE_OK) _Unlikely_\n				throw", "			if (code != CURLE_OK) _Unlikely_ {\n				curl_global_cleanup();\n				throw"), ("curl.hpp", "(code, \"CURL failed to initialize\");\n", "(code, \"CURL failed to initialize\");\n			}\n")],
      "the initialisation of the library fails while another one is in force", "the library is taken away from those who use it",
      r'''
#include <stdio.h>
#include <string.h>
#include <memory>
#include <curl/curl.h>
static int balance, fail;
extern "C" {
CURLcode curl_global_init(long) { if (fail) return CURLE_OUT_OF_MEMORY; ++balance; return CURLE_OK; }
void curl_global_cleanup(void) { --balance; }
const char* curl_easy_strerror(CURLcode) { return "x"; }
void curl_easy_cleanup(CURL*) {}
void curl_slist_free_all(struct curl_slist*) {}
}
#include <stdex/curl.hpp>
int main()
{
	{
		stdex::curl_initializer a(0);
		fail = 1;
		try { stdex::curl_initializer b(0); printf("BAD: no exception\n"); return 1; } catch (const stdex::curl_runtime_error& e) { if (e.number() != CURLE_OUT_OF_MEMORY) return 1; }
		if (balance != 1) { printf("BAD: %d\n", balance); return 1; }
	}
	return balance != 0;
}
''')

plant("zlib-truncated-end", "C21", [("zlib.hpp", "							if (num_read) {\n								m_state = stdex::stream::state_t::ok;\n", "							if (num_read) {\n								m_state = m_source->state();\n")],
      "the compressed data is cut and a read asks for more than what is left of it", "the cut data ends like complete data",
      PRE + r'''
#include <stdex/zlib.hpp>
int main()
{
	memory_file m;
	std::vector<char> d(20000);
	for (size_t i = 0; i < d.size(); ++i) d[i] = (char)(i * 31 + (i >> 7));
	{ stdex::zlib_writer w(m); w.write(d.data(), d.size()); }
	for (size_t cut : { size_t(1), size_t(4), size_t(20) }) {
		memory_file n(m.size());
		n.write(m.data(), m.size() - cut);
		n.seekbeg(0);
		stdex::zlib_reader r(n);
		std::vector<char> b(30000);
		size_t got = r.read(b.data(), b.size());
		if (memcmp(b.data(), d.data(), got)) return bad("content");
		if (r.state() == state_t::eof) return bad("cut data ends as if it was complete");
		if (r.read(b.data(), b.size()) == 0 && r.state() == state_t::eof) return bad("cut data ends as if it was complete");
	}
	return 0;
}
''')

plant("printf-stream-count", "C32", [("stream.hpp", "				return write_array(tmp.data(), sizeof(char), tmp.size());\n", "				write_array(tmp.data(), sizeof(char), tmp.size());\n				return tmp.size();\n")],
      "the stream takes a part of the text only", "the count says all of the text was written",
      PRE + r'''
#include <string>
struct narrow : basic {
	size_t left;
	narrow(size_t n) : left(n) {}
	size_t write(const void*, size_t l) override { size_t n = l < left ? l : left; left -= n; m_state = n == l ? state_t::ok : state_t::fail; return n; }
};
int main()
{
	narrow a(1000), b(5);
	if (a.write_sprintf("%s-%d", stdex::locale_C, "abcdef", 12) != 9) return bad("all");
	if (b.write_sprintf("%s-%d", stdex::locale_C, "abcdef", 12) != 5) return bad("part");
	return 0;
}
''')

plant("printf-embedded-nul", "C32", [("string.hpp", "			str.append(buf, static_cast<size_t>(count));\n			return static_cast<size_t>(count);\n", "			str.append(buf);\n			return static_cast<size_t>(count);\n")],
      "the formatted text contains a NUL character", "the text is cut at the NUL while the count says otherwise",
      r'''
#include <stdex/string.hpp>
#include <stdio.h>
#include <string>
int main()
{
	std::string s("x");
	size_t n = stdex::appendf(s, "%s%c%d", stdex::locale_C, "ab", 0, 7);
	if (n != 4 || s != std::string("xab\0" "7", 5)) { printf("BAD: %zu %zu\n", n, s.size()); return 1; }
	return 0;
}
''')

plant("timestamp-year-2038", "C33", [("chrono.hpp", "				return time_point(duration((static_cast<rep>(t) + 210866803200) * one_second));\n", "				return time_point(duration((static_cast<int32_t>(t) + 210866803200) * one_second));\n")],
      "the clock shows a moment after January 2038", "the timestamp is 136 years off",
      r'''
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <stdex/string.hpp>
#include <stdex/chrono.hpp>
int main()
{
	using stdex::chrono::aosn_timestamp;
	if (aosn_timestamp::to_time_t(aosn_timestamp::from_time_t(1700000000)) != 1700000000) return 3;
	if (aosn_timestamp::to_time_t(aosn_timestamp::from_time_t(4000000000ll)) != 4000000000ll) { printf("BAD\n"); return 1; }
	return 0;
}
''')

HTML = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdexcept>
#include <string>
#include <memory>
#include <mutex>
#include <stdex/html.hpp>
typedef stdex::html::document<wchar_t> document;
typedef stdex::html::parser<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>> parser;
static std::wstring again(const document& d) { parser p(d); std::wstring s; parser::link(s, p.parse()); return s; }
static int check(const std::wstring& got, const std::wstring& want) { if (got == want) return 0; printf("BAD: %ls instead of %ls\n", got.c_str(), want.c_str()); return 1; }
'''
plant("html-clear-special", "C34", [("html.hpp", "				m_element_stack.clear();\n				m_is_special_element = false;\n			}\n", "				m_element_stack.clear();\n			}\n")],
      "a document object is reused after a document whose script was never ended", "tags of the next document are ignored or the parser crashes",
      HTML + r'''
int main()
{
	document d;
	std::wstring a = L"<p>x<script>y", b = L"<p>a&lt;b</p>";
	d.assign(a.data(), a.size());
	if (check(again(d), a)) return 3;
	d.assign(b.data(), b.size());
	return check(again(d), b);
}
''')
plant("html-section-end-text", "C34", [("html.hpp", "						if (m_num_parsed < i)\n							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));\n\n						m_num_valid_conditions--;\n", "						m_num_valid_conditions--;\n")],
      "a marked section ends with text", "the text is lost",
      HTML + r'''
int main()
{
	document d;
	std::wstring a = L"a<![INCLUDE[<b>b</b>c]]>d";
	d.assign(a.data(), a.size());
	return check(again(d), L"a<b>b</b>cd");
}
''')
plant("html-css-url-quotes", "C34", [("html.hpp", "									css_escape(source, t2_url->url.data(), t2_url->url.size());\n", "									source += t2_url->url;\n")],
      "a style sheet has a quoted URL with an escaped quote", "the style sheet rebuilt is broken",
      HTML + r'''
int main()
{
	document d;
	std::wstring a = L"<style>p{background:url(\"a\\\"b\")}</style>";
	d.assign(a.data(), a.size());
	return check(again(d), a);
}
''')
plant("html-comment-end-chunk", "C34", [("parser.hpp", "							if (this->interval.end + 2 < end &&\n								text[this->interval.end] == '-' &&\n								text[this->interval.end + 1] == '-' &&\n								text[this->interval.end + 2] == '>')\n							{\n								// <!--...-->\n", "							if ((this->interval.end + 2 == end && text[this->interval.end] == '-' && text[this->interval.end + 1] == '-') ||\n								(this->interval.end + 2 < end &&\n								text[this->interval.end] == '-' &&\n								text[this->interval.end + 1] == '-' &&\n								text[this->interval.end + 2] == '>'))\n							{\n								// <!--...-->\n")],
      "a chunk of the document ends between -- and > of a comment", "the comment ends where it should not",
      HTML + r'''
int main()
{
	document d;
	std::wstring a = L"a<!-- b -- <i> -->c";
	for (size_t i = 0; i < a.size(); ++i) d.append(&a[i], 1);
	d.finalize();
	return check(again(d), a);
}
''')

PARSE = r'''
#include <stdex/parser.hpp>
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <string>
using namespace stdex::parser;
static int bad(const char* m) { printf("BAD: %s\n", m); return 1; }
typedef std::shared_ptr<basic_parser<char>> P;
static P ch(char c) { return std::make_shared<cu>(c); }
static P any() { return std::make_shared<any_cu>(); }
static std::shared_ptr<integer10> num() { return std::make_shared<integer10>(ch('0'), ch('1'), ch('2'), ch('3'), ch('4'), ch('5'), ch('6'), ch('7'), ch('8'), ch('9')); }
'''
plant("permutation-backtrack", "C35", [("parser.hpp", "								return true;\n							}\n							el->invalidate();\n", "								return true;\n							}\n")],
      "an element of a permutation matches where the rest of the elements do not, and only another order does", "the permutation is said to match, one of its elements is somewhere else",
      PARSE + r'''
int main()
{
	P el[2] = { std::make_shared<string>("a"), std::make_shared<string>("ab") };
	permutation p(el, 2);
	if (!p.match("aba", 0, 3) || p.interval.end != 3 || el[0]->interval.start != 2) return bad("permutation of aba");
	return 0;
}
''')
plant("branch-keeps-rest", "C35", [("parser.hpp", "						this->interval = (*i)->interval;\n						for (++i; i != this->m_collection.end(); ++i)\n							(*i)->invalidate();\n						return true;\n", "						this->interval = (*i)->interval;\n						return true;\n")],
      "a branch matches a later element first, then an earlier one in another text", "the later element still tells its previous match",
      PARSE + r'''
int main()
{
	P el[2] = { ch('a'), ch('b') };
	branch p(el, 2);
	if (!p.match("b", 0, 1) || !p.match("a", 0, 1) || el[1]->interval) return bad("the other branch kept its match");
	return 0;
}
''')
plant("ipv6-stale-scope", "C36", [("parser.hpp", "					this->interval.end = scope_id->interval.end;\n				else if (scope_id)\n					scope_id->invalidate();\n", "					this->interval.end = scope_id->interval.end;\n")],
      "an address with a scope id is followed by one without it", "the scope of the address before is told",
      PARSE + r'''
int main()
{
	auto scope = std::make_shared<iterations>(std::make_shared<ipv6_scope_id_char>(), 1);
	ipv6_address p(ch('0'), ch('1'), ch('2'), ch('3'), ch('4'), ch('5'), ch('6'), ch('7'), ch('8'), ch('9'), ch('a'), ch('b'), ch('c'), ch('d'), ch('e'), ch('f'), ch(':'), ch('%'), scope);
	if (!p.match("fe80::1%eth0", 0, 12) || !p.scope_id->interval) return bad("scope");
	if (!p.match("fe80::1", 0, 7) || p.scope_id->interval) return bad("a scope that is not there");
	return 0;
}
''')
plant("ipv6-compressed-not-zero", "C36", [("parser.hpp", "						this->value.s6_words[--j] = 0;\n						components[j].start =\n", "						--j;\n						if (j >= i) this->value.s6_words[j] = 0;\n						components[j].start =\n")],
      ":: in front of fewer groups than it stands for", "groups that are zero repeat the last ones in the value",
      PARSE + r'''
int main()
{
	ipv6_address p(ch('0'), ch('1'), ch('2'), ch('3'), ch('4'), ch('5'), ch('6'), ch('7'), ch('8'), ch('9'), ch('a'), ch('b'), ch('c'), ch('d'), ch('e'), ch('f'), ch(':'));
	if (!p.match("1::2:3", 0, 6)) return bad("no match");
	for (int i = 0; i < 16; ++i) if (p.value.s6_addr[i] != (i == 1 ? 1 : i == 13 ? 2 : i == 15 ? 3 : 0)) return bad("address");
	return 0;
}
''')
plant("iban-mod97-overflow", "C37", [("parser.hpp", "				nominator = stdex::strtou32(normalized, 9, &next, 10);\n				for (;;) {\n					nominator %= 97;\n					if (!normalized[next]) {\n						this->is_valid = nominator == 1;\n						break;\n					}\n					size_t digit_count = nominator == 0 ? 0 : nominator < 10 ? 1 : 2;\n					for (; digit_count < 9 && normalized[next]; ++next, ++digit_count)\n						nominator = nominator * 10 + static_cast<uint32_t>(normalized[next] - '0');\n				}\n\n				this->interval.start = start;\n				return true;\n\n			error:\n				invalidate();\n				return false;\n			}\n\n			std::shared_ptr<basic_parser<T>> m_space;\n		};\n\n		using iban = ", "				nominator = stdex::strtou32(normalized, 9, &next, 10);\n				for (;;) {\n					nominator %= 97;\n					if (!normalized[next]) {\n						this->is_valid = nominator == 1;\n						break;\n					}\n					size_t digit_count = nominator < 10 ? 0 : 2;\n					for (; digit_count < 9 && normalized[next]; ++next, ++digit_count)\n						nominator = nominator * 10 + static_cast<uint32_t>(normalized[next] - '0');\n				}\n\n				this->interval.start = start;\n				return true;\n\n			error:\n				invalidate();\n				return false;\n			}\n\n			std::shared_ptr<basic_parser<T>> m_space;\n		};\n\n		using iban = ")],
      "an account number leaves a one-digit remainder from 5 to 9 at a step of the check", "a valid IBAN is called invalid",
      PARSE + r'''
int main()
{
	iban p(ch(' '));
	for (int n = 0; n < 3000; ++n) {
		char b[64];
		unsigned long long acct = 1000000000000000ull + (unsigned long long)n * 7919 * 104729;
		snprintf(b, sizeof(b), "%020llu", acct % 100000000000000000ull * 13);
		std::string bban = b;
		bban = bban.substr(0, 20);
		std::string digits = bban + "131400"; // D=13 E=14; DE has 18, use ES: E=14 S=28
		digits = bban + "142800";
		int r = 0;
		for (char c : digits) r = (r * 10 + c - '0') % 97;
		snprintf(b, sizeof(b), "ES%02d%s", 98 - r, bban.c_str());
		if (!p.match(b, 0, strlen(b)) || p.interval.end != strlen(b)) return bad("not matched");
		if (!p.is_valid) return bad("a valid IBAN is not");
	}
	return 0;
}
''')
plant("si-model-first-digit", "C37", [("parser.hpp", "				else if ((this->model[0] == '0' || this->model[0] == '5') && this->model[1] == '5')\n", "				else if (this->model[1] == '5')\n")],
      "a reference of a model that ends with 5, but is neither 05 nor 55", "a valid reference is called invalid",
      PARSE + r'''
int main()
{
	si_reference p(ch(' '));
	if (!p.match("SI151234567", 0, 11)) return bad("not matched");
	if (!p.is_valid) return bad("a reference of an unknown model is not valid");
	return 0;
}
''')
plant("http-value-keeps-token", "C38", [("parser.hpp", "				if (string.match(text, this->interval.end, end, flags)) {\n					token.invalidate();\n", "				if (string.match(text, this->interval.end, end, flags)) {\n")],
      "a token is followed by a quoted string with the same parser", "the value is told to be a token, too",
      PARSE + r'''
int main()
{
	http_value v;
	if (!v.match("abc", 0, 3) || !v.token.interval) return bad("token");
	if (!v.match("\"a b\"", 0, 5) || !v.string.interval || v.token.interval) return bad("the token of the value before is still there");
	return 0;
}
''')
plant("http-header-fold-tab", "C38", [("parser.hpp", "							this->interval.end < end && text[this->interval.end] && stdex::isspace(text[this->interval.end]))\n							this->interval.end++;\n						else\n							break;\n					}\n					else if (this->interval.end < end && text[this->interval.end]) {\n						if (stdex::isspace(text[this->interval.end]))\n							this->interval.end++;\n						else {\n							if (value.start", "							this->interval.end < end && text[this->interval.end] == ' ')\n							this->interval.end++;\n						else\n							break;\n					}\n					else if (this->interval.end < end && text[this->interval.end]) {\n						if (stdex::isspace(text[this->interval.end]))\n							this->interval.end++;\n						else {\n							if (value.start")],
      "a header field is folded with a tab", "the rest of the value is lost",
      PARSE + r'''
int main()
{
	http_header h;
	const char t[] = "A: b,\r\n\tc\r\nX: y\r\n";
	if (!h.match(t, 0, sizeof(t) - 1) || h.value.start != 3 || h.value.end != 9) return bad("folded value");
	return 0;
}
''')
plant("thousands-mixed", "C39", [("parser.hpp", "							(hit_offset == SIZE_MAX || hit_offset == m_separator->hit_offset) && // All separators must be the same, no mixing.\n", "")],
      "groups of thousands are followed by a different separator and three digits", "the number goes on over it",
      PARSE + r'''
int main()
{
	integer10ts p(num(), std::make_shared<cu_set>(",. "));
	if (!p.match("1,234.567", 0, 9) || p.interval.end != 5 || p.value != 1234) return bad("mixed separators");
	return 0;
}
''')
plant("json-value-grows", "C39", [("parser.hpp", "					this->interval.end = m_quote->interval.end;\n					value.clear();\n					for (;;) {\n						if (m_quote->match(text, this->interval.end, end, flags)) {\n", "					this->interval.end = m_quote->interval.end;\n					for (;;) {\n						if (m_quote->match(text, this->interval.end, end, flags)) {\n")],
      "a parser matches two strings one after another", "the second value starts with the first one",
      PARSE + r'''
int main()
{
	json_string p(ch('"'), any(), ch('\\'), ch('/'), ch('b'), ch('f'), ch('n'), ch('r'), ch('t'), ch('u'),
		std::make_shared<integer16>(ch('0'), ch('1'), ch('2'), ch('3'), ch('4'), ch('5'), ch('6'), ch('7'), ch('8'), ch('9'), ch('a'), ch('b'), ch('c'), ch('d'), ch('e'), ch('f')));
	if (!p.match("\"ab\"", 0, 4) || p.value != "ab") return bad("first");
	if (!p.match("\"cd\"", 0, 4) || p.value != "cd") return bad("second");
	return 0;
}
''')
plant("phone-safe-size", "C39", [("parser.hpp", "						this->interval.end = m_rparenthesis->interval.end;\n						safe_digit_end = this->interval.end;\n						safe_value_size = value.size();\n", "						this->interval.end = m_rparenthesis->interval.end;\n						safe_digit_end = this->interval.end;\n")],
      "a phone number ends with a group in parentheses", "the group is lost from its value",
      PARSE + r'''
int main()
{
	phone_number p(std::make_shared<cu_set>("0123456789"), ch('+'), std::make_shared<cu_set>("(["), std::make_shared<cu_set>(")]"), ch('-'), ch(' '));
	const char t[] = "123 (45)";
	if (!p.match(t, 0, 8) || p.interval.end != 8 || p.value != "123(45)") return bad(p.value.c_str());
	return 0;
}
''')
APART = r'''
#include <atomic>
#include <thread>
#include <vector>
// Runs what gives the same result every time in several threads at once
template <class F> int apart(F f)
{
	std::atomic<int> wrong(0);
	std::vector<std::thread> t;
	for (int k = 0; k < 4; ++k) t.emplace_back([&wrong, &f, k] { for (int n = 0; n < 200000 && !wrong; ++n) if (!f(k)) wrong = 1; });
	for (auto& x : t) x.join();
	if (wrong) printf("BAD: another result than alone\n");
	return wrong;
}
'''
plant("encoder-shared-buffer", "C47", [("unicode.hpp", "			T_to buf[1024 / sizeof(T_to)];\n", "			static T_to buf[1024 / sizeof(T_to)];\n")],
      "two threads convert text at the same time, each with a converter of its own", "one gets text of the other",
      r'''
#include <stdio.h>
#include <stdex/unicode.hpp>
''' + APART + r'''
int main()
{
	return apart([](int k) {
		std::string s(50, (char)('a' + k));
		return stdex::str2wstr(s, stdex::charset_id::windows1250) == std::wstring(50, (wchar_t)('a' + k));
	});
}
''')
plant("timestamp-shared-fields", "C47", [("chrono.hpp", "			static std::basic_string<char, TR, AX> to_str(_In_ const time_point tp, _In_z_ const char* format, _In_opt_ locale_t locale)\n			{\n				struct tm date;\n", "			static std::basic_string<char, TR, AX> to_str(_In_ const time_point tp, _In_z_ const char* format, _In_opt_ locale_t locale)\n			{\n				static struct tm date;\n")],
      "two threads format time stamps at the same time", "one formats the date of the other",
      r'''
#include <stdio.h>
#include <stdint.h>
#include <string>
#include <stdex/chrono.hpp>
''' + APART + r'''
int main()
{
	using stdex::chrono::aosn_timestamp;
	return apart([](int k) {
		char want[20];
		snprintf(want, sizeof(want), "%d-01-%02d", 2000 + k, 1 + k);
		return aosn_timestamp::to_str(aosn_timestamp::from_dmy((uint8_t)(1 + k), 1, 2000 + k, 0, 0, 0, 0), "%Y-%m-%d", stdex::locale_C) == want;
	});
}
''')
plant("iban-shared-digits", "C47", [("parser.hpp", "				T normalized[69];\n", "				static T normalized[69];\n")],
      "two threads check account numbers at the same time", "a valid number is taken for an invalid one",
      PARSE + APART + r'''
int main()
{
	const char* const t[] = { "SI56191000000123438", "SI56191000000123437" };
	return apart([&t](int k) {
		iban p(ch(' '));
		return p.match(t[k & 1], 0, 19) && p.is_valid == !(k & 1);
	});
}
''')
plant("watchdog-two-resets", "C05", [("watchdog.hpp", "				m_phase++;\n", "				m_phase = !m_phase; // Only a change matters.\n")],
      "the watchdog is reset twice before its thread wakes up", "both resets are lost and the watchdog barks early",
      r'''
#include <stdio.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <stdex/watchdog.hpp>
int main()
{
	std::atomic<int> barked(0);
	int expected = 0;
	{
		stdex::watchdog<std::chrono::steady_clock, std::chrono::milliseconds> w(std::chrono::milliseconds(1000), [&] { barked++; });
		for (int n = 0; n < 60; ++n) { // 6 s
			std::this_thread::sleep_for(std::chrono::milliseconds(100));
			w.reset();
			w.reset();
		}
	}
	if (barked != expected) { printf("BAD: barked %d times\n", (int)barked); return 1; }
	return 0;
}
''')
plant("pool-clear-drops-lists", "C07", [("pool.hpp", "			for (auto& ne : m_available) {\n				const std::lock_guard<spinlock> guard_l(ne.second.lock);\n				while (!ne.second.list.empty())\n					ne.second.list.pop_front();\n			}\n", "			m_available.clear();\n")],
      "the pool is cleared while another thread is taking an item", "the list disappears with the item that is being taken",
      r"""
#include <stdio.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <stdex/pool.hpp>
static std::atomic<bool> slow(false), moving(false);
struct item {
	std::atomic<int> alive;
	int value;
	item(int v = 0) : alive(77), value(v) {}
	item(item&& o) : alive(77), value(o.value)
	{
		if (slow && value == 5) {
			slow = false;
			moving = true;
			for (int n = 0; n < 50; ++n) {
				std::this_thread::sleep_for(std::chrono::milliseconds(10));
				if (o.alive != 77) { printf("BAD: the item disappears while it is taken\n"); fflush(stdout); _exit(1); }
			}
		}
	}
	~item() { alive = 0; }
};
int main()
{
	stdex::pool<item> p;
	p.push(item(5), 1);
	slow = true;
	std::thread t([&] { while (!moving) ; p.clear(); });
	item r = p.pop(1);
	t.join();
	return r.value == 5 ? 0 : 1;
}
""")
DOC = r'''
#include <stdint.h>
#include <stdexcept>
#include <string>
#include <memory>
#include <mutex>
#include <stdex/html.hpp>
#include <stdio.h>
#include <wchar.h>
namespace html = stdex::html;
typedef html::parser<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>> parser;
struct doc : html::document<wchar_t> {
	doc(const wchar_t* s) { assign(s, wcslen(s)); }
	int at(const html::sequence* s) const { for (size_t i = 0; i < m_sequences.size(); ++i) if (m_sequences[i].get() == s) return (int)i; return -1; }
	int parent(size_t i) const { return at(m_sequences[i]->parent); }
	int end(size_t i) const { return at(dynamic_cast<const html::element_start*>(m_sequences[i].get())->end); }
	int start(size_t i) const { return at(dynamic_cast<const html::element_end*>(m_sequences[i].get())->start); }
	int charset() const { return (int)m_charset; }
	size_t size() const { return m_sequences.size(); }
};
#define WANT(x) do { if (!(x)) { printf("BAD: %s\n", #x); return 1; } } while (0)
'''
plant("html-end-one-level", "C48", [("html.hpp", "									starting_tag->end = e.get();\n									m_element_stack.resize(j);\n									break;\n", "									starting_tag->end = e.get();\n									m_element_stack.pop_back();\n									break;\n")],
      "a tag ends an element that has another, never ended, inside of it", "the element ended is taken for an open one",
      DOC + r'''
int main()
{
	doc d(L"<div><b></div>x");
	WANT(d.end(0) == 2);
	WANT(d.parent(3) == -1);
	doc e(L"<p><b>x</b>y</p>z");
	WANT(e.parent(4) == 0 && e.parent(6) == -1 && e.start(3) == 1);
	return 0;
}
''')
plant("html-anchor-in-anchor", "C48", [("html.hpp", "				case element_t::a:             return is_inline(child) && child != element_t::a;\n", "				case element_t::a:             return is_inline(child);\n")],
      "a link is not ended before the next link starts", "the second link becomes a part of the first",
      DOC + r'''
int main()
{
	doc d(L"<p><a href=\"1\">x<a href=\"2\">y</a></p>");
	WANT(d.end(1) == 3);
	WANT(d.parent(3) == 0);
	WANT(d.start(5) == 3);
	return 0;
}
''')
plant("html-last-charset", "C48", [("html.hpp", "							if (e->code == element_t::meta && m_charset == stdex::charset_id::system) {\n", "							if (e->code == element_t::meta) {\n")],
      "a document declares its content type twice", "the second declaration counts",
      DOC + r'''
int main()
{
	doc d(L"<meta http-equiv=\"Content-Type\" content=\"text/html; charset=windows-1250\"><meta http-equiv=content-type content=\"text/html; charset=utf-8\">");
	WANT(d.charset() == (int)stdex::charset_id::windows1250);
	doc e(L"<meta http-equiv=\"Content-Type\" content=\"text/html; charset=windows-1250\">");
	WANT(e.charset() == (int)stdex::charset_id::windows1250);
	return 0;
}
''')
plant("html-special-any-end", "C48", [("html.hpp", "							m_tag.type == stdex::parser::html_sequence_t::element_end &&\n							element::element_code(source + m_tag.name.start, m_tag.name.size()) == parent->code)\n", "							m_tag.type == stdex::parser::html_sequence_t::element_end &&\n							element::element_code(source + m_tag.name.start, m_tag.name.size()) != element_t::unknown)\n")],
      "a script writes an ending tag of another element", "the script is ended there",
      DOC + r'''
int main()
{
	doc d(L"<script>document.write('<p>x</p>');</script>y");
	WANT(d.end(0) == 2);
	WANT(d.size() == 4);
	return 0;
}
''')
TAGS = DOC + r'''
struct fix {
	doc d;
	parser p;
	html::token* t[3];
	std::wstring s;
	html::token_list open;
	fix() : d(L"<a><b><i>x<br></i></b></a>"), p(d)
	{
		p.parse();
		size_t n = 0;
		for (auto& x : p.tokens()) if (x->type == html::token_t::starting && n < 3) t[n++] = x.get();
	}
	html::token* any(html::token_t type) { for (auto& x : p.tokens()) if (x->type == type && x->sequence) return x.get(); return nullptr; }
	void go(const html::token_list& want) { parser::start_tokens(s, open, want, p.end_tokens(s, open, want)); }
	size_t tags() { size_t n = 0; for (auto c : s) n += c == html::token_tag_start; return n; }
};
'''
plant("html-end-tokens-prefix", "C49", [("html.hpp", "				for (i1 = active_tokens.cbegin(), i2 = new_tokens.cbegin(); i1 != active_tokens.cend(); ++i1, ++i2) {\n					if (i2 == new_tokens.cend() || *i1 != *i2) {\n", "				for (i1 = active_tokens.cbegin(), i2 = new_tokens.cbegin(); i1 != active_tokens.cend() && i2 != new_tokens.cend(); ++i1, ++i2) {\n					if (*i1 != *i2) {\n")],
      "the tags wanted are the beginning of those open", "the others stay open",
      TAGS + r'''
int main()
{
	fix f;
	f.go({ f.t[0], f.t[1], f.t[2] });
	WANT(f.open.size() == 3 && f.tags() == 3);
	f.go({ f.t[0] });
	WANT(f.open.size() == 1 && f.tags() == 5);
	f.go({ f.t[2] });
	WANT(f.open.size() == 1 && f.open.front() == f.t[2] && f.tags() == 7);
	return 0;
}
''')
plant("html-insert-ending-switches", "C49", [("html.hpp", "						if (t.token->type != token_t::ending)\n							start_tokens(", "						if (!t.active_tokens.empty())\n							start_tokens(")],
      "a tag is inserted where nothing is open, while something still is", "the tag ends up inside of what should have been ended",
      TAGS + r'''
int main()
{
	fix f;
	f.go({ f.t[0] });
	html::inserted_token_list l;
	l.push_back(html::inserted_token{ f.any(html::token_t::complete), {}, 1, true });
	f.p.append_inserted_tokens(f.s, l, 1, false, f.open);
	WANT(l.size() == 1 && f.open.size() == 1);
	f.p.append_inserted_tokens(f.s, l, 1, true, f.open);
	WANT(l.empty() && f.open.empty() && f.tags() == 3);
	return 0;
}
''')
TEXTS = r'''
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdexcept>
#include <string>
#include <memory>
#include <mutex>
#include <vector>
#include <stdex/html.hpp>
#include <stdex/mapping.hpp>
#include <stdex/sgml.hpp>
#include <stdex/string.hpp>
#define WANT(x) do { if (!(x)) { printf("BAD: %s\n", #x); return 1; } } while (0)
'''
plant("sgml-room-by-start", "C41", [("sgml.hpp", "						size_t m = strlen(entity_w);\n						if (j + m >= count_dst)\n							throw buffer_overrun;\n", "						size_t m = strlen(entity_w);\n						if (j >= count_dst)\n							throw buffer_overrun;\n")],
      "an entity of several code units comes where the destination has room for only one", "the terminator or the entity is written behind the destination",
      TEXTS + r'''
int main()
{
	// Abring stands for a letter and a combining breve
	for (size_t n = 1; n < 8; ++n) {
		char32_t dst[10];
		for (auto& c : dst) c = 'X';
		dst[0] = 0;
		bool thrown = false;
		try { stdex::sgml2strcat(reinterpret_cast<stdex::utf32_t*>(dst), n, "ab&Abring;", 10, 0); } catch (const std::exception&) { thrown = true; }
		WANT(thrown == (n < 5));
		for (size_t i = n; i < 10; ++i) WANT(dst[i] == 'X');
	}
	return 0;
}
''')
plant("mapping-hint-boundary", "C41", [("mapping.hpp", "				if (mapping.size() - 1 <= m || to < mapping[m + 1].to)\n					return el.from + (to - el.to);\n", "				if (mapping.size() - 1 <= m || to <= mapping[m + 1].to)\n					return el.from + (to - el.to);\n")],
      "positions are translated in a loop, with the hint, across the end of an entity", "the position right behind an entity is found inside of it",
      TEXTS + r'''
int main()
{
	stdex::mapping_vector<size_t> map;
	std::wstring s;
	stdex::sgml2strcpy(s, "a&lt;b&gt;c", 11, 0, stdex::mapping<size_t>(0, 0), &map);
	WANT(s == L"a<b>c");
	size_t hint = 0;
	static const size_t want[] = { 0, 1, 5, 6, 10 };
	for (size_t i = 0; i < 5; ++i) {
		WANT(stdex::dst2src(map, i) == want[i]);
		WANT(stdex::dst2src(map, i, hint) == want[i]);
	}
	return 0;
}
''')
plant("css-seven-digits", "C41", [("html.hpp", "						size_t end = std::min(num_chars, i + 6);\n", "						size_t end = std::min(num_chars, i + 7);\n")],
      "an escape of six digits is followed by a letter that could be a digit", "the letter becomes a part of the escape",
      TEXTS + r'''
int main()
{
	std::wstring s;
	stdex::html::css_unescape(s, L"\\000041c", 8);
	WANT(s == L"Ac");
	return 0;
}
''')
plant("strnistr-skips", "C44", [("string.hpp", "				if (i >= count || !str[i])\n					return npos;\n				if (tolower(str[i]) != tolower(sample[j]))\n					break;\n", "				if (i >= count || !str[i])\n					return npos;\n				if (tolower(str[i]) != tolower(sample[j])) {\n					if (j > 1) offset = i - 1;\n					break;\n				}\n")],
      "what is looked for starts within a beginning of it that does not go on", "it is not found",
      TEXTS + r'''
int main()
{
	WANT(stdex::strnistr("aAab", 4, "aab") == 1);
	WANT(stdex::strnistr("xabABac", 7, "ABAC") == 3);
	return 0;
}
''')
plant("number-prefix-limit", "C44", [("string.hpp", "			if (str[i] == '0' && i + 1 < count && (str[i + 1] == 'x' || str[i + 1] == 'X')) {\n", "			if (str[i] == '0' && i < count && (str[i + 1] == 'x' || str[i + 1] == 'X')) {\n")],
      "the limit of a hexadecimal number is right behind a zero", "what is behind the limit is read",
      TEXTS + r'''
int main()
{
	size_t end = 77;
	WANT(stdex::strto32("0x1", 1, &end, 16) == 0);
	WANT(end == 1);
	return 0;
}
''')
plant("number-overflow-ends", "C44", [("string.hpp", "				// Overflow!\n				flags |= 0x02;\n", "				// Overflow!\n				flags |= 0x02;\n				break;\n")],
      "a number is followed by something and has more digits than fit", "its last digits are left to what follows",
      TEXTS + r'''
int main()
{
	size_t end = 77;
	WANT(stdex::strto32("99999999999999;", 15, &end, 10) == INT32_MAX);
	WANT(end == 14);
	return 0;
}
''')
plant("uuid-field-range", "C44", [("uuid.hpp", "		if (n > 0xffffffffffff) return false;\n", "")],
      "the last field of a UUID has too many digits", "it is taken for a UUID, without the first of them",
      TEXTS + r'''
#include <uuid/uuid.h>
#include <stdex/uuid.hpp>
int main()
{
	uuid_t id;
	WANT(stdex::strtouuid("{01234567-89ab-cdef-0123-456789abcdef}", 38, id));
	WANT(!stdex::strtouuid("{01234567-89ab-cdef-0123-F456789abcdef}", 39, id));
	return 0;
}
''')
plant("langid-tables-differ", "C44", [("langid.hpp", '			{"quz-PE", 0xc6b},         // Quechua (Peru)\n', '			{"quz-PE", 0x86b},         // Quechua (Peru)\n')],
      "one language of hundreds", "it reads back as another",
      TEXTS + r'''
#include <stdex/langid.hpp>
int main()
{
	for (unsigned sub = 0; sub < 64; ++sub)
		for (unsigned lang = 0; lang < 0x100; ++lang) {
			const char* name = stdex::rfc1766_from_langid(static_cast<stdex::langid>(sub << 10 | lang), "");
			if (!*name) continue;
			auto back = stdex::langid_from_rfc1766(name);
			if (strcmp(stdex::rfc1766_from_langid(back, ""), name)) { printf("BAD: %s\n", name); return 1; }
		}
	return 0;
}
''')
plant("html-comment-attributes", "C40", [("parser.hpp", "								this->type = html_sequence_t::comment;\n								this->name.end = this->interval.end;\n								this->attributes.clear();\n", "								this->type = html_sequence_t::comment;\n								this->name.end = this->interval.end;\n")],
      "a comment is matched after an element with attributes", "the comment has the attributes of the element, which lie anywhere",
      PARSE + r'''
int main()
{
	html_tag p;
	std::string a = "<a href=\"x\" title='something rather long'>", b = "<!--x-->";
	if (!p.match(a.data(), 0, a.size()) || p.attributes.size() != 2) return bad("an element");
	if (!p.match(b.data(), 0, b.size()) || p.type != html_sequence_t::comment) return bad("a comment");
	if (!p.attributes.empty()) return bad("a comment has attributes");
	return 0;
}
''')
plant("mime-charset-kept", "C40", [("parser.hpp", "				this->sub_type.end = this->interval.end;\n				this->charset.invalidate();\n", "				this->sub_type.end = this->interval.end;\n")],
      "a type without a character set is matched after one that has it", "the character set of the type before is told",
      PARSE + r'''
int main()
{
	mime_type p;
	if (!p.match("text/html; charset=\"utf-8\"", 0, 26) || !p.charset) return bad("a character set");
	if (!p.match("text/html", 0, 9)) return bad("a type");
	if (p.charset) return bad("a character set that is not there");
	return 0;
}
''')
plant("css-comment-stars", "C40", [("parser.hpp", "						{\n							// /*...*/\n							this->content.end = this->interval.end;\n							this->interval.start = start;\n							this->interval.end = this->interval.end + 2;\n							return true;\n						}\n						this->interval.end++;\n", "						{\n							// /*...*/\n							this->content.end = this->interval.end;\n							this->interval.start = start;\n							this->interval.end = this->interval.end + 2;\n							return true;\n						}\n						if (text[this->interval.end] == '*')\n							this->interval.end++;\n						if (this->interval.end >= end || !text[this->interval.end])\n							break;\n						this->interval.end++;\n")],
      "a comment ends with an even number of stars", "its end is not seen",
      PARSE + r'''
int main()
{
	css_comment p;
	if (!p.match("/* a */ b */", 0, 12) || p.interval.end != 7) return bad("a comment");
	if (!p.match("/* a **/ b */", 0, 13) || p.interval.end != 8) return bad("a comment with a star at its end");
	return 0;
}
''')
