// SIM: plain
// C29: file locks, times and opening modes act on what they name and report failure.
#include <stdex/stream.hpp>
#include "sim.h"
#include "simk.h"
#include <fcntl.h>
#include <string.h>
#include <memory>
#include <stdexcept>
#include <system_error>
#include <vector>
using namespace sim;
using namespace stdex::stream;
typedef stdex::stream::fpos_t pos_t_;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	std::vector<uint8_t> content(uint32_t n) { std::vector<uint8_t> v(n); for (uint32_t i = 0; i < n; ++i) v[i] = (uint8_t)(i * 7 + 1 + n); return v; }

	// --- locks ---
	const uint64_t edge[] = { 0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 1000, 4096, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000005ull, 1ull << 62, INT64_MAX - 1, INT64_MAX };
	const unsigned edges = sizeof(edge) / sizeof(*edge);
	typedef std::vector<bool> cells; // of [edge[k], edge[k + 1])
	bool read_cells(const std::vector<simk::lock_rec>& l, cells& out)
	{
		out.assign(edges - 1, false);
		for (auto& r : l) {
			bool from = false, to = false;
			for (unsigned k = 0; k < edges; ++k) { from = from || edge[k] == r.off; to = to || edge[k] == r.off + r.len; }
			if (!from || !to) return false;
			for (unsigned k = 0; k + 1 < edges; ++k) if (edge[k] >= r.off && edge[k + 1] <= r.off + r.len) out[k] = true;
		}
		return true;
	}
	std::string show(const std::vector<simk::lock_rec>& l) { std::string s; for (auto& r : l) { char b[60]; snprintf(b, sizeof(b), "%s%llu+%llu", s.empty() ? "" : ", ", (unsigned long long)r.off, (unsigned long long)r.len); s += b; } return s.empty() ? "nothing" : s; }

	struct lock_world {
		std::shared_ptr<simk::inode> ino;
		cells mine = cells(edges - 1, false);
		bool writable = true;

		// start: where the section counts from; limit: end of the window it is in
		void op(basic_file& f, const char* name, uint64_t start, uint64_t limit, bool can_fail)
		{
			bool un = choose(2);
			unsigned i = choose(edges - 1);
			if (edge[i] < start) while (edge[i] < start) ++i; // within the window, or after it
			unsigned j = i + 1 + choose(choose(3) ? 3 : edges);
			if (j >= edges) j = edges - 1;
			uint64_t a = edge[i], b = edge[j];
			bool huge = !choose(12);
			cells want = mine;
			bool outside = false;
			outside = a >= limit;
			uint64_t end = b < limit ? b : limit;
			if (!huge && !outside)
				for (unsigned k = 0; k + 1 < edges; ++k) if (edge[k] >= a && edge[k + 1] <= end) want[k] = !un;
			uint32_t seek_error = simk::cfg.seek_error;
			simk::cfg.seek_error = 0;
			pos_t_ before = f.tell();
			simk::cfg.seek_error = seek_error;
			std::string locks = show(ino->locks);
			simk::reset_marks();
			bool threw = false;
			try {
				if (huge) {
					uint64_t far = (1ull << 63) + (uint64_t)choose(1000);
					bool off = choose(2);
					if (un) f.unlock(off ? far : 0, off ? 1 : far); else f.lock(off ? far : 0, off ? 1 : far);
				}
				else if (un) f.unlock(a - start, b - a);
				else f.lock(a - start, b - a);
			}
			catch (const std::invalid_argument&) { threw = true; SIM_CHECK(huge, "throws", "%s::%s(%llu, %llu) throws invalid_argument", name, un ? "unlock" : "lock", (unsigned long long)(a - start), (unsigned long long)(b - a)); }
			simk::cfg.seek_error = 0;
			auto m = simk::m;
			bool ok = !threw && f.ok();
			ev("%s %s %llu+%llu: %s%s", name, un ? "unlock" : "lock", (unsigned long long)a, (unsigned long long)(b - a), sname(f.state()), threw ? ", threw" : "");
			cells got;
			bool whole = read_cells(ino->locks, got);
			if (huge && start == 0 && limit == UINT64_MAX) SIM_CHECK(threw || (!ok && m.errors) || (!ok && (!f.tell() || !writable || !can_fail || f.tell() == fpos_max)), "huge", "%s::%s() of a section beyond what the system can name reports %s", name, un ? "unlock" : "lock", sname(f.state()));
			bool after = whole && got == want, same = whole && got == mine;
			if (huge) {
				// A window cuts the section, which may be inside of it
				if (!(start == 0 && limit == UINT64_MAX)) { SIM_CHECK(whole, "section", "%s::%s() touches a section that nobody named: %s", name, un ? "unlock" : "lock", show(ino->locks).c_str()); for (unsigned k = 0; k + 1 < edges; ++k) SIM_CHECK(got[k] == mine[k] || (edge[k] >= start && edge[k + 1] <= limit), "section", "%s::%s() reaches out of the window: %s", name, un ? "unlock" : "lock", show(ino->locks).c_str()); mine = got; }
				else SIM_CHECK(same, "section", "a refused %s::%s() changes the locks to %s", name, un ? "unlock" : "lock", show(ino->locks).c_str());
			}
			else if (outside) SIM_CHECK(!ok && same, "section", "%s::%s() outside of the window reports %s and leaves %s locked", name, un ? "unlock" : "lock", sname(f.state()), show(ino->locks).c_str());
			else if (ok) SIM_CHECK(after, "section", "%s::%s() of %llu bytes at %llu reports success; before %s was locked, then %s", name, un ? "unlock" : "lock", (unsigned long long)(end - a), (unsigned long long)a, locks.c_str(), show(ino->locks).c_str());
			else {
				SIM_CHECK(m.errors || (!writable && !un), "spurious_failure", "%s::%s() of %llu bytes at %llu reports %s though nothing failed", name, un ? "unlock" : "lock", (unsigned long long)(end - a), (unsigned long long)a, sname(f.state()));
				SIM_CHECK(same || (after && m.seek_errors), "section", "a refused %s::%s() of %llu bytes at %llu changes the locks from %s to %s", name, un ? "unlock" : "lock", (unsigned long long)(end - a), (unsigned long long)a, locks.c_str(), show(ino->locks).c_str());
			}
			if (!huge && !outside && whole) mine = got;
			if (ok || !m.seek_errors) SIM_CHECK(f.tell() == before, "position", "%s::%s() moves the position from %llu to %llu", name, un ? "unlock" : "lock", (unsigned long long)before, (unsigned long long)f.tell());
			for (auto& x : ino->locks) for (auto& y : ino->foreign) SIM_CHECK(x.off >= y.off + y.len || y.off >= x.off + x.len, "exclusion", "%s holds a lock that another process has", name);
		}
	};
	void s_locks()
	{
		lock_world w;
		auto data = content(choose(200));
		w.ino = simk::make_file("/f", data);
		w.writable = choose(6) != 1;
		for (uint32_t n = choose(4); n > 1; --n) { unsigned i = choose(edges - 1); simk::lock_rec r = { edge[i], edge[i + 1] - edge[i] }; bool clash = false; for (auto& x : w.ino->foreign) clash = clash || x.off == r.off; if (!clash) w.ino->foreign.push_back(r); }
		file f(stdex::sstring("/f"), (w.writable ? mode_for_reading | mode_for_writing : mode_for_reading) | mode_open_existing | mode_binary | share_all);
		SIM_CHECK(f.ok(), "open", "opening a file that exists fails");
		uint64_t start = edge[choose(12)], limit = start + 1 + choose(300);
		{ bool e = false; for (auto x : edge) e = e || x == limit; if (!e) limit = start < 1000 ? 1000 : 4096; }
		file_window win(f, start, limit - start);
		std::unique_ptr<cache> c(choose(2) ? new cache(f, 16) : nullptr);
		const bool faults = choose(3) != 1;
		static const uint32_t p[] = { 0, 60, 400, 1000 };
		uint8_t buf[64];
		for (unsigned n = 1 + choose(20); n; --n) {
			simk::cfg.lock_error = faults ? p[choose(4)] : 0;
			simk::cfg.seek_error = faults && !choose(4) ? 200 : 0;
			if (c && choose(2)) { w.op(*c, "cache", 0, UINT64_MAX, faults); continue; }
			switch (choose(8)) {
			case 0: simk::cfg.seek_error = 0; f.seekbeg(choose(300)); break;
			case 1: simk::cfg.seek_error = 0; if (!c) f.read(buf, 1 + choose(60)); else c->seekbeg(choose(200)); break;
			case 2: w.op(win, "file_window", start, limit, faults); break;
			case 3: if (!w.ino->foreign.empty() && choose(2)) w.ino->foreign.pop_back(); break;
			default: w.op(f, "file", 0, UINT64_MAX, faults);
			}
			simk::cfg.seek_error = 0;
			if (choose(30) == 1) { // A closed file
				c.reset();
				f.close();
				SIM_CHECK(w.ino->locks.empty(), "closed", "a closed file keeps locks");
				for (int k = 0; k < 2; ++k) { k ? f.unlock(0, 1) : f.lock(0, 1); SIM_CHECK(!f.ok(), "closed", "locking of a closed file reports %s", sname(f.state())); }
				break;
			}
		}
		SIM_CHECK(w.ino->data == data, "content", "locking changes the content");
		simk::cfg = simk::config();
		c.reset();
		state(show(w.ino->locks).size() * 131 + w.ino->foreign.size());
	}

	// --- times ---
	time_point some_time()
	{
		int64_t t;
		switch (choose(7)) {
		case 0: t = 1700000000; break;
		case 1: t = 0; break;
		case 2: t = choose(2000000000); break;
		case 3: t = -(int64_t)choose(2000000000); break;
		case 4: t = 2147483647 + (int64_t)choose(3); break;
		case 5: t = 4294967295ll + choose(3); break;
		default: t = 7000000000ll + choose(1000000000); break;
		}
		int64_t ns = choose(2) ? 0 : choose(2) ? choose(1000000000) : choose(2) ? 1 : 999999999;
		return time_point(std::chrono::duration_cast<time_point::duration>(std::chrono::nanoseconds(t * 1000000000ll + ns)));
	}
	int64_t ns_of(time_point t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
	bool near(int64_t a, int64_t b) { return a - b < 1000000000 && b - a < 1000000000; }
	void s_times()
	{
		auto ino = simk::make_file("/f", content(choose(50)));
		auto other = simk::make_file("/g", {});
		file f("/f", mode_for_reading | mode_for_writing | mode_for_chmod | mode_open_existing | mode_binary);
		std::unique_ptr<cache> c(choose(2) ? new cache(f) : nullptr);
		if (choose(4) == 1) { c.reset(); file g(std::move(f)); f = std::move(g); }
		static const uint32_t p[] = { 0, 300, 1000 };
		for (unsigned n = 1 + choose(16); n; --n) {
			simk::cfg.utime_error = p[choose(3)];
			simk::cfg.stat_error = p[choose(3)];
			bool through = c && choose(2);
			basic_file& o = through ? (basic_file&)*c : f;
			const char* name = through ? "cache" : "file";
			int64_t a = ino->atime, m = ino->mtime;
			simk::reset_marks();
			uint32_t op = choose(6);
			state_t st = o.state();
			pos_t_ pos = o.tell();
			switch (op) {
			case 0: case 1: {
				time_point t = some_time();
				bool threw = false;
				try { if (op) o.set_mtime(t); else o.set_atime(t); } catch (const std::system_error& e) { threw = true; SIM_CHECK(e.code().value() == EPERM, "error_code", "setting a time fails with %d instead of %d", e.code().value(), EPERM); }
				ev("set_%ctime %lld.%09u: %s", op ? 'm' : 'a', (long long)(ns_of(t) / 1000000000), (unsigned)(ns_of(t) % 1000000000), threw ? "failed" : "done");
				SIM_CHECK(threw == (simk::m.utime_errors != 0), "reported", "%s::set_%ctime() %s", name, op ? 'm' : 'a', threw ? "fails though the system did as told" : "hides that the system refused");
				int64_t& named = op ? ino->mtime : ino->atime, & rest = op ? ino->atime : ino->mtime;
				SIM_CHECK(rest == (op ? a : m), "other_time", "%s::set_%ctime() changes the other time", name, op ? 'm' : 'a');
				if (threw) SIM_CHECK(named == (op ? m : a), "refused_time", "a refused %s::set_%ctime() changes the time", name, op ? 'm' : 'a');
				else SIM_CHECK(near(named, ns_of(t)), "wrong_time", "%s::set_%ctime(%lld ns) sets %lld ns", name, op ? 'm' : 'a', (long long)ns_of(t), (long long)named);
				break;
			}
			case 2: case 3: {
				time_point t = op == 3 ? o.mtime() : o.atime();
				if (simk::m.stat_errors) { SIM_CHECK(t == time_point::min(), "unknown_time", "%s::%ctime() makes a time up when the system refuses", name, op == 3 ? 'm' : 'a'); break; }
				SIM_CHECK(near(op == 3 ? m : a, ns_of(t)), "read_time", "%s::%ctime() of a file with %lld ns returns %lld ns", name, op == 3 ? 'm' : 'a', (long long)(op == 3 ? m : a), (long long)ns_of(t));
				break;
			}
			case 4:
				try { o.set_ctime(some_time()); }
				catch (const std::exception&) { SIM_CHECK(ino->mtime == m && ino->atime == a, "refused_time", "a refused set_ctime() changes other times"); }
				break;
			default: { // What happens to the file otherwise
				advance(1000000000ull * choose(100000));
				if (choose(2)) ino->mtime = ns_of(some_time());
				else ino->atime = ns_of(some_time());
				continue;
			}
			}
			SIM_CHECK(o.state() == st && o.tell() == pos, "side_effect", "asking for or setting times changes state or position");
		}
		SIM_CHECK(other->mtime != 0, "other_file", "another file's time changes");
		simk::cfg = simk::config();
		c.reset();
		state((uint64_t)ino->mtime * 31 + (uint64_t)ino->atime);
	}

	// --- opening modes ---
	template <class T> struct opened { static constexpr bool cached = false; };
	template <> struct opened<cached_file> { static constexpr bool cached = true; };
	inline bool handle_of(file& f) { return simk::of(f.get()); }
	inline bool handle_of(cached_file&) { return true; }
	struct expectation { bool ok; std::vector<uint8_t> data; bool exists; };
	template <class T> void modes()
	{
		static const char* paths[] = { "/a", "/b", "/c" };
		std::unique_ptr<T> o;
		bool faults = choose(3) == 1;
		for (unsigned n = 1 + choose(10); n; --n) {
			const char* path = paths[choose(3)];
			if (choose(3) == 1) { if (!o || !(bool)*o) simk::make_file(path, content(choose(40))); }
			auto ino = simk::file(path);
			bool existed = ino != nullptr;
			std::vector<uint8_t> old = existed ? ino->data : std::vector<uint8_t>();
			uint32_t disp = choose(6);
			int rw = choose(8) == 1 ? 0 : 1 + choose(3), mode = rw | (int)disp << 3;
			if (choose(3) == 1) mode |= mode_append;
			if (choose(4) == 1) mode |= mode_for_chmod;
			if (choose(2)) mode |= mode_binary;
			mode |= (int)choose(8) << 8;
			if (choose(2)) mode |= (int)choose(32) << 11;
			bool thru = mode & hint_write_thru;
			simk::cfg.open_error = faults && choose(2) ? 500 : 0;
			simk::cfg.seek_error = faults && choose(2) ? 300 : 0;
			simk::cfg.tell_works = true;
			simk::reset_marks();
			unsigned others = simk::fds_open() - (o && (bool)*o ? 1 : 0);
			bool threw = false, made = false;
			try {
				if (!o) {
					made = true;
					if (choose(2)) o.reset(new T(path, mode)); else o.reset(new T(stdex::sstring(path), mode));
				}
				else if (choose(2)) o->open(path, mode);
				else o->open(stdex::sstring(path), mode);
			}
			catch (const std::invalid_argument&) { threw = true; }
			simk::cfg.seek_error = simk::cfg.open_error = 0;
			auto m = simk::m;
			ev("open %s mode %x%s%s: %s", path, mode, made ? " new" : "", existed ? " existing" : "", threw ? "invalid" : sname(o->state()));
			bool valid = disp < 5;
			SIM_CHECK(threw == !valid, "invalid_mode", "opening with mode %x %s", mode, threw ? "is refused as invalid" : "is not refused");
			SIM_CHECK(simk::fds_open() == others + (o && (bool)*o ? 1 : 0), "descriptors", "after opening with mode %x %u descriptors are open", mode, simk::fds_open());
			ino = simk::file(path);
			if (threw) {
				SIM_CHECK(existed == (ino != nullptr) && (!ino || ino->data == old), "invalid_mode", "a refused mode touches the file");
				if (o) SIM_CHECK(!(bool)*o || handle_of(*o), "invalid_mode", "a refused mode leaves a stale descriptor");
				if (o && !(bool)*o) o.reset();
				continue;
			}
			bool should = disp == 0 || disp == 1 ? existed : disp == 3 ? !existed : true;
			bool trunc = disp == 1 || disp == 4, open = (bool)*o;
			if (m.open_errors || !should) {
				SIM_CHECK(!o->ok() && !open, "refused", "opening with mode %x of %s file reports %s", mode, existed ? "an existing" : "a missing", sname(o->state()));
				SIM_CHECK(existed == (ino != nullptr) && (!ino || ino->data == old), "refused", "opening with mode %x fails but changes the file", mode);
				uint8_t b = 7;
				if (opened<T>::cached) o->seekbeg(0);
				SIM_CHECK(o->read(&b, 1) == 0 && !o->ok(), "refused", "reading of a file that was not opened reports %s", sname(o->state()));
				if (choose(2)) o.reset();
				continue;
			}
			SIM_CHECK(open && (o->ok() || m.seek_errors), "opened", "opening with mode %x of %s file reports %s", mode, existed ? "an existing" : "a missing", sname(o->state()));
			if (m.seek_errors && !opened<T>::cached) SIM_CHECK(!(mode & mode_append) || !o->ok(), "append", "opening reports ok though it could not go to the end");
			SIM_CHECK(ino, "created", "mode %x does not create the file", mode);
			SIM_CHECK(ino->mode & 0200, "created", "a created file cannot be written to");
			if (trunc) old.clear();
			SIM_CHECK(ino->data == old, "content", "after opening with mode %x the file has %zu bytes instead of %zu", mode, ino->data.size(), old.size());
			if (!o->ok()) { o.reset(); continue; }
			uint64_t at = mode & mode_append ? old.size() : 0;
			SIM_CHECK(o->tell() == at, "position", "opening with mode %x starts at %llu instead of %llu", mode, (unsigned long long)o->tell(), (unsigned long long)at);
			// What is permitted
			if (choose(3)) {
				uint8_t b[8];
				o->seekbeg(0);
				size_t got = o->read(b, 8), can = old.size() < 8 ? old.size() : 8;
				if ((rw & mode_for_reading) || !rw || opened<T>::cached) SIM_CHECK(got == can && !memcmp(b, old.data(), can), "reading", "a file opened with mode %x gives %zu bytes instead of %zu", mode, got, can);
				else SIM_CHECK(got == 0 && !o->ok(), "reading", "a file opened for writing only gives %zu bytes", got);
				o->seekbeg(at);
			}
			if (choose(3)) {
				auto add = content(1 + choose(20));
				o->write(add.data(), add.size());
				if (rw & mode_for_writing) {
					SIM_CHECK(o->ok(), "writing", "writing to a file opened with mode %x reports %s", mode, sname(o->state()));
					if (choose(2)) o->flush();
					else if (opened<T>::cached || !thru) { o->seekbeg(at); o.reset(); } // written when it is destroyed
					if (old.size() < at + add.size()) old.resize(at + add.size());
					std::copy(add.begin(), add.end(), old.begin() + (long)at);
					SIM_CHECK(ino->data == old, "writing", "what was written to a file opened with mode %x is not what it has", mode);
					if (thru && (!opened<T>::cached || !o)) SIM_CHECK(ino->durable == old, "write_thru", "written data of a file opened with hint_write_thru is not on the disk");
				}
				else {
					if (o->ok() && opened<T>::cached) o->flush();
					SIM_CHECK(!o->ok() && ino->data == old, "writing", "writing to a file opened with mode %x reports %s", mode, sname(o->state()));
					if (opened<T>::cached) { o->seekbeg(0); break; } // what cannot be written stays in the cache
				}
			}
			if (o && choose(3) == 1) { o->close(); SIM_CHECK(!(bool)*o, "closed", "a closed file has a descriptor"); }
			if (o && choose(3) == 1) o.reset();
		}
		simk::cfg = simk::config();
		if (o && opened<T>::cached) { try { o->close(); } catch (const std::system_error&) { simk::cfg = simk::config(); auto l = o.release(); (void)l; return; } }
		o.reset();
		SIM_CHECK(!simk::fds_open(), "descriptors", "%u descriptors stay open", simk::fds_open());
	}
	void s_modes() { modes<file>(); }
	void s_cached_modes() { modes<cached_file>(); }

	// --- what is known about a path ---
	void s_paths()
	{
		for (unsigned n = 1 + choose(8); n; --n) {
			static const char* paths[] = { "/a", "/b" };
			const char* path = paths[choose(2)];
			if (choose(2)) { auto i = simk::make_file(path, content(choose(3))); i->mode = choose(512); }
			auto i = simk::file(path);
			simk::cfg.stat_error = choose(4) == 1 ? 500 : 0;
			simk::reset_marks();
			bool str = choose(2);
			bool e = str ? file::exists(stdex::sstring(path)) : file::exists(path);
			if (simk::m.stat_errors) SIM_CHECK(!e || i, "exists", "a path that cannot be looked at is said to exist");
			else SIM_CHECK(e == (i != nullptr), "exists", "exists() of %s path says %d", i ? "an existing" : "a missing", e);
			simk::reset_marks();
			bool r = str ? file::readonly(stdex::sstring(path)) : file::readonly(path);
			if (simk::m.stat_errors) SIM_CHECK(!r, "readonly", "an inaccessible path is said to be read-only");
			else SIM_CHECK(r == (i && !(i->mode & 0222)), "readonly", "readonly() of a file with mode %o says %d", i ? i->mode : 0, r);
			evn(5, e, r);
		}
		simk::cfg = simk::config();
	}
}
SIM_SCENARIOS("C29", { "locks", 4, s_locks }, { "times", 2, s_times }, { "modes", 3, s_modes }, { "cached_modes", 2, s_cached_modes }, { "paths", 1, s_paths })
