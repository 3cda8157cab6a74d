// SIM: plain
// C19: memory files under failing allocations and failing files.
#include "filemodel.h"
#include <stdlib.h>
using namespace fmodel;
using namespace sim;

namespace
{
	std::vector<uint8_t> content(size_t n, uint64_t k = 77) { std::vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(1 + pat(k, i) % 255); return v; }

	// A memory file, what must be in it, and the caller's block it may use
	struct mf {
		std::unique_ptr<memory_file> f;
		model m;
		std::shared_ptr<std::vector<uint8_t>> block;
		driver d;
		void bind() { d.f = f.get(); d.m = &m; }
	};
	void make(mf& x, uint64_t k)
	{
		auto c = content(choose(3) ? choose(80) : 0, k);
		size_t reserved = c.size() + choose(60);
		switch (choose(3)) {
		case 0: x.f.reset(new memory_file); if (c.size()) x.f->write(c.data(), c.size()); x.f->seek(0); break;
		case 1: {
			void* p = malloc(reserved + 1);
			if (c.size()) memcpy(p, c.data(), c.size());
			x.f.reset(new memory_file(p, c.size(), reserved + 1, true));
			break;
		}
		default:
			x.block = std::make_shared<std::vector<uint8_t>>(reserved + 1, 0xbe);
			if (c.size()) memcpy(x.block->data(), c.data(), c.size());
			x.f.reset(new memory_file(x.block->data(), c.size(), reserved + 1));
			x.m.can_grow = false;
		}
		x.m.init(c);
		x.m.faults = true;
		x.bind();
	}
	void verify(mf& x, const char* when)
	{
		auto& f = *x.f;
		SIM_CHECK(f.tell() == x.m.pos, "position", "%s the position is %llu instead of %llu", when, (unsigned long long)f.tell(), (unsigned long long)x.m.pos);
		SIM_CHECK(f.size() == x.m.d.size(), "size", "%s the size is %llu instead of %zu", when, (unsigned long long)f.size(), x.m.d.size());
		SIM_CHECK(x.m.d.empty() || (f.data() && !memcmp(f.data(), x.m.d.data(), x.m.d.size())), "content", "%s the content is another one", when);
		if (x.block && f.data() == x.block->data()) SIM_CHECK(x.f->size() <= x.block->size(), "overrun", "%s the file is larger than the block it was given", when);
	}

	void s_ops()
	{
		mf x;
		make(x, 77);
		if (!choose(5)) { x.d.lim.max_io = 90000; x.d.lim.max_off = 200000; }
		unsigned n = 3 + choose(40);
		uint32_t p = choose(5) ? 1 + choose(600) : 0;
		alloc_faults_malloc_only = true;
		for (unsigned i = 0; i < n; ++i) {
			alloc_faults af(p, 1000);
			if (choose(5)) x.d.step();
			else switch (choose(7)) {
			case 0: { // typed
				if (!x.f->ok()) x.f->seekbeg(x.m.pos);
				uint64_t v = mix(i);
				uint8_t b[8];
				memcpy(b, &v, 8);
				x.m.attempt(x.m.pos, b, 8);
				x.f->write_data(v);
				if (x.f->ok()) { x.m.put(x.m.pos, b, 8); x.m.pos += 8; }
				break;
			}
			case 1: {
				if (!x.f->ok()) x.f->seekbeg(x.m.pos);
				std::string t(choose(50), 'q');
				uint32_t len = (uint32_t)t.size();
				std::vector<uint8_t> b(4 + t.size());
				memcpy(b.data(), &len, 4);
				memcpy(b.data() + 4, t.data(), t.size());
				x.m.attempt(x.m.pos, b.data(), b.size());
				if (choose(2)) x.f->write_str(t); else x.f->write_str(t.c_str());
				if (x.f->ok()) { x.m.put(x.m.pos, b.data(), b.size()); x.m.pos += b.size(); }
				break;
			}
			case 2: { // from a stream that delivers in pieces and may fail
				struct piece : basic {
					std::vector<uint8_t> d; size_t pos = 0; bool fail = false;
					size_t read(void* p, size_t n) override {
						size_t k = d.size() - pos < n ? d.size() - pos : n;
						if (k > 1) k = 1 + choose((uint32_t)k);
						if (k) memcpy(p, d.data() + pos, k);
						pos += k;
						m_state = k || !n ? state_t::ok : fail ? state_t::fail : state_t::eof;
						return k;
					}
				} src;
				src.d = content(choose(200), i);
				src.fail = choose(2);
				x.m.attempt(x.m.pos, src.d.data(), src.d.size());
				size_t amount = choose(2) ? SIZE_MAX : choose(250);
				unsigned e = errs();
				size_t w = x.f->write_stream(src, amount);
				size_t want = amount < src.d.size() ? amount : src.d.size();
				ev("write_stream of %zu -> %zu %s", want, w, sname(x.f->state()));
				SIM_CHECK(w <= want, "count", "write_stream of %zu returns %zu", want, w);
				bool grew = errs() == e && x.m.can_grow;
				if (grew) SIM_CHECK(w == want && x.f->ok() == (amount <= src.d.size() || !src.fail), "state", "write_stream of %zu returns %zu, %s", want, w, sname(x.f->state()));
				if (w < want) SIM_CHECK(x.f->state() == state_t::fail, "failure_hidden", "write_stream stops after %zu of %zu and reports %s", w, want, sname(x.f->state()));
				x.m.put(x.m.pos, src.d.data(), w);
				x.m.pos += w;
				break;
			}
			case 3: { // reserve, never below the content
				size_t r = x.m.d.size() + choose(300);
				unsigned e = errs();
				x.f->reserve(r, choose(2));
				if (!x.f->ok()) SIM_CHECK(errs() != e || !x.m.can_grow, "state", "reserve fails without a reason");
				break;
			}
			case 4: { // the same byte over and over
				if (!x.f->ok()) x.f->seekbeg(x.m.pos);
				size_t amount = choose(x.m.d.size() > 1 ? 60 : 20);
				std::vector<uint8_t> b(amount, (uint8_t)(1 + choose(255)));
				if (amount) x.m.attempt(x.m.pos, b.data(), b.size());
				unsigned e = errs();
				if (amount) x.f->write_byte(b[0], choose(8) || amount != 1 ? amount : 1); else x.f->write_byte(7, 0);
				ev("write_byte of %zu -> %s", amount, sname(x.f->state()));
				if (!amount || (errs() == e && x.m.can_grow)) SIM_CHECK(x.f->ok(), "state", "write_byte of %zu reports %s", amount, sname(x.f->state()));
				if (x.f->ok() && amount) { x.m.put(x.m.pos, b.data(), b.size()); x.m.pos += b.size(); }
				break;
			}
			case 5: { // in place
				if (x.m.d.size() < 9) break;
				auto at = choose((uint32_t)x.m.d.size() - 8);
				uint64_t v = mix(i + 1000);
				unsigned kind = choose(8);
				uint8_t b[8]; memcpy(b, &v, 8);
				size_t k = 0;
				auto op = [&](auto t) {
					memcpy(&t, b, k = sizeof(t));
					x.f->set((stdex::stream::fpos_t)at, t);
					memcpy(&x.m.d[at], b, k);
					auto from = choose((uint32_t)x.m.d.size() - 8);
					x.f->get((stdex::stream::fpos_t)from, t);
					SIM_CHECK(!memcmp(&t, &x.m.d[from], k), "content", "get of %zu at %u gives another value", k, from);
				};
				switch (kind) {
				case 0: op((uint8_t)0); break; case 1: op((int16_t)0); break; case 2: op((uint32_t)0); break; case 3: op((int64_t)0); break;
				case 4: op((uint16_t)0); break; case 5: op((int32_t)0); break; case 6: op((uint64_t)0); break; default: op((char)0);
				}
				ev("set of %zu at %u", k, at);
				break;
			}
			default:
				x.f->close();
				SIM_CHECK(x.f->ok(), "state", "close reports failure");
				x.m.d.clear();
				x.m.pos = 0;
				x.m.can_grow = true; // from now on the object has its own block
				break;
			}
			verify(x, "after an operation");
		}
	}

	// Copies, moves and assignments
	void s_copies()
	{
		mf x[3];
		for (unsigned i = 0; i < 3; ++i) make(x[i], 100 + i);
		uint32_t p = choose(4) ? 1 + choose(600) : 0;
		unsigned n = 2 + choose(20);
		for (unsigned k = 0; k < n; ++k) {
			unsigned a = choose(3), b = choose(3);
			bool thrown = false;
			uint64_t f0 = alloc_failures();
			const char* what = "";
			alloc_faults_malloc_only = true;
			switch (choose(6)) {
			case 0: { // copy assignment
				what = "copy assignment";
				model old = x[a].m;
				{
					alloc_faults af(p, 1000);
					try { *x[a].f = *x[b].f; } catch (const std::bad_alloc&) { thrown = true; }
				}
				if (!thrown) {
					SIM_CHECK(alloc_failures() == f0, "failure_hidden", "memory ran out during a copy, nobody says so");
					if (a != b) { x[a].m.d = x[b].m.d; x[a].m.pos = x[b].m.pos; x[a].m.can_grow = true; x[a].block.reset(); }
				}
				else if (x[a].f->size() == 0 && x[a].f->tell() == 0 && !(x[a].block && x[a].f->data() == x[a].block->data())) { x[a].m.d.clear(); x[a].m.pos = 0; x[a].m.can_grow = true; x[a].block.reset(); }
				break;
			}
			case 1: { // copy construction
				what = "copy construction";
				std::unique_ptr<memory_file> c;
				{
					alloc_faults af(p, 1000);
					try { c.reset(new memory_file(*x[b].f)); } catch (const std::bad_alloc&) { thrown = true; }
				}
				if (!thrown) {
					SIM_CHECK(alloc_failures() == f0, "failure_hidden", "memory ran out during a copy, nobody says so");
					if (a == b) break; // dropped
					x[a].f = std::move(c);
					x[a].m.d = x[b].m.d; x[a].m.pos = x[b].m.pos; x[a].m.can_grow = true; x[a].block.reset();
				}
				break;
			}
			case 2: { // move assignment
				what = "move assignment";
				if (a == b) { auto& self = *x[a].f; *x[a].f = std::move(self); break; }
				*x[a].f = std::move(*x[b].f);
				x[a].m.d = x[b].m.d; x[a].m.pos = x[b].m.pos; x[a].m.can_grow = x[b].m.can_grow; x[a].block = x[b].block;
				x[b].m.d.clear(); x[b].m.pos = 0; x[b].m.can_grow = true; x[b].block.reset();
				break;
			}
			case 3: { // move construction
				what = "move construction";
				if (a == b) break;
				x[a].f.reset(new memory_file(std::move(*x[b].f)));
				x[a].m.d = x[b].m.d; x[a].m.pos = x[b].m.pos; x[a].m.can_grow = x[b].m.can_grow; x[a].block = x[b].block;
				x[b].m.d.clear(); x[b].m.pos = 0; x[b].m.can_grow = true; x[b].block.reset();
				break;
			}
			default: { // changes one of them only
				what = "a change";
				alloc_faults af(p, 1000);
				for (unsigned j = 0; j < 3; ++j) x[a].d.m = &x[a].m, x[a].bind(), x[a].d.step();
			}
			}
			ev("%s %u <- %u%s", what, a, b, thrown ? " failed" : "");
			for (auto& y : x) { y.bind(); verify(y, what); state(y.m.hash()); }
		}
	}

	// Files that fail
	void s_files()
	{
		static const uint32_t q[] = { 0, 0, 60, 400 };
		mf x;
		make(x, 55);
		auto ino = simk::make_file("/f", content(choose(3) ? choose(200) : choose(100000), 56));
		unsigned n = 1 + choose(6);
		bool faulty = choose(3);
		uint32_t p = faulty && choose(2) ? choose(400) : 0;
		for (unsigned k = 0; k < n; ++k) {
			simk::cfg = simk::config();
			simk::cfg.short_read = choose(2) ? choose(900) : 0;
			simk::cfg.short_write = choose(2) ? choose(900) : 0;
			if (faulty) {
				simk::cfg.read_error = q[choose(4)];
				simk::cfg.write_error = q[choose(4)];
				simk::cfg.truncate_error = q[choose(4)];
				simk::cfg.open_error = q[choose(4)];
				simk::cfg.close_error = q[choose(3)];
				simk::cfg.stat_error = q[choose(3)];
				if (!choose(4)) simk::cfg.capacity = ino->data.size() + choose((uint32_t)x.m.d.size() + 1);
			}
			unsigned e = errs() + simk::m.nospace;
			bool thrown = false;
			alloc_faults_malloc_only = false;
			switch (choose(3)) {
			case 0: { // save
				{
					alloc_faults af(p, 1000);
					int mode = choose(2) ? 0 : mode_preserve_existing;
					try { x.f->save("/f", mode | mode_binary); }
					catch (const std::system_error&) { thrown = true; }
					catch (const std::bad_alloc&) { thrown = true; }
				}
				bool clean = errs() + simk::m.nospace == e;
				ev("save of %zu -> %s%s", x.m.d.size(), sname(x.f->state()), thrown ? " thrown" : "");
				if (clean) SIM_CHECK(!thrown && x.f->ok(), "state", "saving to a working disk reports %s", thrown ? "an exception" : sname(x.f->state()));
				if (!thrown && x.f->ok()) SIM_CHECK(ino->data == x.m.d, "failure_hidden", "saving %zu bytes reports ok, the file has %zu or other ones", x.m.d.size(), ino->data.size());
				verify(x, "after saving");
				break;
			}
			case 1: { // load
				model old = x.m;
				{
					alloc_faults af(p, 1000);
					try { x.f->load("/f", mode_binary); }
					catch (const std::system_error&) { thrown = true; }
					catch (const std::bad_alloc&) { thrown = true; }
				}
				bool clean = errs() + simk::m.nospace == e;
				ev("load of %zu -> %s%s", ino->data.size(), sname(x.f->state()), thrown ? " thrown" : "");
				if (clean && x.m.can_grow) SIM_CHECK(!thrown && x.f->ok(), "state", "loading from a working disk reports %s", thrown ? "an exception" : sname(x.f->state()));
				if (!thrown && x.f->ok()) {
					x.m.d = ino->data;
					x.m.pos = 0;
					verify(x, "after loading");
					break;
				}
				// intact, or the beginning of the file
				size_t s = (size_t)x.f->size();
				auto at = (const uint8_t*)x.f->data();
				bool intact = s == old.d.size() && (!s || !memcmp(at, old.d.data(), s));
				bool begun = s <= ino->data.size() && (!s || !memcmp(at, ino->data.data(), s));
				SIM_CHECK(intact || begun, "content", "a failed load leaves %zu bytes that are neither the old ones nor the file's", s);
				if (begun && !intact) x.m.d.assign(ino->data.begin(), ino->data.begin() + s);
				simk::cfg = simk::config();
				x.f->seek(0);
				x.m.pos = 0;
				verify(x, "after a failed load");
				break;
			}
			default:
				alloc_faults_malloc_only = true;
				alloc_faults af(p, 1000);
				for (unsigned j = 0; j < 4; ++j) x.d.step();
				verify(x, "after an operation");
			}
		}
		SIM_CHECK(!simk::fds_open(), "descriptor", "%u files are left open", simk::fds_open());
	}
}
SIM_SCENARIOS("C19", { "ops", 3, s_ops }, { "copies", 3, s_copies }, { "files", 3, s_files })
