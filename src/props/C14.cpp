// SIM: plain
// C14: each descriptor is closed exactly once, whatever fails.
#include <stdex/stream.hpp>
#include <stdex/socket.hpp>
#include "sim.h"
#include "simk.h"
#include <fcntl.h>
#include <string.h>
#include <memory>
#include <set>
#include <system_error>
#include <vector>
using namespace sim;
using namespace stdex::stream;

namespace
{
	std::set<int> g_own; // descriptors the scenario itself holds, they must survive everything

	void draw(bool closing)
	{
		auto& c = simk::cfg;
		static const uint32_t p[] = { 0, 50, 300, 700 };
		c.dup_error = p[choose(4)];
		c.open_error = p[choose(4)];
		c.close_error = closing ? p[choose(4)] : 0;
	}
	unsigned errs() { return simk::m.errors; }
	int a_descriptor()
	{
		static const char* names[] = { "/a", "/b", "/c" };
		if (choose(2)) return simk::open_sim(names[choose(3)], O_RDWR);
		return simk::open_stream(std::make_shared<simk::stream>());
	}

	// T: the class; what: bit 1 copies, 2 moves, 4 open(), 8 close() throws
	template <class T> struct traits;
	template <> struct traits<stdex::sys_object> { static constexpr bool copy = true, opens = false, throws = true; };
	template <> struct traits<stdex::socket> { static constexpr bool copy = false, opens = false, throws = true; };
	template <> struct traits<basic_sys> { static constexpr bool copy = true, opens = false, throws = false; };
	template <> struct traits<file> { static constexpr bool copy = true, opens = true, throws = false; };
	template <> struct traits<stdex::stream::socket> { static constexpr bool copy = false, opens = false, throws = false; };

	template <class T> struct world {
		std::vector<T*> o;
		std::string last;

		void check()
		{
			std::set<int> want = g_own;
			for (auto x : o)
				if (x) {
					int h = x->get();
					if (h == stdex::invalid_handle) { SIM_CHECK(!(bool)*x, "valid", "an object without a descriptor claims to be valid"); continue; }
					SIM_CHECK((bool)*x, "valid", "an object with a descriptor claims to be invalid");
					SIM_CHECK(simk::of(h), "dangling", "after %s an object holds descriptor %d, which is closed", last.c_str(), h);
					SIM_CHECK(want.insert(h).second, "shared", "after %s descriptor %d has two owners", last.c_str(), h);
				}
			for (int h : g_own) SIM_CHECK(simk::of(h), "foreign_close", "after %s a descriptor that was never handed over is closed", last.c_str());
			SIM_CHECK(!simk::bad_closes(), "double_close", "after %s a closed descriptor was closed again", last.c_str());
			SIM_CHECK(simk::fds_open() == want.size(), "leak", "after %s %u descriptors are open and %zu have an owner", last.c_str(), simk::fds_open(), want.size());
		}
		template <class F> bool run(const char* what, F f)
		{
			last = what;
			unsigned e = errs();
			try { f(); }
			catch (const std::system_error&) {
				SIM_CHECK(errs() != e, "exception", "%s throws without a reason", what);
				ev("%s throws", what);
				check();
				return false;
			}
			ev("%s", what);
			check();
			return true;
		}
	};

	template <class T> void life()
	{
		world<T> w;
		const unsigned n = 5;
		w.o.assign(n, nullptr);
		g_own.clear();
		if (choose(3) == 1) simk::low_descriptors();
		bool closing = choose(2);
		draw(closing);
		unsigned steps = 5 + choose(50);
		for (unsigned k = 0; k < steps; ++k) {
			if (!choose(6)) draw(closing);
			unsigned i = choose(n), j = choose(n);
			T*& a = w.o[i];
			T* b = w.o[j];
			switch (choose(13)) {
			case 0: // the scenario opens and closes descriptors of its own, so numbers are reused
				if (g_own.size() < 6) g_own.insert(a_descriptor());
				else { simk::close_quiet(*g_own.begin()); g_own.erase(g_own.begin()); }
				break;
			case 1: case 2: {
				if (a) break;
				int h = choose(6) ? a_descriptor() : stdex::invalid_handle;
				w.run("construction", [&] { a = new T(h); });
				break;
			}
			case 3:
				if (!a || !b) break;
				if constexpr (traits<T>::copy) {
					if (i == j) { int h = a->get(); w.run("self assignment", [&] { *a = *const_cast<const T*>(b); }); SIM_CHECK(a->get() == h, "self", "self assignment changes the descriptor"); break; }
					int hb = b->get();
					bool ok = w.run("copy assignment", [&] { *a = *const_cast<const T*>(b); });
					SIM_CHECK(b->get() == hb, "copy", "copying changes the original");
					if (ok) {
						SIM_CHECK((hb == stdex::invalid_handle) == (a->get() == stdex::invalid_handle), "copy", "a copy of a %s object is not", hb == stdex::invalid_handle ? "closed" : "valid");
						if (hb != stdex::invalid_handle) SIM_CHECK(simk::of(hb) == simk::of(a->get()) && a->get() != hb, "copy", "a copy refers to another file");
					}
				}
				break;
			case 4:
				if (a || !b) break;
				if constexpr (traits<T>::copy) {
					int hb = b->get();
					if (w.run("copy construction", [&] { a = new T(*const_cast<const T*>(b)); }) && hb != stdex::invalid_handle)
						SIM_CHECK(a->get() != hb && simk::of(hb) == simk::of(a->get()), "copy", "a copy refers to another file");
				}
				break;
			case 5: {
				if (!a || !b) break;
				int hb = b->get();
				bool ok = w.run(i == j ? "self move" : "move assignment", [&] { *a = std::move(*b); });
				if (i == j) SIM_CHECK(a->get() == hb, "self", "self move changes the descriptor");
				else if (ok) {
					SIM_CHECK(a->get() == hb, "move", "a moved object has another descriptor");
					SIM_CHECK(b->get() == stdex::invalid_handle, "move", "a moved-from object owns a descriptor");
				}
				break;
			}
			case 6: {
				if (a || !b) break;
				int hb = b->get();
				if (w.run("move construction", [&] { a = new T(std::move(*b)); })) {
					SIM_CHECK(a->get() == hb, "move", "a moved object has another descriptor");
					SIM_CHECK(b->get() == stdex::invalid_handle, "move", "a moved-from object owns a descriptor");
				}
				break;
			}
			case 7: case 8: {
				if (!a) break;
				unsigned e = errs();
				bool had = a->get() != stdex::invalid_handle;
				bool quiet = w.run("close", [&] { a->close(); });
				if constexpr (traits<T>::throws) SIM_CHECK(!quiet || errs() == e, "failure_hidden", "closing fails, nobody says so");
				SIM_CHECK(a->get() == stdex::invalid_handle, "close", "a closed object still holds a descriptor");
				if constexpr (std::is_base_of<basic, T>::value) {
					if (errs() == e) SIM_CHECK(a->ok(), "state", "close reports failure");
					else if (had && !std::is_same<T, stdex::stream::socket>::value) SIM_CHECK(!a->ok(), "state", "close failed and reports ok");
				}
				break;
			}
			case 9: {
				if (!a) break;
				T* x = a;
				a = nullptr;
				w.run("destruction", [&] { delete x; });
				break;
			}
			case 12: // whatever happens to the data does not matter to the descriptors
				if (!a) break;
				if constexpr (std::is_base_of<basic, T>::value) {
					uint8_t t[8] = {};
					unsigned op = choose(3);
					w.run(op == 0 ? "read" : op == 1 ? "write" : "flush", [&] { if (op == 0) a->read(t, 1 + choose(8)); else if (op == 1) a->write(t, 1 + choose(8)); else a->flush(); });
				}
				break;
			case 10: case 11:
				if constexpr (traits<T>::opens) {
					static const char* names[] = { "/a", "/b", "/c", "/missing" };
					const char* name = names[choose(4)];
					int mode = mode_for_reading | mode_for_writing | (choose(2) ? mode_preserve_existing : mode_open_existing);
					if (!a) { w.run("opening construction", [&] { a = new T(name, mode); }); }
					else {
						unsigned e = errs();
						w.run("open", [&] { a->open(name, mode); });
						auto ino = simk::file(name);
						if (a->get() != stdex::invalid_handle) SIM_CHECK(simk::of(a->get())->ino == ino && a->ok(), "open", "open names another file");
						else SIM_CHECK(!a->ok() && (errs() != e || !ino), "open", "open fails without a reason");
					}
				}
				break;
			}
			w.last = "a step of the scenario";
			w.check();
			uint64_t h = 0;
			for (auto x : w.o) h = h * 600 + (x ? x->get() + 2 : 0);
			state(h);
		}
		for (auto& a : w.o)
			if (a) { T* x = a; a = nullptr; w.run("destruction", [&] { delete x; }); }
		for (int h : g_own) SIM_CHECK(simk::of(h), "foreign_close", "a descriptor that was never handed over is closed");
		SIM_CHECK(simk::fds_open() == g_own.size(), "leak", "%u descriptors are open at the end, %zu of them foreign", simk::fds_open(), g_own.size());
	}
	void s_object() { life<stdex::sys_object>(); }
	void s_sock() { life<stdex::socket>(); }
	void s_sys() { life<basic_sys>(); }
	void s_file() { simk::make_file("/a", { 1, 2, 3 }); simk::make_file("/b", {}); life<file>(); }
	void s_stream_socket() { life<stdex::stream::socket>(); }

	// Files that are opened, used and given up by other classes
	void s_users()
	{
		simk::make_file("/a", std::vector<uint8_t>(choose(300), 7));
		g_own.clear();
		g_own.insert(a_descriptor());
		auto& c = simk::cfg;
		static const uint32_t p[] = { 0, 0, 50, 300 };
		c.open_error = p[choose(4)];
		c.read_error = p[choose(4)];
		c.write_error = p[choose(4)];
		c.seek_error = p[choose(4)];
		c.truncate_error = p[choose(4)];
		unsigned n = 1 + choose(8);
		auto check = [&](const char* what, unsigned k) {
			SIM_CHECK(simk::fds_open() == k + 1, "leak", "after %s %u descriptors are open instead of %u", what, simk::fds_open(), k + 1);
			SIM_CHECK(!simk::bad_closes(), "double_close", "after %s a closed descriptor was closed again", what);
			SIM_CHECK(simk::of(*g_own.begin()), "foreign_close", "%s closed a descriptor that was never handed over", what);
		};
		for (unsigned i = 0; i < n; ++i) {
			try {
				switch (choose(4)) {
				case 0: { memory_file m; m.load("/a", mode_for_reading); check("load", 0); m.save("/b", mode_for_writing | mode_create); check("save", 0); break; }
				case 1: {
					cached_file f("/a", mode_for_reading | mode_for_writing | mode_preserve_existing, 16);
					f.write("abcdefghijklmnopqrstuvwxyz", choose(26));
					if (choose(2)) f.open(choose(2) ? "/b" : "/missing", mode_for_reading);
					check("open of a cached file", (bool)f);
					if (choose(2)) { f.close(); check("close of a cached file", (bool)f); }
					break;
				}
				case 2: {
					auto s = std::make_shared<simk::stream>();
					buffered_sys b(simk::open_stream(s), choose(20), choose(20));
					b.write("abcdefghijklmnopqrstuvwxyz", choose(26));
					if (choose(2)) { b.close(); check("close of a buffered descriptor", 0); }
					break;
				}
				default: {
					file f("/a", mode_for_reading | mode_for_writing | mode_preserve_existing);
					check("open", (bool)f);
					file g(std::move(f));
					check("move", (bool)g);
					try { f.open("/b", mode_disposition_mask); } catch (const std::invalid_argument&) {}
					check("refused open", (bool)g + (bool)f);
				}
				}
			}
			catch (const std::system_error&) {}
			check("destruction", 0);
		}
	}
}
SIM_SCENARIOS("C14", { "sys_object", 3, s_object }, { "socket", 2, s_sock }, { "basic_sys", 3, s_sys }, { "file", 4, s_file }, { "stream_socket", 2, s_stream_socket }, { "users", 2, s_users })
