// SIM: plain
// C45: system information says what the system says; what the system does not say is unknown, and nothing else.
#include <string.h>
#include <stdint.h>
#include "sim.h"
#include <string>
#include <sys/types.h>
#include <sys/utsname.h>
#include <pwd.h>
#include <errno.h>
#include <unistd.h>

// The system that is asked
namespace fake
{
	struct system {
		std::string machine = "x86_64";
		bool uname_fails = false;
		uid_t euid = 1000, uid = 1000;
		int user = 0; // 0: there is one, 1: none, 2: without a name
		std::string name = "somebody";
		int err = 0;
		unsigned unames = 0, users = 0;
		uid_t asked = 12345;
	};
	static system* s;      // of the run; before there is one, nothing is known
	static char g_name[600];
	static struct passwd g_pw;
}
extern "C" int uname(struct utsname* u)
{
	auto s = fake::s;
	if (!s) { errno = ENOSYS; return -1; }
	++s->unames;
	// A call that fails leaves anything there
	memset(u, 'x', sizeof(*u));
	u->sysname[64] = u->nodename[64] = u->release[64] = u->version[64] = 0;
	memset(u->machine, 0, sizeof(u->machine));
	memcpy(u->machine, s->machine.data(), s->machine.size());
	if (s->uname_fails) { errno = s->err; return -1; }
	return 0;
}
extern "C" uid_t geteuid() { return fake::s ? fake::s->euid : 1; }
extern "C" uid_t getuid() { return fake::s ? fake::s->uid : 1; }
extern "C" struct passwd* getpwuid(uid_t id)
{
	auto s = fake::s;
	if (!s) return nullptr;
	++s->users;
	s->asked = id;
	if (s->user == 1) { errno = s->err; return nullptr; }
	memset(fake::g_name, 0, sizeof(fake::g_name));
	memcpy(fake::g_name, s->name.data(), s->name.size());
	memset(&fake::g_pw, 0, sizeof(fake::g_pw));
	fake::g_pw.pw_name = s->user == 2 ? nullptr : fake::g_name;
	fake::g_pw.pw_uid = id;
	return &fake::g_pw;
}
#include <stdex/sys_info.hpp>
#include <memory>
#include <new>
#include <string>
using namespace sim;
using stdex::platform_id;

namespace
{
	struct ask { ask(fake::system& s) { fake::s = &s; } ~ask() { fake::s = nullptr; } };
	const struct { const char* name; platform_id id; } platforms[] = { { "aarch64", platform_id::aarch64 }, { "arm", platform_id::arm }, { "i386", platform_id::i386 }, { "x86_64", platform_id::x86_64 } };
	std::string machine(platform_id& id)
	{
		auto& p = platforms[choose(4)];
		std::string s = p.name;
		for (auto& c : s) if (c >= 'a' && c <= 'z' && !choose(3)) c = (char)(c - 32);
		switch (choose(6)) {
		case 1: s += choose(2) ? "v7l" : "_be"; break;
		case 2: s.resize(choose((uint32_t)s.size())); break;
		case 3: s[choose((uint32_t)s.size())] ^= 1; break;
		case 4: s = choose(2) ? "riscv64" : std::string(64, 'm'); break;
		}
		id = platform_id::unknown;
		for (auto& k : platforms) if (!strcasecmp(k.name, s.c_str())) id = k.id;
		return s;
	}
	std::string user()
	{
		std::string s;
		for (uint32_t n = choose(4) ? choose(20) : choose(500); n; --n) s += (char)(choose(8) ? 'a' + choose(26) : 1 + choose(255));
		return s;
	}
	void s_info()
	{
		std::unique_ptr<stdex::sys_info_t> kept[3];
		fake::system of[3];
		platform_id id[3];
		for (unsigned n = 1 + choose(8); n; --n) {
			unsigned k = choose(3);
			fake::system s;
			platform_id p;
			s.machine = machine(p);
			s.euid = choose(3) ? choose(3) : choose(1u << 31);
			s.uid = choose(3) ? s.euid : choose(3);
			s.name = user();
			static const int e[] = { ENOENT, EIO, EMFILE, ENOMEM, EINTR, 0 };
			s.err = e[choose(6)];
			s.uname_fails = inject("uname", 250, 1000);
			if (inject("user", 300, 1000)) s.user = 1 + choose(2);
			if (s.uname_fails) p = platform_id::unknown;
			bool oom = choose(3) == 1, no_memory = false;
			std::unique_ptr<char[]> room(new char[sizeof(stdex::sys_info_t)]);
			memset(room.get(), 0xa5, sizeof(stdex::sys_info_t));
			uint64_t live = heap_live(), a0 = alloc_failures();
			stdex::sys_info_t* i = nullptr;
			{
				ask a(s);
				alloc_faults af(oom ? 500 : 0, 1000);
				heap_track h;
				try { i = new (room.get()) stdex::sys_info_t; }
				catch (const std::bad_alloc&) { no_memory = true; }
			}
			if (no_memory) {
				SIM_CHECK(alloc_failures() != a0, "memory", "memory is said to have run out, it has not");
				SIM_CHECK(heap_live() == live, "leak", "%d blocks are left after a failure", (int)(heap_live() - live));
				continue;
			}
			SIM_CHECK(alloc_failures() == a0, "failure_hidden", "memory ran out, nobody says so");
			s.name = s.user ? std::string() : s.name;
			memset(fake::g_name, '?', sizeof(fake::g_name) - 1); // the next one asks for another
			ev("%s%s, user %u%s: %d", s.machine.c_str(), s.uname_fails ? " (fails)" : "", s.euid, s.user ? " (unknown)" : "", (int)i->os_platform);
			SIM_CHECK(i->os_platform == p, "platform", "machine %s%s is platform %x, not %x", s.machine.c_str(), s.uname_fails ? ", which the system did not tell," : "", (int)i->os_platform, (int)p);
			SIM_CHECK(i->elevated == (s.euid == 0), "elevated", "effective user %u (real user %u) is %selevated", s.euid, s.uid, i->elevated ? "" : "not ");
			SIM_CHECK(s.user || s.asked == s.euid, "user", "the name of user %u is looked for, the effective user is %u", s.asked, s.euid);
			SIM_CHECK(i->username == s.name, "user", "the user's name has %zu characters instead of %zu, or others", i->username.size(), s.name.size());
			SIM_CHECK(!i->admin && i->interactive_process && !i->is_screen_reader(), "unknown", "something is said that the system was not asked for");
			SIM_CHECK(i->process_platform == platform_id::x86_64, "platform", "the process's platform is %x", (int)i->process_platform);
			// Others do not change it
			kept[k].reset(new stdex::sys_info_t(*i));
			i->~sys_info_t();
			of[k] = s; id[k] = p;
			for (unsigned j = 0; j < 3; ++j)
				if (kept[j]) SIM_CHECK(kept[j]->os_platform == id[j] && kept[j]->username == of[j].name && kept[j]->elevated == (of[j].euid == 0), "changed", "information taken earlier changes");
			state(p == platform_id::unknown ? s.name.size() : s.name.size() * 31 + (uint64_t)p);
		}
	}
	void s_platform()
	{
		for (unsigned n = 1 + choose(20); n; --n) {
			platform_id p;
			std::string s = machine(p);
			auto got = stdex::platform_from_name(s.c_str());
			SIM_CHECK(got == p, "platform", "%s is platform %x, not %x", s.c_str(), (int)got, (int)p);
			evn(1, (uint64_t)got, s.size());
		}
	}
}
SIM_SCENARIOS("C45", { "info", 4, s_info }, { "platform", 1, s_platform })
