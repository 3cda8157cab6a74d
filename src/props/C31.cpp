// SIM: plain
// C31: signature files: what the file says is returned, whatever delivers it; anything else is refused.
#include <string.h>
#include <stdex/minisign.hpp>
#include "sim.h"
#include "simk.h"
#include "peer.h"
#include <stdexcept>
#include <system_error>
#include <memory>
#include <string>
#include <vector>
using namespace sim;
using namespace stdex::stream;

namespace
{
	std::string base64(const std::vector<uint8_t>& d)
	{
		static const char c[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		std::string s;
		for (size_t i = 0; i < d.size(); i += 3) {
			size_t n = d.size() - i < 3 ? d.size() - i : 3;
			uint32_t v = (uint32_t)d[i] << 16 | (n > 1 ? d[i + 1] : 0) << 8 | (n > 2 ? d[i + 2] : 0);
			s += c[v >> 18];
			s += c[v >> 12 & 63];
			s += n > 1 ? c[v >> 6 & 63] : '=';
			s += n > 2 ? c[v & 63] : '=';
		}
		return s;
	}
	std::string eol() { return choose(4) == 1 ? "\r\n" : "\n"; }
	std::string comment()
	{
		std::string s = "untrusted comment:";
		for (uint32_t n = choose(40); n; --n) s += (char)(32 + choose(95));
		return s;
	}

	void s_minisign()
	{
		std::string text;
		for (uint32_t n = choose(5); n; --n) text += (choose(3) ? comment() : std::string()) + eol();
		// The line that carries the signature
		std::vector<uint8_t> raw(74);
		raw[0] = 'E'; raw[1] = choose(2) ? 'D' : 'd';
		for (size_t i = 2; i < 74; ++i) raw[i] = pat(choose(2) ? 3 : 4, i);
		bool valid = true;
		switch (choose(8)) {
		case 1: raw.resize(choose(74)); valid = false; break;            // too short
		case 2: raw[0] = (uint8_t)(choose(2) ? 'e' : choose(256)); valid = raw[0] == 'E'; break; // something else
		case 3: for (uint32_t n = 1 + choose(20); n; --n) raw.push_back((uint8_t)choose(256)); break; // longer
		}
		std::string line = base64(raw);
		if (!choose(6)) {
			// almost a comment: this is the signature line then, and it is none
			std::string s = comment();
			switch (choose(4)) {
			case 1: s[17] = " ;xA"[choose(4)]; break;           // no colon
			case 2: s = s.substr(0, 1 + choose(17)); break;      // cut
			case 3: s = s.substr(choose(18), 1 + choose(3)); break; // a word or less
			default: s[choose(18)] ^= (char)(1 + choose(15));
			}
			text += s + eol();
			valid = false;
		}
		size_t begins = text.size();
		text += line + eol();
		size_t needed = text.size();
		if (choose(3)) {
			text += "trusted comment: timestamp:1" + eol();
			std::vector<uint8_t> global(64);
			for (auto& b : global) b = (uint8_t)choose(256);
			text += base64(global) + eol();
		}
		if (!choose(8)) { needed = begins; valid = false; text.resize(begins); } // no signature at all
		bool cut = choose(3) == 1;
		if (cut) text.resize(choose((uint32_t)text.size() + 1));
		bool complete = text.size() >= needed; // else the file may be accepted or refused if only the end of line is missing
		bool all_chars = valid && text.size() >= begins + line.size();

		peer::source src;
		src.data.assign(text.begin(), text.end());
		src.o.preemptible = false;
		src.o.p_short = choose(2) ? 300 : 0;
		if (choose(3) == 1) { src.o.fail_at = choose((uint32_t)text.size() + 1); src.o.transient = choose(2); }
		uint64_t fail_at = src.o.fail_at;
		simk::make_file("/f", src.data);
		std::unique_ptr<file> f;
		std::unique_ptr<cache> c;
		std::unique_ptr<buffer> b;
		basic* in = &src;
		bool disk = choose(3) == 1;
		if (disk) {
			f.reset(new file("/f", mode_for_reading | mode_open_existing | mode_binary));
			in = f.get();
			if (choose(2)) { c.reset(new cache(*f, 1 + choose(64))); in = c.get(); }
			simk::cfg.short_read = choose(2) ? 300 : 0;
			simk::cfg.read_error = choose(2) ? 10 : 0;
			simk::reset_marks();
		}
		else if (choose(2)) { b.reset(new buffer(src, choose(40), 0)); in = b.get(); }
		uint8_t alg = 0xcc, key[8], sig[64];
		memset(key, 0xcc, sizeof(key)); memset(sig, 0xcc, sizeof(sig));
		bool refused = false, oom = false;
		uint64_t a0 = alloc_failures();
		{
			alloc_faults af(choose(4) == 1 ? 60 : 0, 1000);
			try { stdex::minisign::parse_minisig(*in, alg, key, sig); }
			catch (const std::bad_alloc&) { oom = true; }
			catch (const std::runtime_error&) { refused = true; }
		}
		bool failed = disk ? simk::m.errors != 0 : fail_at < needed;
		bool short_mem = alloc_failures() != a0;
		ev("signature of %zu bytes at %zu of %zu%s%s: %s", raw.size(), begins, text.size(), valid ? ", valid" : "", failed ? ", failing" : "", oom ? "out of memory" : refused ? "refused" : "accepted");
		if (oom) SIM_CHECK(short_mem, "memory", "memory is said to have run out, it has not");
		if (!oom && !refused) {
			SIM_CHECK(all_chars, "accepted", "a file that %s is accepted", valid ? "ends inside of the signature" : "is not a signature");
			if (!disk) SIM_CHECK(fail_at >= begins + line.size(), "failure_hidden", "the stream fails inside of the signature, the file is accepted");
			SIM_CHECK(alg == raw[1] && !memcmp(key, &raw[2], 8) && !memcmp(sig, &raw[10], 64), "content", "the algorithm, key or signature returned is not the one in the file");
		}
		else if (refused) SIM_CHECK(!valid || !complete || failed || short_mem, "refused", "a valid signature file is refused");
		simk::cfg = simk::config();
		state(needed * 31 + raw.size() * 3 + refused);
	}
	// One signature behind another on the same stream: nothing of the second is taken
	void s_sequence()
	{
		peer::source src;
		src.o.preemptible = false;
		src.o.p_short = choose(2) ? 300 : 0;
		unsigned n = 1 + choose(4);
		std::vector<std::vector<uint8_t>> raw;
		std::string text;
		for (unsigned i = 0; i < n; ++i) {
			std::vector<uint8_t> r(74);
			r[0] = 'E'; r[1] = 'D';
			for (size_t k = 2; k < 74; ++k) r[k] = pat(10 + i, k);
			for (uint32_t k = choose(3); k; --k) text += comment() + eol();
			text += base64(r) + eol();
			raw.push_back(r);
		}
		src.data.assign(text.begin(), text.end());
		for (unsigned i = 0; i < n; ++i) {
			uint8_t alg, key[8], sig[64];
			try { stdex::minisign::parse_minisig(src, alg, key, sig); }
			catch (const std::runtime_error& e) { violation("refused", "signature %u of %u is refused: %s", i, n, e.what()); }
			SIM_CHECK(alg == 'D' && !memcmp(key, &raw[i][2], 8) && !memcmp(sig, &raw[i][10], 64), "content", "signature %u of %u is not the one in the stream", i, n);
			evn(4, i, src.pos);
		}
	}
}
SIM_SCENARIOS("C31", { "minisign", 4, s_minisign }, { "sequence", 1, s_sequence })
