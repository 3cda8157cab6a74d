// SIM: plain -lz
// C23: the digest depends on the bytes only, not on how they arrive.
#include <stdex/hash.hpp>
#include "peer.h"
#include "simk.h"
#include <sys/mman.h>
#include <string.h>
#include <zlib.h>
#include <memory>
#include <string>
#include <vector>
using namespace sim;
using namespace stdex;
using namespace stdex::stream;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	typedef std::vector<uint8_t> bytes;
	uint32_t rotl(uint32_t x, unsigned n) { return x << n | x >> (32 - n); }
	// Whole message at once, straight from RFC 1321 and FIPS 180
	bytes padded(const bytes& d, bool big)
	{
		bytes p = d;
		uint64_t bits = (uint64_t)d.size() * 8;
		p.push_back(0x80);
		while (p.size() % 64 != 56) p.push_back(0);
		for (unsigned i = 0; i < 8; ++i) p.push_back((uint8_t)(bits >> (big ? 56 - 8 * i : 8 * i)));
		return p;
	}
	bytes ref_md5(const bytes& d)
	{
		static const uint32_t K[64] = {
			0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
			0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
			0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
			0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391 };
		static const unsigned S[4][4] = { {7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21} };
		uint32_t h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
		bytes p = padded(d, false);
		for (size_t o = 0; o < p.size(); o += 64) {
			uint32_t w[16], a = h[0], b = h[1], c = h[2], e = h[3];
			for (unsigned i = 0; i < 16; ++i) w[i] = p[o + 4 * i] | p[o + 4 * i + 1] << 8 | p[o + 4 * i + 2] << 16 | (uint32_t)p[o + 4 * i + 3] << 24;
			for (unsigned i = 0; i < 64; ++i) {
				uint32_t f; unsigned g;
				if (i < 16) f = (b & c) | (~b & e), g = i;
				else if (i < 32) f = (e & b) | (~e & c), g = (5 * i + 1) % 16;
				else if (i < 48) f = b ^ c ^ e, g = (3 * i + 5) % 16;
				else f = c ^ (b | ~e), g = 7 * i % 16;
				f += a + K[i] + w[g];
				a = e; e = c; c = b; b += rotl(f, S[i / 16][i % 4]);
			}
			h[0] += a; h[1] += b; h[2] += c; h[3] += e;
		}
		bytes r;
		for (uint32_t v : h) for (unsigned i = 0; i < 4; ++i) r.push_back((uint8_t)(v >> 8 * i));
		return r;
	}
	bytes ref_sha1(const bytes& d)
	{
		uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
		bytes p = padded(d, true);
		for (size_t o = 0; o < p.size(); o += 64) {
			uint32_t w[80], a = h[0], b = h[1], c = h[2], e = h[3], g = h[4];
			for (unsigned i = 0; i < 16; ++i) w[i] = (uint32_t)p[o + 4 * i] << 24 | p[o + 4 * i + 1] << 16 | p[o + 4 * i + 2] << 8 | p[o + 4 * i + 3];
			for (unsigned i = 16; i < 80; ++i) w[i] = rotl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
			for (unsigned i = 0; i < 80; ++i) {
				uint32_t f, k;
				if (i < 20) f = (b & c) | (~b & e), k = 0x5a827999;
				else if (i < 40) f = b ^ c ^ e, k = 0x6ed9eba1;
				else if (i < 60) f = (b & c) | (b & e) | (c & e), k = 0x8f1bbcdc;
				else f = b ^ c ^ e, k = 0xca62c1d6;
				uint32_t t = rotl(a, 5) + f + g + k + w[i];
				g = e; e = c; c = rotl(b, 30); b = a; a = t;
			}
			h[0] += a; h[1] += b; h[2] += c; h[3] += e; h[4] += g;
		}
		bytes r;
		for (uint32_t v : h) for (unsigned i = 0; i < 4; ++i) r.push_back((uint8_t)(v >> (24 - 8 * i)));
		return r;
	}
	bytes ref_crc(const bytes& d) { uint32_t v = (uint32_t)crc32(0, d.data(), (uInt)d.size()); return { (uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), (uint8_t)(v >> 24) }; }

	struct md5 { typedef md5_hash hash; typedef md5_t value; static bytes ref(const bytes& d) { return ref_md5(d); } static const char* name() { return "MD5"; } };
	struct sha1 { typedef sha1_hash hash; typedef sha1_t value; static bytes ref(const bytes& d) { return ref_sha1(d); } static const char* name() { return "SHA-1"; } };
	struct crc { typedef crc32_hash hash; typedef crc32_t value; static bytes ref(const bytes& d) { return ref_crc(d); } static const char* name() { return "CRC-32"; } };

	bytes content()
	{
		static const uint32_t around[] = { 55, 56, 63, 64, 119, 120, 127, 128 };
		bytes d(choose(3) ? size(choose(4) ? 200 : 3000) : around[choose(8)] + choose(2));
		unsigned kind = choose(3);
		for (size_t i = 0; i < d.size(); ++i) d[i] = kind == 0 ? pat(41, i) : kind == 1 ? 0 : 0xff;
		return d;
	}
	template <class A> void compare(typename A::hash& h, const bytes& d, const char* how)
	{
		h.finalize();
		bytes want = A::ref(d);
		SIM_CHECK(h.size() == want.size(), "size", "size");
		const typename A::value& v = h.data();
		const typename A::value& v2 = h;
		SIM_CHECK(!memcmp(&v, want.data(), want.size()) && v == v2, "digest", "%s of %zu bytes %s is not the published one", A::name(), d.size(), how);
		// digests compare as their bytes do
		typename A::value o = v;
		SIM_CHECK(o == v && !(o != v), "compare", "equal digests compare as different");
		((uint8_t*)&o)[choose((uint32_t)sizeof(o))] ^= (uint8_t)(1u << choose(8));
		SIM_CHECK(o != v && !(o == v), "compare", "different digests compare as equal");
	}
	size_t piece(size_t left)
	{
		static const uint32_t q[] = { 0, 1, 8, 55, 56, 63, 64, 65, 128 };
		size_t n = choose(2) ? q[choose(9)] : choose((uint32_t)left + 1);
		return n < left ? n : left;
	}
	template <class A> void pieces()
	{
		typename A::hash h;
		for (unsigned round = 0; round < 2; ++round) {
			if (round || choose(4) == 0) {
				if (choose(2)) { uint8_t junk[70] = {}; h.hash(junk, choose(71)); if (choose(2)) h.finalize(); }
				h.clear();
			}
			auto d = content();
			size_t at = 0, k = 0;
			while (at < d.size() || !choose(4)) {
				size_t n = piece(d.size() - at);
				bytes copy(d.begin() + at, d.begin() + at + n);
				h.hash(copy.data(), n);
				at += n;
				++k;
			}
			compare<A>(h, d, "in pieces");
			state(d.size() * 13 + k);
		}
	}
	void s_pieces() { switch (choose(3)) { case 0: pieces<md5>(); break; case 1: pieces<sha1>(); break; default: pieces<crc>(); } }

	template <class A> void through()
	{
		auto d = content();
		typename A::hash h;
		bytes moved; // what the stream below transferred
		if (choose(2)) {
			peer::sink u;
			u.o.preemptible = false;
			u.o.p_short = choose(2) ? choose(900) : 0;
			if (choose(2)) { u.o.fail_at = choose((uint32_t)d.size() + 1); u.o.transient = choose(2); u.o.late = choose(2); }
			u.o.fail_flush = !choose(6);
			{
				stream_hasher<typename A::value> s(h, u);
				size_t at = 0;
				for (unsigned stuck = 0; at < d.size() && stuck < 5;) {
					size_t n = piece(d.size() - at), old = u.got.size();
					unsigned f = u.failures;
					bytes copy(d.begin() + at, d.begin() + at + n);
					size_t r = s.write(copy.data(), n);
					SIM_CHECK(r == u.got.size() - old && r <= n, "count", "write(%zu) returns %zu, the sink got %zu", n, r, u.got.size() - old);
					SIM_CHECK((u.failures != f) == !s.ok(), "state", "write reports %s, the sink %s", sname(s.state()), u.failures != f ? "failed" : "worked");
					at += r;
					if (!r && n) ++stuck;
					if (!n && !choose(3)) { s.flush(); SIM_CHECK(s.ok() == !u.o.fail_flush, "state", "flush hides what the sink says"); }
				}
				moved = u.got;
				SIM_CHECK(moved.size() == at && !memcmp(moved.data(), d.data(), at), "content", "the bytes below the hashing stream are not the written ones");
				if (choose(2)) { s.close(); SIM_CHECK(u.closes == 1, "close", "the sink is closed %u times", u.closes); }
			}
			SIM_CHECK(u.closes <= 1, "close", "destruction closes the sink");
		}
		else {
			peer::source u;
			u.o.preemptible = false;
			u.data = d;
			u.o.p_short = choose(2) ? choose(900) : 0;
			if (choose(2)) { u.o.fail_at = choose((uint32_t)d.size() + 1); u.o.transient = choose(2); }
			u.o.late = choose(2);
			stream_hasher<typename A::value> s(h, u);
			if (!choose(3)) {
				// as a part of a chain of readers
				auto rest = s.read_remainder();
				moved = rest;
			}
			else
				for (unsigned i = 0; i < 4000; ++i) {
					size_t n = piece(200), old = u.pos;
					bytes b(n + 1, 0xee);
					size_t r = s.read(b.data(), n);
					SIM_CHECK(r == u.pos - old && b[n] == 0xee, "count", "read(%zu) returns %zu, the source gave %zu", n, r, u.pos - old);
					SIM_CHECK(s.state() == u.state(), "state", "read reports %s, the source %s", sname(s.state()), sname(u.state()));
					moved.insert(moved.end(), b.begin(), b.begin() + r);
					if (!s.ok() && !(s.state() == state_t::fail && u.o.fail_at == UINT64_MAX)) break;
				}
			SIM_CHECK(moved.size() == u.pos && !memcmp(moved.data(), d.data(), moved.size()), "content", "the bytes above the hashing stream are not the read ones");
		}
		ev("%zu of %zu bytes", moved.size(), d.size());
		compare<A>(h, moved, "as transferred");
		state(moved.size() * 5 + d.size());
	}
	void s_stream() { switch (choose(3)) { case 0: through<md5>(); break; case 1: through<sha1>(); break; default: through<crc>(); } }

	// Over a real file: what the digest says is what the disk holds, also when it fills up
	template <class A> void disk()
	{
		auto d = content();
		auto ino = simk::make_file("/h", {});
		typename A::hash h;
		{
			file f("/h", mode_for_writing | mode_binary);
			simk::cfg.short_write = choose(900);
			static const uint32_t q[] = { 0, 0, 60, 300 };
			simk::cfg.write_error = q[choose(4)];
			if (!choose(4)) simk::cfg.capacity = choose((uint32_t)d.size() + 20);
			stream_hasher<typename A::value> s(h, f);
			size_t at = 0;
			for (unsigned stuck = 0; at < d.size() && stuck < 3;) {
				size_t n = piece(d.size() - at);
				size_t r = s.write(d.data() + at, n);
				at += r;
				if (r < n) ++stuck;
			}
		}
		simk::cfg = simk::config();
		compare<A>(h, ino->data, "on disk");
		typename A::hash h2;
		{
			file f("/h", mode_for_reading | mode_binary);
			simk::cfg.short_read = choose(900);
			stream_hasher<typename A::value> s(h2, f);
			memory_file m;
			m.write_stream(s);
			SIM_CHECK(m.size() == ino->data.size(), "count", "%zu of %zu bytes are read", (size_t)m.size(), ino->data.size());
		}
		simk::cfg = simk::config();
		compare<A>(h2, ino->data, "from disk");
	}
	void s_disk() { switch (choose(3)) { case 0: disk<md5>(); break; case 1: disk<sha1>(); break; default: disk<crc>(); } }

	// Beyond the 32-bit bit counter: zeros that cost no memory
	void s_huge()
	{
		struct { uint64_t n; const char *md5, *sha1; } static const t[] = {
			{ 536870917ull, "53f83c490b7435d7e205466bfd984882", "8e9aff269b0100da94e05015243e0a65c1399752" },
			{ 4294967373ull, "11f745c55bb47196852f3866cf4b2b68", "a644b28e33e7e9284431aed0ddb92d675e7905f3" },
		};
		set_step_limit(4000000000ull);
		unsigned i = choose(16) == 15;
		uint64_t n = t[i].n;
		const uint8_t* z = (const uint8_t*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (z == MAP_FAILED) return;
		std::string got;
		auto run = [&](auto& h) {
			unsigned cut = choose(3); // in one, in two, in equal pieces
			uint64_t at = cut == 1 ? 1 + choose(100) : 0;
			if (at) h.hash(z, at);
			while (at < n) { uint64_t k = cut == 2 && n - at > 0x7000001 ? 0x7000001 : n - at; h.hash(z + at, k); at += k; }
			h.finalize();
			auto& v = h.data();
			for (size_t k = 0; k < sizeof(v); ++k) { char b[3]; snprintf(b, 3, "%02x", ((const uint8_t*)&v)[k]); got += b; }
		};
		bool m = choose(2) == 0;
		if (m) { md5_hash h; run(h); } else { sha1_hash h; run(h); }
		munmap((void*)z, n);
		SIM_CHECK(got == (m ? t[i].md5 : t[i].sha1), "digest", "%s of %llu zeros is not the published one", m ? "MD5" : "SHA-1", (unsigned long long)n);
	}
}
SIM_SCENARIOS("C23", { "pieces", 40000, s_pieces }, { "stream", 40000, s_stream }, { "disk", 20000, s_disk }, { "huge", 1, s_huge })
