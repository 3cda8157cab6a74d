// SIM: plain
// C24: values survive the round trip; short or failed input is reported.
#include <stdex/hash.hpp>
#include "peer.h"
#include "simk.h"
#include <string.h>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace sim;
using namespace stdex;
using namespace stdex::stream;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	typedef std::vector<uint8_t> bytes;
	uint64_t g_serial;
	uint64_t rnd()
	{
		static const uint64_t edge[] = { 0, 1, UINT64_MAX, 0x8000000000000000ull, 0x7fffffffffffffffull, 0x0102030405060708ull };
		return choose(3) ? mix(++g_serial * 77 + choose(16)) : edge[choose(6)];
	}
	// The documented format: fixed width little endian, 32-bit count before strings and collections
	void enc_n(bytes& o, uint64_t v, size_t n) { for (size_t i = 0; i < n; ++i) o.push_back((uint8_t)(v >> 8 * i)); }
	template <class T> std::enable_if_t<std::is_arithmetic<T>::value> enc(bytes& o, T v)
	{
		uint64_t u = 0;
		memcpy(&u, &v, sizeof(T));
		enc_n(o, u, sizeof(T));
	}
	template <class T> void enc(bytes& o, const std::basic_string<T>& v) { enc_n(o, v.size(), 4); for (T c : v) enc(o, c); }
	template <class T> void enc(bytes& o, const std::vector<T>& v);
	template <class T> void enc(bytes& o, const std::set<T>& v) { enc_n(o, v.size(), 4); for (auto& e : v) enc(o, e); }
	template <class T> void enc(bytes& o, const std::multiset<T>& v) { enc_n(o, v.size(), 4); for (auto& e : v) enc(o, e); }
	void enc(bytes& o, const md5_t& v) { o.insert(o.end(), v.data8, v.data8 + 16); }
	void enc(bytes& o, const sha1_t& v) { o.insert(o.end(), v.data8, v.data8 + 20); }
	void enc(bytes& o, const sha256_t& v) { o.insert(o.end(), v.data8, v.data8 + 32); }
	template <class T> void enc(bytes& o, const std::vector<T>& v) { enc_n(o, v.size(), 4); for (auto& e : v) enc(o, e); }

	template <class T> std::enable_if_t<std::is_arithmetic<T>::value> make(T& v) { uint64_t u = rnd(); memcpy(&v, &u, sizeof(T)); if (v != v) v = (T)5; }
	uint32_t len() { return choose(4) ? choose(6) : choose(3) ? choose(60) : 1000 + choose(60); }
	template <class T> void make(std::basic_string<T>& v) { v.resize(len()); for (auto& c : v) c = (T)(1 + rnd() % 250); if (!v.empty() && !choose(5)) v[choose((uint32_t)v.size())] = 0; }
	template <class T> void make(std::vector<T>& v) { v.resize(choose(4) ? choose(5) : choose(40)); for (auto& e : v) make(e); }
	template <class T> void make(std::set<T>& v) { for (uint32_t i = choose(4) ? choose(5) : choose(40); i; --i) { T e; make(e); v.insert(e); } }
	template <class T> void make(std::multiset<T>& v) { for (uint32_t i = choose(4) ? choose(5) : choose(40); i; --i) { T e; make(e); v.insert(e); if (choose(2)) v.insert(e); } }
	void fill(uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)rnd(); }
	void make(md5_t& v) { fill(v.data8, 16); }
	void make(sha1_t& v) { fill(v.data8, 20); }
	void make(sha256_t& v) { fill(v.data8, 32); }

	template <class T> std::enable_if_t<std::is_arithmetic<T>::value, bool> same(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }
	template <class T> std::enable_if_t<!std::is_arithmetic<T>::value, bool> same(const T& a, const T& b) { return a == b; }
	// What a value looks like that was not read because the stream had failed before
	template <class T> std::enable_if_t<std::is_arithmetic<T>::value, bool> blank(const T& a) { return a == 0; }
	template <class T> std::enable_if_t<!std::is_arithmetic<T>::value, bool> blank(const T& a) { return a.empty(); }
	bool blank(const md5_t& a) { md5_t z; memset(&z, 0, sizeof(z)); return a == z; }
	bool blank(const sha1_t& a) { sha1_t z; memset(&z, 0, sizeof(z)); return a == z; }
	bool blank(const sha256_t& a) { sha256_t z; memset(&z, 0, sizeof(z)); return a == z; }

	// What reading left behind when the input ended inside of the value: only what was completely read.
	// (got: the encoding of what is held; want: that of the value; begin: its offset; avail: where the input ends)
	inline bool whole_prefix(const bytes& got, const bytes& want, size_t begin, size_t avail)
	{
		return got.size() <= 4 || (got.size() <= want.size() && begin + got.size() <= avail && !memcmp(got.data() + 4, want.data() + 4, got.size() - 4));
	}
	template <class T> std::enable_if_t<std::is_arithmetic<T>::value, bool> only_read(const T& a, const T&, size_t, size_t) { return a == 0; }
	template <class T> std::enable_if_t<!std::is_arithmetic<T>::value, bool> only_read(const T& a, const T& v, size_t begin, size_t avail)
	{
		bytes got, want;
		enc(got, a);
		enc(want, v);
		return whole_prefix(got, want, begin, avail);
	}
	bool only_read(const md5_t&, const md5_t&, size_t, size_t) { return true; }
	bool only_read(const sha1_t&, const sha1_t&, size_t, size_t) { return true; }
	bool only_read(const sha256_t&, const sha256_t&, size_t, size_t) { return true; }

	struct value {
		size_t begin = 0, avail = SIZE_MAX; // offset of the value, of the end of input
		size_t end = 0; // offset behind the value
		virtual ~value() {}
		virtual void encode(bytes& o) = 0;
		virtual void put(basic& s) = 0;
		virtual void put(memory_file& m) = 0;
		virtual bool get(basic& s, bool& is_blank) = 0; // reads and compares
		virtual bool get(memory_file& m, bool& is_blank) = 0;
	};
	template <class T> constexpr bool direct = std::is_arithmetic<T>::value;
	template <> constexpr bool direct<std::string> = true;
	template <> constexpr bool direct<std::wstring> = true;
	template <> constexpr bool direct<std::u16string> = true;
	template <class T> struct val : value {
		T v;
		val() : v() { make(v); }
		void encode(bytes& o) override { begin = o.size(); enc(o, v); end = o.size(); }
		void put(basic& s) override { s << v; }
		void put(memory_file& m) override { if constexpr (direct<T>) m << v; else static_cast<basic&>(m) << v; }
		template <class S> bool get_(S& s, bool& is_blank)
		{
			T x;
			make(x); // anything
			if (!choose(6)) { T y; x = y = v; }
			s >> x;
			is_blank = blank(x);
			if (!s.ok()) SIM_CHECK(only_read(x, v, begin, avail), "presented", "the input ends %zu bytes into a value, what is read of it has more or something else", avail > begin ? avail - begin : 0);
			return same(x, v);
		}
		bool get(basic& s, bool& b) override { return get_(s, b); }
		bool get(memory_file& m, bool& b) override { if constexpr (direct<T>) return get_(m, b); else return get_(static_cast<basic&>(m), b); }
	};
	struct zstr : val<std::string> { // written as a zero terminated string
		zstr() { for (auto& c : v) if (!c) c = 'x'; }
		void put(basic& s) override { s << v.c_str(); }
		void put(memory_file& m) override { m << v.c_str(); }
	};
	value* make_value()
	{
		switch (choose(24)) {
		case 0: return new val<uint8_t>; case 1: return new val<int8_t>; case 2: return new val<uint16_t>; case 3: return new val<int16_t>;
		case 4: return new val<uint32_t>; case 5: return new val<int32_t>; case 6: return new val<uint64_t>; case 7: return new val<int64_t>;
		case 8: return new val<float>; case 9: return new val<double>; case 10: return new val<char>;
		case 11: return new val<std::string>; case 12: return new val<std::u16string>; case 13: return new val<std::wstring>; case 14: return new zstr;
		case 15: return new val<std::vector<uint32_t>>; case 16: return new val<std::vector<std::string>>; case 17: return new val<std::vector<std::vector<uint8_t>>>;
		case 18: return new val<std::set<uint16_t>>; case 19: return new val<std::set<std::string>>; case 20: return new val<std::multiset<int64_t>>;
		case 21: return new val<md5_t>; case 22: return new val<sha1_t>; default: return new val<sha256_t>;
		}
	}
	typedef std::vector<std::unique_ptr<value>> values;
	bytes make_values(values& v, uint32_t max)
	{
		g_serial = 0;
		bytes o;
		for (uint32_t n = 1 + choose(max); n; --n) { v.emplace_back(make_value()); v.back()->encode(o); }
		return o;
	}
	void put_all(const values& v, basic& s) { for (auto& x : v) x->put(s); }
	// avail: bytes that can be read before the input ends or fails
	template <class S, class F> void get_all(const values& v, S& s, size_t avail, bool may_fail, F touched)
	{
		size_t i = 0;
		bool is_blank;
		for (; i < v.size(); ++i) {
			v[i]->avail = avail;
			bool eq = v[i]->get(s, is_blank);
			if (v[i]->end <= avail && !may_fail) {
				SIM_CHECK(s.ok(), "state", "value %zu is in the input, reading it reports %s", i, sname(s.state()));
			}
			if (!s.ok()) break;
			SIM_CHECK(v[i]->end <= avail, "presented", "value %zu is not completely in the input and reported as read", i);
			SIM_CHECK(eq, "value", "value %zu read back is not the written one", i);
		}
		ev("%zu of %zu values read, %s", i, v.size(), sname(s.state()));
		if (i == v.size()) return;
		auto st = s.state();
		auto t = touched();
		for (++i; i < v.size(); ++i) {
			v[i]->get(s, is_blank);
			SIM_CHECK(s.state() == st, "state", "reading on after %s reports %s", sname(st), sname(s.state()));
			SIM_CHECK(is_blank, "presented", "a value that was not read keeps an old value");
			SIM_CHECK(touched() == t, "position", "reading on after %s touches the stream", sname(st));
		}
	}

	struct null_t : basic { // pass-through with the stream operators of the base class
		basic& b;
		null_t(basic& x) : basic(state_t::ok), b(x) {}
		size_t read(void* d, size_t n) override { size_t r = b.read(d, n); m_state = b.state(); return r; }
		size_t write(const void* d, size_t n) override { size_t r = b.write(d, n); m_state = b.state(); return r; }
	};

	void s_stream()
	{
		values v;
		bytes want = make_values(v, 12);
		{
			peer::sink u;
			u.o.preemptible = false;
			if (!choose(4)) { u.o.fail_at = choose((uint32_t)want.size() + 1); u.o.late = choose(2); }
			if (!choose(4)) u.o.p_short = 1 + choose(300);
			null_t s(u);
			size_t i = 0;
			for (; i < v.size(); ++i) {
				v[i]->put(s);
				if (!s.ok()) break;
				SIM_CHECK(u.got.size() == v[i]->end, "short_write", "value %zu is not completely written and reported as written", i);
			}
			SIM_CHECK(u.got.size() <= want.size() && !memcmp(u.got.data(), want.data(), u.got.size()), "format", "the bytes of %zu values are not the documented ones", v.size());
			if (i < v.size()) {
				auto st = s.state();
				SIM_CHECK(u.failures || u.o.p_short, "state", "writing reports %s without a reason", sname(st));
				unsigned w = u.writes;
				for (++i; i < v.size(); ++i) {
					v[i]->put(s);
					SIM_CHECK(s.state() == st && u.writes == w, "chain", "writing on after a failure reports %s, %u writes", sname(s.state()), u.writes - w);
				}
			}
		}
		peer::source u;
		u.o.preemptible = false;
		u.data = want;
		size_t avail = want.size();
		if (!choose(3)) u.data.resize(avail = choose((uint32_t)want.size() + 1));
		if (!choose(3)) { u.o.fail_at = choose((uint32_t)avail + 1); avail = (size_t)u.o.fail_at; u.o.transient = choose(2); }
		u.o.p_short = choose(2) ? choose(900) : 0;
		null_t s(u);
		get_all(v, s, avail, false, [&] { return u.pos * 1000003 + u.reads; });
		state(avail * 31 + v.size());
	}
	void s_memory()
	{
		values v;
		bytes want = make_values(v, 12);
		bool as_basic = choose(2);
		memory_file m;
		bool reported = false;
		{
			alloc_faults_malloc_only = true;
			alloc_faults f(choose(3) ? 0 : choose(300), 1000);
			for (auto& x : v) {
				if (as_basic) x->put(static_cast<basic&>(m)); else x->put(m);
				if (!m.ok()) { reported = true; break; }
				SIM_CHECK(m.size() == x->end, "short_write", "a value is reported as written, %zu of %zu bytes are there", (size_t)m.size(), x->end);
			}
			SIM_CHECK(!reported || f.fired(), "state", "writing to memory fails without a reason");
		}
		alloc_faults_malloc_only = false;
		SIM_CHECK(!memcmp(m.data(), want.data(), (size_t)m.size()), "format", "the bytes in memory are not the documented ones");
		if (reported) return;
		size_t avail = want.size();
		if (choose(2)) avail = choose((uint32_t)want.size() + 1);
		// exactly as many bytes as there are: reading beyond them is seen
		std::unique_ptr<uint8_t[]> block(new uint8_t[avail]);
		memcpy(block.get(), want.data(), avail);
		memory_file r(block.get(), avail, avail);
		if (choose(2)) get_all(v, static_cast<basic&>(r), avail, false, [&] { return r.tell(); });
		else get_all(v, r, avail, false, [&] { return r.tell(); });
		SIM_CHECK(r.ok() || r.state() == state_t::eof, "state", "the end of the memory is reported as %s", sname(r.state()));
		state(avail * 37 + v.size());
	}
	void s_disk()
	{
		values v;
		bytes want = make_values(v, 12);
		auto ino = simk::make_file("/s", {});
		unsigned kind = choose(3);
		bool reported = false;
		{
			std::unique_ptr<basic_file> f;
			if (kind) f.reset(new file("/s", mode_for_writing | mode_binary));
			else f.reset(new cached_file("/s", mode_for_writing | mode_binary, 1 + choose(50)));
			simk::cfg.short_write = choose(2) ? choose(900) : 0;
			if (kind == 2) { buffer b(*f, choose(30), choose(30)); put_all(v, b); reported = !b.ok(); b.flush(); reported |= !b.ok(); }
			else { put_all(v, *f); reported = !f->ok(); f->flush(); reported |= !f->ok(); }
			SIM_CHECK(!reported, "state", "writing to disk fails without a reason");
			f->close();
		}
		simk::cfg = simk::config();
		SIM_CHECK(ino->data == want, "format", "the bytes on disk are not the documented ones");
		size_t avail = want.size();
		if (choose(2)) ino->data.resize(avail = choose((uint32_t)want.size() + 1));
		{
			std::unique_ptr<basic_file> f;
			if (kind) f.reset(new file("/s", mode_for_reading | mode_binary));
			else f.reset(new cached_file("/s", mode_for_reading | mode_binary, 1 + choose(50)));
			simk::cfg.short_read = choose(2) ? choose(900) : 0;
			static const uint32_t q[] = { 0, 0, 20, 200 };
			simk::cfg.read_error = q[choose(4)];
			bool may = simk::cfg.read_error;
			if (kind == 2) { buffer b(*f, choose(30), choose(30)); get_all(v, b, avail, may, [&] { return simk::m.calls; }); }
			else get_all(v, *f, avail, may, [&] { return simk::m.calls; });
			simk::cfg = simk::config();
		}
	}
	// A damaged count asks for more than there is
	template <class T, class S> bool read_one(S& s)
	{
		T x;
		s >> x;
		return s.ok();
	}
	void s_damaged()
	{
		static const uint32_t counts[] = { UINT32_MAX, 0x7fffffff, 0x10000000, 1000000, 100, 5 };
		bytes in;
		enc_n(in, counts[choose(6)], 4);
		uint32_t n = size(200);
		for (uint32_t i = 0; i < n; ++i) in.push_back(choose(2) ? pat(51, i) : (uint8_t)(i % 4 ? 0 : choose(6)));
		if (!choose(4)) in.resize(choose(5));
		peer::source u;
		u.o.preemptible = false;
		u.data = in;
		u.o.p_short = choose(2) ? choose(900) : 0;
		memory_file r(in.data(), in.size(), in.size());
		null_t s(u);
		unsigned kind = choose(8);
		bool mem = kind < 2 && choose(2);
		uint64_t total;
		{
			heap_track ht;
			try {
				switch (kind) {
				case 0: mem ? read_one<std::string>(r) : read_one<std::string>(s); break;
				case 1: mem ? read_one<std::wstring>(r) : read_one<std::wstring>(s); break;
				case 2: read_one<std::vector<uint64_t>>(s); break;
				case 3: read_one<std::vector<std::string>>(s); break;
				case 4: read_one<std::vector<std::vector<uint8_t>>>(s); break;
				case 5: read_one<std::set<uint32_t>>(s); break;
				case 6: read_one<std::multiset<std::string>>(s); break;
				default: read_one<std::vector<char>>(s); break;
				}
			}
			catch (const std::bad_alloc&) { violation("memory", "reading %zu bytes asks for more memory than there is (%llu bytes)", in.size(), (unsigned long long)heap_total()); }
			total = heap_total();
		}
		SIM_CHECK(total <= 400000 + in.size() * 400, "memory", "reading %zu bytes asks for %llu bytes of memory", in.size(), (unsigned long long)total);
		state(kind * 1000 + in.size());
	}
}
SIM_SCENARIOS("C24", { "stream", 4, s_stream }, { "memory", 2, s_memory }, { "disk", 2, s_disk }, { "damaged", 2, s_damaged })
