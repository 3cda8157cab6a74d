// SIM: plain -O2 -fno-sanitize=address
// C28: sanitising containers leave no secret in released memory. Optimised, and without the sanitiser's
// instrumentation, which would keep the compiler from removing stores that it takes for useless.
#include <string.h>
#include <stdex/memory.hpp>
#include "sim.h"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>
#include <ucontext.h>
using namespace sim;

namespace
{
	template <class T> using al = stdex::sanitizing_allocator<T>;
	// Secrets are made of four byte values only; four of them in a row are a secret that was left behind
	const uint8_t alphabet[4] = { 0xF5, 0xEC, 0xE7, 0x37 };
	bool secret_byte(uint8_t b) { return b == 0xF5 || b == 0xEC || b == 0xE7 || b == 0x37; }
	uint64_t g_n; // how many values were made
	template <class T> T make() { uint64_t r = mix(++g_n); T v = 0; for (size_t i = 0; i < sizeof(T); ++i) v = (T)(v | (T)((T)alphabet[r >> 2 * i & 3] << 8 * i)); return v; }
	unsigned g_released, g_bytes;
	size_t find_secret(const uint8_t* p, size_t n, unsigned len = 4)
	{
		unsigned run = 0;
		for (size_t i = 0; i < n; ++i) { run = secret_byte(p[i]) ? run + 1 : 0; if (run == len) return i + 1 - len; }
		return SIZE_MAX;
	}
	void released(const void* p, size_t n)
	{
		++g_released;
		g_bytes += (unsigned)n;
		size_t at = find_secret((const uint8_t*)p, n);
		if (at != SIZE_MAX) {
			on_free = nullptr;
			violation("left_behind", "a block of %zu bytes is released with the secret at byte %zu", n, at);
		}
	}
	struct watch { watch() { g_n = 0; g_released = g_bytes = 0; on_free = released; } ~watch() { on_free = nullptr; } };

	template <class C> struct value { static typename C::value_type get() { return make<typename C::value_type>(); } };
	typedef std::basic_string<char, std::char_traits<char>, al<char>> sstring;
	typedef std::basic_string<wchar_t, std::char_traits<wchar_t>, al<wchar_t>> swstring;
	typedef std::basic_string<char16_t, std::char_traits<char16_t>, al<char16_t>> s16string;
	template <class T> using svector = std::vector<T, al<T>>;
	sstring text() { sstring s; for (uint32_t n = choose(3) ? choose(20) : choose(300); n; --n) s.push_back(make<char>()); return s; }
	template <> struct value<svector<sstring>> { static sstring get() { return text(); } };
	template <> struct value<std::list<sstring, al<sstring>>> { static sstring get() { return text(); } };
	template <> struct value<svector<svector<uint16_t>>> { static svector<uint16_t> get() { svector<uint16_t> v; for (uint32_t n = choose(9); n; --n) v.push_back(make<uint16_t>()); return v; } };

	uint32_t count() { return choose(4) ? choose(20) : choose(4) ? choose(200) : choose(3000); }
	template <class C> void sequence()
	{
		watch w;
		C a, b;
		alloc_faults f(choose(2) ? 0 : choose(200), 1000);
		for (unsigned steps_ = 1 + choose(15); steps_; --steps_) {
			evn(10, a.size(), b.size());
			try {
				uint32_t n = count(), at = a.size() ? choose((uint32_t)a.size()) : 0;
				switch (choose(14)) {
				case 0: for (; n; --n) a.push_back(value<C>::get()); break;
				case 1: a.insert(a.begin() + at, n, value<C>::get()); break;
				case 2: if (a.size()) a.erase(a.begin() + at); break;
				case 3: if (a.size()) a.erase(a.begin() + at, a.begin() + at + choose((uint32_t)(a.size() - at)) + 1); break;
				case 4: a.clear(); break;
				case 5: a.shrink_to_fit(); break;
				case 6: a.resize(n, value<C>::get()); break;
				case 7: a.assign(n, value<C>::get()); break;
				case 8: b = a; break;
				case 9: b = std::move(a); a.clear(); break;
				case 10: std::swap(a, b); break;
				case 11: { C c(a); c.push_back(value<C>::get()); break; }
				case 12: { C c(std::move(b)); b = C(c); break; }
				default: if (a.size()) a.insert(a.begin() + at, b.begin(), b.end()); break;
				}
				if (a.size() > 20000) a.resize(3);
			}
			catch (const std::bad_alloc&) {}
			catch (const std::length_error&) {}
		}
		state(g_released * 1000003ull + g_bytes);
	}
	template <class C> void reserve_and_shrink()
	{
		watch w;
		C a;
		alloc_faults f(choose(2) ? 0 : choose(200), 1000);
		for (unsigned steps_ = 1 + choose(15); steps_; --steps_) {
			evn(11, a.size());
			try {
				switch (choose(5)) {
				case 0: a.push_back(value<C>::get()); break;
				case 1: a.reserve(a.size() + count()); break;
				case 2: a.shrink_to_fit(); break;
				case 3: if (a.size()) a.pop_back(); break;
				default: { C c; c.reserve(1 + choose(60)); for (uint32_t n = choose(80); n; --n) c.push_back(value<C>::get()); a = std::move(c); }
				}
			}
			catch (const std::bad_alloc&) {}
		}
		state(g_released * 1000003ull + g_bytes + 1);
	}
	template <class C> void linked()
	{
		watch w;
		C a, b;
		alloc_faults f(choose(2) ? 0 : choose(200), 1000);
		for (unsigned steps_ = 1 + choose(15); steps_; --steps_) {
			evn(12, a.empty(), b.empty());
			try {
				switch (choose(7)) {
				case 0: for (uint32_t n = choose(30); n; --n) a.push_front(value<C>::get()); break;
				case 1: a.clear(); break;
				case 2: if (!a.empty()) a.pop_front(); break;
				case 3: b = a; break;
				case 4: a.swap(b); break;
				case 5: a.resize(choose(40), value<C>::get()); break;
				default: b = std::move(a); a.clear(); break;
				}
			}
			catch (const std::bad_alloc&) {}
		}
		state(g_released * 1000003ull + g_bytes + 2);
	}
	template <class C, class K, class V> void associative()
	{
		watch w;
		C a, b;
		alloc_faults f(choose(2) ? 0 : choose(200), 1000);
		for (unsigned steps_ = 1 + choose(15); steps_; --steps_) {
			evn(13, a.size(), b.size());
			try {
				switch (choose(5)) {
				case 0: for (uint32_t n = choose(30); n; --n) a[make<K>()] = make<V>(); break;
				case 1: if (!a.empty()) a.erase(a.begin()); break;
				case 2: a.clear(); break;
				case 3: b = a; break;
				default: a.swap(b); break;
				}
			}
			catch (const std::bad_alloc&) {}
		}
		state(g_released * 1000003ull + g_bytes + 3);
	}
	void s_containers()
	{
		switch (choose(17)) {
		case 0: sequence<svector<uint8_t>>(); break;
		case 1: sequence<svector<uint32_t>>(); break;
		case 2: sequence<svector<uint64_t>>(); break;
		case 3: sequence<sstring>(); break;
		case 4: sequence<swstring>(); break;
		case 5: sequence<s16string>(); break;
		case 6: sequence<svector<sstring>>(); break;
		case 7: sequence<svector<svector<uint16_t>>>(); break;
		case 8: sequence<std::deque<uint32_t, al<uint32_t>>>(); break;
		case 9: reserve_and_shrink<svector<uint16_t>>(); break;
		case 10: reserve_and_shrink<sstring>(); break;
		case 11: reserve_and_shrink<svector<sstring>>(); break;
		case 12: linked<std::list<uint32_t, al<uint32_t>>>(); break;
		case 13: linked<std::forward_list<uint64_t, al<uint64_t>>>(); break;
		case 14: linked<std::list<sstring, al<sstring>>>(); break;
		case 15: associative<std::map<uint32_t, uint64_t, std::less<uint32_t>, al<std::pair<const uint32_t, uint64_t>>>, uint32_t, uint64_t>(); break;
		default: associative<std::unordered_map<uint64_t, uint32_t, std::hash<uint64_t>, std::equal_to<uint64_t>, al<std::pair<const uint64_t, uint32_t>>>, uint64_t, uint32_t>(); break;
		}
	}
	// The allocator itself: copied, converted to other types and back
	template <class T> void allocator_()
	{
		watch w;
		al<T> a;
		typename al<char>::template rebind<T>::other r;
		al<uint64_t> u(a);
		al<T> b(u), c(b);
		al<T>* const all[] = { &a, &r, &b, &c };
		struct blk { T* p; size_t n; };
		blk held[8] = {};
		alloc_faults f(choose(2) ? 0 : 200, 1000);
		for (unsigned steps_ = 1 + choose(30); steps_; --steps_) {
			auto& h = held[choose(8)];
			evn(14, h.n, !!h.p);
			if (h.p) { all[choose(4)]->deallocate(h.p, h.n); h.p = nullptr; continue; }
			h.n = 1 + (choose(3) ? choose(10) : choose(5000));
			auto& m = *all[choose(4)]; try { heap_track t; h.p = std::allocator_traits<al<T>>::allocate(m, h.n); } catch (const std::bad_alloc&) { continue; }
			auto q = (uint8_t*)h.p;
			for (size_t i = 0; i < h.n * sizeof(T); ++i) q[i] = alphabet[(i + steps_) & 3];
		}
		for (auto& h : held) if (h.p) a.deallocate(h.p, h.n);
		SIM_CHECK(!heap_live(), "leak", "%llu blocks that were given back are not released", (unsigned long long)heap_live());
		if (choose(2)) try { auto s = std::allocate_shared<std::array<uint64_t, 9>>(a); for (auto& x : *s) x = make<uint64_t>(); std::weak_ptr<std::array<uint64_t, 9>> k(s); if (choose(2)) s.reset(); } catch (const std::bad_alloc&) {}
		state(g_released * 1000003ull + g_bytes + 4);
	}
	void s_allocator() { switch (choose(4)) { case 0: allocator_<char>(); break; case 1: allocator_<uint32_t>(); break; case 2: allocator_<std::array<uint8_t, 3>>(); break; default: allocator_<std::array<uint64_t, 5>>(); } }

	__attribute__((noinline)) void fill(volatile uint8_t* p, size_t n, unsigned at) { for (size_t i = 0; i < n; ++i) p[i] = alphabet[(i + at) & 3]; }
	template <size_t N> __attribute__((noinline)) void on_stack(unsigned at, bool thrown)
	{
		stdex::sanitizing_blob<N> b;
		fill(b.m_data, N, at);
		if (thrown) throw 1;
	}
	struct job { void (*fn)(unsigned, bool); unsigned at; bool thrown; };
	job g_job;
	ucontext_t g_main, g_co;
	void co() { try { g_job.fn(g_job.at, g_job.thrown); } catch (int) {} swapcontext(&g_co, &g_main); }
	template <size_t N> void blob()
	{
		unsigned at = choose(4);
		switch (choose(N < 1000 ? 2 : 3)) {
		case 0: { // on the heap
			watch w;
			auto b = new stdex::sanitizing_blob<N>;
			fill(b->m_data, N, at);
			if (choose(2)) { auto c = new stdex::sanitizing_blob<N>(*b); delete c; }
			delete b;
			SIM_CHECK(g_released, "left_behind", "no block is released");
			break;
		}
		case 1: { // inside of other storage
			static uint8_t room[3 * sizeof(stdex::sanitizing_blob<N>)];
			memset(room, 1, sizeof(room));
			auto b = new (room + N) stdex::sanitizing_blob<N>;
			for (size_t i = 0; i < N; ++i) SIM_CHECK(!b->m_data[i], "initial", "a new blob of %zu bytes has %u at %zu", N, b->m_data[i], i);
			fill(b->m_data, N, at);
			b->~sanitizing_blob<N>();
			size_t s = find_secret(room, sizeof(room));
			for (size_t i = 0; N < 4 && i < N; ++i) if (secret_byte(room[N + i])) s = i;
			SIM_CHECK(s == SIZE_MAX, "left_behind", "a destroyed blob of %zu bytes still has the secret at %zu", N, s);
			for (size_t i = 0; i < N; ++i) SIM_CHECK(room[i] == 1 && room[2 * N + i] == 1, "overrun", "a blob of %zu bytes clears memory that is not its own", N);
			break;
		}
		default: { // on a stack that is searched afterwards
			static uint8_t* stack;
			const size_t size = 1 << 17;
			if (!stack) stack = (uint8_t*)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			memset(stack, 0, size);
			g_job = { on_stack<N>, at, choose(4) == 1 };
			getcontext(&g_co);
			g_co.uc_stack.ss_sp = stack; g_co.uc_stack.ss_size = size; g_co.uc_link = &g_main;
			makecontext(&g_co, co, 0);
			swapcontext(&g_main, &g_co);
			size_t s = find_secret(stack, size, 512); // less may be registers that a call saved
			SIM_CHECK(s == SIZE_MAX, "left_behind", "a blob of %zu bytes that went out of scope left the secret on the stack", N);
		}
		}
		state(N * 16 + at);
		evn(2, N, at);
	}
	void s_blob() { switch (choose(7)) { case 0: blob<16>(); break; case 1: blob<4>(); break; case 2: blob<1>(); break; case 3: blob<33>(); break; case 4: blob<64>(); break; case 5: blob<1000>(); break; default: blob<4096>(); } }
}
SIM_SCENARIOS("C28", { "containers", 4, s_containers }, { "allocator", 2, s_allocator }, { "blob", 1, s_blob })
