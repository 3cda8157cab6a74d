// Scripted streams that play the parties above and below the code under test.
#pragma once
#include <stdex/stream.hpp>
#include "sim.h"
#include <string.h>
#include <vector>

namespace peer
{
	using stdex::stream::state_t;
	using sim::nopreempt;

	// Not reentrant: the code under test must never use one stream from two threads at once
	struct busy_t {
		bool& b;
		busy_t(bool& _b, const char* what) : b(_b) { nopreempt np; SIM_CHECK(!b, "concurrent_use", "%s is used by two threads at once", what); b = true; }
		~busy_t() { b = false; }
	};

	struct options {
		uint32_t p_short = 0;            // per 1000: transfer only a part
		uint32_t p_stall = 0;            // per 1000: sleep on the virtual clock
		uint64_t fail_at = UINT64_MAX;   // byte offset that cannot be transferred
		bool transient = false;          // only the first attempt at fail_at fails
		bool late = false;               // a failing write takes all bytes; the last bytes read come together with the end or the failure
		bool fail_flush = false, fail_close = false;
		bool preemptible = true;
	};

	inline void maybe_stall(const options& o)
	{
		if (o.preemptible) {
			sim::yield_point();
			if (o.p_stall && sim::inject("peer_stall", o.p_stall, 1000))
				sim::sleep_ns(1000ull << sim::choose(20));
		}
	}

	class sink : public stdex::stream::basic
	{
	public:
		options o;
		std::vector<uint8_t> got;
		unsigned writes = 0, flushes = 0, closes = 0, failures = 0;
		bool busy = false, failed = false, detached = false, closed = false;
		// expected content: got must always be a prefix of pat(stream, .)
		bool check_pattern = false;
		uint64_t pattern = 0, limit = UINT64_MAX;
		void (*on_write)(sink&, const void*, size_t) = nullptr;

		size_t write(const void* data, size_t length) override
		{
			nopreempt np0;
			SIM_CHECK(!detached, "use_after_detach", "a stream is written after it was detached or its owner was destroyed");
			busy_t bz(busy, "the sink");
			{ sim::preemptible pe; maybe_stall(o); }
			++writes;
			if (on_write) on_write(*this, data, length);
			sim::count_op("sink_write");
			size_t n = length;
			bool fail = false;
			if (got.size() + n > o.fail_at && !sim::faults_stopped()) {
				if (!o.late) n = o.fail_at > got.size() ? (size_t)(o.fail_at - got.size()) : 0;
				fail = true;
				if (o.transient) o.fail_at = UINT64_MAX;
				sim::count_fault("sink_failure");
			}
			else if (n > 1 && sim::inject("sink_short", o.p_short, 1000))
				n = 1 + sim::choose((uint32_t)n - 1);
			auto p = (const uint8_t*)data;
			if (check_pattern)
				for (size_t i = 0; i < n; ++i)
					SIM_CHECK(p[i] == sim::pat(pattern, got.size() + i), "order", "byte %zu delivered to the sink is not the one written there", got.size() + i);
			size_t old = got.size();
			got.resize(old + n);
			// copied in two steps so that a caller that changes its buffer too early is seen
			memcpy(got.data() + old, p, n / 2);
			{ sim::preemptible pe; maybe_stall(o); }
			memcpy(got.data() + old + n / 2, p + n / 2, n - n / 2);
			if (check_pattern)
				for (size_t i = 0; i < n; ++i)
					SIM_CHECK(got[old + i] == sim::pat(pattern, old + i), "order", "byte %zu changed while the sink was taking it", old + i);
			m_state = fail ? state_t::fail : state_t::ok;
			if (fail) { failed = true; ++failures; }
			sim::evn(0x40, n, fail);
			return n;
		}
		size_t read(void*, size_t) override { m_state = state_t::fail; return 0; }
		void flush() override
		{
			nopreempt np0;
			SIM_CHECK(!detached, "use_after_detach", "a stream is flushed after it was detached or its owner was destroyed");
			busy_t bz(busy, "the sink");
			{ sim::preemptible pe; maybe_stall(o); }
			++flushes;
			m_state = o.fail_flush && !sim::faults_stopped() ? state_t::fail : state_t::ok;
			if (m_state != state_t::ok) { sim::count_fault("sink_flush_failure"); ++failures; }
			sim::evn(0x41, 0, 0);
		}
		void close() override
		{
			nopreempt np0;
			SIM_CHECK(!detached, "use_after_detach", "a stream is closed after it was detached or its owner was destroyed");
			busy_t bz(busy, "the sink");
			{ sim::preemptible pe; maybe_stall(o); }
			++closes;
			closed = true;
			m_state = o.fail_close && !sim::faults_stopped() ? state_t::fail : state_t::ok;
			if (m_state != state_t::ok) { sim::count_fault("sink_close_failure"); ++failures; }
			sim::evn(0x42, 0, 0);
		}
		void set_state(state_t s) { m_state = s; }
	};

	class source : public stdex::stream::basic
	{
	public:
		options o;
		std::vector<uint8_t> data;
		size_t pos = 0;
		unsigned reads = 0, closes = 0, flushes = 0;
		bool busy = false, failed = false, ended = false, detached = false;

		size_t read(void* buf, size_t length) override
		{
			nopreempt np0;
			SIM_CHECK(!detached, "use_after_detach", "the source is read after its reader was destroyed");
			busy_t bz(busy, "the source");
			{ sim::preemptible pe; maybe_stall(o); }
			++reads;
			sim::count_op("source_read");
			if (!length) { m_state = state_t::ok; return 0; }
			size_t n = data.size() - pos < length ? data.size() - pos : length;
			if (pos + n > o.fail_at || pos == o.fail_at) n = (size_t)(o.fail_at - pos);
			if (!n) {
				if (pos == o.fail_at && !sim::faults_stopped()) {
					m_state = state_t::fail; failed = true;
					if (o.transient) o.fail_at = UINT64_MAX;
					sim::count_fault("source_failure");
				}
				else { m_state = state_t::eof; ended = true; }
				sim::evn(0x43, (uint64_t)m_state);
				return 0;
			}
			if (n > 1 && sim::inject("source_short", o.p_short, 1000))
				n = 1 + sim::choose((uint32_t)(n < 3000 ? n - 1 : 2999));
			memcpy(buf, data.data() + pos, n / 2);
			{ sim::preemptible pe; maybe_stall(o); }
			memcpy((uint8_t*)buf + n / 2, data.data() + pos + n / 2, n - n / 2);
			pos += n;
			m_state = state_t::ok;
			if (o.late && (pos == o.fail_at || pos == data.size())) {
				m_state = pos == o.fail_at ? state_t::fail : state_t::eof;
				if (pos == o.fail_at) { failed = true; sim::count_fault("source_failure"); }
				else ended = true;
			}
			sim::evn(0x44, n);
			return n;
		}
		size_t write(const void*, size_t) override { m_state = state_t::fail; return 0; }
		void close() override { ++closes; m_state = state_t::ok; }
		void flush() override { ++flushes; m_state = state_t::ok; }
	};
}
