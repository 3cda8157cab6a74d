// Texts for the scenarios about texts: shown, widened, and put where nothing may be read around them
#pragma once
#include "sim.h"
#include <stdio.h>
#include <algorithm>
#include <memory>
#include <string>

namespace
{
	using namespace sim;
	template <class T> uint32_t unit(T c) { return static_cast<uint32_t>(c); }
	template <> uint32_t unit(char c) { return static_cast<uint8_t>(c); }
	template <class T> std::string show(const std::basic_string<T>& s)
	{
		std::string r;
		for (auto c : s) {
			char b[16];
			uint32_t u = unit(c);
			if (u >= 0x20 && u < 0x7f) r += static_cast<char>(u);
			else snprintf(b, sizeof(b), "<%x>", u), r += b;
			if (r.size() > 200) return r + "...";
		}
		return r;
	}
	template <class T> std::basic_string<T> wide(const std::string& s)
	{
		std::basic_string<T> r;
		for (auto c : s) r += static_cast<T>(c);
		return r;
	}

	// A text in a block of its own: nothing may be read before it or after its limit
	template <class T> struct block {
		std::unique_ptr<T[]> data;
		const T* p;
		size_t limit;
		block(const std::basic_string<T>& s)
		{
			unsigned kind = choose(4);
			size_t n = s.size() + (kind == 0 || kind == 3 ? 0 : kind == 1 ? 1 : 2 + choose(6));
			data.reset(new T[n]);
			std::copy(s.begin(), s.end(), data.get());
			limit = kind == 0 || kind == 3 ? s.size() : kind == 1 ? SIZE_MAX : n;
			if (n > s.size()) data[s.size()] = 0;
			for (size_t i = s.size() + 1; i < n; ++i) data[i] = static_cast<T>("&#x41;%41\\4"[choose(11)]);
			p = !n && choose(2) ? nullptr : data.get();
			static const char* const kinds[] = { "limited texts", "terminated texts", "texts ended before the limit", "limited texts" };
			count_op(kinds[kind]);
		}
	};
}
