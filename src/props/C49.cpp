// SIM: plain
// C49: text rebuilt from stacks of open tags is well nested.
#include <stdint.h>
#include <stdexcept>
#include <string>
#include <memory>
#include <mutex>
#include <stdex/html.hpp>
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <algorithm>
#include <vector>
using namespace sim;
namespace html = stdex::html;
typedef std::wstring S;
typedef html::parser<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>> parser;

namespace
{
	struct root_token : public html::text_token<wchar_t> { root_token() : html::text_token<wchar_t>(html::token_t::root) {} };
	std::string u8(const S& s) { std::string r; for (auto c : s) r += c >= ' ' && c < 0x7f ? (char)c : '.'; return r; }

	// The document tags are taken from
	struct tags {
		html::document<wchar_t> d;
		std::unique_ptr<parser> p;
		std::vector<html::token*> start, other, end;
		tags()
		{
			static const wchar_t* names[] = { L"b", L"I", L"a", L"span", L"x-foo", L"em", L"font", L"b" };
			S s;
			unsigned n = 2 + choose(6);
			for (unsigned i = 0; i < n; ++i) {
				s += L"<"; s += names[i];
				if (choose(3) == 0) s += L" class=\"c\"";
				if (choose(3) == 0) s += L" title=\"t\"";
				s += L">";
			}
			for (unsigned i = 0; i < 3; ++i) { static const wchar_t* e[] = { L"<br>", L"<img alt=\"x\">", L"<!-- c -->", L"<hr/>" }; s += e[choose(4)]; }
			for (unsigned i = n; i--;) { s += L"</"; s += names[i]; s += L">"; }
			d.assign(s.data(), s.size());
			p.reset(new parser(d));
			p->parse();
			for (auto& t : p->tokens())
				if (t->type == html::token_t::starting) start.push_back(t.get());
				else if (t->type == html::token_t::ending) end.push_back(t.get());
				else if (t->sequence && t->sequence->type != stdex::parser::html_sequence_t::element_start && t->sequence->type != stdex::parser::html_sequence_t::text) other.push_back(t.get());
			SIM_CHECK(!start.empty() && !end.empty(), "tags", "tokens of the document are missing");
			if (other.empty()) other.push_back(start[0]);
		}
		html::token_list list()
		{
			html::token_list r;
			for (unsigned n = choose(5); n--;) r.push_back(start[choose((uint32_t)start.size())]);
			return r;
		}
		// One that has a beginning in common with another
		html::token_list like(const html::token_list& a)
		{
			html::token_list r;
			if (choose(4)) { size_t n = choose((uint32_t)a.size() + 1); for (auto t : a) { if (!n--) break; r.push_back(t); } }
			for (auto t : list()) { if (r.size() > 7) break; r.push_back(t); }
			return r;
		}
	};
	S html_of(const html::token* t) { S r; parser::link(r, dynamic_cast<const html::text_token<wchar_t>*>(t)); return r; }
	S close(const html::token* t) { return L"</" + dynamic_cast<const html::starting_token<wchar_t>*>(t)->name + L">"; }

	struct writer {
		tags t;
		S source;            // made by the parser
		html::token_list active;
		S html;              // what it should be
		std::vector<html::token*> stack;
		void change(const html::token_list& want)
		{
			std::vector<html::token*> w(want.begin(), want.end());
			size_t same = 0;
			while (same < stack.size() && same < w.size() && stack[same] == w[same]) ++same;
			while (stack.size() > same) { html += close(stack.back()); stack.pop_back(); }
			for (size_t i = same; i < w.size(); ++i) { html += html_of(w[i]); stack.push_back(w[i]); }
		}
		void verify(const char* what)
		{
			SIM_CHECK(active.size() == stack.size() && std::equal(active.begin(), active.end(), stack.begin()), "active", "%s: %zu tags are open instead of %zu, or not the same", what, active.size(), stack.size());
			root_token x;
			x.text = source;
			x.text_type = html::has_tokens;
			S o;
			parser::link(o, &x);
			size_t i = 0;
			while (i < o.size() && i < html.size() && o[i] == html[i]) ++i;
			size_t at = i > 30 ? i - 30 : 0;
			SIM_CHECK(o == html, "output", "%s: \"...%s\" instead of \"...%s\"", what, u8(o).substr(at, 90).c_str(), u8(html).substr(at, 90).c_str());
		}
	};
	void stacks()
	{
		writer w;
		html::inserted_token_list inserted;
		struct note { html::token* t; html::token_list active; size_t word; bool after; };
		std::vector<note> notes;
		size_t words = 1 + choose(8);
		html::token_list some;
		for (unsigned n = choose(6); n--;) {
			note x;
			unsigned k = choose(4);
			x.t = k == 0 ? w.t.end[choose((uint32_t)w.t.end.size())] : w.t.other[choose((uint32_t)w.t.other.size())];
			x.active = w.t.like(some);
			x.word = choose((uint32_t)words);
			x.after = choose(2);
			notes.push_back(x);
			inserted.push_back(html::inserted_token{ x.t, x.active, x.word, x.after });
		}
		auto insert = [&](size_t word, bool after) {
			w.t.p->append_inserted_tokens(w.source, inserted, word, after, w.active);
			for (size_t i = 0; i < notes.size();) {
				if (notes[i].word != word || notes[i].after != after) { ++i; continue; }
				if (notes[i].t->type != html::token_t::ending) w.change(notes[i].active);
				w.html += html_of(notes[i].t);
				notes.erase(notes.begin() + i);
			}
			SIM_CHECK(inserted.size() == notes.size(), "inserted", "%zu tags are left to insert instead of %zu", inserted.size(), notes.size());
			size_t i = 0;
			for (auto& x : inserted) { SIM_CHECK(x.token == notes[i].t && x.word_index == notes[i].word && x.after_word == notes[i].after, "inserted", "tag %zu to insert is not the same", i); ++i; }
		};
		for (size_t k = 0; k < words; ++k) {
			html::token_list want = w.t.like(w.active);
			count_op("changes");
			if (choose(3) == 0) insert(k, false);
			auto from = w.t.p->end_tokens(w.source, w.active, want);
			parser::start_tokens(w.source, w.active, want, from);
			w.change(want);
			w.verify("change");
			w.source += L"word"; w.html += L"word";
			if (choose(3) != 1) insert(k, true);
			w.verify("word");
			state(mix(w.stack.size() * 64 + notes.size()));
		}
		html::token_list none;
		w.t.p->end_tokens(w.source, w.active, none);
		w.change(none);
		w.verify("end");
		ev("%s", u8(w.html).substr(0, 200).c_str());
	}
	void merging()
	{
		tags t;
		html::token_list a, b;
		auto unique = [&](html::token_list& l) { for (auto x : t.list()) if (std::find(l.begin(), l.end(), x) == l.end()) l.push_back(x); };
		unique(a);
		for (unsigned n = 1 + choose(3); n--;) {
			b.clear();
			unique(b);
			html::token_list want = a;
			for (auto x : b) if (std::find(want.begin(), want.end(), x) == want.end()) want.push_back(x);
			html::token_list was = b;
			parser::merge(a, b);
			SIM_CHECK(b == was, "merge", "the list merged has changed");
			SIM_CHECK(a.size() == want.size() && std::is_permutation(a.begin(), a.end(), want.begin()), "merge", "the union has %zu tags instead of %zu", a.size(), want.size());
			count_op("merges");
		}
		parser::merge(a, a);
		ev("union of %zu", a.size());
	}
}
SIM_SCENARIOS("C49",
	{ "stacks", 6, stacks },
	{ "merging", 2, merging })
