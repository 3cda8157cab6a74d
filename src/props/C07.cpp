// SIM: threads
// C07: per-NUMA pool of items.
#include <stdex/pool.hpp>
#include "sim.h"
#include <string.h>
#include <memory>
#include <thread>
#include <vector>
using namespace sim;

namespace
{
	enum where_t : uint8_t { owned, pushing, pooled, popping, dead };
	struct info { where_t where = owned; int node = 0; unsigned gen = 0; };
	struct node_t { uint64_t push_done = 0, popped = 0, popping = 0; };
	struct book {
		std::vector<info> items;
		node_t node[8];              // index: node + 1
		unsigned clearing = 0;
		uint64_t clears = 0;
		int last_node[64];           // what the stub told the thread last
		int cpu[64];
		int pushing_id[64];          // the item whose node the pool is just asking for
	} * B;

	struct item {
		int id = -1;
		uint64_t check = 0;
		std::unique_ptr<uint64_t> payload;
		item() {}
		explicit item(int _id) : id(_id), check(mix(_id)), payload(new uint64_t(mix(_id + 1000))) {}
		item(item&& o) noexcept : id(o.id), check(o.check), payload(std::move(o.payload)) { o.id = -1; o.check = 0; }
		item& operator=(item&& o) noexcept
		{
			if (this != &o) { die(); id = o.id; check = o.check; payload = std::move(o.payload); o.id = -1; o.check = 0; }
			return *this;
		}
		~item() { die(); }
		void die()
		{
			if (id < 0) return;
			nopreempt np;
			SIM_CHECK(B->items[id].where != dead, "destroyed_twice", "item %d is destroyed twice", id);
			B->items[id].where = dead;
		}
		bool valid() const { return id < 0 || (check == mix(id) && payload && *payload == mix(id + 1000)); }
	};

	int cpu_stub(int tid)
	{
		nopreempt np;
		if (tid < 64) {
			if (choose(8) == 7) { B->cpu[tid] = (int)choose(9) - (choose(8) == 7); count_fault("cpu_migration"); }
			int cpu = B->cpu[tid];
			B->last_node[tid] = cpu < 0 ? -1 : cpu % numa_nodes;
			if (B->pushing_id[tid] >= 0) B->items[B->pushing_id[tid]].node = B->last_node[tid];
			return cpu;
		}
		return 0;
	}

	void check_taken(item& it, int node)
	{
		SIM_CHECK(it.valid(), "torn", "an item came out of the pool damaged");
		info& x = B->items[it.id];
		SIM_CHECK(x.where == pooled || x.where == pushing, "duplicated", "item %d is handed out although it is not in the pool", it.id);
		SIM_CHECK(x.node == node, "wrong_node", "item %d was put in for node %d and handed out for node %d", it.id, x.node, node);
		x.where = owned;
	}

	template <bool with_clear>
	void run()
	{
		set_schedule(0);
		book b;
		B = &b;
		numa_nodes = 1 + choose(4);
		for (int i = 0; i < 64; ++i) { b.cpu[i] = choose(8); b.last_node[i] = -2; b.pushing_id[i] = -1; }
		cpu_of_thread = cpu_stub;
		auto pool = std::make_unique<stdex::pool<item>>();
		unsigned n = 1 + choose(4), rounds = 1 + choose(14), p_push = 2 + choose(5);
		bool explicit_node = choose(2);
		ev("pool: %u threads %u rounds %d nodes", n, rounds, numa_nodes);
		auto body = [&](unsigned) {
			std::vector<item> mine;
			int me = self();
			for (unsigned r = 0; r < rounds; ++r) {
				uint32_t c = choose(10);
				bool ex = explicit_node && choose(2);
				int node = ex ? (int)choose(numa_nodes) : 0;
				if (c < p_push) {
					int id; unsigned gen;
					bool reuse = !mine.empty() && choose(2);
					item it;
					if (reuse) { it = std::move(mine.back()); mine.pop_back(); id = it.id; }
					else { { nopreempt np; id = (int)b.items.size(); b.items.push_back(info()); } it = item(id); }
					{
						nopreempt np;
						b.items[id].where = pushing; b.items[id].node = node; gen = ++b.items[id].gen;
						b.last_node[me] = -2;
						b.pushing_id[me] = ex ? -1 : id;
						count_op("push");
					}
					if (ex) pool->push(std::move(it), node); else pool->push(std::move(it));
					nopreempt np;
					SIM_CHECK(it.id < 0, "duplicated", "push() left the item with the caller");
					info& x = b.items[id];
					b.pushing_id[me] = -1;
					if (!ex) node = b.last_node[me];
					SIM_CHECK(node != -2, "wrong_node", "push() without a node did not ask for the current one");
					if (x.where == pushing && x.gen == gen) x.where = pooled;
					++b.node[node + 1].push_done;
					evn(0x70, id, node);
				}
				else if (with_clear && c == 9) {
					{ nopreempt np; ++b.clearing; ++b.clears; count_op("clear"); evn(0x72); }
					std::vector<std::pair<int, unsigned>> before;
					before.reserve(64);
					{ nopreempt np; before.reserve(b.items.size()); for (size_t i = 0; i < b.items.size(); ++i) if (b.items[i].where == pooled) before.emplace_back((int)i, b.items[i].gen); }
					pool->clear();
					nopreempt np;
					--b.clearing; ++b.clears;
					// whatever was in the pool before clear() is gone unless somebody took it (and perhaps put it back)
					if (!b.node[0].popping)
						for (auto& i : before) SIM_CHECK(b.items[i.first].where != pooled || b.items[i.first].gen != i.second, "not_cleared", "item %d is still in the pool after clear()", i.first);
				}
				else {
					uint64_t clears0; node_t n0[8];
					{ nopreempt np; clears0 = b.clears; memcpy(n0, b.node, sizeof(n0)); for (auto& x : b.node) ++x.popping; b.last_node[me] = -2; }
					item it = ex ? pool->pop(node) : pool->pop();
					nopreempt np;
					for (auto& x : b.node) --x.popping;
					count_op("pop");
					if (!ex) node = b.last_node[me];
					SIM_CHECK(node != -2, "wrong_node", "pop() without a node did not ask for the current one");
					evn(0x71, it.id, node);
					if (it.id >= 0) {
						check_taken(it, node);
						++b.node[node + 1].popped;
						if (choose(3)) mine.push_back(std::move(it));
					}
					else {
						node_t& x = b.node[node + 1];
						if (!b.clearing && clears0 == b.clears && !b.clears)
							SIM_CHECK(n0[node + 1].push_done <= x.popped + x.popping, "lost", "pop() found node %d empty although %llu items were put in and only %llu taken", node, (unsigned long long)n0[node + 1].push_done, (unsigned long long)x.popped);
					}
				}
			}
			nopreempt np;
			for (auto& it : mine) SIM_CHECK(it.valid() && b.items[it.id].where == owned, "duplicated", "item %d changed while it was owned", it.id);
		};
		std::vector<std::thread> t;
		for (unsigned i = 0; i < n; ++i) t.emplace_back(body, i);
		for (auto& x : t) x.join();
		// Quiet: what is in the pool comes out node by node
		unsigned pooled_n = 0;
		for (auto& x : b.items) pooled_n += x.where == pooled;
		bool drain = choose(2);
		if (drain)
			for (int node = -1; node < numa_nodes; ++node) {
				for (;;) {
					item it = pool->pop(node);
					if (it.id < 0) break;
					check_taken(it, node);
					--pooled_n;
				}
			}
		if (drain) SIM_CHECK(!pooled_n, "lost", "%u items are neither owned nor in the pool", pooled_n);
		else if (with_clear && choose(2)) {
			pool->clear();
			for (size_t i = 0; i < b.items.size(); ++i) SIM_CHECK(b.items[i].where == dead, "not_cleared", "item %zu is still alive after clear()", i);
			item it = pool->pop();
			SIM_CHECK(it.id < 0, "not_cleared", "the pool is not empty after clear()");
		}
		pool.reset();
		for (size_t i = 0; i < b.items.size(); ++i) SIM_CHECK(b.items[i].where == dead, "leaked", "item %zu was never destroyed", i);
		state(mix(b.items.size()) + mix(pooled_n + 99) + n);
		cpu_of_thread = nullptr;
		numa_nodes = 1;
	}
	void plain_() { run<false>(); }
	void clear_() { run<true>(); }
}
SIM_SCENARIOS("C07", { "pool", 2, plain_ }, { "pool_clear", 1, clear_ })
