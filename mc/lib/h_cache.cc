// C19: LRUCache against a reference (all operation sequences) and under every interleaving.
#include "mc.h"
#include "crucible/error.h"
#include "crucible/cache.h"
#include <thread>
#include <vector>
using namespace std;
using namespace crucible;

using Cache = LRUCache<int, int>;

// every sequence of operations against a list kept in order of use
MC_SCENARIO(seq, INPROC)
{
	const int K = int(mc::param("keys", 3)), D = int(mc::param("depth", 6));
	int calls = 0, version = 1; bool fails = false; int last_key = -1;
	const size_t max0 = 1 + mc::choose(3);
	Cache c([&](int k) { ++calls; last_key = k; if (fails) throw runtime_error("computation fails"); return version * 100 + k; }, max0);
	size_t maxs = max0;
	struct E { int k, v; };
	vector<E> ref;                  // least recently used first
	auto find = [&](int k) { for (size_t i = 0; i < ref.size(); ++i) if (ref[i].k == k) return int(i); return -1; };
	auto trim = [&](size_t n) { while (ref.size() > n) ref.erase(ref.begin()); };
	auto ins = [&](int k, int v) { if (ref.size() >= maxs) trim(maxs - 1); ref.push_back({k, v}); };
	for (int d = 0; d < D; ++d) {
		const unsigned op = mc::choose(6);
		const int k = op <= 4 && op != 5 ? int(mc::choose(unsigned(K))) : 0;
		mc::step();
		const int before = calls;
		++version;
		switch (op) {
			case 0: case 1: {       // lookup, succeeding or failing computation
				fails = op == 1;
				const int i = find(k);
				mc::log("lookup %d%s", k, fails ? " (computation fails)" : "");
				bool threw = false; int v = 0;
				try { v = c(k); } catch (const runtime_error &) { threw = true; }
				fails = false;
				mc::compared();
				if (i >= 0) {
					mc::check(!threw && calls == before, "recomputed", "a remembered value was computed again");
					mc::check(v == ref[size_t(i)].v, "value", "lookup of " + to_string(k) + " gave " + to_string(v) + " instead of " + to_string(ref[size_t(i)].v));
					auto e = ref[size_t(i)]; ref.erase(ref.begin() + i); ref.push_back(e);
				} else {
					mc::check(calls == before + 1, "calls", "a missing value was computed " + to_string(calls - before) + " times");
					mc::check(last_key == k, "key", "computed for another key");
					mc::check(threw == (op == 1), "failure", op == 1 ? "a failing computation gave a value" : "lookup failed");
					if (op == 0) { mc::check(v == version * 100 + k, "value", "wrong value"); ins(k, v); }
				}
				break;
			}
			case 2: {
				mc::log("expire %d", k);
				c.expire(k);
				const int i = find(k); if (i >= 0) ref.erase(ref.begin() + i);
				break;
			}
			case 3: {
				mc::log("refresh %d", k);
				const int v = c.refresh(k);
				mc::compared();
				mc::check(calls == before + 1 && v == version * 100 + k, "refresh", "refresh gave an old value");
				const int i = find(k); if (i >= 0) ref.erase(ref.begin() + i);
				ins(k, v);
				break;
			}
			case 4: {
				// inserts a known value, unless the key is already there
				mc::log("insert %d", k);
				const int i = find(k);
				c.insert(version * 100 + 50 + k, k);
				mc::check(calls == before, "insert-computes", "insert called the computation");
				if (i < 0) ins(k, version * 100 + 50 + k);
				else { auto e = ref[size_t(i)]; ref.erase(ref.begin() + i); ref.push_back(e); }
				break;
			}
			case 5: {
				const unsigned w = mc::choose(4);
				if (w == 0) { mc::log("clear"); c.clear(); ref.clear(); break; }
				maxs = w;
				mc::log("max_size %u", w);
				c.max_size(w);
				const size_t s = c.size();
				// (may make room for the next item at once)
				mc::check(s == min(ref.size(), maxs) || s == min(ref.size(), maxs - 1), "shrink", "size " + to_string(s) + " after limiting " + to_string(ref.size()) + " items to " + to_string(maxs));
				trim(s);
				break;
			}
		}
		mc::compared();
		mc::check(c.size() == ref.size(), "size", "size " + to_string(c.size()) + ", should be " + to_string(ref.size()));
		mc::check(c.size() <= maxs, "overflow", "size " + to_string(c.size()) + " exceeds the limit " + to_string(maxs));
		uint64_t h = uint64_t(d) * 31 + maxs;
		for (auto &x : ref) h = h * 1000003 + uint64_t(x.k) * 7 + 1;
		mc::outcome(h);
		if (mc::param("prune", 1) && mc::seen(h)) return;
	}
	// contents, most recently used first so that the probing does not displace what is left to probe
	for (auto i = ref.rbegin(); i != ref.rend(); ++i) {
		const int before = calls;
		const int v = c(i->k);
		mc::compared();
		mc::check(calls == before && v == i->v, "content", "key " + to_string(i->k) + " was dropped although it was used more recently than the limit");
	}
}

// concurrent lookups, failures and removals
MC_SCENARIO(conc, THREADED)
{
	const int T = int(mc::param("threads", 2));
	const unsigned kind = mc::choose(4);      // 0: same key, 1: same key, first fails, 2: two keys with room for one, 3: removal in between
	int inflight[2] = {0, 0}, calls[2] = {0, 0};
	bool failed = false; int threw = 0;
	Cache c([&](int k) {
		if (inflight[k]++) mc::fail("computed-twice", "two computations of the same key run at once");
		++calls[k];
		mc::log("[%u] compute %d", mc::self(), k);
		mc::point();
		--inflight[k];
		if (kind == 1 && !failed) { failed = true; throw runtime_error("computation fails"); }
		return calls[k] * 10 + k;
	}, kind == 2 ? 1 : 4);
	vector<thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
		for (int i = 0; i < 2; ++i) {
			const int k = kind == 2 ? (t + i) & 1 : 0;
			try {
				const int v = c(k);
				mc::log("[%u] got %d for %d", mc::self(), v, k);
				if (v % 10 != k || v / 10 < 1 || v / 10 > calls[k]) mc::fail("value", "lookup of " + to_string(k) + " gave " + to_string(v));
				mc::compared();
			} catch (const runtime_error &) {
				++threw;
			}
		}
	});
	if (kind == 3) {
		if (mc::flip()) c.expire(0); else c.clear();
	}
	const size_t s = c.size();
	if (kind == 2 && s > 1) mc::fail("overflow", "size exceeds the limit");
	for (auto &t : th) t.join();
	mc::compared();
	if (kind == 0 && calls[0] != 1) mc::fail("computed-again", "computed " + to_string(calls[0]) + " times");
	if (kind == 1 && (threw != 1 || calls[0] != 2)) mc::fail("failure", "one failed computation reached " + to_string(threw) + " callers; computed " + to_string(calls[0]) + " times");
	if (kind == 2 && c.size() != 1) mc::fail("overflow", "size " + to_string(c.size()));
	if (kind == 3 && calls[0] > 2) mc::fail("computed-again", "one removal caused more than one new computation");
	mc::outcome(uint64_t(calls[0]) * 10 + uint64_t(calls[1]));
	// what was removed is computed again, what is there is not
	const int before = calls[0];
	c.expire(0); c(0);
	if (calls[0] != before + 1) mc::fail("not-removed", "a removed value was not computed again");
	c(0);
	if (calls[0] != before + 1) mc::fail("not-kept", "a value was not remembered");
}
