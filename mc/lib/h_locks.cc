// C21: LockSet and MultiLocker under every interleaving.
#include "mc.h"
#include "crucible/error.h"
#include "crucible/lockset.h"
#include "crucible/multilock.h"
#include <map>
#include <thread>
#include <vector>
using namespace std;
using namespace crucible;

MC_SCENARIO(lockset, THREADED)
{
	const int T = int(mc::param("threads", 3));
	LockSet<int> ls;
	const unsigned lim = mc::choose(3);         // 0: no limit, else that many items
	if (lim) ls.max_size(lim);
	const unsigned pat = mc::choose(3);         // items: all the same, two, all different
	const unsigned how = mc::choose(3);         // lock, handle, try_lock
	map<int, int> held; int total = 0, got = 0;
	auto in = [&](int k) {
		mc::log("[%u] holds %d", mc::self(), k);
		mc::compared();
		if (held[k]++) mc::fail("shared", "item " + to_string(k) + " has two owners");
		++total; ++got;
		if (lim && total > int(lim)) mc::fail("limit", to_string(total) + " items held, limit " + to_string(lim));
		const auto s = ls.copy();
		if (!s.count(k)) mc::fail("not-listed", "a held item is not in the set");
		mc::point();
		--held[k]; --total;
		mc::log("[%u] drops %d", mc::self(), k);
	};
	vector<thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
		const int k = pat == 0 ? 0 : pat == 1 ? t & 1 : t;
		if (how == 0) { ls.lock(k); in(k); ls.unlock(k); }
		else if (how == 1) {
			auto h = ls.make_lock(k); in(k);
			auto h2 = h;
			h.unlock(); h.lock(); in(k);
		} else if (t == 0) {
			if (ls.try_lock(k)) { in(k); ls.unlock(k); }
		} else {
			auto h = ls.make_lock(k, false);
			if (h.try_lock()) { in(k); if (!h.try_lock()) mc::fail("try-own", "a lock held by the handle counts as held by another"); h.unlock(); }
			h.lock(); in(k); h.lock();
		}
	});
	for (auto &t : th) t.join();
	mc::compared();
	if (!ls.empty() || ls.size()) mc::fail("left-behind", "items are still held after all owners let go");
	if (how < 2 && got != T * (how + 1)) mc::fail("lost", "an owner did not proceed");
	// with everything free, every kind of locking succeeds at once
	if (!ls.try_lock(0)) mc::fail("try-free", "a free item could not be locked");
	if (ls.try_lock(0)) mc::fail("try-held", "a held item was locked");
	if (lim == 1 && ls.try_lock(1)) mc::fail("try-full", "the limit was exceeded");
	ls.unlock(0);
	bool threw = false;
	try { ls.unlock(0); } catch (const exception &) { threw = true; }
	if (!threw) mc::fail("unlock-free", "unlocking an item that is not held is not reported");
	mc::outcome(uint64_t(got));
}

// After every release, whoever can proceed does: nobody waits for an item that is free.
MC_SCENARIO(wakeups, THREADED)
{
	const int T = int(mc::param("threads", 3)), N = 2;
	LockSet<int> ls;
	const unsigned lim = mc::choose(2);              // 0: no limit, 1: room for two
	if (lim) ls.max_size(2);
	vector<int> owner(N, -1), want(T); vector<bool> drop(T + 1), in(T), done(T);
	for (int k = 0; k < N; ++k) { ls.lock(k); owner[k] = T; }
	vector<thread> th;
	for (int t = 0; t < T; ++t) {
		want[t] = int(mc::choose(N + 1));            // one that is held, or one that is free
		th.emplace_back([&, t]() {
			auto h = ls.make_lock(want[t]);
			in[t] = true; mc::log("[%u] holds %d", mc::self(), want[t]);
			mc::block_until([&, t]() { return bool(drop[t]); }, "drop");
			in[t] = false; h.unlock(); done[t] = true;
		});
	}
	bool mine[2] = {true, true};
	for (int step = 0; step < T + N; ++step) {
		mc::wait_quiescent();
		// who may be waiting: only for an item that has an owner, or for room
		int held = int(mine[0]) + int(mine[1]);
		for (int t = 0; t < T; ++t) held += in[t];
		for (int t = 0; t < T; ++t) {
			if (in[t] || done[t]) continue;
			bool busy = want[t] < N && mine[want[t]];
			for (int u = 0; u < T; ++u) busy |= in[u] && want[u] == want[t];
			mc::compared();
			if (!busy && !(lim && held >= 2)) mc::fail("stuck", "a thread waits for item " + to_string(want[t]) + " which nobody holds");
		}
		mc::check(int(ls.size()) == held, "size", to_string(ls.size()) + " items in the set, " + to_string(held) + " are held");
		// somebody lets go
		vector<int> can; for (int k = 0; k < N; ++k) if (mine[k]) can.push_back(-1 - k);
		for (int t = 0; t < T; ++t) if (in[t]) can.push_back(t);
		if (can.empty()) break;
		const int c = mc::pick(can);
		mc::log("drop %d", c);
		if (c < 0) { mine[-1 - c] = false; ls.unlock(-1 - c); } else drop[c] = true;
	}
	for (auto &t : th) t.join();
	mc::check(ls.empty(), "left-behind", "items are still held after all owners let go");
}
MC_SCENARIO(multi, THREADED)
{
	const int T = int(mc::param("threads", 3));
	MultiLocker::enable_locking(true);
	const unsigned pat = mc::choose(4);
	static const char *types[4][4] = { {"a","b","a","b"}, {"a","b","c","a"}, {"a","a","a","b"}, {"a","a","b","b"} };
	map<string, int> held; int max_same = 0;
	const bool barrier = pat == 2 && mc::flip();
	vector<thread> th;
	int inside_a = 0;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
		for (int i = 0; i < 1 + (t == 0); ++i) {
			const string ty = types[pat][t];
			auto l = MultiLocker::get_lock(ty);
			if (!l) mc::fail("no-lock", "locking is on and no lock was given");
			mc::log("[%u] holds %s", mc::self(), ty.c_str());
			mc::compared();
			++held[ty];
			for (auto &h : held) if (h.first != ty && h.second) mc::fail("overlap", "operations " + ty + " and " + h.first + " overlap");
			max_same = max(max_same, held[ty]);
			if (barrier && ty == "a" && i == 0 && T >= 2 && t < 2) {
				// two operations of the same type can be inside together
				++inside_a;
				mc::block_until([&]() { return inside_a >= 2; }, "another operation of the same type");
			} else mc::point();
			--held[ty];
			mc::log("[%u] drops %s", mc::self(), ty.c_str());
		}
	});
	for (auto &t : th) t.join();
	mc::outcome(uint64_t(max_same));
	// nothing left behind
	MultiLocker::get_lock("x").reset();
	MultiLocker::get_lock("y").reset();
	MultiLocker::enable_locking(false);
	mc::compared();
	auto l = MultiLocker::get_lock("z"), m = MultiLocker::get_lock("w");
	if (l || m) mc::fail("disabled", "a lock was given although locking is off");
}
