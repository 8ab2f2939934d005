// C32: rate limiter and rate estimator under every order of calls and clock advances.
#include "mc.h"
#include "crucible/error.h"
#include "crucible/time.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <thread>
#include <vector>
using namespace std;
using namespace crucible;

static double now() { return double(mc::now_ns()) * 1e-9; }
static const double EPS = 1e-6;
static string f(double d) { char b[64]; snprintf(b, sizeof b, "%.9g", d); return b; }

// One caller: every sequence of requests and pauses.  The cost of a request may be taken before or
// after the refill for the time since the last call: both hold the rate, so what is observed has to
// lie between the two.
MC_SCENARIO(limiter, THREADED)
{
	const int D = int(mc::param("depth", 4));
	mc::set_points_enabled(false);
	const double rate = mc::flip() ? 2.0 : 10.0;
	const unsigned bk = mc::choose(4);
	const double B = bk == 3 ? rate : bk * 1.5;
	unique_ptr<RateLimiter> r(bk == 3 ? new RateLimiter(rate) : new RateLimiter(rate, B));
	double L = 0, S = 0, lastL = now(), lastS = lastL, cur = rate;
	auto refill = [&]() {
		const double t = now();
		L = min(B, L + (t - lastL) * cur); S = min(B, S + (t - lastS) * cur); lastL = lastS = t;
	};
	for (int d = 0; d < D; ++d) {
		static const double costs[] = {1, 0.25, 4};
		static const uint64_t adv[] = {100000000, 700000000, 10000000000ull};
		const unsigned op = mc::choose(7);
		const double cost = op < 3 ? costs[mc::choose(3)] : 0;
		const double t = now();
		mc::step(); mc::compared();
		switch (op) {
			case 0: case 1: {
				L -= cost; S = min(B, S + (t - lastS) * cur) - cost; lastS = t;
				refill();
				const double lo = max(0.0, -L) / cur, hi = max(0.0, -S) / cur;
				double got;
				if (op == 0) { r->sleep_for(cost); got = now() - t; }
				else got = r->sleep_time(cost);
				mc::log("%s(%g) %g [%g..%g]", op ? "sleep_time" : "sleep_for", cost, got, lo, hi);
				if (got < lo - EPS) mc::fail("too-early", "let through after " + f(got) + " s, the rate allows it after " + f(lo) + " s");
				if (got > hi + EPS) mc::fail("too-late", "delayed by " + f(got) + " s, " + f(hi) + " s are enough");
				break;
			}
			case 2: mc::log("borrow(%g)", cost); r->borrow(cost); L -= cost; S = min(B, S + (t - lastS) * cur) - cost; lastS = t; break;
			case 3: {
				refill();
				const bool got = r->is_ready();
				mc::log("is_ready %d [%g..%g]", got, S, L);
				if (L < -EPS && got) mc::fail("too-early", "ready although " + f(-L) + " are owed");
				if (S >= EPS && !got) mc::fail("too-late", "not ready although nothing is owed");
				break;
			}
			case 4: case 5: { const uint64_t a = adv[mc::choose(3)]; mc::log("pause %g", double(a) * 1e-9); mc::advance_ns(a); break; }
			case 6: {
				// changing the rate takes effect at once, for the time after it
				refill(); r->is_ready();
				cur = cur * 2; r->rate(cur); mc::log("rate %g", cur);
				if (r->rate() != cur) mc::fail("rate", "rate is not what was set");
				break;
			}
		}
	}
	mc::outcome(uint64_t(lround(L * 100)) & 0xffff);
}

// several callers: what gets through in any interval, and how long it takes in total
MC_SCENARIO(limiter_conc, THREADED)
{
	const int T = int(mc::param("threads", 2));
	const double rate = 4, burst = mc::choose(2) * 2.0;
	const double idle = mc::choose(2) * 3.0;
	RateLimiter r(rate, burst);
	mc::advance_ns(uint64_t(idle * 1e9));
	struct A { double t, c; }; vector<A> adm; double total = 0, maxc = 0;
	const double t0 = now();
	vector<thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
		for (int i = 0; i < 2; ++i) {
			const double c = t ? 1 : 2;
			r.sleep_for(c);
			adm.push_back({now(), c}); total += c; maxc = max(maxc, c);
			mc::log("[%u] through at %g", mc::self(), now() - t0);
		}
	});
	for (auto &t : th) t.join();
	mc::compared();
	double sum = 0;
	for (auto &a : adm) {
		sum += a.c;
		if (sum > burst + (idle > 0 ? maxc * T : 0) + rate * (a.t - t0) + EPS * 100) mc::fail("too-fast", f(sum) + " let through in " + f(a.t - t0) + " s");
	}
	if (adm.back().t - t0 > total / rate + EPS * 100) mc::fail("too-late", f(total) + " took " + f(adm.back().t - t0) + " s at rate " + f(rate));
	mc::outcome(uint64_t(lround((now() - t0) * 1000)));
}

// predictions
MC_SCENARIO(estimator, THREADED)
{
	const int D = int(mc::param("depth", 5));
	mc::set_points_enabled(false);
	const double mn = mc::flip() ? 0.5 : 3, mx = 100;
	RateEstimator re(mn, mx);
	const double t0 = now(); double last = t0; double num = 0; uint64_t count = ~0ull;
	for (int d = 0; d < D; ++d) {
		const unsigned op = mc::choose(7);
		uint64_t nc = count;
		switch (op) {
			case 0: nc = count == ~0ull ? 100 : count + 1; re.update(nc); break;
			case 1: nc = count == ~0ull ? 1000 : count + 20; re.update_monotonic(nc); break;
			case 2: if (count == ~0ull) continue; re.update_monotonic(count - 5); break;
			case 3: if (count == ~0ull) continue; nc = count + 3; re.increment(3); break;
			case 4: if (count == ~0ull || count < 7) continue; nc = count - 7; re.update(nc); break;
			case 5: mc::advance_ns(700000000); break;
			case 6: mc::advance_ns(5000000000ull); break;
		}
		mc::step();
		if (op < 5) {
			if (count != ~0ull && nc > count) num += double(nc - count);
			count = nc; last = now();
		}
		mc::log("op %u count %lld at %g", op, (long long)count, now() - t0);
		mc::compared();
		if (re.count() != count) mc::fail("count", "count is " + to_string(re.count()) + ", last told " + to_string(count));
		// events so far over time so far, at least one event and one second, within the limits
		const double n1 = max(num, 1.0), d1 = max(now() - t0, 1.0);
		double per = min(max(d1 / n1, mn), mx);
		const double got = re.rate();
		if (got < 1 / per * 0.85 - EPS || got > 1 / per * 1.18 + EPS) mc::fail("rate", "estimated rate " + f(got) + ", observed " + f(1 / per));
		if (count == ~0ull) continue;
		for (uint64_t n : {1, 10, 1000000}) {
			const double want = min(max(double(n) * per, mn), mx);
			const double dur = re.duration(n).count();
			if (dur < mn - EPS || dur > mx + EPS || dur < want * 0.85 - EPS || dur > want * 1.18 + EPS) mc::fail("duration", "predicts " + f(dur) + " s for " + to_string(n) + " events, observed rate gives " + f(want));
			const double w2 = min(max(want - (now() - last), mn), mx);
			const double sec = re.seconds_for(n), su = re.seconds_until(count + n);
			if (sec < mn - EPS || sec > mx + EPS) mc::fail("limits", "delay " + f(sec) + " s outside the limits");
			if (fabs(sec - w2) > 0.18 * want + EPS || fabs(su - sec) > EPS) mc::fail("prediction", "predicts " + f(sec) + " s until " + to_string(n) + " more events, observed rate gives " + f(w2));
		}
		if (re.seconds_until(0) > max(mn, 0.0) + EPS) mc::fail("past", "waits for a count already reached");
	}
	mc::outcome(uint64_t(lround(num)));
}

// waiters
MC_SCENARIO(waiters, THREADED)
{
	const int N = int(mc::param("updates", 2)), T = int(mc::param("threads", 2));
	RateEstimator re;
	re.update(10);
	uint64_t high = 10, cur = 10; bool back = false;
	vector<int> done(size_t(T), 0); vector<uint64_t> target(size_t(T), 0);
	const unsigned rel = mc::choose(2);
	vector<thread> th;
	for (int t = 0; t < T; ++t) {
		target[size_t(t)] = 11 + uint64_t(t);
		th.emplace_back([&, t]() {
			if (rel) re.wait_for(uint64_t(1 + t)); else re.wait_until(target[size_t(t)]);
			mc::log("[%u] wakes at count %llu", mc::self(), (unsigned long long)cur);
			mc::compared();
			if (!rel && high < target[size_t(t)] && !back) mc::fail("woken-early", "waiter for " + to_string(target[size_t(t)]) + " returns at " + to_string(high));
			done[size_t(t)] = 1;
		});
	}
	for (int i = 0; i < N; ++i) {
		if (mc::flip()) mc::advance_ns(1000000);
		uint64_t nc = cur;
		switch (mc::choose(4)) {
			case 0: ++nc; high = max(high, nc); cur = nc; re.increment(); break;
			case 1: nc += 2; high = max(high, nc); cur = nc; re.update(nc); break;
			case 2: re.update_monotonic(cur - 1); break;
			case 3: nc -= 1; back = true; cur = nc; re.update(nc); break;
		}
		mc::log("count %llu", (unsigned long long)cur);
	}
	mc::wait_quiescent();
	mc::compared();
	if (!rel) for (int t = 0; t < T; ++t) if (!done[size_t(t)] && cur >= target[size_t(t)]) mc::fail("not-woken", "the count reached " + to_string(cur) + " and the waiter for " + to_string(target[size_t(t)]) + " still sleeps");
	// the count goes far enough for everybody
	cur = high = 1000; re.update(1000);
	mc::wait_quiescent();
	for (int t = 0; t < T; ++t) if (!done[size_t(t)]) mc::fail("not-woken", "a waiter sleeps on although its count was reached");
	for (auto &t : th) t.join();
}
