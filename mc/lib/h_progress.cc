// C18: ProgressTracker against a reference, sequentially and under every interleaving.
#include "mc.h"
#include "crucible/error.h"
#include "crucible/progress.h"
#include <algorithm>
#include <thread>
using namespace std;
using namespace crucible;
using PT = ProgressTracker<uint64_t>;

static void cmp(PT &pt, const multiset<uint64_t> &held, uint64_t end, const char *when)
{
	const uint64_t b = pt.begin(), e = pt.end();
	const uint64_t rb = held.empty() ? end : *held.begin();
	mc::compared();
	if (b != rb) mc::fail("begin", string(when) + ": begin " + to_string(b) + ", earliest unfinished " + to_string(rb));
	if (e != end) mc::fail("end", string(when) + ": end " + to_string(e) + ", furthest started " + to_string(end));
}

// every sequence of hold/release over positions 0..P-1 (two holders per position), to depth D
MC_SCENARIO(seq, INPROC)
{
	const int P = int(mc::param("positions", 3)), D = int(mc::param("depth", 7));
	const uint64_t init = uint64_t(mc::choose(unsigned(P)));
	PT pt(init);
	struct H { uint64_t v; PT::ProgressHolder h; };
	vector<H> hs;
	multiset<uint64_t> held;
	uint64_t end = init;
	cmp(pt, held, end, "start");
	for (int d = 0; d < D; ++d) {
		const unsigned c = mc::choose(unsigned(P + int(hs.size())));
		mc::step();
		if (c < unsigned(P)) {
			if (held.count(c) >= 2) return;
			mc::log("hold %u", c);
			hs.push_back({c, pt.hold(c)});
			mc::check(hs.back().h->get() == c, "get", "holder reports another value");
			held.insert(c); end = max<uint64_t>(end, c);
		} else {
			auto it = hs.begin() + (c - unsigned(P));
			mc::log("release %u", unsigned(it->v));
			held.erase(held.find(it->v));
			const auto v = it->v; (void)v;
			hs.erase(it);
		}
		cmp(pt, held, end, "after step");
		sort(hs.begin(), hs.end(), [](const H &a, const H &b) { return a.v < b.v; });
		uint64_t h = uint64_t(d) * 31 + end;
		for (auto &x : hs) h = h * 1000003 + x.v + 1;
		mc::outcome(h);
		if (mc::param("prune", 1) && mc::seen(h)) return;
	}
	while (!hs.empty()) {
		auto i = mc::flip() ? hs.begin() : hs.end() - 1;
		held.erase(held.find(i->v)); hs.erase(i);
		cmp(pt, held, end, "drain");
	}
	mc::check(pt.begin() == pt.end(), "drained");
}

// two or three threads hold and release while one observes; tracker may be destroyed first
MC_SCENARIO(conc, THREADED)
{
	const int T = int(mc::param("threads", 2));
	auto pt = make_shared<PT>(0);
	multiset<uint64_t> surely_held;      // hold() returned, release not begun
	uint64_t surely_started = 0;
	const unsigned pat = mc::choose(3);
	const bool drop = mc::flip();
	vector<thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
		for (int k = 0; k < 2; ++k) {
			// overlapping, interleaved and equal positions
			const uint64_t v = pat == 0 ? uint64_t(1 + t + k * T) : pat == 1 ? uint64_t(5 - t - k) : 3;
			auto h = pt->hold(v);
			surely_held.insert(v); surely_started = max(surely_started, v);
			mc::log("t%d holds %d", t, int(v));
			const uint64_t b = pt->begin(), e = pt->end();
			if (b > v) mc::fail("begin-past-unfinished", "begin " + to_string(b) + " while " + to_string(v) + " is unfinished");
			if (e < v) mc::fail("end-behind", "end " + to_string(e) + " after " + to_string(v) + " started");
			surely_held.erase(surely_held.find(v));
			mc::log("t%d releases %d", t, int(v));
			h.reset();
		}
	});
	// observer
	for (int i = 0; i < 2; ++i) {
		const auto before = surely_held;
		const uint64_t b = pt->begin();
		multiset<uint64_t> both;
		for (auto v : before) if (surely_held.count(v)) both.insert(v);
		mc::outcome(b);
		if (!both.empty() && b > *both.begin() && before == surely_held) mc::fail("begin-past-unfinished", "observer sees begin " + to_string(b) + " while " + to_string(*both.begin()) + " is unfinished");
	}
	for (auto &t : th) t.join();
	const uint64_t b = pt->begin(), e = pt->end();
	mc::compared();
	if (b != e || e != surely_started) mc::fail("final", "begin " + to_string(b) + " end " + to_string(e) + " started " + to_string(surely_started));
	if (drop) {
		auto h = pt->hold(9);
		pt.reset();
		h.reset();
	}
}
