// C23: seek_backward over every set of positions, target, fetch behaviour and step size.
#include "mc.h"
#include "crucible/error.h"
#include "crucible/seeker.h"
#include <set>
#include <vector>
using namespace std;
using namespace crucible;

template <class Pos> static void go(const vector<Pos> &universe)
{
	const Pos top = numeric_limits<Pos>::max();
	set<Pos> s;
	for (auto p : universe) if (mc::flip()) s.insert(p);
	vector<Pos> targets(universe); targets.push_back(top);
	for (auto p : universe) targets.push_back(Pos(p + 1));
	const Pos target = mc::pick(targets);
	static const uint64_t steps[] = {1, 32, 1u << 20, 7};
	const Pos step = Pos(steps[mc::choose(4)]);
	// how much a fetch returns beyond its first item: nothing, one more, everything up to the
	// target, one past it, everything there is; single fetches may depart from that
	const unsigned policy = mc::choose(5);
	size_t calls = 0;
	auto fetch = [&](Pos lower, Pos upper) {
		++calls; mc::step();
		if (calls > 2 * (1 + size_t(numeric_limits<Pos>::digits))) mc::fail("unbounded", "more than two fetches per bit of the position");
		mc::check(upper == target, "upper", "fetch asked beyond the target");
		vector<Pos> all(s.lower_bound(lower), s.end()), rv;
		unsigned p = policy;
		if (all.size() > 1) { const unsigned dev = mc::choose(5, mc::ENV); p = (policy + dev) % 5; }
		size_t upto = 0; while (upto < all.size() && all[upto] <= upper) ++upto;
		size_t n = p == 0 ? 1 : p == 1 ? 2 : p == 2 ? max<size_t>(upto, 1) : p == 3 ? upto + 1 : all.size();
		n = min(n, all.size());
		rv.assign(all.begin(), all.begin() + long(n));
		mc::log("fetch %llu -> %zu items", (unsigned long long)lower, rv.size());
		return rv;
	};
	Pos want = 0;
	for (auto p : s) if (p <= target) want = p;
	mc::log("target %llu step %llu policy %u items %zu", (unsigned long long)target, (unsigned long long)step, policy, s.size());
	Pos got = 0;
	try { got = seek_backward(target, fetch, step); }
	catch (const exception &e) { mc::fail("exception", string("search failed: ") + e.what()); }
	mc::compared();
	mc::outcome(calls);
	mc::check(got == want, "result", "found " + to_string(got) + ", greatest position at or before the target is " + to_string(want));
}
MC_SCENARIO(small, INPROC)
{
	vector<uint64_t> u; for (uint64_t i = 0; i < uint64_t(mc::param("positions", 7)); ++i) u.push_back(i * uint64_t(mc::param("spacing", 1)));
	go<uint64_t>(u);
}
MC_SCENARIO(wide, INPROC)
{
	vector<uint64_t> u{0, 1, 31, 1ull << 20, (1ull << 32) + 5, (1ull << 63) - 1, 1ull << 63, ~0ull - 2};
	u.resize(size_t(mc::param("positions", 8)));
	go<uint64_t>(u);
}
MC_SCENARIO(narrow, INPROC)
{
	go<uint32_t>({0, 3, 4, 100, 1u << 31, (1u << 31) + 1, ~0u - 2});
}
