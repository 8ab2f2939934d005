// C34: byte buffers used by several threads at once.
#include "mc.h"
#include "crucible/bytevector.h"
#include "crucible/error.h"
#include <cstring>
#include <thread>
#include <vector>
using namespace std;
using namespace crucible;

// what a buffer may hold: the tail of one of the two stores, or nothing
static string bad(const ByteVector &v)
{
	const size_t n = v.size();
	if (!n) return "";
	const auto b = v.begin();
	if (n > 3) return "size " + to_string(n);
	static const uint8_t one[] = {1, 2}, two[] = {11, 12, 13};
	const bool first = b[0] < 10;
	const uint8_t *s = first ? one : two;
	const size_t len = first ? 2 : 3;
	if (n > len) return "a buffer of " + to_string(n) + " bytes over a store of " + to_string(len);
	for (size_t i = 0; i < n; ++i) if (b[i] != s[len - n + i]) return "byte " + to_string(i) + " is " + to_string(unsigned(b[i]));
	return "";
}

MC_SCENARIO(bv, THREADED)
{
	mc::set_horizon(20000);
	const unsigned T = unsigned(mc::param("threads", 2)), D = unsigned(mc::param("depth", 2));
	static const uint8_t one[] = {1, 2}, two[] = {11, 12, 13};
	ByteVector v[2];
	v[0] = ByteVector(2); v[1] = ByteVector(3);
	memcpy(v[0].data(), one, 2); memcpy(v[1].data(), two, 3);
	vector<vector<unsigned>> ops(T);
	for (auto &o : ops) for (unsigned d = 0; d < D; ++d) o.push_back(mc::choose(7));
	vector<thread> th;
	for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t]() {
		ByteVector &a = v[t & 1], &b = v[1 - (t & 1)];
		for (unsigned op : ops[t]) {
			mc::log("[%u] op %u", mc::self(), op);
			switch (op) {
				case 0: a = b; break;
				case 1: b = a; break;
				case 2: { const ByteVector &self = a; a = self; break; }
				case 3: (void)(a == b); if (!(a == a)) mc::fail("compare", "a buffer differs from itself"); break;
				case 4: { ByteVector c(a); const string m = bad(c); mc::compared(); if (!m.empty()) mc::fail("content", "a copy: " + m); break; }
				case 5: a.clear(); break;
				case 6: {
					ByteVector c(b);
					// a view obtained earlier stays valid
					if (!c.size()) break;
					ByteVector w(c, 0, c.size());
					const auto p = w.begin();
					c.clear();
					b.clear();
					mc::point();
					const string m = bad(w);
					mc::compared();
					if (p != w.begin() || !m.empty()) mc::fail("view", "a view of a buffer that is gone: " + m);
					break;
				}
			}
		}
	});
	for (auto &t : th) t.join();
	for (auto &x : v) { const string m = bad(x); mc::compared(); if (!m.empty()) mc::fail("content", m); }
	mc::outcome(v[0].size() * 10 + v[1].size());
}
