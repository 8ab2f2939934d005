// C34: ByteVector against plain arrays: every operation sequence, with address sanitizer.
#include "mc.h"
#include "crucible/bytevector.h"
#include "crucible/error.h"
#include "crucible/hexdump.h"
#include <sstream>
#include <vector>
using namespace std;
using namespace crucible;

struct Store { vector<uint8_t> b; };
struct Ref { bool null = true; shared_ptr<Store> st; size_t off = 0, len = 0;
	uint8_t &at(size_t i) { return st->b[off + i]; } };
struct V { ByteVector bv; Ref r; };

static void cmp(V &v, const char *when)
{
	mc::compared();
	mc::check(v.bv.size() == v.r.len, "size", string(when) + ": size " + to_string(v.bv.size()) + ", should be " + to_string(v.r.len));
	mc::check(v.bv.empty() == (v.r.len == 0), "empty", when);
	mc::check(size_t(v.bv.end() - v.bv.begin()) == v.r.len, "range", when);
	for (size_t i = 0; i < v.r.len; ++i) {
		mc::check(v.bv[i] == v.r.at(i) && v.bv.at(i) == v.r.at(i) && v.bv.begin()[i] == v.r.at(i) && v.bv.data()[i] == v.r.at(i), "content", string(when) + ": byte " + to_string(i) + " differs");
	}
}
template <class F> static bool throws(F f) { try { f(); } catch (const exception &) { return true; } return false; }

MC_SCENARIO(ops, INPROC)
{
	const int D = int(mc::param("depth", 3)); const size_t N = size_t(mc::param("size", 3));
	vector<V> vs(2);
	uint8_t next = 1;
	auto fresh = [&](V &v, size_t n, unsigned how) {
		v.r = Ref(); v.r.null = false; v.r.st = make_shared<Store>(); v.r.st->b.resize(n); v.r.len = n;
		vector<uint8_t> src(n + 1);
		for (size_t i = 0; i < n; ++i) src[i] = v.r.st->b[i] = next++;
		if (how == 0) { v.bv = ByteVector(n); for (size_t i = 0; i < n; ++i) v.bv[i] = src[i]; }
		else { v.bv = ByteVector(src.data(), src.data() + n); }
	};
	fresh(vs[0], N, mc::choose(2));
	for (int d = 0; d < D; ++d) {
		const unsigned a = mc::choose(2), op = mc::choose(9);
		V &v = vs[a], &w = vs[1 - a];
		mc::step();
		switch (op) {
			case 0: {       // slice into the other one
				const size_t L = v.r.len;
				const size_t starts[] = {0, 1, L, L + 1, ~size_t(0)};
				const size_t s = starts[mc::choose(5)], rest = s <= L ? L - s : 1;
				const size_t lens[] = {rest, 0, rest / 2, rest + 1, ~size_t(0), ~size_t(0) - s + 1};
				const size_t l = lens[mc::choose(6)];
				mc::log("%u = slice of %u: %zu+%zu", 1 - a, a, s, l);
				const bool ok = !v.r.null && s <= v.r.len && l <= v.r.len - s;
				ByteVector nv;
				const bool threw = throws([&]() { nv = mc::param("ctor", 0) ? ByteVector(v.bv, s, l) : v.bv.at(s, l); });
				mc::check(threw != ok, ok ? "refused" : "accepted", ok ? "a slice inside the buffer is refused" : "a slice outside the buffer is accepted");
				if (ok) { w.bv = nv; w.r = v.r; w.r.off += s; w.r.len = l; }
				break;
			}
			case 1: {       // write an element
				if (!v.r.len) { mc::check(throws([&]() { v.bv.at(0) = 1; }), "accepted", "element of an empty buffer"); break; }
				const size_t i = mc::choose(unsigned(v.r.len));
				mc::log("%u[%zu]=", a, i);
				if (next & 1) v.bv.at(i) = next; else v.bv[i] = next;
				v.r.at(i) = next++;
				break;
			}
			case 2: {       // out of range element
				const size_t i = v.r.len + mc::choose(2);
				mc::log("%u.at(%zu)", a, i);
				mc::check(throws([&]() { (void)v.bv.at(i); }), "accepted", "an element outside the buffer");
				mc::check(throws([&]() { (void)v.bv.at(~size_t(0)); }), "accepted", "an element outside the buffer");
				break;
			}
			case 3: {       // erase
				if (v.r.null) break;
				const size_t s = mc::choose(unsigned(v.r.len + 1)), e = s + mc::choose(unsigned(v.r.len - s + 2));
				mc::log("%u.erase(%zu,%zu)", a, s, e);
				const auto b = v.bv.begin();
				const bool ok = e <= v.r.len && (s == e || s == 0 || e == v.r.len);
				const bool threw = throws([&]() { if (e == s + 1) v.bv.erase(b + s); else v.bv.erase(b + s, b + e); });
				mc::check(threw != ok, ok ? "refused" : "accepted", string("erase ") + (ok ? "inside the buffer is refused" : "outside the buffer is accepted"));
				if (ok && e > s) {
					if (s == 0) v.r.off += e - s;
					v.r.len -= e - s;
					if (!v.r.len) v.r.null = true, v.r.st.reset();
				}
				break;
			}
			case 4: mc::log("%u = %u", a, 1 - a); v.bv = w.bv; v.r = w.r; break;
			case 5: mc::log("%u.clear", a); v.bv.clear(); v.r = Ref(); break;
			case 6: { const size_t n = mc::flip() ? N + 1 : 0; mc::log("%u = new %zu", a, n); fresh(v, n, next & 1); break; }
			case 7: {       // compare
				const unsigned k = mc::choose(2);
				V &o = k ? v : w;
				mc::log("%u == %u", a, k ? a : 1 - a);
				bool eq = v.r.null == o.r.null && v.r.len == o.r.len;
				for (size_t i = 0; eq && i < v.r.len; ++i) eq = v.r.at(i) == o.r.at(i);
				// (an empty buffer may or may not equal one that was never filled)
				const bool got = v.bv == o.bv;
				if (v.r.len || o.r.len || v.r.null == o.r.null) mc::check(got == eq, "compare", "comparison gives " + to_string(got));
				break;
			}
			case 8: {       // typed access
				struct __attribute__((packed)) P { uint8_t a, b; };
				const bool ok = v.r.len >= sizeof(P);
				P *p = nullptr;
				mc::log("%u.get", a);
				mc::check(throws([&]() { p = v.bv.get<P>(); }) != ok, ok ? "refused" : "accepted", "typed access");
				if (ok) mc::check(p->a == v.r.at(0) && p->b == v.r.at(1), "content", "typed access");
				ostringstream os; os << v.bv;
				ByteVector t(P{1, 2}, N); mc::check(t.size() == max(N, sizeof(P)) && t[0] == 1 && t[1] == 2, "content", "made of an object");
				break;
			}
		}
		cmp(vs[0], "buffer 0"); cmp(vs[1], "buffer 1");
	}
	mc::outcome(vs[0].r.len * 10 + vs[1].r.len);
}
