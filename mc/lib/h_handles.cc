// C20: NamedPtr, Fd and Pool under every interleaving and operation sequence.
#include "mc.h"
#include "crucible/error.h"
#include "crucible/fd.h"
#include "crucible/namedptr.h"
#include "crucible/pool.h"
#include "crucible/resource.h"
#include <atomic>
#include <cstdlib>
#include <memory>
#include <new>
#include <map>
#include <set>
#include <thread>
#include <vector>
#include <sys/syscall.h>
using namespace std;
using namespace crucible;

// --- live allocations, to see what a container keeps after its last user
static atomic<long> g_allocs{0};
#ifndef __SANITIZE_THREAD__            // the race detector has its own
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); ++g_allocs; return p; }
void operator delete(void *p) noexcept { if (p) { --g_allocs; free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { --g_allocs; free(p); } }
#endif

// --- descriptors are simulated so that closing one can be observed and the number reused
static const int FD0 = 1000;
static bool g_sim; static set<int> g_open; static map<int, int> g_users; static int g_closes;
extern "C" int close(int fd)
{
	if (!g_sim || fd < FD0) return int(syscall(SYS_close, fd));
	mc::log("[%u] close(%d)", mc::self(), fd);
	if (!g_open.count(fd)) mc::fail("double-close", "descriptor " + to_string(fd) + " is closed twice");
	if (auto u = g_users.find(fd); u != g_users.end() && u->second) mc::fail("closed-in-use", "descriptor " + to_string(fd) + " is closed while it has users");
	g_open.erase(fd); ++g_closes;
	mc::point();
	return 0;
}
static int sim_open()
{
	int fd = FD0; while (g_open.count(fd)) ++fd;
	g_open.insert(fd);
	mc::log("[%u] open gives %d", mc::self(), fd);
	return fd;
}

MC_SCENARIO(fds, THREADED)
{
	const int T = int(mc::param("threads", 2));
	g_sim = true;
	const unsigned kind = mc::choose(3);
	int opens = 0;
	Fd shared; int sfd = -1;
	if (kind) { sfd = sim_open(); ++opens; shared = Fd(sfd); }
	auto use = [&](int n) {
		if (!g_open.count(n)) mc::fail("use-after-close", "descriptor " + to_string(n) + " was closed while in use");
	};
	vector<Fd> copies; for (int t = 0; t < T; ++t) copies.push_back(shared);
	if (kind) g_users[sfd] = T + 1;
	vector<thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
		if (kind == 0 || kind == 2) {
			for (int i = 0; i < 2; ++i) {
				const int n = sim_open(); ++opens;
				++g_users[n];
				Fd a(n);
				if (int(a) != n) mc::fail("number", "handle has another number");
				use(n);
				Fd b = a;
				a = Fd();
				use(n);
				Fd c(n);                // the same descriptor by its number
				b = -1;
				use(n);
				--g_users[n];
				mc::log("[%u] drops last handle of %d", mc::self(), n);
			}
		}
		if (kind) {
			// last of several users on different threads
			Fd mine = copies[size_t(t)];
			copies[size_t(t)] = Fd();
			use(sfd); mc::point(); use(sfd);
			--g_users[sfd];
		}
	});
	if (kind) { --g_users[sfd]; shared = Fd(); }
	for (auto &t : th) t.join();
	mc::compared();
	if (!g_open.empty()) mc::fail("leak", to_string(g_open.size()) + " descriptors were not closed after their last user");
	if (g_closes != opens) mc::fail("close-count", to_string(opens) + " opened, " + to_string(g_closes) + " closed");
	g_sim = false;
}

// --- named objects
struct Obj { int key, serial; };
static int g_made, g_destroyed;
static map<int, int> g_live_users;          // key -> users
static map<int, Obj *> g_cur;               // object in use under a key
MC_SCENARIO(named, THREADED)
{
	const int T = int(mc::param("threads", 2)), N = int(mc::param("rounds", 2));
	g_made = g_destroyed = 0; g_live_users.clear(); g_cur.clear();
	bool fail_first = mc::flip();
	const unsigned pat = mc::choose(2);
	int threw = 0, fails = 0;
	map<int, int> computing;
	auto np = make_shared<NamedPtr<Obj, int>>([&](int k) -> shared_ptr<Obj> {
		if (computing[k]++) mc::fail("created-twice", "two objects of one name are created at once");
		mc::point();
		--computing[k];
		if (fail_first) { fail_first = false; ++fails; throw runtime_error("creation fails"); }
		if (g_live_users[k]) mc::fail("second-object", "a second object is created for a name in use");
		auto p = new Obj{k, ++g_made};
		return shared_ptr<Obj>(p, [](Obj *o) {
			mc::log("[%u] destroy %d/%d", mc::self(), o->key, o->serial);
			if (g_cur.count(o->key) && g_cur[o->key] == o && g_live_users[o->key]) mc::fail("destroyed-in-use", "an object is destroyed while in use");
			if (o->serial <= 0) mc::fail("double-destroy", "an object is destroyed twice");
			o->serial = -o->serial; ++g_destroyed;
			mc::point();
		});
	});
	vector<thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
		for (int i = 0; i < N; ++i) {
			const int k = pat ? (t + i) % 2 : 0;
			shared_ptr<Obj> p;
			try { p = (*np)(k); } catch (const runtime_error &) { ++threw; continue; }
			mc::log("[%u] has %d/%d", mc::self(), k, p->serial);
			mc::compared();
			if (p->key != k) mc::fail("wrong-object", "object of another name");
			if (p->serial <= 0) mc::fail("use-after-destroy", "a destroyed object was handed out");
			if (g_live_users[k] && g_cur[k] != p.get()) mc::fail("different-objects", "two users of one name have different objects");
			g_cur[k] = p.get(); ++g_live_users[k];
			mc::point();
			if (p->serial <= 0) mc::fail("use-after-destroy", "an object was destroyed while in use");
			--g_live_users[k];
		}
	});
	for (auto &t : th) t.join();
	mc::compared();
	if (threw != fails) mc::fail("failure", "a failed creation reached another caller or none");
	if (g_made != g_destroyed) mc::fail("leak", to_string(g_made) + " made, " + to_string(g_destroyed) + " destroyed");
	mc::outcome(uint64_t(g_made));
	// an object inserted under a name is what that name gives while it lives
	auto o = make_shared<Obj>(Obj{0, 77});
	auto i1 = np->insert(o, 0);
	if (i1.get() != o.get() || (*np)(0).get() != o.get()) mc::fail("insert", "an inserted object was not returned");
	// objects may outlive the container
	np.reset(); i1.reset();
	if (o.use_count() != 1) mc::fail("insert-leak", "reference not released");
}

// every sequence of get/copy/drop on two names, one thread
MC_SCENARIO(named_seq, INPROC)
{
	const int D = int(mc::param("depth", 7));
	int made = 0, gone = 0;
	struct O { int k, id; };
	NamedPtr<O, int> np([&](int k) { return shared_ptr<O>(new O{k, ++made}, [&](O *o) { ++gone; delete o; }); });
	vector<shared_ptr<O>> held;
	map<int, pair<int, int>> ref;       // name -> (id, users)
	for (int d = 0; d < D; ++d) {
		const unsigned c = mc::choose(unsigned(2 + 2 * held.size()));
		mc::step();
		if (c < 2) {
			auto p = np(int(c));
			mc::log("get %u -> #%d", c, p->id);
			auto &r = ref[int(c)];
			mc::compared();
			if (r.second) mc::check(p->id == r.first, "different-objects", "another object for a name in use");
			else { mc::check(p->id == made, "stale-object", "an object that had no users was handed out again"); r.first = p->id; }
			++r.second;
			held.push_back(p);
		} else {
			const size_t i = (c - 2) / 2;
			if ((c - 2) % 2) { mc::log("copy %d", held[i]->k); if (held.size() > 3) return; ++ref[held[i]->k].second; held.push_back(held[i]); }
			else { mc::log("drop %d", held[i]->k); --ref[held[i]->k].second; held.erase(held.begin() + long(i)); }
		}
		int live = 0; for (auto &r : ref) live += r.second.second > 0;
		mc::compared();
		mc::check(made - gone == live, "lifetime", to_string(made - gone) + " objects exist, " + to_string(live) + " in use");
		uint64_t h = uint64_t(d);
		for (auto &x : held) h = h * 5 + uint64_t(x->k) + 1;
		mc::outcome(h);
		if (mc::param("prune", 1) && mc::seen(h)) return;
	}
	held.clear();
	mc::check(made == gone, "leak");
}

// --- pool
struct PO { int id, users, cleaned, destroyed; };
MC_SCENARIO(pool, THREADED)
{
	const int T = int(mc::param("threads", 2)), N = int(mc::param("rounds", 2));
	vector<unique_ptr<PO>> all;
	int destroyed = 0;
	bool gen_fail = mc::flip(), in_fail = false, early = mc::flip();
	const bool clears = mc::flip();
	using P = Pool<PO>;
	auto pool = make_shared<P>([&]() -> shared_ptr<PO> {
			if (gen_fail) { gen_fail = false; throw runtime_error("cannot create"); }
			all.emplace_back(new PO{int(all.size()), 0, 1, 0});
			PO *p = all.back().get();
			return shared_ptr<PO>(p, [&destroyed](PO *o) {
				mc::log("[%u] destroy %d", mc::self(), o->id);
				if (o->destroyed++) mc::fail("double-destroy", "a pooled object is destroyed twice");
				if (o->users) mc::fail("destroyed-in-use", "a pooled object is destroyed while checked out");
				++destroyed;
			});
		}, [&](shared_ptr<PO> o) {
			mc::log("[%u] checkin %d", mc::self(), o->id);
			if (o->users) mc::fail("checkin-in-use", "an object is put back while in use");
			o->cleaned = 1;
			mc::point();
		});
	vector<thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t, pool]() mutable {
		for (int i = 0; i < N; ++i) {
			shared_ptr<PO> p;
			try { p = (*pool)(); } catch (const runtime_error &) { continue; }
			mc::log("[%u] has %d", mc::self(), p->id);
			mc::compared();
			if (p->destroyed) mc::fail("use-after-destroy", "a destroyed object was handed out");
			if (p->users++) mc::fail("shared", "one object is checked out twice");
			if (!p->cleaned) mc::fail("not-cleaned", "an object was reused without being cleaned");
			p->cleaned = 0;
			if (i + 1 == N) pool.reset();       // the pool may go away before the object
			mc::point();
			--p->users;
		}
	});
	if (clears) pool->clear();
	if (early) pool.reset();
	for (auto &t : th) t.join();
	pool.reset();
	mc::compared();
	for (auto &o : all) if (!o->destroyed) mc::fail("leak", "object " + to_string(o->id) + " was never destroyed");
	if (int(all.size()) > T + (clears ? T : 0)) mc::fail("not-reused", to_string(all.size()) + " objects made for " + to_string(T) + " users");
	mc::outcome(all.size());
}

// --- handles of numbered resources in general
struct Res {
	int key;
	Res(int k) : key(k) {}
	int get_key() const { return key; }
	~Res();
};
using RH = ResourceHandle<int, Res>;
static map<int, pair<Res *, int>> g_res;    // what the users of a number have, and how many they are
Res::~Res()
{
	auto u = g_res.find(key);
	if (u != g_res.end() && u->second.first == this && u->second.second) mc::fail("destroyed-in-use", "a resource is destroyed while in use");
	mc::point();
}
namespace crucible { template <> int ResourceTraits<int, Res>::get_null_key() const { return -1; } template <> bool ResourceTraits<int, Res>::is_null_key(const int &k) const { return k < 0; } }
MC_SCENARIO(resources, THREADED)
{
	const int T = int(mc::param("threads", 2)), N = int(mc::param("rounds", 2));
	g_res.clear();
	const unsigned pat = mc::choose(2);
	vector<thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
		for (int i = 0; i < N; ++i) {
			const int k = pat ? (t + i) % 2 : 0;
			RH h(k);
			auto r = h.get_resource_ptr();
			mc::compared();
			if (!r || r->key != k || int(h) != k) mc::fail("wrong-object", "resource of another number");
			auto &u = g_res[k];
			if (u.second && u.first != r.get()) mc::fail("different-objects", "two users of one number have different resources");
			u.first = r.get(); ++u.second;
			mc::point();
			RH h2 = h; h = RH();
			if (h2.get_resource_ptr() != r) mc::fail("copy", "the copy of a handle has another resource");
			--g_res[k].second;
			if (i == 0) r.reset();      // the handle goes last, or the resource itself
		}
	});
	for (auto &t : th) t.join();
	mc::compared();
	RH again(0);
	RH same(again.get_resource_ptr());
	if (same.get_resource_ptr() != again.get_resource_ptr()) mc::fail("copy", "a handle of a resource has another resource");
	// two different resources of one number are refused, wherever they lie in memory
	for (int i = 0; i < 4; ++i) {
		auto other = make_shared<Res>(0); auto spare = make_shared<Res>(0);
		for (auto &o : {other, spare}) {
			bool threw = false;
			try { RH dup(o); } catch (const RH::duplicate_resource &e) { threw = e.get_key() == 0; }
			if (!threw) mc::fail("duplicate", "a second resource of a number in use was accepted");
		}
		again = RH(); same = RH();
		again = RH(other); same = RH(other);
		if (again.get_resource_ptr() != other || int(same) != 0) mc::fail("replace", "a number without users does not take a new resource");
		RH byname(0);
		if (byname.get_resource_ptr() != other) mc::fail("replace", "a number does not lead to the resource given for it");
	}
}

// what is kept for a name goes away with its last user
MC_SCENARIO(footprint, INPROC)
{
	const unsigned what = mc::choose(5), n = 3 + mc::choose(4), order = mc::choose(3);
	long base = 0; bool first = true;
	int destroyed = 0, made = 0;
	auto measure = [&](const char *name) {
		mc::compared();
		if (first) { base = g_allocs; first = false; }
		else if (g_allocs > base) mc::fail("footprint", string(name) + ": " + to_string(g_allocs - base) + " more allocations are kept after all users are gone");
	};
	auto cycle = [&](function<shared_ptr<void>(int)> get) {
		for (int round = 0; round < 4; ++round) {
			{
				vector<shared_ptr<void>> held;
				for (unsigned i = 0; i < n; ++i) { held.push_back(get(int(round * 10 + int(i)) + 1)); if (order == 2) held.clear(); }
				if (order == 1) while (!held.empty()) held.erase(held.begin());
			}
			measure(what == 0 ? "named objects" : what == 1 ? "descriptors" : what == 2 ? "resources" : "pool");
		}
	};
	if (what == 0) {
		NamedPtr<Obj, int> np([&](int k) { return make_shared<Obj>(Obj{k, 1}); });
		cycle([&](int k) { return np(k); });
	} else if (what == 1) {
		g_sim = true;
		cycle([&](int k) { const int fd = FD0 + 100 + k; g_open.insert(fd); return make_shared<Fd>(fd); });
		g_sim = false;
		if (!g_open.empty()) mc::fail("leak", "descriptors were not closed after their last user");
	} else if (what == 2) {
		cycle([&](int k) { return make_shared<RH>(k); });
	} else {
		struct C { int &d; C(int &x) : d(x) {} ~C() { ++d; } };
		Pool<C> pool([&]() { ++made; return make_shared<C>(destroyed); });
		cycle([&](int) { if (what == 4) pool.clear(); return pool(); });
		pool.clear();
		mc::compared();
		if (made != destroyed) mc::fail("pool-clear", to_string(made - destroyed) + " idle objects are left after the pool was cleared");
	}
	mc::outcome(what * 100 + n * 10 + order);
}
