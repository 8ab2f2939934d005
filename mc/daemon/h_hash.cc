// The hash table: operation sequences, concurrent operations, and its file
#include "common.h"
#include <thread>
#include <list>

typedef BeesHashTable::Cell Cell;
typedef vector<u64> Addrs;
static const char *const FILE_NAME = "beeshash.dat";

static Addrs found(BeesHashTable &t, u64 h)
{
	Addrs v;
	for (auto &c : t.find_cell(h)) {
		if (c.e_hash != h) mc::fail("wrong-hash", "a lookup returned an entry of another hash");
		v.push_back(c.e_addr);
	}
	return v;
}
static string show(const Addrs &v)
{
	string s = S(v.size()) + " addresses:";
	for (size_t k = 0; k < v.size(); ++k) if (k < 6 || k + 4 > v.size()) s += " " + H(v[k]); else if (k == 6) s += " ...";
	return s;
}
// the generator state that makes the next random position p
static void aim(unsigned p)
{
	for (unsigned s = 1;; ++s) {
		std::default_random_engine e(s);
		if (std::uniform_int_distribution<size_t>(0, 255)(e) == p) { bees_generator.seed(s); return; }
		if (s > 200000) mc::error("no seed for a position");
	}
}
static bool has(const Addrs &v, u64 a) { return std::find(v.begin(), v.end(), a) != v.end(); }
static Addrs without(Addrs v, u64 a) { auto i = std::find(v.begin(), v.end(), a); if (i != v.end()) v.erase(i); return v; }

struct Table {
	std::shared_ptr<BeesContext> ctx;
	std::shared_ptr<BeesHashTable> t;
	Table()
	{
		*env = {{"BEESHOME", "/home"}};
		ctx = std::make_shared<BeesContext>();
		ctx->set_root_path("/mnt");
		ctx->roots();
		t = std::make_shared<BeesHashTable>(ctx, FILE_NAME);
	}
	void stop() { t->stop_request(); t->stop_wait(); }
};
static const unsigned BUCKETS = 32;
static const u64 PER = 256;
static void put_file(string &f, u64 h, u64 a)
{
	const u64 buckets = f.size() / 4096;
	for (u64 k = 0; k < PER; ++k) {
		char *p = &f[(h % buckets) * 4096 + k * 16];
		u64 c[2];
		memcpy(c, p, 16);
		if (!c[0] && !c[1]) { c[0] = h; c[1] = a; memcpy(p, c, 16); return; }
	}
}
// (cells in order of their bucket)
static Addrs file_addrs(const string &f, u64 h)
{
	Addrs v;
	const u64 buckets = f.size() / 4096;
	for (u64 k = 0; k < PER; ++k) { u64 c[2]; memcpy(c, &f[(h % buckets) * 4096 + k * 16], 16); if (c[0] == h && c[1]) v.push_back(c[1]); }
	return v;
}

// --- operation sequences ---
MC_SCENARIO(seq, FORK)
{
	const unsigned depth = unsigned(mc::param("depth", 2));
	const u64 h = 7, near = 7 + BUCKETS * 3, far = 9;   // same bucket, another bucket
	reset();
	hash_file(1);
	string f = home_read(FILE_NAME);
	static const unsigned fills[] = {0, 3, 254, 255, 256};
	const unsigned fill = fills[mc::choose(unsigned(mc::param("fills", 5)))];
	const bool other = mc::choose(2);    // the last two belong to another hash
	for (u64 k = 0; k < fill; ++k) put_file(f, other && k + 2 >= fill ? near : h, 0x10000 + k * 0x1000);
	put_file(f, far, 0x5000000);
	home_write(FILE_NAME, f);
	mc::log("%u pairs stored%s", fill, other ? ", the last two of another hash of the same bucket" : "");
	phase([&]() {
		mc::set_points_enabled(false);
		Table T;
		BeesHashTable &t = *T.t;
		for (unsigned d = 0; d < depth; ++d) {
			const Addrs B = found(t, h), Bn = found(t, near);
			Addrs cand = {0x9000000, 0x9001000};
			if (!B.empty()) { cand.push_back(B[0]); cand.push_back(B[B.size() / 2]); cand.push_back(B.back()); }
			const u64 a = cand[mc::choose(unsigned(cand.size()))];
			const unsigned op = mc::choose(9);
			const bool in = has(B, a), full = B.size() + Bn.size() >= PER;
			bool rv = false;
			static const unsigned pos[] = {0, 1, 2, 128, 254, 255};
			switch (op) {
			case 0: mc::log("front %#llx", (unsigned long long)a); rv = t.push_front_hash_addr(h, a); break;
			case 1: case 2: case 3: case 4: case 5: case 6: mc::log("anywhere (%u) %#llx", pos[op - 1], (unsigned long long)a); aim(pos[op - 1]); rv = t.push_random_hash_addr(h, a); break;
			case 7: mc::log("remove %#llx", (unsigned long long)a); t.erase_hash_addr(h, a); break;
			case 8: mc::log("remove %#llx of a hash that does not have it", (unsigned long long)a); t.erase_hash_addr(near, a); break;
			}
			const Addrs A = found(t, h), An = found(t, near);
			const string ba = "\nbefore: " + show(B) + "; " + show(Bn) + "\nafter: " + show(A) + "; " + show(An);
			mc::compared();
			std::set<u64> u(A.begin(), A.end());
			if (u.size() != A.size()) mc::fail("stored-twice", "the same pair is stored twice" + ba);
			if (op == 8) { if (A != B || An != Bn) mc::fail("remove-other", "removing a pair that is not there changed others" + ba); continue; }
			if (op == 7) { if (A != without(B, a) || An != Bn) mc::fail("remove", "removal did not remove exactly that pair" + ba); continue; }
			if (rv != in) mc::fail("return", string("storing reported the pair as ") + (rv ? "present" : "new") + ba);
			if (!has(A, a)) mc::fail("not-found", "a pair just stored is not found" + ba);
			if (op == 0 && A[0] != a) mc::fail("not-front", "a used pair did not move to the front" + ba);
			// nothing else changed, except that the last pair of a full bucket may be gone
			const Addrs rest = without(A, a), old = without(B, a);
			const bool same = rest == old && An == Bn;
			const bool lost_own = !old.empty() && An == Bn && rest == Addrs(old.begin(), old.end() - 1);
			const bool lost_near = !Bn.empty() && rest == old && An == Addrs(Bn.begin(), Bn.end() - 1);
			if (!same && (in || !full)) mc::fail("displaced", "storing changed other pairs although the bucket had room or had the pair already" + ba);
			if (!same && !lost_own && !lost_near) mc::fail("displaced-other", "storing in a full bucket changed more than its last pair" + ba);
			if (!in && full && same) mc::fail("overfull", "a full bucket took another pair without displacing one" + ba);
			if (in && op != 0) {
				const auto i = std::find(B.begin(), B.end(), a) - B.begin(), j = std::find(A.begin(), A.end(), a) - A.begin();
				if (j > i) mc::fail("moved-back", "storing a known pair moved it towards the end" + ba);
			}
			if (found(t, far) != Addrs{0x5000000}) mc::fail("other-bucket", "storing changed another bucket" + ba);
		}
		const Addrs A = found(t, h), An = found(t, near);
		T.stop();
		const string s = home_read(FILE_NAME);
		mc::compared();
		if (file_addrs(s, h) != A || file_addrs(s, near) != An || file_addrs(s, far) != Addrs{0x5000000}) mc::fail("file", "the file written at shutdown does not hold the table: file " + show(file_addrs(s, h)) + "; table " + show(A));
		string o; for (u64 a : A) o += S(a) + " ";
		mc::outcome(o);
	});
}

// --- what a table file holds is what the table holds, without the records of slow extents ---
MC_SCENARIO(load, FORK)
{
	const unsigned cells = unsigned(mc::param("cells", 4));
	const u64 h = 7, near = 7 + BUCKETS * 3, SLOW = 1 << 9, PARTIAL = 1 << 10, PACKED = (1 << 11) | 3;   // slow to look up, part of a block, fourth block of a compressed extent
	reset();
	hash_file(1);
	string f = home_read(FILE_NAME);
	// every order of some of these entries of one bucket
	const std::pair<u64, u64> menu[] = {{h, 0x10000}, {h, 0x10000 | SLOW}, {h, 0x11000}, {h, 0x11000 | SLOW}, {near, 0x10000}, {near, 0x12000 | SLOW | PACKED}, {h, 0x10000 | PARTIAL | SLOW}};
	const unsigned n = 1 + mc::choose(cells);
	unsigned used = 0;
	std::set<u64> want, want_near;
	const unsigned lead = mc::choose(2) ? 250 : 0;
	for (u64 k = 0; k < lead; ++k) { put_file(f, h, 0x100000 + k * 0x1000); want.insert(0x100000 + k * 0x1000); }
	for (unsigned d = 0; d < n; ++d) {
		vector<unsigned> left;
		for (unsigned k = 0; k < 7; ++k) if (!(used & 1u << k)) left.push_back(k);
		const unsigned k = left[mc::choose(unsigned(left.size()))];
		used |= 1u << k;
		put_file(f, menu[k].first, menu[k].second);
		mc::log("stored: hash %llu address %#llx%s", (unsigned long long)menu[k].first, (unsigned long long)(menu[k].second & ~SLOW), menu[k].second & SLOW ? " slow" : "");
		(menu[k].first == h ? want : want_near).insert(menu[k].second & ~SLOW);
	}
	home_write(FILE_NAME, f);
	phase([&]() {
		mc::set_points_enabled(false);
		Table T;
		const Addrs A = found(*T.t, h), An = found(*T.t, near);
		const std::set<u64> a(A.begin(), A.end()), an(An.begin(), An.end());
		mc::compared();
		if (a.size() != A.size() || an.size() != An.size()) mc::fail("stored-twice", "after loading the same pair is in the table twice: " + show(A) + "; " + show(An));
		for (u64 x : a) if (x & SLOW) mc::fail("slow-kept", "the record that " + H(x & ~SLOW) + " was slow outlived loading the table");
		for (u64 x : an) if (x & SLOW) mc::fail("slow-kept", "the record that " + H(x & ~SLOW) + " was slow outlived loading the table");
		if (a != want || an != want_near) mc::fail("load", "the table does not hold the pairs of its file: " + show(A) + "; " + show(An));
		T.stop();
		mc::outcome(show(A) + show(An));
	});
}

// --- threads using the table at the same time ---
struct TabOp { unsigned kind; u64 h, a; };
static void apply_op(BeesHashTable &t, const TabOp &o)
{
	switch (o.kind) {
	case 0: t.push_front_hash_addr(o.h, o.a); break;
	case 1: aim(unsigned(o.a / 4096) % 256); t.push_random_hash_addr(o.h, o.a); break;
	case 2: t.erase_hash_addr(o.h, o.a); break;
	case 3: t.find_cell(o.h); break;
	}
}
MC_SCENARIO(conc, FORK)
{
	const unsigned threads = unsigned(mc::param("threads", 2)), ops = unsigned(mc::param("ops", 2));
	reset();
	hash_file(2);
	string f = home_read(FILE_NAME);
	const u64 h1 = 7, h2 = 7 + 32;        // in different regions of the file
	put_file(f, h1, 0x10000);
	put_file(f, h2, 0x20000);
	home_write(FILE_NAME, f);
	std::vector<std::vector<TabOp>> prog(threads);
	string desc;
	for (unsigned th = 0; th < threads; ++th) for (unsigned k = 0; k < ops; ++k) {
		static const TabOp menu[] = {{0, h1, 0x10000}, {0, h1, 0x30000}, {1, h1, 0x31000}, {2, h1, 0x10000}, {2, h1, 0x30000}, {0, h2, 0x40000}};
		prog[th].push_back(menu[mc::choose(6)]);
		static const char *const n[] = {"front", "anywhere", "remove", "find"};
		desc += string(n[prog[th].back().kind]) + " " + S(prog[th].back().h) + ":" + H(prog[th].back().a) + (k + 1 == ops ? "; " : ", ");
	}
	mc::log("%s", desc.c_str());
	// every order of whole operations, as sets
	std::set<std::pair<std::set<u64>, std::set<u64>>> allowed;
	vector<unsigned> at(threads, 0);
	std::function<void(std::set<u64>, std::set<u64>)> all = [&](std::set<u64> a, std::set<u64> b) {
		bool end = true;
		for (unsigned th = 0; th < threads; ++th) if (at[th] < ops) {
			end = false;
			const TabOp o = prog[th][at[th]];
			auto a2 = a, b2 = b;
			auto &s = o.h == h1 ? a2 : b2;
			if (o.kind < 2) s.insert(o.a); else if (o.kind == 2) s.erase(o.a);
			++at[th];
			all(a2, b2);
			--at[th];
		}
		if (end) allowed.insert({a, b});
	};
	all({0x10000}, {0x20000});
	phase([&]() {
		const bool stop_points = mc::param("stop_points", 0);
		mc::set_points_enabled(false);
		Table T;
		mc::set_points_enabled(true);
		std::list<std::thread> th;
		for (unsigned k = 0; k < threads; ++k) th.emplace_back([&, k]() { for (auto &o : prog[k]) apply_op(*T.t, o); });
		for (auto &x : th) x.join();
		mc::set_points_enabled(false);
		const Addrs A = found(*T.t, h1), B = found(*T.t, h2);
		mc::compared();
		for (auto *v : {&A, &B}) if (std::set<u64>(v->begin(), v->end()).size() != v->size()) mc::fail("stored-twice", "the same pair is stored twice: " + show(*v));
		if (!allowed.count({std::set<u64>(A.begin(), A.end()), std::set<u64>(B.begin(), B.end())})) mc::fail("not-an-order", "no order of the operations leads to this table: " + show(A) + "; " + show(B));
		mc::set_points_enabled(stop_points);
		T.stop();
		const string s = home_read(FILE_NAME);
		mc::compared();
		if (file_addrs(s, h1) != A || file_addrs(s, h2) != B) mc::fail("lost-in-file", "after shutdown the file holds " + show(file_addrs(s, h1)) + "; " + show(file_addrs(s, h2)) + "\nthe table held " + show(A) + "; " + show(B));
		mc::outcome(s);
	});
}

// --- changes while the file is written, write errors, and stops ---
MC_SCENARIO(flush, FORK)
{
	reset();
	const unsigned regions = unsigned(mc::param("regions", 2));
	hash_file(regions);
	const unsigned maxops = unsigned(mc::param("ops", 3));
	const bool errors = mc::param("errors", 0);
	phase([&]() {
		mc::set_points_enabled(mc::param("points", 0));
		Table T;
		BeesHashTable &t = *T.t;
		u64 next = 0x100000;
		unsigned left = maxops;
		std::map<u64, std::set<u64>> want;
		auto change = [&](unsigned region) {
			const u64 h = region * 32 + 1;
			next += 0x1000;
			mc::log("store %u:%#llx", unsigned(h), (unsigned long long)next);
			t.push_front_hash_addr(h, next);
			want[h].insert(next);
		};
		bool stopping = false, failed = false;
		on_call = [&](Call &c) {
			if (strcmp(c.name, "pwrite") || !c.home) return;
			// (the region being written is not locked)
			if (left && !stopping) if (unsigned a = mc::choose(1 + regions, mc::ENV)) { --left; mc::log("while %#llx is written:", (unsigned long long)c.off); change(a - 1); }
			if (errors && !stopping) {
				const unsigned e = mc::choose(4, mc::ENV);
				if (e == 1) { c.err = EIO; failed = true; mc::log("write of %#llx fails", (unsigned long long)c.off); }
				if (e == 2) { c.err = ENOSPC; failed = true; mc::log("write of %#llx fails", (unsigned long long)c.off); }
				if (e == 3) { c.partial = 4096; mc::log("write of %#llx is short", (unsigned long long)c.off); }
			}
		};
		for (unsigned k = 0; k < unsigned(mc::param("rounds", 2)); ++k) {
			const unsigned a = mc::choose(regions + 1);
			for (unsigned r = 0; r < regions; ++r) if (a == r || a == regions) change(r);
			if (mc::choose(2)) mc::sleep_ns(20000000000ull);
		}
		stopping = true;
		T.stop();
		(void)failed;
		const string s = home_read(FILE_NAME);
		for (auto &w : want) {
			const Addrs v = file_addrs(s, w.first);
			mc::compared();
			for (u64 a : w.second) if (!has(v, a)) mc::fail("lost", "a pair stored before shutdown is not in the file: hash " + S(w.first) + " address " + H(a) + "\nfile: " + show(v));
		}
		mc::outcome(s);
	});
}

// --- crashes ---
// The table is changed and flushed, the daemon is killed or power is lost at any point of the
// sequence of writes, possibly inside one; the next start must find, in every bucket, a state that
// the bucket had (since its last flush, if only the daemon was killed).
static const u64 INTEREST[4] = {0, 32, 1, 33};
MC_SCENARIO(crash, FORK)
{
	reset();
	const bool fresh = mc::param("fresh", 0);
	const unsigned regions = fresh ? 1 : 2;
	if (!fresh) hash_file(regions);
	const unsigned n = fresh ? 2 : unsigned(mc::param("buckets", 3));
	static Vec<std::pair<u64, Vec<u64>>> *hist;
	static u64 *begun;
	hist = static_cast<decltype(hist)>(arena_alloc(4 * sizeof *hist));
	for (unsigned k = 0; k < 4; ++k) new (&hist[k]) Vec<std::pair<u64, Vec<u64>>>();
	begun = static_cast<u64 *>(arena_alloc(sizeof *begun));
	*begun = 0;
	for (unsigned k = 0; k < n; ++k) hist[k].push_back({0, Vec<u64>()});
	const unsigned rounds = unsigned(mc::param("rounds", 3));
	phase([&]() {
		mc::set_points_enabled(false);
		Table T;
		u64 next = 0x100000;
		auto change = [&](unsigned k) {
			next += 0x1000;
			T.t->push_front_hash_addr((fresh ? k : INTEREST[k]) + regions * 32 * 5, next);
			auto v = hist[k].back().second;
			v.insert(v.begin(), next);
			hist[k].push_back({*begun, v});
			mc::log("store in bucket %u: %#llx", unsigned(INTEREST[k]), (unsigned long long)next);
		};
		unsigned during = unsigned(mc::param("during", 1));
		on_call = [&](Call &c) {
			if (!c.home || strcmp(c.name, "pwrite")) return;
			++*begun;
			if (during) if (const unsigned a = mc::choose(1 + n, mc::ENV)) { --during; change(a - 1); }
		};
		for (unsigned r = 0; r < rounds; ++r) {
			const unsigned a = mc::choose(n + 1);
			if (a < n) change(a); else { change(0); change(n - 1); }
			if (mc::choose(2)) mc::sleep_ns(20000000000ull);
		}
		if (mc::choose(2)) mc::sleep_ns(20000000000ull); else T.stop();
		on_call = nullptr;
		phase_end();
	});
	// what is on disk
	vector<HomeOp> log(fs->hlog.begin(), fs->hlog.end());
	const bool power = mc::choose(2);
	const u64 at = mc::choose(unsigned(log.size() + 1));
	std::map<unsigned, string> data;
	std::map<string, unsigned> names;
	if (!fresh) { names[FILE_NAME] = fs->home[FILE_NAME]; data[names[FILE_NAME]] = string(regions * 131072, 0); }
	u64 writes = 0;
	// the contents of each bucket on disk may, after loss of power, be any that was written
	std::map<u64, u64> oldest;
	static const unsigned cuts[] = {0, 4096, 8192, 65536};
	for (u64 k = 0; k <= at && k < log.size(); ++k) {
		const HomeOp &o = log[k];
		const bool torn = k == at;
		if (torn && o.kind != 'w') break;
		switch (o.kind) {
		case 'c': names[string(o.name.c_str())] = o.id; data[o.id]; break;
		case 't': data[o.id].resize(o.off); break;
		case 'r': { const string a(o.name.c_str()), b(o.name2.c_str()); names[b] = names[a]; names.erase(a); break; }
		case 'u': names.erase(string(o.name.c_str())); break;
		case 'w': {
			if (!names.count(FILE_NAME) || o.id != names[FILE_NAME]) break;   // (statistics file)
			string &d = data[o.id];
			if (d.size() < o.off + o.len) mc::fail("grew", "a write beyond the end of the table file");
			u64 len = o.len;
			if (torn) len = std::min<u64>(len, cuts[mc::choose(4)]);
			for (u64 p = 0; p < len; p += 4096) {
				const bool interesting = (o.off + p) / 4096 % 32 < 2;
				if (power && interesting && mc::choose(2)) continue;
				memcpy(&d[o.off + p], o.data.data() + p, 4096);
				if (interesting) oldest[(o.off + p) / 4096] = writes + 1;
			}
			if (!torn) ++writes;
			break; }
		}
	}
	fs->home.clear();
	for (auto &x : names) home_write(x.first.c_str(), data[x.second]);
	mc::log("%s after %llu of %llu operations", power ? "power lost" : "killed", (unsigned long long)at, (unsigned long long)log.size());
	phase([&]() {
		mc::set_points_enabled(false);
		Table T;
		string o;
		for (unsigned k = 0; k < n; ++k) {
			const u64 h = (fresh ? k : INTEREST[k]) + regions * 32 * 5;
			const Addrs A = found(*T.t, h);
			mc::compared();
			bool ok = false;
			// the last state that the last complete write of this bucket holds
			for (size_t j = 0; j < hist[k].size(); ++j) {
				if (Addrs(hist[k][j].second.begin(), hist[k][j].second.end()) != A) continue;
				ok = true;
				(void)writes;
				if (!power) {
					// a write begun after the next state came about, and finished, would have it
					if (j + 1 < hist[k].size()) {
						u64 w = 0, b = hist[k][j + 1].first;
						for (u64 q = 0; q < at && q < log.size(); ++q) if (log[q].kind == 'w' && log[q].len == 131072) { ++w; if (w > b && log[q].off / 4096 / 32 == (fresh ? 0 : INTEREST[k] / 32)) mc::fail("stale", "bucket " + S(INTEREST[k]) + " holds " + show(A) + " although a later state had been written"); }
					}
				}
			}
			if (!ok) mc::fail("never-was", "after a restart bucket " + S(INTEREST[k]) + " holds " + show(A) + ", which it never held");
			o += S(A.size()) + " ";
		}
		// and it works
		T.t->push_front_hash_addr(9, 0x7000);
		T.stop();
		if (!has(file_addrs(home_read(FILE_NAME), 9), 0x7000)) mc::fail("unusable", "a change made after the restart did not reach the file");
		mc::outcome(o);
	});
}
