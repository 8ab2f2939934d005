// Stops, crashes and restarts: what the saved scan position and hash table are worth
#include "common.h"
#include <sstream>

static const char *const STATE = "beescrawl.dat";
static const u64 SEC = 1000000000ull;

// A filesystem in which every extent has an equal; returns the number of blocks it should end up with
static u64 make_base(unsigned k)
{
	u64 ideal = 0;
	auto P = [](unsigned n) { return pattern(n); };
	switch (k) {
	case 0: {   // many extents in few files
		add_subvol(256, "sub");
		for (unsigned f = 0; f < 2; ++f) { const u64 i = add_file(256, f ? "g" : "f"); for (unsigned e = 0; e < 4; ++e) write_blocks(256, i, e * BLK, {P(1 + e)}); }
		ideal = 4; break; }
	case 1: {   // several files, two subvolumes
		add_subvol(256, "sub"); add_subvol(257, "sub2");
		static const unsigned c[2][3] = {{1, 2, 3}, {3, 1, 2}};
		for (unsigned r = 0; r < 2; ++r) for (unsigned f = 0; f < 3; ++f) { const u64 i = add_file(256 + r, f == 0 ? "a" : f == 1 ? "b" : "c"); write_blocks(256 + r, i, 0, {P(c[r][f])}); }
		ideal = 3; break; }
	case 2: {   // two sizes
		add_subvol(256, "sub");
		vector<Bid> big;
		for (unsigned b = 0; b < 33; ++b) big.push_back(P(10 + b));
		for (unsigned f = 0; f < 2; ++f) { const u64 i = add_file(256, f ? "g" : "f"); write_blocks(256, i, 0, {P(1), P(2)}); write_blocks(256, i, 2 * BLK, big); write_blocks(256, i, 35 * BLK, {P(3)}); }
		ideal = 36; break; }
	case 3: {   // duplicates within a file, and a snapshot
		add_subvol(256, "sub");
		const u64 i = add_file(256, "f");
		static const unsigned c[] = {1, 2, 1, 3, 2, 3};
		for (unsigned e = 0; e < 6; ++e) write_blocks(256, i, e * BLK, {P(c[e])});
		snapshot(256, 300, "snap");
		ideal = 3; break; }
	}
	age();
	return ideal;
}

static u64 table_at, table_len;
static bool watch(const Call &c)
{
	if (!strcmp(c.name, "madvise") && !table_at) { table_at = c.off; table_len = c.len; }
	return c.home || !strcmp(c.name, "TREE_SEARCH") || !strcmp(c.name, "LOGICAL_INO") || !strcmp(c.name, "INO_PATHS") || !strcmp(c.name, "SAME") || !strcmp(c.name, "pread") || !strcmp(c.name, "pwrite") || !strcmp(c.name, "openat") || !strcmp(c.name, "openat2") || !strcmp(c.name, "tmpfile");
}
static void keep_table() { if (table_at) home_write("beeshash.dat", string(reinterpret_cast<const char *>(table_at), table_len)); }
static bool is_name(const Str &s, const char *n) { return s == n; }
// the state file as it is when the daemon is killed now
static void killed()
{
	keep_table();
	phase_end();
}

// --- stop or crash at any call, then a second run: every duplicate must be gone after it ---
MC_SCENARIO(restart, FORK)
{
	reset();
	fs_options();
	const u64 ideal = make_base(mc::param("base", -1) >= 0 ? unsigned(mc::param("base", -1)) : mc::choose(4));
	hash_file(1);
	const View before = view();
	const unsigned kinds = unsigned(mc::param("kinds", 5));
	const bool combo = mc::param("combo", 0);
	table_at = table_len = 0;
	static bool slow, stopping;
	slow = stopping = false;
	Opt o;
	Run r = mk_run(o);
	const u64 secs = o.secs;
	r.beside = [secs]() { mc::sleep_ns(secs * SEC); if (slow) mc::sleep_ns(1100 * SEC); stopping = true; };
	r.max_stop_s = 3000;
	on_call = [&](Call &c) {
		if (!watch(c) || stopping) return;
		unsigned a;
		// one slow call anywhere, then a termination during a slow call on the daemon's own files
		if (combo) {
			if (!slow) a = mc::choose(2, mc::ENV) ? 4 : 0;
			else a = c.home && mc::choose(2, mc::ENV) ? 5 : 0;
		} else a = mc::choose(1 + kinds, mc::ENV);
		if (!a) return;
		const string at = string(c.name) + " #" + S(c.index);
		switch (a) {
		case 1: mc::log("SIGTERM at %s", at.c_str()); stopping = true; raise_signal(SIGTERM); break;
		case 2: mc::log("killed at %s", at.c_str()); killed(); break;
		case 3: mc::log("%s takes 1000 s, then killed", at.c_str()); slow = true; mc::sleep_ns(1000 * SEC); killed(); break;
		case 4: mc::log("%s takes 1000 s", at.c_str()); slow = true; mc::sleep_ns(1000 * SEC); break;
		case 5: mc::log("SIGTERM at %s, which takes 200 s", at.c_str()); stopping = true; raise_signal(SIGTERM); mc::sleep_ns(200 * SEC); break;
		}
	};
	run_daemon(r);
	const string mid = home_read(STATE);
	const bool first_done = used_by_user() == ideal * BLK;
	on_call = nullptr;
	mc::log("saved positions:\n%s", mid.c_str());
	check_view(before, view());
	Opt o2;
	o2.secs = u64(mc::param("secs2", 100));
	run_daemon(mk_run(o2));
	check_view(before, view());
	mc::compared();
	if (used_by_user() != ideal * BLK) mc::fail("duplicate-left", "duplicates from before the interruption are left after the second run: " + S(used_by_user() / BLK) + " blocks, expected " + S(ideal) + "\npositions saved by the first run:\n" + mid + "\n" + layout());
	mc::outcome(S(first_done) + mid);
}

// --- nothing that was finished before the last save is repeated ---
MC_SCENARIO(progress, FORK)
{
	reset();
	fs_options();
	Opt o;
	add_subvol(256, "sub"); add_subvol(257, "sub2");
	unsigned next = 1;
	auto ext = [&](u64 r, u64 i, u64 off, unsigned n) { vector<Bid> v; for (unsigned k = 0; k < n; ++k) v.push_back(pattern(next++)); write_blocks(r, i, off, v); };
	for (unsigned f = 0; f < 3; ++f) { const u64 i = add_file(256, f == 0 ? "a" : f == 1 ? "b" : "c"); ext(256, i, 0, 1); ext(256, i, BLK, 1); }
	for (unsigned f = 0; f < 2; ++f) { const u64 i = add_file(257, f == 0 ? "a" : "b"); ext(257, i, 0, 2); }
	if (mc::param("big", 1)) for (unsigned f = 0; f < 3; ++f) { const u64 i = add_file(257, f == 0 ? "c" : f == 1 ? "d" : "e"); ext(257, i, 0, 33); }
	age();
	hash_file(1);
	const View before = view();
	// reads in order
	struct Read { u64 root, ino, ext; };
	static Vec<Read> *reads;
	reads = static_cast<Vec<Read> *>(arena_alloc(sizeof *reads));
	new (reads) Vec<Read>();
	static u64 *cut;         // number of reads before the interruption
	cut = static_cast<u64 *>(arena_alloc(sizeof *cut));
	*cut = ~0ull;
	table_at = table_len = 0;
	static bool slow, stopping;
	slow = stopping = false;
	Run r = mk_run(o);
	const u64 secs = o.secs;
	r.beside = [secs]() { mc::sleep_ns(secs * SEC); if (slow) mc::sleep_ns(1100 * SEC); stopping = true; if (*cut == ~0ull) *cut = reads->size(); };
	r.max_stop_s = 3000;
	const unsigned kinds = unsigned(mc::param("kinds", 4));
	const bool pairs = mc::param("pairs", 0);
	on_call = [&](Call &c) {
		const bool w = watch(c);
		if (!strcmp(c.name, "pread") && !c.home && c.root >= 256) {
			auto &m = inode(c.root, c.ino).ext;
			auto i = m.upper_bound(c.off);
			if (i != m.begin()) { --i; reads->push_back({c.root, c.ino, i->second.ext}); }
		}
		if (!w || stopping) return;
		unsigned a;
		// one slow read, then a termination anywhere
		if (pairs) {
			if (!slow) a = !strcmp(c.name, "pread") && !c.home && mc::choose(2, mc::ENV) ? 4 : 0;
			else { a = mc::choose(3, mc::ENV); if (a == 2) a = 3; }
		} else a = mc::choose(1 + kinds, mc::ENV);
		if (!a) return;
		const string at = string(c.name) + " #" + S(c.index);
		if (a != 4) *cut = reads->size();
		switch (a) {
		case 1: mc::log("SIGTERM at %s", at.c_str()); stopping = true; raise_signal(SIGTERM); break;
		case 2: mc::log("%s takes 1000 s, then killed", at.c_str()); slow = true; mc::sleep_ns(1000 * SEC); killed(); break;
		case 3: mc::log("SIGTERM at %s, which takes 200 s", at.c_str()); stopping = true; raise_signal(SIGTERM); mc::sleep_ns(200 * SEC); break;
		case 4: mc::log("%s takes 1000 s", at.c_str()); slow = true; mc::sleep_ns(1000 * SEC); break;
		}
	};
	run_daemon(r);
	on_call = nullptr;
	vector<Read> first(reads->begin(), reads->end());
	if (*cut < first.size()) first.resize(*cut);
	const string saved = home_read(STATE);
	mc::log("%llu reads before the interruption; saved positions:\n%s", (unsigned long long)first.size(), saved.c_str());
	// finished: whole extents or files all of which was read, and something else after that
	const bool by_extent = o.mode == 4;
	auto unit = [&](const Read &x) { return by_extent ? x.ext : x.root << 32 | x.ino; };
	std::set<u64> finished;
	for (size_t k = 0; k + 1 < first.size(); ++k) if (unit(first[k]) != unit(first[k + 1])) finished.insert(unit(first[k]));
	reads->clear();
	on_call = [&](Call &c) {
		if (strcmp(c.name, "pread") || c.home || c.root < 256) return;
		auto &m = inode(c.root, c.ino).ext;
		auto i = m.upper_bound(c.off);
		if (i == m.begin()) return;
		--i;
		const Read x = {c.root, c.ino, i->second.ext};
		mc::compared();
		if (finished.count(unit(x))) mc::fail("repeated", string("work finished before the interruption was repeated after it: root ") + S(c.root) + " inode " + S(c.ino) + " offset " + H(c.off) + "\npositions saved by the first run:\n" + saved);
		reads->push_back(x);
	};
	run_daemon(mk_run(o));
	on_call = nullptr;
	check_view(before, view());
	mc::outcome(S(finished.size()) + " " + S(reads->size()) + saved);
}
