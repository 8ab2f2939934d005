// Whole-daemon runs over every small filesystem: contents, duplicates, space, zero blocks
#include "common.h"

// --- what a complete pass promises ---
typedef std::map<u64, u64> Exts;
static bool was(const Exts &before, u64 u) { auto i = before.find(u); return i != before.end() && i->second == fs->exts[u].gen; }
static bool all_zero(const Ext &e) { for (Bid b : e.blocks) if (b) return false; return true; }

// Which blocks of an extent the user can still reach, and how much of the last one
struct Reach { vector<char> block; unsigned tail = 0; bool nosum = false, ro = false; bool full() const { for (char c : block) if (!c) return false; return true; } };
static Reach reach(u64 ext)
{
	Reach r;
	r.block.assign(fs->exts[ext].blocks.size(), 0);
	for (auto &f : refs(ext)) {
		Inode &n = inode(f.root, f.ino);
		if (n.tmp) continue;
		for (u64 b = 0; b < f.num / BLK; ++b) r.block[f.eoff / BLK + b] = 1;
		if (n.size < f.off + f.num) r.tail = unsigned(n.size & (BLK - 1));
		r.nosum |= n.inode_flags & 1;
		r.ro |= root(f.root).ro;
	}
	return r;
}

// Two wholly reachable extents of the original filesystem with equal data: one of them is redundant
static void check_dups(const Exts &before)
{
	std::set<u64> used;
	for (u64 u : extents_of_user()) if (was(before, u)) used.insert(u);
	std::map<u64, Reach> rs;
	for (u64 u : used) rs[u] = reach(u);
	for (auto i = used.begin(); i != used.end(); ++i) for (auto j = std::next(i); j != used.end(); ++j) {
		const Ext &a = fs->exts[*i], &b = fs->exts[*j];
		const Reach &ra = rs[*i], &rb = rs[*j];
		if (ra.nosum || rb.nosum || !ra.full() || !rb.full() || ra.tail != rb.tail) continue;
		mc::compared();
		if (a.blocks == b.blocks && !all_zero(a)) mc::fail("duplicate-left", "two referenced extents hold the same data after the pass: " + H(*i) + " and " + H(*j) + "\n" + layout());
	}
}
// An extent of the original filesystem, every block of which was already stored in extents scanned
// before it that are still in use, must have been replaced (extents are scanned in address order)
static void check_contained(const Exts &before)
{
	std::set<Bid> seen;
	for (u64 u : extents_of_user()) {
		if (!was(before, u)) continue;
		const Reach r = reach(u);
		const Ext &e = fs->exts[u];
		if (r.nosum) continue;
		bool all = !r.tail && !all_zero(e);
		for (size_t b = 0; b < e.blocks.size(); ++b) if (r.block[b] && e.blocks[b] && !seen.count(e.blocks[b])) all = false;
		mc::compared();
		if (all) mc::fail("duplicate-left", "all data of extent " + H(u) + " is also in extents scanned before it, and it was not replaced\n" + layout());
		for (size_t b = 0; b < e.blocks.size(); ++b) if (r.block[b] && !(r.tail && b + 1 == e.blocks.size())) seen.insert(e.blocks[b]);
	}
}
static void check_zeros(const Exts &before)
{
	for (u64 u : extents_of_user()) {
		const Ext &e = fs->exts[u];
		const Reach r = reach(u);
		if (r.nosum || r.ro) continue;
		mc::compared();
		bool zero = true;
		for (size_t b = 0; b < e.blocks.size(); ++b) if (r.block[b] && e.blocks[b]) zero = false;
		if (zero) mc::fail("zeros-left", "extent " + H(u) + " holds only zeros and still takes space\n" + layout());
		if (!was(before, u)) for (Bid b : e.blocks) if (!b && !e.comp) mc::fail("zeros-copied", "extent " + H(u) + " was written with a block of zeros\n" + layout());
	}
}
typedef std::map<Fid, vector<std::pair<u64, FExt>>> Maps;
static Maps maps()
{
	Maps m;
	for (auto &f : user_files()) for (auto &e : inode(f.first, f.second).ext) m[f].push_back({e.first, e.second});
	return m;
}
// Files whose blocks occur nowhere else and are not zero keep their extents
static std::set<Fid> unique_files()
{
	std::map<Bid, unsigned> n;
	for (u64 u : extents_of_user()) for (Bid b : fs->exts[u].blocks) ++n[b];
	std::set<Fid> s;
	for (auto &f : user_files()) {
		bool u = true;
		for (auto &e : inode(f.first, f.second).ext) {
			if (e.second.type == F_PREALLOC) u = false;
			if (e.second.type == F_INLINE || !e.second.ext) continue;
			const Ext &x = fs->exts[e.second.ext];
			for (Bid b : x.blocks) if (!b || n[b] > 1) u = false;
			if (refs(e.second.ext).size() > 1) u = false;
		}
		if (u) s.insert(f);
	}
	return s;
}
static void check_space(u64 space, const std::set<Fid> &uniq, const Maps &before, const string &desc)
{
	const u64 now = used_by_user();
	mc::compared();
	if (now > space) mc::fail("space-grew", "user files used " + S(space / BLK) + " blocks before and " + S(now / BLK) + " after: " + desc + "\n" + layout());
	Maps after = maps();
	for (auto &f : uniq) {
		const auto &b = after[f];
		const auto at = before.find(f);
		if (at == before.end()) continue;
		const auto &a = at->second;
		bool same = a.size() == b.size();
		for (size_t i = 0; same && i < a.size(); ++i) same = a[i].first == b[i].first && a[i].second.ext == b[i].second.ext && a[i].second.eoff == b[i].second.eoff && a[i].second.num == b[i].second.num;
		mc::compared();
		if (!same) mc::fail("unique-rewritten", "file " + S(f.first) + ":" + S(f.second) + " has no duplicate or zero block, and its extents changed\n" + desc + "\n" + layout());
	}
}

// What was copied out of an extent is no more than what was freed by sharing or holes: extents with one reference
static void check_copies(const Exts &exts, const Maps &before, const string &desc)
{
	std::map<u64, unsigned> n;
	for (auto &f : before) for (auto &e : f.second) if (e.second.ext) ++n[e.second.ext];
	std::map<u64, unsigned> users;      // of each block, after the pass
	for (auto &f : maps()) for (auto &e : f.second) if (e.second.ext) for (u64 o = 0; o < e.second.num; o += BLK) ++users[e.second.ext + e.second.eoff + o];
	for (auto &f : before) for (auto &e : f.second) {
		const u64 u = e.second.ext;
		if (!u || n[u] != 1 || e.second.type == F_PREALLOC || e.second.type == F_INLINE) continue;
		u64 copied = 0, freed = 0;      // a copy that other files came to share counts for none of them
		auto &now = inode(f.first.first, f.first.second);
		for (u64 at = e.first; at < std::min(e.first + e.second.num, u64(now.size)); at += BLK) {
			const u64 bytes = std::min(u64(BLK), u64(now.size) - at);
			auto x = now.ext.upper_bound(at);
			u64 to = 0, block = 0;
			if (x != now.ext.begin()) { --x; if (at < x->first + x->second.num) { to = x->second.ext; block = to + x->second.eoff + at - x->first; } }
			if (to == u) continue;
			if (to && !was(exts, to) && users[block] == 1) copied += bytes; else freed += bytes;
		}
		mc::compared();
		if (copied > freed) mc::fail("copied-more", S(copied) + " bytes of extent " + H(u) + " were copied to free " + S(freed) + ": " + desc + "\n" + layout());
	}
}

MC_SCENARIO(layouts, FORK)
{
	reset();
	fs_options();
	hash_file();
	Opt o;
	const int prop = int(mc::param("prop", 1));
	Layout l;
	l.make();
	const View before = view();
	const u64 space = used_by_user();
	const Exts exts = stored_extents();
	const auto uniq = unique_files();
	const auto maps0 = maps();
	if (mc::param("refuse", 0)) on_call = [](Call &c) {
		// the kernel refuses to share with user files (not with copies), from some moment on
		static int how;
		if (strcmp(c.name, "SAME") || fs->roots[c.root].inodes[c.ino].tmp) return;
		if (!how) { how = int(mc::choose(4, mc::ENV)); if (how) mc::log("share requests fail from now on, %d", how); }
		if (how == 1) c.status = 1;
		if (how == 2) c.status = -EINVAL;
		if (how == 3) c.err = ENOSPC;
	};
	auto r = mk_run(o);
	r.after_exit = [&]() { if (fs->status != 0) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status))); };
	run_daemon(r);
	on_call = nullptr;
	mc::outcome(layout());
	mc::log("%s", layout().c_str());
	check_view(before, view());
	if (prop == 2) { check_dups(exts); if (o.mode == 4 && o.threads == 1) check_contained(exts); }
	if (prop == 3) { check_space(space, uniq, maps0, l.desc); check_copies(exts, maps0, l.desc); }
	if (prop == 4) check_zeros(exts);
}

// --- a user program changes the files at any moment ---
MC_SCENARIO(race, FORK)
{
	reset();
	fs_options();
	hash_file();
	Opt o;
	const unsigned k = mc::choose(n_shapes);
	const auto inos = make_shape(k);
	const u64 rid = !strcmp(shapes[k][2], "snapshot") ? 256 : 5;
	View v = view();
	const unsigned kinds = unsigned(mc::param("kinds", 10));
	unsigned done = 0;
	const unsigned max = unsigned(mc::param("acts", 1));
	const bool all = mc::param("all_calls", 0);
	on_call = [&](Call &c) {
		if (done >= max || c.home) return;
		// moments at which the daemon looks at or acts on files; any two calls in between see the same
		static const std::set<string> at = {"TREE_SEARCH", "LOGICAL_INO", "INO_PATHS", "openat", "openat2", "pread", "SAME", "fstat", "pwrite"};
		if (!all && !at.count(c.name)) return;
		if (!all && fs->dedupes.empty() && fs->opened.empty()) return;
		if (unsigned a = mc::choose(kinds + 1, mc::ENV)) { ++done; user_act(a, rid, inos, v); mc::log("  before %s", c.name); }
	};
	auto r = mk_run(o);
	r.after_exit = [&]() {
		on_call = nullptr;
		if (fs->status != 0) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status)));
		check_view(v, view());
		mc::outcome(layout());
	};
	run_daemon(r);
}

// --- every mix of answers to share requests ---
MC_SCENARIO(answers, FORK)
{
	reset();
	fs_options();
	hash_file();
	Opt o;
	const unsigned k = mc::choose(n_shapes);
	make_shape(k);
	const View v = view();
	on_call = [&](Call &c) {
		if (strcmp(c.name, "SAME")) return;
		switch (mc::choose(7, mc::ENV)) {
		case 1: c.status = 1; break;
		case 2: c.partial = int64_t(c.len > BLK ? BLK : 0); break;
		case 3: c.status = -EINVAL; break;
		case 4: c.err = ENOSPC; break;
		case 5: c.err = EINTR; break;
		case 6: c.status = -EAGAIN; break;
		}
	};
	auto r = mk_run(o);
	r.after_exit = [&]() {
		on_call = nullptr;
		if (fs->status != 0) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status)));
		check_view(v, view());
		mc::compared();
		mc::outcome(layout());
	};
	run_daemon(r);
}
