// What each scan mode visits
#include "common.h"
#include <cerrno>
#include <set>
#include <sstream>

static const char *const STATE = "beescrawl.dat";

// Blocks of extents read through user files, by address, generation of the extent and position in it
struct Seen { u64 a, gen, pos; bool operator<(const Seen &o) const { return std::tie(a, gen, pos) < std::tie(o.a, o.gen, o.pos); } };
static Map<Seen, unsigned> *seen;
static Map<u64, unsigned> *mapped;      // addresses looked up
static void watch_start()
{
	seen = static_cast<Map<Seen, unsigned> *>(arena_alloc(sizeof *seen));
	new (seen) Map<Seen, unsigned>();
	mapped = static_cast<Map<u64, unsigned> *>(arena_alloc(sizeof *mapped));
	new (mapped) Map<u64, unsigned>();
}
static void watch(const Call &c)
{
	if (!strcmp(c.name, "LOGICAL_INO")) { ++(*mapped)[c.off]; return; }
	if (strcmp(c.name, "pread") || c.home || c.root < 5 || !fs->roots.count(c.root) || !fs->roots[c.root].inodes.count(c.ino)) return;
	Inode &n = inode(c.root, c.ino);
	if (n.tmp) return;
	for (u64 p = c.off & ~u64(BLK - 1); p < c.off + c.len; p += BLK) {
		auto i = n.ext.upper_bound(p);
		if (i == n.ext.begin()) continue;
		--i;
		if (!i->second.ext || p >= i->first + i->second.num) continue;
		auto e = fs->exts.find(i->second.ext);
		if (e != fs->exts.end()) ++(*seen)[Seen{i->second.ext, e->second.gen, i->second.eoff + p - i->first}];
	}
}
// every data block of the file must have been read
static u64 must_have(u64 r, u64 i, u64 min_gen, const char *what, bool overwritten = false)
{
	u64 n = 0;
	Inode &f = inode(r, i);
	for (auto &x : f.ext) {
		if (!x.second.ext || x.second.type != F_REG) continue;
		const Ext &e = fs->exts[x.second.ext];
		if (e.gen < min_gen) continue;
		for (u64 p = 0; p < x.second.num; p += BLK) {
			if (x.first + p >= f.size) break;
			mc::compared();
			++n;
			if (seen->count(Seen{x.second.ext, e.gen, x.second.eoff + p})) continue;
			// Where references overlap in part, reading stops at a block that was already read
			// through another reference
			bool known = false;
			for (auto &y : refs(x.second.ext)) {
				auto has = [&](u64 b) { return b >= y.eoff && b < y.eoff + y.num; };
				if (has(x.second.eoff + p)) continue;
				for (u64 q = 0; q < p; q += BLK) known |= has(x.second.eoff + q) && seen->count(Seen{x.second.ext, e.gen, x.second.eoff + q});
			}
			// the overlap may be gone when the file was overwritten in part later
			if (overwritten && x.second.num < e.ram()) for (u64 q = 0; q < e.ram(); q += BLK) known |= seen->count(Seen{x.second.ext, e.gen, q}) > 0;
			if (!known) mc::fail("not-visited", string(what) + ": data at offset " + H(x.first + p) + " of inode " + S(i) + " in subvolume " + S(r) + " was never read (extent " + H(x.second.ext) + ", generation " + S(e.gen) + ")\n" + layout() + "state:\n" + home_read(STATE));
		}
	}
	return n;
}

static unsigned fresh;
static void data(u64 r, u64 i, u64 off, unsigned n, uint8_t comp = 0)
{
	vector<Bid> v;
	for (unsigned k = 0; k < n; ++k) v.push_back(pattern(++fresh));
	write_blocks(r, i, off, v, comp);
}
// what a file consists of
static const char *const kinds[] = {"one extent", "nothing", "inline", "three extents and two holes", "preallocated, then data", "data at 2 MB", "20 extents", "18 holes, then data", "compressed", "no checksums", "a directory instead", "no path"};
static void fill(u64 r, u64 i, unsigned k)
{
	switch (k) {
	case 0: data(r, i, 0, 1); break;
	case 1: break;
	case 2: map_inline(r, i, string(100, 'x')); break;
	case 3: data(r, i, 0, 2); data(r, i, 4 * BLK, 1); data(r, i, 9 * BLK, 2); break;
	case 4: map_extent(r, i, 0, new_extent({0, 0}), 0, 2 * BLK, F_PREALLOC); data(r, i, 2 * BLK, 1); break;
	case 5: data(r, i, 2 * MB, 1); break;
	case 6: for (unsigned e = 0; e < 20; ++e) data(r, i, e * BLK, 1); break;
	case 7: for (unsigned e = 0; e < 18; ++e) map_extent(r, i, e * BLK, 0, 0, BLK); data(r, i, 18 * BLK, 1); break;
	case 8: data(r, i, 0, 2, 1); break;
	case 9: data(r, i, 0, 2); inode(r, i).inode_flags |= 1; break;
	case 11: data(r, i, 0, 1); break;
	}
}
static string state_for(int mode, const vector<u64> &subvols, u64 min, u64 max)
{
	std::ostringstream s;
	vector<u64> roots = subvols;
	if (mode == 4) roots = {250, 251, 252, 253, 254, 255};
	for (u64 r : roots) s << "root " << r << " objectid 0 offset 0 min_transid " << min << " max_transid " << max << " started 1000 start_ts 1970-01-01-00-00-00\n";
	return s.str();
}

// --- every sequence of files, in up to two subvolumes and a snapshot, some of it from before the pass's transaction range ---
MC_SCENARIO(modes, FORK)
{
	reset();
	fs_options();
	Opt o;
	o.secs = u64(mc::param("secs", 60));
	fresh = 0;
	const unsigned n = unsigned(mc::param("files", 2)), nk = unsigned(mc::param("kinds", 12)), subs = unsigned(mc::param("subs", 1));
	const bool gens = mc::param("gens", 0), first = mc::param("gens", 0) == 2;   // first: nothing was saved before
	const unsigned snap = unsigned(mc::param("snap", 0)) ? mc::choose(3) : 0;
	vector<u64> subvols;
	for (unsigned k = 0; k < subs; ++k) { add_subvol(256 + k, k ? "sub2" : "sub"); subvols.push_back(256 + k); }
	struct File { u64 r, i; unsigned kind, when; };
	vector<File> files;
	string d;
	for (unsigned k = 0; k < n; ++k) {
		File f;
		f.r = 256 + mc::choose(subs);
		f.kind = mc::choose(nk);
		f.when = gens ? mc::choose(3) : 0;
		const string name = string("f") + char('0' + k);
		f.i = f.kind == 10 ? add_dir(f.r, name.c_str()) : add_file(f.r, name.c_str());
		static const char *const w[] = {"", " (old)", " (old and new)"};
		d += S(f.r) + "/" + name + ": " + kinds[f.kind] + w[f.when] + "; ";
		files.push_back(f);
	}
	for (auto &f : files) if (f.when) fill(f.r, f.i, f.kind);
	u64 min_gen = 0;
	if (gens) { age(); if (!first) min_gen = fs->cur; }
	for (auto &f : files) {
		if (!f.when) fill(f.r, f.i, f.kind);
		if (f.when == 2 && f.kind != 10) data(f.r, f.i, f.kind == 5 ? 5 * BLK : 30 * BLK, 1);
	}
	if (snap) { snapshot(256, 300, "snap", snap == 2); d += snap == 2 ? "read-only snapshot" : "snapshot"; if (snap == 1 && mc::param("snap", 0) > 1) { const u64 i = add_file(300, "own"); data(300, i, 0, 1); } }
	for (auto &f : files) if (f.kind == 11) unlink(f.r, 256, (string("f") + char('0' + (&f - &files[0]))).c_str());
	for (auto &f : files) if (f.kind == 11 && fs->roots[f.r].inodes.count(f.i)) inode(f.r, f.i).nlink = 0;
	commit();
	mc::log("%s", d.c_str());
	if (gens) { fs->changed = true; commit(); }
	// (other: saved by another scan mode)
	if (gens && !first) home_write(STATE, state_for(mc::param("other", 0) ? o.mode == 4 ? 0 : 4 : o.mode, subvols, min_gen, fs->committed));
	hash_file(1);
	const View before = view();
	watch_start();
	on_call = watch;
	run_daemon(mk_run(o));
	on_call = nullptr;
	check_view(before, view());
	u64 blocks = 0;
	for (auto &f : before) if (!(inode(f.first.first, f.first.second).inode_flags & 1)) blocks += must_have(f.first.first, f.first.second, min_gen, d.c_str());
	mc::outcome(S(blocks) + " " + S(seen->size()));
}

// --- an extent that another worker has when its turn comes ---
MC_SCENARIO(held, FORK)
{
	reset();
	fs_options();
	Opt o;
	o.threads = int(mc::param("threads", 2));
	o.secs = u64(mc::param("secs", 60));
	fresh = 0;
	add_subvol(256, "sub"); add_subvol(257, "sub2");
	const unsigned shape = mc::choose(4);
	const u64 f = add_file(256, "f");
	if (shape != 3) add_file(257, "spare");
	const u64 g = add_file(257, "g");
	fresh = 4;
	const u64 a = new_extent({pattern(1), pattern(2), pattern(3), pattern(4)});
	fresh = 4;
	switch (shape) {
	case 0: // different parts of one extent in two files
		map_extent(256, f, 0, a, 0, 2 * BLK); map_extent(257, g, 0, a, 2 * BLK, 2 * BLK); break;
	case 1: // with more after it
		map_extent(256, f, 0, a, 0, BLK); data(256, f, BLK, 1); map_extent(257, g, 0, a, 2 * BLK, BLK); data(257, g, BLK, 1); break;
	case 2: // with other extents before it
		map_extent(256, f, BLK, a, 0, BLK); map_extent(257, g, BLK, a, 3 * BLK, BLK); data(256, f, 0, 1); data(257, g, 0, 1); data(257, g, 2 * BLK, 1); break;
	case 3: // the same inode number
		map_extent(256, f, 0, a, 0, 2 * BLK); map_extent(257, g, 0, a, 2 * BLK, 2 * BLK); break;
	}
	if (mc::param("alone", 0)) mc::log("alone");
	commit();
	hash_file(1);
	const View before = view();
	watch_start();
	struct Readers { unsigned last = 0, former = 0; };
	auto readers = static_cast<Map<u64, Readers> *>(arena_alloc(sizeof(Map<u64, Readers>)));
	new (readers) Map<u64, Readers>();
	on_call = [&](Call &c) {
		watch(c);
		// no worker reads an extent while another one is scanning it (no data here is the same as other data)
		if (!strcmp(c.name, "pread") && !c.home && c.root >= 5 && fs->roots.count(c.root) && fs->roots[c.root].inodes.count(c.ino) && !inode(c.root, c.ino).tmp) {
			Inode &n = inode(c.root, c.ino);
			auto i = n.ext.upper_bound(c.off);
			if (i != n.ext.begin() && (--i, i->second.ext && c.off < i->first + i->second.num)) {
				Readers &r = (*readers)[i->second.ext];
				const unsigned t = mc::self() + 1;
				mc::compared();
				if (r.last != t) {
					if (r.former & (1u << t)) mc::fail("two-workers", "two workers read extent " + H(i->second.ext) + " at the same time");
					if (r.last) r.former |= 1u << r.last;
					r.last = t;
				}
			}
		}
		// a read takes a while
		if (mc::param("slow", 0) && !c.home && !strcmp(c.name, "pread") && mc::choose(2, mc::ENV)) mc::sleep_ns(u64(mc::param("slow", 0)) * 1000000ull);
	};
	run_daemon(mk_run(o));
	on_call = nullptr;
	check_view(before, view());
	u64 blocks = 0;
	for (auto &x : before) blocks += must_have(x.first.first, x.first.second, 0, "held extent");
	mc::outcome(S(blocks) + " " + S(seen->size()));
}

// --- extents of every size class, in every order, with every gap between them ---
MC_SCENARIO(tiers, FORK)
{
	reset();
	fs_options();
	Opt o;
	o.secs = u64(mc::param("secs", 60));
	fresh = 0;
	static const u64 all[] = {1, 32, 33, 128, 129, 512, 513, 2048, 2049, 8192, 8193};
	static const u64 few[] = {1, 33, 129, 513, 2049, 8193};
	const bool sizes_few = mc::param("few", 0);
	const unsigned n = unsigned(mc::param("extents", 2)), ns = sizes_few ? 6 : 11, gaps = unsigned(mc::param("gaps", 4));
	const bool gens = mc::param("gens", 0), first = mc::param("gens", 0) == 2;
	fs->chunks[4096 * MB] = Chunk{1024 * MB, BTRFS_BLOCK_GROUP_DATA};
	if (mc::param("mixed", 0)) fs->chunks[8192 * MB] = Chunk{256 * MB, BTRFS_BLOCK_GROUP_METADATA};
	add_subvol(256, "sub");
	const u64 ino = add_file(256, "f");
	u64 at = 16 * MB;
	string d;
	struct X { u64 size, at; bool old; };
	vector<X> xs;
	for (unsigned k = 0; k < n; ++k) {
		X x;
		x.size = (sizes_few ? few : all)[mc::choose(ns)];
		static const char *const gname[] = {"", " gap 4K,", " tree block,", " gap 4M,", " next block group,", " gap 100K,", " old extent of 8M,"};
		const unsigned g = mc::choose(gaps);
		d += string(gname[g]) + " " + S(x.size * 4) + "K";
		switch (g) {
		case 1: at += BLK; break;
		case 2: fs->metadata[at] = k % 2 ? 0 : 16384; at += 16384; break;
		case 3: at += 4 * MB; break;
		case 4: if (at < 4096 * MB) at = 4096 * MB; break;
		case 5: at += 100 << 10; break;
		case 6: xs.push_back(X{2048, at, true}); at += 8 * MB; break;
		}
		x.at = at;
		at += x.size * BLK;
		x.old = gens && mc::choose(2);
		if (x.old) d += " (old)";
		xs.push_back(x);
	}
	u64 off = 0, min_gen = 0;
	auto make = [&](const X &x) {
		vector<Bid> v(size_t(x.size), 0);
		const u64 b = x.size / 2;
		v[b] = pattern(++fresh);
		new_extent(v, 0, 0, x.at);
		map_extent(256, ino, off, x.at, b * BLK, BLK);
		off += 2 * BLK;
	};
	for (auto &x : xs) if (x.old) make(x);
	if (gens || gaps > 6) { age(); if (!first) min_gen = fs->cur; }
	for (auto &x : xs) if (!x.old) make(x);
	commit();
	mc::log("%s", d.c_str());
	if (min_gen) { fs->changed = true; commit(); }
	if (min_gen) home_write(STATE, state_for(o.mode, {256}, min_gen, fs->committed));
	hash_file(1);
	const View before = view();
	watch_start();
	on_call = watch;
	run_daemon(mk_run(o));
	on_call = nullptr;
	check_view(before, view());
	must_have(256, ino, min_gen, d.c_str());
	for (auto &x : xs) {
		const unsigned c = mapped->count(x.at) ? (*mapped)[x.at] : 0;
		mc::compared();
		if (x.old && !first) continue;
		if (!c) mc::fail("not-visited", d + ": extent " + H(x.at) + " of " + S(x.size * 4) + "K was not visited");
		if (c > 1) mc::fail("twice", d + ": extent " + H(x.at) + " of " + S(x.size * 4) + "K was visited " + S(c) + " times in a pass");
	}
	mc::outcome(d);
}

// --- extents referenced in different ways, some of which cannot be read ---
MC_SCENARIO(refs, FORK)
{
	reset();
	fs_options();
	Opt o;
	o.secs = u64(mc::param("secs", 60));
	fresh = 0;
	const unsigned n = unsigned(mc::param("extents", 2));
	add_subvol(256, "sub"); add_subvol(257, "sub2");
	static const char *const kname[] = {"one file", "two files", "two places", "overlapping places", "no path", "no path and a file", "file and no path", "I/O error", "I/O error and a file", "no checksums", "orphan", "two subvolumes", "last block of a truncated file", "three snapshots", "deleted while looked at"};
	std::set<Fid> nopath, eio, gone;
	std::set<Fid> want;
	string d;
	unsigned fn = 0;
	auto file = [&](u64 r) { const string s = string("f") + char('a' + fn++); return add_file(r, s.c_str()); };
	bool snaps = false;
	for (unsigned k = 0; k < n; ++k) {
		const unsigned kind = mc::choose(15);
		d += string(kname[kind]) + "; ";
		const u64 a = new_extent({pattern(2 * k + 1), pattern(2 * k + 2)});
		const u64 f = file(256);
		map_extent(256, f, 0, a, 0, 2 * BLK);
		switch (kind) {
		case 0: want.insert(Fid(256, f)); break;
		case 1: { const u64 g = file(256); map_extent(256, g, 4 * BLK, a, 0, 2 * BLK); want.insert(Fid(256, f)); want.insert(Fid(256, g)); break; }
		case 2: map_extent(256, f, 0, a, BLK, BLK); map_extent(256, f, BLK, 0, 0, BLK); map_extent(256, f, 2 * BLK, a, 0, BLK); want.insert(Fid(256, f)); break;
		case 3: map_extent(256, f, 2 * BLK, a, BLK, BLK); want.insert(Fid(256, f)); break;
		case 4: nopath.insert(Fid(256, f)); break;
		case 5: { nopath.insert(Fid(256, f)); const u64 g = file(256); map_extent(256, g, 0, a, 0, 2 * BLK); want.insert(Fid(256, g)); break; }
		case 6: { const u64 g = file(256); map_extent(256, g, 0, a, 0, 2 * BLK); nopath.insert(Fid(256, g)); want.insert(Fid(256, f)); break; }
		case 7: eio.insert(Fid(256, f)); break;
		case 8: { eio.insert(Fid(256, f)); const u64 g = file(256); map_extent(256, g, 0, a, 0, 2 * BLK); want.insert(Fid(256, g)); break; }
		case 9: inode(256, f).inode_flags |= 1; break;
		case 10: { const u64 g = file(256); map_extent(256, g, 0, a, 0, 2 * BLK); inode(256, f).nlink = 0; fs->roots[256].dents.erase({256, Str((string("f") + char('a' + fn - 2)).c_str())}); want.insert(Fid(256, g)); break; }
		case 11: { const u64 g = file(257); map_extent(257, g, 0, a, 0, BLK); want.insert(Fid(256, f)); want.insert(Fid(257, g)); break; }
		case 12: truncate(256, f, BLK + 100); want.insert(Fid(256, f)); break;
		case 13: snaps = true; want.insert(Fid(256, f)); break;
		case 14: gone.insert(Fid(256, f)); break;
		}
	}
	const u64 last = add_file(257, "zlast");
	fresh = 100;
	data(257, last, 0, 1);
	want.insert(Fid(257, last));
	if (snaps) { snapshot(256, 300, "s1"); snapshot(256, 301, "s2", true); snapshot(300, 302, "s3"); }
	commit();
	mc::log("%s", d.c_str());
	hash_file(1);
	watch_start();
	on_call = [&](Call &c) {
		watch(c);
		if (!strcmp(c.name, "INO_PATHS") && nopath.count(Fid(c.root, c.off))) c.err = ENOENT;
		if (!strcmp(c.name, "pread") && !c.home && eio.count(Fid(c.root, c.ino))) c.err = EIO;
		if (!strcmp(c.name, "INO_PATHS") && gone.count(Fid(c.root, c.off))) {
			for (auto &e : fs->roots[256].dents) if (e.second.ino == c.off) { const Str nm = e.first.second; unlink(256, 256, string(nm.c_str()).c_str()); break; }
		}
	};
	run_daemon(mk_run(o));
	on_call = nullptr;
	u64 blocks = 0;
	for (auto &w : want) blocks += must_have(w.first, w.second, 0, d.c_str());
	mc::outcome(d + S(blocks));
}

// --- things that happen during and between passes ---
MC_SCENARIO(passes, FORK)
{
	reset();
	fs_options();
	Opt o;
	o.secs = u64(mc::param("secs", 1500));
	fresh = 0;
	const unsigned nacts = unsigned(mc::param("acts", 10));
	add_subvol(256, "sub"); add_subvol(257, "sub2");
	const u64 f = add_file(256, "f"), g = add_file(256, "g"), h = add_file(257, "h");
	data(256, f, 0, 1); data(256, f, BLK, 1); data(256, g, 0, 2); data(257, h, 0, 1);
	commit();
	hash_file(1);
	watch_start();
	static u64 new_id, began, ro_until;
	began = 0; ro_until = 0;
	const bool send = mc::param("send", 0);
	if (send) o.extra = {"--workaround-btrfs-send"};
	static bool quiet, done257;
	new_id = 300; quiet = false; done257 = false;
	const unsigned times = unsigned(mc::param("times", 0));
	auto act = [&](unsigned a) {
		switch (a) {
		case 1: { mc::log("user: a new file"); const u64 i = add_file(256, ("new" + S(new_id++)).c_str()); data(256, i, 0, 1); break; }
		case 2: { mc::log("user: a new subvolume with a file"); const u64 r = new_id++; add_subvol(r, ("v" + S(r)).c_str()); const u64 i = add_file(r, "x"); data(r, i, 0, 1); break; }
		case 3: { mc::log("user: a snapshot with a change to it"); const u64 r = new_id++; snapshot(256, r, ("v" + S(r)).c_str()); if (fs->roots[r].inodes.count(g)) data(r, g, BLK, 1); break; }
		case 4: mc::log("user: new data in a file"); data(256, f, 0, 1); break;
		case 5: mc::log("user: the file replaced"); data(256, f, 0, 1); data(256, f, BLK, 1); data(256, g, 0, 2); collect(); break;
		case 6: mc::log("user: second subvolume deleted"); if (!done257) { done257 = true; delete_subvol(257); } break;
		case 7: mc::log("user: file extended"); data(256, g, 2 * BLK, 1); break;
		case 8: { mc::log("user: a new file, committed"); const u64 i = add_file(256, ("new" + S(new_id++)).c_str()); data(256, i, 0, 1); commit(); break; }
		case 9: { mc::log("user: three transactions, a file in each"); for (unsigned k = 0; k < 3; ++k) { const u64 i = add_file(256, ("new" + S(new_id++)).c_str()); data(256, i, 0, 1); commit(); } break; }
		case 10: { mc::log("user: read-only snapshot"); const u64 r = new_id++; data(256, g, 0, 1); snapshot(256, r, ("v" + S(r)).c_str(), true); break; }
		case 11: { mc::log("user: new data in a file and a new file, then the subvolume is read-only for five minutes"); data(256, f, 0, 1); const u64 i = add_file(256, ("new" + S(new_id++)).c_str()); data(256, i, 0, 1); commit(); root(256).ro = true; fs->changed = true; ro_until = mc::now_ns() + 300000000000ull; break; }
		}
	};
	Run r = mk_run(o);
	const u64 secs = o.secs;
	static unsigned between[4];
	for (unsigned k = 0; k < 4; ++k) between[k] = k < times ? mc::choose(nacts + 1) : 0;
	r.beside = [&, secs, times]() {
		for (unsigned k = 0; k < times; ++k) { mc::sleep_ns(u64(mc::param("gap", 100)) * 1000000000ull); act(between[k]); }
		mc::sleep_ns(secs * 1000000000ull);
		quiet = true;
	};
	on_call = [&](Call &c) {
		watch(c);
		if (ro_until && mc::now_ns() > ro_until) { mc::log("user: the subvolume is writable again"); ro_until = 0; root(256).ro = false; data(257, h, 0, 1); commit(); }
		if (quiet || times || (send && ro_until)) return;
		// only calls during the first minutes
		if (!began) began = mc::now_ns();
		if (mc::now_ns() > began + u64(mc::param("until", 120)) * 1000000000ull) return;
		if (!c.home && (!strcmp(c.name, "pread") || !strcmp(c.name, "TREE_SEARCH") || !strcmp(c.name, "LOGICAL_INO") || !strcmp(c.name, "INO_PATHS") || !strcmp(c.name, "openat2"))) { const unsigned a = send ? 11 * mc::choose(2, mc::ENV) : mc::choose(nacts + 1, mc::ENV); if (a) act(a); }
	};
	run_daemon(r);
	on_call = nullptr;
	u64 blocks = 0;
	for (auto &x : user_files()) blocks += must_have(x.first, x.second, 0, "after several passes", true);
	const string st = home_read(STATE);
	mc::compared();
	if (done257 && st.find("root 257 ") != string::npos) mc::fail("deleted-subvolume", "a deleted subvolume is still in the saved positions:\n" + st);
	mc::outcome(S(blocks) + st);
}
