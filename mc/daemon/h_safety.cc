// What the daemon opens, trusts and leaves behind
#include "common.h"
#include <thread>
#include "bees.h"
#include <fcntl.h>

// --- opening files by subvolume and inode while names change ---
struct Names { u64 d, e, x, y, file, other; };
static Names make_names()
{
	Names n;
	n.d = add_dir(5, "d");
	add_subvol(256, "sub", 5, n.d);
	n.e = add_dir(256, "e");
	add_subvol(257, "inner", 256, n.e);
	n.x = add_dir(257, "x");
	n.y = add_dir(257, "y");
	n.file = add_file(257, "f", n.x);
	n.other = add_file(257, "f", n.y);
	write_blocks(257, n.file, 0, {pattern(1)});
	write_blocks(257, n.other, 0, {pattern(2)});
	// another subvolume of the same shape
	snapshot(257, 300, "s300");
	move_subvol(300, 256, n.e, "twin");
	commit();
	return n;
}
static bool rename_act(unsigned a, const Names &n)
{
	// true: the file can still be reached by name within this filesystem
	switch (a) {
	case 1: rename(257, n.x, "f", n.x, "g"); mc::log("user: file renamed"); return true;
	case 2: if (!root(257).inodes.count(n.file)) return false; link(257, n.y, "h", n.file); inode(257, n.file).nlink = 2; unlink(257, n.x, "f"); mc::log("user: file linked elsewhere, old name removed"); return true;
	case 3: rename(257, n.x, "f", n.x, "t"); rename(257, n.y, "f", n.x, "f"); rename(257, n.x, "t", n.y, "f"); mc::log("user: two files swapped names"); return true;
	case 4: unlink(257, n.x, "f"); mc::log("user: file deleted"); return false;
	case 5: rename(257, n.x, "f", n.y, "g"); add_symlink(257, "f", "../y/g", n.x); mc::log("user: file moved, symlink in its place"); return true;
	case 6: rename(257, 256, "x", 256, "z"); add_symlink(257, "x", "y", 256); mc::log("user: directory moved, symlink to another in its place"); return true;
	case 7: rename(257, 256, "x", 256, "z"); rename(257, 256, "y", 256, "x"); mc::log("user: directory replaced by another"); return true;
	case 8: rename(257, 256, "x", 256, "z"); add_symlink(257, "x", "/other/d/sub/e/inner/x", 256); mc::log("user: directory moved, symlink to a copy of the filesystem in its place"); return true;
	case 9: mount_over(257, n.x, "f", 257, n.file); mc::log("user: the file of a copy of the filesystem mounted over the file"); return false;
	case 10: mount_over(257, 256, "x", 257, n.x); mc::log("user: the directory of a copy mounted over the directory"); return false;
	case 11: mount_over(256, n.e, "inner", 257, 256); mc::log("user: the subvolume of a copy mounted over the subvolume"); return false;
	case 12: mount_over(5, n.d, "sub", 256, 256); mc::log("user: the parent subvolume of a copy mounted over it"); return false;
	case 13: mount_over(5, 256, "d", 5, n.d); mc::log("user: a directory of the top of a copy mounted over it"); return false;
	case 14: move_subvol(257, 256, 256, "moved"); mc::log("user: subvolume moved"); return true;
	case 15: move_subvol(300, 256, 256, "tmp"); move_subvol(257, 256, n.e, "twin"); move_subvol(300, 256, n.e, "inner"); mc::log("user: two subvolumes swapped names"); return true;
	case 16: delete_subvol(257); mc::log("user: subvolume deleted"); return false;
	case 17: rename(257, n.x, "f", n.x, "g"); link(257, n.x, "f", add_file(257, "fifo", 256, 010644)); mc::log("user: file replaced by a fifo"); return true;
	case 18: move_subvol(257, 256, 256, "moved"); add_symlink(256, "inner", "twin", n.e); mc::log("user: subvolume moved, symlink to another in its place"); return true;
	case 19: move_subvol(257, 256, 256, "moved"); add_symlink(256, "inner", "/other/d/sub/e/inner", n.e); mc::log("user: subvolume moved, symlink to a copy in its place"); return true;
	case 20: rename(5, 256, "d", 256, "q"); add_symlink(5, "d", "/other/d", 256); mc::log("user: directory above the subvolume moved, symlink to a copy in its place"); return true;
	}
	return true;
}
MC_SCENARIO(opens, FORK)
{
	reset();
	fs_options();
	fs->openat2 = mc::param("openat2", 1);
	const Names n = make_names();
	const bool nocow = mc::choose(2);
	if (nocow) { inode(257, n.file).iflags = FS_NOCOW_FL; inode(257, n.file).inode_flags |= 3; }
	const unsigned acts = unsigned(mc::param("acts", 20));
	phase([&]() {
		*env = {{"BEESHOME", "/home"}};
		auto ctx = make_shared<BeesContext>();
		ctx->set_root_path("/mnt");
		auto roots = ctx->roots();
		ctx->fd_cache();
		const auto base = open_fds().size();
		bool reachable = true; unsigned nacts = 0;
		on_call = [&](Call &c) { if (unsigned a = mc::choose(acts + 1, mc::ENV)) { ++nacts; mc::log("before %s:", c.name); reachable &= rename_act(a, n); } };
		auto check = [&](u64 root, u64 ino, const char *when) -> bool {
			Fd fd;
			try { fd = roots->open_root_ino(root, ino); } catch (const std::exception &e) { mc::log("open %s: %s", when, e.what()); return false; }
			mc::compared();
			if (!fd) return false;
			const FdInfo f = fd_info(fd);
			mc::log("open %s: root %u ino %u%s", when, unsigned(f.root), unsigned(f.ino), f.foreign ? " on another filesystem" : "");
			if (!f.open) mc::fail("wrong-file", string(when) + ": the descriptor is not open");
			if (f.foreign) mc::fail("wrong-file", string(when) + ": a file of another filesystem was opened");
			if (f.root != root || f.ino != ino) mc::fail("wrong-file", string(when) + ": opened root " + S(f.root) + " ino " + S(f.ino) + " instead of " + S(root) + ":" + S(ino));
			if ((f.flags & O_ACCMODE) != O_RDONLY) mc::fail("open-mode", string(when) + ": opened for writing");
			if (nocow) mc::fail("nocow-opened", string(when) + ": a no-copy-on-write file was opened");
			return true;
		};
		const bool a = check(257, n.file, "first");
		const bool b = check(257, n.file, "again");
		if (mc::param("others", 0)) { try { Fd t = roots->open_root_ino(300, n.other); if (!!t && (fd_info(t).root != 300 || fd_info(t).ino != n.other || fd_info(t).foreign)) mc::fail("wrong-file", "opened another file than the one of the twin"); } catch (const std::exception &) {} }
		on_call = nullptr;
		ctx->fd_cache()->clear();
		const auto left = open_fds();
		mc::compared();
		if (left.size() != base) { string s; for (auto &x : left) s += " " + x; mc::fail("descriptor-leak", "still open after the cache was cleared:" + s); }
		const bool c = check(257, n.file, "after the cache was cleared");
		if (nacts <= 1 && reachable && !nocow && !c) mc::fail("not-opened", "the file exists in a plain place and could not be opened");
		mc::outcome(u64(a) + 2 * u64(b) + 4 * u64(c));
	});
}

// --- temporary files ---
static string tmp_bytes(u64 root_id, u64 ino, u64 off, u64 len)
{
	string s = read_file(root_id, ino);
	s.resize(std::max<u64>(s.size(), off + len), 0);
	return s.substr(off, len);
}
// Watches the use of temporary files from the calls made on them
struct TmpWatch {
	std::map<u64, unsigned> owner;      // inode -> thread using it, ~0: unknown
	std::set<u64> seen;
	u64 shares = 0, copies = 0;
	bool user_acted = false;
	u64 max_size = 0;
	static bool is_tmp(u64 r, u64 i) { if (!r || !fs->roots.count(r)) return false; auto &m = root(r).inodes; auto k = m.find(i); return k != m.end() && k->second.tmp; }
	void operator()(Call &c)
	{
		const unsigned me = mc::self();
		if (!strcmp(c.name, "SAME")) {
			// (the target is checked when the request is made)
			if (!is_tmp(c.root, c.ino)) return;
			++shares;
			auto o = owner.find(c.ino);
			mc::compared();
			if (o != owner.end() && o->second != ~0u && o->second != me) mc::fail("tmp-borrowed", "thread " + S(me) + " uses the temporary file of thread " + S(o->second) + " as a source");
			if (c.off < BLK) mc::fail("tmp-first-block", "the first block of a temporary file was used as a source");
			return;
		}
		if (!is_tmp(c.root, c.ino)) return;
		if (!strcmp(c.name, "close")) { owner.erase(c.ino); return; }
		if (strcmp(c.name, "pwrite") && strcmp(c.name, "ftruncate")) return;
		max_size = std::max(max_size, c.off + c.len);
		if (!strcmp(c.name, "ftruncate") && c.off <= BLK) { owner.erase(c.ino); return; }
		if (!strcmp(c.name, "pwrite")) ++copies;
		auto o = owner.emplace(c.ino, me).first;
		mc::compared();
		if (o->second != ~0u && o->second != me) mc::fail("tmp-shared", "threads " + S(o->second) + " and " + S(me) + " use the same temporary file at once");
	}
	void unknown(u64 ino) { owner[ino] = ~0u; }
};
MC_SCENARIO(tmpfiles, FORK)
{
	reset();
	fs_options();
	hash_file();
	Opt o;
	const bool errors = mc::param("errors", 0);
	const unsigned pairs = unsigned(mc::param("pairs", 1));
	View v;
	if (pairs > 1) {
		// several files whose extents all need copying, so that workers copy at the same time
		for (unsigned f = 0; f < pairs; ++f) { const u64 i = add_file(5, (string("a") + char('0' + f)).c_str()); write_blocks(5, i, 0, {pattern(10 * f + 1), pattern(10 * f + 2), pattern(10 * f + 3)}); }
		for (unsigned f = 0; f < pairs; ++f) { const u64 i = add_file(5, (string("b") + char('0' + f)).c_str()); write_blocks(5, i, 0, {pattern(10 * f + 1), pattern(10 * f + 2), pattern(10 * f + 5)}); }
		commit();
	} else make_shape(mc::choose(n_shapes));
	v = view();
	TmpWatch w;
	string what;
	unsigned faults = 0;
	size_t checked = 0;
	on_call = [&](Call &c) {
		// what has been requested since the last call
		for (; checked < fs->dedupes.size(); ++checked) {
			const Dedupe &d = fs->dedupes[checked];
			mc::compared();
			if (TmpWatch::is_tmp(d.droot, d.dino)) mc::fail("tmp-as-target", "a temporary file was the target of a share request");
			if (TmpWatch::is_tmp(d.sroot, d.sino) && d.status == 1) mc::fail("bad-copy", "a temporary file used as a source does not hold the data it was copied from: offset " + H(d.soff) + " length " + H(d.len) + ", after: " + what + "\n" + layout());
		}
		w(c);
		if (!errors) return;
		const bool tmp = TmpWatch::is_tmp(c.root, c.ino);
		if (!tmp && strcmp(c.name, "tmpfile") && strcmp(c.name, "pread") && strcmp(c.name, "SAME")) return;
		if (c.home) return;
		const bool part = !strcmp(c.name, "pwrite") || !strcmp(c.name, "pread");
		const unsigned a = mc::choose(part ? 4 : 3, mc::ENV);
		if (!a) return;
		++faults;
		what = string(c.name) + " at " + H(c.off);
		if (a == 1) c.err = EIO;
		if (a == 2) c.err = part ? EINTR : ENOSPC;
		if (a == 3) c.partial = int64_t(c.len / 2);
		if (tmp) w.unknown(c.ino);
	};
	Run r = mk_run(o);
	r.after_exit = [&]() {
		on_call = nullptr;
		check_view(v, view());
		if (!faults && fs->status) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status)));
		// idle since long: nothing is kept in temporary files
		unsigned n = 0;
		for (auto &rt : fs->roots) for (auto &i : rt.second.inodes) if (i.second.tmp) {
			++n;
			mc::compared();
			if (faults <= (errors ? 0 : 99) && (i.second.size > BLK || !i.second.ext.empty() || !i.second.dirty.empty())) mc::fail("tmp-space", "a temporary file still holds data after the pass\n" + layout());
		}
		if (n > unsigned(o.threads)) mc::fail("tmp-count", S(n) + " temporary files exist for " + S(u64(o.threads)) + " workers");
		mc::outcome(layout());
	};
	run_daemon(r);
}

// --- hash table files with anything in them ---
struct Target { u64 hash; Bid b; size_t len; u64 addr; u64 ext; unsigned blk; u64 ino; };
// every non-zero block of the files, first occurrence of each hash
static vector<Target> targets()
{
	vector<Target> v;
	std::set<u64> seen;
	for (auto &f : user_files()) {
		Inode &n = inode(f.first, f.second);
		for (auto &x : n.ext) {
			const FExt &e = x.second;
			if (e.type != F_REG || !e.ext) continue;
			for (u64 o = 0; o < e.num; o += BLK) {
				if (x.first + o >= n.size) break;
				const size_t len = std::min<u64>(BLK, n.size - x.first - o);
				const Bid b = fs->exts[e.ext].blocks[(e.eoff + o) / BLK];
				if (!b) continue;
				const u64 h = BeesHash(content(b), len);
				if (seen.insert(h).second) v.push_back(Target{h, b, len, e.ext + (fs->exts[e.ext].comp ? 0 : e.eoff + o), e.ext, unsigned((e.eoff + o) / BLK), f.second});
			}
		}
	}
	return v;
}
static const u64 TOXIC = 1 << 9, EOFBIT = 1 << 10, COMP = 1 << 11;
static const char *const junk_kinds[] = {"freed", "no such address", "highest address", "another block", "another block, not the first of its extent", "another block, misaligned", "another block marked compressed",
	"another block marked compressed with an offset", "another block marked compressed with a large offset", "another block marked as end of file", "another block marked toxic", "metadata", "metadata marked compressed",
	"special address", "another address of the same block", "preallocated", "odd size bits", "the same block marked as end of file", "the same block marked compressed", "the same block misaligned"};
const unsigned n_junk = sizeof junk_kinds / sizeof *junk_kinds;
struct Junk { u64 freed, meta, decoy, prealloc; };
static Junk junk_base(unsigned shape)
{
	// something that was freed, something odd, and two blocks nothing else equals
	Junk j;
	const u64 d0 = add_file(5, "gone");
	write_blocks(5, d0, 0, {pattern(23), pattern(24)});
	j.freed = inode(5, d0).ext.begin()->second.ext;
	commit();
	make_shape(shape);
	const u64 d1 = add_file(5, "decoy");
	write_blocks(5, d1, 0, {pattern(25), pattern(26)});
	j.decoy = inode(5, d1).ext.begin()->second.ext;
	const u64 d2 = add_file(5, "space");
	j.prealloc = new_extent({0, 0});
	map_extent(5, d2, 0, j.prealloc, 0, 2 * BLK, F_PREALLOC);
	j.meta = fs->metadata.empty() ? 0x10000 : fs->metadata.begin()->first;
	unlink(5, 256, "gone");
	commit();
	collect();
	return j;
}
static u64 junk_addr(unsigned kind, const Junk &j, const Target &t, const vector<Target> &all)
{
	auto other = [&]() -> u64 { for (auto &o : all) if (o.hash != t.hash && o.ext != t.ext) return o.addr; return j.decoy; };
	switch (kind) {
	case 0: return j.freed + BLK;
	case 1: return 1ull << 50;
	case 2: return ~0xfffull;
	case 3: return other();
	case 4: return j.decoy + BLK;
	case 5: return (j.decoy + BLK) | 5;
	case 6: return j.decoy | COMP;
	case 7: return j.decoy | COMP | 2;
	case 8: return j.decoy | COMP | 63;
	case 9: return (j.decoy + BLK) | EOFBIT;
	case 10: return (j.decoy + BLK) | TOXIC;
	case 11: return j.meta;
	case 12: return j.meta | COMP | 1;
	case 13: { static const u64 m[] = {1, 2, 3, 4, 0xfff}; return m[mc::choose(5)]; }
	case 14: {  // another copy of the same content, if there is one
		for (auto &f : user_files()) for (auto &x : inode(f.first, f.second).ext) if (x.second.type == F_REG && x.second.ext && x.second.ext != t.ext) {
			const Ext &e = fs->exts[x.second.ext];
			for (unsigned k = 0; k < e.blocks.size(); ++k) if (e.blocks[k] == t.b && !e.comp) return x.second.ext + k * BLK;
		}
		return j.decoy; }
	case 15: return j.prealloc;
	case 16: return (j.decoy + BLK) | 0x1c0;
	case 17: return t.addr | EOFBIT;
	case 18: return t.addr | COMP | 1;
	case 19: return t.addr | 3;
	}
	return 0;
}
MC_SCENARIO(junk, FORK)
{
	const unsigned n = unsigned(mc::param("entries", 1)), shape = mc::choose(n_shapes), fill = unsigned(mc::param("fill", 0));
	Opt o;
	// without a table
	reset(); fs_options(); hash_file();
	const u64 filesize = home_read("beeshash.dat").size();
	junk_base(shape);
	run_daemon(mk_run(o));
	const u64 fresh = used_by_user();
	// with one
	reset(); fs_options();
	const Junk j = junk_base(shape);
	const auto t = targets();
	typedef std::pair<u64, u64> Cell;
	vector<Cell> cells;
	string table(filesize, '\0');
	const unsigned buckets = unsigned(filesize / 4096);
	std::map<u64, unsigned> used;
	bool own = false;
	auto put = [&](u64 h, u64 a) {
		Cell c(h, a);
		unsigned &k = used[h % buckets];
		if (k < 256) memcpy(&table[(h % buckets) * 4096 + 16 * k++], &c, 16);
		cells.push_back(c);
	};
	for (unsigned i = 0; i < n; ++i) {
		const Target &x = t[mc::choose(unsigned(t.size()))];
		static const unsigned few[] = {0, 3, 4, 7, 9, 10};
		const unsigned kind = mc::param("few", 0) ? few[mc::choose(6)] : mc::choose(n_junk);
		const u64 a = junk_addr(kind, j, x, t);
		mc::log("entry for the hash of block %u of inode %u: %s %#llx", x.blk, unsigned(x.ino), junk_kinds[kind], (unsigned long long)a);
		if (kind >= 17 || kind == 14) own = true;   // says that the extent it names was scanned already
		if (a == x.addr) own = true;
		put(x.hash, a);
		if (fill == 1) for (unsigned k = 1; k < 256; ++k) put(x.hash, (1ull << 50) + (1 + k) * BLK);   // a full bucket
		if (fill == 2) for (unsigned k = 1; k < 256; ++k) put(x.hash + u64(k) * buckets, a + k * BLK);     // a full bucket of others
	}
	if (fill == 3) { static const int pat[] = {0xff, 0x55, 1}; const int c = pat[mc::choose(3)]; table.assign(filesize, char(c)); mc::log("table filled with %#x", c); }
	if (fill == 4) { table.clear(); for (u64 k = 0; k < filesize / 16; ++k) { Cell c(k * buckets + k / 256, ((k * 0x9e3779b97f4a7c15ull) >> 20)); table.append(reinterpret_cast<char *>(&c), 16); } mc::log("table filled with disorder"); }
	home_write("beeshash.dat", table);
	const View v = view();
	Run r = mk_run(o);
	r.after_exit = [&]() {
		check_view(v, view());
		mc::compared();
		if (fs->status) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status)));
		if (!own && used_by_user() > fresh) mc::fail("less-dedupe", "user files use " + H(used_by_user()) + " bytes after the pass, " + H(fresh) + " with an empty table\n" + layout());
		const string s = home_read("beeshash.dat");
		if (s.size() != filesize) mc::fail("table-size", "the table file has " + S(s.size()) + " bytes");
		// entries that were looked up and name something else are gone
		for (auto &c : cells) {
			const u64 phys = c.second & ~0xfffull;
			if (std::count_if(cells.begin(), cells.end(), [&](const Cell &d) { return (d.second & ~0xfffull) == phys; }) > 1) continue;   // not known which one was looked up
			if ((c.second & 0x1c0) || !(c.second & COMP) != !(c.second & 0x3f)) continue;   // not an address at all
			bool asked = false;
			for (auto &l : fs->logical_inos) if (l.first == phys) asked = true;
			if (!asked || (phys != (j.decoy + BLK) && phys != j.freed + BLK && phys != 1ull << 50 && phys != (~0xfffull))) continue;
			for (size_t k = 0; k + 16 <= s.size(); k += 16) { Cell d; memcpy(&d, &s[k], 16); mc::compared(); if (d == c) mc::fail("stale-entry-kept", "the entry hash " + H(c.first) + " address " + H(c.second) + " was looked up, does not match, and is still in the table"); }
		}
		mc::outcome(layout());
	};
	run_daemon(r);
}

// --- extents that take long to look up, or have very many references ---
MC_SCENARIO(toxic, FORK)
{
	reset();
	fs_options();
	hash_file();
	Opt o;
	// pairs of equal files, the second of each in extents of its own
	static const char *const pair[][2] = {{"A", "A"}, {"BC", "BC"}, {"D", "DE"}, {"FG", "F"}};
	const unsigned np = unsigned(mc::param("pairs", 3));
	vector<u64> first, second;
	auto make = [&](const char *name, unsigned k, const char *s) { const u64 i = add_file(5, (string(name) + char('0' + k)).c_str()); vector<Bid> v; for (; *s; ++s) v.push_back(pattern(unsigned(*s - 'A') + 1)); write_blocks(5, i, 0, v); return i; };
	for (unsigned k = 0; k < np; ++k) first.push_back(make("a", k, pair[k][0]));
	for (unsigned k = 0; k < np; ++k) second.push_back(make("b", k, pair[k][1]));
	commit();
	const View v = view();
	struct Slow { u64 addr; u64 ns; };
	vector<Slow> slow;
	bool copied = false;        // the next lookup is of the extent being replaced, not of a match
	on_call = [&](Call &c) {
		if (!strcmp(c.name, "pwrite") && TmpWatch::is_tmp(c.root, c.ino)) copied = true;
		if (strcmp(c.name, "LOGICAL_INO") || c.len) return;
		if (copied) { copied = false; return; }
		mc::compared();
		for (auto &s : slow) if (s.addr == c.off && s.ns >= 5000000000ull) mc::fail("toxic-resolved", "the references of " + H(c.off) + " were looked up again although that took " + S(s.ns / 1000000000) + " s the last time");
		static const u64 t[] = {0, 5000000000ull, 4900000000ull, 60000000000ull};
		const unsigned a = mc::choose(5, mc::ENV);
		// waiting for the disk is not the kernel's work
		if (a == 4) { mc::log("looking up %#llx waits 6 s for the disk", (unsigned long long)c.off); mc::advance_ns(6000000000ull); }
		else if (a) { mc::log("looking up %#llx takes %u ms", (unsigned long long)c.off, unsigned(t[a] / 1000000)); slow.push_back(Slow{c.off, t[a]}); fs->slow_ns = t[a]; }
	};
	// the harness side of the daemon's process does not outlive it
	Run r = mk_run(o);
	const bool restart = mc::param("restart", 0);
	u64 third = 0;
	if (restart) {
		// the same data appears again while the records exist: nothing is looked up
		const u64 s = o.secs;
		r.beside = [&, s]() { mc::sleep_ns(s * 1000000000ull); third = make("c", 0, "A"); mc::log("a third file A"); commit(); mc::sleep_ns(60000000000ull); };
	}
	r.after_exit = [&]() {
		View w = v;
		if (third) w[Fid(5, third)] = view_of(5, third);
		check_view(w, view());
		if (fs->status) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status)));
		const string table = home_read("beeshash.dat");
		std::set<u64> toxic;
		for (size_t k = 0; k + 16 <= table.size(); k += 16) { u64 a; memcpy(&a, &table[k + 8], 8); if (a >= 4096 && (a & TOXIC)) toxic.insert(a & ~0xfffull); }
		std::set<u64> want;
		for (auto &s : slow) if (s.ns >= 5000000000ull) want.insert(s.addr);
		mc::compared();
		for (u64 a : want) if (!toxic.count(a)) mc::fail("toxic-forgotten", "looking up " + H(a) + " took longer than the limit and this is not recorded in the table");
		for (u64 a : toxic) if (!want.count(a)) mc::fail("toxic-invented", H(a) + " is recorded as slow and was not");
		// pairs whose data was not slow are shared
		for (unsigned k = 0; k < np; ++k) {
			auto &f = inode(5, first[k]).ext.begin()->second, &g = inode(5, second[k]).ext.begin()->second;
			bool mine = false;
			for (u64 a : want) if (a >= f.ext && a < f.ext + 8 * BLK) mine = true;
			for (u64 a : want) { auto e = fs->exts.find(a); (void)e; for (unsigned b = 0; b < 4; ++b) if (a == 0x1000) mine = true; }
			bool slow_content = false;
			for (auto &x : slow) if (x.ns >= 5000000000ull) slow_content |= x.addr >= f.ext && x.addr < f.ext + fs->exts[f.ext].ram();
			for (auto &x : slow) if (x.ns >= 5000000000ull) slow_content |= x.addr >= g.ext && x.addr < g.ext + fs->exts[g.ext].ram();
			mc::compared();
			if (!slow_content && !mine && f.ext != g.ext) mc::fail("other-data", "files a" + S(k) + " and b" + S(k) + " hold the same data, which was not slow to look up, and do not share it\n" + layout());
		}
		mc::outcome(layout());
		fs->logical_inos.clear();
	};
	run_daemon(r);
	// the next start forgets
	on_call = nullptr;
	if (!mc::param("again", 0)) return;
	const u64 i = make("n", 0, "A");
	commit();
	const View v2 = view();
	Run r2 = mk_run(o);
	r2.after_exit = [&]() {
		check_view(v2, view());
		mc::compared();
		if (inode(5, i).ext.begin()->second.ext != inode(5, first[0]).ext.begin()->second.ext && inode(5, i).ext.begin()->second.ext != inode(5, second[0]).ext.begin()->second.ext) mc::fail("toxic-remembered", "after a restart new data equal to an extent that was slow is not shared with it\n" + layout());
	};
	run_daemon(r2);
}
MC_SCENARIO(many, FORK)
{
	// an extent with many references and a copy of its data
	reset();
	fs_options();
	hash_file();
	Opt o;
	o.secs = 600;
	static const u64 counts[] = {100, 9997, 9998, 9999, 10001};
	const u64 n = counts[mc::choose(unsigned(mc::param("counts", 5)))];
	const bool own = mc::choose(2);
	const u64 e = new_extent({pattern(1)});
	const u64 f = add_file(5, "many");
	for (u64 k = 0; k < n; ++k) map_extent(5, f, k * 2 * BLK, e, 0, BLK);
	const u64 g = add_file(5, "copy");
	write_blocks(5, g, 0, {pattern(1)});
	commit();
	if (own) {
		// known from an earlier run
		string t = home_read("beeshash.dat");
		const u64 h = BeesHash(content(pattern(1)), BLK);
		memcpy(&t[(h % (t.size() / 4096)) * 4096], &h, 8);
		memcpy(&t[(h % (t.size() / 4096)) * 4096 + 8], &e, 8);
		home_write("beeshash.dat", t);
	}
	mc::log("%u references%s", unsigned(n), own ? ", known" : "");
	const View v = view();
	Run r = mk_run(o);
	r.after_exit = [&]() {
		check_view(v, view());
		if (fs->status) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status)));
		const u64 after = refs(e).size();
		mc::compared();
		if (after > n && after > 9999) mc::fail("too-many-refs", "an extent with " + S(n) + " references got more: " + S(after));
		if (own && n < 9998 && inode(5, g).ext.begin()->second.ext != e && after == n) mc::fail("not-shared", "an extent with " + S(n) + " references was not used\n");
		mc::outcome(after);
	};
	run_daemon(r);
}

// --- read-only subvolumes with the send workaround ---
// Share requests refused because a send of their target is in progress
MC_SCENARIO(sending, FORK)
{
	reset();
	fs_options();
	hash_file();
	Opt o;
	if (mc::choose(2)) o.extra = {"-a"};
	add_subvol(256, "one"); add_subvol(257, "two");
	auto file = [&](u64 r, const char *name, unsigned a, unsigned b) { const u64 i = add_file(r, name); write_blocks(r, i, 0, {pattern(a), pattern(b)}); return i; };
	u64 ids[2][2];
	for (unsigned k = 0; k < 2; ++k) { ids[k][0] = file(256 + k, "f", 10 * k + 1, 10 * k + 2); ids[k][1] = file(256 + k, "g", 10 * k + 1, 10 * k + 2); }
	const unsigned who = 1 + mc::choose(3);
	for (unsigned k = 0; k < 2; ++k) if (who & (1u << k)) { fs->roots[256 + k].sending = true; mc::log("a send of subvolume %u is in progress", 256 + k); }
	commit();
	View v = view();
	// the send ends before any share request, or much later
	unsigned refused = 0, requests = 0;
	std::map<u64, unsigned> per_transid;
	bool ended = false;
	auto end = [&]() { ended = true; for (unsigned k = 0; k < 2; ++k) fs->roots[256 + k].sending = false; mc::log("the send ends"); };
	on_call = [&](Call &c) {
		if (strcmp(c.name, "SAME")) return;
		if (!ended && requests < 4 && mc::choose(2, mc::ENV)) end();
		++requests;
		if (ended) return;
		++refused;
		mc::log("refused in transaction %u", unsigned(fs->committed));
		mc::compared();
		// (each by one worker, and the number of the transaction may be read late)
		if (++per_transid[fs->committed] > 3) mc::fail("busy", "share requests are repeated without waiting for another transaction");
	};
	Run r = mk_run(o);
	r.beside = [&]() {
		auto touch = [&](unsigned n) { for (unsigned i = 0; i < n; ++i) { mc::sleep_ns(30 * 1000000000ull); const string t = "t" + S(i); add_file(5, t.c_str()); unlink(5, 256, t.c_str()); } };
		mc::sleep_ns(60 * 1000000000ull);
		touch(5);
		if (!ended) end();
		touch(8);
	};
	r.after_exit = [&]() {
		on_call = nullptr;
		check_view(v, view());
		if (fs->status) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status)));
		mc::outcome(u64(refused) * 16 + requests);
		mc::log("%u share requests, %u refused", requests, refused);
		for (unsigned k = 0; k < 2; ++k) {
			mc::compared();
			if (inode(256 + k, ids[k][0]).ext.begin()->second.ext != inode(256 + k, ids[k][1]).ext.begin()->second.ext) mc::fail("given-up", "the files of subvolume " + S(256 + k) + " were not deduplicated after the send ended\n" + layout());
		}
	};
	run_daemon(r);
}
MC_SCENARIO(readonly, FORK)
{
	reset();
	fs_options();
	hash_file();
	Opt o;
	o.extra = {mc::choose(2) ? "-a" : "--workaround-btrfs-send"};
	const bool flips = mc::param("flips", 0);
	static const u64 ids[] = {256, 257, 300};
	add_subvol(256, "one"); add_subvol(257, "two");
	auto file = [&](u64 r, const char *name, unsigned a, unsigned b) { const u64 i = add_file(r, name); write_blocks(r, i, 0, {pattern(a), pattern(b)}); return i; };
	// equal files inside of each, and across
	for (unsigned k = 0; k < 2; ++k) { file(ids[k], "f", 10 * k + 1, 10 * k + 2); file(ids[k], "g", 10 * k + 1, 10 * k + 2); file(ids[k], "x", 7, 8); }
	const u64 p = add_file(257, "space");
	map_extent(257, p, 0, new_extent({0, 0}), 0, 2 * BLK, F_PREALLOC);
	const unsigned snap = mc::choose(3);
	if (snap) snapshot(snap == 1 ? 256 : 257, 300, "snap");
	for (u64 id : ids) if (fs->roots.count(id)) { root(id).ro = mc::choose(2); if (root(id).ro) mc::log("subvolume %u is read-only", unsigned(id)); }
	commit();
	View v = view();
	std::map<u64, bool> flipped;    // in this pass
	unsigned n_flips = 0;
	size_t seen = 0, opened = 0;
	std::set<u64> ever_rw;
	for (u64 id : ids) if (fs->roots.count(id) && !root(id).ro) ever_rw.insert(id);
	auto look = [&]() {
		for (; seen < fs->dedupes.size(); ++seen) {
			const Dedupe &d = fs->dedupes[seen];
			mc::compared();
			if (d.dst_ro && !flipped[d.droot]) mc::fail("ro-target", "a share request named root " + S(d.droot) + " ino " + S(d.dino) + " as its target while that subvolume was read-only");
		}
		if (o.mode != 4) for (; opened < fs->opened.size(); ++opened) {
			const Opened &x = fs->opened[opened];
			if ((x.mode & 0170000) != 0100000 || !fs->roots.count(x.root) || x.root < 256) continue;
			mc::compared();
			// (an extent shared with a writable subvolume may be looked at through either)
			if (!ever_rw.count(x.root) && !snap) mc::fail("ro-scanned", "a file of the read-only subvolume " + S(x.root) + " was opened");
		}
	};
	on_call = [&](Call &c) {
		look();
		if (!flips || n_flips >= 2) return;
		if (strcmp(c.name, "SAME") && strcmp(c.name, "LOGICAL_INO") && strcmp(c.name, "openat2") && strcmp(c.name, "INO_PATHS") && (strcmp(c.name, "TREE_SEARCH") || c.off != 1 || c.len < 256)) return;   // (other calls do not depend on it)
		if (unsigned a = mc::choose(4, mc::ENV)) {
			if (!fs->roots.count(ids[a - 1])) return;
			++n_flips;
			Root &r = root(ids[a - 1]);
			r.ro = !r.ro; flipped[r.id] = true;
			if (!r.ro) ever_rw.insert(r.id);
			fs->changed = true;
			mc::log("before %s: subvolume %u becomes %s", c.name, unsigned(r.id), r.ro ? "read-only" : "writable");
		}
	};
	Run r = mk_run(o);
	const u64 secs = o.secs;
	std::map<u64, std::pair<u64, u64>> fresh;
	r.beside = [&, secs]() {
		mc::sleep_ns(secs * 1000000000ull);
		look();
		flipped.clear();
		for (unsigned k = 0; k < 2; ++k) if (!root(ids[k]).ro || mc::param("flips", 0)) {
			// (written before it became read-only, as far as anyone can tell)
			fresh[ids[k]] = {file(ids[k], "h", 50 + 10 * k, 51), file(ids[k], "i", 50 + 10 * k, 51)};
			for (u64 i : {fresh[ids[k]].first, fresh[ids[k]].second}) v[Fid(ids[k], i)] = view_of(ids[k], i);
		}
		commit();
		mc::log("new data");
		mc::sleep_ns(90000000000ull);
	};
	r.after_exit = [&]() {
		look();
		check_view(v, view());
		if (fs->status) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status)));
		auto shares = [&](u64 id, u64 a, u64 b) { return inode(id, a).ext.begin()->second.ext == inode(id, b).ext.begin()->second.ext; };
		for (unsigned k = 0; k < 2; ++k) {
			const u64 id = ids[k];
			if (!n_flips && !root(id).ro) {
				mc::compared();
				if (!shares(id, 257, 258)) mc::fail("rw-skipped", "equal files of the writable subvolume " + S(id) + " were not made to share their data\n" + layout());
			}
			if (fresh.count(id) && !flipped[id] && !root(id).ro) {
				mc::compared();
				if (!shares(id, fresh[id].first, fresh[id].second)) mc::fail("rw-skipped-later", "equal files written in a later pass in the writable subvolume " + S(id) + " were not made to share their data\n" + layout());
			}
		}
		mc::outcome(layout());
	};
	run_daemon(r);
}

// --- work-time throttling ---
MC_SCENARIO(throttle, FORK)
{
	const unsigned depth = unsigned(mc::param("depth", 4)), threads = unsigned(mc::param("callers", 1));
	static const char *const factors[] = {nullptr, "0.5", "1", "3", "100"};
	static const double times[] = {0.3, 1, 7, 50};
	const unsigned nt = unsigned(mc::param("times", 4)), ni = unsigned(mc::param("idle", 2));
	const unsigned f = mc::choose(5);
	const double factor = f ? strtod(factors[f], nullptr) : 0;
	reset();
	hash_file();
	Opt o;
	if (f) o.extra = {"--throttle-factor", factors[f]};
	struct Op { unsigned kind; double used; bool idle; };
	vector<vector<Op>> ops(threads);
	for (auto &v : ops) for (unsigned d = 0; d < depth; ++d) {
		const unsigned kind = mc::choose(2);
		const double used = times[mc::choose(nt)];
		v.push_back(Op{kind, used, ni > 1 && mc::choose(2)});
	}
	Run r = mk_run(o);
	r.beside = [&]() {
		mc::sleep_ns(5000000000ull);
		struct Past { double least = 1e9, most = 0, sum = 0; unsigned n = 0; } past[2];
		auto caller = [&](const vector<Op> &v) {
			static const char *const names[] = {"one kind", "another kind"};
			for (auto &p : v) {
				if (p.idle) mc::sleep_ns(100000000000ull);
				if (threads > 1) mc::sleep_ns(u64(p.used * 1e9)); else mc::advance_ns(u64(p.used * 1e9));
				Past &k = past[p.kind];
				k.least = std::min(k.least, p.used); k.most = std::max(k.most, p.used); k.sum += p.used; ++k.n;
				const double least = k.least, sum = k.sum;
				const unsigned n = k.n;
				const u64 from = mc::now_ns();
				bees_throttle(p.used, names[p.kind]);
				const double d = double(mc::now_ns() - from) / 1e9;
				mc::compared();
				mc::log("%s used %g s: delayed %g s", names[p.kind], p.used, d);
				if (factor == 0 && d > 0) mc::fail("not-asked", "an operation was delayed without a throttle factor");
				if (threads > 1) { if (d > 60 + 1e-3) mc::fail("too-long", "an operation was delayed by " + std::to_string(d) + " s"); continue; }
				const double most = std::min(60.0, factor * k.most - p.used);
				if (d > 60 + 1e-3) mc::fail("too-long", "an operation was delayed by " + std::to_string(d) + " s");
				if (d > 1e-3 && d > most + 1e-3) mc::fail("more-than-average", "an operation that took " + std::to_string(p.used) + " s was delayed by " + std::to_string(d) + " s, the longest of its kind took " + std::to_string(k.most) + " s");
				// (once enough is known)
				const double need = std::min(60.0, factor * least - p.used);
				if (n >= 3 && sum >= 3 && need > 1e-3 && d < need - 1e-3) mc::fail("not-delayed", "an operation that took " + std::to_string(p.used) + " s was delayed by only " + std::to_string(d) + " s, the shortest of its kind took " + std::to_string(least) + " s");
			}
		};
		std::vector<std::thread> th;
		for (unsigned t = 1; t < threads; ++t) th.emplace_back([&, t]() { caller(ops[t]); });
		caller(ops[0]);
		for (auto &t : th) t.join();
	};
	run_daemon(r);
	mc::outcome(u64(f));
}
