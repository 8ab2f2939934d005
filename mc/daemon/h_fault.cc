// One system call fails, at any point, with any error; or a file vanishes or shrinks
#include "common.h"

static void two_pairs()
{
	add_subvol(256, "sub");
	for (unsigned f = 0; f < 4; ++f) {
		const u64 rid = f & 1 ? 256 : 5;
		const u64 ino = add_file(rid, (string("f") + char('0' + f)).c_str());
		const unsigned base = f < 2 ? 1 : 5;
		write_blocks(rid, ino, 0, {pattern(base), pattern(base + 1)});
		if (f >= 2) write_blocks(rid, ino, 2 * BLK, {pattern(base + 2)});
	}
	commit();
}
// is the data of inode number ino of both subvolumes shared?
static bool pair_done(u64 ino)
{
	auto &a = inode(5, ino).ext, &b = inode(256, ino).ext;
	if (a.size() != b.size()) return false;
	for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->second.ext != j->second.ext) return false;
	return true;
}
MC_SCENARIO(faults, FORK)
{
	reset();
	fs_options();
	hash_file();
	Opt o;
	two_pairs();
	View v = view();
	static const int errs[] = {0, EIO, ENOENT, EPERM, ENOMEM, EINVAL, EMFILE, EAGAIN, ESTALE};
	const unsigned kinds = unsigned(mc::param("errors", 3)), users = unsigned(mc::param("users", 0));
	const bool persist = mc::param("persist", 0), onepass = mc::param("onepass", 0);
	string what, sticky;
	u64 sticky_root = 0, sticky_ino = 0, faults = 0;
	bool early = false, user = false;
	on_call = [&](Call &c) {
		if (faults && persist && sticky == c.name && c.root == sticky_root && c.ino == sticky_ino) {
			// (the daemon cannot be expected to go on without its own mount point)
			c.err = errs[1];
			return;
		}
		if (persist && (faults || c.ino == 256 || (!c.ino && !c.home))) return;
		if (unsigned a = mc::choose(kinds + users + 1, mc::ENV)) {
			++faults;
			sticky = c.name; sticky_root = c.root; sticky_ino = c.ino;
			early |= fs->opened.empty() && fs->logical_inos.empty();
			if (a > kinds) {
				// a user deletes or shortens a file
				user = true;
				const unsigned k = a - kinds - 1;
				const u64 rid = k & 1 ? 256 : 5, ino = k & 2 ? 258 : 257;
				if (!inode(rid, ino).nlink) return;
				if (k & 4) { truncate(rid, ino, 5000); FileView &f = v[Fid(rid, ino)]; f.data.resize(5000); f.size = 5000; f.mtime = inode(rid, ino).mtime; }
				else { unlink(rid, 256, (string("f") + char('0' + (k & 2) + (k & 1))).c_str()); v.erase(Fid(rid, ino)); }
				what = string(k & 4 ? "truncation" : "deletion") + " of root " + S(rid) + " ino " + S(ino) + " before " + c.name;
				sticky_ino = ino;
			} else {
				c.err = errs[a];
				what = string(c.name) + " (root " + S(c.root) + " ino " + S(c.ino) + (c.home ? " home" : "") + "): " + strerror(c.err);
			}
			mc::log("%s, call %u", what.c_str(), unsigned(c.index));
		}
	};
	Run r = mk_run(o);
	// the user changes something unrelated now and then, so that the daemon polls, drops its caches
	// and starts further passes
	const unsigned touches = onepass ? 0 : persist ? 7 : 5;
	r.beside = [touches]() {
		if (!touches) mc::sleep_ns(20 * 1000000000ull);
		for (unsigned i = 0; i < touches; ++i) {
			mc::sleep_ns(30 * 1000000000ull);
			const string n = "t" + S(i);
			add_file(5, n.c_str());
			unlink(5, 256, n.c_str());
		}
	};
	r.after_exit = [&]() {
		on_call = nullptr;
		check_view(v, view());
		unsigned fds = 0;
		for (auto &f : open_fds()) if (f.find(" ino 256)") == string::npos && f.find("(root") != string::npos && f.find("(deleted)") == string::npos) { ++fds; mc::log("open: %s", f.c_str()); }
		mc::log("%s", layout().c_str());
		const bool p1 = user && sticky_ino == 257 ? true : pair_done(257), p2 = user && sticky_ino == 258 ? true : pair_done(258);
		mc::outcome(u64(p1) + 2 * u64(p2) + 4 * u64(fs->status));
		mc::compared();
		if (fs->status) {
			if (!early) mc::fail("status", "exit status " + S(u64(fs->status)) + " after: " + what);
			if (!fs->dedupes.empty()) mc::fail("status", "failed at startup, but only after work had begun: " + what);
			return;
		}
		// a file of its own that fails never affects the other pair
		if (faults <= 1 && (sticky_ino == 258 || user) && !p1) mc::fail("skipped", "the first pair was not deduplicated after: " + what + "\n" + layout());
		if (faults <= 1 && (sticky_ino == 257 || user) && !p2) mc::fail("skipped", "the second pair was not deduplicated after: " + what + "\n" + layout());
		if (onepass) return;
		if (fds) mc::fail("descriptor-leak", S(fds) + " files are still open long after: " + what);
		if (persist) return;
		// one failure costs at most one extent in the long run
		const size_t left = stored_extents().size();
		if (!user && left > 3 + faults) mc::fail("skipped", S(left - 3) + " extents were not deduplicated after: " + what + "\n" + layout());
	};
	run_daemon(r);
}
