// A termination request at any moment
#include "common.h"

static const char *const STATE = "beescrawl.dat";
static const u64 SEC = 1000000000ull;

static u64 table_at, table_len;
typedef std::set<std::pair<u64, u64>> Cells;
static Cells cells(const char *p, u64 n)
{
	Cells c;
	for (u64 k = 0; k + 16 <= n; k += 16) { u64 h, a; memcpy(&h, p + k, 8); memcpy(&a, p + k + 8, 8); if (a) c.insert({h, a}); }
	return c;
}

MC_SCENARIO(stop, FORK)
{
	reset();
	fs_options();
	Opt o;
	const bool unique = mc::param("unique", 0), sending = mc::param("sending", 0);
	add_subvol(256, "sub"); add_subvol(257, "sub2");
	for (unsigned f = 0; f < 4; ++f) {
		const u64 rid = f & 1 ? 256 : 257, i = add_file(rid, f < 2 ? "f" : "g");
		for (unsigned e = 0; e < 2; ++e) write_blocks(rid, i, e * BLK, {pattern(unique ? f * 2 + e + 1 : e + 1)});
	}
	commit();
	if (sending) fs->roots[257].sending = true;
	hash_file(1);
	const View before = view();
	const unsigned kinds = unsigned(mc::param("kinds", 4)), later = unsigned(mc::param("later", 4));
	const bool only_home = mc::param("home", 0), points = mc::param("spoints", 0);   // spoints: threads may be switched anywhere after the request
	static u64 term, slow_s, units;
	static bool io_error, termed, running_now;
	static std::set<u64> read_after;
	static vector<Cells> at_rename;
	term = slow_s = units = table_at = table_len = 0;
	io_error = termed = running_now = false;
	read_after.clear(); at_rename.clear();
	Run r = mk_run(o);
	r.max_stop_s = 1000;
	const u64 secs = o.secs;
	r.beside = [secs]() { mc::sleep_ns(secs * SEC); if (!termed) { termed = true; term = mc::now_ns(); } };
	const unsigned threads = unsigned(o.threads);
	const bool by_extent = o.mode == 4;
	on_call = [&](Call &c) {
		if (!strcmp(c.name, "madvise") && !table_at) { table_at = c.off; table_len = c.len; }
		if (!strcmp(c.name, "renameat") && c.home && table_at) at_rename.push_back(cells(reinterpret_cast<const char *>(table_at), table_len));
		if (!strcmp(c.name, "getrusage")) return;
		if (termed && unique && c.home) { slow_s += 1; mc::sleep_ns(SEC); }   // saving takes time
		if (termed && unique && !c.home) {
			// lets the thread that stops the daemon run
			mc::sleep_ns(1000000);
			if (mc::now_ns() > term + 2000000 && !strcmp(c.name, "pread")) {
				auto &m = inode(c.root, c.ino).ext;
				auto i = m.upper_bound(c.off);
				if (i != m.begin()) { --i; read_after.insert(by_extent ? i->second.ext : c.root << 32 | c.ino); }
			}
		}
		if (io_error && c.home && strcmp(c.name, "close")) { c.err = EIO; return; }
		if (!strcmp(c.name, "TREE_SEARCH") && table_at) running_now = true;
		if (only_home && !c.home && strcmp(c.name, "SAME")) return;
		if (!termed) {
			const unsigned a = mc::choose(1 + kinds, mc::ENV);
			if (!a) return;
			const string at = string(c.name) + " #" + S(c.index);
			if (points) mc::set_points_enabled(true);
			switch (a) {
			case 1: mc::log("SIGTERM at %s", at.c_str()); termed = true; term = mc::now_ns(); raise_signal(SIGTERM); break;
			case 2: mc::log("SIGINT at %s, which takes 200 s", at.c_str()); termed = true; term = mc::now_ns(); slow_s += 200; raise_signal(SIGINT); mc::sleep_ns(200 * SEC); break;
			case 3: mc::log("SIGTERM at %s, and nothing can be written from here", at.c_str()); termed = true; term = mc::now_ns(); raise_signal(SIGTERM); if (running_now) { io_error = true; if (c.home) c.err = EIO; } break;
			case 4: mc::log("workers paused, then SIGTERM, at %s", at.c_str()); raise_signal(SIGUSR1); mc::sleep_ns(SEC / 100); raise_signal(0); mc::sleep_ns(SEC / 100); termed = true; term = mc::now_ns(); raise_signal(SIGTERM); break;
			}
		} else {
			const unsigned a = mc::choose(1 + later, mc::ENV);
			if (!a) return;
			const string at = string(c.name) + " #" + S(c.index);
			switch (a) {
			case 1: mc::log("again SIGTERM at %s", at.c_str()); raise_signal(SIGTERM); break;
			case 2: mc::log("%s takes 100 s", at.c_str()); slow_s += 100; mc::sleep_ns(100 * SEC); break;
			case 3: if (!running_now) break; mc::log("nothing can be written from %s", at.c_str()); io_error = true; if (c.home) c.err = EIO; break;
			case 4: if (!running_now) break; mc::log("%s fails", at.c_str()); if (c.home) io_error = true; c.err = EIO; break;
			}
		}
	};
	r.after_exit = [&]() {
		on_call = nullptr;
		const u64 took = (mc::now_ns() - term) / SEC;
		if (!termed) mc::fail("ended-alone", "the daemon ended without being asked to");
		if (took > 10 + slow_s) mc::fail("slow-stop", "the daemon took " + S(took) + " s to end");
		if (unique && read_after.size() > threads) mc::fail("work-after-stop", S(read_after.size()) + (by_extent ? " extents" : " files") + " were read after the termination request by " + S(threads) + " workers");
		if (!io_error && table_at && mc::param("full", 0)) {
			const string file = home_read("beeshash.dat");
			const Cells have = cells(file.data(), file.size()), now = cells(reinterpret_cast<const char *>(table_at), table_len);
			mc::compared();
			for (auto &x : now) if (!have.count(x)) mc::fail("lost-change", "an entry that is in the hash table at the end of an orderly shutdown is not in the file");
		}
		if (!io_error && table_at) {
			// everything in the table when the last position was saved is in the file
			size_t k = 0, last = ~size_t(0);
			for (auto &p : fs->hlog) if (p.kind == 'r') { if (p.name2 == STATE) last = k; ++k; }
			if (last != ~size_t(0)) {
				const string file = home_read("beeshash.dat");
				const Cells have = cells(file.data(), file.size()), now = cells(reinterpret_cast<const char *>(table_at), table_len);
				if (last >= at_rename.size()) mc::error("renames");
				for (auto &x : at_rename[last]) if (now.count(x) && !have.count(x)) mc::fail("table-not-flushed", "an entry that was in the hash table when the last position was saved is not in the file");
			}
		}
	};
	run_daemon(r);
	on_call = nullptr;
	check_view(before, view());
	mc::compared();
	if (fs->status) mc::fail("exit-status", "exit status " + S(u64(fs->status)));
	if (!io_error && secs >= 40 && home_read(STATE).empty() && !mc::param("partial", 0)) { /* (stopped before any position was known) */ }
	mc::outcome(home_read(STATE).size() + used_by_user() * 131);
}

// --- SIGUSR1 pauses the workers, SIGUSR2 lets them go on ---
MC_SCENARIO(pause, FORK)
{
	reset();
	fs_options();
	Opt o;
	o.secs = u64(mc::param("secs", 1500));
	if (mc::param("load", 0)) o.extra = {"--loadavg-target", "5", "--thread-min", "1"};
	add_subvol(256, "sub"); add_subvol(257, "sub2");
	for (unsigned f = 0; f < 4; ++f) {
		const u64 rid = f & 1 ? 256 : 257, i = add_file(rid, f < 2 ? "f" : "g");
		for (unsigned e = 0; e < 2; ++e) write_blocks(rid, i, e * BLK, {pattern(e + 1)});
	}
	commit();
	hash_file(1);
	const View before = view();
	const u64 grace = 60 * SEC, length = 400 * SEC;
	const unsigned kinds = unsigned(mc::param("kinds", 3));
	static u64 paused_at, resumed_at, worked;
	static unsigned kind;
	static bool late;
	paused_at = resumed_at = worked = 0; kind = 0; late = false;
	Run r = mk_run(o);
	const u64 secs = o.secs, last = mc::now_ns() + u64(mc::param("until", 300)) * SEC;
	r.beside = [secs, length]() {
		const u64 end = mc::now_ns() + secs * SEC;
		while (mc::now_ns() < end) {
			mc::sleep_ns(10 * SEC);
			if (kind == 2 && !late && mc::now_ns() > paused_at + 100 * SEC) { late = true; mc::log("a new file"); const u64 i = add_file(256, "late"); write_blocks(256, i, 0, {pattern(1)}); write_blocks(256, i, BLK, {pattern(2)}); commit(); }
			if (paused_at && !resumed_at && mc::now_ns() > paused_at + length) {
				mc::log("SIGUSR2");
				resumed_at = mc::now_ns();
				raise_signal(SIGUSR2);
				// once more is no different
				if (kind == 3) { mc::sleep_ns(SEC / 100); raise_signal(SIGUSR2); }
			}
		}
	};
	on_call = [&](Call &c) {
		if (!strcmp(c.name, "getrusage")) return;
		const bool work = !c.home && (!strcmp(c.name, "pread") || !strcmp(c.name, "SAME") || !strcmp(c.name, "LOGICAL_INO") || !strcmp(c.name, "INO_PATHS"));
		if (paused_at && !resumed_at && mc::now_ns() > paused_at + grace) {
			mc::compared();
			if (work) mc::fail("worked-while-paused", string(c.name) + " " + S((mc::now_ns() - paused_at) / SEC) + " s after the workers were told to pause");
		}
		if (paused_at && resumed_at && work) ++worked;
		if (paused_at || mc::now_ns() > last || (!work && strcmp(c.name, "TREE_SEARCH") && strcmp(c.name, "openat2"))) return;
		if (const unsigned a = mc::choose(1 + kinds, mc::ENV)) {
			kind = a;
			paused_at = mc::now_ns();
			mc::log("SIGUSR1 at %s #%u", c.name, unsigned(c.index));
			raise_signal(SIGUSR1);
			mc::sleep_ns(SEC / 100);
			// new work while paused; the same signal again
			if (a == 3) { raise_signal(SIGUSR1); mc::sleep_ns(SEC / 100); }
		}
	};
	r.after_exit = [&]() { on_call = nullptr; if (fs->status) mc::fail("exit-status", "the daemon ended with status " + S(u64(fs->status))); fs->logical_inos.clear(); home_write("worked", S(worked)); };
	run_daemon(r);
	on_call = nullptr;
	const View w = view();
	for (auto &x : before) { auto i = w.find(x.first); mc::compared(); if (i == w.end()) mc::fail("lost", "a file is gone"); }
	mc::compared();
	if (used_by_user() != 2 * BLK) mc::fail("not-resumed", "after the pause ended the files were not all deduplicated\n" + layout());
	mc::outcome(home_read("worked"));
}
