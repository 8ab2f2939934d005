// The saved scan position: replaced atomically, reloaded as written
#include "common.h"
#include <sstream>

static const char *const STATE = "beescrawl.dat";
static const u64 SEC = 1000000000ull;

// positions of a saved file: root -> the numbers that make up the position
typedef std::map<u64, std::map<string, u64>> Pos;
static Pos parse(const string &t)
{
	Pos p;
	std::istringstream is(t);
	string line;
	while (std::getline(is, line)) {
		std::istringstream ls(line);
		string k, v;
		std::map<string, u64> m;
		while (ls >> k >> v) if (k != "start_ts") m[k == "gen_current" ? "min_transid" : k == "gen_next" ? "max_transid" : k] = strtoull(v.c_str(), nullptr, 0);
		const u64 r = m["root"];
		m.erase("root");
		p[r] = m;
	}
	return p;
}

static void small_fs()
{
	add_subvol(256, "sub"); add_subvol(257, "sub2");
	for (unsigned f = 0; f < 2; ++f) { const u64 i = add_file(256 + f, "f"); write_blocks(256 + f, i, 0, {pattern(1)}); write_blocks(256 + f, i, BLK, {pattern(2 + f)}); }
	for (unsigned k = 0; k < 3; ++k) { commit(); fs->changed = true; }
	commit();
	hash_file(1);
}
static void late_data() { const u64 i = add_file(256, "late"); write_blocks(256, i, 0, {pattern(9)}); }

// --- every crash point of a history of saves ---
MC_SCENARIO(save, FORK)
{
	static const auto prepare = []() {
		reset();
		fs_options();
		fs->home_btrfs = mc::param("btrfs", 1);
		if (!mc::param("fsync", 1)) fs->uname_release = "5.10.0-1-generic";
		small_fs();
	};
	prepare();
	const bool initial = mc::choose(2), final = mc::param("final", 0);
	const string v0 = "root 256 objectid 256 offset 0 min_transid 0 max_transid 99 started 1 start_ts 2020-01-01-00-00-00\n";
	if (initial) home_write(STATE, v0);
	const unsigned v0_id = initial ? fs->home[STATE] : 0;
	static const int errs[] = {EIO, ENOSPC};
	static bool *failed; failed = static_cast<bool *>(arena_alloc(sizeof *failed)); *failed = false;
	static u64 *tmp_id; tmp_id = static_cast<u64 *>(arena_alloc(sizeof *tmp_id)); *tmp_id = 0;
	Opt o;
	Run r = mk_run(o);
	const bool two = mc::param("two", 1);
	r.beside = [two]() { mc::sleep_ns(500 * SEC); late_data(); mc::sleep_ns(500 * SEC); if (two) { late_data(); mc::sleep_ns(900 * SEC); } };
	// what is saved in the end when nothing fails
	string undisturbed;
	if (final) {
		run_daemon(r);
		undisturbed = home_read(STATE);
		prepare();
		if (initial) home_write(STATE, v0);
	}
	on_call = [&](Call &c) {
		if (!(c.home && (!strcmp(c.name, "openat") || !strcmp(c.name, "write") || !strcmp(c.name, "fsync") || !strcmp(c.name, "fstatfs") || !strcmp(c.name, "close") || !strcmp(c.name, "unlinkat") || !strcmp(c.name, "renameat")))) return;
		static u64 start;
		if (!start) start = mc::now_ns();
		if (mc::now_ns() < start + 100 * SEC) return;   // only what follows startup
		const unsigned a = mc::choose(!strcmp(c.name, "write") ? 4 : 3, mc::ENV);
		if (!a) return;
		*failed = true;
		mc::log("%s #%llu: %s", c.name, (unsigned long long)c.index, a == 3 ? "short" : strerror(errs[a - 1]));
		if (a == 3) c.partial = 3; else c.err = errs[a - 1];
	};
	run_daemon(r);
	on_call = nullptr;
	if (fs->status) mc::fail("exit-status", "exit status " + S(u64(fs->status)));
	vector<HomeOp> log(fs->hlog.begin(), fs->hlog.end());
	// the versions, complete as they were renamed
	std::map<unsigned, string> data;
	std::map<string, unsigned> names;
	if (initial) { names[STATE] = v0_id; data[v0_id] = v0; }
	struct V { size_t at; unsigned id; string text; };
	vector<V> versions;
	if (initial) versions.push_back({0, v0_id, v0});
	for (size_t k = 0; k < log.size(); ++k) {
		const HomeOp &p = log[k];
		switch (p.kind) {
		case 'c': names[string(p.name.c_str())] = p.id; data[p.id].clear(); break;
		case 't': data[p.id].resize(p.off); break;
		case 'w': { string &d = data[p.id]; if (d.size() < p.off + p.len) d.resize(p.off + p.len); memcpy(&d[p.off], p.data.data(), p.len); break; }
		case 'u': names.erase(string(p.name.c_str())); break;
		case 'r': { const string a(p.name.c_str()), b(p.name2.c_str()); names[b] = names[a]; names.erase(a); if (b == STATE) versions.push_back({k + 1, p.id, data[p.id]}); break; }
		}
		// whatever way the file is replaced, it always is some complete version
		if (p.kind == 'w' && names.count(STATE) && p.id == names[STATE]) mc::fail("in-place", "the position file is written in place");
		if (p.kind == 't' && names.count(STATE) && p.id == names[STATE]) mc::fail("in-place", "the position file is truncated in place");
	}
	auto complete = [&](const string &t) {
		if (t == v0) return true;
		if (t.empty() || t.back() != '\n') return false;
		const Pos p = parse(t);
		for (auto &x : p) for (auto n : {"objectid", "offset", "min_transid", "max_transid"}) if (!x.second.count(n)) return false;
		return true;
	};
	for (size_t q = 0; q < versions.size(); ++q) if (!complete(versions[q].text) || (q && parse(versions[q].text).size() < parse(versions[q - 1].text).size())) mc::fail("incomplete", "an incomplete version was put in place:\n" + versions[q].text);
	if (versions.size() && parse(versions.back().text).size() < (o.mode == 4 ? 6u : 2u)) mc::fail("incomplete", "positions are missing from the last version:\n" + versions.back().text);
	if (versions.size() < 2 + (initial ? 1 : 0) && !*failed) mc::fail("not-saved", "saved " + S(versions.size()) + " versions");
	if (final && home_read(STATE) != undisturbed) mc::fail("progress-not-saved", "the progress made was not saved in the end although only one save failed:\n" + home_read(STATE) + "expected\n" + undisturbed);
	if (final) { mc::outcome(versions.empty() ? string() : versions.back().text); return; }
	// the crash
	const bool power = mc::choose(2);
	const size_t k = mc::choose(unsigned(log.size() + 1));   // operations done
	// what is on disk is a prefix of the changes to the directory
	size_t j = k;
	if (power) { vector<size_t> ns; for (size_t q = 0; q < k; ++q) if (strchr("cur", log[q].kind)) ns.push_back(q); const unsigned c = mc::choose(unsigned(ns.size() + 1)); j = c < ns.size() ? ns[c] : k; }
	names.clear(); data.clear();
	std::set<unsigned> synced, flushed;
	if (initial) { names[STATE] = v0_id; data[v0_id] = v0; synced.insert(v0_id); }
	for (size_t q = 0; q < k; ++q) {
		const HomeOp &p = log[q];
		const bool in = q < j;
		switch (p.kind) {
		case 'c': if (in) names[string(p.name.c_str())] = p.id; data[p.id].clear(); break;
		case 't': data[p.id].resize(p.off); synced.erase(p.id); break;
		case 'w': { string &d = data[p.id]; if (d.size() < p.off + p.len) d.resize(p.off + p.len); memcpy(&d[p.off], p.data.data(), p.len); synced.erase(p.id); break; }
		case 's': synced.insert(p.id); break;
		case 'u': if (in) names.erase(string(p.name.c_str())); break;
		case 'r': if (in) { const string a(p.name.c_str()), b(p.name2.c_str()); if (fs->home_btrfs && p.off) synced.insert(p.id); names[b] = names[a]; names.erase(a); } break;
		}
	}
	mc::compared();
	const string what = string(power ? "power lost" : "killed") + " after " + S(k) + " of " + S(log.size()) + " operations" + (power ? ", the directory as after " + S(j) : "");
	mc::log("%s", what.c_str());
	bool had = initial;
	for (auto &v : versions) if (v.at <= j) had = true;
	string got;
	if (!names.count(STATE)) { if (had) mc::fail("missing", "the position file is missing; " + what); }
	else {
		const unsigned id = names[STATE];
		got = data[id];
		if (power && !synced.count(id)) {
			// not on disk: any of nothing, a part, zeros
			const bool first = !initial && versions.size() && versions[0].id == id && fs->home_btrfs;   // accepted: see bees_fsync
			if (!first) mc::fail("unsynced", "the position file is in place but its contents are not on disk; " + what);
			const unsigned w = mc::choose(3);
			if (w == 1) got.clear(); else if (w == 2) got = string(got.size(), 0);
		} else {
			bool ok = false;
			for (auto &v : versions) if (v.id == id && v.text == got) ok = true;
			if (!ok) mc::fail("mixed", "the position file is neither version; " + what + "\n" + got);
		}
	}
	// and the daemon starts from what is there, whatever else was left behind
	if (mc::param("start", 1)) {
		const string table = home_read("beeshash.dat");
		fs->home.clear();
		home_write("beeshash.dat", table);
		if (names.count(STATE)) home_write(STATE, got);
		for (auto &n : names) if (n.first != STATE && n.first != "beeshash.dat") home_write(n.first.c_str(), power && !synced.count(n.second) ? string() : data[n.second]);
		fs->hlog.clear();
		Opt o2;
		o2.secs = 100;
		const u64 was = used_by_user();
		run_daemon(mk_run(o2));
		if (fs->status) mc::fail("exit-status", "exit status " + S(u64(fs->status)) + " when started after a crash");
		const string s = home_read(STATE);
		if (!complete(s) || s == v0) mc::fail("no-save-after", "the positions were not saved by the next run after a crash: " + what + "\n" + s);
		if (used_by_user() > was) mc::fail("grew", "more space used");
	}
	mc::outcome(got);
}

// --- a file is loaded as it was written, whatever is in it ---
static string line(u64 root, u64 oid, u64 off, u64 min, u64 max, u64 st, bool old)
{
	std::ostringstream o;
	o << "root " << root << " objectid " << oid << " offset " << off << (old ? " gen_current " : " min_transid ") << min << (old ? " gen_next " : " max_transid ") << max << " started " << st;
	if (!old) o << " start_ts 2023-01-01-00-00-00";
	o << "\n";
	return o.str();
}
MC_SCENARIO(reload, FORK)
{
	reset();
	fs_options();
	small_fs();
	Opt o;
	vector<u64> roots = {5, 256, 257};
	if (o.mode == 4) roots = {250, 251, 252, 253, 254, 255};
	if (mc::param("few", 0)) roots.erase(roots.begin() + 2, roots.end());
	static const u64 oids[] = {0, 258, 0x1000000, 1ull << 40, ~0ull}, offs[] = {0, 4096}, mins[] = {0, 50}, maxs[] = {99, 103, 1000};
	string t;
	const bool old = mc::choose(2);
	for (auto r : roots) {
		const u64 oid = oids[mc::choose(5)], off = offs[mc::choose(2)], tr = mc::choose(4);
		t += line(r, oid, off, mins[tr & 1], maxs[tr % 3], 1600000000 + r, old);
	}
	home_write(STATE, t);
	Run r = mk_run(o);
	// asked to stop while the file is being read: nothing is scanned
	static bool *sent; sent = static_cast<bool *>(arena_alloc(sizeof *sent)); *sent = false;
	on_call = [&](Call &c) {
		if (!*sent && c.home && !strcmp(c.name, "read")) { *sent = true; raise_signal(SIGTERM); }
	};
	run_daemon(r);
	on_call = nullptr;
	const string s = home_read(STATE);
	mc::compared();
	const Pos want = parse(t), got = parse(s);
	for (auto &w : want) {
		auto g = got.find(w.first);
		if (g == got.end()) mc::fail("position-lost", "the position of root " + S(w.first) + " was lost\nloaded:\n" + t + "saved:\n" + s);
		for (auto &f : w.second) if (!g->second.count(f.first) || g->second.at(f.first) != f.second) mc::fail("position-changed", f.first + " of root " + S(w.first) + " changed by loading and saving\nloaded:\n" + t + "saved:\n" + s);
	}
	if (!*sent) mc::error("the position file was not read");
	mc::outcome(s);
}

MC_SCENARIO(damaged, FORK)
{
	reset();
	fs_options();
	small_fs();
	Opt o;
	vector<string> ls;
	if (o.mode == 4) for (u64 r = 250; r < 256; ++r) ls.push_back(line(r, 0, 0, 0, 99, 1, false));
	else for (u64 r : {5, 256, 257}) ls.push_back(line(r, 0, 0, 0, 99, 1, false));
	const unsigned at = mc::choose(unsigned(ls.size() + 1));
	static const char *const bad[] = {
		"", "\n", " \n", "root\n", "root 256\n", "root x objectid y offset z min_transid a max_transid b\n",
		"objectid 0 offset 0 min_transid 0 max_transid 99\n", "root 256 objectid 0 offset 0 min_transid 0\n",
		"root 256 root 257 objectid 0 offset 0 min_transid 0 max_transid 99 started 1\n",
		"root 255 objectid 0 offset 0 min_transid 0 max_transid 99 started 1 start_ts\n",
		"root 256  objectid  0  offset  0  min_transid  0  max_transid  99\n",
		"root 256 objectid 0 offset 0 min_transid 0 max_transid 99 started 1 unknown 5\n",
		"root 256 objectid 0x100 offset 0x0 gen_current 0x0 gen_next 0x40 started 1\n",
		"root -1 objectid -1 offset -1 min_transid -1 max_transid -1 started -1\n",
		"root 256 objectid 0 offset 0 min_transid 18446744073709551615 max_transid 18446744073709551615 started 0\n",
		"root 255 objectid 18446744073709551615 offset 18446744073709551615 min_transid 0 max_transid 18446744073709551614 started 0\n",
		"root 999 objectid 0 offset 0 min_transid 0 max_transid 99 started 1\n",
		"root 0 objectid 0 offset 0 min_transid 0 max_transid 0 started 1\n",
		"root 256 objectid 0 offset 0 min_transid 200 max_transid 99 started 1\n",
		"\x01\x02\xff\xfe garbage \x00",
		"bees state version 2\n",
		"root 99999999999999999999999999 objectid 0 offset 0 min_transid 0 max_transid 99\n" };
	const unsigned b = mc::choose(unsigned(sizeof bad / sizeof *bad) + 3);
	string t;
	const unsigned cut = mc::choose(2);
	for (unsigned k = 0; k <= ls.size(); ++k) {
		if (k == at) {
			if (b < sizeof bad / sizeof *bad) t += bad[b];
			else if (b == sizeof bad / sizeof *bad) t += string(100000, 'x') + "\n";
			else if (b == sizeof bad / sizeof *bad + 1) t += string("\0\0\0\0", 4);
			else t += ls[0];
			if (cut) continue;
		}
		if (k < ls.size()) t += ls[k];
	}
	if (mc::choose(2) && t.size()) t.resize(t.size() - 1 - mc::choose(2) * (t.size() / 2));
	home_write(STATE, t);
	const View before = view();
	o.secs = 100;
	run_daemon(mk_run(o));
	check_view(before, view());
	mc::compared();
	if (fs->status) mc::fail("exit-status", "exit status " + S(u64(fs->status)) + " with\n" + t);
	const string s = home_read(STATE);
	if (s == t && !t.empty()) mc::fail("not-started", "the positions were not saved after a run that started from\n" + t);
	// scanning goes on: what is written now is found
	const u64 i = add_file(257, "new1"), k = add_file(257, "new2");
	write_blocks(257, i, 0, {pattern(20)});
	write_blocks(257, k, 0, {pattern(20)});
	commit();
	run_daemon(mk_run(o));
	if (fs->status) mc::fail("exit-status", "exit status " + S(u64(fs->status)) + " in the second run with\n" + t);
	auto x = inode(257, i).ext.begin(), y = inode(257, k).ext.begin();
	// (a position that claims the far future was scanned is not damage)
	bool future = false;
	std::istringstream each(t);
	for (string l; std::getline(each, l);) for (auto &q : parse(l)) for (auto n : {"min_transid", "max_transid"}) if (q.second.count(n) && q.second.at(n) > 103 && q.second.at(n) != ~0ull) future = true;
	if (x->second.ext != y->second.ext && !future) mc::fail("not-scanning", "data written after a start from damaged positions is not found:\n" + t + "saved since:\n" + home_read(STATE) + layout());
	mc::outcome(s);
}
