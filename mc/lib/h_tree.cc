// C22: tree queries against a full ordered listing, for every tree content over small alphabets.
#include "mc.h"
#include "treesim.h"
#include "crucible/btrfs-tree.h"
#include "crucible/error.h"
#include "crucible/fs.h"
#include <dlfcn.h>
#include <set>
#include <sys/syscall.h>
using namespace std;
using namespace crucible;
using namespace treesim;

static map<uint64_t, Tree> g_trees; static int g_calls; static bool g_missing_ok; static bool g_big_overflow;
static const int FD = 700;
extern "C" int ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (fd != FD) return int(syscall(SYS_ioctl, fd, req, arg));
	if (req == BTRFS_IOC_FS_INFO) { fs_info(static_cast<btrfs_ioctl_fs_info_args *>(arg)); return 0; }
	if (req == BTRFS_IOC_TREE_SEARCH_V2) {
		auto a = static_cast<btrfs_ioctl_search_args_v2 *>(arg);
		if (++g_calls > 2000) mc::fail("unbounded", "a query makes more than 2000 searches");
		mc::step();
		if (mc::verbose()) printf("  search tree %llu [%llx %u %llx]..[%llx %u %llx] transid %llu.. nr %u buf %llu\n", (unsigned long long)a->key.tree_id, (unsigned long long)a->key.min_objectid, a->key.min_type, (unsigned long long)a->key.min_offset,
			(unsigned long long)a->key.max_objectid, a->key.max_type, (unsigned long long)a->key.max_offset, (unsigned long long)a->key.min_transid, a->key.nr_items, (unsigned long long)a->buf_size);
		if (!g_trees.count(a->key.tree_id)) { errno = ENOENT; return -1; }
		return search(g_trees[a->key.tree_id], a);
	}
	errno = ENOTTY; return -1;
}
extern "C" int close(int fd) { if (fd == FD) return 0; return int(syscall(SYS_close, fd)); }

static string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
struct Ent { uint64_t logical; Key key; uint64_t transid; uint64_t mark; };
static uint64_t mark_of(const Item &i) { uint64_t h = i.data.size(); for (auto c : i.data) h = h * 31 + c; return h; }
static uint64_t mark_of(const BtrfsTreeItem &i) { const auto d = i.data(); uint64_t h = d.size(); for (size_t k = 0; k < d.size(); ++k) h = h * 31 + d[k]; return h; }

// compare every query at one position with the listing of matching items
static void queries(BtrfsTreeFetcher &f, const vector<Ent> &want, uint64_t pos, uint64_t scale, bool only_at = false)
{
	auto judge = [&](const char *what, const BtrfsTreeItem &got, const Ent *ref) {
		mc::compared();
		if (!got != !ref) mc::fail(what, string(what) + "(" + hex(pos) + ") " + (ref ? "finds nothing, the listing has " + hex(ref->logical) : "finds " + hex(got.objectid()) + "." + to_string(got.type()) + "." + hex(got.offset()) + ", the listing has nothing"));
		if (!ref) return;
		if (Key(got.objectid(), got.type(), got.offset()) != ref->key) mc::fail(what, string(what) + "(" + hex(pos) + ") finds " + hex(got.objectid()) + "." + to_string(got.type()) + "." + hex(got.offset()) + ", the listing has " + hex(get<0>(ref->key)) + "." + to_string(get<1>(ref->key)) + "." + hex(get<2>(ref->key)));
		if (got.transid() != ref->transid || mark_of(got) != ref->mark) mc::fail("content", string(what) + "(" + hex(pos) + ") gives other data than the item holds");
	};
	auto run = [&](const char *what, function<BtrfsTreeItem()> q, const Ent *ref) {
		g_calls = 0;
		try { judge(what, q(), ref); } catch (const exception &e) { mc::fail(string(what) + "-error", string(what) + "(" + hex(pos) + ") fails: " + e.what()); }
	};
	// listing is sorted by key, thus by logical; an object can have several items of one type
	const Ent *at = nullptr, *lb = nullptr, *nx = nullptr, *rl = nullptr, *pv = nullptr;
	for (auto &e : want) {
		if (e.logical == pos && !at) at = &e;
		if (e.logical >= pos && !lb) lb = &e;
		if (e.logical > pos && !nx) nx = &e;
		if (e.logical <= pos && (!rl || e.logical > rl->logical)) rl = &e;
		if (e.logical < pos && (!pv || e.logical > pv->logical)) pv = &e;
	}
	(void)scale;
	run("at", [&]() { return f.at(pos); }, at);
	if (only_at) return;
	run("lower_bound", [&]() { return f.lower_bound(pos); }, lb);
	run("next", [&]() { return f.next(pos); }, nx);
	run("rlower_bound", [&]() { return f.rlower_bound(pos); }, rl);
	run("prev", [&]() { return f.prev(pos); }, pv);
}

static Item mk(uint64_t o, uint8_t t, uint64_t off, uint64_t transid, size_t len, uint8_t fill = 7)
{
	Item i; i.objectid = o; i.type = t; i.offset = off; i.transid = transid; i.data.assign(len, fill);
	return i;
}

// items of one type by objectid among items of other types (inodes, roots): scale 1
MC_SCENARIO(objects, INPROC)
{
	g_trees.clear();
	auto &t = g_trees[5];
	const unsigned uni = mc::choose(3);
	static const vector<vector<uint64_t>> us = { {256, 257, 258, 300}, {1, 256, 1ull << 32, ~0ull - 300}, {0, 5, 1ull << 63, ~0ull - 1} };
	const auto &u = us[uni];
	const uint8_t T = BTRFS_INODE_ITEM_KEY + (mc::flip() ? 11 : 0);          // smallest type, or one with smaller types before it
	const uint64_t mint = mc::flip() ? 5 : 0;
	vector<Ent> want;
	int n = 0;
	for (auto o : u) {
		++n;
		// nothing, the item, the item with neighbours of other types, only neighbours
		const unsigned c = mc::choose(5);
		const uint64_t tr = (c == 2 || (c == 1 && n == 2)) ? 9 : 3;
		const size_t len = n == 2 ? 300 : 20;
		if (c >= 2) { if (T > 1) add(t, mk(o, uint8_t(T - 1), 0, 9, 40)); add(t, mk(o, uint8_t(T + 1), 0, 9, 40)); add(t, mk(o, uint8_t(T + 1), ~0ull, 9, 40)); }
		if (c == 4) { for (int k = 0; k < 6; ++k) add(t, mk(o, uint8_t(T + 2), uint64_t(k), 3, 400)); }
		if (c == 1 || c == 2) {
			Item i = mk(o, T, 0, tr, len, uint8_t(n)); add(t, i);
			if (tr >= mint) want.push_back({o, i.key(), tr, mark_of(i)});
		}
	}
	BtrfsInodeFetcher f(Fd(static_cast<int>(FD)));
	f.tree(5); f.type(T); f.transid(mint);
	set<uint64_t> ps; for (auto o : u) { ps.insert(o); ps.insert(o + 1); if (o) ps.insert(o - 1); } ps.insert(0); ps.insert(~0ull - 1);
	for (auto p : ps) queries(f, want, p, 1);
	mc::outcome(want.size());
	if (T == BTRFS_INODE_ITEM_KEY && !mint) for (auto p : ps) {
		bool have = false; for (auto &e : want) have |= e.logical == p;
		mc::check(!!BtrfsInodeFetcher(Fd(static_cast<int>(FD))).stat(5, p) == have, "stat", "inode lookup");
	}
	// a tree that does not exist holds nothing
	f.tree(77); mc::check(!f.lower_bound(0) && !f.at(256) && !f.rlower_bound(1000), "no-tree", "items in a missing tree");
}

// items of one object by offset (file extents): scale is the block size
MC_SCENARIO(offsets, INPROC)
{
	g_trees.clear();
	auto &t = g_trees[260];
	const unsigned uni = mc::choose(2);
	static const vector<vector<uint64_t>> us = { {0, 1, 2, 3, 7, 40, 41}, {0, 31, 32, 33, 1ull << 20, 1ull << 40, 0xfffffffffffffull >> 1} };
	const auto &u = us[uni];
	const uint64_t bs = 4096;
	const uint64_t mint = mc::flip() ? 5 : 0;
	const unsigned around = mc::choose(4);
	if (around & 1) { add(t, mk(256, BTRFS_EXTENT_DATA_KEY, 8192, 9, 53)); add(t, mk(257, BTRFS_INODE_ITEM_KEY, 0, 9, 160)); add(t, mk(257, BTRFS_XATTR_ITEM_KEY, 12345, 9, 100)); }
	if (around & 2) { add(t, mk(258, BTRFS_INODE_ITEM_KEY, 0, 9, 160)); add(t, mk(258, BTRFS_EXTENT_DATA_KEY, 0, 9, 53)); add(t, mk(258, BTRFS_EXTENT_DATA_KEY, 4096, 9, 53)); }
	vector<Ent> want; int n = 0;
	for (auto o : u) {
		++n;
		const unsigned c = mc::choose(n < 3 ? 3 : 2);
		if (!c) continue;
		Item i = mk(257, BTRFS_EXTENT_DATA_KEY, o * bs, (c == 2 || n == 5) ? 3 : 9, n == 1 ? 2048 : 53, uint8_t(n)); add(t, i);
		if (i.transid >= mint) want.push_back({i.offset, i.key(), i.transid, mark_of(i)});
	}
	BtrfsExtentDataFetcher f(Fd(static_cast<int>(FD)));
	f.tree(260); f.objectid(257); f.transid(mint);
	set<uint64_t> ps; for (auto o : u) { ps.insert(o * bs); ps.insert((o + 1) * bs); if (o) ps.insert((o - 1) * bs); }
	ps.insert(500 * bs); 
	for (auto p : ps) queries(f, want, p, bs);
	mc::check(!f.next(~0ull), "next-end", "an item after the greatest position");
	mc::outcome(want.size());
}

// several items of one object at once, with sizes beyond a result page
MC_SCENARIO(pages, INPROC)
{
	g_trees.clear();
	auto &t = g_trees[7];
	static const size_t lens[] = {4, 4000, 4096, 16000, 16384, 40000, 65000};
	vector<Ent> want; uint64_t off = 0x100000; const uint64_t bs = 4096;
	const int N = int(mc::param("items", 4));
	for (int i = 0; i < N; ++i) {
		off += bs * (1 + 40 * mc::choose(2));
		const size_t len = lens[mc::choose(7)];
		Item it = mk(uint64_t(-10), BTRFS_EXTENT_CSUM_KEY, off, 3, len, uint8_t(i + 1)); add(t, it);
		want.push_back({off, it.key(), 3, mark_of(it)});
	}
	BtrfsCsumTreeFetcher f(Fd(static_cast<int>(FD)));
	set<uint64_t> ps; for (auto &e : want) { ps.insert(e.logical); ps.insert(e.logical - bs); ps.insert(e.logical + bs); }
	ps.insert(0);
	for (auto p : ps) queries(f, want, p, bs);
}

// checksums of a range
MC_SCENARIO(csums, INPROC)
{
	g_trees.clear();
	auto &t = g_trees[7];
	const uint64_t bs = 4096, base = 0x200000;
	// runs of blocks with checksums, each run in one or more items
	map<uint64_t, uint32_t> sums;
	const int B = int(mc::param("blocks", 6));
	Item cur; uint32_t next = 0x1000;
	auto flush = [&]() { if (!cur.data.empty()) add(t, cur); cur = Item(); };
	for (int b = 0; b < B; ++b) {
		const unsigned c = mc::choose(3);       // none, continue the item, a new item
		if (c == 0) { flush(); continue; }
		if (c == 2 || cur.data.empty()) { if (c == 1 && false) {} flush(); cur = mk(uint64_t(-10), BTRFS_EXTENT_CSUM_KEY, base + uint64_t(b) * bs, 3, 0); }
		const uint32_t s = ++next; sums[base + uint64_t(b) * bs] = s;
		const uint8_t *p = reinterpret_cast<const uint8_t *>(&s); cur.data.insert(cur.data.end(), p, p + 4);
	}
	flush();
	BtrfsCsumTreeFetcher f(Fd(static_cast<int>(FD)));
	mc::check(f.sum_size() == 4, "sum-size");
	for (int from = -1; from <= B; ++from) for (int cnt = 1; cnt <= B; ++cnt) {
		map<uint64_t, uint32_t> got; const uint64_t lo = base + uint64_t(int64_t(from) * int64_t(bs)), hi = lo + uint64_t(cnt) * bs;
		g_calls = 0;
		try {
			f.get_sums(lo, size_t(cnt), [&](uint64_t logical, const uint8_t *buf, size_t bytes) {
				for (size_t i = 0; i < bytes; i += 4) { uint32_t s; memcpy(&s, buf + i, 4); if (!got.emplace(logical + i / 4 * bs, s).second) mc::fail("twice", "a block is reported twice"); }
			});
		} catch (const exception &e) { mc::fail("error", e.what()); }
		map<uint64_t, uint32_t> want; for (auto &s : sums) if (s.first >= lo && s.first < hi) want.insert(s);
		mc::compared();
		mc::check(got == want, "sums", to_string(got.size()) + " checksums for blocks " + to_string(from) + "+" + to_string(cnt) + ", there are " + to_string(want.size()));
	}
}

// data extents between metadata block groups
MC_SCENARIO(data_extents, INPROC)
{
	g_trees.clear();
	auto &et = g_trees[BTRFS_EXTENT_TREE_OBJECTID]; auto &ct = g_trees[BTRFS_CHUNK_TREE_OBJECTID];
	const uint64_t bs = 4096, CH = 64 * bs;
	const int C = int(mc::param("chunks", 3)), E = int(mc::param("extents", 2));
	vector<Ent> want; vector<uint64_t> pos; int serial = 0;
	const uint64_t mint = mc::flip() ? 5 : 0;
	uint64_t base = mc::flip() ? 0 : CH * 3;
	for (int c = 0; c < C; ++c) {
		const unsigned kind = mc::choose(3);       // data, metadata, mixed
		const uint64_t cb = base;
		base += CH + (mc::flip() ? CH : 0);
		btrfs_chunk k; memset(&k, 0, sizeof k); k.length = CH; k.type = kind == 0 ? BTRFS_BLOCK_GROUP_DATA : kind == 1 ? BTRFS_BLOCK_GROUP_METADATA : (BTRFS_BLOCK_GROUP_DATA | BTRFS_BLOCK_GROUP_METADATA);
		k.num_stripes = 1;
		Item i = mk(BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, cb, 9, sizeof k); memcpy(i.data.data(), &k, sizeof k); add(ct, i);
		static const uint64_t offs[3][2] = { {0, 1}, {0, 63}, {5, 20} };
		const unsigned pat = mc::choose(3);
		for (int e = 0; e < E; ++e) {
			if (e < 2 ? !mc::flip() : false) continue;
			const uint64_t b = cb + offs[pat][e % 2] * bs, len = bs * (pat == 2 ? 3 : 1);
			btrfs_extent_item x; memset(&x, 0, sizeof x); x.refs = 1; x.generation = 3; x.flags = kind == 1 ? BTRFS_EXTENT_FLAG_TREE_BLOCK : BTRFS_EXTENT_FLAG_DATA;
			const uint64_t tr = (e == 1 && c == 1) ? 3 : 9;
			Item xi = mk(b, kind == 1 ? BTRFS_METADATA_ITEM_KEY : BTRFS_EXTENT_ITEM_KEY, kind == 1 ? 0 : len, tr, sizeof x, uint8_t(++serial)); memcpy(xi.data.data(), &x, sizeof x);
			add(et, xi); pos.push_back(b);
			if (kind != 1 && tr >= mint) want.push_back({b, xi.key(), tr, mark_of(xi)});
		}
		if (mc::param("bgitems", 1)) add(et, mk(cb, BTRFS_BLOCK_GROUP_ITEM_KEY, CH, 9, 24));
		pos.push_back(cb);
	}
	BtrfsDataExtentTreeFetcher f(Fd(static_cast<int>(FD)));
	f.transid(mint);
	set<uint64_t> ps; for (auto o : pos) { ps.insert(o); ps.insert(o + bs); if (o) ps.insert(o - bs); } ps.insert(0);
	if (mc::param("walk", 0)) {
		// one fetcher used for a whole walk, as the scan does, forward then backward
		uint64_t p = 0; size_t n = 0;
		for (;;) { g_calls = 0; auto i = n ? f.next(p) : f.lower_bound(0); if (!i) break; mc::check(n < want.size() && i.objectid() == want[n].logical, "walk", "item " + to_string(n) + " of the walk is " + hex(i.objectid())); p = i.objectid(); ++n; mc::compared(); }
		mc::check(n == want.size(), "walk", "the walk ends after " + to_string(n) + " of " + to_string(want.size()));
		while (n--) { g_calls = 0; mc::compared(); auto i = f.prev(p + bs); mc::check(!!i && i.objectid() == want[n].logical, "walk-back", "backward"); p = i.objectid(); if (n) p -= bs; }
		return;
	}
	for (auto p : ps) { BtrfsDataExtentTreeFetcher f2(Fd(static_cast<int>(FD))); f2.transid(mint); queries(f2, want, p, bs); }
	for (auto p : ps) queries(f, want, p, bs);      // a fetcher with a remembered block group
	mc::outcome(want.size());
}
