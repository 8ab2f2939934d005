// C24: the extent walker over every small file layout, from every start, in both directions.
#include "mc.h"
#include "treesim.h"
#include "crucible/error.h"
#include "crucible/extentwalker.h"
#include "crucible/fs.h"
#include <cstdarg>
#include <linux/fiemap.h>
#include <set>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace std;
using namespace crucible;
using namespace treesim;

static Tree g_tree; static off_t g_size; static int g_calls;
static const int FD = 700; static const uint64_t INO = 300, ROOT = 261;
extern "C" int ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (fd != FD) return int(syscall(SYS_ioctl, fd, req, arg));
	if (req == BTRFS_IOC_INO_LOOKUP) { auto a = static_cast<btrfs_ioctl_ino_lookup_args *>(arg); if (!a->treeid) a->treeid = ROOT; a->name[0] = 0; return 0; }
	if (req == BTRFS_IOC_TREE_SEARCH_V2) {
		auto a = static_cast<btrfs_ioctl_search_args_v2 *>(arg);
		if (++g_calls > 3000) mc::fail("unbounded", "more than 3000 searches");
		mc::step();
		if (a->key.tree_id != ROOT) { errno = ENOENT; return -1; }
		return search(g_tree, a);
	}
	errno = ENOTTY; return -1;
}
extern "C" int fstat(int fd, struct stat *st)
{
	if (fd != FD) return int(syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH));
	memset(st, 0, sizeof *st); st->st_ino = INO; st->st_size = g_size; st->st_mode = S_IFREG | 0644; st->st_nlink = 1; return 0;
}
extern "C" int close(int fd) { if (fd == FD) return 0; return int(syscall(SYS_close, fd)); }

static string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
struct Seg { off_t begin, end; uint64_t flags, physical, bytenr; off_t offset, plen; bool item; off_t olen = 0; };
static const uint64_t FLAGS = Extent::HOLE | Extent::PREALLOC | FIEMAP_EXTENT_ENCODED | FIEMAP_EXTENT_DATA_INLINE;

static vector<Seg> g_ref;
static string text(const Seg &s) { return hex(s.begin) + ".." + hex(s.end) + " phys " + hex(s.physical) + " flags " + hex(s.flags); }
static string text(const Extent &e) { return hex(e.begin()) + ".." + hex(e.end()) + " phys " + hex(e.physical()) + " flags " + hex(e.flags()); }
static string layout() { string s = "size " + hex(g_size) + ":"; for (auto &r : g_ref) s += "\n   " + text(r); return s; }

static void same(const char *what, const Extent &e, const Seg &s)
{
	mc::compared();
	if (e.begin() != s.begin || e.end() != s.end || (e.flags() & FLAGS) != s.flags || e.physical() != s.physical)
		mc::fail(what, string(what) + ": " + text(e) + " where the file has " + text(s) + "; " + layout());
	if (s.item && !(s.flags & (FIEMAP_EXTENT_DATA_INLINE | Extent::HOLE))) {
		const bool obscured = s.offset || s.plen != s.olen;
		mc::check(e.offset() == s.offset && e.physical_len() == s.plen, "ref", "offset " + hex(e.offset()) + " and length " + hex(e.physical_len()) + " of " + text(s));
		mc::check(e.bytenr() == s.bytenr, "bytenr", "extent at " + hex(e.bytenr()) + " instead of " + hex(s.bytenr));
		mc::check(!!(e.flags() & Extent::OBSCURED) == obscured, "obscured", "obscured flag of " + text(s));
	}
	if (s.end < g_size) mc::check(!(e.flags() & FIEMAP_EXTENT_LAST), "last", "last flag on " + text(s) + "; " + layout());
	else if (s.item && !(s.flags & Extent::HOLE)) mc::check(e.flags() & FIEMAP_EXTENT_LAST, "last", "no last flag on " + text(s) + "; " + layout());
}

static size_t index_of(off_t pos) { for (size_t i = 0; i < g_ref.size(); ++i) if (pos >= g_ref[i].begin && pos < g_ref[i].end) return i; return g_ref.size() - 1; }

static void walk_all(const set<off_t> &starts)
{
	auto guard = [&](const char *what, off_t at, function<void()> f) {
		g_calls = 0;
		try { f(); } catch (const exception &e) { mc::fail(string(what) + "-error", string(what) + " at " + hex(at) + " fails: " + string(e.what()).substr(0, 300) + "; " + layout()); }
	};
	const Fd fd(static_cast<int>(FD));
	for (auto s : starts) {
		size_t i = index_of(s);
		guard("seek", s, [&]() { BtrfsExtentWalker w(fd, s, fd); same("seek", w.current(), g_ref[i]); });
		guard("forward", s, [&]() {
			BtrfsExtentWalker w(fd, s, fd);
			for (size_t k = i;; ) { same("forward", w.current(), g_ref[k]); if (!w.next()) { mc::check(k + 1 == g_ref.size(), "forward-end", "the walk ends at " + hex(g_ref[k].end) + "; " + layout()); break; } ++k; mc::check(k < g_ref.size(), "forward-beyond", "the walk goes beyond the end"); } });
		guard("backward", s, [&]() {
			BtrfsExtentWalker w(fd, s, fd);
			for (size_t k = i;; ) { same("backward", w.current(), g_ref[k]); if (!w.prev()) { mc::check(k == 0, "backward-end", "the walk ends at " + hex(g_ref[k].begin) + "; " + layout()); break; } mc::check(k > 0, "backward-beyond", "the walk goes before the beginning"); --k; } });
	}
	// one walker for everything, there and back
	guard("there-and-back", 0, [&]() {
		BtrfsExtentWalker w(fd, 0, fd);
		size_t k = 0; while (w.next()) ++k; mc::check(k + 1 == g_ref.size(), "forward-end", "the walk ends early");
		while (w.prev()) { --k; same("back", w.current(), g_ref[k]); } mc::check(k == 0, "backward-end", "the walk back ends early");
		for (auto s : starts) { w.seek(s); same("reseek", w.current(), g_ref[index_of(s)]); } });
}

static void build(const vector<unsigned> &kinds, off_t seglen, unsigned tail, unsigned next_ino, bool prev_ino)
{
	g_tree.clear(); g_ref.clear();
	vector<Seg> all; off_t pos = 0; uint64_t addr = 0x10000000; unsigned n = 0;
	auto item = [&](uint8_t type, uint64_t bytenr, uint64_t disk, uint64_t eoff, uint64_t num, uint64_t ram, uint8_t comp) { add(g_tree, extent_data(INO, uint64_t(pos), type, bytenr, disk, eoff, num, ram, comp, 5, 5)); };
	for (auto k : kinds) {
		++n; const uint64_t L = uint64_t(seglen); const uint64_t a = addr; addr += 0x1000000;
		Seg s{pos, off_t(pos + off_t(L)), 0, 0, 0, 0, off_t(L), true, off_t(L)};
		switch (k) {
		case 0: item(BTRFS_FILE_EXTENT_REG, a, L, 0, L, L, 0); s.physical = s.bytenr = a; break;
		case 1: s.flags = Extent::HOLE; s.item = false; break;
		case 2: item(BTRFS_FILE_EXTENT_REG, a, 4096, 0, L, L, 1); s.flags = FIEMAP_EXTENT_ENCODED; s.physical = s.bytenr = a; break;
		case 3: item(BTRFS_FILE_EXTENT_REG, 0, 0, 0, L, L, 0); s.flags = Extent::HOLE; break;
		case 4: item(BTRFS_FILE_EXTENT_PREALLOC, a, L * 2, L, L, L * 2, 0); s.flags = Extent::PREALLOC; s.physical = a + L; s.bytenr = a; s.offset = off_t(L); s.plen = off_t(L * 2); break;
		case 5: item(BTRFS_FILE_EXTENT_REG, a, L * 3, L, L, L * 3, 0); s.physical = a + L; s.bytenr = a; s.offset = off_t(L); s.plen = off_t(L * 3); break;
		case 6: item(BTRFS_FILE_EXTENT_REG, a, 8192, L, L, L * 3, 2); s.flags = FIEMAP_EXTENT_ENCODED; s.physical = a; s.bytenr = a; s.offset = off_t(L); s.plen = off_t(L * 3); break;
		}
		pos += off_t(L);
		if (k == 1 && !all.empty() && all.back().flags == Extent::HOLE && !all.back().item) all.back().end = pos; else all.push_back(s);
	}
	// the end of the file: at the end of the last segment, inside it, in a hole after it, and with space reserved beyond it
	g_size = pos;
	switch (tail) {
	case 0: break;
	case 1: g_size = pos - seglen + 100; break;
	case 2: g_size = pos + 8192 + 17; break;
	case 3: { const uint64_t a = addr; item(BTRFS_FILE_EXTENT_PREALLOC, a, 65536, 0, 65536, 65536, 0); break; }
	case 4: { g_size = pos + 4096; pos += 8192; const uint64_t a = addr; item(BTRFS_FILE_EXTENT_PREALLOC, a, 65536, 0, 65536, 65536, 0); break; }
	}
	off_t end = 0;
	for (auto &s : all) { if (s.begin >= g_size) break; if (s.end > g_size) s.end = g_size; g_ref.push_back(s); end = s.end; }
	if (end < g_size) {
		if (!g_ref.empty() && g_ref.back().flags == Extent::HOLE && !g_ref.back().item) g_ref.back().end = g_size;
		else g_ref.push_back({end, g_size, Extent::HOLE, 0, 0, 0, 0, false});
	}
	Item i; i.type = BTRFS_INODE_ITEM_KEY; i.objectid = INO; i.data.assign(160, 0); add(g_tree, i);
	if (prev_ino) { i.objectid = INO - 1; add(g_tree, i); add(g_tree, extent_data(INO - 1, 0, BTRFS_FILE_EXTENT_REG, 0x4000, 4096, 0, 4096, 4096, 0, 5, 5)); }
	if (next_ino) { i.objectid = INO + 1; add(g_tree, i); }
	if (next_ino == 2) { add(g_tree, extent_data(INO + 1, 0, BTRFS_FILE_EXTENT_REG, 0x4000, 4096, 0, 4096, 4096, 0, 5, 5)); add(g_tree, extent_data(INO + 1, 4096, BTRFS_FILE_EXTENT_REG, 0x8000, 4096, 0, 4096, 4096, 0, 5, 5)); }
}
static set<off_t> starts()
{
	set<off_t> rv;
	for (auto &r : g_ref) { rv.insert(r.begin); const off_t l = (r.end - 1) & ~off_t(4095); rv.insert(l); if (r.begin + 4096 < r.end) rv.insert(r.begin + 4096); rv.insert(((r.begin + r.end) / 2) & ~off_t(4095)); }
	if (!(g_size & 4095)) rv.insert(g_size);
	return rv;
}

// every sequence of segments
MC_SCENARIO(layouts, INPROC)
{
	const int K = int(mc::param("segments", 4));
	vector<unsigned> ks; const unsigned n = 1 + mc::choose(unsigned(K));
	for (unsigned i = 0; i < n; ++i) ks.push_back(mc::choose(7));
	static const off_t lens[] = {4096, 131072};
	const off_t L = lens[mc::choose(2)];
	const unsigned tail = mc::choose(5), nx = mc::choose(3);
	build(ks, L, tail, nx, nx != 1);
	walk_all(starts());
	mc::outcome(g_ref.size());
}
// patterns repeated beyond a page of results
MC_SCENARIO(repeated, INPROC)
{
	const int K = int(mc::param("segments", 3)), R = int(mc::param("items", 40));
	vector<unsigned> pat, ks; const unsigned n = 1 + mc::choose(unsigned(K));
	for (unsigned i = 0; i < n; ++i) pat.push_back(mc::choose(7));
	static const off_t lens[] = {4096, 16384, 1 << 20};
	const off_t L = lens[mc::choose(3)];
	const unsigned lead = mc::choose(3);                 // a long hole before, inside
	if (lead == 1) for (int i = 0; i < 33; ++i) ks.push_back(1);
	while (int(ks.size()) < R) { ks.insert(ks.end(), pat.begin(), pat.end()); if (lead == 2 && int(ks.size()) > R / 2 && int(ks.size()) < R / 2 + 20) for (int i = 0; i < 40; ++i) ks.push_back(1); }
	const unsigned tail = mc::choose(5), nx = mc::choose(3);
	build(ks, L, tail, nx, nx != 1);
	walk_all(starts());
	mc::outcome(g_ref.size());
}
// inline files
MC_SCENARIO(inlines, INPROC)
{
	g_tree.clear(); g_ref.clear();
	static const uint64_t sizes[] = {1, 100, 2048, 4095, 4096};
	const uint64_t n = sizes[mc::choose(5)]; const uint8_t comp = uint8_t(mc::choose(2)); const unsigned nx = mc::choose(2);
	add(g_tree, extent_data(INO, 0, BTRFS_FILE_EXTENT_INLINE, 0, 0, 0, 0, n, comp, 5, 5));
	const unsigned grow = mc::choose(2);
	g_size = off_t(n);
	g_ref.push_back({0, off_t(n), FIEMAP_EXTENT_DATA_INLINE | (comp ? uint64_t(FIEMAP_EXTENT_ENCODED) : 0), 0, 0, 0, 0, true});
	if (nx) { Item i; i.type = BTRFS_INODE_ITEM_KEY; i.objectid = INO + 1; i.data.assign(160, 0); add(g_tree, i); }
	if (grow && n == 4096) { g_size = 8192; g_ref.push_back({4096, 8192, Extent::HOLE, 0, 0, 0, 0, false}); }
	walk_all({0});
}
