// In-memory btrfs and the system calls the daemon makes on it.
#undef _FILE_OFFSET_BITS
#include "sim.h"
#include "internal.h"
#include "treesim.h"
#include <deque>
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/btrfs.h>
#include <linux/btrfs_tree.h>
#include <linux/fiemap.h>
#include <linux/fs.h>
#include <linux/magic.h>
#include <linux/openat2.h>
#include <random>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <sys/vfs.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>

#ifndef BTRFS_LOGICAL_INO_ARGS_IGNORE_OFFSET
#define BTRFS_LOGICAL_INO_ARGS_IGNORE_OFFSET 1
#endif

extern int bees_real_main(int, char **) __attribute__((weak));

// the same random numbers in every execution
unsigned int std::random_device::_M_getval() { return 12345; }

namespace sim {

FS *fs;
bool running = false;
std::function<void(Call &)> on_call;
std::map<std::string, std::string> *env;

// ---------------------------------------------------------------- arena
namespace {
const size_t ARENA = 1ull << 31;
struct Contents { uint64_t seed; uint32_t len; uint8_t *data; };
struct ArenaHead {
	size_t used;
	FS *fs;
	Map<u64, Bid> *index;
	Vec<Contents> *contents;
	size_t cursor;
};
ArenaHead *A;
}
void *arena_alloc(size_t n)
{
	n = (n + 15) & ~size_t(15);
	if (A->used + n > ARENA) mc::error("sim: arena full");
	void *p = reinterpret_cast<uint8_t *>(A) + A->used;
	A->used += n;
	return p;
}
template <class T, class... X> T *anew(X &&...x) { return new (arena_alloc(sizeof(T))) T(std::forward<X>(x)...); }

// ---------------------------------------------------------------- contents
static u64 digest(const uint8_t *d)
{
	u64 h = 0x9ae16a3b2f90404full;
	for (size_t i = 0; i < BLK; i += 8) { u64 v; memcpy(&v, d + i, 8); h ^= v; h *= 0x9fb21c651e98df25ull; h ^= h >> 29; }
	return h;
}
static void gen(u64 seed, size_t len, uint8_t *out)
{
	u64 x = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
	memset(out, 0, BLK);
	for (size_t i = 0; i < len; i += 8) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		u64 v = x * 0x2545f4914f6cdd1dull;
		memcpy(out + i, &v, std::min<size_t>(8, len - i));
	}
	if (len) out[0] |= 1;
}
const uint8_t *content(Bid b)
{
	const Contents &c = (*A->contents)[b];
	if (c.data) return c.data;
	static uint8_t *ring;
	static unsigned n;
	if (!ring) ring = static_cast<uint8_t *>(malloc(16 * BLK));
	uint8_t *p = ring + (n++ % 16) * BLK;
	gen(c.seed, c.len, p);
	return p;
}
Bid intern(const void *data, size_t len)
{
	uint8_t b[BLK];
	memset(b, 0, BLK); memcpy(b, data, std::min<size_t>(len, BLK));
	const u64 h = digest(b);
	auto i = A->index->find(h);
	if (i != A->index->end()) return i->second;
	Contents c; c.seed = 0; c.len = BLK; c.data = static_cast<uint8_t *>(arena_alloc(BLK));
	memcpy(c.data, b, BLK);
	A->contents->push_back(c);
	return (*A->index)[h] = Bid(A->contents->size() - 1);
}
Bid pattern(unsigned n, size_t len)
{
	uint8_t b[BLK];
	gen(n, len, b);
	const u64 h = digest(b);
	auto i = A->index->find(h);
	if (i != A->index->end()) return i->second;
	Contents c; c.seed = n; c.len = uint32_t(len); c.data = nullptr;
	A->contents->push_back(c);
	return (*A->index)[h] = Bid(A->contents->size() - 1);
}

// ---------------------------------------------------------------- filesystem
static void init_root(Root &r, u64 id, u64 parent, const char *name)
{
	r.id = id; r.parent = parent; r.name = name; r.transid = fs->cur;
	Inode &i = r.inodes[256];
	i.ino = 256; i.mode = 040755; i.transid = fs->cur;
}
void reset()
{
	void *p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) mc::error("sim: mmap");
	A = static_cast<ArenaHead *>(p);
	A->used = (sizeof(ArenaHead) + 63) & ~size_t(63);
	A->index = anew<Map<u64, Bid>>();
	A->contents = anew<Vec<Contents>>();
	fs = anew<FS>();
	Contents z; z.seed = 0; z.len = 0; z.data = static_cast<uint8_t *>(arena_alloc(BLK));
	A->contents->push_back(z);
	(*A->index)[digest(z.data)] = 0;
	fs->next_bytenr = 0;
	fs->chunks[16 * MB] = Chunk{1024 * MB, BTRFS_BLOCK_GROUP_DATA};
	fs->next_bytenr = 16 * MB;
	init_root(fs->roots[5], 5, 0, "");
	if (!env) env = new std::map<std::string, std::string>;
	env->clear();
	on_call = nullptr;
}
static void touch() { fs->changed = true; }
void commit();
static void flush(Inode &ino, Root &r, u64 from, u64 to);

Root &root(u64 id) { auto i = fs->roots.find(id); if (i == fs->roots.end()) mc::error("sim: no root"); return i->second; }
Inode &inode(u64 rid, u64 ino) { Root &r = root(rid); auto i = r.inodes.find(ino); if (i == r.inodes.end()) mc::error("sim: no inode"); return i->second; }

Root &add_subvol(u64 id, const char *name, u64 parent, u64 dirid, bool ro)
{
	Root &r = fs->roots[id];
	init_root(r, id, parent, name);
	r.dirid = dirid; r.ro = ro;
	Dent d; d.subvol = id;
	root(parent).dents[std::make_pair(dirid, Str(name))] = d;
	touch();
	return r;
}
static u64 new_inode(Root &r, uint32_t mode)
{
	const u64 n = r.next_ino++;
	Inode &i = r.inodes[n];
	i.ino = n; i.mode = mode; i.transid = fs->cur; r.transid = fs->cur; i.mtime = fs->cur;
	touch();
	return n;
}
void link(u64 rid, u64 dir, const char *name, u64 ino)
{
	Dent d; d.ino = ino;
	root(rid).dents[std::make_pair(dir, Str(name))] = d;
	touch();
}
u64 add_file(u64 rid, const char *name, u64 dir, uint32_t mode) { u64 n = new_inode(root(rid), mode); link(rid, dir, name, n); return n; }
u64 add_dir(u64 rid, const char *name, u64 dir) { return add_file(rid, name, dir, 040755); }
u64 add_symlink(u64 rid, const char *name, const char *target, u64 dir) { u64 n = add_file(rid, name, dir, 0120777); inode(rid, n).target = target; return n; }

u64 new_extent(const std::vector<Bid> &blocks, uint8_t comp, u64 disk_len, u64 at)
{
	Ext e;
	const u64 ram = blocks.size() * BLK;
	if (!disk_len) disk_len = comp ? std::max<u64>(BLK, (ram / 2 + BLK - 1) / BLK * BLK) : ram;
	if (!at) {
		if (fs->reuse) {
			// lowest free space in a data chunk
			for (auto &c : fs->chunks) if (c.second.type & BTRFS_BLOCK_GROUP_DATA) {
				u64 p = c.first;
				for (auto &x : fs->exts) if (x.first + x.second.disk_len > p && x.first < c.first + c.second.len) {
					if (x.first >= p + disk_len) break;
					p = x.first + x.second.disk_len;
				}
				if (p + disk_len <= c.first + c.second.len) { at = p; break; }
			}
			if (!at) mc::error("sim: no space");
		} else {
			at = fs->next_bytenr;
			// stay inside a data chunk
			for (;;) {
				const std::pair<const u64, Chunk> *in = nullptr;
				for (auto &c : fs->chunks) if ((c.second.type & BTRFS_BLOCK_GROUP_DATA) && at >= c.first && at + disk_len <= c.first + c.second.len) in = &c;
				if (in) break;
				u64 nx = 0;
				for (auto &c : fs->chunks) if ((c.second.type & BTRFS_BLOCK_GROUP_DATA) && c.first > at) { nx = c.first; break; }
				if (!nx) mc::error("sim: no space");
				at = nx;
			}
			fs->next_bytenr = at + disk_len;
		}
	}
	e.bytenr = at; e.disk_len = disk_len; e.comp = comp; e.gen = fs->cur; e.transid = fs->cur;
	e.blocks.assign(blocks.begin(), blocks.end());
	fs->exts[at] = e;
	touch();
	return at;
}
static void bump(Root &r, Inode &i) { i.transid = fs->cur; r.transid = fs->cur; touch(); }

// remove what is mapped in [off, off+len)
static void drop(Root &r, Inode &ino, u64 off, u64 len)
{
	const u64 end = off + len;
	for (auto i = ino.ext.begin(); i != ino.ext.end();) {
		const u64 b = i->first;
		FExt x = i->second;
		const u64 l = x.type == F_INLINE ? std::max<u64>(1, (std::max<u64>(x.num, 1) + BLK - 1) / BLK * BLK) : x.num;
		const u64 e = b + l;
		if (e <= off || b >= end) { ++i; continue; }
		i = ino.ext.erase(i);
		if (x.ext) { auto xe = fs->exts.find(x.ext); if (xe != fs->exts.end()) xe->second.transid = fs->cur; }
		if (x.type == F_INLINE) continue;
		if (b < off) { FExt h = x; h.num = off - b; h.transid = fs->cur; ino.ext[b] = h; }
		if (e > end) { FExt t = x; t.eoff += end - b; t.num = e - end; t.transid = fs->cur; ino.ext[end] = t; }
	}
	bump(r, ino);
}
static void put(Root &r, Inode &ino, u64 off, const FExt &x)
{
	if (x.ext) fs->exts[x.ext].transid = fs->cur;
	ino.ext[off] = x;
	bump(r, ino);
}
void map_extent(u64 rid, u64 in, u64 off, u64 ext, u64 eoff, u64 num, uint8_t type)
{
	Root &r = root(rid); Inode &i = inode(rid, in);
	drop(r, i, off, num);
	FExt x; x.num = num; x.ext = ext; x.eoff = eoff; x.type = type; x.transid = fs->cur; x.gen = fs->cur;
	if (ext) { auto e = fs->exts.find(ext); if (e == fs->exts.end()) mc::error("sim: map_extent"); x.comp = e->second.comp; x.gen = e->second.gen; }
	put(r, i, off, x);
	i.size = std::max(i.size, off + num);
}
void map_inline(u64 rid, u64 in, const std::string &data, uint8_t comp, u64 ram)
{
	Root &r = root(rid); Inode &i = inode(rid, in);
	FExt x; x.type = F_INLINE; x.comp = comp; x.num = ram ? ram : data.size(); x.inl.assign(data.begin(), data.end()); x.transid = x.gen = fs->cur;
	drop(r, i, 0, BLK);
	put(r, i, 0, x);
	i.size = std::max(i.size, x.num);
}
void set_size(u64 rid, u64 in, u64 size) { inode(rid, in).size = size; }

static bool references(u64 ext)
{
	for (auto &r : fs->roots) for (auto &i : r.second.inodes) if (!r.second.dead || i.second.opens) for (auto &x : i.second.ext) if (x.second.ext == ext) return true;
	return false;
}
void collect()
{
	std::set<u64> used;
	for (auto &r : fs->roots) for (auto &i : r.second.inodes) if (!r.second.dead || i.second.opens) for (auto &x : i.second.ext) if (x.second.ext) used.insert(x.second.ext);
	for (auto i = fs->exts.begin(); i != fs->exts.end();) if (!used.count(i->first)) i = fs->exts.erase(i); else ++i;
}
void write_blocks(u64 rid, u64 in, u64 off, const std::vector<Bid> &blocks, uint8_t comp)
{
	Root &r = root(rid); Inode &i = inode(rid, in);
	const u64 e = new_extent(blocks, comp);
	const u64 len = blocks.size() * BLK;
	for (u64 b = off / BLK; b < (off + len) / BLK; ++b) i.dirty.erase(b);
	drop(r, i, off, len);
	FExt x; x.num = len; x.ext = e; x.comp = comp; x.transid = x.gen = fs->cur;
	put(r, i, off, x);
	i.size = std::max(i.size, off + len);
	++i.user_writes; i.mtime = fs->cur;
	collect();
}
void punch(u64 rid, u64 in, u64 off, u64 len) { Root &r = root(rid); Inode &i = inode(rid, in); drop(r, i, off, len); ++i.user_writes; i.mtime = fs->cur; collect(); }
static void do_truncate(Root &r, Inode &i, u64 size)
{
	if (size < i.size) {
		const u64 end = (size + BLK - 1) / BLK * BLK;
		for (auto d = i.dirty.begin(); d != i.dirty.end();) if (d->first * BLK >= end) d = i.dirty.erase(d); else ++d;
		u64 top = end;
		for (auto &x : i.ext) top = std::max(top, x.first + x.second.num + BLK);
		if (top > end) drop(r, i, end, top - end);
		// (the part of the last block beyond the end reads as zero)
	}
	i.size = size;
	bump(r, i);
}
void truncate(u64 rid, u64 in, u64 size) { Root &r = root(rid); Inode &i = inode(rid, in); do_truncate(r, i, size); ++i.user_writes; i.mtime = fs->cur; collect(); }
static unsigned links(const Root &r, u64 ino) { unsigned n = 0; for (auto &d : r.dents) if (d.second.ino == ino && !d.second.mount && !d.second.subvol) ++n; return n; }
static void maybe_free(Root &r, u64 in)
{
	auto i = r.inodes.find(in);
	if (i == r.inodes.end() || in == 256) return;
	if (i->second.opens || links(r, in)) return;
	r.inodes.erase(i);
	collect();
	touch();
}
void unlink(u64 rid, u64 dir, const char *name)
{
	Root &r = root(rid);
	auto d = r.dents.find(std::make_pair(dir, Str(name)));
	if (d == r.dents.end()) return;
	const u64 in = d->second.ino;
	r.dents.erase(d); r.transid = fs->cur; touch();
	if (in) { auto i = r.inodes.find(in); if (i != r.inodes.end()) { i->second.nlink = links(r, in); maybe_free(r, in); } }
}
void rename(u64 rid, u64 dir, const char *name, u64 dir2, const char *name2)
{
	Root &r = root(rid);
	auto d = r.dents.find(std::make_pair(dir, Str(name)));
	if (d == r.dents.end()) return;
	Dent e = d->second;
	auto o = r.dents.find(std::make_pair(dir2, Str(name2)));
	const u64 old = o != r.dents.end() ? o->second.ino : 0;
	r.dents.erase(d);
	r.dents[std::make_pair(dir2, Str(name2))] = e;
	if (old) { auto i = r.inodes.find(old); if (i != r.inodes.end()) { i->second.nlink = links(r, old); maybe_free(r, old); } }
	r.transid = fs->cur; touch();
}
void move_subvol(u64 id, u64 parent, u64 dirid, const char *name)
{
	Root &r = root(id);
	for (auto &p : fs->roots) for (auto d = p.second.dents.begin(); d != p.second.dents.end();) if (!d->second.mount && d->second.subvol == id) d = p.second.dents.erase(d); else ++d;
	r.parent = parent; r.dirid = dirid; r.name = name;
	Dent d; d.subvol = id;
	root(parent).dents[std::make_pair(dirid, Str(name))] = d;
	touch();
}
void mount_over(u64 rid, u64 dir, const char *name, u64 mroot, u64 mino)
{
	Dent d; d.subvol = mroot; d.ino = mino; d.mount = true;
	root(rid).dents[std::make_pair(dir, Str(name))] = d;
}
void snapshot(u64 src, u64 id, const char *name, bool ro)
{
	// (delayed data is written out first)
	Root &s = root(src);
	for (auto &i : s.inodes) flush(i.second, s, 0, ~0ull);
	Root n = s;
	for (auto i = n.inodes.begin(); i != n.inodes.end();) if (i->second.tmp || !i->second.nlink) i = n.inodes.erase(i); else { i->second.opens = 0; ++i; }
	n.id = id; n.parent = 5; n.name = name; n.ro = ro; n.transid = fs->cur; n.dirid = 256;
	for (auto i = n.inodes.begin(); i != n.inodes.end();) { i->second.opens = 0; if (i->second.tmp) i = n.inodes.erase(i); else ++i; }
	fs->roots[id] = n;
	Dent d; d.subvol = id;
	root(5).dents[std::make_pair(u64(256), Str(name))] = d;
	touch();
}
void delete_subvol(u64 id)
{
	Root &r = root(id);
	r.dead = true;
	for (auto &p : fs->roots) for (auto d = p.second.dents.begin(); d != p.second.dents.end();) if (d->second.subvol == id) d = p.second.dents.erase(d); else ++d;
	collect(); touch();
}

// ---------------------------------------------------------------- data
static Bid block_at(const Inode &i, u64 blk, bool dirty = true)
{
	if (dirty) { auto d = i.dirty.find(blk); if (d != i.dirty.end()) return d->second; }
	const u64 off = blk * BLK;
	auto x = i.ext.upper_bound(off);
	if (x == i.ext.begin()) return 0;
	--x;
	const FExt &e = x->second;
	if (e.type == F_INLINE) {
		if (off >= (e.num + BLK - 1) / BLK * BLK) return 0;
		// (compressed inline data is kept as it reads)
		std::string s(e.inl.begin(), e.inl.end());
		s.resize(e.num, 'c');
		return intern(s.data(), s.size());
	}
	if (off >= x->first + e.num || !e.ext || e.type == F_PREALLOC) return 0;
	const Ext &xe = fs->exts.find(e.ext)->second;
	const u64 k = (off - x->first + e.eoff) / BLK;
	if (k >= xe.blocks.size()) mc::error("sim: extent item beyond its extent");
	return xe.blocks[k];
}
static ssize_t read_at(const Inode &i, void *buf, size_t len, u64 off)
{
	if (off >= i.size) return 0;
	len = std::min<u64>(len, i.size - off);
	size_t done = 0;
	while (done < len) {
		const u64 p = off + done, in = p % BLK;
		const size_t n = std::min<u64>(BLK - in, len - done);
		memcpy(static_cast<uint8_t *>(buf) + done, content(block_at(i, p / BLK)) + in, n);
		done += n;
	}
	return ssize_t(len);
}
std::string read_file(u64 rid, u64 in)
{
	const Inode &i = inode(rid, in);
	std::string s(i.size, 0);
	read_at(i, &s[0], s.size(), 0);
	return s;
}
static void write_at(Root &r, Inode &i, const void *buf, size_t len, u64 off)
{
	size_t done = 0;
	while (done < len) {
		const u64 p = off + done, in = p % BLK;
		const size_t n = std::min<u64>(BLK - in, len - done);
		uint8_t b[BLK];
		memcpy(b, content(block_at(i, p / BLK)), BLK);
		// stale bytes beyond the old end of file read as zero
		if (p / BLK * BLK + BLK > i.size) { const u64 k = i.size > p / BLK * BLK ? i.size - p / BLK * BLK : 0; memset(b + k, 0, BLK - k); }
		memcpy(b + in, static_cast<const uint8_t *>(buf) + done, n);
		i.dirty[p / BLK] = intern(b, BLK);
		done += n;
	}
	i.size = std::max(i.size, off + len);
	touch();
}
static void flush(Inode &i, Root &r, u64 from, u64 to)
{
	std::vector<std::pair<u64, std::vector<Bid>>> runs;
	for (auto d = i.dirty.begin(); d != i.dirty.end();) {
		const u64 off = d->first * BLK;
		if (off + BLK <= from || off >= to) { ++d; continue; }
		const bool comp = fs->compress && (i.iflags & FS_COMPR_FL);
		const size_t max = comp ? 32 : 32768;
		if (runs.empty() || runs.back().first + runs.back().second.size() * BLK != off || runs.back().second.size() >= max) runs.push_back({off, {}});
		runs.back().second.push_back(d->second);
		d = i.dirty.erase(d);
	}
	for (auto &u : runs) {
		const bool comp = fs->compress && (i.iflags & FS_COMPR_FL) && u.second.size() > 1;
		const u64 len = u.second.size() * BLK;
		const u64 e = new_extent(u.second, comp ? 3 : 0);
		drop(r, i, u.first, len);
		FExt x; x.num = len; x.ext = e; x.comp = comp ? 3 : 0; x.transid = x.gen = fs->cur;
		put(r, i, u.first, x);
	}
	if (!runs.empty()) collect();
}
void commit()
{
	for (auto &r : fs->roots) if (!r.second.dead) for (auto &i : r.second.inodes) if (!i.second.dirty.empty()) flush(i.second, r.second, 0, ~0ull);
	fs->committed = fs->cur; ++fs->cur; fs->changed = false; fs->last_commit_ns = mc::now_ns();
}

// ---------------------------------------------------------------- observation
std::vector<Ref> refs(u64 ext)
{
	std::vector<Ref> v;
	for (auto &r : fs->roots) if (!r.second.dead) for (auto &i : r.second.inodes) for (auto &x : i.second.ext) if (x.second.ext == ext) v.push_back(Ref{r.first, i.first, x.first, x.second.num, x.second.eoff});
	return v;
}
std::set<u64> extents_of_user()
{
	std::set<u64> s;
	for (auto &r : fs->roots) if (!r.second.dead) for (auto &i : r.second.inodes) if (!i.second.tmp && i.second.nlink) for (auto &x : i.second.ext) if (x.second.ext) s.insert(x.second.ext);
	return s;
}
std::map<u64, u64> stored_extents()
{
	std::map<u64, u64> m;
	for (u64 e : extents_of_user()) m[e] = fs->exts[e].gen;
	return m;
}
u64 used_by_user()
{
	u64 n = 0;
	for (u64 e : extents_of_user()) n += fs->exts[e].disk_len;
	return n;
}
std::vector<std::pair<u64, u64>> user_files()
{
	std::vector<std::pair<u64, u64>> v;
	for (auto &r : fs->roots) if (!r.second.dead) for (auto &i : r.second.inodes) if (!i.second.tmp && i.second.nlink && S_ISREG(i.second.mode)) v.push_back({r.first, i.first});
	return v;
}
std::string layout()
{
	std::string s;
	char b[300];
	for (auto &r : fs->roots) {
		if (r.second.dead) continue;
		for (auto &i : r.second.inodes) {
			if (!S_ISREG(i.second.mode)) continue;
			snprintf(b, sizeof b, "root %llu ino %llu size %#llx%s:", (unsigned long long)r.first, (unsigned long long)i.first, (unsigned long long)i.second.size, i.second.tmp ? " tmp" : "");
			s += b;
			for (auto &x : i.second.ext) { snprintf(b, sizeof b, " [%#llx+%#llx %s%#llx@%#llx%s]", (unsigned long long)x.first, (unsigned long long)x.second.num, x.second.type == F_INLINE ? "inline " : x.second.type == F_PREALLOC ? "prealloc " : x.second.ext ? "" : "hole ", (unsigned long long)x.second.ext, (unsigned long long)x.second.eoff, x.second.comp ? "z" : ""); s += b; }
			if (!i.second.dirty.empty()) { snprintf(b, sizeof b, " dirty %zu", i.second.dirty.size()); s += b; }
			s += "\n";
		}
	}
	for (auto &e : fs->exts) {
		snprintf(b, sizeof b, "extent %#llx disk %#llx gen %llu%s:", (unsigned long long)e.first, (unsigned long long)e.second.disk_len, (unsigned long long)e.second.gen, e.second.comp ? " compressed" : "");
		s += b;
		size_t n = 0;
		for (Bid x : e.second.blocks) { if (++n > 40) { s += " ..."; break; } snprintf(b, sizeof b, " %u", x); s += b; }
		s += "\n";
	}
	return s;
}

// ---------------------------------------------------------------- descriptors
namespace {
const int VFD = 10000;
struct OF { enum K { CLOSED, FSFILE, HOMEDIR, HOMEFILE, FOREIGN } k = CLOSED; u64 root = 0, ino = 0; unsigned hid = 0; int flags = 0; u64 pos = 0; std::string path; };
std::deque<OF> *ofs;   // stays in place when other calls open files during a slow one
OF *of(int fd)
{
	if (fd < VFD || !ofs || size_t(fd - VFD) >= ofs->size()) return nullptr;
	OF *o = &(*ofs)[size_t(fd - VFD)];
	return o->k == OF::CLOSED ? nullptr : o;
}
int new_of(const OF &o)
{
	size_t i = 0;
	while (i < ofs->size() && (*ofs)[i].k != OF::CLOSED) ++i;
	if (i == ofs->size()) ofs->push_back(o); else (*ofs)[i] = o;
	if (o.k == OF::FSFILE) ++fs->roots[o.root].inodes[o.ino].opens;
	return VFD + int(i);
}
Inode *ino_of(OF *o) { if (o->k != OF::FSFILE) return nullptr; auto r = fs->roots.find(o->root); if (r == fs->roots.end()) return nullptr; auto i = r->second.inodes.find(o->ino); return i == r->second.inodes.end() ? nullptr : &i->second; }

thread_local bool in_hook = false;   // this thread is inside on_call
bool hooks_off = false;
// every simulated call starts here; returns false if the call is to fail with errno
bool enter(const char *name, int fd, u64 off = 0, u64 len = 0, int64_t *partial = nullptr, int *status = nullptr)
{
	if (mc::managed()) {
		if (fs->call_points && !fs->opened.empty() && mc::now_ns() - fs->last_open_ns < 100000000ull && strcmp(name, "getrusage")) {
			mc::set_points_enabled(true);
			mc::point();
			mc::set_points_enabled(false);
		} else mc::point();
		if (fs->changed && mc::now_ns() - fs->last_commit_ns >= u64(fs->commit_s) * 1000000000ull) commit();
	}
	++fs->calls;
	mc::step();
	if (fs->calls > 3000000) mc::fail("no-termination", "the daemon made more than 3000000 system calls");
	if (on_call && !in_hook && !hooks_off) {
		Call c; memset(&c, 0, sizeof c);
		c.name = name; c.index = fs->calls; c.fd = fd; c.off = off; c.len = len; c.partial = -1;
		if (OF *o = of(fd)) { if (o->k == OF::FSFILE) { c.root = o->root; c.ino = o->ino; } c.home = o->k == OF::HOMEDIR || o->k == OF::HOMEFILE; }
		in_hook = true;
		on_call(c);
		in_hook = false;
		if (c.err) { errno = c.err; return false; }
		if (partial) *partial = c.partial;
		if (status) *status = c.status;
	}
	if (getenv("SIM_TRACE")) {
		OF *o = of(fd);
		mc::log("  [%u] %s fd=%d root=%llu ino=%llu %#llx+%#llx", mc::self(), name, fd, o ? (unsigned long long)o->root : 0ull, o ? (unsigned long long)o->ino : 0ull, (unsigned long long)off, (unsigned long long)len);
	}
	return true;
}
void eager(u64 rid)
{
	if (!fs->eager_flush) return;
	for (auto &r : fs->roots) if (!r.second.dead) for (auto &i : r.second.inodes) if (!i.second.dirty.empty()) flush(i.second, r.second, 0, ~0ull);
}
}
std::vector<std::string> open_fds()
{
	std::vector<std::string> v;
	if (ofs) for (auto &o : *ofs) if (o.k != OF::CLOSED) v.push_back(o.path + (o.k == OF::FSFILE ? " (root " + std::to_string(o.root) + " ino " + std::to_string(o.ino) + ")" : ""));
	return v;
}
FdInfo fd_info(int fd)
{
	FdInfo f{false, false, 0, 0, 0};
	if (OF *o = of(fd)) f = FdInfo{true, o->k != OF::FSFILE, o->root, o->ino, o->flags};
	return f;
}
std::string home_read(const char *name)
{
	auto i = fs->home.find(Str(name));
	if (i == fs->home.end()) return "";
	const Str &d = fs->hfiles[i->second].data;
	return std::string(d.begin(), d.end());
}
bool home_exists(const char *name) { return fs->home.count(Str(name)); }
void home_write(const char *name, const std::string &data)
{
	auto i = fs->home.find(Str(name));
	unsigned id;
	if (i == fs->home.end()) { id = fs->next_hfile++; fs->home[Str(name)] = id; } else id = i->second;
	HomeFile &h = fs->hfiles[id];
	h.id = id; h.data.assign(data.begin(), data.end()); h.durable = h.data; h.synced = true;
}
void hash_file(unsigned extents) { home_write("beeshash.dat", std::string(size_t(extents) * 128 * KB, 0)); }

// ---------------------------------------------------------------- trees
static treesim::Tree *tree_cache;
static u64 tree_cache_id = 0, tree_cache_calls = 0;
static u64 item_transid(const Root &r, u64 t) { return fs->leaf_transid ? r.transid : t; }
// (only what the search can return)
static bool build_tree(u64 id, treesim::Tree &t, const btrfs_ioctl_search_args_v2 *a)
{
	using treesim::Item;
	auto raw = [&](u64 o, uint8_t ty, u64 off, u64 tr, const void *d, size_t n) { Item i; i.objectid = o; i.type = ty; i.offset = off; i.transid = tr; i.data.assign(static_cast<const uint8_t *>(d), static_cast<const uint8_t *>(d) + n); treesim::add(t, i); };
	if (id == BTRFS_ROOT_TREE_OBJECTID) {
		btrfs_root_item ri; memset(&ri, 0, sizeof ri);
		ri.generation = fs->committed;
		raw(BTRFS_EXTENT_TREE_OBJECTID, BTRFS_ROOT_ITEM_KEY, 0, fs->committed, &ri, sizeof ri);
		raw(BTRFS_DEV_TREE_OBJECTID, BTRFS_ROOT_ITEM_KEY, 0, 50, &ri, sizeof ri);
		raw(7, BTRFS_ROOT_ITEM_KEY, 0, fs->committed, &ri, sizeof ri);
		for (auto &r : fs->roots) {
			if (r.second.dead) continue;
			memset(&ri, 0, sizeof ri);
			ri.generation = r.second.transid; ri.refs = 1; ri.flags = r.second.ro ? BTRFS_ROOT_SUBVOL_RDONLY : 0;
			raw(r.first, BTRFS_ROOT_ITEM_KEY, 0, fs->committed, &ri, sizeof ri);
			if (r.first == 5) continue;
			std::vector<uint8_t> b(sizeof(btrfs_root_ref) + r.second.name.size());
			btrfs_root_ref rr; memset(&rr, 0, sizeof rr);
			rr.dirid = r.second.dirid; rr.sequence = 2; rr.name_len = uint16_t(r.second.name.size());
			memcpy(b.data(), &rr, sizeof rr); memcpy(b.data() + sizeof rr, r.second.name.data(), r.second.name.size());
			raw(r.first, BTRFS_ROOT_BACKREF_KEY, r.second.parent, fs->committed, b.data(), b.size());
			raw(r.second.parent, BTRFS_ROOT_REF_KEY, r.first, fs->committed, b.data(), b.size());
		}
		return true;
	}
	if (id == BTRFS_CHUNK_TREE_OBJECTID) {
		for (auto &c : fs->chunks) {
			uint8_t b[80]; memset(b, 0, sizeof b);
			btrfs_chunk k; memset(&k, 0, sizeof k); k.length = c.second.len; k.type = c.second.type; k.num_stripes = 1;
			memcpy(b, &k, std::min(sizeof k, sizeof b));
			raw(BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, c.first, 9, b, sizeof b);
		}
		return true;
	}
	if (id == BTRFS_EXTENT_TREE_OBJECTID) {
		for (auto &e : fs->exts) {
			btrfs_extent_item x; memset(&x, 0, sizeof x);
			x.refs = 1; x.generation = e.second.gen; x.flags = BTRFS_EXTENT_FLAG_DATA;
			uint8_t b[sizeof x + 29]; memset(b, 0, sizeof b); memcpy(b, &x, sizeof x);
			raw(e.first, BTRFS_EXTENT_ITEM_KEY, e.second.disk_len, fs->leaf_transid ? fs->committed : e.second.transid, b, sizeof b);
		}
		for (auto &m : fs->metadata) {
			btrfs_extent_item x; memset(&x, 0, sizeof x);
			x.refs = 1; x.generation = fs->committed; x.flags = BTRFS_EXTENT_FLAG_TREE_BLOCK;
			if (m.second) raw(m.first, BTRFS_EXTENT_ITEM_KEY, m.second, fs->committed, &x, sizeof x);
			else raw(m.first, BTRFS_METADATA_ITEM_KEY, 0, fs->committed, &x, sizeof x);
		}
		for (auto &c : fs->chunks) { uint8_t b[24]; memset(b, 0, sizeof b); raw(c.first, BTRFS_BLOCK_GROUP_ITEM_KEY, c.second.len, fs->committed, b, sizeof b); }
		return true;
	}
	auto ri = fs->roots.find(id);
	if (ri == fs->roots.end() || ri->second.dead) return false;
	const Root &r = ri->second;
	const btrfs_ioctl_search_key &sk = a->key;
	u64 n = 0, bytes = 0;
	auto enough = [&](const treesim::Item &it) { if (it.transid >= sk.min_transid && it.transid <= sk.max_transid) { ++n; bytes += sizeof(btrfs_ioctl_search_header) + it.data.size(); } return n >= sk.nr_items || bytes > a->buf_size; };
	for (auto ip_i = r.inodes.lower_bound(sk.min_objectid); ip_i != r.inodes.end() && ip_i->first <= sk.max_objectid; ++ip_i) {
		auto &ip = *ip_i;
		const Inode &i = ip.second;
		btrfs_inode_item ii; memset(&ii, 0, sizeof ii);
		ii.generation = i.transid; ii.transid = i.transid; ii.size = i.size; ii.mode = i.mode; ii.nlink = i.nlink; ii.flags = i.inode_flags;
		raw(i.ino, BTRFS_INODE_ITEM_KEY, 0, item_transid(r, i.transid), &ii, sizeof ii);
		uint8_t ref[12]; memset(ref, 0, sizeof ref);
		raw(i.ino, BTRFS_INODE_REF_KEY, 256, item_transid(r, i.transid), ref, sizeof ref);
		const bool from = ip.first == sk.min_objectid && sk.min_type == BTRFS_EXTENT_DATA_KEY;
		if (ip.first == sk.min_objectid && sk.min_type > BTRFS_EXTENT_DATA_KEY) continue;
		if (ip.first == sk.max_objectid && sk.max_type < BTRFS_EXTENT_DATA_KEY) continue;
		for (auto xi = from ? i.ext.lower_bound(sk.min_offset) : i.ext.begin(); xi != i.ext.end(); ++xi) {
			auto &x = *xi;
			const FExt &e = x.second;
			if (e.type == F_INLINE) {
				Item it = treesim::extent_data(i.ino, x.first, 0, 0, 0, 0, 0, e.num, e.comp, e.gen, item_transid(r, e.transid));
				it.data.resize(21 + e.inl.size());
				if (!e.inl.empty()) memcpy(it.data.data() + 21, e.inl.data(), e.inl.size());
				const bool done = enough(it);
				treesim::add(t, it);
				if (done) return true;
				continue;
			}
			u64 disk = 0, ram = e.num;
			if (e.ext) { const Ext &xe = fs->exts.find(e.ext)->second; disk = xe.disk_len; ram = xe.ram(); }
			const Item it = treesim::extent_data(i.ino, x.first, e.type, e.ext, disk, e.ext ? e.eoff : 0, e.num, ram, e.comp, e.gen, item_transid(r, e.transid));
			treesim::add(t, it);
			if (enough(it)) return true;
		}
	}
	return true;
}

// ---------------------------------------------------------------- path walking
// returns 0 and fills o, or an errno
static int walk(const OF &dir, const char *path, int flags, uint64_t resolve, OF &o, unsigned depth = 0)
{
	if (depth > 8) return ELOOP;
	if (*path == '/') return resolve & RESOLVE_BENEATH ? EXDEV : ENOENT;
	u64 rid = dir.root, in = dir.ino;
	std::string p = path, full = dir.path;
	std::vector<std::string> parts;
	for (size_t i = 0; i < p.size();) { size_t e = p.find('/', i); if (e == std::string::npos) e = p.size(); if (e > i) parts.push_back(p.substr(i, e - i)); i = e + 1; }
	if (parts.empty()) return ENOENT;
	// (what is mounted elsewhere is a copy of this filesystem with another device and fsid)
	bool foreign = dir.k == OF::FOREIGN;
	for (size_t k = 0; k < parts.size(); ++k) {
		const bool last = k + 1 == parts.size();
		if (parts[k] == ".") continue;
		Root &r = fs->roots[rid];
		if (r.dead) return ENOENT;
		auto ii = r.inodes.find(in);
		if (ii == r.inodes.end()) return ENOENT;
		if (!S_ISDIR(ii->second.mode)) return ENOTDIR;
		auto d = r.dents.find(std::make_pair(in, Str(parts[k].c_str())));
		if (d == r.dents.end()) return ENOENT;
		full += "/" + parts[k];
		if (d->second.mount) {
			if (resolve & RESOLVE_NO_XDEV) return EXDEV;
			foreign = true; in = d->second.ino; rid = d->second.subvol;
			continue;
		}
		if (d->second.subvol) { rid = d->second.subvol; in = 256; if (fs->roots[rid].dead) return ENOENT; continue; }
		auto ti = r.inodes.find(d->second.ino);
		if (ti == r.inodes.end()) return ENOENT;
		if (S_ISLNK(ti->second.mode)) {
			if (resolve & RESOLVE_NO_SYMLINKS) return ELOOP;
			if (last && (flags & O_NOFOLLOW)) return ELOOP;
			std::string t(ti->second.target.c_str());
			OF nd; nd.k = foreign ? OF::FOREIGN : OF::FSFILE; nd.root = rid; nd.ino = in; nd.path = full;
			if (!t.empty() && t[0] == '/') {
				if (resolve & RESOLVE_BENEATH) return EXDEV;
				nd.k = t.compare(0, 5, "/mnt/") ? OF::FOREIGN : OF::FSFILE; nd.root = 5; nd.ino = 256; nd.path = "";
				t = t.substr(t.find('/', 1) + 1);
			}
			for (size_t j = k + 1; j < parts.size(); ++j) t += "/" + parts[j];
			return walk(nd, t.c_str(), flags, resolve, o, depth + 1);
		}
		in = d->second.ino;
	}
	o.k = foreign ? OF::FOREIGN : OF::FSFILE; o.root = rid; o.ino = in; o.flags = flags; o.path = full;
	return 0;
}

static int home_open(OF *, const char *name, int flags)
{
	auto i = fs->home.find(Str(name));
	unsigned id;
	if (i == fs->home.end()) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		id = fs->next_hfile++;
		fs->home[Str(name)] = id;
		fs->hfiles[id].id = id;
		fs->hlog.push_back(HomeOp{'c', name, "", id, 0, 0, Str()});
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		id = i->second;
		if (flags & O_TRUNC) { fs->hfiles[id].data.clear(); fs->hlog.push_back(HomeOp{'t', name, "", id, 0, 0, Str()}); }
	}
	OF o; o.k = OF::HOMEFILE; o.hid = id; o.flags = flags; o.path = std::string("/home/") + name;
	return new_of(o);
}
static int do_open(int dirfd, const char *path, int flags, uint64_t resolve)
{
	OF *d = nullptr;
	OF top;
	if (dirfd == AT_FDCWD) {
		const std::string p = path;
		if (p == "/mnt") { OF o; o.k = OF::FSFILE; o.root = 5; o.ino = 256; o.flags = flags; o.path = "/mnt"; return new_of(o); }
		if (p == "/home") { OF o; o.k = OF::HOMEDIR; o.path = "/home"; o.flags = flags; return new_of(o); }
		errno = ENOENT; return -1;
	}
	d = of(dirfd);
	if (!d) { errno = EBADF; return -1; }
	if (*path == '/') { if (std::string(path) == "/home") { OF o; o.k = OF::HOMEDIR; o.path = "/home"; o.flags = flags; return new_of(o); } errno = resolve & RESOLVE_BENEATH ? EXDEV : ENOENT; return -1; }
	if (d->k == OF::HOMEDIR) return home_open(d, path, flags);
	if (d->k == OF::FSFILE && d->root == 5 && d->ino == 256 && std::string(path) == ".beeshome") { OF o; o.k = OF::HOMEDIR; o.path = "/mnt/.beeshome"; o.flags = flags; return new_of(o); }
	if (d->k != OF::FSFILE && d->k != OF::FOREIGN) { errno = ENOTDIR; return -1; }
	if ((flags & O_TMPFILE) == O_TMPFILE) {
		Root &r = fs->roots[d->root];
		const u64 n = new_inode(r, 0100600);
		Inode &i = r.inodes[n];
		i.tmp = true; i.nlink = 0;
		// a new file takes its directory's data flags
		i.iflags |= r.inodes[d->ino].iflags & (FS_NOCOW_FL | FS_COMPR_FL | FS_NOCOMP_FL);
		OF o; o.k = OF::FSFILE; o.root = d->root; o.ino = n; o.flags = flags; o.path = "/mnt/#" + std::to_string(n) + " (deleted)";
		return new_of(o);
	}
	OF o;
	const int e = walk(*d, path, flags, resolve, o);
	if (e) { errno = e; return -1; }
	uint32_t mode = 0100644;
	if (o.k == OF::FSFILE || o.k == OF::FOREIGN) {
		mode = fs->roots[o.root].inodes[o.ino].mode;
		if ((flags & O_DIRECTORY) && !S_ISDIR(mode)) { errno = ENOTDIR; return -1; }
		if (S_ISDIR(mode) && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
		if (S_ISFIFO(mode) && !(flags & O_NONBLOCK)) mc::fail("open-blocks", "the daemon opened a fifo in blocking mode: " + o.path);
		if (S_ISSOCK(mode)) { errno = ENXIO; return -1; }
	}
	fs->last_open_ns = mc::now_ns();
	fs->opened.push_back(Opened{o.root, o.ino, mode, flags, o.k == OF::FOREIGN});
	return new_of(o);
}

// ---------------------------------------------------------------- ioctls
static int ioctl_search(OF *o, btrfs_ioctl_search_args_v2 *a)
{
	eager(0);
	u64 id = a->key.tree_id;
	if (!id) id = o->root;
	static treesim::Tree *t;
	if (!t) t = new treesim::Tree;
	t->clear();
	if (!build_tree(id, *t, a)) { errno = ENOENT; return -1; }
	return treesim::search(*t, a);
}
static int ioctl_logical(btrfs_ioctl_logical_ino_args *a, bool v2)
{
	const u64 flags = v2 ? a->flags : 0;
	fs->logical_inos.push_back({a->logical, mc::now_ns()});
	eager(0);
	btrfs_data_container *c = reinterpret_cast<btrfs_data_container *>(a->inodes);
	u64 size = std::min<u64>(a->size, v2 ? 16 * MB : 64 * KB);
	if (size < sizeof *c) { errno = EINVAL; return -1; }
	auto e = fs->exts.upper_bound(a->logical);
	if (e == fs->exts.begin()) { errno = ENOENT; return -1; }
	--e;
	if (a->logical >= e->first + e->second.disk_len) {
		for (auto &m : fs->metadata) if (a->logical >= m.first && a->logical < m.first + (m.second ? m.second : 16384)) { errno = EINVAL; return -1; }
		errno = ENOENT; return -1;
	}
	const u64 pos = a->logical - e->first;
	c->bytes_left = uint32_t(size - sizeof *c); c->bytes_missing = 0; c->elem_cnt = 0; c->elem_missed = 0;
	for (auto &r : fs->roots) if (!r.second.dead) for (auto &i : r.second.inodes) for (auto &x : i.second.ext) {
		if (x.second.ext != e->first) continue;
		u64 off = x.first;
		if (!(flags & BTRFS_LOGICAL_INO_ARGS_IGNORE_OFFSET) && !x.second.comp) {
			if (pos < x.second.eoff || pos >= x.second.eoff + x.second.num) continue;
			off += pos - x.second.eoff;
		}
		if (c->bytes_left >= 24) { c->val[c->elem_cnt] = i.first; c->val[c->elem_cnt + 1] = off; c->val[c->elem_cnt + 2] = r.first; c->elem_cnt += 3; c->bytes_left -= 24; }
		else { c->bytes_missing += 24; c->elem_missed += 3; }
	}
	return 0;
}
static std::string path_of(const Root &r, u64 ino, u64 dir, const std::string &name, unsigned depth = 0)
{
	if (dir == 256 || depth > 16) return name;
	for (auto &d : r.dents) if (d.second.ino == dir && !d.second.mount) return path_of(r, dir, d.first.first, std::string(d.first.second.c_str()) + "/" + name, depth + 1);
	return name;
}
static int ioctl_paths(OF *o, btrfs_ioctl_ino_path_args *a)
{
	if (o->k != OF::FSFILE && o->k != OF::FOREIGN) { errno = ENOTTY; return -1; }
	Root &r = fs->roots[o->root];
	btrfs_data_container *c = reinterpret_cast<btrfs_data_container *>(a->fspath);
	const u64 size = std::min<u64>(a->size, 4096);
	if (r.dead || !r.inodes.count(a->inum)) { errno = ENOENT; return -1; }
	std::vector<std::string> v;
	for (auto &d : r.dents) if (d.second.ino == a->inum && !d.second.mount && !d.second.subvol) v.push_back(path_of(r, a->inum, d.first.first, d.first.second.c_str()));
	if (v.empty()) { errno = ENOENT; return -1; }
	c->bytes_left = uint32_t(size - sizeof *c); c->bytes_missing = 0; c->elem_cnt = 0; c->elem_missed = 0;
	// strings fill the buffer from its end
	char *base = reinterpret_cast<char *>(c->val);
	char *end = reinterpret_cast<char *>(c) + size;
	for (auto &s : v) {
		const size_t need = s.size() + 1;
		if (c->bytes_left >= need + 8) { end -= need; memcpy(end, s.c_str(), need); c->val[c->elem_cnt++] = u64(end - base); c->bytes_left -= uint32_t(need + 8); }
		else { c->bytes_missing += uint32_t(need + 8); ++c->elem_missed; }
	}
	return 0;
}
static int ioctl_lookup(OF *o, btrfs_ioctl_ino_lookup_args *a)
{
	if (o->k != OF::FSFILE && o->k != OF::FOREIGN) { errno = ENOTTY; return -1; }
	if (!a->treeid) a->treeid = o->root;
	a->name[0] = 0;
	if (a->objectid == BTRFS_FIRST_FREE_OBJECTID) return 0;
	errno = ENOENT;
	return -1;
}
static int same_one(OF *s, btrfs_ioctl_same_args *a, btrfs_ioctl_same_extent_info *d)
{
	OF *t = of(int(d->fd));
	Inode *si = ino_of(s), *ti = t ? ino_of(t) : nullptr;
	u64 len = a->length;
	d->bytes_deduped = 0;
	if (!t || (t->k != OF::FSFILE && t->k != OF::FOREIGN)) return t ? -EINVAL : -EBADF;
	if (!ti) return -EXDEV;
	Root &sr = fs->roots[s->root], &tr = fs->roots[t->root];
	if (S_ISDIR(ti->mode)) return -EISDIR;
	if (!S_ISREG(ti->mode) || !S_ISREG(si->mode)) return -EINVAL;
	if (tr.sending) return -EAGAIN;
	if ((si->iflags & FS_NOCOW_FL) != (ti->iflags & FS_NOCOW_FL) || (si->inode_flags & BTRFS_INODE_NODATASUM) != (ti->inode_flags & BTRFS_INODE_NODATASUM)) return -EINVAL;
	const u64 so = a->logical_offset, to = d->logical_offset;
	if (so % BLK || to % BLK) return -EINVAL;
	if (so >= si->size || so + len > si->size || to + len > ti->size || to >= ti->size) return -EINVAL;
	len = std::min<u64>(len, 16 * MB);
	u64 blen;
	if (so + len == si->size) blen = (len + BLK - 1) / BLK * BLK; else { len = len / BLK * BLK; blen = len; }
	if (si == ti && so + blen > to && to + blen > so) return -EINVAL;
	if (to + len < ti->size && len % BLK) len = len / BLK * BLK;
	if (!len) return -EINVAL;
	blen = (len + BLK - 1) / BLK * BLK;
	// both sides are written back, then compared
	flush(*si, sr, so, so + blen);
	flush(*ti, tr, to, to + blen);
	for (u64 k = 0; k < len; k += BLK) {
		const Bid x = block_at(*si, (so + k) / BLK), y = block_at(*ti, (to + k) / BLK);
		if (x == y) continue;
		const size_t n = std::min<u64>(BLK, len - k);
		uint8_t b[BLK]; memcpy(b, content(x), BLK);
		if (memcmp(b, content(y), n)) return BTRFS_SAME_DATA_DIFFERS;
	}
	// share
	std::vector<std::pair<u64, FExt>> items;
	for (auto &x : si->ext) {
		const FExt &e = x.second;
		const u64 b = x.first, l = e.type == F_INLINE ? (e.num + BLK - 1) / BLK * BLK : e.num;
		if (b + l <= so || b >= so + blen) continue;
		if (e.type == F_INLINE && to) { // copied
			FExt n; n.num = BLK; n.ext = 0; items.push_back({to, n}); continue;
		}
		FExt n = e; n.transid = fs->cur;
		u64 nb = b, skip = 0;
		if (nb < so) { skip = so - nb; nb = so; }
		if (n.type != F_INLINE) { n.eoff += skip; n.num = std::min(b + e.num, so + blen) - nb; }
		if (!n.ext && n.type != F_INLINE) continue;
		items.push_back({to + (nb - so), n});
	}
	// inline data cannot be shared to another offset: stored anew
	for (auto &it : items) if (it.second.type == F_REG && !it.second.ext) {
		const Bid y = block_at(*ti, it.first / BLK);
		it.second.ext = new_extent({y}); it.second.gen = it.second.transid = fs->cur;
	}
	drop(tr, *ti, to, blen);
	for (auto &it : items) put(tr, *ti, it.first, it.second);
	d->bytes_deduped = len;
	fs->bytes_deduped += len;
	collect();
	return 0;
}
static int ioctl_same(OF *s, btrfs_ioctl_same_args *a, int st)
{
	if (s->k != OF::FSFILE) { errno = EINVAL; return -1; }
	for (unsigned k = 0; k < a->dest_count; ++k) {
		OF *t = of(int(a->info[k].fd));
		Dedupe r{s->root, s->ino, a->logical_offset, t ? t->root : 0, t ? t->ino : 0, a->info[k].logical_offset, a->length, 0, t && t->k == OF::FSFILE && fs->roots[t->root].ro};
		if (st) a->info[k].bytes_deduped = 0;
		a->info[k].status = st ? st : same_one(s, a, &a->info[k]);
		r.status = a->info[k].status;
		fs->dedupes.push_back(r);
		if (getenv("SIM_TRACE") || mc::verbose()) mc::log("    SAME %llu/%llu@%#llx -> %llu/%llu@%#llx len %#llx: %d", (unsigned long long)r.sroot, (unsigned long long)r.sino, (unsigned long long)r.soff, (unsigned long long)r.droot, (unsigned long long)r.dino, (unsigned long long)r.doff, (unsigned long long)r.len, r.status);
	}
	return 0;
}

// ---------------------------------------------------------------- phases
static thread_local u64 thread_stime_ns = 0;
static bool g_phase = false;
void phase_end()
{
	fs->clock_ns = mc::now_ns();
	A->cursor = mc::get_cursor();
	mc::hard_exit(0);
}
void phase(const std::function<void()> &fn)
{
	fflush(stdout);
	A->cursor = mc::get_cursor();
	const pid_t pid = mc::fork_retry();
	if (pid < 0) mc::error("sim: fork");
	if (!pid) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		ofs = new std::deque<OF>;
		mc::sched_start();
		if (fs->clock_ns > mc::now_ns()) mc::advance_ns(fs->clock_ns - mc::now_ns());
		if (!fs->last_commit_ns) fs->last_commit_ns = mc::now_ns();
		fs->exited = false; fs->status = -1; fs->signals = 0;
		// descriptors of an earlier run are gone
		for (auto &r : fs->roots) { for (auto i = r.second.inodes.begin(); i != r.second.inodes.end();) { i->second.opens = 0; if (i->second.tmp) i = r.second.inodes.erase(i); else ++i; } }
		collect();
		running = true;
		g_phase = true;
		fn();
		phase_end();
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || mc::exec_ended()) mc::propagate_child(st);
	mc::set_cursor(A->cursor);
}
void raise_signal(int sig) { fs->signals |= 1u << sig; }

static std::function<void()> *after_exit;
[[noreturn]] static void daemon_exit(int st)
{
	// the process is gone: no other thread runs any more
	fs->status = st; fs->exited = true;
	mc::set_points_enabled(false);
	running = false;
	hooks_off = true;
	for (auto &o : *ofs) (void)o;
	if (after_exit && *after_exit) (*after_exit)();
	phase_end();
}
void run_daemon(const Run &r)
{
	phase([&]() {
		auto e = r.env;
		if (!e.count("BEESHOME")) e["BEESHOME"] = "/home";
		*env = e;
		after_exit = new std::function<void()>(r.after_exit);
		std::vector<std::string> av = {"bees"};
		bool verb = false;
		for (auto &a : r.args) { av.push_back(a); if (a == "-v") verb = true; }
		if (!verb) { av.push_back("-v"); av.push_back(getenv("SIM_VERBOSE") ? getenv("SIM_VERBOSE") : "0"); }
		av.push_back("/mnt");
		std::thread t([&]() {
			std::vector<char *> p;
			for (auto &a : av) p.push_back(&a[0]);
			p.push_back(nullptr);
			const int rv = bees_real_main(int(av.size()), p.data());
			daemon_exit(rv);
		});
		if (r.beside) r.beside();
		raise_signal(SIGTERM);
		mc::block_until_for([]() { return false; }, r.max_stop_s * 1000000000ull, "daemon exit");
		mc::fail("stop-timeout", "the daemon did not end within " + std::to_string(r.max_stop_s) + " s of virtual time after SIGTERM\n" + mc::describe_threads());
	});
}
static bool act() { return running; }

} // namespace sim

// ================================================================ interposed calls
using namespace sim;
#define REALF(ret, name, ...) ([]() { static auto p = reinterpret_cast<ret (*)(__VA_ARGS__)>(dlsym(RTLD_NEXT, #name)); return p; }())

static int64_t partial_of(int64_t p, size_t len) { return p >= 0 && size_t(p) < len ? p : int64_t(len); }

static ssize_t sim_pread(int fd, void *buf, size_t len, u64 off, bool use_pos)
{
	int64_t part = -1;
	OF *o = of(fd);
	if (o && use_pos) off = o->pos;
	if (!enter(use_pos ? "read" : "pread", fd, off, len, &part)) return -1;
	o = of(fd);
	if (!o) { errno = EBADF; return -1; }
	len = size_t(partial_of(part, len));
	ssize_t n = 0;
	if (o->k == OF::FSFILE) {
		Inode *i = ino_of(o);
		if (!i) { errno = ESTALE; return -1; }
		if (S_ISDIR(i->mode)) { errno = EISDIR; return -1; }
		n = read_at(*i, buf, len, off);
	} else if (o->k == OF::HOMEFILE) {
		Str &d = fs->hfiles[o->hid].data;
		if (off < d.size()) { n = ssize_t(std::min<u64>(len, d.size() - off)); memcpy(buf, d.data() + off, size_t(n)); }
	} else if (o->k == OF::FOREIGN) {
		mc::fail("foreign-read", "the daemon read a file outside the filesystem: " + o->path);
	} else { errno = EISDIR; return -1; }
	if (use_pos && n > 0) o->pos += u64(n);
	return n;
}
static ssize_t sim_pwrite(int fd, const void *buf, size_t len, u64 off, bool use_pos)
{
	int64_t part = -1;
	OF *o = of(fd);
	if (o && use_pos) off = o->pos;
	if (!enter(use_pos ? "write" : "pwrite", fd, off, len, &part)) return -1;
	o = of(fd);
	if (!o || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	len = size_t(partial_of(part, len));
	if (o->k == OF::FSFILE) {
		Inode *i = ino_of(o);
		if (!i->tmp) mc::fail("wrote-user-file", "the daemon wrote to a file that is not one of its temporary files: " + o->path);
		write_at(fs->roots[o->root], *i, buf, len, off);
	} else if (o->k == OF::HOMEFILE) {
		HomeFile &h = fs->hfiles[o->hid];
		if (off + len > h.data.size()) h.data.resize(off + len);
		memcpy(&h.data[off], buf, len);
		h.synced = false;
		fs->hlog.push_back(HomeOp{'w', "", "", o->hid, off, len, Str(static_cast<const char *>(buf), len)});
	} else { errno = EBADF; return -1; }
	if (use_pos) o->pos += len;
	return ssize_t(len);
}
static int sim_stat(OF *o, struct stat *st)
{
	memset(st, 0, sizeof *st);
	st->st_blksize = 4096;
	switch (o->k) {
		case OF::FSFILE: {
			Inode *i = ino_of(o);
			if (!i) { errno = ESTALE; return -1; }
			st->st_dev = 1000 + o->root; st->st_ino = i->ino; st->st_mode = i->mode; st->st_size = off_t(i->size); st->st_nlink = i->nlink; st->st_mtime = time_t(i->mtime);
			break;
		}
		case OF::HOMEDIR: st->st_dev = 50; st->st_ino = 2; st->st_mode = 040755; break;
		case OF::HOMEFILE: st->st_dev = 50; st->st_ino = 1000 + o->hid; st->st_mode = 0100600; st->st_size = off_t(fs->hfiles[o->hid].data.size()); break;
		case OF::FOREIGN: st->st_dev = 7000 + o->root; st->st_ino = o->ino; st->st_mode = fs->roots[o->root].inodes[o->ino].mode; st->st_size = off_t(fs->roots[o->root].inodes[o->ino].size); break;
		default: errno = EBADF; return -1;
	}
	return 0;
}

extern "C" {

int open64(const char *path, int flags, ...)
{
	if (!act()) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); return int(syscall(SYS_openat, AT_FDCWD, path, flags, m)); }
	if (!strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5) || !strncmp(path, "/etc/", 5)) { errno = ENOENT; return -1; }
	if (!enter("open", -1)) return -1;
	return do_open(AT_FDCWD, path, flags, 0);
}
int open(const char *path, int flags, ...)
{
	if (!act()) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); return int(syscall(SYS_openat, AT_FDCWD, path, flags, m)); }
	return open64(path, flags);
}
int openat64(int dirfd, const char *path, int flags, ...)
{
	if (!act()) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); return int(syscall(SYS_openat, dirfd, path, flags, m)); }
	if (!enter((flags & O_TMPFILE) == O_TMPFILE ? "tmpfile" : "openat", dirfd)) return -1;
	return do_open(dirfd, path, flags, 0);
}
int openat(int dirfd, const char *path, int flags, ...)
{
	if (!act()) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); return int(syscall(SYS_openat, dirfd, path, flags, m)); }
	return openat64(dirfd, path, flags);
}
int openat2(int dirfd, const char *path, const struct open_how *how, size_t size)
{
	if (!act()) return int(syscall(SYS_openat2, dirfd, path, how, size));
	if (!enter("openat2", dirfd)) return -1;
	if (!fs->openat2) { errno = ENOSYS; return -1; }
	return do_open(dirfd, path, int(how->flags), how->resolve);
}
int close(int fd)
{
	if (fd < VFD) return int(syscall(SYS_close, fd));
	OF *o = of(fd);
	if (!o) {
		if (act()) mc::fail("bad-close", "a descriptor was closed that is not open");
		errno = EBADF; return -1;
	}
	if (act()) enter("close", fd);
	o = of(fd);
	OF c = *o;
	o->k = OF::CLOSED;
	if (c.k == OF::FSFILE) {
		auto r = fs->roots.find(c.root);
		if (r != fs->roots.end()) {
			auto i = r->second.inodes.find(c.ino);
			if (i != r->second.inodes.end()) { if (i->second.opens) --i->second.opens; maybe_free(r->second, c.ino); }
		}
	}
	return 0;
}
ssize_t read(int fd, void *buf, size_t len) { return fd < VFD ? syscall(SYS_read, fd, buf, len) : sim_pread(fd, buf, len, 0, true); }
ssize_t write(int fd, const void *buf, size_t len) { return fd < VFD ? syscall(SYS_write, fd, buf, len) : sim_pwrite(fd, buf, len, 0, true); }
ssize_t pread64(int fd, void *buf, size_t len, off64_t off) { return fd < VFD ? syscall(SYS_pread64, fd, buf, len, off) : sim_pread(fd, buf, len, u64(off), false); }
ssize_t pread(int fd, void *buf, size_t len, off_t off) { return pread64(fd, buf, len, off); }
ssize_t pwrite64(int fd, const void *buf, size_t len, off64_t off) { return fd < VFD ? syscall(SYS_pwrite64, fd, buf, len, off) : sim_pwrite(fd, buf, len, u64(off), false); }
ssize_t pwrite(int fd, const void *buf, size_t len, off_t off) { return pwrite64(fd, buf, len, off); }
int fstat(int fd, struct stat *st)
{
	if (fd < VFD) return int(syscall(SYS_fstat, fd, st));
	if (!enter("fstat", fd)) return -1;
	OF *o = of(fd);
	if (!o) { errno = EBADF; return -1; }
	return sim_stat(o, st);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, reinterpret_cast<struct stat *>(st)); }
int fstatfs64(int fd, struct statfs64 *st)
{
	if (fd < VFD) return int(syscall(SYS_fstatfs, fd, st));
	if (!enter("fstatfs", fd)) return -1;
	OF *o = of(fd);
	if (!o) { errno = EBADF; return -1; }
	memset(st, 0, sizeof *st);
	st->f_type = o->k == OF::FSFILE || o->k == OF::FOREIGN || fs->home_btrfs ? BTRFS_SUPER_MAGIC : EXT4_SUPER_MAGIC;
	return 0;
}
int fstatfs(int fd, struct statfs *st) { return fstatfs64(fd, reinterpret_cast<struct statfs64 *>(st)); }
int fstatvfs64(int fd, struct statvfs64 *st)
{
	if (!act()) return REALF(int, fstatvfs64, int, struct statvfs64 *)(fd, st);
	if (!enter("fstatvfs", fd)) return -1;
	memset(st, 0, sizeof *st);
	st->f_bsize = st->f_frsize = 4096; st->f_blocks = st->f_bfree = st->f_bavail = 1 << 20;
	return 0;
}
int ftruncate64(int fd, off64_t len)
{
	if (fd < VFD) return int(syscall(SYS_ftruncate, fd, len));
	if (!enter("ftruncate", fd, u64(len))) return -1;
	OF *o = of(fd);
	if (!o) { errno = EBADF; return -1; }
	if (o->k == OF::FSFILE) {
		Inode *i = ino_of(o);
		if (!i->tmp) mc::fail("wrote-user-file", "the daemon truncated a file that is not one of its temporary files: " + o->path);
		do_truncate(fs->roots[o->root], *i, u64(len));
		collect();
		return 0;
	}
	if (o->k == OF::HOMEFILE) { fs->hfiles[o->hid].data.resize(size_t(len)); fs->hfiles[o->hid].synced = false; fs->hlog.push_back(HomeOp{'t', "", "", o->hid, u64(len), 0, Str()}); return 0; }
	errno = EINVAL; return -1;
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
int fallocate64(int fd, int, off64_t, off64_t)
{
	if (fd < VFD) { errno = EOPNOTSUPP; return -1; }
	mc::error("sim: fallocate");
	return -1;
}
int fsync(int fd)
{
	if (fd < VFD) return int(syscall(SYS_fsync, fd));
	if (!enter("fsync", fd)) return -1;
	OF *o = of(fd);
	if (!o) { errno = EBADF; return -1; }
	if (o->k == OF::FSFILE) { Inode *i = ino_of(o); flush(*i, fs->roots[o->root], 0, ~0ull); }
	if (o->k == OF::HOMEFILE) { HomeFile &h = fs->hfiles[o->hid]; h.durable = h.data; h.synced = true; fs->hlog.push_back(HomeOp{'s', "", "", o->hid, 0, 0, Str()}); }
	return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int unlinkat(int dirfd, const char *name, int flags)
{
	if (!act()) return int(syscall(SYS_unlinkat, dirfd, name, flags));
	if (!enter("unlinkat", dirfd)) return -1;
	OF *o = of(dirfd);
	if (!o || o->k != OF::HOMEDIR) mc::fail("unlinked-user-file", std::string("the daemon removed a name outside its home directory: ") + name);
	auto i = fs->home.find(Str(name));
	if (i == fs->home.end()) { errno = ENOENT; return -1; }
	fs->hlog.push_back(HomeOp{'u', name, "", i->second, 0, 0, Str()});
	fs->home.erase(i);
	return 0;
}
int renameat(int fd1, const char *a, int fd2, const char *b)
{
	if (!act()) return int(syscall(SYS_renameat, fd1, a, fd2, b));
	if (!enter("renameat", fd1)) return -1;
	OF *o = of(fd1), *p = of(fd2);
	if (!o || o->k != OF::HOMEDIR || !p || p->k != OF::HOMEDIR) mc::fail("renamed-user-file", std::string("the daemon renamed a name outside its home directory: ") + a);
	auto i = fs->home.find(Str(a));
	if (i == fs->home.end()) { errno = ENOENT; return -1; }
	const unsigned id = i->second;
	const bool over = fs->home.count(Str(b));
	fs->home.erase(i);
	fs->home[Str(b)] = id;
	fs->hlog.push_back(HomeOp{'r', a, b, id, over, 0, Str()});
	return 0;
}
int rename(const char *, const char *)
{
	if (act()) mc::error("sim: rename");
	errno = EPERM; return -1;
}
ssize_t readlink(const char *path, char *buf, size_t len)
{
	if (!act()) return syscall(SYS_readlink, path, buf, len);
	int fd;
	if (sscanf(path, "/proc/self/fd/%d", &fd) == 1) {
		OF *o = of(fd);
		if (!o) { errno = ENOENT; return -1; }
		const std::string s = o->path.empty() ? "/sim" : o->path;
		const size_t n = std::min(len, s.size());
		memcpy(buf, s.data(), n);
		return ssize_t(n);
	}
	errno = ENOENT; return -1;
}
int ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (fd < VFD && !(act())) return int(syscall(SYS_ioctl, fd, req, arg));
	OF *o = of(fd);
	if (!o) { errno = EBADF; return -1; }
	switch (req) {
		case BTRFS_IOC_TREE_SEARCH_V2: {
			if (!enter("TREE_SEARCH", fd, static_cast<btrfs_ioctl_search_args_v2 *>(arg)->key.tree_id, static_cast<btrfs_ioctl_search_args_v2 *>(arg)->key.min_objectid)) return -1;
			if (o->k != OF::FSFILE) { errno = ENOTTY; return -1; }
			return ioctl_search(of(fd), static_cast<btrfs_ioctl_search_args_v2 *>(arg));
		}
		case BTRFS_IOC_LOGICAL_INO: case BTRFS_IOC_LOGICAL_INO_V2: {
			auto *a = static_cast<btrfs_ioctl_logical_ino_args *>(arg);
			if (!enter("LOGICAL_INO", fd, a->logical, req == BTRFS_IOC_LOGICAL_INO_V2 && (a->flags & 1))) return -1;   // len: all references, whatever the offset
			const int rv = ioctl_logical(a, req == BTRFS_IOC_LOGICAL_INO_V2);
			const int e = errno;
			if (fs->slow_ns) { const u64 ns = fs->slow_ns; fs->slow_ns = 0; thread_stime_ns += ns; mc::advance_ns(ns); }
			errno = e;
			return rv;
		}
		case BTRFS_IOC_INO_PATHS: if (!enter("INO_PATHS", fd, static_cast<btrfs_ioctl_ino_path_args *>(arg)->inum)) return -1; return ioctl_paths(of(fd), static_cast<btrfs_ioctl_ino_path_args *>(arg));
		case BTRFS_IOC_INO_LOOKUP: if (!enter("INO_LOOKUP", fd)) return -1; return ioctl_lookup(of(fd), static_cast<btrfs_ioctl_ino_lookup_args *>(arg));
		case BTRFS_IOC_FILE_EXTENT_SAME: {
			auto *a = static_cast<btrfs_ioctl_same_args *>(arg);
			int64_t part = -1;
			int st = 0;
			if (!enter("SAME", fd, a->logical_offset, a->length, &part, &st)) return -1;
			const u64 len = a->length;
			if (part >= 0) a->length = std::min<u64>(len, u64(part));
			const int rc = ioctl_same(of(fd), a, st);
			a->length = len;
			return rc;
		}
		case BTRFS_IOC_FS_INFO: {
			if (!enter("FS_INFO", fd)) return -1;
			if (o->k == OF::HOMEDIR || o->k == OF::HOMEFILE) {
				if (!fs->home_btrfs) { errno = ENOTTY; return -1; }
				treesim::fs_info(static_cast<btrfs_ioctl_fs_info_args *>(arg), fs->committed);
				if (!fs->home_same) static_cast<btrfs_ioctl_fs_info_args *>(arg)->fsid[0] ^= 0x55;
				return 0;
			}
			treesim::fs_info(static_cast<btrfs_ioctl_fs_info_args *>(arg), fs->committed);
			if (o->k == OF::FOREIGN) static_cast<btrfs_ioctl_fs_info_args *>(arg)->fsid[0] ^= 0x33;
			return 0;
		}
		case FS_IOC_GETFLAGS: {
			if (!enter("GETFLAGS", fd)) return -1;
			o = of(fd);
			Inode *i = o->k == OF::FOREIGN ? &fs->roots[o->root].inodes[o->ino] : ino_of(o);
			if (!i) { errno = ENOTTY; return -1; }
			*static_cast<int *>(arg) = i->iflags;
			return 0;
		}
		case FS_IOC_SETFLAGS: {
			if (!enter("SETFLAGS", fd)) return -1;
			Inode *i = ino_of(of(fd));
			if (!i) { errno = ENOTTY; return -1; }
			if (!i->tmp) mc::fail("flags-changed", "the daemon changed the flags of a file that is not one of its temporary files: " + of(fd)->path);
			const int want = *static_cast<int *>(arg);
			if ((want & FS_COMPR_FL) && (want & (FS_NOCOMP_FL | FS_NOCOW_FL))) { errno = EINVAL; return -1; }
			// a file that has a size stays as it is with respect to copying on write
			i->iflags = i->size ? (want & ~FS_NOCOW_FL) | (i->iflags & FS_NOCOW_FL) : want;
			return 0;
		}
	}
	if (getenv("SIM_TRACE")) mc::log("unknown ioctl %#lx", req);
	errno = ENOTTY;
	return -1;
}
int posix_fadvise64(int fd, off64_t off, off64_t len, int adv)
{
	if (fd < VFD) return int(syscall(SYS_fadvise64, fd, off, len, adv));
	if (!enter("fadvise", fd, u64(off), u64(len))) return errno;
	return 0;
}
int posix_fadvise(int fd, off_t off, off_t len, int adv) { return posix_fadvise64(fd, off, len, adv); }
ssize_t readahead(int fd, off64_t off, size_t len)
{
	if (!act()) return syscall(SYS_readahead, fd, off, len);
	return enter("readahead", fd, u64(off), len) ? 0 : -1;
}
int mlock(const void *p, size_t n) { return act() ? (enter("mlock", -1) ? 0 : -1) : int(syscall(SYS_mlock, p, n)); }
int madvise(void *p, size_t n, int adv) { return act() ? (enter("madvise", -1, u64(p), n) ? 0 : -1) : int(syscall(SYS_madvise, p, n, adv)); }
int getrusage(__rusage_who_t who, struct rusage *u)
{
	if (!act()) return int(syscall(SYS_getrusage, who, u));
	if (!enter("getrusage", -1)) return -1;
	memset(u, 0, sizeof *u);
	u->ru_stime.tv_sec = time_t(thread_stime_ns / 1000000000ull);
	u->ru_stime.tv_usec = suseconds_t(thread_stime_ns / 1000 % 1000000);
	return 0;
}
int getrlimit64(__rlimit_resource_t r, struct rlimit64 *l)
{
	if (!act()) return int(syscall(SYS_prlimit64, 0, r, nullptr, l));
	l->rlim_cur = 1024; l->rlim_max = 1 << 20;
	return 0;
}
int setrlimit64(__rlimit_resource_t r, const struct rlimit64 *l)
{
	if (!act()) return int(syscall(SYS_prlimit64, 0, r, l, nullptr));
	return 0;
}
int getloadavg(double *a, int n)
{
	for (int i = 0; i < n; ++i) a[i] = 0;
	return n;
}
int uname(struct utsname *u)
{
	if (!act()) return int(syscall(SYS_uname, u));
	memset(u, 0, sizeof *u);
	strcpy(u->sysname, "Linux"); strcpy(u->machine, "x86_64"); strcpy(u->version, "#1"); strcpy(u->nodename, "sim");
	snprintf(u->release, sizeof u->release, "%s", fs->uname_release.c_str());
	return 0;
}
int sigprocmask(int how, const sigset_t *s, sigset_t *o)
{
	if (!act()) return REALF(int, sigprocmask, int, const sigset_t *, sigset_t *)(how, s, o);
	if (o) sigemptyset(o);
	return 0;
}
int sigwaitinfo(const sigset_t *set, siginfo_t *info)
{
	if (!act()) return REALF(int, sigwaitinfo, const sigset_t *, siginfo_t *)(set, info);
	for (;;) {
		if (fs->signals & 1) { fs->signals &= ~1u; errno = EINTR; return -1; }   // (stopped and continued)
		for (int s = 1; s < 32; ++s) if ((fs->signals & (1u << s)) && sigismember(set, s)) {
			fs->signals &= ~(1u << s);
			if (info) { memset(info, 0, sizeof *info); info->si_signo = s; }
			return s;
		}
		mc::block_until([set]() { if (fs->signals & 1) return true; for (int s = 1; s < 32; ++s) if ((fs->signals & (1u << s)) && sigismember(set, s)) return true; return false; }, "signal");
	}
}
pid_t gettid(void) { return mc::managed() ? pid_t(1000 + mc::self()) : pid_t(syscall(SYS_gettid)); }
char *getenv(const char *name)
{
	static auto real = reinterpret_cast<char *(*)(const char *)>(dlsym(RTLD_NEXT, "getenv"));
	if (!act() || !strncmp(name, "SIM_", 4) || !strncmp(name, "MC_", 3)) return real(name);
	auto i = sim::env->find(name);
	return i == sim::env->end() ? nullptr : &i->second[0];
}
struct tm *localtime(const time_t *t) { static struct tm r; memset(&r, 0, sizeof r); return gmtime_r(t, &r); }
struct tm *localtime_r(const time_t *t, struct tm *r) { memset(r, 0, sizeof *r); return gmtime_r(t, r); }
void _exit(int st)
{
	if (act() && mc::managed()) daemon_exit(st);
	mc::hard_exit(st);
}
void exit(int st) noexcept(false)
{
	if (act() && mc::managed()) daemon_exit(st);
	static auto real = reinterpret_cast<void (*)(int)>(dlsym(RTLD_NEXT, "exit"));
	real(st);
	for (;;) {}
}
} // extern "C"
