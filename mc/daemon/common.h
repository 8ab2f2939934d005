// Shared parts of the whole-daemon harnesses
#ifndef COMMON_H
#define COMMON_H
#include "sim.h"
#include "bees.h"
#include <algorithm>
#include <csignal>
#include <linux/fs.h>
#include <linux/btrfs_tree.h>
using namespace sim;
using std::string;
using std::vector;
typedef std::pair<u64, u64> Fid;

inline string S(u64 v) { return std::to_string(v); }
inline string H(u64 v) { char b[32]; snprintf(b, sizeof b, "%#llx", (unsigned long long)v); return b; }

// What a user sees of every file
struct FileView { string data; u64 size; int iflags; uint32_t mode; u64 mtime; };
typedef std::map<Fid, FileView> View;
inline FileView view_of(u64 r, u64 i) { Inode &n = inode(r, i); return FileView{read_file(r, i), n.size, n.iflags, n.mode, n.mtime}; }
inline View view() { View v; for (auto &f : user_files()) v[f] = view_of(f.first, f.second); return v; }
inline void check_view(const View &before, const View &after, const char *what = "")
{
	for (auto &b : before) {
		auto a = after.find(b.first);
		const string f = "file root " + S(b.first.first) + " ino " + S(b.first.second) + what;
		if (a == after.end()) mc::fail("content", f + " is gone");
		mc::compared();
		if (a->second.size != b.second.size) mc::fail("size", f + ": size " + S(b.second.size) + " became " + S(a->second.size));
		if (a->second.data != b.second.data) {
			size_t k = 0;
			while (a->second.data[k] == b.second.data[k]) ++k;
			mc::fail("content", f + ": byte " + H(k) + " changed\n" + layout());
		}
		if (a->second.iflags != b.second.iflags || a->second.mode != b.second.mode || a->second.mtime != b.second.mtime) mc::fail("attributes", f + ": flags, mode or modification time changed");
	}
	for (auto &a : after) if (!before.count(a.first)) mc::fail("content", "a file appeared: root " + S(a.first.first) + " ino " + S(a.first.second));
}

inline const char *mode_name(int m) { static const char *const n[] = {"0", "1", "2", "3", "4"}; return n[m]; }
struct Opt {
	int mode = int(mc::param("mode", 4));
	int threads = int(mc::param("threads", 1));
	u64 secs = u64(mc::param("secs", 45));
	vector<string> extra;
};
inline Run mk_run(const Opt &o)
{
	Run r;
	r.args = {"-c", S(u64(o.threads)), "-m", mode_name(o.mode)};
	for (auto &e : o.extra) r.args.push_back(e);
	const u64 s = o.secs;
	r.beside = [s]() { mc::sleep_ns(s * 1000000000ull); };
	return r;
}
inline void fs_options()
{
	fs->compress = mc::param("compress", 0);
	fs->eager_flush = mc::param("eager", 0);
	fs->leaf_transid = mc::param("leaf", 0);
	fs->reuse = mc::param("reuse", 0);
	// the top directory: new files in it are not copied on write, or not compressed
	if (const int64_t d = mc::param("dirflags", 0)) inode(5, 256).iflags |= d == 1 ? FS_NOCOW_FL : FS_NOCOMP_FL;
	mc::set_points_enabled(mc::param("points", 0) == 2);
	fs->call_points = mc::param("points", 0) == 1;
}

// Another block with the same hash: the hash is linear, so the last words can make up for a change in the first
static inline Bid collision(Bid a)
{
	uint8_t b[BLK];
	memcpy(b, content(a), BLK);
	const u64 want = BeesHash(b, BLK);
	b[0] ^= 0x5a;
	u64 diff = want ^ u64(BeesHash(b, BLK));
	const u64 base = u64(BeesHash(b, BLK));
	struct Row { u64 v, bits; };
	vector<Row> rows;
	for (unsigned k = 0; k < 64; ++k) {
		b[BLK - 8 + k / 8] ^= uint8_t(1 << (k % 8));
		rows.push_back(Row{u64(BeesHash(b, BLK)) ^ base, 1ull << k});
		b[BLK - 8 + k / 8] ^= uint8_t(1 << (k % 8));
	}
	u64 fix = 0;
	for (unsigned bit = 0; bit < 64; ++bit) {
		size_t r = 0;
		while (r < rows.size() && !(rows[r].v >> bit & 1)) ++r;
		if (r == rows.size()) continue;
		const Row p = rows[r];
		rows.erase(rows.begin() + long(r));
		for (auto &x : rows) if (x.v >> bit & 1) { x.v ^= p.v; x.bits ^= p.bits; }
		if (diff >> bit & 1) { diff ^= p.v; fix ^= p.bits; }
	}
	for (unsigned k = 0; k < 64; ++k) if (fix >> k & 1) b[BLK - 8 + k / 8] ^= uint8_t(1 << (k % 8));
	if (u64(BeesHash(b, BLK)) != want) { mc::log("no collision found"); return pattern(2); }
	return intern(b, BLK);
}

// makes all extents older than the transaction the first pass ends with, so that the next pass does not see them again
static __attribute__((unused)) void age()
{
	for (unsigned k = 0; k < 3; ++k) { commit(); fs->changed = true; }
	commit();
}

// --- layouts ---
// Every way to fill a file with up to max_ext extents of up to max_len blocks over the letters
// used so far, a new one, and zero
struct Gen {
	unsigned letters = 0;       // used so far
	unsigned max_letters = unsigned(mc::param("letters", 3));
	bool zeros = mc::param("zeros", 1), collide = mc::param("collide", 0);
	Bid block()
	{
		const unsigned n = std::min(letters + 1, max_letters);
		unsigned c = mc::choose(n + (zeros ? 1 : 0));
		if (c == n) return 0;
		if (c == letters) ++letters;
		if (c == 1 && collide) return collision(pattern(1));
		return pattern(c + 1);
	}
	vector<Bid> extent(unsigned max_len)
	{
		const unsigned len = 1 + mc::choose(max_len);
		vector<Bid> v;
		for (unsigned i = 0; i < len; ++i) v.push_back(block());
		return v;
	}
};
inline string letters(const vector<Bid> &v)
{
	string s;
	for (Bid b : v) s += b ? char('A' + (b - 1) % 26) : '0';
	return s;
}

// A small filesystem chosen by the explorer.  Parameters: files, extents, len, letters, zeros as
// above; tails: files may end inside a block; srccomp: extents of more than one block are
// compressed; variants: what may have happened to it after it was written; subvol: the files are in a
// subvolume rather than the top.
struct Layout {
	u64 rootid = 5;
	string desc;
	vector<Fid> files;
	Gen g;
	void make()
	{
		const unsigned nf = unsigned(mc::param("files", 2)), max_ext = unsigned(mc::param("extents", 2)), max_len = unsigned(mc::param("len", 2));
		const bool tails = mc::param("tails", 0), srccomp = mc::param("srccomp", 0);
		if (mc::param("subvol", 0)) { add_subvol(256, "sub"); rootid = 256; }
		for (unsigned f = 0; f < nf; ++f) {
			const u64 ino = add_file(rootid, (string("f") + char('0' + f)).c_str());
			files.push_back(Fid(rootid, ino));
			const unsigned n = 1 + mc::choose(max_ext);
			u64 off = 0;
			desc += "f" + S(f) + ":";
			for (unsigned e = 0; e < n; ++e) {
				auto v = g.extent(max_len);
				unsigned cut = 0;
				if (tails && e + 1 == n) {
					static const unsigned cuts[] = {0, 96, 4000};
					cut = cuts[mc::choose(3)];
					if (cut && v.back()) v.back() = pattern(v.back(), BLK - cut);
				}
				const bool comp = srccomp && v.size() > 1;
				desc += "[" + letters(v) + (comp ? "z" : "") + "]";
				if (cut) desc += "-" + S(cut);
				write_blocks(rootid, ino, off, v, comp ? 1 : 0);
				off += v.size() * BLK;
				if (cut) inode(rootid, ino).size = off - cut;
			}
			desc += " ";
		}
		if (const unsigned nv = unsigned(mc::param("variants", 0))) variant(mc::choose(nv + 1));
		mc::log("%s", desc.c_str());
		commit();
	}
	Ext &ext_at(u64 ino, u64 off) { auto &m = inode(rootid, ino).ext; auto i = std::prev(m.upper_bound(off)); return fs->exts[i->second.ext]; }
	void variant(unsigned v)
	{
		const u64 f0 = files[0].second;
		const Ext &e = ext_at(f0, 0);
		const u64 a = e.bytenr, len = e.ram();
		switch (v) {
		case 1: {   // a clone of the first extent, in another file
			u64 c = add_file(rootid, "clone"); map_extent(rootid, c, 0, a, 0, len); desc += "clone "; break; }
		case 2: {   // two references to parts of it in one file, the second block first
			u64 c = add_file(rootid, "parts"); if (len > BLK) map_extent(rootid, c, 0, a, BLK, len - BLK); map_extent(rootid, c, len, a, 0, BLK); desc += "parts "; break; }
		case 3: punch(rootid, f0, 0, BLK); desc += "punch-first "; break;
		case 4: write_blocks(rootid, f0, len - BLK, {g.block()}); desc += "overwrite-last "; break;
		case 5: if (rootid != 5) { snapshot(rootid, 300, "snap"); desc += "snapshot "; } break;
		case 6: if (rootid != 5) { snapshot(rootid, 300, "snap", true); desc += "ro-snapshot "; } break;
		case 7: {   // preallocated space at the end
			Inode &n = inode(rootid, f0); u64 at = (n.size + BLK - 1) & ~(BLK - 1); map_extent(rootid, f0, at, new_extent({0, 0}), 0, 2 * BLK, F_PREALLOC); desc += "prealloc "; break; }
		case 8: {   // an inline file and a symbolic link
			u64 c = add_file(rootid, "inline"); map_inline(rootid, c, string(100, 'x')); add_symlink(rootid, "ln", "f0"); desc += "inline "; break; }
		case 9: {   // a hole before the first extent of a new file with a known block
			u64 c = add_file(rootid, "sparse"); write_blocks(rootid, c, 16 * BLK, {g.block()}); desc += "sparse "; break; }
		case 10: {  // the file with no data checksums
			inode(rootid, f0).inode_flags |= 1; desc += "nodatasum "; break; }
		}
	}
};

// Fixed small filesystems that make the daemon share, copy, and punch
static const char *const shapes[][3] = {
	// f0, f1: '|' separates extents; lower case: the same block as the capital, stored compressed
	{"AB", "AB", ""}, {"ABC", "ABD", ""}, {"A0", "B|A0", ""}, {"00", "A", "prealloc"}, {"AB|C", "C|AB", "clone"}, {"ab", "abc", ""}, {"AB|A", "B", "tail"}, {"AAB", "AC", "snapshot"},
};
const unsigned n_shapes = sizeof shapes / sizeof *shapes;
static __attribute__((unused)) vector<u64> make_shape(unsigned k)
{
	vector<u64> inos;
	const bool snap = !strcmp(shapes[k][2], "snapshot");
	u64 rid = 5;
	if (snap) { add_subvol(256, "sub"); rid = 256; }
	for (unsigned f = 0; f < 2; ++f) {
		const u64 ino = add_file(rid, f ? "f1" : "f0");
		u64 off = 0;
		string s = string(shapes[k][f]) + "|";
		vector<Bid> v; bool comp = false;
		for (char c : s) {
			if (c == '|') { write_blocks(rid, ino, off, v, comp); off += v.size() * BLK; v.clear(); comp = false; continue; }
			if (c >= 'a') { comp = true; c = char(c - 'a' + 'A'); }
			v.push_back(c == '0' ? 0 : pattern(unsigned(c - 'A') + 1));
		}
		if (!strcmp(shapes[k][2], "tail")) inode(rid, ino).size = off - 100;
		inos.push_back(ino);
	}
	if (!strcmp(shapes[k][2], "tail")) for (u64 ino : inos) { auto &m = inode(rid, ino).ext; auto &e = fs->exts[m.rbegin()->second.ext]; e.blocks[e.blocks.size() - 1] = pattern(e.blocks.back(), BLK - 100); }
	if (!strcmp(shapes[k][2], "prealloc")) map_extent(rid, inos[0], 2 * BLK, new_extent({0, 0}), 0, 2 * BLK, F_PREALLOC);
	if (!strcmp(shapes[k][2], "clone")) { u64 c = add_file(rid, "clone"); auto &x = inode(rid, inos[0]).ext.begin()->second; map_extent(rid, c, BLK, x.ext, 0, x.num); inos.push_back(c); }
	if (snap) snapshot(256, 300, "snap");
	commit();
	return inos;
}

// Acts on the filesystem and on the expected view of it
static __attribute__((unused)) void user_act(unsigned kind, u64 rid, const vector<u64> &ino, View &v)
{
	auto touch = [&](u64 i) { FileView &f = v[Fid(rid, i)]; Inode &n = inode(rid, i); f.mtime = n.mtime; f.mode = n.mode; f.iflags = n.iflags; };
	auto put = [&](u64 i, u64 off, Bid b) {
		write_blocks(rid, i, off, {b});
		FileView &f = v[Fid(rid, i)];
		if (f.data.size() < off + BLK) f.data.resize(off + BLK, 0);
		memcpy(&f.data[off], content(b), BLK);
		f.size = f.data.size();
		touch(i);
	};
	auto cut = [&](u64 i, u64 size) { truncate(rid, i, size); FileView &f = v[Fid(rid, i)]; f.data.resize(size, 0); f.size = size; touch(i); };
	const Bid x = pattern(20), a = pattern(1);
	switch (kind) {
	case 1: put(ino[0], 0, x); mc::log("user: new data at the start of f0"); break;
	case 2: put(ino[1], 0, x); mc::log("user: new data at the start of f1"); break;
	case 3: put(ino[1], BLK, a); mc::log("user: known data in the second block of f1"); break;
	case 4: cut(ino[1], 100); mc::log("user: f1 truncated to 100 bytes"); break;
	case 5: cut(ino[0], BLK); mc::log("user: f0 truncated to a block"); break;
	case 6: unlink(rid, 256, "f0"); v.erase(Fid(rid, ino[0])); mc::log("user: f0 deleted"); break;
	case 7: rename(rid, 256, "f0", 256, "f1"); v.erase(Fid(rid, ino[1])); mc::log("user: f0 renamed over f1"); break;
	case 8: { punch(rid, ino[0], 0, BLK); FileView &f = v[Fid(rid, ino[0])]; memset(&f.data[0], 0, std::min<size_t>(BLK, f.data.size())); touch(ino[0]); mc::log("user: hole at the start of f0"); break; }
	case 9: { const u64 i = add_file(rid, "new"); write_blocks(rid, i, 0, {pattern(2), a}); v[Fid(rid, i)] = view_of(rid, i); mc::log("user: a new file"); break; }
	case 10: put(ino[0], 5 * BLK, a); mc::log("user: f0 extended"); break;
	}
}
#endif
