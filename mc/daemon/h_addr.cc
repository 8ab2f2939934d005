// Addresses of blocks (C25) and extension of matches (C26), computed by the real code on files of
// the simulated filesystem
#include "common.h"

struct Ctx {
	std::shared_ptr<BeesContext> c;
	std::shared_ptr<BeesHashTable> t;
	Ctx()
	{
		mc::set_points_enabled(false);
		*env = {{"BEESHOME", "/home"}};
		c = std::make_shared<BeesContext>();
		c->set_root_path("/mnt");
		c->roots();
		t = c->hash_table();
	}
	void stop() { t->stop_request(); t->stop_wait(); }
	Fd open(u64 root, u64 ino)
	{
		Fd fd = c->roots()->open_root_ino(root, ino);
		if (!fd) mc::error("cannot open the test file");
		return fd;
	}
};

// --- addresses ---
enum Kind { HOLEY, UNUSE, DATA };
struct Block { Kind k; u64 root, ino, off; u64 ext, idx; bool comp, eof; Bid content; BeesAddress a; };
static string show(const Block &b) { std::ostringstream o; o << "root " << b.root << " ino " << b.ino << " offset " << H(b.off) << " address " << H(BeesAddress::Type(b.a)) << " (" << (b.k == HOLEY ? "hole" : b.k == UNUSE ? "not usable" : "block " + S(b.idx) + " of extent " + H(b.ext)) << ")"; return o.str(); }

static void segment(u64 f, unsigned k, u64 &at, u64 &plain, u64 &comp, unsigned &n)
{
	auto fresh = [&](unsigned c) { vector<Bid> v; while (c--) v.push_back(pattern(++n)); return v; };
	switch (k) {
	case 0: { const u64 e = new_extent(fresh(2)); map_extent(256, f, at, e, 0, 2 * BLK); if (!plain) plain = e; at += 2 * BLK; break; }
	case 1: { const u64 e = new_extent(fresh(4)); map_extent(256, f, at, e, BLK, 2 * BLK); if (!plain) plain = e; at += 2 * BLK; break; }
	case 2: if (plain) { map_extent(256, f, at, plain, BLK, BLK); at += BLK; } break;                      // the same block again
	case 3: { const u64 e = new_extent(fresh(3), 1); map_extent(256, f, at, e, BLK, 2 * BLK); comp = e; at += 2 * BLK; break; }
	case 4: { const u64 e = new_extent(fresh(32), 2); map_extent(256, f, at, e, 30 * BLK, 2 * BLK); at += 2 * BLK; break; }
	case 5: { const u64 e = new_extent(fresh(32), 3); map_extent(256, f, at, e, 0, 32 * BLK); if (!comp) comp = e; at += 32 * BLK; break; }
	case 6: if (comp) { map_extent(256, f, at, comp, BLK, BLK); at += BLK; } break;                        // the same compressed block again
	case 7: at += BLK; break;                                                                              // hole
	case 8: map_extent(256, f, at, 0, 0, 2 * BLK); at += 2 * BLK; break;                                   // explicit hole
	case 9: { const u64 e = new_extent({0, 0}); map_extent(256, f, at, e, 0, 2 * BLK, F_PREALLOC); at += 2 * BLK; break; }
	case 10: { const u64 e = new_extent({0, 0}); map_extent(256, f, at, e, 0, 2 * BLK); at += 2 * BLK; break; }
	case 11: { for (unsigned j = 0; j < 17; ++j) { const u64 e = new_extent(fresh(1)); map_extent(256, f, at, e, 0, BLK); at += (j % 3 ? 1 : 2) * BLK; } break; }
	case 12: { const u64 e = new_extent(fresh(5)); map_extent(256, f, at, e, 0, 5 * BLK); const u64 e2 = new_extent(fresh(1), 1); map_extent(256, f, at + 2 * BLK, e2, 0, BLK); at += 5 * BLK; break; }
	case 13: { const u64 w = 0x40000000 + at; map_extent(256, f, at, new_extent(fresh(1), 0, 0, w), 0, BLK); map_extent(256, f, at + BLK, new_extent(fresh(1), 0, 0, w + BLK), 0, BLK); at += 2 * BLK; break; }
	}
}

MC_SCENARIO(addr, FORK)
{
	const unsigned segs = unsigned(mc::param("segs", 2)), kinds = 14;
	reset();
	add_subvol(256, "sub");
	const u64 f = add_file(256, "f"), g = add_file(256, "g"), small = add_file(256, "small");
	map_inline(256, small, string(900, 'q'), u64(mc::choose(2)));
	u64 at = 0, plain = 0, comp = 0;
	unsigned n = 10;
	string what;
	for (unsigned s = 0; s < segs; ++s) { const unsigned k = mc::choose(kinds); what += S(k) + " "; segment(f, k, at, plain, comp, n); }
	if (!at) return;
	// the second file shares the first one's extents, shifted
	for (auto &x : inode(256, f).ext) { const FExt y = x.second; if (y.ext && y.type == F_REG) map_extent(256, g, x.first + BLK, y.ext, y.eoff, y.num); }
	static const u64 tails[] = {0, 1, 1000, 4095};
	const u64 tail = tails[mc::choose(4)];
	set_size(256, f, tail ? at - BLK + tail : at);
	if (mc::choose(2)) { what += "; snapshot "; snapshot(256, 258, "snap", true); }
	mc::log("segments %s, last block %llu bytes", what.c_str(), (unsigned long long)(tail ? tail : BLK));
	commit();
	hash_file(1);
	phase([&]() {
		Ctx x;
		vector<Block> v;
		for (auto &r : fs->roots) for (auto &ip : r.second.inodes) {
			Inode &i = ip.second;
			if ((i.mode & S_IFMT) != S_IFREG) continue;
			Fd fd = x.open(r.first, i.ino);
			for (u64 o = 0; o < i.size; o += BLK) {
				Block b{HOLEY, r.first, i.ino, o, 0, 0, false, false, 0, {}};
				auto e = i.ext.upper_bound(o);
				if (e != i.ext.begin() && (--e, e->first + std::max<u64>(e->second.num, BLK) > o)) {
					const FExt &y = e->second;
					if (y.type == F_INLINE) b.k = UNUSE;
					else if (y.ext) {   // (preallocated blocks too: a place on disk)
					 b.k = DATA; b.ext = y.ext; b.idx = (y.eoff + o - e->first) / BLK; b.comp = fs->exts[y.ext].comp; b.content = fs->exts[y.ext].blocks[b.idx]; b.eof = o + BLK > i.size; }
				}
				b.a = BeesAddress(fd, off_t(o));
				const BeesAddress c(fd, off_t(o), x.c);
				mc::compared();
				if (BeesAddress::Type(c) != BeesAddress::Type(b.a)) mc::fail("two-ways", "two ways to find one block's address differ: " + show(b) + " and " + H(BeesAddress::Type(c)));
				const BeesBlockData bd(fd, off_t(o), size_t(std::min<u64>(BLK, i.size - o)));
				if (BeesAddress::Type(bd.addr()) != BeesAddress::Type(b.a)) mc::fail("two-ways", "a block's address differs from its data's: " + show(b));
				v.push_back(b);
			}
		}
		for (auto &b : v) {
			const BeesAddress &a = b.a;
			const bool magic = a.is_magic();
			if (magic != (b.k != DATA)) mc::fail("kind", string(magic ? "a data block has no address: " : "a block without usable data has an address: ") + show(b) + "\n" + layout());
			if (b.k == HOLEY && !(a == BeesAddress::HOLE)) mc::fail("kind", "a hole is not told apart: " + show(b));
			if (b.k == UNUSE && !(a == BeesAddress::UNUSABLE)) mc::fail("kind", "an inline block is not told apart: " + show(b));
			if (magic) { if (a.get_physical_or_zero() || a.is_compressed() || a.is_toxic() || a.is_unaligned_eof()) mc::fail("kind", "an address without data has properties: " + show(b)); continue; }
			if (a.is_toxic()) mc::fail("toxic", "a new address is toxic: " + show(b));
			if (a.is_compressed() != b.comp) mc::fail("compressed", "compression is misreported: " + show(b));
			if (a.is_unaligned_eof() != b.eof) mc::fail("eof", string(b.eof ? "an unaligned last block is not told apart: " : "a full block passes for an unaligned last one: ") + show(b));
			const u64 where = b.comp ? b.ext : b.ext + b.idx * BLK;
			if (a.get_physical_or_zero() != where) mc::fail("where", "address of another place: " + show(b) + "\n" + layout());
			if (b.comp && a.get_compressed_offset() != b.idx * BLK) mc::fail("where", "offset in the compressed extent is wrong: " + show(b));
			BeesAddress t = a;
			t.set_toxic();
			if (!t.is_toxic() || t.is_compressed() != a.is_compressed() || t.is_unaligned_eof() != a.is_unaligned_eof() || t.get_physical_or_zero() != a.get_physical_or_zero() || t.is_magic() || (b.comp && t.get_compressed_offset() != a.get_compressed_offset()) || t == a)
				mc::fail("toxic", "marking an address toxic changed something else: " + show(b) + " became " + H(BeesAddress::Type(t)));
		}
		for (auto &p : v) for (auto &q : v) {
			const bool same = p.k == q.k && (p.k != DATA || (p.ext == q.ext && p.idx == q.idx && p.eof == q.eof));
			if ((p.a == q.a) != same) mc::fail("equal", string(same ? "one block has two addresses: " : "two blocks have one address: ") + show(p) + " and " + show(q) + "\n" + layout());
			if ((p.a != q.a) == same || (p.a < q.a && q.a < p.a) || (!same && !(p.a < q.a) && !(q.a < p.a)) || (same && p.a < q.a)) mc::fail("order", "addresses are not ordered: " + show(p) + " and " + show(q));
		}
		mc::compared(v.size() * v.size());
		// in the table and back, before and after it is written
		std::map<u64, std::set<u64>> kept;
		for (auto &b : v) if (b.k == DATA) {
			BeesHash h(content(b.content), b.eof ? fs->roots[b.root].inodes[b.ino].size - b.off : BLK);
			x.t->push_front_hash_addr(h, b.a);
			kept[h].insert(BeesAddress::Type(b.a));
		}
		auto check = [&](BeesHashTable &t, const char *when) {
			for (auto &k : kept) {
				std::set<u64> got;
				for (auto &c : t.find_cell(k.first)) got.insert(c.e_addr);
				mc::compared();
				if (got != k.second) mc::fail("stored", string("addresses found in the table ") + when + " are not those stored for a hash");
			}
		};
		check(*x.t, "after storing");
		x.stop();
		BeesHashTable again(x.c, "beeshash.dat");
		check(again, "after writing and reading it");
		again.stop_request(); again.stop_wait();
		string o; for (auto &b : v) o += H(BeesAddress::Type(b.a)) + " ";
		mc::outcome(o);
	});
}

// --- extension of matches ---
// letters: 0 a hole, 1 zeros, 2.. data
// share: block share - 1 is a reference to the block at that place in the file given to make()
struct Spec { vector<unsigned> l; unsigned store; unsigned tail; unsigned share = 0; };
// the content of a letter; with collide=1 the last of three data letters collides with the one before
static Bid letter(unsigned l) { return l == 1 ? 0 : l == 3 && mc::param("collide", 0) ? collision(pattern(2)) : pattern(l); }
// where a block is on the disk, 0 for holes
static u64 phys(u64 ino, u64 off)
{
	auto &m = inode(256, ino).ext;
	auto e = m.upper_bound(off);
	if (e == m.begin()) return 0;
	--e;
	if (e->first + e->second.num <= off || !e->second.ext) return 0;
	return e->second.comp ? e->second.ext : e->second.ext + e->second.eoff + (off - e->first);
}
static bool stored_compressed(u64 ino, u64 off)
{
	auto &m = inode(256, ino).ext;
	auto e = m.upper_bound(off);
	return e != m.begin() && std::prev(e)->second.comp;
}
static u64 make(const string &name, const Spec &s, u64 other = 0)
{
	const u64 i = add_file(256, name.c_str());
	const u64 n = s.l.size();
	const bool comp = s.store & 1, split = s.store & 2;
	for (u64 k = 0; k < n; ) {
		if (!s.l[k]) { ++k; continue; }
		vector<Bid> b;
		const u64 from = k;
		if (s.share == k + 1) {
			auto e = std::prev(inode(256, other).ext.upper_bound(k * BLK));
			map_extent(256, i, k * BLK, e->second.ext, e->second.eoff + k * BLK - e->first, BLK);
			++k;
			continue;
		}
		do { b.push_back(letter(s.l[k])); ++k; } while (!split && k < n && s.l[k] && s.share != k + 1);
		map_extent(256, i, from * BLK, new_extent(b, comp), 0, b.size() * BLK);
	}
	set_size(256, i, (n - 1) * BLK + (s.tail ? s.tail : BLK));
	return i;
}
static string text(const Spec &s) { string r; for (unsigned l : s.l) r += l > 1 ? char('A' + l - 2) : l ? '0' : '-'; return r + (s.store & 1 ? " compressed" : "") + (s.store & 2 ? " one block per extent" : "") + (s.tail ? " tail " + S(s.tail) : "") + (s.share ? " block " + S(s.share - 1) + " shared" : ""); }

static u64 grow_one(Ctx &x, Fd fa, const string &da, Fd fb, const string &db, bool same_file, u64 sa, u64 sb, bool constrained, const Spec &A, const Spec &B, const std::set<Bid> &toxic, u64 inoa, u64 inob)
{
	const u64 la = std::min<u64>(BLK, da.size() - sa), lb = std::min<u64>(BLK, db.size() - sb);
	if (la != lb || memcmp(&da[sa], &db[sb], la)) return 0;
	BeesRangePair p(BeesFileRange(fa, off_t(sa), off_t(sa + la)), BeesFileRange(fb, off_t(sb), off_t(sb + lb)));
	const string what = text(A) + (same_file ? "" : " / " + text(B)) + ", from " + H(sa) + " and " + H(sb) + (constrained ? " within the extent" : "");
	string thrown;
	try { p.grow(x.c, constrained); } catch (const std::exception &e) { thrown = e.what(); }
	const u64 b1 = u64(p.first.begin()), e1 = u64(p.first.end()), b2 = u64(p.second.begin()), e2 = u64(p.second.end());
	const string at = what + ": " + H(b1) + ".." + H(e1) + " and " + H(b2) + ".." + H(e2);
	mc::compared();
	if (!thrown.empty()) mc::fail("threw", what + ": " + thrown);
	if (b1 > sa || e1 < sa + la || b2 > sb || e2 < sb + lb) mc::fail("start", "the block that matched is not in the match: " + at);
	if (e1 - b1 != e2 - b2) mc::fail("length", "the sides have different lengths: " + at);
	if (sa - b1 != sb - b2) mc::fail("shifted", "the sides were extended by different amounts: " + at);
	if (e1 > da.size() || e2 > db.size()) mc::fail("bounds", "beyond the end of a file: " + at);
	if (same_file && b1 < e2 && b2 < e1) mc::fail("overlap", "the sides overlap: " + at);
	if (memcmp(&da[b1], &db[b2], e1 - b1)) mc::fail("different", "data differ: " + at);
	if (b1 % BLK || b2 % BLK) mc::fail("alignment", "begins inside a block: " + at);
	if ((e1 % BLK || e2 % BLK) && (e1 != da.size() || e2 != db.size())) mc::fail("alignment", "ends inside a block, not at the end of both files: " + at);
	for (u64 o = b1; o < e1; o += BLK) if (o != sa) {
		const unsigned l = A.l[o / BLK];
		if (l == 1 && !stored_compressed(inoa, o)) mc::fail("zeros", "a stored block of zeros was taken in as a source: " + at);
		const u64 pa = phys(inoa, o);
		if (pa && pa == phys(inob, o - b1 + b2)) mc::fail("shared", "a block that both sides already share was taken in: " + at);
		if (l > 1 && toxic.count(Bid(l == 3 && mc::param("collide", 0) ? 2 : l))) mc::fail("toxic", "a source block with a toxic hash was taken in: " + at);
	}
	// inside the extent of the second side it stops only for a reason
	auto &m = inode(256, inob).ext;
	auto x2 = std::prev(m.upper_bound(sb));
	const u64 es = x2->first, ee = std::min<u64>(es + x2->second.num, db.size());
	auto may = [&](u64 o1, u64 o2) {
		const u64 l1 = std::min<u64>(BLK, da.size() - o1), l2 = std::min<u64>(BLK, db.size() - o2);
		if (l1 != l2 || memcmp(&da[o1], &db[o2], l1)) return false;
		if (phys(inoa, o1) == phys(inob, o2)) return false;
		const unsigned l = A.l[o1 / BLK];
		if (l == 1 && !stored_compressed(inoa, o1)) return false;
		if (l > 1 && toxic.count(Bid(l == 3 && mc::param("collide", 0) ? 2 : l))) return false;
		return true;
	};
	if (b2 > es && b1 >= BLK && !(same_file && b1 - BLK < e2 && b2 - BLK < e1) && may(b1 - BLK, b2 - BLK)) mc::fail("stopped-early", "not extended backward: " + at);
	if (e2 < ee && e1 < da.size() && !(same_file && b1 < e2 + BLK && b2 < e1 + BLK) && may(e1, e2)) mc::fail("stopped-early", "not extended forward: " + at);
	return (e1 - b1 + BLK - 1) / BLK;
}

MC_SCENARIO(grow, FORK)
{
	const unsigned len = unsigned(mc::param("len", 3)), letters = unsigned(mc::param("letters", 4)), lenb = unsigned(mc::param("lenb", len));
	const bool one = mc::param("one", 0);
	static const unsigned tails[] = {0, 1000, 1500};
	const bool share = mc::param("share", 0);   // one block of the other file is a reference to the same block of the first
	const unsigned ntails = unsigned(mc::param("tails", 2)), stores = unsigned(mc::param("stores", 4));
	Spec A;
	for (unsigned k = 0; k < len; ++k) A.l.push_back(mc::choose(letters));
	A.store = mc::choose(stores);
	A.tail = tails[mc::choose(ntails)];
	std::set<Bid> toxic;
	if (const unsigned t = mc::choose(2)) toxic.insert(t + 1);
	reset();
	add_subvol(256, "sub");
	const u64 a = make("a", A);
	struct Other { Spec s; u64 ino; string data; };
	vector<Other> o;
	if (!one) {
		unsigned total = 1;
		for (unsigned k = 0; k < lenb; ++k) total *= letters;
		for (unsigned m = 0; m < total; ++m) for (unsigned s = 0; s < stores; ++s) for (unsigned t = 0; t < ntails; ++t) {
			Spec B;
			unsigned r = m;
			for (unsigned k = 0; k < lenb; ++k, r /= letters) B.l.push_back(r % letters);
			B.store = s; B.tail = tails[t];
			bool any = false;
			for (unsigned l : B.l) if (l > 1 && std::count(A.l.begin(), A.l.end(), l)) any = true;
			if (!any) continue;   // nothing to match
			for (unsigned h = 0; h <= (share ? len : 0); ++h) {
				if (share && !h) continue;
				B.share = h;
				if (h && (h > lenb || A.l[h - 1] != B.l[h - 1] || B.l[h - 1] < 1)) continue;
				const u64 i = make("b" + S(o.size()), B, a);
				o.push_back(Other{B, i, ""});
			}
		}
	}
	commit();
	const string da = read_file(256, a);
	for (auto &b : o) b.data = read_file(256, b.ino);
	mc::log("%s%s with %zu other files", text(A).c_str(), toxic.empty() ? "" : ", first letter's hash toxic", o.size());
	hash_file(1);
	phase([&]() {
		Ctx x;
		for (Bid t : toxic) for (u64 l : {u64(1000), u64(1500), BLK}) {
			BeesAddress ta(0x40000000);
			ta.set_toxic();
			x.t->push_front_hash_addr(BeesHash(content(pattern(t)), l), ta);
		}
		Fd fa = x.open(256, a);
		u64 grown = 0;
		auto usable = [](const Spec &s, u64 k) { return s.l[k] > 1; };
		auto pair = [&](Fd fa, const string &da, const Spec &A, u64 inoa, Fd fb, const string &db, const Spec &B, u64 inob) {
			const bool same = inoa == inob;
			for (u64 i = 0; i < A.l.size(); ++i) for (u64 j = 0; j < B.l.size(); ++j) {
				if (same && i == j) continue;
				if (!usable(A, i) || A.l[i] != B.l[j]) continue;
				if (!same && phys(inoa, i * BLK) == phys(inob, j * BLK)) continue;
				for (bool c : {true, false}) grown += grow_one(x, fa, da, fb, db, same, i * BLK, j * BLK, c, A, B, toxic, inoa, inob);
			}
		};
		if (one) pair(fa, da, A, a, fa, da, A, a);
		for (auto &b : o) {
			Fd fb = x.open(256, b.ino);
			pair(fa, da, A, a, fb, b.data, b.s, b.ino);
			if (share) pair(fb, b.data, b.s, b.ino, fa, da, A, a);
		}
		x.stop();
		mc::outcome(S(grown));
	});
}

// --- addresses stored in one run lead to their data in the next ---
MC_SCENARIO(resolve, FORK)
{
	const unsigned segs = unsigned(mc::param("segs", 1)), kinds = 14;
	reset();
	fs_options();
	// (an extent with a block referenced twice may be left partly unread: see DESIGN.md)
	add_subvol(256, "sub");
	const u64 f = add_file(256, "f");
	u64 at = 0, plain = 0, comp = 0;
	unsigned n = 10;
	string what;
	for (unsigned s = 0; s < segs; ++s) { const unsigned k = mc::choose(kinds); if (k == 2 || k == 6) return; what += S(k) + " "; segment(f, k, at, plain, comp, n); }
	if (!at) return;
	static const u64 tails[] = {0, 1000};
	const u64 tail = tails[mc::choose(2)];
	set_size(256, f, tail ? at - BLK + tail : at);
	for (unsigned k = 0; k < 3; ++k) commit();
	hash_file(1);
	Opt o;
	run_daemon(mk_run(o));
	const string d = read_file(256, f);
	vector<u64> at_off;
	for (u64 b = 0; b < d.size(); b += BLK) {
		auto e = inode(256, f).ext.upper_bound(b);
		if (e == inode(256, f).ext.begin()) continue;
		--e;
		if (e->first + e->second.num <= b || !e->second.ext || e->second.type != F_REG) continue;
		const string one = d.substr(b, BLK);
		if (one.find_first_not_of('\0') == string::npos) continue;
		at_off.push_back(b);
	}
	if (at_off.empty()) return;
	// one copy of one block, the only block of another file
	const u64 off = at_off[mc::choose(unsigned(at_off.size()))];
	const string one = d.substr(off, BLK);
	const u64 g = add_file(256, "g");
	write_blocks(256, g, 0, {intern(one.data(), one.size())});
	set_size(256, g, one.size());
	for (unsigned k = 0; k < 3; ++k) commit();
	mc::log("segments %s tail %llu; a copy of the block at %#llx", what.c_str(), (unsigned long long)tail, (unsigned long long)off);
	const string before = layout();
	run_daemon(mk_run(o));
	mc::compared();
	const FExt &x = inode(256, g).ext[0];
	bool shared = false;
	for (auto &e : inode(256, f).ext) if (e.second.ext == x.ext) shared = true;
	if (read_file(256, g) != one || read_file(256, f) != d) mc::fail("content", "content changed\n" + before + layout());
	if (!shared) mc::fail("not-found", "a block stored in an earlier run was not found again at its address\nbefore:\n" + before + "\nafter:\n" + layout());
	mc::outcome(S(shared));
}
