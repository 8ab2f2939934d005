// The kernel's TREE_SEARCH_V2 over an ordered set of items.
#ifndef TREESIM_H
#define TREESIM_H
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <map>
#include <tuple>
#include <vector>
#include <linux/btrfs.h>
#include <linux/btrfs_tree.h>

namespace treesim {
using Key = std::tuple<uint64_t, uint8_t, uint64_t>;
struct Item {
	uint64_t objectid = 0; uint8_t type = 0; uint64_t offset = 0, transid = 1;
	std::vector<uint8_t> data;
	Key key() const { return Key(objectid, type, offset); }
};
using Tree = std::map<Key, Item>;
inline void add(Tree &t, Item i) { t[i.key()] = std::move(i); }

// Items in key order from the least key to the greatest (compound comparison), whose leaf
// generation is in range, as many as were asked for and fit.
inline int search(const Tree &t, btrfs_ioctl_search_args_v2 *a)
{
	btrfs_ioctl_search_key &k = a->key;
	const Key lo(k.min_objectid, uint8_t(k.min_type), k.min_offset), hi(k.max_objectid, uint8_t(k.max_type), k.max_offset);
	uint32_t n = 0; uint64_t used = 0;
	uint8_t *out = reinterpret_cast<uint8_t *>(a->buf);
	for (auto i = t.lower_bound(lo); i != t.end() && !(hi < i->first); ++i) {
		const Item &it = i->second;
		if (it.transid < k.min_transid || it.transid > k.max_transid) continue;
		if (n >= k.nr_items) break;
		const uint64_t need = sizeof(btrfs_ioctl_search_header) + it.data.size();
		if (used + need > a->buf_size) {
			if (!n) { a->buf_size = need; errno = EOVERFLOW; return -1; }
			break;
		}
		btrfs_ioctl_search_header h;
		h.transid = it.transid; h.objectid = it.objectid; h.offset = it.offset; h.type = it.type; h.len = uint32_t(it.data.size());
		memcpy(out + used, &h, sizeof h);
		if (!it.data.empty()) memcpy(out + used + sizeof h, it.data.data(), it.data.size());
		used += need; ++n;
	}
	k.nr_items = n;
	return 0;
}

inline Item extent_data(uint64_t ino, uint64_t off, uint8_t type, uint64_t bytenr, uint64_t disk_len, uint64_t eoff, uint64_t num, uint64_t ram, uint8_t compression, uint64_t gen, uint64_t transid)
{
	Item i; i.objectid = ino; i.type = BTRFS_EXTENT_DATA_KEY; i.offset = off; i.transid = transid;
	btrfs_file_extent_item e; memset(&e, 0, sizeof e);
	e.generation = gen; e.ram_bytes = ram; e.compression = compression; e.type = type;
	e.disk_bytenr = bytenr; e.disk_num_bytes = disk_len; e.offset = eoff; e.num_bytes = num;
	if (type == BTRFS_FILE_EXTENT_INLINE) {
		i.data.resize(21 + ram);
		memcpy(i.data.data(), &e, 21);
	} else {
		i.data.resize(sizeof e);
		memcpy(i.data.data(), &e, sizeof e);
	}
	return i;
}
inline void fs_info(btrfs_ioctl_fs_info_args *a, uint64_t generation = 0)
{
	// (the kernel fills in what is asked for; sectorsize always)
	const uint64_t flags = a->flags;
	memset(a, 0, sizeof *a);
	a->num_devices = 1; a->max_id = 1; a->nodesize = 16384; a->sectorsize = 4096; a->clone_alignment = 4096;
	for (int i = 0; i < 16; ++i) a->fsid[i] = uint8_t(0x10 + i);
	if (flags & BTRFS_FS_INFO_FLAG_CSUM_INFO) { a->csum_type = 0; a->csum_size = 4; a->flags |= BTRFS_FS_INFO_FLAG_CSUM_INFO; }
	if (flags & BTRFS_FS_INFO_FLAG_GENERATION) { a->generation = generation; a->flags |= BTRFS_FS_INFO_FLAG_GENERATION; }
}
}
#endif
