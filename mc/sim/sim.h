// An in-memory btrfs as seen through system calls, for running the daemon's real code.
//
// All state lives in an arena of shared memory, so that a run of the daemon in a child process
// (a "phase") leaves its effects visible to the harness and to later runs.
#ifndef SIM_H
#define SIM_H
#include "mc.h"
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sys/types.h>

namespace sim {

// ---- arena ----
void *arena_alloc(size_t n);
template <class T> struct AA {
	using value_type = T;
	AA() {}
	template <class U> AA(const AA<U> &) {}
	T *allocate(size_t n) { return static_cast<T *>(arena_alloc(n * sizeof(T))); }
	void deallocate(T *, size_t) {}
	template <class U> bool operator==(const AA<U> &) const { return true; }
	template <class U> bool operator!=(const AA<U> &) const { return false; }
};
template <class T> using Vec = std::vector<T, AA<T>>;
template <class K, class V> using Map = std::map<K, V, std::less<K>, AA<std::pair<const K, V>>>;
using Str = std::basic_string<char, std::char_traits<char>, AA<char>>;

const uint64_t BLK = 4096;
const uint64_t KB = 1024, MB = 1024 * 1024;
using u64 = uint64_t;
using Bid = uint32_t;       // identity of a block's content; 0 is all zero

// ---- block contents ----
Bid intern(const void *data, size_t len);        // zero padded to a block
Bid pattern(unsigned n, size_t len = BLK);       // n >= 1: distinct pseudo-random content
const uint8_t *content(Bid b);                   // BLK bytes

struct Ext { u64 bytenr = 0, disk_len = 0; uint8_t comp = 0; u64 gen = 0; u64 transid = 0; Vec<Bid> blocks; u64 ram() const { return blocks.size() * BLK; } };
enum FType : uint8_t { F_INLINE = 0, F_REG = 1, F_PREALLOC = 2 };
struct FExt { u64 num = 0; u64 ext = 0; u64 eoff = 0; u64 gen = 0, transid = 0; uint8_t type = F_REG; uint8_t comp = 0; Str inl; };
struct Inode {
	u64 ino = 0; uint32_t mode = 0; u64 size = 0; int iflags = 0; u64 inode_flags = 0; unsigned nlink = 1; u64 transid = 0; bool tmp = false;
	Map<u64, FExt> ext;         // by file offset
	Map<u64, Bid> dirty;        // delayed allocation, by block number
	Str target;                 // symlink
	unsigned opens = 0;
	unsigned user_writes = 0;   // content changes by the user
	u64 mtime = 0;
};
struct Dent { u64 ino = 0, subvol = 0; bool mount = false; };
struct Root {
	u64 id = 0, parent = 0, dirid = 256; Str name; bool ro = false, dead = false, sending = false; u64 transid = 0; u64 next_ino = 257;
	Map<u64, Inode> inodes;
	Map<std::pair<u64, Str>, Dent> dents;
};
struct Chunk { u64 len = 0; u64 type = 0; };
struct HomeFile { Str data; Str durable; bool synced = false; bool blocked = false; unsigned id = 0; Vec<std::pair<u64, u64>> pending; };
struct HomeOp { char kind; Str name, name2; unsigned id; u64 off, len; Str data; };

struct Dedupe { u64 sroot, sino, soff, droot, dino, doff, len; int status; bool dst_ro; };
struct Opened { u64 root, ino; uint32_t mode; int flags; bool foreign; };

struct FS {
	Map<u64, Root> roots;
	Map<u64, Ext> exts;
	Map<u64, Chunk> chunks;
	Map<u64, u64> metadata;     // bytenr -> length of tree blocks in the extent tree
	u64 cur = 100, committed = 99;
	bool changed = false;
	u64 last_commit_ns = 0;
	u64 next_bytenr = 0;
	u64 clock_ns = 0;           // carried between phases
	// options
	bool compress = false;      // data written to files with the compression flag is compressed
	bool eager_flush = false;   // dirty data is on disk at the next metadata query
	bool leaf_transid = false;  // all items of a subvolume share one leaf
	bool reuse = false;         // reuse freed addresses
	bool home_btrfs = true;     // file system type of the home directory
	bool home_same = false;     // home files live on this filesystem (same fsid)
	Str uname_release = "6.8.0-1-generic";
	bool openat2 = true;
	unsigned commit_s = 30;
	bool call_points = false;   // threads may be switched before the system calls made while files are worked on
	u64 last_open_ns = 0;
	// the daemon's home directory
	Map<Str, unsigned> home;            // name -> file id
	Map<unsigned, HomeFile> hfiles;
	unsigned next_hfile = 1;
	Vec<HomeOp> hlog;
	// records
	Vec<Dedupe> dedupes;
	Vec<Opened> opened;
	Vec<std::pair<u64, u64>> logical_inos;    // (address, time)
	u64 calls = 0;
	u64 bytes_deduped = 0;
	unsigned signals = 0;       // pending: bit per signal number
	int status = -1;            // exit status of the daemon
	bool exited = false;
	u64 slow_ns = 0;
};
extern FS *fs;

// Begin a scenario: a fresh filesystem with top subvolume 5 and a data chunk
void reset();

// ---- building and changing (each acts as a user) ----
Root &root(u64 id);
Root &add_subvol(u64 id, const char *name, u64 parent = 5, u64 dirid = 256, bool ro = false);
u64 add_file(u64 rootid, const char *name, u64 dir = 256, uint32_t mode = 0100644);
u64 add_dir(u64 rootid, const char *name, u64 dir = 256);
u64 add_symlink(u64 rootid, const char *name, const char *target, u64 dir = 256);
Inode &inode(u64 rootid, u64 ino);
// a stored extent, referenced by nothing yet
u64 new_extent(const std::vector<Bid> &blocks, uint8_t comp = 0, u64 disk_len = 0, u64 at = 0);
// make a file reference part of an extent (ext 0: an explicit hole); size grows to the end
void map_extent(u64 rootid, u64 ino, u64 off, u64 ext, u64 eoff, u64 num, uint8_t type = F_REG);
void map_inline(u64 rootid, u64 ino, const std::string &data, uint8_t comp = 0, u64 ram = 0);
void set_size(u64 rootid, u64 ino, u64 size);
void write_blocks(u64 rootid, u64 ino, u64 off, const std::vector<Bid> &blocks, uint8_t comp = 0);  // copy on write
void punch(u64 rootid, u64 ino, u64 off, u64 len);
void truncate(u64 rootid, u64 ino, u64 size);
void unlink(u64 rootid, u64 dir, const char *name);
void rename(u64 rootid, u64 dir, const char *name, u64 dir2, const char *name2);
void link(u64 rootid, u64 dir, const char *name, u64 ino);
void snapshot(u64 src, u64 id, const char *name, bool ro = false);
void delete_subvol(u64 id);
void move_subvol(u64 id, u64 parent, u64 dirid, const char *name);
// a copy of this filesystem (other device, other fsid), or one inode of it, is mounted over a name
void mount_over(u64 rootid, u64 dir, const char *name, u64 mroot, u64 mino);
void commit();
void collect();                 // drop unreferenced extents
void defer(const std::function<void()> &);

// ---- observing ----
std::string read_file(u64 rootid, u64 ino);            // whole content
u64 used_by_user();                                    // bytes of data extents referenced from user files
std::set<u64> extents_of_user();
std::map<u64, u64> stored_extents();                  // and the generation each was written in                       // their addresses
std::string layout();                                  // text of all files and extents
// every reference to an extent: root, ino, file offset
struct Ref { u64 root, ino, off, num, eoff; };
std::vector<Ref> refs(u64 ext);
std::vector<std::pair<u64, u64>> user_files();         // regular files with a name in live subvolumes
// fd accounting of the simulated descriptors now open
std::vector<std::string> open_fds();
struct FdInfo { bool open, foreign; u64 root, ino; int flags; };
FdInfo fd_info(int fd);
std::string home_read(const char *name);               // "" if absent
void home_write(const char *name, const std::string &data);
bool home_exists(const char *name);

// ---- system call hook ----
struct Call {
	const char *name;
	u64 index;                  // number of this call in the run
	int fd;
	u64 root, ino;              // of the file called on, 0 if none
	bool home;
	u64 off, len;
	int err;                    // set to fail the call with this errno, without effect
	int64_t partial;            // set to >= 0 to shorten a transfer (or a share request) to so many bytes
	int status;                 // SAME: set to fail the target with this status, without effect
};
extern std::function<void(Call &)> on_call;

// ---- running the daemon ----
// Run fn in a child process under the scheduler; effects on fs remain, a failure ends the execution.
// fn ends by returning or through phase_end().
void phase(const std::function<void()> &fn);
[[noreturn]] void phase_end();
struct Run {
	std::vector<std::string> args;      // in addition to the program name and the mount point
	std::map<std::string, std::string> env;
	// harness thread: runs beside the daemon; when it returns the daemon is asked to terminate
	std::function<void()> beside;
	// called in the daemon's last thread after it has asked to exit
	std::function<void()> after_exit;
	u64 max_stop_s = 600;               // virtual time allowed for termination
};
// Runs the whole daemon in a phase; returns when it has exited
void run_daemon(const Run &r);
void start_in_phase();               // mark the daemon as running for direct API use inside a phase
void raise_signal(int sig);
// environment for code run directly in a phase
extern std::map<std::string, std::string> *env;
extern bool running;                 // the interposed calls act on the simulation
void hash_file(unsigned extents = 1);   // create an empty hash table file

} // namespace sim
#endif
