// Happens-before race detection for code compiled with -fsanitize=thread, in place of its runtime
// library: every explored execution is checked for two accesses to the same memory, one of them a
// write, that nothing orders.  Locks, thread creation and joining, and atomic operations order
// accesses; every atomic operation is taken to be sequentially consistent, and the harness waiting
// for something orders everything before it.  Only accesses made by the code under test count.
#include "internal.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

extern "C" void __libc_free(void *);
namespace mc {
namespace {
using VC = std::vector<uint32_t>;
struct Rec { uint32_t clk; uint16_t tid; uint8_t mask; bool write; void *st[7]; };
struct Cell { uint8_t n = 0; Rec r[6]; };
struct State {
	std::vector<VC> clk;
	std::unordered_map<const void *, VC> sync;
	std::unordered_map<uintptr_t, Cell> mem;
};
State *R;
thread_local bool busy;
thread_local void *stk[512];
thread_local unsigned depth;
thread_local uintptr_t lo, hi;
thread_local bool have_stack;

struct In { bool was; In() : was(busy) { busy = true; } ~In() { busy = was; } };
bool on() { return R && !busy && managed(); }

void join(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
VC &mine()
{
	const unsigned t = self();
	if (R->clk.size() <= t) R->clk.resize(t + 1);
	VC &v = R->clk[t];
	if (v.size() <= t) v.resize(t + 1);
	if (!v[t]) v[t] = 1;
	return v;
}
void acq(const void *p) { if (!on()) return; In in; auto i = R->sync.find(p); if (i != R->sync.end()) join(mine(), i->second); }
void rel(const void *p) { if (!on()) return; In in; VC &m = mine(); join(R->sync[p], m); ++m[self()]; }
void forked(unsigned child)
{
	if (!on()) return;
	In in;
	VC m = mine();
	++mine()[self()];
	if (R->clk.size() <= child) R->clk.resize(child + 1);
	R->clk[child] = m;
}
void joined(unsigned child) { if (!on()) return; In in; if (child < R->clk.size()) { VC c = R->clk[child]; join(mine(), c); } }
void all()
{
	if (!on()) return;
	In in;
	mine();
	VC m;
	for (auto &v : R->clk) join(m, v);
	// what the others do from here on is not ordered before this
	mine() = m;
	for (size_t i = 0; i < R->clk.size(); ++i) if (i < R->clk[i].size()) ++R->clk[i][i];
}

// ---- whose code
struct Sym { uintptr_t a, e; const char *n; };
std::vector<Sym> *syms;
uintptr_t load_base;
void load_syms()
{
	if (syms) return;
	syms = new std::vector<Sym>;
	dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) { load_base = i->dlpi_addr; return 1; }, nullptr);
	const int fd = int(syscall(SYS_open, "/proc/self/exe", O_RDONLY));	// not the simulated calls
	const off_t sz = off_t(syscall(SYS_lseek, fd, 0, SEEK_END));
	auto *b = reinterpret_cast<char *>(syscall(SYS_mmap, nullptr, size_t(sz), PROT_READ, MAP_PRIVATE, fd, 0));
	auto *eh = reinterpret_cast<Elf64_Ehdr *>(b);
	auto *sh = reinterpret_cast<Elf64_Shdr *>(b + eh->e_shoff);
	for (unsigned i = 0; i < eh->e_shnum; ++i) if (sh[i].sh_type == SHT_SYMTAB) {
		auto *s = reinterpret_cast<Elf64_Sym *>(b + sh[i].sh_offset);
		const char *str = b + sh[sh[i].sh_link].sh_offset;
		for (size_t k = 0; k < sh[i].sh_size / sizeof *s; ++k)
			if (ELF64_ST_TYPE(s[k].st_info) == STT_FUNC && s[k].st_size) syms->push_back({s[k].st_value, s[k].st_value + s[k].st_size, str + s[k].st_name});
	}
	std::sort(syms->begin(), syms->end(), [](const Sym &x, const Sym &y) { return x.a < y.a; });
}
const char *name_of(void *pc)
{
	const uintptr_t v = uintptr_t(pc) - load_base - 1;
	auto i = std::upper_bound(syms->begin(), syms->end(), v, [](uintptr_t x, const Sym &y) { return x < y.a; });
	if (i == syms->begin()) return "?";
	--i;
	return v < i->e ? i->n : "?";
}
bool has(const char *s, const char *p) { return !strncmp(s, p, strlen(p)); }
// 0: library code, look at the caller; 1: code under test; 2: the harness
int owner(const char *n)
{
	if (has(n, "_Z")) n += 2;
	for (;;) { if (*n == 'Z' || *n == 'N' || *n == 'K' || *n == 'L') ++n; else if (has(n, "TV") || has(n, "Th")) n += 2; else break; }
	if (has(n, "St") || has(n, "Ss") || has(n, "Sa") || has(n, "9__gnu_cxx") || has(n, "10__cxxabiv")) return 0;
	if (has(n, "nw") || has(n, "dl") || has(n, "na") || has(n, "da")) return 0;
	if (has(n, "8crucible")) return 1;
	while (*n >= '0' && *n <= '9') ++n;
	return has(n, "Bees") || has(n, "bees_") || has(n, "btrfs_") ? 1 : 2;
}
bool ours(const Rec &r)
{
	for (void *pc : r.st) {
		if (!pc) return false;
		const int o = owner(name_of(pc));
		if (o) return o == 1;
	}
	return false;
}
std::string show(const Rec &r)
{
	std::string s = std::string(r.write ? "  write" : "  read") + " by thread " + std::to_string(r.tid) + "\n";
	for (void *pc : r.st) {
		if (!pc) break;
		int st = 0;
		const char *n = name_of(pc);
		char *d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
		s += std::string("    ") + std::string(d ? d : n).substr(0, 150) + "\n";
		free(d);
	}
	return s;
}

void access(const void *p, size_t size, bool write, void *pc)
{
	if (!on() || !size) return;
	In in;
	const unsigned t = self();
	if (t && !have_stack) {
		have_stack = true;
		pthread_attr_t a; void *b; size_t z;
		if (!pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &b, &z); lo = uintptr_t(b); hi = lo + z; pthread_attr_destroy(&a); }
	}
	uintptr_t q = uintptr_t(p);
	if (t && q >= lo && q < hi) return;	// a thread's own stack
	const VC &me = mine();
	while (size) {
		const unsigned off = q & 7, len = unsigned(std::min<size_t>(8 - off, size));
		const uint8_t mask = uint8_t(((1u << len) - 1) << off);
		Cell &c = R->mem[q >> 3];
		Rec nr{me[t], uint16_t(t), mask, write, {}};
		nr.st[0] = pc;
		for (unsigned k = 1; k < 7 && k <= depth && depth <= 512; ++k) nr.st[k] = stk[depth - k];
		for (unsigned i = 0; i < c.n; ++i) {
			const Rec &o = c.r[i];
			if (o.tid == t || !(o.mask & mask) || !(o.write || write)) continue;
			if (o.tid < me.size() && o.clk <= me[o.tid]) continue;
			load_syms();
			if (!ours(o) || !ours(nr)) continue;
			fail("data-race", "two threads access the same memory and nothing orders them\n" + show(nr) + show(o));
		}
		unsigned k = 0;
		for (unsigned i = 0; i < c.n; ++i) {
			const Rec &o = c.r[i];
			const bool covered = !(o.mask & ~mask) && (write || !o.write) && (o.tid == t || (o.tid < me.size() && o.clk <= me[o.tid]));
			if (!covered) c.r[k++] = o;
		}
		if (k == 6) { memmove(c.r, c.r + 1, 5 * sizeof(Rec)); k = 5; }
		c.r[k++] = nr; c.n = uint8_t(k);
		q += len; size -= len;
	}
}
void forget(void *p)
{
	if (!p || !on()) return;
	In in;
	const size_t n = malloc_usable_size(p);
	const uintptr_t a = uintptr_t(p);
	if (n / 8 > R->mem.size()) {
		for (auto i = R->mem.begin(); i != R->mem.end();) if (i->first >= a >> 3 && i->first < (a + n + 7) >> 3) i = R->mem.erase(i); else ++i;
	} else for (uintptr_t k = a >> 3; k < (a + n + 7) >> 3; ++k) R->mem.erase(k);
	if (!R->sync.empty() && n <= 4096) for (uintptr_t k = a; k < a + n; k += 4) R->sync.erase(reinterpret_cast<const void *>(k));
}
void start() { busy = true; R = new State; depth = 0; busy = false; }
RaceHooks hooks{start, acq, rel, forked, joined, all};
struct Install { Install() { race = &hooks; } } install;
}
}
using namespace mc;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (depth < 512) stk[depth] = pc; ++depth; }
void __tsan_func_exit() { if (depth) --depth; }
#define ACC(n) \
	void __tsan_read##n(void *p) { access(p, n, false, PC); } \
	void __tsan_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_read##n##_pc(void *p, void *pc) { access(p, n, false, pc); } \
	void __tsan_write##n##_pc(void *p, void *pc) { access(p, n, true, pc); } \
	void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
	void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); } \
	void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, sizeof *p, true, PC); }
void __tsan_vptr_read(void **p) { access(p, sizeof *p, false, PC); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
#define ATOMS(bits, T) extern "C" { \
	T __tsan_atomic##bits##_load(const volatile T *a, int) { acq((const void *)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int) { rel((const void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	RMW(bits, T, exchange, __atomic_exchange_n) RMW(bits, T, fetch_add, __atomic_fetch_add) RMW(bits, T, fetch_sub, __atomic_fetch_sub) \
	RMW(bits, T, fetch_and, __atomic_fetch_and) RMW(bits, T, fetch_or, __atomic_fetch_or) RMW(bits, T, fetch_xor, __atomic_fetch_xor) RMW(bits, T, fetch_nand, __atomic_fetch_nand) \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acq((const void *)a); rel((const void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acq((const void *)a); rel((const void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acq((const void *)a); rel((const void *)a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } }
#define RMW(bits, T, name, op) T __tsan_atomic##bits##_##name(volatile T *a, T v, int) { acq((const void *)a); rel((const void *)a); return op(a, v, __ATOMIC_SEQ_CST); }
ATOMS(8, uint8_t) ATOMS(16, uint16_t) ATOMS(32, uint32_t) ATOMS(64, uint64_t)
extern "C" void free(void *p) { forget(p); __libc_free(p); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
