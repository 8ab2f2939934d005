// C33: complete-or-fail I/O helpers against every way the kernel may answer.
#include "mc.h"
#include "crucible/error.h"
#include "crucible/fd.h"
#include <cerrno>
#include <dlfcn.h>
#include <vector>
#include <sys/syscall.h>
using namespace std;
using namespace crucible;

static const int FD = 700;
static vector<uint8_t> g_file; static size_t g_pos; static int g_calls; static bool g_reported; static int g_eintr;
// how the kernel answers: all of it, part of it, interrupted, error
static ssize_t answer(size_t avail, size_t want, const char *what)
{
	if (++g_calls > 12) mc::fail("loops", string(what) + " is repeated without end");
	const size_t n = min(avail, want);
	vector<long> alt{long(n)};
	for (size_t k = 1; k < n; ++k) alt.push_back(long(k));
	alt.push_back(-EINTR); alt.push_back(-EIO); 
	if (n) alt.push_back(0);
	const unsigned c = mc::choose(unsigned(alt.size()), mc::ENV);
	const long r = alt[c];
	mc::log("%s of %zu gives %ld", what, want, r);
	mc::step();
	if (r < 0) { if (r == -EIO) g_reported = true; else ++g_eintr; errno = int(-r); return -1; }
	if (r == 0 && n) g_reported = true;      // end of file before the data
	return r;
}
extern "C" {
ssize_t read(int fd, void *b, size_t n)
{
	if (fd != FD) return syscall(SYS_read, fd, b, n);
	const ssize_t r = answer(g_file.size() - g_pos, n, "read");
	if (r > 0) { memcpy(b, &g_file[g_pos], size_t(r)); g_pos += size_t(r); }
	return r;
}
ssize_t pread64(int fd, void *b, size_t n, off_t o)
{
	if (fd != FD) return syscall(SYS_pread64, fd, b, n, o);
	const size_t a = size_t(o) < g_file.size() ? g_file.size() - size_t(o) : 0;
	const ssize_t r = answer(a, n, "pread");
	if (r > 0) memcpy(b, &g_file[size_t(o)], size_t(r));
	return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o)
{
	if (fd != FD) return syscall(SYS_pwrite64, fd, b, n, o);
	const ssize_t r = answer(n, n, "pwrite");
	if (r > 0) { if (g_file.size() < size_t(o) + size_t(r)) g_file.resize(size_t(o) + size_t(r)); memcpy(&g_file[size_t(o)], b, size_t(r)); }
	return r;
}
ssize_t write(int fd, const void *b, size_t n)
{
	if (fd != FD) return syscall(SYS_write, fd, b, n);
	const ssize_t r = answer(n, n, "write");
	if (r > 0) { if (g_file.size() < g_pos + size_t(r)) g_file.resize(g_pos + size_t(r)); memcpy(&g_file[g_pos], b, size_t(r)); g_pos += size_t(r); }
	return r;
}
}
MC_SCENARIO(helpers, INPROC)
{
	const size_t F = size_t(mc::choose(7)), N = 1 + mc::choose(unsigned(mc::param("size", 5)));
	const unsigned op = mc::choose(8);
	const size_t off = op == 1 || op == 3 || op == 6 || op == 7 ? mc::choose(3) : 0;
	g_file.clear(); for (size_t i = 0; i < F; ++i) g_file.push_back(uint8_t(10 + i));
	const auto before = g_file;
	g_pos = 0; g_calls = 0; g_reported = false; g_eintr = 0;
	vector<uint8_t> raw(N + 8, 0xee); uint8_t *buf = raw.data() + 4;
	vector<uint8_t> out; for (size_t i = 0; i < N; ++i) out.push_back(uint8_t(100 + i));
	bool ok = true; size_t got = 0; string s; ByteVector bv;
	try {
		switch (op) {
			case 0: read_or_die(FD, buf, N); break;
			case 1: pread_or_die(FD, buf, N, off_t(off)); break;
			case 2: write_or_die(FD, out.data(), N); break;
			case 3: pwrite_or_die(FD, out.data(), N, off_t(off)); break;
			case 4: s = read_string(FD, N); break;
			case 5: read_partial_or_die(FD, buf, N, got); break;
			case 6: bv = ByteVector(N); pread_or_die(FD, bv, off_t(off)); memcpy(buf, bv.data(), N); break;
			case 7: pwrite_or_die(FD, string(out.begin(), out.end()), off_t(off)); break;
		}
	} catch (const exception &e) { ok = false; mc::log("fails: %s", e.what()); }
	mc::log("op %u file %zu size %zu off %zu: %s", op, F, N, off, ok ? "success" : "error");
	mc::compared(); mc::outcome(ok + op * 2);
	for (size_t i = 0; i < 4; ++i) mc::check(raw[i] == 0xee && raw[N + 4 + i] == 0xee, "overrun", "wrote outside the buffer");
	auto at = [&](size_t i) { return before[i]; };
	switch (op) {
		case 0: case 1: case 6: {
			const bool whole = off + N <= F;
			if (ok) {
				mc::check(whole, "short-accepted", "success although the file holds fewer bytes");
				for (size_t i = 0; i < N; ++i) mc::check(buf[i] == at(off + i), "content", "byte " + to_string(i) + " is not what the file holds");
			} else if (whole && !g_reported && op == 0) mc::fail("spurious", "error although every byte was delivered");
			else if (whole && g_calls == 1 + g_eintr && !g_reported && g_eintr && false) {}
			break;
		}
		case 4: case 5: {
			const size_t n = op == 4 ? s.size() : got;
			if (op == 4) memcpy(buf, s.data(), min(n, N));
			if (ok) {
				mc::check(n <= N, "length");
				for (size_t i = 0; i < min(n, N); ++i) mc::check(buf[i] == at(i), "content", "byte " + to_string(i) + " is not what the file holds");
				mc::check(g_reported || n == min(N, F), "length", to_string(n) + " bytes of " + to_string(min(N, F)) + " returned");
			} else mc::check(g_reported, "spurious", "error although nothing failed");
			break;
		}
		default:
			if (ok) {
				mc::check(g_file.size() >= off + N, "short-accepted", "success although not everything was written");
				for (size_t i = 0; i < N; ++i) mc::check(g_file[off + i] == out[i], "content", "byte " + to_string(i) + " was not written");
				for (size_t i = 0; i < F; ++i) if (i < off || i >= off + N) mc::check(g_file[i] == before[i], "content", "another byte was overwritten");
			} else mc::check(g_reported || g_calls > 0, "spurious");
	}
	// nothing unusual happened: must succeed exactly if the data is there
	if (g_calls == 1 && !g_reported && !g_eintr && (op == 2 || op == 3 || op == 7)) mc::check(ok == (g_file.size() >= off + N && equal(out.begin(), out.end(), g_file.begin() + long(off))), "result");
}
// out of range requests
MC_SCENARIO(refused, INPROC)
{
	const unsigned op = mc::choose(4);
	const bool bad_fd = mc::flip();
	g_calls = 0; g_file.assign(4, 1); g_pos = 0;
	uint8_t b[4] = {}; bool threw = false; size_t got;
	const int fd = bad_fd ? -1 : FD; const size_t n = bad_fd ? 4 : ~size_t(0) / 2 + 2;
	try { switch (op) { case 0: read_or_die(fd, b, n); break; case 1: pread_or_die(fd, b, n, 0); break; case 2: write_or_die(fd, b, n); break; case 3: pwrite_or_die(fd, b, n, 0); break; } }
	catch (const exception &) { threw = true; }
	(void)got; mc::compared();
	mc::check(threw, "accepted", "a request that cannot be done is accepted");
	mc::check(!g_calls, "attempted");
}
