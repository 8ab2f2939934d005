// C37: one dedupe request against every way the kernel may split, refuse or fail it.
#include "mc.h"
#include "crucible/error.h"
#include "crucible/fs.h"
#include <cerrno>
#include <cstdarg>
#include <linux/btrfs.h>
#include <vector>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace std;
using namespace crucible;

static const int SRC = 700, DST = 701; static uint64_t BLK = 4096;
static uint64_t g_src, g_dst, g_len; static vector<bool> g_merged; static bool g_differs, g_error; static int g_calls;
extern "C" int ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (fd != SRC && fd != DST) return int(syscall(SYS_ioctl, fd, req, arg));
	if (req != BTRFS_IOC_FILE_EXTENT_SAME) { errno = ENOTTY; return -1; }
	if (++g_calls > 30) mc::fail("loops", "the request is repeated without end");
	mc::step(); mc::compared();
	auto a = static_cast<btrfs_ioctl_same_args *>(arg); auto &i = a->info[0];
	mc::log("dedupe fd %d at %llu len %llu -> fd %lld at %llu", fd, (unsigned long long)a->logical_offset, (unsigned long long)a->length, (long long)i.fd, (unsigned long long)i.logical_offset);
	if (g_differs || g_error) mc::fail("goes-on", "another request is made after the kernel refused one");
	if (fd != SRC || a->dest_count != 1 || i.fd != DST) mc::fail("files", "the request names other files");
	if (a->logical_offset < g_src || a->logical_offset + a->length > g_src + g_len || a->length == 0) mc::fail("source-range", "the source range is not within the range asked");
	if (i.logical_offset - g_dst != a->logical_offset - g_src) mc::fail("destination-range", "the destination does not correspond to the source");
	const uint64_t blocks = (a->length + BLK - 1) / BLK;
	// all, fewer blocks, nothing at all, data differs, refused, interrupted, failed, unknown answer
	const unsigned c = mc::choose(unsigned(blocks + 6), mc::ENV);
	uint64_t done = a->length;
	if (c >= 1 && c < blocks) done = c * BLK;
	else if (c >= blocks && c > 0) switch (c - blocks) {
		case 0: i.status = BTRFS_SAME_DATA_DIFFERS; i.bytes_deduped = 0; g_differs = true; mc::log("  differs"); return 0;
		case 1: i.status = -EINVAL; g_error = true; mc::log("  status EINVAL"); return 0;
		case 2: i.status = -ETXTBSY; g_error = true; mc::log("  status ETXTBSY"); return 0;
		case 3: g_error = true; errno = EINTR; mc::log("  EINTR"); return -1;
		case 4: g_error = true; i.status = 0; i.bytes_deduped = 0; mc::log("  nothing done"); return 0;
		default: g_error = true; i.status = 77; i.bytes_deduped = a->length; mc::log("  unknown status"); return 0;
	}
	for (uint64_t o = (a->logical_offset - g_src + BLK - 1) / BLK * BLK; o < a->logical_offset - g_src + done; o += BLK) { if (g_merged[o / BLK]) mc::fail("again", "a block already merged is requested again"); g_merged[o / BLK] = true; }
	i.status = 0; i.bytes_deduped = done;
	mc::log("  %llu bytes", (unsigned long long)done);
	return 0;
}
static void request()
{
	// the kernel does a block, or many of them, at a time
	static const uint64_t units[] = {4096, 131072, 1 << 20, 16 << 20};
	BLK = units[mc::choose(4)];
	const uint64_t at[] = {0, BLK, 1ull << 40, (1ull << 62)};
	g_src = at[mc::choose(4)]; g_dst = at[mc::choose(4)] + BLK * 16 * mc::choose(2);
	const uint64_t n = 1 + mc::choose(unsigned(mc::param("blocks", 5)));
	g_len = n * BLK - (mc::flip() ? 1000 : 0);           // the last block of a file may be partial
	g_merged.assign(n, false); g_differs = g_error = false; g_calls = 0;
	bool ok = false, threw = false; string why;
	try { ok = btrfs_extent_same(SRC, off_t(g_src), off_t(g_len), DST, off_t(g_dst)); }
	catch (const exception &e) { threw = true; why = e.what(); }
	mc::compared(); mc::outcome(threw * 2 + ok);
	bool all = true; for (bool b : g_merged) all = all && b;
	if (ok && !all) mc::fail("incomplete", "the request is reported as done but not every block was merged");
	if (ok && (g_differs || g_error)) mc::fail("refused", "the request is reported as done although the kernel refused it");
	if (!ok && !threw && !g_differs) mc::fail("result", "reported as different data although the kernel did not say so");
	if (threw && !g_error) mc::fail("spurious", "an error is reported although nothing failed: " + why.substr(0, 200));
	if (g_error && !threw) mc::fail("error-lost", "a failed request is not reported as an error");
}
MC_SCENARIO(one, INPROC) { request(); }
// nothing is requested for a range that is not one
MC_SCENARIO(refused, INPROC)
{
	const off_t len = mc::flip() ? 0 : -4096; bool threw = false; g_calls = 0; g_len = 0; g_src = g_dst = 0; g_differs = g_error = false; g_merged.clear();
	try { btrfs_extent_same(SRC, 0, len, DST, 4096); } catch (const exception &) { threw = true; }
	mc::compared();
	if (!threw) mc::fail("accepted", "a range without length is accepted");
}
