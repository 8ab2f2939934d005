// C36: functions that keep state shared by every caller, entered by several threads for the first time.
#include "mc.h"
#include "crucible/chatter.h"
#include "crucible/crc64.h"
#include "crucible/error.h"
#include "crucible/task.h"
#include <sstream>
#include <thread>
#include <vector>
using namespace std;
using namespace crucible;

static uint64_t ref_crc(const vector<uint8_t> &v)
{
	uint64_t c = 0;
	for (auto b : v) {
		c ^= b;
		for (int i = 0; i < 8; ++i) c = c & 1 ? (c >> 1) ^ 0xd800000000000000ULL : c >> 1;
	}
	return c;
}

MC_SCENARIO(crc, THREADED)
{
	const int T = int(mc::param("threads", 3));
	mc::set_points_enabled(false);
	vector<vector<uint8_t>> in(static_cast<size_t>(T));
	for (int t = 0; t < T; ++t) for (unsigned i = 0, n = 9u + mc::choose(2) * 9; i < n; ++i) in[size_t(t)].push_back(uint8_t(i * 37 + unsigned(t) * 11 + 1));
	mc::set_points_enabled(true);
	vector<uint64_t> out(in.size());
	vector<thread> ts;
	for (int t = 0; t < T; ++t) ts.emplace_back([&, t]() { mc::point(); out[size_t(t)] = Digest::CRC::crc64(in[size_t(t)].data(), in[size_t(t)].size()); });
	for (auto &t : ts) t.join();
	for (int t = 0; t < T; ++t) {
		mc::compared();
		if (out[size_t(t)] != ref_crc(in[size_t(t)])) mc::fail("crc", "a thread computed a wrong checksum");
		mc::outcome(out[size_t(t)]);
	}
}

MC_SCENARIO(errors, THREADED)
{
	const int T = int(mc::param("threads", 3));
	vector<string> got(static_cast<size_t>(T));
	vector<int> rv(got.size());
	vector<unsigned> kind(got.size());
	mc::set_points_enabled(false);
	for (auto &k : kind) k = mc::choose(2);
	mc::set_points_enabled(true);
	vector<thread> ts;
	for (int t = 0; t < T; ++t) ts.emplace_back([&, t]() {
		const auto i = size_t(t);
		ostringstream log;
		rv[i] = catch_all([&]() {
			mc::point();
			if (kind[i] == 1) THROW_ERROR(runtime_error, "thread " << t);
			Chatter(4, "", log) << "line " << t;
		}, [&](string s) { got[i] = s; });
		if (!kind[i]) got[i] = log.str();
	});
	for (auto &t : ts) t.join();
	for (int t = 0; t < T; ++t) {
		const auto i = size_t(t);
		mc::compared();
		mc::check((rv[i] != 0) == (kind[i] != 0), "caught", "catch_all reports an error that did not happen, or none where one did");
		const string want = (kind[i] ? "thread " : "line ") + to_string(t);
		if (got[i].find(want) == string::npos) mc::fail("message", "'" + got[i] + "' does not carry '" + want + "'");
	}
}
