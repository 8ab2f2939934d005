// The explorer: enumerates choice sequences within bounds, in parallel, replays and reports.
#include "internal.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <string>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

bool g_in_execution = false;

void real_nap() { timespec ts{0, 50000000}; syscall(SYS_nanosleep, &ts, nullptr); }
int fork_retry()
{
	for (int n = 0;; ++n) {
		const pid_t p = fork();
		if (p >= 0 || errno != EAGAIN || n > 600) return p;
		real_nap();	// the machine may be short of processes for a moment
	}
}
void hard_exit(int st) { for (;;) syscall(SYS_exit_group, st); }

namespace {

enum Status { ST_NONE = 0, ST_OK, ST_FAIL, ST_ERROR, ST_DIVERGED };

const unsigned MAXT = 400000;
const unsigned LOGSZ = 1 << 18;
struct Slot {
	volatile uint64_t seq;       // executions begun
	int status;
	uint32_t nt;
	uint64_t steps, outcome, compared, thash, pruned;
	char sig[160];
	char msg[16384];
	uint32_t loglen;
	char log[LOGSZ];
	uint8_t n[MAXT], c[MAXT], k[MAXT];
};

struct Dev { uint32_t idx; uint32_t val; };
struct Prefix { std::vector<Dev> devs; uint64_t hash = 0; uint8_t p = 0, e = 0; };

// global exploration state in shared memory
const unsigned QSLOTS = 4096, QDEV = 400;
struct QEntry { uint32_t nd; uint8_t p, e; uint64_t hash; Dev d[QDEV]; };
const uint64_t SEENSZ = 1ull << 26;
struct Shared {
	std::atomic<int> lock;
	std::atomic<int64_t> pending;     // prefixes queued anywhere plus executions running
	std::atomic<int> qn;
	std::atomic<int> hungry;
	std::atomic<int> stop;
	std::atomic<uint64_t> execs, nodes, steps, compared, pruned, maxdepth, outcomes, capped;
	std::atomic<uint64_t> by_cost[16];
	std::atomic<uint64_t> seen_states;
	std::atomic<uint64_t> known_hits;
	int have_viol;
	unsigned viol_cost;
	int have_error;
	QEntry q[QSLOTS];
	QEntry viol;
	char viol_sig[160];
	char viol_msg[16384];
	char err_msg[4096];
	std::atomic<uint64_t> outc[1 << 16];
};
Shared *G;
std::atomic<uint64_t> *Seen;
Slot *S;                     // slot of this worker
struct Opt {
	unsigned preempt = 0, env = 0, total = 99, workers = 0;
	double time = 60, exec_timeout = 30;
	std::map<std::string, int64_t> params;
	std::vector<std::string> known;
	bool verbose = false;
	uint64_t seed = 1;
} O;

std::vector<Scenario*> &scenarios() { static std::vector<Scenario*> v; return v; }
Scenario *Cur;

double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
double t_start;

void lk() { while (G->lock.exchange(1)) { timespec ts{0, 20000}; syscall(SYS_nanosleep, &ts, nullptr); } }
void ul() { G->lock.store(0); }

// current execution
const Prefix *Pfx;
size_t pdev;
bool no_seen = false;

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

bool is_known(const char *sig)
{
	for (auto &k : O.known) if (k == sig) return true;
	return false;
}

struct InprocEnd {};

[[noreturn]] void end_exec(int st)
{
	S->status = st;
	__sync_synchronize();
	hard_exit(st == ST_OK ? 0 : 77);
}

} // namespace

Scenario::Scenario(const char *n, Mode m, void (*f)()) : name(n), mode(m), fn(f) { scenarios().push_back(this); }

unsigned choose(unsigned n, Kind k)
{
	if (!g_in_execution) return 0;
	if (n == 0) error("choose(0)");
	if (n == 1) return 0;
	if (n > 255) error("choose(>255)");
	const uint32_t i = S->nt;
	if (i >= MAXT) error("choice trace too long");
	unsigned v = 0;
	S->thash = mix(S->thash, n * 4 + k);
	if (pdev < Pfx->devs.size() && Pfx->devs[pdev].idx == i) {
		v = Pfx->devs[pdev].val;
		++pdev;
		if (v >= n) { snprintf(S->msg, sizeof S->msg, "choice %u: alternative %u of %u", i, v, n); end_exec(ST_DIVERGED); }
		if (pdev == Pfx->devs.size() && Pfx->hash && Pfx->hash != S->thash) {
			snprintf(S->msg, sizeof S->msg, "choice %u: prefix did not replay identically", i);
			end_exec(ST_DIVERGED);
		}
	}
	S->n[i] = uint8_t(n); S->c[i] = uint8_t(v); S->k[i] = k;
	S->nt = i + 1;
	return v;
}

void fail(const std::string &sig, const std::string &msg)
{
	snprintf(S->sig, sizeof S->sig, "%s", sig.c_str());
	snprintf(S->msg, sizeof S->msg, "%s", msg.c_str());
	if (O.verbose) fprintf(stdout, "FAIL %s: %s\n", sig.c_str(), msg.c_str());
	fflush(stdout);
	if (!g_in_execution) { fprintf(stderr, "fail() outside execution: %s %s\n", sig.c_str(), msg.c_str()); abort(); }
	end_exec(ST_FAIL);
}

void error(const std::string &msg)
{
	snprintf(S->msg, sizeof S->msg, "%s", msg.c_str());
	fprintf(stdout, "HARNESS ERROR: %s\n", msg.c_str());
	fflush(stdout);
	if (!g_in_execution) abort();
	end_exec(ST_ERROR);
}

void log(const char *fmt, ...)
{
	if (!S) return;
	char buf[1024];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	size_t l = strlen(buf);
	if (O.verbose) { printf("%s\n", buf); fflush(stdout); }
	if (S->loglen + l + 2 < LOGSZ) {
		memcpy(S->log + S->loglen, buf, l);
		S->loglen += l;
		S->log[S->loglen++] = '\n';
		S->log[S->loglen] = 0;
	}
}

void outcome(uint64_t v) { S->outcome = mix(S->outcome, v); }
void outcome(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } outcome(h); }
void step(uint64_t n) { S->steps += n; }
void compared(uint64_t n) { S->compared += n; }
bool verbose() { return O.verbose; }
uint64_t seed() { return O.seed; }
int64_t param(const char *name, int64_t def) { auto i = O.params.find(name); return i == O.params.end() ? def : i->second; }

bool seen(uint64_t h)
{
	if (!g_in_execution || no_seen) return false;
	if (pdev < Pfx->devs.size()) return false;       // still replaying
	if (!Pfx->devs.empty() && S->nt <= Pfx->devs.back().idx) return false;
	unsigned p = 0, e = 0;
	for (uint32_t i = 0; i < S->nt; ++i) if (S->c[i]) { if (S->k[i] == PREEMPT) ++p; else if (S->k[i] == ENV) ++e; }
	h = mix(mix(h, p), e);
	if (!h) h = 1;
	uint64_t i = h & (SEENSZ - 1);
	for (unsigned probe = 0; probe < 64; ++probe, i = (i + 1) & (SEENSZ - 1)) {
		uint64_t cur = Seen[i].load(std::memory_order_relaxed);
		if (cur == h) { S->pruned = 1; return true; }
		if (cur == 0) {
			uint64_t z = 0;
			if (Seen[i].compare_exchange_strong(z, h)) { ++G->seen_states; return false; }
			if (z == h) { S->pruned = 1; return true; }
		}
	}
	return false;
}

void finish() { end_exec(ST_OK); }

size_t get_cursor() { return pdev; }
void set_cursor(size_t c) { pdev = c; }
bool exec_ended() { return S->status != ST_NONE; }
void propagate_child(int wst)
{
	if (WIFSIGNALED(wst)) {
		snprintf(S->sig, sizeof S->sig, "crash-signal-%d", WTERMSIG(wst));
		snprintf(S->msg, sizeof S->msg, "process ended by signal %d (%s)", WTERMSIG(wst), strsignal(WTERMSIG(wst)));
		end_exec(ST_FAIL);
	}
	if (S->status == ST_NONE) {
		snprintf(S->sig, sizeof S->sig, "unexpected-exit");
		snprintf(S->msg, sizeof S->msg, "process exited with status %d on its own", WEXITSTATUS(wst));
		end_exec(ST_FAIL);
	}
	hard_exit(WEXITSTATUS(wst));
}

namespace {

void reset_slot()
{
	S->status = ST_NONE; S->nt = 0; S->steps = 0; S->outcome = 14695981039346656037ull; S->compared = 0;
	S->thash = 88172645463325252ull; S->pruned = 0; ++S->seq;
	S->sig[0] = 0; S->msg[0] = 0; S->loglen = 0; S->log[0] = 0;
}

// runs in a process of its own
[[noreturn]] void child_main()
{
	g_in_execution = true;
	if (Cur->mode == Scenario::THREADED) {
		sched_start();
		Cur->fn();
		sched_stop();
	} else {
		Cur->fn();
	}
	end_exec(ST_OK);
}

int devnull = -1;

// returns status; on crash synthesises ST_FAIL
int run_fork(const Prefix &pfx, double timeout)
{
	reset_slot();
	Pfx = &pfx; pdev = 0;
	pid_t pid = fork_retry();
	if (pid < 0) { perror("fork"); return ST_ERROR; }
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (!O.verbose) { dup2(devnull, 2); }
		rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
		child_main();
	}
	int wst = 0;
	double t0 = wall();
	// wait with timeout
	for (;;) {
		pid_t r = waitpid(pid, &wst, 0);
		(void)t0;
		if (r == pid) break;
		if (r < 0 && errno == EINTR) {
			if (wall() - t0 > timeout) { kill(pid, SIGKILL); waitpid(pid, &wst, 0); snprintf(S->msg, sizeof S->msg, "execution did not end within %.0f s", timeout); snprintf(S->sig, sizeof S->sig, "hang"); return S->status = ST_FAIL; }
			continue;
		}
		if (r < 0) break;
	}
	if (WIFSIGNALED(wst)) {
		snprintf(S->sig, sizeof S->sig, "crash-signal-%d", WTERMSIG(wst));
		snprintf(S->msg, sizeof S->msg, "process ended by signal %d (%s)", WTERMSIG(wst), strsignal(WTERMSIG(wst)));
		return S->status = ST_FAIL;
	}
	if (S->status == ST_NONE) {
		snprintf(S->sig, sizeof S->sig, "unexpected-exit");
		snprintf(S->msg, sizeof S->msg, "process exited with status %d on its own", WEXITSTATUS(wst));
		return S->status = ST_FAIL;
	}
	return S->status;
}

int run_inproc(const Prefix &pfx)
{
	reset_slot();
	Pfx = &pfx; pdev = 0;
	g_in_execution = true;
	Cur->fn();
	g_in_execution = false;
	return S->status = ST_OK;
}

void on_alarm(int) {}

std::vector<std::vector<Prefix>> local;   // by cost
size_t local_n = 0;

void put_shared(const Prefix &p, QEntry &q)
{
	q.nd = uint32_t(p.devs.size()); q.p = p.p; q.e = p.e; q.hash = p.hash;
	memcpy(q.d, p.devs.data(), p.devs.size() * sizeof(Dev));
}
Prefix get_shared(const QEntry &q)
{
	Prefix p; p.devs.assign(q.d, q.d + q.nd); p.p = q.p; p.e = q.e; p.hash = q.hash; return p;
}

void donate()
{
	if (local_n < 2 || G->hungry.load() == 0 || G->qn.load() > 64) return;
	lk();
	for (unsigned c = 0; c < local.size() && local_n > 1 && G->qn < 64; ++c) {
		auto &v = local[c];
		// the oldest entries have the largest subtrees
		size_t take = std::min<size_t>(v.size(), std::max<size_t>(1, v.size() / 2));
		take = std::min<size_t>(take, 16);
		size_t done = 0;
		while (done < take && local_n > 1 && G->qn < 64) {
			if (v[done].devs.size() > QDEV) break;
			put_shared(v[done], G->q[G->qn]); ++G->qn; ++done; --local_n;
		}
		v.erase(v.begin(), v.begin() + long(done));
	}
	ul();
}

void expand(const Prefix &pfx)
{
	const uint32_t first = pfx.devs.empty() ? 0 : pfx.devs.back().idx + 1;
	// rolling hash up to each index
	uint64_t h = 88172645463325252ull;
	int64_t added = 0;
	for (uint32_t i = 0; i < S->nt; ++i) {
		h = mix(h, S->n[i] * 4u + S->k[i]);
		if (i < first) continue;
		const unsigned cost = pfx.p + pfx.e;
		unsigned p = pfx.p, e = pfx.e;
		if (S->k[i] == PREEMPT) ++p;
		if (S->k[i] == ENV) ++e;
		if (p > O.preempt || e > O.env || p + e > O.total) continue;
		(void)cost;
		for (unsigned alt = 1; alt < S->n[i]; ++alt) {
			Prefix np;
			np.devs.reserve(pfx.devs.size() + 1);
			np.devs = pfx.devs;
			np.devs.push_back(Dev{i, alt});
			np.p = uint8_t(p); np.e = uint8_t(e); np.hash = h;
			if (local.size() <= p + e) local.resize(p + e + 1);
			local[p + e].push_back(std::move(np));
			++added;
		}
	}
	local_n += size_t(added);
	G->pending += added;
	const uint64_t fresh = S->nt >= first ? S->nt - first + 1 : 1;
	G->nodes += fresh;
}

void worker(unsigned)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	const pid_t parent = getppid();
	if (Cur->mode == Scenario::INPROC && !O.verbose) dup2(devnull, 2);
	for (;;) {
		if (G->stop.load() || getppid() != parent) hard_exit(0);
		if (wall() - t_start > O.time) { G->capped = 1; G->stop = 1; hard_exit(0); }
		Prefix p;
		if (local_n) {
			for (auto &v : local) if (!v.empty()) { p = std::move(v.back()); v.pop_back(); break; }
			--local_n;
		} else {
			++G->hungry;
			bool got = false;
			for (;;) {
				if (G->stop.load()) hard_exit(0);
				if (G->pending.load() == 0) hard_exit(0);
				lk();
				if (G->qn > 0) {
					// cheapest first
					int best = 0;
					for (int i = 1; i < G->qn; ++i) if (G->q[i].p + G->q[i].e < G->q[best].p + G->q[best].e) best = i;
					p = get_shared(G->q[best]);
					--G->qn;
					if (best != G->qn) G->q[best] = G->q[G->qn];
					got = true;
				}
				ul();
				if (got) break;
				if (wall() - t_start > O.time) { G->capped = 1; G->stop = 1; hard_exit(0); }
				timespec ts{0, 200000}; syscall(SYS_nanosleep, &ts, nullptr);
			}
			--G->hungry;
		}
		int st;
		if (Cur->mode == Scenario::INPROC) st = run_inproc(p);
		else {
			itimerval it{{0, 500000}, {0, 500000}};
			setitimer(ITIMER_REAL, &it, nullptr);
			st = run_fork(p, O.exec_timeout);
			itimerval z{{0, 0}, {0, 0}};
			setitimer(ITIMER_REAL, &z, nullptr);
		}
		++G->execs;
		++G->by_cost[std::min(15, p.p + p.e)];
		G->steps += S->steps; G->compared += S->compared; G->pruned += S->pruned;
		uint64_t d = S->nt, md = G->maxdepth.load();
		while (d > md && !G->maxdepth.compare_exchange_weak(md, d)) {}
		if (st == ST_OK) {
			// distinct outcomes (bounded table)
			uint64_t o = S->outcome ? S->outcome : 1;
			for (unsigned i = unsigned(o & 0xffff), probe = 0; probe < 32; ++probe, i = (i + 1) & 0xffff) {
				uint64_t cur = G->outc[i].load();
				if (cur == o) break;
				if (cur == 0) { uint64_t z = 0; if (G->outc[i].compare_exchange_strong(z, o)) { ++G->outcomes; break; } if (z == o) break; }
			}
		}
		if (st == ST_FAIL && is_known(S->sig)) { ++G->known_hits; st = ST_OK; }
		if (st == ST_FAIL) {
			lk();
			unsigned cost = p.p + p.e;
			if (!G->have_viol || cost < G->viol_cost) {
				G->have_viol = 1; G->viol_cost = cost;
				if (p.devs.size() > QDEV) p.devs.resize(QDEV);
				put_shared(p, G->viol);
				memcpy(G->viol_sig, S->sig, sizeof S->sig); memcpy(G->viol_msg, S->msg, sizeof S->msg);
			}
			ul();
			G->stop = 1;
			hard_exit(0);
		}
		if (st == ST_ERROR || st == ST_DIVERGED) {
			lk();
			G->have_error = 1;
			snprintf(G->err_msg, sizeof G->err_msg, "%s%.4000s", st == ST_DIVERGED ? "replay divergence: " : "", S->msg);
			ul();
			G->stop = 1;
			hard_exit(0);
		}
		expand(p);
		--G->pending;
		donate();
	}
}

std::string jesc(const char *s)
{
	std::string r;
	for (; *s; ++s) {
		unsigned char c = static_cast<unsigned char>(*s);
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r;
}

void save_replay(const std::string &path, const Prefix &p)
{
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); return; }
	fprintf(f, "scenario %s\n", Cur->name);
	for (auto &kv : O.params) fprintf(f, "param %s %lld\n", kv.first.c_str(), static_cast<long long>(kv.second));
	fprintf(f, "seed %llu\n", static_cast<unsigned long long>(O.seed));
	for (auto &d : p.devs) fprintf(f, "dev %u %u\n", d.idx, d.val);
	fprintf(f, "sig %s\n", S->sig);
	fprintf(f, "---\n%s\n--- event log\n%s", S->msg, S->log);
	fclose(f);
}

void *shm(size_t n)
{
	void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return p;
}

} // namespace

} // namespace mc

using namespace mc;

// harnesses may define this to run once in the parent before any execution is forked
extern "C" void mc_setup() __attribute__((weak));

static int usage(const char *a)
{
	fprintf(stderr, "usage: %s --scenario S [--preempt P] [--env E] [--total T] [--time SEC] [--workers N] [--param k=v] [--known sig] [--json F] [--replay-out F] | --replay F | --list\n", a);
	return 2;
}

int main(int argc, char **argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
		if (personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("MC_NO_REEXEC")) {
			setenv("MC_NO_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	mallopt(M_ARENA_MAX, 1);
	std::string scn, json, rout, replay;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&]() -> const char * { if (i + 1 >= argc) { usage(argv[0]); exit(2); } return argv[++i]; };
		if (a == "--scenario") scn = nx();
		else if (a == "--preempt") O.preempt = unsigned(atoi(nx()));
		else if (a == "--env") O.env = unsigned(atoi(nx()));
		else if (a == "--total") O.total = unsigned(atoi(nx()));
		else if (a == "--time") O.time = atof(nx());
		else if (a == "--exec-timeout") O.exec_timeout = atof(nx());
		else if (a == "--workers") O.workers = unsigned(atoi(nx()));
		else if (a == "--known") O.known.push_back(nx());
		else if (a == "--json") json = nx();
		else if (a == "--replay-out") rout = nx();
		else if (a == "--replay") replay = nx();
		else if (a == "--seed") O.seed = strtoull(nx(), nullptr, 10);
		else if (a == "-v") O.verbose = true;
		else if (a == "--param") { std::string kv = nx(); auto e = kv.find('='); O.params[kv.substr(0, e)] = atoll(kv.c_str() + e + 1); }
		else if (a == "--list") { for (auto s : scenarios()) printf("%s\n", s->name); return 0; }
		else return usage(argv[0]);
	}
	Prefix rp;
	if (!replay.empty()) {
		FILE *f = fopen(replay.c_str(), "r");
		if (!f) { perror(replay.c_str()); return 2; }
		char line[4096], k[64]; long long v;
		while (fgets(line, sizeof line, f)) {
			char nm[256]; unsigned a, b;
			if (!strncmp(line, "---", 3)) break;
			if (sscanf(line, "scenario %255s", nm) == 1) scn = nm;
			else if (sscanf(line, "param %63s %lld", k, &v) == 2) O.params[k] = v;
			else if (sscanf(line, "seed %lld", &v) == 1) O.seed = uint64_t(v);
			else if (sscanf(line, "dev %u %u", &a, &b) == 2) rp.devs.push_back(Dev{a, b});
		}
		fclose(f);
	}
	for (auto s : scenarios()) if (scn == s->name) Cur = s;
	if (!Cur) { fprintf(stderr, "no scenario '%s'\n", scn.c_str()); return 2; }
	devnull = open("/dev/null", O_WRONLY);
	if (!O.workers) O.workers = unsigned(sysconf(_SC_NPROCESSORS_ONLN));
	G = static_cast<Shared *>(shm(sizeof(Shared)));
	Seen = static_cast<std::atomic<uint64_t> *>(shm(SEENSZ * 8));
	Slot *slots = static_cast<Slot *>(shm(sizeof(Slot) * (O.workers + 1)));
	S = &slots[O.workers];
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
	if (mc_setup) mc_setup();
	if (!replay.empty()) {
		O.verbose = true;
		no_seen = true;
		int st = run_fork(rp, 600);
		printf("replay: status %s sig=%s\n%s\n", st == ST_OK ? "OK" : st == ST_FAIL ? "FAIL" : st == ST_ERROR ? "ERROR" : "DIVERGED", S->sig, S->msg);
		return st == ST_OK ? 0 : st == ST_FAIL ? 1 : 2;
	}
	t_start = wall();
	local.resize(1);
	// seed the shared queue with the empty prefix
	G->pending = 1; G->qn = 1; put_shared(Prefix(), G->q[0]);
	std::vector<pid_t> pids;
	fflush(stdout);
	std::map<pid_t, unsigned> wslot;
	for (unsigned w = 0; w < O.workers; ++w) {
		pid_t pid = fork_retry();
		if (pid < 0) { perror("fork"); return ST_ERROR; }
		if (pid == 0) { S = &slots[w]; worker(w); hard_exit(0); }
		pids.push_back(pid); wslot[pid] = w;
	}
	int rc = 0;
	// in-process executions are short: one that does not end is ended here
	std::vector<std::pair<uint64_t, double>> beat(O.workers, {0, wall()});
	itimerval tick{{0, 500000}, {0, 500000}};
	setitimer(ITIMER_REAL, &tick, nullptr);
	for (size_t left = pids.size(); left;) {
		int st; pid_t p = waitpid(-1, &st, 0);
		if (p < 0 && errno == EINTR) {
			if (Cur->mode == Scenario::INPROC) for (auto &ws : wslot) {
				auto &b = beat[ws.second];
				if (slots[ws.second].seq != b.first || slots[ws.second].status != ST_NONE) { b.first = slots[ws.second].seq; b.second = wall(); }
				else if (wall() - b.second > std::min(O.exec_timeout, 15.0)) { kill(ws.first, SIGKILL); b.second = wall(); }
			}
			continue;
		}
		if (p < 0) break;
		if (!wslot.count(p)) continue;
		--left;
		if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
			// an in-process execution failed or crashed
			Slot &sl = slots[wslot[p]];
			lk();
			if (!G->have_viol && !(sl.status == ST_FAIL && is_known(sl.sig))) {
				if (sl.status == ST_ERROR || sl.status == ST_DIVERGED) { G->have_error = 1; snprintf(G->err_msg, sizeof G->err_msg, "%.4000s", sl.msg); }
				else {
					G->have_viol = 1;
					Prefix p2;
					for (uint32_t i = 0; i < sl.nt; ++i) if (sl.c[i]) p2.devs.push_back(Dev{i, sl.c[i]});
					if (p2.devs.size() > QDEV) p2.devs.resize(QDEV);
					put_shared(p2, G->viol);
					if (WIFSIGNALED(st)) {
						snprintf(G->viol_sig, sizeof G->viol_sig, "crash-signal-%d", WTERMSIG(st));
						snprintf(G->viol_msg, sizeof G->viol_msg, "process ended by signal %d", WTERMSIG(st));
					} else { memcpy(G->viol_sig, sl.sig, sizeof sl.sig); memcpy(G->viol_msg, sl.msg, sizeof sl.msg); }
				}
			}
			ul();
			G->stop = 1;
		}
	}
	itimerval notick{{0, 0}, {0, 0}};
	setitimer(ITIMER_REAL, &notick, nullptr);
	double dt = wall() - t_start;
	no_seen = true;
	bool confirmed = false;
	std::string vsig, vmsg;
	if (G->have_viol) {
		// replay before report, twice, in fresh processes, with a longer time limit
		Prefix p = get_shared(G->viol);
		p.hash = 0;
		vsig = G->viol_sig; vmsg = G->viol_msg;
		itimerval it{{0, 500000}, {0, 500000}};
		setitimer(ITIMER_REAL, &it, nullptr);
		const double ct = Cur->mode == Scenario::INPROC ? O.exec_timeout : O.exec_timeout * 3;
		int a = run_fork(p, ct); std::string s1 = S->sig;
		int b = run_fork(p, ct); std::string s2 = S->sig;
		itimerval z{{0, 0}, {0, 0}};
		setitimer(ITIMER_REAL, &z, nullptr);
		if (a == ST_FAIL && b == ST_FAIL && s1 == s2) {
			confirmed = true;
			vsig = S->sig; vmsg = S->msg;
			if (!rout.empty()) save_replay(rout, p);
			printf("violation: sig=%s\n%s\n", S->sig, S->msg);
			printf("--- event log (tail)\n%s", S->loglen > 6000 ? S->log + S->loglen - 6000 : S->log);
			rc = 1;
		} else {
			printf("violation did not replay: first %s (%s), then %d %s, %d %s\n", vsig.c_str(), vmsg.c_str(), a, s1.c_str(), b, s2.c_str());
			rc = 2;
		}
	} else if (G->have_error) {
		printf("error: %s\n", G->err_msg);
		rc = 2;
	}
	const bool exhaustive = rc == 0 && !G->capped.load();
	// one sample execution: the default one
	Prefix p0;
	int s0 = ST_NONE;
	if (rc == 0) { s0 = run_fork(p0, O.exec_timeout); }
	(void)s0;
	if (!json.empty()) {
		FILE *f = fopen(json.c_str(), "w");
		if (!f) { perror(json.c_str()); return 2; }
		fprintf(f, "{\"scenario\":\"%s\",\"executions\":%llu,\"nodes\":%llu,\"transitions\":%llu,\"distinct_states\":%llu,\"compared\":%llu,\"pruned\":%llu,\"max_choice_depth\":%llu,\"distinct_outcomes\":%llu,\"exhaustive\":%s,\"capped\":%s,\"preempt\":%u,\"env\":%u,\"total\":%u,\"known_hits\":%llu,\"wall_s\":%.2f,\"by_cost\":[",
			Cur->name, (unsigned long long)G->execs, (unsigned long long)G->nodes, (unsigned long long)G->steps, (unsigned long long)G->seen_states,
			(unsigned long long)G->compared, (unsigned long long)G->pruned, (unsigned long long)G->maxdepth, (unsigned long long)G->outcomes,
			exhaustive ? "true" : "false", G->capped.load() ? "true" : "false", O.preempt, O.env, O.total, (unsigned long long)G->known_hits, dt);
		for (int i = 0; i < 8; ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)G->by_cost[i]);
		fprintf(f, "],\"params\":{");
		bool first = true;
		for (auto &kv : O.params) { fprintf(f, "%s\"%s\":%lld", first ? "" : ",", kv.first.c_str(), static_cast<long long>(kv.second)); first = false; }
		fprintf(f, "},\"violation\":%s", confirmed ? "true" : "false");
		if (confirmed) fprintf(f, ",\"sig\":\"%s\",\"msg\":\"%s\"", jesc(vsig.c_str()).c_str(), jesc(vmsg.substr(0, 2000).c_str()).c_str());
		if (G->have_error) fprintf(f, ",\"error\":\"%s\"", jesc(G->err_msg).c_str());
		S->log[std::min<uint32_t>(S->loglen, 1200)] = 0;
		fprintf(f, ",\"sample\":\"%s\"}\n", jesc(S->log).c_str());
		fclose(f);
	}
	printf("%s: executions=%llu nodes=%llu transitions=%llu states=%llu compared=%llu outcomes=%llu depth=%llu by_cost=", Cur->name, (unsigned long long)G->execs,
		(unsigned long long)G->nodes, (unsigned long long)G->steps, (unsigned long long)G->seen_states, (unsigned long long)G->compared, (unsigned long long)G->outcomes, (unsigned long long)G->maxdepth);
	for (int i = 0; i < 6; ++i) printf("%llu,", (unsigned long long)G->by_cost[i]);
	printf(" %s %.1fs\n", exhaustive ? "exhaustive" : "CAPPED/STOPPED", dt);
	return rc;
}
