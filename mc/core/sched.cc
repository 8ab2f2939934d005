// Controlled scheduler: one managed thread runs at a time; every blocking or synchronising libc
// call of the code under test is interposed here (link-time symbol interposition) and becomes a
// scheduling point.  Time is virtual: it advances only when every thread is blocked.
#include "internal.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace mc {
RaceHooks *race;
namespace {

enum TState { RUNNABLE, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_PRED, B_QUIESCE, EXITED };
const char *const state_names[] = { "runnable", "mutex", "cond", "join", "sleep", "pred", "quiesce", "exited" };

const uint64_t NEVER = ~0ull;

struct Thr {
	unsigned id;
	std::atomic<uint32_t> baton{0};
	TState st = RUNNABLE;
	const void *obj = nullptr;      // mutex, cond or thread waited for
	uint64_t deadline = NEVER;
	bool timedout = false;
	uint64_t seq = 0;               // order of waiting
	std::function<bool()> pred;
	const char *what = "";
	uint64_t quiesce_adv = 0;
	void *(*fn)(void *) = nullptr;
	void *arg = nullptr;
	void *ret = nullptr;
	pthread_t pt{};
	bool detached = false, joined = false;
	unsigned held = 0;              // mutexes held
	char name[32] = "";
};

struct Mtx { Thr *owner = nullptr; unsigned depth = 0; };

bool active = false;
std::vector<Thr *> *threads;
std::map<const void *, Mtx> *mutexes;
thread_local Thr *cur = nullptr;
uint64_t vnow = 1000ull * 1000000000ull;
uint64_t realbase = 1700000000ull;
uint64_t waitseq = 0;
uint64_t steps = 0, horizon = 2000000;
bool opt_unlock = true, opt_delay = false, opt_points = true, opt_sigchoice = false, opt_spurious = false;
std::function<void()> *on_stuck;
pthread_key_t exit_key;

template <class F> F real(const char *n) {
	void *p = dlsym(RTLD_NEXT, n);
	if (!p) { fprintf(stderr, "no %s\n", n); abort(); }
	return reinterpret_cast<F>(p);
}
#define REAL(name) ([]() { static auto p = real<decltype(&::name)>(#name); return p; }())

void fwait(std::atomic<uint32_t> &a) {
	while (a.load() == 0) syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	a.store(0);
}
void fpost(std::atomic<uint32_t> &a) {
	a.store(1);
	syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool g_trace = false;
#define TR(what, p) do { if (g_trace) fprintf(stdout, "      <%u> %s %p\n", cur->id, what, static_cast<const void *>(p)); } while (0)

bool mutex_free(const void *m) { auto i = mutexes->find(m); return i == mutexes->end() || !i->second.owner; }

bool enabled(Thr *t) {
	switch (t->st) {
		case RUNNABLE: return true;
		case B_MUTEX: return mutex_free(t->obj);
		case B_COND: return t->deadline <= vnow;
		case B_JOIN: return static_cast<const Thr *>(t->obj)->st == EXITED;
		case B_SLEEP: return t->deadline <= vnow;
		case B_PRED: return t->deadline <= vnow || t->pred();
		case B_QUIESCE: case EXITED: return false;
	}
	return false;
}

// Pick and switch to the next thread.  prefer_self: the caller could go on.
void reschedule(bool self_enabled) {
	++steps;
	mc::step();
	if (steps > horizon) fail("no-termination", "execution exceeded " + std::to_string(horizon) + " scheduler steps\n" + describe_threads());
	static std::vector<Thr *> &en = *new std::vector<Thr *>; // one managed thread at a time
	for (;;) {
		en.clear();
		if (self_enabled) en.push_back(cur);
		// round robin order starting after the current thread
		const size_t n = threads->size();
		for (size_t k = 1; k <= n; ++k) {
			Thr *t = (*threads)[(cur->id + k) % n];
			if (t == cur && self_enabled) continue;
			if (enabled(t)) en.push_back(t);
		}
		if (!en.empty()) break;
		// nobody can run: advance time
		uint64_t dl = NEVER;
		Thr *q = nullptr;
		for (Thr *t : *threads) {
			if (t->st == B_QUIESCE) { if (!q) q = t; continue; }
			if (t->st == EXITED) continue;
			if (t->st == B_COND || t->st == B_SLEEP || t->st == B_PRED) if (t->deadline < dl) dl = t->deadline;
		}
		if (q && (dl == NEVER || dl > q->deadline)) { if (q->deadline != NEVER && q->deadline > vnow && dl != NEVER) vnow = q->deadline; en.push_back(q); break; }
		if (dl != NEVER) { if (dl > vnow) vnow = dl; continue; }
		if (*on_stuck) { auto f = *on_stuck; *on_stuck = nullptr; f(); continue; }
		fail("deadlock", "every thread is blocked\n" + describe_threads());
	}
	unsigned c = 0;
	if (en.size() > 1) {
		const bool pre = self_enabled || opt_delay;
		if (!(self_enabled && !opt_points)) c = choose(unsigned(en.size() > 255 ? 255 : en.size()), pre ? PREEMPT : FREE);
	}
	Thr *next = en[c];
	if (next == cur) return;
	Thr *me = cur;
	fpost(next->baton);
	fwait(me->baton);
}

// after being switched to: consume the wakeup reason
void block(TState st, const void *obj, uint64_t deadline, const char *what) {
	Thr *t = cur;
	t->st = st; t->obj = obj; t->deadline = deadline; t->what = what; t->timedout = false; t->seq = ++waitseq;
	if (st == B_QUIESCE || !enabled(t)) reschedule(false);
	else if (opt_points) { reschedule(true); while (!enabled(t)) reschedule(false); }
	// we are running, so we are enabled
	t->st = RUNNABLE; t->obj = nullptr;
}

void acquire(pthread_mutex_t *m) {
	Thr *t = cur;
	Mtx &x = (*mutexes)[m];
	if (x.owner == t) {
		const int kind = m->__data.__kind & 3;
		if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.depth; return; }
		fail("deadlock", "thread locks a mutex it already holds\n" + describe_threads());
	}
	if (x.owner) {
		do {
			t->st = B_MUTEX; t->obj = m; t->what = "mutex"; t->seq = ++waitseq;
			reschedule(false);
			t->st = RUNNABLE;
		} while (!mutex_free(m));
	}
	Mtx &y = (*mutexes)[m];
	y.owner = t; y.depth = 1; ++t->held;
	if (race) race->acquire(m);
	TR("lock", m);
}

void release(pthread_mutex_t *m, bool pt) {
	auto i = mutexes->find(m);
	if (i == mutexes->end() || i->second.owner != cur) fail("bad-unlock", "thread unlocks a mutex it does not hold\n" + describe_threads());
	if (--i->second.depth) return;
	TR("unlock", m);
	--cur->held;
	if (race) race->release(m);
	mutexes->erase(i);
	if (pt && opt_unlock && opt_points) reschedule(true);
}

uint64_t ts2ns(const struct timespec *ts) { return uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec); }

int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
	Thr *t = cur;
	TR("wait", c);
	if (opt_spurious && choose(2, ENV)) {
		release(m, false); reschedule(true); acquire(m); return 0;
	}
	release(m, false);
	t->st = B_COND; t->obj = c; t->deadline = deadline; t->what = "cond"; t->timedout = false; t->seq = ++waitseq;
	if (deadline <= vnow) { t->st = RUNNABLE; t->timedout = true; reschedule(true); }
	else reschedule(false);
	if (t->st == B_COND) { t->st = RUNNABLE; t->timedout = true; }
	t->obj = nullptr;
	const bool to = t->timedout;
	acquire(m);
	return to ? ETIMEDOUT : 0;
}

void wake(const void *c, bool all) {
	TR(all ? "broadcast" : "signal", c);
	std::vector<Thr *> w;
	for (Thr *t : *threads) if (t->st == B_COND && t->obj == c) w.push_back(t);
	if (w.empty()) return;
	if (!all && w.size() > 1) {
		for (size_t i = 0; i < w.size(); ++i) for (size_t j = i + 1; j < w.size(); ++j) if (w[j]->seq < w[i]->seq) std::swap(w[i], w[j]);
		unsigned k = opt_sigchoice ? choose(unsigned(w.size()), ENV) : 0;
		w = { w[k] };
	}
	for (Thr *t : w) { t->st = RUNNABLE; t->obj = nullptr; t->timedout = false; }
}

void thread_exit_hook(void *) {
	Thr *t = cur;
	if (!t || !active) return;
	// thread_local destructors of C++ objects have run
	if (t->held) fail("exit-with-lock", "thread ended holding a mutex\n" + describe_threads());
	t->st = EXITED;
	reschedule(false);
	for (;;) pause();
}

void *trampoline(void *p) {
	Thr *t = static_cast<Thr *>(p);
	cur = t;
	fwait(t->baton);
	pthread_setspecific(exit_key, t);
	t->ret = t->fn(t->arg);
	return t->ret;
}

} // namespace

bool managed() { return active && cur; }
unsigned self() { return cur ? cur->id : ~0u; }
uint64_t now_ns() { return vnow; }
void advance_ns(uint64_t ns) { vnow += ns; }
void point() { if (managed() && opt_points) reschedule(true); }
void sleep_ns(uint64_t ns) { if (managed()) block(B_SLEEP, nullptr, vnow + ns, "sleep"); else vnow += ns; }
void wait_quiescent(uint64_t max_adv) {
	cur->st = B_QUIESCE; cur->deadline = max_adv == NEVER ? NEVER - 1 : vnow + max_adv; cur->what = "quiesce";
	reschedule(false);
	cur->st = RUNNABLE;
	if (race) race->sync();
}
void block_until(const std::function<bool()> &pred, const char *what) {
	cur->pred = pred;
	block(B_PRED, nullptr, NEVER, what);
	if (race) race->sync();
}
bool block_until_for(const std::function<bool()> &pred, uint64_t ns, const char *what) {
	cur->pred = pred;
	block(B_PRED, nullptr, vnow + ns, what);
	if (race) race->sync();
	return pred();
}
unsigned live_threads() { unsigned n = 0; for (Thr *t : *threads) if (t->st != EXITED) ++n; return n; }
std::string describe_threads() {
	std::string s;
	if (!threads) return s;
	for (Thr *t : *threads) {
		char b[160];
		snprintf(b, sizeof b, "  thread %u %s: %s %s obj=%p%s\n", t->id, t->name, state_names[t->st], t->st == RUNNABLE ? "" : t->what, t->obj, t == cur ? " (current)" : "");
		s += b;
	}
	return s;
}
void set_unlock_points(bool on) { opt_unlock = on; }
void set_delay_bounded(bool on) { opt_delay = on; }
void set_points_enabled(bool on) { opt_points = on; }
void set_horizon(uint64_t s) { horizon = s; }
void set_signal_choice(bool on) { opt_sigchoice = on; }
void set_spurious(bool on) { opt_spurious = on; }
void set_on_stuck(const std::function<void()> &fn) { *on_stuck = fn; }
void set_realtime_base(uint64_t sec) { realbase = sec; }

void sched_start() {
	if (param("delay", 0)) opt_delay = true;
	g_trace = getenv("MC_TRACE") && verbose();
	threads = new std::vector<Thr *>;
	mutexes = new std::map<const void *, Mtx>;
	on_stuck = new std::function<void()>;
	pthread_key_create(&exit_key, thread_exit_hook);
	Thr *t = new Thr; t->id = 0; t->pt = pthread_self(); strcpy(t->name, "main");
	threads->push_back(t);
	cur = t;
	active = true;
	if (race) race->start();
}
void sched_stop() { active = false; }

} // namespace mc

using namespace mc;

static bool mg() { return active && cur; }

extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!mg()) return REAL(pthread_mutex_lock)(m);
	if (opt_points) reschedule(true);
	acquire(m);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!mg()) return REAL(pthread_mutex_trylock)(m);
	if (opt_points) reschedule(true);
	auto i = mutexes->find(m);
	if (i != mutexes->end() && i->second.owner) {
		if (i->second.owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++i->second.depth; return 0; }
		return EBUSY;
	}
	acquire(m);
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *)
{
	return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!mg()) return REAL(pthread_mutex_unlock)(m);
	release(m, true);
	return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (!mg()) return REAL(pthread_cond_wait)(c, m);
	return cond_wait(c, m, NEVER);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
{
	if (!mg()) return REAL(pthread_cond_clockwait)(c, m, clk, ts);
	uint64_t d = ts->tv_sec < 0 ? 0 : ts2ns(ts);
	if (clk == CLOCK_REALTIME) { uint64_t base = realbase * 1000000000ull; d = d > base ? d - base : 0; }
	return cond_wait(c, m, d);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	return pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts);
}
int pthread_cond_signal(pthread_cond_t *c)
{
	if (!mg()) return REAL(pthread_cond_signal)(c);
	if (opt_points && !cur->held) reschedule(true);
	wake(c, false);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
	if (!mg()) return REAL(pthread_cond_broadcast)(c);
	if (opt_points && !cur->held) reschedule(true);
	wake(c, true);
	return 0;
}
int pthread_cond_destroy(pthread_cond_t *c)
{
	if (!mg()) return REAL(pthread_cond_destroy)(c);
	for (Thr *t : *threads) if (t->st == B_COND && t->obj == c) fail("destroyed-in-use", "condition variable destroyed while a thread waits on it\n" + describe_threads());
	return 0;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
	if (!mg()) return REAL(pthread_create)(pt, attr, fn, arg);
	if (threads->size() >= 2000) fail("runaway-threads", "2000 threads have been created\n" + describe_threads().substr(0, 2000));
	size_t live = 0;
	if (threads->size() >= 200) for (Thr *o : *threads) live += o->st != EXITED;
	if (live >= 200) fail("runaway-threads", "200 threads exist at the same time\n" + describe_threads().substr(0, 2000));
	Thr *t = new Thr;
	t->id = unsigned(threads->size());
	t->fn = fn; t->arg = arg;
	snprintf(t->name, sizeof t->name, "t%u", t->id);
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 1 << 20);
	int rv;
	for (int n = 0; (rv = REAL(pthread_create)(&t->pt, &a, trampoline, t)) == EAGAIN && n < 600; ++n) real_nap();	// the machine may be short of threads for a moment
	pthread_attr_destroy(&a);
	if (rv) error("pthread_create failed");
	*pt = t->pt;
	threads->push_back(t);
	if (race) race->fork(t->id);
	if (opt_points) reschedule(true);
	return 0;
}
int pthread_join(pthread_t pt, void **ret)
{
	if (!mg()) return REAL(pthread_join)(pt, ret);
	for (Thr *t : *threads) if (pthread_equal(t->pt, pt)) {
		block(B_JOIN, t, NEVER, "join");
		if (ret) *ret = t->ret;
		t->joined = true;
		if (race) race->join(t->id);
		return 0;
	}
	return ESRCH;
}
int pthread_detach(pthread_t pt)
{
	if (!mg()) return REAL(pthread_detach)(pt);
	return 0;
}
int pthread_setname_np(pthread_t pt, const char *n)
{
	if (!mg()) return 0;
	for (Thr *t : *threads) if (pthread_equal(t->pt, pt)) snprintf(t->name, sizeof t->name, "%s", n);
	return 0;
}
int pthread_getname_np(pthread_t pt, char *buf, size_t len)
{
	if (mg()) for (Thr *t : *threads) if (pthread_equal(t->pt, pt)) { snprintf(buf, len, "%.15s", t->name); return 0; }
	snprintf(buf, len, "main");
	return 0;
}
int sched_yield(void)
{
	if (mg()) point();
	return 0;
}
int nanosleep(const struct timespec *req, struct timespec *)
{
	if (!mg()) {
		if (g_in_execution) { vnow += ts2ns(req); return 0; }
		return int(syscall(SYS_nanosleep, req, nullptr));
	}
	if (req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec > 999999999) { errno = EINVAL; return -1; }
	sleep_ns(ts2ns(req));
	return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec *req, struct timespec *rem)
{
	if (flags & TIMER_ABSTIME) {
		uint64_t d = ts2ns(req);
		if (d > vnow) sleep_ns(d - vnow);
		return 0;
	}
	return nanosleep(req, rem);
}
int usleep(useconds_t us) { struct timespec ts = { time_t(us / 1000000), long(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts = { time_t(s), 0 }; nanosleep(&ts, nullptr); return 0; }

int clock_gettime(clockid_t clk, struct timespec *ts)
{
	if (!g_in_execution) return int(syscall(SYS_clock_gettime, clk, ts));
	uint64_t v = vnow;
	ts->tv_sec = time_t(v / 1000000000ull);
	ts->tv_nsec = long(v % 1000000000ull);
	if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) ts->tv_sec += time_t(realbase);
	return 0;
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict)
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *t)
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}

// function-local statics: a thread may be switched out inside an initialiser
int __cxa_guard_acquire(long long *g)
{
	char *b = reinterpret_cast<char *>(g);
	if (b[0]) { if (race) race->acquire(g); return 0; }
	if (!mg()) {
		b[1] = 1;
		return 1;
	}
	while (b[1]) {
		Thr *t = cur;
		t->pred = [b]() { return !b[1]; };
		t->st = B_PRED; t->deadline = NEVER; t->what = "static init";
		reschedule(false);
		t->st = RUNNABLE;
		if (b[0]) { if (race) race->acquire(g); return 0; }
	}
	b[1] = 1;
	return 1;
}
void __cxa_guard_release(long long *g) { char *b = reinterpret_cast<char *>(g); if (race) race->release(g); b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(long long *g) { char *b = reinterpret_cast<char *>(g); b[1] = 0; }

} // extern "C"
