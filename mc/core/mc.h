// Bounded exhaustive explorer with a controlled scheduler.
//
// A harness is a function that is run many times.  Every source of nondeterminism in it is a
// call to choose(): inputs (FREE: enumerated completely), departures from the default answer of
// the environment (ENV: bounded by --env), and thread switches (PREEMPT: bounded by --preempt;
// inserted by the scheduler in sched.cc).  The explorer enumerates every choice sequence within
// the bounds, cheapest first.
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace mc {
int fork_retry();	// fork, waiting for a process to become free

enum Kind : uint8_t { FREE = 0, PREEMPT = 1, ENV = 2 };

// One decision among n alternatives; 0 is the default.
unsigned choose(unsigned n, Kind k = FREE);
inline bool flip(Kind k = FREE) { return choose(2, k) == 1; }
// FREE choice of a value out of a list
template <class T> const T &pick(const std::vector<T> &v) { return v[choose(unsigned(v.size()))]; }

// The property is violated.  sig is a short stable identifier of what failed; msg the details.
[[noreturn]] void fail(const std::string &sig, const std::string &msg);
inline void check(bool ok, const std::string &sig, const std::string &msg = "") { if (!ok) fail(sig, msg); }
// The harness itself is at fault or met something it does not model: no verdict.
[[noreturn]] void error(const std::string &msg);

// Append to the execution's event log, shown with a violation
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Mix into the identity of this execution's observable outcome
void outcome(uint64_t v);
void outcome(const std::string &s);
// Count transitions of the system (scheduler steps count themselves)
void step(uint64_t n = 1);
// (The caller must end the execution at once when it returns true.)
// True if an equal state was reached before with the same remaining budget, so that this
// execution may end here.  Never true while the choice prefix is still being replayed.
bool seen(uint64_t hash);
// Number of model-vs-implementation comparisons made
void compared(uint64_t n = 1);

int64_t param(const char *name, int64_t def);
bool verbose();
uint64_t seed();

// --- controlled scheduler (threaded scenarios) ---
bool managed();                     // is the calling thread under the scheduler?
void point();                       // scheduling point
// Block until every other thread is blocked and no timer is due within max_advance nanoseconds
// of virtual time (due timers are run first).
void wait_quiescent(uint64_t max_advance_ns = 0);
// Block until pred() holds.  pred must depend only on state changed by managed threads.
void block_until(const std::function<bool()> &pred, const char *what);
// as block_until, giving up after ns of virtual time
bool block_until_for(const std::function<bool()> &pred, uint64_t ns, const char *what);
void sleep_ns(uint64_t ns);
uint64_t now_ns();                  // virtual monotonic time
void advance_ns(uint64_t ns);       // time passes without the thread blocking
unsigned self();                    // id of the calling managed thread
unsigned live_threads();
std::string describe_threads();
void set_unlock_points(bool on);    // scheduling point after each unlock, too (default on)
void set_delay_bounded(bool on);    // non-default picks at blocking points also cost 1
void set_points_enabled(bool on);   // off: no preemption points (blocking points remain)
void set_horizon(uint64_t steps);   // scheduler steps before the run counts as not terminating
void set_signal_choice(bool on);    // which waiter a condition signal wakes is an ENV choice
void set_spurious(bool on);         // spurious wakeups are an ENV choice
void set_on_stuck(const std::function<void()> &fn); // called instead of reporting a deadlock
[[noreturn]] void finish();         // end this execution successfully from any thread
void set_realtime_base(uint64_t sec);

struct Scenario {
	const char *name;
	enum Mode { INPROC, FORK, THREADED } mode;
	void (*fn)();
	Scenario(const char *name, Mode mode, void (*fn)());
};

} // namespace mc

#define MC_SCENARIO(name_, mode_) \
	static void mc_scn_##name_(); \
	static mc::Scenario mc_reg_##name_(#name_, mc::Scenario::mode_, mc_scn_##name_); \
	static void mc_scn_##name_()

#endif
