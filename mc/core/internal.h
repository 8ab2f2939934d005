#ifndef MC_INTERNAL_H
#define MC_INTERNAL_H
#include "mc.h"
namespace mc {
// called in a child before and after a threaded scenario
void sched_start();
void sched_stop();
extern bool g_in_execution;
[[noreturn]] void hard_exit(int st);
void real_nap();
// set when the race detector is linked
struct RaceHooks { void (*start)(); void (*acquire)(const void *); void (*release)(const void *); void (*fork)(unsigned child); void (*join)(unsigned child); void (*sync)(); };
extern RaceHooks *race;
// position in the choice prefix, carried between the processes of one execution
size_t get_cursor();
void set_cursor(size_t);
bool exec_ended();
// a process of this execution ended abnormally (wait status): end the execution likewise
[[noreturn]] void propagate_child(int wst);
}
#endif
