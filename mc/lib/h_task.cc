// C14 C15 C16 C17: the task scheduler under every interleaving within the preemption bound.
#include "mc.h"
#include "crucible/error.h"
#include "crucible/task.h"
#include <memory>
#include <thread>
#include <vector>
#include <cmath>
using namespace std;
using namespace crucible;

static uint64_t clk;                 // logical time of observations
static double g_load[3];
static vector<double> g_load_script;
static size_t g_load_calls;
extern "C" int getloadavg(double *la, int n)
{
	if (!g_load_script.empty()) {
		const size_t i = min(g_load_calls, g_load_script.size() - 1);
		g_load[0] = g_load[1] = g_load[2] = g_load_script[i];
		++g_load_calls;
	}
	for (int i = 0; i < n && i < 3; ++i) la[i] = g_load[i];
	return n;
}

struct Req { uint64_t begin, end; };
struct T {                           // a task under observation
	string name;
	shared_ptr<Task> task;
	vector<Req> reqs;
	vector<Req> execs;
	vector<Req> appends;             // requests made through another task
	int running = 0;
};
static int g_running, g_max_running;

static Task make(T *t, function<void()> body)
{
	shared_ptr<void> guard(nullptr, [n = t->name](void *) { mc::log("[%u] %s destroyed", mc::self(), n.c_str()); });
	return Task(t->name, [t, body, guard]() {
		if (t->running) mc::fail("concurrent-run", t->name + " executes on two threads at once");
		++t->running; ++g_running; g_max_running = max(g_max_running, g_running);
		t->execs.push_back({++clk, 0});
		const size_t me = t->execs.size() - 1;
		mc::log("[%u] %s starts", mc::self(), t->name.c_str());
		mc::point();
		auto done = [&]() {
			mc::log("[%u] %s ends", mc::self(), t->name.c_str());
			t->execs[me].end = ++clk;
			--t->running; --g_running;
		};
		try { body(); } catch (...) { done(); throw; }
		done();
	});
}
template <class F> static void request(T *t, const char *what, F f)
{
	const size_t i = t->reqs.size();
	t->reqs.push_back({++clk, ~0ull});
	mc::log("[%u] %s.%s", mc::self(), t->name.c_str(), what);
	f();
	t->reqs[i].end = ++clk;
}

// every request is followed by a run that starts after it; every run answers a request made since
// the previous run started
static void judge(T &t)
{
	mc::compared();
	for (auto &r : t.reqs) {
		bool ok = false;
		for (auto &e : t.execs) ok |= e.begin > r.begin;
		if (!ok) mc::fail("lost-run", t.name + " was scheduled and never ran afterwards");
	}
	for (size_t i = 0; i < t.execs.size(); ++i) {
		// (a request made between the scheduler's start of a run and the first statement of the
		// task counts as made while running)
		size_t before = 0;
		for (auto &r : t.reqs) before += r.begin < t.execs[i].begin;
		if (before < i + 1) mc::fail("extra-run", t.name + " ran more often than it was asked to");
		if (!t.execs[i].end) mc::fail("unfinished", t.name + " did not finish");
	}
	mc::outcome(t.execs.size());
}

static void shutdown_and_leak_check(size_t base)
{
	mc::wait_quiescent();
	TaskMaster::set_thread_count(0);
	mc::log("[%u] thread count 0", mc::self());
	mc::wait_quiescent();
	mc::compared();
	if (Task::instance_count() != base) mc::fail("task-leak", to_string(Task::instance_count() - base) + " tasks still exist after all references were dropped");
}

// ---- C14
MC_SCENARIO(mix, THREADED)
{
	const int W = int(mc::param("workers", 2)), N1 = int(mc::param("main_ops", 2)), N2 = int(mc::param("thread_ops", 1));
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	TaskMaster::set_thread_count(size_t(W));
	T a, b; a.name = "A"; b.name = "B";
	const unsigned ba = mc::choose(6), bb = mc::choose(3);
	int left = 1, leftb = 1;
	a.task = make_shared<Task>(make(&a, [&]() {
		if (ba && left-- > 0) switch (ba) {
			case 1: request(&a, "run(self)", [&]() { Task::current_task().run(); }); break;
			case 2: request(&b, "run(by A)", [&]() { b.task->run(); }); break;
			case 3: request(&b, "append(A,B)", [&]() { Task::current_task().append(*b.task); }); break;
			case 4: request(&a, "idle(self)", [&]() { Task::current_task().idle(); }); break;
			case 5: throw runtime_error("task body fails");
		}
	}));
	b.task = make_shared<Task>(make(&b, [&]() {
		if (bb && leftb-- > 0) switch (bb) {
			case 1: request(&b, "idle(self)", [&]() { Task::current_task().idle(); }); break;
			case 2: if (a.task) request(&a, "run(by B)", [&]() { a.task->run(); }); break;
		}
	}));
	auto op = [&](unsigned o) {
		switch (o) {
			case 0: request(&a, "run", [&]() { a.task->run(); }); break;
			case 1: request(&b, "run", [&]() { b.task->run(); }); break;
			case 2: request(&a, "idle", [&]() { a.task->idle(); }); break;
			case 3: request(&b, "append(A,B)", [&]() { a.task->append(*b.task); }); break;
			case 4: request(&b, "insert(A,B)", [&]() { a.task->insert(*b.task); }); break;
		}
	};
	vector<unsigned> p1, p2;
	for (int i = 0; i < N1; ++i) p1.push_back(mc::choose(5));
	for (int i = 0; i < N2; ++i) p2.push_back(mc::choose(5));
	mc::set_points_enabled(true);
	thread t2;
	if (N2) t2 = thread([&]() { for (auto o : p2) op(o); });
	for (auto o : p1) op(o);
	if (N2) t2.join();
	mc::wait_quiescent();
	// B may still wait for a run of A that nobody asked for
	if (mc::choose(2)) { request(&a, "run(last)", [&]() { a.task->run(); }); mc::wait_quiescent(); }
	else {
		bool pending = false;
		for (auto &r : b.reqs) { bool ok = false; for (auto &e : b.execs) ok |= e.begin > r.begin; pending |= !ok; }
		if (pending) { a.task.reset(); mc::wait_quiescent(); if (a.task) mc::fail("x", "x"); }
	}
	a.task.reset();
	mc::wait_quiescent();
	judge(a); judge(b);
	b.task.reset();
	shutdown_and_leak_check(base);
}

// an appended task starts only after the task it was appended to has run
MC_SCENARIO(append_order, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	TaskMaster::set_thread_count(size_t(mc::param("workers", 2)));
	T a, b, c; a.name = "A"; b.name = "B"; c.name = "C";
	const bool ins = mc::flip(), early = mc::flip(), rerun = mc::flip();
	bool once = rerun;
	a.task = make_shared<Task>(make(&a, [&]() {
		if (!early) for (T *t : {&c, &b}) request(t, "append", [&]() { if (ins) Task::current_task().insert(*t->task); else Task::current_task().append(*t->task); });
		if (once) { once = false; request(&a, "run(self)", [&]() { Task::current_task().run(); }); }
	}));
	b.task = make_shared<Task>(make(&b, []() {}));
	c.task = make_shared<Task>(make(&c, []() {}));
	mc::set_points_enabled(true);
	if (early) for (T *t : {&c, &b}) request(t, "append", [&]() { if (ins) a.task->insert(*t->task); else a.task->append(*t->task); });
	request(&a, "run", [&]() { a.task->run(); });
	mc::wait_quiescent();
	for (T *t : {&a, &b, &c}) judge(*t);
	for (T *t : {&b, &c}) if (t->execs.at(0).begin < a.execs.at(0).end) mc::fail("append-order", t->name + " started before the task it was appended to had ended");
	if (ins) { if (b.execs[0].begin > c.execs[0].begin) mc::fail("insert-order", "inserted tasks ran out of creation order"); }
	else if (c.execs[0].begin > b.execs[0].begin) mc::fail("append-order", "appended tasks ran out of the order they were appended in");
	a.task.reset(); b.task.reset(); c.task.reset();
	shutdown_and_leak_check(base);
}

// one worker: normal tasks start in the order queued, idle tasks only when nothing else waits
MC_SCENARIO(fifo, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	TaskMaster::set_thread_count(1);
	const int N = int(mc::param("tasks", 4));
	// gate task keeps the only worker busy while the others are queued
	bool open = false;
	{
	Task gate("gate", [&]() { mc::block_until([&]() { return open; }, "gate"); });
	gate.run();
	mc::wait_quiescent();
	}
	vector<T> ts(static_cast<size_t>(N));
	vector<int> order;
	vector<pair<bool, int>> want;
	for (int i = 0; i < N; ++i) {
		ts[size_t(i)].name = string(1, char('A' + i));
		ts[size_t(i)].task = make_shared<Task>(make(&ts[size_t(i)], [&order, i]() { order.push_back(i); }));
	}
	vector<bool> idle(static_cast<size_t>(N), false), queued(static_cast<size_t>(N), false);
	for (int i = 0; i < N; ++i) {
		const int x = int(mc::choose(unsigned(N)));
		const bool id = mc::flip();
		T &t = ts[size_t(x)];
		if (queued[size_t(x)]) { if (id) continue; }    // repeated requests merge; a repeat does not move the task
		else { want.push_back({id, x}); queued[size_t(x)] = true; }
		if (id) request(&t, "idle", [&]() { t.task->idle(); });
		else request(&t, "run", [&]() { t.task->run(); });
	}
	mc::set_points_enabled(true);
	open = true;
	mc::wait_quiescent();
	vector<int> exp;
	for (auto &w : want) if (!w.first) exp.push_back(w.second);
	for (auto &w : want) if (w.first) exp.push_back(w.second);
	mc::compared();
	if (exp != order) {
		string m = "expected"; for (int i : exp) m += " " + to_string(i); m += ", ran"; for (int i : order) m += " " + to_string(i);
		mc::fail("order", m);
	}
	for (auto &t : ts) { judge(t); t.task.reset(); }
	shutdown_and_leak_check(base);
}

// requests made while a task runs, or while it waits, are merged into one further run
MC_SCENARIO(merge, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	TaskMaster::set_thread_count(size_t(mc::param("workers", 2)));
	T a; a.name = "A";
	bool open = false;
	a.task = make_shared<Task>(make(&a, [&]() { mc::block_until([&]() { return open; }, "gate"); }));
	request(&a, "run", [&]() { a.task->run(); });
	mc::wait_quiescent();
	mc::check(a.execs.size() == 1, "lost-run", "task did not start");
	const unsigned n = 1 + mc::choose(2);
	mc::set_points_enabled(true);
	thread t2([&]() { for (unsigned i = 0; i < n; ++i) { if (mc::flip()) request(&a, "run", [&]() { a.task->run(); }); else request(&a, "idle", [&]() { a.task->idle(); }); } });
	request(&a, "run", [&]() { a.task->run(); });
	t2.join();
	mc::wait_quiescent();
	if (a.execs.size() != 1) mc::fail("concurrent-run", "second run while the first is still running");
	open = true;
	mc::wait_quiescent();
	judge(a);
	if (a.execs.size() != 2) mc::fail("merge", "requests made during a run led to " + to_string(a.execs.size() - 1) + " further runs");
	a.task.reset();
	shutdown_and_leak_check(base);
}

// requests made while a task waits are merged, however they are made
MC_SCENARIO(waiting, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const unsigned w = unsigned(mc::param("workers", 1)), start = mc::choose(3), K = unsigned(mc::param("ops", 3));
	TaskMaster::set_thread_count(w);
	bool open_g = false, open_a = false;
	T a, g, h; a.name = "A"; g.name = "G"; h.name = "H";
	a.task = make_shared<Task>(make(&a, [&]() { mc::block_until([&]() { return open_a; }, "gate A"); }));
	g.task = make_shared<Task>(make(&g, [&]() { mc::block_until([&]() { return open_g; }, "gate G"); }));
	h.task = make_shared<Task>(make(&h, []() {}));
	size_t expect = 0;
	switch (start) {
		case 0:                          // A waits behind G
			request(&g, "run", [&]() { g.task->run(); });
			mc::wait_quiescent();
			open_a = true;
			break;
		case 1:                          // A was asked to run again while running, and waits behind G
			request(&a, "run", [&]() { a.task->run(); });
			mc::wait_quiescent();
			request(&g, "append(A,G)", [&]() { a.task->append(*g.task); });
			if (mc::flip()) request(&a, "run", [&]() { a.task->run(); });
			open_a = true;
			mc::wait_quiescent();
			expect = 1;
			break;
		case 2:                          // A runs
			if (w < 2) { open_a = open_g = true; h.task.reset(); break; }
			request(&g, "run", [&]() { g.task->run(); });
			request(&a, "run", [&]() { a.task->run(); });
			mc::wait_quiescent();
			expect = 1;
			break;
	}
	if (h.task) {
		mc::check(g.execs.size() == 1 && a.execs.size() == expect && (start == 2 || w > 1 || g.running), "lost-run", "tasks did not start");
		mc::set_points_enabled(true);
		bool asked = a.reqs.size() > expect;
		for (unsigned i = 0; i < K; ++i) {
			switch (mc::choose(5)) {
				case 0: request(&a, "run", [&]() { a.task->run(); }); asked = true; break;
				case 1: request(&a, "idle", [&]() { a.task->idle(); }); asked = true; break;
				case 2: request(&a, "append(G,A)", [&]() { g.task->append(*a.task); }); asked = true; break;
				case 3: request(&a, "insert(G,A)", [&]() { g.task->insert(*a.task); }); asked = true; break;
				case 4: break;
			}
		}
		if (start != 2 && w > 1) mc::wait_quiescent();
		const bool waits = start == 2 || w == 1;   // nothing can have started A meanwhile
		if (start == 2 && mc::flip()) { open_a = true; mc::wait_quiescent(); }
		open_g = true;
		mc::wait_quiescent();
		open_a = true;
		mc::wait_quiescent();
		if (waits && a.execs.size() != expect + asked) mc::fail("merge", "requests made while the task waited led to " + to_string(a.execs.size() - expect) + " further runs");
	}
	mc::wait_quiescent();
	judge(a); judge(g);
	a.task.reset(); g.task.reset(); h.task.reset();
	shutdown_and_leak_check(base);
}

// a task that is asked to run again while it runs keeps the priority it was asked for
MC_SCENARIO(requeue, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	TaskMaster::set_thread_count(1);
	bool open = false;
	T x, n, m, y; x.name = "X"; n.name = "N"; m.name = "M"; y.name = "Y";
	const bool self = mc::flip(), first_idle = mc::flip(), has_y = mc::flip(), twice = mc::flip(), then_run = twice && mc::flip();
	x.task = make_shared<Task>(make(&x, [&]() {
		if (x.execs.size() > 1) return;
		mc::block_until([&]() { return open; }, "gate");
		if (self) {
			request(&x, "idle(self)", [&]() { Task::current_task().idle(); });
			if (then_run) request(&x, "run(self)", [&]() { Task::current_task().run(); });
			else if (twice) request(&x, "idle(self)", [&]() { Task::current_task().idle(); });
		}
	}));
	n.task = make_shared<Task>(make(&n, []() {}));
	m.task = make_shared<Task>(make(&m, [&]() { if (!then_run && x.execs.size() > 1) mc::fail("idle-first", "a task asked to run when idle ran again before a task queued normally"); }));
	y.task = make_shared<Task>(make(&y, []() {}));
	if (first_idle) request(&x, "idle", [&]() { x.task->idle(); });
	else request(&x, "run", [&]() { x.task->run(); });
	mc::wait_quiescent();
	mc::set_points_enabled(true);
	if (has_y) request(&y, "idle", [&]() { y.task->idle(); });
	request(&n, "run", [&]() { n.task->run(); });
	if (!self) {
		request(&x, "idle", [&]() { x.task->idle(); });
		if (then_run) request(&x, "run", [&]() { x.task->run(); });
		else if (twice) request(&x, "idle", [&]() { x.task->idle(); });
	}
	request(&m, "run", [&]() { m.task->run(); });
	open = true;
	mc::wait_quiescent();
	for (T *t : {&x, &n, &m}) judge(*t);
	if (has_y) judge(y);
	mc::check(x.execs.size() == 2, "merge", "requests made during a run led to " + to_string(x.execs.size() - 1) + " further runs");
	if (has_y && then_run && y.execs[0].begin < x.execs[1].begin) mc::fail("idle-first", "an idle task ran while a task queued normally was waiting");
	if (has_y) for (T *t : {&n, &m}) if (y.execs[0].begin < t->execs[0].begin) mc::fail("idle-first", "an idle task ran while a task queued normally was waiting");
	for (T *t : {&x, &n, &m, &y}) t->task.reset();
	shutdown_and_leak_check(base);
}

// destroying a task schedules others: on a worker, on any thread, by cancellation
MC_SCENARIO(destroyed, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const unsigned w = unsigned(mc::choose(3)), owner = mc::choose(3), fate = mc::choose(6);
	if (w) TaskMaster::set_thread_count(w);      // otherwise no worker was ever started
	T f; f.name = "F";
	f.task = make_shared<Task>(make(&f, []() {}));
	Exclusion ex;
	bool started = false, open = true;
	auto body = [&]() { started = true; mc::block_until([&]() { return open; }, "gate"); };
	auto build = [&]() -> Task {
		switch (owner) {
			case 0: { Barrier b; b.insert_task(*f.task); f.reqs.push_back({++clk, ~0ull}); return Task("O", [b, body]() { body(); }); }
			case 1: { auto g = shared_ptr<void>(nullptr, [&f](void *) { request(&f, "run(destructor)", [&]() { f.task->run(); }); }); return Task("O", [g, body]() { body(); }); }
			default: { Task o("O", [body]() { body(); }); f.reqs.push_back({++clk, ~0ull}); o.append(*f.task); return o; }
		}
	};
	bool cancelled = false;
	mc::set_points_enabled(true);
	switch (fate) {
		case 0: { Task o = build(); } break;                                     // dropped, never run
		case 1: { Task o = build(); o.run(); } break;                            // run, destroyed by the worker or here
		case 2: { Task o = build(); o.run(); mc::wait_quiescent(); } break;      // destroyed here
		case 3: { Task p("P", []() {}); p.append(build()); p.run(); } break;     // waited for another task
		case 4: { Task p("P", []() {}); p.append(build()); } break;              // both dropped
		case 5: {                                                                // cancelled while queued
			cancelled = true;
			open = false;
			for (unsigned i = 0; i < 3; ++i) { Task o = build(); if (i == 2) o.idle(); else o.run(); if (owner == 2) break; }
			mc::wait_quiescent();
			TaskMaster::cancel();
			open = true;
			{ Task p("P", []() {}); p.append(build()); p.run(); }
			{ Task o = build(); o.run(); }
			{ Task o = build(); o.idle(); }
			break;
		}
	}
	mc::wait_quiescent();
	mc::compared();
	if (!cancelled) {
		judge(f);
		if (f.execs.size() != 1) mc::fail("lost-run", "F ran " + to_string(f.execs.size()) + " times");
	}
	f.task.reset();
	shutdown_and_leak_check(base);
}

// requests for a task that is running, about to run or just finishing, from two threads
MC_SCENARIO(again, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const unsigned w = 1 + mc::choose(2), k1 = mc::choose(2), k2 = mc::choose(2), twice = mc::choose(2);
	TaskMaster::set_thread_count(w);
	T a; a.name = "A";
	a.task = make_shared<Task>(make(&a, []() {}));
	auto req = [&](unsigned k) { request(&a, k ? "idle" : "run", [&]() { if (k) a.task->idle(); else a.task->run(); }); };
	mc::set_points_enabled(true);
	thread th([&]() { req(k1); });
	req(k2);
	if (twice) req(k2);
	th.join();
	mc::wait_quiescent();
	judge(a);
	if (a.execs.size() > 2 + twice) mc::fail("extra-run", "A ran " + to_string(a.execs.size()) + " times");
	a.task.reset();
	shutdown_and_leak_check(base);
}

// a worker that stops hands over the tasks it had next
MC_SCENARIO(handover, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const unsigned w = 1 + mc::choose(2), how = mc::choose(3), ctl = mc::choose(5);
	TaskMaster::set_thread_count(w);
	T g, t[3]; g.name = "G";
	bool open = false, in = false;
	g.task = make_shared<Task>(make(&g, [&]() {
		if (in) return;
		in = true;
		mc::block_until([&]() { return open; }, "gate");
	}));
	for (int i = 0; i < 3; ++i) { t[i].name = string(1, char('A' + i)); t[i].task = make_shared<Task>(make(&t[i], []() {})); }
	request(&g, "run", [&]() { g.task->run(); });
	mc::wait_quiescent();
	for (int i = 0; i < 3; ++i) request(&t[i], "wait for G", [&]() { if (how == 0 || (how == 2 && i == 1)) g.task->append(*t[i].task); else g.task->insert(*t[i].task); });
	if (how == 2) request(&g, "run", [&]() { g.task->run(); });
	mc::set_points_enabled(true);
	switch (ctl) {
		case 0: TaskMaster::pause(); open = true; mc::wait_quiescent(); TaskMaster::pause(false); break;
		case 1: TaskMaster::pause(); open = true; TaskMaster::pause(false); break;
		case 2: open = true; TaskMaster::set_thread_count(0); TaskMaster::set_thread_count(1); break;
		case 3: open = true; TaskMaster::set_thread_count(0); mc::wait_quiescent(); TaskMaster::set_thread_count(w); break;
		case 4: { thread th([&]() { TaskMaster::set_thread_count(1); }); open = true; TaskMaster::pause(); TaskMaster::pause(false); th.join(); break; }
	}
	mc::wait_quiescent();
	judge(g);
	for (auto &x : t) { judge(x); if (x.execs.size() != 1) mc::fail("extra-run", x.name + " ran " + to_string(x.execs.size()) + " times"); }
	g.task.reset(); for (auto &x : t) x.task.reset();
	shutdown_and_leak_check(base);
}

// ---- C15
static vector<shared_ptr<T>> many(int n, function<void(T *, int)> body = nullptr)
{
	vector<shared_ptr<T>> v;
	for (int i = 0; i < n; ++i) {
		auto t = make_shared<T>(); t->name = string(1, char('A' + i));
		T *p = t.get();
		t->task = make_shared<Task>(make(p, [=]() { if (body) body(p, i); }));
		v.push_back(t);
	}
	return v;
}

// control calls against submission: at the end one thread is allowed and the pool runs
MC_SCENARIO(control, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const int N = int(mc::param("tasks", 2));
	const unsigned w0 = 1 + mc::choose(2);
	TaskMaster::set_thread_count(w0);
	auto ts = many(N);
	const int K = int(mc::param("calls", 2));
	vector<unsigned> prog;
	for (int i = 0; i < K; ++i) prog.push_back(mc::choose(5));
	mc::set_points_enabled(true);
	thread ctl([&]() {
		bool paused = false; unsigned lim = w0;
		for (auto c : prog) {
			mc::log("[%u] control %u", mc::self(), c);
			switch (c) {
				case 0: {
					TaskMaster::pause(true); paused = true;
					break;
				}
				case 1: TaskMaster::pause(false); paused = false; break;
				case 2: case 3: case 4: {
					// raising the count while paused waits for workers that may not start
					lim = c - 2;
					if (paused) { TaskMaster::pause(false); paused = false; }
					TaskMaster::set_thread_count(lim);
					if (g_running > int(lim)) mc::fail("limit", "running " + to_string(g_running) + " with limit " + to_string(lim));
					break;
				}
			}
		}
		if (lim == 0) TaskMaster::set_thread_count(1);
		if (paused) TaskMaster::pause(false);
		mc::log("[%u] control done", mc::self());
	});
	for (auto &t : ts) request(t.get(), "run", [&]() { t->task->run(); });
	ctl.join();
	mc::wait_quiescent();
	mc::compared();
	for (auto &t : ts) if (t->execs.empty()) mc::fail("stranded", t->name + " is queued, a thread is allowed, the pool is not paused, and nothing runs it (" + to_string(TaskMaster::get_thread_count()) + " workers)");
	for (auto &t : ts) judge(*t);
	if (g_max_running > 2) mc::fail("limit", "more tasks ran at once than any limit allowed");
	for (auto &t : ts) t->task.reset();
	shutdown_and_leak_check(base);
}

// while paused, or with no thread allowed, nothing new starts; nothing queued is lost
MC_SCENARIO(paused, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const unsigned how = mc::choose(2), w = 1 + mc::choose(2);
	TaskMaster::set_thread_count(w);
	auto ts = many(3);
	mc::set_points_enabled(true);
	request(ts[0].get(), "run", [&]() { ts[0]->task->run(); });
	if (how == 0) TaskMaster::pause(true); else TaskMaster::set_thread_count(0);
	const int was_running = g_running; (void)was_running;
	size_t started = 0; for (auto &t : ts) started += t->execs.size();
	if (how == 1 && g_running) mc::fail("limit", "a task runs after the thread count became 0");
	if (how == 1 && TaskMaster::get_thread_count()) mc::fail("limit", "worker left after the thread count became 0");
	request(ts[1].get(), "run", [&]() { ts[1]->task->run(); });
	request(ts[2].get(), "idle", [&]() { ts[2]->task->idle(); });
	mc::wait_quiescent();
	if (how == 0 ? ts[1]->execs.size() + ts[2]->execs.size() > w : ts[1]->execs.size() + ts[2]->execs.size() > 0) mc::fail("ran-while-paused", "a task started while the pool was paused");
	if (how == 0) { if (TaskMaster::get_thread_count()) mc::fail("paused-worker", "workers still exist while paused and idle"); TaskMaster::pause(false); } else TaskMaster::set_thread_count(w);
	mc::wait_quiescent();
	for (auto &t : ts) { judge(*t); t->task.reset(); }
	shutdown_and_leak_check(base);
}

// limit on concurrency holds for every count, with tasks that block
MC_SCENARIO(limit, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const unsigned w = 1 + mc::choose(3), w2 = mc::choose(4);
	TaskMaster::set_thread_count(w);
	int gate = 0, waiting = 0;
	auto ts = many(4, [&](T *, int) { ++waiting; mc::block_until([&]() { return gate > 0; }, "gate"); --waiting; });
	for (auto &t : ts) request(t.get(), "run", [&]() { t->task->run(); });
	mc::set_points_enabled(true);
	mc::wait_quiescent();
	mc::compared();
	if (g_running != int(min(w, 4u))) mc::fail("limit", to_string(g_running) + " tasks run with " + to_string(w) + " threads allowed");
	bool set_done = false;
	thread ctl([&]() { TaskMaster::set_thread_count(w2); set_done = true; if (g_running > int(w2)) mc::fail("limit", "set_thread_count returned with more tasks running than allowed"); });
	mc::wait_quiescent();
	if (w2 >= w && !set_done) mc::fail("blocked", "raising the thread count did not return");
	if (w2 >= w && g_running != int(min(w2, 4u))) mc::fail("limit", to_string(g_running) + " tasks run after raising the limit to " + to_string(w2));
	g_max_running = 0;
	gate = 1;
	mc::wait_quiescent();
	if (!set_done) mc::fail("blocked", "set_thread_count did not return after tasks ended");
	ctl.join();
	if (w2 == 0) TaskMaster::set_thread_count(1);
	mc::wait_quiescent();
	for (auto &t : ts) { judge(*t); t->task.reset(); }
	shutdown_and_leak_check(base);
}

// cancellation under load
MC_SCENARIO(cancel, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const unsigned w = 1 + mc::choose(2), style = mc::choose(5);
	TaskMaster::set_thread_count(w);
	bool cancelled = false;
	size_t starts_after = 0;
	vector<shared_ptr<T>> ts;
	ts = many(3, [&](T *t, int i) {
		if (cancelled) ++starts_after;
		if (i == 0 && style == 1 && t->execs.size() < 3) Task::current_task().run();
		if (i == 0 && style == 2 && t->execs.size() < 3) Task::current_task().idle();
		if (i == 0 && style == 3) Task::current_task().append(*ts[2]->task);
		if (i == 0 && style == 4) ts[2]->task->run();
	});
	mc::set_points_enabled(true);
	ts[0]->task->run();
	thread sub([&]() { ts[1]->task->run(); ts[2]->task->idle(); });
	TaskMaster::cancel();
	cancelled = true;
	mc::log("[%u] cancelled", mc::self());
	sub.join();
	mc::wait_quiescent();
	TaskMaster::set_thread_count(0);
	const size_t seen = starts_after;
	if (seen > w) mc::fail("ran-after-cancel", to_string(seen) + " tasks started after cancel with " + to_string(w) + " workers");
	starts_after = 0;
	// tasks whose destruction schedules other tasks
	{
		Barrier bar;
		bar.insert_task(*ts[0]->task);
		Task first("first", [&starts_after]() { ++starts_after; });
		Task second("second", [bar, &starts_after]() { ++starts_after; });
		first.append(second);
		first.run();
	}
	for (auto &t : ts) { t->task->run(); t->task->idle(); }
	{ Task late("late", [&]() { ++starts_after; }); late.run(); Task later("later", [&]() { ++starts_after; }); later.idle(); late.append(later); }
	mc::wait_quiescent();
	if (starts_after) mc::fail("ran-after-cancel", "a task scheduled after cancel ran");
	if (TaskMaster::get_queue_count()) mc::fail("queue-after-cancel", "queue not empty after cancel");
	for (auto &t : ts) t->task.reset();
	mc::wait_quiescent();
	mc::compared();
	if (Task::instance_count() != base) mc::fail("task-leak", "tasks still exist after cancel and release of all references");
}

// load tracking: the number of workers follows the load within the configured limits
MC_SCENARIO(load, THREADED)
{
	mc::set_delay_bounded(true);
	mc::set_points_enabled(false);
	const unsigned maxw = 1 + mc::choose(3), minw = mc::choose(maxw + 1);
	const double target = mc::flip() ? 2.0 : 1.0;
	static const double menu[] = { 0.0, 1.0, 2.5, 9.0 };
	const int K = int(mc::param("ticks", 4));
	g_load_script.push_back(menu[mc::choose(4)]);
	for (int i = 0; i < K; ++i) g_load_script.push_back(menu[mc::choose(4)]);
	TaskMaster::set_thread_count(maxw);
	TaskMaster::set_thread_min_count(minw);
	TaskMaster::set_loadavg_target(target);
	// keep work in the queue so that workers are wanted
	vector<shared_ptr<T>> ts = many(4, [&](T *t, int) { mc::sleep_ns(1000000000); if (t->execs.size() < 2000) Task::current_task().run(); });
	for (auto &t : ts) t->task->run();
	for (int i = 0; i < K + 1; ++i) {
		mc::sleep_ns(5000000000ull);
		const size_t n = TaskMaster::get_thread_count();
		mc::log("tick %d load %.1f workers %zu", i, g_load[0], n);
		mc::outcome(n);
		if (n > maxw) mc::fail("limit", to_string(n) + " workers with maximum " + to_string(maxw));
		mc::compared();
	}
	// a lasting low load leads to the maximum, a lasting high load to the minimum
	const bool low = mc::flip();
	g_load_script = { low ? 0.0 : 50.0 };
	mc::sleep_ns(100 * 1000000000ull);
	const size_t n = TaskMaster::get_thread_count();
	mc::compared();
	if (low && n != maxw) mc::fail("load-low", "load stays below target but only " + to_string(n) + " of " + to_string(maxw) + " workers");
	if (!low && n != minw) mc::fail("load-high", "load stays above target but " + to_string(n) + " workers instead of the minimum " + to_string(minw));
	mc::finish();
}

// ---- C16
MC_SCENARIO(exclusion, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const int N = int(mc::param("tasks", 2)), W = int(mc::param("workers", 2));
	TaskMaster::set_thread_count(size_t(W));
	struct L { Exclusion ex; int holders = 0; };
	auto l1 = make_shared<L>(), l2 = make_shared<L>();
	vector<int> done(static_cast<size_t>(N), 0), attempts(static_cast<size_t>(N), 0);
	const unsigned style = mc::choose(5);
	{
	vector<Task> tasks;
	for (int i = 0; i < N; ++i) {
		tasks.push_back(Task(string(1, char('A' + i)), [&, i]() {
			const size_t k = size_t(i);
			if (++attempts[k] > 50) mc::fail("livelock", "task retries without progress");
			mc::log("[%u] %c tries", mc::self(), 'A' + i);
			L *first = (style == 3 && (i & 1)) ? l2.get() : l1.get();
			L *second = first == l1.get() ? l2.get() : l1.get();
			auto lock = first->ex.try_lock(Task::current_task());
			if (!lock) { mc::log("[%u] %c defers", mc::self(), 'A' + i); return; }
			if (first->holders++) mc::fail("not-exclusive", "two tasks hold the exclusion lock");
			mc::point();
			if (style == 2 || style == 3) {
				auto lock2 = second->ex.try_lock(Task::current_task());
				if (!lock2) { mc::log("[%u] %c defers on second", mc::self(), 'A' + i); --first->holders; return; }
				if (second->holders++) mc::fail("not-exclusive", "two tasks hold the second exclusion lock");
				mc::point();
				++done[k];
				--second->holders; --first->holders;
				return;
			}
			++done[k];
			mc::log("[%u] %c done", mc::self(), 'A' + i);
			--first->holders;
			if (style == 1) { lock.release(); if (lock) mc::fail("released", "released lock claims to be held"); mc::point(); }
			if (style == 4 && done[k] < 2) Task::current_task().run();   // go again while still holding
		}));
	}
	mc::set_points_enabled(true);
	for (auto &t : tasks) t.run();
	}
	mc::wait_quiescent();
	mc::compared();
	for (int i = 0; i < N; ++i) {
		const int want = style == 4 ? 2 : 1;
		mc::outcome(uint64_t(attempts[size_t(i)]));
		if (done[size_t(i)] < want) mc::fail("waiter-lost", string("task ") + char('A' + i) + " still waits for a lock nobody holds");
		if (done[size_t(i)] > want) mc::fail("extra-run", string("task ") + char('A' + i) + " ran more often than asked");
	}
	// free again
	auto l = l1->ex.try_lock(Task("probe", [](){}));
	if (!l) mc::fail("stuck", "lock is still held when the pool is idle");
	l.release();
	shutdown_and_leak_check(base);
}

// ---- C17
MC_SCENARIO(barrier, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	const int N = int(mc::param("holders", 2));
	TaskMaster::set_thread_count(size_t(mc::param("workers", 1)));
	T a, b, c, d; a.name = "A"; b.name = "B"; c.name = "C"; d.name = "D";
	vector<T *> all{&a, &b};
	a.task = make_shared<Task>(make(&a, []() {}));
	b.task = make_shared<Task>(make(&b, []() {}));
	int holders = N + 1;
	for (T *t : all) t->reqs.push_back({++clk, ~0ull});
	auto body_check = [&]() { };
	(void)body_check;
	auto bar = make_shared<Barrier>();
	const unsigned pat = mc::choose(5), how = mc::choose(2);
	if (pat == 4) {
		for (T *t : {&c, &d}) { t->task = make_shared<Task>(make(t, []() {})); t->reqs.push_back({++clk, ~0ull}); all.push_back(t); }
	}
	vector<thread> th;
	uint64_t last_release = 0;
	auto drop = [&](shared_ptr<Barrier> &mine) {
		--holders; last_release = ++clk;
		mc::log("[%u] drops holder, %d left", mc::self(), holders);
		if (how) mine->release(); else mine.reset();
	};
	mc::set_points_enabled(true);
	vector<shared_ptr<Barrier>> copies;
	for (int i = 0; i < N; ++i) copies.push_back(make_shared<Barrier>(*bar));
	for (int i = 0; i < N; ++i) {
		auto mine = copies[size_t(i)];
		copies[size_t(i)].reset();
		th.emplace_back([&, mine, i]() mutable {
			if (pat == 1 && i == 0) mine->insert_task(*a.task);
			if (pat == 2) mine->insert_task(i ? *b.task : *a.task);
			if (pat == 3) { mine->insert_task(*a.task); Barrier copy(*mine); mc::point(); copy.insert_task(*b.task); }
			drop(mine);
		});
		mine.reset();
	}
	if (pat == 0) { bar->insert_task(*a.task); bar->insert_task(*b.task); bar->insert_task(*a.task); }
	if (pat == 4) for (T *t : {&d, &a, &c, &b}) bar->insert_task(*t->task);
	if (pat == 1) bar->insert_task(*b.task);
	if (pat == 2 && N < 2) bar->insert_task(*b.task);
	drop(bar);
	for (auto &t : th) t.join();
	mc::wait_quiescent();
	mc::compared();
	for (T *t : all) {
		if (t->execs.size() != 1) mc::fail(t->execs.empty() ? "waiter-lost" : "extra-run", t->name + " ran " + to_string(t->execs.size()) + " times");
		if (t->execs[0].begin < last_release) mc::fail("early-release", t->name + " ran while the barrier was still held");
	}
	for (T *t : all) t->task.reset();
	shutdown_and_leak_check(base);
}

// a barrier released by tasks running in the pool, with waiters that use barriers themselves
MC_SCENARIO(barrier_tasks, THREADED)
{
	const size_t base = Task::instance_count();
	mc::set_points_enabled(false);
	TaskMaster::set_thread_count(size_t(mc::param("workers", 2)));
	T f; f.name = "F";
	f.task = make_shared<Task>(make(&f, []() {}));
	int done = 0;
	const bool rearm = mc::flip();
	{
		Barrier bar;
		mc::set_points_enabled(true);
		for (int i = 0; i < 2; ++i) {
			Task w("W" + to_string(i), [&, bar]() mutable { mc::point(); ++done; });
			w.run();
		}
		bar.insert_task(*f.task);
		if (rearm) bar.insert_task(*f.task);
		f.reqs.push_back({++clk, ~0ull});
	}
	mc::wait_quiescent();
	mc::compared();
	if (done != 2) mc::fail("lost-run", "worker task did not run");
	if (f.execs.size() != 1) mc::fail(f.execs.empty() ? "waiter-lost" : "extra-run", "task behind the barrier ran " + to_string(f.execs.size()) + " times");
	f.task.reset();
	shutdown_and_leak_check(base);
}
