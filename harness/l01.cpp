#include "vp.h"
#include "srtc/scheduler.h"
#include <memory>
#include <vector>
using namespace srtc;
// Operations on the scheduler of an event loop: submit, cancel, reschedule, wait and run, in any order, directly or through scoped schedulers;
// tasks may submit, cancel or reschedule others when they run.
namespace {
constexpr int64_t kMs = 1000000;
struct T { std::weak_ptr<Task> h; int64_t due = 0; int state = 0; int scope = 0; int runs = 0; int act = 0; int target = -1; int64_t d = 0; }; // state 1 pending 2 done 3 cancelled
struct W {
    std::shared_ptr<LoopScheduler> loop = std::make_shared<LoopScheduler>();
    std::unique_ptr<ScopedScheduler> scope[2];
    T t[12]; int n = 0; int64_t lastDue = 0; bool running = false;
    Scheduler& s(int k) { return k == 0 ? (Scheduler&)*loop : *scope[k - 1]; }
    int submit(int k, int64_t ms)
    {
        int i = n++;
        t[i].scope = k; t[i].due = vp_clock_ns + ms * kMs; t[i].state = 1;
        t[i].h = s(k).submit(std::chrono::milliseconds(ms), __FILE__, __LINE__, [this, i] { fire(i); });
        return i;
    }
    void cancel(int i) { Task::cancelHelper(t[i].h); if (t[i].state == 1) t[i].state = 3; }
    void update(int i, int64_t ms)
    {
        if (t[i].state != 1) return;
        auto p = t[i].h.lock();
        vp_assert(p != nullptr, "a pending task can be reached through its handle");
        t[i].h = p->update(std::chrono::milliseconds(ms));
        t[i].due = vp_clock_ns + ms * kMs;
    }
    void fire(int i)
    {
        vp_assert(running, "tasks run inside run()");
        vp_assert(t[i].state != 3, "a cancelled task does not run");
        vp_assert(t[i].state == 1, "a task runs once");
        vp_assert(t[i].due <= vp_clock_ns, "a task does not run before its time");
        for (int k = 0; k < n; k++) if (t[k].state == 1) vp_assert(t[i].due <= t[k].due, "tasks run in order of due time");
        t[i].state = 2; t[i].runs++;
        vp_reach("ran");
        if (t[i].act == 1) submit(t[i].scope, t[i].d);
        if (t[i].act == 2) cancel(t[i].target);
        if (t[i].act == 3) update(t[i].target, t[i].d);
    }
    bool timeouts = false;
    void checkTimeout()
    {
        if (!timeouts) return;
        int64_t best = -1; bool any = false;
        for (int k = 0; k < n; k++) if (t[k].state == 1 && (!any || t[k].due < best)) { best = t[k].due; any = true; }
        int to = loop->getTimeoutMillis(777);
        if (!any) vp_assert(to == 777, "no task, default timeout");
        else { int64_t d = best - vp_clock_ns; if (d < 0) d = 0; vp_assert((int64_t)to * kMs <= d && (int64_t)(to + 1) * kMs > d, "the timeout is the time to the next task"); }
    }
    void run()
    {
        running = true; loop->run(); running = false;
        for (int k = 0; k < n; k++) vp_assert(t[k].state != 1 || t[k].due > vp_clock_ns, "every due task has run");
    }
};
}
HARNESS(l01)
{
    vp_clock_ns = 1000 * kMs;
    W w;
    const int steps = (int)vp_param("steps", 4), scoped = (int)vp_param("scoped", 0);
    w.scope[0] = std::make_unique<ScopedScheduler>(w.loop);
    w.scope[1] = std::make_unique<ScopedScheduler>(w.loop);
    auto delay = [&] { return (int64_t)vp_range(0, 100000, "delay"); };
    auto wait = [&] { vp_clock_ns += (int64_t)vp_range(0, 100000, "wait") * kMs; };
    w.submit(scoped, delay());
    for (int i = 0; i < steps; i++) {
        int op = (int)vp_choose(scoped ? 5 : 4, "op");
        if (op == 0) w.submit(scoped ? 1 + (int)vp_choose(2, "scope") : 0, delay());
        if (op == 1) w.cancel((int)vp_choose(w.n, "which"));
        if (op == 2) w.update((int)vp_choose(w.n, "which"), delay());
        if (op == 3) { wait(); w.run(); }
        if (op == 4) { // a scope ends, its tasks never run
            int k = 1 + (int)vp_choose(2, "scope");
            w.scope[k - 1].reset();
            for (int j = 0; j < w.n; j++) if (w.t[j].scope == k && w.t[j].state == 1) w.t[j].state = 3;
            w.scope[k - 1] = std::make_unique<ScopedScheduler>(w.loop);
        }
        w.checkTimeout();
    }
    vp_clock_ns += 300000 * kMs;
    w.run();
    for (int k = 0; k < w.n; k++) vp_assert(w.t[k].state != 1 && w.t[k].runs == (w.t[k].state == 2 ? 1 : 0), "every task ran once or was cancelled");
    vp_assert(w.loop->getTimeoutMillis(5) == 5, "nothing is left");
    vp_reach("done");
}
// tasks which act on other tasks while they run
HARNESS(l01_nested)
{
    vp_clock_ns = 1000 * kMs;
    W w;
    const int scoped = (int)vp_param("scoped", 0), n = (int)vp_param("n", 3);
    w.scope[0] = std::make_unique<ScopedScheduler>(w.loop);
    w.scope[1] = std::make_unique<ScopedScheduler>(w.loop);
    for (int i = 0; i < n; i++) w.submit(scoped, (int64_t)vp_range(0, 100000, "delay"));
    int a = (int)vp_choose(n, "actor");
    w.t[a].act = 1 + (int)vp_choose(3, "act");
    w.t[a].target = (int)vp_choose(n, "target");
    if (w.t[a].target == a) vp_end();
    w.t[a].d = (int64_t)vp_range(0, 100000, "d");
    for (int r = 0; r < 2; r++) { static const int64_t waits[] = {0, 400, 50000}; vp_clock_ns += waits[vp_choose(3, "wait")] * kMs + 999999; w.run(); w.checkTimeout(); }
    vp_clock_ns += 400000 * kMs;
    w.run();
    vp_clock_ns += 400000 * kMs;
    w.run();
    for (int k = 0; k < w.n; k++) vp_assert(w.t[k].state != 1, "every task ran or was cancelled");
    vp_reach("done");
}
// the time to the next task
HARNESS(l01_timeout)
{
    vp_clock_ns = 1000 * kMs;
    W w; w.timeouts = true;
    static const int64_t ms[] = {0, 1, 7, 5000};
    const int n = (int)vp_param("n", 3), sym = (int)vp_choose(n, "sym");
    int64_t d = (int64_t)vp_range(0, 100000, "delay");
    w.checkTimeout();
    for (int i = 0; i < n; i++) { w.submit(0, i == sym ? d : ms[vp_choose(4, "ms")]); w.checkTimeout(); }
    static const int64_t ns[] = {0, 1, 999999, 1000000, 6999999, 7000001};
    for (int i = 0; i < 2; i++) {
        vp_clock_ns += ns[vp_choose(6, "ns")]; w.checkTimeout();
        if (i == 0) { w.cancel(0); w.checkTimeout(); }
        w.run(); w.checkTimeout();
    }
    vp_reach("done");
}
