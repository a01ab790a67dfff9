// C28: threads are bounded, are returned when idle and nothing spins.
#include "common.h"
#include <sys/socket.h>
#include <unistd.h>
#include <vector>
using namespace h;

namespace {
const int kR = 4, kT = 3, kA = 8, kH = 6;
enum Kind { BURST, SERIAL, APPLY, TREE, GROUPWAIT, AFTER, TIMER, NOTIFIER, SIGNAL, WAITABLE, NOTIFY, KINDS };
const char* const kName[KINDS] = { "burst", "serial queues", "apply", "tree", "group waits", "after", "timer", "notifier", "signal", "waitable queue", "notify" };
enum Rest { R_DROP, R_SUSPEND, R_CANCEL, R_KEEP, RESTS };
const char* const kRest[RESTS] = { "dropped suspended", "suspended", "cancelled", "left running" };

struct C28;
C28* C;

struct C28 : Case
{
    struct Act { uint8_t kind, n, prio, rest, ready; uint16_t ms, interval; bool own; };
    uint32_t K, nr, nt, na[kR][kT], settle[kR];
    bool plain[kR];
    Act act[kR][kT][kA];
    int todo, done, inside, peak, live_peak, fired;
    bool lburst, lidle, lkeep, lblock;
    struct Objects { std::vector<timer> t; std::vector<socket_notifier> n; };
    Objects* keep;
    int kept_timers, kept_notifiers, fastest;

    void generate(Gen& g, xs::Config& c) override
    {
        C = this;
        K = g.range(1, 3);
        thread_count(K);
        c.jump_p = 0;
        c.freeze_ms = 0;
        c.step_limit = 3000000;
        nr = g.range(1, g.big ? kR : 3);
        xs::desc("threads=%u", K);
        fastest = 1000000;
        for (uint32_t r = 0; r < nr; ++r) {
            plain[r] = g.chance(1, 2);
            settle[r] = g.pick(3);
            nt = kT;
            xs::desc("; round %u%s%s", r, plain[r] ? " (nothing blocks)" : "", settle[r] == 0 ? " idle" : settle[r] == 1 ? "" : " short");
            for (uint32_t t = 0; t < kT; ++t) {
                na[r][t] = t ? g.small(4) : g.range(1, 5);
                if (na[r][t]) xs::desc(" T%u:", t);
                for (uint32_t i = 0; i < na[r][t]; ++i) {
                    Act& a = act[r][t][i];
                    a.kind = g.pick(plain[r] ? (uint32_t)APPLY : (uint32_t)KINDS);
                    a.n = g.range(1, a.kind == BURST || a.kind == SERIAL ? 12 : 5);
                    a.prio = g.pick(4);
                    a.ms = (uint16_t)g.of({ 0, 1, 7, 40 });
                    a.interval = (uint16_t)g.of({ 1000, 2500, 700 });
                    a.rest = g.pick(RESTS);
                    // more often than every 30 s it would keep the pool's threads from ending
                    if (a.rest == R_KEEP && a.kind == TIMER) a.interval = 45000;
                    a.ready = g.pick(3);
                    a.own = g.chance(1, 2);
                    xs::desc(" %s/%u n%u ms%u", kName[a.kind], a.prio, a.n, a.ms);
                    if (a.kind == TIMER) xs::desc(" every %u, %s", a.interval, kRest[a.rest]);
                    if (a.kind == NOTIFIER) xs::desc(" ready%u, %s", a.ready, kRest[a.rest]);
                }
            }
        }
    }
    // a part of an operation which occupies a thread and does not block in the library
    void busy(uint32_t ms)
    {
        if (++inside > peak) peak = inside;
        int n = xs::thread_count();
        if (n > live_peak) live_peak = n;
        if (ms) xs::sleep_ms(ms);
        else xs::point();
        --inside;
    }
    void end() { ++done; }
    void tree(uint32_t depth, uint32_t n, uint32_t prio, uint32_t ms)
    {
        busy(ms);
        if (depth)
            for (uint32_t i = 0; i < n; ++i) { ++todo; global_queue(kPrios[prio]).async([=] { C->tree(depth - 1, n, (prio + 1) & 3, ms); C->end(); }); }
    }
    queue target(const Act& a) { return a.own ? naive_serial("own", kPrios[a.prio]) : global_queue(kPrios[a.prio]); }
    void issue(const Act& a)
    {
        const uint32_t ms = a.ms, n = a.n;
        if (a.kind > SERIAL) lblock = true;
        switch (a.kind) {
            case BURST:
                if (n > 4 * K) lburst = true;
                for (uint32_t i = 0; i < n; ++i) { ++todo; global_queue(kPrios[(a.prio + (a.own ? i : 0)) & 3]).async([ms] { C->busy(ms); C->end(); }); }
                break;
            case SERIAL: {
                queue q("serial", kPrios[a.prio]);
                for (uint32_t i = 0; i < n; ++i) {
                    ++todo;
                    if (a.own) { queue x("serial", kPrios[a.prio]); x.async([ms] { C->busy(ms); C->end(); }); }
                    else q.async([ms] { C->busy(ms); C->end(); });
                }
                break;
            }
            case APPLY: {
                ++todo;
                const uint32_t prio = a.prio;
                auto f = [ms, n, prio] { global_queue(kPrios[prio]).apply(n, [ms](size_t) { C->busy(ms); }); C->end(); };
                if (a.own) global_queue(kPrios[prio]).async(f);
                else f();
                break;
            }
            case TREE: {
                ++todo;
                const uint32_t p = a.prio;
                const bool apply = a.own;
                global_queue(kPrios[p]).async([=] {
                    if (apply) global_queue(kPrios[p]).apply(2, [=](size_t) { C->tree(1, n > 3 ? 3 : n, p, ms); });
                    else C->tree(2, n > 3 ? 3 : n, p, ms);
                    C->end();
                });
                break;
            }
            case GROUPWAIT: {
                const uint32_t p = a.prio;
                for (uint32_t i = 0; i < n; ++i) {
                    ++todo;
                    global_queue(kPrios[p]).async([=] {
                        group g;
                        for (uint32_t k = 0; k < 2; ++k) g.async([ms] { C->busy(ms); }, kPrios[(p + k) & 3]);
                        if (ms == 7) g.wait(milliseconds(3));
                        else g.wait();
                        C->end();
                    });
                }
                break;
            }
            case AFTER:
                for (uint32_t i = 0; i < n; ++i) { ++todo; target(a).after(milliseconds(ms * (i + 1)), [ms] { C->busy(ms); C->end(); }); }
                break;
            case TIMER: {
                timer t(milliseconds(a.interval), target(a));
                t.handler([ms] { ++C->fired; C->busy(ms); });
                t.resume(milliseconds(ms));
                if (a.own) xs::sleep_ms(a.interval > 3000 ? 500 : a.interval / 2);
                if (a.rest == R_CANCEL) t.cancel();
                else if (a.rest != R_KEEP) t.suspend();
                else if (kept_timers + kept_notifiers >= kH) t.cancel();
                else { ++kept_timers; if (a.interval < fastest) fastest = a.interval; }
                if (a.rest != R_DROP) { std::lock_guard<std::mutex> l(*m); keep->t.push_back(t); }
                break;
            }
            case NOTIFIER: {
                int sv[2];
                if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) xs::inconclusive("socketpair");
                socket_notifier s(sv[0], notifier_type::READ, target(a));
                s.handler([ms](socket_t fd, notifier_type) { char c; ++C->fired; if (read((int)fd, &c, 1) < 0) { } C->busy(ms); });
                s.resume();
                if (a.ready) { for (int i = 0; i < 3; ++i) if (write(sv[1], "x", 1) != 1) xs::inconclusive("write"); xs::io_changed(); }
                if (a.own) xs::sleep_ms(ms + 1);
                if (a.rest == R_KEEP && kept_timers + kept_notifiers < kH) ++kept_notifiers;
                else if (a.rest == R_CANCEL || a.rest == R_KEEP) s.cancel();
                else s.suspend();
                // remains readable although nobody is interested
                if (a.ready == 2 && a.rest != R_KEEP) { if (write(sv[1], "x", 1) != 1) xs::inconclusive("write"); xs::io_changed(); }
                if (a.rest != R_DROP) { std::lock_guard<std::mutex> l(*m); keep->n.push_back(s); }
                break;
            }
            case SIGNAL: {
                signal<void(int)> s;
                auto c1 = s.connect([ms](int) { C->busy(ms); }, target(a));
                auto c2 = s.connect([ms](int) { C->busy(ms); }, target(a), notification_mode::batch_updates);
                for (uint32_t i = 0; i < n; ++i) s((int)i);
                break;
            }
            case WAITABLE: {
                waitable_queue w("w", kPrios[a.prio]);
                for (uint32_t i = 0; i < n; ++i) { ++todo; w.async([ms] { C->busy(ms); C->end(); }); }
                if (a.own) w.wait_for_all();
                else if (n & 1) w.wait_for_one();
                break;
            }
            case NOTIFY: {
                group g;
                for (uint32_t i = 0; i < n; ++i) g.async([ms] { C->busy(ms); }, kPrios[(a.prio + i) & 3]);
                for (uint32_t i = 0; i < n; ++i) { ++todo; g.notify([] { C->busy(0); C->end(); }, target(a)); }
                break;
            }
        }
    }
    std::mutex* m;
    struct Sub { uint32_t r, t; void operator()() { for (uint32_t i = 0; i < C->na[r][t]; ++i) C->issue(C->act[r][t][i]); } };
    Sub sub[kT];
    Thread th[kT];
    void run() override
    {
        keep = new Objects;
        m = new std::mutex;
        // main, the manager of queues
        const int base = 2;
        for (uint32_t r = 0; r < nr; ++r) {
            peak = 0;
            live_peak = 0;
            const int before = kept_timers + kept_notifiers;
            for (uint32_t t = 0; t < kT; ++t) {
                sub[t].r = r;
                sub[t].t = t;
                if (t && na[r][t]) th[t].start(&sub[t]);
            }
            sub[0]();
            for (uint32_t t = 1; t < kT; ++t) th[t].join();
            xs::quiesce_ms(3000);
            if (done != todo) xs::fail("lost", "%d of %d operations completed", done, todo);
            const bool fresh = r == 0 || settle[r - 1] == 0;
            if (plain[r] && before == 0 && fresh) {
                if (peak > 2 * (int)K) xs::fail("too-many", "%d operations executed at the same time by a pool of %u threads", peak, 2 * K);
                if (live_peak > base + kT - 1 + 2 * (int)K) xs::fail("threads", "%d threads exist while operations which do not block are executed by a pool of %u", live_peak, 2 * K);
            }
            if (settle[r] == 2) continue; // next round at once
            if (settle[r] == 1) { xs::quiesce_ms(12000); continue; }
            // idle threads end
            xs::quiesce_ms(70000);
            lidle = true;
            // each firing of a timer may keep one more thread of the pool for 30 s
            const int expected = base + kept_timers + kept_notifiers + kept_timers;
            const int live = xs::thread_count();
            if (live > expected) xs::fail("idle-threads", "%d threads exist after being idle for more than a minute, %d needed (%d timers, %d notifiers running)", live, expected, kept_timers, kept_notifiers);
            if (int z = xs::zombie_count()) xs::fail("leaked-threads", "%d threads ended but have never been joined", z);
            // nothing consumes CPU time
            const uint32_t s = 600;
            const uint64_t steps = xs::steps();
            xs::quiesce_ms(1000 * s);
            const uint64_t used = xs::steps() - steps;
            const uint64_t allowed = 500 + (uint64_t)kept_notifiers * (s / 5 + 1) * 300 + (kept_timers ? (uint64_t)kept_timers * (s * 1000 / (uint32_t)fastest + 1) * 4500 : 0);
            if (used > allowed) xs::fail("spin", "%llu steps within %u s although idle, %llu expected at most (%d timers, %d notifiers running)", (unsigned long long)used, s, (unsigned long long)allowed, kept_timers, kept_notifiers);
            if (kept_timers + kept_notifiers) lkeep = true;
        }
        if (lidle) xs::label(0);
        if (lburst) xs::label(1);
        if (lkeep) xs::label(2);
        if (lblock) xs::label(3);
    }
};
} // namespace
PROPERTY("C28", C28, "1-4 rounds in each of which up to 3 threads submit bursts, serial queues, applies, trees, group waits, delayed operations, timers, notifiers, signals, waitable queues and notifications, after which timers and notifiers are dropped, suspended, cancelled or left running; the number of operations executed at the same time and of existing threads is observed during rounds, threads and steps used while idle afterwards; non-trivial: the idle state was reached and observed", "more operations than threads", "timers or notifiers left running", "blocking operations")
