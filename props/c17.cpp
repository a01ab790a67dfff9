// C17: barriers and barrier operations.
#include "common.h"
#include "scale.h"
#include <xdispatch/impl/lightweight_barrier.h>
#include <mutex>
using namespace h;

namespace {
const int kB = 5, kT = 7, kA = 8;
struct C17 : Case
{
    enum { WAIT, POLL, COMPLETE, SLEEP, OWN };
    enum { LIGHT, BAROP, QUEUED, KINDS };
    struct Act { uint8_t kind, id; int64_t n; };
    struct Bar
    {
        uint8_t kind, q;
        lightweight_barrier* light;
        std::shared_ptr<barrier_operation>* op;
        uint64_t begin, end;   // first complete to begin, first one to end
        double end_t;
        int completes, waiters, maxwaiters;
        uint64_t seen;         // seen complete
        int* data;             // written before completing
        int ncompleters;       // threads completing it in the program
    } bar[kB];
    struct Own { lightweight_barrier* b; xs::Gate ready; int* data; volatile bool taken; };
    uint32_t nb, nt, nact[kT], K;
    bool exact, lmany, ltimeout, lblocked, lown, lhuge;
    Act act[kT][kA];
    Own own[kT];
    queue* q[2];
    BigWait big[2];

    void generate(Gen& g, xs::Config& c) override
    {
        K = g.range(1, 3);
        thread_count(K);
        exact = g.chance(1, 2);
        if (exact) { c.jump_p = 0; c.freeze_ms = 0; }
        nb = g.range(1, kB);
        xs::desc("%sbarriers:", exact ? "exact time " : "");
        for (uint32_t i = 0; i < nb; ++i) {
            bar[i].kind = g.pick(KINDS);
            bar[i].q = g.pick(2);
            static const char* const n[] = { "barrier", "operation", "queued" };
            xs::desc(" %s", n[bar[i].kind]);
        }
        nt = g.range(2, g.big ? kT : 5);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kA : 5);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                uint32_t w = g.pick(16);
                a.id = g.pick(nb);
                if (w < 8) {
                    a.kind = WAIT;
                    static const int64_t to[] = { -1, -1, 0, 1, 10, 100, INT64_MAX, INT64_MAX / 2, 10000000000000ll, INT64_MAX / 1000000, INT64_MAX / 1000000 + 1 };
                    a.n = g.of(to);
                    if (a.n > 1000) lhuge = true;
                    xs::desc(" wait(%lld) b%u", (long long)a.n, a.id);
                } else if (w < 10) { a.kind = POLL; xs::desc(" poll b%u", a.id); }
                else if (w < 12) { a.kind = COMPLETE; bar[a.id].ncompleters++; xs::desc(" complete b%u", a.id); }
                else if (w < 14) { a.kind = SLEEP; a.n = g.of({ 1, 5, 20, 150 }); xs::desc(" sleep%d", (int)a.n); }
                else { a.kind = OWN; a.n = g.of({ -1, 5, 100 }); lown = true; xs::desc(" own-barrier(%d)", (int)a.n); }
            }
        }
        big[0].gen(g);
        big[1].gen(g);
    }
    bool do_wait(Bar& b, int64_t ms)
    {
        milliseconds to(ms);
        return b.kind == LIGHT ? b.light->wait(to) : (*b.op)->wait(to);
    }
    bool do_poll(Bar& b) { return b.kind == LIGHT ? b.light->was_completed() : (*b.op)->has_passed(); }
    void released(Bar& b, const char* what)
    {
        uint64_t now = xs::seq();
        if (!b.begin || b.begin > now) xs::fail("not-completed", "%s reports a barrier to be completed which is not", what);
        if (!b.seen) b.seen = now;
        // everything done before completing is visible
        if (b.ncompleters == 1 && *b.data != 42) xs::fail("visibility", "%s does not see what was done before completing", what);
    }
    void complete(Bar& b)
    {
        if (!b.completes++) { if (b.ncompleters == 1) *b.data = 42; b.begin = xs::seq(); }
        switch (b.kind) {
            case LIGHT: b.light->complete(); break;
            case BAROP: (**b.op)(); break;
            case QUEUED: q[b.q]->async(*b.op); return; // ends some time later
        }
        if (!b.end) { b.end_t = xs::now_ms(); b.end = xs::seq(); }
    }
    void wait(Bar& b, int64_t ms)
    {
        uint64_t seen = b.seen, begin = xs::seq(), end = b.end;
        double t = xs::now_ms();
        if (!b.begin) lblocked = true;
        if (++b.waiters > 1) lmany = true;
        bool r = do_wait(b, ms);
        b.waiters--;
        double now = xs::now_ms();
        if (r) {
            released(b, "wait");
            if (exact && b.kind != QUEUED && b.end && now > (b.end_t > t ? b.end_t : t) + 0.5) xs::fail("late", "wait returns %.3f ms after the barrier was completed", now - b.end_t);
        } else {
            ltimeout = true;
            if (ms < 0) xs::fail("timeout", "wait without a timeout returns false");
            if (seen || (end && end < begin)) xs::fail("reopened", "wait for a completed barrier returns false");
            if (now - t < (double)ms - 1e-6) xs::fail("early", "wait(%lld) returns false after %.3f ms", (long long)ms, now - t);
            if (b.end && b.end_t < t + (double)ms - 1e-6) xs::fail("missed", "wait(%lld) returns false although the barrier was completed in time", (long long)ms);
            if (exact && now - t > (double)ms + 0.5) xs::fail("late", "wait(%lld) returns false after %.3f ms", (long long)ms, now - t);
        }
    }
    struct Sub
    {
        C17* c;
        uint32_t t;
        void operator()()
        {
            for (uint32_t i = 0; i < c->nact[t]; ++i) {
                Act& a = c->act[t][i];
                Bar& b = c->bar[a.id];
                switch (a.kind) {
                    case WAIT: c->wait(b, a.n); break;
                    case POLL: {
                        uint64_t seen = b.seen, end = b.end, begin = xs::seq();
                        bool r = c->do_poll(b);
                        if (r) c->released(b, "poll");
                        else if (seen || (end && end < begin)) xs::fail("reopened", "completed barrier reports not to be completed");
                        break;
                    }
                    case COMPLETE: c->complete(b); break;
                    case SLEEP: xs::sleep_ms(a.n); break;
                    case OWN: {
                        // completed by another thread, destroyed once a wait returned true
                        lightweight_barrier* o = new lightweight_barrier;
                        int* d = new int(0);
                        c->q[i & 1]->async([o, d] { *d = 1; o->complete(); });
                        if (a.n >= 0 && !o->wait(milliseconds(a.n)) && !o->wait()) xs::fail("timeout", "wait without a timeout returns false");
                        if (a.n < 0 && !o->wait()) xs::fail("timeout", "wait without a timeout returns false");
                        if (*d != 1) xs::fail("visibility", "own barrier");
                        delete o;
                        delete d;
                        break;
                    }
                }
            }
        }
    };
    void run() override
    {
        q[0] = new queue(naive_serial("s"));
        q[1] = new queue(global_queue());
        for (uint32_t i = 0; i < nb; ++i) {
            Bar& b = bar[i];
            b.light = new lightweight_barrier;
            b.op = new std::shared_ptr<barrier_operation>(std::make_shared<barrier_operation>());
            b.data = new int(0);
            
        }
        Sub subs[kT];
        Thread th[kT];
        for (uint32_t t = 0; t < nt; ++t) { subs[t].c = this; subs[t].t = t; th[t].start(&subs[t]); }
        xs::sleep_ms(400);
        for (uint32_t i = 0; i < nb; ++i) if (!bar[i].completes) { bar[i].ncompleters++; complete(bar[i]); }
        // everything completes now, so every wait ends
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        for (uint32_t i = 0; i < nb; ++i) {
            Bar& b = bar[i];
            if (!b.completes) xs::fail("harness", "not completed");
            wait(b, -1);
            wait(b, 0);
            if (!do_poll(b)) xs::fail("reopened", "completed barrier reports not to be completed");
            if (b.kind != QUEUED) { complete(b); wait(b, 0); }
            delete b.light;
            delete b.op;
        }
        {
            lightweight_barrier* l = new lightweight_barrier;
            big[0].run("barrier wait", [l](milliseconds m) { return l->wait(m); }, [l] { l->complete(); });
            delete l;
            auto o = std::make_shared<barrier_operation>();
            queue* qq = q[1];
            big[1].run("barrier operation wait", [&o](milliseconds m) { return o->wait(m); }, [&o, qq] { qq->async(o); });
        }
        if (lblocked && (lmany || ltimeout)) xs::label(0);
        if (lmany) xs::label(1);
        if (ltimeout) xs::label(2);
        if (lown) xs::label(3);
        if (lhuge) xs::label(4);
        if (exact) xs::label(5);
    }
};
} // namespace
PROPERTY("C17", C17, "2-7 threads wait with and without timeouts (0 ms up to the longest representable), poll and complete up to 5 barriers, barrier operations and queued barrier operations; non-trivial: a wait blocked, and there were several waiters or a wait timed out",
         "several waiters at a time", "wait timed out", "barrier destroyed right after its wait", "huge timeout", "exact time")
