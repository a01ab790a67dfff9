// C08: timer cadence. C09: timer cancellation.
#include "scale.h"
#include <sched.h>
using namespace h;

namespace {
const int kTm = 3, kA = 12, kC = 4, kF = 4000;
struct Timers : Case
{
    enum { RESUME, SUSPEND, SLEEP, INTERVAL, HANDLER, SETTLE, CANCEL, LOAD, NEST };
    struct Act { uint8_t kind; uint16_t ms; };
    struct Tm
    {
        uint8_t q;
        uint16_t interval, dur, dur2;
        uint32_t nact;
        Act act[kA];
        // from within the handler
        uint8_t in_kind, in_at, in_other;
        bool converted; // single shot first
        // observed state
        timer* t;
        volatile bool ctl;
        int active, fired, gen, oldgen_left;
        double resume_t, delay, last, first_t;
        bool running, have_last;
        int depth; // resumes not balanced by a suspend yet
        int budget;
        double minint; // smallest interval which may apply to the next firing
        double winmin; // smallest interval in force since the last firing
        double maxint;
        bool cancelled;
        double cancel_t;
        int incancel;
        int handler_gen;
        int stale;
        Cell* mem;
    };
    bool cancel_focus, exact;
    uint32_t K, nq, ntm, ncan, load_ms;
    uint8_t kind[kTm];
    queue* qs[kTm];
    int active[kTm];
    Cell cell[kTm];
    Tm tm[kTm];
    bool resumed_again, canceled_running, infire, single, changed, nested, scale;
    ManyTimers many;
    uint16_t can_at[kTm][kC];
    uint8_t can_on[kTm][kC];

    void gen(Gen& g, xs::Config& c)
    {
        K = g.range(1, 4);
        thread_count(K);
        scale = g.chance(1, 28);
        if (scale) {
            kind[0] = g.pick(QK_COUNT);
            xs::desc("threads=%u queue %s:", K, kind_name(kind[0]));
            many.gen(g, c);
            return;
        }
        exact = g.chance(3, 4);
        if (exact) c.jump_p = 0;
        c.step_limit = 600000;
        nq = g.range(1, 2);
        xs::desc("threads=%u%s queues:", K, exact ? " exact time" : "");
        for (uint32_t i = 0; i < nq; ++i) { kind[i] = g.pick(QK_COUNT); xs::desc(" %s", kind_name(kind[i])); }
        ntm = g.range(1, g.big ? 3 : 2);
        for (uint32_t k = 0; k < ntm; ++k) {
            Tm& t = tm[k];
            t.q = g.pick(nq);
            static const uint16_t is[] = { 10, 10, 1, 3, 20, 50, 0 };
            t.interval = g.of(is);
            t.maxint = t.interval;
            static const uint16_t ds[] = { 0, 0, 0, 1, 4, 15, 30 };
            t.dur = g.of(ds);
            xs::desc("; timer%u on q%u interval %u handler takes %u:", k, t.q, t.interval, t.dur);
            int run = 0;
            uint32_t n = g.range(1, g.big ? kA - 2 : 7);
            if (t.interval == 0) single = true;
            else if (g.chance(1, 6)) { t.converted = true; xs::desc(" converted"); }
            static const uint16_t dl[] = { 0, 0, 5, 20, 40, 100 };
            t.act[t.nact++] = { RESUME, g.of(dl) };
            xs::desc(" resume(%u)", t.act[0].ms);
            run = 1;
            for (uint32_t i = 1; i < n; ++i) {
                uint32_t what = g.pick(13);
                Act a{};
                if (what < 4) { a.kind = SLEEP; a.ms = g.of({ (uint16_t)0, (uint16_t)1, (uint16_t)5, (uint16_t)10, (uint16_t)25, (uint16_t)60 }); xs::desc(" sleep%u", a.ms); }
                else if (what < 9 && t.interval) {
                    if (run) { a.kind = SUSPEND; xs::desc(" suspend"); --run; }
                    else { a.kind = RESUME; a.ms = g.of(dl); xs::desc(" resume(%u)", a.ms); ++run; }
                } else if (what == 9 && t.interval) { a.kind = INTERVAL; a.ms = g.of({ (uint16_t)5, (uint16_t)10, (uint16_t)30 }); xs::desc(" interval(%u)", a.ms); }
                else if (what == 10) { a.kind = HANDLER; xs::desc(" handler"); }
                else if (what == 11 && !run) { a.kind = SETTLE; xs::desc(" settle"); }
                else if (what == 12 && run) { a.kind = NEST; a.ms = g.of(dl); nested = true; ++run; xs::desc(" nested resume(%u)", a.ms); }
                else { a.kind = LOAD; a.ms = g.of({ (uint16_t)5, (uint16_t)30 }); load_ms += a.ms; xs::desc(" queue busy %u", a.ms); }
                t.act[t.nact++] = a;
            }
            if (cancel_focus) {
                uint32_t in = g.pick(6);
                if (in == 4 && k + 1 < ntm) { t.in_kind = CANCEL; t.in_at = g.range(1, 3); t.in_other = g.range(k + 1, ntm - 1); xs::desc(" cancels timer%u at firing %u", t.in_other, t.in_at); }
                if (in == 3) { t.in_kind = CANCEL; t.in_at = g.range(1, 3); xs::desc(" cancels itself at firing %u", t.in_at); }
            } else if (t.interval) {
                uint32_t in = g.pick(5);
                if (in == 4 && !run) { /* keep balanced */ }
                else if (in == 4) { t.in_kind = SUSPEND; t.in_at = g.range(1, 3); xs::desc(" suspends itself at firing %u", t.in_at); }
            }
        }
        if (cancel_focus) {
            ncan = g.range(1, kC);
            for (uint32_t k = 0; k < ntm; ++k)
                for (uint32_t i = 0; i < ncan; ++i) {
                    can_at[k][i] = g.of({ (uint16_t)10, (uint16_t)0, (uint16_t)1, (uint16_t)30, (uint16_t)50, (uint16_t)100, (uint16_t)5, (uint16_t)10, (uint16_t)11, (uint16_t)20, (uint16_t)40, (uint16_t)80 });
                    can_on[k][i] = g.pick(3);
                    xs::desc("; C%u.%u: cancel at %u%s", k, i, can_at[k][i], can_on[k][i] == 2 ? " and resume" : "");
                }
        }
    }
    // ---- the model of one timer
    void fire(uint32_t k, int gen)
    {
        Tm& t = tm[k];
        double now = xs::now_ms();
        if (t.active++) xs::fail("overlap", "timer %u fires while its handler is still running", k);
        if (is_serial(kind[t.q])) { if (active[t.q]++) xs::fail("overlap-queue", "timer %u fires while another operation of its serial queue runs", k); cell[t.q].bump(); }
        if (t.cancelled) xs::fail("after-cancel", "timer %u fires %.3f ms after cancel returned", k, now - t.cancel_t);
        t.fired++;
        if (t.mem) t.mem->bump();
        if (gen < t.handler_gen && ++t.stale > 1 + t.budget) xs::fail("stale-handler", "timer %u keeps using a handler which was replaced", k);
        bool ok = false;
        if (t.running) ok = t.have_last ? now >= t.last + t.minint - 0.0005 : now >= t.resume_t + t.delay - 0.0005;
        if (t.running && t.have_last && t.interval == 0) ok = false;
        if (ok) {
            if (exact && t.have_last && now - t.last > 2 * (maxint(k) + t.dur + load_ms + others(k)) + 10)
                xs::fail("slow", "timer %u with interval %u fires %.3f ms after the last firing", k, t.interval, now - t.last);
            if (!t.have_last) t.first_t = now;
            t.have_last = true;
            t.last = now;
            // the interval is read before the firing is submitted
            t.minint = t.winmin;
            t.winmin = t.interval;
        } else if (--t.budget < 0) {
            if (!t.running) xs::fail("suspended", "timer %u fires although it is suspended", k);
            else if (!t.have_last) xs::fail("early-first", "timer %u resumed with delay %.0f fires after %.3f ms", k, t.delay, now - t.resume_t);
            else xs::fail("early", "timer %u with interval %.0f fires %.3f ms after the last firing", k, t.minint, now - t.last);
        }
        if (t.dur) xs::sleep_ms(t.dur);
        else xs::point();
        if (t.in_kind && t.fired == t.in_at) {
            infire = true;
            if (t.in_kind == CANCEL) {
                if (t.in_other) {
                    // from outside of its handler
                    Tm& o = tm[t.in_other];
                    if (o.active) canceled_running = true;
                    o.t->cancel();
                    if (o.active) xs::fail("still-running", "cancel of timer %u by the handler of timer %u returned while its handler is running", t.in_other, k);
                    o.cancelled = true;
                    o.cancel_t = xs::now_ms();
                } else {
                    t.t->cancel();
                    t.incancel = 1;
                }
            } else if (t.running) do_suspend(k);
        }
        xs::point();
        if (t.mem) t.mem->bump();
        if (is_serial(kind[t.q])) { cell[t.q].bump(); active[t.q]--; }
        t.active--;
        if (t.incancel == 1) { t.incancel = 2; t.cancelled = true; t.cancel_t = xs::now_ms(); }
    }
    double maxint(uint32_t k) { double m = tm[k].maxint; for (uint32_t i = 0; i < tm[k].nact; ++i) if (tm[k].act[i].kind == INTERVAL && tm[k].act[i].ms > m) m = tm[k].act[i].ms; return m; }
    double others(uint32_t k) { double s = 0; for (uint32_t i = 0; i < ntm; ++i) if (i != k) s += tm[i].dur; return s; }
    // calls changing the state of a timer are made one after the other, or the
    // state expected would be unknown (no synchronization in between)
    void lock(uint32_t k) { while (tm[k].ctl) sched_yield(); tm[k].ctl = true; }
    void unlock(uint32_t k) { tm[k].ctl = false; }
    void do_resume(uint32_t k, uint32_t delay)
    {
        Tm& t = tm[k];
        lock(k);
        if (t.depth++ > 0) {
            t.t->resume(milliseconds(delay));
            unlock(k);
            return;
        }
        t.resume_t = xs::now_ms();
        t.delay = delay;
        t.have_last = false;
        t.minint = t.winmin = t.interval;
        t.running = true;
        t.t->resume(milliseconds(delay));
        unlock(k);
    }
    void do_suspend(uint32_t k)
    {
        Tm& t = tm[k];
        lock(k);
        if (!t.running) { unlock(k); return; }
        if (--t.depth > 0) {
            t.t->suspend();
            unlock(k);
            return;
        }
        // a firing may slip in until suspend returned, and one may be under way
        t.budget++;
        t.t->suspend();
        t.running = false;
        unlock(k);
    }
    void set_handler(uint32_t k)
    {
        Timers* c = this;
        int gen = ++tm[k].gen;
        auto f = [c, k, gen] { c->fire(k, gen); };
        if ((k + gen) % 3) tm[k].t->handler(wrap_handler(k + gen, f));
        else tm[k].t->handler(f);
        tm[k].handler_gen = gen;
        tm[k].stale = 0;
    }
    struct Ctl
    {
        Timers* c;
        uint32_t k;
        void operator()()
        {
            Tm& t = c->tm[k];
            for (uint32_t i = 0; i < t.nact; ++i) {
                Act& a = t.act[i];
                switch (a.kind) {
                    case RESUME: if (!t.running) { if (i) c->resumed_again = true; c->do_resume(k, a.ms); } break;
                    case NEST: if (t.running) c->do_resume(k, a.ms); break;
                    case SUSPEND: if (t.running) c->do_suspend(k); break;
                    case SLEEP: xs::sleep_ms(a.ms); break;
                    case INTERVAL:
                        if (a.ms == 5) c->tm[k].t->latency(timer_precision::COARSE);
                        if (a.ms == 30) c->tm[k].t->latency(timer_precision::PRECISE);
                        if (a.ms < t.minint) t.minint = a.ms;
                        if (a.ms < t.winmin) t.winmin = a.ms;
                        t.interval = a.ms;
                        t.t->interval(milliseconds(a.ms));
                        c->changed = true;
                        break;
                    case HANDLER: c->set_handler(k); break;
                    case SETTLE:
                        xs::sleep_ms(200 + c->load_ms);
                        if (c->exact && !t.running) { if (t.active) xs::fail("stuck", "handler does not end"); t.budget = 0; }
                        break;
                    case LOAD: {
                        uint32_t ms = a.ms, q = t.q;
                        Timers* cc = c;
                        c->qs[t.q]->async([cc, ms, q] {
                            bool ser = is_serial(cc->kind[q]);
                            if (ser) { if (cc->active[q]++) xs::fail("overlap-queue", "operation overlaps"); cc->cell[q].bump(); }
                            xs::sleep_ms(ms);
                            if (ser) { cc->cell[q].bump(); cc->active[q]--; }
                        });
                    }
                }
            }
        }
    };
    struct Can
    {
        Timers* c;
        uint32_t k, i;
        void operator()()
        {
            Tm& t = c->tm[k];
            xs::sleep_ms(c->can_at[k][i]);
            if (t.active) c->canceled_running = true;
            t.t->cancel();
            if (t.active) xs::fail("still-running", "cancel of timer %u returned while its handler is running", k);
            t.cancelled = true;
            t.cancel_t = xs::now_ms();
            if (c->can_on[k][i] == 2) { t.t->resume(); xs::sleep_ms(1); t.t->suspend(); t.t->resume(milliseconds(1)); }
        }
    };
    void run() override
    {
        if (scale) {
            many.run(make_queue(kind[0], 0));
            xs::label(0);
            xs::label(9);
            return;
        }
        for (uint32_t i = 0; i < nq; ++i) { qs[i] = new queue(make_queue(kind[i], 0)); cell[i].make(); }
        for (uint32_t k = 0; k < ntm; ++k) {
            const milliseconds iv(tm[k].converted ? 0 : tm[k].interval);
            tm[k].t = kind[tm[k].q] == QK_GLOBAL && k % 2 == 0 ? new timer(iv) : new timer(iv, *qs[tm[k].q]); // the default
            if (tm[k].converted) tm[k].t->interval(milliseconds(tm[k].interval));
            if (!(tm[k].t->target_queue() == *qs[tm[k].q])) xs::fail("target", "timer reports another target queue");
            set_handler(k);
            tm[k].mem = new Cell;
            tm[k].mem->make();
        }
        Ctl ctl[kTm];
        Thread th[kTm];
        Can can[kTm * kC];
        Thread ct[kTm * kC];
        for (uint32_t k = 0; k < ntm; ++k) { ctl[k].c = this; ctl[k].k = k; th[k].start(&ctl[k]); }
        if (cancel_focus)
            for (uint32_t k = 0; k < ntm; ++k)
                for (uint32_t i = 0; i < ncan; ++i) { Can& x = can[k * kC + i]; x.c = this; x.k = k; x.i = i; ct[k * kC + i].start(&x); }
        for (uint32_t k = 0; k < ntm; ++k) th[k].join();
        if (cancel_focus) {
            for (uint32_t k = 0; k < ntm; ++k)
                for (uint32_t i = 0; i < ncan; ++i) ct[k * kC + i].join();
            // a canceled timer's state can be torn down at once
            for (uint32_t k = 0; k < ntm; ++k) {
                free(tm[k].mem->p);
                delete tm[k].mem;
                timer* t = tm[k].t;
                t->suspend();
                t->resume();
                t->cancel();
                delete t;
            }
            xs::sleep_ms(300);
            bool fired = false;
            for (uint32_t k = 0; k < ntm; ++k) if (tm[k].fired) fired = true;
            if (fired) xs::label(0);
            if (canceled_running) xs::label(1);
        } else {
            xs::jumps(false);
            double longest = 0;
            for (uint32_t k = 0; k < ntm; ++k) {
                Tm& t = tm[k];
                if (!t.running && t.interval) do_resume(k, 5);
                double d = 12 * (maxint(k) + t.dur + others(k)) + t.delay + 60;
                if (d > longest) longest = d;
            }
            int before[kTm];
            for (uint32_t k = 0; k < ntm; ++k) before[k] = tm[k].fired;
            // load first, then the regular series
            xs::quiesce_ms((uint64_t)(longest + load_ms));
            for (uint32_t k = 0; k < ntm; ++k) {
                Tm& t = tm[k];
                if (!t.interval) { if (t.fired != 1) xs::fail("single", "single shot timer fired %d times", t.fired); }
                else if (t.running && t.fired < before[k] + 4) xs::fail("dead", "timer %u with interval %u fired %d times within %.0f ms", k, t.interval, t.fired - before[k], longest);
            }
            for (uint32_t k = 0; k < ntm; ++k) while (tm[k].running) do_suspend(k);
            xs::quiesce_ms(200);
            for (uint32_t k = 0; k < ntm; ++k) {
                tm[k].budget = 0;
                if (tm[k].active) xs::fail("stuck", "handler does not end");
            }
            // everything under way has ended: the next series is exact
            for (uint32_t k = 0; k < ntm; ++k) if (tm[k].interval) do_resume(k, 20);
            xs::quiesce_ms(200);
            int f[kTm];
            for (uint32_t k = 0; k < ntm; ++k) {
                if (tm[k].interval && !tm[k].running) continue;
                do_suspend(k);
                f[k] = tm[k].fired;
            }
            xs::quiesce_ms(200);
            for (uint32_t k = 0; k < ntm; ++k) {
                if (tm[k].active) xs::fail("stuck", "handler does not end");
                tm[k].t->cancel();
                delete tm[k].t;
            }
            xs::quiesce_ms(100);
            int n = 0;
            for (uint32_t k = 0; k < ntm; ++k) n += tm[k].fired;
            if (n >= 3) xs::label(0);
        }
        if (resumed_again) xs::label(2);
        if (infire) xs::label(3);
        if (single) xs::label(4);
        if (changed) xs::label(5);
        if (load_ms) xs::label(6);
        if (exact) xs::label(7);
        if (nested) xs::label(8);
    }
};
struct C08 : Timers
{
    void generate(Gen& g, xs::Config& c) override { gen(g, c); }
};
struct C09 : Timers
{
    void generate(Gen& g, xs::Config& c) override { cancel_focus = true; gen(g, c); }
};
} // namespace
#define LB "cancelled while the handler was running", "resumed again", "controlled from within the handler", "single shot", "interval changed", "target queue busy", "exact time", "nested resume", "up to 100 timers or 5000 firings"
PROPERTY("C08", C08, "1-3 timers with intervals 0-50 ms and handlers taking 0-30 ms on serial and parallel queues under sequences of resume(delay), suspend, interval, handler and load, followed by long regular series; non-trivial: at least three firings", LB)
PROPERTY("C09", C09, "the same timers with 1-4 threads cancelling at chosen times, also from the handler, followed by resume and by tearing down the handler's state; non-trivial: the timer fired before it was cancelled", LB)
