// C05: group wait. C06: group notify.
#include "scale.h"
using namespace h;

namespace {
const int kQ = 3, kG = 2, kT = 4, kA = 12, kN = 160, kW = 80, kM = 80;
const int64_t kForever = -1, kMax = -2;

struct Groups : Case
{
    struct Op { uint8_t g, q, nested; uint8_t child[2]; uint16_t ms; bool gated; uint64_t add_begin, add_end, finish; double add_t, finish_t; int runs; int* out; };
    struct Wait { uint8_t g; int64_t ms; bool in_op; uint64_t begin, end; double begin_t, end_t; int result; };
    struct Note { uint8_t g, q; uint64_t reg_begin, reg_end, run; double reg_t, run_t; int runs; };
    enum { ADD, WAIT, WAITOP, NOTIFY, SLEEP, REPLACE };
    struct Act { uint8_t kind, id; uint16_t ms; };
    bool notify_focus, exact;
    uint32_t K, nq, ng, nt, nop, nw, nn, nact[kT];
    uint8_t kind[kQ];
    Op op[kN];
    Wait wt[kW];
    Note note[kM];
    Act act[kT][kA];
    queue* qs[kQ];
    group* gs[kG];
    int active[kQ];
    Cell cell[kQ];
    xs::Gate gate;
    uint32_t gated, total_ms;
    bool nested, reused, scale;
    ManyGroup many;
    BigWait big;

    uint32_t gen_op(Gen& g, uint32_t grp, int depth)
    {
        uint32_t id = nop++;
        Op& o = op[id];
        o.g = grp;
        o.q = g.pick(nq);
        static const uint16_t mss[] = { 0, 0, 1, 3, 7, 20, 40 };
        o.ms = g.of(mss);
        total_ms += o.ms;
        uint32_t k = depth < 2 && g.chance(1, 4) ? g.range(1, 2) : 0;
        for (uint32_t i = 0; i < k && nop < kN - 10; ++i) { uint32_t c = gen_op(g, grp, depth + 1); op[id].child[op[id].nested++] = c; nested = true; }
        return id;
    }
    int64_t gen_timeout(Gen& g)
    {
        static const int64_t ts[] = { 0, 1, 5, 20, 50, 200, kForever, kForever, kMax };
        return g.of(ts);
    }
    void gen(Gen& g, xs::Config& c)
    {
        K = g.range(2, 4);
        thread_count(K);
        scale = g.chance(1, 40);
        if (scale) {
            kind[0] = g.pick(QK_COUNT);
            xs::desc("threads=%u queue %s:", K, kind_name(kind[0]));
            many.gen(g, c, K, notify_focus);
            return;
        }
        exact = g.chance(2, 3);
        if (exact) c.jump_p = 0;
        nq = g.range(1, kQ);
        ng = g.range(1, kG);
        xs::desc("threads=%u%s groups=%u queues:", K, exact ? " exact time" : "", ng);
        for (uint32_t i = 0; i < nq; ++i) { kind[i] = g.pick(QK_COUNT); xs::desc(" %s", kind_name(kind[i])); }
        nt = g.range(1, g.big ? kT : 3);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(2, g.big ? kA : 8);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                static const uint8_t kw[] = { ADD, ADD, ADD, WAIT, WAIT, WAITOP, SLEEP, NOTIFY };
                static const uint8_t kn[] = { ADD, ADD, ADD, NOTIFY, NOTIFY, NOTIFY, SLEEP, WAIT };
                a.kind = notify_focus ? g.of(kn) : g.of(kw);
                uint32_t grp = g.pick(ng);
                if (a.kind == ADD) {
                    if (nop > kN - 14) { nact[t] = i; break; }
                    a.id = gen_op(g, grp, 0);
                    if (notify_focus && !gated && g.chance(1, 6)) { gated++; op[a.id].gated = true; }
                    xs::desc(" g%u.async(op%u->q%u%s%s%s)", grp, a.id, op[a.id].q, op[a.id].ms ? ",sleeps" : "", op[a.id].nested ? ",adds more" : "", op[a.id].gated ? ",gated" : "");
                } else if (a.kind == WAIT || a.kind == WAITOP) {
                    a.id = nw++;
                    wt[a.id].g = grp;
                    wt[a.id].ms = gen_timeout(g);
                    wt[a.id].in_op = a.kind == WAITOP;
                    if (notify_focus && gated && (wt[a.id].ms == kForever || wt[a.id].ms == kMax)) wt[a.id].ms = 20;
                    xs::desc(" g%u.wait(%ld)%s", grp, (long)wt[a.id].ms, a.kind == WAITOP ? " in op" : "");
                } else if (a.kind == NOTIFY) {
                    a.id = nn++;
                    note[a.id].g = grp;
                    note[a.id].q = g.pick(nq);
                    xs::desc(" g%u.notify(q%u)", grp, note[a.id].q);
                } else { a.ms = g.range(1, 60); xs::desc(" sleep%u", a.ms); }
            }
        }
        // gated operations only end in the last phase: nobody may wait for them forever
        if (gated)
            for (uint32_t i = 0; i < nw; ++i)
                if (wt[i].ms < 0) wt[i].ms = 10;
        big.gen(g);
    }
    void enter(uint32_t q)
    {
        if (!is_serial(kind[q])) return;
        if (active[q]++) xs::fail("overlap", "two operations of serial queue %u overlap", q);
        cell[q].bump();
    }
    void leave(uint32_t q)
    {
        if (is_serial(kind[q])) { cell[q].bump(); active[q]--; }
    }
    static void add(Groups* c, uint32_t id)
    {
        Op& o = c->op[id];
        o.out = new int(0);
        o.add_t = xs::now_ms();
        o.add_begin = xs::seq();
        auto f = [c, id] {
            Op& o = c->op[id];
            if (o.runs++) xs::fail("twice", "group operation %u executed twice", id);
            c->enter(o.q);
            if (o.gated) xs::gate_wait(&c->gate);
            if (o.ms) xs::sleep_ms(o.ms);
            else xs::point();
            for (int i = 0; i < o.nested; ++i) add(c, o.child[i]);
            *o.out = (int)id + 1;
            c->leave(o.q);
            o.finish_t = xs::now_ms();
            o.finish = xs::seq();
        };
        if (c->kind[o.q] == QK_GLOBAL && id % 4 == 0) id % 3 ? c->gs[o.g]->async(wrap_op(id, f)) : c->gs[o.g]->async(f); // the default queue
        else if (c->kind[o.q] == QK_GLOBAL && id % 2) id % 3 ? c->gs[o.g]->async(wrap_op(id, f), kPrios[id / 2 % 4]) : c->gs[o.g]->async(f, kPrios[id / 2 % 4]); // a global queue given by its priority
        else if (id % 3) c->gs[o.g]->async(wrap_op(id, f), *c->qs[o.q]);
        else c->gs[o.g]->async(f, *c->qs[o.q]);
        o.add_end = xs::seq();
    }
    static void wait(Groups* c, uint32_t id)
    {
        Wait& w = c->wt[id];
        milliseconds to = w.ms == kMax ? milliseconds::max() : milliseconds(w.ms);
        w.begin_t = xs::now_ms();
        w.begin = xs::seq();
        bool r = c->gs[w.g]->wait(to);
        w.end = xs::seq();
        w.end_t = xs::now_ms();
        w.result = r ? 1 : 2;
        if (r)
            for (uint32_t i = 0; i < c->nop; ++i) {
                Op& o = c->op[i];
                if (o.g != w.g || !o.add_end || o.add_end > w.begin) continue;
                if (!o.finish) xs::fail("early-wait", "group wait(%ld) returned true although operation %u, added before, is %s", (long)w.ms, i, o.runs ? "still running" : "not started yet");
                if (*o.out != (int)i + 1) xs::fail("visibility", "effects of operation %u are not visible after the wait", i);
            }
        else {
            if (w.ms < 0) xs::fail("false-wait", "group wait without timeout (%ld) returned false", (long)w.ms);
            if (w.end_t - w.begin_t < (double)w.ms - 0.001) xs::fail("short-wait", "group wait(%ld) returned false after %.3f ms", (long)w.ms, w.end_t - w.begin_t);
        }
    }
    static void notify(Groups* c, uint32_t id)
    {
        Note& n = c->note[id];
        n.reg_t = xs::now_ms();
        n.reg_begin = xs::seq();
        auto f = [c, id] {
            Note& n = c->note[id];
            c->enter(n.q);
            if (n.runs++) xs::fail("notify-twice", "notification %u executed twice", id);
            n.run = xs::seq();
            n.run_t = xs::now_ms();
            for (uint32_t i = 0; i < c->nop; ++i) {
                Op& o = c->op[i];
                if (o.g != n.g || !o.add_end || o.add_end > n.reg_begin) continue;
                if (!o.finish) xs::fail("early-notify", "notification %u runs although operation %u was added to the group before and is %s", id, i, o.runs ? "still running" : "not started");
                if (*o.out != (int)i + 1) xs::fail("visibility", "effects of operation %u are not visible to the notification", i);
            }
            c->leave(n.q);
        };
        if (c->kind[n.q] == QK_GLOBAL && id % 2) id % 3 ? c->gs[n.g]->notify(wrap_op(id, f)) : c->gs[n.g]->notify(f); // the default queue
        else if (id % 3) c->gs[n.g]->notify(wrap_op(id, f), *c->qs[n.q]);
        else c->gs[n.g]->notify(f, *c->qs[n.q]);
        n.reg_end = xs::seq();
    }
    struct Sub
    {
        Groups* c;
        uint32_t t;
        void operator()()
        {
            Groups* cc = c;
            for (uint32_t i = 0; i < c->nact[t]; ++i) {
                Act& a = c->act[t][i];
                uint32_t id = a.id;
                switch (a.kind) {
                    case ADD: add(c, id); break;
                    case WAIT: wait(c, id); break;
                    case WAITOP: global_queue(queue_priority::BACKGROUND).async([cc, id] { wait(cc, id); }); break;
                    case NOTIFY: notify(c, id); break;
                    default: xs::sleep_ms(a.ms);
                }
            }
        }
    };
    void run() override
    {
        if (scale) {
            many.run(make_queue(kind[0], 0), is_serial(kind[0]));
            xs::label(0);
            xs::label(6);
            return;
        }
        for (uint32_t i = 0; i < nq; ++i) { qs[i] = new queue(make_queue(kind[i], 0)); cell[i].make(); }
        for (uint32_t i = 0; i < ng; ++i) gs[i] = new group;
        Sub subs[kT];
        Thread th[kT];
        for (uint32_t t = 0; t < nt; ++t) { subs[t].c = this; subs[t].t = t; }
        for (uint32_t t = 0; t < nt; ++t) th[t].start(&subs[t]);
        xs::sleep_ms(1);
        if (gated) {
            // everything that does not depend on the gated operation ends
            xs::quiesce_ms(100000 + total_ms);
            int probe = 0;
            int* pp = (int*)xs::raw_alloc(sizeof(int));
            global_queue().async([pp] { ++*pp; });
            xs::quiesce_ms(100);
            probe = *pp;
            if (!probe) xs::fail("starved", "with %u notifications waiting an unrelated operation does not run", nn);
            xs::gate_open(&gate);
        }
        xs::quiesce_ms(2000 + total_ms + nt * kA * 300);
        for (uint32_t i = 0; i < nop; ++i)
            if (op[i].add_begin && op[i].runs != 1) xs::fail("lost", "group operation %u executed %d times", i, op[i].runs);
        for (uint32_t i = 0; i < nw; ++i)
            if (!wt[i].result) xs::fail("stuck", "group wait(%ld) did not return although all operations have finished", (long)wt[i].ms);
        for (uint32_t i = 0; i < nn; ++i)
            if (note[i].reg_begin && note[i].runs != 1) xs::fail("notify-lost", "notification %u executed %d times", i, note[i].runs);
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        check_times();
        xs::jumps(false);
        // by now all groups are empty
        for (uint32_t i = 0; i < ng; ++i) {
            double t0 = xs::now_ms();
            if (!gs[i]->wait(milliseconds(0)) || !gs[i]->wait(milliseconds(1000)) || !gs[i]->wait()) xs::fail("empty", "waiting on an empty group returned false");
            if (xs::now_ms() - t0 > 1) xs::fail("empty", "waiting on an empty group took %.3f ms", xs::now_ms() - t0);
            int* pp = (int*)xs::raw_alloc(sizeof(int));
            gs[i]->notify([pp] { ++*pp; }, *qs[0]);
            xs::quiesce_ms(2);
            if (*pp != 1) xs::fail("empty", "notification on an empty group executed %d times", *pp);
        }
        {
            group* gr = gs[0];
            xs::Gate* hold = (xs::Gate*)xs::raw_alloc(sizeof(xs::Gate));
            if (big.ms >= 0) gr->async([hold] { xs::gate_wait(hold); }, *qs[0]);
            big.run("group wait", [gr](milliseconds m) { return gr->wait(m); }, [hold] { xs::gate_open(hold); });
            if (big.ms >= 0) { xs::gate_open(hold); if (!gr->wait()) xs::fail("false-wait", "group wait without timeout returned false"); }
        }
        // groups can be dropped with operations outstanding
        int* pp = (int*)xs::raw_alloc(2 * sizeof(int));
        gs[0]->async([pp] { xs::sleep_ms(3); ++pp[0]; }, *qs[0]);
        gs[0]->notify([pp] { if (!pp[0]) xs::fail("early-notify", "notification of a dropped group runs early"); ++pp[1]; }, *qs[0]);
        for (uint32_t i = 0; i < ng; ++i) delete gs[i];
        xs::quiesce_ms(100);
        if (pp[0] != 1 || pp[1] != 1) xs::fail("dropped", "group dropped: operation executed %d times, notification %d times", pp[0], pp[1]);
        labels();
    }
    void check_times()
    {
        for (uint32_t k = 0; k < nw; ++k) {
            Wait& w = wt[k];
            double last = w.begin_t;
            bool any = false;
            for (uint32_t i = 0; i < nop; ++i) {
                Op& o = op[i];
                if (o.g != w.g || !o.add_begin || o.add_begin > w.end) continue;
                any = true;
                if (o.finish_t > last) last = o.finish_t;
            }
            if (w.result == 2 && !any) xs::fail("empty", "wait(%ld) on a group without operations returned false", (long)w.ms);
            if (!exact) continue;
            if (w.ms >= 0 && w.end_t - w.begin_t > (double)w.ms + 1) xs::fail("long-wait", "group wait(%ld) took %.3f ms", (long)w.ms, w.end_t - w.begin_t);
            if (w.result == 2 && last < w.begin_t + (double)w.ms - 1) xs::fail("false-wait", "group wait(%ld) returned false although all operations finished after %.3f ms", (long)w.ms, last - w.begin_t);
            if (w.result == 1 && w.end_t > last + 1) xs::fail("late-wait", "group wait(%ld) returned %.3f ms after the last operation had finished", (long)w.ms, w.end_t - last);
        }
    }
    void labels()
    {
        bool blocked = false, tmo = false, early = false;
        for (uint32_t k = 0; k < nw; ++k) {
            if (wt[k].end_t > wt[k].begin_t) blocked = true;
            if (wt[k].result == 2) tmo = true;
            if (wt[k].in_op) xs::label(4);
        }
        for (uint32_t k = 0; k < nn; ++k)
            for (uint32_t i = 0; i < nop; ++i)
                if (op[i].g == note[k].g && op[i].add_end && op[i].add_end < note[k].reg_begin && op[i].finish > note[k].reg_end) early = true;
        if (notify_focus ? early : blocked) xs::label(0);
        if (tmo) xs::label(1);
        if (nested) xs::label(2);
        if (early) xs::label(3);
        if (gated) xs::label(5);
    }
};
struct C05 : Groups
{
    void generate(Gen& g, xs::Config& c) override { gen(g, c); }
};
struct C06 : Groups
{
    void generate(Gen& g, xs::Config& c) override { notify_focus = true; gen(g, c); }
};
} // namespace
PROPERTY("C05", C05, "1-4 threads add operation trees to 1-2 groups and wait with timeouts 0, 1-200 ms, none and the largest value, from threads and from operations; non-trivial: at least one wait blocked", "a wait timed out", "operations add to their own group", "notification registered while operations were outstanding", "wait inside an operation", "gated operation", "12 to 5000 operations of one group")
PROPERTY("C06", C06, "1-4 threads add operation trees to 1-2 groups, register notifications on serial and parallel queues, optionally with one operation held back for 100 s; non-trivial: a notification was registered while operations were outstanding", "a wait timed out", "operations add to their own group", "notification registered while operations were outstanding", "wait inside an operation", "gated operation", "12 to 5000 operations of one group")
