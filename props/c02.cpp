// C02: a serial queue runs one operation at a time, in submission order, and
// orders memory effects.
#include "scale.h"
using namespace h;

namespace {
const int kQ = 3, kT = 4, kA = 12, kN = 200;
enum Kind { SUBMIT, APPLY, AFTER, GROUP, NOTIFY, SIGNALIKE, KINDS };

struct C02 : Case
{
    struct Rec
    {
        uint8_t q, kind, body, nchild;
        uint8_t child[3];
        uint16_t ms;
        uint64_t sub_begin, sub_end, start, finish;
        int runs;
        int* payload;
    };
    struct Act { uint8_t kind; uint8_t id; uint16_t n; uint8_t q; };
    uint32_t nq, nt, nn, nact[kT];
    uint8_t prio[kQ];
    Rec rec[kN];
    Act act[kT][kA];
    int active[kQ];
    Cell cell[kQ];
    int overlapped, applies, nested;
    bool scale;
    ManyOps many;
    ManyQueues manyq;
    bool queues;
    queue* qs[kQ];
    group* grp;

    uint32_t gen_op(Gen& g, int depth, uint32_t kind)
    {
        uint32_t id = nn++;
        Rec& r = rec[id];
        r.q = g.pick(nq);
        r.kind = kind;
        r.body = g.pick(4);
        r.ms = r.body == 3 ? g.range(1, 5) : 0;
        uint32_t k = depth < 3 && g.chance(1, 3) ? g.range(1, 3) : 0;
        for (uint32_t i = 0; i < k && nn < kN - 8; ++i) {
            static const uint8_t ks[] = { SUBMIT, SUBMIT, GROUP, AFTER, NOTIFY };
            uint32_t c = gen_op(g, depth + 1, g.of(ks));
            rec[id].child[rec[id].nchild++] = c;
            nested = 1;
        }
        return id;
    }
    void generate(Gen& g, xs::Config& c) override
    {
        uint32_t tc = g.range(1, 4);
        thread_count(tc);
        scale = g.chance(1, 40);
        if (scale) {
            prio[0] = g.pick(4);
            xs::desc("threads=%u one serial queue:", tc);
            queues = g.chance(1, 4);
            if (queues) { manyq.gen(g, c, tc); manyq.par = false; } else many.gen(g, c, tc);
            return;
        }
        nq = g.range(1, kQ);
        for (uint32_t i = 0; i < nq; ++i) prio[i] = g.pick(4);
        nt = g.range(1, g.big ? kT : 3);
        xs::desc("threads=%u serial queues=%u", tc, nq);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kA : 7);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                static const uint8_t ks[] = { SUBMIT, SUBMIT, SUBMIT, SUBMIT, GROUP, APPLY, AFTER, NOTIFY };
                a.kind = g.of(ks);
                if (nn > kN - 40) { nact[t] = i; break; }
                if (a.kind == APPLY) { a.q = g.pick(nq); a.n = g.range(1, 12); xs::desc(" apply(%u)->q%u", a.n, a.q); applies++; }
                else {
                    a.id = gen_op(g, 0, a.kind);
                    static const char* const kn[] = { "op", "", "after", "group", "notify" };
                    xs::desc(" %s%u->q%u(%u%s)", kn[a.kind], a.id, rec[a.id].q, rec[a.id].nchild, rec[a.id].ms ? ",sleeps" : "");
                }
            }
        }
    }
    void enter(uint32_t q, const char* what, uint32_t id)
    {
        if (active[q]++) xs::fail("overlap", "%s %u runs while another operation of serial queue %u is running", what, id, q);
        cell[q].bump();
    }
    void leave(uint32_t q)
    {
        cell[q].bump();
        active[q]--;
    }
    static void body(C02* c, uint32_t id)
    {
        Rec& r = c->rec[id];
        c->enter(r.q, "operation", id);
        r.start = xs::seq();
        if (r.runs++) xs::fail("twice", "operation %u was executed twice", id);
        if (r.kind == SUBMIT || r.kind == GROUP)
            for (uint32_t i = 0; i < c->nn; ++i) {
                Rec& o = c->rec[i];
                if (i == id || o.q != r.q || (o.kind != SUBMIT && o.kind != GROUP)) continue;
                if (o.sub_end && o.sub_end < r.sub_begin && !o.finish)
                    xs::fail("order", "operation %u was submitted to serial queue %u after operation %u but started before that had finished", id, r.q, i);
            }
        if (*r.payload != (int)id) xs::fail("visibility", "operation %u does not see what was written before submitting it", id);
        if (r.body == 1) xs::point();
        if (r.body == 2) for (int i = 0; i < 4; ++i) xs::point();
        if (r.ms) xs::sleep_ms(r.ms);
        for (int i = 0; i < r.nchild; ++i) submit(c, r.child[i]);
        r.finish = xs::seq();
        c->leave(r.q);
    }
    static void submit(C02* c, uint32_t id)
    {
        Rec& r = c->rec[id];
        r.payload = new int(id); // plain write, read by the operation
        queue q = *c->qs[r.q];
        auto f = [c, id] { body(c, id); };
        r.sub_begin = xs::seq();
        switch (r.kind) {
            case AFTER: if (id % 5) q.after(milliseconds(r.ms * 2), wrap_op(id, f)); else q.after(milliseconds(r.ms * 2), f); break;
            case GROUP: if (id % 5) c->grp->async(wrap_op(id, f), q); else c->grp->async(f, q); break;
            case NOTIFY: if (id % 5) c->grp->notify(wrap_op(id, f), q); else c->grp->notify(f, q); break;
            default: if (id % 5) q.async(wrap_op(id, f)); else q.async(f); break;
        }
        r.sub_end = xs::seq();
    }
    struct Sub
    {
        C02* c;
        uint32_t t;
        void operator()()
        {
            for (uint32_t i = 0; i < c->nact[t]; ++i) {
                Act& a = c->act[t][i];
                if (a.kind != APPLY) { submit(c, a.id); continue; }
                C02* cc = c;
                uint32_t q = a.q;
                int* arr = (int*)calloc(a.n, sizeof(int));
                c->qs[q]->apply(a.n, [cc, q, arr](size_t k) {
                    cc->enter(q, "apply iteration", k);
                    xs::point();
                    arr[k] = (int)k + 1;
                    cc->leave(q);
                });
                for (uint32_t k = 0; k < a.n; ++k)
                    if (arr[k] != (int)k + 1) xs::fail("visibility", "apply returned before iteration %u was done", k);
                free(arr);
            }
        }
    };
    void run() override
    {
        if (scale) {
            if (queues) manyq.run();
            else {
                many.run(naive_serial("s", kPrios[prio[0]]), true);
                xs::quiesce_ms(100000);
                many.check();
            }
            xs::label(0);
            xs::label(4);
            return;
        }
        for (uint32_t i = 0; i < nq; ++i) { qs[i] = new queue(naive_serial("s", kPrios[prio[i]])); cell[i].make(); }
        grp = new group;
        Sub subs[kT];
        Thread th[kT];
        for (uint32_t t = 0; t < nt; ++t) { subs[t].c = this; subs[t].t = t; }
        for (uint32_t t = 0; t < nt; ++t) th[t].start(&subs[t]);
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        uint64_t ms = 1000;
        for (uint32_t i = 0; i < nn; ++i) ms += rec[i].ms * 3;
        xs::quiesce_ms(ms);
        uint32_t n = 0;
        for (uint32_t i = 0; i < nn; ++i) {
            if (rec[i].sub_begin) n++;
            if (rec[i].sub_begin && !rec[i].finish) xs::fail("lost", "operation %u never ran to completion", i);
        }
        if (n >= 3 || applies) xs::label(0);
        if (applies) xs::label(1);
        if (nested) xs::label(2);
        if (nt > 1 && n > 10) xs::label(3);
    }
};

struct D02
{};
} // namespace
PROPERTY("C02", C02, "1-4 threads submit operation trees (async, group, notify, after, apply) to 1-3 serial queues; plain memory per queue and per submission is under happens-before race detection; non-trivial: at least three operations or an apply", "apply", "nested submissions", "several threads and more than 10 operations", "12 to 70000 operations on one queue")
