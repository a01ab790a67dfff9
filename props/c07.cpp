// C07: delayed operations.
#include "scale.h"
using namespace h;

namespace {
const int kQ = 3, kT = 4, kA = 10, kN = 120;
struct C07 : Case
{
    struct Op { uint8_t q, nchild, child[2]; bool delayed; uint32_t delay; uint16_t ms; double sub_t, run_t; int runs, released; int* in; };
    enum { SUBMIT, SLEEP, DROP };
    struct Act { uint8_t kind, id; uint16_t ms; };
    bool exact;
    uint32_t K, nq, nt, nop, nact[kT], total_ms;
    uint8_t kind[kQ], prio[kQ];
    Op op[kN];
    Act act[kT][kA];
    std::shared_ptr<queue>* qs[kT][kQ]; // every thread has its own handle
    queue* keep[kQ];
    bool kept[kQ];
    int active[kQ];
    Cell cell[kQ];
    bool nested, dropped, conc, scale;
    uint32_t many_n, many_seed;
    uint64_t huge_ms;

    struct Token // captured by the operations
    {
        C07* c;
        uint32_t id;
        int* mem; // race checked
        Token(C07* cc, uint32_t i) : c(cc), id(i), mem(new int(7)) {}
        ~Token()
        {
            if (c->op[id].released++) xs::fail("released-twice", "captured state of operation %u released twice", id);
            *mem = 0;
            delete mem;
        }
    };
    uint32_t gen_op(Gen& g, int depth)
    {
        uint32_t id = nop++;
        Op& o = op[id];
        o.q = g.pick(nq);
        o.delayed = g.chance(3, 4);
        static const uint16_t ds[] = { 0, 1, 2, 5, 10, 10, 50, 100, 1000, 6000 };
        o.delay = o.delayed ? g.of(ds) : 0;
        // beyond 32 bits of microseconds, beyond a day
        if (o.delayed && g.chance(1, 24)) { o.delay = g.of({ 30000u, 65537u, 2147484u, 4294968u, 4295000u, 90000000u }); huge_ms += o.delay; }
        static const uint16_t mss[] = { 0, 0, 0, 1, 5, 20 };
        o.ms = g.of(mss);
        total_ms += o.ms;
        uint32_t k = depth < 2 && g.chance(1, 4) ? g.range(1, 2) : 0;
        for (uint32_t i = 0; i < k && nop < kN - 10; ++i) { uint32_t c = gen_op(g, depth + 1); op[id].child[op[id].nchild++] = c; nested = true; }
        return id;
    }
    void print(uint32_t id)
    {
        Op& o = op[id];
        if (o.delayed) xs::desc(" q%u.after(%u,op%u%s", o.q, o.delay, id, o.ms ? "(sleeps)" : "");
        else xs::desc(" q%u.async(op%u%s", o.q, id, o.ms ? "(sleeps)" : "");
        if (o.nchild) { xs::desc(" {"); for (int i = 0; i < o.nchild; ++i) print(o.child[i]); xs::desc(" }"); }
        xs::desc(")");
    }
    void generate(Gen& g, xs::Config& c) override
    {
        K = g.range(1, 4);
        thread_count(K);
        scale = g.chance(1, 50);
        if (scale) {
            kind[0] = g.pick(QK_COUNT);
            many_n = scale_count(g, 110);
            many_seed = g.pick(1000000);
            c.jump_p = 0;
            c.freeze_ms = 0;
            c.step_limit += many_n * 10000ull;
            xs::desc("threads=%u queue %s: %u delayed operations, program %u", K, kind_name(kind[0]), many_n, many_seed);
            return;
        }
        exact = g.chance(1, 2);
        if (exact) c.jump_p = 0;
        nq = g.range(1, kQ);
        xs::desc("threads=%u%s queues:", K, exact ? " exact time" : "");
        for (uint32_t i = 0; i < nq; ++i) {
            kind[i] = g.pick(QK_COUNT);
            prio[i] = g.pick(4);
            kept[i] = g.chance(1, 2);
            xs::desc(" %s%s", kind_name(kind[i]), kept[i] ? "" : "(dropped early)");
        }
        nt = g.range(1, g.big ? kT : 3);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kA : 6);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                static const uint8_t ks[] = { SUBMIT, SUBMIT, SUBMIT, SUBMIT, SUBMIT, SLEEP };
                a.kind = g.of(ks);
                if (a.kind == SUBMIT) {
                    if (nop > kN - 14) { nact[t] = i; break; }
                    a.id = gen_op(g, 0);
                    print(a.id);
                } else { a.ms = g.range(1, 30); xs::desc(" sleep%u", a.ms); }
            }
        }
    }
    static void submit(C07* c, uint32_t id, const queue& q)
    {
        Op& o = c->op[id];
        o.in = new int(3); // written before submitting, read by the operation
        auto tok = std::make_shared<Token>(c, id);
        // nested submissions need a handle when the others are gone
        std::vector<queue> qs;
        for (int i = 0; i < o.nchild; ++i) qs.push_back(*c->keep[c->op[o.child[i]].q]);
        *o.in = (int)id;
        o.sub_t = xs::now_ms();
        auto f = [c, id, tok, qs] {
            Op& o = c->op[id];
            double now = xs::now_ms();
            if (o.runs++) xs::fail("twice", "operation %u executed twice", id);
            if (o.delayed && now < o.sub_t + o.delay - 0.0005) xs::fail("early", "operation %u delayed by %u ms runs after %.3f ms", id, o.delay, now - o.sub_t);
            o.run_t = now;
            bool ser = is_serial(c->kind[o.q]);
            if (ser) { if (c->active[o.q]++) xs::fail("overlap", "operation %u overlaps with another operation of its serial queue", id); c->cell[o.q].bump(); }
            if (*o.in != (int)id || *tok->mem != 7) xs::fail("visibility", "operation %u does not see its state", id);
            if (o.ms) xs::sleep_ms(o.ms);
            else xs::point();
            for (int i = 0; i < o.nchild; ++i) submit(c, o.child[i], qs[i]);
            if (o.released) xs::fail("released-early", "captured state of operation %u released while it runs", id);
            if (*tok->mem != 7) xs::fail("visibility", "operation %u lost its state", id);
            if (ser) { c->cell[o.q].bump(); c->active[o.q]--; }
        };
        tok.reset();
        qs.clear();
        if (o.delayed) id % 3 ? q.after(milliseconds(o.delay), wrap_op(id, f)) : q.after(milliseconds(o.delay), f);
        else q.async(f);
    }
    struct Sub
    {
        C07* c;
        uint32_t t;
        void operator()()
        {
            for (uint32_t i = 0; i < c->nact[t]; ++i) {
                Act& a = c->act[t][i];
                if (a.kind == SUBMIT) { queue q(*c->keep[c->op[a.id].q]); submit(c, a.id, q); }
                else xs::sleep_ms(a.ms);
            }
        }
    };
    // many operations pending, each runs when it is due
    void run_many()
    {
        struct M { uint32_t n; uint32_t delay[128]; double sub[128], run[128]; uint8_t runs[128], late; } * m = (M*)xs::raw_alloc(sizeof(M));
        m->n = many_n;
        uint32_t x = many_seed;
        {
            queue q(make_queue(kind[0], 0));
            for (uint32_t i = 0; i < many_n; ++i) {
                x = x * 1664525 + 1013904223;
                m->delay[i] = many_seed & 1 ? 5 + (x >> 16) % 4 : (x >> 16) % 1000;
                m->sub[i] = xs::now_ms();
                q.after(milliseconds(m->delay[i]), [m, i] {
                    if (m->runs[i]++) xs::fail("twice", "delayed operation %u of %u executed twice", i, m->n);
                    m->run[i] = xs::now_ms();
                });
            }
        }
        xs::quiesce_ms(1000);
        xs::sleep_ms(20);
        for (uint32_t i = 0; i < many_n; ++i) {
            if (m->runs[i] != 1) xs::fail("lost", "operation %u of %u (delay %u) executed %d times", i, many_n, m->delay[i], m->runs[i]);
            if (m->run[i] < m->sub[i] + m->delay[i] - 0.0005) xs::fail("early", "operation %u of %u delayed by %u ms runs after %.3f ms", i, many_n, m->delay[i], m->run[i] - m->sub[i]);
            if (m->run[i] > m->sub[i] + m->delay[i] + 2) xs::fail("late", "operation %u of %u delayed by %u ms runs after %.3f ms", i, many_n, m->delay[i], m->run[i] - m->sub[i]);
        }
        xs::label(0);
        xs::label(5);
    }
    void run() override
    {
        if (scale) return run_many();
        for (uint32_t i = 0; i < nq; ++i) { keep[i] = new queue(make_queue(kind[i], prio[i])); cell[i].make(); }
        Sub subs[kT];
        Thread th[kT];
        for (uint32_t t = 0; t < nt; ++t) { subs[t].c = this; subs[t].t = t; }
        for (uint32_t t = 0; t < nt; ++t) th[t].start(&subs[t]);
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        // operations still to come carry the handles they need
        bool simple = true;
        for (uint32_t i = 0; i < nop; ++i) if (op[i].nchild) simple = false;
        for (uint32_t i = 0; i < nq; ++i)
            if (!kept[i] && simple) { delete keep[i]; keep[i] = nullptr; dropped = true; }
        xs::quiesce_ms(40000 + huge_ms + total_ms + nop * 100);
        bool delays = false;
        for (uint32_t i = 0; i < nop; ++i) {
            if (op[i].runs != 1) xs::fail("lost", "operation %u (delay %u) executed %d times", i, op[i].delay, op[i].runs);
            if (exact && op[i].run_t > op[i].sub_t + op[i].delay + total_ms + 50)
                xs::fail("late", "operation %u delayed by %u ms runs after %.3f ms", i, op[i].delay, op[i].run_t - op[i].sub_t);
            delays |= op[i].delayed;
        }
        // a queue may keep its last operation until its worker is done with it
        for (uint32_t i = 0; i < nop; ++i)
            if (op[i].released != 1) xs::fail("leak", "captured state of operation %u (delay %u) was not released", i, op[i].delay);
        if (nop >= 2 && delays) xs::label(0);
        if (nested) xs::label(1);
        if (dropped) xs::label(2);
        if (exact) xs::label(3);
        if (huge_ms) xs::label(4);
    }
};
} // namespace
PROPERTY("C07", C07, "1-4 threads submit immediate and delayed operations (0 ms to 25 h, nested) to serial and parallel queues whose handles may be dropped at once; non-trivial: at least two operations, one delayed", "submitted from an operation", "queue handle dropped while operations are pending", "exact time", "huge delay", "12 to 110 operations pending")
