// C04: apply runs each index exactly once and returns afterwards.
#include "scale.h"
using namespace h;

namespace {
const int kQ = 4, kN = 40;
struct C04 : Case
{
    struct Ap { uint8_t q, mode, nchild, child[2]; uint32_t times, at; bool done; };
    // mode: 0 apply here, 1 async an operation on another queue applying
    uint32_t nq, nt, nn, top[4][6], ntop[4], K;
    uint8_t kind[kQ];
    Ap ap[kN];
    queue* qs[kQ];
    bool nested, zero, fromop, scale;
    uint32_t returned, issued, maxdepth;

    int gen_ap(Gen& g, int depth, int level)
    {
        // serial queues only in increasing order: applying to a serial queue
        // from an operation it is executing can never return
        uint32_t cand[kQ], n = 0;
        for (uint32_t i = 0; i < nq; ++i)
            if (!is_serial(kind[i]) || (int)i > level) cand[n++] = i;
        if (!n || nn >= kN) return -1;
        uint32_t id = nn++;
        uint32_t q = cand[g.pick(n)];
        ap[id].q = q;
        uint32_t t = g.pick(8);
        ap[id].times = t < 4 ? g.range(1, 4) : t == 4 ? 0 : t == 5 ? g.range(9, 24) : depth ? 2 : g.range(1, 12);
        if (depth >= 2) ap[id].times %= 4;
        zero |= ap[id].times == 0;
        if ((uint32_t)depth > maxdepth) maxdepth = depth;
        uint32_t k = depth < 3 && ap[id].times && ap[id].times < 6 && g.chance(1, 2) ? g.range(1, 2) : 0;
        ap[id].at = ap[id].times ? g.pick(ap[id].times) : 0;
        for (uint32_t i = 0; i < k; ++i) {
            int c = gen_ap(g, depth + 1, is_serial(kind[q]) ? (int)q : level);
            if (c >= 0) { ap[id].child[ap[id].nchild++] = c; nested = true; }
        }
        return id;
    }
    void print(uint32_t id)
    {
        xs::desc("apply(%u)->q%u", ap[id].times, ap[id].q);
        if (ap[id].nchild) { xs::desc("{"); for (int i = 0; i < ap[id].nchild; ++i) { if (i) xs::desc(" "); print(ap[id].child[i]); } xs::desc("}"); }
    }
    void generate(Gen& g, xs::Config& c) override
    {
        K = g.range(1, 4);
        thread_count(K);
        scale = g.chance(1, 40);
        nq = scale ? 1 : g.range(1, kQ);
        xs::desc("threads=%u queues:", K);
        for (uint32_t i = 0; i < nq; ++i) { kind[i] = g.pick(QK_COUNT); xs::desc(" %s", kind_name(kind[i])); }
        c.step_limit = 1000000;
        if (scale) {
            nt = ntop[0] = nn = 1;
            ap[0].times = scale_count(g, 70000);
            ap[0].at = ap[0].times;
            ap[0].mode = is_serial(kind[0]) ? 0 : g.pick(2);
            fromop = ap[0].mode != 0;
            c.step_limit += ap[0].times * 2000ull;
            xs::desc("; T0: %s", fromop ? "in op on q0: " : "");
            print(0);
            return;
        }
        nt = g.range(1, g.big ? 4 : 3);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            ntop[t] = g.range(1, g.big ? 5 : 3);
            uint32_t n = 0;
            for (uint32_t i = 0; i < ntop[t]; ++i) {
                // from the thread itself or from an operation on some queue
                bool op = g.chance(1, 2);
                uint32_t on = op ? g.pick(nq) : 0;
                int id = gen_ap(g, 0, op && is_serial(kind[on]) ? (int)on : -1);
                if (id < 0) break;
                ap[id].mode = op ? 1 + on : 0;
                fromop |= op;
                xs::desc(op ? " in op on q%u:" : " ", on);
                print(id);
                top[t][n++] = id;
            }
            ntop[t] = n;
        }
    }
    static void issue(C04* c, uint32_t id)
    {
        Ap& a = c->ap[id];
        c->issued++;
        // the table is plain memory: reading it after apply returned is a
        // race unless every iteration happened before
        struct Tab { int running; uint32_t next; int* runs; };
        Tab* t = new Tab;
        t->running = 0;
        t->next = 0;
        t->runs = (int*)calloc(a.times + 1, sizeof(int));
        struct Raw { int active, calls; uint32_t next; bool returned; };
        Raw* r = (Raw*)xs::raw_alloc(sizeof(Raw));
        uint32_t times = a.times;
        const bool serial = is_serial(c->kind[a.q]);
        auto f = [c, id, t, r, times, serial](size_t i) {
            Ap& a = c->ap[id];
            if (i >= times) xs::fail("index", "apply(%u) called index %zu", times, i);
            if (r->returned) xs::fail("late", "apply #%u iteration %zu runs after apply returned", id, i);
            if (serial) {
                if (r->active) xs::fail("overlap", "iterations overlap on a serial queue");
                if (i != r->next) xs::fail("order", "apply on a serial queue called index %zu, expected %u", i, r->next);
                t->next++; // plain, ordered by the queue
            }
            r->next++;
            r->active++;
            r->calls++;
            t->runs[i]++;
            xs::point();
            if (i == a.at) for (int k = 0; k < a.nchild; ++k) issue(c, a.child[k]);
            t->runs[i]++;
            r->active--;
        };
        if (id % 3) c->qs[a.q]->apply(times, WrapIteration::op(id, f));
        else c->qs[a.q]->apply(times, f);
        r->returned = true;
        if (r->active || r->calls != (int)times) xs::fail("early", "apply(%u) #%u returned after %d calls, %d of them active", times, id, r->calls, r->active);
        for (uint32_t i = 0; i < times; ++i)
            if (t->runs[i] != 2) xs::fail("count", "apply(%u) #%u executed index %u %d times", times, id, i, t->runs[i] / 2);
        free(t->runs);
        delete t;
        a.done = true;
        c->returned++;
    }
    struct Sub
    {
        C04* c;
        uint32_t t;
        void operator()()
        {
            for (uint32_t i = 0; i < c->ntop[t]; ++i) {
                uint32_t id = c->top[t][i];
                C04* cc = c;
                if (c->ap[id].mode) c->qs[c->ap[id].mode - 1]->async([cc, id] { issue(cc, id); });
                else issue(c, id);
            }
        }
    };
    void run() override
    {
        for (uint32_t i = 0; i < nq; ++i) qs[i] = new queue(make_queue(kind[i], 0));
        Sub subs[4];
        Thread th[4];
        for (uint32_t t = 0; t < nt; ++t) { subs[t].c = this; subs[t].t = t; th[t].start(&subs[t]); }
        xs::quiesce_ms(scale ? 100000 : 2000);
        for (uint32_t i = 0; i < nn; ++i)
            if (!ap[i].done) xs::fail("stuck", "apply #%u (of %u) did not return", i, nn);
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        if (nn >= 2 || scale) xs::label(0);
        if (scale) xs::label(5);
        if (nested) xs::label(1);
        if (zero) xs::label(2);
        if (fromop) xs::label(3);
        if (maxdepth >= 2) xs::label(4);
    }
};
} // namespace
PROPERTY("C04", C04, "1-4 threads issue apply calls (0-24 iterations) directly or from operations, nested up to depth 3 over serial and parallel queues in an acyclic order; non-trivial: at least two applies or more than 12 iterations", "nested apply", "zero iterations", "issued from an operation", "depth of 3 or more", "12 to 70000 iterations")
