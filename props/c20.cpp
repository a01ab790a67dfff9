// C20: priority order of a saturated pool.
#include "scale.h"
using namespace h;

namespace {
const int kN = 160, kR = 8, kT = 3, kM = 8;
const queue_priority kP[5] = { queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::UTILITY, queue_priority::DEFAULT, queue_priority::BACKGROUND };
const int kRank[5] = { 0, 1, 2, 2, 3 };
const char* const kPn[5] = { "interactive", "initiated", "utility", "default", "background" };

const char* const kKn[7] = { "", "/parallel", "/serial", "/group", "/group operation", "/own queue", "/waitable" };

struct C20 : Case
{
    struct Op
    {
        uint8_t prio, kind, owner;
        bool brief;
        int starts, ends;
        uint64_t sub_begin, sub_end, start;
        xs::Gate gate;
    };
    struct Round
    {
        uint8_t nt, n[kT];
        uint8_t prio[kT][kM], kind[kT][kM];
        bool brief[kT][kM];
        uint8_t release;
        bool concurrent; // submitted while threads become free
    };
    uint32_t K, nr, nop;
    uint8_t fill_prio, fill_kind;
    Round rd[kR];
    Op op[kN];
    queue* par[5];
    bool mixed, several, conc, ser, scale;
    uint32_t many_n, many_free;

    void generate(Gen& g, xs::Config& c) override
    {
        K = g.range(1, 3);
        thread_count(K);
        c.step_limit = 600000;
        fill_prio = g.pick(5);
        scale = g.chance(1, 40);
        if (scale) {
            many_n = scale_count(g, 20000);
            many_free = g.pick(4) ? 1 : 2 * K;
            c.step_limit += many_n * 2000ull;
            xs::desc("threads=%u saturated, %u brief operations of all priorities, %u threads released", K, many_n, many_free);
            return;
        }
        nr = g.range(1, g.big ? kR : 5);
        xs::desc("threads=%u saturated by %s operations", K, kPn[fill_prio]);
        for (uint32_t r = 0; r < nr; ++r) {
            Round& d = rd[r];
            d.nt = g.range(1, kT);
            d.release = g.pick(3) == 2 ? g.range(2, 4) : 1;
            d.concurrent = g.chance(1, 4);
            for (uint32_t t = 0; t < d.nt; ++t) {
                d.n[t] = g.range(r ? 0 : 1, 6);
                xs::desc("; T%u:", t);
                for (uint32_t i = 0; i < d.n[t]; ++i) {
                    d.prio[t][i] = g.pick(5);
                    d.kind[t][i] = g.pick(7);
                    d.brief[t][i] = g.chance(1, 3);
                    xs::desc(" %s%s%s", kPn[d.prio[t][i]], kKn[d.kind[t][i]], d.brief[t][i] ? "/brief" : "");
                }
            }
            xs::desc("; %s %u", d.concurrent ? "meanwhile release" : "release", d.release);
        }
    }
    void submit(uint32_t id)
    {
        Op& o = op[id];
        C20* c = this;
        auto f = [c, id] {
            Op& o = c->op[id];
            if (o.starts++) xs::fail("twice", "operation %u started twice", id);
            o.start = xs::seq();
            if (!o.brief) xs::gate_wait(&o.gate);
            o.ends++;
        };
        o.sub_begin = xs::seq();
        // DEFAULT is what one gets without naming a priority
        const bool plain = kP[o.prio] == queue_priority::DEFAULT && id % 2;
        if (plain && o.kind == 0) global_queue().async(f);
        else if (plain && o.kind == 1) { queue q = naive_parallel("p"); q.async(f); }
        else if (plain && o.kind == 2) { queue q = naive_serial("s"); q.async(f); }
        else if (plain && o.kind == 3) { group g; g.async(f); }
        else if (plain && o.kind == 4) { group g; g.async(make_operation(f)); }
        else if (plain && o.kind == 5) { queue q("s"); q.async(f); }
        else if (plain) { waitable_queue q("w"); q.async(f); }
        else if (o.kind == 0) global_queue(kP[o.prio]).async(f);
        else if (o.kind == 1) { queue q(*par[o.prio]); q.async(f); }
        else if (o.kind == 2) { queue q = naive_serial("s", kP[o.prio]); q.async(f); }
        else if (o.kind == 3) { group g; g.async(f, kP[o.prio]); }
        else if (o.kind == 4) { group g; g.async(make_operation(f), kP[o.prio]); }
        else if (o.kind == 5) { queue q("s", kP[o.prio]); q.async(f); }
        else { waitable_queue q("w", kP[o.prio]); q.async(f); }
        o.sub_end = xs::seq();
    }
    struct Sub
    {
        C20* c;
        uint32_t a, b;
        void operator()() { for (uint32_t i = a; i < b; ++i) c->submit(i); }
    };
    // many operations pending at once, executed in order of their priority
    void run_many()
    {
        struct M { uint32_t n, done, prev; uint8_t prio[20000], runs[20000]; uint32_t left[4]; bool strict; xs::Gate gate, gate1; } * m = (M*)xs::raw_alloc(sizeof(M));
        m->n = many_n;
        m->strict = many_free == 1;
        global_queue(kP[fill_prio]).async([m] { xs::gate_wait(&m->gate1); });
        for (uint32_t i = 1; i < 2 * K; ++i) global_queue(kP[fill_prio]).async([m] { xs::gate_wait(&m->gate); });
        xs::quiesce_ms(100);
        uint32_t x = 12345 + many_n;
        for (uint32_t i = 0; i < many_n; ++i) {
            x = x * 1664525 + 1013904223;
            const uint32_t p = (x >> 16) % 5;
            m->prio[i] = kRank[p];
            m->left[kRank[p]]++;
            global_queue(kP[p]).async([m, i] {
                if (m->runs[i]++) xs::fail("twice", "operation %u of %u executed twice", i, m->n);
                m->left[m->prio[i]]--;
                if (m->strict) {
                    for (uint32_t k = 0; k < m->prio[i]; ++k) if (m->left[k]) xs::fail("priority", "operation %u of %u starts although %u operations of higher priority are pending", i, m->n, m->left[k]);
                    if (m->done && m->prio[m->prev] == m->prio[i] && m->prev > i) xs::fail("order", "operation %u of %u starts after operation %u of the same priority", i, m->n, m->prev);
                }
                m->prev = i;
                ++m->done;
            });
        }
        xs::quiesce_ms(10);
        if (m->done) xs::inconclusive("pool is not bounded");
        if (many_free > 1) xs::gate_open(&m->gate);
        xs::gate_open(&m->gate1);
        xs::quiesce_ms(1000);
        if (m->done != many_n) xs::fail("lost", "%u of %u operations were executed", m->done, many_n);
        xs::gate_open(&m->gate);
        xs::quiesce_ms(100);
        xs::label(0);
        xs::label(4);
    }
    void run() override
    {
        if (scale) return run_many();
        for (int i = 0; i < 5; ++i) par[i] = new queue(naive_parallel("p", kP[i]));
        for (int i = 0; i < 5; ++i) {
            if (!(global_queue(kP[i]) == global_queue(kP[i]))) xs::fail("equal", "global queues of equal priority are not the same");
            for (int k = 0; k < 5; ++k)
                if (kRank[i] != kRank[k] && global_queue(kP[i]) == global_queue(kP[k])) xs::fail("equal", "global queues of different priority are the same");
        }
        // occupy the pool
        bool full = false;
        for (uint32_t i = 0; i < 8 * K + 8 && !full; ++i) {
            Op& o = op[nop];
            o.prio = fill_prio;
            o.owner = 0;
            submit(nop++);
            xs::quiesce_ms(50);
            full = !o.starts;
        }
        if (!full) xs::inconclusive("pool is not bounded");
        for (uint32_t r = 0; r < nr; ++r) {
            Round& d = rd[r];
            Sub subs[kT];
            Thread th[kT];
            for (uint32_t t = 0; t < d.nt; ++t) {
                subs[t].c = this;
                subs[t].a = nop;
                for (uint32_t i = 0; i < d.n[t]; ++i) {
                    Op& o = op[nop++];
                    o.prio = d.prio[t][i];
                    o.kind = d.kind[t][i];
                    o.brief = d.brief[t][i];
                    o.owner = 1 + r * kT + t; // a new thread each round
                    if (o.kind == 2) ser = true;
                }
                subs[t].b = nop;
            }
            if (!d.concurrent) {
                for (uint32_t t = 0; t < d.nt; ++t) th[t].start(&subs[t]);
                for (uint32_t t = 0; t < d.nt; ++t) th[t].join();
                xs::quiesce_ms(100);
            }
            bool was[kN];
            for (uint32_t i = 0; i < nop; ++i) was[i] = op[i].starts != 0;
            uint64_t mark = xs::seq();
            if (d.concurrent) { conc = true; for (uint32_t t = 0; t < d.nt; ++t) th[t].start(&subs[t]); }
            uint32_t freed = 0;
            for (uint32_t i = 0; i < nop && freed < d.release; ++i)
                if (was[i] && !op[i].ends && !op[i].gate.open) { xs::gate_open(&op[i].gate); freed++; }
            for (uint32_t t = 0; t < d.nt; ++t) th[t].join();
            xs::quiesce_ms(100);
            // nothing which has to wait is more important than what started
            uint32_t started = 0, pending = 0, lo = 9, hi = 0;
            for (uint32_t i = 0; i < nop; ++i) {
                if (!op[i].starts) {
                    pending++;
                    if (kRank[op[i].prio] < (int)lo) lo = kRank[op[i].prio];
                    if (kRank[op[i].prio] > (int)hi) hi = kRank[op[i].prio];
                }
                if (was[i] || !op[i].starts) continue;
                started++;
                for (uint32_t k = 0; k < nop; ++k) {
                    if (k == i || was[k]) continue;
                    Op &x = op[i], &y = op[k];
                    bool later = !y.starts || (freed == 1 && y.start > x.start);
                    if (!later) continue;
                    if (y.sub_end && y.sub_end < mark && kRank[y.prio] < kRank[x.prio])
                        xs::fail("priority", "operation %u (%s) starts before operation %u (%s) which was pending already", i, kPn[x.prio], k, kPn[y.prio]);
                    // a serial queue is scheduled like a single operation
                    if (x.owner && x.owner == y.owner && kRank[x.prio] == kRank[y.prio] && y.sub_end < x.sub_begin && y.sub_end < mark && x.sub_end < mark)
                        xs::fail("order", "operation %u starts before operation %u of the same priority which was submitted earlier", i, k);
                }
            }
            if (freed && !started && pending) xs::fail("idle", "a thread became free but no pending operation started");
            if (pending && hi != lo) mixed = true;
            if (started > 1) several = true;
        }
        for (int i = 0; i < 5; ++i) delete par[i];
        for (uint32_t i = 0; i < nop; ++i) xs::gate_open(&op[i].gate);
        xs::quiesce_ms(1000);
        for (uint32_t i = 0; i < nop; ++i) if (op[i].starts != 1 || op[i].ends != 1) xs::fail("lost", "operation %u was executed %d times", i, op[i].starts);
        if (mixed) xs::label(0);
        if (several) xs::label(1);
        if (conc) xs::label(2);
        if (ser) xs::label(3);
    }
};
} // namespace
PROPERTY("C20", C20, "a pool with all threads occupied, rounds of 1-3 threads submitting operations of all priorities to global, parallel and serial queues while 1-4 threads become free; at every quiescent point no pending operation may be more important than, or of the same priority and thread but submitted before, one that was started; non-trivial: operations of different priorities were pending", "several operations started in a round", "submitted while threads become free", "serial queues", "12 to 20000 operations pending")
