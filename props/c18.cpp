// C18: waitable queues.
#include "scale.h"
#include <deque>
#include <mutex>
#include <vector>
using namespace h;

namespace {
const int kQ = 2, kT = 4, kA = 10, kN = 200;
struct C18 : Case
{
    enum { ASYNC, APPLY, AFTER, ALL, ONE, SLEEP, DROPH, GROUP };
    enum { IN_SERIAL, IN_PARALLEL, IN_GLOBAL, IN_OWN, IN_STARVED, IN_LATE, IN_KINDS };
    struct Act { uint8_t kind, q, n; uint16_t ms; };
    struct Op
    {
        uint8_t q;
        bool timed;        // not subject to ordering and waits
        uint16_t ms;
        uint64_t sub_begin, sub_end, begin, end;
        int runs, released, iter;
        int waits;         // waits on the other queue
        bool resubmit;     // its captured state submits when released
        bool child;        // submits another operation
    };
    // a pool which hands out no thread at all, or does so late
    struct Pool : naive::ithreadpool
    {
        std::mutex m;
        std::deque<std::pair<operation_ptr, queue_priority>> work;
        bool late;
        int executed = 0;
        void execute(const operation_ptr& op, queue_priority p) override
        {
            std::lock_guard<std::mutex> l(m);
            work.emplace_back(op, p);
        }
        void notify_thread_blocked() override {}
        void notify_thread_unblocked() override {}
        bool run_one()
        {
            operation_ptr op;
            {
                std::lock_guard<std::mutex> l(m);
                if (work.empty()) return false;
                op = work.front().first;
                work.pop_front();
            }
            ++executed;
            run_with_threadpool(*op, this);
            return true;
        }
    };
    struct Token
    {
        C18* c;
        int id;
        int* mem;
        Token(C18* cc, int i) : c(cc), id(i), mem(new int(i)) {}
        ~Token()
        {
            Op& o = c->op[id];
            if (o.released++) xs::fail("released", "captured state released twice");
            if (!o.runs) xs::fail("released", "captured state of operation %d released although it was not executed", id);
            delete mem;
            if (o.resubmit) { o.resubmit = false; c->lresub = true; c->submit(o.q, 0, false, false); }
        }
    };
    uint32_t K, nq, nt, nop, nact[kT], total_ms;
    uint8_t inner[kQ];
    Act act[kT][kA];
    Op op[kN];
    waitable_queue* wq[kQ];
    queue* in[kQ];
    std::shared_ptr<Pool>* pool[kQ];
    group* gr;
    int active[kQ], last_started[kQ], nsub[kQ];
    uint64_t completed[kQ], ones[kQ];
    Cell cell[kQ];
    volatile bool stop;
    bool lsteal, lresub, lone, lnested, lstarved, ltimed, scale;
    uint32_t many_n, many_how;
    bool many_gated;

    void generate(Gen& g, xs::Config& c) override
    {
        K = g.range(1, 4);
        thread_count(K);
        c.step_limit = 700000;
        scale = g.chance(1, 40);
        if (scale) {
            many_n = scale_count(g, 20000);
            many_how = g.pick(3);
            many_gated = g.chance(1, 2);
            inner[0] = g.of({ IN_SERIAL, IN_PARALLEL, IN_GLOBAL, IN_OWN, IN_STARVED });
            c.step_limit += many_n * 4000ull;
            static const char* const hn[] = { "wait for all", "wait for one each", "quiesce" };
            xs::desc("threads=%u waitable over %u: %u operations%s, then %s", K, inner[0], many_n, many_gated ? " behind a blocked one" : "", hn[many_how]);
            return;
        }
        nq = g.range(1, kQ);
        static const char* const names[] = { "serial", "parallel", "global", "own", "starved", "late" };
        xs::desc("threads=%u waitable over:", K);
        for (uint32_t i = 0; i < nq; ++i) { inner[i] = g.pick(IN_KINDS); xs::desc(" %s", names[inner[i]]); if (inner[i] >= IN_STARVED) lstarved = true; }
        nt = g.range(1, g.big ? kT : 3);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kA : 7);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                uint32_t w = g.pick(16);
                a.q = g.pick(nq);
                a.ms = g.of({ 0, 0, 0, 1, 5, 20 });
                a.n = g.range(1, 4);
                if (w < 6) { a.kind = ASYNC; total_ms += a.ms * a.n; xs::desc(" %ux async%s q%u", a.n, a.ms ? "(sleeps)" : "", a.q); }
                else if (w < 7) { a.kind = APPLY; xs::desc(" apply(%u) q%u", a.n, a.q); }
                else if (w < 8) { a.kind = AFTER; xs::desc(" after(%u) q%u", a.ms, a.q); }
                else if (w < 11) { a.kind = ALL; xs::desc(" wait_for_all q%u", a.q); }
                else if (w < 14) { a.kind = ONE; xs::desc(" wait_for_one q%u", a.q); }
                else if (w < 15) { a.kind = GROUP; xs::desc(" group.async q%u", a.q); }
                else { a.kind = SLEEP; a.ms = g.of({ 1, 10, 40 }); xs::desc(" sleep%u", a.ms); }
                if (a.kind == ASYNC) {
                    uint32_t f = g.pick(8);
                    if (f == 7) xs::desc("[child]");
                    if (f == 6 && a.q == 0 && nq > 1) xs::desc("[waits for q1]");
                    if (f == 5) xs::desc("[submits when released]");
                    a.ms |= f << 8;
                }
            }
        }
    }
    void started(int id)
    {
        Op& o = op[id];
        if (o.runs++) xs::fail("twice", "operation %d executed twice", id);
        o.begin = xs::seq();
        if (active[o.q]++) xs::fail("overlap", "operations of waitable queue %u overlap", o.q);
        cell[o.q].bump();
    }
    void ended(int id)
    {
        Op& o = op[id];
        cell[o.q].bump();
        active[o.q]--;
        o.end = xs::seq();
        completed[o.q]++;
    }
    void submit(int q, uint16_t ms, bool timed, bool in_group)
    {
        if (nop >= kN) return;
        int id = nop++;
        Op& o = op[id];
        uint32_t f = (timed || in_group) ? 0 : ms >> 8;
        ms &= 255;
        o.q = q;
        o.ms = timed ? 0 : ms;
        o.timed = timed;
        o.child = f == 7;
        o.waits = f == 6 && q == 0 && nq > 1;
        o.resubmit = f == 5;
        C18* c = this;
        auto tok = std::make_shared<Token>(this, id);
        auto fn = [c, id, tok] {
            Op& o = c->op[id];
            c->started(id);
            if (*tok->mem != id) xs::fail("visibility", "captured state");
            if (o.ms) xs::sleep_ms(o.ms); else xs::point();
            if (o.child) { c->lnested = true; c->submit(o.q, 0, false, false); }
            if (o.waits) { c->wait_all(1); }
            c->ended(id);
        };
        tok.reset();
        o.sub_begin = xs::seq();
        if (timed) { ltimed = true; wq[q]->after(milliseconds(ms), fn); }
        else if (in_group) gr->async(fn, *wq[q]);
        else wq[q]->async(fn);
        o.sub_end = xs::seq();
    }
    void apply(int q, int n)
    {
        if (nop + n >= kN) return;
        int first = nop;
        nop += n;
        for (int i = 0; i < n; ++i) { Op& o = op[first + i]; o.q = q; o.released = 1; o.iter = 1; o.sub_begin = xs::seq(); }
        C18* c = this;
        wq[q]->apply(n, [c, first, n](size_t i) {
            if (i >= (size_t)n) xs::fail("index", "apply invoked with index %zu", i);
            c->started(first + (int)i);
            xs::point();
            c->ended(first + (int)i);
        });
        for (int i = 0; i < n; ++i) if (!op[first + i].end) xs::fail("apply", "apply returned before iteration %d completed", i);
    }
    void wait_all(int q)
    {
        uint64_t begin = xs::seq();
        wq[q]->wait_for_all();
        for (uint32_t i = 0; i < nop; ++i) {
            Op& o = op[i];
            if (o.q == q && !o.timed && o.sub_end && o.sub_end < begin && !o.end) xs::fail("all", "wait_for_all returned before operation %u completed", i);
        }
    }
    void wait_one(int q)
    {
        uint64_t begin = xs::seq();
        bool before[kN];
        for (uint32_t i = 0; i < nop; ++i) before[i] = op[i].q == q && !op[i].timed && op[i].sub_end && !op[i].end;
        uint32_t n = nop;
        wq[q]->wait_for_one();
        (void)begin;
        // something was left to be waited for all the time
        bool left = false;
        for (uint32_t i = 0; i < n; ++i) if (before[i] && !op[i].end) left = true;
        if (left) {
            lone = true;
            if (++ones[q] > completed[q]) xs::fail("one", "%u waits for one operation returned but only %u have completed", (unsigned)ones[q], (unsigned)completed[q]);
        }
    }
    // every completed operation ends one wait, the next wait has to block
    void counting(int q)
    {
        waitable_queue w = in[q] ? waitable_queue("c", *in[q]) : waitable_queue("c");
        int n = 1 + nop % 3;
        for (int i = 0; i < n; ++i) w.async([] {});
        xs::quiesce_ms(100);
        struct D { xs::Gate g; volatile bool done; }* d = (D*)xs::raw_alloc(sizeof(D));
        w.async([d] { xs::gate_wait(&d->g); d->done = true; });
        w.async([] {});
        uint64_t t = xs::now_ns();
        for (int i = 0; i < n; ++i) w.wait_for_one();
        if (d->done || xs::now_ns() != t) xs::fail("one-late", "wait_for_one blocks although %d operations have completed and not been waited for", n);
        auto open = [d] { xs::sleep_ms(30); xs::gate_open(&d->g); };
        Thread th;
        th.start(&open);
        w.wait_for_one();
        if (!d->done) xs::fail("one", "wait_for_one returned although no further operation completed");
        w.wait_for_one();
        th.join();
        w.wait_for_one();
    }
    struct Sub
    {
        C18* c;
        uint32_t t;
        void operator()()
        {
            for (uint32_t i = 0; i < c->nact[t]; ++i) {
                Act& a = c->act[t][i];
                switch (a.kind) {
                    case ASYNC: for (int k = 0; k < a.n; ++k) c->submit(a.q, a.ms, false, false); break;
                    case APPLY: c->apply(a.q, a.n); break;
                    case AFTER: c->submit(a.q, a.ms, true, false); break;
                    case ALL: c->wait_all(a.q); break;
                    case ONE: c->wait_one(a.q); break;
                    case GROUP: c->submit(a.q, 0, false, true); break;
                    case SLEEP: xs::sleep_ms(a.ms); break;
                }
            }
        }
    };
    struct LatePool
    {
        C18* c;
        void operator()()
        {
            while (!c->stop) {
                bool any = false;
                for (uint32_t i = 0; i < c->nq; ++i) if (c->inner[i] == IN_LATE && (*c->pool[i])->run_one()) any = true;
                if (!any) xs::sleep_ms(7);
            }
        }
    };
    // many operations, executed in order, once and before the waits return
    void run_many()
    {
        struct M { uint32_t n, next; int held; xs::Gate gate; } * m = (M*)xs::raw_alloc(sizeof(M));
        m->n = many_n;
        struct Held
        {
            M* m;
            explicit Held(M* mm) : m(mm) { ++m->held; }
            Held(const Held& o) : m(o.m) { ++m->held; }
            ~Held() { --m->held; }
        };
        auto p = std::make_shared<Pool>();
        queue in(inner[0] == IN_SERIAL ? naive_serial("s") : inner[0] == IN_PARALLEL ? naive_parallel("p") : inner[0] == IN_STARVED ? naive::create_serial_queue("x", p) : global_queue());
        waitable_queue* w = inner[0] == IN_OWN ? new waitable_queue("w") : new waitable_queue("w", in);
        const bool gate = many_gated && inner[0] != IN_STARVED;
        if (gate) w->async([m] { xs::gate_wait(&m->gate); });
        {
            Held h(m);
            for (uint32_t i = 0; i < many_n; ++i)
                w->async([m, i, h] {
                    if (m->next != i) xs::fail("order", "operation %u of %u executed when operation %u was next", i, m->n, m->next);
                    m->next = i + 1;
                });
        }
        auto open = [m] { xs::sleep_ms(30); xs::gate_open(&m->gate); };
        Thread th;
        th.start(&open);
        if (many_how == 1) {
            for (uint32_t i = 0; i < many_n; ++i) {
                w->wait_for_one();
                if (m->next + gate < i + 1) xs::fail("one", "%u waits for one returned but only %u operations have completed", i + 1, m->next);
            }
            if (gate) w->wait_for_one();
        } else if (many_how == 0) w->wait_for_all();
        else if (inner[0] != IN_STARVED) xs::quiesce_ms(1000);
        else w->wait_for_all();
        if (m->next != many_n) xs::fail("all", "%u of %u operations had been executed when the waits returned", m->next, many_n);
        th.join();
        xs::jumps(false);
        const uint64_t t = xs::now_ns();
        w->wait_for_all();
        w->wait_for_one();
        if (many_how != 1) for (uint32_t i = 0; i < many_n + gate; ++i) w->wait_for_one();
        if (xs::now_ns() != t) xs::fail("idle-wait", "waiting for an idle queue takes time");
        if (many_how != 1 && inner[0] != IN_STARVED) {
            // completions nobody has waited for satisfy as many waits at once, whatever is pending
            struct L { xs::Gate gate; int on; } * l = (L*)xs::raw_alloc(sizeof(L));
            for (uint32_t i = 0; i < many_n; ++i) w->async([m] { ++m->next; });
            xs::quiesce_ms(1000);
            w->async([l] { l->on = 1; xs::gate_wait(&l->gate); });
            xs::quiesce_ms(100);
            if (!l->on) xs::fail("start", "an operation was not started on an idle queue");
            const uint64_t t1 = xs::now_ns();
            w->wait_for_one();
            if (xs::now_ns() != t1) xs::fail("one-late", "waiting for one of %u completed operations took time", many_n);
            xs::gate_open(&l->gate);
            w->wait_for_all();
        }
        delete w;
        while (p->run_one()) ;
        xs::quiesce_ms(100);
        if (m->held) xs::fail("leak", "captured state of %u operations was not released", many_n);
        xs::label(0);
        xs::label(6);
    }
    void run() override
    {
        if (scale) return run_many();
        gr = new group;
        bool late = false;
        for (uint32_t i = 0; i < nq; ++i) {
            pool[i] = new std::shared_ptr<Pool>(std::make_shared<Pool>());
            switch (inner[i]) {
                case IN_SERIAL: in[i] = new queue(naive_serial("s")); break;
                case IN_PARALLEL: in[i] = new queue(naive_parallel("p")); break;
                case IN_GLOBAL: in[i] = new queue(global_queue()); break;
                case IN_OWN: in[i] = nullptr; break;
                case IN_STARVED: in[i] = new queue(naive::create_serial_queue("x", *pool[i])); break;
                case IN_LATE: late = true; in[i] = new queue(naive::create_parallel_queue("l", *pool[i])); break;
            }
            wq[i] = in[i] ? new waitable_queue("w", *in[i]) : new waitable_queue("w");
            cell[i].make();
        }
        LatePool lp{ this };
        Thread lt;
        if (late) lt.start(&lp);
        Sub subs[kT];
        Thread th[kT];
        for (uint32_t t = 0; t < nt; ++t) { subs[t].c = this; subs[t].t = t; th[t].start(&subs[t]); }
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        xs::jumps(false);
        xs::quiesce_ms(500 + total_ms * 2);
        // nobody needs to wait unless there is no thread
        for (uint32_t i = 0; i < nop; ++i) if (inner[op[i].q] != IN_STARVED && !op[i].end) xs::fail("stuck", "operation %u is not executed by the inner queue", i);
        for (uint32_t i = 0; i < nq; ++i) wait_all(i);
        // operations submitted by released state
        xs::quiesce_ms(500);
        for (uint32_t i = 0; i < nq; ++i) { wait_all(i); wq[i]->wait_for_one(); }
        if (!gr->wait(milliseconds(0))) xs::fail("group", "group has pending operations although everything has been waited for");
        for (uint32_t i = 0; i < nq; ++i) {
            int executed = 0;
            if (inner[i] == IN_STARVED && ltimed) { // waits may only help once the timer fired
                xs::quiesce_ms(100);
                wait_all(i);
            }
            (void)executed;
        }
        for (uint32_t i = 0; i < nop; ++i) {
            Op& o = op[i];
            if (o.runs != 1) xs::fail("lost", "operation %u executed %d times", i, o.runs);
            if (!o.iter && o.released != 1) xs::fail("leak", "captured state of operation %u%s was not released", i, o.timed ? " (delayed)" : "");
            for (uint32_t j = 0; j < nop; ++j) {
                Op& p = op[j];
                if (i != j && o.q == p.q && !o.timed && !p.timed && o.sub_end && p.sub_begin > o.sub_end && p.begin < o.begin) xs::fail("order", "operation %u runs before operation %u of the same queue", j, i);
            }
        }
        // nothing is left, waits return at once
        uint64_t t = xs::now_ns();
        for (uint32_t i = 0; i < nq; ++i) { wq[i]->wait_for_all(); wq[i]->wait_for_one(); }
        if (xs::now_ns() != t) xs::fail("idle-wait", "waiting for an idle queue takes time");
        for (uint32_t i = 0; i < nq; ++i) if (inner[i] != IN_STARVED) counting(i);
        for (uint32_t i = 0; i < nq; ++i) { delete wq[i]; delete in[i]; }
        xs::quiesce_ms(100);
        stop = true;
        if (late) lt.join();
        for (uint32_t i = 0; i < nq; ++i) { while ((*pool[i])->run_one()) ; delete pool[i]; }
        if (nop >= 3) {
            bool waits = false;
            for (uint32_t k = 0; k < nt; ++k) for (uint32_t i = 0; i < nact[k]; ++i) if (act[k][i].kind == ALL || act[k][i].kind == ONE || act[k][i].kind == APPLY) waits = true;
            if (waits) xs::label(0);
        }
        if (lstarved) xs::label(1);
        if (lone) xs::label(2);
        if (lnested) xs::label(3);
        if (lresub) xs::label(4);
        if (ltimed) xs::label(5);
    }
};
} // namespace
PROPERTY("C18", C18, "1-4 threads submit (plain, applied, delayed, grouped, nested) to 1-2 waitable queues over serial, parallel, global, starved and late inner queues and wait for one or all operations, also from other queues' operations; non-trivial: at least three operations and a wait",
         "starved or late inner queue", "wait for one returned with operations left", "submitted from an operation", "captured state submits when released", "delayed operation", "12 to 20000 operations of one queue")
