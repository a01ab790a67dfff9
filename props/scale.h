// Programs with few decisions but many objects of one kind: block boundaries,
// counters and limits which small programs never reach.
#pragma once
#include "common.h"

namespace h {
// one of a set of counts around powers of two, rarely a huge one
inline uint32_t
scale_count(Gen& g, uint32_t limit)
{
    static const uint32_t small[] = { 12, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200 };
    static const uint32_t mid[] = { 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025 };
    static const uint32_t large[] = { 2047, 2049, 4096, 4097, 5000 };
    static const uint32_t huge[] = { 32769, 65536, 65537, 70000 };
    const uint32_t k = g.pick(200);
    const uint32_t n = k < 150 ? g.of(small) : k < 192 ? g.of(mid) : k < 199 ? g.of(large) : g.of(huge);
    return n < limit ? n : limit;
}

// bursts of operations arriving just when the idle threads of the pool are about to end
struct Expiry
{
    uint32_t K, rounds, n[10], gap[10], split[10], hold[10];
    uint8_t kind[10][8], prio[10][8], two[10];
    uint32_t sub, done;
    void gen(Gen& g, xs::Config& c, uint32_t k)
    {
        K = k;
        rounds = g.range(2, 10);
        c.jump_p = 0;
        c.freeze_ms = 0;
        xs::desc(" expiry:");
        for (uint32_t r = 0; r < rounds; ++r) {
            n[r] = g.range(1, 8);
            if (g.chance(1, 2) && n[r] > K) n[r] = K;
            two[r] = g.chance(1, 4);
            // as many threads as there can be, all of them about to end at once
            hold[r] = g.chance(1, 3) ? 5 : 0;
            if (hold[r]) n[r] = 2 * K;
            else if (r && hold[r - 1] && g.chance(2, 3)) n[r] = 1;
            split[r] = g.pick(3);
            gap[r] = (uint32_t[]){ 30000, 30000, 30000, 30000, 30000, 29999, 30001, 60000 }[g.pick(8)];
            for (uint32_t i = 0; i < n[r]; ++i) { kind[r][i] = hold[r] ? (uint32_t)QK_GLOBAL : g.pick(QK_COUNT); prio[r][i] = g.chance(1, 2) ? 2 : g.pick(4); }
            xs::desc(" %u ops%s, %u ms;", n[r], two[r] ? " from two threads" : "", gap[r]);
            if (hold[r]) xs::desc(" (each takes 5 ms)");
        }
    }
    struct Half
    {
        Expiry* e;
        uint32_t r, from, step;
        void operator()()
        {
            Expiry* m = e;
            for (uint32_t i = from; i < m->n[r]; i += step) {
                const bool nest = m->split[r] == 2 && i == 0;
                queue q = make_queue(m->kind[r][i], m->prio[r][i]);
                __atomic_fetch_add(&m->sub, nest ? 2 : 1, __ATOMIC_RELAXED);
                const uint32_t ms = m->hold[r];
                q.async([m, nest, ms] {
                    if (ms) xs::sleep_ms(ms);
                    __atomic_fetch_add(&m->done, 1, __ATOMIC_RELAXED);
                    if (nest) global_queue().async([m] { __atomic_fetch_add(&m->done, 1, __ATOMIC_RELAXED); });
                });
            }
        }
    };
    void run()
    {
        for (uint32_t r = 0; r < rounds; ++r) {
            const double t = xs::now_ms();
            Half a = { this, r, 0, two[r] ? 2u : 1u }, b = { this, r, 1, 2 };
            Thread th;
            if (two[r]) th.start(&b);
            a();
            if (two[r]) th.join();
            xs::quiesce_ms(100);
            if (done != sub) xs::fail("lost", "%u of %u operations submitted when the threads of the pool were about to end have not been executed", sub - done, sub);
            const double left = t + hold[r] + gap[r] - xs::now_ms();
            if (left > 0) xs::sleep_ms((uint64_t)left);
        }
    }
};
// many operations on one queue
struct ManyOps
{
    enum { FROM_THREAD, FROM_OP, FROM_THREADS };
    uint32_t n, from, K, half;
    bool serial, gated, dropped, twice;
    uint8_t* runs;
    uint32_t next[2], active, done;
    int held;
    xs::Gate gate;
    int* plain; // race checked, serial queues only
    queue* q;

    void gen(Gen& g, xs::Config& c, uint32_t k, uint32_t limit = 70000)
    {
        K = k;
        n = scale_count(g, limit);
        from = g.pick(3);
        gated = g.chance(1, 2);
        dropped = g.chance(1, 2);
        c.step_limit += n * 1500ull;
        xs::desc(" many: %u operations from %s%s%s", n, from == FROM_THREAD ? "a thread" : from == FROM_OP ? "an operation" : "two threads", gated ? ", queue blocked meanwhile" : "", dropped ? ", handle dropped" : "");
    }
    void one(uint32_t i)
    {
        if (runs[i]++) xs::fail("twice", "operation %u of %u was executed twice", i, n);
        if (serial) {
            if (active++) xs::fail("overlap", "operation %u overlaps with another one of its serial queue", i);
            const uint32_t s = i < half ? 0 : 1;
            if (next[s] != i) xs::fail("order", "operation %u executed when %u was next", i, next[s]);
            next[s] = i + 1;
            ++*plain;
            --active;
        }
        ++done;
    }
    // what operations capture; counted, as each has to be released
    struct Held
    {
        ManyOps* m;
        explicit Held(ManyOps* mm) : m(mm) { ++m->held; }
        Held(const Held& o) : m(o.m) { ++m->held; }
        ~Held() { --m->held; }
    };
    void submit(uint32_t from, uint32_t to)
    {
        ManyOps* m = this;
        queue local(*q);
        Held h(m);
        for (uint32_t i = from; i < to; ++i) local.async([m, i, h] { m->one(i); });
    }
    void run(const queue& target, bool is_serial)
    {
        serial = is_serial;
        runs = (uint8_t*)xs::raw_alloc(n);
        plain = new int(0);
        q = new queue(target);
        half = from == FROM_THREADS ? n / 2 : n;
        next[0] = 0;
        next[1] = half;
        ManyOps* m = this;
        if (gated) for (uint32_t i = 0; i < (serial ? 1 : 2 * K); ++i) q->async([m] { xs::gate_wait(&m->gate); });
        if (from == FROM_THREADS) {
            struct Sub { ManyOps* m; void operator()() { m->submit(m->half, m->n); } } s{ this };
            Thread* t = new Thread;
            Sub* sp = new Sub(s);
            t->start(sp);
            submit(0, half);
            t->join();
            delete t;
            delete sp;
        } else if (from == FROM_OP && !gated) {
            xs::Gate* g = (xs::Gate*)xs::raw_alloc(sizeof(xs::Gate));
            q->async([m, g] { m->submit(0, m->n); xs::gate_open(g); });
            xs::gate_wait(g);
        } else submit(0, n);
        if (dropped) { delete q; q = nullptr; }
        if (gated) xs::gate_open(&gate);
    }
    void check()
    {
        for (uint32_t i = 0; i < n; ++i)
            if (runs[i] != 1) xs::fail("lost", "operation %u of %u was executed %d times", i, n, runs[i]);
        if (held) xs::fail("leak", "what operations captured has not been released after all %u have been executed", n);
        delete q;
        q = nullptr;
    }
};

// many queues, each with a few operations, all pending at once
struct ManyQueues
{
    uint32_t n, per, K, drop, done;
    bool gated, serial, par;
    uint8_t runs[1100], active[1100];
    int held;
    xs::Gate gate;
    struct Held
    {
        ManyQueues* m;
        explicit Held(ManyQueues* mm) : m(mm) { ++m->held; }
        Held(const Held& o) : m(o.m) { ++m->held; }
        ~Held() { --m->held; }
    };
    void gen(Gen& g, xs::Config& c, uint32_t k)
    {
        K = k;
        n = scale_count(g, 1025);
        per = g.range(1, 3);
        drop = g.pick(3);
        gated = g.chance(1, 2);
        par = g.chance(1, 4);
        c.step_limit += n * per * 3000ull;
        static const char* const dn[] = { "dropped at once", "dropped later", "dropped by their last operation" };
        xs::desc(" many: %u %s queues with %u operations each, %s%s", n, par ? "parallel" : "serial", per, dn[drop], gated ? ", pool blocked meanwhile" : "");
    }
    void run()
    {
        ManyQueues* m = this;
        if (gated) for (uint32_t i = 0; i < 2 * K; ++i) global_queue().async([m] { xs::gate_wait(&m->gate); });
        std::vector<std::shared_ptr<queue>> v(n);
        {
            Held h(this);
            for (uint32_t i = 0; i < n; ++i) v[i] = std::make_shared<queue>(par ? naive_parallel("p") : naive_serial("s"));
            for (uint32_t j = 0; j < per; ++j)
                for (uint32_t i = 0; i < n; ++i) {
                    std::shared_ptr<queue> last;
                    if (j == per - 1 && drop == 2) last = v[i];
                    const queue q(*v[i]);
                    if (j == per - 1 && drop != 1) v[i].reset();
                    q.async([m, i, j, h, last] {
                        if (!m->par && m->active[i]++) xs::fail("overlap", "operations of queue %u of %u overlap", i, m->n);
                        if (!m->par && m->runs[i] != j) xs::fail("order", "operation %u of queue %u of %u executed when operation %u was next", j, i, m->n, m->runs[i]);
                        m->runs[i]++;
                        m->active[i] = 0;
                        ++m->done;
                    });
                }
        }
        xs::quiesce_ms(10);
        if (gated) xs::gate_open(&gate);
        xs::quiesce_ms(1000);
        for (uint32_t i = 0; i < n; ++i) if (runs[i] != per) xs::fail("lost", "%u of %u operations of queue %u of %u were executed", runs[i], per, i, n);
        v.clear();
        xs::quiesce_ms(100000);
        if (held) xs::fail("leak", "what operations captured has not been released");
    }
};

// many operations, waits and some notifications on one group
struct ManyGroup
{
    uint32_t n, nnote, npoll, K;
    bool gated, dropped;
    int64_t timeout;
    uint32_t done, active_notes, held;
    uint32_t seen[64];
    int runs[64];
    xs::Gate gate;
    void gen(Gen& g, xs::Config& c, uint32_t k, bool notes)
    {
        K = k;
        n = scale_count(g, 5000);
        gated = g.chance(2, 3);
        dropped = g.chance(1, 3);
        nnote = notes ? g.range(1, g.chance(1, 2) ? 60 : 4) : g.chance(1, 3) ? 1 : 0;
        // waits which end each list of operations
        npoll = g.pick(3) ? g.range(1, n) : n;
        if (npoll > 600) npoll = 600; // each looks at all lists
        timeout = g.chance(1, 2) ? -1 : 1000000;
        c.jump_p = 0;
        c.freeze_ms = 0;
        c.step_limit += n * 3000ull + 20ull * npoll * npoll;
        xs::desc(" many: %u operations of a group%s, %u polling waits, %u notifications, wait(%ld)%s", n, gated ? " held back" : "", npoll, nnote, (long)timeout, dropped ? ", dropped" : "");
    }
    void run(const queue& target, bool serial)
    {
        ManyGroup* m = this;
        queue q(target);
        group* gr = new group;
        int* out = (int*)calloc(n, sizeof(int));
        if (gated) for (uint32_t i = 0; i < (serial ? 1 : 2 * K); ++i) q.async([m] { xs::gate_wait(&m->gate); });
        uint32_t every = n / nnote_max(), polls = 0, notes = 0;
        if (!every) every = 1;
        uint32_t pevery = n / npoll;
        if (!pevery) pevery = 1;
        for (uint32_t i = 0; i < n; ++i) {
            gr->async([m, out, i] { out[i]++; ++m->done; }, q);
            if (i % pevery == 0) {
                ++polls;
                const bool r = gr->wait(milliseconds(0));
                if (gated ? r : r && done < i + 1) xs::fail("early-wait", "wait(0) reports that %u operations have been executed, %u have", i + 1, done);
            }
            if (notes < nnote && i % every == every - 1) {
                const uint32_t k = notes++;
                seen[k] = i + 1;
                gr->notify([m, out, k] {
                    if (m->runs[k]++) xs::fail("notify-twice", "notification %u executed twice", k);
                    for (uint32_t j = 0; j < m->seen[k]; ++j) if (out[j] != 1) xs::fail("early-notify", "notification runs although operation %u of %u added before has not been executed", j, m->seen[k]);
                }, global_queue());
            }
        }
        if (gated) {
            // nothing may have happened, and everything has to afterwards
            if (gr->wait(milliseconds(5))) xs::fail("early-wait", "wait returned true although no operation could be executed");
            xs::quiesce_ms(10);
            for (uint32_t k = 0; k < notes; ++k) if (runs[k]) xs::fail("early-notify", "notification %u executed although no operation could be", k);
            if (done) xs::fail("harness", "operations executed");
            xs::gate_open(&gate);
        }
        const bool order = !(dropped && nnote); // with a happens-before edge
        if (!order) { delete gr; gr = nullptr; xs::quiesce_ms(1000); }
        else {
            const double t0 = xs::now_ms();
            if (!gr->wait(milliseconds(timeout))) xs::fail("false-wait", "wait(%ld) returned false", (long)timeout);
            if (xs::now_ms() - t0 > 1) xs::fail("late-wait", "waiting for operations which take no time took %.3f ms", xs::now_ms() - t0);
        }
        if (done != n) xs::fail(order ? "early-wait" : "lost", "%u of %u operations of the group have been executed after the wait", done, n);
        for (uint32_t i = 0; i < n && order; ++i) if (out[i] != 1) xs::fail("early-wait", "operation %u of %u of the group has been executed %d times after the wait", i, n, out[i]);
        xs::quiesce_ms(1000);
        for (uint32_t k = 0; k < notes; ++k) if (runs[k] != 1) xs::fail("notify-lost", "notification %u of %u executed %d times", k, notes, runs[k]);
        if (gr && !gr->wait(milliseconds(0))) xs::fail("empty", "waiting for an empty group returned false");
        delete gr; // out is left to notifications
    }
    uint32_t nnote_max() { return nnote ? nnote : 1; }
};

// many handlers of one signal or many emits to some
struct ManySignal
{
    typedef signal<void(uint32_t, std::shared_ptr<int>)> Sig;
    enum { SINGLE, BATCH, SYNC };
    struct H { uint8_t mode, gone; uint32_t runs, last; uint64_t at; connection* c; };
    uint32_t nh, ne, K, skips;
    uint8_t fixed, how; // how half of them are disconnected
    bool gated, ser, pending;
    H* hs;
    uint8_t* cnt; // [nh][ne]
    uint64_t emitted; // begin of the last emit
    xs::Gate gate;
    void gen(Gen& g, xs::Config& c, uint32_t k, int focus)
    {
        K = k;
        if (focus == 15) { nh = g.range(1, 4); ne = g.range(2, 6); }
        else if (g.chance(1, 2)) { nh = scale_count(g, 300); ne = g.range(2, 6); }
        else { ne = scale_count(g, 5000); nh = g.range(2, ne > 1100 ? 3 : 6); }
        fixed = g.chance(1, 4) ? 9 : focus == 13 ? (uint8_t)BATCH : focus == 12 ? (uint8_t)SINGLE : (uint8_t)g.pick(3);
        how = g.pick(focus == 14 ? 3 : 4);
        gated = focus == 15 || g.chance(1, 2);
        pending = gated && g.chance(1, 2);
        // everything emitted before is dropped
        skips = focus == 15 ? scale_count(g, 70000) : gated && g.chance(1, 3) ? g.chance(1, 2) ? 1 : scale_count(g, 70000) : 0;
        if (skips * (uint64_t)nh > 200000) skips = 200000 / nh;
        c.step_limit += 20ull * skips * (nh + 10);
        c.jump_p = 0;
        c.freeze_ms = 0;
        c.step_limit += (uint64_t)nh * ne * 3000ull;
        static const char* const hn[] = { "half disconnected", "half disconnected by a manager", "signal destroyed", "all kept" };
        static const char* const mn[] = { "single", "batched", "synchronous" };
        xs::desc(" many: %u %s handlers, %u emits%s, %s%s", nh, fixed < 3 ? mn[fixed] : "mixed", ne, gated ? " while the queue is blocked" : "", hn[how], pending ? " with invocations pending" : "");
        if (skips) xs::desc(", %u times skip_all", skips);
    }
    void run(const queue& target, bool serial)
    {
        ManySignal* m = this;
        queue q(target);
        hs = (H*)xs::raw_alloc(nh * sizeof(H));
        cnt = (uint8_t*)xs::raw_alloc((size_t)nh * ne);
        ser = serial;
        Sig* s = new Sig;
        connection_manager* mgr = new connection_manager;
        for (uint32_t i = 0; i < nh; ++i) {
            hs[i].mode = fixed < 3 ? fixed : i % 3;
            connection c = s->connect([m, i](uint32_t e, std::shared_ptr<int> p) {
                H& h = m->hs[i];
                h.at = xs::seq();
                if (h.gone) xs::fail("after-disconnect", "handler %u of %u invoked although it has been disconnected", i, m->nh);
                if (e >= m->ne || *p != (int)e) xs::fail("value", "handler %u received values which were not emitted", i);
                if (m->cnt[(size_t)i * m->ne + e]++) xs::fail("twice", "emit %u invoked handler %u of %u twice", e, i, m->nh);
                if (h.runs && e < h.last && (m->ser || h.mode == SYNC)) xs::fail("order", "handler %u of %u receives emit %u after emit %u", i, m->nh, e, h.last);
                if (!h.runs++ || e > h.last) h.last = e;
            }, q, hs[i].mode == SYNC ? notification_mode::_synchronous_update : hs[i].mode == BATCH ? notification_mode::batch_updates : notification_mode::single_updates);
            hs[i].c = new connection(c);
            if (i % 2 && how == 1) *mgr += c;
        }
        const uint32_t half = pending ? ne / 2 : ne;
        if (gated) for (uint32_t i = 0; i < (serial ? 1 : 2 * K); ++i) q.async([m] { xs::gate_wait(&m->gate); });
        if (skips) {
            // these never arrive, others do
            for (uint32_t i = 0; i < skips / 2; ++i) s->skip_all();
            send(s, 0, half);
            for (uint32_t i = skips / 2; i < skips; ++i) s->skip_all();
            for (uint32_t i = 0; i < nh; ++i)
                for (uint32_t e = 0; e < half; ++e) {
                    if (cnt[(size_t)i * ne + e] && hs[i].mode != SYNC) xs::fail("harness", "handler executed");
                    cnt[(size_t)i * ne + e] = 0;
                    hs[i].runs = 0;
                }
        }
        send(s, 0, half);
        if (gated && !pending) { xs::gate_open(&gate); }
        if (!pending) { xs::quiesce_ms(1000); check(0, ne, false); }
        for (uint32_t i = 1; i < nh && how == 0; i += 2) {
            if (!hs[i].c->disconnect()) xs::fail("connected", "disconnecting handler %u reports that it is not connected", i);
            hs[i].gone = 1;
        }
        if (how == 1) { mgr->reset_connections(); for (uint32_t i = 1; i < nh; i += 2) hs[i].gone = 1; }
        if (how == 2) { delete s; s = nullptr; for (uint32_t i = 0; i < nh; ++i) hs[i].gone = 1; }
        for (uint32_t i = 0; i < nh; ++i) if (hs[i].c->connected() == (bool)hs[i].gone) xs::fail("connected", "handler %u of %u is reported to be %sconnected", i, nh, hs[i].gone ? "" : "dis");
        if (pending) {
            if (s) send(s, half, ne);
            xs::gate_open(&gate);
            xs::quiesce_ms(1000);
            check(0, ne, true);
        }
        delete s;
        for (uint32_t i = 0; i < nh; ++i) { hs[i].gone = 1; if (hs[i].c->connected()) xs::fail("connected", "handler %u is connected to a destroyed signal", i); delete hs[i].c; }
        delete mgr;
        xs::quiesce_ms(100);
    }
    void send(Sig* s, uint32_t a, uint32_t b)
    {
        for (uint32_t e = a; e < b; ++e) { std::shared_ptr<int> p(new int((int)e)); emitted = xs::seq(); (*s)(e, p); }
    }
    void check(uint32_t a, uint32_t b, bool later)
    {
        for (uint32_t i = 0; i < nh; ++i) {
            if (later && hs[i].gone) continue;
            if (hs[i].mode == BATCH) {
                if (hs[i].at < emitted) xs::fail("missed", "batched handler %u of %u has not been invoked after the last of %u emits", i, nh, b);
                if (gated && !pending && ser && hs[i].runs != 1) xs::fail("surplus", "batched handler %u of %u invoked %u times for emits made before its queue got to it", i, nh, hs[i].runs);
                continue;
            }
            for (uint32_t e = a; e < b; ++e)
                if (cnt[(size_t)i * ne + e] != 1) xs::fail("lost", "emit %u of %u invoked handler %u of %u %u times", e, ne, i, nh, cnt[(size_t)i * ne + e]);
        }
    }
};
// many timers, or one firing often
// a timeout beyond the range of narrow integer types, elapsing or interrupted
struct BigWait
{
    int64_t ms, end; // end: -1: nobody ends it
    void gen(Gen& g)
    {
        ms = -2;
        if (!g.chance(1, 6)) return;
        static const int64_t v[] = { 255, 256, 1000, 1001, 2148, 4295, 32768, 65536, 70000, 2147483, 2147484, 4294968, 4300000, 86400000, 2147483647, 2147483648ll, 2147483649ll, 4294967295ll, 4294967296ll, 4294967300ll };
        ms = g.of(v);
        end = g.chance(1, 2) ? -1 : ms > 5000000 ? ms / 1000 : g.chance(1, 2) ? ms - 1 : ms / 2;
        // beyond that point of the virtual time waits never end
        if (end < 0 && ms > 3000000000ll) end = 4000000;
        xs::desc("; a wait of %lld ms%s", (long long)ms, end < 0 ? "" : " is ended");
    }
    template<typename W, typename D>
    void run(const char* what, W wait, D done)
    {
        if (ms < 0) return;
        xs::jumps(false);
        struct E { int64_t at; D* d; volatile bool did; void operator()() { xs::sleep_ms(at); did = true; (*d)(); } }& e = *(E*)xs::raw_alloc(sizeof(E));
        e.at = end;
        e.d = &done;
        Thread t;
        const double t0 = xs::now_ms();
        if (end >= 0) t.start(&e);
        const bool r = wait(milliseconds(ms));
        const double spent = xs::now_ms() - t0;
        if (r != (end >= 0)) xs::fail("big-timeout", "%s(%lld) returns %s after %.3f ms", what, (long long)ms, r ? "true" : "false", spent);
        if (r && !e.did) xs::fail("big-timeout", "%s(%lld) returns true after %.3f ms without a reason", what, (long long)ms, spent);
        const double want = end < 0 ? ms : end;
        if (spent < want - 0.001 || spent > want + 1) xs::fail("big-timeout", "%s(%lld) takes %.3f ms instead of %.3f", what, (long long)ms, spent, want);
        if (end >= 0) t.join();
    }
};
struct ManyTimers
{
    uint32_t n, fires, interval, longest, delay[128];
    bool cancel;
    timer* t[128];
    uint32_t fired[128];
    double first[128], last[128];
    uint8_t gone[128];
    void gen(Gen& g, xs::Config& c)
    {
        const uint32_t w = g.pick(4);
        if (w < 1) { n = scale_count(g, 100); fires = g.range(2, 6); }
        else if (w < 2) { n = g.range(1, 3); fires = scale_count(g, 5000); }
        else { n = g.range(1, 4); fires = g.range(2, 4); }
        interval = g.range(1, 20);
        if (w >= 2 || g.chance(1, 3)) {
            static const uint32_t iv[] = { 255, 257, 1000, 2500, 4500, 32769, 65537, 70000, 2200000, 4300000, 86400000 };
            interval = g.of(iv);
            if (fires > 40) fires = 40;
        }
        static const uint32_t dv[] = { 40, 256, 1001, 2148, 4295, 65536, 2147484, 4294968 };
        uint32_t dmax = interval > 20 ? g.of(dv) : 40;
        if (dmax > 3 * interval) dmax = 40;
        longest = 0;
        for (uint32_t i = 0; i < n; ++i) {
            delay[i] = g.chance(1, 2) ? 0 : dmax > 40 ? dmax : i % 40;
            if (delay[i] > longest) longest = delay[i];
        }
        cancel = g.chance(1, 2);
        c.jump_p = 0;
        c.freeze_ms = 0;
        c.step_limit += 2000ull * n * ((longest + 5) / interval + fires + 10);
        xs::desc(" %u timers with an interval of %u ms firing %u times, half %s", n, interval, fires, cancel ? "cancelled" : "suspended");
    }
    void run(const queue& q)
    {
        ManyTimers* m = this;
        const double t0 = xs::now_ms();
        for (uint32_t i = 0; i < n; ++i) {
            t[i] = new timer(milliseconds(interval), q);
            t[i]->handler([m, i] {
                const double now = xs::now_ms();
                if (m->gone[i]) xs::fail("after-cancel", "timer %u of %u fires although it has been stopped", i, m->n);
                if (m->fired[i] && now < m->last[i] + m->interval - 0.0005) xs::fail("early", "timer %u of %u with interval %u fires %.3f ms after the last firing", i, m->n, m->interval, now - m->last[i]);
                if (!m->fired[i]) m->first[i] = now;
                m->last[i] = now;
                m->fired[i]++;
            });
            t[i]->resume(milliseconds(delay[i]));
        }
        xs::quiesce_ms(5 + longest + (uint64_t)interval * fires);
        const double spent = xs::now_ms() - t0;
        for (uint32_t i = 0; i < n; ++i) {
            if (fired[i] && (first[i] < t0 + delay[i] - 0.0005 || first[i] > t0 + delay[i] + 2)) xs::fail("first", "timer %u of %u with a delay of %u ms first fires after %.3f ms", i, n, delay[i], first[i] - t0);
            const double want = 1 + (spent - delay[i]) / interval;
            if (fired[i] > want + 0.01) xs::fail("early", "timer %u of %u with interval %u fired %u times within %.3f ms", i, n, interval, fired[i], spent);
            if (fired[i] < (spent - delay[i] - 3) / (interval + 0.1)) xs::fail("dead", "timer %u of %u with interval %u fired %u times within %.3f ms", i, n, interval, fired[i], spent);
        }
        for (uint32_t i = 0; i < n; i += 2) {
            if (cancel) t[i]->cancel();
            else { t[i]->suspend(); }
        }
        if (!cancel) xs::quiesce_ms(2);
        uint32_t before[128];
        for (uint32_t i = 0; i < n; ++i) { before[i] = fired[i]; gone[i] = i % 2 == 0; }
        xs::quiesce_ms(4ull * interval + 4);
        for (uint32_t i = 1; i < n; i += 2) if (fired[i] < before[i] + 3) xs::fail("dead", "timer %u of %u stopped firing although others were stopped", i, n);
        for (uint32_t i = 0; i < n; ++i) { t[i]->cancel(); gone[i] = 1; if (!cancel) t[i]->resume(); }
        for (uint32_t i = 0; i < n; ++i) delete t[i];
        xs::quiesce_ms(100 + interval);
    }
};
} // namespace h
