// C23: random programs mixing all facilities.
#include "common.h"
#include <atomic>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace h;

namespace {
const int kQ = 4, kG = 2, kTm = 2, kNo = 2, kS = 3, kT = 4, kA = 10, kN = 120, kB = 4;
enum Code {
    ASYNC, GASYNC, GNOTIFY, AFTER, EMIT, CONNECT, TPULSE, THANDLER, TINTERVAL, TTARGET, NPULSE, NHANDLER, NDATA, GWAIT, APPLY, WASYNC, SIGSKIP, TEMPQ, TEMPT, BARRIER, SLEEP, YIELD, COPIES,
    IN_OP, // the following are for harness threads only: they may wait for operations
    WONE = IN_OP, WALL, TCANCEL, NCANCEL, DISCONNECT, RESETMGR, GWAITALL, BWAIT, DROPALL, SERAPPLY, CODES
};
const char* const kCode[] = { "async", "gasync", "gnotify", "after", "emit", "connect", "tpulse", "thandler", "tinterval", "ttarget", "npulse", "nhandler", "ndata", "gwait", "apply", "wasync", "skip", "tempqueue", "temptimer", "barrier", "sleep", "yield", "copies",
                              "waitone", "waitall", "tcancel", "ncancel", "disconnect", "reset", "gwaitall", "bwait", "drop", "sapply" };

struct C23;
C23* C;
typedef signal<void(int, std::shared_ptr<int>)> Sig;

struct C23 : Case
{
    struct Act { uint8_t code, q, x, n; int16_t body; };
    struct Body { uint8_t n; Act a[kB]; int runs; bool must, submitted; };
    uint32_t nq, nt, nb, nact[kT], ns;
    uint8_t qkind[kQ], wq_inner, ntq[kTm], nnq[kNo], chain;
    Act act[kT][kA];
    Body body_[kN];
    int peer[kNo], sock[kNo];
    volatile bool settled;
    bool used[CODES];
    volatile int ok;

    // all handles; an actor has its own copy, operations share that of theirs
    struct Bundle
    {
        std::vector<queue> q;
        std::vector<group> g;
        std::vector<timer> t;
        std::vector<socket_notifier> n;
        std::vector<std::shared_ptr<Sig>> s;
        std::shared_ptr<connection_manager> m;
        std::unique_ptr<waitable_queue> w;
        Bundle() {}
        Bundle(const Bundle& o) : q(o.q), g(o.g), t(o.t), n(o.n), s(o.s), m(o.m), w(new waitable_queue(*o.w)) {}
    };
    typedef std::shared_ptr<Bundle> B;

    int gen_body(Gen& g, int depth)
    {
        if (nb >= kN) return -1;
        int id = (int)nb++;
        Body& b = body_[id];
        b.n = depth >= 3 ? g.pick(2) : g.pick(kB);
        xs::desc("{");
        for (uint32_t i = 0; i < b.n; ++i) { Act a = gen_act(g, depth + 1, IN_OP); body_[id].a[i] = a; }
        xs::desc("}");
        return id;
    }
    Act gen_act(Gen& g, int depth, uint32_t codes)
    {
        Act a{};
        a.code = g.pick(codes);
        a.q = g.pick(nq);
        a.x = g.pick(6);
        a.n = g.pick(5);
        a.body = -1;
        used[a.code] = true;
        xs::desc(" %s%u.%u", kCode[a.code], a.q, a.x);
        switch (a.code) {
            case ASYNC: case GASYNC: case GNOTIFY: case AFTER: case CONNECT: case THANDLER: case NHANDLER: case WASYNC: case TEMPQ: case TEMPT: case BARRIER: case BWAIT:
                if (depth < 4) a.body = (int16_t)gen_body(g, depth);
                if (a.body < 0) a.code = YIELD;
        }
        return a;
    }
    void generate(Gen& g, xs::Config& c) override
    {
        C = this;
        uint32_t tc = g.range(1, 4);
        thread_count(tc);
        if (g.chance(1, 10)) { setenv("XDISPATCH2_TRACE", "1", 1); xs::desc("tracing, "); }
        c.step_limit = 900000;
        nq = g.range(1, kQ);
        xs::desc("threads=%u ", tc);
        for (uint32_t i = 0; i < nq; ++i) { qkind[i] = g.pick(QK_COUNT); xs::desc("q%u=%s ", i, kind_name(qkind[i])); }
        wq_inner = g.pick(nq);
        for (int i = 0; i < kTm; ++i) ntq[i] = g.pick(nq);
        for (int i = 0; i < kNo; ++i) nnq[i] = g.pick(nq);
        ns = g.range(1, kS);
        chain = g.pick(2);
        nt = g.range(1, g.big ? kT : 3);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kA : 6);
            for (uint32_t i = 0; i < nact[t]; ++i) act[t][i] = gen_act(g, 0, CODES);
        }
    }
    static void noise(uint32_t n) { for (uint32_t i = 0; i < n; ++i) xs::point(); }
    // bodies of handlers may run often, their actions only the first times
    void run_body(int id, const B& b, bool once)
    {
        Body& y = body_[id];
        if (once) { if (y.runs++) xs::fail("twice", "operation %d executed twice", id); }
        else if (y.runs++ >= 2) return;
        for (uint32_t i = 0; i < y.n; ++i) step(y.a[i], b);
    }
    void mark(int id) { body_[id].must = true; }
    void step(const Act& a, const B& b)
    {
        Bundle& h = *b;
        const int id = a.body;
        const queue q = h.q[a.q];
        timer& t = h.t[a.x % kTm];
        socket_notifier& no = h.n[a.x % kNo];
        group& g = h.g[a.x % kG];
        Sig& s = *h.s[a.x % ns];
        const B bb = a.n & 1 ? b : std::make_shared<Bundle>(h);
        // an operation is submitted by whoever runs first, once
        auto once = [&] {
            if (__atomic_exchange_n(&body_[id].submitted, true, __ATOMIC_SEQ_CST)) return false;
            mark(id);
            return true;
        };
        switch (a.code) {
            case ASYNC: if (once()) q.async([id, bb] { C->run_body(id, bb, true); }); break;
            case GASYNC: if (once()) g.async([id, bb] { C->run_body(id, bb, true); }, q); break;
            case GNOTIFY: if (once()) g.notify([id, bb] { C->run_body(id, bb, true); }, q); break;
            case AFTER: if (once()) q.after(milliseconds(a.n * 3), [id, bb] { C->run_body(id, bb, true); }); break;
            case EMIT: s((int)a.n, std::make_shared<int>(a.n)); break;
            case CONNECT: {
                std::weak_ptr<Bundle> w = bb;
                // weak: a handler owning its own signal would never go away
                connection c = s.connect(
                  [id, w](int, const std::shared_ptr<int>& v) {
                      volatile int x = *v;
                      (void)x;
                      if (B l = w.lock()) C->run_body(id, l, false);
                  },
                  q, a.n & 2 ? notification_mode::batch_updates : notification_mode::single_updates);
                if (a.n & 1) *h.m += c;
                break;
            }
            case TPULSE: t.resume(milliseconds(a.n)); if (a.x & 2) xs::sleep_ms(a.n * 2); t.suspend(); break;
            case THANDLER: { std::weak_ptr<Bundle> w = bb; t.handler([id, w] { if (B l = w.lock()) C->run_body(id, l, false); }); break; }
            case TINTERVAL: t.interval(milliseconds(a.n)); break;
            case TTARGET: noise(a.n); break;
            case NPULSE: no.resume(); if (a.x & 2) xs::sleep_ms(a.n * 2); no.suspend(); break;
            case NHANDLER: {
                std::weak_ptr<Bundle> w = bb;
                no.handler([id, w](socket_t f, notifier_type y) {
                    eat(f, y);
                    if (B l = w.lock()) C->run_body(id, l, false);
                });
                break;
            }
            case NDATA: {
                int p = peer[a.x % kNo];
                if (a.x % kNo == 1) eat(p, notifier_type::READ);
                else if (send(p, "abc", 1 + a.n % 3, MSG_DONTWAIT | MSG_NOSIGNAL)) {}
                break;
            }
            case GWAIT: g.wait(milliseconds(a.n)); break;
            case APPLY: {
                int* sum = (int*)calloc(8, sizeof(int));
                global_queue(kPrios[a.x & 3]).apply(a.n, [sum](size_t i) { sum[i] = 1; });
                for (uint32_t i = 0; i < a.n; ++i) if (!sum[i]) xs::fail("apply", "iteration not executed");
                free(sum);
                break;
            }
            case WASYNC: if (once()) h.w->async([id, bb] { C->run_body(id, bb, true); }); break;
            case SIGSKIP: s.skip_all(); break;
            case TEMPQ: {
                if (!once()) break;
                queue x = a.x & 1 ? naive_serial("tmp") : naive_parallel("tmp");
                x.async([] { noise(1); });
                x.async([id, bb] { C->run_body(id, bb, true); });
                break;
            }
            case TEMPT: {
                if (!once()) break;
                timer x(milliseconds(0), q);
                x.handler([id, bb] { C->run_body(id, bb, true); });
                x.resume(milliseconds(a.n));
                break;
            }
            case BARRIER: {
                if (!once()) break;
                auto o = std::make_shared<barrier_operation>();
                q.async([id, bb] { C->run_body(id, bb, true); });
                q.async(o);
                if (a.x & 1) o->wait(milliseconds(a.n));
                if (o->has_passed() && !o->wait()) xs::fail("barrier", "passed barrier does not let pass");
                break;
            }
            case SLEEP: xs::sleep_ms(a.n * 2); break;
            case YIELD: noise(a.n + 1); break;
            case COPIES: { Bundle c1(h); Bundle c2(c1); noise(1); c1.t = c2.t; c1.q = c2.q; c1.g = c2.g; c1.n = c2.n; break; }
            case WONE: h.w->wait_for_one(); break;
            case WALL: h.w->wait_for_all(); break;
            case TCANCEL: t.cancel(); break;
            case NCANCEL: no.cancel(); break;
            case DISCONNECT: {
                connection c = s.connect([](int, const std::shared_ptr<int>&) { noise(1); }, q);
                if (!c.connected() || !c.is_connected_to(s)) xs::fail("connected", "new connection is not connected");
                if (a.n & 1) s((int)a.n, std::make_shared<int>(a.n));
                connection d = c;
                if (a.n & 2) s.disconnect(c);
                else c.disconnect();
                if (d.connected()) xs::fail("connected", "connection is still connected");
                break;
            }
            case RESETMGR: if (a.n & 1) h.m->reset_connections(); else h.m->reset_connections_with(s); break;
            case GWAITALL: g.wait(milliseconds(20000)); break;
            case BWAIT: {
                if (!once()) break;
                auto o = std::make_shared<barrier_operation>();
                naive_serial("bw").async([id, bb] { C->run_body(id, bb, true); });
                q.async(o);
                if (!o->wait()) xs::fail("barrier", "wait returned false without a timeout");
                break;
            }
            case SERAPPLY: {
                int* sum = (int*)calloc(8, sizeof(int));
                q.apply(a.n, [sum](size_t i) { sum[i]++; });
                for (uint32_t i = 0; i < a.n; ++i) if (sum[i] != 1) xs::fail("apply", "iteration not executed");
                free(sum);
                break;
            }
        }
    }
    static void eat(int f, notifier_type y)
    {
        char b[4096];
        memset(b, 0, sizeof b);
        if (y == notifier_type::WRITE) while (send(f, b, sizeof b, MSG_DONTWAIT | MSG_NOSIGNAL) > 0) {}
        else while (recv(f, b, sizeof b, MSG_DONTWAIT) > 0) {}
    }
    struct Actor
    {
        uint32_t t;
        B* b;
        void operator()()
        {
            B mine;
            mine.swap(*b);
            for (uint32_t i = 0; i < C->nact[t]; ++i) {
                const Act& a = C->act[t][i];
                if (a.code == DROPALL) { B n = std::make_shared<Bundle>(*mine); mine.reset(); noise(1); mine = n; continue; }
                C->step(a, mine);
            }
        }
    };
    void run() override
    {
        Actor ac[kT];
        Thread th[kT];
        {
            B b = std::make_shared<Bundle>();
            for (uint32_t i = 0; i < nq; ++i) b->q.push_back(make_queue(qkind[i], i));
            for (int i = 0; i < kG; ++i) b->g.push_back(group());
            for (int i = 0; i < kTm; ++i) { b->t.push_back(timer(milliseconds(2 + i), b->q[ntq[i]])); b->t.back().handler([] { noise(1); }); }
            for (int i = 0; i < kNo; ++i) {
                int sv[2];
                if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) xs::inconclusive("socketpair");
                int sz = 4096;
                setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
                sock[i] = sv[0];
                peer[i] = sv[1];
                b->n.push_back(socket_notifier(sv[0], i ? notifier_type::WRITE : notifier_type::READ, b->q[nnq[i]]));
                b->n.back().handler([](socket_t f, notifier_type y) { eat(f, y); });
            }
            for (uint32_t i = 0; i < ns; ++i) b->s.push_back(i == 0 && (chain & 1) ? std::make_shared<Sig>(b->g[0]) : std::make_shared<Sig>());
            b->m = std::make_shared<connection_manager>();
            b->w.reset(new waitable_queue("w", b->q[wq_inner]));
            for (uint32_t t = 0; t < nt; ++t) { ac[t].t = t; ac[t].b = new B(t & 1 ? b : std::make_shared<Bundle>(*b)); }
        }
        for (uint32_t t = 0; t < nt; ++t) th[t].start(&ac[t]);
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        xs::jumps(false);
        xs::quiesce_ms(12000);
        uint32_t n = 0;
        for (uint32_t i = 0; i < nb; ++i) {
            if (body_[i].runs) n++;
            if (body_[i].must && !body_[i].runs) xs::fail("lost", "operation %u was not executed", i);
        }
        // everything still works
        int want = 0;
        volatile int* okp = &ok;
        for (int k = 0; k < 4; ++k) {
            global_queue(kPrios[k]).async([okp] { __atomic_fetch_add(okp, 1, __ATOMIC_SEQ_CST); });
            naive_serial("probe", kPrios[k]).async([okp] { __atomic_fetch_add(okp, 1, __ATOMIC_SEQ_CST); });
            want += 2;
        }
        xs::quiesce_ms(1000);
        if (ok != want) xs::fail("stuck", "%d of %d probe operations executed", ok, want);
        if (n >= 3) xs::label(0);
        if (used[TPULSE]) xs::label(1);
        if (used[NPULSE]) xs::label(2);
        if (used[EMIT] && used[CONNECT]) xs::label(3);
        if (used[WONE] || used[WALL]) xs::label(4);
        if (used[DISCONNECT] || used[RESETMGR] || used[TCANCEL] || used[NCANCEL]) xs::label(5);
    }
};
} // namespace
PROPERTY("C23", C23, "1-4 threads run random programs over shared queues, groups, timers, notifiers, signals, connection managers and a waitable queue; operations and handlers run further actions (4 levels deep), share or copy all handles and drop them wherever they are released; non-trivial: three operations or more were executed", "timers running", "notifiers running", "signals emitted and connected", "waitable queue waited for", "cancel, disconnect or reset")
