// C24: blocking inside of operations does not consume the pool's capacity.
#include "common.h"
#include <deque>
#include <mutex>
#include <sys/resource.h>
#include <sys/socket.h>
#include <vector>
using namespace h;

namespace {
const int kB = 8, kR = 3, kF = 64, kT = 2;
enum Kind { GWAIT, NAPPLY, SAPPLY, NOTIFY, TIMERS, AFTERS, NOTIFIERS, WAITABLE, WAITER, KINDS };
const char* const kKind[KINDS] = { "group wait", "nested apply", "apply on a slow queue", "group notify", "timers", "delayed operations", "notifiers", "busy waitable queue", "waiting for a waitable queue" };

struct C24;
C24* C;

struct C24 : Case
{
    // a pool whose thread is busy elsewhere until the harness runs its work
    struct Slow : naive::ithreadpool
    {
        std::mutex m;
        std::deque<operation_ptr> work;
        void execute(const operation_ptr& op, queue_priority) override
        {
            std::lock_guard<std::mutex> l(m);
            work.push_back(op);
        }
        void notify_thread_blocked() override {}
        void notify_thread_unblocked() override {}
        bool run_all()
        {
            bool any = false;
            for (;;) {
                operation_ptr op;
                {
                    std::lock_guard<std::mutex> l(m);
                    if (work.empty()) return any;
                    op = work.front();
                    work.pop_front();
                }
                any = true;
                run_with_threadpool(*op, this);
            }
        }
    };
    struct Blocker { uint8_t kind, q, prio, depth, width; uint16_t n; bool periodic; };
    uint32_t K, nr, nbl[kR];
    Blocker bl[kR][kB];
    uint8_t split[kR], expire[kR];
    std::shared_ptr<Slow>* slow;
    queue* slowq; // serial
    queue* slowp; // parallel
    volatile int cap_started, done, want, fired, blocked_leaves;
    volatile uint64_t round_now;
    xs::Gate gates[kR * 2 + 2];
    bool lmany, lnest, lwait, lnot;
    struct Keep { std::vector<timer> t; std::vector<socket_notifier> n; };
    Keep* keep[kT];

    void generate(Gen& g, xs::Config& c) override
    {
        C = this;
        K = g.range(1, 3);
        thread_count(K);
        c.step_limit = 1500000;
        nr = g.range(1, g.big ? kR : 2);
        xs::desc("threads=%u", K);
        for (uint32_t r = 0; r < nr; ++r) {
            nbl[r] = g.range(1, g.big ? kB : 5);
            split[r] = g.pick(2);
            expire[r] = g.pick(2);
            xs::desc("; round%s:", expire[r] ? " until idle threads ended" : "");
            for (uint32_t i = 0; i < nbl[r]; ++i) {
                Blocker& b = bl[r][i];
                b.kind = g.pick(KINDS);
                b.q = g.pick(4);
                b.prio = g.pick(4);
                b.depth = g.range(1, 3);
                b.width = g.range(1, 3);
                b.n = g.of({ (uint16_t)1, (uint16_t)2, (uint16_t)(2 * K + 1), (uint16_t)(8 * K) });
                b.periodic = g.chance(1, 2);
                xs::desc(" %s", kKind[b.kind]);
                if (b.kind == NAPPLY) { xs::desc("(%u deep %u wide)", b.depth, b.width); lnest |= b.depth > 1; }
                else xs::desc("(%u)", b.n);
                if (b.kind <= NOTIFY) xs::desc("->%s", kind_name(b.q));
                if (b.kind == WAITABLE || b.kind == WAITER) lwait = true;
                if (b.kind == NOTIFIERS) lnot = true;
                if (b.n > 2 * K) lmany = true;
            }
        }
    }
    static void add(volatile int* p, int n) { __atomic_fetch_add(p, n, __ATOMIC_SEQ_CST); }
    // blocks without using any thread until the slow queues get to run
    void leaf()
    {
        group g;
        g.async([] { xs::point(); }, *slowq);
        add(&blocked_leaves, 1);
        if (!g.wait()) xs::fail("wait", "wait without a timeout returned false");
    }
    void nested(uint32_t depth, uint32_t width, uint32_t q)
    {
        if (!depth) { leaf(); return; }
        queue t = q & 1 ? naive_parallel("np") : global_queue(kPrios[q & 3]);
        t.apply(width, [depth, width, q](size_t) { C->nested(depth - 1, width, q); });
    }
    void block(const Blocker& b, Keep& k)
    {
        queue q = make_queue(b.q, b.prio);
        switch (b.kind) {
            case GWAIT:
                for (uint32_t i = 0; i < b.n; ++i) {
                    // distinct queues so that each of them blocks
                    queue qq = make_queue(b.q, b.prio);
                    add(&want, 1);
                    qq.async([] { C->leaf(); add(&C->done, 1); });
                }
                break;
            case NAPPLY: {
                const Blocker bb = b;
                add(&want, 1);
                q.async([bb] { C->nested(bb.depth, bb.width, bb.q); add(&C->done, 1); });
                break;
            }
            case SAPPLY: {
                const uint32_t n = b.n;
                add(&want, 1);
                const queue* s = b.width & 1 ? slowq : slowp;
                q.async([n, s] { s->apply(n, [](size_t) { xs::point(); }); add(&C->done, 1); });
                break;
            }
            case NOTIFY:
                for (uint32_t i = 0; i < b.n; ++i) {
                    group g;
                    g.async([] { xs::point(); }, *slowp);
                    add(&want, 1);
                    g.notify([] { add(&C->done, 1); }, q);
                }
                break;
            case TIMERS:
                for (uint32_t i = 0; i < b.n; ++i) {
                    timer t(milliseconds(b.periodic ? (b.width & 1 ? 200000 : 3000) : 0), q);
                    t.handler([] { add(&C->fired, 1); });
                    t.resume(milliseconds(b.periodic ? 2000 : 8000));
                    if (b.periodic) k.t.push_back(t);
                    else { add(&want, 1); t.handler([] { add(&C->done, 1); }); }
                }
                break;
            case AFTERS:
                for (uint32_t i = 0; i < b.n; ++i) { add(&want, 1); q.after(milliseconds(8000), [] { add(&C->done, 1); }); }
                break;
            case NOTIFIERS:
                for (uint32_t i = 0; i < b.n && k.n.size() < kF; ++i) {
                    int sv[2];
                    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) xs::inconclusive("socketpair");
                    socket_notifier n(sv[0], notifier_type::READ, q);
                    n.handler([](socket_t, notifier_type) { xs::fail("spurious", "handler invoked"); });
                    n.resume();
                    k.n.push_back(n);
                }
                break;
            case WAITABLE:
            case WAITER: {
                // one operation of the queue blocks, so do the others behind it
                waitable_queue w("w", naive_parallel("inner"));
                add(&want, 1);
                w.async([] { C->leaf(); add(&C->done, 1); });
                for (uint32_t i = 0; i < b.n; ++i) { add(&want, 1); w.async([] { add(&C->done, 1); }); }
                if (b.kind == WAITER)
                    for (uint32_t i = 0; i < b.width; ++i) {
                        add(&want, 1);
                        naive_parallel("waiter").async([w] { waitable_queue x(w); x.wait_for_all(); add(&C->done, 1); });
                    }
                break;
            }
        }
    }
    struct Sub
    {
        uint32_t r, t;
        void operator()()
        {
            for (uint32_t i = 0; i < C->nbl[r]; ++i)
                if (!C->split[r] || i % kT == t) C->block(C->bl[r][i], *C->keep[t]);
        }
    };
    // number of operations which can run at the same time, up to n
    int capacity(int n, xs::Gate* gate)
    {
        cap_started = 0;
        int* fin = (int*)xs::raw_alloc(sizeof(int));
        for (int i = 0; i < n; ++i)
            global_queue(kPrios[i & 3]).async([gate, fin] {
                add(&C->cap_started, 1);
                xs::gate_wait(gate);
                add(fin, 1);
            });
        xs::quiesce_ms(200);
        int got = cap_started;
        xs::gate_open(gate);
        xs::quiesce_ms(200);
        if (*fin != n) xs::fail("lost", "only %d of %d probe operations were executed", *fin, n);
        return got;
    }
    void run() override
    {
        struct rlimit rl;
        getrlimit(RLIMIT_NOFILE, &rl);
        if (rl.rlim_cur < 900 && rl.rlim_max >= 900) { rl.rlim_cur = 900; setrlimit(RLIMIT_NOFILE, &rl); }
        slow = new std::shared_ptr<Slow>(std::make_shared<Slow>());
        slowq = new queue(naive::create_serial_queue("slow", *slow));
        slowp = new queue(naive::create_parallel_queue("slow", *slow));
        const int n = 4 * (int)K + 4;
        uint32_t ng = 0;
        xs::jumps(false);
        const int cap = capacity(n, &gates[ng++]);
        if (cap < 1) xs::fail("capacity", "no operation is executed");
        xs::quiesce_ms(40000);
        uint64_t leaves = 0;
        for (uint32_t r = 0; r < nr; ++r) {
            for (int t = 0; t < kT; ++t) keep[t] = new Keep;
            Sub s[kT];
            Thread th[kT];
            for (int t = 0; t < kT; ++t) { s[t].r = r; s[t].t = t; }
            th[0].start(&s[0]);
            if (split[r]) th[1].start(&s[1]);
            for (int t = 0; t < kT; ++t) th[t].join();
            xs::quiesce_ms(500);
            leaves += blocked_leaves;
            if (expire[r]) xs::quiesce_ms(45000);
            // everything is blocked now
            const int during = capacity(n, &gates[ng++]);
            if (during < cap) xs::fail("starved", "only %d of %d threads are usable while operations are blocked", during, cap);
            // end of the blocking
            for (int i = 0; i < 50; ++i) {
                bool any = (*slow)->run_all();
                xs::quiesce_ms(any ? 100 : 1000);
                if (!any && i > 4) break;
            }
            for (int t = 0; t < kT; ++t) {
                for (auto& x : keep[t]->t) x.suspend();
                for (auto& x : keep[t]->n) x.suspend();
                delete keep[t];
            }
            xs::quiesce_ms(20000);
            if (done != want) xs::fail("lost", "%d of %d blocking operations completed", done, want);
            // surplus threads end after a while, those of timers after their interval
            xs::quiesce_ms(260000);
            if (r + 1 < nr) continue;
            const int after = capacity(n, &gates[ng++]);
            if (after != cap) xs::fail("capacity", "%d threads were usable before operations blocked but %d are afterwards", cap, after);
        }
        if (leaves || fired || done) xs::label(0);
        if (lmany) xs::label(1);
        if (lnest) xs::label(2);
        if (lwait) xs::label(3);
        if (lnot) xs::label(4);
    }
};
} // namespace
PROPERTY("C24", C24, "rounds of 1-8 kinds of blocking (group waits, applies nested up to 3 deep and wide, applies on queues which are starved, notifications, up to 8 times as many timers, delayed operations and notifiers as threads, waitable queues) started by 1-2 threads; the number of operations that run at the same time is measured before, during and after; non-trivial: something was blocked", "more blocked than threads", "nested apply", "waitable queues", "notifiers")
