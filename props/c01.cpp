// C01: every submitted operation is executed exactly once.
#include "scale.h"
using namespace h;

namespace {
const int kMaxQ = 4, kMaxT = 4, kMaxA = 14, kMaxN = 160;

struct Node // one operation
{
    uint8_t queue;
    uint8_t body;    // 0 nothing, 1 yield, 2 sleep
    uint16_t ms;
    uint8_t nchild;
    uint8_t child[4];
    uint8_t dropself; // drop the queue handles captured before returning
};
struct Act { uint8_t kind; uint8_t node; uint16_t ms; uint8_t q; uint8_t n; };
enum { A_SUBMIT, A_SLEEP, A_DROP, A_YIELD, A_BURST };

struct C01 : Case
{
    uint32_t threads, nq, nt, nn;
    uint8_t qkind[kMaxQ], qprio[kMaxQ];
    Node node[kMaxN];
    int started[kMaxN], finished[kMaxN], submitted[kMaxN];
    Act act[kMaxT][kMaxA];
    uint32_t nact[kMaxT];
    bool longsleep, nested, dropped, burst, scale;
    ManyOps many;
    ManyQueues manyq;
    bool queues, expiry;
    Expiry exp;

    uint32_t gen_node(Gen& g, int depth)
    {
        uint32_t id = nn++;
        Node& n = node[id];
        n.queue = g.pick(nq);
        n.body = g.pick(4) % 3;
        n.ms = n.body == 2 ? (g.chance(1, 12) ? 31000 : g.range(1, 20)) : 0;
        n.nchild = depth < 3 && g.chance(1, 3) ? g.range(1, 3) : 0;
        n.dropself = g.pick(2);
        uint32_t k = n.nchild;
        n.nchild = 0;
        for (uint32_t i = 0; i < k && nn < kMaxN - 4; ++i) { uint32_t c = gen_node(g, depth + 1); node[id].child[node[id].nchild++] = c; nested = true; }
        return id;
    }
    void generate(Gen& g, xs::Config& c) override
    {
        threads = g.range(1, 4);
        thread_count(threads);
        scale = g.chance(1, 40);
        expiry = !scale && g.chance(1, 12);
        if (expiry) {
            xs::desc("threads=%u", threads);
            exp.gen(g, c, threads);
            return;
        }
        if (scale) {
            qkind[0] = g.pick(QK_COUNT);
            qprio[0] = g.pick(4);
            xs::desc("threads=%u queue %s/%u:", threads, kind_name(qkind[0]), qprio[0]);
            queues = g.chance(1, 4);
            if (queues) manyq.gen(g, c, threads); else many.gen(g, c, threads);
            return;
        }
        nq = g.range(1, kMaxQ);
        xs::desc("threads=%u queues:", threads);
        for (uint32_t i = 0; i < nq; ++i) { qkind[i] = g.pick(QK_COUNT); qprio[i] = g.pick(4); xs::desc(" %u=%s/%u", i, kind_name(qkind[i]), qprio[i]); }
        nt = g.range(1, g.big ? kMaxT : 3);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kMaxA : 8);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                a.kind = (uint8_t[]){ A_SUBMIT, A_SUBMIT, A_SUBMIT, A_SUBMIT, A_YIELD, A_SLEEP, A_SUBMIT, A_DROP, A_BURST }[g.pick(9)];
                if (a.kind == A_SUBMIT && nn >= kMaxN - 20) a.kind = A_YIELD;
                if (a.kind == A_BURST) {
                    // leaf operations which do not keep the queue alive, more
                    // than a queue executes in a row, the handle may go right after
                    uint32_t n = g.range(5, 30);
                    if (nn + n >= kMaxN - 20) a.kind = A_YIELD;
                    else {
                        a.node = nn; a.n = n; a.q = g.pick(nq); a.ms = g.pick(2);
                        xs::desc(" burst(%u ops%u-%u->q%u%s)", n, nn, nn + n - 1, a.q, a.ms ? ",drop" : "");
                        burst = true;
                        for (uint32_t k = 0; k < n; ++k) { Node& x = node[nn++]; x.queue = a.q; x.body = g.pick(3) == 0; }
                    }
                }
                if (a.kind == A_SUBMIT) { a.node = gen_node(g, 0); xs::desc(" op%u->q%u(%u children%s)", a.node, node[a.node].queue, node[a.node].nchild, node[a.node].ms ? ",sleeps" : ""); }
                if (a.kind == A_SLEEP) { a.ms = g.chance(1, 3) ? (uint16_t[]){ 30000, 30001, 30000, 29999, 30000, 60000, 30002 }[g.pick(7)] : g.range(1, 50); longsleep |= a.ms > 1000; xs::desc(" sleep%u", a.ms); }
                if (a.kind == A_DROP) { a.q = g.pick(nq); dropped = true; xs::desc(" drop q%u", a.q); }
                if (a.kind == A_YIELD) xs::desc(" yield");
            }
        }
    }

    // each thread and each operation owns handles of its own
    struct Handles
    {
        std::shared_ptr<queue> q[kMaxQ];
    };
    static void submit(C01* c, Handles hs, uint32_t id)
    {
        Node& n = c->node[id];
        if (!hs.q[n.queue]) return; // handle was dropped before: nothing to submit to
        queue q = *hs.q[n.queue];
        c->submitted[id]++;
        // operations without children do not keep any queue alive
        auto hp = n.nchild || n.dropself ? std::make_shared<Handles>(hs) : nullptr;
        auto f = [c, id, hp] {
            Node& n = c->node[id];
            if (++c->started[id] > 1) xs::fail("twice", "operation %u was started twice", id);
            if (n.body == 1) xs::point();
            if (n.body == 2) xs::sleep_ms(n.ms);
            for (int i = 0; i < n.nchild; ++i) submit(c, *hp, n.child[i]);
            if (n.dropself && hp) for (auto& p : hp->q) p.reset();
            c->finished[id]++;
        };
        if (id % 3) q.async(wrap_op(id, f));
        else q.async(f);
    }
    struct Sub
    {
        C01* c;
        uint32_t t;
        Handles hs;
        void operator()()
        {
            for (uint32_t i = 0; i < c->nact[t]; ++i) {
                Act& a = c->act[t][i];
                if (a.kind == A_SUBMIT) submit(c, hs, a.node);
                else if (a.kind == A_SLEEP) xs::sleep_ms(a.ms);
                else if (a.kind == A_DROP) hs.q[a.q].reset();
                else if (a.kind == A_BURST) {
                    for (uint32_t k = 0; k < a.n; ++k) submit(c, hs, a.node + k);
                    if (a.ms) hs.q[a.q].reset();
                }
                else xs::point();
            }
            hs = Handles();
        }
    };
    void run() override
    {
        if (expiry) {
            exp.run();
            xs::label(0);
            xs::label(1);
            return;
        }
        if (scale) {
            if (queues) manyq.run();
            else {
                many.run(make_queue(qkind[0], qprio[0]), is_serial(qkind[0]));
                xs::quiesce_ms(100000);
                many.check();
            }
            xs::label(0);
            xs::label(6);
            return;
        }
        Slot<Sub> subs[kMaxT];
        Thread th[kMaxT];
        {
            Handles hs;
            // queue objects are shared between threads by value only
            queue* qs[kMaxQ];
            for (uint32_t i = 0; i < nq; ++i) qs[i] = new queue(make_queue(qkind[i], qprio[i]));
            for (uint32_t t = 0; t < nt; ++t) {
                Sub& s = subs[t].make();
                s.c = this;
                s.t = t;
                for (uint32_t i = 0; i < nq; ++i) s.hs.q[i] = std::make_shared<queue>(*qs[i]);
            }
            for (uint32_t i = 0; i < nq; ++i) delete qs[i];
        }
        for (uint32_t t = 0; t < nt; ++t) th[t].start(&subs[t].get());
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        // no operation blocks on another one, so all of them end within the
        // sum of their sleeps
        uint64_t ms = 2000;
        uint32_t total = 0;
        for (uint32_t i = 0; i < nn; ++i) ms += node[i].ms;
        xs::quiesce_ms(ms);
        for (uint32_t i = 0; i < nn; ++i) {
            total += submitted[i];
            if (started[i] != submitted[i]) xs::fail(started[i] ? "twice" : "lost", "operation %u on queue %u (%s) was submitted %d times but started %d times", i, node[i].queue, kind_name(qkind[node[i].queue]), submitted[i], started[i]);
            if (finished[i] != submitted[i]) xs::fail("unfinished", "operation %u was started but never finished", i);
        }
        for (uint32_t t = 0; t < nt; ++t) subs[t].drop();
        if (total >= 2) xs::label(0);
        if (longsleep) xs::label(1);
        if (nested) xs::label(2);
        if (dropped) xs::label(3);
        if (burst) xs::label(5);
        if (total > threads * 2) xs::label(4);
    }
};
} // namespace
PROPERTY("C01", C01, "1-4 threads submit generated trees of operations to 1-4 serial/parallel/global queues, sleeping past the worker expiry and dropping handles; non-trivial: at least two operations submitted", "worker expiry window", "nested submissions", "handles dropped", "more operations than pool threads", "burst of leaf operations", "12 to 70000 operations on one queue")
