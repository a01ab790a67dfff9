// C22: lifetime of operations and of what they captured.
#include "scale.h"
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace h;

namespace {
const int kT = 3, kTok = 96, kQ = 4, kTop = 12, kOwn = 2;

enum Kind { ASYNC, ASYNC_OP, AFTER, GASYNC, GNOTIFY, SIGNAL, TIMER_ONCE, BARRIER, WAITQ,
            // these block the caller and are used by harness threads only
            APPLY, TIMER, NOTIFIER, NKINDS };
const char* const kKind[NKINDS] = { "async", "async operation", "after", "group async", "group notify", "signal", "timer firing once", "barrier", "waitable", "apply", "timer", "notifier" };
enum Own { O_NONE, O_QUEUE, O_SERIAL, O_GROUP, O_TIMER, O_WAITQ, O_NOTIFIER, O_CONN, O_SIGNAL, O_POOLQ, NOWN };
const char* const kOwnn[NOWN] = { "", " the queue", " a serial queue", " its group", " a stopped timer", " a waitable queue", " a notifier", " a connection", " a signal", " a parallel queue" };

struct C22;
C22* C;
// handles of all queues, shared by everyone who may submit
struct Handles { std::unique_ptr<queue> q[kQ]; };
typedef std::shared_ptr<Handles> Bundle;

struct C22 : Case
{
    struct Tok
    {
        // program
        uint8_t kind, q, n, dur, own, mode;
        bool brief_drop;
        int8_t child[kOwn]; // submitted by the destructor
        uint8_t depth;
        // state
        int made, destroyed, running, runs, limit;
        bool submitted, from_op;
    };
    uint32_t nq, nt, ntok;
    uint8_t qkind[kQ];
    Tok tok[kTok];
    uint8_t ntop[kT], top[kT][kTop];
    uint8_t drop_at[kT];
    Bundle* qs[kT]; // handles of each thread
    bool ldtor, lself, llast, lhandler, scale;
    ManyOps many;
    ManyQueues manyq;
    bool queues;

    int new_tok(Gen& g, uint32_t depth, bool blocking)
    {
        if (ntok >= kTok) return -1;
        int id = (int)ntok++;
        Tok& t = tok[id];
        t.kind = g.pick(blocking ? (uint32_t)NKINDS : (uint32_t)APPLY);
        t.q = g.pick(nq);
        t.n = g.pick(4);
        t.dur = g.of({ (uint8_t)0, (uint8_t)0, (uint8_t)1, (uint8_t)3 });
        t.own = g.pick(NOWN);
        t.mode = g.pick(8);
        t.depth = depth;
        t.child[0] = t.child[1] = -1;
        xs::desc(" %s(q%u%s", kKind[t.kind], t.q, kOwnn[t.own]);
        if (t.kind >= TIMER || t.kind == APPLY || t.kind == SIGNAL) xs::desc(" n%u mode%u", t.n, t.mode);
        if (depth < 3 && g.chance(1, 2)) {
            xs::desc(" ~");
            uint32_t nc = g.range(1, kOwn);
            for (uint32_t i = 0; i < nc; ++i) { int c = new_tok(g, depth + 1, false); tok[id].child[i] = (int8_t)c; }
        }
        xs::desc(")");
        return id;
    }
    void generate(Gen& g, xs::Config& c) override
    {
        C = this;
        const uint32_t K = g.range(1, 3);
        thread_count(K);
        c.step_limit = 800000;
        scale = g.chance(1, 40);
        if (scale) {
            qkind[0] = g.pick(QK_COUNT);
            xs::desc("queue %s:", kind_name(qkind[0]));
            queues = g.chance(1, 4);
            if (queues) manyq.gen(g, c, K); else many.gen(g, c, K, 5000);
            return;
        }
        nq = g.range(1, kQ);
        for (uint32_t i = 0; i < nq; ++i) { qkind[i] = g.pick(QK_COUNT); xs::desc("q%u=%s ", i, kind_name(qkind[i])); }
        nt = g.range(1, kT);
        for (uint32_t t = 0; t < nt; ++t) {
            ntop[t] = g.range(1, g.big ? kTop : 5);
            drop_at[t] = g.pick(ntop[t] + 1);
            xs::desc("; T%u:", t);
            for (uint32_t i = 0; i < ntop[t]; ++i) {
                int id = new_tok(g, 0, true);
                if (id < 0) { ntop[t] = i; break; }
                top[t][i] = (uint8_t)id;
            }
            xs::desc(" drops its handles before %u", drop_at[t]);
        }
        if (ntop[0] == 0) ntop[0] = 0;
    }

    // what operations capture
    struct Tracked
    {
        int id;
        int payload;
        bool write = false;
        std::shared_ptr<void> own[2];
        Bundle bundle;
        Tracked(int i, const queue& q, const Bundle& b) : id(i), payload(i), bundle(b)
        {
            Tok& t = C->tok[i];
            if (t.made++) xs::fail("harness", "token made twice");
            switch (t.own) {
                case O_QUEUE: own[0] = std::make_shared<queue>(q); break;
                case O_SERIAL: { auto n = std::make_shared<queue>(naive_serial("own")); n->async([] { xs::point(); }); own[0] = n; break; }
                case O_POOLQ: own[0] = std::make_shared<queue>(naive_parallel("own")); break;
                case O_GROUP: { auto n = std::make_shared<group>(); queue qq(q); n->async([] { xs::point(); }, qq); if (t.mode & 1) n->notify([] { xs::point(); }, qq); own[0] = n; break; }
                case O_TIMER: {
                    auto n = std::make_shared<timer>(milliseconds(t.mode), q);
                    n->handler([] { xs::point(); });
                    if (t.mode & 1) { n->resume(); n->suspend(); }
                    if (t.mode & 2) { n->resume(milliseconds(t.n)); n->cancel(); }
                    own[0] = n;
                    break;
                }
                case O_WAITQ: { auto n = std::make_shared<waitable_queue>("own", q); if (t.mode & 1) n->async([] { xs::point(); }); own[0] = n; break; }
                case O_NOTIFIER: {
                    auto n = std::make_shared<socket_notifier>(0, notifier_type::READ, q);
                    n->handler([](socket_t, notifier_type) {});
                    own[0] = n;
                    break;
                }
                case O_SIGNAL:
                case O_CONN: {
                    auto n = std::make_shared<signal<void(int)>>();
                    connection c = n->connect([](int) { xs::point(); }, q);
                    (*n)(1);
                    if (t.own == O_CONN) own[1] = std::make_shared<scoped_connection>(c);
                    own[0] = n;
                    break;
                }
            }
        }
        Tracked(const Tracked&) = delete;
        void enter()
        {
            Tok& t = C->tok[id];
            if (t.destroyed) xs::fail("executed-dead", "operation %d executed after it was released", id);
            if (t.runs++ >= t.limit) xs::fail("twice", "operation %d (%s) executed %d times", id, kKind[t.kind], t.runs);
            t.running++;
            int p = payload;
            if (t.dur) xs::sleep_ms(t.dur);
            else if (t.mode & 1) sched_yield();
            else xs::point();
            if (t.destroyed) xs::fail("released-early", "operation %d (%s) released while it is executing", id, kKind[t.kind]);
            if (p != payload) xs::fail("payload", "captured state changed");
            t.running--;
        }
        ~Tracked()
        {
            Tok& t = C->tok[id];
            if (t.running) xs::fail("released-early", "operation %d (%s) released while it is executing", id, kKind[t.kind]);
            if (t.destroyed++) xs::fail("released-twice", "operation %d released twice", id);
            payload = -1;
            xs::point();
            for (int i = 0; i < kOwn; ++i)
                if (t.child[i] >= 0) {
                    C->ldtor = true;
                    queue* q = nullptr;
                    // the destructor's own handle, if there is one
                    if (t.own == O_QUEUE) { q = (queue*)own[0].get(); C->lself = true; }
                    C->submit((uint32_t)t.child[i], q ? *q : *bundle->q[C->tok[t.child[i]].q], bundle);
                }
        }
    };
    struct Op : operation
    {
        std::shared_ptr<Tracked> t;
        std::unique_ptr<Tracked> u;
        void operator()() override { (t ? t.get() : u.get())->enter(); }
    };
    struct IOp : iteration_operation
    {
        std::shared_ptr<Tracked> t;
        void operator()(size_t) override { t->enter(); }
    };

    void submit(uint32_t id, const queue& qh, const Bundle& b)
    {
        Tok& t = tok[id];
        t.submitted = true;
        t.limit = 1;
        auto p = std::make_shared<Tracked>((int)id, qh, b);
        switch (t.kind) {
            case ASYNC: { auto f = [p] { p->enter(); }; p.reset(); qh.async(f); break; }
            case ASYNC_OP: {
                auto o = std::make_shared<Op>();
                o->t.swap(p);
                operation_ptr x = std::move(o);
                qh.async(x);
                break;
            }
            case AFTER: { auto o = std::make_shared<Op>(); o->t.swap(p); operation_ptr x = std::move(o); qh.after(milliseconds(t.n * 5), x); break; }
            case GASYNC: { group g; auto o = std::make_shared<Op>(); o->t.swap(p); operation_ptr x = std::move(o); g.async(x, qh); break; }
            case GNOTIFY: {
                group g;
                queue q(qh);
                for (uint32_t i = 0; i < t.n; ++i) g.async([] { xs::point(); }, q);
                auto o = std::make_shared<Op>();
                o->t.swap(p);
                operation_ptr x = std::move(o);
                g.notify(x, q);
                break;
            }
            case SIGNAL: {
                t.limit = t.n;
                queue q(qh);
                signal<void(int)> s;
                connection c = s.connect([p](int) { p->enter(); }, q, t.mode & 2 ? notification_mode::batch_updates : notification_mode::single_updates);
                p.reset();
                for (uint32_t i = 0; i < t.n; ++i) s((int)i);
                // disconnecting waits for the handler and must not be done
                // where that could be this very thread's fault
                break;
            }
            case TIMER_ONCE: {
                timer tm(milliseconds(0), qh);
                tm.handler([p] { p->enter(); });
                p.reset();
                tm.resume(milliseconds(t.n * 5));
                break;
            }
            case BARRIER: {
                auto b = std::make_shared<barrier_operation>();
                queue q(qh);
                q.async([p] { p->enter(); });
                p.reset();
                q.async(b);
                if (t.depth == 0) b->wait();
                break;
            }
            case WAITQ: {
                waitable_queue w("w", qh);
                auto o = std::make_shared<Op>();
                o->t.swap(p);
                operation_ptr x = std::move(o);
                w.async(x);
                x.reset();
                if (t.depth == 0) { if (t.mode & 1) w.wait_for_one(); else if (t.mode & 2) w.wait_for_all(); }
                break;
            }
            case APPLY: {
                t.limit = t.n;
                auto o = std::make_shared<IOp>();
                o->t.swap(p);
                iteration_operation_ptr x = std::move(o);
                qh.apply(t.n, x);
                break;
            }
            case TIMER: {
                t.limit = 1000;
                timer tm(milliseconds(1 + t.n), qh);
                {
                    std::shared_ptr<Tracked> pp;
                    pp.swap(p);
                    tm.handler([pp] { pp->enter(); });
                }
                if (t.mode & 1) {
                    tm.resume(milliseconds(t.n));
                    xs::sleep_ms(t.mode * 2);
                }
                if (t.mode & 2) { lhandler = true; tm.handler([] { xs::point(); }); }
                if (t.mode & 1) { if (t.mode & 4) tm.cancel(); else tm.suspend(); }
                break;
            }
            case NOTIFIER: {
                t.limit = 1000;
                int sv[2];
                if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) xs::inconclusive("socketpair");
                int sz = 4096;
                setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
                socket_notifier no(sv[0], t.mode & 2 ? notifier_type::WRITE : notifier_type::READ, qh);
                {
                    std::shared_ptr<Tracked> pp;
                    pp.swap(p);
                    pp->write = t.mode & 2;
                    no.handler([pp](socket_t s, notifier_type) {
                        static char b[8192];
                        if (pp->write) while (send(s, b, sizeof b, MSG_DONTWAIT | MSG_NOSIGNAL) > 0) {}
                        else while (recv(s, b, sizeof b, MSG_DONTWAIT) > 0) {}
                        pp->enter();
                    });
                }
                if (t.mode & 1) {
                    if (send(sv[1], "x", 1, 0)) {}
                    no.resume();
                    xs::sleep_ms(t.n * 2);
                    if (t.n == 3) { lhandler = true; no.handler([](socket_t s, notifier_type y) {
                        char b[4096];
                        memset(b, 0, sizeof b);
                        if (y == notifier_type::WRITE) while (send(s, b, sizeof b, MSG_DONTWAIT | MSG_NOSIGNAL) > 0) {}
                        else while (recv(s, b, sizeof b, MSG_DONTWAIT) > 0) {}
                    }); }
                    if (t.mode & 4) no.cancel();
                    else no.suspend();
                }
                break;
            }
        }
    }
    struct Prod
    {
        C22* c;
        uint32_t t;
        void operator()()
        {
            for (uint32_t i = 0; i < c->ntop[t]; ++i) {
                if (i == c->drop_at[t]) c->drop(t);
                uint32_t id = c->top[t][i];
                Bundle b;
                if (c->qs[t]) b = *c->qs[t];
                else { b = c->bundle(); c->llast = true; }
                queue q(*b->q[c->tok[id].q]);
                if (c->tok[id].mode & 1) c->submit(id, q, b);
                else { c->submit(id, *b->q[c->tok[id].q], b); b.reset(); }
            }
            c->drop(t);
        }
    };
    void drop(uint32_t t)
    {
        if (!qs[t]) return;
        Bundle* p = qs[t];
        qs[t] = nullptr;
        delete p;
    }
    Bundle bundle()
    {
        Bundle b = std::make_shared<Handles>();
        for (uint32_t i = 0; i < nq; ++i) b->q[i].reset(new queue(make_queue(qkind[i], 0)));
        return b;
    }
    void run() override
    {
        if (scale) {
            if (queues) manyq.run();
            else {
                many.run(make_queue(qkind[0], 0), is_serial(qkind[0]));
                xs::quiesce_ms(100000);
                many.check();
            }
            xs::label(0);
            xs::label(5);
            return;
        }
        {
            Bundle b = bundle();
            for (uint32_t t = 0; t < nt; ++t) qs[t] = new Bundle(b);
        }
        Prod p[kT];
        Thread th[kT];
        for (uint32_t t = 0; t < nt; ++t) { p[t].c = this; p[t].t = t; th[t].start(&p[t]); }
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        xs::jumps(false);
        // less than the 30 s after which idle threads end
        xs::quiesce_ms(8000);
        for (uint32_t i = 0; i < ntok; ++i) {
            Tok& t = tok[i];
            if (!t.submitted) continue;
            bool exact = t.kind != SIGNAL && t.kind != TIMER && t.kind != NOTIFIER;
            if (exact && t.runs != t.limit) xs::fail("lost", "operation %u (%s) executed %d times", i, kKind[t.kind], t.runs);
            if (!t.destroyed) xs::fail("leak", "operation %u (%s on q%u) is still alive although nothing can execute it anymore", i, kKind[t.kind], t.q);
        }
        bool any = false;
        for (uint32_t i = 0; i < ntok; ++i) if (tok[i].destroyed) any = true;
        if (any && nt + ntop[0] > 1) xs::label(0);
        if (ldtor) xs::label(1);
        if (lself) xs::label(2);
        if (llast) xs::label(3);
        if (lhandler) xs::label(4);
    }
};
} // namespace
PROPERTY("C22", C22, "1-3 threads submit operations in every way (async, apply, after, groups, timers, notifiers, signals, waitable queues, barriers) to serial, parallel and global queues; captured objects own queues, groups, timers, notifiers, signals, and submit further operations (3 levels deep) when destroyed; non-trivial: several submissions whose captured state was destroyed", "destructors submit operations", "destructors use a queue they own", "last handle of a queue dropped", "handler replaced", "12 to 5000 operations of one queue")
