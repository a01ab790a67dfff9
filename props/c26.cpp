// C26: queues on Qt threads, Qt thread pools and the Qt main loop.
#include <QtCore/QCoreApplication>
#include <QtCore/QThread>
#include <QtCore/QThreadPool>
#include <xdispatch/backend_qt.h>
#include "scale.h"
#include <sys/socket.h>
#include <unistd.h>
using namespace h;

namespace {
const int kQ = 5, kTh = 2, kP = 2, kT = 3, kA = 10, kN = 120;
enum Kind { SUBMIT, GROUP, NOTIFY, AFTER, APPLY, DROP, SELFDROP, SLEEP, TIMER, WAITG, SOCK };
enum On { ON_THREAD, ON_POOL, ON_MAIN, ON_NAIVE, ONS }; // what a queue is made of
const char* const kOn[ONS] = { "thread", "pool", "main", "naive" };

struct C26;
C26* C;
// what this thread belongs to, as soon as it has executed something:
// 1 + 10 * On + index
thread_local int t_owner = 0;

struct C26 : Case
{
    struct Rec
    {
        uint8_t q, kind, body, nchild, child[3], napply, aq;
        uint16_t ms;
        bool waits;
        uint64_t sub_begin, sub_end, start, finish;
        int runs;
    };
    struct Act { uint8_t kind, id, q; uint16_t n; };
    uint32_t nq, nth, np, nt, nn, nact[kT];
    uint8_t qon[kQ], qidx[kQ], qser[kQ], qprio[kQ];
    uint8_t pmax[kP], late[kTh];
    bool main_late, blocks, slow_tick, foreign;
    uint32_t order_n;
    Rec rec[kN];
    Act act[kT][kA];
    int active[kQ], running[kP], blocked_ever, timer_runs, timers;
    Cell cell[kQ];
    QThread* qth[kTh];
    QThreadPool* pool[kP];
    pthread_t th_tid[kTh], main_tid;
    bool th_known[kTh];
    queue* src[kQ];
    group* grp;
    volatile int once, ran_once;
    bool ldrop, lnest, lmain, lapply, lself, lpool, lsock, scale;
    ManyOps many;

    bool serial(uint32_t q) { return qser[q]; }
    int rank(uint32_t q) { return !serial(q) ? 100 : qon[q] == ON_THREAD ? qidx[q] : qon[q] == ON_MAIN ? 10 : 20 + q; }
    uint32_t gen_op(Gen& g, int depth, uint32_t kind)
    {
        uint32_t id = nn++;
        Rec& r = rec[id];
        r.q = g.pick(nq);
        r.kind = kind;
        r.body = g.pick(4);
        r.ms = r.body == 3 ? g.range(1, 4) : 0;
        if (g.chance(1, 6)) {
            // from threads to higher ones only, or they would wait for each other
            r.aq = g.pick(nq);
            if (!serial(r.q) || rank(r.aq) > rank(r.q)) { r.napply = g.range(1, 4); lapply = true; blocks = true; }
        }
        xs::desc("%u->q%u", id, r.q);
        if (r.napply) xs::desc("(applies %u on q%u)", r.napply, r.aq);
        uint32_t k = depth < 3 && g.chance(1, 3) ? g.range(1, 3) : 0;
        if (k) xs::desc("{");
        for (uint32_t i = 0; i < k && nn < kN - 8; ++i) {
            static const uint8_t ks[] = { SUBMIT, SUBMIT, GROUP, AFTER, NOTIFY };
            uint8_t c = (uint8_t)gen_op(g, depth + 1, g.of(ks));
            rec[id].child[rec[id].nchild++] = c;
            lnest = true;
        }
        if (k) xs::desc("}");
        xs::desc(" ");
        return id;
    }
    void generate(Gen& g, xs::Config& c) override
    {
        C = this;
        thread_count(g.range(1, 2));
        setenv("QT_NO_GLIB", "1", 1);
        c.step_limit = 1200000;
        c.races = false; // Qt itself is not observed
        c.spurious_p = 0;
        np = g.range(1, kP);
        nth = g.range(1, kTh);
        for (uint32_t i = 0; i < np; ++i) { pmax[i] = g.range(1, 3); xs::desc("pool%u max %u; ", i, pmax[i]); }
        for (uint32_t i = 0; i < nth; ++i) { late[i] = g.chance(1, 4) ? g.range(1, 20) : 0; if (late[i]) xs::desc("thread%u starts late; ", i); }
        nq = g.range(1, kQ);
        for (uint32_t i = 0; i < nq; ++i) {
            static const uint8_t on[] = { ON_POOL, ON_POOL, ON_THREAD, ON_THREAD, ON_MAIN, ON_NAIVE };
            qon[i] = g.of(on);
            if (qon[i] == ON_MAIN && lmain) qon[i] = ON_POOL;
            qidx[i] = qon[i] == ON_POOL ? g.pick(np) : qon[i] == ON_THREAD ? g.pick(nth) : 0;
            qser[i] = qon[i] == ON_NAIVE ? g.pick(2) : qon[i] != ON_POOL;
            qprio[i] = g.pick(4);
            lmain |= qon[i] == ON_MAIN;
            lpool |= qon[i] == ON_POOL;
            xs::desc("q%u=%s %s%u; ", i, qser[i] ? "serial" : "parallel", kOn[qon[i]], qidx[i]);
        }
        scale = g.chance(1, 40);
        if (scale) { many.gen(g, c, 3, 5000); return; }
        main_late = g.chance(1, 4);
        slow_tick = g.chance(1, 3);
        foreign = g.chance(1, 2);
        if (slow_tick) blocks = true;
        order_n = g.pick(8);
        nt = g.range(1, g.big ? kT : 2);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kA : 7);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                static const uint8_t ks[] = { SUBMIT, SUBMIT, SUBMIT, GROUP, APPLY, AFTER, NOTIFY, DROP, SELFDROP, SLEEP, TIMER, SOCK };
                a.kind = g.of(ks);
                if (nn > kN - 40) { nact[t] = i; break; }
                a.q = g.pick(nq);
                if (a.kind == APPLY) { a.n = g.range(1, 12); xs::desc(" apply(%u)->q%u", a.n, a.q); lapply = true; }
                else if (a.kind == DROP || a.kind == SELFDROP) { a.n = g.range(1, 12); xs::desc(" temporary queue with %u on %s%u%s", a.n, a.n & 1 ? "thread" : "pool", a.q % (a.n & 1 ? nth : np), a.kind == DROP ? "" : " dropped by its operation"); }
                else if (a.kind == SLEEP) { a.n = g.range(1, 10); xs::desc(" sleep%u", a.n); }
                else if (a.kind == TIMER) { a.n = g.range(1, 5); xs::desc(" timer%u->q%u", a.n, a.q); }
                else if (a.kind == SOCK) { a.n = g.range(1, 4); xs::desc(" notifier%u->q%u", a.n, a.q); }
                else {
                    static const char* const kn[] = { "op", "group", "notify", "after" };
                    xs::desc(" %s ", kn[a.kind]);
                    a.id = (uint8_t)gen_op(g, 0, a.kind);
                }
            }
        }
    }
    void where(int on, int idx, const char* what, uint32_t id)
    {
        const int me = 1 + 10 * on + idx;
        if (on == ON_MAIN && !pthread_equal(pthread_self(), main_tid)) xs::fail("thread", "%s %u of the main queue runs on another thread", what, id);
        if (on == ON_THREAD) {
            if (QThread::currentThread() != qth[idx]) xs::fail("thread", "%s %u of a queue on thread %d runs on another thread", what, id, idx);
        } else if (on != ON_MAIN) {
            for (uint32_t i = 0; i < nth; ++i) if (QThread::currentThread() == qth[i]) xs::fail("thread", "%s %u runs on thread %u instead of %s %d", what, id, i, kOn[on], idx);
        }
        if (!t_owner) t_owner = me;
        else if (t_owner != me) xs::fail("pool", "%s %u of %s%d runs on a thread of %s%d", what, id, kOn[on], idx, kOn[(t_owner - 1) / 10], (t_owner - 1) % 10);
        if (on == ON_POOL && (naive::ithreadpool::current() == nullptr)) xs::fail("current", "no current pool");
    }
    void enter(uint32_t q, const char* what, uint32_t id)
    {
        where(qon[q], qidx[q], what, id);
        if (serial(q)) {
            if (active[q]++) xs::fail("overlap", "%s %u runs while another operation of serial queue %u is running", what, id, q);
        }
        if (qon[q] == ON_POOL) {
            int n = __atomic_add_fetch(&running[qidx[q]], 1, __ATOMIC_SEQ_CST);
            if (!blocks && n > pmax[qidx[q]]) xs::fail("width", "%d operations run on pool %d limited to %d threads", n, qidx[q], pmax[qidx[q]]);
        }
    }
    void leave(uint32_t q)
    {
        if (serial(q)) active[q]--;
        if (qon[q] == ON_POOL) __atomic_sub_fetch(&running[qidx[q]], 1, __ATOMIC_SEQ_CST);
    }
    void body(uint32_t id)
    {
        Rec& r = rec[id];
        enter(r.q, "operation", id);
        r.start = xs::seq();
        if (r.runs++) xs::fail("twice", "operation %u was executed twice", id);
        if (serial(r.q) && (r.kind == SUBMIT || r.kind == GROUP))
            for (uint32_t i = 0; i < nn; ++i) {
                Rec& o = rec[i];
                if (i == id || o.q != r.q || (o.kind != SUBMIT && o.kind != GROUP)) continue;
                if (o.sub_end && o.sub_end < r.sub_begin && !o.finish) xs::fail("order", "operation %u was submitted to serial queue %u after operation %u but started before that had finished", id, r.q, i);
            }
        if (r.body == 1) xs::point();
        if (r.body == 2) for (int i = 0; i < 4; ++i) sched_yield();
        if (r.ms) xs::sleep_ms(r.ms);
        if (r.napply) apply(r.aq, r.napply, *src[r.aq]);
        for (int i = 0; i < r.nchild; ++i) submit(r.child[i]);
        r.finish = xs::seq();
        leave(r.q);
    }
    void submit(uint32_t id)
    {
        Rec& r = rec[id];
        const queue q = *src[r.q];
        auto f = [id] { C->body(id); };
        r.sub_begin = xs::seq();
        switch (r.kind) {
            case AFTER: q.after(milliseconds(r.ms * 2), f); break;
            case GROUP: grp->async(f, q); break;
            case NOTIFY: grp->notify(f, q); break;
            default: q.async(f); break;
        }
        r.sub_end = xs::seq();
    }
    void apply(uint32_t q, uint32_t n, const queue& h)
    {
        int* arr = (int*)calloc(n, sizeof(int));
        h.apply(n, [q, arr](size_t k) {
            C->enter(q, "apply iteration", (uint32_t)k);
            xs::point();
            __atomic_fetch_add(&arr[k], 1, __ATOMIC_SEQ_CST);
            C->leave(q);
        });
        for (uint32_t k = 0; k < n; ++k) if (arr[k] != 1) xs::fail("apply", "apply returned when iteration %u had been executed %d times", k, arr[k]);
        free(arr);
    }
    // pending operations of a saturated pool start by priority, then in order
    xs::Gate sat[kP];
    volatile int held, nstarted, started[16];
    void priorities(uint32_t p)
    {
        held = nstarted = 0;
        for (int i = 0; i < pmax[p]; ++i) make(ON_POOL, p, false, i & 3).async([p] { C->held++; xs::gate_wait(&C->sat[p]); });
        xs::quiesce_ms(10);
        if (held != pmax[p]) xs::fail("width", "only %d of %d threads of pool %u are usable", held, pmax[p], p);
        static const int level[4] = { 1, 3, 2, 0 };
        const int n = (int)order_n;
        for (int i = 0; i < n; ++i) make(ON_POOL, p, false, (i * 7 + order_n) & 3).async([i] { C->started[__atomic_fetch_add(&C->nstarted, 1, __ATOMIC_SEQ_CST)] = i; });
        xs::quiesce_ms(10);
        if (nstarted) xs::fail("width", "operations run on pool %u although all threads are busy", p);
        xs::gate_open(&sat[p]);
        xs::quiesce_ms(10);
        if (nstarted != n) xs::fail("lost", "only %d of %d operations of a pool were executed", nstarted, n);
        for (int i = 1; i < n && pmax[p] == 1; ++i) {
            const int a = started[i - 1], b = started[i], la = level[(a * 7 + order_n) & 3], lb = level[(b * 7 + order_n) & 3];
            if (la < lb || (la == lb && a > b)) xs::fail("priority", "operation %d started before %d on a saturated pool", a, b);
        }
    }
    queue make(uint32_t on, uint32_t idx, bool ser, uint32_t prio)
    {
        switch (on) {
            case ON_THREAD: return qt5::create_serial_queue("qt thread", qth[idx], kPrios[prio]);
            case ON_POOL: return qt5::create_parallel_queue("qt pool", pool[idx], kPrios[prio]);
            case ON_MAIN: return main_queue();
            default: return ser ? queue("s", kPrios[prio]) : naive_parallel("p", kPrios[prio]);
        }
    }
    struct Sub
    {
        uint32_t t;
        static void tick(int on, int idx)
        {
            C->where(on, idx, "operation", 1000);
            xs::point();
            // blocks after the last handle may be gone
            if (C->slow_tick) naive_parallel("x").apply(2, [](size_t) { xs::point(); });
            __atomic_fetch_add(&C->ran_once, 1, __ATOMIC_SEQ_CST);
        }
        void operator()()
        {
            for (uint32_t i = 0; i < C->nact[t]; ++i) {
                Act& a = C->act[t][i];
                switch (a.kind) {
                    case SLEEP: xs::sleep_ms(a.n); break;
                    case TIMER: {
                        timer* tm = new timer(milliseconds(3), *C->src[a.q]);
                        const uint32_t q = a.q;
                        int* n = (int*)xs::raw_alloc(sizeof(int));
                        xs::Gate* gate = (xs::Gate*)xs::raw_alloc(sizeof(xs::Gate));
                        const int want = a.n;
                        tm->handler([q, n, want, gate] {
                            C->enter(q, "timer", 0);
                            if (++*n == want) xs::gate_open(gate);
                            C->leave(q);
                        });
                        tm->resume(milliseconds(1));
                        xs::gate_wait(gate);
                        tm->cancel();
                        const int at = *n;
                        xs::sleep_ms(10);
                        if (*n != at) xs::fail("timer", "timer on queue %u fired after it had been cancelled", q);
                        delete tm;
                        break;
                    }
                    case SOCK: {
                        int fd[2];
                        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd)) xs::inconclusive("socketpair");
                        socket_notifier* no = new socket_notifier(fd[0], notifier_type::READ, *C->src[a.q]);
                        const uint32_t q = a.q;
                        int* n = (int*)xs::raw_alloc(sizeof(int));
                        xs::Gate* gate = (xs::Gate*)xs::raw_alloc(sizeof(xs::Gate));
                        const int want = a.n, rd = fd[0];
                        no->handler([q, n, want, gate, rd](socket_t s, notifier_type t) {
                            C->enter(q, "notifier", 0);
                            if (s != rd || t != notifier_type::READ) xs::fail("notifier", "notifier on queue %u reports another socket or direction", q);
                            char c;
                            if (read(rd, &c, 1) != 1) xs::fail("notifier", "notifier on queue %u invoked without anything to read", q);
                            xs::io_changed();
                            if (++*n == want) xs::gate_open(gate);
                            C->leave(q);
                        });
                        no->resume();
                        for (int k = 0; k < want; ++k) {
                            if (write(fd[1], "x", 1) != 1) xs::inconclusive("write");
                            xs::io_changed();
                            if (k & 1) xs::sleep_ms(1);
                        }
                        xs::gate_wait(gate);
                        no->cancel();
                        if (write(fd[1], "x", 1) == 1) xs::io_changed();
                        xs::sleep_ms(10);
                        if (*n != want) xs::fail("notifier", "notifier on queue %u invoked after it had been cancelled", q);
                        delete no;
                        C->lsock = true;
                        break;
                    }
                    case DROP:
                    case SELFDROP: {
                        __atomic_fetch_add(&C->once, (int)a.n, __ATOMIC_SEQ_CST);
                        const int on = a.n & 1 ? ON_THREAD : ON_POOL, idx = a.q % (a.n & 1 ? C->nth : C->np);
                        C->ldrop = true;
                        if (a.kind == DROP) {
                            // a queue which is dropped right away
                            queue s = C->make(on, idx, a.n & 1, a.q & 3);
                            for (uint32_t k = 0; k < a.n; ++k) s.async([on, idx] { tick(on, idx); });
                        } else {
                            // by the last of its operations
                            std::unique_ptr<queue> s(new queue(C->make(on, idx, a.n & 1, a.q & 3)));
                            const queue& r = *s;
                            for (uint32_t k = 0; k + 1 < a.n; ++k) r.async([on, idx] { tick(on, idx); });
                            const queue c = *s;
                            s.reset();
                            c.async([on, idx, c] { tick(on, idx); });
                            C->lself = true;
                        }
                        break;
                    }
                    case APPLY: C->apply(a.q, a.n, *C->src[a.q]); break;
                    default: C->submit(a.id);
                }
            }
        }
    };
    struct Late { uint32_t i; void operator()() { xs::sleep_ms(C->late[i]); C->qth[i]->start(); } };
    struct Creator { void operator()() { for (uint32_t i = 0; i < C->nq; ++i) C->src[i] = new queue(C->make(C->qon[i], C->qidx[i], C->qser[i], C->qprio[i])); } };
    // everything but the main loop
    struct Super
    {
        void operator()()
        {
            Sub subs[kT];
            Thread th[kT], lt[kTh];
            if (C->scale) {
                for (uint32_t i = 0; i < C->nth; ++i) if (C->late[i]) C->qth[i]->start();
                C->many.run(*C->src[0], C->qser[0]);
                xs::quiesce_ms(100000);
                C->many.check();
            }
            Late l[kTh];
            for (uint32_t i = 0; i < C->nth; ++i) if (C->late[i]) { l[i].i = i; lt[i].start(&l[i]); }
            for (uint32_t t = 0; t < C->nt; ++t) { subs[t].t = t; th[t].start(&subs[t]); }
            for (uint32_t t = 0; t < C->nt; ++t) th[t].join();
            for (uint32_t i = 0; i < C->nth; ++i) lt[i].join();
            uint64_t ms = 2000;
            for (uint32_t i = 0; i < C->nn; ++i) ms += C->rec[i].ms * 3 + (C->rec[i].napply + 1) * 20;
            xs::quiesce_ms(ms);
            for (uint32_t i = 0; i < C->nn; ++i) {
                Rec& r = C->rec[i];
                if (r.sub_begin && !r.finish) xs::fail("lost", "operation %u of queue %u never ran to completion", i, r.q);
            }
            if (C->once != C->ran_once) xs::fail("lost", "%d of %d operations of a queue which was dropped did not run", C->once - C->ran_once, C->once);
            for (uint32_t i = 0; i < C->np; ++i)
                if (int n = C->pool[i]->activeThreadCount()) xs::fail("blocked", "pool %u believes that %d threads are in use", i, n);
            // a fresh queue on each of them still works
            for (uint32_t i = 0; i < C->np; ++i) C->priorities(i);
            for (uint32_t i = 0; i < C->np; ++i) C->make(ON_POOL, i, false, 0).apply(3, [i](size_t) { C->where(ON_POOL, i, "operation", 2000); });
            for (uint32_t i = 0; i < C->nth; ++i) C->make(ON_THREAD, i, true, 0).apply(3, [i](size_t) { C->where(ON_THREAD, i, "operation", 2000); });
            for (uint32_t i = 0; i < C->nq; ++i) delete C->src[i];
            delete C->grp;
            xs::quiesce_ms(1000);
            QCoreApplication::quit();
        }
    };
    void run() override
    {
        int argc = 1;
        char arg[] = "case";
        char* argv[] = { arg, nullptr };
        QCoreApplication app(argc, argv);
        main_tid = pthread_self();
        for (uint32_t i = 0; i < np; ++i) { pool[i] = new QThreadPool; pool[i]->setMaxThreadCount(pmax[i]); }
        for (uint32_t i = 0; i < nth; ++i) { qth[i] = new QThread; if (!late[i]) qth[i]->start(); }
        if (foreign) {
            // first use of all queues by some other thread
            Thread f;
            Creator c;
            f.start(&c);
            f.join();
        } else Creator()();
        if (lmain) for (uint32_t i = 0; i < nq; ++i) if (qon[i] == ON_MAIN && !(main_queue() == *src[i])) xs::fail("equal", "there is more than one main queue");
        grp = new group;
        Super s;
        Thread st;
        st.start(&s);
        if (main_late) xs::sleep_ms(15);
        exec();
        st.join();
        for (uint32_t i = 0; i < np; ++i) delete pool[i];
        for (uint32_t i = 0; i < nth; ++i) { qth[i]->quit(); qth[i]->wait(); delete qth[i]; }
        uint32_t n = 0;
        for (uint32_t i = 0; i < nn; ++i) n += rec[i].runs;
        if (n >= 3 || scale) xs::label(0);
        if (scale) xs::label(8);
        if (lmain) xs::label(1);
        if (lpool) xs::label(2);
        if (ldrop) xs::label(3);
        if (lself) xs::label(4);
        if (blocks) xs::label(5);
        if (lnest) xs::label(6);
        if (lsock) xs::label(7);
    }
};
} // namespace
PROPERTY("C26", C26, "1-3 threads submit operation trees (async, group, notify, after, apply, nested apply, timers, socket notifiers) to serial queues on 1-2 Qt threads (started early or late), parallel queues on 1-2 Qt pools of 1-3 threads, the main queue of a QCoreApplication and naive queues; queues are dropped with work pending, also by their own operations; non-trivial: three operations or more", "main queue", "pool", "queues dropped", "queues dropped by their own operation", "operations blocking in apply", "nested submissions", "socket notifiers", "12 to 5000 operations of one queue")
