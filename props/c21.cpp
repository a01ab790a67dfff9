// C21: operations run on the thread or pool of their queue.
#include "scale.h"
#include <condition_variable>
#include <deque>
#include <mutex>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace h;

namespace {
const int kQ = 5, kP = 3, kT = 3, kA = 10, kN = 160;
enum Kind { SUBMIT, GROUP, NOTIFY, AFTER, APPLY, DROP, SLEEP };
enum Mode { FIFO, LIFO, LATE, EAGER, MODES }; // EAGER: a thread per work item
const char* const kMode[MODES] = { "fifo", "lifo", "late", "thread per item" };

struct C21;
C21* C;
thread_local int t_pool = -1, t_prio = -1;

struct C21 : Case
{
    struct Pool : naive::ithreadpool, std::enable_shared_from_this<Pool>
    {
        struct Item { operation_ptr op; int prio; std::shared_ptr<Pool> keep; };
        std::mutex m;
        std::condition_variable cv;
        std::deque<Item> work;
        int id, mode, max, threads = 0, idle = 0, blocked = 0;
        uint32_t late;
        bool closed = false;
        void execute(const operation_ptr& op, queue_priority p) override
        {
            std::unique_lock<std::mutex> l(m);
            if (!op) xs::fail("null", "pool %d was handed nothing", id);
            C->handed[id]++;
            work.push_back({ op, (int)p, shared_from_this() });
            spawn();
            cv.notify_one();
        }
        void spawn()
        {
            if ((int)work.size() > idle && (mode == EAGER || threads < max + blocked)) { ++threads; std::thread(&Pool::run, this).detach(); }
        }
        void notify_thread_blocked() override
        {
            std::unique_lock<std::mutex> l(m);
            ++blocked;
            C->nblock++;
            spawn();
        }
        void notify_thread_unblocked() override
        {
            std::unique_lock<std::mutex> l(m);
            if (--blocked < 0) xs::fail("unblocked", "pool %d was told that a thread is not blocked anymore more often than that one is", id);
        }
        void run()
        {
            std::unique_lock<std::mutex> l(m);
            for (;;) {
                while (work.empty() && !closed) { ++idle; cv.wait(l); --idle; }
                if (work.empty()) { --threads; return; }
                Item it = mode == LIFO ? work.back() : work.front();
                if (mode == LIFO) work.pop_back();
                else work.pop_front();
                l.unlock();
                if (mode == LATE) xs::sleep_ms(late);
                int op = t_pool, oq = t_prio;
                t_pool = id;
                t_prio = it.prio;
                run_with_threadpool(*it.op, this);
                t_pool = op;
                t_prio = oq;
                it.op.reset();
                it.keep.reset();
                l.lock();
            }
        }
    };
    struct Rec
    {
        uint8_t q, kind, body, nchild, child[3], napply, aq;
        uint16_t ms;
        uint64_t sub_begin, sub_end, start, finish;
        int runs;
    };
    struct Act { uint8_t kind, id, q; uint16_t n; };
    uint32_t nq, np, nt, nn, nact[kT], main_ms;
    bool main_late;
    uint8_t qpool[kQ], qser[kQ], qprio[kQ]; // qpool == kP: main queue
    uint8_t pmode[kP], pmax[kP], plate[kP];
    Rec rec[kN];
    Act act[kT][kA];
    int active[kQ], handed[kP], nblock;
    Cell cell[kQ];
    std::shared_ptr<Pool>* pool[kP];
    group* grp;
    pthread_t main_tid;
    bool main_started, ldrop, lnest, lmain, lapply, scale, plain;
    ManyOps many;

    bool serial(uint32_t q) { return qser[q] || qpool[q] == kP; }
    uint32_t gen_op(Gen& g, int depth, uint32_t kind, uint32_t lo)
    {
        uint32_t id = nn++;
        Rec& r = rec[id];
        r.q = g.range(lo, nq - 1);
        r.kind = kind;
        r.body = g.pick(4);
        r.ms = r.body == 3 ? g.range(1, 4) : 0;
        if (g.chance(1, 6)) {
            // only upwards, or they would wait for each other
            r.aq = g.range(r.q, nq - 1);
            if (r.aq == r.q && serial(r.q)) r.aq++;
            if (r.aq < nq) { r.napply = g.range(1, 4); lapply = true; }
        }
        xs::desc("%u->q%u", id, r.q);
        if (r.napply) xs::desc("(applies %u on q%u)", r.napply, r.aq);
        uint32_t k = depth < 3 && g.chance(1, 3) ? g.range(1, 3) : 0;
        if (k) xs::desc("{");
        for (uint32_t i = 0; i < k && nn < kN - 8; ++i) {
            static const uint8_t ks[] = { SUBMIT, SUBMIT, GROUP, AFTER, NOTIFY };
            uint8_t c = (uint8_t)gen_op(g, depth + 1, g.of(ks), 0);
            rec[id].child[rec[id].nchild++] = c;
            lnest = true;
        }
        if (k) xs::desc("}");
        xs::desc(" ");
        return id;
    }
    void generate(Gen& g, xs::Config& c) override
    {
        C = this;
        thread_count(g.range(1, 2));
        c.step_limit = 800000;
        scale = g.chance(1, 40);
        if (scale) {
            np = 1;
            pmode[0] = g.of({ FIFO, LIFO });
            pmax[0] = g.range(1, 3);
            qser[0] = g.chance(2, 3);
            qpool[0] = g.chance(1, 3) ? kP : 0;
            xs::desc("%s queue:", qpool[0] == kP ? "main" : qser[0] ? "serial" : "parallel");
            many.gen(g, c, 2, 20000);
            return;
        }
        np = g.range(1, kP);
        for (uint32_t i = 0; i < np; ++i) {
            pmode[i] = g.pick(MODES);
            pmax[i] = g.range(1, 3);
            plate[i] = g.range(1, 20);
            xs::desc("pool%u %s max %u; ", i, kMode[pmode[i]], pmax[i]);
        }
        nq = g.range(1, kQ);
        bool with_main = g.chance(1, 2);
        for (uint32_t i = 0; i < nq; ++i) {
            qpool[i] = g.pick(np);
            qser[i] = g.chance(2, 3);
            qprio[i] = g.pick(5);
            if (i == 0 && with_main) { qpool[0] = kP; lmain = true; }
            xs::desc("q%u=%s on pool%u; ", i, qpool[i] == kP ? "main" : qser[i] ? "serial" : "parallel", qpool[i]);
        }
        plain = g.chance(1, 4);
        if (plain) xs::desc("; also without naming queues");
        main_late = g.chance(1, 4);
        main_ms = g.of({ 0, 0, 1, 20 });
        nt = g.range(1, g.big ? kT : 2);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kA : 7);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                static const uint8_t ks[] = { SUBMIT, SUBMIT, SUBMIT, GROUP, APPLY, AFTER, NOTIFY, DROP, SLEEP };
                a.kind = g.of(ks);
                if (nn > kN - 40) { nact[t] = i; break; }
                a.q = g.pick(nq);
                if (a.kind == APPLY && qpool[a.q] == kP && main_late) a.kind = SLEEP;
                if (a.kind == APPLY) { a.n = g.range(1, 12); xs::desc(" apply(%u)->q%u", a.n, a.q); lapply = true; }
                else if (a.kind == DROP) { a.n = g.range(1, 12); xs::desc(" temporary queue with %u on pool%u", a.n, a.q % np); }
                else if (a.kind == SLEEP) { a.n = g.range(1, 10); xs::desc(" sleep%u", a.n); }
                else {
                    static const char* const kn[] = { "op", "group", "notify", "after" };
                    xs::desc(" %s ", kn[a.kind]);
                    a.id = (uint8_t)gen_op(g, 0, a.kind, 0);
                }
            }
        }
    }
    static const queue_priority* prios()
    {
        static const queue_priority p[5] = { queue_priority::DEFAULT, queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::BACKGROUND, queue_priority::UTILITY };
        return p;
    }
    void where(uint32_t q, const char* what, uint32_t id)
    {
        if (qpool[q] == kP) {
            if (!main_started || !pthread_equal(pthread_self(), main_tid)) xs::fail("thread", "%s %u of the main queue runs on another thread", what, id);
        } else {
            if (t_pool != qpool[q]) xs::fail("pool", "%s %u of a queue on pool %u runs on pool %d", what, id, qpool[q], t_pool);
            if (t_prio != (int)prios()[qprio[q]]) xs::fail("priority", "%s %u of queue %u was handed to the pool with another priority", what, id, q);
            if (naive::ithreadpool::current() == nullptr) xs::fail("current", "no current pool");
        }
    }
    void enter(uint32_t q, const char* what, uint32_t id)
    {
        where(q, what, id);
        if (serial(q)) {
            if (active[q]++) xs::fail("overlap", "%s %u runs while another operation of serial queue %u is running", what, id, q);
            cell[q].bump();
        }
    }
    void leave(uint32_t q)
    {
        if (serial(q)) { cell[q].bump(); active[q]--; }
    }
    void body(uint32_t id)
    {
        Rec& r = rec[id];
        enter(r.q, "operation", id);
        r.start = xs::seq();
        if (r.runs++) xs::fail("twice", "operation %u was executed twice", id);
        if (serial(r.q) && (r.kind == SUBMIT || r.kind == GROUP))
            for (uint32_t i = 0; i < nn; ++i) {
                Rec& o = rec[i];
                if (i == id || o.q != r.q || (o.kind != SUBMIT && o.kind != GROUP)) continue;
                if (o.sub_end && o.sub_end < r.sub_begin && !o.finish) xs::fail("order", "operation %u was submitted to serial queue %u after operation %u but started before that had finished", id, r.q, i);
            }
        if (r.body == 1) xs::point();
        if (r.body == 2) for (int i = 0; i < 4; ++i) sched_yield();
        if (r.ms) xs::sleep_ms(r.ms);
        if (r.napply) apply(r.aq, r.napply, *src[r.aq]);
        for (int i = 0; i < r.nchild; ++i) submit(r.child[i]);
        r.finish = xs::seq();
        leave(r.q);
    }
    void submit(uint32_t id)
    {
        Rec& r = rec[id];
        const queue q = *src[r.q];
        auto f = [id] { C->body(id); };
        r.sub_begin = xs::seq();
        switch (r.kind) {
            case AFTER: q.after(milliseconds(r.ms * 2), f); break;
            case GROUP: grp->async(f, q); break;
            case NOTIFY: grp->notify(f, q); break;
            default: q.async(f); break;
        }
        r.sub_end = xs::seq();
    }
    queue* src[kQ];
    void apply(uint32_t q, uint32_t n, const queue& h)
    {
        int* arr = (int*)calloc(n, sizeof(int));
        h.apply(n, [q, arr](size_t k) {
            C->enter(q, "apply iteration", (uint32_t)k);
            xs::point();
            arr[k]++;
            C->leave(q);
        });
        for (uint32_t k = 0; k < n; ++k) if (arr[k] != 1) xs::fail("apply", "apply returned when iteration %u had been executed %d times", k, arr[k]);
        free(arr);
    }
    struct Main { void operator()() { xs::sleep_ms(C->main_ms); C->main_tid = pthread_self(); C->main_started = true; exec(); xs::fail("exec", "exec returned"); } };
    struct Sub
    {
        uint32_t t;
        void operator()()
        {
            for (uint32_t i = 0; i < C->nact[t]; ++i) {
                Act& a = C->act[t][i];
                switch (a.kind) {
                    case SLEEP: xs::sleep_ms(a.n); break;
                    case DROP: {
                        // a queue which is dropped right away
                        __atomic_fetch_add(&C->once, (int)a.n, __ATOMIC_SEQ_CST);
                        const naive::ithreadpool_ptr p = *C->pool[a.q % C->np];
                        queue s = a.n & 1 ? naive::create_serial_queue("once", p) : naive::create_parallel_queue("once", p);
                        const int pi = a.q % C->np;
                        for (uint32_t k = 0; k < a.n; ++k)
                            s.async([pi] {
                                if (t_pool != pi) xs::fail("pool", "operation runs on another pool");
                                xs::point();
                                __atomic_fetch_add(&C->ran_once, 1, __ATOMIC_SEQ_CST);
                            });
                        C->ldrop = true;
                        break;
                    }
                    case APPLY: C->apply(a.q, a.n, *C->src[a.q]); break;
                    default: C->submit(a.id);
                }
            }
        }
    };
    volatile int once, ran_once;
    queue make(uint32_t i)
    {
        queue_priority p = prios()[qprio[i]];
        if (qpool[i] == kP) return main_queue();
        if (p == queue_priority::DEFAULT && i % 2) return qser[i] ? naive::create_serial_queue("s", *pool[qpool[i]]) : naive::create_parallel_queue("p", *pool[qpool[i]]);
        return qser[i] ? naive::create_serial_queue("s", *pool[qpool[i]], p) : naive::create_parallel_queue("p", *pool[qpool[i]], p);
    }
    // what names no queue runs on the global queue of default priority
    struct Plain
    {
        naive::ithreadpool* pool;
        volatile int n[7], sum[7];
        void ran(int i, const char* what, int v)
        {
            if (C->main_started && pthread_equal(pthread_self(), C->main_tid)) xs::fail("default", "%s runs on the main thread although no queue was named", what);
            if (naive::ithreadpool::current() != pool) xs::fail("default", "%s does not run on the pool of the global queue although no queue was named", what);
            __atomic_fetch_add(&n[i], 1, __ATOMIC_SEQ_CST);
            __atomic_fetch_add(&sum[i], v, __ATOMIC_SEQ_CST);
        }
    };
    struct Member
    {
        Plain* d;
        void get(int v) { d->ran(5, "slot of an object", v); }
    };
    void run_plain()
    {
        Plain* d = (Plain*)xs::raw_alloc(sizeof(Plain));
        global_queue().async([d] { d->pool = naive::ithreadpool::current(); });
        xs::quiesce_ms(1000);
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) xs::inconclusive("socketpair");
        char b = 'x';
        if (send(sv[1], &b, 1, MSG_DONTWAIT | MSG_NOSIGNAL) != 1) xs::inconclusive("send");
        {
            group g;
            g.async([d] { d->ran(0, "operation of a group", 1); });
            g.notify([d] { d->ran(1, "notification of a group", 1); });
            g.async(make_operation([d] { d->ran(0, "operation of a group", 2); }));
            g.notify(make_operation([d] { d->ran(1, "notification of a group", 2); }));
            timer t(milliseconds(0));
            t.handler([d] { d->ran(2, "handler of a timer", 1); });
            t.resume();
            socket_notifier x(sv[0], notifier_type::READ);
            x.handler([d](socket_t s, notifier_type) {
                char c;
                if (recv(s, &c, 1, MSG_DONTWAIT) == 1) d->ran(3, "handler of a notifier", 1);
            });
            x.resume();
            signal<void(int)> s;
            Member m = { d };
            connection c1 = s.connect([d](int v) { d->ran(4, "slot", v); });
            connection c2 = s.connect(&m, &Member::get);
            for (int v = 1; v <= 6; ++v) s(v);
            xs::quiesce_ms(1000);
            t.cancel();
            x.cancel();
            c1.disconnect();
            c2.disconnect();
        }
        static const int n[6] = { 2, 2, 1, 1, 6, 6 }, sum[6] = { 3, 3, 1, 1, 21, 21 };
        static const char* const what[6] = { "operations of a group", "notifications of a group", "timer", "notifier", "slot", "slot of an object" };
        for (int i = 0; i < 6; ++i) if (d->n[i] != n[i] || d->sum[i] != sum[i]) xs::fail("default", "%s: executed %d times with a total of %d instead of %d times and %d when no queue was named", what[i], d->n[i], d->sum[i], n[i], sum[i]);
        xs::quiesce_ms(6000);
        close(sv[0]);
        close(sv[1]);
    }
    void run() override
    {
        for (uint32_t i = 0; i < np; ++i) {
            auto p = std::make_shared<Pool>();
            p->id = i;
            p->mode = pmode[i];
            p->max = pmax[i];
            p->late = plate[i];
            pool[i] = new std::shared_ptr<Pool>(p);
        }
        if (scale) {
            Main mn;
            Thread mt;
            if (qpool[0] == kP) mt.start(&mn);
            many.run(make(0), serial(0));
            xs::quiesce_ms(100000);
            many.check();
            xs::label(0);
            xs::label(6);
            return;
        }
        for (uint32_t i = 0; i < nq; ++i) { src[i] = new queue(make(i)); cell[i].make(); }
        if (lmain && !(main_queue() == *src[0])) xs::fail("equal", "there is more than one main queue");
        grp = new group;
        Main mn;
        Thread mt;
        if (lmain && !main_late) mt.start(&mn);
        Sub subs[kT];
        Thread th[kT];
        for (uint32_t t = 0; t < nt; ++t) { subs[t].t = t; th[t].start(&subs[t]); }
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        if (lmain && main_late) { xs::quiesce_ms(50); mt.start(&mn); }
        uint64_t ms = 1000;
        for (uint32_t i = 0; i < nn; ++i) ms += rec[i].ms * 3 + (rec[i].napply + 1) * 20;
        for (uint32_t t = 0; t < nt; ++t) ms += nact[t] * 20 * 12;
        xs::quiesce_ms(ms);
        uint32_t n = 0;
        for (uint32_t i = 0; i < nn; ++i) {
            if (rec[i].sub_begin) n++;
            if (rec[i].sub_begin && !rec[i].finish) xs::fail("lost", "operation %u of queue %u never ran to completion", i, rec[i].q);
        }
        if (once != ran_once) xs::fail("lost", "an operation of a queue which was dropped did not run");
        for (uint32_t i = 0; i < np; ++i) {
            std::lock_guard<std::mutex> l((*pool[i])->m);
            if ((*pool[i])->blocked) xs::fail("blocked", "pool %u believes that %d threads are blocked", i, (*pool[i])->blocked);
        }
        if (plain) { run_plain(); xs::label(7); }
        if (n >= 3) xs::label(0);
        if (lmain) xs::label(1);
        if (nblock) xs::label(2);
        if (ldrop) xs::label(3);
        if (lnest) xs::label(4);
        for (uint32_t i = 0; i < np; ++i) if (handed[i] && pmode[i] == LATE) { xs::label(5); break; }
    }
};
} // namespace
PROPERTY("C21", C21, "1-3 threads submit operation trees (async, group, notify, after, apply, nested apply) to serial and parallel queues on 1-3 custom pools (fifo, lifo, late, a thread per item; 1-3 threads growing when told to) and to the main queue whose loop starts before, during or after the submissions; queues are dropped; non-trivial: three operations or more", "main queue", "a pool was told about blocked threads", "queues dropped", "nested submissions", "a pool running late", "12 to 20000 operations of one queue", "no queue named")
