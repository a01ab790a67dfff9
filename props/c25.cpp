// C25: connections tied to a Qt object end with the object.
#include <QtCore/QCoreApplication>
#include <QtCore/QObject>
#include <QtCore/QThread>
#include <xdispatch/backend_qt.h>
#include "common.h"
using namespace h;

namespace {
const int kO = 6, kS = 3, kT = 3, kPh = 4, kA = 8, kC = 96, kE = 96, kM = 6;
enum Kind { CONNECT, EMIT, DISCONNECT, DESTROY, CREATE, SLEEP, DROPSIG };
enum QK { Q_MAIN, Q_THREAD, Q_SERIAL, Q_GLOBAL, QKS };
const char* const kQK[QKS] = { "main", "thread", "serial", "global" };

struct C25;
C25* C;

struct C25 : Case
{
    struct Act { uint8_t kind, o, s, q, body, how, mode; };
    struct Conn
    {
        uint8_t obj, sig, body, batch, foreign, main;
        int phase, end_phase; // of connecting, of its end
        uint64_t begin, live, end_begin, end_done;
        int running;
        volatile int got[kE]; // per emission
    };
    struct Em { uint8_t sig; int phase; uint64_t begin, end; };
    // slots are told apart by the method
    struct Obj : QObject
    {
        int conn[kM];
        Obj() { for (int& c : conn) c = -1; }
        void m0(int v) { C->slot(conn[0], v, this); }
        void m1(int v) { C->slot(conn[1], v, this); }
        void m2(const int& v) { C->slot(conn[2], v, this); }
        void m3(int v) { C->slot(conn[3], v, this); }
        void m4(int v) { C->slot(conn[4], v, this); }
        void m5(const int& v) { C->slot(conn[5], v, this); }
    };
    uint32_t nt, nph, ns, no, nact[kT][kPh];
    Act act[kT][kPh][kA];
    volatile int nc, ne;
    int phase;
    Conn conn[kC];
    Em em[kE];
    Obj* volatile obj[kO];
    int method[kO];
    uint8_t home[kO]; // 1: lives in the Qt thread
    std::shared_ptr<signal<void(int)>>* sig[kS];
    QThread* qth;
    queue* qq[QKS];
    int8_t parent[kO];
    bool early[kO], parented[kO];
    bool lforeign, lsig, lconc, lmain, lchild, lboth;

    void generate(Gen& g, xs::Config& c) override
    {
        C = this;
        thread_count(g.range(1, 2));
        setenv("QT_NO_GLIB", "1", 1);
        c.step_limit = 1200000;
        c.races = false; // Qt itself is not observed
        nt = g.range(1, g.big ? kT : 2);
        nph = g.range(1, kPh);
        ns = g.range(1, kS);
        no = g.range(1, kO);
        for (uint32_t i = 0; i < no; ++i) {
            home[i] = g.chance(1, 3);
            early[i] = g.chance(2, 3);
            // children of objects of the same thread
            parent[i] = -1;
            if (i >= nt && g.chance(1, 3)) { parent[i] = (int8_t)(i - nt); home[i] = home[i - nt]; xs::desc("o%u child of o%u; ", i, i - nt); lchild = true; }
        }
        uint32_t total = 0;
        for (uint32_t p = 0; p < nph; ++p)
            for (uint32_t t = 0; t < nt; ++t) {
                nact[t][p] = g.range(1, kA);
                xs::desc("; phase %u T%u:", p, t);
                for (uint32_t i = 0; i < nact[t][p]; ++i) {
                    if (++total > 90) { nact[t][p] = i; break; }
                    static const uint8_t ks[] = { CONNECT, CONNECT, CONNECT, EMIT, EMIT, EMIT, DISCONNECT, DESTROY, CREATE, SLEEP, DROPSIG };
                    Act& a = act[t][p][i];
                    a.kind = g.of(ks);
                    // even phases: any object is connected, none ends;
                    // odd phases: threads have objects of their own
                    if (a.kind >= DISCONNECT && a.kind <= DESTROY && !(p & 1) && nt > 1) a.kind = CONNECT;
                    if (p & 1 || a.kind == CREATE) {
                        a.o = (g.pick(no) / nt) * nt + t;
                        if (a.o >= no) a.o = t < no ? t : 255;
                    } else a.o = g.pick(no);
                    a.s = g.pick(ns);
                    a.q = g.pick(QKS);
                    a.body = g.pick(4);
                    a.how = g.pick(2);
                    a.mode = g.chance(1, 6);
                    switch (a.kind) {
                        case CONNECT: xs::desc(" connect(s%u,o%u,%s%s)", a.s, a.o, kQK[a.q], a.mode ? ",batch" : ""); break;
                        case EMIT: xs::desc(" emit(s%u)", a.s); break;
                        case DISCONNECT: xs::desc(" disconnect(s%u,o%u)", a.s, a.o); break;
                        case DESTROY: xs::desc(" destroy(o%u)", a.o); break;
                        case CREATE: xs::desc(" create(o%u)", a.o); break;
                        case SLEEP: xs::desc(" sleep"); break;
                        default: if (nt > 1) a.kind = SLEEP; else xs::desc(" dropsignal(s%u)", a.s);
                    }
                }
            }
        lconc = nt > 1;
    }
    void slot(int ci, int e, Obj* o)
    {
        Conn& c = conn[ci];
        const uint64_t now = xs::seq();
        if (c.main && QThread::currentThread() != QCoreApplication::instance()->thread()) xs::fail("queue", "slot of connection %d on the main queue is called by another thread", ci);
        if (c.end_done) xs::fail("late", "slot of connection %d of object %d is called with %d after the connection had ended", ci, c.obj, e);
        if (e < 0 || e >= ne) xs::fail("value", "slot called with %d which was never emitted", e);
        if (em[e].sig != c.sig) xs::fail("value", "slot called by another signal");
        if (em[e].end && em[e].end < c.begin) xs::fail("early", "slot of connection %d called with emission %d made before", ci, e);
        if (c.got[e]++) xs::fail("twice", "slot of connection %d called twice for emission %d", ci, e);
        if (em[e].begin == 0 || now < em[e].begin) xs::fail("value", "slot called before the emission");
        __atomic_fetch_add(&c.running, 1, __ATOMIC_SEQ_CST);
        if (c.body == 1) xs::point();
        if (c.body == 2) xs::sleep_ms(2);
        if (c.body == 3) sched_yield();
        // the object is waited for: this is a use after free otherwise
        if (o && o->conn[0] < -1) xs::fail("dead", "object damaged");
        __atomic_fetch_sub(&c.running, 1, __ATOMIC_SEQ_CST);
    }
    struct Sub
    {
        uint32_t t;
        void end(int o, int s, const char* how, bool before)
        {
            for (int i = 0; i < C->nc; ++i) {
                Conn& c = C->conn[i];
                if (!c.live || (o >= 0 && c.obj != o) || (s >= 0 && c.sig != s) || c.end_done) continue;
                if (before) { c.end_begin = xs::seq(); c.end_phase = C->phase; }
                else {
                    if (C->conn[i].running) xs::fail("running", "slot of connection %d is still running after %s", i, how);
                    c.end_done = xs::seq();
                }
            }
        }
        template<typename M> static void conn_m(signal<void(int)>& s, Obj* o, M m, const queue& q, notification_mode n) { qt5::connect(s, o, m, q, n); }
        void ends(int o, bool before)
        {
            end(o, -1, "the object was destroyed", before);
            for (uint32_t i = 0; i < C->no; ++i)
                if (C->parent[i] == o && C->obj[i] && C->parented[i]) {
                    ends((int)i, before);
                    if (!before) C->obj[i] = nullptr;
                }
        }
        void destroy(int o)
        {
            if (!C->obj[o]) return;
            ends(o, true);
            Obj* p = C->obj[o];
            C->qq[C->home[o] ? Q_THREAD : Q_MAIN]->apply(1, [p](size_t) { delete p; });
            C->obj[o] = nullptr;
            ends(o, false);
        }
        void create(int o)
        {
            if (C->obj[o]) return;
            Obj* p = new Obj;
            C->method[o] = 0;
            C->parented[o] = false;
            // all of them live in the thread which runs a loop
            p->moveToThread(C->home[o] ? C->qth : QCoreApplication::instance()->thread());
            if (C->parent[o] >= 0 && C->obj[C->parent[o]]) {
                Obj* par = C->obj[C->parent[o]];
                C->qq[C->home[o] ? Q_THREAD : Q_MAIN]->apply(1, [p, par](size_t) { p->setParent(par); });
                C->parented[o] = true;
            }
            C->obj[o] = p;
        }
        void operator()()
        {
            const int ph = C->phase;
            for (uint32_t i = 0; i < C->nact[t][ph]; ++i) {
                const Act& a = C->act[t][ph][i];
                signal<void(int)>& s = **C->sig[a.s];
                if (a.o == 255 && a.kind != EMIT && a.kind != SLEEP) continue;
                switch (a.kind) {
                    case SLEEP: xs::sleep_ms(3); break;
                    case EMIT: {
                        int e = __atomic_fetch_add(&C->ne, 1, __ATOMIC_SEQ_CST);
                        C->em[e].sig = a.s;
                        C->em[e].phase = ph;
                        C->em[e].begin = xs::seq();
                        s(e);
                        C->em[e].end = xs::seq();
                        break;
                    }
                    case CREATE: create(a.o); break;
                    case CONNECT: {
                        if (a.o % C->nt == t && (ph & 1 || !C->obj[a.o])) create(a.o);
                        Obj* o = C->obj[a.o];
                        if (!o) break;
                        if (a.o % C->nt != t) C->lboth = true;
                        const int k = a.how ? 0 : __atomic_fetch_add(&C->method[a.o], 1, __ATOMIC_SEQ_CST);
                        if (k >= kM) break;
                        int ci = __atomic_fetch_add(&C->nc, 1, __ATOMIC_SEQ_CST);
                        Conn& c = C->conn[ci];
                        c.obj = a.o;
                        c.sig = a.s;
                        c.body = a.body;
                        c.batch = a.mode;
                        c.foreign = C->home[a.o];
                        c.main = a.q == Q_MAIN;
                        const bool plain = c.main && !a.mode && ci % 2; // these are the defaults
                        c.phase = ph;
                        c.end_phase = 1000;
                        const notification_mode m = a.mode ? notification_mode::batch_updates : notification_mode::single_updates;
                        if (c.foreign) C->lforeign = true;
                        if (a.q == Q_MAIN) C->lmain = true;
                        c.begin = xs::seq();
                        const queue& q = *C->qq[a.q];
                        if (a.how) {
                            const typename signal<void(int)>::functor f = [ci](int v) { C->slot(ci, v, nullptr); };
                            if (plain) qt5::connect(s, o, f);
                            else qt5::connect(s, o, f, q, m);
                        } else {
                            o->conn[k] = ci;
                            switch (k) {
                                case 0: if (plain) qt5::connect(s, o, &Obj::m0); else qt5::connect(s, o, &Obj::m0, q, m); break;
                                case 1: if (plain) qt5::connect(s, o, &Obj::m1); else qt5::connect(s, o, &Obj::m1, q, m); break;
                                case 2: qt5::connect(s, o, &Obj::m2, q, m); break;
                                case 3: qt5::connect(s, o, &Obj::m3, q, m); break;
                                case 4: qt5::connect(s, o, &Obj::m4, q, m); break;
                                default: qt5::connect(s, o, &Obj::m5, q, m); break;
                            }
                        }
                        c.live = xs::seq();
                        break;
                    }
                    case DISCONNECT:
                        if (!C->obj[a.o]) break;
                        end(a.o, a.s, "disconnecting", true);
                        qt5::disconnect(s, C->obj[a.o]);
                        end(a.o, a.s, "disconnecting", false);
                        break;
                    case DESTROY: destroy(a.o); break;
                    case DROPSIG:
                        end(-1, a.s, "the signal was destroyed", true);
                        C->sig[a.s]->reset();
                        end(-1, a.s, "the signal was destroyed", false);
                        *C->sig[a.s] = std::make_shared<signal<void(int)>>();
                        C->lsig = true;
                        break;
                }
            }
        }
    };
    struct Super
    {
        void operator()()
        {
            C->qq[Q_MAIN] = new queue(main_queue());
            C->qq[Q_THREAD] = new queue(qt5::create_serial_queue("t", C->qth));
            C->qq[Q_SERIAL] = new queue("s");
            C->qq[Q_GLOBAL] = new queue(global_queue());
            Sub subs[kT];
            for (uint32_t o = 0; o < C->no; ++o) if (C->early[o]) subs[0].create((int)o);
            for (uint32_t p = 0; p < C->nph; ++p) {
                C->phase = (int)p;
                Thread th[kT];
                for (uint32_t t = 0; t < C->nt; ++t) { subs[t].t = t; th[t].start(&subs[t]); }
                for (uint32_t t = 0; t < C->nt; ++t) th[t].join();
                xs::quiesce_ms(1000);
            }
            C->phase = 900;
            // deliveries
            int n = 0;
            for (int i = 0; i < C->nc; ++i)
                for (int e = 0; e < C->ne; ++e) {
                    Conn& c = C->conn[i];
                    Em& m = C->em[e];
                    n += c.got[e];
                    if (m.sig != c.sig || c.batch || !c.live) continue;
                    if (m.begin > c.live && m.phase < c.end_phase && !c.got[e])
                        xs::fail("missing", "connection %d of object %d was not called for emission %d", i, c.obj, e);
                }
            Sub s;
            for (uint32_t o = 0; o < C->no; ++o) s.destroy((int)o);
            for (uint32_t i = 0; i < C->ns; ++i) { (**C->sig[i])(C->ne); }
            xs::quiesce_ms(1000);
            for (uint32_t i = 0; i < C->ns; ++i) delete C->sig[i];
            if (n) xs::label(0);
            QCoreApplication::quit();
        }
    };
    void run() override
    {
        int argc = 1;
        char arg[] = "case";
        char* argv[] = { arg, nullptr };
        QCoreApplication app(argc, argv);
        qth = new QThread;
        qth->start();
        for (uint32_t i = 0; i < ns; ++i) sig[i] = new std::shared_ptr<signal<void(int)>>(std::make_shared<signal<void(int)>>());
        Super s;
        Thread st;
        st.start(&s);
        exec();
        st.join();
        qth->quit();
        qth->wait();
        delete qth;
        if (lforeign) xs::label(1);
        if (lsig) xs::label(2);
        if (lconc) xs::label(3);
        if (lmain) xs::label(4);
        if (lchild) xs::label(5);
        if (lboth) xs::label(6);
    }
};
} // namespace
PROPERTY("C25", C25, "1-3 threads in up to four phases create Qt objects (of their own or of a Qt thread), connect them by method or lambda on main, Qt thread, serial or global queues, emit, disconnect and destroy objects and signals; invocations are checked against the model of live connections; non-trivial: a slot was called", "object of another thread", "signal destroyed first", "concurrent", "slots on the main queue", "child objects", "connected by several threads")
