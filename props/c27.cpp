// C27: the process may end at any time.
#include "common.h"
#include <unistd.h>
using namespace h;

extern "C" int __cxa_atexit(void (*)(void*), void*, void*);

namespace {
const int kObj = 6, kT = 2, kA = 10, kN = 120;
enum ObjKind { O_SERIAL, O_PARALLEL, O_WAITABLE, O_GROUP, O_TIMER, O_ONESHOT, O_SIGNAL, O_EXITWORK, OKS };
const char* const kOk[OKS] = { "serial queue", "parallel queue", "waitable queue", "group", "timer", "one shot timer", "signal", "exit handler doing work" };
enum Act { A_NEW, A_SUBMIT, A_TOUCH, A_SLEEP, ACTS };
enum Via { V_ASYNC, V_AFTER, V_GROUP, V_TEMPQ, V_NOTIFY, V_APPLY, VIAS };
enum ExitVia { X_RETURN, X_OPERATION, X_MAINQ, X_TIMER, X_SIGNAL, XS };
const char* const kExit[XS] = { "return from main", "an operation", "an operation of the main queue", "a timer's handler", "a signal's handler" };
const char* const kVia[VIAS] = { "async", "after", "group", "own queue", "notify", "apply" };

struct C27;
C27* C;

struct C27 : Case
{
    struct Op { uint8_t via, prio, body, nchild, child[3]; bool wait; uint16_t ms; int runs; bool submitted; };
    struct Action { uint8_t kind, x, y; uint16_t ms; };
    struct Obj
    {
        uint8_t kind, prio, mode;
        uint16_t ms;
        uint8_t op;
        bool live, fired;
        Slot<queue> q;
        Slot<waitable_queue> w;
        Slot<group> g;
        Slot<timer> t;
        Slot<signal<void(int)>> s;
    };
    uint32_t K, no, nt, nop, na[kT + 1], usleft, gap;
    Obj obj[kObj];
    Op op[kN];
    Action act[kT + 1][kA];
    bool exiting, lbusy, lwork, lafter, lhandler;
    uint32_t xvia, xprio, xmode;
    Slot<timer> xt;
    Slot<signal<void(int)>> xsig;
    xs::Gate never;
    int running;

    int new_op(Gen& g, uint32_t depth)
    {
        if (nop >= kN) return -1;
        uint32_t id = nop++;
        Op& o = op[id];
        o.via = g.pick(VIAS);
        o.prio = g.pick(4);
        o.body = g.pick(4); // 0 nothing, 1 yields, 2, 3 sleeps
        o.ms = (uint16_t)g.of({ 1, 0, 5, 50 });
        o.wait = g.chance(1, 3);
        o.nchild = 0;
        xs::desc(" op%u(%s/%u", id, kVia[o.via], o.prio);
        if (o.body) xs::desc(o.body == 1 ? " yield" : " sleep%u", o.ms);
        if (depth < 3) {
            uint32_t n = g.small(3);
            for (uint32_t i = 0; i < n; ++i) {
                int c = new_op(g, depth + 1);
                if (c >= 0) op[id].child[op[id].nchild++] = (uint8_t)c;
            }
        }
        xs::desc(")");
        return (int)id;
    }
    void generate(Gen& g, xs::Config& c) override
    {
        C = this;
        K = g.range(1, 3);
        thread_count(K);
        c.step_limit = 800000;
        nt = g.pick(kT + 1);
        gap = g.pick(4);
        xvia = g.pick(XS);
        xprio = g.pick(4);
        xmode = g.pick(4);
        xs::desc("threads=%u gap=%u, exit by %s/%u/%u", K, gap, kExit[xvia], xprio, xmode);
        for (uint32_t t = 0; t <= nt; ++t) {
            xs::desc("; T%u:", t);
            na[t] = g.range(1, g.big ? kA : 6);
            for (uint32_t i = 0; i < na[t]; ++i) {
                Action& a = act[t][i];
                a.kind = g.pick(t ? (uint32_t)ACTS - 1 : (uint32_t)ACTS);
                if (t) a.kind++;
                a.x = a.y = 0;
                if (a.kind == A_NEW) {
                    if (no >= kObj) { a.kind = A_TOUCH; }
                    else {
                        a.x = (uint8_t)no;
                        Obj& o = obj[no++];
                        o.kind = g.pick(OKS);
                        o.prio = g.pick(4);
                        o.mode = g.pick(4);
                        o.ms = (uint16_t)g.of({ 1, 0, 3, 20 });
                        xs::desc(" new %s/%u mode%u ms%u", kOk[o.kind], o.prio, o.mode, o.ms);
                        int id = new_op(g, 2);
                        o.op = id < 0 ? 255 : (uint8_t)id;
                        continue;
                    }
                }
                if (a.kind == A_SUBMIT) {
                    int id = new_op(g, 0);
                    if (id < 0) { a.kind = A_TOUCH; }
                    else { a.x = (uint8_t)id; a.y = t ? 255 : g.pick(kObj + 2); xs::desc("->%u", a.y); continue; }
                }
                if (a.kind == A_TOUCH) { a.x = g.pick(5); xs::desc(" touch%u", a.x); }
                if (a.kind == A_SLEEP) { a.ms = (uint16_t)g.of({ 1, 5, 60, 500 }); xs::desc(" sleep%u", a.ms); }
            }
        }
    }

    void body(uint32_t id)
    {
        Op& o = op[id];
        if (++o.runs > 1) xs::fail("twice", "operation %u executed twice", id);
        ++running;
        if (exiting) lafter = true;
        if (o.body == 1) { xs::point(); xs::point(); }
        else if (o.body > 1) xs::sleep_ms(o.ms);
        for (uint32_t i = 0; i < o.nchild; ++i) submit(o.child[i], nullptr);
        if (o.body == 1) xs::point();
        --running;
    }
    void submit(uint32_t id, const queue* q)
    {
        Op& o = op[id];
        o.submitted = true;
        auto f = [id] { C->body(id); };
        switch (o.via) {
            case V_ASYNC: if (q) q->async(f); else global_queue(kPrios[o.prio]).async(f); break;
            case V_AFTER: if (q) q->after(milliseconds(o.ms), f); else global_queue(kPrios[o.prio]).after(milliseconds(o.ms), f); break;
            case V_GROUP: {
                group g;
                if (q) g.async(f, *q); else g.async(f, kPrios[o.prio]);
                // a serial queue of the caller may be the one executing us
                if (o.wait && !q) g.wait(milliseconds(200));
                break;
            }
            case V_TEMPQ: { queue t("temp", kPrios[o.prio]); t.async(f); break; }
            case V_NOTIFY: {
                group g;
                g.async([] { xs::point(); }, global_queue(kPrios[o.prio]));
                if (q) g.notify(f, *q); else g.notify(f, global_queue(kPrios[o.prio]));
                break;
            }
            case V_APPLY: {
                auto body = [id](size_t) { C->body(id); };
                if (q && o.wait) q->apply(1, body); else global_queue(kPrios[o.prio]).apply(1, body);
                break;
            }
        }
    }
    queue* target(uint32_t x)
    {
        if (x >= kObj || x >= no || !obj[x].live) return nullptr;
        if (obj[x].kind == O_SERIAL || obj[x].kind == O_PARALLEL) return &obj[x].q.get();
        if (obj[x].kind == O_WAITABLE) return &obj[x].w.get();
        return nullptr;
    }
    static void at_exit(void* p) { C->destroy((Obj*)p); }
    void create(uint32_t i)
    {
        Obj& o = obj[i];
        uint32_t id = o.op;
        switch (o.kind) {
            case O_SERIAL: o.q.make("static serial", kPrios[o.prio]); break;
            case O_PARALLEL: o.q.make(naive_parallel("static parallel", kPrios[o.prio])); break;
            case O_WAITABLE: o.w.make("static waitable", kPrios[o.prio]); break;
            case O_GROUP:
                o.g.make();
                if (id != 255) { op[id].submitted = true; o.g.get().async([id] { C->body(id); }, kPrios[o.prio]); }
                break;
            case O_TIMER:
                o.t.make(milliseconds(10 * o.ms + 30), global_queue(kPrios[o.prio]));
                o.t.get().handler([] { global_queue(queue_priority::DEFAULT).async([] { xs::point(); }); });
                o.t.get().resume(milliseconds(o.ms));
                break;
            case O_ONESHOT: {
                o.t.make(milliseconds(0), queue("one shot"));
                if (id != 255) { op[id].submitted = true; o.t.get().handler([id] { C->body(id); }); o.t.get().resume(milliseconds(o.ms)); }
                break;
            }
            case O_SIGNAL:
                o.s.make();
                if (id != 255) {
                    op[id].submitted = true;
                    o.s.get().connect([id](int) { if (!C->op[id].runs) C->body(id); }, global_queue(kPrios[o.prio]), notification_mode::single_updates);
                    o.s.get()(1);
                }
                break;
        }
        o.live = true;
        __cxa_atexit(at_exit, &o, nullptr);
    }
    void destroy(Obj* o) // destructor of a static object
    {
        for (uint32_t i = 0; i < gap; ++i) xs::point();
        if (gap == 3) xs::sleep_ms(2);
        uint32_t id = o->op;
        o->live = false;
        switch (o->kind) {
            case O_SERIAL:
            case O_PARALLEL:
                if (o->mode == 1 && id != 255) submit(id, &o->q.get());
                if (o->mode == 2) o->q.get().apply(3, [](size_t) { xs::point(); });
                o->q.drop();
                break;
            case O_WAITABLE:
                if (o->mode == 1 && id != 255) { op[id].submitted = true; o->w.get().async([id] { C->body(id); }); }
                if (o->mode < 3) o->w.get().wait_for_all();
                if (o->mode == 1 && id != 255 && op[id].runs != 1) xs::fail("not-executed", "waiting for a waitable queue at exit returned although its operation did not run");
                o->w.drop();
                break;
            case O_GROUP:
                if (o->mode < 2) {
                    if (!o->g.get().wait()) xs::fail("wait", "waiting for a group at exit failed");
                    if (id != 255 && op[id].runs != 1) xs::fail("not-executed", "waiting for a group at exit returned although its operation did not run");
                }
                o->g.drop();
                break;
            case O_TIMER:
            case O_ONESHOT:
                if (o->kind == O_TIMER || o->mode == 3) o->t.get().cancel();
                if (o->mode == 3 && id != 255 && o->kind == O_ONESHOT && !op[id].runs) op[id].submitted = false;
                o->t.drop();
                break;
            case O_SIGNAL:
                o->s.drop();
                if (id != 255 && !op[id].runs) op[id].submitted = false;
                break;
            case O_EXITWORK: {
                lwork = true;
                group g;
                if (id != 255) {
                    op[id].submitted = true;
                    g.async([id] { C->body(id); }, kPrios[o->prio]);
                    if (o->mode & 1) g.async([] { xs::point(); }, queue("at exit"));
                    if (!g.wait()) xs::fail("wait", "waiting for a group at exit failed");
                    if (op[id].runs != 1) xs::fail("not-executed", "waiting for a group at exit returned although its operation did not run");
                }
                break;
            }
        }
    }
    void actions(uint32_t t)
    {
        for (uint32_t i = 0; i < na[t]; ++i) {
            Action& a = act[t][i];
            switch (a.kind) {
                case A_NEW: create(a.x); break;
                case A_SUBMIT: submit(a.x, t ? nullptr : target(a.y)); break;
                case A_TOUCH: if (a.x == 4) main_queue(); else global_queue(kPrios[a.x]); break;
                case A_SLEEP: xs::sleep_ms(a.ms); break;
            }
        }
    }
    struct T { uint32_t i; Thread th; void operator()() { C->actions(i); } };
    T th[kT];

    static void last(void*) // after all other static destructors
    {
        // the remaining time until the process is gone: other threads go on
        xs::quiesce_ms(120000);
        for (uint32_t i = 0; i < C->nop; ++i)
            if (C->op[i].submitted && C->op[i].runs != 1) xs::fail("not-executed", "operation %u was executed %d times", i, C->op[i].runs);
        if (C->lbusy) xs::label(0);
        if (C->lwork) xs::label(1);
        if (C->lafter) xs::label(2);
        if (C->lhandler) xs::label(3);
        xs::finish();
    }
    void run() override
    {
        __cxa_atexit(last, nullptr, nullptr);
        for (uint32_t i = 0; i < nt; ++i) { th[i].i = i + 1; th[i].th.start(&th[i]); }
        actions(0);
        switch (xvia) {
            case X_RETURN: do_exit(); break;
            case X_OPERATION: global_queue(kPrios[xprio]).async([] { C->do_exit(); }); break;
            case X_MAINQ: main_queue().async([] { C->do_exit(); }); exec(); break;
            case X_TIMER:
                xt.make(milliseconds(xmode == 2 ? 20 : 0), global_queue(kPrios[xprio]));
                xt.get().handler([] { C->do_exit(); });
                if (xmode) __cxa_atexit(drop_timer, nullptr, nullptr);
                xt.get().resume(milliseconds(5));
                break;
            case X_SIGNAL:
                xsig.make();
                xsig.get().connect([](int) { C->do_exit(); }, global_queue(kPrios[xprio]), xmode & 1 ? notification_mode::batch_updates : notification_mode::single_updates);
                if (xmode) __cxa_atexit(drop_signal, nullptr, nullptr);
                xsig.get()(1);
                break;
        }
        xs::gate_wait(&never);
    }
    static void drop_timer(void*)
    {
        if (C->xmode == 3) C->xt.get().cancel();
        C->xt.drop();
    }
    static void drop_signal(void*) { C->xsig.drop(); }
    void do_exit()
    {
        for (uint32_t i = 0; i < nop; ++i)
            if (op[i].submitted && !op[i].runs) lbusy = true;
        exiting = true;
        if (xvia > X_OPERATION) lhandler = true;
        exit(0);
    }
};
} // namespace
PROPERTY("C27", C27, "main creates static queues, waitable queues, groups, timers and signals, submits operation trees (from up to two more threads, too) and returns, or an operation or a handler of a timer or signal calls exit: their destructors run in reverse order, interleaved with those of the library's own statics, while operations go on using the library; exit handlers submit and wait for work; non-trivial: operations were pending when main returned", "exit handler doing work", "operations executed during exit", "exit called by a handler or on the main queue")
