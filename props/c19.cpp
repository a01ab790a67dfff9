// C19: objects of different backends are rejected; objects report what they were made of.
#include "common.h"
#include <stdexcept>
#include <string>
#include <sys/socket.h>
using namespace h;

namespace {
const int kT = 2, kA = 24, kQ = 6, kTm = 4, kLab = 8;
enum Code { NEWQ, COPYQ, MOVEQ, SELFQ, CMPQ, RUNQ, NEWT, COPYT, FIRET, NEWN, COPYN, FIREN, MIXT, MIXN, MIXG, GRP, DEFT, DEFN, GLOBAL, CODES };
const char* const kCode[] = { "queue", "copy", "move", "selfassign", "compare", "run", "timer", "copytimer", "fire", "notifier", "copynotifier", "notify", "mixtimer", "mixnotifier", "mixgroup", "group", "deftimer", "defnotifier", "global" };

struct C19;
C19* C;
// not compiled in here, which does not matter to the comparison
const backend_type kOther = static_cast<backend_type>(1);

// an implementation of another backend, powered by the naive one
struct QImpl : iqueue_impl
{
    iqueue_impl_ptr in;
    backend_type b;
    QImpl(const iqueue_impl_ptr& i, backend_type t) : in(i), b(t) {}
    void async(const operation_ptr& op) override { in->async(op); }
    void apply(size_t n, const iteration_operation_ptr& op) override { in->apply(n, op); }
    void after(milliseconds d, const operation_ptr& op) override { in->after(d, op); }
    backend_type backend() override { return b; }
};
struct TImpl : itimer_impl
{
    itimer_impl_ptr in;
    backend_type b;
    TImpl(const iqueue_impl_ptr& q, backend_type t) : in(naive_backend_get_static_instance()->create_timer(q)), b(t) {}
    void interval(milliseconds i) override { in->interval(i); }
    void latency(timer_precision p) override { in->latency(p); }
    void handler(const operation_ptr& op) override { in->handler(op); }
    void target_queue(const iqueue_impl_ptr& q) override { in->target_queue(q); }
    void resume(milliseconds d) override { in->resume(d); }
    void suspend() override { in->suspend(); }
    void cancel() override { in->cancel(); }
    backend_type backend() override { return b; }
};
struct NImpl : isocket_notifier_impl
{
    isocket_notifier_impl_ptr in;
    backend_type b;
    NImpl(const iqueue_impl_ptr& q, socket_t s, notifier_type n, backend_type t) : in(naive_backend_get_static_instance()->create_socket_notifier(q, s, n)), b(t) {}
    void handler(const socket_notifier_operation_ptr& op) override { in->handler(op); }
    void target_queue(const iqueue_impl_ptr& q) override { in->target_queue(q); }
    void resume() override { in->resume(); }
    void suspend() override { in->suspend(); }
    void cancel() override { in->cancel(); }
    socket_t socket() const override { return in->socket(); }
    notifier_type type() const override { return in->type(); }
    backend_type backend() override { return b; }
};
struct GImpl : igroup_impl
{
    igroup_impl_ptr in;
    backend_type b;
    GImpl(backend_type t) : in(naive_backend_get_static_instance()->create_group()), b(t) {}
    void async(const operation_ptr& op, const iqueue_impl_ptr& q) override { in->async(op, q); }
    bool wait(milliseconds t) override { return in->wait(t); }
    void notify(const operation_ptr& op, const iqueue_impl_ptr& q) override { in->notify(op, q); }
    backend_type backend() override { return b; }
};

struct C19 : Case
{
    struct Act { uint8_t code, a, b, x, y; };
    uint32_t nt, nact[kT];
    Act act[kT][kA];
    struct Lab { uint16_t n; uint8_t kind; uint32_t seed; } lab[kLab];
    bool lmix, lcopy, lodd;
    int mixes;

    void generate(Gen& g, xs::Config& c) override
    {
        C = this;
        thread_count(g.range(1, 3));
        c.step_limit = 600000;
        c.jump_p = 0; // time passes while all threads wait only
        c.freeze_ms = 0;
        for (int i = 0; i < kLab; ++i) {
            lab[i].kind = g.pick(4);
            lab[i].n = g.of({ (uint16_t)3, (uint16_t)0, (uint16_t)1, (uint16_t)15, (uint16_t)16, (uint16_t)200, (uint16_t)5000 });
            lab[i].seed = g.pick(256);
        }
        nt = g.range(1, kT);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(2, g.big ? kA : 14);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                a.code = g.pick(CODES + 3);
                if (a.code >= CODES) a.code = MIXT + (a.code - CODES);
                a.a = g.pick(kQ);
                a.b = g.pick(kQ);
                a.x = g.pick(8);
                a.y = g.pick(8);
                xs::desc(" %s%u.%u.%u.%u", kCode[a.code], a.a, a.b, a.x, a.y);
            }
        }
    }
    std::string label(uint32_t i)
    {
        Lab& l = lab[i % kLab];
        std::string s;
        for (uint32_t k = 0; k < l.n; ++k)
            switch (l.kind) {
                case 0: s += (char)('a' + (l.seed + k) % 26); break;
                case 1: s += (char)(l.seed * 7 + k * 13); break; // any byte, 0 too
                case 2: s += "%s%n"[k % 4]; break;
                default: s += " "; break;
            }
        if (l.kind == 1 || l.n > 100 || !l.n) lodd = true;
        return s;
    }
    static int* cell() { return (int*)xs::raw_alloc(sizeof(int)); }
    struct Sub
    {
        uint32_t t;
        // handles and what the model knows about them; id 0: the default
        struct Q { queue q; int id; std::string label; backend_type b; };
        struct T { timer t; int id; queue q; };
        struct N { socket_notifier n; int id; queue q; int fd; notifier_type ty; };
        std::unique_ptr<Q> q[kQ];
        std::unique_ptr<T> tm[kTm];
        std::unique_ptr<N> no[kTm];
        int next;

        static void works(const queue& q)
        {
            int* n = cell();
            q.async([n] { __atomic_fetch_add(n, 1, __ATOMIC_SEQ_CST); });
            q.apply(2, [n](size_t) { __atomic_fetch_add(n, 1, __ATOMIC_SEQ_CST); });
            for (int i = 0; i < 100 && *n != 3; ++i) xs::sleep_ms(1);
            if (*n != 3) xs::fail("unusable", "queue executed %d of 3 operations", *n);
        }
        static void fires(timer& t)
        {
            int* n = cell();
            t.handler([n] { __atomic_fetch_add(n, 1, __ATOMIC_SEQ_CST); });
            t.interval(milliseconds(5));
            t.resume();
            for (int i = 0; i < 400 && *n < 2; ++i) xs::sleep_ms(1);
            t.suspend();
            if (*n < 2) xs::fail("unusable", "timer does not fire");
            xs::sleep_ms(20);
        }
        static void fires(socket_notifier& x)
        {
            int* n = cell();
            x.handler([n](socket_t, notifier_type) { __atomic_fetch_add(n, 1, __ATOMIC_SEQ_CST); xs::sleep_ms(1); });
            x.resume();
            for (int i = 0; i < 400 && *n < 1; ++i) xs::sleep_ms(1);
            x.suspend();
            if (*n < 1) xs::fail("unusable", "notifier does not fire");
            xs::sleep_ms(20);
        }
        static int ready_socket()
        {
            int sv[2];
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) xs::inconclusive("socketpair");
            if (send(sv[1], "x", 1, 0) != 1) xs::inconclusive("send");
            return sv[0];
        }
        Q& need(uint32_t i, const Act& a)
        {
            if (!q[i]) make(i, a);
            return *q[i];
        }
        void make(uint32_t i, const Act& a)
        {
            std::string l = C->label(a.y + i);
            if (a.y >= 5 && a.b != i && q[a.b]) {
                // another handle, with a label of its own, of the same queue
                const Q& o = *q[a.b];
                q[i].reset(new Q{ queue(l, o.q.implementation()), o.id, l, o.b });
                check(*q[i]);
                return;
            }
            bool ser = a.x & 1;
            iqueue_impl_ptr in = ser ? naive_backend_get_static_instance()->create_serial_queue(l, kPrios[a.y & 3]) : naive_backend_get_static_instance()->create_parallel_queue(l, kPrios[a.y & 3]);
            backend_type b = a.x & 2 ? kOther : backend_type::naive;
            if (b != backend_type::naive) in = std::make_shared<QImpl>(in, b);
            if (!(a.x & 2) && (a.x & 4)) q[i].reset(new Q{ queue(l, kPrios[a.y & 3]), ++next, l, b });
            else q[i].reset(new Q{ queue(l, in), ++next, l, b });
            check(*q[i]);
            if (b == kOther && q[i]->q.implementation() != in) xs::fail("implementation", "queue reports another implementation");
        }
        void check(Q& x)
        {
            if (x.q.label() != x.label) xs::fail("label", "queue reports label '%s' instead of '%s'", x.q.label().c_str(), x.label.c_str());
            if (x.q.implementation()->backend() != x.b) xs::fail("backend", "queue reports another backend");
        }
        void compare()
        {
            for (int i = 0; i < kQ; ++i)
                for (int k = 0; k < kQ; ++k) {
                    if (!q[i] || !q[k]) continue;
                    bool eq = q[i]->id == q[k]->id;
                    if ((q[i]->q == q[k]->q) != eq || (q[i]->q != q[k]->q) == eq) xs::fail("equality", "queues %d and %d compare wrong", i, k);
                }
            for (int i = 0; i < kQ; ++i) if (q[i]) check(*q[i]);
        }
        void check(T& x) { if (!(x.t.target_queue() == x.q) || x.t.target_queue().label() != x.q.label()) xs::fail("target", "timer reports another target queue"); }
        void check(N& x)
        {
            if (!(x.n.target_queue() == x.q) || x.n.target_queue().label() != x.q.label()) xs::fail("target", "notifier reports another target queue");
            if ((int)x.n.socket() != x.fd || x.n.type() != x.ty) xs::fail("target", "notifier reports another socket or direction");
        }
        template<typename F> void mixed(bool same, const char* what, F f)
        {
            bool thrown = false;
            try {
                f();
            } catch (const std::logic_error& e) {
                thrown = true;
                if (!e.what() || !*e.what()) xs::fail("error", "error without a description");
            } catch (...) {
                xs::fail("error", "%s: an error of another type was thrown", what);
            }
            if (thrown == same) xs::fail("error", "%s: %s", what, same ? "matching backends were rejected" : "different backends were accepted");
            if (!same) { C->lmix = true; __atomic_fetch_add(&C->mixes, 1, __ATOMIC_SEQ_CST); }
        }
        void operator()()
        {
            for (uint32_t i = 0; i < C->nact[t]; ++i) {
                const Act& a = C->act[t][i];
                const uint32_t ti = a.a % kTm, tk = a.b % kTm;
                switch (a.code) {
                    case NEWQ: make(a.a, a); break;
                    case COPYQ: {
                        Q& s = need(a.b, a);
                        if (q[a.a] && a.a != a.b) { q[a.a]->q = s.q; q[a.a]->id = s.id; q[a.a]->label = s.label; q[a.a]->b = s.b; }
                        else if (a.a != a.b) q[a.a].reset(new Q(s));
                        C->lcopy = true;
                        break;
                    }
                    case MOVEQ: {
                        Q& s = need(a.b, a);
                        if (a.a == a.b) break;
                        if (q[a.a] && (a.x & 1)) { Q n{ s.q, s.id, s.label, s.b }; q[a.a]->q = std::move(n.q); q[a.a]->id = s.id; q[a.a]->label = s.label; q[a.a]->b = s.b; q[a.b].reset(); }
                        else { q[a.a].reset(new Q{ queue(std::move(s.q)), s.id, s.label, s.b }); q[a.b].reset(); }
                        break;
                    }
                    case SELFQ: { Q& s = need(a.a, a); queue& r = s.q; s.q = r; check(s); break; }
                    case CMPQ: compare(); break;
                    case RUNQ: works(need(a.a, a).q); break;
                    case NEWT: {
                        Q& s = need(a.b, a);
                        if (s.b == backend_type::naive && (a.x & 4)) tm[ti].reset(new T{ timer(milliseconds(a.y), s.q), ++next, s.q });
                        else tm[ti].reset(new T{ timer(std::make_shared<TImpl>(s.q.implementation(), s.b), s.q), ++next, s.q });
                        check(*tm[ti]);
                        break;
                    }
                    case COPYT:
                        if (!tm[tk] || ti == tk) break;
                        if (tm[ti]) { if (a.x & 1) tm[ti]->t = tm[tk]->t; else { timer c(tm[tk]->t); tm[ti]->t = std::move(c); } tm[ti]->q = tm[tk]->q; tm[ti]->id = tm[tk]->id; }
                        else tm[ti].reset(new T(*tm[tk]));
                        check(*tm[ti]);
                        check(*tm[tk]);
                        break;
                    case FIRET: if (tm[ti]) { fires(tm[ti]->t); check(*tm[ti]); } break;
                    case NEWN: {
                        Q& s = need(a.b, a);
                        int fd = ready_socket();
                        notifier_type ty = a.y & 1 ? notifier_type::WRITE : notifier_type::READ;
                        if (s.b == backend_type::naive && (a.x & 4)) no[ti].reset(new N{ socket_notifier(fd, ty, s.q), ++next, s.q, fd, ty });
                        else no[ti].reset(new N{ socket_notifier(std::make_shared<NImpl>(s.q.implementation(), fd, ty, s.b), s.q), ++next, s.q, fd, ty });
                        check(*no[ti]);
                        break;
                    }
                    case COPYN:
                        if (!no[tk] || ti == tk) break;
                        if (no[ti]) { if (a.x & 1) no[ti]->n = no[tk]->n; else { socket_notifier c(no[tk]->n); no[ti]->n = std::move(c); } no[ti]->q = no[tk]->q; no[ti]->fd = no[tk]->fd; no[ti]->ty = no[tk]->ty; }
                        else no[ti].reset(new N(*no[tk]));
                        check(*no[ti]);
                        check(*no[tk]);
                        break;
                    case FIREN: if (no[ti]) { fires(no[ti]->n); check(*no[ti]); } break;
                    case MIXT: {
                        Q &s = need(a.a, a), &d = need(a.b, a);
                        backend_type b = a.y & 1 ? kOther : backend_type::naive;
                        itimer_impl_ptr impl = std::make_shared<TImpl>(s.q.implementation(), b);
                        mixed(b == d.b, "timer", [&] { timer x(impl, d.q); if (!(x.target_queue() == d.q)) xs::fail("target", "timer reports another target queue"); });
                        // both are still good
                        if (b == s.b) { timer x(impl, s.q); fires(x); }
                        if (a.y & 2) works(d.q);
                        if (b != backend_type::naive && impl.use_count() > 1) xs::fail("leak", "the rejected implementation is still in use");
                        break;
                    }
                    case MIXN: {
                        Q &s = need(a.a, a), &d = need(a.b, a);
                        backend_type b = a.y & 1 ? kOther : backend_type::naive;
                        int fd = ready_socket();
                        isocket_notifier_impl_ptr impl = std::make_shared<NImpl>(s.q.implementation(), fd, notifier_type::READ, b);
                        mixed(b == d.b, "notifier", [&] { socket_notifier x(impl, d.q); if (!(x.target_queue() == d.q) || (int)x.socket() != fd) xs::fail("target", "notifier reports something else"); });
                        if (b == s.b) { socket_notifier x(impl, s.q); fires(x); }
                        if (a.y & 2) works(d.q);
                        break;
                    }
                    case MIXG: {
                        // a group of the naive backend works with all of them
                        Q& d = need(a.b, a);
                        backend_type b = a.y & 1 ? kOther : backend_type::naive;
                        group x(igroup_impl_ptr(std::make_shared<GImpl>(b)));
                        int* n = cell();
                        bool accepted = true;
                        try {
                            if (a.y & 2) x.async([n] { __atomic_fetch_add(n, 1, __ATOMIC_SEQ_CST); }, d.q);
                            else x.notify([n] { __atomic_fetch_add(n, 1, __ATOMIC_SEQ_CST); }, d.q);
                        } catch (const std::logic_error&) {
                            accepted = false;
                        }
                        if (!accepted && (b == d.b || b == backend_type::naive)) xs::fail("error", "group: matching backends were rejected");
                        for (int k = 0; k < 100 && accepted && !*n; ++k) xs::sleep_ms(1);
                        if (*n != accepted) xs::fail("unusable", "operation of a group was executed %d times", *n);
                        if (!x.wait()) xs::fail("unusable", "wait for a group fails");
                        works(d.q);
                        break;
                    }
                    case GRP: {
                        Q& d = need(a.b, a);
                        int* n = cell();
                        group x;
                        group y(x);
                        y.async([n] { xs::sleep_ms(2); __atomic_fetch_add(n, 1, __ATOMIC_SEQ_CST); }, d.q);
                        group z;
                        z = y;
                        if (!z.wait() || *n != 1) xs::fail("group", "copies of a group are not the same group");
                        break;
                    }
                    case DEFT: {
                        timer x{ milliseconds(a.y) };
                        if (!(x.target_queue() == global_queue())) xs::fail("target", "a timer without target does not use the global queue");
                        if (a.x & 1) fires(x);
                        break;
                    }
                    case DEFN: {
                        int fd = ready_socket();
                        socket_notifier x(fd, notifier_type::READ);
                        if (!(x.target_queue() == global_queue()) || (int)x.socket() != fd || x.type() != notifier_type::READ) xs::fail("target", "a notifier without target does not use the global queue");
                        if (a.x & 1) fires(x);
                        break;
                    }
                    case GLOBAL: {
                        queue x = global_queue(kPrios[a.x & 3]);
                        if (!(x == global_queue(kPrios[a.x & 3])) || x.label() != global_queue(kPrios[a.x & 3]).label()) xs::fail("equality", "global queues of one priority differ");
                        if (q[a.a] && q[a.a]->q == x) xs::fail("equality", "a new queue is the global queue");
                        works(x);
                        break;
                    }
                }
            }
            compare();
        }
    };
    void run() override
    {
        Thread th[kT];
        Sub* s[kT];
        for (uint32_t t = 0; t < nt; ++t) { s[t] = new Sub(); s[t]->t = t; s[t]->next = 1000 * t; th[t].start(s[t]); }
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        if (lmix) xs::label(0);
        if (lcopy) xs::label(1);
        if (lodd) xs::label(2);
        if (mixes > 2) xs::label(3);
    }
};
} // namespace
PROPERTY("C19", C19, "1-2 threads create, copy, move, compare and use queues, timers, notifiers and groups of two backends with arbitrary labels and combine implementations of either backend with queues of either backend, against a model of identities, labels and backends; non-trivial: different backends were combined", "handles copied", "unusual labels", "more than two rejected combinations")
