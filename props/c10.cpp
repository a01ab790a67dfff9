// C10: socket notifiers report readiness. C11: suspend and cancel stop them.
#include "scale.h"
#include <sched.h>
#include <xdispatch/socket_notifier.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace h;

namespace {
const int kNo = 3, kA = 12, kC = 4;
struct Notifiers : Case
{
    enum { RESUME, SUSPEND, SLEEP, DATA, DRAIN, HANDLER, CLOSEPEER, SETTLE, LOAD };
    struct Act { uint8_t kind; uint16_t n; };
    struct No
    {
        uint8_t q, type, chunk;
        uint16_t dur;
        bool high, pipe;
        uint32_t nact;
        Act act[kA];
        uint8_t in_kind, in_at; // 1 suspend, 2 cancel from within the handler
        uint8_t in_other;       // cancels that one instead of itself
        socket_notifier* n;
        int fd, peer;
        uint32_t written, got, fired;
        volatile bool ctl;
        int active, level, budget, spurious, gen, handler_gen, stale;
        bool eof, cancelled, selfcan, fdclosed;
        uint32_t writes_left;
        Cell* mem;
    };
    bool cancel_focus, exact;
    uint32_t K, nq, nno, ncan, load_ms;
    uint8_t kind[2];
    queue* qs[2];
    int active[2];
    Cell cell[2];
    No no[kNo];
    uint16_t can_at[kNo][kC];
    uint8_t can_on[kNo][kC];
    uint8_t closefd[kNo];
    bool lpipe, lsusp, lcan, lhigh, lwrite, leof, lclosed, lself, stuffed, scale;
    uint32_t many_n, many_rounds;

    void gen(Gen& g, xs::Config& c)
    {
        K = g.range(1, 4);
        thread_count(K);
        scale = g.chance(1, 50);
        if (scale) {
            kind[0] = g.pick(QK_COUNT);
            if (g.chance(1, 2)) { many_n = scale_count(g, 100); many_rounds = g.range(1, 4); }
            else { many_n = g.range(1, 3); many_rounds = scale_count(g, 1100); }
            c.jump_p = 0;
            c.freeze_ms = 0;
            c.step_limit += 10000ull * many_n * (many_rounds + 4);
            xs::desc("threads=%u queue %s: %u notifiers, %u bytes for each", K, kind_name(kind[0]), many_n, many_rounds);
            return;
        }
        exact = g.chance(3, 4);
        if (exact) c.jump_p = 0;
        c.step_limit = 600000;
        nq = g.range(1, 2);
        xs::desc("threads=%u%s queues:", K, exact ? " exact time" : "");
        for (uint32_t i = 0; i < nq; ++i) { kind[i] = g.pick(QK_COUNT); xs::desc(" %s", kind_name(kind[i])); }
        nno = g.range(1, g.big ? 3 : 2);
        for (uint32_t k = 0; k < nno; ++k) {
            No& t = no[k];
            t.q = g.pick(nq);
            t.type = g.chance(1, 4);
            t.high = g.chance(1, 5);
            t.pipe = g.chance(1, 4);
            lpipe |= t.pipe;
            t.chunk = g.range(1, 4);
            t.dur = g.of({ (uint16_t)0, (uint16_t)0, (uint16_t)1, (uint16_t)5, (uint16_t)20 });
            t.writes_left = g.range(1, 6);
            lwrite |= t.type;
            lhigh |= t.high;
            xs::desc("; n%u on q%u %s%s, handler takes %u:", k, t.q, t.type ? "write" : "read", t.high ? " high fd" : t.pipe ? " pipe" : "", t.dur);
            int level = 0;
            bool open = true;
            uint32_t n = g.range(2, g.big ? kA : 8);
            for (uint32_t i = 0; i < n; ++i) {
                Act a{};
                uint32_t what = i == 0 ? 5 : g.pick(14);
                if (what < 3) { a.kind = SLEEP; a.n = g.of({ (uint16_t)0, (uint16_t)1, (uint16_t)5, (uint16_t)20, (uint16_t)60, (uint16_t)6000 }); xs::desc(" sleep%u", a.n); }
                else if (what < 5 && level > 0) { a.kind = SUSPEND; level--; lsusp = true; xs::desc(" suspend"); }
                else if (what < 7 && level < 2) { a.kind = RESUME; level++; xs::desc(" resume"); }
                else if (what == 7) { a.kind = HANDLER; xs::desc(" handler"); }
                else if (what == 8) { a.kind = LOAD; a.n = g.of({ (uint16_t)5, (uint16_t)30 }); load_ms += a.n; xs::desc(" queue busy %u", a.n); }
                else if (what == 9 && open && g.chance(1, t.type ? 4 : 2)) { a.kind = CLOSEPEER; open = false; leof = true; xs::desc(" close peer"); }
                else if (what == 10 && level == 0) { a.kind = SETTLE; xs::desc(" settle"); }
                else if (open) {
                    a.kind = t.type && g.chance(1, 2) ? DRAIN : DATA;
                    a.n = g.range(1, 9);
                    xs::desc(a.kind == DATA ? " peer sends %u" : " peer reads", a.n);
                } else { a.kind = SLEEP; a.n = 1; }
                t.act[t.nact++] = a;
            }
            uint32_t in = g.pick(6);
            if (in == 5) { t.in_kind = cancel_focus ? 2 : 1; t.in_at = g.range(1, 2); lself = true; xs::desc(" %s itself at invocation %u", cancel_focus ? "cancels" : "suspends", t.in_at); }
            else if (in == 4 && cancel_focus && k + 1 < nno) { t.in_kind = 2; t.in_at = g.range(1, 2); t.in_other = g.range(k + 1, nno - 1); xs::desc(" cancels n%u at invocation %u", t.in_other, t.in_at); }
            closefd[k] = cancel_focus && g.chance(1, 4) ? 1 : 0;
            if (closefd[k]) { lclosed = true; xs::desc(" then its socket is closed"); }
        }
        if (cancel_focus) {
            ncan = g.range(1, kC);
            for (uint32_t k = 0; k < nno; ++k)
                for (uint32_t i = 0; i < ncan; ++i) {
                    can_at[k][i] = g.of({ (uint16_t)10, (uint16_t)0, (uint16_t)1, (uint16_t)5, (uint16_t)20, (uint16_t)21, (uint16_t)60, (uint16_t)100 });
                    can_on[k][i] = g.pick(3);
                    xs::desc("; C%u.%u: cancel at %u%s", k, i, can_at[k][i], can_on[k][i] == 2 ? " and resume" : "");
                }
        }
    }
    // a pipe is not written to in the opposite direction
    ssize_t put(No& t, int fd, const void* b, size_t n)
    {
        if (!t.pipe) return send(fd, b, n, MSG_DONTWAIT | MSG_NOSIGNAL);
        if ((fd == t.fd) != (t.type == 1)) return -1;
        ssize_t r = write(fd, b, n);
        xs::io_changed();
        return r;
    }
    ssize_t get(No& t, int fd, void* b, size_t n)
    {
        if (!t.pipe) return recv(fd, b, n, MSG_DONTWAIT);
        if ((fd == t.fd) == (t.type == 1)) return -1;
        ssize_t r = read(fd, b, n);
        xs::io_changed();
        return r;
    }
    static int avail(int fd) { int n = 0; ioctl(fd, FIONREAD, &n); return n; }
    bool ready(No& t)
    {
        struct pollfd p = { t.fd, (short)(t.type ? POLLOUT : POLLIN), 0 };
        struct timespec z = { 0, 0 };
        (void)z;
        return raw_poll(&p) > 0;
    }
    static long raw_poll(struct pollfd* p)
    {
        long r;
        asm volatile("syscall" : "=a"(r) : "a"(7), "D"(p), "S"(1L), "d"(0L) : "rcx", "r11", "memory");
        return r;
    }
    void fire(uint32_t k, int gen, socket_t s, notifier_type type)
    {
        No& t = no[k];
        if ((int)s != t.fd || type != (t.type ? notifier_type::WRITE : notifier_type::READ)) xs::fail("arguments", "handler of notifier %u invoked with another socket or direction", k);
        if (t.active++) xs::fail("overlap", "notifier %u invokes its handler while it is still running", k);
        if (is_serial(kind[t.q])) { if (active[t.q]++) xs::fail("overlap-queue", "notifier %u invoked while another operation of its serial queue runs", k); cell[t.q].bump(); }
        if (t.cancelled) xs::fail("after-cancel", "notifier %u invokes its handler after cancel returned", k);
        t.fired++;
        if (t.mem) t.mem->bump();
        if (gen < t.handler_gen && ++t.stale > 1 + t.budget) xs::fail("stale-handler", "notifier %u keeps using a handler which was replaced", k);
        if (t.level <= 0 && --t.budget < 0) xs::fail("suspended", "notifier %u invokes its handler although it is suspended", k);
        if (!ready(t) && --t.spurious < 0) {
            xs::fail("spurious", "notifier %u invoked although its socket is not ready for %s", k, t.type ? "writing" : "reading");
        }
        if (t.dur) xs::sleep_ms(t.dur);
        else xs::point();
        bool stop = false;
        if (t.type) {
            // fill the buffer up, so that it is not ready until the peer reads
            char b[4096];
            memset(b, 1, sizeof b);
            ssize_t r;
            while ((r = put(t, t.fd, b, sizeof b)) > 0) t.got += r;
            if (errno == EPIPE) { t.eof = true; stop = true; }
        } else {
            char b[16];
            ssize_t r = get(t, t.fd, b, t.chunk);
            if (r > 0) {
                for (ssize_t i = 0; i < r; ++i)
                    if ((unsigned char)b[i] != (unsigned char)(t.got + i)) xs::fail("data", "wrong data");
                t.got += r;
            } else if (r == 0) { t.eof = true; stop = true; }
        }
        if (t.in_kind && t.fired == t.in_at) {
            if (t.in_kind == 1) { while (t.level > 0) suspend(k); }
            else if (t.in_other) {
                No& o = no[t.in_other];
                if (o.active) lcan = true;
                o.n->cancel();
                if (o.active) xs::fail("still-running", "cancel of notifier %u by the handler of notifier %u returned while its handler is running", t.in_other, k);
                o.cancelled = true;
                if (stop) { t.n->cancel(); t.selfcan = true; }
            } else { t.n->cancel(); t.selfcan = true; }
        } else if (stop) { if (cancel_focus) { t.n->cancel(); t.selfcan = true; } else while (t.level > 0) suspend(k); }
        xs::point();
        if (t.mem) t.mem->bump();
        if (is_serial(kind[t.q])) { cell[t.q].bump(); active[t.q]--; }
        t.active--;
        if (t.selfcan) t.cancelled = true;
    }
    // calls changing the state of a notifier are made one after the other, or
    // the state expected would be unknown (no synchronization in between)
    void lock(uint32_t k) { while (no[k].ctl) sched_yield(); no[k].ctl = true; }
    void unlock(uint32_t k) { no[k].ctl = false; }
    void suspend(uint32_t k)
    {
        No& t = no[k];
        lock(k);
        if (t.level <= 0) { unlock(k); return; }
        t.budget++;
        t.n->suspend();
        t.level--;
        unlock(k);
    }
    void resume(uint32_t k)
    {
        lock(k);
        no[k].level++;
        no[k].n->resume();
        unlock(k);
    }
    void set_handler(uint32_t k)
    {
        Notifiers* c = this;
        int gen = ++no[k].gen;
        auto f = [c, k, gen](socket_t s, notifier_type t) { c->fire(k, gen, s, t); };
        if ((k + gen) % 3) no[k].n->handler(WrapSocket::op(k + gen, f));
        else no[k].n->handler(f);
        no[k].handler_gen = gen;
        no[k].stale = 0;
    }
    void send_data(uint32_t k, uint32_t n)
    {
        No& t = no[k];
        for (uint32_t i = 0; i < n; ++i) {
            unsigned char b = (unsigned char)t.written++;
            if (put(t, t.peer, &b, 1) != 1) t.written--;
        }
    }
    void drain(uint32_t k)
    {
        char b[65536];
        while (get(no[k], no[k].peer, b, sizeof b) > 0) {}
    }
    struct Ctl
    {
        Notifiers* c;
        uint32_t k;
        void operator()()
        {
            No& t = c->no[k];
            for (uint32_t i = 0; i < t.nact; ++i) {
                Act& a = t.act[i];
                switch (a.kind) {
                    case RESUME: c->resume(k); break;
                    case SUSPEND: if (t.level > 0) c->suspend(k); break;
                    case SLEEP: xs::sleep_ms(a.n); break;
                    // data of the other direction never matters to a write notifier
                    case DATA: c->send_data(k, a.n); break;
                    case DRAIN: c->drain(k); break;
                    case HANDLER: c->set_handler(k); break;
                    case CLOSEPEER: close(t.peer); t.peer = -1; break;
                    case SETTLE:
                        xs::sleep_ms(6000 + c->load_ms);
                        if (c->exact && t.level == 0) { if (t.active) xs::fail("stuck", "handler does not end"); t.budget = t.spurious = 0; }
                        break;
                    case LOAD: {
                        uint32_t ms = a.n, q = t.q;
                        Notifiers* cc = c;
                        c->qs[q]->async([cc, ms, q] {
                            bool ser = is_serial(cc->kind[q]);
                            if (ser) { if (cc->active[q]++) xs::fail("overlap-queue", "operation overlaps"); cc->cell[q].bump(); }
                            xs::sleep_ms(ms);
                            if (ser) { cc->cell[q].bump(); cc->active[q]--; }
                        });
                    }
                }
            }
        }
    };
    struct Can
    {
        Notifiers* c;
        uint32_t k, i;
        void operator()()
        {
            No& t = c->no[k];
            xs::sleep_ms(c->can_at[k][i]);
            if (t.active) c->lcan = true;
            t.n->cancel();
            if (t.active) xs::fail("still-running", "cancel of notifier %u returned while its handler is running", k);
            t.cancelled = true;
            if (c->can_on[k][i] == 2) { t.n->resume(); xs::sleep_ms(1); t.n->suspend(); t.n->resume(); }
        }
    };
    // many sockets, or a lot to report
    void run_many()
    {
        struct M { uint32_t n; int fd[128], peer[128]; uint32_t got[128], fired[128]; uint8_t gone[128]; uint32_t wrote[128]; } * m = (M*)xs::raw_alloc(sizeof(M));
        m->n = many_n;
        queue q(make_queue(kind[0], 0));
        std::vector<socket_notifier*> v, w;
        for (uint32_t i = 0; i < many_n; ++i) {
            int sv[2];
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) xs::inconclusive("socketpair");
            m->fd[i] = sv[0];
            m->peer[i] = sv[1];
            v.push_back(new socket_notifier(sv[0], notifier_type::READ, q));
            v[i]->handler([m, i](socket_t s, notifier_type t) {
                if ((int)s != m->fd[i] || t != notifier_type::READ) xs::fail("arguments", "handler of notifier %u of %u invoked with another socket or direction", i, m->n);
                if (m->gone[i]) xs::fail("after-cancel", "notifier %u of %u invokes its handler after cancel returned", i, m->n);
                char b;
                if (recv((int)s, &b, 1, MSG_DONTWAIT) != 1) xs::fail("spurious", "notifier %u of %u invoked although there is nothing to read", i, m->n);
                m->got[i]++;
                m->fired[i]++;
            });
            v[i]->resume();
            // the other direction of the same socket
            if (many_n > 50 || i % 3) continue;
            socket_notifier* x = new socket_notifier(sv[0], notifier_type::WRITE, q);
            w.push_back(x);
            x->handler([m, i, x](socket_t s, notifier_type t) {
                if ((int)s != m->fd[i] || t != notifier_type::WRITE) xs::fail("arguments", "handler of notifier %u of %u invoked with another socket or direction", i, m->n);
                m->wrote[i]++;
                x->cancel();
            });
            x->resume();
        }
        const bool each = (many_rounds & 1) || many_rounds > 200;
        char b = 'x';
        for (uint32_t r = 0; r < many_rounds; ++r) {
            for (uint32_t i = 0; i < many_n; ++i) if (send(m->peer[i], &b, 1, MSG_DONTWAIT | MSG_NOSIGNAL) != 1) xs::inconclusive("send");
            if (each || r == many_rounds - 1) xs::quiesce_ms(100);
            for (uint32_t i = 0; i < many_n && each; ++i) if (m->got[i] != r + 1) xs::fail("missed", "notifier %u of %u reported %u of %u bytes", i, many_n, m->got[i], r + 1);
        }
        for (uint32_t i = 0; i < many_n; ++i) if (m->got[i] != many_rounds) xs::fail("missed", "notifier %u of %u reported %u of %u bytes", i, many_n, m->got[i], many_rounds);
        for (uint32_t i = 0; i < w.size(); ++i) if (m->wrote[3 * i] != 1) xs::fail("missed", "a notifier for writing to a socket also monitored for reading was invoked %u times until it was cancelled", m->wrote[3 * i]);
        for (auto x : w) { x->cancel(); delete x; }
        for (uint32_t i = 0; i < many_n; i += 2) { v[i]->cancel(); m->gone[i] = 1; }
        for (uint32_t i = 0; i < many_n; ++i) if (send(m->peer[i], &b, 1, MSG_DONTWAIT | MSG_NOSIGNAL) != 1) xs::inconclusive("send");
        xs::quiesce_ms(100);
        for (uint32_t i = 1; i < many_n; i += 2) if (m->got[i] != many_rounds + 1) xs::fail("missed", "notifier %u of %u is not served anymore after others have been cancelled", i, many_n);
        for (uint32_t i = 0; i < many_n; ++i) { v[i]->cancel(); m->gone[i] = 1; delete v[i]; }
        for (uint32_t i = 0; i < many_n; ++i) { close(m->fd[i]); close(m->peer[i]); }
        xs::quiesce_ms(6000);
        xs::label(0);
        xs::label(9);
    }
    void run() override
    {
        if (scale) return run_many();
        for (uint32_t i = 0; i < nq; ++i) { qs[i] = new queue(make_queue(kind[i], 0)); cell[i].make(); }
        for (uint32_t k = 0; k < nno; ++k) {
            No& t = no[k];
            int sv[2];
            if (t.pipe) {
                if (pipe2(sv, O_NONBLOCK)) xs::inconclusive("pipe");
                if (t.type) std::swap(sv[0], sv[1]);
                fcntl(sv[0], F_SETPIPE_SZ, 4096);
                ::signal(SIGPIPE, SIG_IGN);
            } else if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) xs::inconclusive("socketpair");
            int sz = 4096;
            if (!t.pipe) setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
            t.fd = sv[0];
            t.peer = sv[1];
            if (t.high) {
                struct rlimit rl;
                getrlimit(RLIMIT_NOFILE, &rl);
                if (rl.rlim_cur < 5000 && rl.rlim_max >= 5000) { rl.rlim_cur = 5000; setrlimit(RLIMIT_NOFILE, &rl); }
                int fd = fcntl(t.fd, F_DUPFD, 1100 + k * 64);
                if (fd > 0) { close(t.fd); t.fd = fd; }
            }
            const notifier_type nt = t.type ? notifier_type::WRITE : notifier_type::READ;
            t.n = kind[t.q] == QK_GLOBAL && k % 2 == 0 ? new socket_notifier(t.fd, nt) : new socket_notifier(t.fd, nt, *qs[t.q]); // the default
            if (!(t.n->target_queue() == *qs[t.q]) || (int)t.n->socket() != t.fd || (t.n->type() == notifier_type::WRITE) != (t.type == 1)) xs::fail("target", "notifier reports wrong properties");
            set_handler(k);
            t.mem = new Cell;
            t.mem->make();
        }
        Ctl ctl[kNo];
        Thread th[kNo];
        Can can[kNo * kC];
        Thread ct[kNo * kC];
        for (uint32_t k = 0; k < nno; ++k) { ctl[k].c = this; ctl[k].k = k; th[k].start(&ctl[k]); }
        if (cancel_focus)
            for (uint32_t k = 0; k < nno; ++k)
                for (uint32_t i = 0; i < ncan; ++i) {
                    Can& x = can[k * kC + i];
                    x.c = this; x.k = k; x.i = i;
                    if (!closefd[k]) ct[k * kC + i].start(&x);
                }
        for (uint32_t k = 0; k < nno; ++k) th[k].join();
        for (uint32_t k = 0; k < nno; ++k)
            for (uint32_t i = 0; i < ncan; ++i) ct[k * kC + i].join();
        xs::jumps(false);
        if (cancel_focus) final_cancel();
        else final_report();
        if (lcan) xs::label(1);
        if (lsusp) xs::label(2);
        if (lhigh) xs::label(3);
        if (lwrite) xs::label(4);
        if (leof) xs::label(5);
        if (lclosed) xs::label(6);
        if (lself) xs::label(7);
        if (lpipe) xs::label(8);
    }
    void final_cancel()
    {
        // sockets closed under their notifier: nothing may spin or crash
        bool any = false;
        for (uint32_t k = 0; k < nno; ++k)
            if (closefd[k]) {
                if (no[k].level <= 0 && !no[k].cancelled) resume(k);
                no[k].spurious += 2; // readiness noticed before closing
                close(no[k].fd);
                any = true;
            }
        if (any) {
            xs::quiesce_ms(6000);
            uint64_t p = xs::idle_polls();
            xs::quiesce_ms(60000);
            p = xs::idle_polls() - p;
            if (p > 100) xs::fail("busy", "%lu polls within 60 s on a closed socket", (unsigned long)p);
        }
        bool fired = false;
        for (uint32_t k = 0; k < nno; ++k) {
            No& t = no[k];
            if (t.fired) fired = true;
            t.n->cancel();
            if (t.active) xs::fail("still-running", "cancel returned while the handler is running");
            t.cancelled = true;
            free(t.mem->p);
            delete t.mem;
            t.n->resume();
            t.n->suspend();
            t.n->resume();
            delete t.n;
        }
        for (uint32_t k = 0; k < nno; ++k) if (!closefd[k] && no[k].peer >= 0) { send_data(k, 2); drain(k); }
        xs::quiesce_ms(6000);
        uint64_t p = xs::idle_polls();
        for (uint32_t k = 0; k < nno; ++k) if (!closefd[k] && no[k].peer >= 0) { send_data(k, 2); drain(k); }
        xs::quiesce_ms(20000);
        if (xs::idle_polls() != p) xs::fail("busy", "cancelled notifiers still poll their socket");
        if (fired) xs::label(0);
    }
    void final_report()
    {
        uint32_t n = 0;
        // let everything drain while resumed
        for (uint32_t k = 0; k < nno; ++k) if (no[k].level <= 0) { no[k].in_kind = 0; resume(k); }
        xs::quiesce_ms(8000 + load_ms);
        for (uint32_t k = 0; k < nno; ++k) if (no[k].in_kind && no[k].level <= 0) { no[k].in_kind = 0; resume(k); }
        xs::quiesce_ms(8000);
        for (uint32_t k = 0; k < nno; ++k) complete(k, "while resumed");
        // suspended: nothing happens
        for (uint32_t k = 0; k < nno; ++k) while (no[k].level > 0) suspend(k);
        xs::quiesce_ms(6000);
        uint32_t f[kNo];
        for (uint32_t k = 0; k < nno; ++k) {
            no[k].budget = no[k].spurious = 0;
            f[k] = no[k].fired;
            no[k].in_kind = 0;
            if (no[k].active) xs::fail("stuck", "handler does not end");
        }
        uint64_t p = xs::idle_polls();
        for (uint32_t k = 0; k < nno; ++k) if (no[k].peer >= 0) { send_data(k, 5); if (no[k].type) drain(k); }
        xs::quiesce_ms(6000);
        if (xs::idle_polls() != p) xs::fail("busy", "suspended notifiers still poll their socket");
        // a balanced resume reports it
        for (uint32_t k = 0; k < nno; ++k) resume(k);
        xs::quiesce_ms(1000);
        for (uint32_t k = 0; k < nno; ++k) {
            if (no[k].peer >= 0 && no[k].fired == f[k]) xs::fail("dead", "notifier %u does not report readiness after a resume", k);
            complete(k, "after the resume");
        }
        // resume twice needs to be suspended twice
        for (uint32_t k = 0; k < nno; ++k) { if (no[k].level <= 0) continue; resume(k); suspend(k); no[k].budget--; }
        for (uint32_t k = 0; k < nno; ++k) if (no[k].peer >= 0) { if (no[k].type) drain(k); else send_data(k, 3); }
        xs::quiesce_ms(1000);
        for (uint32_t k = 0; k < nno; ++k) complete(k, "after a balanced resume and suspend");
        // idle notifiers wait
        p = xs::idle_polls();
        for (uint32_t k = 0; k < nno; ++k) n += no[k].fired;
        xs::quiesce_ms(60000);
        p = xs::idle_polls() - p;
        uint32_t m = 0;
        for (uint32_t k = 0; k < nno; ++k) m += no[k].fired;
        if (m != n) xs::fail("spurious", "idle notifiers fire");
        if (p > 100 * nno) xs::fail("busy", "%lu polls within 60 s", (unsigned long)p);
        for (uint32_t k = 0; k < nno; ++k) { no[k].n->cancel(); delete no[k].n; }
        xs::quiesce_ms(6000);
        if (n >= 2) xs::label(0);
    }
    void complete(uint32_t k, const char* when)
    {
        No& t = no[k];
        if (t.level <= 0) return; // suspended itself
        if (t.type) {
            if (t.peer < 0) {
                if (!t.eof) xs::fail("missed", "notifier %u does not report that its peer is gone %s", k, when);
                return;
            }
            struct pollfd pf = { t.fd, POLLOUT, 0 };
            if (raw_poll(&pf) > 0) xs::fail("missed", "notifier %u does not report that its socket is writable %s", k, when);
        } else if (t.got != t.written || (t.peer < 0 && !t.eof))
            xs::fail("missed", "notifier %u reported %u of %u bytes%s %s", k, t.got, t.written, t.peer < 0 ? " before the peer closed" : "", when);
    }
};
struct C10 : Notifiers
{
    void generate(Gen& g, xs::Config& c) override { gen(g, c); }
};
struct C11 : Notifiers
{
    void generate(Gen& g, xs::Config& c) override { cancel_focus = true; gen(g, c); }
};
} // namespace
#define LB "cancelled while the handler was running", "suspended", "descriptor above 1024", "write direction", "peer closed", "socket closed under the notifier", "controlled from within the handler", "pipe", "up to 100 notifiers or 1100 bytes"
PROPERTY("C10", C10, "1-3 notifiers on real socket pairs (both directions, descriptors up to 1300) with data, end of file, suspend, resume, handler changes and queue load; non-trivial: at least two invocations", LB)
PROPERTY("C11", C11, "the same notifiers with 1-4 threads cancelling at chosen times, from the handler, or sockets closed under them, followed by resume and by tearing down the handler's state; non-trivial: the handler was invoked before", LB)
