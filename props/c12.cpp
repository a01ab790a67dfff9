// C12: single update handlers. C13: batched handlers. C14: disconnecting.
#include "scale.h"
#include <mutex>
using namespace h;

namespace {
const int kS = 3, kQ = 3, kH = 8, kT = 4, kA = 12, kE = 400, kR = 600;
typedef signal<void(uint32_t, uint32_t, std::shared_ptr<int>)> Sig;

struct Signals : Case
{
    enum { EMIT, CONNECT, DISC, SLEEP, SKIP, CHAINOFF, MGR, MGRWITH };
    struct Act { uint8_t kind, id; uint16_t n; };
    struct Hd
    {
        uint8_t s, q;
        bool batch, early; // connected before the threads start
        bool sync;         // executed by the emitting thread
        uint8_t re_at, re_s; // emits a signal itself
        uint16_t dur;
        uint8_t self_at;   // disconnects itself in this invocation
        bool managed;      // its connection is owned by the manager
        bool self_mgr;     // disconnects itself through the manager
        connection* c;
        std::mutex* m;     // hands the connection over to other threads
        uint64_t con_begin, con_end, dis_begin, dis_end, self_begin, self_end;
        int active, runs, dis_true;
        bool dead;         // a disconnect has returned
        uint16_t nrec;
        struct Rec { uint16_t e; uint64_t at; } rec[kR];
        Cell* mem;
        uint32_t seen_version;
    };
    struct Em { uint8_t s; uint64_t begin, end; };
    int focus; // 12, 13, 14
    uint32_t K, nq, ns, nh, nt, ne, nact[kT], total_ms;
    uint8_t kind[kQ];
    bool grouped[kS], chain, chain2, early_destroy, skipped;
    uint64_t chain_begin, chain_end, last_skip; // disconnection of the chain
    queue* qs[kQ];
    Sig* sg[kS];
    group* gr[kS];
    connection* chainc;
    connection_manager* mgr;
    bool late_disc, lmgr;
    Hd hd[kH];
    Em em[kE];
    Act act[kT][kA];
    int active[kQ];
    Cell cell[kQ];
    bool lover, lrun, lself, lconc, lskip, lsync, lre, resync, reasync, scale;
    ManySignal many;

    void gen(Gen& g, xs::Config& c)
    {
        K = g.range(1, 4);
        thread_count(K);
        scale = g.chance(1, 40);
        if (scale) {
            kind[0] = g.pick(QK_COUNT);
            xs::desc("threads=%u queue %s:", K, kind_name(kind[0]));
            many.gen(g, c, K, focus);
            return;
        }
        nq = g.range(1, kQ);
        ns = g.range(1, kS);
        c.step_limit = 600000;
        chain = ns >= 2 && g.chance(1, 2);
        chain2 = chain && ns >= 3 && g.chance(1, 2);
        xs::desc("threads=%u signals=%u%s%s queues:", K, ns, chain ? " s0->s1" : "", chain2 ? " s1->s2" : "");
        for (uint32_t i = 0; i < nq; ++i) { kind[i] = g.pick(QK_COUNT); xs::desc(" %s", kind_name(kind[i])); }
        for (uint32_t i = 0; i < ns; ++i) { grouped[i] = g.chance(1, 4); if (grouped[i]) xs::desc(" s%u in group", i); }
        nh = g.range(1, g.big ? kH : 5);
        for (uint32_t k = 0; k < nh; ++k) {
            Hd& t = hd[k];
            t.s = g.pick(ns);
            t.q = g.pick(nq);
            t.batch = focus == 13 ? !g.chance(1, 5) : g.chance(1, focus == 12 ? 5 : 3);
            if (g.chance(1, 8)) { t.sync = true; t.batch = false; lsync = true; }
            t.dur = g.of({ (uint16_t)0, (uint16_t)0, (uint16_t)0, (uint16_t)1, (uint16_t)4, (uint16_t)20 });
            t.early = !g.chance(1, 3);
            if (focus == 14 && g.chance(1, 3)) t.self_at = g.range(1, 3);
            if (focus == 14) {
                t.managed = g.chance(1, 3);
                // one only: two handlers waiting for each other never end
                if (t.managed && t.self_at && !lmgr) lmgr = t.self_mgr = true;
            }
            total_ms += t.dur;
            xs::desc("; h%u: s%u on q%u %s%s%s", k, t.s, t.q, t.sync ? "sync" : t.batch ? "batch" : "single", t.dur ? " sleeps" : "", t.early ? "" : " late");
            if (t.managed) xs::desc(" managed");
            if (t.self_at) xs::desc(" disconnects itself%s at %u", t.self_mgr ? " by the manager" : "", t.self_at);
        }
        nt = g.range(1, g.big ? kT : 3);
        uint32_t emits = 0;
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kA : 8);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                uint32_t what = g.pick(16);
                if (what < 8 || emits > 100) { a.kind = EMIT; a.id = g.pick(ns); a.n = g.chance(1, 4) ? g.range(2, 12) : 1; if (emits + a.n > 120) a.n = 1; emits += a.n; xs::desc(" emit s%u", a.id); if (a.n > 1) xs::desc(" x%u", a.n); }
                else if (what < 10) { a.kind = CONNECT; a.id = g.pick(nh); xs::desc(" connect h%u", a.id); }
                else if (what < 12 || (focus == 14 && what < 14)) { a.kind = DISC; a.id = g.pick(nh); xs::desc(" disconnect h%u", a.id); }
                else if (what == 14 && focus != 12 && g.chance(1, 2)) { a.kind = SKIP; a.id = g.pick(ns); xs::desc(" skip_all s%u", a.id); skipped = true; }
                else if (what == 14 && focus == 14 && g.chance(1, 2)) { a.kind = MGR; xs::desc(" reset manager"); }
                else if (what == 15 && focus == 14 && g.chance(1, 2)) { a.kind = MGRWITH; a.id = g.pick(ns); xs::desc(" reset manager with s%u", a.id); }
                else if (what == 15 && chain) { a.kind = CHAINOFF; xs::desc(" disconnect s0->s1"); }
                else { a.kind = SLEEP; a.n = g.of({ (uint16_t)1, (uint16_t)5, (uint16_t)20 }); xs::desc(" sleep%u", a.n); }
            }
        }
        early_destroy = focus == 14 && g.chance(1, 2);
        if (g.chance(1, 2))
            for (uint32_t k = 0; k < nh; ++k) {
                // two threads must not lock two emitted signals in opposite order, handlers
                // emitting must not be waited for by others holding a signal
                Hd& t = hd[k];
                if (!g.chance(1, 2) || (!t.sync && (early_destroy || lmgr))) continue;
                const bool any = nt == 1 && !reasync;
                if (t.sync) t.re_s = any ? g.pick(ns) : g.range(t.s, ns - 1);
                else {
                    if (nt == 1 && resync) continue;
                    t.re_s = g.pick(ns);
                    reasync = true;
                }
                t.re_at = g.range(1, 2);
                if (t.sync) resync = true;
                xs::desc("; h%u emits s%u when invoked %u", k, t.re_s, t.re_at);
            }
        late_disc = early_destroy && g.chance(1, 2);
        if (early_destroy) xs::desc("; signals destroyed at once%s", late_disc ? " while their handlers are disconnected" : "");
    }
    // invocations of the handler happen one after the other
    bool ser(const Hd& t) { return t.sync || is_serial(kind[t.q]); }
    void handle(uint32_t k, uint32_t s, uint32_t e, const std::shared_ptr<int>& p)
    {
        Hd& t = hd[k];
        uint64_t at = xs::seq();
        if (e >= ne || em[e].s != s) xs::fail("value", "handler %u received values which were not emitted", k);
        if (*p != (int)e + 1) xs::fail("value", "handler %u received wrong values", k);
        if (em[e].end && em[e].end < t.con_begin) xs::fail("past", "handler %u receives emit %u which completed before it was connected", k, e);
        if (t.dead) xs::fail("after-disconnect", "handler %u invoked although disconnect had returned", k);
        if (ser(t) && !t.sync) { if (active[t.q]++) xs::fail("overlap", "handler %u overlaps with another handler of its serial queue", k); cell[t.q].bump(); }
        if (t.active++) lover = true;
        const int runs = ++t.runs;
        if (ser(t) && t.mem) t.mem->bump();
        else if (t.mem) { volatile int v = *t.mem->p; (void)v; }
        if (t.nrec < kR) { t.rec[t.nrec].e = (uint16_t)e; t.rec[t.nrec].at = at; t.nrec++; }
        else xs::fail("repeat", "handler %u invoked too often", k);
        if (t.dur) xs::sleep_ms(t.dur);
        else xs::point();
        const bool re = t.re_at && runs == t.re_at;
        if (re) lre = true;
        if (re && k % 2) do_emit(t.re_s);
        if (t.self_at && runs == t.self_at) {
            lself = true;
            if (!t.self_begin) t.self_begin = xs::seq();
            connection c;
            { std::lock_guard<std::mutex> l(*t.m); c = *t.c; }
            if (!t.dis_begin) t.dis_begin = xs::seq();
            if (t.self_mgr) {
                for (uint32_t i = 0; i < nh; ++i) if (hd[i].managed && hd[i].s == t.s && !hd[i].dis_begin) hd[i].dis_begin = xs::seq();
                mgr->reset_connections_with(*sg[t.s]);
            } else if (c.disconnect()) t.dis_true++;
            if (!t.self_end) t.self_end = xs::seq();
        }
        if (re && k % 2 == 0) do_emit(t.re_s);
        xs::point();
        if (ser(t) && t.mem) t.mem->bump();
        if (ser(t) && !t.sync) { cell[t.q].bump(); active[t.q]--; }
        t.active--;
    }
    struct Member
    {
        Signals* c;
        uint32_t k;
        void value(uint32_t s, uint32_t e, std::shared_ptr<int> p) { c->handle(k, s, e, p); }
        void reference(const uint32_t& s, const uint32_t& e, const std::shared_ptr<int>& p) { c->handle(k, s, e, p); }
    };
    Member slot[kH];
    void do_connect(uint32_t k)
    {
        Hd& t = hd[k];
        if (t.con_begin) return;
        t.mem = new Cell;
        t.mem->make();
        t.con_begin = xs::seq();
        Signals* c = this;
        // emits of a chained signal arrive with the number of the first one
        const notification_mode mode = t.sync ? notification_mode::_synchronous_update : t.batch ? notification_mode::batch_updates : notification_mode::single_updates;
        slot[k].c = this;
        slot[k].k = k;
        const bool single = mode == notification_mode::single_updates && k / 2 % 2 == 0; // the default
        auto f = [c, k](uint32_t s, uint32_t e, std::shared_ptr<int> p) { c->handle(k, s, e, p); };
        connection cn = single ? k % 2 == 0 ? sg[t.s]->connect(f, *qs[t.q]) : sg[t.s]->connect(&slot[k], &Member::value, *qs[t.q])
            : k % 2 == 0 ? sg[t.s]->connect(f, *qs[t.q], mode)
            : k % 4 == 1 ? sg[t.s]->connect(&slot[k], &Member::value, *qs[t.q], mode) : sg[t.s]->connect(&slot[k], &Member::reference, *qs[t.q], mode);
        uint64_t end = xs::seq();
        if (!cn.connected() || !cn.is_connected_to(*sg[t.s])) {
            // only if it has been disconnected by itself meanwhile
            if (!t.self_end) xs::fail("connected", "new connection reports to be disconnected");
        }
        { std::lock_guard<std::mutex> l(*t.m); *t.c = cn; }
        if (t.managed) *mgr += cn;
        t.con_end = end;
    }
    void do_emit(uint32_t s)
    {
        if (ne >= kE) return;
        uint32_t e = ne++;
        em[e].s = s;
        std::shared_ptr<int> p(new int(0));
        *p = (int)e + 1;
        em[e].begin = xs::seq();
        (*sg[s])(s, e, p);
        em[e].end = xs::seq();
    }
    void do_disc(uint32_t k)
    {
        Hd& t = hd[k];
        if (!t.con_end) return;
        connection c;
        { std::lock_guard<std::mutex> l(*t.m); c = *t.c; }
        if (t.active) lrun = true;
        if (t.dis_begin) lconc = true;
        if (!t.dis_begin) t.dis_begin = xs::seq();
        if (c.disconnect()) { if (t.dis_true++) xs::fail("twice", "two disconnects of handler %u report success", k); }
        if (c.connected()) xs::fail("connected", "connection reports to be connected after disconnect");
        if (t.active) xs::fail("still-running", "disconnect of handler %u returned while it is running", k);
        t.dead = true;
        if (!t.dis_end) t.dis_end = xs::seq();
        connection d;
        { std::lock_guard<std::mutex> l(*t.m); d = *t.c; }
        if (d.connected()) xs::fail("connected", "copy of a connection reports to be connected after disconnect");
        if (d.disconnect()) xs::fail("twice", "disconnecting a second time reports success");
    }
    void do_mgr(int s)
    {
        uint64_t begin = xs::seq();
        bool was[kH];
        for (uint32_t k = 0; k < nh; ++k) {
            Hd& t = hd[k];
            was[k] = t.managed && t.con_end && (s < 0 || t.s == s);
            // it may be added concurrently
            if (t.managed && (s < 0 || t.s == s) && !t.dis_begin) t.dis_begin = begin;
        }
        if (s < 0) mgr->reset_connections();
        else mgr->reset_connections_with(*sg[s]);
        for (uint32_t k = 0; k < nh; ++k)
            // a handler resetting the manager itself takes its own
            // connection away from anyone else doing so
            if (was[k] && !(hd[k].self_mgr && hd[k].self_begin)) {
                if (hd[k].active) xs::fail("still-running", "manager reset returned while handler %u is running", k);
                hd[k].dead = true;
            }
    }
    struct Late
    {
        Signals* c;
        uint32_t t;
        void operator()()
        {
            for (uint32_t k = t; k < c->nh; k += 2) c->do_disc(k);
        }
    };
    struct Sub
    {
        Signals* c;
        uint32_t t;
        void operator()()
        {
            for (uint32_t i = 0; i < c->nact[t]; ++i) {
                Act& a = c->act[t][i];
                switch (a.kind) {
                    case EMIT: for (uint32_t k = 0; k < a.n; ++k) c->do_emit(a.id); break;
                    case CONNECT: c->do_connect(a.id); break;
                    case DISC: c->do_disc(a.id); break;
                    case SLEEP: xs::sleep_ms(a.n); break;
                    case SKIP:
                        c->lskip = true;
                        c->sg[a.id]->skip_all();
                        c->last_skip = xs::seq();
                        break;
                    case MGR: c->do_mgr(-1); break;
                    case MGRWITH: c->do_mgr(a.id); break;
                    case CHAINOFF: {
                        if (c->chain_begin) break;
                        c->chain_begin = xs::seq();
                        c->chainc->disconnect();
                        c->chain_end = xs::seq();
                        break;
                    }
                }
            }
        }
    };
    // 0: must not reach the handler, 1: may, 2: has to
    int reaches(const Em& e, const Hd& t)
    {
        if (!e.begin || !t.con_begin) return 0;
        int r = 2;
        if (e.s != t.s) {
            bool ok = (e.s == 0 && t.s == 1 && chain) || (e.s == 1 && t.s == 2 && chain2) || (e.s == 0 && t.s == 2 && chain && chain2);
            if (!ok) return 0;
            if (e.s == 0 && chain_begin) {
                if (chain_end && e.begin > chain_end) return 0;
                if (!e.end || e.end > chain_begin) r = 1;
            }
        }
        if (e.end && e.end < t.con_begin) return 0;
        if (!t.con_end || e.begin < t.con_end) r = 1;
        if (t.dis_begin) r = 1; // not connected all the time
        if (last_skip && e.begin < last_skip) r = 1;
        return r;
    }
    void check(uint32_t from_emit)
    {
        for (uint32_t k = 0; k < nh; ++k) {
            Hd& t = hd[k];
            if (!t.con_begin) continue;
            if (t.active) xs::fail("stuck", "handler %u does not end", k);
            uint32_t may = 0;
            uint64_t last = 0, lastemit = 0;
            for (uint32_t e = 0; e < ne; ++e) {
                int r = reaches(em[e], t), n = 0;
                for (uint32_t i = 0; i < t.nrec; ++i) if (t.rec[i].e == e) n++;
                if (r) may++;
                if (r == 2 && em[e].begin > lastemit) lastemit = em[e].begin;
                if (n > 1) xs::fail("twice", "emit %u invoked handler %u %d times", e, k, n);
                if (n && !r) xs::fail("surplus", "emit %u must not reach handler %u", e, k);
                if (!t.batch && r == 2 && n != 1) xs::fail("lost", "emit %u invoked the single update handler %u %d times", e, k, n);
            }
            for (uint32_t i = 0; i < t.nrec; ++i) if (t.rec[i].at > last) last = t.rec[i].at;
            if (t.batch) {
                if (t.nrec > may) xs::fail("surplus", "batched handler %u invoked %u times for %u emits", k, t.nrec, may);
                if (lastemit && last < lastemit) xs::fail("missed", "batched handler %u has not been invoked after the last emit", k);
            }
            if (ser(t))
                for (uint32_t i = 0; i + 1 < t.nrec; ++i) {
                    Em &a = em[t.rec[i].e], &b = em[t.rec[i + 1].e];
                    if (b.end && b.end < a.begin && b.s == a.s) xs::fail("order", "handler %u on a serial queue receives emit %u after emit %u", k, t.rec[i + 1].e, t.rec[i].e);
                }
        }
        (void)from_emit;
        // a chained signal sees the emits in the same order as the original
        if (chain && !chain_begin && !last_skip && !resync)
            for (uint32_t a = 0; a < nh; ++a)
                for (uint32_t b = 0; b < nh; ++b) {
                    Hd &x = hd[a], &y = hd[b];
                    if (x.s != 0 || y.s != 1 || x.batch || y.batch || !x.early || !y.early || x.dis_begin || y.dis_begin || !ser(x) || !ser(y)) continue;
                    uint32_t i = 0, j = 0;
                    for (;;) {
                        while (j < y.nrec && em[y.rec[j].e].s != 0) ++j;
                        if (i >= x.nrec || j >= y.nrec) break;
                        if (x.rec[i].e != y.rec[j].e) xs::fail("chain-order", "chained signal emits in another order: handler %u got emit %u, handler %u emit %u", a, x.rec[i].e, b, y.rec[j].e);
                        ++i, ++j;
                    }
                }
    }
    void run() override
    {
        if (scale) {
            many.run(make_queue(kind[0], 0), is_serial(kind[0]));
            xs::label(0);
            xs::label(12);
            return;
        }
        for (uint32_t i = 0; i < nq; ++i) { qs[i] = new queue(make_queue(kind[i], 0)); cell[i].make(); }
        for (uint32_t i = 0; i < ns; ++i) {
            if (grouped[i]) { gr[i] = new group; sg[i] = new Sig(*gr[i]); }
            else sg[i] = new Sig;
        }
        for (uint32_t k = 0; k < nh; ++k) { hd[k].c = new connection; hd[k].m = new std::mutex; }
        chainc = new connection;
        mgr = new connection_manager;
        if (chain) *chainc = sg[0]->connect(*sg[1]);
        connection c2;
        if (chain2) c2 = sg[1]->connect(*sg[2]);
        for (uint32_t k = 0; k < nh; ++k) if (hd[k].early) do_connect(k);
        Sub subs[kT];
        Thread th[kT];
        for (uint32_t t = 0; t < nt; ++t) { subs[t].c = this; subs[t].t = t; th[t].start(&subs[t]); }
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        bool pending = false;
        if (!early_destroy) {
            bool grp = false;
            for (uint32_t i = 0; i < ns; ++i) if (grouped[i]) grp = true;
            if (grp && !chain) {
                const uint64_t wait_begin = xs::seq();
                // the group tracks the invocations
                for (uint32_t i = 0; i < ns; ++i) if (gr[i]) gr[i]->wait();
                for (uint32_t k = 0; k < nh; ++k)
                    if (gr[hd[k].s] && hd[k].con_begin) {
                        if (hd[k].active && !resync && !reasync) xs::fail("group", "handler %u is active after waiting for the group of its signal", k);
                        for (uint32_t e = 0; e < ne; ++e) {
                            // later ones are emitted by handlers
                            if (!em[e].end || em[e].end > wait_begin) continue;
                            int n = 0;
                            for (uint32_t i = 0; i < hd[k].nrec; ++i) if (hd[k].rec[i].e == e) n++;
                            if (!hd[k].batch && reaches(em[e], hd[k]) == 2 && n != 1) xs::fail("group", "emit %u not delivered after waiting for the group of its signal", e);
                        }
                    }
            }
            xs::quiesce_ms(2000 + (uint64_t)total_ms * 130);
            check(0);
            // handlers still react
            for (int i = 0; i < 3; ++i) {
                for (uint32_t s = 0; s < ns; ++s) do_emit(s);
                if (i == 1) for (uint32_t s = 0; s < ns; ++s) do_emit(s);
                xs::quiesce_ms(1000 + (uint64_t)total_ms * 10);
                check(0);
            }
        } else {
            for (uint32_t k = 0; k < nh; ++k) if (hd[k].active) pending = true;
        }
        // the signals go away, then the state of their handlers
        Late lates[2];
        Thread lth[2];
        for (uint32_t t = 0; t < 2; ++t) { lates[t].c = this; lates[t].t = t; if (late_disc) lth[t].start(&lates[t]); }
        // the manager is used by a handler
        for (uint32_t s = 0; s < ns; ++s) delete sg[s];
        for (uint32_t t = 0; t < 2; ++t) lth[t].join();
        for (uint32_t s = 0; s < ns; ++s) {
            for (uint32_t k = 0; k < nh; ++k) {
                Hd& t = hd[k];
                if (t.s != s || !t.con_begin) continue;
                if (t.active) xs::fail("still-running", "signal destroyed while its handler %u is running", k);
                t.dead = true;
                free(t.mem->p);
                delete t.mem;
                t.mem = nullptr;
                connection c = *t.c;
                if (c.connected()) xs::fail("connected", "connection of a destroyed signal reports to be connected");
                if (c.disconnect()) xs::fail("connected", "disconnecting a connection of a destroyed signal reports success");
                if (t.c->connected()) xs::fail("connected", "connection of a destroyed signal reports to be connected");
            }
        }
        delete mgr;
        if (chain && (chainc->connected() || chainc->disconnect())) xs::fail("connected", "chain of destroyed signals reports to be connected");
        xs::quiesce_ms(2000 + (uint64_t)total_ms * 130);
        for (uint32_t k = 0; k < nh; ++k) if (hd[k].active) xs::fail("stuck", "handler does not end");
        uint32_t runs = 0, dis = 0;
        bool bat = false;
        for (uint32_t k = 0; k < nh; ++k) { runs += hd[k].runs; dis += hd[k].dis_begin != 0; if (hd[k].batch && hd[k].nrec && ne > hd[k].nrec) bat = true; }
        if (focus == 12 ? runs >= 4 : focus == 13 ? bat : (dis || early_destroy) && runs) xs::label(0);
        if (lover) xs::label(1);
        if (lrun || pending) xs::label(2);
        if (lmgr) xs::label(9);
        if (lself) xs::label(3);
        if (lconc) xs::label(4);
        if (lskip) xs::label(5);
        if (lsync) xs::label(10);
        if (lre) xs::label(11);
        if (chain) xs::label(6);
        if (bat) xs::label(7);
        for (uint32_t i = 0; i < ns; ++i) if (grouped[i]) { xs::label(8); break; }
    }
};
struct C12 : Signals { void generate(Gen& g, xs::Config& c) override { focus = 12; gen(g, c); } };
struct C13 : Signals { void generate(Gen& g, xs::Config& c) override { focus = 13; gen(g, c); } };
struct C14 : Signals { void generate(Gen& g, xs::Config& c) override { focus = 14; gen(g, c); } };
} // namespace
#define LB "a handler ran concurrently with itself", "disconnected or destroyed while the handler was running", "handler disconnects itself", "disconnected concurrently or twice", "skip_all", "chained signals", "batch smaller than its emits", "signal with a group", "handler uses a connection manager", "synchronous handler", "handler emits", "up to 300 handlers or 5000 emits"
PROPERTY("C12", C12, "1-4 threads emit, connect and disconnect on 1-3 signals (chained, grouped) with up to 8 handlers on serial and parallel queues; non-trivial: at least four invocations", LB)
PROPERTY("C13", C13, "the same with mostly batched handlers and skip_all; non-trivial: a batched handler was invoked less often than there were emits", LB)
PROPERTY("C14", C14, "the same with frequent concurrent disconnects, handlers disconnecting themselves, and signals destroyed while invocations are pending; non-trivial: a handler that had run was disconnected or its signal destroyed early", LB)
