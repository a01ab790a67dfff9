// C16: signal barriers.
#include "common.h"
#include "scale.h"
#include <xdispatch/signals_barrier.h>
#include <mutex>
#include <string>
#include <stdexcept>
using namespace h;

namespace {
const int kB = 6, kT = 4, kA = 12, kE = 300;

// a value which cannot be default constructed and owns memory
struct Value
{
    explicit Value(uint32_t v) : p(new uint32_t(v)) {}
    Value(const Value& o) : p(o.p ? new uint32_t(*o.p) : nullptr) {}
    Value(Value&& o) : p(o.p) { o.p = nullptr; }
    Value& operator=(Value o) { std::swap(p, o.p); return *this; }
    ~Value() { delete p; }
    uint32_t* p;
};
// the three signatures
struct Plain
{
    typedef signal<void(uint32_t, std::string)> Sig;
    typedef signal_barrier<void(uint32_t, std::string)> Bar;
    static void emit(Sig& s, uint32_t e) { s(e, "value " + std::to_string(e)); }
    static uint32_t get(const Bar& b)
    {
        auto t = b.values();
        uint32_t e = std::get<0>(t);
        if (std::get<1>(t) != "value " + std::to_string(e)) xs::fail("values", "values of different emits are mixed");
        if (b.value() != e && b.value() != b.template value<0>()) xs::fail("values", "value differs from values");
        return e;
    }
};
struct NoDefault
{
    typedef signal<void(Value, uint32_t, Value)> Sig;
    typedef signal_barrier<void(Value, uint32_t, Value)> Bar;
    static void emit(Sig& s, uint32_t e) { s(Value(e), e + 1, Value(e + 2)); }
    static uint32_t get(const Bar& b)
    {
        auto t = b.values();
        if (!std::get<0>(t).p || !std::get<2>(t).p) xs::fail("values", "the values have been moved away");
        uint32_t e = *std::get<0>(t).p;
        if (std::get<1>(t) != e + 1 || *std::get<2>(t).p != e + 2) xs::fail("values", "values of different emits are mixed");
        if (b.template value<1>() != e + 1) xs::fail("values", "value differs from values");
        return e;
    }
};

struct Base : Case
{
    enum { NEW, EMIT, WAIT, VALUES, DEL, SLEEP };
    struct Act { uint8_t kind, id; int n; };
    struct Em { uint64_t begin, end; };
    uint32_t K, nt, nb, ne, nact[kT], ns;
    Act act[kT][kA];
    Em em[kE];
    uint8_t em_s[kE];
    uint8_t bsig[kB];
    bool grouped;
    BigWait big;
    void generate(Gen& g, xs::Config& c) override
    {
        K = g.range(1, 4);
        thread_count(K);
        c.step_limit = 600000;
        ns = g.range(1, 2);
        nt = g.range(2, g.big ? kT : 3);
        nb = g.range(1, kB);
        grouped = g.chance(1, 4);
        bool quiet = g.chance(1, 5); // nothing is emitted until late
        xs::desc("threads=%u signals=%u%s barriers=%u", K, ns, grouped ? " grouped" : "", nb);
        for (uint32_t i = 0; i < nb; ++i) bsig[i] = g.pick(ns);
        for (uint32_t t = 0; t < nt; ++t) {
            xs::desc("; T%u:", t);
            nact[t] = g.range(1, g.big ? kA : 8);
            for (uint32_t i = 0; i < nact[t]; ++i) {
                Act& a = act[t][i];
                uint32_t w = g.pick(16);
                if (quiet && w >= 4 && w < 9) w = w & 1 ? 12 : 9;
                if (w < 4) { a.kind = NEW; a.id = g.pick(nb); xs::desc(" new b%u(s%u)", a.id, bsig[a.id]); }
                else if (w < 9) { a.kind = EMIT; a.id = g.pick(ns); a.n = g.chance(1, 3) ? g.range(2, 4) : 1; xs::desc(" emit s%u x%d", a.id, a.n); }
                else if (w < 12) { a.kind = WAIT; a.id = g.pick(nb); a.n = g.of({ 0, 1, 10, 100, -1 }); xs::desc(" wait%d b%u", a.n, a.id); }
                else if (w < 14) { a.kind = VALUES; a.id = g.pick(nb); xs::desc(" values b%u", a.id); }
                else if (w < 15) { a.kind = DEL; a.id = g.pick(nb); xs::desc(" drop b%u", a.id); }
                else { a.kind = SLEEP; a.n = g.of({ 1, 5, 50 }); xs::desc(" sleep%d", a.n); }
            }
        }
        big.gen(g);
    }
};
template<typename F>
struct Barriers : Base
{
    struct Info
    {
        typename F::Bar* bar;
        uint64_t begin, end;   // construction
        uint64_t opened;       // seen open
        uint32_t value;        // first value seen
        bool have;
        int sig;
        ~Info() { delete bar; }
    };
    typename F::Sig* sg[2];
    group* gr;
    std::mutex* mu;
    std::shared_ptr<Info>* slot;
    volatile int done;
    bool lrace, lwaited, lmulti, ldel;

    std::shared_ptr<Info> at(int b) { std::lock_guard<std::mutex> l(*mu); return slot[b]; }
    void do_emit(uint32_t s)
    {
        if (ne >= kE) return;
        uint32_t e = ne++;
        em_s[e] = (uint8_t)s;
        em[e].begin = xs::seq();
        F::emit(*sg[s], e);
        em[e].end = xs::seq();
    }
    // the barrier was open at some time before `now`
    void check_open(Info& i, uint64_t now)
    {
        bool any = false;
        for (uint32_t e = 0; e < ne; ++e) if (em_s[e] == i.sig && em[e].begin && em[e].begin < now && (!em[e].end || em[e].end > i.begin)) any = true;
        if (!any) xs::fail("open", "barrier is open although its signal has not been emitted since it was created");
    }
    bool emitted(Info& i) { for (uint32_t e = 0; e < ne; ++e) if (em_s[e] == i.sig && (!em[e].end || em[e].end > i.begin)) return true; return false; }
    void do_values(Info& i, bool must)
    {
        uint64_t opened = i.opened;
        try {
            uint32_t e = F::get(*i.bar);
            uint64_t now = xs::seq();
            check_open(i, now);
            if (e >= ne || em_s[e] != i.sig) xs::fail("values", "barrier reports values which have not been emitted");
            if (em[e].end && em[e].end < i.begin) xs::fail("values", "barrier reports the values of an emit before it was created");
            if (i.have && i.value != e) xs::fail("changed", "values of a barrier changed from emit %u to %u", i.value, e);
            i.have = true;
            i.value = e;
            if (!i.opened) i.opened = now;
        } catch (const std::runtime_error&) {
            if (opened || must) xs::fail("throws", "values of an open barrier are not available");
        }
    }
    void do_wait(Info& i, int ms)
    {
        uint64_t opened = i.opened;
        double t = xs::now_ms();
        bool r = i.bar->wait(std::chrono::milliseconds(ms));
        uint64_t now = xs::seq();
        if (r) {
            check_open(i, now);
            if (!opened) lwaited = true;
            if (!i.opened) i.opened = now;
            do_values(i, true);
        } else {
            if (ms < 0) xs::fail("timeout", "wait without a timeout returns false");
            if (opened) xs::fail("reopened", "wait for an open barrier returns false");
            if (xs::now_ms() - t < ms - 1e-6) xs::fail("early", "wait(%d) returns false after %.3f ms", ms, xs::now_ms() - t);
        }
    }
    struct Sub
    {
        Barriers* c;
        uint32_t t;
        void operator()()
        {
            for (uint32_t k = 0; k < c->nact[t]; ++k) {
                Act& a = c->act[t][k];
                switch (a.kind) {
                    case NEW: {
                        std::shared_ptr<Info> i(new (xs::raw_alloc(sizeof(Info))) Info(), [](Info* p) { p->~Info(); });
                        i->bar = nullptr; i->have = false; i->opened = 0; i->end = 0;
                        i->sig = c->bsig[a.id];
                        i->begin = xs::seq();
                        i->bar = new typename F::Bar(*c->sg[i->sig]);
                        i->end = xs::seq();
                        for (uint32_t e = 0; e < c->ne; ++e) if (c->em_s[e] == i->sig && c->em[e].begin < i->end && (!c->em[e].end || c->em[e].end > i->begin)) c->lrace = true;
                        std::shared_ptr<Info> old;
                        std::lock_guard<std::mutex> l(*c->mu);
                        old.swap(c->slot[a.id]);
                        c->slot[a.id] = i;
                        if (old) { c->ldel = true; c->mu->unlock(); old.reset(); c->mu->lock(); }
                        break;
                    }
                    case EMIT: for (int i = 0; i < a.n; ++i) c->do_emit(a.id); if (a.n > 1) c->lmulti = true; break;
                    case WAIT: { auto i = c->at(a.id); if (i) c->do_wait(*i, a.n); break; }
                    case VALUES: { auto i = c->at(a.id); if (i) c->do_values(*i, false); break; }
                    case DEL: {
                        std::shared_ptr<Info> old;
                        { std::lock_guard<std::mutex> l(*c->mu); old.swap(c->slot[a.id]); }
                        if (old) c->ldel = true;
                        break;
                    }
                    case SLEEP: xs::sleep_ms(a.n); break;
                }
            }
            c->done++;
        }
    };
    void run() override
    {
        mu = new std::mutex;
        slot = new std::shared_ptr<Info>[kB];
        gr = new group;
        for (uint32_t i = 0; i < ns; ++i) sg[i] = grouped ? new typename F::Sig(*gr) : new typename F::Sig;
        Sub subs[kT];
        Thread th[kT];
        for (uint32_t t = 0; t < nt; ++t) { subs[t].c = this; subs[t].t = t; th[t].start(&subs[t]); }
        // waits without a timeout end with the next emit
        for (int i = 0; done < (int)nt && i < 100; ++i) {
            if (i == 20) xs::jumps(false);
            xs::sleep_ms(200);
            if (done < (int)nt) for (uint32_t s = 0; s < ns; ++s) do_emit(s);
        }
        for (uint32_t t = 0; t < nt; ++t) th[t].join();
        xs::quiesce_ms(1000);
        int left = 0;
        for (uint32_t b = 0; b < nb; ++b) {
            auto i = at(b);
            if (!i) continue;
            ++left;
            // everything emitted has been delivered by now
            bool must = false;
            for (uint32_t e = 0; e < ne; ++e) if (em_s[e] == i->sig && em[e].begin > i->end) must = true;
            bool r = i->bar->wait(std::chrono::milliseconds(0));
            if (must && !r) xs::fail("closed", "barrier is closed although its signal has been emitted");
            if (r) { check_open(*i, xs::seq()); do_values(*i, true); }
            else { do_values(*i, false); if (i->have) xs::fail("values", "closed barrier has values"); }
        }
        for (uint32_t s = 0; s < ns; ++s) do_emit(s);
        for (uint32_t b = 0; b < nb; ++b) { auto i = at(b); if (i) { do_wait(*i, -1); do_values(*i, true); } }
        for (uint32_t s = 0; s < ns; ++s) { do_emit(s); do_emit(s); }
        xs::quiesce_ms(1000);
        for (uint32_t b = 0; b < nb; ++b) { auto i = at(b); if (i) do_values(*i, true); }
        {
            auto* b = new typename F::Bar(*sg[0]);
            big.run("barrier wait", [b](milliseconds m) { return b->wait(m); }, [this] { F::emit(*sg[0], 0); });
            delete b;
        }
        // signals may go away before their barriers
        for (uint32_t s = 0; s < ns; ++s) delete sg[s];
        for (uint32_t b = 0; b < nb; ++b) { auto i = at(b); if (i) do_values(*i, true); }
        delete[] slot;
        xs::quiesce_ms(1000);
        if (left && ne > ns * 3 && lwaited) xs::label(0);
        if (lrace) xs::label(1);
        if (lmulti) xs::label(2);
        if (ldel) xs::label(3);
    }
};
struct C16 : Case
{
    Base* b;
    void generate(Gen& g, xs::Config& c) override
    {
        if (g.chance(1, 2)) b = new (xs::raw_alloc(sizeof(Barriers<NoDefault>))) Barriers<NoDefault>;
        else b = new (xs::raw_alloc(sizeof(Barriers<Plain>))) Barriers<Plain>;
        b->generate(g, c);
    }
    void run() override { b->run(); }
};
} // namespace
PROPERTY("C16", C16, "2-4 threads emit, create, wait for, query and drop up to 6 barriers of 1-2 signals with default constructible and other values; non-trivial: a wait for a barrier which was closed before returned true",
         "barrier created while its signal was emitted", "several emits in a row", "barrier dropped while in use elsewhere")
