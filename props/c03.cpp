// C03: the pool starts operations while it has free capacity.
#include "common.h"
using namespace h;

namespace {
const int kN = 64, kR = 10, kQ = 3;
struct C03 : Case
{
    struct Op { uint8_t kind, q, prio; bool submitted, started, finished; xs::Gate gate; };
    struct Round { uint8_t n; uint8_t kind[6], prio[6], q[6]; uint8_t release; uint32_t idle; uint8_t noise, split; };
    uint32_t K, nr, cpus;
    Round rd[kR];
    Op op[kN];
    uint32_t nop;
    int noise_done, noise_sub;
    bool expired, saturated, together;
    queue* sq[kN]; // one serial queue per blocking serial operation

    void generate(Gen& g, xs::Config& c) override
    {
        K = g.range(1, 5);
        // the thread count is that of the machine unless overridden
        cpus = g.pick(3);
        if (cpus == 0) thread_count(K);
        else {
            xs::set_cpus(K);
            static const char* const junk[] = { "0", "", "-3", "many", "0x8", "+-2" };
            if (cpus == 2) setenv("XDISPATCH2_THREAD_COUNT", junk[g.pick(6)], 1);
            xs::desc(cpus == 2 ? "machine with an unusable override, " : "machine, ");
        }
        nr = g.range(1, g.big ? kR : 5);
        xs::desc("threads=%u", K);
        for (uint32_t i = 0; i < nr; ++i) {
            Round& r = rd[i];
            r.n = g.range(0, 6);
            for (int k = 0; k < r.n; ++k) { r.kind[k] = g.pick(3); r.prio[k] = g.pick(4); }
            r.noise = g.pick(6);
            r.split = g.pick(2);
            r.release = g.pick(5); // 0: nothing, 1: one, 2: all, 3: half, 4: all
            r.idle = (uint32_t[]){ 0, 0, 1, 29999, 30000, 30001, 30000, 61000 }[g.pick(8)];
            if (r.idle > 1000) expired = true;
            xs::desc("; submit %u blocking + %u short%s, release %u, idle %u", r.n, r.noise, r.split ? " from two threads" : "", r.release, r.idle);
        }
        (void)c;
    }
    static void submit(C03* c, uint32_t id)
    {
        Op& o = c->op[id];
        auto f = [c, id] {
            Op& o = c->op[id];
            if (o.started) xs::fail("twice", "operation %u was started twice", id);
            o.started = true;
            xs::gate_wait(&o.gate);
            o.finished = true;
        };
        o.submitted = true;
        if (o.kind == 0) global_queue(kPrios[o.prio]).async(f);
        else if (o.kind == 1) { queue q = naive_parallel("p", kPrios[o.prio]); q.async(f); }
        else { queue q = naive_serial("s", kPrios[o.prio]); q.async(f); }
    }
    void check(const char* when)
    {
        uint32_t occ = 0, pend = 0;
        for (uint32_t i = 0; i < nop; ++i) {
            occ += op[i].started && !op[i].finished;
            pend += op[i].submitted && !op[i].started;
        }
        if (pend && occ < K) xs::fail("starved", "%s: %u submitted operations do not start although only %u of %u pool threads are occupied", when, pend, occ, K);
        if (occ < K && noise_done < noise_sub) xs::fail("starved", "%s: a short operation does not start although only %u of %u pool threads are occupied", when, occ, K);
        if (pend) saturated = true;
        if (occ > 1) together = true;
    }
    struct Half
    {
        C03* c;
        uint32_t a, b, noise;
        void operator()()
        {
            C03* cc = c;
            for (uint32_t i = a; i < b; ++i) submit(c, i);
            for (uint32_t i = 0; i < noise; ++i) { c->noise_sub++; global_queue(kPrios[i & 3]).async([cc] { cc->noise_done++; }); }
        }
    };
    void run() override
    {
        for (uint32_t r = 0; r < nr; ++r) {
            Round& d = rd[r];
            uint32_t a = nop;
            for (int k = 0; k < d.n && nop < kN; ++k) { op[nop].kind = d.kind[k]; op[nop].prio = d.prio[k]; nop++; }
            uint32_t mid = d.split ? a + (nop - a) / 2 : nop;
            Half h1 = { this, a, mid, d.noise }, h2 = { this, mid, nop, d.noise };
            Thread t1, t2;
            const double t = xs::now_ms();
            t1.start(&h1);
            if (d.split) t2.start(&h2);
            // release some of the earlier ones while new ones come in
            uint32_t rel = 0, held = 0;
            for (uint32_t i = 0; i < a; ++i) held += op[i].started && !op[i].finished;
            rel = d.release == 1 ? 1 : d.release == 3 ? held / 2 : d.release == 0 ? 0 : held;
            for (uint32_t i = 0; i < a && rel; ++i)
                if (op[i].started && !op[i].gate.open) { xs::gate_open(&op[i].gate); rel--; }
            t1.join();
            t2.join();
            xs::quiesce_ms(1000);
            check("after submitting");
            const double idle = t + d.idle - xs::now_ms(); // since then
            if (idle > 0) { xs::jumps(false); xs::sleep_ms((uint64_t)idle); }
        }
        for (uint32_t i = 0; i < nop; ++i) xs::gate_open(&op[i].gate);
        xs::quiesce_ms(1000);
        for (uint32_t i = 0; i < nop; ++i)
            if (!op[i].finished) xs::fail("lost", "operation %u was submitted but never ran", i);
        if (noise_done != noise_sub) xs::fail("lost", "%d of %d short operations ran", noise_done, noise_sub);
        if (nop >= 2 && together) xs::label(0);
        if (saturated) xs::label(1);
        if (expired) xs::label(2);
    }
};
} // namespace
PROPERTY("C03", C03, "rounds of operations that block until released plus short ones, from one or two threads, on global/parallel/serial queues of all priorities, interleaved with idle times around the worker expiry; at every quiescent point pending operations imply as many occupied threads as the thread count; non-trivial: at least two operations were blocked at the same time", "more blocked operations than capacity", "idle beyond worker expiry")
