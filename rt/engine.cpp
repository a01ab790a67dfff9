// Engine: worker processes, one forked child per case, shrinking, replay files.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "engine.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_set>

using xs::Shared;

static Prop* g_props = nullptr;
Prop::Prop(const char* i, Case* (*m)(), const char* r, const char* const* l, double w)
  : id(i), make(m), rule(r), labels(l), weight(w), next(g_props)
{
    g_props = this;
}

static uint64_t
mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t
hash_str(const char* s)
{
    uint64_t h = 0xcbf29ce484222325ull;
    while (*s) h = (h ^ (uint8_t)*s++) * 0x100000001b3ull;
    return h;
}

uint32_t
Gen::pick(uint32_t n)
{
    uint32_t v;
    if (n <= 1) v = 0;
    else if (preset) v = pos < npreset ? preset[pos] % n : 0;
    else { rng += 0x9E3779B97F4A7C15ull; v = (uint32_t)((mix(rng) >> 32) * (uint64_t)n >> 32); }
    if (pos < 4096 && xs::shared) { xs::shared->choices[pos] = v; xs::shared->nchoices = pos + 1; }
    pos++;
    return v;
}
uint32_t
Gen::small(uint32_t hi)
{
    switch (pick(4)) {
        case 0: return pick(std::min<uint32_t>(hi, 2) + 1);
        case 1: return pick(std::min<uint32_t>(hi, 4) + 1);
        case 2: return pick(std::min<uint32_t>(hi, 12) + 1);
        default: return pick(hi + 1);
    }
}

static void
sched_config(uint64_t sseed, xs::Config& c)
{
    uint64_t s = mix(sseed ^ 0x5eed);
    auto d = [&](uint32_t n) { s = mix(s); return (uint32_t)((s >> 32) * (uint64_t)n >> 32); };
    c.seed = sseed;
    uint32_t k = d(100);
    if (k < 55) {
        c.strategy = xs::ST_WALK;
        static const uint32_t ps[] = { 32768, 8192, 2048, 512 };
        c.switch_p = ps[d(4)];
    } else if (k < 92) {
        c.strategy = xs::ST_PCT;
        c.pct_depth = 1 + d(6);
        static const uint32_t ls[] = { 60, 250, 1000, 4000, 15000 };
        c.pct_len = ls[d(5)];
    } else c.strategy = xs::ST_FIFO;
    k = d(100);
    c.plain_p = k < 65 ? 0 : k < 85 ? 256 : 2048;
    c.cas_fail_p = d(100) < 30 ? 2048 : 0;
    c.spurious_p = d(100) < 30 ? 3000 : 0;
    c.jump_p = d(100) < 30 ? 300 : 0;
    if (d(100) < 40) {
        c.freeze_n = 1 + d(4);
        static const uint32_t fs[] = { 300, 2000, 6000 }, fm[] = { 0, 0, 1, 20, 31000 }, ls[] = { 300, 1000, 3000, 10000 };
        c.freeze_steps = fs[d(3)];
        c.freeze_ms = fm[d(5)];
        if (c.strategy != xs::ST_PCT) c.pct_len = ls[d(4)];
    }
}

struct Result
{
    int outcome; // xs::Outcome, or 10 = died by signal, 11 = hang
    int sig;
    Shared s;
    std::string err;
};

static int g_errfd = -1;
static bool g_big = false;
static bool g_verbose = false;
static bool g_verbose_slow = getenv("XS_SLOW") != nullptr;

// Ended processes hold on to their memory for a while (the kernel frees it with
// a delay); with thousands of them per second it may run out. Slow down then.
static void
wait_for_memory()
{
    static unsigned n;
    if (n++ % 16) return;
    for (int i = 0; i < 400; ++i) {
        char b[512];
        int fd = open("/proc/meminfo", O_RDONLY);
        if (fd < 0) return;
        ssize_t r = read(fd, b, sizeof b - 1);
        close(fd);
        if (r <= 0) return;
        b[r] = 0;
        const char* t = strstr(b, "MemTotal:");
        const char* a = strstr(b, "MemAvailable:");
        if (!t || !a) return;
        long total = atol(t + 9), avail = atol(a + 13);
        if (avail > total / 4) return;
        usleep(50000);
    }
}

static void
run_case(Prop* p, const std::vector<uint32_t>* preset, uint64_t gseed, uint64_t sseed, Shared* sh, Result* out)
{
    memset((void*)sh, 0, sizeof(Shared));
    if (ftruncate(g_errfd, 0)) {}
    lseek(g_errfd, 0, SEEK_SET);
    fflush(stdout);
    fflush(stderr);
    wait_for_memory();
    pid_t pid = fork();
    if (pid == 0) {
        xs::shared = sh;
        if (!g_verbose) dup2(g_errfd, 2);
        struct rlimit rl = { 10, 11 };
        setrlimit(RLIMIT_CPU, &rl);
        rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        alarm(120);
        Gen g;
        if (preset) {
            g.preset = preset->data();
            g.npreset = (uint32_t)preset->size();
            static uint32_t dummy = 0;
            if (!g.npreset) g.preset = &dummy;
        }
        g.rng = gseed;
        g.big = g_big;
        xs::Config c;
        sched_config(sseed, c);
        Case* k = p->make();
        k->generate(g, c);
        xs::run(c, [](void* a) { ((Case*)a)->run(); }, k);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    out->sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    out->outcome = sh->outcome;
    if (sh->outcome == xs::OC_NONE) {
        bool hang = out->sig == SIGALRM || out->sig == SIGXCPU || out->sig == SIGKILL;
        out->outcome = hang ? 11 : 10;
        if (out->sig == SIGKILL) out->outcome = xs::OC_INCONCLUSIVE; // out of memory
        snprintf(sh->kind, sizeof sh->kind, hang ? "hang" : "crash");
        snprintf(sh->msg, sizeof sh->msg, "process ended with status 0x%x (signal %d)%s", st, out->sig,
                 hang ? ": a thread runs or blocks forever without reaching a scheduling point" : "");
    }
    out->s = *sh;
    if (out->outcome != xs::OC_OK) {
        char b[4000];
        lseek(g_errfd, 0, SEEK_SET);
        ssize_t n;
        out->err.clear();
        while ((n = read(g_errfd, b, sizeof b)) > 0 && out->err.size() < 20000) out->err.append(b, n);
        if (out->err.size() > 3000) out->err = out->err.substr(out->err.size() - 3000);
    }
}
static bool is_fail(int oc) { return oc == xs::OC_FAIL || oc == 10 || oc == 11; }

// ---------------------------------------------------------------- json helpers
static std::string
jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

struct WorkerStats // shared between parent and workers
{
    volatile uint64_t done, ok, inconclusive, fails, nontriv, steps, switches, threads, vtime;
    volatile uint64_t labels[xs::kMaxLabels];
    volatile int nfail;
    struct { uint64_t index; char kind[64]; } fail[64];
    char samples[6][1500];
    volatile int nsamples;
    uint32_t nhash;
    uint64_t hashes[400000];
};
struct Global { volatile int stop; };

static double
now_s()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void* shmap(size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }

static void
case_seeds(uint64_t seed, Prop* p, uint64_t idx, uint64_t& gs, uint64_t& ss)
{
    gs = mix(mix(seed) ^ hash_str(p->id) ^ mix(idx * 2 + 1));
    ss = mix(gs ^ 0xabcdef);
}

static void
worker(Prop* p, int w, int jobs, uint64_t seed, uint64_t cases, double deadline, WorkerStats* ws, Global* gl, int maxfail)
{
    cpu_set_t set, cur;
    sched_getaffinity(0, sizeof cur, &cur);
    int n = CPU_COUNT(&cur), want = w % (n ? n : 1);
    CPU_ZERO(&set);
    for (int i = 0, k = 0; i < CPU_SETSIZE; ++i)
        if (CPU_ISSET(i, &cur) && k++ == want) { CPU_SET(i, &set); break; }
    sched_setaffinity(0, sizeof set, &set);
    g_errfd = memfd_create("err", 0);
    Shared* sh = (Shared*)shmap(sizeof(Shared));
    Result* r = new Result;
    for (uint64_t i = w; i < cases && !gl->stop; i += jobs) {
        if (now_s() > deadline) break;
        uint64_t gs, ss;
        case_seeds(seed, p, i, gs, ss);
        double tr = now_s();
        run_case(p, nullptr, gs, ss, sh, r);
        if (g_verbose_slow && now_s() - tr > 0.2) fprintf(stderr, "case %lu took %.1f s, %lu steps\n", (unsigned long)i, now_s() - tr, (unsigned long)r->s.steps);
        ws->done++;
        ws->steps += r->s.steps;
        ws->switches += r->s.switches;
        ws->threads += r->s.threads;
        ws->vtime += r->s.vtime_ns / 1000000;
        if (r->outcome == xs::OC_OK) {
            ws->ok++;
            for (int k = 0; k < xs::kMaxLabels; ++k) if (r->s.labels[k]) ws->labels[k]++;
            if (r->s.labels[0]) {
                ws->nontriv++;
                if (ws->nhash < 400000) ws->hashes[ws->nhash++] = mix(r->s.trace_hash ^ hash_str(r->s.desc));
                if (ws->nsamples < 6 && (ws->nontriv == 1 || ws->nontriv == 20 || ws->nontriv == 100)) {
                    snprintf(ws->samples[ws->nsamples], 1500, "case %lu: %.900s | %lu steps, %lu switches, %lu threads, %.1f ms virtual time", (unsigned long)i, r->s.desc,
                             (unsigned long)r->s.steps, (unsigned long)r->s.switches, (unsigned long)r->s.threads, r->s.vtime_ns / 1e6);
                    ws->nsamples++;
                }
            }
        } else if (is_fail(r->outcome)) {
            ws->fails++;
            if (ws->nfail < 64) {
                ws->fail[ws->nfail].index = i;
                snprintf(ws->fail[ws->nfail].kind, 64, "%s", r->s.kind);
                ws->nfail++;
            }
            if (maxfail && ws->nfail >= maxfail) { gl->stop = 1; break; }
        } else ws->inconclusive++;
    }
    _exit(0);
}

static std::string
result_json(const Result& r, uint64_t sseed, const std::vector<uint32_t>& ch)
{
    std::string o = "{\"kind\":" + jstr(r.s.kind) + ",\"sig\":" + jstr(r.s.sig) + ",\"msg\":" + jstr(r.s.msg) + ",\"program\":" + jstr(r.s.desc) +
                    ",\"stderr\":" + jstr(r.err) + ",\"sched_seed\":\"" + std::to_string(sseed) + "\",\"big\":" + (g_big ? "true" : "false") + ",\"choices\":[";
    for (size_t i = 0; i < ch.size(); ++i) o += (i ? "," : "") + std::to_string(ch[i]);
    return o + "]}";
}

// shrink: fewer and smaller choices that still fail with the same kind under
// the same or one of a few other schedules
static void
shrink(Prop* p, std::vector<uint32_t>& ch, uint64_t& sseed, const std::string& kind, double deadline, Shared* sh, Result* r, uint64_t& tries)
{
    auto attempt = [&](const std::vector<uint32_t>& c) {
        for (int k = 0; k < 6; ++k) {
            if (now_s() > deadline) return false;
            uint64_t ss = k == 0 ? sseed : mix(sseed + k * 7919);
            tries++;
            run_case(p, &c, 0, ss, sh, r);
            if (is_fail(r->outcome) && kind == r->s.kind) {
                std::vector<uint32_t> used(r->s.choices, r->s.choices + std::min<uint32_t>(r->s.nchoices, c.size()));
                while (!used.empty() && used.back() == 0) used.pop_back();
                ch = used;
                sseed = ss;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && now_s() < deadline) {
        progress = false;
        for (size_t blk = std::max<size_t>(1, ch.size() / 2); blk >= 1; blk /= 2) {
            for (size_t i = 0; i + blk <= ch.size() && now_s() < deadline;) {
                std::vector<uint32_t> c = ch;
                c.erase(c.begin() + i, c.begin() + i + blk);
                size_t old = ch.size();
                if (attempt(c) && ch.size() < old) progress = true;
                else i += blk;
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < ch.size() && now_s() < deadline; ++i) {
            uint32_t v = ch[i];
            for (uint32_t nv : { 0u, v / 2, v - 1 }) {
                if (i >= ch.size() || ch[i] == 0 || nv >= ch[i]) continue;
                std::vector<uint32_t> c = ch;
                c[i] = nv;
                if (attempt(c)) { progress = true; break; }
            }
        }
    }
}

static Prop*
find_prop(const char* id)
{
    for (Prop* p = g_props; p; p = p->next) if (!strcmp(p->id, id)) return p;
    return nullptr;
}

int
main(int argc, char** argv)
{
    const char *prop = nullptr, *out = nullptr, *replay = nullptr;
    uint64_t seed = 1, cases = 1000, index = ~0ull;
    double tmax = 60, shrink_s = 20;
    int jobs = 8, maxfail = 4;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--prop") prop = nx();
        else if (a == "--out") out = nx();
        else if (a == "--seed") seed = strtoull(nx(), 0, 10);
        else if (a == "--cases") cases = strtoull(nx(), 0, 10);
        else if (a == "--time") tmax = atof(nx());
        else if (a == "--shrink") shrink_s = atof(nx());
        else if (a == "--jobs") jobs = atoi(nx());
        else if (a == "--maxfail") maxfail = atoi(nx());
        else if (a == "--index") index = strtoull(nx(), 0, 10);
        else if (a == "--replay") replay = nx();
        else if (a == "--big") g_big = true;
        else if (a == "--verbose") g_verbose = true;
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (list) { for (Prop* p = g_props; p; p = p->next) printf("%s\n", p->id); return 0; }
    Prop* p = prop ? find_prop(prop) : nullptr;
    if (!p) { fprintf(stderr, "unknown property\n"); return 2; }
    Shared* sh = (Shared*)shmap(sizeof(Shared));
    g_errfd = memfd_create("err", 0);
    Result* r = new Result;
    double t0 = now_s();

    if (replay || index != ~0ull) {
        uint64_t gs = 0, ss = 0;
        std::vector<uint32_t> ch;
        std::vector<uint32_t>* pre = nullptr;
        if (replay) { // plain text: sched_seed big n c0 c1 ...
            FILE* f = fopen(replay, "r");
            unsigned long s, n;
            int big;
            if (!f || fscanf(f, "%lu %d %lu", &s, &big, &n) != 3) { fprintf(stderr, "bad replay file\n"); return 2; }
            g_big = big;
            ss = s;
            for (unsigned long i = 0; i < n; ++i) { unsigned v = 0; if (fscanf(f, "%u", &v) != 1) break; ch.push_back(v); }
            fclose(f);
            pre = &ch;
        } else case_seeds(seed, p, index, gs, ss);
        run_case(p, pre, gs, ss, sh, r);
        printf("outcome=%d kind=%s\n%s\n%s\nprogram: %s\nsteps=%lu switches=%lu threads=%lu vtime=%.3fms hash=%lx\nstderr: %s\n", r->outcome, r->s.kind, r->s.sig, r->s.msg, r->s.desc, (unsigned long)r->s.steps,
               (unsigned long)r->s.switches, (unsigned long)r->s.threads, r->s.vtime_ns / 1e6, (unsigned long)r->s.trace_hash, r->err.c_str());
        return is_fail(r->outcome) ? 1 : 0;
    }

    Global* gl = (Global*)shmap(sizeof(Global));
    std::vector<WorkerStats*> ws;
    std::vector<pid_t> pids;
    for (int w = 0; w < jobs; ++w) ws.push_back((WorkerStats*)shmap(sizeof(WorkerStats)));
    for (int w = 0; w < jobs; ++w) {
        pid_t c = fork();
        if (c == 0) worker(p, w, jobs, seed, cases, t0 + tmax, ws[w], gl, maxfail);
        pids.push_back(c);
    }
    int bad_workers = 0;
    for (pid_t c : pids) { int st = 0; waitpid(c, &st, 0); if (st) bad_workers++; }

    uint64_t done = 0, ok = 0, inc = 0, fails = 0, nontriv = 0, steps = 0, sw = 0, thr = 0, vt = 0;
    uint64_t labels[xs::kMaxLabels] = { 0 };
    std::unordered_set<uint64_t> hs;
    struct F { uint64_t idx; std::string kind; };
    std::vector<F> fl;
    std::string samples;
    int nsamples = 0;
    for (auto* x : ws) {
        done += x->done; ok += x->ok; inc += x->inconclusive; fails += x->fails; nontriv += x->nontriv; steps += x->steps; sw += x->switches; thr += x->threads; vt += x->vtime;
        for (int k = 0; k < xs::kMaxLabels; ++k) labels[k] += x->labels[k];
        for (uint32_t i = 0; i < x->nhash; ++i) hs.insert(x->hashes[i]);
        for (int i = 0; i < x->nfail; ++i) fl.push_back({ x->fail[i].index, x->fail[i].kind });
        for (int i = 0; i < x->nsamples && nsamples < 6; ++i) { samples += (nsamples++ ? "," : "") + jstr(x->samples[i]); if (i >= 0) break; }
    }
    std::sort(fl.begin(), fl.end(), [](const F& a, const F& b) { return a.idx < b.idx; });
    // confirm and shrink one failure per kind
    std::string fj;
    std::unordered_set<std::string> kinds;
    int unconfirmed = 0;
    std::string uj; // failures seen once which did not happen again
    auto unconf = [&](const F& f) { unconfirmed++; uj += (uj.empty() ? "" : ",") + ("{\"index\":" + std::to_string(f.idx) + ",\"kind\":" + jstr(f.kind) + "}"); };
    uint64_t tries = 0;
    for (auto& f : fl) {
        if (kinds.count(f.kind) || kinds.size() >= 4) continue;
        uint64_t gs, ss;
        case_seeds(seed, p, f.idx, gs, ss);
        double tc = now_s();
        run_case(p, nullptr, gs, ss, sh, r);
        if (!is_fail(r->outcome)) { unconf(f); continue; }
        // busy loops take long to detect, leave them as they are
        const int confirms = now_s() - tc > 2 ? 1 : 3;
        std::string kind = r->s.kind;
        std::vector<uint32_t> ch(r->s.choices, r->s.choices + std::min<uint32_t>(r->s.nchoices, 4096));
        bool truncated = r->s.nchoices > 4096;
        std::vector<uint32_t> orig = ch;
        uint64_t oss = ss;
        if (!truncated && confirms == 3) shrink(p, ch, ss, kind, now_s() + shrink_s, sh, r, tries);
        int good = 0;
        for (int k = 0; k < confirms; ++k) { run_case(p, &ch, 0, ss, sh, r); if (is_fail(r->outcome) && kind == r->s.kind) good++; }
        if (good < confirms) { // fall back to the unshrunk case
            ch = orig; ss = oss; good = 0;
            for (int k = 0; k < confirms; ++k) { run_case(p, &ch, 0, ss, sh, r); if (is_fail(r->outcome) && kind == r->s.kind) good++; }
        }
        if (good < confirms) { unconf(f); continue; }
        kinds.insert(f.kind);
        if (!fj.empty()) fj += ",";
        std::string one = result_json(*r, ss, ch);
        one.insert(1, "\"case\":" + std::to_string(f.idx) + ",");
        fj += one;
    }
    std::string o = "{\"property\":" + jstr(p->id) + ",\"rule\":" + jstr(p->rule) + ",\"cases\":" + std::to_string(done) + ",\"requested\":" + std::to_string(cases) + ",\"ok\":" + std::to_string(ok) +
                    ",\"inconclusive\":" + std::to_string(inc) + ",\"failed_cases\":" + std::to_string(fails) + ",\"unconfirmed\":" + std::to_string(unconfirmed) + ",\"nontrivial\":" + std::to_string(nontriv) +
                    ",\"distinct_nontrivial\":" + std::to_string(hs.size()) + ",\"steps\":" + std::to_string(steps) + ",\"switches\":" + std::to_string(sw) + ",\"threads\":" + std::to_string(thr) +
                    ",\"virtual_ms\":" + std::to_string(vt) + ",\"bad_workers\":" + std::to_string(bad_workers) + ",\"shrink_runs\":" + std::to_string(tries) + ",\"wall_s\":" + std::to_string(now_s() - t0) + ",\"labels\":{";
    bool first = true;
    for (int k = 0; k < xs::kMaxLabels && p->labels[k]; ++k) { o += (first ? "" : ",") + jstr(p->labels[k]) + ":" + std::to_string(labels[k]); first = false; }
    o += "},\"unconfirmed_cases\":[" + uj + "],\"samples\":[" + samples + "],\"failures\":[" + fj + "]}\n";
    if (out) { FILE* f = fopen(out, "w"); fputs(o.c_str(), f); fclose(f); }
    else fputs(o.c_str(), stdout);
    return 0;
}
