// C15: connections, scoped connections and managers against a model.
#include "scale.h"
#include <deque>
#include <utility>
#include <mutex>
#include <vector>
using namespace h;

namespace {
const int kS = 3, kC = 6, kX = 4, kM = 2, kH = 60, kOps = 60;
typedef signal<void(uint32_t)> Sig;

struct Connections : Case
{
    enum { CONNECT, EMIT, DRAIN, DISC, SDISC, SIGDISC, COPY, TOSCOPE, SCOPE_NEW, SCOPE_MOVE, SCOPE_MOVECTOR, SCOPE_DEL, TAKE, COPYSCOPE, SWAP, MGRADD, MGRRESET, MGRWITH, MGRNEW, SKIP, SIGNEW, CHAIN, KINDS };
    struct Op { uint8_t kind, a, b, flag; };
    // the model
    struct Hm
    {
        bool connected;
        int sig;      // slot of its signal
        int chain_to; // slot of the signal it forwards to, or -1
        bool batch;
        int q, self_at, runs;
        std::deque<std::pair<uint32_t, uint32_t>> queued; // range of values it may carry
        bool open; // a batch is pending at the end of the queue
    };
    uint32_t nops, nq;
    uint8_t kind[2];
    bool heap, lstale, lskip, lself, ldrop, lmove, lbatch, scale, skips;
    ManySignal many;
    uint32_t many_n, many_seed;
    Op op[kOps];
    Slot<Sig> slot[kS];
    Sig* sig[kS];
    queue* qs[2];
    std::vector<Hm>* hm;
    std::vector<std::vector<uint32_t>>* got; // per handler, from the queues
    connection* conn[kC];
    int conn_id[kC];
    scoped_connection* sc[kX];
    int sc_id[kX];
    connection_manager* mgr[kM];
    std::vector<int>* mgr_ids[kM];
    connection** self; // connection of a handler disconnecting itself
    xs::Gate* gate;
    std::mutex* mu;
    uint32_t value, delivered, nconnects;
    uint64_t phase;

    void generate(Gen& g, xs::Config& c) override
    {
        thread_count(1);
        c.jump_p = 0;
        c.freeze_ms = 0;
        scale = g.chance(1, 40);
        if (scale && g.chance(1, 3)) {
            // nothing but skipping
            skips = true;
            kind[0] = g.chance(1, 2) ? QK_SERIAL : QK_SERIAL_PLATFORM;
            xs::desc("skip_all");
            many.gen(g, c, 1, 15);
            return;
        }
        if (scale) {
            many_n = scale_count(g, 1025);
            many_seed = g.pick(1000000);
            c.step_limit += many_n * 6000ull;
            xs::desc("%u connections of two signals, program %u", many_n, many_seed);
            return;
        }
        nq = 2;
        kind[0] = QK_SERIAL;
        kind[1] = g.chance(1, 2) ? QK_SERIAL_PLATFORM : QK_SERIAL;
        heap = g.chance(1, 2);
        nops = g.range(3, g.big ? kOps : 30);
        // which operations dominate differs from case to case
        uint32_t w[KINDS], sum = 0;
        for (int i = 0; i < KINDS; ++i) { w[i] = g.of({ 1u, 1u, 0u, 3u }); }
        w[CONNECT] += 3; w[EMIT] += 4; w[DRAIN] += 1; w[SKIP] += 1;
        for (int i = 0; i < KINDS; ++i) sum += w[i];
        xs::desc("q1 %s%s:", kind_name(kind[1]), heap ? " heap" : "");
        static const char* const names[] = { "connect", "emit", "run", "disconnect c", "disconnect x", "signal.disconnect c", "copy c", "x= c", "x(c)", "x=move x", "x(move x)", "delete x", "c=take x", "c=x", "swap x", "m+= c", "reset m", "reset m with s", "new m", "skip_all s", "new s", "chain s" };
        for (uint32_t i = 0; i < nops; ++i) {
            uint32_t r = g.pick(sum), k = 0;
            while (r >= w[k]) r -= w[k++];
            Op& o = op[i];
            o.kind = k;
            o.a = g.pick(12);
            o.b = g.pick(12);
            o.flag = g.pick(16);
            xs::desc(" %s %u,%u,%u;", names[k], o.a, o.b, o.flag);
        }
    }
    // -- model
    bool alive(int id) { return id >= 0 && (*hm)[id].connected; }
    bool mdisc(int id)
    {
        if (!alive(id)) return false;
        (*hm)[id].connected = false;
        if (!(*hm)[id].queued.empty()) ldrop = true;
        (*hm)[id].queued.clear();
        return true;
    }
    void memit(int s, uint32_t v)
    {
        for (size_t i = 0; i < hm->size(); ++i) {
            Hm& x = (*hm)[i];
            if (!x.connected || x.sig != s) continue;
            if (x.chain_to >= 0) { memit(x.chain_to, v); continue; }
            if (x.batch && !x.queued.empty()) { x.queued.back().second = v; lbatch = true; continue; }
            x.queued.push_back({ v, v });
        }
    }
    int connect(int s, const Op& o)
    {
        int id = (int)hm->size();
        Hm x;
        x.connected = true;
        x.sig = s;
        x.chain_to = -1;
        x.batch = o.flag & 1;
        x.q = (o.flag >> 1) & 1;
        x.self_at = (o.flag & 12) == 12 ? 1 + (o.flag & 1) : 0;
        x.runs = 0;
        x.open = false;
        hm->push_back(x);
        got->push_back({});
        self[id] = nullptr;
        Connections* c = this;
        std::shared_ptr<int> token = std::make_shared<int>(id);
        connection cn = sig[s]->connect(
          [c, id, token](uint32_t v) {
              bool last;
              {
                  std::lock_guard<std::mutex> l(*c->mu);
                  (*c->got)[id].push_back(v);
                  if (*token != id) xs::fail("token", "captured state changed");
                  Hm& h = (*c->hm)[id];
                  h.runs++;
                  last = h.self_at && h.runs == h.self_at;
              }
              if (last) {
                  c->lself = true;
                  if (!c->self[id]->disconnect()) xs::fail("result", "disconnecting from within the handler reports there was nothing to disconnect");
              }
          },
          *qs[x.q], x.batch ? notification_mode::batch_updates : notification_mode::single_updates);
        // the values handed out by connect
        if (!cn.connected()) xs::fail("connected", "new connection is not connected");
        if (!cn.is_connected_to(*sig[s])) xs::fail("connected-to", "new connection is not connected to its signal");
        if (x.self_at) self[id] = new connection(cn);
        conn_set(o.b % kC, cn, id);
        return id;
    }
    void conn_set(int k, const connection& cn, int id) { *conn[k] = cn; conn_id[k] = id; }
    void result(bool r, bool m, const char* what) { if (r != m) xs::fail("result", "%s reports %d, expected %d", what, r, m); }
    void check_state(int step)
    {
        for (int k = 0; k < kC; ++k) state(*conn[k], conn_id[k], step, "connection", k);
        for (int k = 0; k < kX; ++k) if (sc[k]) state(*sc[k], sc_id[k], step, "scope", k);
        for (int k = 0; k < kC + kX; ++k)
            for (int j = 0; j < kC + kX; ++j) {
                connection* a = k < kC ? conn[k] : sc[k - kC];
                connection* b = j < kC ? conn[j] : sc[j - kC];
                if (!a || !b) continue;
                int ia = k < kC ? conn_id[k] : sc_id[k - kC], ib = j < kC ? conn_id[j] : sc_id[j - kC];
                bool eq = *a == *b;
                if (eq == (*a != *b)) xs::fail("equality", "== and != agree at step %d", step);
                if (k == j && !eq) xs::fail("equality", "connection differs from itself at step %d", step);
                if (!alive(ia) && !alive(ib)) continue;
                if (eq != (alive(ia) && alive(ib) && ia == ib)) xs::fail("equality", "equality of connections %d and %d is %d at step %d", k, j, eq, step);
            }
    }
    void state(const connection& c, int id, int step, const char* what, int k)
    {
        if (c.connected() != alive(id)) xs::fail("connected", "%s %d reports connected=%d, expected %d at step %d", what, k, c.connected(), alive(id), step);
        for (int s = 0; s < kS; ++s) {
            if (!sig[s]) continue;
            bool to = c.is_connected_to(*sig[s]);
            if (alive(id) ? to != ((*hm)[id].sig == s) : (to && false)) xs::fail("connected-to", "%s %d: is_connected_to signal %d = %d at step %d", what, k, s, to, step);
            // its signal is gone, so it is not connected to a new one
            if (!alive(id) && to && id >= 0 && ((*hm)[id].sig < 0)) xs::fail("connected-to", "%s %d of a destroyed signal reports to be connected to signal %d at step %d", what, k, s, step);
        }
    }
    void drain(int step)
    {
        // let everything queued run
        for (int i = 0; i < 2; ++i) xs::gate_open(&gate[i]);
        xs::quiesce_ms(100);
        std::lock_guard<std::mutex> lock(*mu);
        for (size_t i = 0; i < hm->size(); ++i) {
            Hm& x = (*hm)[i];
            std::vector<uint32_t>& g = (*got)[i];
            size_t n = 0;
            // a handler disconnecting itself ends the list
            int base = x.runs - (int)g.size();
            while (!x.queued.empty()) {
                auto e = x.queued.front();
                x.queued.pop_front();
                if (n >= g.size()) xs::fail("lost", "handler %zu has not been invoked for value %u, step %d", i, e.first, step);
                if (g[n] < e.first || g[n] > e.second) xs::fail("value", "handler %zu invoked with %u instead of %u..%u, step %d", i, g[n], e.first, e.second, step);
                ++n;
                ++delivered;
                if (x.self_at && base + (int)n == x.self_at) mdisc((int)i);
            }
            if (n != g.size()) xs::fail("surplus", "handler %zu invoked with %u unexpectedly, step %d", i, g[n], step);
            g.clear();
        }
        block();
    }
    void block()
    {
        gate = (xs::Gate*)xs::raw_alloc(sizeof(xs::Gate) * 2);
        for (int i = 0; i < 2; ++i) {
            xs::Gate* g = &gate[i];
            qs[i]->async([g] { xs::gate_wait(g); });
        }
        xs::quiesce_ms(100);
        for (int i = 0; i < 2; ++i) if (!gate[i].waiting) xs::fail("stuck", "queue does not execute operations");
    }
    void new_signal(int s)
    {
        if (heap) sig[s] = new Sig;
        else sig[s] = &slot[s].make();
    }
    void drop_signal(int s)
    {
        // a signal must not be destroyed while it is chained from another one
        for (size_t i = 0; i < hm->size(); ++i)
            if ((*hm)[i].connected && (*hm)[i].chain_to == s) return;
        Sig* x = sig[s];
        sig[s] = nullptr;
        if (heap) delete x;
        else slot[s].drop();
        for (size_t i = 0; i < hm->size(); ++i)
            if ((*hm)[i].sig == s) {
                if ((*hm)[i].connected) lstale = true;
                mdisc((int)i);
                (*hm)[i].sig = -1;
            }
    }
    void step(int i)
    {
        const Op& o = op[i];
        int s = o.a % kS, c = o.b % kC, c2 = o.flag % kC, x = o.b % kX, x2 = o.flag % kX, m = o.b % kM;
        switch (o.kind) {
            case CONNECT: if (hm->size() < kH && sig[s]) connect(s, o); break;
            case EMIT: if (sig[s]) { ++value; (*sig[s])(value); memit(s, value); } break;
            case DRAIN: drain(i); break;
            case DISC: { bool mm = mdisc(conn_id[c]); result(conn[c]->disconnect(), mm, "disconnect"); break; }
            case SDISC: if (sc[x]) { bool mm = mdisc(sc_id[x]); result(sc[x]->disconnect(), mm, "disconnect of a scope"); } break;
            case SIGDISC: {
                int id = conn_id[c];
                if (id >= 0 && (*hm)[id].sig >= 0) { bool mm = mdisc(id); result(sig[(*hm)[id].sig]->disconnect(*conn[c]), mm, "disconnect by the signal"); }
                break;
            }
            case COPY: *conn[c] = *conn[c2]; conn_id[c] = conn_id[c2]; break;
            case TOSCOPE: // an owned connection is disconnected first
                if (sc[x]) { mdisc(sc_id[x]); *sc[x] = *conn[c2]; sc_id[x] = conn_id[c2]; }
                break;
            case SCOPE_NEW:
                if (!sc[x]) { sc[x] = new scoped_connection(*conn[c2]); sc_id[x] = conn_id[c2]; }
                break;
            case SCOPE_MOVE:
                if (sc[x] && sc[x2] && x != x2) { mdisc(sc_id[x]); *sc[x] = std::move(*sc[x2]); sc_id[x] = sc_id[x2]; sc_id[x2] = -1; lmove = true; }
                break;
            case SCOPE_MOVECTOR:
                if (!sc[x] && sc[x2]) { sc[x] = new scoped_connection(std::move(*sc[x2])); sc_id[x] = sc_id[x2]; sc_id[x2] = -1; lmove = true; }
                break;
            case SCOPE_DEL:
                if (sc[x]) { mdisc(sc_id[x]); delete sc[x]; sc[x] = nullptr; sc_id[x] = -1; }
                else { sc[x] = new scoped_connection; sc_id[x] = -1; }
                break;
            case TAKE: if (sc[x]) { *conn[c2] = sc[x]->take(); conn_id[c2] = sc_id[x]; sc_id[x] = -1; } break;
            case COPYSCOPE: if (sc[x]) { *conn[c2] = *sc[x]; conn_id[c2] = sc_id[x]; } break;
            case SWAP: if (sc[x] && sc[x2] && x != x2) { std::swap(*sc[x], *sc[x2]); std::swap(sc_id[x], sc_id[x2]); lmove = true; } break;
            case MGRADD: *mgr[m] += *conn[c2]; mgr_ids[m]->push_back(conn_id[c2]); break;
            case MGRRESET: for (int id : *mgr_ids[m]) mdisc(id); mgr_ids[m]->clear(); mgr[m]->reset_connections(); break;
            case MGRWITH:
                if (sig[s]) {
                    for (int id : *mgr_ids[m]) if (id >= 0 && (*hm)[id].sig == s) mdisc(id);
                    mgr[m]->reset_connections_with(*sig[s]);
                }
                break;
            case MGRNEW: for (int id : *mgr_ids[m]) mdisc(id); mgr_ids[m]->clear(); delete mgr[m]; mgr[m] = new connection_manager; break;
            case SKIP:
                if (sig[s]) {
                    for (auto& q : *hm) if (q.connected && q.sig == s) { if (!q.queued.empty()) lskip = true; q.queued.clear(); }
                    sig[s]->skip_all();
                }
                break;
            case SIGNEW:
                if (sig[s]) drop_signal(s);
                if (!sig[s]) new_signal(s);
                break;
            case CHAIN: {
                int t = s + 1 + o.flag % 2;
                if (t >= kS || !sig[s] || !sig[t] || hm->size() >= kH) break;
                Hm h;
                h.connected = true; h.sig = s; h.chain_to = t; h.batch = h.open = false; h.q = 0; h.self_at = h.runs = 0;
                hm->push_back(h);
                got->push_back({});
                conn_set(c, sig[s]->connect(*sig[t]), (int)hm->size() - 1);
                break;
            }
        }
        check_state(i);
    }
    // many connections in two managers, as scopes and on their own
    void run_many()
    {
        struct M { uint32_t n; uint8_t of[1025], where[1025], on[1025]; uint32_t got[1025], want[1025]; } * m = (M*)xs::raw_alloc(sizeof(M));
        uint32_t x = many_seed;
        auto rnd = [&](uint32_t k) { x = x * 1664525 + 1013904223; return (x >> 8) % k; };
        queue q(naive_serial("s"));
        Sig* s[2] = { new Sig, new Sig };
        connection_manager* mg[2] = { new connection_manager, new connection_manager };
        std::vector<connection> plain(many_n);
        std::vector<scoped_connection> scopes;
        std::vector<int> scope_of;
        for (uint32_t i = 0; i < many_n; ++i) {
            m->of[i] = rnd(2);
            m->where[i] = rnd(5); // 0, 1: managers, 2: both, 3: scope, 4: plain
            plain[i] = s[m->of[i]]->connect([m, i](uint32_t) { m->got[i]++; }, q);
            m->on[i] = 1;
            if (m->where[i] == 0 || m->where[i] == 2) *mg[0] += plain[i];
            if (m->where[i] == 1 || m->where[i] == 2) *mg[1] += plain[i];
            if (m->where[i] == 3) { scopes.push_back(scoped_connection(plain[i])); scope_of.push_back((int)i); }
        }
        auto in = [&](uint32_t i, uint32_t k) { return m->where[i] == k || m->where[i] == 2; };
        for (uint32_t step = 0; step < 8; ++step) {
            for (uint32_t k = 0; k < 2; ++k)
                if (s[k]) {
                    (*s[k])(step);
                    for (uint32_t i = 0; i < many_n; ++i) if (m->on[i] && m->of[i] == k) m->want[i]++;
                }
            xs::quiesce_ms(100);
            for (uint32_t i = 0; i < many_n; ++i) {
                if (m->got[i] != m->want[i]) xs::fail("lost", "handler %u of %u was invoked %u instead of %u times, step %u", i, many_n, m->got[i], m->want[i], step);
                if (plain[i].connected() != (bool)m->on[i]) xs::fail("connected", "connection %u of %u reports connected=%d, step %u", i, many_n, plain[i].connected(), step);
            }
            const uint32_t k = rnd(2), t = rnd(2);
            switch (rnd(7)) {
                case 0: mg[k]->reset_connections(); for (uint32_t i = 0; i < many_n; ++i) if (in(i, k)) m->on[i] = 0; break;
                case 1: if (s[t]) { mg[k]->reset_connections_with(*s[t]); for (uint32_t i = 0; i < many_n; ++i) if (in(i, k) && m->of[i] == t) m->on[i] = 0; } break;
                case 2: delete mg[k]; mg[k] = new connection_manager; for (uint32_t i = 0; i < many_n; ++i) if (in(i, k)) { m->on[i] = 0; m->where[i] = 4; } break;
                case 3: for (uint32_t i = k; i < many_n; i += 2 + t) { if (plain[i].disconnect() != (bool)m->on[i]) xs::fail("result", "disconnecting connection %u reports the wrong result", i); m->on[i] = 0; } break;
                case 4: scopes.clear(); for (int i : scope_of) m->on[i] = 0; scope_of.clear(); break;
                case 5: delete s[t]; s[t] = nullptr; for (uint32_t i = 0; i < many_n; ++i) if (m->of[i] == t) m->on[i] = 0; break;
                default: for (size_t i = 0; i + 1 < scopes.size(); i += 3) { std::swap(scopes[i], scopes[i + 1]); } break;
            }
        }
        delete s[0];
        delete s[1];
        for (uint32_t i = 0; i < many_n; ++i) if (plain[i].connected()) xs::fail("connected", "connection %u of a destroyed signal reports to be connected", i);
        delete mg[0];
        delete mg[1];
        xs::label(0);
        xs::label(7);
    }
    void run() override
    {
        if (skips) {
            many.run(make_queue(kind[0], 2), true);
            xs::label(0);
            return;
        }
        if (scale) return run_many();
        mu = new std::mutex;
        hm = new std::vector<Hm>;
        got = new std::vector<std::vector<uint32_t>>;
        got->reserve(kH + 1);
        hm->reserve(kH + 1);
        self = (connection**)calloc(kH + 1, sizeof(connection*));
        for (uint32_t i = 0; i < nq; ++i) qs[i] = new queue(make_queue(kind[i], 0));
        for (int i = 0; i < kS; ++i) new_signal(i);
        for (int i = 0; i < kC; ++i) { conn[i] = new connection; conn_id[i] = -1; }
        for (int i = 0; i < kX; ++i) { sc[i] = new scoped_connection; sc_id[i] = -1; }
        for (int i = 0; i < kM; ++i) { mgr[i] = new connection_manager; mgr_ids[i] = new std::vector<int>; }
        block();
        check_state(-1);
        for (uint32_t i = 0; i < nops; ++i) step(i);
        drain(nops);
        // everything still connected gets the next value
        for (int i = 0; i < kS; ++i) if (sig[i]) { ++value; (*sig[i])(value); memit(i, value); }
        drain(nops + 1);
        check_state(nops + 1);
        for (int i = 0; i < kX; ++i) { mdisc(sc_id[i]); delete sc[i]; sc[i] = nullptr; sc_id[i] = -1; }
        for (int i = 0; i < kM; ++i) { for (int id : *mgr_ids[i]) mdisc(id); delete mgr[i]; }
        for (int i = 0; i < kS; ++i) if (sig[i]) { ++value; (*sig[i])(value); memit(i, value); }
        drain(nops + 2);
        check_state(nops + 2);
        for (int i = 0; i < kS; ++i)
            if (sig[i]) { if (heap) delete sig[i]; else slot[i].drop(); sig[i] = nullptr; }
        for (size_t i = 0; i < hm->size(); ++i) { mdisc((int)i); (*hm)[i].sig = -1; }
        drain(nops + 3);
        check_state(nops + 3);
        for (int i = 0; i < 2; ++i) xs::gate_open(&gate[i]);
        if (delivered && hm->size() >= 2) xs::label(0);
        if (lstale) xs::label(1);
        if (lskip) xs::label(2);
        if (lself) xs::label(3);
        if (ldrop) xs::label(4);
        if (lmove) xs::label(5);
        if (lbatch) xs::label(6);
    }
};
} // namespace
PROPERTY("C15", Connections, "3-30 (thorough 3-60) operations out of 22 kinds on 3 signals, 6 connections, 4 scopes and 2 managers in step with a model which predicts every state, result, comparison and delivered value; non-trivial: two handlers connected and something delivered",
         "signal destroyed with connections", "skip_all with queued invocations", "handler disconnects itself", "queued invocation dropped by disconnecting", "scope moved or swapped", "emits batched", "12 to 1025 connections")
