// C06: streams on different threads.  Real threads, one of them running at a
// time; the library is compiled with a call at every branch, load and store,
// at which the seeded schedule preempts it.
#include "lib.h"
#include "net.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/wait.h>
#include <climits>
#include <memory>

using namespace sim;

static long budget = LONG_MAX;
static void preempt(uintptr_t pc);
#define POINT() do { if (__builtin_expect(--budget <= 0, 0)) preempt((uintptr_t)__builtin_return_address(0)); } while (0)
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) { }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { POINT(); }
// Static storage that can be written is shared by the threads, if there is any:
// what happens around an access to it is decided with care
extern char __data_start, _end;
static void shared(uintptr_t pc);
#define AT(a) do { if (__builtin_expect((uintptr_t)(a) - (uintptr_t)&__data_start < (uintptr_t)(&_end - &__data_start), 0)) \
    shared((uintptr_t)__builtin_return_address(0)); POINT(); } while (0)
#define LS(n) void __sanitizer_cov_load##n(void *a) { AT(a); } void __sanitizer_cov_store##n(void *a) { AT(a); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}

// --- A stream: one encoder and one decoder, and all they ever returned -------

struct Stream {
    Cfg c; std::unique_ptr<Enc> e; std::unique_ptr<Dec> d; std::vector<uint8_t> last;
    std::vector<uint64_t> out;
    Stream(const Scn &s, int i)
    {
        char b[16]; snprintf(b, sizeof b, "s%d", i);
        Rng r(mix(s.get("cfgseed"), s.get(b)));
        c = pick_cfg(r, .2, .25);
        if (s.get("same")) { Rng q(s.get("cfgseed")); c = pick_cfg(q, .2, .25); }
        sg = r.below(SG_ALL); ss = r.u64();
    }
    int sg; uint64_t ss;
    void note(const void *p, size_t n) { out.push_back(fnv(p, n)); }
    void call(const Op &o)
    {
        const std::string &k = o.k; int fmt = o.arg(2) & 3;
        if (!e) e.reset(new Enc(c, sg, ss));
        if (!d) d.reset(new Dec(c));
        if (k == "renc") e->restart();
        else if (k == "rdec") d->restart();
        else if (k == "byp") lc3_encoder_disable_ltpf(e->e);
        else if (k == "enc") {
            Rng r(o.arg(3)); int nb = r.chance(.7) ? usual_bytes(r, c) : pick_bytes(r, c), ret;
            e->fmt = fmt; last = e->frame(nb, 0, &ret);
            note(last.data(), nb); out.push_back(ret);
        } else {
            Rng r(o.arg(3)); std::vector<uint8_t> f = last; int ret;
            d->fmt = fmt;
            if (k == "lost") ret = d->decode(0, c.nbmin());
            else {
                if (k == "forge" || f.empty()) {
                    f.resize(usual_bytes(r, c)); ref::Forge q; q.mag = r.range(1, 12);
                    if (r.chance(.6)) q.g_idx = 60 + r.below(60);
                    ref::forge([&](int64_t m) { return r.below(m); }, c.dt, c.sr, f.size(), q, f.data());
                } else if (k == "cor") for (int j = r.range(1, 5); j > 0; j--) f[r.below(f.size())] ^= 1 << r.below(8);
                ret = d->decode(f.data(), f.size());
            }
            note(d->pcm.data(), d->pcm.size()); out.push_back(ret);
        }
    }
};

static bool is_call(const Op &o)
{ return o.k == "enc" || o.k == "dlv" || o.k == "lost" || o.k == "forge" || o.k == "cor" || o.k == "renc" || o.k == "rdec" || o.k == "byp"; }

// calls: <kind> stream thread fmt seed ; schedule: run thread points
static Scn gen_c06(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C06"; s.seed = seed;
    int n = r.range(2, 4), nt = r.range(2, 4);
    s.cfg["streams"] = n; s.cfg["threads"] = nt; s.cfg["cfgseed"] = r.u64() >> 20; s.cfg["same"] = r.chance(.5);
    for (int i = 0; i < n; i++) { char b[16]; snprintf(b, sizeof b, "s%d", i); s.cfg[b] = r.below(1 << 20); }
    double hand = r.chance(.4) ? r.unit() * .5 : 0, lost = r.unit() * .3, forge = r.unit() * .5, cor = r.unit() * .2;
    std::vector<int> own(n); for (int i = 0; i < n; i++) own[i] = i % nt;
    int calls = r.range(6, tier ? 40 : 18), only = r.pickw({ 6, 1, 1 });
    for (int i = 0; i < calls; i++) {
        int st = r.below(n);
        if (r.chance(hand)) own[st] = r.below(nt);
        const char *k = "dlv";
        if (r.chance(.06)) k = r.chance(.4) ? "renc" : r.chance(.6) ? "rdec" : "byp";
        else if (only == 1 || (only == 0 && r.chance(.5))) k = "enc";
        else if (r.chance(lost)) k = "lost"; else if (r.chance(forge)) k = "forge"; else if (r.chance(cor)) k = "cor";
        s.add(k, { st, own[st], r.below(4), (int64_t)(r.u64() >> 20) });
    }
    s.cfg["shared"] = r.chance(.3) ? 0 : r.range(1, 6);
    // the schedule: bursts of fine switching and long quanta
    int mode = r.below(4), sw = r.range(20, tier ? 3000 : 1200), burst = 0;
    for (int i = 0; i < sw; i++) {
        double lg = mode == 0 ? 1 + 3.5 * r.unit() : mode == 1 ? 3.3 * r.unit() : mode == 2 ? 2.5 + 2 * r.unit() : (burst > 0 ? 1.5 * r.unit() : 3 + 2 * r.unit());
        if (burst-- < -1) burst = r.range(2, 30);
        int64_t q = (int64_t)pow(10, lg);
        s.add("run", { r.below(nt), r.chance(.02) ? 0 : q });
    }
    return s;
}

struct Thr { pthread_t t; sem_t go; int id, call = -1, pos = 0; bool done = false; uintptr_t pc = 0; std::vector<int> queue; };
static struct {
    std::vector<Thr> thr; std::vector<Stream *> st; std::vector<int> calls; std::vector<char> fin;
    const Scn *s; Ctx *x; sem_t end; int cur; size_t op; uint64_t switches, points, given, inside, shared; int64_t every;
} W;

// Call k may start when the earlier calls of its stream are finished
static bool ready(const Thr &t)
{
    if (t.done) return false;
    if (t.call >= 0) return true;       // inside a call
    if (t.pos >= (int)t.queue.size()) return true;    // will end
    int k = t.queue[t.pos], st = W.s->ops[W.calls[k]].arg(0);
    for (int j = 0; j < k; j++) if (!W.fin[j] && W.s->ops[W.calls[j]].arg(0) == st) return false;
    return true;
}

// The next entry of the schedule; at its end threads run to their own end
static int choose(long &b)
{
    while (W.op < W.s->ops.size()) {
        const Op &o = W.s->ops[W.op++];
        if (o.k != "run") continue;
        int t = o.arg(0); if (t < 0 || t >= (int)W.thr.size() || !ready(W.thr[t])) continue;
        b = o.arg(1) > 0 ? o.arg(1) : LONG_MAX;
        return t;
    }
    b = LONG_MAX;
    for (size_t i = 0; i < W.thr.size(); i++) if (ready(W.thr[i])) return i;
    return -1;
}

static void hand_over(Thr *me)
{
    long b; int n = choose(b);
    if (n < 0) { budget = LONG_MAX; sem_post(&W.end); if (me && !me->done) W.x->broken("no thread can run"); return; }
    if (me && n == me->id) { budget = b; return; }
    if (me && me->call >= 0) {
        W.switches++;
        if (W.thr[n].call >= 0) { W.inside++; W.x->sig(mix(me->pc, W.thr[n].pc)); }
    }
    W.cur = n; budget = b;
    bool wait = me && !me->done;
    sem_post(&W.thr[n].go);
    if (wait) while (sem_wait(&me->go));
}

static void preempt(uintptr_t pc)
{
    if (W.cur < 0 || W.thr.empty()) { budget = LONG_MAX; return; }
    Thr &t = W.thr[W.cur];
    if (t.call < 0) { budget = LONG_MAX; return; }
    t.pc = pc;
    hand_over(&t);
}

static void shared(uintptr_t pc)
{
    if (W.cur < 0 || W.thr.empty() || W.thr[W.cur].call < 0) return;
    W.shared++;
    if (W.every > 0 && mix(W.shared, 77) % W.every == 0) preempt(pc);
}

static void *thread_main(void *p)
{
    Thr &t = *(Thr *)p;
    while (sem_wait(&t.go));
    while (t.pos < (int)t.queue.size()) {
        if (!ready(t)) { hand_over(&t); continue; }
        int k = t.queue[t.pos++]; const Op &o = W.s->ops[W.calls[k]];
        t.call = k;
        W.st[o.arg(0)]->call(o);
        t.call = -1; W.fin[k] = 1;
        if (budget > LONG_MAX / 2) hand_over(&t);     // quantum "to the end of the call"
    }
    t.done = true;
    hand_over(&t);
    return 0;
}

static void exec_c06(const Scn &s, Ctx &x)
{
    int n = std::max<int64_t>(1, std::min<int64_t>(s.get("streams"), 8)), nt = std::max<int64_t>(1, std::min<int64_t>(s.get("threads"), 8));
    W.s = &s; W.x = &x; W.cur = -1; W.every = s.get("shared");
    for (size_t i = 0; i < s.ops.size(); i++)
        if (is_call(s.ops[i]) && s.ops[i].arg(0) >= 0 && s.ops[i].arg(0) < n) W.calls.push_back(i);
    W.fin.assign(W.calls.size(), 0);
    // Solo runs, each in a process of its own that has run nothing else
    size_t cap = 4 * (s.ops.size() + 4);
    uint64_t *solo = (uint64_t *)mmap(0, n * cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < n; i++) {
        pid_t p = fork(); if (p < 0) x.broken("fork");
        if (!p) {
            Stream st(s, i);
            for (int k : W.calls) if (s.ops[k].arg(0) == i) st.call(s.ops[k]);
            uint64_t *o = solo + i * cap; o[0] = st.out.size();
            for (size_t j = 0; j < st.out.size(); j++) o[1 + j] = st.out[j];
            _exit(0);
        }
        int stt; while (waitpid(p, &stt, 0) < 0 && errno == EINTR);
        if (stt) x.fail("solo", "the stream alone ends with status %d", stt);
    }
    // Together
    for (int i = 0; i < n; i++) W.st.push_back(new Stream(s, i));
    W.thr.resize(nt); sem_init(&W.end, 0, 0);
    std::vector<int> lastthr(n, -1);
    for (size_t k = 0; k < W.calls.size(); k++) {
        const Op &o = s.ops[W.calls[k]]; int t = ((int)o.arg(1) % nt + nt) % nt, st = o.arg(0);
        W.thr[t].queue.push_back(k);
        if (lastthr[st] >= 0 && lastthr[st] != t) x.fault("context-handed-to-other-thread");
        lastthr[st] = t;
        if (o.k == "lost") x.fault("loss"); if (o.k == "forge") x.fault("forged-frame"); if (o.k == "cor") x.fault("damaged-frame");
        if (o.k == "enc") x.time(W.st[st]->c.us());
    }
    for (int i = 0; i < nt; i++) { W.thr[i].id = i; sem_init(&W.thr[i].go, 0, 0); }
    for (int i = 0; i < nt; i++) if (pthread_create(&W.thr[i].t, 0, thread_main, &W.thr[i])) x.broken("pthread_create");
    hand_over(0);
    while (sem_wait(&W.end));
    for (int i = 0; i < nt; i++) if (!W.thr[i].done) x.broken("thread %d not finished", i);
    for (int i = 0; i < nt; i++) pthread_join(W.thr[i].t, 0);
    x.fault("preemption-inside-call", W.switches);
    if (W.shared) x.fault("access-to-static-storage", W.shared);
    x.probe("switch-between-two-running-calls", W.inside);
    for (int i = 0; i < n; i++) {
        std::vector<uint64_t> &o = W.st[i]->out; uint64_t *q = solo + i * cap;
        size_t j = 0; int at = -1;
        for (j = 0; j < o.size() && j < q[0]; j++) if (o[j] != q[1 + j]) { at = j / 2; break; }
        if (o.size() != q[0] && at < 0) x.broken("histories of different length");
        if (at >= 0) {
            int c = 0; const char *kind = "?";
            for (int k : W.calls) { const Op &op = s.ops[k]; if (op.arg(0) != i || op.k == "renc" || op.k == "rdec" || op.k == "byp") continue; if (c++ == at) { kind = op.k.c_str(); x.step(k); } }
            x.fail(!strcmp(kind, "enc") ? "encoder" : "decoder", "call %d (%s) of stream %d of %d differs from the solo run after %llu preemptions", at, kind, i, n, (unsigned long long)W.switches);
        }
        for (auto v : o) x.ev(v);
    }
    x.ev(W.switches);
    x.s->steps += W.calls.size();
    if (W.inside) x.nontrivial();
}
static Register r06({ "C06", gen_c06, exec_c06, 60 });
