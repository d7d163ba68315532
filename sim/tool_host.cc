#include "tool_host.h"
#include "alloc.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>

namespace tool {

const char *const kind_name[F_NUM] = { "none", "read-error", "read-error-once", "no-space", "write-error", "write-error-once",
    "close-error", "seek-error", "open-input-error", "open-output-error", "allocation-failure", "killed", "stalled-stream" };

static const size_t OUTCAP = 16 << 20, ERRCAP = 1 << 14;

// Shared with the tool's process
struct Shm {
    int64_t written, errlen; int reads, writes, seeks, allocs, in_closes, out_closes, fired, out_opened, limit, killed, active;
    int64_t high;
    uint8_t err[ERRCAP], out[OUTCAP];
};
static Shm *S; static const Inv *I; static bool in_tool;
static sim::Rng *R;
struct Side { bool in, pipe; int64_t pos; bool other; };   // other: a standard stream next to a named file

static bool fire(int kind, int64_t n, bool sticky)
{
    if (I->fault != kind) return false;
    if (sticky ? n < I->at : n != I->at) return false;
    S->fired++;
    return true;
}

static ssize_t cread(void *ck, char *buf, size_t n)
{
    Side *f = (Side *)ck;
    if (f->other) {             // what somebody typed
        size_t m = std::min<size_t>(n, f->in ? 3000 - std::min<int64_t>(f->pos, 3000) : 0);
        for (size_t i = 0; i < m; i++) buf[i] = f->pos++ * 37 + 11;
        return m;
    }
    int k = S->reads++;
    if (!f->in) { errno = EBADF; return -1; }
    if (fire(F_READ_EIO, k, true) || fire(F_READ_ONCE, k, false)) { errno = EIO; return -1; }
    size_t left = f->pos < (int64_t)I->in.size() ? I->in.size() - f->pos : 0;
    size_t m = std::min(n, left);
    if (m > 1 && I->split) m = 1 + R->below(R->chance(.5) ? std::min<size_t>(m, 7) : m);
    if (fire(F_STALL, k, true) && m > 1) m = 1;         // one byte at a time
    memcpy(buf, I->in.data() + f->pos, m); f->pos += m;
    return m;
}

static ssize_t cwrite(void *ck, const char *buf, size_t n)
{
    Side *f = (Side *)ck;
    if (f->other) return f->in ? 0 : n;
    int k = S->writes++;
    if (f->in) { errno = EBADF; return 0; }
    if (I->fault == F_KILL && k == I->at) {
        // torn write: part of it reaches the disk
        size_t m = R->below(n + 1);
        if (f->pos + (int64_t)m <= (int64_t)OUTCAP) memcpy(S->out + f->pos, buf, m);
        S->written = f->pos + m; S->killed = 1; S->fired++; _exit(0);
    }
    if (fire(F_WRITE_EIO, k, true) || fire(F_WRITE_ONCE, k, false)) { errno = EIO; return 0; }
    if (I->fault == F_ENOSPC && f->pos + (int64_t)n > I->at) {
        size_t m = I->at > f->pos ? I->at - f->pos : 0;
        S->fired++;
        if (m == 0) { errno = ENOSPC; return 0; }
        n = m; errno = ENOSPC;
    }
    for (size_t i = 0; i < n && f->pos + i < OUTCAP; i++) S->out[f->pos + i] = buf[i];
    f->pos += n; if (f->pos > S->written) S->written = f->pos;
    if (S->written > (int64_t)I->limit) { S->limit = 1; _exit(0); }
    return n;
}

static int cseek(void *ck, off64_t *off, int wh)
{
    Side *f = (Side *)ck;
    if (f->other) { errno = ESPIPE; return -1; }
    int k = S->seeks++;
    if (f->pipe) { errno = ESPIPE; return -1; }
    if (fire(F_SEEK, k, true)) { errno = EIO; return -1; }
    int64_t end = f->in ? (int64_t)I->in.size() : S->written;
    int64_t p = *off + (wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : end);
    if (p < 0) { errno = EINVAL; return -1; }
    f->pos = p; *off = p;
    return 0;
}

static int cclose(void *ck)
{
    Side *f = (Side *)ck;
    if (f->other) return 0;
    if (f->in) S->in_closes++;
    else { S->out_closes++; if (fire(F_CLOSE, 0, true)) { errno = EIO; return -1; } }
    return 0;
}

static ssize_t ewrite(void *, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) if (S->errlen < (int64_t)ERRCAP) S->err[S->errlen++] = b[i];
    return n;
}

static FILE *make(bool in, bool pipe, bool other = false)
{
    static Side pool[16]; static char bufs[16][9100]; static int np;
    if (np >= 16) _exit(96);
    Side *s = &pool[np]; *s = Side{ in, pipe, 0, other };
    FILE *f = fopencookie(s, in ? "r" : "w", { cread, cwrite, cseek, cclose });
    if (I->split) { size_t n = 1 + R->below(R->chance(.5) ? 64 : 9000); setvbuf(f, bufs[np], _IOFBF, n); }
    np++;
    return f;
}

Res run(sim::Ctx &x, const Inv &inv)
{
    if (!S) S = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(S, 0, offsetof(Shm, err));
    I = &inv;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) x.broken("fork");
    if (!p) {
        sim::Rng r(inv.seed); R = &r;
        std::vector<std::string> a = inv.args; std::vector<char *> av;
        for (auto &v : a) av.push_back((char *)v.c_str());
        av.push_back(nullptr);
        struct rlimit rl = { (rlim_t)inv.cpu_s, (rlim_t)inv.cpu_s + 2 };
        setrlimit(RLIMIT_CPU, &rl);
        auto named = [&](const char *n) { for (auto &v : inv.args) if (v == n) return true; return false; };
        stdin = make(true, inv.in_pipe, named("%in")); stdout = make(false, inv.out_pipe, named("%out"));
        stderr = fopencookie(nullptr, "w", { nullptr, ewrite, nullptr, nullptr }); setvbuf(stderr, nullptr, _IONBF, 0);
        in_tool = true;
        atexit([] { if (sim::alloc::failed()) S->fired++; S->allocs = sim::alloc::calls(); });
        if (sim::alloc::on()) sim::alloc::watch(true, inv.fault == F_ALLOC ? inv.at + 1 : 0);
        {   // what the stack held before
            volatile uint64_t z[4096]; uint64_t s = inv.seed;
            for (auto &v : z) v = sim::splitmix(s);
            __asm__ volatile("" : : "r"(z) : "memory");
        }
        errno = 0;
        int ret = inv.main((int)a.size(), av.data());
        exit(ret);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
    Res r;
    r.reads = S->reads; r.writes = S->writes; r.seeks = S->seeks; r.in_closes = S->in_closes; r.out_closes = S->out_closes;
    r.allocs = S->allocs; r.fired = S->fired; r.limit = S->limit; r.killed = S->killed; r.out_opened = S->out_opened;
    r.written = S->written;
    r.out.assign(S->out, S->out + std::min<int64_t>(S->written, OUTCAP));
    r.err.assign((char *)S->err, S->errlen);
    if (WIFSIGNALED(st)) {
        r.sig = WTERMSIG(st);
        if (r.sig == SIGXCPU) { r.hang = true; return r; }
        if (r.sig == SIGKILL) x.broken("the tool was killed from outside");
        signal(r.sig, SIG_DFL); raise(r.sig); _exit(98);
    }
    r.exit = WEXITSTATUS(st);
    if (r.exit == 77) _exit(77);            // sanitizer report on the shared descriptor
    return r;
}

}

extern "C" {
FILE *__real_fopen(const char *, const char *); int __real_clock_gettime(clockid_t, struct timespec *);
FILE *__wrap_fopen(const char *n, const char *m)
{
    using namespace tool;
    if (!in_tool) return __real_fopen(n, m);
    bool in = !strcmp(n, "%in"), out = !strcmp(n, "%out");
    if (in && m[0] == 'r') { if (fire(F_OPEN_IN, 0, true)) { errno = EACCES; return 0; } return make(true, I->in_pipe); }
    if (out && m[0] == 'w') { S->out_opened = 1; if (fire(F_OPEN_OUT, 0, true)) { errno = EROFS; return 0; } return make(false, I->out_pipe); }
    errno = ENOENT; return 0;
}
FILE *__wrap_fopen64(const char *n, const char *m) { return __wrap_fopen(n, m); }
static int64_t simclock()
{
    static int64_t us = 1700000000ll * 1000000;
    if (tool::I->clock_jumps && tool::R->chance(.5)) us += tool::R->range(-4000000000ll, 4000000000ll);
    return us += tool::R->below(5000);
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
    if (!tool::in_tool) return __real_clock_gettime(c, t);
    int64_t us = simclock(); t->tv_sec = us / 1000000; t->tv_nsec = us % 1000000 * 1000; return 0;
}
}
