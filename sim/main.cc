// Simulation engine: runs scenarios in forked children (each starts from the
// pristine process image), several at a time, without letting the number of
// workers influence any result; gates and minimises failures.
#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>

using namespace sim;

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:symbolize=0:print_stats=0:"
           "print_legend=0:print_full_thread_history=0:handle_sigill=1:handle_abort=1";
}
extern "C" const char *__ubsan_default_options()
{
    return "print_stacktrace=0:halt_on_error=1:exitcode=77:symbolize=0";
}

namespace sim {

std::vector<Check> &registry() { static std::vector<Check> r; return r; }

std::string Scn::text() const
{
    std::string t = "lc3sim 1\ncheck " + check + "\nseed " + std::to_string(seed) + "\n";
    for (auto &c : cfg) t += "cfg " + c.first + " " + std::to_string(c.second) + "\n";
    for (auto &o : ops) {
        t += "op " + o.k;
        for (auto v : o.a) t += " " + std::to_string(v);
        t += "\n";
    }
    return t + "end\n";
}

bool Scn::parse(const std::string &txt, std::map<std::string, std::string> *meta)
{
    std::istringstream in(txt);
    std::string line;
    bool head = false, end = false;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w; l >> w;
        if (w == "lc3sim") head = true;
        else if (w == "check") l >> check;
        else if (w == "seed") l >> seed;
        else if (w == "cfg") { std::string k; int64_t v; l >> k >> v; cfg[k] = v; }
        else if (w == "op") {
            Op o; l >> o.k; int64_t v;
            while (l >> v) o.a.push_back(v);
            ops.push_back(o);
        }
        else if (w == "end") end = true;
        else if (w == "expect" && meta) {
            std::string k; l >> k; std::string v; std::getline(l, v);
            (*meta)[k] = v.size() ? v.substr(1) : v;
        }
    }
    return head && end;
}

void Ctx::count(const char *name, uint64_t n)
{
    for (uint32_t i = 0; i < s->ncnt; i++)
        if (!strncmp(s->cnt[i].name, name, 39)) { s->cnt[i].n += n; return; }
    if (s->ncnt < 160) {
        snprintf(s->cnt[s->ncnt].name, 40, "%s", name);
        s->cnt[s->ncnt++].n = n;
    }
}

void Ctx::fail(const char *cls, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    snprintf(s->cls, sizeof s->cls, "%s", cls);
    vsnprintf(s->msg, sizeof s->msg, fmt, ap);
    va_end(ap);
    s->status = ST_FAIL;
    s->hash = mix(s->hash, fnv(s->msg, strlen(s->msg)));
    _exit(0);
}

void Ctx::broken(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    snprintf(s->cls, sizeof s->cls, "harness");
    vsnprintf(s->msg, sizeof s->msg, fmt, ap);
    va_end(ap);
    s->status = ST_ERROR;
    _exit(0);
}

void Ctx::say(const char *fmt, ...)
{
    if (!trace) return;
    va_list ap; va_start(ap, fmt);
    printf("  [step %d] ", s->step);
    vprintf(fmt, ap);
    printf("\n");
    fflush(stdout);
    va_end(ap);
}

}

static const Check *find_check(const std::string &id)
{
    for (auto &c : registry()) if (id == c.id) return &c;
    return nullptr;
}

static double now()
{
    struct timeval tv; gettimeofday(&tv, 0);
    return tv.tv_sec + tv.tv_usec * 1e-6;
}

struct Runner {
    Slot *slots; int n;
    std::vector<int> errfd;
    explicit Runner(int n) : n(n)
    {
        slots = (Slot *)mmap(0, sizeof(Slot) * n, PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int i = 0; i < n; i++) errfd.push_back(memfd_create("err", MFD_CLOEXEC));
    }
    ~Runner() { munmap(slots, sizeof(Slot) * n); for (int f : errfd) close(f); }

    pid_t start(int i, const Check &c, const Scn *scn, uint64_t seed, int tier, bool trace)
    {
        Slot *s = slots + i;
        // only the used part is cleared
        s->status = s->step = s->nontrivial = 0; s->cls[0] = s->msg[0] = 0;
        s->hash = s->simtime_us = s->steps = 0; s->ncnt = s->nsig = 0;
        if (ftruncate(errfd[i], 0)) {}
        lseek(errfd[i], 0, SEEK_SET);
        fflush(stdout);
        pid_t p = fork();
        if (p) return p;
        if (!getenv("SIM_MEASURE")) dup2(errfd[i], 2);
        struct rlimit rl = { (rlim_t)c.cpu_limit_s, (rlim_t)c.cpu_limit_s + 5 };
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit nc = { 0, 0 };
        setrlimit(RLIMIT_CORE, &nc);
        Scn local;
        if (!scn) { local = c.gen(seed, tier); scn = &local; }
        Ctx ctx(s, *scn);
        ctx.trace = trace;
        ctx.ev(scn->hash());
        setup_turn = scn->seed;
        c.exec(*scn, ctx);
        s->status = ST_OK;
        _exit(0);
    }

    void finish(int i, int wst)
    {
        Slot *s = slots + i;
        if (s->status == ST_FAIL || s->status == ST_ERROR) return;
        if (s->status == ST_OK && WIFEXITED(wst) && WEXITSTATUS(wst) == 0) return;
        // died: hang, sanitizer report, or signal
        if (WIFSIGNALED(wst) && (WTERMSIG(wst) == SIGXCPU || WTERMSIG(wst) == SIGKILL)) {
            s->status = WTERMSIG(wst) == SIGXCPU ? ST_HANG : ST_ERROR;
            snprintf(s->cls, sizeof s->cls, "%s", s->status == ST_HANG ? "hang" : "killed");
            snprintf(s->msg, sizeof s->msg, "no progress within the CPU bound of one run");
            s->hash = mix(s->step, 0xdead);
            return;
        }
        std::string err;
        char b[4096]; ssize_t r;
        lseek(errfd[i], 0, SEEK_SET);
        while ((r = read(errfd[i], b, sizeof b)) > 0 && err.size() < 100000) err.append(b, r);
        s->status = ST_CRASH;
        size_t p;
        if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
            p += 25;
            std::string k = err.substr(p, err.find_first_of(" \n", p) - p);
            snprintf(s->cls, sizeof s->cls, "memory:%s", k.c_str());
            snprintf(s->msg, sizeof s->msg, "AddressSanitizer: %s", k.c_str());
        } else if ((p = err.find(": runtime error: ")) != std::string::npos) {
            size_t b0 = err.rfind('\n', p); b0 = b0 == std::string::npos ? 0 : b0 + 1;
            std::string loc = err.substr(b0, p - b0);
            std::string file = loc.substr(0, loc.find(':'));
            if (file.rfind('/') != std::string::npos) file = file.substr(file.rfind('/') + 1);
            std::string m = err.substr(p + 17, err.find('\n', p) - p - 17);
            snprintf(s->cls, sizeof s->cls, "ub:%s", file.c_str());
            snprintf(s->msg, sizeof s->msg, "%s: %s", loc.c_str(), m.c_str());
        } else if (WIFSIGNALED(wst)) {
            snprintf(s->cls, sizeof s->cls, "signal:%d", WTERMSIG(wst));
            snprintf(s->msg, sizeof s->msg, "killed by signal %d", WTERMSIG(wst));
        } else {
            snprintf(s->cls, sizeof s->cls, "exit:%d", WEXITSTATUS(wst));
            snprintf(s->msg, sizeof s->msg, "unexpected exit %d: %.300s", WEXITSTATUS(wst), err.c_str());
        }
        s->hash = mix(s->step, fnv(s->cls, strlen(s->cls)));
    }

    void run1(const Check &c, const Scn &scn, bool trace = false)
    {
        int st; pid_t p = start(0, c, &scn, 0, 0, trace);
        while (waitpid(p, &st, 0) < 0 && errno == EINTR);
        finish(0, st);
    }
};

static bool is_bad(int st) { return st == ST_FAIL || st == ST_CRASH || st == ST_HANG; }

static std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

// Shrink the operation list, then the arguments, keeping the violation class.
static Scn minimise(const Check &c, Scn scn, const std::string &cls,
                    int max_execs, double max_s, int *execs)
{
    Runner r(1);
    double t0 = now();
    int n = 0;
    auto fails = [&](const Scn &x) {
        if (n >= max_execs || now() - t0 > max_s) return false;
        n++;
        r.run1(c, x);
        return is_bad(r.slots[0].status) && cls == r.slots[0].cls;
    };
    // cut everything after the failing step
    r.run1(c, scn);
    if (is_bad(r.slots[0].status) && (size_t)r.slots[0].step + 1 < scn.ops.size()) {
        Scn x = scn; x.ops.resize(r.slots[0].step + 1);
        if (fails(x)) scn = x;
    }
    for (size_t chunk = std::max<size_t>(1, scn.ops.size() / 2); ; ) {
        bool any = false;
        for (size_t i = 0; i < scn.ops.size(); ) {
            Scn x = scn;
            size_t e = std::min(i + chunk, x.ops.size());
            x.ops.erase(x.ops.begin() + i, x.ops.begin() + e);
            if (fails(x)) { scn = x; any = true; } else i += chunk;
        }
        if (n >= max_execs || now() - t0 > max_s) break;
        if (chunk == 1 && !any) break;
        if (chunk > 1) chunk = (chunk + 1) / 2;
    }
    for (size_t i = 0; i < scn.ops.size(); i++)
        for (size_t j = 0; j < scn.ops[i].a.size(); j++) {
            int64_t v = scn.ops[i].a[j];
            for (int64_t w : { (int64_t)0, (int64_t)1, v / 2 }) {
                if (w == v || (v < w)) continue;
                Scn x = scn; x.ops[i].a[j] = w;
                if (fails(x)) { scn = x; break; }
            }
        }
    *execs = n;
    return scn;
}

static std::string slurp(const char *path)
{
    std::ifstream f(path); std::stringstream b; b << f.rdbuf(); return b.str();
}

static int cmd_run(int argc, char **argv)
{
    std::string id, out, rdir = ".", ignore;
    uint64_t seed = 1; int runs = 100, jobs = 8, tier = 0, dup = 16, stop = 1, base = 0, mini = 1;
    double wall = 1e9;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i]; const char *v = argv[i + 1];
        if (k == "--check") id = v; else if (k == "--seed") seed = strtoull(v, 0, 10);
        else if (k == "--runs") runs = atoi(v); else if (k == "--jobs") jobs = atoi(v);
        else if (k == "--tier") tier = atoi(v); else if (k == "--out") out = v;
        else if (k == "--replays") rdir = v; else if (k == "--wall") wall = atof(v);
        else if (k == "--dup") dup = atoi(v); else if (k == "--stop") stop = atoi(v);
        else if (k == "--base") base = atoi(v);
        else if (k == "--min") mini = atoi(v);
        else if (k == "--ignore") ignore = std::string(",") + v + ",";
    }
    const Check *c = find_check(id);
    if (!c) { fprintf(stderr, "no check %s\n", id.c_str()); return 2; }

    Runner R(jobs);
    std::map<std::string, uint64_t> cnt;
    std::unordered_set<uint64_t> sigs, scns;
    std::map<int, uint64_t> hashes;            // first execution of each run
    uint64_t simtime = 0, steps = 0, nontrivial = 0, allhash = 0, execs = 0;
    int bad_index = -1, errors = 0, dups = 0, dup_bad = 0;
    std::string error_msg;
    std::map<std::string, int> bad_classes;
    double t0 = now();

    // Work list: run i, and every `dup`-th run a second time (determinism)
    struct Job { int run; bool second; };
    std::vector<Job> work;
    for (int i = 0; i < runs; i++) {
        work.push_back({ i, false });
        if (dup && i % dup == 0) work.push_back({ i, true });
    }
    std::vector<Job> cur(jobs, { -1, false });
    std::vector<pid_t> pid(jobs, 0);
    size_t next = 0; int live = 0, done_runs = 0;
    bool wall_hit = false;
    auto seed_of = [&](int run) { return mix(mix(seed, fnv(id.data(), id.size())), base + run); };
    for (;;) {
        if (now() - t0 > wall && next < work.size()) { wall_hit = true; next = work.size(); }
        for (int i = 0; i < jobs && next < work.size(); i++) {
            if (pid[i]) continue;
            // runs beyond a known failure are not needed
            while (next < work.size() && stop && bad_index >= 0 && work[next].run > bad_index) next++;
            if (next >= work.size()) break;
            cur[i] = work[next++];
            pid[i] = R.start(i, *c, nullptr, seed_of(cur[i].run), tier, false);
            live++;
        }
        if (!live) break;
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (int i = 0; i < jobs; i++) {
            if (pid[i] != p) continue;
            pid[i] = 0; live--; execs++;
            R.finish(i, st);
            Slot &s = R.slots[i];
            int run = cur[i].run;
            if (s.status == ST_ERROR) {
                errors++;
                if (error_msg.empty())
                    error_msg = std::string(s.cls) + ": " + s.msg + " (run " + std::to_string(run) + ")";
                break;
            }
            if (is_bad(s.status) && ignore.size() && ignore.find(std::string(",") + s.cls + ",") != std::string::npos) {
                cnt["known-finding"]++;
                break;
            }
            if (is_bad(s.status)) {
                bad_classes[s.cls]++;
                if (bad_index < 0 || run < bad_index) bad_index = run;
                break;
            }
            uint64_t h = s.hash;
            if (hashes.count(run)) {
                dups++;
                if (hashes[run] != h) dup_bad++;
                break;
            }
            hashes[run] = h;
            done_runs++;
            simtime += s.simtime_us; steps += s.steps;
            for (uint32_t k = 0; k < s.ncnt; k++) cnt[s.cnt[k].name] += s.cnt[k].n;
            for (uint32_t k = 0; k < s.nsig; k++) sigs.insert(s.sigs[k]);
            uint64_t sh = c->gen(seed_of(run), tier).hash();
            if (scns.insert(sh).second && s.nontrivial) nontrivial++;
            break;
        }
    }
    double wall_s = now() - t0;
    // order-independent digest of all runs: same for any number of workers
    for (auto &h : hashes) allhash += mix(h.first, h.second);

    std::ostringstream js;
    js << "{\n\"check\":\"" << id << "\",\"seed\":" << seed << ",\"runs\":" << done_runs
       << ",\"planned\":" << runs << ",\"executions\":" << execs << ",\"wall_s\":" << wall_s
       << ",\"wall_hit\":" << (wall_hit ? "true" : "false")
       << ",\"simtime_s\":" << simtime * 1e-6 << ",\"steps\":" << steps
       << ",\"nontrivial\":" << nontrivial << ",\"distinct_scenarios\":" << scns.size()
       << ",\"distinct_states\":" << sigs.size() << ",\"digest\":\"" << std::hex << allhash << std::dec
       << "\",\"dups\":" << dups << ",\"dup_mismatch\":" << dup_bad
       << ",\"errors\":" << errors << ",\"error_msg\":\"" << jesc(error_msg) << "\"";
    js << ",\n\"counts\":{";
    bool first = true;
    for (auto &k : cnt) { js << (first ? "" : ",") << "\"" << k.first << "\":" << k.second; first = false; }
    js << "},\n\"samples\":[";
    first = true;
    for (int i = 0; i < std::min(runs, 3); i++) {
        Scn s = c->gen(seed_of(i), tier);
        if (s.ops.size() > 24) s.ops.resize(24);
        js << (first ? "" : ",") << "\"" << jesc(s.text()) << "\""; first = false;
    }
    js << "]";

    if (bad_index >= 0) {
        Scn s = c->gen(seed_of(bad_index), tier);
        // Gate 1: the same run, twice
        Runner g(1);
        g.run1(*c, s);
        std::string cls = g.slots[0].cls, msg = g.slots[0].msg;
        int st1 = g.slots[0].status, step1 = g.slots[0].step;
        uint64_t h1 = g.slots[0].hash;
        g.run1(*c, s);
        bool same = is_bad(st1) && is_bad(g.slots[0].status)
                 && cls == g.slots[0].cls && h1 == g.slots[0].hash;
        bool sameclass = is_bad(st1) && is_bad(g.slots[0].status) && cls == g.slots[0].cls;
        int mexecs = 0;
        Scn m = s;
        if (sameclass && mini) m = minimise(*c, s, cls, c->cpu_limit_s > 20 ? 150 : 400, 100, &mexecs);
        g.run1(*c, m);
        if (!is_bad(g.slots[0].status) || cls != g.slots[0].cls) { m = s; g.run1(*c, m); }
        char path[600];
        snprintf(path, sizeof path, "%s/%s-%llu-%d.scn", rdir.c_str(), id.c_str(),
                 (unsigned long long)seed, base + bad_index);
        std::ofstream f(path);
        f << "# violation of " << id << ": " << g.slots[0].cls << ": " << g.slots[0].msg << "\n";
        f << m.text();
        f << "expect class " << g.slots[0].cls << "\n";
        f << "expect step " << g.slots[0].step << "\n";
        f << "expect hash " << g.slots[0].hash << "\n";
        f.close();
        js << ",\n\"violation\":{\"run\":" << base + bad_index << ",\"class\":\"" << jesc(g.slots[0].cls)
           << "\",\"msg\":\"" << jesc(g.slots[0].msg) << "\",\"step\":" << step1
           << ",\"same_twice\":" << (same ? "true" : "false")
           << ",\"same_class\":" << (sameclass ? "true" : "false")
           << ",\"ops_before\":" << s.ops.size() << ",\"ops_after\":" << m.ops.size()
           << ",\"min_execs\":" << mexecs << ",\"replay\":\"" << jesc(path) << "\",\"classes\":{";
        first = true;
        for (auto &k : bad_classes) { js << (first ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; first = false; }
        js << "}}";
    }
    js << "\n}\n";
    if (out.size()) { std::ofstream f(out); f << js.str(); }
    else fputs(js.str().c_str(), stdout);
    return 0;
}

// Exit 0: the violation of the file is reproduced exactly; 3: same class, other
// details; 1: not reproduced.  `--trace` prints the steps.
static int cmd_replay(int argc, char **argv)
{
    bool trace = argc > 3 && !strcmp(argv[3], "--trace");
    Scn s; std::map<std::string, std::string> meta;
    if (argc < 3 || !s.parse(slurp(argv[2]), &meta)) { fprintf(stderr, "bad replay file\n"); return 2; }
    const Check *c = find_check(s.check);
    if (!c) { fprintf(stderr, "no check %s\n", s.check.c_str()); return 2; }
    Runner r(1);
    r.run1(*c, s, trace);
    Slot &o = r.slots[0];
    static const char *names[] = { "none", "ok", "violation", "crash", "hang", "harness-error" };
    printf("%s step %d class %s: %s\nhash %llu\n", names[o.status], o.step, o.cls, o.msg,
           (unsigned long long)o.hash);
    if (trace) for (uint32_t i = 0; i < o.ncnt; i++) printf("  %s %llu\n", o.cnt[i].name, (unsigned long long)o.cnt[i].n);
    if (!is_bad(o.status)) return o.status == ST_OK ? 1 : 2;
    bool cls = meta["class"] == o.cls;
    bool exact = cls && meta["hash"] == std::to_string(o.hash) && meta["step"] == std::to_string(o.step);
    return exact ? 0 : cls ? 3 : 1;
}

// Other program: resumes a context of another process (c_ctx.cc)
__attribute__((weak)) int remote_main() { return 2; }

// What has to be ready before the first fork (c_py.cc)
__attribute__((weak)) void preload() {}

int main(int argc, char **argv)
{
    // One address-space layout and one environment for every execution
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("LC3SIM_CHILD")) {
        personality(pers | ADDR_NO_RANDOMIZE);
        char *env[] = { getenv("SIM_MEASURE") ? (char *)"SIM_MEASURE=1" : (char *)"SIM_X=1", (char *)"LC3SIM_CHILD=1", (char *)"PATH=/usr/bin:/bin", (char *)"LANG=C", 0 };
        execve("/proc/self/exe", argv, env);
    }
    setvbuf(stdout, 0, _IOLBF, 0);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "remote") return remote_main();
    if (cmd == "run" || cmd == "replay") preload();
    if (cmd == "run") return cmd_run(argc, argv);
    if (cmd == "replay") return cmd_replay(argc, argv);
    if (cmd == "gen") {
        const Check *c = find_check(argv[2]);
        if (!c) return 2;
        fputs(c->gen(strtoull(argv[3], 0, 10), 0).text().c_str(), stdout);
        return 0;
    }
    if (cmd == "list") { for (auto &c : registry()) puts(c.id); return 0; }
    fprintf(stderr, "usage: sim run|replay|gen|list ...\n");
    return 2;
}
