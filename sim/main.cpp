// Driver: forks one child per simulated run, gates, minimises and replays.
#include "work.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <stdlib.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/file.h>
#include <time.h>
#include <unordered_set>
#include <set>
#include <regex>

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }
struct Out { int status; std::string cls, msg, where; uint64_t digest, hash, mpihash, steps, simtime, ops, switches, programhash; uint64_t probes[P_NPROBE], kinds[K_NKIND]; std::vector<ChoiceRec> ch; bool overflow; };
static double run_limit = 60;
static std::set<std::string> relevant;            // violation classes that break the property under test (empty: all)
static std::vector<std::pair<std::string, std::regex>> knowns; // documented findings: name, pattern over "class: message"
static const std::string *known_of(const Out & o) { std::string t = o.cls + ": " + o.msg; for (auto & k : knowns) if (std::regex_search(t, k.second)) return &k.first; return nullptr; }
static void reset_shared()
{
    size_t used = SH->nchoices; memset((void *) SH, 0, offsetof(Shared, choices)); (void) used;
}
static Out run_once(RunSpec rs, int vb = 0, bool wantch = false)
{
    reset_shared(); fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) signal(s, SIG_DFL);
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        bool far = rs.prm("far") != 0; rlim_t lim = far ? 1024ull << 30 : 24ull << 30; struct rlimit as = { lim, lim }; setrlimit(RLIMIT_AS, &as);
        if (far) flock(open("/proc/self/exe", O_RDONLY), LOCK_EX);       // one such run at a time: a wrong library may touch all of it
        alarm((unsigned) run_limit); verbose = vb; run_program(rs); _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Out o; o.status = SH->status; o.cls = SH->cls; o.msg = SH->msg; o.where = SH->where; o.digest = SH->digest; o.hash = SH->hash; o.mpihash = SH->mpihash; o.steps = SH->steps; o.simtime = SH->simtime; o.ops = SH->ops; o.switches = SH->switches; o.programhash = SH->programhash;
    memcpy(o.probes, SH->probes, sizeof o.probes); memcpy(o.kinds, SH->kinds, sizeof o.kinds); o.overflow = SH->choices_overflow;
    if (wantch) o.ch.assign(SH->choices, SH->choices + SH->nchoices);
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st); char b[100];
        if (sg == SIGALRM) { o.status = ST_INFRA; o.cls = "infra"; o.msg = "the run exceeded its wall-clock limit"; }
        else if (sg == SIGKILL) { o.status = ST_INFRA; o.cls = "infra"; o.msg = "the run was killed"; }
        else { o.status = ST_VIOLATION; o.cls = "crash"; snprintf(b, sizeof b, "the process died of signal %d (%s)", sg, strsignal(sg)); o.msg = b; }
    } else if (o.status == ST_RUNNING) { o.status = ST_INFRA; o.cls = "infra"; o.msg = "the child ended without a verdict"; }
    return o;
}

// ---------------------------------------------------------------------------------------- files
static std::string esc(const std::string & s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char) c < 32) o += ' '; else o += c; } return o; }
static void write_replay(const std::string & path, RunSpec & rs, const Out & o, uint64_t seed)
{
    FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(2); }
    fprintf(f, "# %s: %s\n", o.cls.c_str(), o.msg.c_str());
    fprintf(f, "# found with simulation seed %lu\n", (unsigned long) seed);
    fprintf(f, "expect %s\nhash %lu\nprop %s\nvariant %s\nchoiceseed %lu\ndisabled %u\nreplay %d\n", o.cls.c_str(), (unsigned long) o.hash, rs.prop.c_str(), rs.variant.c_str(), (unsigned long) rs.cm.seed, rs.cm.disabled, rs.cm.replay ? 1 : 0);
    for (auto & kv : rs.env) fprintf(f, "env %s %s\n", kv.first.c_str(), kv.second.c_str());
    for (auto & kv : rs.prm.m) fprintf(f, "prm %s %ld\n", kv.first.c_str(), kv.second);
    fprintf(f, "prog %d %d\n", rs.prog.npes, rs.prog.nthreads);
    for (auto & s : rs.prog.steps) fprintf(f, "step %s\n", s.text().c_str());
    std::vector<std::pair<uint32_t, uint32_t>> v(rs.cm.rec.begin(), rs.cm.rec.end()); std::sort(v.begin(), v.end());
    for (auto & c : v) fprintf(f, "choice %s %u %u\n", kind_name[c.first >> 26], c.first & 0x3ffffff, c.second);
    fclose(f);
}
static bool read_replay(const std::string & path, RunSpec & rs, std::string & expect, uint64_t & hash)
{
    FILE *f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); return false; }
    char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        std::string l(line); while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
        if (l.empty() || l[0] == '#') continue;
        size_t sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "expect") expect = v; else if (k == "hash") hash = strtoul(v.c_str(), nullptr, 10); else if (k == "prop") rs.prop = v; else if (k == "variant") rs.variant = v; else if (k == "choiceseed") rs.cm.seed = strtoul(v.c_str(), nullptr, 10); else if (k == "disabled") rs.cm.disabled = (uint32_t) strtoul(v.c_str(), nullptr, 10); else if (k == "replay") rs.cm.replay = atoi(v.c_str());
        else if (k == "env") { size_t q = v.find(' '); rs.env[v.substr(0, q)] = q == std::string::npos ? "" : v.substr(q + 1); }
        else if (k == "prm") { size_t q = v.find(' '); rs.prm.set(v.substr(0, q), atol(v.c_str() + q + 1)); }
        else if (k == "prog") sscanf(v.c_str(), "%d %d", &rs.prog.npes, &rs.prog.nthreads);
        else if (k == "step") { Step s; if (!Step::parse(v, s)) { fprintf(stderr, "bad step: %s\n", v.c_str()); return false; } rs.prog.steps.push_back(s); }
        else if (k == "choice") { char nm[40]; unsigned i, x; if (sscanf(v.c_str(), "%39s %u %u", nm, &i, &x) == 3) for (int q = 0; q < K_NKIND; q++) if (!strcmp(nm, kind_name[q])) rs.cm.rec[(uint32_t) q << 26 | i] = x; }
    }
    free(line); fclose(f); return true;
}

// ---------------------------------------------------------------------------------------- minimisation
static bool similar(const Out & a, const Out & b) { return a.status == ST_VIOLATION && a.cls == b.cls && !known_of(a); }
struct Mini {
    RunSpec best; Out ref; double until; long tries = 0;
    bool attempt(RunSpec c, int extra) {
        for (int i = 0; i <= extra; i++) {
            if (wall() > until) return false;
            RunSpec x = c; if (i) x.cm.seed = best.cm.seed * 31 + (uint64_t) i * 1000003;
            tries++; Out o = run_once(x); if (similar(o, ref)) { best = x; return true; }
        }
        return false;
    }
    void steps(int extra) {
        size_t n = best.prog.steps.size(), chunk = std::max<size_t>(n / 2, 1);
        while (chunk >= 1 && wall() < until) {
            bool any = false;
            for (size_t at = best.prog.steps.size(); at > 0 && wall() < until;) {
                size_t lo = at > chunk ? at - chunk : 0; RunSpec c = best; c.prog.steps.erase(c.prog.steps.begin() + (long) lo, c.prog.steps.begin() + (long) at);
                if (attempt(c, extra)) any = true;
                at = lo; if (at > best.prog.steps.size()) at = best.prog.steps.size();
            }
            if (chunk == 1 && !any) break;
            if (chunk == 1) continue;
            chunk /= 2;
        }
    }
    void go(double budget) {
        double t0 = wall(); until = t0 + budget * 0.55;
        steps(2);
        for (int n = 1; n < best.prog.npes; n++) { RunSpec c = best; c.prog.npes = n; if (c.prm("nodes") > n) c.prm.set("nodes", n); if (attempt(c, 2)) break; }
        if (best.prog.nthreads > 1) { RunSpec c = best; c.prog.nthreads = 1; attempt(c, 1); }
        until = t0 + budget * 0.75;
        // simpler shapes
        for (size_t i = 0; i < best.prog.steps.size(); i++) for (const char *k : { "n", "iters", "pre", "len", "small", "dep", "keep", "ns" }) if (best.prog.steps[i].g(k) > 1) { RunSpec c = best; c.prog.steps[i].a[k] = k[0] == 'p' || !strcmp(k, "len") ? 8 : 1; attempt(c, 0); }
        for (int k = 0; k < K_NKIND; k++) if (k != K_SCHED && !(best.cm.disabled >> k & 1)) { RunSpec c = best; c.cm.disabled |= 1u << k; attempt(c, 1); }
        for (const char *k : { "slowlink", "stall", "starve", "mapfail", "addrtaken", "torn", "latecomp", "latecapture", "spurious", "weak", "rendezvous", "zerocoll", "nonatomic", "mpihigher", "havecvar", "skew", "ticks", "netmode", "reuse" })
            if (best.prm(k)) { RunSpec c = best; c.prm.set(k, 0); attempt(c, 1); }
        { auto e = best.env; for (auto & kv : e) if (kv.first != "SHMEM_SYMMETRIC_SIZE") { RunSpec c = best; c.env.erase(kv.first); attempt(c, 0); } }
        until = t0 + budget * 0.82; steps(1);
        // fix the choices and shrink them
        until = t0 + budget;
        Out o = run_once(best, 0, true); if (!similar(o, ref) || o.overflow) return;
        RunSpec c = best; c.cm.replay = true; c.cm.rec.clear(); for (auto & x : o.ch) c.cm.rec[x.kind_idx] = x.val;
        if (!attempt(c, 0)) return;
        std::vector<std::pair<uint32_t, uint32_t>> v(best.cm.rec.begin(), best.cm.rec.end()); std::sort(v.begin(), v.end());
        size_t chunk = std::max<size_t>(v.size() / 2, 1);
        while (wall() < until && !v.empty()) {
            bool any = false;
            for (size_t at = 0; at < v.size() && wall() < until;) {
                std::vector<std::pair<uint32_t, uint32_t>> w(v.begin(), v.begin() + (long) at); if (at + chunk < v.size()) w.insert(w.end(), v.begin() + (long) (at + chunk), v.end());
                RunSpec d = best; d.cm.rec.clear(); for (auto & x : w) d.cm.rec[x.first] = x.second;
                if (attempt(d, 0)) { v = w; any = true; } else at += chunk;
            }
            if (chunk == 1 && !any) break;
            if (chunk > 1) chunk = (chunk + 1) / 2; 
        }
    }
};

int main(int argc, char **argv)
{
    if (argc < 2) { fprintf(stderr, "usage: simhost run|replay|show ...\n"); return 2; }
    if (!getenv("SIM_NOASLR")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long) p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
    }
    std::string mode = argv[1], dir, prop, variant, out, rdir = ".", file; uint64_t seed = 1, count = ~0ull, start = 0, stride = 1; double tlimit = 10, mini = 25; int vb = 0; bool digests = false; long twice = 40; std::string known;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--dir") dir = nx(); else if (a == "--prop") prop = nx(); else if (a == "--variant") variant = nx(); else if (a == "--seed") seed = strtoul(nx().c_str(), 0, 10); else if (a == "--count") count = strtoul(nx().c_str(), 0, 10); else if (a == "--start") start = strtoul(nx().c_str(), 0, 10); else if (a == "--stride") stride = strtoul(nx().c_str(), 0, 10);
        else if (a == "--time") tlimit = atof(nx().c_str()); else if (a == "--mini") mini = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replaydir") rdir = nx(); else if (a == "-v") vb++; else if (a == "--digests") digests = true; else if (a == "--twice") twice = atol(nx().c_str()); else if (a == "--limit") run_limit = atof(nx().c_str()); else if (a == "--classes") { std::string c = nx(); size_t q; while (!c.empty()) { q = c.find(','); relevant.insert(c.substr(0, q)); c = q == std::string::npos ? "" : c.substr(q + 1); } }
        else if (a == "--known") { std::string k = nx(); size_t q = k.find('='); knowns.push_back({ k.substr(0, q), std::regex(k.substr(q + 1)) }); } else file = a;
    }
    SH = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mem_init();
    if (mode == "replay") {
        RunSpec rs; std::string expect; uint64_t hash = 0; if (!read_replay(file, rs, expect, hash)) return 2;
        load_modules(dir + "/" + rs.variant); rs.cm.seed = rs.cm.seed;
        Out o = run_once(rs, vb);
        if (o.status == ST_OK) { printf("replay: the run completed without a violation (hash %lu, recorded %lu)\n", (unsigned long) o.hash, (unsigned long) hash); return 0; }
        printf("replay: %s: %s\n", o.cls.c_str(), o.msg.c_str());
        if (o.status == ST_INFRA || o.status == ST_CUT) return 3;
        if (o.cls == expect && o.hash == hash) { printf("replay: reproduced exactly (hash %lu)\n", (unsigned long) o.hash); return 1; }
        printf("replay: expected %s with hash %lu, got hash %lu\n", expect.c_str(), (unsigned long) hash, (unsigned long) o.hash);
        return o.cls == expect ? 4 : 5;
    }
    load_modules(dir + "/" + variant);
    if (mode == "show" || mode == "one") {
        RunSpec rs = generate(prop, seed, variant);
        if (mode == "show" || vb) {
            for (auto & kv : rs.env) printf("env %s %s\n", kv.first.c_str(), kv.second.c_str());
            for (auto & kv : rs.prm.m) printf("prm %s %ld\n", kv.first.c_str(), kv.second);
            printf("prog %d %d\n", rs.prog.npes, rs.prog.nthreads); for (auto & s : rs.prog.steps) printf("step %s\n", s.text().c_str());
        }
        if (mode == "show") return 0;
        Out o = run_once(rs, vb); printf("status %d cls %s msg %s where %s\nhash %lu steps %lu simtime %lu ops %lu digest %lu\n", o.status, o.cls.c_str(), o.msg.c_str(), o.where.c_str(), (unsigned long) o.hash, (unsigned long) o.steps, (unsigned long) o.simtime, (unsigned long) o.ops, (unsigned long) o.digest);
        return 0;
    }
    // mode run: seeds start, start+stride, ...
    double t0 = wall(); uint64_t runs = 0, infras = 0, twices = 0; uint64_t probes[P_NPROBE] = { 0 }, kinds[K_NKIND] = { 0 }, probe_runs[P_NPROBE] = { 0 }, simtime = 0, steps = 0, ops = 0, switches = 0; std::unordered_set<uint64_t> hashes, progs, full; std::string infra_msg; std::vector<std::string> samples, viols; std::string dig;
    std::map<std::string, int> classes, knownhits; std::vector<std::string> unrelated; uint64_t nunrelated = 0, cuts = 0; uint64_t nontrivial = 0; long maxviol = getenv("SIM_MAXVIOL") ? atol(getenv("SIM_MAXVIOL")) : 1;
    for (uint64_t k = 0; k < count && wall() - t0 < tlimit; k++) {
        uint64_t s = seed * 1000000007ull + start + k * stride; RunSpec rs = generate(prop, s, variant);
        Out o = run_once(rs); runs++;
        for (int i = 0; i < P_NPROBE; i++) { probes[i] += o.probes[i]; probe_runs[i] += o.probes[i] != 0; }
        for (int i = 0; i < K_NKIND; i++) kinds[i] += o.kinds[i];
        simtime += o.simtime; steps += o.steps; ops += o.ops; switches += o.switches; progs.insert(o.programhash); full.insert(o.hash); bool fresh = hashes.insert(o.mpihash).second; uint64_t nch = 0; for (int i = 0; i < K_NKIND; i++) nch += o.kinds[i]; if (fresh && nch > 3 && o.probes[P_CHECKS] > 0 && o.probes[P_OPS] > 3) nontrivial++;
        if (digests && o.status == ST_OK) dig += (dig.empty() ? "" : ",") + std::string("[") + std::to_string(s) + ",\"" + std::to_string(o.digest) + "\"]";
        if (samples.size() < 2 && o.status == ST_OK && rs.prog.steps.size() > 2 && rs.prog.steps.size() < 60) { std::string t = "seed " + std::to_string(s) + " variant " + variant + " npes " + std::to_string(rs.prog.npes) + " steps:"; for (size_t i = 0; i < rs.prog.steps.size() && i < 12; i++) t += " | " + rs.prog.steps[i].text(); samples.push_back(t); }
        if (o.status == ST_CUT) { cuts++; continue; }
        if (o.status == ST_INFRA) { infras++; infra_msg = "seed " + std::to_string(s) + ": " + o.msg; if (infras > 20) break; continue; }
        if (o.status == ST_OK && twice && runs % (uint64_t) twice == 0) { twices++; Out o2 = run_once(rs); if (o2.hash != o.hash || o2.status != o.status) { infras++; infra_msg = "seed " + std::to_string(s) + ": two executions differ"; } }
        if (o.status != ST_VIOLATION) continue;
        classes[o.cls]++;
        if (const std::string *k = known_of(o)) { knownhits[*k]++; continue; }
        if (!relevant.empty() && !relevant.count(o.cls)) { if (unrelated.size() < 5) unrelated.push_back("seed " + std::to_string(s) + " " + o.cls + ": " + o.msg); nunrelated++; continue; }
        if (maxviol > 1) { printf("%s %lu %s: %s\n", variant.c_str(), (unsigned long) s, o.cls.c_str(), o.msg.c_str()); fflush(stdout); if (--maxviol == 1) break; continue; }
        Out o2 = run_once(rs);
        if (o2.status != o.status || o2.hash != o.hash || o2.cls != o.cls) { infras++; infra_msg = "seed " + std::to_string(s) + ": violation " + o.cls + " did not repeat"; continue; }
        Mini m; m.best = rs; m.ref = o; m.go(mini);
        Out f = run_once(m.best); if (!similar(f, o)) { m.best = rs; f = o; }
        std::string path = rdir + "/" + prop + "-" + variant + "-" + std::to_string(s) + ".replay"; write_replay(path, m.best, f, s);
        viols.push_back("{\"seed\":" + std::to_string(s) + ",\"cls\":\"" + esc(f.cls) + "\",\"msg\":\"" + esc(f.msg) + "\",\"orig\":\"" + esc(o.msg) + "\",\"replay\":\"" + esc(path) + "\",\"steps\":" + std::to_string(m.best.prog.steps.size()) + ",\"choices\":" + std::to_string(m.best.cm.rec.size()) + ",\"tries\":" + std::to_string(m.tries) + "}");
        break;
    }
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"variant\":\"%s\",\"runs\":%lu,\"infra\":%lu,\"infra_msg\":\"%s\",\"twice\":%lu,\"wall\":%.2f,\"simtime_ns\":%lu,\"steps\":%lu,\"ops\":%lu,\"nontrivial\":%lu,\"distinct_programs\":%zu,\"distinct_histories\":%zu,\"distinct_schedules\":%zu,", variant.c_str(), (unsigned long) runs, (unsigned long) infras, esc(infra_msg).c_str(), (unsigned long) twices, wall() - t0, (unsigned long) simtime, (unsigned long) steps, (unsigned long) ops, (unsigned long) nontrivial, progs.size(), hashes.size(), full.size());
    fprintf(f, "\"probes\":{"); for (int i = 0; i < P_NPROBE; i++) fprintf(f, "%s\"%s\":%lu", i ? "," : "", probe_name[i], (unsigned long) probes[i]);
    fprintf(f, "},\"probe_runs\":{"); for (int i = 0; i < P_NPROBE; i++) fprintf(f, "%s\"%s\":%lu", i ? "," : "", probe_name[i], (unsigned long) probe_runs[i]);
    fprintf(f, "},\"choices\":{"); for (int i = 0; i < K_NKIND; i++) fprintf(f, "%s\"%s\":%lu", i ? "," : "", kind_name[i], (unsigned long) kinds[i]);
    fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    fprintf(f, "],\"cuts\":%lu,\"nunrelated\":%lu,\"unrelated\":[", (unsigned long) cuts, (unsigned long) nunrelated); for (size_t i = 0; i < unrelated.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(unrelated[i]).c_str());
    fprintf(f, "],\"known\":{"); { bool c = false; for (auto & k : knownhits) { fprintf(f, "%s\"%s\":%d", c ? "," : "", esc(k.first).c_str(), k.second); c = true; } }
    fprintf(f, "},\"digests\":[%s],\"violations\":[", dig.c_str()); for (size_t i = 0; i < viols.size(); i++) fprintf(f, "%s%s", i ? "," : "", viols[i].c_str());
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
    return 0;
}
