#include "engine.h"
#include "lib.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unordered_set>
#include <algorithm>

using std::string; using std::vector;

std::vector<Prop> &props() { static std::vector<Prop> p; return p; }

static string vstrf(const char *fmt, va_list ap)
{
    va_list a2; va_copy(a2, ap);
    int n = vsnprintf(nullptr, 0, fmt, a2); va_end(a2);
    string s((size_t)n + 1, 0);
    vsnprintf(&s[0], (size_t)n + 1, fmt, ap);
    s.resize((size_t)n);
    return s;
}
string strf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); string s = vstrf(fmt, ap); va_end(ap); return s; }
void failf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); string s = vstrf(fmt, ap); va_end(ap); throw Fail{s}; }
void harnessf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); string s = vstrf(fmt, ap); va_end(ap); throw HarnessError{s}; }

uint64_t mix64(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
uint64_t hashBytes(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = (const unsigned char *)p;
    h = mix64(h ^ n);
    while(n >= 8) { uint64_t v; memcpy(&v, c, 8); h = mix64(h ^ v) + 0x9e3779b97f4a7c15ull; c += 8; n -= 8; }
    uint64_t v = 0; memcpy(&v, c, n);
    return mix64(h ^ v);
}
string hexs(const void *p, size_t n, size_t limit)
{
    static const char d[] = "0123456789abcdef";
    string s; const unsigned char *c = (const unsigned char *)p;
    for(size_t i = 0; i < n && i < limit; i++) { s += d[c[i] >> 4]; s += d[c[i] & 15]; }
    if(n > limit) s += strf("...(%zu bytes)", n);
    return s;
}

uint8_t Src::byte()
{
    uint8_t b;
    if(random)
        b = (recLen < recCap || !rec) ? (uint8_t)(rng.next() >> 56) : 0;
    else
        b = pos < n ? in[pos] : 0;
    pos++;
    if(rec && random && recLen < recCap) { rec[recLen++] = b; if(recLenOut) *recLenOut = recLen; }
    return b;
}
uint64_t Src::raw(int bytes) { uint64_t v = 0; for(int i = 0; i < bytes; i++) v = v << 8 | byte(); return v; }
uint64_t Src::below(uint64_t k)
{
    if(k <= 1) return 0;
    if(k <= 0x100) return raw(1) % k;
    if(k <= 0x10000) return raw(2) % k;
    if(k <= 0x1000000) return raw(3) % k;
    return raw(k <= 0x100000000ull ? 4 : 8) % k;
}

// ---------------------------------------------------------------- workers

static const size_t REC_CAP = 1 << 18;

struct Slot
{
    volatile uint64_t index; volatile int fixedCase;
    volatile uint64_t started;        // cases started, for the watchdog
    volatile int failed; volatile int done; volatile int harness; volatile int stop;
    char msg[8192];
    size_t len; uint8_t rec[REC_CAP];
};

struct Options { uint64_t seed = 1; bool thorough = false; int workers = 8; string evidence, replayDir, scratch, replay; double scale = 1; uint64_t cases = 0; bool quiet = false; };
static Options opt;
static const Prop *P;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void armCpu(int seconds)
{
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = seconds; setitimer(ITIMER_PROF, &it, nullptr);
}

static void rmrf(const string &dir)
{
    DIR *d = opendir(dir.c_str()); if(!d) return;
    while(struct dirent *e = readdir(d))
    {
        if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        string p = dir + "/" + e->d_name; struct stat st;
        if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str());
    }
    closedir(d); rmdir(dir.c_str());
}

static const uint8_t GIANT_MAGIC[4] = { 0xb1, 0x6b, 0x16, 0x5a };
static vector<uint8_t> giantCase(unsigned k, unsigned variant)
{
    vector<uint8_t> v(GIANT_MAGIC, GIANT_MAGIC + 4); v.push_back((uint8_t)k);
    Rng r{ mix64(opt.seed * 1000 + k * 10 + variant) }; for(int i = 0; i < 600; i++) v.push_back((uint8_t)r.next());
    return v;
}
// Runs one case; returns true if it passed. Fills msg on failure.
static bool runCase(Src &s, Ctx &c, string &msg, bool &harness)
{
    harness = false;
    libReset();
    bool ok = true;
    if(s.in && !c.fuzzing && s.n >= 5 && !memcmp(s.in, GIANT_MAGIC, 4)) { c.giant = s.in[4] % GIANTS + 1; s.pos = 5; armCpu(P->cpuLimit * 3); }
    try { P->fn(s, c); }
    catch(const Fail &f) { ok = false; msg = f.msg; }
    catch(const HarnessError &e) { ok = false; harness = true; msg = e.msg; }
    libCleanup();
    return ok;
}

static uint64_t propHash() { return hashBytes(P->id, strlen(P->id)); }

struct WorkerResult { uint64_t evals = 0, sub = 0, nontriv = 0, fuzzExecs = 0; std::map<string, uint64_t> labels; vector<string> samples; std::unordered_set<uint64_t> hashes; };

static vector<vector<uint8_t>> fixedCases;

static const char *slowCases = getenv("VP_SLOW"); // file that collects the slow cases
static void runWorkerCases(int w, int W, uint64_t N, Slot *slot, WorkerResult &r, uint64_t stopAfter)
{
    uint64_t F = fixedCases.size();
    uint64_t done = 0;
    string scratch = opt.scratch + strf("/w%d", w);
    mkdir(scratch.c_str(), 0755);
    for(uint64_t i = (uint64_t)w; i < F + N; i += (uint64_t)W)
    {
        Src s; Ctx c;
        c.labels = &r.labels; c.thorough = opt.thorough; c.worker = w; c.scratch = scratch;
        slot->index = i; slot->fixedCase = i < F; slot->started = slot->started + 1; slot->len = 0;
        if(i < F)
        {
            const auto &v = fixedCases[i];
            size_t n = std::min(v.size(), REC_CAP);
            memcpy(slot->rec, v.data(), n); slot->len = n;
            s.in = v.data(); s.n = v.size();
        }
        else
        {
            s.random = true; s.rng.s = mix64(opt.seed * 0x9e3779b97f4a7c15ull ^ propHash()) ^ mix64(i - F + 0x1234567);
            s.rec = slot->rec; s.recCap = REC_CAP; s.recLenOut = &slot->len;
        }
        armCpu(P->cpuLimit);
        string msg; bool harness; double t0 = slowCases ? now() : 0;
        bool ok = runCase(s, c, msg, harness);
        if(slowCases && now() - t0 > 1.5) if(FILE *f = fopen(slowCases, "a")) { fprintf(f, "%s case %llu (giant %d) took %.1f s\n", P->id, (unsigned long long)i, i < F && s.n > 4 ? s.in[4] : -1, now() - t0); fclose(f); }
        if(!ok)
        {
            snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
            slot->harness = harness; slot->failed = 1;
            return;
        }
        r.evals++; r.sub += c.subEvals;
        if(c.nontrivial)
        {
            r.nontriv++;
            bool fresh = r.hashes.insert(c.hash).second;
            if(fresh && !c.desc.empty() && r.samples.size() < 3 && r.hashes.size() % 7 == 3) r.samples.push_back(c.desc);
        }
        if((stopAfter && ++done >= stopAfter) || slot->stop) return;
    }
    armCpu(0);
}

static void wr(FILE *f, const string &s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
static string rd(FILE *f) { uint64_t n; if(fread(&n, 8, 1, f) != 1) return ""; string s(n, 0); if(n && fread(&s[0], 1, n, f) != n) return ""; return s; }

static void saveResult(const string &path, const WorkerResult &r)
{
    FILE *f = fopen(path.c_str(), "wb"); if(!f) _exit(2);
    uint64_t v[6] = { r.evals, r.sub, r.nontriv, r.labels.size(), r.samples.size(), r.hashes.size() };
    fwrite(v, sizeof v, 1, f);
    for(auto &l : r.labels) { wr(f, l.first); fwrite(&l.second, 8, 1, f); }
    for(auto &s : r.samples) wr(f, s);
    for(auto h : r.hashes) fwrite(&h, 8, 1, f);
    fwrite(&r.fuzzExecs, 8, 1, f);
    fclose(f);
}
static bool loadResult(const string &path, WorkerResult &r)
{
    FILE *f = fopen(path.c_str(), "rb"); if(!f) return false;
    uint64_t v[6]; if(fread(v, sizeof v, 1, f) != 1) { fclose(f); return false; }
    r.evals += v[0]; r.sub += v[1]; r.nontriv += v[2];
    for(uint64_t i = 0; i < v[3]; i++) { string k = rd(f); uint64_t x = 0; if(fread(&x, 8, 1, f) != 1) break; r.labels[k] += x; }
    for(uint64_t i = 0; i < v[4]; i++) r.samples.push_back(rd(f));
    for(uint64_t i = 0; i < v[5]; i++) { uint64_t h; if(fread(&h, 8, 1, f) != 1) break; r.hashes.insert(h); }
    uint64_t fx = 0; if(fread(&fx, 8, 1, f) == 1) r.fuzzExecs += fx;
    fclose(f);
    return true;
}

static string tailOfFile(const string &path, size_t max = 3000)
{
    FILE *f = fopen(path.c_str(), "rb"); if(!f) return "";
    string s; char b[4096]; size_t n;
    while((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 200000) s.append(b, n);
    fclose(f);
    size_t p = s.find("ERROR: AddressSanitizer"); if(p == string::npos) p = s.find("runtime error:");
    if(p != string::npos) { while(p > 0 && s[p - 1] != '\n') p--; s = s.substr(p); }
    if(s.size() > max) s.resize(max);
    return s;
}

static string describeExit(int st, const string &errPath)
{
    string d;
    if(WIFSIGNALED(st))
    {
        int sg = WTERMSIG(st);
        if(sg == SIGPROF) d = strf("hang: no result after %d s of CPU time", P->cpuLimit);
        else d = strf("killed by signal %d (%s)", sg, strsignal(sg));
    }
    else d = strf("exit status %d", WEXITSTATUS(st));
    string t = tailOfFile(errPath);
    if(!t.empty()) d += "\n" + t;
    return d;
}

static void childSetup(const string &errPath)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_IGN);
    int fd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if(fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_WRONLY);
    if(fd >= 0) { dup2(fd, 1); close(fd); }
    fd = open("/dev/null", O_RDONLY);
    if(fd >= 0) { dup2(fd, 0); close(fd); }
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
}

// Waits for pid, killing it if it makes no progress for wallLimit seconds.
static int waitLimited(pid_t pid, double wallLimit, bool &blocked)
{
    blocked = false; double t0 = now(); int st; useconds_t d = 200;
    for(;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) return st;
        if(r < 0) return 0;
        if(now() - t0 > wallLimit) { blocked = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); return st; }
        usleep(d); if(d < 20000) d = d * 3 / 2;
    }
}

static Slot *tslot;     // shared slot for trials

// One trial in a forked child: 0 pass, 1 property failure, 2 harness error
static int trialOnce(const vector<uint8_t> &bytes, string &msg)
{
    string err = opt.scratch + "/trial.err";
    tslot->failed = 0; tslot->done = 0; tslot->harness = 0; tslot->msg[0] = 0;
    pid_t pid = fork();
    if(pid == 0)
    {
        childSetup(err);
        string scratch = opt.scratch + "/t"; mkdir(scratch.c_str(), 0755);
        Src s; s.in = bytes.data(); s.n = bytes.size(); Ctx c; c.thorough = opt.thorough; c.again = true; c.scratch = scratch;
        std::map<string, uint64_t> labels; c.labels = &labels;
        armCpu(P->cpuLimit);
        string m; bool h;
        if(!runCase(s, c, m, h)) { snprintf(tslot->msg, sizeof tslot->msg, "%s", m.c_str()); tslot->harness = h; tslot->failed = 1; }
        else tslot->done = 1;
        _exit(0);
    }
    bool blocked; int st = waitLimited(pid, P->cpuLimit * 4 + 40, blocked);
    rmrf(opt.scratch + "/t");
    if(blocked) { msg = "blocked: no result although no CPU time is used"; return 1; }
    if(tslot->failed) { msg = (const char *)tslot->msg; return tslot->harness ? 2 : 1; }
    if(tslot->done) return 0;
    msg = describeExit(st, err);
    return 1;
}

static int trial(const vector<uint8_t> &bytes, string &msg)
{
    int r = 0; for(int i = 0; i < (P->schedules ? 4 : 1) && r == 0; i++) r = trialOnce(bytes, msg);
    return r;
}

// Replays the prefix of a worker's sequence ending in case 'upto'.
static int trialRange(int w, uint64_t N, uint64_t upto, string &msg)
{
    string err = opt.scratch + "/trial.err";
    tslot->failed = tslot->done = tslot->harness = 0; tslot->started = 0;
    uint64_t stop = (upto - (uint64_t)w) / (uint64_t)opt.workers + 1;
    pid_t pid = fork();
    if(pid == 0)
    {
        childSetup(err);
        WorkerResult r; runWorkerCases(w, opt.workers, N, tslot, r, stop);
        if(!tslot->failed) tslot->done = 1;
        _exit(0);
    }
    bool blocked; int st = waitLimited(pid, 800, blocked);
    if(tslot->failed) { msg = (const char *)tslot->msg; return tslot->harness ? 2 : 1; }
    if(tslot->done) return 0;
    msg = describeExit(st, err);
    return 1;
}

static vector<uint8_t> shrink(vector<uint8_t> cur, string &msg)
{
    double t0 = now(); int trials = 0;
    auto good = [&](const vector<uint8_t> &v) {
        if(now() - t0 > 90 || trials > 6000) return false;
        trials++; string m; if((P->schedules ? trialOnce(v, m) : trial(v, m)) == 1) { msg = m; return true; } return false; };
    // drop trailing part
    bool progress = true;
    while(progress && now() - t0 < 90)
    {
        progress = false;
        while(!cur.empty() && cur.back() == 0) { vector<uint8_t> v(cur.begin(), cur.end() - 1); if(good(v)) { cur = v; } else break; }
        for(size_t len = cur.size() / 2; len > 0; len /= 2) { if(len >= cur.size()) continue; vector<uint8_t> v(cur.begin(), cur.begin() + (long)len); if(good(v)) { cur = v; progress = true; } else break; }
        for(size_t blk = std::min<size_t>(cur.size(), 256); blk > 0; blk /= 2)
            for(size_t i = 0; i + blk <= cur.size();)
            {
                vector<uint8_t> v(cur); v.erase(v.begin() + (long)i, v.begin() + (long)(i + blk));
                if(good(v)) { cur = v; progress = true; } else i += blk;
                if(now() - t0 > 90) break;
            }
        for(size_t blk = 8; blk > 0; blk /= 2)
            for(size_t i = 0; i + blk <= cur.size(); i += blk)
            {
                bool z = true; for(size_t j = 0; j < blk; j++) if(cur[i + j]) z = false;
                if(z) continue;
                vector<uint8_t> v(cur); for(size_t j = 0; j < blk; j++) v[i + j] = 0;
                if(good(v)) { cur = v; progress = true; }
            }
        for(size_t i = 0; i < cur.size(); i++)
        {
            for(int step : { 128, 64, 32, 16, 8, 4, 2, 1 })
                while(cur[i] >= step) { vector<uint8_t> v(cur); v[i] = (uint8_t)(v[i] - step); if(good(v)) { cur = v; progress = true; } else break; }
        }
    }
    return cur;
}

static string jsonEsc(const string &s)
{
    string o = "\"";
    for(unsigned char c : s)
    {
        if(c == '"') o += "\\\""; else if(c == '\\') o += "\\\\"; else if(c == '\n') o += "\\n"; else if(c == '\t') o += "\\t";
        else if(c < 0x20 || c >= 0x7f) o += strf("\\u%04x", c); else o += (char)c;
    }
    return o + "\"";
}

static void writeReplay(const string &path, const vector<uint8_t> &bytes, const string &msg, int w, uint64_t index, uint64_t N, bool range)
{
    FILE *f = fopen(path.c_str(), "w"); if(!f) return;
    fprintf(f, "{\n \"property\": %s,\n \"kind\": \"%s\",\n", jsonEsc(P->id).c_str(), range ? "range" : "case");
    fprintf(f, " \"seed\": %llu,\n \"tier\": \"%s\",\n \"worker\": %d,\n \"workers\": %d,\n \"index\": %llu,\n \"cases\": %llu,\n", (unsigned long long)opt.seed, opt.thorough ? "thorough" : "quick", w, opt.workers, (unsigned long long)index, (unsigned long long)N);
    fprintf(f, " \"choices\": \"%s\",\n \"message\": %s\n}\n", hexs(bytes.data(), bytes.size(), bytes.size()).c_str(), jsonEsc(msg).c_str());
    fclose(f);
}

static string jsonGet(const string &j, const char *key)
{
    string k = string("\"") + key + "\":"; size_t p = j.find(k); if(p == string::npos) return "";
    p += k.size(); while(p < j.size() && j[p] == ' ') p++;
    size_t e; if(j[p] == '"') { p++; e = j.find('"', p); } else e = j.find_first_of(",\n", p);
    return j.substr(p, e - p);
}

// ---------------------------------------------------------------- coverage-guided stage (thorough tier)

#ifdef WITH_LIBFUZZER
extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv, int (*cb)(const uint8_t *, size_t));
static Slot *fslot; static WorkerResult *fres; static string fscratch; static string fresPath;
static int fuzzOne(const uint8_t *d, size_t n)
{
    if(n > REC_CAP) return -1;
    fslot->started = fslot->started + 1; memcpy(fslot->rec, d, n); fslot->len = n;
    Src s; s.in = d; s.n = n; Ctx c; c.labels = &fres->labels; c.thorough = true; c.fuzzing = true; c.scratch = fscratch;
    armCpu(P->cpuLimit);
    string msg; bool h;
    if(!runCase(s, c, msg, h)) { snprintf(fslot->msg, sizeof fslot->msg, "%s", msg.c_str()); fslot->harness = h; fslot->failed = 1; _exit(77); }
    fres->fuzzExecs++; fres->sub += c.subEvals;
    if(c.nontrivial) { fres->nontriv++; if(fres->hashes.size() < 400000) fres->hashes.insert(c.hash); }
    return 0;
}
static void fuzzExit() { if(!fslot->failed) { saveResult(fresPath, *fres); fslot->done = 1; } _exit(0); }
#endif

struct Failure { bool any = false; vector<uint8_t> bytes; string msg; int w = 0; uint64_t index = 0; bool harness = false; bool fixedCase = false; bool fuzz = false; };

static int report(Failure &fl, uint64_t N)
{
    mkdir(opt.replayDir.c_str(), 0755);
    printf("failing case found (worker %d, case %llu): %s\n", fl.w, (unsigned long long)fl.index, fl.msg.c_str()); fflush(stdout);
    if(fl.harness) { printf("HARNESS ERROR: %s\n", fl.msg.c_str()); return 2; }
    string msg = fl.msg; int rep = 0;
    for(int i = 0; i < 3; i++) { string m; int r = trial(fl.bytes, m); if(r == 1) { rep++; msg = m; } else if(r == 2) { printf("HARNESS ERROR on replay: %s\n", m.c_str()); return 2; } }
    string path; if(P->schedules && rep > 0) rep = 3;
    if(rep == 3)
    {
        vector<uint8_t> b = shrink(fl.bytes, msg);
        string m; for(int i = 0; i < 3; i++) if(trial(b, m) != 1) { b = fl.bytes; break; } else msg = m;
        path = opt.replayDir + strf("/%s-%016llx.json", P->id, (unsigned long long)hashBytes(b.data(), b.size()));
        writeReplay(path, b, msg, fl.w, fl.index, N, false);
    }
    else if(!fl.fuzz)
    {
        for(int i = 0; i < 3; i++) { string m; if(trialRange(fl.w, N, fl.index, m) == 1) msg = m; else { printf("INCONCLUSIVE: a failure was seen that does not reproduce\n"); return 2; } }
        path = opt.replayDir + strf("/%s-range-%llu.json", P->id, (unsigned long long)fl.index);
        writeReplay(path, fl.bytes, msg, fl.w, fl.index, N, true);
    }
    else { printf("INCONCLUSIVE: a failure was seen that does not reproduce\n"); return 2; }
    printf("%s\n", msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", P->id, path.c_str());
    return 1;
}

struct Known { vector<uint8_t> choices; string what; };
static vector<Known> knownFindings;
static void loadKnown(const string &path)
{
    FILE *f = fopen(path.c_str(), "r"); if(!f) return;
    char *line = nullptr; size_t cap = 0;
    while(getline(&line, &cap, f) > 0)
    {
        string l = line; while(!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
        string pre = string("finding: property=") + P->id + " choices=";
        if(l.compare(0, pre.size(), pre)) continue;
        size_t e = l.find(' ', pre.size()); if(e == string::npos) e = l.size();
        Known k; for(size_t i = pre.size(); i + 1 < e; i += 2) k.choices.push_back((uint8_t)strtol(l.substr(i, 2).c_str(), nullptr, 16));
        k.what = e < l.size() ? l.substr(e + 1) : "";
        knownFindings.push_back(k);
    }
    free(line); fclose(f);
}

static void collectFixed()
{
    fixedCases.clear(); if(P->fixed) fixedCases = P->fixed(opt.thorough);
    for(unsigned k = 0; k < GIANTS; k++) if(P->giants >> k & 1) for(unsigned v = 0; v < (opt.thorough ? 20u : 2u); v++) fixedCases.push_back(giantCase(k, v));
}
static int runProperty()
{
    double t0 = now();
    uint64_t N = opt.cases ? opt.cases : (uint64_t)((double)(opt.thorough ? P->thorough : P->quick) * opt.scale);
    collectFixed();
    int W = opt.workers;
    size_t sz = sizeof(Slot) * (size_t)(W + 1);
    Slot *slots = (Slot *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    tslot = &slots[W];

    if(!opt.replay.empty())
    {
        FILE *f = fopen(opt.replay.c_str(), "rb"); if(!f) { printf("cannot open %s\n", opt.replay.c_str()); return 2; }
        string j; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) j.append(b, n); fclose(f);
        string hex = jsonGet(j, "choices"); vector<uint8_t> v;
        for(size_t i = 0; i + 1 < hex.size(); i += 2) v.push_back((uint8_t)strtol(hex.substr(i, 2).c_str(), nullptr, 16));
        opt.thorough = jsonGet(j, "tier") == "thorough";
        string m; int r;
        if(jsonGet(j, "kind") == "range")
        {
            opt.seed = strtoull(jsonGet(j, "seed").c_str(), nullptr, 10); opt.workers = atoi(jsonGet(j, "workers").c_str());
            collectFixed();
            r = trialRange(atoi(jsonGet(j, "worker").c_str()), strtoull(jsonGet(j, "cases").c_str(), nullptr, 10), strtoull(jsonGet(j, "index").c_str(), nullptr, 10), m);
        }
        else r = trial(v, m);
        if(r == 1) { printf("%s\nVIOLATION property=%s replay=%s\n", m.c_str(), P->id, opt.replay.c_str()); return 1; }
        if(r == 2) { printf("HARNESS ERROR: %s\n", m.c_str()); return 2; }
        printf("replay passes\n"); return 0;
    }

    for(auto &k : knownFindings)
    {
        string m;
        if(trial(k.choices, m) == 1) printf("KNOWN-FINDING: property=%s %s\n", P->id, k.what.c_str());
        fixedCases.erase(std::remove(fixedCases.begin(), fixedCases.end(), k.choices), fixedCases.end());
    }
    vector<pid_t> pid((size_t)W); vector<string> err((size_t)W), res((size_t)W);
    fflush(stdout);
    for(int w = 0; w < W; w++)
    {
        err[(size_t)w] = opt.scratch + strf("/w%d.err", w); res[(size_t)w] = opt.scratch + strf("/w%d.res", w);
        pid[(size_t)w] = fork();
        if(pid[(size_t)w] == 0)
        {
            childSetup(err[(size_t)w]);
            WorkerResult r;
            runWorkerCases(w, W, N, &slots[w], r, 0);
            if(!slots[w].failed) { saveResult(res[(size_t)w], r); slots[w].done = 1; }
            _exit(0);
        }
    }
    Failure fl; int alive = W; vector<uint64_t> lastStarted((size_t)W, 0); vector<double> lastProg((size_t)W, now());
    bool truncated = false; double budget = opt.thorough ? 3000 : 600;
    while(alive > 0)
    {
        int st; pid_t r = waitpid(-1, &st, WNOHANG);
        if(r > 0)
        {
            for(int w = 0; w < W; w++) if(pid[(size_t)w] == r)
            {
                pid[(size_t)w] = 0; alive--;
                Slot &s = slots[w];
                if(s.done || fl.any) continue;
                fl.any = true; fl.w = w; fl.index = s.index; fl.fixedCase = s.fixedCase; fl.bytes.assign(s.rec, s.rec + s.len);
                if(s.failed) { fl.msg = (const char *)s.msg; fl.harness = s.harness; } else fl.msg = describeExit(st, err[(size_t)w]);
            }
            if(fl.any) for(int w = 0; w < W; w++) if(pid[(size_t)w]) kill(pid[(size_t)w], SIGKILL);
            continue;
        }
        double t = now();
        for(int w = 0; w < W; w++) if(pid[(size_t)w])
        {
            if(slots[w].started != lastStarted[(size_t)w]) { lastStarted[(size_t)w] = slots[w].started; lastProg[(size_t)w] = t; }
            else if(t - lastProg[(size_t)w] > P->cpuLimit * 4 + 40) { // blocked
                kill(pid[(size_t)w], SIGKILL); }
        }
        if(t - t0 > budget && !truncated) { truncated = true; for(int w = 0; w < W; w++) slots[w].stop = 1; }
        usleep(5000);
    }
    WorkerResult R;
    if(!fl.any) for(int w = 0; w < W; w++) loadResult(res[(size_t)w], R);
    uint64_t fuzzExecs = 0;
#ifdef WITH_LIBFUZZER
    if(!fl.any && opt.thorough && P->fuzzRuns && !truncated)
    {
        for(int w = 0; w < W; w++)
        {
            slots[w].failed = slots[w].done = 0; slots[w].started = 0; slots[w].len = 0;
            res[(size_t)w] = opt.scratch + strf("/f%d.res", w); err[(size_t)w] = opt.scratch + strf("/f%d.err", w);
            pid[(size_t)w] = fork();
            if(pid[(size_t)w] == 0)
            {
                childSetup(err[(size_t)w]);
                fscratch = opt.scratch + strf("/f%d", w); mkdir(fscratch.c_str(), 0755);
                string corp = opt.scratch + strf("/corpus%d", w); mkdir(corp.c_str(), 0755);
                fslot = &slots[w]; fres = new WorkerResult; fresPath = res[(size_t)w];
                for(size_t i = 0; i < fixedCases.size() && i < 200 && (w & 1); i++) { FILE *f = fopen(strf("%s/%zu", corp.c_str(), i).c_str(), "wb"); if(f) { fwrite(fixedCases[i].data(), 1, fixedCases[i].size(), f); fclose(f); } }
                vector<string> a = { "fuzz", strf("-runs=%llu", (unsigned long long)((double)P->fuzzRuns * opt.scale)), strf("-seed=%llu", (unsigned long long)(opt.seed * 100 + (uint64_t)w + 1)), "-max_len=4096", "-max_total_time=600", "-timeout=0", "-rss_limit_mb=0", "-handle_abrt=0", "-handle_segv=0", "-handle_bus=0", "-handle_ill=0", "-handle_fpe=0", "-print_final_stats=0", "-verbosity=0", "-artifact_prefix=" + opt.scratch + "/", corp };
                vector<char *> av; for(auto &x : a) av.push_back(&x[0]); av.push_back(nullptr);
                int ac = (int)a.size(); char **avp = av.data();
                atexit(fuzzExit);
                LLVMFuzzerRunDriver(&ac, &avp, fuzzOne);
                fuzzExit();
            }
        }
        alive = W;
        double tf = now();
        while(alive > 0)
        {
            int st; pid_t r = waitpid(-1, &st, WNOHANG);
            if(r > 0)
            {
                for(int w = 0; w < W; w++) if(pid[(size_t)w] == r)
                {
                    pid[(size_t)w] = 0; alive--; Slot &s = slots[w];
                    if(s.done || fl.any) continue;
                    fl.any = true; fl.fuzz = true; fl.w = w; fl.index = s.started; fl.bytes.assign(s.rec, s.rec + s.len);
                    if(s.failed) { fl.msg = (const char *)s.msg; fl.harness = s.harness; } else fl.msg = describeExit(st, err[(size_t)w]);
                }
                if(fl.any) for(int w = 0; w < W; w++) if(pid[(size_t)w]) kill(pid[(size_t)w], SIGKILL);
                continue;
            }
            if(now() - tf > 900) { for(int w = 0; w < W; w++) if(pid[(size_t)w]) { slots[w].done = 1; kill(pid[(size_t)w], SIGKILL); } }
            usleep(5000);
        }
        if(!fl.any) { WorkerResult F; for(int w = 0; w < W; w++) loadResult(res[(size_t)w], F); fuzzExecs = F.fuzzExecs; R.sub += F.sub; R.nontriv += F.nontriv; for(auto h : F.hashes) R.hashes.insert(h); for(auto &l : F.labels) R.labels["fuzz:" + l.first] += l.second; }
    }
#endif
    int rc = 0;
    if(fl.any) rc = report(fl, N);
    else if(R.evals + fuzzExecs == 0) { printf("HARNESS ERROR: nothing was explored\n"); rc = 2; }
    double wall = now() - t0;
    // evidence
    if(!opt.evidence.empty())
    {
        string tmp = opt.evidence + ".tmp"; FILE *f = fopen(tmp.c_str(), "w");
        if(f)
        {
            fprintf(f, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n", jsonEsc(P->id).c_str(), opt.thorough ? "thorough" : "quick", (unsigned long long)opt.seed, P->level);
            fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)(R.evals + fuzzExecs), (unsigned long long)R.hashes.size());
            fprintf(f, "  \"executions_of_code_under_test\": %llu,\n  \"nontrivial\": %llu,\n  \"enumerated_cases\": %llu,\n  \"coverage_guided_cases\": %llu,\n  \"stopped_by_time_budget\": %s,\n", (unsigned long long)R.sub, (unsigned long long)R.nontriv, (unsigned long long)(fl.any ? 0 : fixedCases.size()), (unsigned long long)fuzzExecs, truncated ? "true" : "false");
            fprintf(f, "  \"rule\": %s,\n  \"labels\": {", jsonEsc(P->rule).c_str());
            bool first = true; for(auto &l : R.labels) { fprintf(f, "%s\n   %s: %llu", first ? "" : ",", jsonEsc(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(f, "\n  },\n  \"samples\": [");
            first = true; size_t k = 0; for(auto &s : R.samples) { if(k++ >= 12) break; fprintf(f, "%s\n   %s", first ? "" : ",", jsonEsc(s).c_str()); first = false; }
            if(R.samples.empty() && fl.any) fprintf(f, "\n   %s", jsonEsc("failing case, choices " + hexs(fl.bytes.data(), fl.bytes.size())).c_str());
            fprintf(f, "\n  ]\n },\n \"assumptions\": [");
            first = true; for(auto &a : P->assumptions) { fprintf(f, "%s\n  %s", first ? "" : ",", jsonEsc(a).c_str()); first = false; }
            fprintf(f, "\n ],\n \"wall_s\": %.3f,\n \"violations\": %d\n}\n", wall, rc == 1 ? 1 : 0);
            fclose(f); rename(tmp.c_str(), opt.evidence.c_str());
        }
    }
    if(rc == 0) printf("%s: held on %llu cases (%llu distinct non-trivial), %.1f s%s\n", P->id, (unsigned long long)(R.evals + fuzzExecs), (unsigned long long)R.hashes.size(), wall, truncated ? " [stopped by time budget]" : "");
    if(opt.quiet == false && getenv("VERIF_LABELS")) for(auto &l : R.labels) printf("  %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    return rc;
}

int main(int argc, char **argv)
{
    string id, knownPath;
    for(int i = 1; i < argc; i++)
    {
        string a = argv[i];
        auto val = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--thorough") opt.thorough = true;
        else if(a == "--workers") opt.workers = atoi(val().c_str());
        else if(a == "--evidence") opt.evidence = val();
        else if(a == "--replays") opt.replayDir = val();
        else if(a == "--replay") opt.replay = val();
        else if(a == "--scale") opt.scale = atof(val().c_str());
        else if(a == "--cases") opt.cases = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--known") knownPath = val();
        else if(a == "--iffpp") setenv("VP_IFFPP", val().c_str(), 1);
        else if(a == "--iffjoin") setenv("VP_IFFJOIN", val().c_str(), 1);
        else if(a == "--list") { for(auto &p : props()) printf("%s\n", p.id); return 0; }
        else id = a;
    }
    for(auto &p : props()) if(id == p.id) P = &p;
    if(!P) { printf("unknown property %s\n", id.c_str()); return 2; }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    char tmpl[] = "/tmp/vpiff.XXXXXX"; if(!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    opt.scratch = tmpl;
    chmod(tmpl, 0755);
    if(!knownPath.empty()) loadKnown(knownPath);
    int rc = 2;
    try { rc = runProperty(); } catch(const HarnessError &e) { printf("HARNESS ERROR: %s\n", e.msg.c_str()); }
    rmrf(opt.scratch);
    return rc;
}
