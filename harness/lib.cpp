#include "lib.h"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unordered_map>
#include <atomic>
#include <sched.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sanitizer/asan_interface.h>

using std::string;

static std::unordered_map<void *, size_t> *live() { static auto *m = new std::unordered_map<void *, size_t>(); return m; }
static uint64_t allocCount; static int64_t faultAt = -1; static bool faultLater, faultHit, faultPaused;

static bool faulty()
{
    if(faultPaused) return false;
    uint64_t k = allocCount++;
    if(faultAt >= 0 && ((int64_t)k == faultAt || (faultLater && (int64_t)k >= faultAt))) { faultHit = true; return true; }
    return false;
}
static const size_t LIMIT = 64u << 20;   // no larger block is ever given to the library
unsigned char gFill = 0xbe; // what new memory holds
static void *filled(void *p, size_t from, size_t n) { if(p && n > from) memset((char *)p + from, gFill, std::min<size_t>(n - from, 65536)); return p; }
bool gThreads; static std::atomic<long> threadLive; // relaxed: must not order what the library does
long libThreadLive() { return threadLive.load(std::memory_order_relaxed); }
static void *counted(void *p) { if(p) threadLive.fetch_add(1, std::memory_order_relaxed); return p; }
static void maybeYield() { static thread_local uint32_t x = 12345; if(gThreads && ((x = x * 1664525 + 1013904223) >> 29) == 0) sched_yield(); }
extern "C" void *vpw_malloc(size_t n) { if(gThreads) return counted(n > LIMIT ? nullptr : malloc(n)); if(faulty() || n > LIMIT) { errno = ENOMEM; return nullptr; } void *p = filled(malloc(n), 0, n); if(p) (*live())[p] = n; return p; }
extern "C" void *vpw_calloc(size_t a, size_t b) { if(gThreads) return counted(b && a > LIMIT / b ? nullptr : calloc(a, b)); if(faulty() || (b && a > LIMIT / b)) { errno = ENOMEM; return nullptr; } void *p = calloc(a, b); if(p) (*live())[p] = a * b; return p; }
// Large blocks get slack that is poisoned until it is used, so that growing a block step by step takes linear time;
// accesses beyond the size asked for are still detected.
static std::unordered_map<void *, size_t> *slack() { static auto *m = new std::unordered_map<void *, size_t>(); return m; }
static void release(void *p) { auto f = slack()->find(p); if(f != slack()->end()) { ASAN_UNPOISON_MEMORY_REGION(p, f->second); slack()->erase(f); } }
extern "C" void vpw_free(void *p);
extern "C" void *vpw_realloc(void *p, size_t n)
{
    if(gThreads) { if(n > LIMIT) return nullptr; if(!p) return counted(malloc(n)); if(n == 0) { vpw_free(p); return nullptr; } return realloc(p, n); }
    if(faulty() || n > LIMIT) { errno = ENOMEM; return nullptr; }
    auto old = p ? live()->find(p) : live()->end(); bool tracked = old != live()->end();
    if(p && n == 0) { if(tracked) live()->erase(p); release(p); return realloc(p, 0); }
    if(tracked && n > 16384)
    {
        auto f = slack()->find(p);
        if(f == slack()->end() || n > f->second) { size_t cap = n + n / 2; void *q = malloc(cap); if(!q) { errno = ENOMEM; return nullptr; } memcpy(q, p, old->second < n ? old->second : n); filled(q, old->second, n); live()->erase(p); release(p); free(p); (*slack())[q] = cap; p = q; f = slack()->find(q); }
        ASAN_UNPOISON_MEMORY_REGION(p, n); ASAN_POISON_MEMORY_REGION((char *)p + n, f->second - n);
        (*live())[p] = n; return p;
    }
    release(p); // the slack of a block that shrinks to a small one is copied or given up by realloc
    size_t was = tracked ? old->second : p ? n : 0; void *q = filled(realloc(p, n), was, n);
    if(q) { if(tracked) live()->erase(p); (*live())[q] = n; }
    return q;
}
extern "C" void vpw_free(void *p) { if(gThreads) { if(p) threadLive.fetch_sub(1, std::memory_order_relaxed); free(p); return; } if(p) { live()->erase(p); release(p); } free(p); }

void libReset() { libCleanup(); gFill = 0xbe; allocCount = 0; faultAt = -1; faultHit = false; messagesClear(); extern void installCallback(); installCallback(); }
void libCleanup() { for(auto &x : *live()) { release(x.first); free(x.first); } live()->clear(); faultAt = -1; faultPaused = false; }
size_t libLive() { return live()->size(); }
string libLiveDesc() { string s; int k = 0; for(auto &x : *live()) { if(k++ >= 6) { s += " ..."; break; } s += strf(" [%zu bytes]", x.second); } return s; }
uint64_t libAllocCount() { return allocCount; }
void libFaultArm(int64_t at, bool later) { allocCount = 0; faultPaused = false; faultAt = at; faultLater = later; faultHit = false; }
void libFaultDisarm() { faultAt = -1; }
bool libFaultHit() { return faultHit; }
bool libFaultTakeHit() { bool h = faultHit; faultHit = false; return h; }
void libFaultPause(bool on) { faultPaused = on; }

thread_local string gMessages; thread_local unsigned gMessageCount;
void messagesClear() { gMessages.clear(); gMessageCount = 0; }
extern "C" void vpCallback(const char *fmt, va_list ap)
{
    gMessageCount++;
    char buf[1024]; va_list again; va_copy(again, ap); int n = vsnprintf(buf, sizeof buf, fmt, ap);
    if(n >= (int)sizeof buf) { string big((size_t)n + 1, '\0'); vsnprintf(&big[0], big.size(), fmt, again); big.resize((size_t)n); va_end(again); if(gMessages.size() < 1000000) gMessages += big; return; }
    va_end(again);
    if(n > 0 && gMessages.size() < 1000000) gMessages.append(buf, (size_t)n < sizeof buf ? (size_t)n : sizeof buf - 1);
}
void installCallback() { IFF_errorCallback = &vpCallback; }

static ssize_t inRead(void *ck, char *buf, size_t n)
{
    maybeYield();
    MemIn *m = (MemIn *)ck;
    size_t end = m->data.size();
    if(m->errorAt >= 0 && (size_t)m->errorAt < end) end = (size_t)m->errorAt;
    if(m->pos >= end) { if(m->errorAt >= 0 && m->pos >= (size_t)m->errorAt) { if(m->errorOnce) m->errorAt = -1; errno = EIO; return -1; } return 0; }
    size_t k = end - m->pos; if(k > n) k = n; if(m->gran && k > m->gran) k = m->gran;
    memcpy(buf, m->data.data() + m->pos, k); m->pos += k;
    return (ssize_t)k;
}
static int inSeek(void *ck, off64_t *off, int whence)
{
    MemIn *m = (MemIn *)ck; int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)m->pos : (int64_t)m->data.size();
    int64_t p = b + *off; if(p < 0) { errno = EINVAL; return -1; }
    m->pos = (size_t)p; *off = p; return 0;
}
static int inClose(void *ck) { ((MemIn *)ck)->closed = true; return 0; }
FILE *openIn(MemIn &m, int bufMode)
{
    cookie_io_functions_t io; memset(&io, 0, sizeof io); io.read = inRead; io.close = inClose; if(m.seekable) io.seek = inSeek;
    FILE *f = fopencookie(&m, "r", io); if(!f) harnessf("fopencookie");
    if(bufMode == 1) setvbuf(f, nullptr, _IONBF, 0);
    else if(bufMode == 2) setvbuf(f, nullptr, _IOFBF, 16);
    return f;
}
static ssize_t outWrite(void *ck, const char *buf, size_t n)
{
    maybeYield();
    MemOut *m = (MemOut *)ck; size_t k = n;
    if(m->failAt >= 0 && !(m->once && m->failed))
    {
        if(m->pos + n > (size_t)m->failAt)
        {
            k = m->pos < (size_t)m->failAt ? (size_t)m->failAt - m->pos : 0;
            if(k == 0) { m->failed = true; errno = ENOSPC; return 0; }
        }
    }
    if(m->data.size() < m->pos + k) m->data.resize(m->pos + k);
    memcpy(&m->data[m->pos], buf, k); m->pos += k;
    return (ssize_t)k;
}
static int outSeek(void *ck, off64_t *off, int whence)
{
    MemOut *m = (MemOut *)ck; int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)m->pos : (int64_t)m->data.size();
    int64_t p = b + *off; if(p < 0) { errno = EINVAL; return -1; }
    m->pos = (size_t)p; *off = p; return 0;
}
static int outClose(void *ck) { ((MemOut *)ck)->closed = true; return 0; }
FILE *openOut(MemOut &m, int bufMode)
{
    cookie_io_functions_t io; memset(&io, 0, sizeof io); io.write = outWrite; io.close = outClose; if(m.seekable) io.seek = outSeek;
    FILE *f = fopencookie(&m, "w", io); if(!f) harnessf("fopencookie");
    if(bufMode == 1) setvbuf(f, nullptr, _IONBF, 0);
    else if(bufMode == 2) setvbuf(f, nullptr, _IOFBF, 16);
    return f;
}

string captureStdout(const std::function<void()> &fn)
{
    char *buf = nullptr; size_t n = 0;
    FILE *saved = stdout; FILE *m = open_memstream(&buf, &n); if(!m) harnessf("open_memstream");
    stdout = m;
    try { fn(); } catch(...) { stdout = saved; fclose(m); free(buf); throw; }
    stdout = saved; fclose(m);
    string s(buf, n); free(buf);
    return s;
}

string drain(FILE *f) { string s; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); return s; }

IFF_Chunk *readBytes(const string &bytes, const IFF_ChunkRegistry *reg, string *rest)
{
    MemIn m; m.data = bytes; FILE *f = openIn(m);
    IFF_Chunk *c = rest ? IFF_readChunk(f, 0, reg ? reg : &IFF_defaultChunkRegistry) : IFF_readFd(f, reg);
    if(rest) *rest = drain(f);
    fclose(f);
    return c;
}
string writeBytes(const IFF_Chunk *c, const IFF_ChunkRegistry *reg, bool &ok)
{
    MemOut m; FILE *f = openOut(m);
    ok = IFF_writeFd(f, c, reg);
    if(fclose(f) != 0) harnessf("fclose on memory stream");
    return m.data;
}

string tempFile(const Ctx &c, const char *name) { return c.scratch + "/" + name; }
void putFile(const string &path, const string &bytes)
{
    FILE *f = fopen(path.c_str(), "wb"); if(!f) harnessf("cannot create %s", path.c_str());
    if(fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size() || fclose(f)) harnessf("cannot write %s", path.c_str());
}
bool getFile(const string &path, string &bytes)
{
    FILE *f = fopen(path.c_str(), "rb"); if(!f) return false;
    bytes = drain(f); fclose(f); return true;
}
int countFds()
{
    int n = 0; DIR *d = opendir("/proc/self/fd"); if(!d) harnessf("/proc/self/fd");
    while(readdir(d)) n++;
    closedir(d); return n;
}
void captureBoth(const std::function<void()> &fn, string &out, string &err)
{
    char *b1 = nullptr, *b2 = nullptr; size_t n1 = 0, n2 = 0; FILE *so = stdout, *se = stderr, *m1 = open_memstream(&b1, &n1), *m2 = open_memstream(&b2, &n2); if(!m1 || !m2) harnessf("open_memstream");
    stdout = m1; stderr = m2;
    auto done = [&] { stdout = so; stderr = se; fclose(m1); fclose(m2); out.assign(b1, n1); err.assign(b2, n2); free(b1); free(b2); };
    try { fn(); } catch(...) { done(); throw; }
    done();
}
void withStdin(FILE *in, const std::function<void()> &fn) { FILE *old = stdin; stdin = in; try { fn(); } catch(...) { stdin = old; throw; } stdin = old; }
FILE *pipeWith(const string &bytes)
{
    int p[2]; if(bytes.size() > 60000 || pipe(p)) harnessf("pipe");
    if(write(p[1], bytes.data(), bytes.size()) != (ssize_t)bytes.size()) harnessf("pipe write");
    close(p[1]); FILE *f = fdopen(p[0], "rb"); if(!f) harnessf("fdopen"); return f;
}
