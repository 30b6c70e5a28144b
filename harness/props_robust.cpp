// C04 arbitrary bytes, C05 truncation, C15 write faults, C16 out of memory
#include "ext.h"
#include "robust.h"
#include "tools.h"
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
using std::string; using std::vector;

// ---------------------------------------------------------------- inputs
static string soup(Src &s, int depth, size_t budget)
{
    string out; int k = (int)s.range(0, 4);
    for(int i = 0; i < k && out.size() < budget; i++)
    {
        uint32_t id = s.chance(1, 2) ? (s.chance(1, 2) ? (s.chance(1, 2) ? M_LIST : M_FORM) : (s.chance(1, 2) ? M_CAT : M_PROP)) : genAnyId(s);
        string body;
        if(isGroupId(id) || s.chance(1, 6)) { if(!s.chance(1, 6)) put32(body, genAnyId(s)); if(depth < 5) body += soup(s, depth + 1, budget / 2); }
        else body = genData(s, s.below(20));
        int64_t size = (int64_t)body.size();
        switch(s.below(10))
        {
            case 7: size += s.range(-6, 6); break;
            case 8: { static const int32_t v[] = { 0, 1, 2, 3, 4, -1, -2, -8, -9, -12, INT32_MAX, INT32_MIN, INT32_MIN + 1, 0x7ffffff3, 0x7ffffffe, 65536, INT32_MAX - 8, INT32_MAX - 12, 20000000 }; size = v[s.below(sizeof v / sizeof *v)]; break; }
            case 9: size = (int32_t)s.u32(); break;
            default: break;
        }
        put32(out, id); put32(out, (uint32_t)size); out += body; if((size & 1) && !s.chance(1, 8)) out += '\0';
    }
    return out;
}
string hostileBytes(Src &s, const RegSpec *r, string *how)
{
    string b; unsigned k = (unsigned)s.below(8); GenOpts o; o.anyRoot = true; o.maxNodes = 16; o.maxDepth = 3; if(s.chance(1, 500)) o.extreme = 1, o.scale = 0;
    string name;
    if(k == 0) { size_t n = s.below(64); for(size_t i = 0; i < n; i++) b += (char)s.byte(); name = "random bytes"; }
    else if(k <= 2) { b = soup(s, 0, 600); name = "chunk soup"; }
    else if(k == 3)
    {
        Node n = r ? genExtTree(s, o, *r) : genTree(s, o); unsigned m = 1 + (unsigned)s.below(3);
        for(unsigned i = 0; i < m; i++) mutateTree(s, n);
        b = encode(n); name = "broken hierarchy";
    }
    else
    {
        Node n = r ? genExtTree(s, o, *r) : genTree(s, o); b = encode(n); unsigned m = (unsigned)s.below(5); name = m ? "mutated bytes" : "well-formed";
        for(unsigned i = 0; i < m; i++) mutateBytes(s, b);
    }
    if(how) *how = name;
    return b;
}

// ---------------------------------------------------------------- C04
// every operation of the library on a hierarchy that was read
static void collect(IFF_Chunk *c, vector<IFF_Chunk *> &v)
{
    v.push_back(c);
    if(!isGroupId(c->chunkId)) return;
    IFF_Group *g = (IFF_Group *)c;
    if(c->chunkId == M_LIST) { IFF_List *l = (IFF_List *)c; for(unsigned i = 0; i < l->propLength; i++) collect((IFF_Chunk *)l->prop[i], v); }
    for(unsigned i = 0; i < g->chunkLength; i++) collect(g->chunk[i], v);
}
static void exercise(Src &s, Ctx &c, IFF_Chunk *ch, const string &bytes, const IFF_ChunkRegistry *R)
{
    c.subEvals += 6;
    vector<IFF_Chunk *> all; collect(ch, all);
    IFF_Bool v1 = IFF_check(ch, R), v2 = IFF_check(ch, R);
    REQUIRE(!v1 == !v2, "checking twice gives different answers for %s", hexs(bytes).c_str());
    c.label(v1 ? "read, valid" : "read, invalid");
    unsigned level = (unsigned)s.below(3); string txt = captureStdout([&] { IFF_print(ch, level, R); });
    REQUIRE(!txt.empty(), "printing %s printed nothing", hexs(bytes).c_str());
    REQUIRE(IFF_compare(ch, ch, R), "hierarchy read from %s is not equal to itself", hexs(bytes).c_str());
    gFill = gFill == 0xbe ? 0x41 : 0xbe; IFF_Chunk *again = readBytes(bytes, R);
    REQUIRE(again, "second reading of the same bytes failed: %s", hexs(bytes).c_str());
    REQUIRE(IFF_compare(ch, again, R) && IFF_compare(again, ch, R), "two readings of the same bytes are not equal: %s", hexs(bytes).c_str());
    { // nothing may depend on what memory happened to hold
        vector<IFF_Chunk *> other; collect(again, other); REQUIRE(all.size() == other.size(), "two readings give %zu and %zu chunks: %s", all.size(), other.size(), hexs(bytes).c_str());
        for(size_t i = 0; i < all.size(); i++)
        {
            bool same = all[i]->chunkId == other[i]->chunkId && all[i]->chunkSize == other[i]->chunkSize && !all[i]->parent == !other[i]->parent;
            if(same && isGroupId(all[i]->chunkId)) { IFF_Group *g = (IFF_Group *)all[i], *h = (IFF_Group *)other[i]; same = g->groupType == h->groupType && g->chunkLength == h->chunkLength; if(same && all[i]->chunkId == M_LIST) same = ((IFF_List *)g)->propLength == ((IFF_List *)h)->propLength; }
            REQUIRE(same, "two readings differ in chunk %zu '%s', so that something is not initialised: %s", i, idText(all[i]->chunkId).c_str(), hexs(bytes).c_str());
        }
        string t2 = captureStdout([&] { IFF_print(again, level, R); }); REQUIRE(txt == t2, "two readings of the same bytes are not printed alike: %s: %s", firstDiff(txt, t2).c_str(), hexs(bytes).c_str());
    }
    for(int i = 0; i < 3; i++)
    {
        IFF_ID types[3] = { genFormType(s), genAnyId(s), mk("TEST") }; unsigned k = 99;
        IFF_Form **f = IFF_searchFormsFromArray(all[s.below(all.size())], types, (unsigned)s.below(4), &k);
        REQUIRE(k <= all.size(), "searching found %u forms in %zu chunks", k, all.size());
        for(unsigned j = 0; j < k; j++) REQUIRE(f[j]->chunkId == M_FORM, "searching returned something that is not a FORM");
        vpw_free(f);
        unsigned k2 = 99; f = IFF_searchForms(ch, types[0], &k2); vpw_free(f);
    }
    for(auto x : all)
    {
        uint32_t id = all[s.below(all.size())]->chunkId;
        if(x->chunkId == M_FORM)
        {
            IFF_Chunk *q = IFF_getChunkFromForm((IFF_Form *)x, id); REQUIRE(!q || q->chunkId == id, "property lookup returned a chunk with another ID");
            q = IFF_getDataChunkFromForm((IFF_Form *)x, id); REQUIRE(!q || q->chunkId == id, "lookup returned a chunk with another ID");
            unsigned k = 77; IFF_Chunk **qs = IFF_getChunksFromForm((IFF_Form *)x, id, &k); for(unsigned j = 0; j < k; j++) REQUIRE(qs[j]->chunkId == id, "lookup returned a chunk with another ID");
            vpw_free(qs);
        }
        else if(x->chunkId == M_PROP) IFF_getChunkFromProp((IFF_Prop *)x, id);
        else if(x->chunkId == M_LIST) IFF_getPropFromList((IFF_List *)x, genFormType(s));
        if(all.size() > 60) break;
    }
    // writing: fillers are as large as the sizes say, so skip it when those are enormous
    int64_t most = 0; for(auto x : all) most = std::max<int64_t>(most, x->chunkSize);
    if(most < 4000000)
    {
        bool ok; string w = writeBytes(ch, R, ok);
        REQUIRE(ok, "writing a hierarchy read from %s failed: %s", hexs(bytes).c_str(), gMessages.c_str());
        string w2 = writeBytes(again, R, ok); REQUIRE(ok && w == w2, "two readings of the same bytes are not written alike: %s: %s", firstDiff(w, w2).c_str(), hexs(bytes).c_str());
        if(v1)
        {
            IFF_Chunk *r2 = readBytes(w, R); REQUIRE(r2, "a valid hierarchy read from %s cannot be read again after writing", hexs(bytes).c_str());
            IFF_free(r2, R);
        }
    }
    IFF_free(again, R);
    if(s.chance(1, 2)) IFF_updateChunkSizes(all[s.below(all.size())]);
    IFF_free(ch, R);
}
static void caseC04(Src &s, Ctx &c)
{
    unsigned mode = s.byte();
    string bytes, how; RegSpec r;
    if(mode == 255 && !c.fuzzing) // enumerated only
    {
        uint32_t magic = 0; for(int i = 0; i < 4; i++) magic = magic << 8 | s.byte();
        if(magic == mk("DEEP")) // nesting far beyond any real file
        {
            size_t depth = 0; for(int i = 0; i < 3; i++) depth = depth << 8 | s.byte();
            for(size_t i = 0; i < depth; i++) { put32(bytes, M_FORM); put32(bytes, (uint32_t)((depth - i - 1) * 12 + 4)); put32(bytes, mk("TEST")); }
            c.subEvals++;
            IFF_Chunk *ch = readBytes(bytes, nullptr);
            REQUIRE(ch, "reading %zu nested FORMs failed: %s", depth, gMessages.c_str());
            REQUIRE(IFF_check(ch, nullptr), "%zu nested FORMs are not valid", depth);
            bool ok; string w = writeBytes(ch, nullptr, ok); REQUIRE(ok && w == bytes, "%zu nested FORMs are not written as read", depth);
            IFF_free(ch, nullptr);
            REQUIRE(libLive() == 0, "memory is left");
            c.label("nesting"); c.nontriv(depth); c.desc = strf("%zu nested FORMs", depth);
            return;
        }
        if(magic == mk("RAWB")) { while(!s.exhausted()) bytes += (char)s.byte(); how = "given bytes"; }
    }
    genLayouts(s);
    bool ext = mode & 1; if(ext) r = genRegistry(s);
    Registry reg(r); const IFF_ChunkRegistry *R = ext ? &reg.reg : nullptr;
    if(how == "given bytes") { }
    else if(c.fuzzing && mode & 2) { while(!s.exhausted() && bytes.size() < 4096) bytes += (char)s.byte(); how = "fuzzer bytes"; }
    else bytes = hostileBytes(s, ext ? &r : nullptr, &how);
    c.subEvals++;
    IFF_Chunk *ch;
    unsigned via = (unsigned)s.below(12);
    if(via == 0) { string p = tempFile(c, "hostile"); putFile(p, bytes); ch = IFF_readFile(p.c_str(), R); unlink(p.c_str()); }
    else if(via == 1) { string rest; ch = readBytes(bytes, R ? R : &IFF_defaultChunkRegistry, &rest); }
    else { MemIn m; m.data = bytes; m.gran = s.below(3) ? 0 : 1 + s.below(5); m.seekable = s.chance(1, 2); FILE *f = openIn(m, (int)s.below(3)); ch = IFF_readFd(f, R); fclose(f); }
    c.label(how); c.label(ch ? "read" : "rejected");
    if(!ch) { REQUIRE(gMessageCount > 0 || via == 1, "reading failed without a message: %s", hexs(bytes).c_str()); }
    else exercise(s, c, ch, bytes, R);
    REQUIRE(libLive() == 0, "%zu allocations are left after %s and freeing:%s (input %s, registry %s)", libLive(), ch ? "using" : "rejecting the input", libLiveDesc().c_str(), hexs(bytes).c_str(), r.show().c_str());
    if(bytes.size() >= 12 && how != "well-formed") { c.nontriv(hashBytes(bytes.data(), bytes.size())); c.desc = how + (ext ? " (extension registry): " : ": ") + hexs(bytes, 120); }
}
static vector<uint8_t> choices(const string &x) { return vector<uint8_t>(x.begin(), x.end()); }
static vector<vector<uint8_t>> fixedC04(bool)
{
    vector<vector<uint8_t>> v;
    for(uint32_t d : { 1u, 10u, 100u, 1000u, 3000u, 300000u }) { string x = "\xff" "DEEP"; x += (char)(d >> 16); x += (char)(d >> 8); x += (char)d; v.push_back(choices(x)); }
    // member sizes that add up to something beyond 31 bits
    for(uint32_t total : { 0x7fffffffu, 0x7ffffffcu, 12u, 0x80000000u })
        for(int tail = 0; tail < 4; tail++)
        {
            string x = "\xff" "RAWB"; put32(x, M_FORM); put32(x, total); x += "TEST";
            for(uint32_t z : { (uint32_t)-16, 0x80000000u, (uint32_t)-16, tail == 0 ? 0u : tail == 1 ? (uint32_t)-9 : tail == 2 ? 0x80000001u : 1u }) { put32(x, tail == 3 ? M_LIST : M_FORM); put32(x, z); if(z == 1) x += "  "; }
            v.push_back(choices(x));
        }
    return v;
}

// one chunk of data of a remarkable size, the others small
static Node largeTree(Src &s)
{
    static const size_t sizes[] = { 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 262144, 524288, 1048576, 1048577 };
    Node n; n.group = true; n.id = M_FORM; n.type = genFormType(s); Node d; d.id = genChunkId(s); d.data = string(sizes[s.below(s.chance(1, 4) ? 29 : 24)], 'd'); uint32_t v = s.u32(); for(size_t i = 0; i < d.data.size(); i++) { v = v * 1664525u + 1013904223u; d.data[i] = (char)(v >> 24 | 1); }
    if(s.chance(1, 3)) { Node e; e.id = genChunkId(s); e.data = genData(s, s.below(9)); n.kids.push_back(e); }
    n.kids.push_back(d);
    if(s.chance(1, 3)) { Node e; e.id = genChunkId(s); e.data = genData(s, s.below(9)); n.kids.push_back(e); }
    if(s.chance(1, 4)) { Node p; p.group = true; p.id = M_CAT; p.type = M_JJJJ; p.kids.push_back(n); n = p; }
    fixSizes(n); return n;
}
static vector<size_t> largeOffsets(Src &s, size_t L)
{
    vector<size_t> v; for(size_t i = 1; i <= 12 && i <= L; i++) v.push_back(L - i);
    for(size_t p = 64; p < L; p *= 2) for(size_t q : { p - 1, p, p + 1, p + 20, p + 32 }) if(q < L && s.chance(1, 3)) v.push_back(q);
    for(int i = 0; i < 8; i++) v.push_back(s.below(L));
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}

// ---------------------------------------------------------------- C05
static void caseC05(Src &s, Ctx &c)
{
    genLayouts(s);
    bool ext = s.chance(1, 2); RegSpec r; if(ext) r = genRegistry(s);
    Registry reg(r); const IFF_ChunkRegistry *R = ext ? &reg.reg : nullptr;
    GenOpts o; o.anyRoot = true; o.maxData = 40; o.maxNodes = 14; o.extremes(c, 400, 0);
    Node n = ext ? genExtTree(s, o, r) : genTree(s, o);
    if(s.chance(1, 30)) { vector<Node *> all; allNodes(n, all); for(auto x : all) if(!x->group) { x->data.resize(300 + s.below(9000)); break; } fixSizes(n); }
    bool large = s.chance(1, c.fuzzing ? 400 : 25); if(large) n = largeTree(s);
    string b = encode(n);
    unsigned kind = (unsigned)s.below(7);        // how the bytes arrive
    bool error = s.chance(1, 3) && kind < 3;     // read error instead of end of file
    bool errorOnce = error && s.chance(1, 2);    // after which the remaining bytes arrive
    bool chunkLevel = s.chance(1, 4) && kind < 3;
    unsigned gran = s.below(2) ? 0 : 1 + (unsigned)s.below(7); int buf = (int)s.below(3); bool seekable = s.chance(1, 2);
    size_t L = b.size(), step = 1, from = 0;
    if(L > 700) step = 1 + L / 300, from = s.below(step);
    string path = tempFile(c, "cut.iff"); FILE *fl = nullptr; int fd = -1;
    if(kind >= 3 && kind <= 4) { fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if(fd < 0) harnessf("open"); if(write(fd, b.data(), L) != (ssize_t)L) harnessf("write"); }
    auto one = [&](size_t cut) {
        messagesClear(); c.subEvals++;
        IFF_Chunk *ch; const char *src = "stream";
        if(kind < 3)
        {
            MemIn m; m.gran = gran; m.seekable = seekable;
            if(error) { m.data = b; m.errorAt = (int64_t)cut; m.errorOnce = errorOnce; } else m.data = b.substr(0, cut);
            FILE *f = openIn(m, buf);
            ch = chunkLevel ? IFF_readChunk(f, 0, R ? R : &IFF_defaultChunkRegistry) : IFF_readFd(f, R);
            fclose(f); src = errorOnce ? "stream with a passing read error" : error ? "stream with read error" : "stream";
        }
        else if(kind <= 4) { if(ftruncate(fd, (off_t)cut)) harnessf("ftruncate"); ch = kind == 3 ? IFF_read(path.c_str(), R) : IFF_readFile(path.c_str(), R); src = "file"; }
        else if(kind == 5) { MemIn m; m.data = b.substr(0, cut); m.gran = gran; m.seekable = seekable; FILE *save = stdin; stdin = openIn(m, buf); ch = IFF_read(nullptr, R); fclose(stdin); stdin = save; src = "standard input"; }
        else { int p[2]; if(pipe(p)) harnessf("pipe"); size_t k = std::min<size_t>(cut, 60000); if(k && write(p[1], b.data(), k) != (ssize_t)k) harnessf("pipe write"); close(p[1]); FILE *f = fdopen(p[0], "rb"); ch = IFF_readFd(f, R); fclose(f); src = "pipe"; }
        if(ch && errorOnce) // whoever tries again must get everything
        {
            bool ok, ok2; string got = writeBytes(ch, R, ok); IFF_free(ch, R); ch = readBytes(b, R); string exp = ch ? writeBytes(ch, R, ok2) : string(); if(ch) IFF_free(ch, R);
            REQUIRE(got == exp, "%s of %s, error after %zu of %zu bytes: something else than the complete file was returned: %s (registry %s)", src, show(n).c_str(), cut, L, firstDiff(got, exp).c_str(), r.show().c_str());
            REQUIRE(libLive() == 0, "%s of %s, error after %zu of %zu bytes: %zu allocations are left:%s", src, show(n).c_str(), cut, L, libLive(), libLiveDesc().c_str());
            c.label("error was overcome"); return;
        }
        REQUIRE(!ch, "%s of %s cut off after %zu of %zu bytes was accepted (%s%s, registry %s)", src, show(n).c_str(), cut, L, idStr(ch->chunkId).c_str(), chunkLevel ? ", IFF_readChunk" : "", r.show().c_str());
        REQUIRE(gMessageCount > 0, "%s of %s cut off after %zu of %zu bytes was rejected without a message", src, show(n).c_str(), cut, L);
        REQUIRE(libLive() == 0, "%s of %s cut off after %zu of %zu bytes: %zu allocations are left:%s", src, show(n).c_str(), cut, L, libLive(), libLiveDesc().c_str());
    };
    vector<size_t> cuts; if(large) cuts = largeOffsets(s, L); else { for(size_t k = from; k < L; k += step) cuts.push_back(k); if(L && cuts.back() != L - 1) cuts.push_back(L - 1); }
    if(kind == 3 || kind == 4) { std::sort(cuts.rbegin(), cuts.rend()); for(size_t k : cuts) one(k); close(fd); unlink(path.c_str()); }
    else for(size_t k : cuts) one(k);
    if(large) c.label("data of a remarkable size");
    // and the uncut file is accepted
    messagesClear(); IFF_Chunk *ch = readBytes(b, R); REQUIRE(ch, "the complete %s was rejected: %s", show(n).c_str(), gMessages.c_str()); IFF_free(ch, R);
    // chunks at the end whose sizes say that more follows
    if(!large) for(int t = 0; t < 3; t++)
    {
        size_t off = 0, end = L; const Node *x = &n; string path = idStr(x->id);
        while(x->group && !(x->kids.empty() && x->props.empty()) && s.chance(1, 2)) { x = x->kids.empty() ? &x->props.back() : &x->kids.back(); off = end - encode(*x).size(); path += "/" + idStr(x->id); }
        int64_t size; static const int64_t far[] = { 0x7fffffff, 0x7ffffffe, 0x7ffffffc, 0x7ffffff8, 0x40000000, 0x01000000, 0x10000, 0xffff, 0x8000, 0x7fff, 0x100 };
        if(x->group && s.chance(1, 2)) size = far[s.below(11)]; else size = (int64_t)x->size + 1 + (int64_t)s.below(s.chance(1, 2) ? 4 : 5000);
        if(size <= x->size + (x->size & 1)) continue;
        string d = b; for(int i = 0; i < 4; i++) d[off + 4 + (size_t)i] = (char)(size >> (24 - 8 * i));
        messagesClear(); c.subEvals++; IFF_Chunk *q = readBytes(d, R);
        REQUIRE(!q, "%s in which %s says %lld bytes although %zu follow was accepted (registry %s)", show(n).c_str(), path.c_str(), (long long)size, L - off - 8, r.show().c_str());
        REQUIRE(gMessageCount > 0, "%s in which %s says %lld bytes was rejected without a message", show(n).c_str(), path.c_str(), (long long)size);
        REQUIRE(libLive() == 0, "%s in which %s says %lld bytes: %zu allocations are left:%s", show(n).c_str(), path.c_str(), (long long)size, libLive(), libLiveDesc().c_str());
        c.label(size > 0x1000000 ? "enormous sizes" : "sizes that are too large");
    }
    static const char *kn[] = { "stream", "stream", "stream", "named file", "named file", "standard input", "pipe" };
    c.label(string(kn[kind]) + (errorOnce ? ", passing read errors" : error ? ", read errors" : ", cut off")); if(ext && hasSkipped(n, r)) c.label("with skipped bytes");
    if(L & 1) harnessf("odd file");
    if(L > 12) { c.nontriv(hashBytes(b.data(), b.size(), kind * 2 + error)); c.desc = show(n) + strf(" cut at %zu offsets, %s%s", cuts.size(), kn[kind], error ? ", read errors" : ""); }
}

// ---------------------------------------------------------------- C15
static void caseC15(Src &s, Ctx &c)
{
    genLayouts(s);
    bool ext = s.chance(1, 3); RegSpec r; if(ext) r = genRegistry(s);
    Registry reg(r); const IFF_ChunkRegistry *R = ext ? &reg.reg : nullptr;
    GenOpts o; o.anyRoot = true; o.maxData = 40; o.maxNodes = 14; o.extremes(c, 600, 0);
    Node n = ext ? genExtTree(s, o, r) : genTree(s, o);
    if(s.chance(1, 12)) { vector<Node *> all; allNodes(n, all); for(auto x : all) if(!x->group) { x->data.assign(300 + s.below(12000), 'x'); break; } fixSizes(n); }
    if(s.chance(1, 8)) { vector<Node *> all; allNodes(n, all); Node *t = all[s.below(all.size())]; if(t->group) t->size += (int32_t)s.range(1, 3000); } // zero filler
    if(ext) canonical(n, r);
    bool large = !ext && s.chance(1, c.fuzzing ? 400 : 25); if(large) n = largeTree(s);
    string exp = encode(n); IFF_Chunk *ch = ext ? buildExt(n, r, 0, reg) : build(n);
    size_t L = exp.size(), step = 1, from = 0; if(L > 500) step = 1 + L / 250, from = s.below(step);
    unsigned kind = (unsigned)s.below(6); int buf = (int)s.below(3); bool once = s.chance(1, 4), seekable = s.chance(1, 2);
    string path = tempFile(c, "full.iff");
    auto one = [&](size_t k) {
        c.subEvals++; messagesClear();
        if(kind <= 1) // open stream, unbuffered: every failure is visible in the call; buffered: in the call or when the caller closes the stream
        {
            MemOut m; m.failAt = (int64_t)k; m.once = once; m.seekable = seekable; int mode = kind == 0 ? 1 : buf; FILE *f = openOut(m, mode);
            bool ok = IFF_writeFd(f, ch, R); bool closed = fclose(f) == 0;
            REQUIRE(!ok || (mode != 1 && !closed), "writing %s to %s stream that fails at offset %zu of %zu%s was reported as success", show(n).c_str(), mode == 1 ? "an unbuffered" : "a buffered", k, L, once ? " (once)" : "");
            if(!ok) REQUIRE(gMessageCount > 0, "failing write without a message");
            c.label(mode == 1 ? "unbuffered stream" : "buffered stream");
        }
        else if(kind <= 3) // standard output
        {
            MemOut m; m.failAt = (int64_t)k; m.once = once; m.seekable = seekable; FILE *save = stdout; stdout = openOut(m, kind == 2 ? 0 : buf);
            bool ok = IFF_write(nullptr, ch, R); FILE *f = stdout; stdout = save; fclose(f);
            REQUIRE(!ok, "writing %s to standard output that fails at offset %zu of %zu was reported as success", show(n).c_str(), k, L);
            c.label("standard output");
        }
        else // named file, file size limit
        {
            struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = k; if(setrlimit(RLIMIT_FSIZE, &lim)) harnessf("setrlimit");
            bool ok = kind == 4 ? IFF_write(path.c_str(), ch, R) : IFF_writeFile(path.c_str(), ch, R);
            setrlimit(RLIMIT_FSIZE, &old);
            REQUIRE(!ok, "writing %s to a file that cannot grow beyond %zu of %zu bytes was reported as success", show(n).c_str(), k, L);
            c.label("file size limit");
        }
    };
    signal(SIGXFSZ, SIG_IGN);
    if(large) { for(size_t k : largeOffsets(s, L)) one(k); c.label("data of a remarkable size"); }
    else { for(size_t k = from; k < L; k += step) one(k); one(L - 1); }
    if(s.chance(1, 4))
    {
        c.subEvals += 3;
        REQUIRE(!IFF_write("/dev/full", ch, R), "writing %s to a full device was reported as success", show(n).c_str());
        REQUIRE(!IFF_writeFile((c.scratch + "/no/such/dir").c_str(), ch, R), "writing to a path that does not exist was reported as success");
        REQUIRE(!IFF_write(c.scratch.c_str(), ch, R), "writing to a directory was reported as success");
        c.label("full device and unwritable paths");
    }
    // success means complete, and failures did not damage the hierarchy
    bool ok = IFF_write(path.c_str(), ch, R); string got; getFile(path, got); unlink(path.c_str());
    REQUIRE(ok && got == exp, "after failed attempts, writing %s %s", show(n).c_str(), ok ? ("stores different bytes: " + firstDiff(got, exp)).c_str() : "fails");
    { MemOut m; FILE *save = stdout; stdout = openOut(m, buf); ok = IFF_write(nullptr, ch, R); string at = m.data; FILE *f = stdout; stdout = save; fclose(f); REQUIRE(ok, "writing to standard output fails"); REQUIRE(at == exp, "success was reported before the bytes reached standard output: %zu of %zu stored for %s", at.size(), exp.size(), show(n).c_str()); }
    IFF_free(ch, R);
    if(L > 12) { c.nontriv(hashBytes(exp.data(), exp.size(), kind)); sampleOf(c, n); }
}

// Everything else that allocates: searching, retrieving chunks, setting text, adding members, the tools
static void oomOther(Src &s, Ctx &c, const Node &n, unsigned what, bool later)
{
    auto sweep = [&](const std::function<void(bool)> &run) // run(faulty)
    {
        libFaultArm(-1, false); run(false); uint64_t A = libAllocCount(); size_t step = A > 120 ? 1 + A / 60 : 1;
        for(uint64_t i = 0; i < A; i += step) { messagesClear(); libFaultArm((int64_t)i, later); run(true); libFaultDisarm(); c.subEvals++; }
        c.count("allocations failed", A / step); if(A) { c.nontriv(mix64(hashNode(n) + what * 2 + later)); c.desc = strf("%s of %s: %llu allocations", what == 0 ? "searching" : what == 1 ? "retrieving chunks" : what == 2 ? "setting text" : what == 3 ? "adding" : "tools", show(n).substr(0, 400).c_str(), (unsigned long long)A); }
    };
    if(what <= 1)
    {
        IFF_Chunk *x = build(n, &s); vector<Node *> all; Node m = n; allNodes(m, all); vector<IFF_Chunk *> lib; libNodes(x, lib); size_t live = libLive();
        vector<IFF_Chunk *> forms; vector<uint32_t> ids; for(size_t i = 0; i < all.size(); i++) if(all[i]->id == M_FORM) forms.push_back(lib[i]);
        if(forms.empty()) { freeTree(x); return; }
        IFF_Form *f = (IFF_Form *)forms[s.below(forms.size())]; uint32_t id = f->chunkLength ? f->chunk[s.below(f->chunkLength)]->chunkId : M_FORM; vector<IFF_ID> types; for(int i = 0; i < 3; i++) types.push_back(((IFF_Form *)forms[s.below(forms.size())])->formType);
        vector<const void *> whole; bool first = true;
        sweep([&](bool)
        {
            unsigned len = 12345; const void **r = (const void **)(what == 0 ? (void *)IFF_searchFormsFromArray(x, types.data(), 3, &len) : (void *)IFF_getChunksFromForm(f, id, &len)); bool hit = libFaultHit(); libFaultDisarm();
            REQUIRE(len <= all.size() && (len == 0 || r), "%s reports %u results at %p: %s", what ? "IFF_getChunksFromForm" : "IFF_searchFormsFromArray", len, (void *)r, show(n).c_str());
            if(first) { first = false; whole.assign(r, r + len); }
            size_t at = 0; for(unsigned i = 0; i < len; i++) { while(at < whole.size() && whole[at] != r[i]) at++; REQUIRE(at < whole.size(), "out of memory, %s finds something that does not belong there: %s", what ? "IFF_getChunksFromForm" : "IFF_searchFormsFromArray", show(n).c_str()); at++; }
            REQUIRE(len == whole.size() || (hit && gMessageCount), "an incomplete search result (%u of %zu) is not reported: %s", len, whole.size(), show(n).c_str());
            if(r) vpw_free(r); REQUIRE(libLive() == live, "searching without memory leaves %zu allocations: %s", libLive() - live, show(n).c_str());
        });
        string d = diffChunk(x, n, nullptr); REQUIRE(d.empty(), "searching without memory changed the hierarchy: %s", d.c_str());
        freeTree(x); c.label(what ? "retrieve" : "search"); return;
    }
    if(what == 2)
    {
        string old = genData(s, s.below(20)), text; size_t k = s.below(40); for(size_t i = 0; i < k; i++) text += (char)s.range(1, 255);
        sweep([&](bool)
        {
            Node d; d.id = mk("TEXT"); d.data = old; d.size = (int32_t)old.size();
            IFF_RawChunk *x = (IFF_RawChunk *)IFF_createRawChunk(d.id, d.size); if(!x) { REQUIRE(libFaultHit() && libLive() == 0, "creating a chunk fails"); return; }
            memcpy(x->chunkData, old.data(), old.size()); IFF_setTextData(x, text.c_str()); bool hit = libFaultHit(); libFaultDisarm(); bool set = x->chunkSize == (IFF_Long)text.size() && (text.empty() || !memcmp(x->chunkData, text.data(), text.size())); REQUIRE(set || hit, "IFF_setTextData does not set '%s'", hexs(text).c_str()); const string &want = set ? text : old;
            REQUIRE(x->chunkSize == (IFF_Long)want.size() && (want.empty() || !memcmp(x->chunkData, want.data(), want.size())), "IFF_setTextData %s leaves %d bytes, expected '%s'", hit ? "without memory" : "", x->chunkSize, hexs(want).c_str());
            REQUIRE(set || gMessageCount, "IFF_setTextData without memory reports nothing"); IFF_free((IFF_Chunk *)x, nullptr); REQUIRE(libLive() == 0, "IFF_setTextData leaves %zu allocations", libLive());
        });
        c.label("set text"); return;
    }
    if(what == 3)
    {
        unsigned kind = (unsigned)s.below(4), k = (unsigned)s.range(1, 12); bool automatic = s.chance(1, 2);
        sweep([&](bool)
        {
            libFaultPause(true); IFF_Group *g = kind == 0 ? (IFF_Group *)IFF_createEmptyForm(mk("TEST")) : kind == 1 ? (IFF_Group *)IFF_createEmptyCAT() : kind == 2 ? (IFF_Group *)IFF_createEmptyList() : (IFF_Group *)IFF_createEmptyProp(mk("TEST"));
            vector<IFF_Chunk *> in; vector<bool> prop; for(unsigned i = 0; i < k; i++) { bool p = kind == 2 && (i * 7 + k) % 3 == 0; prop.push_back(p); in.push_back(p ? (IFF_Chunk *)IFF_createEmptyProp(mk("TEST")) : kind == 1 || kind == 2 ? (IFF_Chunk *)IFF_createEmptyForm(i % 2 ? mk("TEST") : mk("ILBM")) : IFF_createRawChunk(mk("BODY"), (IFF_Long)i)); }
            vector<IFF_Chunk *> members, props; int32_t size = 4; uint32_t type = g->groupType; int failed = 0;
            auto check = [&](const char *when) {
                REQUIRE(g->chunkLength == members.size() && g->chunkSize == size && (members.empty() || !memcmp(g->chunk, members.data(), members.size() * sizeof(void *))), "%s: %u members and size %d, expected %zu and %d", when, g->chunkLength, g->chunkSize, members.size(), size);
                for(auto m : members) REQUIRE(m->parent == g, "%s: a member has the wrong parent", when);
                REQUIRE(g->groupType == type, "%s: the type of the group is '%s', expected '%s'", when, idStr(g->groupType).c_str(), idStr(type).c_str());
                if(kind == 2) { IFF_List *l = (IFF_List *)g; REQUIRE(l->propLength == props.size() && (props.empty() || !memcmp(l->prop, props.data(), props.size() * sizeof(void *))), "%s: %u properties, expected %zu", when, l->propLength, props.size()); }
            };
            for(unsigned i = 0; i < k; i++)
            {
                unsigned before = g->chunkLength + (kind == 2 ? ((IFF_List *)g)->propLength : 0);
                libFaultPause(false);
                switch(kind) { case 0: IFF_addToForm((IFF_Form *)g, in[i]); break; case 1: (automatic ? IFF_addToCATAndUpdateContentsType : IFF_addToCAT)((IFF_CAT *)g, in[i]); break; case 2: if(prop[i]) IFF_addPropToList((IFF_List *)g, (IFF_Prop *)in[i]); else (automatic ? IFF_addToListAndUpdateContentsType : IFF_addToList)((IFF_List *)g, in[i]); break; default: IFF_addToProp((IFF_Prop *)g, in[i]); }
                libFaultPause(true); bool hit = libFaultTakeHit(); unsigned after = g->chunkLength + (kind == 2 ? ((IFF_List *)g)->propLength : 0);
                if(after > before && automatic && !prop[i] && (kind == 1 || kind == 2)) { uint32_t t = ((IFF_Group *)in[i])->groupType; type = members.empty() || type == t ? t : M_JJJJ; }
                if(after > before) { (prop[i] ? props : members).push_back(in[i]); size += 8 + in[i]->chunkSize + (in[i]->chunkSize & 1); in[i] = nullptr; }
                else { REQUIRE(hit, "adding chunk %u does nothing", i); REQUIRE(in[i]->parent == nullptr, "chunk %u that was not added refers to the group", i); failed++; }
                check(strf("adding chunk %u %s", i, after > before ? "" : "without memory").c_str());
            }
            for(auto x : in) if(x) IFF_free(x, nullptr);
            libFaultPause(false); IFF_free((IFF_Chunk *)g, nullptr); REQUIRE(libLive() == 0, "%zu allocations are left after adding without memory", libLive());
        });
        c.label("add"); return;
    }
    // the tools: failure with a message and no output, or complete success
    string dir = c.scratch + "/o16"; mkdir(dir.c_str(), 0755); string a = dir + "/a", b = dir + "/b", out = dir + "/out", old = "previous"; Node n2 = genTree(s, GenOpts()); putFile(a, encode(n)); putFile(b, encode(n2));
    Node cat; cat.id = M_CAT; cat.group = true; cat.type = n.type == n2.type ? n.type : M_JJJJ; cat.kids = { n, n2 }; fixSizes(cat); bool join = s.chance(2, 3); unsigned src = (unsigned)s.below(2); string want = encode(cat), rep;
    sweep([&](bool faulty)
    {
        if(join) { putFile(out, old); }
        ToolRun r = join ? runTool(true, { a, "-o", out, b }, nullptr) : runTool(false, src ? vector<string>{ a } : vector<string>{ "-c", a }, nullptr); bool hit = libFaultHit(); libFaultDisarm(); string got; if(join) getFile(out, got);
        if(!faulty) { REQUIRE(r.status == 0, "%s fails: %s", join ? "iffjoin" : "iffpp", r.err.c_str()); rep = r.out; }
        if(r.status == 0) { REQUIRE(join ? got == want : r.out == rep, "%s reports success without memory, but its output is not complete: %s", join ? "iffjoin" : "iffpp", show(cat).c_str()); }
        else { REQUIRE(hit, "%s fails: %s", join ? "iffjoin" : "iffpp", r.err.c_str()); REQUIRE(!r.err.empty(), "%s fails without a message when memory runs out", join ? "iffjoin" : "iffpp"); REQUIRE(join ? true : r.out.empty(), "iffpp fails but prints"); }
        if(!r.exited) REQUIRE(libLive() == 0, "%s leaves %zu allocations when memory runs out", join ? "iffjoin" : "iffpp", libLive());
        if(r.exited) libCleanup();
    });
    for(auto &p : { a, b, out }) unlink(p.c_str()); rmdir(dir.c_str()); c.label(join ? "iffjoin" : "iffpp");
}

// ---------------------------------------------------------------- C16
static void caseC16(Src &s, Ctx &c)
{
    genLayouts(s);
    bool ext = s.chance(1, 3); RegSpec r; if(ext) r = genRegistry(s);
    Registry reg(r); const IFF_ChunkRegistry *R = ext ? &reg.reg : nullptr;
    GenOpts o; o.anyRoot = true; o.maxData = 30; o.maxNodes = 24; o.extremes(c, 600, 0);
    unsigned what = (unsigned)s.below(4); if(s.chance(1, 3)) what = 4 + (unsigned)s.below(5);
    bool later = s.chance(1, 2);
    if(what >= 4) { o.anyRoot = false; oomOther(s, c, genTree(s, o), what - 4, later); return; }
    if(what == 3) // create functions
    {
        int k = (int)s.below(14); int32_t size = (int32_t)s.range(0, 300); uint32_t t = genFormType(s), id = genChunkId(s);
        auto make = [&]() -> IFF_Chunk * {
            switch(k)
            {
                case 0: return IFF_createRawChunk(id, size); case 1: return (IFF_Chunk *)IFF_createForm(size, t); case 2: return (IFF_Chunk *)IFF_createEmptyForm(t);
                case 3: return (IFF_Chunk *)IFF_createCAT(size, t); case 4: return (IFF_Chunk *)IFF_createEmptyCAT(); case 5: return (IFF_Chunk *)IFF_createEmptyCATWithContentsType(t);
                case 6: return (IFF_Chunk *)IFF_createList(size, t); case 7: return (IFF_Chunk *)IFF_createEmptyList(); case 8: return (IFF_Chunk *)IFF_createEmptyListWithContentsType(t);
                case 9: return (IFF_Chunk *)IFF_createProp(size, t); case 10: return (IFF_Chunk *)IFF_createEmptyProp(t); case 11: return (IFF_Chunk *)IFF_createGroup(M_FORM, size, t);
                case 12: return (IFF_Chunk *)IFF_createEmptyGroup(M_CAT, t);
            }
            return IFF_createRawChunk(id, size);
        };
        libFaultArm(-1, false); IFF_Chunk *ch = make(); uint64_t A = libAllocCount(); REQUIRE(ch, "creating a chunk failed"); IFF_free(ch, nullptr);
        for(uint64_t i = 0; i < A; i++)
        {
            libFaultArm((int64_t)i, later); IFF_Chunk *x = make(); bool hit = libFaultHit(); libFaultDisarm(); c.subEvals++;
            REQUIRE(!hit || !x, "create function %d returned a chunk although allocation %llu failed", k, (unsigned long long)i);
            REQUIRE(libLive() == 0, "create function %d left %zu allocations after allocation %llu failed", k, libLive(), (unsigned long long)i);
        }
        c.label("create"); if(A > 0) { c.nontriv(hashBytes(&size, 4, (uint64_t)k * 1000 + A)); c.desc = strf("create function %d, %llu allocations", k, (unsigned long long)A); }
        return;
    }
    Node n = ext ? genExtTree(s, o, r) : genTree(s, o);
    if(what == 2) { vector<Node *> all; allNodes(n, all); for(int i = 0; i < 3; i++) { Node *t = all[s.below(all.size())]; if(t->group) t->size += (int32_t)s.range(1, 300); } }
    if(ext) canonical(n, r);
    string b = encode(n);
    if(what <= 1)
    {
        if(s.chance(1, 3)) { b += s.chance(1, 2) ? encode(n) + encode(n) : string((size_t)s.range(1, 3000), (char)s.below(3)); c.label("read, more data follows"); } // that a failure must not run into
        string p = tempFile(c, "oom.iff"); bool file = what == 1 && s.chance(1, 4); if(file) putFile(p, b);
        auto rdd = [&] { return file ? IFF_read(p.c_str(), R) : readBytes(b, R); };
        libFaultArm(-1, false); IFF_Chunk *ch = rdd(); uint64_t A = libAllocCount(); REQUIRE(ch, "reading %s failed", show(n).c_str()); IFF_free(ch, R);
        size_t step = A > 120 ? 1 + A / 60 : 1;
        for(uint64_t i = 0; i < A; i += step)
        {
            messagesClear();
            libFaultArm((int64_t)i, later); IFF_Chunk *x = rdd(); bool hit = libFaultHit(); libFaultDisarm(); c.subEvals++;
            REQUIRE(!hit || !x, "reading %s succeeded although allocation %llu of %llu failed", show(n).c_str(), (unsigned long long)i, (unsigned long long)A);
            if(x) IFF_free(x, R);
            REQUIRE(libLive() == 0, "reading %s: %zu allocations left after allocation %llu of %llu failed:%s", show(n).c_str(), libLive(), (unsigned long long)i, (unsigned long long)A, libLiveDesc().c_str());
        }
        if(file) unlink(p.c_str());
        c.label("read"); c.count("allocations failed", A / step);
        if(A > 2) { c.nontriv(hashBytes(b.data(), b.size(), later)); c.desc = show(n) + strf(": %llu allocations", (unsigned long long)A); }
    }
    else
    {
        IFF_Chunk *ch = ext ? buildExt(n, r, 0, reg) : build(n); size_t live = libLive();
        libFaultArm(-1, false); bool ok; string w = writeBytes(ch, R, ok); uint64_t A = libAllocCount(); REQUIRE(ok && w == b, "writing %s %s%s", show(n).c_str(), ok ? "stores something else: " : "failed: ", ok ? firstDiff(w, b).c_str() : gMessages.c_str());
        for(uint64_t i = 0; i < A; i++)
        {
            libFaultArm((int64_t)i, later); w = writeBytes(ch, R, ok); libFaultDisarm(); c.subEvals++;
            REQUIRE(!ok || w == b, "writing %s was reported as success with other bytes when allocation %llu failed", show(n).c_str(), (unsigned long long)i);
            REQUIRE(libLive() == live, "writing %s: allocations left", show(n).c_str());
        }
        w = writeBytes(ch, R, ok); REQUIRE(ok && w == b, "writing %s after failed attempts gives something else", show(n).c_str());
        IFF_free(ch, R); c.label("write");
        c.count("allocations failed", A);
        c.nontriv(hashBytes(b.data(), b.size(), 2)); c.desc = show(n) + strf(": write with %llu allocations", (unsigned long long)A);
    }
}

static RegProp r4({ "C04", "exploration",
    "Random bytes, chunk soups with boundary sizes and IDs, broken hierarchies and mutated well-formed files are read (files, streams in pieces, built-in and generated extension registries); whatever is returned is checked, printed, compared, searched, queried, written, updated and freed under AddressSanitizer/UBSan with tracked allocations and a CPU limit. Thorough tier adds coverage-guided bytes. Non-trivial: at least 12 bytes and not simply well-formed; distinct by bytes.",
    caseC04, 120000, 3000000, 1500000, fixedC04, { "AddressSanitizer and UBSan (without shift) detect the memory errors", "allocations above 64 MB fail" } });
static RegProp r5({ "C05", "fault_enumeration",
    "Files whose last chunks declare more than follows, and every strict prefix of generated well-formed files (above 700 bytes: ~300 evenly spread prefixes and the longest) is offered as stream, file, standard input or pipe, and read errors are injected at the same offsets; each must be rejected with a message and nothing left allocated. Non-trivial: file longer than 12 bytes; distinct by file and kind of source.",
    caseC05, 9000, 150000, 30000, nullptr, { "read errors are simulated with stdio cookie streams" } });
static RegProp r15({ "C15", "fault_enumeration",
    "For generated hierarchies the destination fails at every output offset (above 500 bytes: ~250 offsets and the last): cookie streams unbuffered/buffered, failing once or for good, standard output, files under RLIMIT_FSIZE, /dev/full, unwritable paths; success may never be reported, and a later attempt must store everything. Non-trivial: more than 12 bytes of output; distinct by bytes and kind.",
    caseC15, 12000, 200000, 30000, nullptr, { "for streams of the caller, buffered errors may surface when the caller closes the stream" } });
static RegProp r16({ "C16", "fault_enumeration",
    "For generated inputs every allocation the library makes while creating, reading, writing, searching, retrieving, adding or setting text, or that iffpp and iffjoin make, is made to fail in turn (above 120 allocations: ~60 of them), alone or with all later ones; reads and creations must fail cleanly, writes must fail or be complete, searches give a shorter or no result, edits happen or leave everything as it was, the programs fail, nothing stays allocated. Non-trivial: more than two allocations (read), any (otherwise); distinct by input.",
    caseC16, 30000, 500000, 60000, nullptr, { "the library allocates through malloc, calloc and realloc only" } }, GIANT_DEEP);
