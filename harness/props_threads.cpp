// C25 separate threads
#include "ext.h"
#include "robust.h"
#include <atomic>
#include <cstring>
#include <thread>
#include <unistd.h>
#include <sched.h>
using std::string; using std::vector;

// What one thread does, and everything it needs, prepared before any thread runs
enum Kind { T_BUILD, T_READ, T_BAD, T_FILE, T_CHECK, T_COMPARE, T_SEARCH, T_QUERY, T_WRITE, T_PRINT, T_EDIT, T_TEXT, T_SHARED, T_BADFILE, T_ID, T_IO, T_EXT, KINDS };
struct Step { Kind k; uint32_t a; string bytes; };
struct Script { Node n, other, ext; vector<Step> steps; string path; };
struct Shared { IFF_Chunk *p = nullptr, *q = nullptr; const RegSpec *spec = nullptr; const Registry *reg = nullptr; };

static string query(IFF_Chunk *x, uint32_t a)
{
    string t; vector<IFF_Chunk *> all; libNodes(x, all);
    auto place = [&](const void *p) { size_t i = 0; while(i < all.size() && all[i] != p) i++; return p ? strf("%zu ", i) : string("- "); };
    for(auto f : all) if(f->chunkId == M_FORM)
    {
        IFF_Form *fm = (IFF_Form *)f; uint32_t id = a % 3 == 0 && fm->chunkLength ? fm->chunk[a % fm->chunkLength]->chunkId : mk(a % 3 == 1 ? "NAME" : "CMAP");
        t += place(IFF_getChunkFromForm(fm, id)); unsigned n; IFF_Chunk **r = IFF_getChunksFromForm(fm, id, &n); for(unsigned i = 0; i < n; i++) t += place(r[i]); vpw_free(r);
    }
    return t;
}
static string search(IFF_Chunk *x, uint32_t a)
{
    string t; vector<IFF_Chunk *> all; libNodes(x, all); IFF_ID types[2] = { mk("TEST"), mk("ILBM") }; for(auto c : all) if(c->chunkId == M_FORM && a-- % 3 == 0) { types[0] = ((IFF_Form *)c)->formType; break; }
    unsigned n; IFF_Form **r = IFF_searchFormsFromArray(x, types, 2, &n); for(unsigned i = 0; i < n; i++) { size_t k = 0; while(k < all.size() && all[k] != (IFF_Chunk *)r[i]) k++; t += strf("%zu ", k); } vpw_free(r);
    return t + strf("(%u)", n);
}
// Writes numbers to a stream of its own and reads them back
static string values(uint32_t a)
{
    string t; char b[600]; memset(b, 0, sizeof b); FILE *f = fmemopen(b, sizeof b, "w+b"); if(!f) harnessf("fmemopen"); setvbuf(f, nullptr, _IONBF, 0); IFF_ID id = mk("BODY"); IFF_Chunk ck = { nullptr, id, 400 }; IFF_Long done = 0; int n = 0;
    for(int i = 0; i < 6; i++)
    {
        uint32_t v = a * 2654435761u + (uint32_t)i * 40503u;
        n += IFF_writeUByte(f, (IFF_UByte)v, id, "b") + IFF_writeUWord(f, (IFF_UWord)v, id, "w") + IFF_writeWord(f, (IFF_Word)(v >> 8), id, "s") + IFF_writeULong(f, v, id, "u") + IFF_writeLong(f, (IFF_Long)~v, id, "l") + IFF_writeId(f, v ^ id, id, "i");
        n += IFF_writeUByteField(f, (IFF_UByte)v, &ck, "b", &done) == IFF_FIELD_MORE; n += IFF_writeUWordField(f, (IFF_UWord)v, &ck, "b", &done) == IFF_FIELD_MORE; n += IFF_writeWordField(f, (IFF_Word)v, &ck, "b", &done) == IFF_FIELD_MORE; n += IFF_writeULongField(f, v, &ck, "b", &done) == IFF_FIELD_MORE; n += IFF_writeLongField(f, (IFF_Long)v, &ck, "b", &done) == IFF_FIELD_MORE; n += IFF_writeIdField(f, v, &ck, "b", &done) == IFF_FIELD_MORE;
    }
    n += IFF_writeZeroFillerBytes(f, id, 20, 3) + IFF_writePaddingByte(f, 5, id); long end = ftell(f); rewind(f); t = strf("%d %d %ld ", n, done, end); done = 0;
    for(int i = 0; i < 6; i++)
    {
        IFF_UByte ub = 0; IFF_UWord uw = 0; IFF_Word w = 0; IFF_ULong ul = 0; IFF_Long l = 0; IFF_ID x = 0;
        IFF_readUByte(f, &ub, id, "b"); IFF_readUWord(f, &uw, id, "b"); IFF_readWord(f, &w, id, "b"); IFF_readULong(f, &ul, id, "b"); IFF_readLong(f, &l, id, "b"); IFF_readId(f, &x, id, "b"); t += strf("%x %x %d %x %d %x ", ub, uw, w, ul, l, x);
        IFF_readUByteField(f, &ub, &ck, "b", &done); IFF_readUWordField(f, &uw, &ck, "b", &done); IFF_readWordField(f, &w, &ck, "b", &done); IFF_readULongField(f, &ul, &ck, "b", &done); IFF_readLongField(f, &l, &ck, "b", &done); IFF_readIdField(f, &x, &ck, "b", &done); t += strf("%x %x %d %x %d %x; ", ub, uw, w, ul, l, x);
    }
    n = IFF_skipUnknownBytes(f, id, 20, 3); n += IFF_readPaddingByte(f, 5, id); t += strf("%d %d %ld ", n, done, ftell(f)); fclose(f); return t + hexs(string(b, sizeof b), 100000);
}
// Runs a script and returns everything that can be observed
static string runScript(const Script &sc, const Shared &sh)
{
    string t; bool ok; IFF_Chunk *x = build(sc.n), *y = build(sc.other); messagesClear();
    auto end = [&](const string &r) { t += r; t += " ["; t += gMessages; t += strf("]%u\n", gMessageCount); messagesClear(); };
    for(auto &st : sc.steps) switch(st.k)
    {
        case T_BUILD: { IFF_Chunk *z = build(sc.n); end(diffChunk(z, sc.n, nullptr)); freeTree(z); break; }
        case T_READ: case T_BAD: { IFF_Chunk *z = readBytes(st.bytes, nullptr); end(z ? "read " + hexs(writeBytes(z, nullptr, ok), 100000) : string("not read")); if(z) freeTree(z); break; }
        case T_FILE: { bool w = IFF_write(sc.path.c_str(), x, nullptr); IFF_Chunk *z = IFF_read(sc.path.c_str(), nullptr); end(strf("written %d, read %d, equal %d", w, z != nullptr, z && IFF_compare(x, z, nullptr))); if(z) freeTree(z); break; }
        case T_CHECK: end(strf("valid %d %d", IFF_check(x, nullptr), IFF_check(y, nullptr))); break;
        case T_COMPARE: end(strf("equal %d %d", IFF_compare(x, x, nullptr), IFF_compare(x, y, nullptr))); break;
        case T_SEARCH: end(search(x, st.a)); break;
        case T_QUERY: end(query(x, st.a)); break;
        case T_WRITE: { string b = writeBytes(x, nullptr, ok); end(strf("%d ", ok) + hexs(b, 100000)); break; }
        case T_PRINT: IFF_print(x, st.a % 4, nullptr); end("printed"); break;
        case T_EDIT: { IFF_CAT *cat = IFF_createEmptyCAT(); IFF_Form *f = IFF_createEmptyForm(mk("TEST")); IFF_Form *g = IFF_createEmptyForm(st.a % 2 ? mk("ILBM") : mk("TEST")); IFF_RawChunk *d = (IFF_RawChunk *)IFF_createRawChunk(mk("BODY"), (IFF_Long)(st.a % 7)); memset(d->chunkData, (int)st.a, st.a % 7); IFF_addToForm(f, (IFF_Chunk *)d); IFF_addToCATAndUpdateContentsType(cat, (IFF_Chunk *)f); IFF_addToCATAndUpdateContentsType(cat, (IFF_Chunk *)g); IFF_addToForm(g, IFF_createRawChunk(mk("NAME"), 0)); IFF_updateChunkSizes((IFF_Chunk *)g); bool v = IFF_check((IFF_Chunk *)cat, nullptr); end(strf("%d ", v) + hexs(writeBytes((IFF_Chunk *)cat, nullptr, ok))); IFF_free((IFF_Chunk *)cat, nullptr); break; }
        case T_TEXT: { IFF_RawChunk *d = (IFF_RawChunk *)IFF_createRawChunk(mk("TEXT"), 3); memcpy(d->chunkData, "old", 3); IFF_setTextData(d, strf("text %u", st.a).c_str()); end(hexs(writeBytes((IFF_Chunk *)d, nullptr, ok))); IFF_free((IFF_Chunk *)d, nullptr); break; }
        case T_SHARED: { string r = strf("shared: %d %d %d ", IFF_check(sh.p, nullptr), IFF_compare(sh.p, sh.q, nullptr), IFF_compare(sh.q, sh.p, nullptr)) + search(sh.p, st.a) + query(sh.p, st.a); r += hexs(writeBytes(sh.p, nullptr, ok), 100000); end(r); break; }
        case T_IO: end(values(st.a)); break;
        case T_EXT:
        {
            const IFF_ChunkRegistry *rg = &sh.reg->reg; IFF_Chunk *z = buildExt(sc.ext, *sh.spec, 0, *sh.reg); gLog.clear(); string b = writeBytes(z, rg, ok); IFF_Chunk *w = readBytes(b, rg);
            string r = strf("written %d %s, read %d ", ok, hexs(b, 100000).c_str(), w != nullptr); if(w) { r += diffExt(w, sc.ext, nullptr, *sh.spec, 0) + strf("equal %d valid %d ", IFF_compare(z, w, rg), IFF_check(w, rg)); vector<IFF_Chunk *> all; libNodes(w, all); for(size_t i = 0; i < all.size() && i < 6; i++) r += strf("%d ", (int)(IFF_findChunkType(rg, st.a % 2 ? sc.ext.type : st.a, all[i]->chunkId) == IFF_findChunkType(rg, st.a % 2 ? sc.ext.type : st.a, all[i]->chunkId))); IFF_print(w, 0, rg); IFF_free(w, rg); }
            IFF_free(z, rg); for(auto &e : gLog) r += strf("%d/%d/%x ", e.op, e.handler, e.chunkId); gLog.clear(); end(r); break;
        }
        case T_BADFILE: { IFF_Chunk *z = IFF_read((sc.path + "/none").c_str(), nullptr); end(strf("missing: %d, unwritable: %d", z != nullptr, IFF_write((sc.path + "/none").c_str(), x, nullptr))); break; }
        default: { IFF_ID2 id; IFF_idToString(st.a, id); IFF_ID back = st.a; end(hexs(id, 4) + strf(" %u %d %d", back, IFF_checkId(st.a), IFF_checkFormType(st.a))); }
    }
    freeTree(x); freeTree(y); return t;
}
static void caseC25(Src &s, Ctx &c)
{
    genLayouts(s); RegSpec spec = genRegistry(s); Registry reg(spec); for(auto &x : gExtCheckVerdict) x = true;
    unsigned T = (unsigned)s.range(2, 4); vector<Script> sc(T); uint64_t h = T; string ctx; size_t bad = 0;
    for(unsigned i = 0; i < T; i++)
    {
        GenOpts o; o.maxNodes = 12; o.maxData = 24; o.maxDepth = 4; sc[i].n = genTree(s, o); sc[i].other = s.chance(1, 2) ? sc[i].n : genTree(s, o); if(s.chance(1, 2)) mutateTree(s, sc[i].other); if(s.chance(1, 4)) mutateTree(s, sc[i].n); sc[i].path = tempFile(c, strf("t%u.iff", i).c_str());
        sc[i].ext = genExtTree(s, o, spec); canonical(sc[i].ext, spec);
        unsigned k = (unsigned)s.range(2, 8); ctx += strf("thread %u:", i);
        for(unsigned j = 0; j < k; j++)
        {
            Step st; st.k = (Kind)s.below(KINDS); st.a = s.u32(); if(st.k == T_READ) st.bytes = encode(sc[i].n); if(st.k == T_BAD) { st.bytes = s.chance(1, 2) ? encode(sc[i].n) : hostileBytes(s, nullptr); if(!st.bytes.empty()) st.bytes.resize(s.below(st.bytes.size())); bad++; }
            static const char *nm[] = { "build", "read", "failing read", "file", "check", "compare", "search", "query", "write", "print", "edit", "text", "shared", "bad file", "ids", "values", "registry" }; ctx += string(" ") + nm[st.k]; c.label(nm[st.k]); h = mix64(h ^ hashBytes(st.bytes.data(), st.bytes.size(), st.a * 16 + st.k)); sc[i].steps.push_back(std::move(st));
        }
        h = mix64(h ^ hashNode(sc[i].n)); ctx += "; ";
    }
    Node sn = genTree(s, GenOpts()); unsigned rounds = c.again ? 9 : 3; gThreads = true; long live = libThreadLive(); Shared sh; sh.spec = &spec; sh.reg = &reg; sh.p = build(sn); sh.q = build(sn);
    FILE *none = fopen("/dev/null", "w"), *so = stdout; if(!none) harnessf("/dev/null"); stdout = none;
    vector<string> alone(T), err(T); vector<vector<string>> got(T, vector<string>(rounds));
    try { for(unsigned i = 0; i < T; i++) alone[i] = runScript(sc[i], sh); }
    catch(...) { stdout = so; fclose(none); gThreads = false; throw; }
    for(unsigned r = 0; r < rounds; r++)
    {
        std::atomic<unsigned> ready{0}; vector<std::thread> th;
        for(unsigned i = 0; i < T; i++) th.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed); while(ready.load(std::memory_order_relaxed) < T) sched_yield();
            try { got[i][r] = runScript(sc[i], sh); } catch(const Fail &f) { err[i] = f.msg; } catch(const HarnessError &f) { err[i] = "harness: " + f.msg; }
        });
        for(auto &t : th) t.join();
        c.subEvals += T;
    }
    stdout = so; fclose(none); freeTree(sh.p); freeTree(sh.q); long left = libThreadLive() - live; gThreads = false; for(auto &x : sc) unlink(x.path.c_str());
    for(unsigned i = 0; i < T; i++)
    {
        REQUIRE(err[i].empty(), "in thread %u: %s (%s)", i, err[i].c_str(), ctx.c_str());
        for(unsigned r = 0; r < rounds; r++) if(got[i][r] != alone[i]) { size_t k = 0; while(k < got[i][r].size() && k < alone[i].size() && got[i][r][k] == alone[i][k]) k++; size_t f = k > 60 ? k - 60 : 0; failf("thread %u of %u gets other results than alone: '%s' instead of '%s' (%s)", i, T, got[i][r].substr(f, 200).c_str(), alone[i].substr(f, 200).c_str(), ctx.c_str()); }
    }
    REQUIRE(left == 0, "%ld allocations are left by concurrent work: %s", left, ctx.c_str());
    c.label(strf("%u threads", T)); c.nontriv(h); c.desc = ctx.substr(0, 500);
}

static RegProp r25({ "C25", "exploration",
    "2-4 threads, each with a generated script of 2-8 operations (building, reading good and cut-off data, named files, checking, comparing, searching, querying, writing, printing, editing) on its own hierarchies, plus read-only operations on one shared hierarchy; every script runs alone first and then three times concurrently with the others, streams yield at random. Results, bytes and messages must equal those of the script alone; everything runs under ThreadSanitizer, which reports unsynchronised accesses whatever the interleaving. Non-trivial: every case; distinct by scripts and hierarchies.",
    caseC25, 4000, 100000, 0, nullptr, { "ThreadSanitizer sees every access of the instrumented library; the error callback is installed before the threads start" } }, 0, true);
