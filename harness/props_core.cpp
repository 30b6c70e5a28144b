// C01 encoding, C02 decoding, C03 round trip
#include "ext.h"
#include <cstring>
#include <unistd.h>
using std::string; using std::vector;

void sampleOf(Ctx &c, const Node &n) { c.desc = show(n); if(c.desc.size() > 600) c.desc.resize(600); }

string firstDiff(const string &a, const string &b)
{
    size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t from = i > 8 ? i - 8 : 0;
    return strf("first difference at offset %zu (lengths %zu and %zu): got ..%s, expected ..%s", i, a.size(), b.size(), hexs(a.substr(std::min(from, a.size())), 24).c_str(), hexs(b.substr(std::min(from, b.size())), 24).c_str());
}

// ---------------------------------------------------------------- C01
static void caseC01(Src &s, Ctx &c)
{
    GenOpts o; o.anyRoot = true; o.big = true; o.maxData = s.chance(1, 10) ? 3000 : 48; o.extremes(c, 150);
    Node n = genTree(s, o);
    bool stretched = false;
    if(s.chance(1, 8)) // a group declared larger than its contents is filled up with zeroes
    {
        vector<Node *> all; allNodes(n, all); vector<Node *> g; for(auto x : all) if(x->group) g.push_back(x);
        if(!g.empty()) { Node *t = g[s.below(g.size())]; t->size += tailSize(s); stretched = true; }
    }
    if(oddTypes(s, n, true, 20)) c.label("unusual group types and IDs");
    IFF_Chunk *ch = build(n, &s, true);
    IFF_Group *reuser = nullptr; unsigned had = 0;
    if(!stretched && s.chance(1, 10)) // one chunk object several times in a group
    {
        vector<Node *> all; allNodes(n, all); vector<IFF_Chunk *> lib; libNodes(ch, lib); vector<size_t> g; for(size_t i = 0; i < all.size(); i++) if(all[i]->group && !all[i]->kids.empty()) g.push_back(i);
        if(!g.empty() && all.size() == lib.size())
        {
            size_t at = g[s.below(g.size())]; Node *t = all[at]; reuser = (IFF_Group *)lib[at]; had = reuser->chunkLength;
            for(int k = (int)s.range(1, 4); k > 0; k--) { size_t j = s.below(t->kids.size()); if(encode(n).size() > 3000000) break; Node again = t->kids[j]; IFF_addToGroup(reuser, reuser->chunk[j]); t->kids.push_back(again); }
            fixSizes(n); IFF_updateChunkSizes((IFF_Chunk *)reuser); c.label("one chunk several times");
        }
    }
    string exp = encode(n);
    unsigned how = (unsigned)s.below(6);
    string got; IFF_Bool ok = TRUE;
    c.subEvals++;
    if(how == 0)
    {
        string p = tempFile(c, "out.iff"); putFile(p, "previous content that is longer than nothing at all");
        ok = s.chance(1, 2) ? IFF_write(p.c_str(), ch, nullptr) : IFF_writeFile(p.c_str(), ch, nullptr);
        getFile(p, got); unlink(p.c_str()); c.label("to named file");
    }
    else if(how == 1) { got = captureStdout([&] { ok = IFF_write(nullptr, ch, nullptr); }); c.label("to stdout"); }
    else if(how == 2) // several chunks one after another on one stream
    {
        MemOut m; FILE *f = openOut(m, (int)s.below(3)); string exp1 = exp; unsigned k = 1 + (unsigned)s.below(3);
        fputs("abc", f);
        exp = "abc";
        for(unsigned i = 0; i < k; i++) { ok = ok && IFF_writeChunk(f, ch, 0, &IFF_defaultChunkRegistry); exp += exp1; }
        fclose(f); got = m.data; c.label("several on one stream");
    }
    else { MemOut m; m.seekable = s.chance(1, 2); FILE *f = openOut(m, (int)s.below(3)); ok = IFF_writeFd(f, ch, s.chance(1, 2) ? nullptr : &IFF_defaultChunkRegistry); fclose(f); got = m.data; c.label("to open stream"); }
    REQUIRE(ok, "writing %s failed: %s", show(n).c_str(), gMessages.c_str());
    REQUIRE(got == exp, "written bytes differ for %s: %s", show(n).c_str(), firstDiff(got, exp).c_str());
    if(reuser) reuser->chunkLength = had;
    freeTree(ch);
    c.label("root " + treeClass(n)); if(stretched) c.label("zero filled group");
    if(countNodes(n) >= 2 || !n.data.empty()) { c.nontriv(hashBytes(exp.data(), exp.size())); sampleOf(c, n); }
}

// ---------------------------------------------------------------- C02
// An encoder with liberties a reader must accept: non-zero pad bytes, PROPs late in a LIST.
static void encodeLoose(Src &s, const Node &n, string &out, bool &padded, bool &late, Node &order)
{
    order = n; order.kids.clear(); order.props.clear();
    put32(out, n.id); put32(out, (uint32_t)n.size);
    if(n.group)
    {
        put32(out, n.type);
        vector<const Node *> seq; size_t pi = 0, ki = 0;
        bool shuffle = !n.props.empty() && !n.kids.empty() && s.chance(1, 4);
        while(pi < n.props.size() || ki < n.kids.size())
        {
            bool takeProp = pi < n.props.size() && (ki >= n.kids.size() || !shuffle || s.chance(1, 2));
            if(takeProp && ki > 0) late = true;
            Node sub; encodeLoose(s, takeProp ? n.props[pi] : n.kids[ki], out, padded, late, sub);
            (takeProp ? pi : ki)++;
            (takeProp ? order.props : order.kids).push_back(sub);
        }
    }
    else out += n.data;
    if(n.size & 1) { if(s.chance(1, 10)) { char b = (char)s.byte(); out += b; if(b) padded = true; } else out += '\0'; }
}
static void caseC02(Src &s, Ctx &c)
{
    GenOpts o; o.anyRoot = true; o.big = true; o.maxData = s.chance(1, 10) ? 3000 : 48; o.extremes(c, 150);
    Node n = genTree(s, o); bool odd = oddTypes(s, n, true); string bytes; bool padded = false, late = false; Node ord;
    if(!n.group && s.chance(1, 2)) // a main chunk with any ID that is not one of a group
    {
        static const uint8_t lead[] = { 0xef, 0xfe, 0xff, 0xbb, 0, '\n', '\r', ' ', 0x1a, 0x1f, 'P', '#', 0x80, 0x7f }; uint32_t v = s.u32();
        if(s.chance(1, 2)) v = (v & 0xffffff) | (uint32_t)lead[s.below(14)] << 24;
        if(!isGroupId(v)) { n.id = v; odd = true; }
    }
    encodeLoose(s, n, bytes, padded, late, ord);
    unsigned how = (unsigned)s.below(4);
    string tail; if(s.chance(1, 3)) { size_t k = 1 + s.below(12); for(size_t i = 0; i < k; i++) tail += (char)s.byte(); }
    messagesClear(); c.subEvals++;
    IFF_Chunk *ch;
    bool expectTrailWarning = false;
    if(how == 0) // chunk level: exact position afterwards
    {
        MemIn m; m.data = bytes + tail; m.gran = s.below(3) ? 0 : 1 + s.below(7); m.seekable = s.chance(1, 2); FILE *f = openIn(m, (int)s.below(3));
        ch = IFF_readChunk(f, s.chance(1, 2) ? 0 : genFormType(s), &IFF_defaultChunkRegistry);
        string rest = drain(f); fclose(f);
        REQUIRE(ch, "reading well-formed %s failed: %s", show(n).c_str(), gMessages.c_str());
        REQUIRE(rest == tail, "reading %s consumed the wrong number of bytes: %zu left, %zu follow the chunk", show(n).c_str(), rest.size(), tail.size());
        c.label("chunk read, position checked");
    }
    else if(how == 1) // two chunks one after another
    {
        GenOpts o2; o2.anyRoot = true; o2.maxNodes = 6; Node n2 = genTree(s, o2);
        MemIn m; m.data = bytes + encode(n2) + tail; FILE *f = openIn(m, (int)s.below(3));
        ch = IFF_readChunk(f, 0, &IFF_defaultChunkRegistry);
        IFF_Chunk *ch2 = IFF_readChunk(f, 0, &IFF_defaultChunkRegistry);
        string rest = drain(f); fclose(f);
        REQUIRE(ch && ch2, "reading two well-formed chunks in sequence failed: %s", gMessages.c_str());
        string d = diffChunk(ch2, n2, nullptr); REQUIRE(d.empty(), "second chunk on the stream (after %s): %s", show(n).c_str(), d.c_str());
        REQUIRE(rest == tail, "two chunks on one stream: wrong final position");
        freeTree(ch2); c.label("two on one stream");
    }
    else
    {
        expectTrailWarning = !tail.empty();
        if(how == 2) { string p = tempFile(c, "in.iff"); putFile(p, bytes + tail); ch = s.chance(1, 2) ? IFF_read(p.c_str(), nullptr) : IFF_readFile(p.c_str(), nullptr); unlink(p.c_str()); c.label("named file"); }
        else ch = readBytes(bytes + tail, s.chance(1, 2) ? nullptr : &IFF_defaultChunkRegistry), c.label("main chunk of a stream");
        REQUIRE(ch, "reading well-formed %s failed: %s", show(n).c_str(), gMessages.c_str());
    }
    string d = diffChunk(ch, n, nullptr);
    REQUIRE(d.empty(), "decoded hierarchy differs: %s (input %s)", d.c_str(), hexs(bytes).c_str());
    if(expectTrailWarning) { REQUIRE(gMessageCount > 0, "no warning about %zu trailing bytes", tail.size()); c.label("trailing bytes warned"); }
    else if(!padded) REQUIRE(gMessageCount == 0, "message on well-formed input: %s", gMessages.c_str());
    if(padded && !expectTrailWarning) { REQUIRE(gMessageCount > 0, "no warning about a non-zero pad byte"); c.label("non-zero pad"); }
    if(late) c.label("late PROP"); if(odd) c.label("unusual group types");
    freeTree(ch);
    c.label("root " + treeClass(n));
    if(countNodes(n) >= 2 || !n.data.empty()) { c.nontriv(hashBytes(bytes.data(), bytes.size())); sampleOf(c, n); }
}

// ---------------------------------------------------------------- C03
static void viaFile(const Ctx &c, const string &bytes) { putFile(tempFile(c, "rt.iff"), bytes); }
static void caseC03(Src &s, Ctx &c)
{
    genLayouts(s);
    bool ext = s.chance(1, 2); RegSpec r; if(ext) r = genRegistry(s);
    Registry reg(r); const IFF_ChunkRegistry *R = ext ? &reg.reg : s.chance(1, 2) ? nullptr : &IFF_defaultChunkRegistry;
    GenOpts o; o.anyRoot = true; o.big = true; o.maxData = s.chance(1, 10) ? 3000 : 48; o.extremes(c, 150);
    Node n = ext ? genExtTree(s, o, r) : genTree(s, o);
    bool huge = s.chance(1, c.fuzzing ? 5000 : 400);
    if(oddTypes(s, n, !ext, huge ? 2 : 10)) c.label("unusual group types and IDs");
    if(huge)
    {
        vector<Node *> all; allNodes(n, all); for(auto x : all) if(!x->group && (!ext || r.resolve(0, x->id) < 0)) { Rng g{s.u32()}; size_t k = 200000 + g.next() % (c.thorough ? 3000000 : 800000); x->data.resize(k); for(auto &b : x->data) b = (char)(g.next() >> 40); break; }
        fixSizes(n);
    }
    if(ext) canonical(n, r);
    const string exp = encode(n);
    bool file = s.chance(1, 6);
    auto rdBytes = [&](const string &b) -> IFF_Chunk * { if(!file) return readBytes(b, R); viaFile(c, b); return IFF_read(tempFile(c, "rt.iff").c_str(), R); };
    auto wrBytes = [&](IFF_Chunk *ch) -> string {
        bool ok; string b;
        if(file) { string p = tempFile(c, "rt2.iff"); ok = IFF_write(p.c_str(), ch, R); REQUIRE(getFile(p, b), "output file missing"); unlink(p.c_str()); }
        else b = writeBytes(ch, R, ok);
        REQUIRE(ok, "writing %s failed: %s", show(n).c_str(), gMessages.c_str());
        return b; };
    if(s.chance(1, 2)) // hierarchy -> file -> hierarchy
    {
        IFF_Chunk *a = ext ? buildExt(n, r, 0, reg) : build(n, &s);
        string b1 = wrBytes(a);
        IFF_Chunk *b = rdBytes(b1);
        REQUIRE(b, "reading back %s failed: %s", show(n).c_str(), gMessages.c_str());
        REQUIRE(IFF_compare(a, b, R) && IFF_compare(b, a, R), "what was read back does not compare equal to the original %s (registry %s)", show(n).c_str(), r.show().c_str());
        string b2 = wrBytes(b);
        REQUIRE(b1 == b2, "second writing differs for %s: %s", show(n).c_str(), firstDiff(b2, b1).c_str());
        string d = ext ? diffExt(b, n, nullptr, r, 0) : diffChunk(b, n, nullptr);
        REQUIRE(d.empty(), "what was read back differs from what was built: %s", d.c_str());
        c.subEvals += 3; c.label(ext ? "hierarchy first, extension registry" : "hierarchy first");
        IFF_free(a, R); IFF_free(b, R);
    }
    else
    {
        IFF_Chunk *a = rdBytes(exp);
        REQUIRE(a, "reading well-formed %s failed: %s (registry %s)", show(n).c_str(), gMessages.c_str(), r.show().c_str());
        string b1 = wrBytes(a);
        REQUIRE(b1 == exp, "read and written again, %s differs (registry %s): %s", show(n).c_str(), r.show().c_str(), firstDiff(b1, exp).c_str());
        IFF_Chunk *b = rdBytes(b1);
        REQUIRE(b && IFF_compare(a, b, R) && IFF_compare(b, a, R), "reading twice gives hierarchies that do not compare equal: %s", show(n).c_str());
        c.subEvals += 3; c.label(ext ? "bytes first, extension registry" : "bytes first");
        IFF_free(a, R); IFF_free(b, R);
    }
    if(file) unlink(tempFile(c, "rt.iff").c_str());
    if(huge) c.label("chunk over 200000 bytes");
    size_t ne = ext ? countExt(n, r) : 0; if(ne) c.label("with extension chunks");
    if((ext && ne) || (!ext && (countNodes(n) >= 2 || !n.data.empty()))) { c.nontriv(hashBytes(exp.data(), exp.size())); sampleOf(c, n); }
}

static RegProp r1({ "C01", "exploration",
    "Random hierarchies (FORM/CAT/LIST/PROP/data chunks, up to ~40 nodes plus deep chains and wide groups, data sizes 0..70001) are built through randomly chosen API routes and written to a named file, stdout or a stream; the bytes must equal an independent encoder's. Non-trivial: more than one chunk or a data chunk with content; distinct by encoded bytes.",
    caseC01, 60000, 1200000, 250000, nullptr, { "the reference encoder in harness/model.cpp is a correct reading of EA IFF-85" } }, ~0u);
static RegProp r2({ "C02", "exploration",
    "Random well-formed encodings (from an independent encoder, with non-zero pad bytes, late PROPs, trailing bytes and several chunks per stream) are read; the public structures must equal the model including parent links, and the stream position must be exact. Non-trivial: more than one chunk or a data chunk with content; distinct by bytes.",
    caseC02, 60000, 1200000, 250000, nullptr, { "streams are trusted to behave as stdio documents" } }, ~0u);
static RegProp r3({ "C03", "exploration",
    "Random hierarchies go hierarchy->bytes->hierarchy->bytes and random well-formed files bytes->hierarchy->bytes->hierarchy, with the built-in types and with generated registries of extension chunk types (generated field layouts), over streams and files, data up to 1 MB. Non-trivial: more than one chunk or content, and with a registry at least one chunk handled by it; distinct by bytes.",
    caseC03, 60000, 1000000, 200000, nullptr, { "extension handlers of the harness use the library's field functions as the README prescribes" } }, ~0u);
