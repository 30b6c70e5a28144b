// C06 validation, C07 ID rules, C09 comparison
#include "ext.h"
#include "robust.h"
#include <cstring>
#include <unistd.h>
#include <algorithm>
using std::string; using std::vector;

// ---------------------------------------------------------------- C06
// one member is broken and its group has just the size that a calculation which gives up at that member might arrive at
static bool refitAbove(Node &n, const Node *t)
{
    if(&n == t) return true;
    for(auto &p : n.props) if(refitAbove(p, t)) { n.size = contentSize(n); return true; }
    for(auto &k : n.kids) if(refitAbove(k, t)) { n.size = contentSize(n); return true; }
    return false;
}
static bool coupledFault(Src &s, Node &n)
{
    vector<Node *> all, g; allNodes(n, all); for(auto x : all) if(x->group && !(x->props.empty() && x->kids.empty())) g.push_back(x);
    if(g.empty()) return false;
    Node *t = g[s.below(g.size())]; bool prop = !t->props.empty() && (t->kids.empty() || s.chance(1, 2)); vector<Node> &v = prop ? t->props : t->kids; size_t i = s.below(v.size());
    vector<Node *> in; allNodes(v[i], in); Node *bad = s.chance(2, 3) ? &v[i] : in[s.below(in.size())];
    if(bad->group) { if(s.chance(1, 4)) bad->size += 2 * (int32_t)s.range(1, 6); else bad->type = s.chance(1, 2) ? 0x61626364 : 0x01020304; } else bad->id = 0x20414243;
    if(bad != &v[i]) refitAbove(v[i], bad);
    auto sum = [](const vector<Node> &w, size_t from, size_t to) { int32_t z = 0; for(size_t k = from; k < to; k++) z += 8 + w[k].size + (w[k].size & 1); return z; };
    int32_t P = sum(t->props, 0, t->props.size()), K = sum(t->kids, 0, t->kids.size()), before = (prop ? 0 : P) + sum(v, 0, i), only = sum(v, i, i + 1);
    const int32_t z[] = { P + K, P, K, before, before + only, sum(v, 0, i), P + K - only, 0, -1, -2, -3, -4, -5, 1, P - 1, K - 1, before - 1 };
    t->size = z[s.below(sizeof z / sizeof *z)] + (s.chance(5, 6) ? 4 : 0); refitAbove(n, t);
    return true;
}
static void caseC06(Src &s, Ctx &c)
{
    GenOpts o; o.maxNodes = s.chance(1, 10) ? 120 : 30; o.maxDepth = s.chance(1, 10) ? 9 : 4; o.maxData = 20; o.extremes(c, 800);
    const IFF_ChunkRegistry *R = s.chance(1, 2) ? nullptr : &IFF_defaultChunkRegistry;
    unsigned how = (unsigned)s.below(5);
    if(how <= 2) // built through the API
    {
        Node n = genTree(s, o); string what; unsigned m = (unsigned)s.below(5); m = m > 3 ? 0 : m;
        for(unsigned i = 0; i < m; i++)
        {
            if(s.chance(1, 8)) // a PROP added as an ordinary member of a LIST
            {
                vector<Node *> all; allNodes(n, all); vector<Node *> g; for(auto x : all) if(x->id == M_LIST) g.push_back(x);
                if(!g.empty()) { Node *t = g[s.below(g.size())]; GenOpts q; q.maxNodes = 4; t->kids.insert(t->kids.begin() + (long)s.below(t->kids.size() + 1), genGroupOf(s, q, M_PROP)); fixSizes(n); what += "prop-as-member "; continue; }
            }
            what += mutateTree(s, n) + " ";
        }
        if(m == 0 && s.chance(1, 2) && coupledFault(s, n)) what = "coupled ";
        if(s.chance(1, 10)) // a size of which a single bit is wrong
        {
            vector<Node *> all, g; allNodes(n, all); for(auto x : all) if(x->group) g.push_back(x);
            if(!g.empty()) { Node *t = g[s.below(g.size())]; t->size = (int32_t)((uint32_t)t->size ^ 1u << (s.chance(1, 2) ? 31 - s.below(3) : s.below(32))); if(s.chance(1, 2)) refitAbove(n, t); what += "size-bit "; }
        }
        bool valid = refValid(n);
        IFF_Chunk *ch = build(n, &s); c.subEvals++;
        bool got = IFF_check(ch, R);
        REQUIRE(got == valid, "the check %s %s %s (edits: %s)%s%s", got ? "accepts" : "rejects", valid ? "valid" : "invalid", show(n).c_str(), what.c_str(), gMessages.empty() ? "" : ": ", gMessages.c_str());
        REQUIRE(sameNode(snapshot(ch), n), "checking changed %s", show(n).c_str());
        // every sub hierarchy judged on its own
        vector<Node *> all; allNodes(n, all); Node *t = all[s.below(all.size())];
        if(t != &n)
        {
            IFF_Chunk *sub = build(*t, &s); bool v = refValid(*t), g = IFF_check(sub, R); c.subEvals++;
            REQUIRE(g == v, "the check %s %s %s (part of a larger hierarchy)", g ? "accepts" : "rejects", v ? "valid" : "invalid", show(*t).c_str());
            freeTree(sub);
        }
        freeTree(ch);
        c.label(valid ? "built, valid" : "built, invalid"); if(m == 1 && !valid) c.label("one edit: " + what); if(what == "coupled ") c.label("broken member and a size that fits a part");
        if(countNodes(n) >= 2) { c.nontriv(hashNode(n) ^ m); sampleOf(c, n); }
        return;
    }
    // read from bytes: accepted exactly if a strict parser accepts them
    string b, kind;
    if(how == 3) { Node n = genTree(s, o); unsigned m = (unsigned)s.below(4); for(unsigned i = 0; i < m; i++) mutateTree(s, n); b = encode(n); m = (unsigned)s.below(3); for(unsigned i = 0; i < m; i++) mutateBytes(s, b); kind = "mutated file"; }
    else b = hostileBytes(s, nullptr, &kind);
    bool strict = strictFile(b);
    c.subEvals++;
    IFF_Chunk *ch = readBytes(b, R);
    if(!ch) { REQUIRE(!strict, "a valid file cannot be read: %s: %s", hexs(b).c_str(), gMessages.c_str()); c.label("file, unreadable"); }
    else
    {
        bool got = IFF_check(ch, R); Node n = snapshot(ch); bool valid = refValid(n);
        REQUIRE(got == valid, "the check %s %s hierarchy %s read from %s", got ? "accepts" : "rejects", valid ? "valid" : "invalid", show(n).c_str(), hexs(b).c_str());
        REQUIRE(!strict || got, "the check rejects the valid file %s: %s", hexs(b).c_str(), gMessages.c_str());
        REQUIRE(strict || !got, "the check accepts the invalid file %s, read as %s", hexs(b).c_str(), show(n).c_str());
        c.label(got ? "file, valid" : "file, invalid");
        IFF_free(ch, R);
    }
    if(b.size() >= 20) { c.nontriv(hashBytes(b.data(), b.size(), 7)); c.desc = kind + ": " + hexs(b, 100); }
}

// ---------------------------------------------------------------- C07
static unsigned gQuiet; extern "C" void vpQuiet(const char *, va_list) { gQuiet++; }
struct Quiet { void (*old)(const char *, va_list); Quiet() { old = IFF_errorCallback; IFF_errorCallback = &vpQuiet; } ~Quiet() { IFF_errorCallback = old; } };
static inline bool sameText(uint32_t id) { IFF_ID2 t; IFF_idToString(id, t); for(int i = 0; i < 4; i++) if((unsigned char)t[i] != (unsigned char)(id >> (24 - 8 * i))) return false; return true; }
static void verdicts(uint32_t id)
{
    bool a = IFF_checkId(id), b = okId(id);
    REQUIRE(a == b, "ID %08x (%s) is %s", id, idStr(id).c_str(), a ? "accepted although it is illegal" : "rejected although it is legal");
    a = IFF_checkFormType(id); b = okFormType(id);
    REQUIRE(a == b, "form type %08x (%s) is %s", id, idStr(id).c_str(), a ? "accepted although it is illegal" : "rejected although it is legal");
    REQUIRE(sameText(id), "ID %08x is converted to another text", id);
}
struct Carrier // hierarchies that use the ID in every role
{
    IFF_List *list; IFF_Prop *prop; IFF_Form *form; IFF_Chunk *raw, *praw; IFF_CAT *cat, *ecat; IFF_List *elist;
    Carrier()
    {
        list = IFF_createEmptyList(); prop = IFF_createEmptyProp(mk("TEST")); praw = IFF_createRawChunk(mk("HELO"), 0); IFF_addToProp(prop, praw); IFF_addPropToList(list, prop);
        form = IFF_createEmptyForm(mk("TEST")); raw = IFF_createRawChunk(mk("HELO"), 0); IFF_addToForm(form, raw);
        cat = IFF_createEmptyCAT(); IFF_addToCAT(cat, (IFF_Chunk *)form); IFF_addToList(list, (IFF_Chunk *)cat);
        ecat = IFF_createEmptyCAT(); elist = IFF_createEmptyList();
    }
    ~Carrier() { IFF_free((IFF_Chunk *)list, nullptr); IFF_free((IFF_Chunk *)ecat, nullptr); IFF_free((IFF_Chunk *)elist, nullptr); }
    bool ok() { return IFF_check((IFF_Chunk *)list, nullptr); }
    void roles(uint32_t id)
    {
        REQUIRE(ok(), "a valid hierarchy is rejected");
        bool a, e;
        if(!isGroupId(id))
        {
            raw->chunkId = id; a = ok(); e = okId(id) || id == M_FILL; raw->chunkId = mk("HELO");
            REQUIRE(a == e, "chunk ID %08x (%s) of a data chunk in a FORM is %s", id, idStr(id).c_str(), a ? "accepted" : "rejected");
            praw->chunkId = id; a = ok(); praw->chunkId = mk("HELO");
            REQUIRE(a == e, "chunk ID %08x (%s) of a data chunk in a PROP is %s", id, idStr(id).c_str(), a ? "accepted" : "rejected");
        }
        form->formType = id; a = ok(); form->formType = mk("TEST"); e = okFormType(id);
        REQUIRE(a == e, "FORM of type %08x (%s) is %s", id, idStr(id).c_str(), a ? "accepted" : "rejected");
        prop->formType = id; a = ok(); prop->formType = mk("TEST"); e = okFormType(id) || id == M_LIST;
        REQUIRE(a == e, "PROP of type %08x (%s) is %s", id, idStr(id).c_str(), a ? "accepted" : "rejected");
        ecat->contentsType = id; a = IFF_check((IFF_Chunk *)ecat, nullptr); e = okId(id);
        REQUIRE(a == e, "CAT with contents type %08x (%s) is %s", id, idStr(id).c_str(), a ? "accepted" : "rejected");
        elist->contentsType = id; a = IFF_check((IFF_Chunk *)elist, nullptr);
        REQUIRE(a == e, "LIST with contents type %08x (%s) is %s", id, idStr(id).c_str(), a ? "accepted" : "rejected");
    }
};
static void texts(uint32_t id)
{
    string four = { (char)(id >> 24), (char)(id >> 16), (char)(id >> 8), (char)id };
    REQUIRE(IFF_MAKEID((unsigned char)four[0], (unsigned char)four[1], (unsigned char)four[2], (unsigned char)four[3]) == id, "IFF_MAKEID of the characters of %08x differs", id);
    string p = captureStdout([&] { IFF_printId(id); });
    REQUIRE(p == four, "ID %08x is printed as %s", id, hexs(p).c_str());
    messagesClear(); { string save; IFF_errorId(id); } 
    string m = gMessages; messagesClear();
    REQUIRE(four.find('\0') != string::npos || m == four, "ID %08x is reported as %s", id, hexs(m).c_str());
    MemOut o; FILE *f = openOut(o); bool ok = IFF_writeId(f, id, mk("HELO"), "id"); fclose(f);
    REQUIRE(ok && o.data == four, "ID %08x is written as %s", id, hexs(o.data).c_str());
    MemIn in; in.data = four; f = openIn(in); IFF_ID back = ~id; ok = IFF_readId(f, &back, mk("HELO"), "id"); fclose(f);
    REQUIRE(ok && back == id, "ID %08x is read as %08x", id, back);
}
static const char *bases[] = { "TEST", "LIS1", "FOR5", "CAT9", "JJJJ", "    ", "FORM", "A9 ~", "LIST", "PROP", "CAT ", "8SVX" };
static void caseC07(Src &s, Ctx &c)
{
    static const unsigned char pi[6] = { 0, 0, 0, 1, 1, 2 }, pj[6] = { 1, 2, 3, 2, 3, 3 };
    unsigned mode = s.byte(); // enumerated cases carry a magic prefix that random choices practically never hit
    mode = mode >= 0xf1 && mode <= 0xf3 && s.byte() == 0x5a && s.byte() == 0xa5 && s.byte() == 0x5a && !c.fuzzing ? mode - 0xf0 : 0;
    if(mode == 3) // enumerated: all IDs with one first byte
    {
        uint32_t top = s.byte(); Quiet q;
        for(uint32_t low = 0; low < 0x1000000; low++) verdicts(top << 24 | low);
        c.subEvals += 0x1000000; c.label("all IDs with one first character"); c.nontriv(top + 7777777); c.desc = strf("all 2^24 IDs with first byte %02x", top); return;
    }
    if(mode == 2) // enumerated: every value of two positions of a base ID
    {
        uint32_t base = mk(bases[s.byte() % 12]); unsigned k = s.byte() % 6; Quiet q; Carrier cr; bool roles = s.byte();
        int si = 24 - 8 * pi[k], sj = 24 - 8 * pj[k];
        for(uint32_t a = 0; a < 256; a++) for(uint32_t b = 0; b < 256; b++)
        {
            uint32_t id = (base & ~(0xffu << si) & ~(0xffu << sj)) | a << si | b << sj;
            verdicts(id); if(roles && (b % 8 == a % 8 || a == 0x20 || b == 0x20)) { cr.roles(id); c.subEvals += 8; }
        }
        c.subEvals += 65536; c.label("two positions enumerated"); c.nontriv(base ^ k); c.desc = strf("65536 IDs around '%s', positions %d and %d", idStr(base).c_str(), pi[k], pj[k]); return;
    }
    if(mode == 1) // enumerated: every value of one position, all roles and texts
    {
        uint32_t base = mk(bases[s.byte() % 12]); Carrier cr;
        for(int p = 0; p < 4; p++) for(uint32_t a = 0; a < 256; a++)
        {
            uint32_t id = (base & ~(0xffu << 8 * p)) | a << 8 * p;
            verdicts(id); cr.roles(id); texts(id); c.subEvals++;
        }
        c.label("one position enumerated"); c.nontriv(base); c.desc = strf("1024 IDs around '%s', in all roles", idStr(base).c_str()); return;
    }
    Carrier cr; string list;
    for(int i = 0; i < 8; i++)
    {
        uint32_t id = genAnyId(s); verdicts(id); cr.roles(id); texts(id); c.subEvals++;
        c.label(okFormType(id) ? "legal form type" : okId(id) ? "legal ID only" : "illegal ID");
        list += idStr(id) + " "; c.nontriv(hashBytes(&id, 4, c.hash));
    }
    c.desc = list;
}
static vector<vector<uint8_t>> fixedC07(bool thorough)
{
    vector<vector<uint8_t>> v;
    for(uint8_t b = 0; b < 12; b++) { v.push_back({ 0xf1, 0x5a, 0xa5, 0x5a, b }); for(uint8_t k = 0; k < 6; k++) v.push_back({ 0xf2, 0x5a, 0xa5, 0x5a, b, k, (uint8_t)(k % 2 == b % 2) }); }
    if(thorough) for(int t = 0; t < 256; t++) v.push_back({ 0xf3, 0x5a, 0xa5, 0x5a, (uint8_t)t });
    else for(uint8_t t : { 'F', 'C' }) v.push_back({ 0xf3, 0x5a, 0xa5, 0x5a, t });
    return v;
}

// ---------------------------------------------------------------- C09
// other data of the same length
static void otherData(Src &s, string &d)
{
    size_t at = s.below(3) == 0 ? d.size() - 1 : s.below(2) ? 0 : s.below(d.size());
    if(d.size() > 1 && s.chance(1, 4)) // the same bytes in another order, or the same sum
    {
        static const size_t dist[] = { 1, 2, 3, 4, 8, 16, 64, 256, 1024 }; size_t k = dist[s.below(9)]; if(k >= d.size() || s.chance(1, 4)) k = 1 + s.below(d.size() - 1);
        at = s.below(d.size() - k);
        if(s.chance(2, 3)) { for(int i = 0; i < 20 && d[at] == d[at + k]; i++) at = s.below(d.size() - k); std::swap(d[at], d[at + k]); } else { d[at]++; d[at + k]--; }
    }
    else if(s.chance(1, 5)) { static const char end[] = { 0, ' ', '\n', '.', (char)0xff }; d.back() = end[s.below(5)]; }
    else if(s.chance(1, 8)) { char ch = (char)s.byte(); d[at] = ch; }
    else if(s.chance(1, 8) && ((d[at] >= 'a' && d[at] <= 'z') || (d[at] >= 'A' && d[at] <= 'Z'))) d[at] ^= 0x20;
    else d[at] ^= (char)(1 << s.below(8));
}
string changeOne(Src &s, Node &n, bool ext)
{
    vector<Node *> all; allNodes(n, all); Node *t = all[s.below(all.size())]; string name = "none";
    vector<Node> *seq; uint32_t v;
    switch(s.below(9))
    {
        case 0: case 1: // a byte of data
            for(int i = 0; i < 6 && (t->group || t->data.empty()); i++) t = all[s.below(all.size())];
            if(t->group || t->data.empty()) break;
            otherData(s, t->data);
            return "data";
        case 2: // more or less data
            for(int i = 0; i < 6 && t->group; i++) t = all[s.below(all.size())];
            if(t->group) break;
            if(t->data.empty() || s.chance(1, 2)) t->data += s.chance(1, 2) ? (char)s.byte() : '\0'; else t->data.pop_back();
            t->size = (int32_t)t->data.size(); name = "data size"; if(s.chance(1, 2)) fixSizes(n); return name;
        case 3: // chunk ID
            if(t->group) { if(t->id == M_LIST || t == &n || !t->props.empty()) break; bool isProp = t->id == M_PROP; if(isProp) break; t->id = t->id == M_FORM ? M_CAT : M_FORM; return "kind"; }
            v = s.chance(1, 2) ? t->id ^ (1u << s.below(32)) : genAnyId(s); if(isGroupId(v) || (ext && isGroupId(v))) break; t->id = v; return "ID";
        case 4: case 5: // type of a group
            for(int i = 0; i < 6 && !t->group; i++) t = all[s.below(all.size())];
            if(!t->group) break;
            t->type = s.chance(1, 2) ? t->type ^ (1u << s.below(32)) : genAnyId(s); return "type";
        case 6: // size of a group
            for(int i = 0; i < 6 && !t->group; i++) t = all[s.below(all.size())];
            if(!t->group) break;
            { static const int32_t d[] = { 1, -1, 2, 256, 65536, 0x1000000, 4 }; t->size += d[s.below(7)]; }
            return "group size";
        default:
            for(int i = 0; i < 6 && !t->group; i++) t = all[s.below(all.size())];
            if(!t->group) break;
            seq = t->id == M_LIST && s.chance(1, 2) ? &t->props : &t->kids; name = seq == &t->props ? "property " : "member ";
            if(seq->empty()) break;
            { size_t i = s.below(seq->size()); switch(s.below(3)) {
                case 0: { Node x = (*seq)[i]; seq->insert(seq->begin() + (long)i, x); name += "duplicated"; break; }
                case 1: seq->erase(seq->begin() + (long)i); name += "removed"; break;
                default: std::swap((*seq)[i], (*seq)[s.below(seq->size())]); name += "order"; } }
            if(s.chance(1, 2)) fixSizes(n);
            return name;
    }
    return "none";
}
static void caseC09(Src &s, Ctx &c)
{
    genLayouts(s);
    bool ext = s.chance(1, 3); RegSpec r; if(ext) r = genRegistry(s);
    Registry reg(r); const IFF_ChunkRegistry *R = ext ? &reg.reg : s.chance(1, 2) ? nullptr : &IFF_defaultChunkRegistry;
    GenOpts o; o.anyRoot = true; o.maxData = 40; o.maxNodes = s.chance(1, 10) ? 90 : 20; o.big = s.chance(1, 20); o.extremes(c, 500);
    Node a = ext ? genExtTree(s, o, r) : genTree(s, o); if(ext) canonical(a, r);
    Node *large = nullptr; size_t largeAt = 0; // large data that differs a little
    if(!ext && s.chance(1, 25))
    {
        vector<Node *> all; allNodes(a, all); static const size_t sz[] = { 100, 300, 1000, 1024, 1025, 2048, 4096, 5000, 8192, 10000, 40000, 65536, 70001 };
        for(size_t i = 0; i < all.size(); i++) if(!all[i]->group) { large = all[i]; largeAt = i; if(s.chance(1, 3)) break; }
        if(large) { large->data = genData(s, sz[s.below(13)]); fixSizes(a); }
    }
    Node b = a; string what = "copy"; unsigned k = (unsigned)s.below(8);
    if(large && k > 1) { vector<Node *> all; allNodes(b, all); otherData(s, all[largeAt]->data); what = "large data"; }
    else if(k == 1) { b = ext ? genExtTree(s, o, r) : genTree(s, o); what = "another hierarchy"; }
    else if(k >= 2) { what = changeOne(s, b, ext); if(k == 7) what += "+" + changeOne(s, b, ext); }
    if(ext)
    {
        canonical(b, r);
        // after a change of type or ID another handler may be responsible: its view of the bytes is what counts, so build both from bytes it can hold
    }
    auto mkc = [&](const Node &n) -> IFF_Chunk * {
        if(ext) return buildExt(n, r, 0, reg);
        return build(n, &s); };
    IFF_Chunk *x = mkc(a), *y;
    bool viaRead = k == 0 && s.chance(1, 2);
    if(viaRead) { y = readBytes(encode(b), R); REQUIRE(y, "reading %s failed", show(b).c_str()); what = "read copy"; }
    else y = mkc(b);
    bool same = sameNode(a, b);
    bool e1 = IFF_compare(x, y, R), e2 = IFF_compare(y, x, R); c.subEvals += 4;
    REQUIRE(e1 == same, "%s hierarchies compare %s (change: %s): %s and %s", same ? "equal" : "different", e1 ? "equal" : "different", what.c_str(), show(a).c_str(), show(b).c_str());
    REQUIRE(e2 == same, "comparison is not symmetric (change: %s): %s and %s", what.c_str(), show(a).c_str(), show(b).c_str());
    REQUIRE(IFF_compare(x, x, R) && IFF_compare(y, y, R), "a hierarchy is not equal to itself: %s", show(a).c_str());
    if(!ext)
    {
        REQUIRE(sameNode(snapshot(x), a) && sameNode(snapshot(y), b), "comparing changed a hierarchy: %s", show(a).c_str());
        // a part of a hierarchy compares like the same thing on its own
        vector<Node *> all; allNodes(a, all); Node *t = all[s.below(all.size())];
        vector<IFF_Chunk *> lib; struct W { static void go(IFF_Chunk *q, vector<IFF_Chunk *> &v) { v.push_back(q); if(!isGroupId(q->chunkId)) return; if(q->chunkId == M_LIST) { IFF_List *l = (IFF_List *)q; for(unsigned i = 0; i < l->propLength; i++) go((IFF_Chunk *)l->prop[i], v); } IFF_Group *g = (IFF_Group *)q; for(unsigned i = 0; i < g->chunkLength; i++) go(g->chunk[i], v); } };
        W::go(x, lib); size_t at = (size_t)(std::find(all.begin(), all.end(), t) - all.begin());
        Node alone = *t; if(s.chance(1, 2)) changeOne(s, alone, false);
        if(isGroupId(t->id) == isGroupId(alone.id))
        {
            IFF_Chunk *z = build(alone, &s); bool want = sameNode(*t, alone), got = IFF_compare(lib[at], z, R);
            REQUIRE(got == want && (bool)IFF_compare(z, lib[at], R) == want, "a part of a hierarchy and %s hierarchy of its own compare %s: %s and %s", want ? "an equal" : "a different", got ? "equal" : "different", show(*t).c_str(), show(alone).c_str());
            freeTree(z); c.subEvals += 2;
        }
    }
    IFF_free(x, R); IFF_free(y, R);
    c.label(what); c.label(same ? "equal" : "different"); if(ext && countExt(a, r)) c.label("with extension chunks");
    if(countNodes(a) >= 2) { c.nontriv(hashNode(a) * 31 + hashNode(b)); c.desc = what + ": " + show(a).substr(0, 400); }
}

static RegProp r6({ "C06", "exploration",
    "Random hierarchies with 0-3 edits out of 14 kinds (sizes, IDs, types, misplaced PROPs, data and groups, contents types, root kinds, member counts) at random places are built, and mutated files, chunk soups and random bytes are read; the check's verdict must equal an independent validator's, and on bytes that of an independent strict parser; sub hierarchies are judged too. Non-trivial: more than one chunk, or 20 bytes; distinct by content.",
    caseC06, 150000, 3000000, 600000, nullptr, { "the reference validator in harness/model.cpp is a correct reading of EA IFF-85" } }, GIANT_WIDE | GIANT_DEEP | GIANT_ODD | 8);
static RegProp r7({ "C07", "exploration",
    "Every value of every pair of positions around 12 base IDs (72 x 65536) and all 2^24 IDs of two first characters are enumerated against independent rules (thorough: all 2^32 IDs); every value of each position is also tried in every role (chunk ID in FORM/PROP, FORM/PROP type, CAT/LIST contents type), printed, reported, written and read; plus random IDs biased to reserved neighbourhoods. Non-trivial: every case; distinct by IDs.",
    caseC07, 8000, 60000, 100000, fixedC07, { "none beyond the harness" }, nullptr, 300 });
static RegProp r9({ "C09", "exploration",
    "Pairs of hierarchies: equal copies by different routes (API routes, reading), copies with one or two changes at a random place (data byte, data size, ID, kind, type, size, member or property duplicated/removed/reordered) and unrelated ones, under built-in and extension types; the comparison must say equal exactly if the models are equal, both ways round, also for parts of hierarchies. Non-trivial: more than one chunk; distinct by the pair.",
    caseC09, 100000, 2000000, 400000, nullptr, { "extension types compare all their fields" } }, GIANT_WIDE | GIANT_DEEP | GIANT_ODD | 16);
