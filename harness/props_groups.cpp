// C26 group chunks that applications define with the general group functions
#include "print.h"
#include <cstring>
#include <algorithm>
using std::string; using std::vector; using std::set; using std::map; using std::pair;

// 'GRPA' consists of what the general functions handle, 'GRPB' also has a number after the group type, which it keeps in a struct of its own, 'GRPC' has a number before the group type.
static const uint32_t GA = mk("GRPA"), GB = mk("GRPB"), GC = mk("GRPC");
static bool isOwn(uint32_t id) { return id == GA || id == GB || id == GC; }
struct OwnGroup { IFF_Group g; IFF_ULong extra; uint32_t magic; };   // GRPB, GRPC
static const uint32_t OWN_MAGIC = 0x6b20b6a1;

static thread_local set<uint32_t> badTypes; static thread_local set<pair<uint32_t, uint32_t>> badSubs;   // the application's rules
static thread_local set<pair<const void *, const void *>> asked; static thread_local vector<uint32_t> askedTypes; static thread_local vector<const void *> made;
static const char *typeNames[] = { "grpType", "grp", "grpTypeOfTheContentsOfThisGroupWhichHasAVeryLongNameThatNoBuiltInGroupComesCloseTo", "grp%d%sType" };
static const char *typeName;
static IFF_Bool typeRule(const IFF_ID t) { askedTypes.push_back(t); return !badTypes.count(t); }
static IFF_Bool subRule(const IFF_Group *g, const IFF_Chunk *c) { asked.insert({ g, c }); return !badSubs.count({ g->chunkId, c->chunkId }); }

static IFF_Chunk *createA(const IFF_ID id, const IFF_Long size) { IFF_Chunk *c = IFF_createUnparsedGroup(id, size); if(c) made.push_back(c); return c; }
static IFF_Chunk *createB(const IFF_ID id, const IFF_Long size)
{
    OwnGroup *o = (OwnGroup *)IFF_createChunk(id, size, sizeof(OwnGroup));
    if(o) { IFF_initGroup(&o->g, 0); o->extra = 0; o->magic = OWN_MAGIC; made.push_back(o); }
    return (IFF_Chunk *)o;
}
static OwnGroup *selfB(const IFF_Chunk *c) { OwnGroup *o = (OwnGroup *)c; if((c->chunkId != GB && c->chunkId != GC) || o->magic != OWN_MAGIC) failf("a handler of 'GRPB' or 'GRPC' is given a chunk '%s' of another kind", idStr(c->chunkId).c_str()); return o; }
static void selfA(const IFF_Chunk *c) { if(c->chunkId != GA) failf("a handler of 'GRPA' is given a chunk '%s'", idStr(c->chunkId).c_str()); }
static IFF_Bool readA(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { selfA(c); return IFF_readGroup(f, c, typeName, r, bp); }
static IFF_Bool readB(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp)
{
    OwnGroup *o = selfB(c); IFF_FieldStatus st;
    if((st = IFF_readIdField(f, &o->g.groupType, c, typeName, bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(st);
    if((st = IFF_readULongField(f, &o->extra, c, "extra", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(st);
    while(*bp < c->chunkSize)
    {
        IFF_Chunk *k = IFF_readChunk(f, o->g.groupType, r); if(!k) return FALSE;
        if(!IFF_attachToGroup(&o->g, k)) { IFF_freeChunk(k, o->g.groupType, r); return FALSE; }
        *bp = IFF_incrementChunkSize(*bp, k);
    }
    return TRUE;
}
static IFF_Bool writeA(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { selfA(c); return IFF_writeGroup(f, c, typeName, r, bp); }
static IFF_Bool writeB(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp)
{
    OwnGroup *o = selfB(c); IFF_FieldStatus st;
    if((st = IFF_writeIdField(f, o->g.groupType, c, typeName, bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(st);
    if((st = IFF_writeULongField(f, o->extra, c, "extra", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(st);
    return IFF_writeGroupSubChunks(f, &o->g, r, bp);
}
static IFF_Bool checkA(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { selfA(c); return IFF_checkGroup((const IFF_Group *)c, &typeRule, &subRule, r); }
static IFF_Bool checkB(const IFF_Chunk *c, const IFF_ChunkRegistry *r)
{
    OwnGroup *o = selfB(c); if(!typeRule(o->g.groupType)) return FALSE;
    IFF_Long z = IFF_checkGroupSubChunks(&o->g, &subRule, r); return z != -1 && IFF_checkGroupChunkSize(&o->g, z + 8);
}
static void freeA(IFF_Chunk *c, const IFF_ChunkRegistry *r) { selfA(c); IFF_freeGroup((IFF_Group *)c, r); }
static void freeB(IFF_Chunk *c, const IFF_ChunkRegistry *r) { IFF_freeGroup(&selfB(c)->g, r); }
static void printA(const IFF_Chunk *c, const unsigned i, const IFF_ChunkRegistry *r) { selfA(c); IFF_printGroup((const IFF_Group *)c, i, typeName, r); }
static void printB(const IFF_Chunk *c, const unsigned i, const IFF_ChunkRegistry *r) { OwnGroup *o = selfB(c); IFF_printGroupType(typeName, o->g.groupType, i); IFF_printIndent(stdout, i, "extra = %u;\n", o->extra); IFF_printGroupSubChunks(&o->g, i, r); }
static IFF_Bool compareA(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { selfA(a); selfA(b); return IFF_compareGroup((const IFF_Group *)a, (const IFF_Group *)b, r); }
static IFF_Bool compareB(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { OwnGroup *x = selfB(a), *y = selfB(b); return x->extra == y->extra && IFF_compareGroup(&x->g, &y->g, r); }
static IFF_Bool readC(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp)
{
    OwnGroup *o = selfB(c); IFF_FieldStatus st; IFF_UWord v = 0;
    if((st = IFF_readUWordField(f, &v, c, "ownLevel", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(st);
    o->extra = v; return IFF_readGroup(f, c, typeName, r, bp);
}
static IFF_Bool writeC(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp)
{
    OwnGroup *o = selfB(c); IFF_FieldStatus st;
    if((st = IFF_writeUWordField(f, (IFF_UWord)o->extra, c, "ownLevel", bp)) != IFF_FIELD_MORE) return IFF_deriveSuccess(st);
    return IFF_writeGroup(f, c, typeName, r, bp);
}
static IFF_Bool checkC(const IFF_Chunk *c, const IFF_ChunkRegistry *r)
{
    OwnGroup *o = selfB(c); if(!typeRule(o->g.groupType)) return FALSE;
    IFF_Long z = IFF_checkGroupSubChunks(&o->g, &subRule, r); return z != -1 && IFF_checkGroupChunkSize(&o->g, z + 6);
}
static void printC(const IFF_Chunk *c, const unsigned i, const IFF_ChunkRegistry *r) { OwnGroup *o = selfB(c); IFF_printIndent(stdout, i, "ownLevel = %u;\n", o->extra); IFF_printGroup(&o->g, i, typeName, r); }
static IFF_ChunkType ownTypes[3] = {
    { GA, &createA, &readA, &writeA, &checkA, &freeA, &printA, &compareA },
    { GB, &createB, &readB, &writeB, &checkB, &freeB, &printB, &compareB },
    { GC, &createB, &readC, &writeC, &checkC, &freeB, &printC, &compareB } };

// ---- model: 'GRPB' and 'GRPC' keep the bytes of their number in data
static bool numbered(uint32_t id) { return id == GB || id == GC; }
static uint32_t number(const Node &n) { return n.id == GB ? get32(n.data, 0) : (uint32_t)(unsigned char)n.data[0] << 8 | (unsigned char)n.data[1]; }
static int32_t takes(const Node &n) { return 8 + n.size + (n.size & 1); }
static int32_t content(const Node &n) { if(!n.group) return (int32_t)n.data.size(); int32_t z = 4 + (int32_t)n.data.size(); for(auto &p : n.props) z += takes(p); for(auto &k : n.kids) z += takes(k); return z; }
static void fix(Node &n) { for(auto &p : n.props) fix(p); for(auto &k : n.kids) fix(k); n.size = content(n); }
static void enc(const Node &n, string &o) { put32(o, n.id); put32(o, (uint32_t)n.size); if(n.id == GC && n.group) o += n.data; if(n.group) put32(o, n.type); if(n.id != GC || !n.group) o += n.data; for(auto &p : n.props) enc(p, o); for(auto &k : n.kids) enc(k, o); if(n.size & 1) o += '\0'; }
static string enc(const Node &n) { string o; enc(n, o); return o; }
static Node opaque(const Node &n)      // own groups as the data chunks that they are to everybody else
{
    if(n.group && isOwn(n.id)) { Node d; d.id = n.id; d.size = n.size; d.data = string((size_t)n.size, '\0'); return d; }
    Node c = n; for(auto &k : c.kids) k = opaque(k); for(auto &p : c.props) p = opaque(p); return c;
}
static bool valid(const Node &n, const RegSpec &r, uint32_t scope)
{
    if(!n.group) { int k = r.resolve(scope, n.id); return refValid(n, false) && !(k >= 0 && k < NHANDLERS && !gExtCheckVerdict[k]); }
    if(isOwn(n.id))
    {
        if(badTypes.count(n.type) || n.size != content(n)) return false;
        for(auto &k : n.kids) if(badSubs.count({ n.id, k.id })) return false;
    }
    else if(!refValid(opaque(n), false)) return false;
    for(auto &p : n.props) if(!valid(p, r, n.type)) return false;
    for(auto &k : n.kids) if(!valid(k, r, n.type)) return false;
    return true;
}
static Node genOwn(Src &s, const GenOpts &o, const RegSpec &r, int depth)
{
    Node n; n.group = true; { static const uint32_t ids[] = { GA, GB, GC }; n.id = ids[s.below(3)]; } n.type = !r.forms.empty() && s.chance(2, 3) ? r.forms[s.below(r.forms.size())].first : s.chance(1, 2) ? genFormType(s) : genAnyId(s);
    if(n.id == GB) put32(n.data, s.u32()); else if(n.id == GC) { uint32_t v = s.u32(); n.data += (char)(v >> 8); n.data += (char)v; }
    int k = (int)s.below(s.chance(1, 20) ? 40 : 5);
    for(int i = 0; i < k; i++)
    {
        Node x;
        switch(s.below(4))
        {
            case 0: case 1: x = genDataChunk(s, o); retarget(s, x, r, n.type, o); break;
            case 2: if(depth > 0) { GenOpts q = o; q.maxNodes = 8; q.maxDepth = 2; q.anyRoot = false; x = genExtTree(s, q, r); break; } // fall through
            default: if(depth > 0) x = genOwn(s, o, r, depth - 1); else { x.id = genChunkId(s); x.data = genData(s, s.below(6)); retarget(s, x, r, n.type, o); }
        }
        n.kids.push_back(x);
    }
    return n;
}
static IFF_Chunk *make(Src &s, const Node &n, const RegSpec &r, uint32_t scope, const Registry &reg, bool natural)
{
    if(!n.group) return buildExt(n, r, scope, reg);
    IFF_Chunk *c;
    switch(n.id)
    {
        case M_FORM: c = (IFF_Chunk *)IFF_createEmptyForm(n.type); break;
        case M_PROP: c = (IFF_Chunk *)IFF_createEmptyProp(n.type); break;
        case M_CAT: c = (IFF_Chunk *)IFF_createEmptyCATWithContentsType(n.type); break;
        case M_LIST: c = (IFF_Chunk *)IFF_createEmptyListWithContentsType(n.type); break;
        case GB: case GC: c = createB(n.id, n.id == GB ? 8 : 6); ((OwnGroup *)c)->extra = number(n); ((IFF_Group *)c)->groupType = n.type; break;
        default: if(s.chance(1, 2)) c = (IFF_Chunk *)IFF_createEmptyGroup(n.id, n.type); else if(s.chance(1, 2)) c = (IFF_Chunk *)IFF_createGroup(n.id, 4, n.type); else { c = IFF_createUnparsedGroup(n.id, 4); IFF_initGroup((IFF_Group *)c, n.type); }
            REQUIRE(c && c->chunkId == n.id && c->chunkSize == 4 && !c->parent && ((IFF_Group *)c)->groupType == n.type && ((IFF_Group *)c)->chunkLength == 0, "a new group '%s' of type '%s' is not empty", idStr(n.id).c_str(), idStr(n.type).c_str());
            made.push_back(c);
    }
    for(auto &p : n.props) IFF_addPropToList((IFF_List *)c, (IFF_Prop *)make(s, p, r, n.type, reg, natural));
    for(auto &k : n.kids) IFF_addToGroup((IFF_Group *)c, make(s, k, r, n.type, reg, natural));
    if(!natural) c->chunkSize = n.size;
    return c;
}
static void visit(const Node &n, IFF_Chunk *c, uint32_t scope, const std::function<void(const Node &, IFF_Chunk *, uint32_t)> &f)
{
    f(n, c, scope); if(!n.group) return;
    IFF_Group *g = (IFF_Group *)c; if(n.id == M_LIST) for(size_t i = 0; i < n.props.size(); i++) visit(n.props[i], (IFF_Chunk *)((IFF_List *)c)->prop[i], n.type, f);
    for(size_t i = 0; i < n.kids.size(); i++) visit(n.kids[i], g->chunk[i], n.type, f);
}
static string diffOwn(IFF_Chunk *c, const Node &n, const RegSpec &r)
{
    string d = diffExt(c, n, nullptr, r, 0); if(!d.empty()) return d;
    visit(n, c, 0, [&](const Node &x, IFF_Chunk *y, uint32_t) { if(d.empty() && x.group && isOwn(x.id)) {
        if(std::find(made.begin(), made.end(), y) == made.end()) d = "a '" + idStr(x.id) + "' was not created by its handler";
        else if(numbered(x.id) && ((OwnGroup *)y)->extra != number(x)) d = strf("the number of a '%s' is %x, expected %x", idStr(x.id).c_str(), ((OwnGroup *)y)->extra, number(x)); } });
    return d;
}
static void formsIn(const Node &n, const IFF_Chunk *c, uint32_t type, vector<const void *> &v)
{
    if(!n.group || isOwn(n.id) || n.id == M_PROP) return;
    if(n.id == M_FORM && n.type == type) { v.push_back(c); return; }
    for(size_t i = 0; i < n.kids.size(); i++) formsIn(n.kids[i], ((const IFF_Group *)c)->chunk[i], type, v);
}
static void caseC26(Src &s, Ctx &c)
{
    badTypes.clear(); badSubs.clear(); asked.clear(); askedTypes.clear(); made.clear(); typeName = typeNames[s.below(4)];
    genLayouts(s); RegSpec r = genRegistry(s); Registry reg(r);
    IFF_ChunkTypesNode node; IFF_ChunkType one[3] = { ownTypes[0], ownTypes[1], ownTypes[2] }; node.chunkTypesLength = 3; node.chunkTypes = one; node.parent = reg.reg.globalChunkTypesNode;
    IFF_ChunkRegistry R = reg.reg; R.globalChunkTypesNode = &node;
    GenOpts o; o.maxNodes = 20; o.maxDepth = 4; o.maxData = 20;
    Node n; bool ownRoot = s.chance(1, 5);
    if(ownRoot) n = genOwn(s, o, r, 2);
    else
    {
        n = genExtTree(s, o, r); vector<Node *> all, forms; allNodes(n, all); for(auto x : all) if(x->id == M_FORM) forms.push_back(x);
        if(forms.empty()) { Node f; f.group = true; f.id = M_FORM; f.type = genFormType(s); n = f; forms.push_back(&n); }
        Node *at = forms[s.below(forms.size())]; int k = (int)s.range(1, 3);
        for(int i = 0; i < k; i++) at->kids.insert(at->kids.begin() + (long)s.below(at->kids.size() + 1), genOwn(s, o, r, 2));
    }
    fix(n); canonical(n, r);
    string edit;
    { vector<Node *> all, own; allNodes(n, all); for(auto x : all) if(x->group && isOwn(x->id)) own.push_back(x);
      Node *x = own[s.below(own.size())];
      if(s.chance(1, 3)) switch(s.below(6)) // something the check has to reject, or sometimes not
      {
          case 0: badTypes.insert(s.chance(3, 4) ? x->type : genFormType(s)); edit = "forbidden type"; break;
          case 1: if(!x->kids.empty()) badSubs.insert({ s.chance(3, 4) ? x->id : GA, x->kids[s.below(x->kids.size())].id }); edit = "forbidden member"; break;
          case 2: x->size += (int32_t)s.range(1, 9); edit = "too large"; break;
          case 3: x->size = std::max(0, x->size - (int32_t)s.range(1, 9)); edit = "too small"; break;
          case 4: for(int i = 0; i < NHANDLERS; i++) gExtCheckVerdict[i] = s.chance(2, 3); edit = "verdicts of extension chunks"; break;
          default: { vector<Node *> fit; for(auto y : own) for(auto &k : y->kids) if(k.group ? !isOwn(k.id) : r.resolve(y->type, k.id) == H_RAW) fit.push_back(y); if(!fit.empty()) x = fit[s.below(fit.size())]; }
                   if(!x->kids.empty()) { Node &k = x->kids[s.below(x->kids.size())]; if(k.group && !isOwn(k.id)) { k.type = genAnyId(s); edit = "type of a member"; } else if(!k.group && r.resolve(x->type, k.id) == H_RAW) { k.id = genAnyId(s); if(isGroupId(k.id) || isOwn(k.id) || r.resolve(x->type, k.id) != H_RAW) k.id = mk("BODY"); if(r.resolve(x->type, k.id) != H_RAW) k.id = mk(" QQ "); edit = "ID of a member"; } }
      } }
    canonical(n, r);
    bool sizesOff = edit == "too large" || edit == "too small"; string ctx = (edit.empty() ? "" : edit + ": ") + r.show() + " on " + show(n);
    bool viaRead = !sizesOff && s.chance(1, 2), natural = !viaRead && !sizesOff && s.chance(1, 2);
    string bytes = enc(n); messagesClear(); gLog.clear();
    IFF_Chunk *root;
    if(viaRead) { string rest; root = readBytes(bytes + "tail", &R, &rest); REQUIRE(root, "reading fails: %s: %s", ctx.c_str(), gMessages.c_str()); REQUIRE(rest == "tail", "reading consumes %zu bytes too many or too few: %s", rest.size(), ctx.c_str()); REQUIRE(gMessageCount == 0 || hasSkipped(n, r), "reading reports: %s", gMessages.c_str()); }
    else root = make(s, n, r, 0, reg, natural);
    string d;
    if(viaRead) d = diffOwn(root, n, r); else visit(n, root, 0, [&](const Node &x, IFF_Chunk *y, uint32_t) { if(y->chunkSize != x.size && d.empty()) d = strf("the size of '%s' is %d after adding all members, expected %d", idStr(x.id).c_str(), y->chunkSize, x.size); });
    REQUIRE(d.empty(), "%s: %s", d.c_str(), ctx.c_str()); c.subEvals++;
    // writing
    if(!sizesOff) { bool ok; string out = writeBytes(root, &R, ok); REQUIRE(ok, "writing fails: %s", ctx.c_str()); REQUIRE(out == bytes, "written differently: %s: %s", firstDiff(out, bytes).c_str(), ctx.c_str()); c.subEvals++; }
    // validity
    messagesClear(); asked.clear(); askedTypes.clear();
    bool want = valid(n, r, 0), got = IFF_checkChunk(root, 0, &R), top = IFF_check(root, &R); c.subEvals += 2;
    REQUIRE(got == want, "the check says %d, expected %d: %s: %s", got, want, ctx.c_str(), gMessages.c_str());
    REQUIRE(top == (want && !ownRoot), "the check of the main chunk says %d: %s", top, ctx.c_str());
    { set<pair<const void *, const void *>> pairs; visit(n, root, 0, [&](const Node &x, IFF_Chunk *y, uint32_t) { if(x.group && isOwn(x.id)) for(size_t i = 0; i < x.kids.size(); i++) pairs.insert({ y, ((IFF_Group *)y)->chunk[i] }); });
      for(auto &p : asked) REQUIRE(pairs.count(p), "the rule for members is asked about something that is no member: %s", ctx.c_str());
      if(want) REQUIRE(asked == pairs, "the rule for members is asked about %zu of %zu members: %s", asked.size(), pairs.size(), ctx.c_str()); }
    visit(n, root, 0, [&](const Node &x, IFF_Chunk *y, uint32_t) {
        if(!x.group) return;
        IFF_Group *g = (IFF_Group *)y;
        if(isOwn(x.id))
        {
            bool ok = true; int32_t sum = 0; for(auto &k : x.kids) { if(badSubs.count({ x.id, k.id }) || !valid(k, r, x.type)) ok = false; sum += takes(k); }
            IFF_Long z = IFF_checkGroupSubChunks(g, &subRule, &R); REQUIRE(z == (ok ? sum : -1), "checking the members of a '%s' gives %d, expected %d: %s", idStr(x.id).c_str(), z, ok ? sum : -1, ctx.c_str()); c.subEvals++;
        }
        if(s.chance(1, 4)) { IFF_Long z = s.chance(1, 2) ? x.size : (IFF_Long)s.u32(); messagesClear(); IFF_Bool eq = IFF_checkGroupChunkSize(g, z); REQUIRE(!!eq == (z == x.size) && (gMessageCount == 0) == !!eq, "comparing the size %d of a group with %d gives %d with %u messages", x.size, z, eq, gMessageCount); } });
    // text
    if(s.chance(1, 2)) { unsigned level = (unsigned)s.below(4); string text = captureStdout([&] { IFF_print(root, level, &R); }); Printed pr = parsePrinted(text, level); d = diffPrinted(pr, n, &r, 0);
        std::function<void(const Printed &)> names = [&](const Printed &x) { if(x.n.group && isOwn(x.n.id)) REQUIRE(x.typeName == typeName, "the group type '%s' is printed with the name '%s': %s", typeName, x.typeName.c_str(), ctx.c_str()); for(auto &k : x.kids) names(k); for(auto &k : x.props) names(k); }; names(pr);
        REQUIRE(d.empty(), "%s: %s", d.c_str(), ctx.c_str()); c.subEvals++; }
    // comparison
    {
        Node m = n; string how = "an equal hierarchy";
        if(s.chance(1, 2))
        {
            vector<Node *> all; allNodes(m, all); Node *x = all[s.below(all.size())]; how = "one with another ";
            if(numbered(x->id) && x->group && s.chance(1, 2)) { x->data[s.below(x->data.size())] ^= (char)(1 << s.below(8)); how += "number"; }
            else if(x->group) { x->type ^= 1u << s.below(32); how += "group type"; }
            else if(!x->data.empty()) { x->data[s.below(x->data.size())] ^= (char)(1 << s.below(8)); how += "data byte"; }
            else { x->size ^= 0; how = "an equal hierarchy"; }
        }
        // changed types change which handlers are responsible: then only the model of equality that needs no handlers applies
        bool same = how == "an equal hierarchy"; Node mc = m; canonical(mc, r);
        if(same || how != "one with another group type")
        {
            same = enc(mc) == enc(n); IFF_Chunk *other = make(s, mc, r, 0, reg, false); IFF_Bool e1 = IFF_compare(root, other, &R), e2 = IFF_compare(other, root, &R); c.subEvals += 2;
            REQUIRE(!!e1 == same && !!e2 == same, "comparing with %s gives %d and %d: %s", how.c_str(), e1, e2, ctx.c_str()); IFF_free(other, &R);
        }
        else { IFF_Group *g = nullptr; vector<IFF_Chunk *> gs; visit(n, root, 0, [&](const Node &x, IFF_Chunk *y, uint32_t) { if(x.group) gs.push_back(y); }); g = (IFF_Group *)gs[s.below(gs.size())];
            IFF_Group copy = *g; copy.groupType ^= 1u << s.below(32); IFF_Bool e = IFF_compareGroup(g, &copy, &R), f = IFF_compareGroup(g, g, &R); REQUIRE(!e && f, "groups of different types compare as %d, the same one as %d: %s", e, f, ctx.c_str()); c.subEvals += 2;
            if(g->chunkLength > 0) { copy = *g; copy.chunkLength--; e = IFF_compareGroup(g, &copy, &R); IFF_Bool e2 = IFF_compareGroup(&copy, g, &R); REQUIRE(!e && !e2, "groups of %u and %u members compare as equal: %s", g->chunkLength, copy.chunkLength, ctx.c_str()); } }
    }
    // searching in the members of an own group
    visit(n, root, 0, [&](const Node &x, IFF_Chunk *y, uint32_t) { if(x.group && isOwn(x.id) && s.chance(1, 3)) {
        vector<uint32_t> ts; for(auto &k : x.kids) if(k.id == M_FORM) ts.push_back(k.type); uint32_t t = ts.empty() ? genFormType(s) : ts[s.below(ts.size())];
        vector<const void *> w; for(size_t i = 0; i < x.kids.size(); i++) formsIn(x.kids[i], ((IFF_Group *)y)->chunk[i], t, w);
        IFF_ID tt = t; unsigned len = 99; IFF_Form **f = IFF_searchFormsInGroup((IFF_Group *)y, &tt, 1, &len); bool eq = len == w.size(); for(unsigned i = 0; eq && i < len; i++) eq = f[i] == w[i];
        REQUIRE(eq, "%u forms '%s' are found in a '%s', expected %zu: %s", len, idStr(t).c_str(), idStr(x.id).c_str(), w.size(), ctx.c_str()); if(f) vpw_free(f); if(len) c.label("forms found in own groups"); c.subEvals++; } });
    // sizes
    visit(n, root, 0, [&](const Node &x, IFF_Chunk *y, uint32_t) { if(x.group && isOwn(x.id) && s.chance(1, 2)) {
        y->chunkSize = (IFF_Long)s.u32(); IFF_updateGroupChunkSizes((IFF_Group *)y); int32_t z = content(x) - (int32_t)x.data.size(); REQUIRE(y->chunkSize == z, "the updated size of a '%s' is %d, its type and members take up %d: %s", idStr(x.id).c_str(), y->chunkSize, z, ctx.c_str()); y->chunkSize = x.size; c.subEvals++; } });
    // nothing of that changed the hierarchy
    if(viaRead) { d = diffOwn(root, n, r); REQUIRE(d.empty(), "changed by the operations: %s: %s", d.c_str(), ctx.c_str()); }
    if(s.chance(1, 3)) visit(n, root, 0, [&](const Node &x, IFF_Chunk *y, uint32_t) { if(x.group && s.chance(1, 3)) y->chunkSize = s.chance(1, 2) ? 4 : (IFF_Long)s.u32(); }); // what was allocated does not depend on the size of a group
    IFF_free(root, &R); REQUIRE(libLive() == 0, "freeing leaves %zu allocations: %s", libLive(), ctx.c_str());
    // failures
    if(!sizesOff) for(int i = 0; i < 3; i++)
    {
        MemIn in; in.data = bytes; string how;
        if(s.chance(2, 3)) { in.data.resize(s.below(bytes.size())); how = strf("cut off after %zu of %zu bytes", in.data.size(), bytes.size()); if(s.chance(1, 4)) { in.errorAt = (int64_t)in.data.size(); in.data = bytes; how = "read error"; } }
        else { libFaultArm((int64_t)s.below(30), s.chance(1, 2)); how = "out of memory"; }
        gLog.clear(); messagesClear(); FILE *f = openIn(in); IFF_Chunk *y = IFF_readFd(f, &R); bool hit = libFaultHit(); libFaultDisarm(); fclose(f); c.subEvals++;
        if(how == "out of memory" && !hit) { REQUIRE(y, "reading fails: %s", ctx.c_str()); IFF_free(y, &R); }
        else REQUIRE(!y, "%s: reading succeeds: %s", how.c_str(), ctx.c_str());
        if(how[0] == 'c' && ownRoot && in.data.size() >= (n.id == GC ? 10u : 8u) && in.data.size() < (n.id == GC ? 14u : 12u)) REQUIRE(gMessages.find(typeName) != string::npos, "%s: the group type '%s' is missing, but '%s' is reported: %s", how.c_str(), typeName, gMessages.c_str(), ctx.c_str());
        REQUIRE(libLive() == 0, "%s: reading leaves %zu allocations: %s", how.c_str(), libLive(), ctx.c_str()); c.label("failing read: " + how.substr(0, 7));
    }
    if(!sizesOff && s.chance(1, 2))
    {
        root = make(s, n, r, 0, reg, false); MemOut out; out.failAt = (int64_t)s.below(bytes.size()); messagesClear(); FILE *f = openOut(out, 1); IFF_Bool ok = IFF_writeFd(f, root, &R); fclose(f);
        if(ownRoot && out.failAt >= (n.id == GC ? 10 : 8) && out.failAt < (n.id == GC ? 14 : 12)) REQUIRE(gMessages.find(typeName) != string::npos, "a destination that fails within the group type '%s' is reported as '%s': %s", typeName, gMessages.c_str(), ctx.c_str());
        REQUIRE(!ok && gMessageCount > 0, "writing to a destination that fails after %lld of %zu bytes gives %d and %u messages: %s", (long long)out.failAt, bytes.size(), ok, gMessageCount, ctx.c_str()); IFF_free(root, &R); c.subEvals++; c.label("failing write");
    }
    size_t own = 0, ext = 0; std::function<void(const Node &, uint32_t)> cnt = [&](const Node &x, uint32_t sc) { if(x.group && isOwn(x.id)) own++; if(!x.group) { int k = r.resolve(sc, x.id); if(k >= 0 && k < NHANDLERS) ext++; } for(auto &p : x.props) cnt(p, x.type); for(auto &k : x.kids) cnt(k, x.type); }; cnt(n, 0);
    c.label(ownRoot ? "own group as main chunk" : "own groups in forms"); c.label(viaRead ? "read" : "built"); c.label(edit.empty() ? "unedited" : edit + (want ? " (still valid)" : "")); c.label(ext ? "with extension chunks" : "without extension chunks"); if(own > 1) c.label("several own groups");
    if(countNodes(n) > 2) { c.nontriv(hashNode(n) ^ hashBytes(edit.data(), edit.size())); c.desc = ctx.substr(0, 600); }
}
static RegProp r26({ "C26", "exploration",
    "Three group types of an application ('GRPA' made of IFF_readGroup, IFF_writeGroup, IFF_checkGroup, IFF_freeGroup, IFF_printGroup and IFF_compareGroup alone, 'GRPB' with a number of its own between type and members, made of the smaller functions, 'GRPC' with a number before the type) with generated rules for types and members, nested in each other, in FORMs and around built-in groups, next to generated extension chunks; reading, writing, checking, printing, comparing, searching, size updates, cut-off and failing sources, destinations and allocations against a model. Non-trivial: more than two chunks; distinct by hierarchy and edit.",
    caseC26, 24000, 600000, 150000, nullptr, { "the application's handlers are as the documentation of the group functions demands" } });
