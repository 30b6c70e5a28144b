#include "ext.h"
#include <cstring>
#include <algorithm>
using std::string; using std::vector;

thread_local vector<LogEntry> gLog; vector<FieldKind> gLayout[NHANDLERS]; bool gExtCheckVerdict[NHANDLERS]; thread_local int gExtReadFails = 0;
static bool readFails() { return gExtReadFails > 0 && --gExtReadFails == 0; }
int fieldSize(FieldKind k) { static const int z[] = { 1, 2, 2, 4, 4, 4 }; return z[k]; }

static const uint32_t MAGIC = 0x5eed1e55;

template<int K> struct H
{
    static ExtChunk *self(const IFF_Chunk *c, const char *op)
    {
        ExtChunk *e = (ExtChunk *)c;
        if(e->magic != MAGIC || e->handler != K) failf("handler %d was asked to %s chunk '%s' that was not created by it", K, op, idStr(c->chunkId).c_str());
        return e;
    }
    static IFF_Chunk *create(const IFF_ID id, const IFF_Long size)
    {
        ExtChunk *e = (ExtChunk *)vpw_malloc(sizeof(ExtChunk));
        if(!e) return nullptr;
        memset(e, 0, sizeof *e); e->chunkId = id; e->chunkSize = size; e->handler = K; e->magic = MAGIC;
        if(!(e->own = vpw_malloc(1))) { vpw_free(e); return nullptr; } // what only this handler's free function releases
        gLog.push_back({ OP_CREATE, K, id, e });
        return (IFF_Chunk *)e;
    }
    static IFF_Bool read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *, IFF_Long *bp)
    {
        ExtChunk *e = self(c, "read"); gLog.push_back({ OP_READ, K, c->chunkId, c });
        if(readFails()) return FALSE;
        for(size_t i = 0; i < gLayout[K].size(); i++)
        {
            IFF_FieldStatus st; IFF_UByte b; IFF_UWord w; IFF_Word sw; IFF_ULong l; IFF_Long sl; IFF_ID id;
            switch(gLayout[K][i])
            {
                case F_UB: st = IFF_readUByteField(f, &b, c, "field", bp); if(st == IFF_FIELD_MORE) e->value[i] = b; break;
                case F_UW: st = IFF_readUWordField(f, &w, c, "field", bp); if(st == IFF_FIELD_MORE) e->value[i] = w; break;
                case F_W: st = IFF_readWordField(f, &sw, c, "field", bp); if(st == IFF_FIELD_MORE) e->value[i] = (uint32_t)(uint16_t)sw; break;
                case F_UL: st = IFF_readULongField(f, &l, c, "field", bp); if(st == IFF_FIELD_MORE) e->value[i] = l; break;
                case F_L: st = IFF_readLongField(f, &sl, c, "field", bp); if(st == IFF_FIELD_MORE) e->value[i] = (uint32_t)sl; break;
                default: st = IFF_readIdField(f, &id, c, "field", bp); if(st == IFF_FIELD_MORE) e->value[i] = id;
            }
            if(st != IFF_FIELD_MORE) return IFF_deriveSuccess(st);
        }
        return TRUE;
    }
    static IFF_Bool write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *, IFF_Long *bp)
    {
        const ExtChunk *e = self(c, "write"); gLog.push_back({ OP_WRITE, K, c->chunkId, c });
        for(size_t i = 0; i < gLayout[K].size(); i++)
        {
            IFF_FieldStatus st; uint32_t v = e->value[i];
            switch(gLayout[K][i])
            {
                case F_UB: st = IFF_writeUByteField(f, (IFF_UByte)v, c, "field", bp); break;
                case F_UW: st = IFF_writeUWordField(f, (IFF_UWord)v, c, "field", bp); break;
                case F_W: st = IFF_writeWordField(f, (IFF_Word)v, c, "field", bp); break;
                case F_UL: st = IFF_writeULongField(f, v, c, "field", bp); break;
                case F_L: st = IFF_writeLongField(f, (IFF_Long)v, c, "field", bp); break;
                default: st = IFF_writeIdField(f, v, c, "field", bp);
            }
            if(st != IFF_FIELD_MORE) return IFF_deriveSuccess(st);
        }
        return TRUE;
    }
    static IFF_Bool check(const IFF_Chunk *c, const IFF_ChunkRegistry *) { self(c, "check"); gLog.push_back({ OP_CHECK, K, c->chunkId, c }); return gExtCheckVerdict[K]; }
    static void free_(IFF_Chunk *c, const IFF_ChunkRegistry *) { vpw_free(self(c, "free")->own); gLog.push_back({ OP_FREE, K, c->chunkId, c }); }
    static void print(const IFF_Chunk *c, const unsigned int indent, const IFF_ChunkRegistry *)
    {
        const ExtChunk *e = self(c, "print"); gLog.push_back({ OP_PRINT, K, c->chunkId, c });
        IFF_printIndent(stdout, indent, "ext%d =", K);
        for(size_t i = 0; i < gLayout[K].size(); i++) fprintf(stdout, " %x", e->value[i]);
        fputs(";\n", stdout);
    }
    static IFF_Bool compare(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *)
    {
        const ExtChunk *x = self(a, "compare"), *y = self(b, "compare"); gLog.push_back({ OP_COMPARE, K, a->chunkId, a });
        for(size_t i = 0; i < gLayout[K].size(); i++) if(x->value[i] != y->value[i]) return FALSE;
        return TRUE;
    }
    static IFF_ChunkType type(uint32_t id) { IFF_ChunkType t = { id, &create, &read, &write, &check, &free_, &print, &compare }; return t; }
};

// instrumented default: raw chunks
namespace D
{
    static IFF_Chunk *create(const IFF_ID id, const IFF_Long size) { IFF_Chunk *c = IFF_createRawChunk(id, size); if(c) gLog.push_back({ OP_CREATE, H_DEFAULT, id, c }); return c; }
    static IFF_Bool read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { gLog.push_back({ OP_READ, H_DEFAULT, c->chunkId, c }); if(readFails()) return FALSE; return IFF_readRawChunk(f, c, r, bp); }
    static IFF_Bool write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { gLog.push_back({ OP_WRITE, H_DEFAULT, c->chunkId, c }); return IFF_writeRawChunk(f, c, r, bp); }
    static IFF_Bool check(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { gLog.push_back({ OP_CHECK, H_DEFAULT, c->chunkId, c }); return IFF_checkRawChunk(c, r); }
    static void free_(IFF_Chunk *c, const IFF_ChunkRegistry *r) { gLog.push_back({ OP_FREE, H_DEFAULT, c->chunkId, c }); IFF_freeRawChunk(c, r); }
    static void print(const IFF_Chunk *c, const unsigned int i, const IFF_ChunkRegistry *r) { gLog.push_back({ OP_PRINT, H_DEFAULT, c->chunkId, c }); IFF_printRawChunk(c, i, r); }
    static IFF_Bool compare(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { gLog.push_back({ OP_COMPARE, H_DEFAULT, a->chunkId, a }); return IFF_compareRawChunk(a, b, r); }
}

// instrumented group types
template<int K> struct W
{
    static IFF_Chunk *create(const IFF_ID id, const IFF_Long size)
    {
        IFF_Chunk *c = id == M_FORM ? IFF_createUnparsedForm(id, size) : id == M_CAT ? IFF_createUnparsedCAT(id, size) : id == M_LIST ? IFF_createUnparsedList(id, size) : IFF_createUnparsedProp(id, size);
        if(c) gLog.push_back({ OP_CREATE, K, id, c });
        return c;
    }
    static IFF_Bool read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { gLog.push_back({ OP_READ, K, c->chunkId, c }); if(readFails()) return FALSE; switch(c->chunkId) { case M_FORM: return IFF_readForm(f, c, r, bp); case M_CAT: return IFF_readCAT(f, c, r, bp); case M_LIST: return IFF_readList(f, c, r, bp); default: return IFF_readProp(f, c, r, bp); } }
    static IFF_Bool write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { gLog.push_back({ OP_WRITE, K, c->chunkId, c }); switch(c->chunkId) { case M_FORM: return IFF_writeForm(f, c, r, bp); case M_CAT: return IFF_writeCAT(f, c, r, bp); case M_LIST: return IFF_writeList(f, c, r, bp); default: return IFF_writeProp(f, c, r, bp); } }
    static IFF_Bool check(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { gLog.push_back({ OP_CHECK, K, c->chunkId, c }); switch(c->chunkId) { case M_FORM: return IFF_checkForm(c, r); case M_CAT: return IFF_checkCAT(c, r); case M_LIST: return IFF_checkList(c, r); default: return IFF_checkProp(c, r); } }
    static void free_(IFF_Chunk *c, const IFF_ChunkRegistry *r) { gLog.push_back({ OP_FREE, K, c->chunkId, c }); switch(c->chunkId) { case M_FORM: IFF_freeForm(c, r); break; case M_CAT: IFF_freeCAT(c, r); break; case M_LIST: IFF_freeList(c, r); break; default: IFF_freeProp(c, r); } }
    static void print(const IFF_Chunk *c, const unsigned int i, const IFF_ChunkRegistry *r) { gLog.push_back({ OP_PRINT, K, c->chunkId, c }); switch(c->chunkId) { case M_FORM: IFF_printForm(c, i, r); break; case M_CAT: IFF_printCAT(c, i, r); break; case M_LIST: IFF_printList(c, i, r); break; default: IFF_printProp(c, i, r); } }
    static IFF_Bool compare(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { gLog.push_back({ OP_COMPARE, K, a->chunkId, a }); switch(a->chunkId) { case M_FORM: return IFF_compareForm(a, b, r); case M_CAT: return IFF_compareCAT(a, b, r); case M_LIST: return IFF_compareList(a, b, r); default: return IFF_compareProp(a, b, r); } }
    static IFF_ChunkType type(uint32_t id) { IFF_ChunkType t = { id, &create, &read, &write, &check, &free_, &print, &compare }; return t; }
};

IFF_ChunkType handlerType(int k, uint32_t id)
{
    if(k == H_WRAP) return W<H_WRAP>::type(id);
    if(k == H_WRAP + 1) return W<H_WRAP + 1>::type(id);
    switch(k)
    {
        case 0: return H<0>::type(id); case 1: return H<1>::type(id); case 2: return H<2>::type(id); case 3: return H<3>::type(id);
        case 4: return H<4>::type(id); case 5: return H<5>::type(id); case 6: return H<6>::type(id); case 7: return H<7>::type(id);
    }
    IFF_ChunkType t = { id, &D::create, &D::read, &D::write, &D::check, &D::free_, &D::print, &D::compare };
    return t;
}

static int inChain(const Chain &c, uint32_t id) { for(auto &n : c) for(auto &e : n) if(e.id == id) return e.handler; return H_RAW; }
int RegSpec::resolve(uint32_t scope, uint32_t id) const
{
    for(size_t i = 0; i < forms.size(); i++) if(forms[i].first == scope) { int k = inChain(forms[i].second, id); if(k != H_RAW) return k; if(isGroupId(id) && linkGlobal >> i & 1) return H_GROUP; }
    int k = inChain(global, id); if(k != H_RAW) return k;
    if(isGroupId(id)) return H_GROUP;
    return customDefault ? H_DEFAULT : H_RAW;
}
string RegSpec::show() const
{
    string s;
    auto chain = [&](const Chain &c) { for(auto &n : c) { s += "["; for(auto &e : n) s += idStr(e.id) + strf("=%d ", e.handler); s += "]"; } };
    for(auto &f : forms) { s += idStr(f.first) + ":"; chain(f.second); s += " "; }
    s += "global:"; chain(global); if(customDefault) s += " default:8";
    return s;
}
static bool byId(const IFF_ChunkType &a, const IFF_ChunkType &b) { return a.chunkId < b.chunkId; }
Registry::Registry(const RegSpec &s)
{
    size_t n = s.global.size(); for(auto &f : s.forms) n += f.second.size();
    types.reserve(n + 1); nodes.reserve(n + 1);
    auto addChain = [&](const Chain &c, IFF_ChunkTypesNode *last) -> IFF_ChunkTypesNode * {
        IFF_ChunkTypesNode *next = last;
        for(size_t i = c.size(); i-- > 0;)
        {
            vector<IFF_ChunkType> t; for(auto &e : c[i]) t.push_back(handlerType(e.handler, e.id));
            std::sort(t.begin(), t.end(), byId); types.push_back(std::move(t));
            IFF_ChunkTypesNode nd; nd.chunkTypesLength = (unsigned)types.back().size(); nd.chunkTypes = types.back().data(); nd.parent = next;
            nodes.push_back(nd); next = &nodes.back();
        }
        return next;
    };
    for(size_t i = 0; i < s.forms.size(); i++) { IFF_FormChunkTypes t; t.formType = s.forms[i].first; t.chunkTypesNode = addChain(s.forms[i].second, s.linkGlobal >> i & 1 ? &IFF_globalChunkTypesNode : nullptr); forms.push_back(t); }
    IFF_ChunkTypesNode *g = addChain(s.global, &IFF_globalChunkTypesNode);
    def = s.customDefault ? handlerType(H_DEFAULT, 0) : IFF_defaultChunkType;
    reg.formChunkTypesLength = (unsigned)forms.size(); reg.formChunkTypes = forms.data(); reg.globalChunkTypesNode = g; reg.defaultChunkType = &def;
}

void genLayouts(Src &s)
{
    gLog.clear();
    for(int k = 0; k < NHANDLERS; k++)
    {
        gLayout[k].clear(); gExtCheckVerdict[k] = true;
        int n = (int)s.below(6);
        for(int i = 0; i < n; i++) gLayout[k].push_back((FieldKind)s.below(6));
    }
}
static uint32_t extId(Src &s)
{
    static const vector<const char *> pool = { "HELO", "BYE ", "TEXT", "BODY", "CMAP", "HELP", "A   ", "zzzz", "FORN", "PROQ", "BYE!", "    " };
    uint32_t v = s.chance(1, 6) ? genChunkId(s) : mk(pool[s.below(pool.size())]);
    return v;
}
RegSpec genRegistry(Src &s)
{
    RegSpec r; bool wrap = s.chance(1, 4);
    auto chain = [&](bool mayEmpty) {
        Chain c; int n = (int)s.range(mayEmpty ? 0 : 1, 3);
        for(int i = 0; i < n; i++)
        {
            vector<TypeEntry> node; int m = (int)s.range(0, 5);
            if(s.chance(1, 10)) m = 12;
            for(int j = 0; j < m; j++) { uint32_t id = extId(s); bool dup = false; for(auto &e : node) if(e.id == id) dup = true; int k = (int)s.below(NHANDLERS); if(!dup) node.push_back({ id, k }); }
            if(wrap) for(uint32_t g : { M_FORM, M_CAT, M_LIST, M_PROP }) if(s.chance(1, 3)) node.push_back({ g, H_WRAP + (int)s.below(2) });
            c.push_back(node);
        }
        return c; };
    int nf = (int)s.range(0, 4); if(s.chance(1, 10)) nf = 9;
    for(int i = 0; i < nf; i++)
    {
        uint32_t t = i == 0 ? mk("TEST") : s.chance(1, 10) ? M_JJJJ : genFormType(s); bool dup = false; for(auto &f : r.forms) if(f.first == t) dup = true;
        Chain c = chain(false);
        if(!dup) r.forms.push_back({ t, c });
    }
    std::sort(r.forms.begin(), r.forms.end(), [](const std::pair<uint32_t, Chain> &a, const std::pair<uint32_t, Chain> &b) { return a.first < b.first; });
    if(s.chance(1, 3)) r.global = chain(true);
    r.customDefault = s.chance(1, 2);
    if(s.chance(1, 3)) r.linkGlobal = s.byte();
    return r;
}

void retarget(Src &s, Node &n, const RegSpec &r, uint32_t scope, const GenOpts &o)
{
    if(!n.group)
    {
        // chunk IDs that the registry knows, in this scope or another
        if(s.chance(3, 4))
        {
            vector<uint32_t> ids;
            for(auto &f : r.forms) if(f.first == scope || s.chance(1, 3)) for(auto &nd : f.second) for(auto &e : nd) if(!isGroupId(e.id)) ids.push_back(e.id);
            if(s.chance(1, 3)) for(auto &nd : r.global) for(auto &e : nd) if(!isGroupId(e.id)) ids.push_back(e.id);
            if(!ids.empty()) n.id = ids[s.below(ids.size())];
        }
        int k = r.resolve(scope, n.id);
        if(k >= 0 && k < NHANDLERS)
        {
            int full = 0; for(auto f : gLayout[k]) full += fieldSize(f);
            int sz = full;
            switch(s.below(6)) { case 0: case 1: case 2: break; case 3: sz = (int)s.range(0, full); break; case 4: sz = full + (s.chance(1, 30) ? tailSize(s) : (int)s.range(1, 9)); break; default: sz = (int)s.range(0, 24); }
            n.data = genData(s, (size_t)sz);
        }
        return;
    }
    for(auto &p : n.props) retarget(s, p, r, n.type, o);
    for(auto &k : n.kids) retarget(s, k, r, n.type, o);
}
static void retype(Src &s, Node &n, const RegSpec &r)
{
    // form types known to the registry where that keeps the hierarchy valid
    if(n.group)
    {
        for(auto &p : n.props) if(p.type != M_LIST && !r.forms.empty() && s.chance(2, 3)) { uint32_t t = r.forms[s.below(r.forms.size())].first; if(okFormType(t)) p.type = t; }
        if(n.id == M_FORM || n.type == M_JJJJ)
            for(auto &k : n.kids) if(k.id == M_FORM && !r.forms.empty() && s.chance(2, 3)) { uint32_t t = r.forms[s.below(r.forms.size())].first; if(okFormType(t)) k.type = t; }
        for(auto &k : n.kids) retype(s, k, r);
    }
}
Node genExtTree(Src &s, const GenOpts &o, const RegSpec &r)
{
    Node n = genTree(s, o);
    if(!r.forms.empty() && s.chance(2, 3))
    {
        uint32_t t = r.forms[s.below(r.forms.size())].first;
        if(n.id == M_FORM && okFormType(t)) n.type = t;
        else if((n.id == M_CAT || n.id == M_LIST) && okFormType(t)) { n.type = t; for(auto &k : n.kids) { k.type = t; if(k.id != M_FORM) k.kids.clear(); } }
    }
    retype(s, n, r);
    retarget(s, n, r, 0, o);
    fixSizes(n);
    return n;
}
int knownBytes(int h, int32_t size)
{
    int b = 0; for(auto f : gLayout[h]) { if(b + fieldSize(f) > size) break; b += fieldSize(f); }
    return b;
}
void canonical(Node &n, const RegSpec &r, uint32_t scope)
{
    if(!n.group)
    {
        int k = r.resolve(scope, n.id);
        if(k >= 0 && k < NHANDLERS) { size_t b = (size_t)knownBytes(k, n.size); for(size_t i = b; i < n.data.size(); i++) n.data[i] = 0; }
        return;
    }
    for(auto &p : n.props) canonical(p, r, n.type);
    for(auto &k : n.kids) canonical(k, r, n.type);
}
bool hasSkipped(const Node &n, const RegSpec &r, uint32_t scope)
{
    if(!n.group) { int k = r.resolve(scope, n.id); return k >= 0 && k < NHANDLERS && knownBytes(k, n.size) < n.size; }
    for(auto &p : n.props) if(hasSkipped(p, r, n.type)) return true;
    for(auto &k : n.kids) if(hasSkipped(k, r, n.type)) return true;
    return false;
}
size_t countExt(const Node &n, const RegSpec &r, uint32_t scope)
{
    size_t c = 0;
    if(!n.group) { int k = r.resolve(scope, n.id); return k >= 0 && k < NHANDLERS; }
    for(auto &p : n.props) c += countExt(p, r, n.type);
    for(auto &k : n.kids) c += countExt(k, r, n.type);
    return c;
}
static void decodeFields(int k, const string &data, int32_t size, uint32_t *v)
{
    size_t pos = 0; int i = 0;
    memset(v, 0, 8 * sizeof *v);
    for(auto f : gLayout[k])
    {
        int z = fieldSize(f); if((int32_t)pos + z > size) break;
        uint32_t x = 0; for(int j = 0; j < z; j++) x = x << 8 | (unsigned char)data[pos + (size_t)j];
        v[i++] = x; pos += (size_t)z;
    }
}
string diffExt(const IFF_Chunk *c, const Node &n, const IFF_Group *parent, const RegSpec &r, uint32_t scope, const string &path)
{
    string here = path + "/" + idStr(n.id);
    if(!c) return here + ": missing chunk";
    if(c->chunkId != n.id) return here + strf(": chunk ID is '%s'", idStr(c->chunkId).c_str());
    if(c->chunkSize != n.size) return here + strf(": size is %d, expected %d", c->chunkSize, n.size);
    if(c->parent != parent) return here + ": wrong parent pointer";
    int k = r.resolve(scope, n.id);
    if(k >= 0 && k < NHANDLERS)
    {
        const ExtChunk *e = nullptr;
        for(auto &l : gLog) if(l.op == OP_CREATE && l.chunk == c) e = l.handler == k ? (const ExtChunk *)c : nullptr;
        if(!e) return here + strf(": was not created by handler %d, which is registered for it in scope '%s'", k, idStr(scope).c_str());
        uint32_t v[8]; decodeFields(k, n.data, n.size, v);
        for(size_t i = 0; i < gLayout[k].size(); i++) if(e->value[i] != v[i]) return here + strf(": field %zu is %x, expected %x", i, e->value[i], v[i]);
        return "";
    }
    if(!n.group)
    {
        bool ext = false; for(auto &l : gLog) if(l.op == OP_CREATE && l.chunk == c) ext = l.handler < NHANDLERS;
        if(ext) return here + strf(": was created by an extension handler although none is registered for it in scope '%s'", idStr(scope).c_str());
        const IFF_RawChunk *rc = (const IFF_RawChunk *)c;
        if(n.data.size() && memcmp(rc->chunkData, n.data.data(), n.data.size())) return here + ": data differs";
        return "";
    }
    const IFF_Group *g = (const IFF_Group *)c;
    if(g->groupType != n.type) return here + strf(": group type is '%s', expected '%s'", idStr(g->groupType).c_str(), idStr(n.type).c_str());
    if(g->chunkLength != n.kids.size()) return here + strf(": %u members, expected %zu", g->chunkLength, n.kids.size());
    if(n.id == M_LIST)
    {
        const IFF_List *l = (const IFF_List *)c;
        if(l->propLength != n.props.size()) return here + strf(": %u PROPs, expected %zu", l->propLength, n.props.size());
        for(size_t i = 0; i < n.props.size(); i++) { string d = diffExt((const IFF_Chunk *)l->prop[i], n.props[i], g, r, n.type, here + strf("<%zu>", i)); if(!d.empty()) return d; }
    }
    for(size_t i = 0; i < n.kids.size(); i++) { string d = diffExt(g->chunk[i], n.kids[i], g, r, n.type, here + strf("[%zu]", i)); if(!d.empty()) return d; }
    return "";
}
IFF_Chunk *buildExt(const Node &n, const RegSpec &r, uint32_t scope, const Registry &reg)
{
    int k = r.resolve(scope, n.id);
    IFF_Chunk *c;
    if(k >= 0 && k < NHANDLERS)
    {
        IFF_ChunkType t = handlerType(k, n.id);
        c = t.createExtensionChunk(n.id, n.size); if(!c) harnessf("extension chunk");
        decodeFields(k, n.data, n.size, ((ExtChunk *)c)->value);
    }
    else if(!n.group)
    {
        c = k == H_DEFAULT ? handlerType(H_DEFAULT, 0).createExtensionChunk(n.id, n.size) : IFF_createRawChunk(n.id, n.size);
        if(!c) harnessf("raw chunk");
        if(!n.data.empty()) memcpy(((IFF_RawChunk *)c)->chunkData, n.data.data(), n.data.size());
    }
    else
    {
        switch(n.id)
        {
            case M_FORM: c = (IFF_Chunk *)IFF_createEmptyForm(n.type); break;
            case M_PROP: c = (IFF_Chunk *)IFF_createEmptyProp(n.type); break;
            case M_CAT: c = (IFF_Chunk *)IFF_createEmptyCATWithContentsType(n.type); break;
            default: c = (IFF_Chunk *)IFF_createEmptyListWithContentsType(n.type); break;
        }
        for(auto &p : n.props) IFF_addPropToList((IFF_List *)c, (IFF_Prop *)buildExt(p, r, n.type, reg));
        for(auto &x : n.kids) IFF_addToGroup((IFF_Group *)c, buildExt(x, r, n.type, reg));
    }
    c->chunkSize = n.size;
    return c;
}
