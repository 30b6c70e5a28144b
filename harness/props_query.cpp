// C10 search, C11 shared properties, C12 handler resolution
#include "ext.h"
#include "robust.h"
#include <cstring>
#include <map>
#include <set>
using std::string; using std::vector; using std::map; using std::set;

static const vector<const char *> smallTypes = { "TEST", "ILBM", "8SVX", "A   " };
static uint32_t smallType(Src &s) { return mk(smallTypes[s.below(smallTypes.size())]); }

// ---------------------------------------------------------------- C10
static void retypeForms(Src &s, Node &n)
{
    if(n.id == M_FORM && s.chance(4, 5)) n.type = smallType(s);
    for(auto &p : n.props) { if(s.chance(1, 2)) p.type = smallType(s); retypeForms(s, p); }
    for(auto &k : n.kids) retypeForms(s, k);
}
// what the search has to find, from the model alone; indices into the preorder list
static void wanted(const Node &n, const map<const Node *, size_t> &at, const set<uint32_t> &types, vector<size_t> &out)
{
    if(n.id == M_FORM && n.group && types.count(n.type)) { out.push_back(at.at(&n)); return; }
    if(n.id != M_FORM && n.id != M_CAT && n.id != M_LIST) return;
    for(auto &k : n.kids) wanted(k, at, types, out);
}
static string idxs(const vector<size_t> &v) { string r; for(auto x : v) r += strf("%zu ", x); return r; }
static void caseC10(Src &s, Ctx &c)
{
    GenOpts o; o.maxNodes = s.chance(1, 12) ? 400 : 40; o.maxDepth = s.chance(1, 6) ? 12 : 5; o.maxKids = s.chance(1, 6) ? 9 : 4; o.maxData = 6; o.anyRoot = s.chance(1, 8); o.extremes(c, 400);
    Node n = genTree(s, o); retypeForms(s, n);
    if(s.chance(1, 15)) { GenOpts q; q.maxNodes = 3; size_t k = (size_t)s.range(50, 400); Node w; w.id = s.chance(1, 2) ? M_CAT : M_LIST; w.group = true; w.type = M_JJJJ; for(size_t i = 0; i < k; i++) { Node f; f.id = M_FORM; f.group = true; f.type = smallType(s); if(n.size < 4000 && s.chance(1, 10)) f.kids.push_back(n); w.kids.push_back(f); if(countNodes(w) > 3000) break; } n = w; fixSizes(n); }
    string edits; if(s.chance(1, 5)) edits = mutateTree(s, n);
    fixSizes(n);
    bool viaRead = edits.empty() && s.chance(1, 2);
    IFF_Chunk *root = viaRead ? readBytes(encode(n), nullptr) : build(n, &s);
    REQUIRE(root, "cannot read %s", show(n).c_str());
    vector<Node *> all; allNodes(n, all); vector<IFF_Chunk *> lib; libNodes(root, lib);
    if(all.size() != lib.size()) failf("%zu chunks in memory, expected %zu: %s", lib.size(), all.size(), show(n).c_str());
    map<const Node *, size_t> at; for(size_t i = 0; i < all.size(); i++) at[all[i]] = i;
    map<const void *, size_t> libAt; for(size_t i = 0; i < lib.size(); i++) libAt[lib[i]] = i;
    int rounds = (int)s.range(2, 6); size_t most = 0; uint64_t h = hashNode(n);
    for(int i = 0; i < rounds; i++)
    {
        size_t start = s.chance(1, 2) ? 0 : s.below(all.size());
        vector<IFF_ID> types; size_t nt = s.below(8); nt = nt < 4 ? 1 : nt - 4;   // 0 to 3 types, mostly one
        for(size_t j = 0; j < nt; j++) types.push_back(s.chance(5, 6) ? smallType(s) : s.chance(1, 2) ? genAnyId(s) : all[s.below(all.size())]->type);
        if(types.size() == 2 && s.chance(1, 4)) types[1] = types[0];
        if(types.size() == 3 && s.chance(1, 6)) // many types, the interesting ones anywhere among them
        {
            static const size_t many[] = { 9, 16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 1025 };
            uint32_t base = s.chance(1, 2) ? 0x01000000u : 0x51000000u; nt = s.chance(1, 2) ? many[s.below(15)] : (size_t)s.range(4, 700);
            while(types.size() < nt) { base += 1 + (uint32_t)s.below(3); types.push_back(base); }
            for(int j = 0; j < 3; j++) std::swap(types[(size_t)j], types[s.chance(1, 3) ? nt - 1 : s.below(nt)]);
            c.label("search for many types");
        }
        vector<size_t> want; set<uint32_t> ts(types.begin(), types.end());
        IFF_Chunk *from = lib[start]; unsigned len = 0xdeadbeef; size_t live = libLive(); IFF_Form **r;
        const char *how; bool single = types.size() == 1 && s.chance(1, 2); const IFF_ID *tp = types.empty() ? nullptr : types.data();
        bool direct = !single && s.chance(1, 2);
        bool members = false;
        if(direct && isGroupId(from->chunkId) && s.chance(1, 4)) { how = "InGroup"; members = true; r = IFF_searchFormsInGroup((IFF_Group *)from, tp, (unsigned)nt, &len); }
        else if(direct && from->chunkId == M_FORM) { how = "InForm"; r = IFF_searchFormsInForm((IFF_Form *)from, tp, (unsigned)nt, &len); }
        else if(direct && from->chunkId == M_CAT) { how = "InCAT"; r = IFF_searchFormsInCAT((IFF_CAT *)from, tp, (unsigned)nt, &len); }
        else if(direct && from->chunkId == M_LIST) { how = "InList"; r = IFF_searchFormsInList((IFF_List *)from, tp, (unsigned)nt, &len); }
        else if(single) { how = ""; r = IFF_searchForms(from, types[0], &len); }
        else { how = "FromArray"; r = IFF_searchFormsFromArray(from, tp, (unsigned)nt, &len); }
        if(members) { for(auto &k : all[start]->kids) wanted(k, at, ts, want); c.label("search in the members of a group"); } else wanted(*all[start], at, ts, want);
        c.subEvals++;
        string tl; for(auto t : types) tl += idStr(t) + " ";
        vector<size_t> got;
        REQUIRE(len == want.size(), "IFF_searchForms%s for %sfrom chunk %zu finds %u forms, expected %zu, in %s", how, tl.c_str(), start, len, want.size(), show(n).c_str());
        for(unsigned j = 0; j < len; j++) { auto f = libAt.find(r[j]); REQUIRE(f != libAt.end(), "IFF_searchForms%s returns a pointer that is no chunk of the hierarchy", how); got.push_back(f->second); }
        REQUIRE(got == want, "IFF_searchForms%s for %sfrom chunk %zu finds chunks %s, expected %s, in %s", how, tl.c_str(), start, idxs(got).substr(0, 500).c_str(), idxs(want).substr(0, 500).c_str(), show(n).c_str());
        if(s.chance(1, 8)) // results can be joined
        {
            unsigned len2 = 0; size_t other = s.below(all.size()); IFF_Form **r2 = IFF_searchFormsFromArray(lib[other], tp, (unsigned)nt, &len2); vector<IFF_Form *> both(r, r + len); both.insert(both.end(), r2, r2 + len2);
            unsigned total = len; if(len2) r = IFF_mergeFormArray(r, &total, r2, len2); if(r2) vpw_free(r2);
            REQUIRE(total == both.size() && std::equal(both.begin(), both.end(), r), "joining the results of two searches (%u and %u forms) gives something else, in %s", len, len2, show(n).c_str()); c.label("joined results");
        }
        if(r) vpw_free(r);
        REQUIRE(libLive() == live, "a search leaves %zd allocations behind after its result was released", (ssize_t)(libLive() - live));
        most = std::max(most, want.size()); h = mix64(h ^ hashBytes(types.data(), types.size() * 4, start));
        c.label(want.empty() ? "no match" : want.size() == 1 ? "one match" : want.size() < 10 ? "2-9 matches" : want.size() < 65536 ? "10 or more matches" : "more than 65535 matches");
        c.label(strf("%zu types", nt));
    }
    REQUIRE(sameNode(snapshot(root), n), "searching changed %s", show(n).c_str());
    string d = diffChunk(root, n, nullptr); REQUIRE(d.empty(), "searching changed the hierarchy: %s", d.c_str());
    freeTree(root);
    if(most) { c.nontriv(h); c.desc = strf("up to %zu matches in %s", most, show(n).substr(0, 400).c_str()); }
}

// ---------------------------------------------------------------- C11
static const vector<const char *> smallIds = { "HELO", "BYE ", "CMAP", "TEXT", "NAME" };
static uint32_t smallId(Src &s) { return mk(smallIds[s.below(smallIds.size())]); }
static void scopeTree(Src &s, Node &n)
{
    if(n.id == M_FORM) n.type = s.chance(5, 6) ? smallType(s) : n.type;
    if(n.id == M_LIST)
    {
        int extra = (int)s.below(3);
        for(int i = 0; i < extra && n.props.size() < 6; i++) { Node p; p.id = M_PROP; p.group = true; int m = (int)s.below(4); for(int j = 0; j < m; j++) { Node d; d.id = smallId(s); d.data = genData(s, (size_t)s.below(6)); p.kids.push_back(d); } n.props.insert(n.props.begin() + (long)s.below(n.props.size() + 1), p); }
        set<uint32_t> used; vector<Node> keep;   // two property groups for one form type in one LIST would be ambiguous
        for(auto &p : n.props) { p.type = s.chance(1, 10) ? M_LIST : s.chance(1, 10) ? genFormType(s) : smallType(s); if(used.insert(p.type).second) keep.push_back(p); }
        n.props = keep;
    }
    for(auto &p : n.props) for(auto &k : p.kids) if(s.chance(5, 6)) k.id = smallId(s);
    for(auto &k : n.kids) { if(!k.group) { if(n.id == M_FORM && s.chance(5, 6)) k.id = smallId(s); } else scopeTree(s, k); }
}
struct Up { const Node *n; const Up *up; };
static const Node *ownFirst(const Node &f, uint32_t id) { for(auto &k : f.kids) if(k.id == id) return &k; return nullptr; }
static const Node *inherited(const Up *u, uint32_t type, uint32_t id)
{
    for(; u; u = u->up) if(u->n->id == M_LIST)
        for(auto &p : u->n->props) if(p.type == type) { if(const Node *k = ownFirst(p, id)) return k; }
    return nullptr;
}
static void visitForms(const Node &n, const Up *up, const std::function<void(const Node &, const Up *)> &f)
{
    if(n.id == M_FORM) f(n, up);
    Up here{&n, up}; for(auto &k : n.kids) if(k.group) visitForms(k, &here, f);
}
static Node flatten(const Node &n, const Up *up)
{
    Node r = n; r.props.clear(); r.kids.clear(); Up here{&n, up};
    for(auto &k : n.kids) r.kids.push_back(k.group ? flatten(k, &here) : k);
    if(n.id == M_FORM)
    {
        set<uint32_t> ids;
        for(const Up *u = up; u; u = u->up) if(u->n->id == M_LIST) for(auto &p : u->n->props) if(p.type == n.type) for(auto &k : p.kids) ids.insert(k.id);
        for(uint32_t id : ids) if(!isGroupId(id) && !ownFirst(n, id)) r.kids.push_back(*inherited(up, n.type, id));
    }
    return r;
}
static void caseC11(Src &s, Ctx &c)
{
    GenOpts o; o.maxNodes = s.chance(1, 10) ? 150 : 45; o.maxDepth = s.chance(1, 4) ? 10 : 5; o.maxKids = 5; o.maxData = 8; o.extremes(c, 400);
    Node n = genTree(s, o); scopeTree(s, n);
    if(s.chance(1, 3)) { int d = (int)s.range(1, 6); for(int i = 0; i < d; i++) { Node p; p.group = true; p.id = s.chance(1, 2) ? M_LIST : s.chance(1, 2) ? M_CAT : M_FORM; p.type = p.id == M_FORM ? smallType(s) : M_JJJJ; p.kids.push_back(n); Node inner = p.kids[0]; p.kids.clear(); scopeTree(s, p); if(p.id == M_FORM && s.chance(1, 2)) { Node x; x.id = smallId(s); x.data = "own"; p.kids.push_back(x); } p.kids.push_back(inner); n = p; } }
    string edits; if(s.chance(1, 8)) { Node m = n; edits = mutateTree(s, m); vector<Node *> all; allNodes(m, all); bool amb = false; for(auto x : all) if(x->id == M_LIST) { set<uint32_t> u; for(auto &p : x->props) if(p.id != M_PROP || !u.insert(p.type).second) amb = true; } if(amb) edits.clear(); else n = m; }
    fixSizes(n);
    bool viaRead = edits.empty() && s.chance(1, 2);
    IFF_Chunk *root = viaRead ? readBytes(encode(n), nullptr) : build(n, &s);
    REQUIRE(root, "cannot read %s", show(n).c_str());
    vector<Node *> all; allNodes(n, all); vector<IFF_Chunk *> lib; libNodes(root, lib);
    if(all.size() != lib.size()) failf("%zu chunks in memory, expected %zu: %s", lib.size(), all.size(), show(n).c_str());
    map<const Node *, IFF_Chunk *> ptr; map<const void *, const Node *> back; for(size_t i = 0; i < all.size(); i++) { ptr[all[i]] = lib[i]; back[lib[i]] = all[i]; }
    Node flat = flatten(n, nullptr); fixSizes(flat); IFF_Chunk *froot = build(flat);
    vector<const Node *> fforms; visitForms(flat, nullptr, [&](const Node &f, const Up *) { fforms.push_back(&f); });
    vector<Node *> fall; allNodes(flat, fall); vector<IFF_Chunk *> flib; libNodes(froot, flib); map<const Node *, IFF_Chunk *> fptr; for(size_t i = 0; i < fall.size(); i++) fptr[fall[i]] = flib[i];
    size_t nInherit = 0, nDeep = 0, nOwn = 0, nNone = 0, k = 0; size_t live = libLive();
    auto where = [&](const void *p) { if(!p) return string("nothing"); auto i = back.find(p); return i == back.end() ? string("an unknown pointer") : show(*i->second); };
    visitForms(n, nullptr, [&](const Node &f, const Up *up) {
        IFF_Form *form = (IFF_Form *)ptr[&f]; const Node *ff = fforms[k++];
        vector<uint32_t> ids; for(auto i : smallIds) ids.push_back(mk(i)); ids.push_back(genAnyId(s)); ids.push_back(s.chance(1, 2) ? M_FORM : M_LIST);
        if(!f.kids.empty()) ids.push_back(f.kids[s.below(f.kids.size())].id);
        for(uint32_t id : ids)
        {
            const Node *own = ownFirst(f, id), *want = own ? own : inherited(up, f.type, id);
            IFF_Chunk *got = IFF_getChunkFromForm(form, id), *gotOwn = IFF_getDataChunkFromForm(form, id); c.subEvals += 3;
            REQUIRE(got == (want ? ptr[want] : nullptr), "'%s' of %s is %s, expected %s, in %s", idStr(id).c_str(), show(f).c_str(), where(got).c_str(), want ? show(*want).c_str() : "nothing", show(n).c_str());
            REQUIRE(gotOwn == (own ? ptr[own] : nullptr), "own '%s' of %s is %s, expected %s", idStr(id).c_str(), show(f).c_str(), where(gotOwn).c_str(), own ? show(*own).c_str() : "nothing");
            unsigned len = 0xdeadbeef; IFF_Chunk **r = IFF_getChunksFromForm(form, id, &len);
            vector<const Node *> w; for(auto &x : f.kids) if(x.id == id) w.push_back(&x);
            REQUIRE(len == w.size(), "%u own chunks '%s' are returned for %s", len, idStr(id).c_str(), show(f).c_str());
            for(unsigned i = 0; i < len; i++) REQUIRE(r[i] == ptr[w[i]], "own chunk %u '%s' of %s is %s", i, idStr(id).c_str(), show(f).c_str(), where(r[i]).c_str());
            if(r) vpw_free(r);
            IFF_Chunk *fl = IFF_getChunkFromForm((IFF_Form *)fptr[ff], id); c.subEvals++;
            REQUIRE(isGroupId(id) || (!fl == !got && (!got || (fl->parent == (IFF_Group *)fptr[ff] && sameNode(snapshot(fl), snapshot(got))))), "'%s' of %s differs after the shared properties were moved into the forms of %s", idStr(id).c_str(), show(f).c_str(), show(n).c_str());
            if(own) nOwn++; else if(want) { nInherit++; const Up *u = up; while(u && u->n->id != M_LIST) u = u->up; bool first = false; if(u) for(auto &p : u->n->props) for(auto &x : p.kids) if(&x == want) first = true; if(!first) nDeep++; } else nNone++;
        }
    });
    for(auto x : all)
    {
        if(x->id == M_LIST) for(auto t : { mk("TEST"), mk("ILBM"), mk("8SVX"), mk("A   "), M_LIST, mk("NONE") })
        {
            const Node *w = nullptr; for(auto &p : x->props) if(p.type == t) { w = &p; break; }
            IFF_Prop *g = IFF_getPropFromList((IFF_List *)ptr[x], t); c.subEvals++;
            REQUIRE(g == (w ? (IFF_Prop *)ptr[w] : nullptr), "the PROP for '%s' of %s is %s", idStr(t).c_str(), show(*x).c_str(), where(g).c_str());
        }
        if(x->id == M_PROP) for(auto i : smallIds)
        {
            const Node *w = ownFirst(*x, mk(i)); IFF_Chunk *g = IFF_getChunkFromProp((IFF_Prop *)ptr[x], mk(i)); c.subEvals++;
            REQUIRE(g == (w ? ptr[w] : nullptr), "'%s' of %s is %s", i, show(*x).c_str(), where(g).c_str());
        }
    }
    REQUIRE(libLive() == live, "queries leave %zd allocations behind", (ssize_t)(libLive() - live));
    string d = diffChunk(root, n, nullptr); REQUIRE(d.empty(), "queries changed the hierarchy: %s", d.c_str());
    freeTree(root); freeTree(froot);
    c.count("answers: own", nOwn); c.count("answers: nearest list", nInherit - nDeep); c.count("answers: outer list", nDeep); c.count("answers: nothing", nNone);
    if(nInherit) { c.nontriv(hashNode(n)); c.desc = strf("%zu own, %zu inherited (%zu from outer lists): ", nOwn, nInherit, nDeep) + show(n).substr(0, 500); }
}

// ---------------------------------------------------------------- C12
struct Expect { const IFF_Chunk *p; uint32_t scope, id; int handler; const Node *n; };
static void walkExpect(const Node &n, IFF_Chunk *p, uint32_t scope, const RegSpec &r, vector<Expect> &v)
{
    v.push_back({ p, scope, n.id, r.resolve(scope, n.id), &n });
    if(!n.group) return;
    if(n.id == M_LIST) for(size_t i = 0; i < n.props.size(); i++) walkExpect(n.props[i], (IFF_Chunk *)((IFF_List *)p)->prop[i], n.type, r, v);
    for(size_t i = 0; i < n.kids.size(); i++) walkExpect(n.kids[i], ((IFF_Group *)p)->chunk[i], n.type, r, v);
}
static const char *opName[] = { "create", "read", "write", "check", "free", "print", "compare" };
// every chunk with an instrumented handler was handled exactly once, by that handler
static void logMatches(Op op, const vector<Expect> &ex, const string &ctx, bool atMost = false)
{
    map<const void *, int> seen; size_t total = 0;
    for(auto &l : gLog) if(l.op == op) { total++; REQUIRE(!seen.count(l.chunk), "chunk '%s' was handled twice for %s: %s", idStr(l.chunkId).c_str(), opName[op], ctx.c_str()); seen[l.chunk] = l.handler; }
    size_t want = 0;
    for(auto &e : ex) if(e.handler >= 0)
    {
        want++; auto i = seen.find(e.p);
        if(i == seen.end()) { REQUIRE(atMost, "%s of chunk '%s' in scope '%s' was not done by its handler %d: %s", opName[op], idStr(e.id).c_str(), idStr(e.scope).c_str(), e.handler, ctx.c_str()); continue; }
        REQUIRE(i->second == e.handler, "%s of chunk '%s' in scope '%s' was done by handler %d instead of %d: %s", opName[op], idStr(e.id).c_str(), idStr(e.scope).c_str(), i->second, e.handler, ctx.c_str());
    }
    REQUIRE(atMost || total == want, "%zu calls of extension handlers for %s, expected %zu: %s", total, opName[op], want, ctx.c_str());
    if(atMost) for(auto &l : gLog) if(l.op == op) { bool ok = false; for(auto &e : ex) if(e.p == l.chunk && e.handler == l.handler) ok = true; REQUIRE(ok, "%s of chunk '%s' was done by handler %d, which is not responsible: %s", opName[op], idStr(l.chunkId).c_str(), l.handler, ctx.c_str()); }
}
static void caseC12(Src &s, Ctx &c)
{
    genLayouts(s); RegSpec r = genRegistry(s);
    if(s.chance(1, 6)) // lookups work with any ID, whether it is legal or not
    {
        for(int i = (int)s.range(1, 4); i > 0; i--)
        {
            uint32_t t = s.chance(1, 2) ? s.u32() : genAnyId(s); bool dup = t == 0; for(auto &f : r.forms) if(f.first == t) dup = true;
            if(dup) continue;
            vector<TypeEntry> set; for(int j = (int)s.range(1, 4); j > 0; j--) { uint32_t id = s.chance(1, 2) ? s.u32() : genAnyId(s); bool twice = isGroupId(id); for(auto &e : set) if(e.id == id) twice = true; if(!twice) set.push_back({ id, (int)s.below(NHANDLERS) }); }
            r.forms.push_back({ t, { set } });
        }
        std::sort(r.forms.begin(), r.forms.end(), [](const std::pair<uint32_t, Chain> &x, const std::pair<uint32_t, Chain> &y) { return x.first < y.first; });
        c.label("unusual IDs registered");
    }
    Registry reg(r);
    if(s.chance(1, 3)) for(int i = 0; i < NHANDLERS; i++) gExtCheckVerdict[i] = s.chance(4, 5);
    string rs = r.show();
    // direct lookups
    for(int i = 0; i < 12; i++)
    {
        uint32_t scope = s.chance(2, 3) && !r.forms.empty() ? r.forms[s.below(r.forms.size())].first : s.chance(1, 2) ? 0 : genAnyId(s);
        uint32_t id; vector<uint32_t> ids; for(auto &f : r.forms) for(auto &nd : f.second) for(auto &e : nd) ids.push_back(e.id); for(auto &nd : r.global) for(auto &e : nd) ids.push_back(e.id);
        if(!ids.empty() && s.chance(2, 3)) id = ids[s.below(ids.size())]; else id = genAnyId(s);
        if(s.chance(1, 8)) scope ^= 1u << s.below(32);
        if(s.chance(1, 8)) id ^= 1u << s.below(32);
        int k = r.resolve(scope, id); IFF_ChunkType *t = IFF_findChunkType(&reg.reg, scope, id); c.subEvals++;
        REQUIRE(t, "no chunk type for '%s' in scope '%s' with %s", idStr(id).c_str(), idStr(scope).c_str(), rs.c_str());
        bool ok;
        if(k == H_GROUP) ok = t->chunkId == id && (id == M_FORM ? t->readExtensionChunkFields == &IFF_readForm && t->printExtensionChunk == &IFF_printForm : id == M_CAT ? t->readExtensionChunkFields == &IFF_readCAT && t->printExtensionChunk == &IFF_printCAT : id == M_LIST ? t->readExtensionChunkFields == &IFF_readList && t->printExtensionChunk == &IFF_printList : t->readExtensionChunkFields == &IFF_readProp && t->printExtensionChunk == &IFF_printProp);
        else if(k == H_RAW || k == H_DEFAULT) ok = t == &reg.def;
        else { IFF_ChunkType x = handlerType(k, id); ok = t->chunkId == id && t->createExtensionChunk == x.createExtensionChunk && t->freeExtensionChunk == x.freeExtensionChunk && t->compareExtensionChunk == x.compareExtensionChunk; }
        REQUIRE(ok, "the chunk type found for '%s' in scope '%s' is not the registered one (expected %d) with %s", idStr(id).c_str(), idStr(scope).c_str(), k, rs.c_str());
        c.label(k == H_GROUP ? "lookup: group" : k == H_RAW || k == H_DEFAULT ? "lookup: default" : "lookup: extension");
    }
    // the same sets put together in other ways, against a linear search
    {
        static IFF_ChunkType otherDefault = { 0, &IFF_createRawChunk, &IFF_readRawChunk, &IFF_writeRawChunk, &IFF_checkRawChunk, &IFF_freeRawChunk, &IFF_printRawChunk, &IFF_compareRawChunk };
        IFF_ChunkRegistry F = reg.reg; IFF_FormChunkTypes *ft = F.formChunkTypes; unsigned skip = F.formChunkTypesLength ? (unsigned)s.below(F.formChunkTypesLength + 1) : 0; if(s.chance(1, 3)) { F.formChunkTypes = ft + skip; F.formChunkTypesLength -= skip; } else if(s.chance(1, 3)) F.formChunkTypesLength = skip;
        if(s.chance(1, 2)) F.globalChunkTypesNode = nullptr; else if(F.formChunkTypesLength && s.chance(1, 3)) F.globalChunkTypesNode = F.formChunkTypes[s.below(F.formChunkTypesLength)].chunkTypesNode;
        if(s.chance(1, 2)) F.defaultChunkType = &otherDefault;
        vector<uint32_t> ids = { M_FORM, M_CAT, M_LIST, M_PROP, 0 }; for(auto &f : r.forms) for(auto &nd : f.second) for(auto &e : nd) ids.push_back(e.id); for(auto &nd : r.global) for(auto &e : nd) ids.push_back(e.id);
        for(int i = 0; i < 6; i++)
        {
            uint32_t scope = r.forms.empty() || s.chance(1, 4) ? 0 : r.forms[s.below(r.forms.size())].first, id = s.chance(1, 6) ? genAnyId(s) : ids[s.below(ids.size())]; IFF_ChunkType *want = nullptr;
            auto look = [&](const IFF_ChunkTypesNode *nd) { for(; nd && !want; nd = nd->parent) for(unsigned j = 0; j < nd->chunkTypesLength && !want; j++) if(nd->chunkTypes[j].chunkId == id) want = &nd->chunkTypes[j]; };
            for(unsigned j = 0; j < F.formChunkTypesLength; j++) if(F.formChunkTypes[j].formType == scope) look(F.formChunkTypes[j].chunkTypesNode);
            look(F.globalChunkTypesNode); if(!want) want = F.defaultChunkType;
            IFF_ChunkType *t = IFF_findChunkType(&F, scope, id); c.subEvals++; REQUIRE(t == want, "for '%s' in scope '%s' another chunk type than the registered one is found (%u form types,%s global ones): %s", idStr(id).c_str(), idStr(scope).c_str(), F.formChunkTypesLength, F.globalChunkTypesNode ? "" : " no", rs.c_str());
        }
    }
    // whole hierarchies
    GenOpts o; o.maxNodes = s.chance(1, 10) ? 100 : 30; o.maxDepth = s.chance(1, 8) ? 9 : 4; o.maxData = 20; o.anyRoot = s.chance(1, 8); o.extremes(c, 500, 0);
    Node n = genExtTree(s, o, r); string edits;
    if(s.chance(1, 8)) { edits = mutateTree(s, n); fixSizes(n); }
    if(s.chance(1, 4)) // a group with many members, in which groups and data chunks of the scope alternate
    {
        vector<Node *> gs; std::function<void(Node &)> find = [&](Node &x) { if(!x.group) return; gs.push_back(&x); for(auto &p : x.props) find(p); for(auto &k : x.kids) find(k); }; find(n);
        if(!gs.empty())
        {
            Node &g = *gs[s.below(gs.size())]; uint32_t t = r.forms.empty() || s.chance(1, 4) ? g.type : r.forms[s.below(r.forms.size())].first;
            if(g.kids.empty()) g.type = t;
            for(int k = (int)s.range(5, s.chance(1, 6) ? 300 : 24); k > 0; k--)
            {
                Node x; bool plain = g.id != M_PROP && s.chance(1, 2);
                if(plain) { static const uint32_t kinds[] = { M_FORM, M_FORM, M_FORM, M_CAT, M_LIST }; x.id = kinds[s.below(5)]; x.group = true; x.type = g.type == M_JJJJ && x.id == M_FORM ? mk("TEST") : g.type; }
                else { x.id = genChunkId(s); x.data = genData(s, s.below(9)); }
                g.kids.push_back(x);
            }
            for(auto &k : g.kids) if(!k.group) retarget(s, k, r, g.type, o);
            fixSizes(n); c.label("many members of one scope");
        }
    }
    canonical(n, r); string ctx = rs + " on " + show(n); bool viaRead = edits.empty() && s.chance(2, 3), hasExt = false;
    gLog.clear(); messagesClear();
    IFF_Chunk *root;
    if(viaRead) { root = readBytes(encode(n), &reg.reg); REQUIRE(root, "reading failed: %s: %s", ctx.c_str(), gMessages.c_str()); string d = diffExt(root, n, nullptr, r, 0); REQUIRE(d.empty(), "read differently: %s: %s", d.c_str(), ctx.c_str()); }
    else root = buildExt(n, r, 0, reg);
    vector<Expect> ex; walkExpect(n, root, 0, r, ex); for(auto &e : ex) if(e.handler >= 0) hasExt = true;
    if(viaRead) { logMatches(OP_CREATE, ex, ctx); logMatches(OP_READ, ex, ctx); c.subEvals++; }
    gLog.clear(); bool okw; string out = writeBytes(root, &reg.reg, okw); REQUIRE(okw, "writing failed: %s", ctx.c_str()); logMatches(OP_WRITE, ex, ctx);
    REQUIRE(out == encode(n), "written differently: %s: %s", firstDiff(out, encode(n)).c_str(), ctx.c_str());
    gLog.clear(); bool v = IFF_check(root, &reg.reg); bool all = true; for(auto &e : ex) if(e.handler >= 0 && e.handler < NHANDLERS && !gExtCheckVerdict[e.handler]) all = false;
    bool want = refValid(n) && all; REQUIRE(v == want, "the check says %d, expected %d: %s", v, want, ctx.c_str()); logMatches(OP_CHECK, ex, ctx, !want);
    gLog.clear(); captureStdout([&] { IFF_print(root, 0, &reg.reg); }); logMatches(OP_PRINT, ex, ctx);
    gLog.clear(); bool eq = IFF_compare(root, root, &reg.reg); REQUIRE(eq, "not equal to itself: %s", ctx.c_str()); logMatches(OP_COMPARE, ex, ctx);
    c.subEvals += 4;
    // single chunks with an explicit scope
    if(s.chance(1, 2))
    {
        const Expect &e = ex[s.below(ex.size())];
        if(e.handler >= 0)
        {
            vector<Expect> one; walkExpect(*e.n, (IFF_Chunk *)e.p, e.scope, r, one); string x = ctx + " (chunk on its own)";
            gLog.clear(); captureStdout([&] { IFF_printChunk(e.p, 0, e.scope, &reg.reg); }); logMatches(OP_PRINT, one, x);
            gLog.clear(); bool cv = IFF_checkChunk(e.p, e.scope, &reg.reg); logMatches(OP_CHECK, one, x, !cv);
            gLog.clear(); REQUIRE(IFF_compareChunk(e.p, e.p, e.scope, &reg.reg), "not equal to itself: %s", x.c_str()); logMatches(OP_COMPARE, one, x);
            MemOut mo; FILE *f = openOut(mo); gLog.clear(); REQUIRE(IFF_writeChunk(f, e.p, e.scope, &reg.reg), "writing failed: %s", x.c_str()); fclose(f); logMatches(OP_WRITE, one, x);
            MemIn mi; mi.data = mo.data; f = openIn(mi); gLog.clear(); IFF_Chunk *y = IFF_readChunk(f, e.scope, &reg.reg); fclose(f); REQUIRE(y, "reading failed: %s", x.c_str());
            one.clear(); walkExpect(*e.n, y, e.scope, r, one); logMatches(OP_CREATE, one, x); logMatches(OP_READ, one, x);
            REQUIRE(IFF_compareChunk(e.p, y, e.scope, &reg.reg), "reading back gives another chunk: %s", x.c_str());
            gLog.clear(); IFF_freeChunk(y, e.scope, &reg.reg); logMatches(OP_FREE, one, x); c.subEvals += 6; c.label("single chunk");
        }
    }
    gLog.clear(); IFF_free(root, &reg.reg); logMatches(OP_FREE, ex, ctx); c.subEvals++;
    // a read that fails frees every chunk it had created with the handler that created it
    if(edits.empty()) for(int i = 0; i < 2; i++)
    {
        MemIn in; in.data = encode(n); in.data.resize(s.below(in.data.size())); if(s.chance(1, 4)) { in.errorAt = (int64_t)in.data.size(); in.data += "xxxx"; }
        gLog.clear(); FILE *f = openIn(in); IFF_Chunk *y = IFF_readFd(f, &reg.reg); fclose(f); c.subEvals++;
        REQUIRE(!y, "a cut-off stream (%zu bytes) is read: %s", in.data.size(), ctx.c_str());
        map<const void *, int> made; size_t failed = 0;
        for(auto &l : gLog)
        {
            if(l.op == OP_CREATE) made[l.chunk] = l.handler;
            else { auto m = made.find(l.chunk); REQUIRE(m != made.end() && m->second == l.handler, "%s of chunk '%s' by handler %d, which did not create it, in a failing read: %s", opName[l.op], idStr(l.chunkId).c_str(), l.handler, ctx.c_str()); if(l.op == OP_FREE) { made.erase(m); failed++; } }
        }
        for(auto &m : made) failf("a chunk created by handler %d is not freed by it when reading fails (%zu of %zu bytes): %s", m.second, in.data.size(), encode(n).size(), ctx.c_str());
        REQUIRE(libLive() == 0, "a failing read leaves %zu allocations: %s", libLive(), ctx.c_str());
        c.label(failed ? "failing read with instrumented chunks" : "failing read without instrumented chunks");
    }
    REQUIRE(libLive() == 0, "freeing leaves %zu allocations: %s", libLive(), ctx.c_str());
    bool wrapped = false; for(auto &e : ex) if(e.handler >= H_WRAP) wrapped = true; if(wrapped) c.label("instrumented group types");
    c.label(hasExt ? "hierarchy with instrumented chunks" : "hierarchy without instrumented chunks"); c.label(strf("%zu extended forms", r.forms.size()));
    size_t ch = 0; for(auto &f : r.forms) ch = std::max(ch, f.second.size()); c.label(strf("longest chain %zu", ch));
    if(hasExt) { c.nontriv(hashNode(n) ^ hashBytes(rs.data(), rs.size())); c.desc = ctx.substr(0, 600); }
}

static RegProp r10({ "C10", "exploration",
    "Random hierarchies (form types from a pool of four, up to 400 chunks, wide groups of up to 400 members, depth 12, also with misplaced chunks) built or read; 2-6 searches each from the root or any inner chunk for 0-3 types (also repeated ones) through all entry points; the returned pointers must be those of an independent recursion over the model, nothing else stays allocated, nothing changes. Non-trivial: at least one match; distinct by hierarchy and queries.",
    caseC10, 60000, 1500000, 300000, nullptr, { "none beyond the harness" } }, GIANT_WIDE | GIANT_DEEP | GIANT_ODD);
static RegProp r11({ "C11", "exploration",
    "Random nests of LISTs with PROPs, CATs and FORMs with few form types and chunk IDs; every FORM is asked for 7-8 IDs through all query functions; answers (pointers) must be those of the scoping model, and answers must not change when every inherited chunk is copied into its FORM and all PROPs are removed. Two PROPs of one type in one LIST are not generated. Non-trivial: at least one inherited answer; distinct by hierarchy.",
    caseC11, 40000, 1000000, 200000, nullptr, { "a LIST has at most one PROP per form type, as EA IFF-85 intends" } }, GIANT_WIDE | GIANT_DEEP | GIANT_ODD);
static RegProp r12({ "C12", "exploration",
    "Random registries (0-9 form types, chains of 1-3 sets with 0-12 types, own global sets, custom default, chains linked to the built-in set) with instrumented handlers over random field layouts; lookups for random scopes and IDs, and create/read/write/check/print/compare/free of whole hierarchies and single chunks; the log of handler calls must name exactly the responsible handler of every chunk once. Non-trivial: at least one chunk with an instrumented handler; distinct by registry and hierarchy.",
    caseC12, 100000, 1000000, 200000, nullptr, { "sets of types are sorted by ID as the API demands" } }, GIANT_WIDE | GIANT_DEEP | GIANT_ODD);
