// C08 size consistency under editing, C20 contents types
#include "ext.h"
#include "robust.h"
#include <cstring>
#include <map>
#include <memory>
#include <unistd.h>
using std::string; using std::vector; using std::map;

// ---------------------------------------------------------------- C08
struct M // a chunk of the forest
{
    IFF_Chunk *p; uint32_t id, type = 0; int64_t size; string data; M *up = nullptr; vector<M *> props, kids;
    bool group() const { return isGroupId(id); }
    int64_t content() const { if(!group()) return (int64_t)data.size(); int64_t t = 4; for(auto x : props) t += 8 + x->size + (x->size & 1); for(auto x : kids) t += 8 + x->size + (x->size & 1); return t; }
    bool under(const M *a) const { for(const M *x = this; x; x = x->up) if(x == a) return true; return false; }
};
struct Forest
{
    vector<std::unique_ptr<M>> all; string log;
    M *add(IFF_Chunk *p, uint32_t id, uint32_t type, int64_t size) { if(!p) harnessf("creation failed"); all.emplace_back(new M{p, id, type, size, "", nullptr, {}, {}}); return all.back().get(); }
    ~Forest() {}
    string name(const M *m) const { for(size_t i = 0; i < all.size(); i++) if(all[i].get() == m) return strf("#%zu", i); return "?"; }
    void verify(const string &after)
    {
        for(auto &u : all)
        {
            M *m = u.get(); IFF_Chunk *p = m->p; auto w = [&] { return name(m) + " (" + idStr(m->id) + ") after " + after + "; history: " + log.substr(0, 1500); };
            REQUIRE(p->chunkId == m->id, "chunk ID changed: %s", w().c_str());
            REQUIRE(p->chunkSize == (int32_t)m->size, "size is %d, expected %lld: %s", p->chunkSize, (long long)m->size, w().c_str());
            REQUIRE(p->parent == (m->up ? (IFF_Group *)m->up->p : nullptr), "wrong parent: %s", w().c_str());
            if(!m->group()) { REQUIRE(m->data.empty() || !memcmp(((IFF_RawChunk *)p)->chunkData, m->data.data(), m->data.size()), "data changed: %s", w().c_str()); continue; }
            IFF_Group *g = (IFF_Group *)p;
            REQUIRE(g->groupType == m->type, "group type is '%s', expected '%s': %s", idStr(g->groupType).c_str(), idStr(m->type).c_str(), w().c_str());
            REQUIRE(g->chunkLength == m->kids.size(), "%u members, expected %zu: %s", g->chunkLength, m->kids.size(), w().c_str());
            for(size_t i = 0; i < m->kids.size(); i++) REQUIRE(g->chunk[i] == m->kids[i]->p, "member %zu is another chunk: %s", i, w().c_str());
            if(m->id == M_LIST)
            {
                IFF_List *l = (IFF_List *)p; REQUIRE(l->propLength == m->props.size(), "%u properties, expected %zu: %s", l->propLength, m->props.size(), w().c_str());
                for(size_t i = 0; i < m->props.size(); i++) REQUIRE((IFF_Chunk *)l->prop[i] == m->props[i]->p, "property %zu is another chunk: %s", i, w().c_str());
            }
        }
    }
    // sizes of chunks above m may stay or become consistent when something is added below them
    void ancestorsMayFollow(M *m)
    {
        for(M *a = m; a; a = a->up) { int64_t now = a->p->chunkSize; if(now != a->size) { REQUIRE(now == a->content(), "the size of %s becomes %lld although its contents take up %lld: %s", name(a).c_str(), (long long)now, (long long)a->content(), log.c_str()); a->size = now; } }
    }
};
static void caseC08(Src &s, Ctx &c)
{
    Forest f; int ops = s.chance(1, 12) ? (int)s.range(60, 300) : (int)s.range(4, 40); size_t adds = 0, edits = 0, updates = 0; bool cleanOnly = s.chance(1, 4);
    auto mkRaw = [&](uint32_t id, const string &d) { IFF_Chunk *p = IFF_createRawChunk(id, (IFF_Long)d.size()); if(!p) harnessf("raw"); if(!d.empty()) memcpy(((IFF_RawChunk *)p)->chunkData, d.data(), d.size()); M *m = f.add(p, id, 0, (int64_t)d.size()); m->data = d; return m; };
    for(int i = 0; i < ops; i++)
    {
        string what; uint64_t k = s.below(17); M *x = f.all.empty() ? nullptr : f.all[s.below(f.all.size())].get();
        if(!x || k < 3) // new group
        {
            uint32_t t = s.chance(1, 2) ? M_JJJJ : genFormType(s); IFF_Chunk *p; uint32_t id;
            switch(s.below(9))
            {
                case 0: p = (IFF_Chunk *)IFF_createEmptyForm(t); id = M_FORM; break;
                case 1: p = (IFF_Chunk *)IFF_createEmptyCATWithContentsType(t); id = M_CAT; break;
                case 2: p = (IFF_Chunk *)IFF_createEmptyListWithContentsType(t); id = M_LIST; break;
                case 3: p = (IFF_Chunk *)IFF_createEmptyProp(t); id = M_PROP; break;
                case 4: p = (IFF_Chunk *)IFF_createEmptyCAT(); id = M_CAT; t = M_JJJJ; break;
                case 5: p = (IFF_Chunk *)IFF_createEmptyList(); id = M_LIST; t = M_JJJJ; break;
                case 6: p = (IFF_Chunk *)IFF_createEmptyGroup(M_FORM, t); id = M_FORM; break;
                case 7: p = (IFF_Chunk *)IFF_createList(4, t); id = M_LIST; break;
                default: p = (IFF_Chunk *)IFF_createForm(4, t); id = M_FORM;
            }
            f.add(p, id, t, 4); what = "new " + idStr(id);
        }
        else if(k < 5) { string d = genData(s, genSize(s, 40)); mkRaw(genChunkId(s), d); what = strf("new data chunk of %zu bytes", d.size()); }
        else if(k < 11) // add a free chunk to a group
        {
            vector<M *> groups, frees; for(auto &u : f.all) if(u->group()) groups.push_back(u.get());
            if(groups.empty()) continue;
            M *g = groups[s.below(groups.size())];
            if(cleanOnly || s.chance(1, 2)) for(int t = 0; t < 8 && g->up; t++) g = groups[s.below(groups.size())];
            if(cleanOnly && g->up) continue;
            for(auto &u : f.all) if(!u->up && !g->under(u.get())) frees.push_back(u.get());
            M *n = !frees.empty() && s.chance(3, 4) ? frees[s.below(frees.size())] : mkRaw(genChunkId(s), genData(s, genSize(s, 20)));
            int64_t before = g->size; bool clean = before == g->content(); bool toProps = g->id == M_LIST && n->id == M_PROP && s.chance(3, 4), attach = false, follow = false;
            if(toProps) { IFF_addPropToList((IFF_List *)g->p, (IFF_Prop *)n->p); g->props.push_back(n); what = "addPropToList"; }
            else
            {
                uint64_t how = s.below(cleanOnly ? 4 : 6);
                if(how == 5) { IFF_attachToGroup((IFF_Group *)g->p, n->p); attach = true; what = "attachToGroup"; }
                else if(how == 4 && (g->id == M_CAT || g->id == M_LIST)) { if(g->id == M_CAT) IFF_addToCATAndUpdateContentsType((IFF_CAT *)g->p, n->p); else IFF_addToListAndUpdateContentsType((IFF_List *)g->p, n->p); what = "add and update contents type"; follow = true; }
                else if(how == 0) { IFF_addToGroup((IFF_Group *)g->p, n->p); what = "addToGroup"; }
                else switch(g->id) { case M_FORM: IFF_addToForm((IFF_Form *)g->p, n->p); what = "addToForm"; break; case M_PROP: IFF_addToProp((IFF_Prop *)g->p, n->p); what = "addToProp"; break; case M_CAT: IFF_addToCAT((IFF_CAT *)g->p, n->p); what = "addToCAT"; break; default: IFF_addToList((IFF_List *)g->p, n->p); what = "addToList"; }
                g->kids.push_back(n);
            }
            n->up = g; what += " " + f.name(n) + " to " + f.name(g); adds++;
            if(follow) g->type = ((IFF_Group *)g->p)->groupType;      // contents types are C20's business
            if(!attach) { if(clean) g->size = g->content(); else { g->size = g->p->chunkSize; } f.ancestorsMayFollow(g->up); }
        }
        else if(k < 13 && !cleanOnly) // change data
        {
            vector<M *> raws; for(auto &u : f.all) if(!u->group()) raws.push_back(u.get());
            if(raws.empty()) continue;
            M *r = raws[s.below(raws.size())]; IFF_RawChunk *rc = (IFF_RawChunk *)r->p; edits++;
            switch(s.below(3))
            {
                case 0: { string t; size_t n = genSize(s, 30); for(size_t j = 0; j < n; j++) t += (char)s.range(1, 255); IFF_setTextData(rc, t.c_str()); r->data = t; r->size = (int64_t)t.size(); what = "setTextData " + f.name(r); break; }
                case 1: { string t = genData(s, genSize(s, 30)); IFF_UByte *b = (IFF_UByte *)vpw_malloc(t.size()); if(!t.empty()) memcpy(b, t.data(), t.size()); vpw_free(rc->chunkData); IFF_setRawChunkData(rc, b, (IFF_Long)t.size()); r->data = t; r->size = (int64_t)t.size(); what = "setRawChunkData " + f.name(r); break; }
                default: { string t = genData(s, r->data.size()); IFF_UByte z[1]; IFF_copyDataToRawChunkData(rc, t.empty() ? z : (IFF_UByte *)&t[0]); r->data = t; what = "copyDataToRawChunkData " + f.name(r); }
            }
        }
        else if(k == 13 && !cleanOnly && x->group()) { x->size = (int64_t)s.range(0, 5000); x->p->chunkSize = (int32_t)x->size; what = "size of " + f.name(x) + " overwritten"; edits++; }
        else if(k == 14)
        {
            IFF_updateChunkSizes(x->p); updates++; what = "updateChunkSizes " + f.name(x);
            for(M *a = x; a; a = a->up) if(a->group()) a->size = a->content();
        }
        else if(k == 15 && x->group())
        {
            what = "group size update of " + f.name(x); updates++;
            switch(x->id) { case M_FORM: IFF_updateFormChunkSizes((IFF_Form *)x->p); break; case M_PROP: IFF_updatePropChunkSizes((IFF_Prop *)x->p); break; case M_CAT: IFF_updateCATChunkSizes((IFF_CAT *)x->p); break; default: IFF_updateListChunkSizes((IFF_List *)x->p); }
            x->size = x->content();
        }
        else if(k == 16 && !cleanOnly && x->up) // moved to another group by the application
        {
            vector<M *> groups; for(auto &u : f.all) if(u->group() && u.get() != x && !u->under(x)) groups.push_back(u.get());
            M *from = x->up, *to = groups[s.below(groups.size())]; bool prop = false;
            for(size_t j = 0; j < from->props.size(); j++) if(from->props[j] == x) { IFF_List *l = (IFF_List *)from->p; for(size_t q = j + 1; q < l->propLength; q++) l->prop[q - 1] = l->prop[q]; l->propLength--; from->props.erase(from->props.begin() + (long)j); prop = true; break; }
            if(!prop) for(size_t j = 0; j < from->kids.size(); j++) if(from->kids[j] == x) { IFF_Group *g = (IFF_Group *)from->p; for(size_t q = j + 1; q < g->chunkLength; q++) g->chunk[q - 1] = g->chunk[q]; g->chunkLength--; from->kids.erase(from->kids.begin() + (long)j); break; }
            if(s.chance(1, 3)) x->p->parent = nullptr;
            bool clean = to->size == to->content(), toProps = to->id == M_LIST && x->id == M_PROP;
            if(toProps) { IFF_addPropToList((IFF_List *)to->p, (IFF_Prop *)x->p); to->props.push_back(x); } else { IFF_addToGroup((IFF_Group *)to->p, x->p); to->kids.push_back(x); }
            x->up = to; what = f.name(x) + " moved from " + f.name(from) + " to " + f.name(to); adds++; c.label("moved chunks");
            if(clean) to->size = to->content(); else to->size = to->p->chunkSize;
            f.ancestorsMayFollow(to->up);
        }
        else continue;
        if(s.chance(1, 400) && x && x->group() && !(cleanOnly && x->up)) // many members at once
        {
            size_t many = (size_t)s.range(50, 700); bool props = x->id == M_LIST && s.chance(1, 2), clean = x->size == x->content();
            for(size_t j = 0; j < many; j++)
            {
                M *n; if(props) { uint32_t t = genFormType(s); n = f.add((IFF_Chunk *)IFF_createEmptyProp(t), M_PROP, t, 4); IFF_addPropToList((IFF_List *)x->p, (IFF_Prop *)n->p); x->props.push_back(n); }
                else { n = mkRaw(genChunkId(s), string(j % 4, 'm')); IFF_addToGroup((IFF_Group *)x->p, n->p); x->kids.push_back(n); }
                n->up = x;
            }
            if(clean) x->size = x->content(); else x->size = x->p->chunkSize;
            f.ancestorsMayFollow(x->up); adds += many; what += strf("; %zu %s added to ", many, props ? "properties" : "members") + f.name(x); c.label("many members");
        }
        f.log += what + "; "; f.verify(what); c.subEvals++;
        if(cleanOnly) for(auto &u : f.all) REQUIRE(u->size == u->content(), "%s holds %lld bytes but its size is %lld although it only received finished chunks: %s", f.name(u.get()).c_str(), (long long)u->content(), (long long)u->size, f.log.c_str());
    }
    for(int i = 0; i < 4; i++) // what applications use to do the sums for groups of their own
    {
        static const int32_t z[] = { 0, 1, 2, 4, 255, 256, 65535, 65536, 0x7ffffff0 - 12 }; int32_t was = s.chance(1, 2) ? (int32_t)s.range(0, 100000) : 4, sz = s.chance(1, 2) ? z[s.below(8)] : (int32_t)s.range(0, 1 << 24);
        IFF_Chunk m; memset(&m, 0, sizeof m); m.chunkId = genChunkId(s); m.chunkSize = sz; int32_t got = IFF_incrementChunkSize(was, &m);
        REQUIRE(got == was + 8 + sz + (sz & 1), "a size of %d incremented by a chunk of size %d is %d", was, sz, got);
    }
    // after edits anywhere, updates started at the changed chunks make everything consistent
    if(s.chance(1, 2))
    {
        for(auto &u : f.all) if(u->kids.empty() && u->props.empty()) { IFF_updateChunkSizes(u->p); for(M *a = u.get(); a; a = a->up) if(a->group()) a->size = a->content(); }
        f.verify("updates at every leaf");
        for(auto &u : f.all) REQUIRE(!u->group() || u->size == u->content(), "%s is not consistent after updates at every leaf: %s", f.name(u.get()).c_str(), f.log.c_str());
    }
    for(auto &u : f.all) if(!u->up) IFF_free(u->p, nullptr);
    REQUIRE(libLive() == 0, "freeing the hierarchies leaves %zu allocations: %s", libLive(), f.log.c_str());
    c.count("additions", adds); c.count("edits", edits); c.count("updates", updates); c.label(cleanOnly ? "history of finished additions" : "history with edits");
    if(adds >= 2) { c.nontriv(hashBytes(f.log.data(), f.log.size())); c.desc = f.log.substr(0, 600); }
}

// ---------------------------------------------------------------- C20
static IFF_Chunk *memberOf(Src &s, uint32_t type, uint32_t kind, Node *out)
{
    GenOpts o; o.maxNodes = 6; o.maxDepth = 2; o.maxData = 6; Node n;
    if(kind == M_FORM) { n = genGroupOf(s, o, M_FORM); n.type = okFormType(type) ? type : mk("TEST"); }
    else { n.id = kind; n.group = true; n.type = type; if(s.chance(1, 2)) { if(okFormType(type)) { Node f; f.id = M_FORM; f.group = true; f.type = type; n.kids.push_back(f); } else { Node q; q.id = M_CAT; q.group = true; q.type = type; n.kids.push_back(q); } } if(kind == M_LIST && s.chance(1, 2)) { Node p = genGroupOf(s, o, M_PROP); n.props.push_back(p); } }
    fixSizes(n); *out = n; if(!refValid(n)) harnessf("invalid member %s", show(n).c_str());
    return build(n, &s);
}
static vector<vector<uint8_t>> fixedC20(bool) { return { { 0xe7, 0x5c, 0xa3 } }; }
static void caseC20(Src &s, Ctx &c)
{
    bool huge = s.byte() == 0xe7 && s.byte() == 0x5c && s.byte() == 0xa3;
    vector<uint32_t> pool; size_t np = (size_t)s.range(1, 3);
    for(size_t i = 0; i < np; i++) { switch(s.below(6)) { case 0: pool.push_back(M_JJJJ); break; case 1: pool.push_back(genContentsType(s)); break; default: pool.push_back(genFormType(s)); } }
    if(np >= 2 && s.chance(1, 3)) pool[1] = pool[0] ^ (1u << (s.below(4) * 8)); // almost equal types
    for(auto &t : pool) if(!okId(t)) t = mk("TEST");
    bool list = s.chance(1, 2); uint32_t start = s.chance(1, 2) ? M_JJJJ : genContentsType(s);
    auto create = [&] { return list ? (IFF_Chunk *)(start == M_JJJJ ? IFF_createEmptyList() : IFF_createEmptyListWithContentsType(start)) : (IFF_Chunk *)(start == M_JJJJ ? IFF_createEmptyCAT() : IFF_createEmptyCATWithContentsType(start)); };
    IFF_Chunk *g = create(); REQUIRE(((IFF_Group *)g)->groupType == start, "a new group has contents type '%s' instead of '%s'", idStr(((IFF_Group *)g)->groupType).c_str(), idStr(start).c_str());
    auto autoAdd = [&](IFF_Chunk *to, IFF_Chunk *m) { if(to->chunkId == M_LIST) IFF_addToListAndUpdateContentsType((IFF_List *)to, m); else IFF_addToCATAndUpdateContentsType((IFF_CAT *)to, m); };
    auto plainAdd = [&](IFF_Chunk *to, IFF_Chunk *m, unsigned how) { if(how == 0) IFF_addToGroup((IFF_Group *)to, m); else if(to->chunkId == M_LIST) IFF_addToList((IFF_List *)to, m); else IFF_addToCAT((IFF_CAT *)to, m); };
    // the group may be inside another one already while it is filled
    IFF_Chunk *outer = nullptr; uint32_t outerType = 0;
    if(!huge && s.chance(1, 4))
    {
        unsigned k = (unsigned)s.below(4); outerType = s.chance(1, 2) ? M_JJJJ : genFormType(s);
        outer = k == 0 ? (IFF_Chunk *)IFF_createEmptyForm(outerType) : k == 1 ? (IFF_Chunk *)IFF_createEmptyListWithContentsType(outerType) : (IFF_Chunk *)IFF_createEmptyCATWithContentsType(outerType);
        if(k && s.chance(1, 2)) { autoAdd(outer, g); outerType = start; } else plainAdd(outer, g, 0);
        c.label("filled inside another group");
    }
    int n = huge ? 65540 : s.chance(1, 300) ? (int)s.range(250, 1200) : s.chance(1, 15) ? (int)s.range(20, 150) : (int)s.range(0, 8), differFrom = n > 15 ? (huge || s.chance(1, 2) ? (int)s.below((size_t)n) : n - 1) : 0; vector<uint32_t> types; vector<Node> members; string log; bool mixed = s.chance(1, 5), differ = false;
    for(int i = 0; i < n; i++)
    {
        uint32_t t = pool[s.chance(1, 3) ? s.below(pool.size()) : 0]; if(i < differFrom) t = pool[0];
        if(huge) t = i < 10 ? mk("TEST") : mk("ILBM");
        uint32_t kind = okFormType(t) ? (s.chance(1, 2) ? M_FORM : s.chance(1, 2) ? M_CAT : M_LIST) : s.chance(1, 2) ? M_CAT : M_LIST;
        Node m; IFF_Chunk *x = memberOf(s, t, kind, &m);
        uint32_t before = ((IFF_Group *)g)->groupType;
        if(list && s.chance(1, 8)) { Node p; p.id = M_PROP; p.group = true; p.type = genFormType(s); p.size = 4; IFF_addPropToList((IFF_List *)g, (IFF_Prop *)build(p)); REQUIRE(((IFF_Group *)g)->groupType == before, "adding a property changes the contents type from '%s' to '%s'", idStr(before).c_str(), idStr(((IFF_Group *)g)->groupType).c_str()); log += "PROP "; }
        if(mixed && s.chance(1, 2))
        {
            plainAdd(g, x, (unsigned)s.below(2)); c.subEvals++; log += "plain " + idStr(kind) + ":" + idStr(t) + " ";
            REQUIRE(((IFF_Group *)g)->groupType == before, "plain adding changes the contents type from '%s' to '%s': %s", idStr(before).c_str(), idStr(((IFF_Group *)g)->groupType).c_str(), log.c_str());
            members.push_back(m); types.push_back(t); continue;
        }
        autoAdd(g, x); c.subEvals++; log += idStr(kind) + ":" + idStr(t) + " "; members.push_back(m); types.push_back(t);
        if(!mixed)
        {
            if(t != types[0]) differ = true;
            uint32_t want = differ ? M_JJJJ : types[0];
            REQUIRE(((IFF_Group *)g)->groupType == want, "the contents type is '%s', expected '%s', after adding %s", idStr(((IFF_Group *)g)->groupType).c_str(), idStr(want).c_str(), log.c_str());
        }
    }
    if(!mixed && n > 0)
    {
        REQUIRE(IFF_check(g, nullptr), "a %s of valid groups is invalid: %s: %s", list ? "LIST" : "CAT", log.c_str(), gMessages.c_str());
        Node whole = snapshot(g); REQUIRE(refValid(whole), "a %s of valid groups is not valid: %s", list ? "LIST" : "CAT", show(whole).c_str());
        // another order of the same members
        IFF_Chunk *h = create(); vector<size_t> order(members.size()); for(size_t i = 0; i < order.size(); i++) order[i] = i;
        for(size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[s.below(i)]);
        for(size_t i : order) autoAdd(h, build(members[i], &s));
        REQUIRE(((IFF_Group *)h)->groupType == ((IFF_Group *)g)->groupType, "another order of the members %s gives contents type '%s' instead of '%s'", log.c_str(), idStr(((IFF_Group *)h)->groupType).c_str(), idStr(((IFF_Group *)g)->groupType).c_str());
        freeTree(h); c.subEvals += 2;
        // and the file keeps it
        bool ok; string b = writeBytes(g, nullptr, ok); REQUIRE(ok && get32(b, 8) == ((IFF_Group *)g)->groupType && strictFile(b), "the written file differs: %s", log.c_str());
        // concatenating concatenations
        if(!outer && s.chance(1, 3)) { IFF_Chunk *o = (IFF_Chunk *)IFF_createEmptyCAT(); uint32_t t = ((IFF_Group *)g)->groupType; autoAdd(o, g); REQUIRE(((IFF_Group *)o)->groupType == t, "a CAT of one member has contents type '%s' instead of '%s'", idStr(((IFF_Group *)o)->groupType).c_str(), idStr(t).c_str()); REQUIRE(IFF_check(o, nullptr), "a CAT of a valid group is invalid: %s", log.c_str()); g = o; }
    }
    REQUIRE(!outer || (((IFF_Group *)outer)->groupType == outerType && g->parent == (IFF_Group *)outer), "filling a group changes the type of the %s around it from '%s' to '%s', or its parent: %s", idStr(outer->chunkId).c_str(), idStr(outerType).c_str(), idStr(((IFF_Group *)outer)->groupType).c_str(), log.c_str());
    freeTree(outer ? outer : g);
    c.label(mixed ? "mixed with plain adding" : n == 0 ? "no member" : differ ? "types differ" : "one common type"); c.label(n < 2 ? "0-1 members" : n < 10 ? "2-9 members" : "10 or more members");
    if(types.size() >= 2) { c.nontriv(hashBytes(log.data(), log.size(), start + list)); c.desc = (list ? "LIST from " : "CAT from ") + idStr(start) + ": " + log.substr(0, 400); }
}

static RegProp r8({ "C08", "exploration",
    "Random histories of 4-300 operations over a forest: creating groups and data chunks by all routes, adding (also groups below groups that are themselves already inside others), attaching, setting and copying data, overwriting group sizes, updating sizes at random chunks; after every operation every size, type, member array, length, parent and all data of every chunk in the forest are compared with a model. A quarter of the histories only adds finished chunks, there every group must be consistent all the time. Non-trivial: at least two additions; distinct by history.",
    caseC08, 60000, 1500000, 300000, nullptr, { "adding to a group whose size is already inconsistent may leave any size until the next update" } });
static RegProp r20({ "C20", "exploration",
    "Random sequences of 0-1200 members (FORM, CAT, LIST with types from small pools, near-equal types, JJJJ) added to CATs and LISTs with any initial contents type, with automatic contents types, also mixed with plain additions and properties; the contents type is compared with the specification after each step; a quarter of the groups is already inside another group, whose own type must not follow; a random permutation must give the same type; the result must pass the check, an independent validator, and survive writing. Non-trivial: at least two members; distinct by history.",
    caseC20, 100000, 2000000, 300000, fixedC20, { "members added with automatic contents types are FORMs, CATs and LISTs" } });
