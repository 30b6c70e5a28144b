// C17 the textual representation
#include "print.h"
#include "robust.h"
#include <cstring>
using std::string; using std::vector;

struct Parser
{
    const string &t; size_t p = 0; size_t unit = 0;
    explicit Parser(const string &x) : t(x) {}
    [[noreturn]] void bad(const char *what) { failf("the printed text has no %s at offset %zu: ...%s>>>%s", what, p, t.substr(p > 60 ? p - 60 : 0, std::min<size_t>(p, 60)).c_str(), t.substr(p, 80).c_str()); }
    size_t indent() { size_t k = 0; while(p < t.size() && t[p] == ' ') { p++; k++; } return k; }
    bool at(const char *w) { return t.compare(p, strlen(w), w) == 0; }
    bool take(const char *w) { if(!at(w)) return false; p += strlen(w); return true; }
    void need(const char *w) { if(!take(w)) bad(w); }
    uint32_t id() { if(p + 4 > t.size()) bad("ID"); uint32_t v = get32(t, p); p += 4; return v; }
    // a line that has to be indented by at least 'min'
    size_t line(size_t min) { size_t k = indent(); if(k < min) { p -= k; bad("sufficient indentation"); } return k; }
    Printed chunk(size_t exact, bool anyDeeper)
    {
        Printed r; size_t i0 = indent();
        if(anyDeeper ? i0 < exact : i0 != exact) { p -= i0; bad("chunk with the right indentation"); }
        need("'"); r.n.id = id(); need("' = {\n");
        size_t i1 = line(i0 + 1); need("chunkSize = ");
        { size_t e = t.find(';', p); if(e == string::npos || e == p || e > p + 11) bad("size"); char *end; string num = t.substr(p, e - p); long long v = strtoll(num.c_str(), &end, 10); if(*end || v != (int32_t)v || num[0] == ' ' || num[0] == '+') bad("decimal size"); r.n.size = (int32_t)v; p = e; }
        need(";\n"); if(!unit) unit = i1 - i0;
        if(i1 - i0 != unit) bad("uniform indentation");
        size_t k = line(i0);
        string early; if(take("ownLevel = ")) { uint32_t v = 0; if(p >= t.size() || !isdigit((unsigned char)t[p])) bad("number"); while(p < t.size() && isdigit((unsigned char)t[p]) && v < 65536) v = v * 10 + (uint32_t)(t[p++] - '0'); if(v > 65535) bad("number"); early += (char)(v >> 8); early += (char)v; need(";\n"); line(i0); if(!at("grp")) bad("group type"); }
        bool own = at("grp"); // a group type of an application (C26)
        if(own) { size_t e = t.find(" = '", p); if(e == string::npos) bad("name of the group type"); r.typeName = t.substr(p, e - p); p = e + 4; }
        if(own || take("formType = '") || take("contentsType = '"))
        {
            r.n.group = true; r.n.data = early; r.n.type = id(); need("';\n"); line(i0);
            if(own && take("extra = ")) { uint64_t v = 0; if(p >= t.size() || !isdigit((unsigned char)t[p])) bad("number"); while(p < t.size() && isdigit((unsigned char)t[p])) v = v * 10 + (uint64_t)(t[p++] - '0'); if(v > 0xffffffffu) bad("number"); put32(r.n.data, (uint32_t)v); need(";\n"); line(i0); }
            if(take("prop = [\n")) { for(;;) { size_t save = p, j = indent(); if(at("];\n")) { if(j < i0) bad("sufficient indentation"); need("];\n"); break; } p = save; r.props.push_back(chunk(i0 + 1, true)); } line(i0); if(r.n.id != M_LIST) bad("plain group"); }
            else if(r.n.id == M_LIST) bad("property list");
            need("[\n");
            for(;;) { size_t save = p, j = indent(); if(at("];\n")) { if(j < i0) bad("sufficient indentation"); need("];\n"); break; } p = save; r.kids.push_back(chunk(i0 + 1, true)); }
        }
        else if(take("bytes = \n"))
        {
            bool fresh = true;
            for(;;)
            {
                size_t j = indent(); if(fresh && j < i0) bad("sufficient indentation");
                fresh = false;
                if(take(";\n")) break;
                if(take("\n")) { fresh = true; continue; }
                if(p + 2 > t.size() || !isxdigit((unsigned char)t[p]) || !isxdigit((unsigned char)t[p + 1])) bad("hexadecimal byte");
                r.n.data += (char)strtol(t.substr(p, 2).c_str(), nullptr, 16); p += 2;
                if(p < t.size() && t[p] != ' ' && t[p] != '\n') bad("separator");
            }
        }
        else if(take("text = '\n"))
        {
            size_t want = k + unit; size_t have = 0; while(have < want && p < t.size() && t[p] == ' ') { have++; p++; }
            if(have < want) bad("sufficient indentation");
            if(r.n.size < 0 || p + (size_t)r.n.size > t.size()) bad("text of the declared size");
            r.n.data = t.substr(p, (size_t)r.n.size); p += (size_t)r.n.size; need("\n"); line(i0); need("';\n");
        }
        else if(take("ext"))
        {
            r.handler = t[p++] - '0'; need(" =");
            while(take(" ")) { size_t q = p; while(p < t.size() && isxdigit((unsigned char)t[p])) p++; if(p == q) bad("value"); r.values.push_back((uint32_t)strtoul(t.substr(q, p - q).c_str(), nullptr, 16)); }
            need(";\n");
        }
        else bad("chunk contents");
        size_t j = indent(); if(j != i0) bad("closing brace below the chunk's start"); need("}\n"); while(take("\n")) ;
        return r;
    }
};
Printed parsePrinted(const string &text, unsigned level)
{
    Parser q(text);
    // the unit is found inside; the first indentation is a multiple of it
    size_t lead = 0; while(lead < text.size() && text[lead] == ' ') lead++;
    Printed r = q.chunk(lead, false);
    if(lead != level * q.unit) failf("printed at indentation level %u the text starts with %zu spaces: %s", level, lead, text.substr(0, 80).c_str());
    if(q.p != text.size()) failf("the printed text continues after the chunk: %s", text.substr(q.p, 100).c_str());
    return r;
}
string diffPrinted(const Printed &p, const Node &n, const RegSpec *r, uint32_t scope, const string &path)
{
    string here = path + "/" + idStr(n.id);
    if(p.n.id != n.id) return here + strf(": printed as '%s'", idStr(p.n.id).c_str());
    if(p.n.size != n.size) return here + strf(": size %d is printed as %d", n.size, p.n.size);
    int h = r ? r->resolve(scope, n.id) : H_RAW;
    if(h >= 0 && h < NHANDLERS)
    {
        if(p.handler != h) return here + strf(": printed by handler %d instead of %d", p.handler, h);
        if(p.values.size() != gLayout[h].size()) return here + ": another number of fields";
        size_t pos = 0, i = 0; int known = knownBytes(h, n.size); bool over = false;
        for(auto k : gLayout[h]) { int z = fieldSize(k); uint32_t v = 0; if(!over && pos + (size_t)z <= (size_t)std::max(0, known)) { for(int j = 0; j < z; j++) v = v << 8 | (unsigned char)n.data[pos + (size_t)j]; pos += (size_t)z; } else over = true; if(p.values[i++] != v) return here + ": another field value"; }
        return "";
    }
    if(p.handler >= 0) return here + strf(": printed by handler %d", p.handler);
    if(p.n.group != n.group) return here + ": printed as another kind";
    if(!n.group) return p.n.data == n.data ? "" : here + ": data printed differently: " + firstDiff(p.n.data, n.data);
    if(p.n.data != n.data) return here + ": another number is printed";
    if(p.n.type != n.type) return here + strf(": type '%s' is printed as '%s'", idStr(n.type).c_str(), idStr(p.n.type).c_str());
    if(p.props.size() != n.props.size()) return here + strf(": %zu properties are printed instead of %zu", p.props.size(), n.props.size());
    if(p.kids.size() != n.kids.size()) return here + strf(": %zu members are printed instead of %zu", p.kids.size(), n.kids.size());
    for(size_t i = 0; i < n.props.size(); i++) { string d = diffPrinted(p.props[i], n.props[i], r, n.type, here + strf("<%zu>", i)); if(!d.empty()) return d; }
    for(size_t i = 0; i < n.kids.size(); i++) { string d = diffPrinted(p.kids[i], n.kids[i], r, n.type, here + strf("[%zu]", i)); if(!d.empty()) return d; }
    return "";
}

static void textify(Src &s, Node &n) { if(!n.group) { if(s.chance(1, 4)) n.id = M_TEXT; if(n.id == M_TEXT && s.chance(1, 2)) { static const char *bits[] = { "'", "\n", "  ", "';\n}\n", "bytes = \n", "];\n", "%d%s%n", "a", "\\", "\t", "}", "\r\n", "\xff" }; size_t k = s.below(6); n.data.clear(); for(size_t i = 0; i < k; i++) n.data += bits[s.below(13)]; if(s.chance(1, 6)) n.data += '\0'; n.data.resize(n.data.size()); n.size = (int32_t)n.data.size(); } } for(auto &p : n.props) textify(s, p); for(auto &k : n.kids) textify(s, k); }
static void caseC17(Src &s, Ctx &c)
{
    genLayouts(s); bool ext = s.chance(1, 4); RegSpec r; if(ext) r = genRegistry(s);
    Registry reg(r); const IFF_ChunkRegistry *R = ext ? &reg.reg : s.chance(1, 2) ? nullptr : &IFF_defaultChunkRegistry;
    GenOpts o; o.anyRoot = true; o.maxData = 80; o.maxNodes = s.chance(1, 12) ? 120 : 25; o.maxDepth = s.chance(1, 6) ? 12 : 5; o.big = s.chance(1, 40); o.extremes(c, 400, 0);
    Node n = ext ? genExtTree(s, o, r) : genTree(s, o); if(!ext) { textify(s, n); fixSizes(n); }
    string edits; int m = s.chance(1, 4) ? (int)s.range(1, 3) : 0;
    for(int i = 0; i < m && !ext; i++) edits += mutateTree(s, n) + " ";
    if(ext) canonical(n, r);
    { vector<Node *> all; allNodes(n, all); for(auto x : all) if(!x->group && x->size != (int32_t)x->data.size()) x->size = (int32_t)x->data.size(); }
    bool viaRead = edits.empty() && s.chance(1, 2);
    IFF_Chunk *root = viaRead ? readBytes(encode(n), R) : ext ? buildExt(n, r, 0, reg) : build(n, &s);
    REQUIRE(root, "reading %s fails: %s", show(n).c_str(), gMessages.c_str());
    unsigned level = s.chance(1, 2) ? 0 : (unsigned)s.below(9); if(s.chance(1, 30)) level = 60;
    messagesClear(); string text = captureStdout([&] { IFF_print(root, level, R); }); c.subEvals++;
    string d = diffPrinted(parsePrinted(text, level), n, ext ? &r : nullptr, 0); REQUIRE(d.empty(), "%s, hierarchy %s", d.c_str(), show(n).c_str());
    REQUIRE(gMessageCount == 0, "printing reports: %s", gMessages.c_str());
    string again = captureStdout([&] { IFF_print(root, level, R); }); REQUIRE(again == text, "printing again gives another text: %s", firstDiff(again, text).c_str());
    // a part of the hierarchy
    vector<Node *> all; allNodes(n, all); vector<IFF_Chunk *> lib; if(!ext) { libNodes(root, lib); size_t k = s.below(all.size()); unsigned l2 = (unsigned)s.below(5); string t2 = captureStdout([&] { IFF_print(lib[k], l2, R); }); d = diffPrinted(parsePrinted(t2, l2), *all[k], nullptr, 0); REQUIRE(d.empty(), "part of a hierarchy: %s, %s", d.c_str(), show(*all[k]).c_str()); c.subEvals++; }
    if(s.chance(1, 8)) // the two forms of a data chunk's contents on their own
    {
        Node x; x.id = genChunkId(s); if(x.id == M_TEXT) x.id = mk("BODY"); x.data = genData(s, genSize(s, 200)); fixSizes(x); Node y = x; y.id = M_TEXT; IFF_Chunk *a = build(x), *b = build(y); unsigned l3 = (unsigned)s.below(4);
        for(auto &how : { 0, 1 }) { string one = captureStdout([&] { if(how) IFF_printRaw((IFF_RawChunk *)b, l3); else IFF_printText((IFF_RawChunk *)a, l3); }), two = captureStdout([&] { IFF_printRawChunk(how ? a : b, l3, R); }); REQUIRE(one == two && !one.empty(), "the %s of a chunk depend on its ID: %s", how ? "bytes" : "characters", firstDiff(one, two).c_str()); c.subEvals += 2; }
        freeTree(a); freeTree(b); c.label("contents on their own");
    }
    d = ext ? (viaRead ? diffExt(root, n, nullptr, r, 0) : "") : diffChunk(root, n, nullptr); REQUIRE(d.empty(), "printing changed the hierarchy: %s", d.c_str());
    IFF_free(root, R);
    c.label(ext ? "with a registry" : "built-in types"); c.label(edits.empty() ? "valid" : "edited"); c.label(level == 0 ? "level 0" : "indented"); if(!ext && text.find("text = '") != string::npos) c.label("with text");
    if(countNodes(n) >= 2) { c.nontriv(hashNode(n) ^ level); c.desc = strf("level %u: ", level) + show(n).substr(0, 400); }
}
static RegProp r17({ "C17", "exploration",
    "Random hierarchies (also broken ones, with hostile TEXT contents such as quotes, braces and control bytes, with extension handlers, as parts, built or read) are printed at levels 0-60; the text is parsed back by an independent parser that accepts nothing else, and the result must equal the model in every ID, size, type, property, member and byte; every line must be indented at least as deep as its chunk, members deeper. Non-trivial: more than one chunk; distinct by hierarchy and level.",
    caseC17, 40000, 800000, 200000, nullptr, { "extension handlers print one line of their own" } }, GIANT_WIDE | GIANT_DEEP | GIANT_ODD);
