#include "model.h"
#include <cstring>
#include <algorithm>
using std::string; using std::vector;

string idStr(uint32_t id)
{
    string s;
    for(int i = 3; i >= 0; i--) { unsigned char c = (unsigned char)(id >> (8 * i)); if(c >= 0x20 && c < 0x7f && c != '\\') s += (char)c; else s += strf("\\x%02x", c); }
    return s;
}
string show(const Node &n, int depth)
{
    string s = "'" + idStr(n.id) + "'" + strf("#%d", n.size);
    if(n.group)
    {
        s += ":'" + idStr(n.type) + "'";
        if(depth > 12) return s + "{...}";
        if(!n.props.empty()) { s += "<"; size_t k = 0; for(auto &p : n.props) { if(k++ > 8) { s += ".."; break; } s += show(p, depth + 1) + " "; } s += ">"; }
        s += "{"; size_t k = 0; for(auto &c : n.kids) { if(k++ > 8) { s += ".."; break; } if(k > 1) s += " "; s += show(c, depth + 1); } s += "}";
    }
    else if(!n.data.empty()) s += "=" + hexs(n.data, 8);
    return s;
}
static int32_t takes(const Node &c) { int64_t v = 8 + (int64_t)c.size + (c.size & 1); return (int32_t)v; }
int32_t contentSize(const Node &n)
{
    if(!n.group) return (int32_t)n.data.size();
    int64_t v = 4; for(auto &p : n.props) v += takes(p); for(auto &k : n.kids) v += takes(k);
    return (int32_t)v;
}
void fixSizes(Node &n) { for(auto &p : n.props) fixSizes(p); for(auto &k : n.kids) fixSizes(k); n.size = contentSize(n); }
void put32(string &s, uint32_t v) { s += (char)(v >> 24); s += (char)(v >> 16); s += (char)(v >> 8); s += (char)v; }
uint32_t get32(const string &s, size_t at) { uint32_t v = 0; for(size_t i = 0; i < 4; i++) v = v << 8 | (unsigned char)s[at + i]; return v; }
void encodeTo(const Node &n, string &out)
{
    put32(out, n.id); put32(out, (uint32_t)n.size);
    int64_t body = 0;                  // by the sizes the members declare
    if(n.group)
    {
        if(n.size >= 4) { body = contentSize(n); put32(out, n.type); for(auto &p : n.props) encodeTo(p, out); for(auto &k : n.kids) encodeTo(k, out); }
    }
    else { out += n.data; body = (int64_t)n.data.size(); }
    if(body < n.size) out.append((size_t)(n.size - body), '\0');
    if(n.size & 1) out += '\0';
}
string encode(const Node &n) { string s; encodeTo(n, s); return s; }
bool sameNode(const Node &a, const Node &b)
{
    if(a.id != b.id || a.group != b.group || a.size != b.size) return false;
    if(!a.group) return a.data == b.data;
    if(a.type != b.type || a.props.size() != b.props.size() || a.kids.size() != b.kids.size()) return false;
    for(size_t i = 0; i < a.props.size(); i++) if(!sameNode(a.props[i], b.props[i])) return false;
    for(size_t i = 0; i < a.kids.size(); i++) if(!sameNode(a.kids[i], b.kids[i])) return false;
    return true;
}
size_t countNodes(const Node &n) { size_t k = 1; for(auto &p : n.props) k += countNodes(p); for(auto &c : n.kids) k += countNodes(c); return k; }
void allNodes(Node &n, vector<Node *> &v) { v.push_back(&n); for(auto &p : n.props) allNodes(p, v); for(auto &c : n.kids) allNodes(c, v); }
int depthOf(const Node &n) { int d = 0; for(auto &p : n.props) d = std::max(d, depthOf(p)); for(auto &c : n.kids) d = std::max(d, depthOf(c)); return d + 1; }
uint64_t hashNode(const Node &n)
{
    uint32_t h[6] = { n.id, n.type, (uint32_t)n.size, (uint32_t)n.props.size(), (uint32_t)n.kids.size(), n.group };
    uint64_t x = hashBytes(n.data.data(), n.data.size(), hashBytes(h, sizeof h));
    for(auto &p : n.props) x = mix64(x * 31 + hashNode(p));
    for(auto &k : n.kids) x = mix64(x * 37 + hashNode(k));
    return x;
}

// ------------------------------------------------------------ validation
static unsigned char ch(uint32_t id, int i) { return (unsigned char)(id >> (24 - 8 * i)); }
bool okId(uint32_t id)
{
    for(int i = 0; i < 4; i++) if(ch(id, i) < 0x20 || ch(id, i) > 0x7e) return false;
    return ch(id, 0) != ' ';
}
bool okFormType(uint32_t t)
{
    if(!okId(t)) return false;
    for(int i = 0; i < 4; i++) { unsigned char c = ch(t, i); if(!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == ' ')) return false; }
    static const char *res[] = { "LIST", "FORM", "PROP", "CAT ", "JJJJ" };
    for(auto r : res) if(t == mk(r)) return false;
    uint32_t base = t & 0xffffff00u; unsigned char d = ch(t, 3);
    if((base == (mk("LIS ") & 0xffffff00u) || base == (mk("FOR ") & 0xffffff00u) || base == (mk("CAT ") & 0xffffff00u)) && d >= '1' && d <= '9') return false;
    return true;
}
bool refValid(const Node &n, bool root)
{
    if(root && n.id != M_FORM && n.id != M_CAT && n.id != M_LIST) return false;
    if(!n.group) return okId(n.id) || n.id == M_FILL;
    if(n.size != contentSize(n)) return false;
    if(n.id == M_FORM || n.id == M_PROP)
    {
        if(!okFormType(n.type) && !(n.id == M_PROP && n.type == M_LIST)) return false;
        for(auto &k : n.kids)
        {
            if(k.id == M_PROP) return false;
            if(n.id == M_PROP && isGroupId(k.id)) return false;
        }
    }
    else
    {
        if(!okId(n.type)) return false;
        for(auto &k : n.kids)
        {
            if(k.id != M_FORM && k.id != M_CAT && k.id != M_LIST) return false;
            if(n.type != M_JJJJ && k.type != n.type) return false;
        }
    }
    for(auto &p : n.props) if(p.id != M_PROP || !refValid(p, false)) return false;
    for(auto &k : n.kids) if(!refValid(k, false)) return false;
    return true;
}
static bool parseStrict(const string &b, size_t &pos, size_t end, Node &n, int depth)
{
    if(end - pos < 8) return false;
    n.id = get32(b, pos); n.size = (int32_t)get32(b, pos + 4); pos += 8;
    if(n.size < 0 || (uint64_t)n.size > end - pos) return false;
    size_t bodyEnd = pos + (size_t)n.size;
    n.group = isGroupId(n.id);
    if(n.group)
    {
        if(n.size < 4) return false;
        n.type = get32(b, pos); pos += 4;
        while(pos < bodyEnd)
        {
            Node c;
            if(!parseStrict(b, pos, bodyEnd, c, depth + 1)) return false;
            if(n.id == M_LIST && c.id == M_PROP) n.props.push_back(std::move(c)); else n.kids.push_back(std::move(c));
        }
    }
    else { n.data = b.substr(pos, (size_t)n.size); pos = bodyEnd; }
    if(n.size & 1) { if(pos >= end) return false; pos++; }
    return true;
}
bool strictFile(const string &bytes, Node *out, size_t *used)
{
    Node n; size_t pos = 0;
    if(!parseStrict(bytes, pos, bytes.size(), n, 0)) return false;
    if(!refValid(n)) return false;
    if(used) *used = pos;
    if(out) *out = std::move(n);
    return true;
}

// ------------------------------------------------------------ generators
string genData(Src &s, size_t n)
{
    string d;
    if(n <= 8) { for(size_t i = 0; i < n; i++) d += (char)s.byte(); return d; }
    switch(s.below(6))
    {
        case 0: d.assign(n, (char)s.byte()); break;
        case 1: { for(size_t i = 0; i < n; i++) d += (char)(' ' + (i * 7 + s.pos) % 95); break; }
        case 2: { Rng r{s.raw(2)}; static const char *frag[] = { "FORM", "PROP", "LIST", "CAT ", "TEXT", "\0\0\0\4", "\n];\n}\n", "\0\0\0\0" }; while(d.size() < n) d.append(frag[r.next() % 8], 4); d.resize(n); break; }
        default: { Rng r{s.raw(4)}; while(d.size() < n) { uint64_t v = r.next(); d.append((const char *)&v, 8); } d.resize(n); }
    }
    return d;
}
size_t genSize(Src &s, size_t max)
{
    size_t v;
    switch(s.below(8))
    {
        case 0: v = 0; break;
        case 1: case 2: case 3: v = (size_t)s.range(1, 6); break;
        case 4: case 5: v = (size_t)s.range(5, 24); break;
        case 6: v = (size_t)s.range(0, 300); break;
        default: v = (size_t)s.below(max + 1);
    }
    return std::min(v, max);
}
static uint32_t randPrintable(Src &s, bool restricted)
{
    uint32_t id = 0;
    for(int i = 0; i < 4; i++)
    {
        unsigned char c;
        if(restricted) { static const char set[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 "; c = (unsigned char)set[s.below(37)]; }
        else c = (unsigned char)(0x20 + s.below(95));
        if(i == 0 && c == ' ') c = 'Q';
        id = id << 8 | c;
    }
    return id;
}
uint32_t genChunkId(Src &s)
{
    static const vector<const char *> pool = { "HELO", "BYE ", "TEXT", "BODY", "CMAP", "NAME", "    ", "FORN", "LISU", "CATS", "PROQ", "LIS1", "FOR9", "CAT1", "JJJJ", "TEST", "~~~~", "!   ", "a.z}", "form", "A  B", "TEXU", "PRO ", "COT ", "GORM", "FO\x7e ", "HEL ", "ELO ", "INST", "CAT-" };
    uint32_t id = s.chance(1, 5) ? randPrintable(s, false) : mk(pool[s.below(pool.size())]);
    if(isGroupId(id)) id = mk("BODY");
    return id;
}
uint32_t genFormType(Src &s)
{
    static const vector<const char *> pool = { "TEST", "ILBM", "8SVX", "BLAH", "A   ", "0   ", "ZZZZ", "AB C", "FORN", "LISU", "FOR0", "CAT0", "LIS0", "CATA", "LISA", "JJJK", "JJJI", "ANIM", "TESU", "UEST", "PROQ", "TXST", "LIS ", "FOR ", "CAU ", "FORA" };
    uint32_t t = s.chance(1, 6) ? randPrintable(s, true) : mk(pool[s.below(pool.size())]);
    if(!okFormType(t)) t = mk("TEST");
    return t;
}
uint32_t genContentsType(Src &s)
{
    switch(s.below(8))
    {
        case 0: case 1: case 2: case 3: return M_JJJJ;
        case 4: case 5: return genFormType(s);
        case 6: return randPrintable(s, false);
        default: { static const vector<const char *> pool = { "FORM", "LIST", "PROP", "CAT ", "abcd", "JJJj", "LIS1", "x.  " }; return mk(pool[s.below(pool.size())]); }
    }
}
uint32_t genAnyId(Src &s)
{
    uint32_t v;
    switch(s.below(10))
    {
        case 0: return genFormType(s);
        case 1: return genChunkId(s);
        case 2: return s.u32();
        case 3: { static const uint32_t g[] = { M_FORM, M_CAT, M_LIST, M_PROP, M_JJJJ }; return g[s.below(5)]; }
        case 4: { static const char *b[] = { "LIS", "FOR", "CAT" }; const char *p = b[s.below(3)]; char t[5] = { p[0], p[1], p[2], (char)('0' + s.below(11)), 0 }; return mk(t); }
        case 5: return randPrintable(s, false);
        case 6: return randPrintable(s, true);
        case 7: v = genFormType(s); break;
        case 8: { static const uint32_t g[] = { M_FORM, M_CAT, M_LIST, M_PROP, M_JJJJ, M_FILL }; v = g[s.below(6)]; break; }
        default: v = genChunkId(s);
    }
    // perturb one character
    static const unsigned char edge[] = { 0x1f, 0x20, 0x21, '.', '/', '-', '0', '9', ':', '@', 'A', 'Z', '[', '_', '`', 'a', 'z', '{', 0x7e, 0x7f, 0x80, 0xff, 0x00 };
    int sh = (int)s.below(4) * 8; unsigned char c = s.chance(3, 4) ? edge[s.below(sizeof edge)] : s.byte();
    return (v & ~(0xffu << sh)) | (uint32_t)c << sh;
}

struct Budget { int nodes; };
static Node dataChunk(Src &s, const GenOpts &o)
{
    Node n; n.id = genChunkId(s);
    size_t max = o.maxData;
    if(o.big && s.chance(1, 12)) { static const size_t bigs[] = { 255, 256, 257, 1023, 4095, 4096, 4097, 8191, 32767, 32768, 65535, 65536, 65537, 70001 }; n.data = genData(s, bigs[s.below(14)]); }
    else n.data = genData(s, genSize(s, max));
    if(n.id == M_TEXT && !n.data.empty() && s.chance(1, 3)) { static const char end[] = { 0, ' ', '\n', '\r' }; n.data.back() = end[s.below(4)]; }
    return n;
}
Node genDataChunk(Src &s, const GenOpts &o) { Node n = dataChunk(s, o); fixSizes(n); return n; }

static Node group(Src &s, const GenOpts &o, uint32_t kind, uint32_t type, int depth, Budget &b)
{
    Node n; n.id = kind; n.group = true; n.type = type; b.nodes--;
    int maxK = o.maxKids;
    int nk;
    if(s.chance(1, 40) && depth <= 1) nk = (int)s.range(10, 70);
    else nk = (int)s.below((uint64_t)maxK + 1);
    if(kind == M_FORM || kind == M_PROP)
    {
        for(int i = 0; i < nk && b.nodes > 0; i++)
        {
            if(kind == M_FORM && depth < o.maxDepth && s.chance(1, 4))
            {
                static const uint32_t kinds[] = { M_FORM, M_LIST, M_CAT };
                uint32_t k = kinds[s.below(3)];
                n.kids.push_back(group(s, o, k, k == M_FORM ? genFormType(s) : genContentsType(s), depth + 1, b));
            }
            else if(!n.kids.empty() && s.chance(1, 6)) { Node d = dataChunk(s, o); d.id = n.kids[s.below(n.kids.size())].id; if(isGroupId(d.id)) d.id = mk("DUPL"); n.kids.push_back(d); b.nodes--; }
            else { n.kids.push_back(dataChunk(s, o)); b.nodes--; }
        }
        return n;
    }
    if(kind == M_LIST)
    {
        int np = (int)s.below(4);
        for(int i = 0; i < np && b.nodes > 0; i++)
        {
            uint32_t pt = s.chance(1, 8) ? M_LIST : (!n.props.empty() && s.chance(1, 5)) ? n.props[0].type : okFormType(type) && s.chance(1, 2) ? type : genFormType(s);
            n.props.push_back(group(s, o, M_PROP, pt, depth + 1, b));
        }
    }
    for(int i = 0; i < nk && b.nodes > 0; i++)
    {
        bool formOk = type == M_JJJJ || okFormType(type);
        uint32_t k = M_FORM;
        if(depth < o.maxDepth && (s.chance(1, 3) || !formOk)) k = s.chance(1, 2) ? M_CAT : M_LIST;
        else if(!formOk) break;
        uint32_t t = type;
        if(type == M_JJJJ) t = k == M_FORM ? genFormType(s) : genContentsType(s);
        n.kids.push_back(group(s, o, k, t, depth + 1, b));
    }
    return n;
}
Node genGroupOf(Src &s, const GenOpts &o, uint32_t kind)
{
    Budget b{o.maxNodes};
    Node n = group(s, o, kind, kind == M_FORM || kind == M_PROP ? genFormType(s) : genContentsType(s), 1, b);
    fixSizes(n); return n;
}
static string bulk(Src &s, size_t n)
{
    string d; d.reserve(n + 8); Rng r{s.raw(2)};
    while(d.size() < n) { uint64_t v = r.next(); d.append((const char *)&v, 8); }
    d.resize(n); return d;
}
Node genExtreme(Src &s, int scale)
{
    static const size_t widths[] = { 33, 65, 101, 129, 200, 256, 257, 300, 513, 700, 1023, 1025, 2049, 4100, 10007, 32769, 65537 };
    static const size_t depths[] = { 33, 41, 65, 66, 101, 129, 130, 200, 257, 258, 300, 513, 1025, 1500 };
    static const size_t sizes[] = { 4097, 8192, 16385, 32769, 65535, 65536, 65537, 65538, 100001, 131072, 131073, 200000, 262145, 524289, 1048576, 1048577, 1500003, 2097152, 3000001, 4194305, 16777217 };
    size_t nw = scale == 0 ? 9 : 14, nd = scale == 0 ? 9 : 12, ns = scale == 0 ? 9 : 17;
    if(scale == 1 && s.chance(1, 6)) { nw = 15; nd = 14; ns = 20; if(s.chance(1, 6)) { ns = 21; nw = 17; } }
    Node n; n.group = true; Rng r{0};
    switch(s.below(5))
    {
        case 0: // many data chunks
        {
            n.id = M_FORM; n.type = genFormType(s); size_t w = widths[s.below(nw)]; uint32_t ids[4]; for(auto &i : ids) i = genChunkId(s); size_t max = s.chance(1, 3) ? 40 : 3; r.s = s.raw(2);
            n.kids.resize(w); for(auto &k : n.kids) { uint64_t v = r.next(); k.id = ids[v & 3]; size_t len = (v >> 8) % max; k.data.assign(len, (char)(v >> 32)); if(len) k.data[len - 1] = (char)(v >> 40); }
            break;
        }
        case 1: // many groups
        {
            n.id = s.chance(1, 2) ? M_LIST : M_CAT; bool mixed = s.chance(1, 2); uint32_t t[3]; for(auto &x : t) x = genFormType(s); n.type = mixed ? M_JJJJ : t[0]; size_t w = widths[s.below(nw)]; r.s = s.raw(2);
            n.kids.resize(w); for(auto &k : n.kids) { uint64_t v = r.next(); k.group = true; k.type = mixed ? t[v % 3] : t[0]; k.id = v >> 8 & 7 ? M_FORM : v >> 12 & 1 ? M_CAT : M_LIST; if(k.id == M_FORM && (v >> 16 & 3) == 0) { Node d; d.id = mk("BODY"); d.data.assign((v >> 20) % 4, (char)(v >> 32)); k.kids.push_back(d); } }
            break;
        }
        case 2: // deep
        {
            size_t d = depths[s.below(nd)]; int kinds = (int)s.below(4); uint32_t t = genFormType(s), t2 = genFormType(s); bool extra = s.chance(1, 2); r.s = s.raw(2);
            n.id = M_FORM; n.type = t; n.kids.push_back(dataChunk(s, GenOpts())); 
            for(size_t i = 0; i < d; i++)
            {
                uint64_t v = r.next(); Node p; p.group = true; p.id = kinds == 0 ? M_FORM : kinds == 1 ? M_CAT : kinds == 2 ? M_LIST : v % 3 == 0 ? M_FORM : v % 3 == 1 ? M_CAT : M_LIST;
                p.type = p.id == M_FORM ? (v >> 8 & 1 ? t : t2) : (v >> 9 & 1 ? n.type : M_JJJJ);
                if(extra && p.id == M_FORM && (v >> 16 & 3) == 0) { Node d1; d1.id = mk("NAME"); d1.data.assign((v >> 20) % 4, (char)(v >> 32)); p.kids.push_back(d1); }
                if(extra && p.id == M_LIST && (v >> 16 & 3) == 0) { Node q; q.id = M_PROP; q.group = true; q.type = v >> 19 & 1 ? t : t2; Node d1; d1.id = v >> 18 & 1 ? mk("NAME") : mk("CMAP"); d1.data.assign((v >> 20) % 4, (char)(v >> 32)); q.kids.push_back(d1); p.props.push_back(q); }
                p.kids.push_back(std::move(n)); n = std::move(p);
            }
            fixSizes(n); return n;
        }
        case 3: // many properties
        {
            n.id = M_LIST; n.type = s.chance(1, 2) ? M_JJJJ : genFormType(s); size_t w = widths[s.below(std::min<size_t>(nw, 14))]; r.s = s.raw(2); bool same = s.chance(1, 3); uint32_t t0 = genFormType(s);
            n.props.resize(w); for(auto &p : n.props) { uint64_t v = r.next(); p.group = true; p.id = M_PROP; uint32_t t = 0; for(int i = 0; i < 4; i++) t = t << 8 | (uint32_t)('A' + (v >> (5 * i)) % 26); p.type = same ? t0 : okFormType(t) ? t : mk("TEST"); if(v >> 24 & 1) { Node d; d.id = v >> 25 & 1 ? mk("NAME") : mk("CMAP"); d.data.assign((v >> 26) % 4, (char)(v >> 32)); p.kids.push_back(d); } }
            if(s.chance(1, 2)) { Node f; f.group = true; f.id = M_FORM; f.type = n.type == M_JJJJ ? n.props.back().type : n.type; n.kids.push_back(f); }
            break;
        }
        default: // large data
        {
            n.id = M_FORM; n.type = genFormType(s); Node d; d.id = genChunkId(s); d.data = bulk(s, sizes[s.below(ns)]); n.kids.push_back(std::move(d));
            if(s.chance(1, 2)) { Node e = dataChunk(s, GenOpts()); if(s.chance(1, 2)) n.kids.push_back(e); else n.kids.insert(n.kids.begin(), e); }
        }
    }
    fixSizes(n);
    if(s.chance(1, 3)) { Node p; p.group = true; p.id = s.chance(1, 2) ? M_CAT : M_LIST; p.type = s.chance(1, 2) ? M_JJJJ : n.type; p.kids.push_back(std::move(n)); n = std::move(p); fixSizes(n); }
    return n;
}
Node genGiant(int k)
{
    static const size_t bytes[] = { 8388609, 16777215, 16777216, 16777217, 50000001 };
    Node n; n.group = true; n.id = M_FORM; n.type = mk("ILBM"); Node d; d.id = mk("BODY"); Node f; f.group = true; f.id = M_FORM; f.type = mk("8SVX");
    switch(k)
    {
        case 0: case 1: case 2: case 3: case 4: // data
        { d.data.resize(bytes[k]); Rng r{(uint64_t)k}; for(size_t i = 0; i + 8 <= d.data.size(); i += 8) { uint64_t v = r.next(); memcpy(&d.data[i], &v, 8); } d.data.back() = 'z'; n.kids.push_back(std::move(d)); d.data = "abc"; n.kids.push_back(d); break; }
        case 5: n.kids.assign(65536, d); n.kids.back().data = "x"; break;
        case 6: n.id = M_CAT; n.type = f.type; n.kids.assign(65537, f); n.kids.back().kids.push_back(d); break;
        case 7: n.id = M_LIST; n.type = M_JJJJ; f.type = mk("A   "); n.kids.assign(70001, f); n.kids.front().type = n.kids.back().type = mk("ILBM"); break;
        case 8: // more properties than 16 bits count, every type another
            n.id = M_LIST; n.type = M_JJJJ; f.id = M_PROP; n.props.assign(65537, f); for(size_t i = 0; i < n.props.size(); i++) { uint32_t t = mk("QAAA"); t += (uint32_t)(i % 26) | (uint32_t)(i / 26 % 26) << 8 | (uint32_t)(i / 676 % 26) << 16 | (uint32_t)(i / 17576) << 24; n.props[i].type = t; }
            d.data = "ab"; n.props.back().kids.push_back(d); f.id = M_FORM; f.type = n.props.back().type; n.kids.push_back(f); break;
        case 9: // a property with many chunks, the one that matters last
            n.id = M_LIST; n.type = mk("ILBM"); f.id = M_PROP; f.type = n.type; f.kids.assign(65537, d); f.kids.back().id = mk("CMAP"); f.kids.back().data = "abc"; n.props.push_back(f); f.id = M_FORM; f.kids.clear(); n.kids.push_back(f); break;
        case 10: case 11: // depth
            for(int i = 0; i < 2000; i++) { Node p; p.group = true; p.id = k == 10 ? M_FORM : i % 3 == 0 ? M_LIST : i % 3 == 1 ? M_CAT : M_FORM; p.type = mk("ILBM"); if(p.id == M_LIST && i % 2) { Node q; q.group = true; q.id = M_PROP; q.type = mk("ILBM"); q.kids.push_back(d); p.props.push_back(q); } p.kids.push_back(std::move(n)); n = std::move(p); }
            break;
        case 12: { Node in = n; in.id = M_CAT; in.type = f.type; in.kids.assign(300, f); n.id = M_LIST; n.type = f.type; n.kids.assign(300, in); break; } // 90000 groups in two levels
        case 13: n.id = M_CAT; n.type = M_JJJJ; for(int i = 0; i < 5000; i++) { Node l; l.group = true; l.id = M_LIST; l.type = M_JJJJ; Node q = f; q.id = M_PROP; l.props.push_back(q); n.kids.push_back(l); } break; // many LISTs without members
        default: { d.data.assign(65536, 'a'); d.data.back() = 'b'; for(int i = 0; i < 300; i++) { d.id = i % 2 ? mk("BODY") : mk("TEXT"); n.kids.push_back(d); } break; } // a total beyond 24 bits
    }
    fixSizes(n); return n;
}
Node genTree(Src &s, const GenOpts &o)
{
    if(o.ctx && o.ctx->giant) { int k = o.ctx->giant; o.ctx->giant = 0; o.ctx->label("giant hierarchies"); return genGiant(k - 1); }
    if(o.extreme && s.chance(1, o.extreme)) return genExtreme(s, o.scale);
    if(o.anyRoot && s.chance(1, 6)) { if(s.chance(1, 2)) return genGroupOf(s, o, M_PROP); return genDataChunk(s, o); }
    static const uint32_t kinds[] = { M_FORM, M_CAT, M_LIST };
    uint32_t kind = kinds[s.below(3)];
    Node n = genGroupOf(s, o, kind);
    if(s.chance(1, 12)) // deep chain around it
    {
        int d = (int)s.range(1, 25);
        for(int i = 0; i < d; i++)
        {
            Node p; p.group = true; static const uint32_t pk[] = { M_FORM, M_CAT, M_LIST }; p.id = pk[s.below(3)];
            p.type = p.id == M_FORM ? genFormType(s) : (s.chance(1, 2) ? M_JJJJ : n.type);
            if(p.id == M_FORM && s.chance(1, 2)) p.kids.push_back(dataChunk(s, o));
            if(p.id == M_LIST && s.chance(1, 2)) { Budget b{4}; p.props.push_back(group(s, o, M_PROP, genFormType(s), 1, b)); }
            p.kids.push_back(std::move(n)); n = std::move(p);
        }
        fixSizes(n);
    }
    return n;
}
bool oddTypes(Src &s, Node &n, bool ids, int per)
{
    if(!s.chance(1, (uint64_t)per)) return false;
    vector<Node *> all, g, d; allNodes(n, all); for(auto x : all) (x->group ? g : d).push_back(x);
    bool some = false;
    if(ids && !d.empty() && s.chance(1, 2))
    {
        static const uint32_t odd[] = { 0, 0x41, 0x4142, 0x414243, 0x00ffffff, 0xff, 0xffffffffu, 0x80000000u, 0x20202041u, 0x41000000u, 0x41420000u, 0x41004100u };
        for(int i = (int)s.range(1, 3); i > 0; i--) { uint32_t v = s.chance(2, 3) ? odd[s.below(12)] : genAnyId(s); if(!isGroupId(v)) d[s.below(d.size())]->id = v; }
        some = true;
    }
    if(g.empty() || (some && s.chance(1, 2))) return some;
    static const uint32_t odd[] = { 0, M_FILL, 0x20202041u, 0xffffffffu, 0x80000000u, 0x61626364u, 0x41410000u };
    for(int i = (int)s.range(1, 3); i > 0; i--) g[s.below(g.size())]->type = s.chance(1, 2) ? odd[s.below(7)] : genAnyId(s);
    return true;
}
int tailSize(Src &s)
{
    static const int big[] = { 255, 256, 257, 511, 512, 513, 768, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 32769, 65535, 65536, 65537 };
    if(!s.chance(1, 8)) return (int)s.range(1, 20);
    if(s.chance(1, 2)) return (int)s.range(1, 600);
    return big[s.below(19)];
}
string treeClass(const Node &n)
{
    string k = isGroupId(n.id) ? idStr(n.id) : "data";
    size_t c = countNodes(n);
    return k + (c == 1 ? "/1" : c <= 4 ? "/2-4" : c <= 15 ? "/5-15" : "/16+");
}

static void normalise(Node &x)
{
    if(x.id == M_LIST)
    {
        vector<Node> kids, props;
        for(auto &p : x.props) if(p.id == M_PROP) props.push_back(p); else kids.push_back(p);
        for(auto &k : x.kids) if(k.id == M_PROP) props.push_back(k); else kids.push_back(k);
        x.kids = kids; x.props = props;
    }
    for(auto &p : x.props) normalise(p);
    for(auto &k : x.kids) normalise(k);
}

string mutateTree(Src &s, Node &n)
{
    vector<Node *> all; allNodes(n, all);
    Node *t = all[s.below(all.size())];
    vector<Node *> groups; for(auto x : all) if(x->group) groups.push_back(x);
    string name; bool refix = false;
    GenOpts o; o.maxNodes = 6; o.maxDepth = 2; o.maxKids = 2;
    switch(s.below(14))
    {
        case 0: case 1: // group size off
            if(groups.empty()) return "none";
            t = groups[s.below(groups.size())];
            { static const int d[] = { 1, -1, 2, -2, 4, -4, 8, 12, -8, 100, 0x10000, -3 }; t->size += d[s.below(12)]; }
            return "group-size";
        case 2: // illegal or legal other chunk id
            if(t->group) { t = nullptr; for(auto x : all) if(!x->group) { t = x; if(s.chance(1, 2)) break; } if(!t) return "none"; }
            { uint32_t v = genAnyId(s); if(isGroupId(v)) v = 0x01020304; t->id = v; }
            return "chunk-id";
        case 3: case 4: // group type
            if(groups.empty()) return "none";
            t = groups[s.below(groups.size())]; t->type = genAnyId(s); return "group-type";
        case 5: case 6: // data chunk into CAT/LIST
            { vector<Node *> g; for(auto x : groups) if(x->id == M_CAT || x->id == M_LIST) g.push_back(x); if(g.empty()) return "none"; t = g[s.below(g.size())];
              t->kids.insert(t->kids.begin() + (long)s.below(t->kids.size() + 1), genDataChunk(s, o)); name = "data-in-cat"; refix = true; break; }
        case 7: // PROP in FORM / CAT / PROP
            { vector<Node *> g; for(auto x : groups) if(x->id != M_LIST) g.push_back(x); if(g.empty()) return "none"; t = g[s.below(g.size())];
              t->kids.insert(t->kids.begin() + (long)s.below(t->kids.size() + 1), genGroupOf(s, o, M_PROP)); name = "prop-misplaced"; refix = true; break; }
        case 8: // group in PROP
            { vector<Node *> g; for(auto x : groups) if(x->id == M_PROP) g.push_back(x); if(g.empty()) return "none"; t = g[s.below(g.size())];
              static const uint32_t kk[] = { M_FORM, M_CAT, M_LIST }; t->kids.insert(t->kids.begin() + (long)s.below(t->kids.size() + 1), genGroupOf(s, o, kk[s.below(3)])); name = "group-in-prop"; refix = true; break; }
        case 9: // mismatching member type
            { vector<Node *> g; for(auto x : groups) if((x->id == M_CAT || x->id == M_LIST)) g.push_back(x); if(g.empty()) return "none"; t = g[s.below(g.size())];
              static const uint32_t kk[] = { M_FORM, M_CAT, M_LIST }; t->kids.insert(t->kids.begin() + (long)s.below(t->kids.size() + 1), genGroupOf(s, o, kk[s.below(3)])); name = "member-type"; refix = true; break; }
        case 10: // contents type
            { vector<Node *> g; for(auto x : groups) if((x->id == M_CAT || x->id == M_LIST)) g.push_back(x); if(g.empty()) return "none"; g[s.below(g.size())]->type = s.chance(1, 3) ? M_JJJJ : genContentsType(s); return "contents-type"; }
        case 11: // kind change between groups with same body shape
            if(groups.empty()) return "none";
            t = groups[s.below(groups.size())]; { static const uint32_t kk[] = { M_FORM, M_CAT, M_LIST, M_PROP }; if(t->props.empty()) t->id = kk[s.below(4)]; }
            normalise(n); // a PROP directly inside a list is a property
            fixSizes(n);
            return "kind";
        case 12: // PROP or data chunk as root
            if(s.chance(1, 2)) n = genGroupOf(s, o, M_PROP); else n = genDataChunk(s, o);
            return "root-kind";
        default: // remove or duplicate a member: stays valid when sizes follow
            if(groups.empty()) return "none";
            t = groups[s.below(groups.size())];
            if(t->kids.empty()) return "none";
            { size_t i = s.below(t->kids.size()); if(s.chance(1, 2)) t->kids.erase(t->kids.begin() + (long)i); else { Node c = t->kids[i]; t->kids.push_back(c); } }
            name = "member-count"; refix = s.chance(2, 3);
    }
    if(refix) fixSizes(n);
    return name;
}

string mutateBytes(Src &s, string &b)
{
    if(b.empty()) { b += (char)s.byte(); return "grow"; }
    switch(s.below(12))
    {
        case 0: b[s.below(b.size())] ^= (char)(1 << s.below(8)); return "bitflip";
        case 1: b[s.below(b.size())] = (char)s.byte(); return "byte";
        case 2: b.resize(s.below(b.size())); return "truncate";
        case 3: { size_t k = s.below(9); for(size_t i = 0; i < k; i++) b += (char)s.byte(); return "extend"; }
        case 4: { size_t at = s.below(b.size()); b.erase(at, 1 + s.below(12)); return "delete"; }
        case 5: { size_t at = s.below(b.size() + 1); string ins; size_t k = 1 + s.below(8); for(size_t i = 0; i < k; i++) ins += (char)s.byte(); b.insert(at, ins); return "insert"; }
        case 6: case 7: case 8: // 32-bit value at an even offset
        {
            if(b.size() < 8) return "none";
            size_t at = s.below((b.size() - 2) / 2) * 2; if(at + 4 > b.size()) return "none";
            static const uint32_t v[] = { 0, 1, 2, 3, 4, 5, 7, 8, 12, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0xfffffff8u, 0xfffffffcu, 0x7ffffffe, 0x80000001u, 0xffffu, 0x10000, 0x7ffffff7u, 0x7ffffff8u };
            uint32_t x = s.chance(1, 5) ? s.u32() : s.chance(1, 3) ? get32(b, at) + (uint32_t)s.range(-8, 8) : v[s.below(21)];
            for(size_t i = 0; i < 4; i++) b[at + i] = (char)(x >> (24 - 8 * i));
            return "value32";
        }
        case 9: case 10: // replace an ID
        {
            if(b.size() < 4) return "none";
            size_t at = s.below((b.size() - 2) / 2) * 2; if(at + 4 > b.size()) return "none";
            uint32_t x = genAnyId(s); for(size_t i = 0; i < 4; i++) b[at + i] = (char)(x >> (24 - 8 * i));
            return "id32";
        }
        default: { size_t at = s.below(b.size()), n = 1 + s.below(32); string cut = b.substr(at, n); b.insert(s.below(b.size() + 1), cut); return "duplicate"; }
    }
}

// ------------------------------------------------------------ library side
static IFF_Chunk *buildRaw(const Node &n, Src *s)
{
    unsigned route = s ? (unsigned)s->below(4) : 0;
    bool hasNul = n.data.find('\0') != string::npos;
    IFF_RawChunk *r;
    if(route == 1)   // attach a buffer of the caller
    {
        r = (IFF_RawChunk *)IFF_createRawChunk(n.id, 0); if(!r) harnessf("IFF_createRawChunk failed");
        vpw_free(r->chunkData); r->chunkData = nullptr;
        IFF_UByte *d = (IFF_UByte *)vpw_malloc(n.data.size() + 1); memcpy(d, n.data.data(), n.data.size());
        IFF_setRawChunkData(r, d, (IFF_Long)n.data.size());
    }
    else if(route == 2 && !hasNul)
    {
        r = (IFF_RawChunk *)IFF_createRawChunk(n.id, (IFF_Long)s->below(9)); if(!r) harnessf("IFF_createRawChunk failed");
        vpw_free(r->chunkData); r->chunkData = nullptr;
        IFF_setTextData(r, n.data.c_str());
    }
    else if(route == 3)
    {
        r = (IFF_RawChunk *)IFF_createRawChunk(n.id, (IFF_Long)n.data.size()); if(!r) harnessf("IFF_createRawChunk failed");
        for(size_t i = 0; i < n.data.size(); i++) r->chunkData[i] = (IFF_UByte)n.data[i];
    }
    else
    {
        r = (IFF_RawChunk *)IFF_createRawChunk(n.id, (IFF_Long)n.data.size()); if(!r) harnessf("IFF_createRawChunk failed");
        string d = n.data; IFF_copyDataToRawChunkData(r, (IFF_UByte *)&d[0]);
    }
    return (IFF_Chunk *)r;
}
static void setSize(IFF_Chunk *c, const Node &n) { c->chunkSize = n.size; }
IFF_Chunk *build(const Node &n, Src *s, bool natural)
{
    if(!n.group) { IFF_Chunk *c = buildRaw(n, s); if(c->chunkSize != (IFF_Long)n.data.size()) failf("a data chunk made with %zu bytes has size %d", n.data.size(), c->chunkSize); setSize(c, n); return c; }
    bool presized = s && s->chance(1, 4);
    bool viaGroup = s && s->chance(1, 5);
    IFF_Chunk *c;
    switch(n.id)
    {
        case M_FORM: c = presized ? (IFF_Chunk *)IFF_createForm(n.size, n.type) : (IFF_Chunk *)IFF_createEmptyForm(n.type); break;
        case M_PROP: c = presized ? (IFF_Chunk *)IFF_createProp(n.size, n.type) : (IFF_Chunk *)IFF_createEmptyProp(n.type); break;
        case M_CAT: c = presized ? (IFF_Chunk *)IFF_createCAT(n.size, n.type) : n.type == M_JJJJ ? (IFF_Chunk *)IFF_createEmptyCAT() : (IFF_Chunk *)IFF_createEmptyCATWithContentsType(n.type); break;
        case M_LIST: c = presized ? (IFF_Chunk *)IFF_createList(n.size, n.type) : n.type == M_JJJJ ? (IFF_Chunk *)IFF_createEmptyList() : (IFF_Chunk *)IFF_createEmptyListWithContentsType(n.type); break;
        default: harnessf("build: not a group");
    }
    if(!c) failf("creating an empty group failed");
    // members may be added before or after the properties of a list
    bool kidsFirst = s && n.id == M_LIST && s->chance(1, 3);
    for(int pass = 0; pass < 2; pass++)
    {
        if((pass == 0) != kidsFirst)
            for(auto &p : n.props) IFF_addPropToList((IFF_List *)c, (IFF_Prop *)build(p, s, natural));
        else
            for(auto &k : n.kids)
            {
                IFF_Chunk *kc = build(k, s, natural);
                if(presized) IFF_attachToGroup((IFF_Group *)c, kc);
                else if(viaGroup) IFF_addToGroup((IFF_Group *)c, kc);
                else switch(n.id)
                {
                    case M_FORM: IFF_addToForm((IFF_Form *)c, kc); break;
                    case M_PROP: IFF_addToProp((IFF_Prop *)c, kc); break;
                    case M_CAT: IFF_addToCAT((IFF_CAT *)c, kc); break;
                    default: IFF_addToList((IFF_List *)c, kc);
                }
            }
    }
    // natural: leave the size the library maintained where that is possible
    if(!natural || (presized && n.id == M_LIST) || n.size != contentSize(n)) setSize(c, n);
    return c;
}

string diffChunk(const IFF_Chunk *c, const Node &n, const IFF_Group *parent, const string &path)
{
    string here = path + "/" + idStr(n.id);
    if(!c) return here + ": missing chunk";
    if(c->chunkId != n.id) return here + strf(": chunk ID is '%s'", idStr(c->chunkId).c_str());
    if(c->chunkSize != n.size) return here + strf(": size is %d, expected %d", c->chunkSize, n.size);
    if(c->parent != parent) return here + ": wrong parent pointer";
    if(!n.group)
    {
        const IFF_RawChunk *r = (const IFF_RawChunk *)c;
        if(n.data.size() && memcmp(r->chunkData, n.data.data(), n.data.size())) return here + ": data differs: " + hexs(r->chunkData, n.data.size(), 64) + " expected " + hexs(n.data, 64);
        return "";
    }
    const IFF_Group *g = (const IFF_Group *)c;
    if(g->groupType != n.type) return here + strf(": group type is '%s', expected '%s'", idStr(g->groupType).c_str(), idStr(n.type).c_str());
    if(g->chunkLength != n.kids.size()) return here + strf(": %u members, expected %zu", g->chunkLength, n.kids.size());
    if(n.id == M_LIST)
    {
        const IFF_List *l = (const IFF_List *)c;
        if(l->propLength != n.props.size()) return here + strf(": %u PROPs, expected %zu", l->propLength, n.props.size());
        for(size_t i = 0; i < n.props.size(); i++) { string d = diffChunk((const IFF_Chunk *)l->prop[i], n.props[i], g, here + strf("<%zu>", i)); if(!d.empty()) return d; }
    }
    for(size_t i = 0; i < n.kids.size(); i++) { string d = diffChunk(g->chunk[i], n.kids[i], g, here + strf("[%zu]", i)); if(!d.empty()) return d; }
    return "";
}
Node snapshot(const IFF_Chunk *c)
{
    Node n; n.id = c->chunkId; n.size = c->chunkSize; n.group = isGroupId(n.id);
    if(!n.group) { const IFF_RawChunk *r = (const IFF_RawChunk *)c; if(c->chunkSize > 0) n.data.assign((const char *)r->chunkData, (size_t)c->chunkSize); return n; }
    const IFF_Group *g = (const IFF_Group *)c; n.type = g->groupType;
    if(n.id == M_LIST) { const IFF_List *l = (const IFF_List *)c; for(unsigned i = 0; i < l->propLength; i++) n.props.push_back(snapshot((const IFF_Chunk *)l->prop[i])); }
    for(unsigned i = 0; i < g->chunkLength; i++) n.kids.push_back(snapshot(g->chunk[i]));
    return n;
}
void freeTree(IFF_Chunk *c) { IFF_free(c, nullptr); }
void libNodes(IFF_Chunk *c, vector<IFF_Chunk *> &v)
{
    v.push_back(c);
    if(!isGroupId(c->chunkId)) return;
    if(c->chunkId == M_LIST) { IFF_List *l = (IFF_List *)c; for(unsigned i = 0; i < l->propLength; i++) libNodes((IFF_Chunk *)l->prop[i], v); }
    IFF_Group *g = (IFF_Group *)c; for(unsigned i = 0; i < g->chunkLength; i++) libNodes(g->chunk[i], v);
}
