// C21 messages, C22 kinds of sources and destinations, C23 release, C24 independence
#include "ext.h"
#include <thread>
#include "print.h"
#include "robust.h"
#include "tools.h"
#include <cstring>
#include <map>
#include <set>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
using std::string; using std::vector; using std::map;

static bool says(const string &what) { return gMessages.find(what) != string::npos; }
static bool saysNum(long long v) // as a number of its own
{
    string n = strf("%lld", v); size_t p = 0;
    while((p = gMessages.find(n, p)) != string::npos)
    {
        bool l = p == 0 || !(isdigit((unsigned char)gMessages[p - 1]) || gMessages[p - 1] == '-'), r = p + n.size() >= gMessages.size() || !isdigit((unsigned char)gMessages[p + n.size()]);
        if(l && r) return true;
        p++;
    }
    return false;
}

// ---------------------------------------------------------------- C21
static void quietly(const char *what, const string &ctx, const std::function<void()> &f)
{
    string out, err; captureBoth(f, out, err);
    REQUIRE(out.empty(), "%s writes to the standard output: %s (%s)", what, hexs(out).c_str(), ctx.c_str());
    REQUIRE(err.empty(), "%s writes to the standard error although a callback is installed: %s (%s)", what, err.c_str(), ctx.c_str());
}
static uint32_t plainId(Src &s) { static const vector<const char *> p = { "HELO", "QWER", "ZXCV", "TYUI", "GHJK", "B5N6" }; return mk(p[s.below(p.size())]); }
static void caseC21(Src &s, Ctx &c)
{
    GenOpts o; o.maxNodes = s.chance(1, 10) ? 60 : 15; o.maxDepth = 4; o.maxData = 20; o.extremes(c, 600, 0);
    unsigned kind = (unsigned)s.below(13); string ctx; if(s.chance(1, 40)) kind = 13; else if(s.chance(1, 20)) kind = 14;
    switch(kind)
    {
        case 0: // everything on well-formed data: no message at all
        {
            Node n = genTree(s, o); string b = encode(n); ctx = "well-formed " + show(n); IFF_Chunk *x = nullptr, *y = nullptr; bool ok = true;
            messagesClear();
            quietly("reading", ctx, [&] { x = readBytes(b, nullptr); y = readBytes(b, nullptr); }); REQUIRE(x && y, "reading fails: %s", ctx.c_str());
            quietly("checking", ctx, [&] { ok = IFF_check(x, nullptr); }); REQUIRE(ok, "the check fails: %s", ctx.c_str());
            string w; quietly("writing", ctx, [&] { w = writeBytes(x, nullptr, ok); }); REQUIRE(ok, "writing fails: %s", ctx.c_str());
            string path = tempFile(c, "c21"); quietly("writing", ctx, [&] { ok = IFF_write(path.c_str(), x, nullptr); }); REQUIRE(ok, "writing a file fails: %s", ctx.c_str());
            IFF_Chunk *z = nullptr; quietly("reading", ctx, [&] { z = IFF_read(path.c_str(), nullptr); }); REQUIRE(z, "reading a file fails: %s", ctx.c_str()); unlink(path.c_str()); freeTree(z);
            quietly("comparing", ctx, [&] { ok = IFF_compare(x, y, nullptr); }); REQUIRE(ok, "not equal: %s", ctx.c_str());
            quietly("searching", ctx, [&] { unsigned k; vpw_free(IFF_searchForms(x, mk("TEST"), &k)); });
            quietly("updating sizes", ctx, [&] { IFF_updateChunkSizes(x); });
            string out, err; captureBoth([&] { IFF_print(x, 0, nullptr); }, out, err); REQUIRE(err.empty(), "printing writes to the standard error: %s", err.c_str());
            quietly("freeing", ctx, [&] { freeTree(x); freeTree(y); });
            REQUIRE(gMessageCount == 0, "operations on well-formed data report: %s (%s)", gMessages.c_str(), ctx.c_str()); c.subEvals += 9; c.label("well-formed");
            break;
        }
        case 1: // any bytes: failing reads and checks report something, nothing else is written anywhere
        {
            string how, b = hostileBytes(s, nullptr, &how); ctx = how + " " + hexs(b); IFF_Chunk *x = nullptr; messagesClear();
            quietly("reading", ctx, [&] { x = readBytes(b, nullptr); });
            if(!x) { REQUIRE(gMessageCount, "a failing read reports nothing: %s", ctx.c_str()); c.label("arbitrary bytes, unreadable"); break; }
            if(strictFile(b)) { Node n; size_t used; strictFile(b, &n, &used); if(used == b.size() && sameNode(snapshot(x), n) && encode(n) == b) REQUIRE(gMessageCount == 0, "reading a valid file reports: %s (%s)", gMessages.c_str(), ctx.c_str()); }
            messagesClear(); bool ok = false; quietly("checking", ctx, [&] { ok = IFF_check(x, nullptr); });
            REQUIRE(ok == (gMessageCount == 0), "the check %s and reports: '%s' (%s)", ok ? "accepts" : "rejects", gMessages.c_str(), ctx.c_str());
            freeTree(x); c.subEvals += 2; c.label(ok ? "arbitrary bytes, valid" : "arbitrary bytes, invalid");
            break;
        }
        case 2: // a broken hierarchy: rejected with a message
        {
            Node n = genTree(s, o); unsigned m = 1 + (unsigned)s.below(3); string e; for(unsigned i = 0; i < m; i++) e += mutateTree(s, n) + " ";
            IFF_Chunk *x = build(n, &s); ctx = "edited (" + e + ") " + show(n); messagesClear(); bool ok = false;
            quietly("checking", ctx, [&] { ok = IFF_check(x, s.chance(1, 2) ? nullptr : &IFF_defaultChunkRegistry); });
            REQUIRE(ok == (gMessageCount == 0), "the check %s and reports: '%s' (%s)", ok ? "accepts" : "rejects", gMessages.c_str(), ctx.c_str());
            freeTree(x); c.subEvals++; c.label(ok ? "edited, valid" : "edited, invalid");
            break;
        }
        case 3: // one group's size is off: the message names it
        {
            Node n = genTree(s, o); vector<Node *> all; allNodes(n, all); vector<Node *> g; for(auto x : all) if(x->group) g.push_back(x);
            Node *t = g[s.below(g.size())]; int32_t actual = t->size; static const int d[] = { 1, -1, 2, -2, 10, 256, 65536, -4, 7 }; t->size += d[s.below(9)];
            IFF_Chunk *x = build(n, &s); ctx = strf("size of one '%s' is %d instead of %d in ", idStr(t->id).c_str(), t->size, actual) + show(n); messagesClear(); bool ok = true;
            quietly("checking", ctx, [&] { ok = IFF_check(x, nullptr); });
            REQUIRE(!ok, "the check accepts: %s", ctx.c_str());
            REQUIRE(says(idText(t->id)) && saysNum(t->size) && saysNum(actual), "the size mismatch is reported as: %s (%s)", gMessages.c_str(), ctx.c_str());
            freeTree(x); c.subEvals++; c.label("size mismatch");
            break;
        }
        case 4: // a misplaced chunk: the message names it
        {
            Node n = genTree(s, o); vector<Node *> all; allNodes(n, all); vector<Node *> g; bool data = s.chance(1, 2);
            for(auto x : all) if(data ? x->id == M_CAT || x->id == M_LIST : x->id == M_FORM || x->id == M_CAT || x->id == M_PROP) g.push_back(x);
            Node m; if(data) { m.id = plainId(s); m.data = genData(s, s.below(5)); } else { m.id = M_PROP; m.group = true; m.type = genFormType(s); }
            if(!data && !g.empty() && g[0]->id == M_PROP) {}
            if(g.empty()) { ctx = "nothing"; break; }
            Node *t = g[s.below(g.size())];
            if(!data && t->id == M_PROP && s.chance(1, 2)) { static const uint32_t kk[] = { M_FORM, M_CAT, M_LIST }; m.id = kk[s.below(3)]; m.type = m.id == M_FORM ? mk("TEST") : M_JJJJ; }
            t->kids.insert(t->kids.begin() + (long)s.below(t->kids.size() + 1), m); fixSizes(n); uint32_t tid = t->id;
            IFF_Chunk *x = build(n, &s); ctx = strf("misplaced '%s' in a '%s' in ", idStr(m.id).c_str(), idStr(tid).c_str()) + show(n); messagesClear(); bool ok = true;
            quietly("checking", ctx, [&] { ok = IFF_check(x, nullptr); });
            REQUIRE(!ok, "the check accepts a %s", ctx.c_str());
            REQUIRE(says(idText(m.id)), "a misplaced chunk is reported as: %s (%s)", gMessages.c_str(), ctx.c_str());
            freeTree(x); c.subEvals++; c.label("misplaced " + idStr(m.id).substr(0, data ? 0 : 6));
            break;
        }
        case 5: // a reserved form type: the message names it
        {
            Node n = genTree(s, o); vector<Node *> all; allNodes(n, all); vector<Node *> g; for(auto x : all) if(x->id == M_FORM) g.push_back(x);
            if(g.empty()) { Node f; f.id = M_FORM; f.group = true; f.type = mk("TEST"); f.kids.push_back(n); n = f; fixSizes(n); all.clear(); allNodes(n, all); g.push_back(all[0]); }
            Node *t = g[s.below(g.size())]; for(auto x : all) if((x->id == M_CAT || x->id == M_LIST)) x->type = M_JJJJ;
            static const vector<const char *> res = { "LIST", "FORM", "PROP", "CAT ", "JJJJ", "LIS1", "LIS9", "FOR1", "FOR5", "FOR9", "CAT1", "CAT9", "LIS4", "CAT6", "FOR2" };
            t->type = mk(res[s.below(res.size())]); IFF_Chunk *x = build(n, &s); ctx = "reserved form type '" + idStr(t->type) + "' in " + show(n); messagesClear(); bool ok = true;
            quietly("checking", ctx, [&] { ok = IFF_check(x, nullptr); });
            REQUIRE(!ok && says(idText(t->type)), "%s is %s: %s", ctx.c_str(), ok ? "accepted" : "reported as", gMessages.c_str());
            freeTree(x); c.subEvals++; c.label("reserved form type");
            break;
        }
        case 6: // a group that ends before its members do: declared and actual size are reported
        {
            Node n = genTree(s, o); vector<Node *> all; allNodes(n, all); vector<Node *> g; for(auto x : all) if(x->group && (!x->kids.empty() || !x->props.empty())) g.push_back(x);
            if(g.empty()) { ctx = "nothing"; break; }
            Node *t = g[s.below(g.size())]; // the last stored member must be the one that crosses the end
            int32_t actual = t->size; Node &last = t->kids.empty() ? t->props.back() : t->kids.back(); int32_t lastLen = 8 + last.size + (last.size & 1);
            int32_t cut = (int32_t)s.range(1, lastLen - 1); t->size = actual - cut;
            if(t->size & 1) { if(t->size - 1 > actual - lastLen) t->size -= 1; else if(t->size + 1 < actual) t->size += 1; else { ctx = "nothing"; t->size = actual; break; } }
            // stored bytes: everything of the members, only the declared size of the group lies; enclosing groups keep what they really hold
            string b = encode(n); ctx = strf("'%s' declares %d but holds %d in ", idStr(t->id).c_str(), t->size, actual) + hexs(b);
            bool root = t == &n; messagesClear(); IFF_Chunk *x = nullptr;
            MemIn in; in.data = b; FILE *f = openIn(in);
            quietly("reading", ctx, [&] { x = IFF_readFd(f, nullptr); }); fclose(f); c.subEvals++;
            REQUIRE(saysNum(t->size) && saysNum(actual), "a truncated group is reported as: %s (%s)", gMessages.c_str(), ctx.c_str());
            if(root) REQUIRE(x, "a group that declares too little is not read: %s", ctx.c_str());
            if(x) freeTree(x);
            c.label(root ? "truncated group" : "truncated inner group");
            break;
        }
        case 7: // unknown bytes are skipped with a message that has their number and the chunk; cut-off data names the chunk
        {
            if(s.chance(1, 2))
            {
                genLayouts(s); RegSpec r; int h = (int)s.below(NHANDLERS); uint32_t id = plainId(s); r.forms.push_back({ mk("TEST"), { { { id, h } } } }); Registry reg(r);
                int full = 0; for(auto q : gLayout[h]) full += fieldSize(q);
                Node n; n.id = M_FORM; n.group = true; n.type = mk("TEST"); Node d; d.id = id; d.data = genData(s, (size_t)(full + (int)s.range(-4, 40) < 0 ? 0 : full + (int)s.range(0, 40))); n.kids.push_back(d); fixSizes(n);
                int32_t sk = (int32_t)d.data.size() - knownBytes(h, (int32_t)d.data.size()); messagesClear(); IFF_Chunk *x = nullptr; ctx = strf("%d unknown bytes in ", sk) + show(n);
                quietly("reading", ctx, [&] { x = readBytes(encode(n), &reg.reg); }); REQUIRE(x, "reading fails: %s", ctx.c_str());
                if(sk) REQUIRE(saysNum(sk) && says(idText(id)), "skipping is reported as: %s (%s)", gMessages.c_str(), ctx.c_str()); else REQUIRE(!gMessageCount, "reading reports: %s (%s)", gMessages.c_str(), ctx.c_str());
                if(sk > 0) // the stream ends while unknown bytes are skipped
                {
                    string b = encode(n); b.resize(b.size() - (d.data.size() & 1) - 1 - s.below((uint64_t)sk)); messagesClear(); IFF_Chunk *y = nullptr; quietly("reading", ctx, [&] { y = readBytes(b, &reg.reg); }); REQUIRE(!y, "a stream that ends within %s is read", ctx.c_str());
                    REQUIRE(saysNum(sk) && says(idText(id)), "a stream that ends within %s is reported as: %s", ctx.c_str(), gMessages.c_str());
                }
                messagesClear(); bool ok; string w; quietly("writing", ctx, [&] { w = writeBytes(x, &reg.reg, ok); }); REQUIRE(ok && !gMessageCount, "writing reports: %s (%s)", gMessages.c_str(), ctx.c_str());
                IFF_free(x, &reg.reg); c.subEvals += 2; c.label(sk ? "skipped bytes" : "no skipped bytes");
                break;
            }
            Node n; n.id = M_FORM; n.group = true; n.type = mk("TEST"); int k = (int)s.range(0, 3); for(int i = 0; i < k; i++) { Node d; d.id = mk("AAAA"); d.data = genData(s, s.below(6)); n.kids.push_back(d); }
            Node d; d.id = plainId(s); d.data = genData(s, (size_t)s.range(1, 12)); n.kids.push_back(d); fixSizes(n);
            string b = encode(n); size_t lose = (size_t)s.range(1, (int64_t)d.data.size() + (d.data.size() & 1)); b.resize(b.size() - lose); ctx = "cut-off data of '" + idStr(d.id) + "' in " + hexs(b); messagesClear(); IFF_Chunk *x = nullptr;
            quietly("reading", ctx, [&] { x = readBytes(b, nullptr); }); REQUIRE(!x, "%s is read", ctx.c_str());
            REQUIRE(says(idText(d.id)), "%s is reported as: %s", ctx.c_str(), gMessages.c_str()); c.subEvals++; c.label("cut-off data");
            break;
        }
        case 8: // files that cannot be opened, devices that fail
        {
            Node n = genTree(s, o); IFF_Chunk *x = build(n, &s), *y = nullptr; bool ok = true; string missing = tempFile(c, "no/such/file");
            if(s.chance(1, 2)) { missing = tempFile(c, "no/"); static const char *frag[] = { "%", "%%", "%d", "%s", "%c", "a", "\\n", "\\", " ", "\xe4", "'" }; size_t k = s.chance(1, 4) ? 100 + s.below(900) : 1 + s.below(12); for(size_t i = 0; i < k; i++) missing += s.chance(2, 3) ? frag[s.below(11)] : string(1, (char)('a' + s.below(26))); c.label("unusual file names"); }
            string dir = c.scratch; unsigned w = (unsigned)s.below(5); messagesClear();
            ctx = strf("unusable file (%u)", w) + show(n).substr(0, 200);
            switch(w)
            {
                case 0: quietly("reading", ctx, [&] { y = IFF_read(missing.c_str(), nullptr); }); ok = y; REQUIRE(says(missing), "a missing file is reported as: %s", gMessages.c_str()); break;
                case 1: quietly("reading", ctx, [&] { y = IFF_readFile(dir.c_str(), nullptr); }); ok = y; break;
                case 2: quietly("writing", ctx, [&] { ok = IFF_write(missing.c_str(), x, nullptr); }); REQUIRE(says(missing), "an impossible file is reported as: %s", gMessages.c_str()); break;
                case 3: quietly("writing", ctx, [&] { ok = IFF_writeFile("/dev/full", x, nullptr); }); break;
                default: { string all = encode(n); MemOut m; m.failAt = (int64_t)s.below(all.size()); FILE *f = openOut(m, 1); quietly("writing", ctx, [&] { ok = IFF_writeFd(f, x, nullptr); }); fclose(f); }
            }
            REQUIRE(!ok, "using an %s succeeds", ctx.c_str()); REQUIRE(gMessageCount, "nothing is reported for an %s", ctx.c_str());
            freeTree(x); c.subEvals++; c.label("unusable file or device");
            break;
        }
        case 9: // single chunks read from a stream until it ends
        {
            string b; size_t k = (size_t)s.range(0, 4), i = 0; for(size_t j = 0; j < k; j++) b += encode(s.chance(1, 2) ? genTree(s, o) : genDataChunk(s, o));
            size_t whole = k; if(s.chance(1, 2)) { Node last = s.chance(1, 2) ? genTree(s, o) : genDataChunk(s, o); string e = encode(last); e.resize(s.below(e.size())); b += e; }
            ctx = strf("%zu chunks and the rest in ", whole) + hexs(b); MemIn in; in.data = b; in.gran = s.below(4); in.seekable = s.chance(1, 2); bool err = s.chance(1, 3); if(err) in.errorAt = (int64_t)b.size(); FILE *f = openIn(in, (int)s.below(3)); IFF_ID scope = s.chance(1, 2) ? 0 : genFormType(s);
            for(; i < whole; i++) { messagesClear(); IFF_Chunk *x = nullptr; quietly("reading", ctx, [&] { x = IFF_readChunk(f, scope, &IFF_defaultChunkRegistry); }); REQUIRE(x, "reading chunk %zu of %s fails: %s", i, ctx.c_str(), gMessages.c_str()); REQUIRE(!gMessageCount, "reading chunk %zu of %s reports: %s", i, ctx.c_str(), gMessages.c_str()); freeTree(x); c.subEvals++; }
            for(int again = 0; again < 2; again++) { messagesClear(); IFF_Chunk *x = nullptr; quietly("reading", ctx, [&] { x = s.chance(1, 2) ? IFF_readChunk(f, scope, &IFF_defaultChunkRegistry) : IFF_readFd(f, nullptr); }); REQUIRE(!x, "reading after the last chunk of %s succeeds", ctx.c_str()); REQUIRE(gMessageCount, "nothing is reported when reading after the last chunk of %s", ctx.c_str()); c.subEvals++; }
            fclose(f); c.label("chunks until the end"); break;
        }
        case 10: // what is tolerated is reported: bytes after the main chunk, pad bytes that are not zero
        {
            Node n = genTree(s, o); string b = encode(n); char odd = s.chance(1, 3) ? (char)0xff : (char)s.range(1, 255); bool pad = s.chance(1, 2);
            if(pad) { Node f; f.id = M_FORM; f.group = true; f.type = mk("TEST"); Node d; d.id = plainId(s); d.data = genData(s, 2 * s.below(6) + 1); f.kids.push_back(d); fixSizes(f); b = encode(f); b.back() = odd; }
            else { b += s.chance(1, 4) ? '\0' : odd; b += genData(s, s.below(4)); }
            ctx = string(pad ? "non-zero pad byte" : "bytes after the main chunk") + ": " + hexs(b); messagesClear(); IFF_Chunk *x = nullptr;
            quietly("reading", ctx, [&] { x = readBytes(b, nullptr); }); REQUIRE(x, "%s is not read: %s", ctx.c_str(), gMessages.c_str()); REQUIRE(gMessageCount, "nothing is reported about a %s", ctx.c_str());
            messagesClear(); bool ok = true; quietly("checking", ctx, [&] { ok = IFF_check(x, nullptr); }); REQUIRE(ok && !gMessageCount, "the check %s and reports '%s': %s", ok ? "accepts" : "rejects", gMessages.c_str(), ctx.c_str());
            freeTree(x); c.subEvals += 2; c.label(pad ? "non-zero pad byte" : "trailing bytes"); break;
        }
        case 14: // every building block that fails names the chunk, and the attribute if it has one
        {
            uint32_t id = s.chance(1, 2) ? plainId(s) : genChunkId(s); int32_t odd = s.chance(1, 2) ? (int32_t)s.below(20) * 2 + 1 : (int32_t)(s.below(0x3fffffff) * 2 + 1), gap = (int32_t)s.range(1, 300); string attr = "attr" + std::to_string(s.below(1000)); unsigned w = (unsigned)s.below(18); bool named = w < 14, ok = true, reads = w < 7 || w == 14 || w == 15;
            IFF_UByte b; IFF_UWord u; IFF_Word sw; IFF_ULong l; IFF_Long sl; IFF_ID d; IFF_Chunk ch; memset(&ch, 0, sizeof ch); ch.chunkId = id; ch.chunkSize = 8; IFF_Long bp = (IFF_Long)s.below(5); const char *a = attr.c_str(); bool err = s.chance(1, 2);
            MemIn in; if(err) in.errorAt = 0; MemOut out; out.failAt = 0; FILE *f = reads ? openIn(in, (int)s.below(3)) : openOut(out, 1); ctx = strf("building block %u with '%s' of '%s', size %d, gap %d", w, a, idStr(id).c_str(), odd, gap); messagesClear();
            bool field = s.chance(1, 2); auto st = [](IFF_FieldStatus x) { return x != IFF_FIELD_FAILURE; };
            quietly("failing", ctx, [&] { switch(w)
            {
                case 0: ok = field ? st(IFF_readUByteField(f, &b, &ch, a, &bp)) : IFF_readUByte(f, &b, id, a); break;
                case 1: ok = field ? st(IFF_readUWordField(f, &u, &ch, a, &bp)) : IFF_readUWord(f, &u, id, a); break;
                case 2: ok = field ? st(IFF_readWordField(f, &sw, &ch, a, &bp)) : IFF_readWord(f, &sw, id, a); break;
                case 3: ok = field ? st(IFF_readULongField(f, &l, &ch, a, &bp)) : IFF_readULong(f, &l, id, a); break;
                case 4: case 5: ok = field ? st(IFF_readLongField(f, &sl, &ch, a, &bp)) : IFF_readLong(f, &sl, id, a); break;
                case 6: ok = field ? st(IFF_readIdField(f, &d, &ch, a, &bp)) : IFF_readId(f, &d, id, a); break;
                case 7: ok = field ? st(IFF_writeUByteField(f, (IFF_UByte)odd, &ch, a, &bp)) : IFF_writeUByte(f, (IFF_UByte)odd, id, a); break;
                case 8: ok = field ? st(IFF_writeUWordField(f, (IFF_UWord)odd, &ch, a, &bp)) : IFF_writeUWord(f, (IFF_UWord)odd, id, a); break;
                case 9: ok = field ? st(IFF_writeWordField(f, (IFF_Word)odd, &ch, a, &bp)) : IFF_writeWord(f, (IFF_Word)odd, id, a); break;
                case 10: ok = field ? st(IFF_writeULongField(f, (IFF_ULong)odd, &ch, a, &bp)) : IFF_writeULong(f, (IFF_ULong)odd, id, a); break;
                case 11: case 12: ok = field ? st(IFF_writeLongField(f, odd, &ch, a, &bp)) : IFF_writeLong(f, odd, id, a); break;
                case 13: ok = field ? st(IFF_writeIdField(f, id, &ch, a, &bp)) : IFF_writeId(f, id, id, a); break;
                case 14: ok = IFF_readPaddingByte(f, odd, id); break;
                case 15: ok = IFF_skipUnknownBytes(f, id, gap + 7, 7); break;
                case 16: ok = IFF_writePaddingByte(f, odd, id); break;
                default: ok = IFF_writeZeroFillerBytes(f, id, gap + 7, 7); break;
            } });
            fclose(f); REQUIRE(!ok, "%s does not fail", ctx.c_str()); REQUIRE(gMessageCount && says(idText(id)) && (!named || says(attr)), "%s fails and reports: %s", ctx.c_str(), gMessages.c_str());
            c.subEvals++; c.label("failing building blocks"); break;
        }
        case 13: // the same problem again and again is reported every time
        {
            static const size_t many[] = { 3, 20, 130, 300, 1100, 2600, 5000, 66000 }; size_t k = many[s.chance(1, 60) ? 7 : s.below(s.chance(1, 8) ? 7 : 4)]; unsigned what = (unsigned)s.below(5); string first;
            Node n = genTree(s, o); string b = encode(n); b.resize(s.below(b.size())); if(b.size() > 300) k = std::min<size_t>(k, 300); n.size += 2; if(countNodes(n) > 10) k = std::min<size_t>(k, 300); static const uint32_t ids[] = { 0x20414243, 0x41424307, 0x4142437f, 0, 0x41424380 }; uint32_t id = ids[s.below(5)];
            IFF_Chunk *x = build(n, &s); ctx = strf("problem %u, %zu times, with ", what, k) + show(n); MemIn in; in.data = b; FILE *f = openIn(in); if(what == 3) k = std::min<size_t>(k, 1100);
            string out, err; size_t bad = 0, at = 0; string other;
            captureBoth([&] { for(size_t i = 0; i < k; i++) {
                messagesClear(); bool failed;
                switch(what) { case 0: failed = !IFF_checkId(id); break; case 1: failed = !IFF_check(x, nullptr); break; case 2: { rewind(f); IFF_Chunk *y = IFF_readChunk(f, 0, &IFF_defaultChunkRegistry); failed = !y; if(y) freeTree(y); break; } case 3: failed = !IFF_readFile("/nonexistent/a file", nullptr); break; default: failed = !IFF_checkFormType(s.pos % 2 ? mk("LIST") : id); }
                if(!failed || !gMessageCount) { if(!bad++) at = i; }
                if(i == 0) first = gMessages; else if(gMessages != first && other.empty()) { other = gMessages; at = i; if(other.empty()) other = "(nothing)"; } } }, out, err);
            fclose(f); REQUIRE(!bad, "failure %zu of %s is not reported", at, ctx.c_str()); REQUIRE(other.empty(), "failure %zu of %s is reported as %s instead of %s", at, ctx.c_str(), other.c_str(), first.c_str()); REQUIRE(out.empty() && err.empty(), "repeated failures write to the standard streams: %s", ctx.c_str());
            freeTree(x); c.subEvals += k; c.label("the same problem repeatedly"); break;
        }
        case 12: // what an application's handlers report
        {
            uint32_t id = s.chance(1, 2) ? plainId(s) : genAnyId(s); int32_t v = s.chance(1, 2) ? (int32_t)s.u32() : (int32_t)s.range(-3, 300); static const char *attrs[] = { "width", "x", "", "aRatherLongNameOfAnAttributeThatSomebodyMadeUp", "50%", "%s%n", "a'b" }; const char *a = attrs[s.below(7)];
            string longer(s.chance(1, 6) ? s.below(5000) : s.below(20), 'z'), want; ctx = strf("own messages about '%s', %d, %s, %zu", idStr(id).c_str(), v, a, longer.size()); bool std = s.chance(1, 3);
            auto say = [&] {
                IFF_error("plain\n"); want += "plain\n";
                IFF_error("%d|%s|%u|%x|%5d|%-4s|%%|%c\n", v, longer.c_str(), (unsigned)v, (unsigned)v, v, a, 'q'); want += strf("%d|", v) + longer + strf("|%u|%x|%5d|%-4s|%%|q\n", (unsigned)v, (unsigned)v, v, a);
                IFF_errorId(id); want += idText(id); };
            messagesClear(); string out, err; if(std) { auto old = IFF_errorCallback; IFF_errorCallback = &IFF_errorCallbackStderr; captureBoth(say, out, err); IFF_errorCallback = old; REQUIRE(out.empty(), "messages are written to the standard output: %s", ctx.c_str()); } else { quietly("reporting", ctx, say); err = gMessages; }
            REQUIRE(err == want, "messages arrive as %s instead of %s (%s)", hexs(err).c_str(), hexs(want).c_str(), ctx.c_str());
            for(int w = 0; w < 2; w++) { messagesClear(); quietly("reporting", ctx, [&] { if(w) IFF_writeError(id, a); else IFF_readError(id, a); }); REQUIRE(gMessages.find(idText(id)) != string::npos && gMessages.find(a) != string::npos && gMessages.back() == '\n', "a failure concerning '%s' of '%s' is reported as: %s", a, idStr(id).c_str(), hexs(gMessages).c_str()); }
            c.subEvals += 5; c.label("an application's own messages"); break;
        }
        default: // the callback that is installed initially writes the same messages to standard error, and nothing else
        {
            string how, b = hostileBytes(s, nullptr, &how); ctx = how + " with the default callback " + hexs(b); messagesClear(); IFF_Chunk *x = readBytes(b, nullptr); bool v = x && IFF_check(x, nullptr); string want = gMessages; if(x) freeTree(x);
            messagesClear(); auto old = IFF_errorCallback; IFF_errorCallback = &IFF_errorCallbackStderr; string out, err; bool v2 = false; IFF_Chunk *y = nullptr;
            captureBoth([&] { y = readBytes(b, nullptr); v2 = y && IFF_check(y, nullptr); }, out, err); IFF_errorCallback = old;
            REQUIRE(out.empty(), "messages are written to the standard output: %s (%s)", out.c_str(), ctx.c_str());
            REQUIRE(err == want && v2 == v && !x == !y, "the default callback writes '%s' instead of '%s' (%s)", err.c_str(), want.c_str(), ctx.c_str());
            if(y) freeTree(y);
            c.subEvals += 2; c.label(want.empty() ? "default callback, quiet" : "default callback, messages");
        }
    }
    if(ctx != "nothing") { c.nontriv(hashBytes(ctx.data(), ctx.size(), kind)); c.desc = ctx.substr(0, 400); }
}

// ---------------------------------------------------------------- C22
static string outcome(IFF_Chunk *x, const Node *n) { if(!x) return "failure"; string d = n ? diffChunk(x, *n, nullptr) : ""; return d.empty() ? "hierarchy" : d; }
static void caseC22(Src &s, Ctx &c)
{
    genLayouts(s); bool ext = s.chance(1, 3); RegSpec r; if(ext) r = genRegistry(s);
    Registry reg(r); const IFF_ChunkRegistry *R = ext ? &reg.reg : nullptr;
    string path = tempFile(c, "c22");
    if(s.chance(1, 2)) // sources
    {
        string how, b;
        if(s.chance(1, 3)) b = hostileBytes(s, ext ? &r : nullptr, &how);
        else { GenOpts o; o.maxNodes = 25; o.maxData = 40; o.big = s.chance(1, 6); o.anyRoot = true; Node n = ext ? genExtTree(s, o, r) : genTree(s, o); b = encode(n); how = "well-formed"; if(s.chance(1, 3)) { b.resize(s.below(b.size() + 1)); how = "cut off"; } else if(s.chance(1, 5)) { b += genData(s, s.below(9)); how = "with trailing bytes"; } }
        if(s.chance(1, 150)) { Node n = genExtreme(s, 1); b = encode(n); how = "large well-formed"; if(s.chance(1, 3)) { b.resize(s.chance(1, 2) ? b.size() - 1 - s.below(3) : s.below(b.size())); how = "large cut off"; } }
        if(s.chance(1, 10)) { static const char lead[] = { '\n', '\r', ' ', '\t', 0, (char)0xef, (char)0xbb, (char)0xff, '#', 0x1a }; char ch = lead[s.below(10)]; if(s.chance(1, 2) && !b.empty()) b[0] = ch; else b.insert(b.begin(), (size_t)s.range(1, 3), ch); how += ", another beginning"; }
        if(b.size() > 3000000) b.resize(3000000);
        bool viaPipe = b.size() <= 60000;
        string ctx = how + " " + hexs(b, 120);
        auto keep = [&](IFF_Chunk *x) { string t; if(!x) return string("failure"); t = captureStdout([&] { IFF_print(x, 0, R); }); bool ok; string w; int64_t most = 0; vector<IFF_Chunk *> all; libNodes(x, all); for(auto y : all) most = std::max<int64_t>(most, y->chunkSize); if(most < 1000000) { w = writeBytes(x, R, ok); t += w; } t += IFF_check(x, R) ? "valid" : "invalid"; IFF_free(x, R); return t; };
        string want = keep(readBytes(b, R)); int fds = countFds(); putFile(path, b);
        auto same = [&](const char *src, IFF_Chunk *x) { c.subEvals++; string got = keep(x); REQUIRE(got == want, "reading from %s gives %s, from memory %s: %s", src, got == "failure" ? "a failure" : "a hierarchy", want == "failure" ? "a failure" : got == "failure" ? "a hierarchy" : "another hierarchy", ctx.c_str()); };
        same("a named file", IFF_readFile(path.c_str(), R)); same("a named file", IFF_read(path.c_str(), R));
        FILE *f = fopen(path.c_str(), "rb"); if(!f) harnessf("fopen"); same("an open file", IFF_readFd(f, R)); fclose(f);
        f = fopen(path.c_str(), "rb"); setvbuf(f, nullptr, _IONBF, 0); same("an unbuffered file", IFF_readFd(f, R)); fclose(f);
        { string pre = genData(s, (size_t)s.range(1, 9)), p2 = path + "o"; putFile(p2, pre + b); f = fopen(p2.c_str(), "rb"); if(fseek(f, (long)pre.size(), SEEK_SET)) harnessf("fseek"); same("a file from its middle on", IFF_readFd(f, R)); fclose(f); unlink(p2.c_str()); }
        if(viaPipe) { f = pipeWith(b); same("a pipe", IFF_readFd(f, R)); fclose(f); }
        f = fopen(path.c_str(), "rb"); { IFF_Chunk *x = nullptr; withStdin(f, [&] { x = IFF_read(nullptr, R); }); same("standard input (file)", x); } fclose(f);
        if(viaPipe) { f = pipeWith(b); { IFF_Chunk *x = nullptr; withStdin(f, [&] { x = IFF_read(nullptr, R); }); same("standard input (pipe)", x); } fclose(f); }
        for(size_t gran : { viaPipe ? (size_t)1 : (size_t)4096, viaPipe ? (size_t)s.range(2, 7) : (size_t)s.range(1000, 70000) }) for(int buf = 0; buf < 3; buf++) { MemIn in; in.data = b; in.gran = gran; in.seekable = s.chance(1, 2); f = openIn(in, buf); same(strf("a stream delivering %zu bytes at a time (buffer kind %d, %s)", gran, buf, in.seekable ? "seekable" : "not seekable").c_str(), IFF_readFd(f, R)); fclose(f); }
        unlink(path.c_str()); REQUIRE(countFds() == fds, "reading leaves files open: %s", ctx.c_str());
        c.label(want == "failure" ? "sources: unreadable" : "sources: readable"); c.nontriv(hashBytes(b.data(), b.size(), ext)); c.desc = "read " + ctx;
        return;
    }
    GenOpts o; o.maxNodes = 25; o.maxData = 40; o.big = s.chance(1, 6); o.anyRoot = true; bool large = s.chance(1, 150); if(c.giant) large = true; Node n = c.giant ? genTree(s, o.extremes(c, 0)) : large ? genExtreme(s, 1) : ext ? genExtTree(s, o, r) : genTree(s, o); if(!ext && s.chance(1, 4)) mutateTree(s, n);
    if(ext) canonical(n, r);
    IFF_Chunk *x = ext ? buildExt(n, r, 0, reg) : build(n, &s); bool ok; string want = writeBytes(x, R, ok), got, ctx = show(n).substr(0, 600); REQUIRE(ok, "writing fails: %s", ctx.c_str());
    auto same = [&](const char *dst, bool st, const string &b, const string &w) { c.subEvals++; REQUIRE(st, "writing to %s fails: %s: %s", dst, ctx.c_str(), gMessages.c_str()); REQUIRE(b == w, "writing to %s stores other bytes: %s: %s", dst, firstDiff(b, w).c_str(), ctx.c_str()); };
    int fds = countFds(); FILE *f; string old = genData(s, (size_t)s.range(0, 3000));
    putFile(path, old); ok = IFF_writeFile(path.c_str(), x, R); getFile(path, got); same("an existing file", ok, got, want);
    unlink(path.c_str()); ok = IFF_write(path.c_str(), x, R); getFile(path, got); same("a new file", ok, got, want);
    { putFile(path, old); size_t at = s.below(old.size() + 1); f = fopen(path.c_str(), "r+b"); if(!f || fseek(f, (long)at, SEEK_SET)) harnessf("seek"); ok = IFF_writeFd(f, x, R); long pos = ftell(f); REQUIRE(pos == (long)(at + want.size()), "after writing to a file at position %zu the position is %ld instead of %zu: %s", at, pos, at + want.size(), ctx.c_str()); fclose(f); getFile(path, got); string w = old.substr(0, at) + want; if(w.size() < old.size()) w += old.substr(w.size()); same("a file at a position", ok, got, w); }
    { putFile(path, old); f = fopen(path.c_str(), "ab"); ok = IFF_writeFd(f, x, R) && IFF_writeFd(f, x, R); fclose(f); getFile(path, got); same("the end of a file, twice", ok, got, old + want + want); }
    { int p[2]; if(pipe(p)) harnessf("pipe"); f = fdopen(p[1], "wb"); if(s.chance(1, 2)) setvbuf(f, nullptr, _IONBF, 0); got.clear(); std::thread reader([&] { char b[4096]; ssize_t k; while((k = read(p[0], b, sizeof b)) > 0) got.append(b, (size_t)k); }); ok = IFF_writeFd(f, x, R); fclose(f); reader.join(); close(p[0]); same("a pipe", ok, got, want); }
    got = captureStdout([&] { ok = IFF_write(nullptr, x, R); }); same("standard output", ok, got, want);
    { f = fopen(path.c_str(), "wb"); FILE *so = stdout; stdout = f; ok = IFF_write(nullptr, x, R); stdout = so; getFile(path, got); same("standard output (before it is closed)", ok, got, want); fclose(f); }
    for(int buf = 0; buf < 3; buf++) { MemOut m; m.seekable = s.chance(1, 2); f = openOut(m, buf); ok = IFF_writeFd(f, x, R); fclose(f); same("a stream", ok, m.data, want); }
    unlink(path.c_str()); REQUIRE(countFds() == fds, "writing leaves files open: %s", ctx.c_str());
    if(!ext) { string d = diffChunk(x, n, nullptr); REQUIRE(d.empty(), "writing changed the hierarchy: %s", d.c_str()); }
    IFF_free(x, R); c.label(ext ? "destinations: with a registry" : "destinations: built-in types"); c.nontriv(hashNode(n) + 1); c.desc = "write " + ctx.substr(0, 300);
}

// ---------------------------------------------------------------- C23
static void caseC23(Src &s, Ctx &c)
{
    genLayouts(s); bool ext = s.chance(1, 3); RegSpec r; if(ext) r = genRegistry(s);
    Registry reg(r); const IFF_ChunkRegistry *R = ext ? &reg.reg : nullptr;
    vector<IFF_Chunk *> held; string log; int fds = countFds(), ops = (int)s.range(2, s.chance(1, 8) ? 40 : 10); string dir = c.scratch; int files = 0; vector<string> names;
    GenOpts o; o.maxNodes = 14; o.maxData = 30; o.anyRoot = true;
    auto tree = [&] { return ext ? genExtTree(s, o, r) : genTree(s, o); };
    auto balance = [&](size_t live, const char *what) { REQUIRE(libLive() == live, "%s leaves %zd allocations%s; history: %s", what, (ssize_t)(libLive() - live), libLiveDesc().c_str(), log.c_str()); };
    auto resize = [&](IFF_Chunk *x) { if(!s.chance(1, 4)) return; vector<IFF_Chunk *> all; libNodes(x, all); for(auto y : all) if(isGroupId(y->chunkId) && s.chance(1, 3)) y->chunkSize = s.chance(1, 2) ? 0 : s.chance(1, 2) ? 4 : (IFF_Long)s.u32(); log += "(other sizes) "; }; // what was allocated does not depend on the size of a group
    auto openFiles = [&](const char *what) { int now = countFds(); REQUIRE(now == fds, "after %s %d more files are open; history: %s", what, now - fds, log.c_str()); };
    for(int i = 0; i < ops; i++)
    {
        size_t live = libLive(); unsigned k = (unsigned)s.below(14); string f = dir + strf("/c23-%d", files); IFF_Chunk *h = held.empty() ? nullptr : held[s.below(held.size())];
        switch(k)
        {
            case 0: case 1: // named file, good or bad
            {
                string how = "well-formed", b = s.chance(1, 2) ? encode(tree()) : hostileBytes(s, ext ? &r : nullptr, &how); if(s.chance(1, 3)) { b.resize(s.below(b.size() + 1)); how = "cut off"; }
                putFile(f, b); names.push_back(f); files++; IFF_Chunk *x = s.chance(1, 2) ? IFF_read(f.c_str(), R) : IFF_readFile(f.c_str(), R); log += "read " + how + (x ? " file; " : " file (fails); ");
                if(x) held.push_back(x); else balance(live, "a failing read");
                openFiles("reading a named file"); break;
            }
            case 2: // stream of the caller
            {
                if(s.chance(1, 4)) // reading fails with an error
                {
                    if(ext && s.chance(1, 2)) // a chunk type of the application refuses a chunk
                    {
                        Node n = tree(); MemIn in; in.data = encode(n); FILE *fp = openIn(in, (int)s.below(3)); gExtReadFails = (int)s.range(1, s.chance(1, 2) ? 2 : 8); IFF_Chunk *x = IFF_readFd(fp, R); bool failed = gExtReadFails == 0; gExtReadFails = 0; fclose(fp); c.subEvals++;
                        REQUIRE(!x == failed, "reading %s %s although a chunk type of the application %s; registry %s; history: %s", show(n).c_str(), x ? "succeeds" : "fails", failed ? "failed" : "did not fail", r.show().c_str(), log.c_str());
                        if(x) { held.push_back(x); log += "read stream; "; break; }
                        log += "read " + show(n).substr(0, 300) + " (a chunk type fails); "; c.label("failing chunk types of the application");
                    }
                    else if(s.chance(1, 3))
                    {
                        FILE *fp = fopen(f.c_str(), "wb"); if(!fp) harnessf("fopen"); names.push_back(f); files++; int fd = fileno(fp); IFF_Chunk *x = IFF_readFd(fp, R); REQUIRE(!x, "a stream that cannot be read is read; history: %s", log.c_str()); log += "read write-only stream (fails); ";
                        REQUIRE(fileno(fp) == fd && fcntl(fd, F_GETFD) >= 0 && countFds() == fds + 1, "failing to read closes the caller's stream; history: %s", log.c_str()); clearerr(fp); string got; REQUIRE(fputs("still mine", fp) >= 0 && fclose(fp) == 0 && getFile(f, got) && got == "still mine", "the caller's stream is unusable after a failing read; history: %s", log.c_str());
                    }
                    else
                    {
                        MemIn in; static const size_t bigs[] = { 3, 600, 4097, 16385, 20000, 70001, 200001 }; Node n = tree(); if(!ext) { vector<Node *> all; allNodes(n, all); vector<Node *> d; for(auto x : all) if(!x->group) d.push_back(x); if(!d.empty()) { d[s.below(d.size())]->data.assign(bigs[s.below(7)], 'v'); fixSizes(n); } }
                        in.data = encode(n); in.errorAt = (int64_t)s.below(in.data.size()); in.gran = s.chance(1, 2) ? 0 : (size_t)s.range(1, 5000); in.seekable = s.chance(1, 2); FILE *fp = openIn(in, (int)s.below(3)); IFF_Chunk *x; if(s.chance(1, 2)) x = IFF_readFd(fp, R); else { x = nullptr; withStdin(fp, [&] { x = IFF_read(nullptr, R); }); }
                        REQUIRE(!x, "a stream with an error is read; history: %s", log.c_str()); log += "read stream with an error (fails); "; REQUIRE(!in.closed, "failing to read closes the caller's stream; history: %s", log.c_str()); fclose(fp);
                    }
                    balance(live, "a read error"); openFiles("a read error"); break;
                }
                string b = s.chance(1, 2) ? encode(tree()) : hostileBytes(s, ext ? &r : nullptr); putFile(f, b); names.push_back(f); files++;
                FILE *fp = fopen(f.c_str(), "rb"); int fd = fileno(fp); IFF_Chunk *x; if(s.chance(1, 2)) x = IFF_readFd(fp, R); else { x = nullptr; withStdin(fp, [&] { x = IFF_read(nullptr, R); }); }
                log += x ? "read stream; " : "read stream (fails); ";
                REQUIRE(fcntl(fd, F_GETFD) >= 0 && countFds() == fds + 1, "reading from a stream of the caller closes it; history: %s", log.c_str());
                rewind(fp); int ch = fgetc(fp); REQUIRE(b.empty() ? ch == EOF : ch == (unsigned char)b[0], "a stream of the caller is unusable after reading; history: %s", log.c_str());
                REQUIRE(fclose(fp) == 0, "closing the caller's stream fails");
                if(x) held.push_back(x); else balance(live, "a failing read");
                openFiles("closing the caller's stream"); break;
            }
            case 3: { IFF_Chunk *x; if(ext) { Node n = tree(); x = buildExt(n, r, 0, reg); } else x = build(tree(), &s); held.push_back(x); log += "build; "; break; }
            case 4: // writing to files
            {
                if(!h) break;
                unsigned w = (unsigned)s.below(4); string t = w == 0 ? f : w == 1 ? dir : w == 2 ? dir + "/no/file" : "/dev/full"; if(w == 0) { names.push_back(f); files++; }
                int64_t most = 0; vector<IFF_Chunk *> all; libNodes(h, all); for(auto y : all) most = std::max<int64_t>(most, y->chunkSize); if(most > 1000000) break;
                bool ok = s.chance(1, 2) ? IFF_write(t.c_str(), h, R) : IFF_writeFile(t.c_str(), h, R); log += strf("write file (%u)%s; ", w, ok ? "" : " (fails)"); REQUIRE(ok == (w == 0), "writing to %s %s", t.c_str(), ok ? "succeeds" : "fails"); balance(live, "writing"); openFiles("writing a named file"); break;
            }
            case 5: // writing to the caller's stream
            {
                if(!h) break;
                int64_t most = 0; vector<IFF_Chunk *> all; libNodes(h, all); for(auto y : all) most = std::max<int64_t>(most, y->chunkSize); if(most > 1000000) break;
                MemOut m; bool bad = s.chance(1, 2); if(bad) m.failAt = (int64_t)s.below(20); FILE *fp = openOut(m, 1); bool ok; if(s.chance(1, 2)) ok = IFF_writeFd(fp, h, R); else { FILE *so = stdout; stdout = fp; ok = IFF_write(nullptr, h, R); stdout = so; }
                log += ok ? "write stream; " : "write stream (fails); "; REQUIRE(!m.closed, "writing closes the caller's stream; history: %s", log.c_str()); fclose(fp); balance(live, "writing"); break;
            }
            case 6: if(!h) break; { IFF_check(h, R); IFF_compare(h, held[s.below(held.size())], R); captureStdout([&] { IFF_print(h, 1, R); }); log += "check, compare, print; "; balance(live, "checking, comparing and printing"); break; }
            case 7: if(!h) break; { unsigned n; IFF_Form **q = IFF_searchForms(h, genFormType(s), &n); vpw_free(q); IFF_ID t[3] = { genFormType(s), mk("TEST"), mk("ILBM") }; q = IFF_searchFormsFromArray(h, t, 3, &n); for(unsigned j = 0; j < n && j < 3; j++) { unsigned l; vpw_free(IFF_getChunksFromForm(q[j], mk("HELO"), &l)); IFF_getChunkFromForm(q[j], mk("BYE ")); } vpw_free(q); log += "search; "; balance(live, "searching"); break; }
            case 8: if(!h) break; { held.erase(std::find(held.begin(), held.end(), h)); resize(h); IFF_free(h, R); log += "free; "; break; }
            case 9: // text data set again and again
            {
                IFF_RawChunk *x = (IFF_RawChunk *)IFF_createRawChunk(M_TEXT, (IFF_Long)s.below(20)); if(x->chunkSize) memset(x->chunkData, 'x', (size_t)x->chunkSize); size_t n = s.below(5);
                for(size_t j = 0; j < n; j++) { string t; size_t l = s.below(20); for(size_t q = 0; q < l; q++) t += (char)s.range(1, 255); IFF_setTextData(x, t.c_str()); }
                REQUIRE(libLive() == live + 2, "a data chunk whose text was set %zu times takes %zd allocations instead of 2; history: %s", n, (ssize_t)(libLive() - live), log.c_str());
                IFF_freeChunk((IFF_Chunk *)x, 0, &IFF_defaultChunkRegistry); balance(live, "freeing a text chunk"); log += "text chunk; "; break;
            }
            case 10: // empty groups of each kind
            {
                IFF_Chunk *g[] = { (IFF_Chunk *)IFF_createEmptyForm(mk("TEST")), (IFF_Chunk *)IFF_createEmptyCAT(), (IFF_Chunk *)IFF_createEmptyList(), (IFF_Chunk *)IFF_createEmptyProp(mk("TEST")), (IFF_Chunk *)IFF_createCAT(4, M_JJJJ), IFF_createUnparsedForm(M_FORM, 4), IFF_createUnparsedCAT(M_CAT, 4), IFF_createUnparsedList(M_LIST, 4), IFF_createUnparsedProp(M_PROP, 4), (IFF_Chunk *)IFF_createProp(4, mk("TEST")) };
                for(auto x : g) IFF_free(x, nullptr);
                balance(live, "creating and freeing empty groups"); log += "empty groups; "; break;
            }
            case 11: case 12: // the joiner
            {
                if(ext) break;
                vector<string> in; size_t n = (size_t)s.range(1, 4); for(size_t j = 0; j < n; j++) { string p = dir + strf("/c23-%d", files++), b = s.chance(4, 5) ? encode(genTree(s, { 3, 3, 8, 10, false, false })) : hostileBytes(s, nullptr); names.push_back(p); if(!s.chance(1, 15)) putFile(p, b); in.push_back(p); }
                                string out = s.chance(1, 4) ? dir + "/no/file" : dir + strf("/c23-%d", files++); names.push_back(out); bool so = s.chance(1, 4);
                if(!so) { in.insert(in.begin(), out); in.insert(in.begin(), "-o"); }
                ToolRun t = runTool(true, in, nullptr); log += strf("join %zu files (%d); ", n, t.status); if(!t.exited) { balance(live, "joining"); openFiles("joining"); } break;
            }
            default: // the pretty printer
            {
                if(ext) break;
                putFile(f, s.chance(1, 2) ? encode(genTree(s, o)) : hostileBytes(s, nullptr)); names.push_back(f); files++; vector<string> a; if(s.chance(1, 2)) a.push_back("-c"); a.push_back(s.chance(1, 6) ? dir + "/none" : f);
                ToolRun t = runTool(false, a, nullptr); log += strf("pretty print (%d); ", t.status); if(!t.exited) { balance(live, "pretty printing"); openFiles("pretty printing"); } break;
            }
        }
        c.subEvals++;
    }
    for(auto h : held) { resize(h); IFF_free(h, R); }
    for(auto &f : names) unlink(f.c_str());
    REQUIRE(libLive() == 0, "after freeing everything %zu allocations remain%s; history: %s", libLive(), libLiveDesc().c_str(), log.c_str());
    openFiles("everything");
    c.label(ext ? "with a registry" : "built-in types");
    if(ops >= 3) { c.nontriv(hashBytes(log.data(), log.size(), libAllocCount())); c.desc = log.substr(0, 400); }
}

// ---------------------------------------------------------------- C24
struct Live
{
    Node n; IFF_Chunk *p; bool ext; std::shared_ptr<RegSpec> r; std::shared_ptr<Registry> reg; map<string, string> memo; string bytes;
    const IFF_ChunkRegistry *R() const { return ext ? &reg->reg : nullptr; }
};
struct Part { IFF_Chunk *p; uint32_t scope; };
static void parts(IFF_Chunk *p, uint32_t scope, vector<Part> &v)
{
    v.push_back({ p, scope }); if(!isGroupId(p->chunkId)) return;
    IFF_Group *g = (IFF_Group *)p; if(p->chunkId == M_LIST) { IFF_List *l = (IFF_List *)p; for(unsigned i = 0; i < l->propLength; i++) parts((IFF_Chunk *)l->prop[i], g->groupType, v); }
    for(unsigned i = 0; i < g->chunkLength; i++) parts(g->chunk[i], g->groupType, v);
}
static string resultOf(Src *, Live &l, const string &op, uint32_t a, uint32_t b)
{
    string out; bool ok;
    if(op == "write") return writeBytes(l.p, l.R(), ok) + (ok ? "+" : "-");
    if(op == "print") return captureStdout([&] { IFF_print(l.p, a % 4, l.R()); });
    if(op == "check") { messagesClear(); bool v = IFF_check(l.p, l.R()); return (v ? "valid: " : "invalid: ") + gMessages; }
    if(op == "part") // one chunk of the hierarchy, in the scope of its group
    {
        vector<Part> v; parts(l.p, 0, v); Part q = v[(a >> 8) % v.size()]; const IFF_ChunkRegistry *R = l.ext ? l.R() : &IFF_defaultChunkRegistry;
        MemOut m; FILE *f = openOut(m); ok = IFF_writeChunk(f, q.p, q.scope, R); fclose(f); string r = m.data + (ok ? "+" : "-"); messagesClear();
        if(a & 1) r += IFF_checkChunk(q.p, q.scope, R) ? "valid" : "invalid: " + gMessages;
        if(a & 2) r += captureStdout([&] { IFF_printChunk(q.p, 0, q.scope, R); });
        if(a & 4) r += IFF_compareChunk(q.p, q.p, q.scope, R) ? "equal" : "different";
        if(l.ext) { vector<uint32_t> sc = { 0, q.scope }; for(auto &fm : l.r->forms) sc.push_back(fm.first); uint32_t id = q.p->chunkId, look = sc[(a >> 16) % sc.size()]; int k = l.r->resolve(look, id); const IFF_ChunkType *t = IFF_findChunkType(R, look, id); if(k >= 0) REQUIRE(t && t->createExtensionChunk == handlerType(k, id).createExtensionChunk, "chunk '%s' in scope '%s' is handled by another type than the one registered (%s)", idStr(id).c_str(), idStr(look).c_str(), l.r->show().c_str()); }
        return r;
    }
    vector<IFF_Chunk *> lib; if(!l.ext) libNodes(l.p, lib);
    map<const void *, size_t> at; for(size_t i = 0; i < lib.size(); i++) at[lib[i]] = i;
    if(op == "search") { IFF_ID t[2] = { a, b }; unsigned k = 77; IFF_Form **f = IFF_searchFormsFromArray(l.p, t, 2, &k); string r = strf("%u:", k); for(unsigned i = 0; i < k; i++) r += at.count(f[i]) ? strf(" %zu", at[f[i]]) : string(" ?"); vpw_free(f); return r; }
    if(op == "query") { string r; for(auto x : lib) if(x->chunkId == M_FORM) { IFF_Chunk *q = IFF_getChunkFromForm((IFF_Form *)x, a); r += q ? at.count(q) ? strf("%zu ", at[q]) : string("? ") : "- "; unsigned k; IFF_Chunk **qs = IFF_getChunksFromForm((IFF_Form *)x, b, &k); r += strf("%u ", k); vpw_free(qs); } return r; }
    if(op == "reread") { bool o2; string w = writeBytes(l.p, l.R(), o2); IFF_Chunk *q = readBytes(w, l.R()); if(!q) return "unreadable"; bool e = IFF_compare(l.p, q, l.R()); IFF_free(q, l.R()); return e ? "equal" : "different"; }
    return "";
}
// the same thing very often: neither counters nor tables inside the library fill up
static void endurance(Src &s, Ctx &c)
{
    static const size_t many[] = { 300, 5000, 33000, 66000, 140000, 270000 }; size_t k = many[s.below(6)]; unsigned what = (unsigned)s.below(9); static const char *nm[] = { "failing reads of a data chunk", "failing reads in a group", "failing checks", "reads", "writes", "comparisons", "searches", "prints", "failing reads of named files" };
    Node small; small.id = M_FORM; small.group = true; small.type = mk("TEST"); Node d; d.id = mk("BODY"); d.data = "abc"; small.kids.push_back(d); d.id = M_TEXT; small.kids.push_back(d); fixSizes(small); string b = encode(small); bool ok; Node wrong = small; wrong.size += 2; if(what >= 7) k = std::min<size_t>(k, 70000);
    IFF_Chunk *p = build(small), *q = build(wrong); string cut = what == 0 ? string("BODY\0\0\0\4ab", 10) : b.substr(0, b.size() - 1); c.desc = strf("%zu %s", k, nm[what]); c.nontriv(k * 16 + what);
    MemIn in; in.data = what == 3 ? b : cut; FILE *f = openIn(in), *none = fopen("/dev/null", "wb"), *so = stdout; if(!none) harnessf("/dev/null");
    string printed = captureStdout([&] { IFF_print(p, 1, nullptr); });
    for(size_t i = 0; i < k; i++)
    {
        if((i & 1023) == 0) messagesClear();
        switch(what)
        {
            case 0: case 1: case 3: { rewind(f); IFF_Chunk *x = IFF_readChunk(f, 0, &IFF_defaultChunkRegistry); REQUIRE(!x == (what != 3), "operation %zu of %zu %s gives another result than before: %s", i, k, nm[what], gMessages.c_str()); if(x) freeTree(x); break; }
            case 2: REQUIRE(!IFF_check(q, nullptr), "check %zu of %zu accepts", i, k); break;
            case 4: REQUIRE(IFF_writeFd(none, p, nullptr), "write %zu of %zu fails", i, k); break;
            case 5: REQUIRE(IFF_compare(p, p, nullptr) && !IFF_compare(p, q, nullptr), "comparison %zu of %zu is wrong", i, k); break;
            case 6: { unsigned l; IFF_Form **r = IFF_searchForms(p, mk("TEST"), &l); REQUIRE(l == 1 && r[0] == (IFF_Form *)p, "search %zu of %zu is wrong", i, k); vpw_free(r); break; }
            case 7: stdout = none; IFF_print(p, 0, nullptr); stdout = so; break;
            default: REQUIRE(!IFF_readFile("/nonexistent/file", nullptr), "a missing file is read");
        }
    }
    fclose(f); fclose(none); REQUIRE(captureStdout([&] { IFF_print(p, 1, nullptr); }) == printed, "after %zu %s printing gives something else", k, nm[what]); messagesClear(); IFF_Chunk *x = readBytes(b, nullptr); REQUIRE(x && gMessageCount == 0 && IFF_check(x, nullptr) && IFF_compare(x, p, nullptr) && writeBytes(x, nullptr, ok) == b, "after %zu %s reading or using another hierarchy goes wrong: %s", k, nm[what], gMessages.c_str());
    unsigned l; vpw_free(IFF_searchForms(x, mk("TEST"), &l)); REQUIRE(l == 1, "after %zu %s a search is wrong", k, nm[what]); REQUIRE(parsePrinted(captureStdout([&] { IFF_print(x, 0, nullptr); }), 0).kids.size() == 2, "after %zu %s printing is wrong", k, nm[what]);
    freeTree(x); freeTree(p); freeTree(q); c.subEvals += k; c.label("the same thing very often");
}
static vector<vector<uint8_t>> fixedC24(bool) { vector<vector<uint8_t>> v; for(uint8_t w = 0; w < 9; w++) v.push_back({ 0xe7, 0x5c, 0xa3, 5, w }); return v; }
static void caseC24(Src &s, Ctx &c)
{
    if(s.byte() == 0xe7 && s.byte() == 0x5c && s.byte() == 0xa3) { endurance(s, c); return; }
    genLayouts(s); vector<std::unique_ptr<Live>> all; int ops = (int)s.range(6, s.chance(1, 8) ? 80 : 25); string log; size_t repeats = 0;
    auto intact = [&](const char *after) { for(auto &l : all) { string d = l->ext ? "" : diffChunk(l->p, l->n, nullptr); REQUIRE(d.empty(), "%s changed another hierarchy or its own: %s; history: %s", after, d.c_str(), log.c_str()); } };
    // operations do not touch what they are not asked to change: a member whose parent is an equal copy of its group keeps that link
    auto viewed = [&](Live &l) {
        if(l.ext) return;
        vector<IFF_Chunk *> lib; libNodes(l.p, lib); IFF_Chunk *m = lib[s.below(lib.size())]; if(!m->parent) return;
        union { IFF_Form f; IFF_CAT c; IFF_List l; IFF_Prop p; IFF_Group g; } copy; IFF_Group *real = m->parent;
        switch(real->chunkId) { case M_FORM: copy.f = *(IFF_Form *)real; break; case M_CAT: copy.c = *(IFF_CAT *)real; break; case M_LIST: copy.l = *(IFF_List *)real; break; case M_PROP: copy.p = *(IFF_Prop *)real; break; default: return; }
        m->parent = &copy.g; unsigned w = (unsigned)s.below(6); bool ok; static const char *nm[] = { "checking", "printing", "writing", "comparing", "searching", "looking up shared properties" }; if(m->chunkId == M_PROP && s.chance(1, 2)) w = 5;
        switch(w) { case 0: IFF_check(l.p, nullptr); break; case 1: captureStdout([&] { IFF_print(l.p, 0, nullptr); }); break; case 2: writeBytes(l.p, nullptr, ok); break; case 3: IFF_compare(l.p, l.p, nullptr); break; case 4: { unsigned k; vpw_free(IFF_searchForms(l.p, mk("TEST"), &k)); break; }
            default:
            {
                for(auto y : lib) if(y->chunkId == M_FORM) { IFF_getChunkFromForm((IFF_Form *)y, mk("NOPE")); unsigned k; vpw_free(IFF_getChunksFromForm((IFF_Form *)y, mk("TEXT"), &k)); }
                if(m->chunkId == M_PROP && real->chunkId == M_LIST) { IFF_Form seen; memset(&seen, 0, sizeof seen); seen.chunkId = M_FORM; seen.chunkSize = 4; seen.formType = ((IFF_Prop *)m)->formType; seen.parent = real; IFF_getChunkFromForm(&seen, mk("NAME")); IFF_getPropFromList((IFF_List *)real, seen.formType); }
            } }
        REQUIRE(m->parent == &copy.g, "%s changes the parent link of a member in %s", nm[w], show(l.n).c_str()); m->parent = real; c.subEvals++; };
    auto create = [&] {
        auto l = std::unique_ptr<Live>(new Live()); GenOpts o; o.maxNodes = 14; o.maxData = 16; o.maxDepth = 4; o.extremes(c, 1500, 0); l->ext = s.chance(1, 3);
        if(l->ext)
        {
            Live *twin = nullptr; for(auto &q : all) if(q->ext && s.chance(2, 3)) twin = q.get();
            if(twin) // the same chunks in a registry of the same shape whose handlers differ
            {
                RegSpec r = *twin->r; auto other = [&](Chain &ch) { for(auto &nd : ch) for(auto &e : nd) if(isGroupId(e.id)) { if(s.chance(1, 2)) e.handler = H_WRAP + (int)s.below(2); } else if(s.chance(3, 4)) e.handler = (int)((unsigned)e.handler + 1 + s.below(NHANDLERS - 1)) % NHANDLERS; };
                for(auto &fm : r.forms) other(fm.second);
                other(r.global); if(s.chance(1, 3)) r.customDefault = !r.customDefault;
                if(s.chance(1, 4) && r.forms.size() > 1) std::swap(r.forms[0].second, r.forms[1].second);
                l->r = std::make_shared<RegSpec>(r); l->n = s.chance(2, 3) ? twin->n : genExtTree(s, o, *l->r); c.label("registries of the same shape");
            }
            else { l->r = std::make_shared<RegSpec>(genRegistry(s)); l->n = genExtTree(s, o, *l->r); }
            l->reg = std::make_shared<Registry>(*l->r); canonical(l->n, *l->r); l->p = s.chance(1, 2) ? buildExt(l->n, *l->r, 0, *l->reg) : readBytes(encode(l->n), l->R()); }
        else { l->n = genTree(s, o); if(s.chance(1, 4)) mutateTree(s, l->n); bool rd = s.chance(1, 2) && refValid(l->n); l->p = rd ? readBytes(encode(l->n), nullptr) : build(l->n, &s); }
        REQUIRE(l->p, "reading fails: %s", show(l->n).c_str()); log += strf("new #%zu; ", all.size()); all.push_back(std::move(l)); };
    create(); create();
    static const char *kinds[] = { "write", "print", "check", "search", "query", "reread", "part" };
    for(int i = 0; i < ops; i++)
    {
        unsigned k = (unsigned)s.below(12); Live &l = *all[s.below(all.size())]; string what;
        if(k < 8)
        {
            string op = kinds[s.below(7)]; uint32_t a = s.chance(1, 2) ? mk("TEST") : mk("HELO"), b = s.chance(1, 2) ? mk("ILBM") : mk("BYE ");
            if(l.ext && (op == "search" || op == "query")) op = s.chance(1, 2) ? "part" : "write";
            if(op == "part") { a = s.u32() & 0x30307; }
            what = op; string key = op + strf("%x %x", a, b), res = resultOf(&s, l, op, a, b); c.subEvals++;
            auto m = l.memo.find(key); size_t idx = 0; for(size_t j = 0; j < all.size(); j++) if(all[j].get() == &l) idx = j;
            log += op + strf(" #%zu; ", idx);
            if(m != l.memo.end()) { repeats++; REQUIRE(m->second == res, "%s of hierarchy #%zu gives another result than before: %s; history: %s; hierarchy %s", op.c_str(), idx, firstDiff(res, m->second).c_str(), log.c_str(), show(l.n).c_str()); }
            else l.memo[key] = res;
        }
        else if(k == 8) { Live &m = *all[s.below(all.size())]; what = "compare"; log += "compare; "; if(!l.ext && !m.ext) { bool e = IFF_compare(l.p, m.p, nullptr), w = sameNode(l.n, m.n); c.subEvals++; REQUIRE(e == w, "comparing gives %d, expected %d; history: %s", e, w, log.c_str());
            for(int again = 0; again < 4; again++) {
            Node near = l.n; for(int t = (int)s.range(1, 2); t > 0; t--) changeOne(s, near, false); // almost the same
            IFF_Chunk *q = build(near, &s); w = sameNode(l.n, near); bool e1 = IFF_compare(l.p, q, nullptr), e2 = IFF_compare(q, l.p, nullptr), e3 = IFF_compare(l.p, q, nullptr); c.subEvals += 3;
            REQUIRE(e1 == w && e2 == w && e3 == w, "comparing %s with %s gives %d, %d, %d, expected %d", show(l.n).c_str(), show(near).c_str(), e1, e2, e3, w);
            string d = diffChunk(q, near, nullptr); REQUIRE(d.empty(), "comparing changes a hierarchy: %s", d.c_str()); freeTree(q); } } }
        else if(k == 9) { string b = hostileBytes(s, nullptr); IFF_Chunk *x = readBytes(b, nullptr); what = "reading something else"; log += x ? "read junk; " : "fail to read junk; "; if(x) { IFF_check(x, nullptr); freeTree(x); } }
        else if(k == 10) { if(all.size() < 6) create(); what = "creating another hierarchy"; }
        else // an edit of one hierarchy
        {
            if(!l.ext)
            {
                vector<IFF_Chunk *> lib; libNodes(l.p, lib); vector<Node *> mod; allNodes(l.n, mod); vector<size_t> g; for(size_t j = 0; j < mod.size(); j++) if(mod[j]->group) g.push_back(j);
                if(s.chance(1, 2)) // in place: an ID, a type or data, right between two checks
                {
                    size_t j = s.below(mod.size()); bool before = refValid(l.n); bool v = IFF_check(l.p, nullptr); REQUIRE(v == before, "the check %s %s; history: %s", v ? "accepts" : "rejects", show(l.n).c_str(), log.c_str());
                    if(mod[j]->group) { static const uint32_t ty[] = { M_JJJJ, 0x54455354, 0x494c424d, 0x61626364, 1 }; mod[j]->type = ((IFF_Group *)lib[j])->groupType = ty[s.below(5)]; }
                    else if(s.chance(1, 2)) { static const uint32_t ids[] = { 0x48454c4f, 0x42594520, 1, 0x20414243, 0x4142437f }; mod[j]->id = lib[j]->chunkId = ids[s.below(5)]; }
                    else if(!mod[j]->data.empty()) { size_t at = s.below(mod[j]->data.size()); ((IFF_RawChunk *)lib[j])->chunkData[at] ^= 0x41; mod[j]->data[at] = (char)(mod[j]->data[at] ^ 0x41); }
                    bool after = refValid(l.n); v = IFF_check(l.p, nullptr); REQUIRE(v == after, "the check %s %s after it was changed (valid before: %d); history: %s", v ? "accepts" : "rejects", show(l.n).c_str(), before, log.c_str());
                    l.memo.clear(); log += "edit in place; "; c.subEvals += 2;
                }
                else if(!g.empty()) { size_t j = g[s.below(g.size())]; Node d; d.id = mk("HELO"); d.data = genData(s, s.below(6)); d.size = (int32_t)d.data.size(); IFF_addToGroup((IFF_Group *)lib[j], build(d, &s)); mod[j]->kids.push_back(d); IFF_updateChunkSizes(lib[j]); l.n = snapshot(l.p); l.memo.clear(); log += "edit; "; }
            }
            else if(all.size() > 2 && s.chance(1, 2)) { IFF_free(l.p, l.R()); for(size_t j = 0; j < all.size(); j++) if(all[j].get() == &l) { all.erase(all.begin() + (long)j); break; } log += "free one; "; }
            what = "editing or freeing another hierarchy";
        }
        intact(what.c_str());
        if(s.chance(1, 6)) viewed(*all[s.below(all.size())]);
    }
    // finally every remembered result once more
    for(auto &l : all) for(auto &m : l->memo)
    {
        for(const char *op : kinds) if(m.first.compare(0, strlen(op), op) == 0) { unsigned a, b; if(sscanf(m.first.c_str() + strlen(op), "%x %x", &a, &b) != 2) harnessf("key"); string res = resultOf(&s, *l, op, a, b); c.subEvals++; repeats++; REQUIRE(res == m.second, "%s gives another result at the end: %s; history: %s; hierarchy %s", op, firstDiff(res, m.second).c_str(), log.c_str(), show(l->n).c_str()); }
    }
    for(auto &l : all) IFF_free(l->p, l->R());
    REQUIRE(libLive() == 0, "%zu allocations remain; history: %s", libLive(), log.c_str());
    c.count("repeated operations", repeats); c.label(strf("%zu hierarchies", all.size()));
    if(repeats >= 2) { c.nontriv(hashBytes(log.data(), log.size(), repeats)); c.desc = log.substr(0, 400); }
}

static RegProp r21({ "C21", "exploration",
    "Fifteen kinds of cases (one: every reading and writing building block on a failing stream) with both standard streams captured: all operations on well-formed data (no message at all), arbitrary bytes and broken hierarchies (a message exactly if something failed), single size mismatches, misplaced chunks, reserved form types, groups that end before their members, skipped bytes, cut-off data (message must contain ID, declared and actual numbers), unusable files and devices, single chunks read until the stream ends, tolerated oddities (trailing bytes, non-zero pad bytes), messages of an application's own, the same problem up to 1100 times in a row, streams that end while bytes are skipped, and the initial callback (same text on standard error). Non-trivial: every case in which something was provoked; distinct by content.",
    caseC21, 60000, 1500000, 300000, nullptr, { "messages are judged by the IDs and numbers they contain, not by their wording" } }, GIANT_WIDE | GIANT_DEEP | GIANT_ODD);
static RegProp r22({ "C22", "exploration",
    "Well-formed, cut-off, extended and hostile bytes, with and without registry, read from memory, two kinds of named files, open files (buffered, unbuffered, from the middle), pipes, standard input (file, pipe) and streams delivering 1-7 bytes at a time, seekable or not; outcomes (printed text, bytes written again, verdict) must be the same. Random hierarchies are written to new and existing files, at positions, appended, to pipes, standard output and streams; stored bytes must be the same. Non-trivial: every case; distinct by content.",
    caseC22, 12000, 250000, 0, nullptr, { "pipes that are read hold at most 60000 bytes" } }, 8 | 16 | GIANT_ODD);
static RegProp r23({ "C23", "exploration",
    "Random histories of 2-40 operations (reading good and bad files and streams (ending early, failing, not readable at all, refused by a chunk type of the application), building, writing to good and bad destinations, checking, comparing, printing, searching, querying, setting text, joining, pretty printing, freeing); the number of live library allocations is compared after every operation that should not change it and must be zero at the end, double frees and use after free are caught by AddressSanitizer; open descriptors are counted after every named file, and streams of the caller must stay open and usable. Non-trivial: at least three operations; distinct by history.",
    caseC23, 30000, 600000, 0, nullptr, { "the library allocates through malloc, calloc, realloc and free" } });
static RegProp r24({ "C24", "exploration",
    "Histories of 6-80 operations over up to six hierarchies with their own registries: writing, printing, checking (with messages), searching, querying, re-reading, comparing, failing reads, edits (also in place between two checks) and frees (nine enumerated cases repeat a single operation 70000 to 270000 times); every hierarchy is compared with its model after every operation and every repeated operation must give the result it gave before, with a complete repetition at the end. Non-trivial: at least two repetitions; distinct by history.",
    caseC24, 20000, 500000, 100000, fixedC24, { "operations are called from one thread" } }, GIANT_ODD | GIANT_WIDE);
