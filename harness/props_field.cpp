// C13 fields against a chunk's size, C14 primitive values and padding
#include "ext.h"
#include "robust.h"
#include <cstring>
#include <climits>
using std::string; using std::vector;

static string be(uint32_t v, int n) { string r; for(int i = n - 1; i >= 0; i--) r += (char)(v >> (8 * i)); return r; }
static uint32_t mask(FieldKind k) { int z = fieldSize(k); return z == 4 ? 0xffffffffu : (1u << (8 * z)) - 1; }
static const char *kindName[] = { "UByte", "UWord", "Word", "ULong", "Long", "Id" };

// uniform access to the typed functions; values as raw bit patterns
static IFF_FieldStatus readField(FieldKind k, FILE *f, uint32_t &v, const IFF_Chunk *c, IFF_Long *bp)
{
    IFF_UByte b = (IFF_UByte)v; IFF_UWord w = (IFF_UWord)v; IFF_Word sw = (IFF_Word)v; IFF_ULong l = v; IFF_Long sl = (IFF_Long)v; IFF_ID id = v; IFF_FieldStatus st;
    switch(k)
    {
        case F_UB: st = IFF_readUByteField(f, &b, c, "attr", bp); v = b; break;
        case F_UW: st = IFF_readUWordField(f, &w, c, "attr", bp); v = w; break;
        case F_W: st = IFF_readWordField(f, &sw, c, "attr", bp); v = (uint16_t)sw; break;
        case F_UL: st = IFF_readULongField(f, &l, c, "attr", bp); v = l; break;
        case F_L: st = IFF_readLongField(f, &sl, c, "attr", bp); v = (uint32_t)sl; break;
        default: st = IFF_readIdField(f, &id, c, "attr", bp); v = id;
    }
    return st;
}
static IFF_FieldStatus writeField(FieldKind k, FILE *f, uint32_t v, const IFF_Chunk *c, IFF_Long *bp)
{
    switch(k)
    {
        case F_UB: return IFF_writeUByteField(f, (IFF_UByte)v, c, "attr", bp);
        case F_UW: return IFF_writeUWordField(f, (IFF_UWord)v, c, "attr", bp);
        case F_W: return IFF_writeWordField(f, (IFF_Word)v, c, "attr", bp);
        case F_UL: return IFF_writeULongField(f, v, c, "attr", bp);
        case F_L: return IFF_writeLongField(f, (IFF_Long)v, c, "attr", bp);
        default: return IFF_writeIdField(f, v, c, "attr", bp);
    }
}
static bool readPlain(FieldKind k, FILE *f, uint32_t &v, uint32_t id, const char *attr)
{
    IFF_UByte b = (IFF_UByte)v; IFF_UWord w = (IFF_UWord)v; IFF_Word sw = (IFF_Word)v; IFF_ULong l = v; IFF_Long sl = (IFF_Long)v; IFF_ID x = v; bool ok;
    switch(k)
    {
        case F_UB: ok = IFF_readUByte(f, &b, id, attr); v = b; break;
        case F_UW: ok = IFF_readUWord(f, &w, id, attr); v = w; break;
        case F_W: ok = IFF_readWord(f, &sw, id, attr); v = (uint16_t)sw; break;
        case F_UL: ok = IFF_readULong(f, &l, id, attr); v = l; break;
        case F_L: ok = IFF_readLong(f, &sl, id, attr); v = (uint32_t)sl; break;
        default: ok = IFF_readId(f, &x, id, attr); v = x;
    }
    return ok;
}
static bool writePlain(FieldKind k, FILE *f, uint32_t v, uint32_t id, const char *attr)
{
    switch(k)
    {
        case F_UB: return IFF_writeUByte(f, (IFF_UByte)v, id, attr);
        case F_UW: return IFF_writeUWord(f, (IFF_UWord)v, id, attr);
        case F_W: return IFF_writeWord(f, (IFF_Word)v, id, attr);
        case F_UL: return IFF_writeULong(f, v, id, attr);
        case F_L: return IFF_writeLong(f, (IFF_Long)v, id, attr);
        default: return IFF_writeId(f, v, id, attr);
    }
}
static uint32_t genValue(Src &s)
{
    static const vector<uint32_t> edge = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x00ff00ff, 0xff00ff00u, 0x01020304, 0x80808080u, 0x0a0d1a04 };
    return s.chance(1, 2) ? s.u32() : edge[s.below(edge.size())];
}

// ---------------------------------------------------------------- C13
static int32_t genChunkSize(Src &s, int around)
{
    switch(s.below(8))
    {
        case 0: return (int32_t)s.below(8);
        case 1: case 2: case 3: return (int32_t)(around + (int)s.range(-3, 3));
        case 4: return -(int32_t)s.range(1, 6);
        case 5: { static const int32_t e[] = { INT_MIN, INT_MIN + 1, INT_MIN + 3, INT_MAX, INT_MAX - 1, INT_MAX - 3, -256, 65535, 0x10000, -65536 }; return e[s.below(10)]; }
        case 6: return (int32_t)s.u32();
        default: return (int32_t)s.range(0, 40);
    }
}
static void oneField(Src &s, Ctx &c)
{
    FieldKind k = (FieldKind)s.below(6); int z = fieldSize(k);
    IFF_Chunk ch; memset(&ch, 0, sizeof ch); ch.chunkId = s.chance(1, 2) ? mk("HELO") : genChunkId(s);
    int64_t b; switch(s.below(5)) { case 0: b = 0; break; case 1: b = INT_MAX - (int64_t)s.below(6); break; case 2: b = (int64_t)(s.u32() & 0x7fffffff); break; default: b = s.range(0, 30); }
    int64_t size = s.chance(3, 4) ? b + s.range(-2, 9) : genChunkSize(s, 4); if(size > INT_MAX) size = INT_MAX;
    if(size < INT_MIN) size = INT_MIN;
    ch.chunkSize = (IFF_Long)size; bool fits = b + z <= size; if(fits && b + z > INT_MAX) fits = false;
    uint32_t v = genValue(s) & mask(k), old = ~v & mask(k); string bytes = be(v, z) + "rest"; int mode = (int)s.below(5); if(mode > 2) mode = 0; // 0 ok, 1 stream fails in the middle, 2 fails at once
    int64_t cut = mode == 0 ? -1 : mode == 2 ? 0 : (int64_t)s.below((uint64_t)z);
    string ctx = strf("%s field of chunk '%s' of size %lld after %lld bytes%s", kindName[k], idStr(ch.chunkId).c_str(), (long long)size, (long long)b, cut < 0 ? "" : " from a failing stream");
    {
        MemIn in; in.data = bytes; bool eof = s.chance(1, 2); if(cut >= 0) { if(eof) in.data.resize((size_t)cut); else in.errorAt = cut; }
        in.gran = s.below(3); FILE *f = openIn(in, (int)s.below(3)); uint32_t got = old; IFF_Long bp = (IFF_Long)b; messagesClear();
        IFF_FieldStatus st = readField(k, f, got, &ch, &bp); string rest = drain(f); bool err = ferror(f); (void)err; fclose(f); c.subEvals++;
        IFF_FieldStatus want = !fits ? IFF_FIELD_LAST : cut >= 0 ? IFF_FIELD_FAILURE : IFF_FIELD_MORE;
        REQUIRE(st == want, "reading a %s gives status %d, expected %d", ctx.c_str(), st, want);
        REQUIRE((bool)IFF_deriveSuccess(st) == (want != IFF_FIELD_FAILURE), "status %d counts as %s", st, IFF_deriveSuccess(st) ? "success" : "failure");
        REQUIRE(got == (want == IFF_FIELD_MORE ? v : old), "reading a %s leaves value %x, expected %x", ctx.c_str(), got, want == IFF_FIELD_MORE ? v : old);
        REQUIRE(bp == (IFF_Long)(want == IFF_FIELD_MORE ? b + z : b), "reading a %s leaves counter %d", ctx.c_str(), bp);
        REQUIRE(want == IFF_FIELD_FAILURE || rest == (cut >= 0 ? in.data.substr(0, (size_t)cut) : bytes.substr(want == IFF_FIELD_MORE ? (size_t)z : 0)), "reading a %s leaves %s in the stream", ctx.c_str(), hexs(rest).c_str());
        REQUIRE((want == IFF_FIELD_FAILURE) == (gMessageCount > 0), "reading a %s reports: %s", ctx.c_str(), gMessages.c_str());
    }
    {
        MemOut o; if(cut >= 0) o.failAt = cut; FILE *f = openOut(o, 1); IFF_Long bp = (IFF_Long)b; messagesClear();
        IFF_FieldStatus st = writeField(k, f, v, &ch, &bp); fclose(f); c.subEvals++;
        IFF_FieldStatus want = !fits ? IFF_FIELD_LAST : cut >= 0 ? IFF_FIELD_FAILURE : IFF_FIELD_MORE;
        REQUIRE(st == want, "writing a %s gives status %d, expected %d", ctx.c_str(), st, want);
        REQUIRE(bp == (IFF_Long)(want == IFF_FIELD_MORE ? b + z : b), "writing a %s leaves counter %d", ctx.c_str(), bp);
        REQUIRE(want == IFF_FIELD_FAILURE || o.data == (want == IFF_FIELD_MORE ? be(v, z) : ""), "writing a %s stores %s, expected %s", ctx.c_str(), hexs(o.data).c_str(), hexs(be(v, z)).c_str());
        REQUIRE((want == IFF_FIELD_FAILURE) == (gMessageCount > 0), "writing a %s reports: %s", ctx.c_str(), gMessages.c_str());
    }
    c.label(!fits ? "field: does not fit" : cut >= 0 ? "field: failing stream" : "field: transferred");
    c.label(size < 0 ? "size negative" : size == 0 ? "size zero" : size > 1000000 ? "size huge" : "size ordinary");
    c.nontriv(hashBytes(ctx.data(), ctx.size(), v)); c.desc = ctx;
}
// group chunks without room for their group type
static void smallGroup(Src &s, Ctx &c)
{
    static const uint32_t ids[] = { M_FORM, M_CAT, M_LIST, M_PROP }; uint32_t id = ids[s.below(4)]; int32_t size = s.chance(1, 3) ? -(int32_t)s.range(1, 20) : s.chance(1, 6) ? INT32_MIN + (int32_t)s.below(3) : (int32_t)s.range(0, 4);
    size_t body = size < 0 ? 0 : (size_t)size; string data = body == 4 ? "TEST" : genData(s, body), enc; put32(enc, id); put32(enc, (uint32_t)size); enc += data; if(size % 2 != 0) enc += '\0';
    bool nested = s.chance(1, 3) && size >= 0; string outer; if(nested) { put32(outer, M_FORM); put32(outer, (uint32_t)(4 + enc.size())); outer += "TEST"; } string all = outer + enc, ctx = strf("'%s' of size %d%s", idStr(id).c_str(), size, nested ? " in a FORM" : "");
    MemIn in; in.data = all + "following"; in.gran = s.below(4); in.seekable = s.chance(1, 2); FILE *f = openIn(in, (int)s.below(3)); messagesClear(); IFF_Chunk *ch = IFF_readChunk(f, 0, &IFF_defaultChunkRegistry); string rest = drain(f); fclose(f); c.subEvals++;
    REQUIRE(ch, "reading a %s fails: %s", ctx.c_str(), gMessages.c_str()); REQUIRE(rest == "following", "reading a %s leaves %s in the stream", ctx.c_str(), hexs(rest, 40).c_str());
    IFF_Group *g = (IFF_Group *)ch; if(nested) { REQUIRE(g->chunkLength == 1, "%u members are read instead of a %s", g->chunkLength, ctx.c_str()); g = (IFF_Group *)g->chunk[0]; }
    REQUIRE(g->chunkId == id && g->chunkSize == size && g->chunkLength == 0 && (id != M_LIST || ((IFF_List *)g)->propLength == 0), "a %s is read differently", ctx.c_str());
    if(body == 4) REQUIRE(g->groupType == mk("TEST"), "the type of a %s is read as '%s'", ctx.c_str(), idStr(g->groupType).c_str());
    REQUIRE(body > 0 && body < 4 ? gMessages.find(strf("%zu", body)) != string::npos && gMessages.find(idText(id)) != string::npos : !gMessageCount, "reading a %s reports: %s", ctx.c_str(), gMessages.c_str());
    MemOut o; f = openOut(o); messagesClear(); bool ok = IFF_writeChunk(f, ch, 0, &IFF_defaultChunkRegistry); fclose(f); c.subEvals++; string want = all; if(body < 4) for(size_t i = 0; i < body; i++) want[outer.size() + 8 + i] = 0;
    REQUIRE(ok && !gMessageCount, "writing a %s gives %d: %s", ctx.c_str(), ok, gMessages.c_str()); REQUIRE(o.data == want, "a %s is written differently: %s", ctx.c_str(), firstDiff(o.data, want).c_str());
    for(size_t cut : { s.below(all.size()), all.size() - 1 }) { MemIn in2; in2.data = all.substr(0, cut); f = openIn(in2); IFF_Chunk *x = IFF_readChunk(f, 0, &IFF_defaultChunkRegistry); fclose(f); c.subEvals++; REQUIRE(!x, "reading a %s succeeds although its stream ends after %zu of %zu bytes", ctx.c_str(), cut, all.size()); }
    IFF_freeChunk(ch, 0, &IFF_defaultChunkRegistry); REQUIRE(!libLive(), "a %s leaves %zu allocations", ctx.c_str(), libLive());
    c.label(body == 4 ? "group: only its type" : "group: no room for its type"); c.nontriv(hashBytes(all.data(), all.size())); c.desc = ctx;
}
// large amounts of unknown and missing bytes
static void largeSkip(Src &s, Ctx &c)
{
    static const int32_t sizes[] = { 0xffff, 0x10004, 0x20001, 0x1000004, 0x2000003 }; int32_t z = sizes[s.byte() % 5], k = s.byte() % 2 ? 4 : 0; uint32_t id = mk("HELO");
    string ctx = strf("%d of %d bytes", z - k, z);
    {
        MemIn in; in.data.assign((size_t)(z - k), '\x7e'); in.data += "next"; messagesClear(); FILE *f = openIn(in); IFF_Bool ok = IFF_skipUnknownBytes(f, id, z, k); int next = fgetc(f); fclose(f);
        REQUIRE(ok && next == 'n', "skipping %s gives %d and continues with byte %d", ctx.c_str(), ok, next); REQUIRE(gMessages.find(strf("%d", z - k)) != string::npos, "skipping %s is reported as: %s", ctx.c_str(), gMessages.c_str()); c.subEvals++;
    }
    {
        MemIn in; in.data.assign((size_t)(z - k - 1), '\x7e'); messagesClear(); FILE *f = openIn(in); IFF_Bool ok = IFF_skipUnknownBytes(f, id, z, k); fclose(f); REQUIRE(!ok && gMessageCount, "skipping %s of a stream that lacks the last one gives %d and %u messages", ctx.c_str(), ok, gMessageCount); c.subEvals++;
    }
    {
        MemOut out; messagesClear(); FILE *f = openOut(out); IFF_Bool ok = IFF_writeZeroFillerBytes(f, id, z, k); fclose(f); REQUIRE(ok && gMessageCount == 0 && out.data.size() == (size_t)(z - k) && out.data.find_first_not_of('\0') == string::npos, "filling %s with zeros gives %d, %u messages and %zu bytes", ctx.c_str(), ok, gMessageCount, out.data.size()); c.subEvals++;
    }
    c.label("large numbers of unknown bytes"); c.nontriv(hashBytes(ctx.data(), ctx.size())); c.desc = ctx;
}
static vector<vector<uint8_t>> fixedC13(bool) { vector<vector<uint8_t>> v; for(uint8_t w = 0; w < 5; w++) for(uint8_t k = 0; k < 2; k++) v.push_back({ 0xe7, 0x5c, 0xa3, w, k }); return v; }
static void caseC13(Src &s, Ctx &c)
{
    if(s.byte() == 0xe7 && s.byte() == 0x5c && s.byte() == 0xa3) { largeSkip(s, c); return; }
    if(s.chance(1, 20)) { smallGroup(s, c); return; }
    if(s.chance(2, 5)) { oneField(s, c); return; }
    // whole chunks
    genLayouts(s); RegSpec r; int h = (int)s.below(NHANDLERS); uint32_t scope = mk("TEST"), id = s.chance(1, 2) ? mk("HELO") : genChunkId(s); r.forms.push_back({ scope, { { { id, h } } } }); Registry reg(r);
    int full = 0; string lay; for(auto f : gLayout[h]) { full += fieldSize(f); lay += string(kindName[f]) + " "; }
    int32_t size = genChunkSize(s, full); if(size > 70000) size = (int32_t)(size % 70000);
    if(s.chance(1, 40)) size = (int32_t)s.range(4000, 70000);
    bool neg = size < 0; size_t body = neg ? 0 : (size_t)size; string data = genData(s, body); bool odd = size % 2 != 0;
    string enc; put32(enc, id); put32(enc, (uint32_t)size); enc += data; if(odd) enc += '\0';
    string ctx = strf("chunk '%s' of size %d with fields %s", idStr(id).c_str(), size, lay.c_str());
    int known = knownBytes(h, size); size_t skipped = neg ? 0 : body - (size_t)known;
    // cut-off streams
    size_t cut = s.chance(1, 3) ? s.below(enc.size() + 1) : enc.size(); bool err = s.chance(1, 2);
    MemIn in; in.data = enc + "following"; if(cut < enc.size()) { if(err) in.errorAt = (int64_t)cut; else in.data.resize(cut); }
    in.gran = s.below(4); in.seekable = s.chance(1, 2); FILE *f = openIn(in, (int)s.below(3)); messagesClear(); size_t live = libLive();
    IFF_Chunk *ch = IFF_readChunk(f, scope, &reg.reg); string rest = drain(f); fclose(f); c.subEvals++;
    if(cut < enc.size())
    {
        REQUIRE(!ch, "reading a %s succeeds although its stream %s after %zu of %zu bytes", ctx.c_str(), err ? "fails" : "ends", cut, enc.size());
        REQUIRE(gMessageCount, "failing to read a %s is not reported", ctx.c_str());
        REQUIRE(libLive() == live, "failing to read a %s leaves %zu allocations", ctx.c_str(), libLive() - live);
        c.label("chunk: cut off");
    }
    else
    {
        REQUIRE(ch, "reading a %s fails: %s", ctx.c_str(), gMessages.c_str());
        REQUIRE(rest == "following", "reading a %s (%s) leaves %s in the stream", ctx.c_str(), hexs(enc, 60).c_str(), hexs(rest, 40).c_str());
        REQUIRE(ch->chunkSize == size && ch->chunkId == id, "a %s is read with size %d", ctx.c_str(), ch->chunkSize);
        const ExtChunk *e = (const ExtChunk *)ch; size_t pos = 0; size_t i = 0;
        for(auto k : gLayout[h])
        {
            uint32_t want = 0; int z = fieldSize(k); if(pos + (size_t)z > (size_t)known) { pos = body + 9; } else { for(int j = 0; j < z; j++) want = want << 8 | (unsigned char)data[pos + (size_t)j]; pos += (size_t)z; }
            REQUIRE(e->value[i] == want, "field %zu of a %s is %x, expected %x", i, ctx.c_str(), e->value[i], want); i++;
        }
        string num = strf("%zu", skipped);
        if(skipped) REQUIRE(gMessages.find(num) != string::npos && gMessages.find(idText(id)) != string::npos, "skipping %zu bytes of a %s is reported as: %s", skipped, ctx.c_str(), gMessages.c_str());
        else REQUIRE(gMessageCount == 0, "reading a %s reports: %s", ctx.c_str(), gMessages.c_str());
        // writing
        string want; put32(want, id); put32(want, (uint32_t)size); want += data.substr(0, (size_t)known); want.append(skipped, '\0'); if(odd) want += '\0';
        MemOut o; f = openOut(o, (int)s.below(3)); messagesClear(); bool ok = IFF_writeChunk(f, ch, scope, &reg.reg); fclose(f); c.subEvals++;
        REQUIRE(ok, "writing a %s fails: %s", ctx.c_str(), gMessages.c_str());
        REQUIRE(o.data == want, "a %s is written differently: %s", ctx.c_str(), firstDiff(o.data, want).c_str());
        REQUIRE(gMessageCount == 0, "writing a %s reports: %s", ctx.c_str(), gMessages.c_str());
        // failing device
        MemOut bad; bad.failAt = (int64_t)s.below(want.size()); f = openOut(bad, 1); messagesClear(); ok = IFF_writeChunk(f, ch, scope, &reg.reg); fclose(f); c.subEvals++;
        REQUIRE(!ok, "writing a %s to a device that fails at byte %lld of %zu succeeds", ctx.c_str(), (long long)bad.failAt, want.size());
        REQUIRE(gMessageCount, "failing to write a %s is not reported", ctx.c_str());
        // the size may be changed afterwards: fields that do not fit any more are cut, missing bytes are zeroes
        int32_t size2 = (int32_t)s.range(0, 40); if(s.chance(1, 6)) size2 = -(int32_t)s.range(1, 9);
        ch->chunkSize = size2; int known2 = knownBytes(h, size2); want.clear(); put32(want, id); put32(want, (uint32_t)size2); string vals; i = 0; for(auto k : gLayout[h]) vals += be(e->value[i++], fieldSize(k)); want += vals.substr(0, (size_t)known2); if(size2 > known2) want.append((size_t)(size2 - known2), '\0'); if(size2 % 2) want += '\0';
        MemOut o2; f = openOut(o2); ok = IFF_writeChunk(f, ch, scope, &reg.reg); fclose(f); c.subEvals++;
        REQUIRE(ok && o2.data == want, "a %s whose size was set to %d is written differently: %s", ctx.c_str(), size2, firstDiff(o2.data, want).c_str());
        IFF_freeChunk(ch, scope, &reg.reg);
        c.label(neg ? "chunk: negative size" : skipped ? "chunk: unknown bytes" : known < full ? "chunk: shorter than its fields" : "chunk: exactly its fields");
    }
    c.nontriv(hashBytes(enc.data(), enc.size(), cut)); c.desc = ctx + ": " + hexs(enc, 60);
}

// ---------------------------------------------------------------- C14
static void roundTrip(FieldKind k, uint32_t v, uint32_t id, Ctx &c)
{
    int z = fieldSize(k); MemOut o; FILE *f = openOut(o); bool ok = writePlain(k, f, v, id, "attr"); fclose(f);
    REQUIRE(ok && o.data == be(v, z), "%s %x is stored as %s", kindName[k], v, hexs(o.data).c_str());
    MemIn in; in.data = o.data + "x"; f = openIn(in); uint32_t got = ~v & mask(k); ok = readPlain(k, f, got, id, "attr"); string rest = drain(f); fclose(f);
    REQUIRE(ok && got == v, "%s %x is read back as %x", kindName[k], v, got);
    REQUIRE(rest == "x", "after reading a %s %zu bytes are left instead of 1", kindName[k], rest.size()); c.subEvals += 2;
}
static void caseC14(Src &s, Ctx &c)
{
    uint32_t m0 = s.byte();
    if(m0 == 0xf6 && s.byte() == 0x5a && s.byte() == 0xa5) // enumerated: 256 values of the 16-bit types, all 8-bit ones
    {
        uint32_t hi = s.byte(); string all; vector<uint32_t> vs; for(uint32_t lo = 0; lo < 256; lo++) vs.push_back(hi << 8 | lo);
        for(FieldKind k : { F_UW, F_W, F_UB, F_UL, F_L, F_ID })
        {
            MemOut o; FILE *f = openOut(o); string want;
            for(uint32_t v : vs) { if(fieldSize(k) == 4) v = v << 16 | (v ^ 0x5aa5); v &= mask(k); REQUIRE(writePlain(k, f, v, mk("HELO"), "attr"), "writing %s %x fails", kindName[k], v); want += be(v, fieldSize(k)); }
            fclose(f); REQUIRE(o.data == want, "%s values are stored differently: %s", kindName[k], firstDiff(o.data, want).c_str());
            MemIn in; in.data = o.data; f = openIn(in);
            for(uint32_t v : vs) { if(fieldSize(k) == 4) v = v << 16 | (v ^ 0x5aa5); v &= mask(k); uint32_t g = ~v & mask(k); REQUIRE(readPlain(k, f, g, mk("HELO"), "attr") && g == v, "%s %x is read back as %x", kindName[k], v, g); }
            REQUIRE(fgetc(f) == EOF, "bytes left"); fclose(f); c.subEvals += 512;
        }
        c.label("enumerated 16-bit values"); c.nontriv(hi + 99); c.desc = strf("all 16-bit values %02x00..%02xff", hi, hi); return;
    }
    FieldKind k = (FieldKind)s.below(6); int z = fieldSize(k); uint32_t v = genValue(s) & mask(k), id = s.chance(1, 2) ? mk("HELO") : genChunkId(s);
    roundTrip(k, v, id, c);
    string attr; size_t al = (size_t)(s.chance(3, 4) ? s.range(1, 12) : s.range(1, 120)); for(size_t i = 0; i < al; i++) attr += (char)('a' + s.below(26));
    if(s.chance(1, 10)) attr = "100%s %n %d";  // a name is data, not a format
    // short transfers
    for(int cut = 0; cut < z; cut++)
    {
        for(int err = 0; err < 2; err++)
        {
            MemIn in; in.data = be(v, z); if(err) in.errorAt = cut; else in.data.resize((size_t)cut);
            in.gran = s.below(3); FILE *f = openIn(in, (int)s.below(3)); uint32_t got = ~v & mask(k), old = got; messagesClear(); bool ok = readPlain(k, f, got, id, attr.c_str()); fclose(f); c.subEvals++;
            REQUIRE(!ok, "reading a %s from a stream that %s after %d bytes succeeds", kindName[k], err ? "fails" : "ends", cut);
            REQUIRE(got == old, "failing to read a %s changes the variable from %x to %x (stream %s after %d bytes of %x)", kindName[k], old, got, err ? "fails" : "ends", cut, v);
            REQUIRE(gMessages.find(idText(id)) != string::npos && gMessages.find(attr) != string::npos, "failing to read '%s' of '%s' is reported as: %s", attr.c_str(), idStr(id).c_str(), gMessages.c_str());
        }
        MemOut o; o.failAt = cut; FILE *f = openOut(o, 1); messagesClear(); bool ok = writePlain(k, f, v, id, attr.c_str()); fclose(f); c.subEvals++;
        REQUIRE(!ok, "writing a %s to a device that fails after %d bytes succeeds", kindName[k], cut);
        REQUIRE(gMessages.find(idText(id)) != string::npos && gMessages.find(attr) != string::npos, "failing to write '%s' of '%s' is reported as: %s", attr.c_str(), idStr(id).c_str(), gMessages.c_str());
        REQUIRE(o.data == be(v, z).substr(0, (size_t)cut) , "a %s written to a device with room for %d bytes stores %s", kindName[k], cut, hexs(o.data).c_str());
    }
    // a sequence of values
    {
        size_t n = (size_t)s.range(1, 8); vector<std::pair<FieldKind, uint32_t>> seq; string want; MemOut o; FILE *f = openOut(o, (int)s.below(3));
        for(size_t i = 0; i < n; i++) { FieldKind q = (FieldKind)s.below(6); uint32_t x = genValue(s) & mask(q); seq.push_back({ q, x }); want += be(x, fieldSize(q)); REQUIRE(writePlain(q, f, x, id, "attr"), "writing fails"); }
        fclose(f); REQUIRE(o.data == want, "a sequence of values is stored differently: %s", firstDiff(o.data, want).c_str());
        MemIn in; in.data = want + "end"; in.gran = s.below(4); f = openIn(in, (int)s.below(3));
        for(auto &q : seq) { uint32_t g = ~q.second & mask(q.first); REQUIRE(readPlain(q.first, f, g, id, "attr") && g == q.second, "%s %x in a sequence is read as %x", kindName[q.first], q.second, g); }
        REQUIRE(drain(f) == "end", "reading a sequence does not stop after it"); fclose(f); c.subEvals += n * 2;
    }
    // padding
    {
        int32_t size; switch(s.below(3)) { case 0: size = (int32_t)s.below(6); break; case 1: size = (int32_t)(s.u32() & 0x7fffffff); break; default: { static const int32_t e[] = { INT_MAX, INT_MAX - 1, 0, 1, 65535, 65536, 255, 256, 257, -1, -2, -3, INT_MIN, INT_MIN + 1, -65535, -255 }; size = e[s.below(16)]; } }
        bool odd = size & 1; uint8_t pad = s.chance(1, 2) ? 0 : s.byte(); bool missing = s.chance(1, 3), err = s.chance(1, 2);
        MemIn in; in.data = string(1, (char)pad) + "next"; if(missing) { if(err) in.errorAt = 0; else in.data.clear(); }
        FILE *f = openIn(in, (int)s.below(3)); messagesClear(); bool ok = IFF_readPaddingByte(f, size, id); string rest = missing ? "" : drain(f); fclose(f); c.subEvals++;
        string ctx = strf("padding of a chunk of size %d (%s)", size, missing ? "missing" : hexs(in.data).c_str());
        REQUIRE(ok == (!odd || !missing), "reading the %s %s", ctx.c_str(), ok ? "succeeds" : "fails");
        if(!missing) REQUIRE(rest == (odd ? "next" : in.data), "reading the %s leaves %s", ctx.c_str(), hexs(rest).c_str());
        bool wantMsg = odd && (missing || pad != 0); REQUIRE((gMessageCount > 0) == wantMsg, "reading the %s reports: %s", ctx.c_str(), gMessages.c_str());
        if(odd && missing) REQUIRE(gMessages.find(idText(id)) != string::npos, "the missing %s of '%s' is reported as: %s", ctx.c_str(), idStr(id).c_str(), gMessages.c_str());
        MemOut o; bool full = s.chance(1, 3); if(full) o.failAt = 0; f = openOut(o, 1); messagesClear(); ok = IFF_writePaddingByte(f, size, id); fclose(f); c.subEvals++;
        REQUIRE(ok == !(odd && full), "writing the padding of a chunk of size %d to a %s device %s", size, full ? "full" : "good", ok ? "succeeds" : "fails");
        REQUIRE(o.data == (odd && !full ? string(1, '\0') : ""), "the padding of a chunk of size %d is %s", size, hexs(o.data).c_str());
        REQUIRE((gMessageCount > 0) == (odd && full) && (!(odd && full) || gMessages.find(idText(id)) != string::npos), "writing the padding of a chunk of size %d reports: %s", size, gMessages.c_str());
        c.label(odd ? missing ? "padding missing" : pad ? "padding non-zero" : "padding zero" : "no padding");
    }
    c.label(kindName[k]); c.nontriv(mix64((uint64_t)v << 8 | (uint64_t)k) ^ id); c.desc = strf("%s %x, attribute '%s' of '%s'", kindName[k], v, attr.c_str(), idStr(id).c_str());
}
static vector<vector<uint8_t>> fixedC14(bool) { vector<vector<uint8_t>> v; for(int i = 0; i < 256; i++) v.push_back({ 0xf6, 0x5a, 0xa5, (uint8_t)i }); return v; }

static RegProp r13({ "C13", "exploration",
    "Single typed fields for sizes from INT_MIN to INT_MAX, counters from 0 to INT_MAX (concentrated where the field just fits or not) and streams that end or fail in the middle: status, value, counter, stream position and messages against 'fits iff counter + field size <= chunk size'; and whole chunks of random field layouts and sizes (negative, zero, shorter, longer, up to 70000) read with following data, cut off at every kind of place, written, written to failing devices and written again after changing the size. Non-trivial: every case; distinct by content.",
    caseC13, 200000, 3000000, 400000, fixedC13, { "counters are not negative" } });
static RegProp r14({ "C14", "exploration",
    "All 65536 values of the 16-bit types, all bytes and 65536 32-bit patterns enumerated; random and boundary values of each type written and read back with all short transfers (end and error after each byte), alone and in sequences through several buffer sizes; padding for even, odd, huge and negative sizes, present, missing and non-zero, on good and full devices; error messages must name chunk and attribute. Non-trivial: every case; distinct by value, type and chunk.",
    caseC14, 50000, 1000000, 200000, fixedC14, { "the harness runs on a little-endian machine, so only that byte order of the code is exercised" } });
