// Extension chunk types: generated registries, handlers with generated field
// layouts, call log, and the reference model of which handler is responsible.
#pragma once
#include "model.h"

enum FieldKind { F_UB, F_UW, F_W, F_UL, F_L, F_ID };
int fieldSize(FieldKind k);
constexpr int NHANDLERS = 8;       // extension handlers 0..7
constexpr int H_DEFAULT = 8;       // instrumented default handler (raw data)
constexpr int H_WRAP = 9;          // 9 and 10: instrumented handlers of group chunks that pass on to the library's own
constexpr int H_RAW = -1, H_GROUP = -2;

struct ExtChunk { IFF_Group *parent; IFF_ID chunkId; IFF_Long chunkSize; int handler; uint32_t magic; uint32_t value[8]; void *own; };

enum Op { OP_CREATE, OP_READ, OP_WRITE, OP_CHECK, OP_FREE, OP_PRINT, OP_COMPARE };
struct LogEntry { Op op; int handler; uint32_t chunkId; const void *chunk; };
extern thread_local std::vector<LogEntry> gLog;
extern std::vector<FieldKind> gLayout[NHANDLERS];
extern bool gExtCheckVerdict[NHANDLERS];     // verdict the handler's check returns
extern thread_local int gExtReadFails;       // the how manieth call of an instrumented read function fails; 0: none

struct TypeEntry { uint32_t id; int handler; };
typedef std::vector<std::vector<TypeEntry>> Chain;     // first node is consulted first
struct RegSpec
{
    std::vector<std::pair<uint32_t, Chain>> forms;     // sorted by form type
    Chain global;                                      // consulted before the built-in group types
    bool customDefault = false;
    uint32_t linkGlobal = 0;                           // bit i: chain of form i ends in the library's own set of group types
    int resolve(uint32_t scope, uint32_t id) const;    // handler, H_GROUP, H_RAW or H_DEFAULT
    std::string show() const;
};
struct Registry     // materialised registry; keeps the arrays alive
{
    std::vector<std::vector<IFF_ChunkType>> types; std::vector<IFF_ChunkTypesNode> nodes; std::vector<IFF_FormChunkTypes> forms;
    IFF_ChunkType def; IFF_ChunkRegistry reg;
    explicit Registry(const RegSpec &s);
    Registry(const Registry &) = delete;
};
void genLayouts(Src &s);
RegSpec genRegistry(Src &s);
// Hierarchies using the registry's form types and chunk IDs often.
void retarget(Src &s, Node &n, const RegSpec &r, uint32_t scope, const GenOpts &o);  // chunk IDs that the registry knows
Node genExtTree(Src &s, const GenOpts &o, const RegSpec &r);
// Node as it should be in memory: data of extension chunks reduced to the known fields that fit, rest zero.
void canonical(Node &n, const RegSpec &r, uint32_t scope = 0);
bool hasSkipped(const Node &n, const RegSpec &r, uint32_t scope = 0);     // some extension chunk has bytes beyond its fields
int knownBytes(int handler, int32_t size);            // how many bytes of a chunk of that size are known fields
std::string diffExt(const IFF_Chunk *c, const Node &n, const IFF_Group *parent, const RegSpec &r, uint32_t scope, const std::string &path = "");
size_t countExt(const Node &n, const RegSpec &r, uint32_t scope = 0);
IFF_Chunk *buildExt(const Node &n, const RegSpec &r, uint32_t scope, const Registry &reg);
IFF_ChunkType handlerType(int k, uint32_t id);

std::string changeOne(Src &s, Node &n, bool ext);      // one small difference; returns its name ("none" if nothing was changed)
void sampleOf(Ctx &c, const Node &n);
std::string firstDiff(const std::string &a, const std::string &b);
