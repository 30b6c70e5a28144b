// Reference model of IFF-85 hierarchies: independent encoder, validator,
// search and lookup; generators; builders that drive the library's API.
#pragma once
#include "lib.h"

constexpr uint32_t mk(const char *s) { return (uint32_t)(unsigned char)s[0] << 24 | (uint32_t)(unsigned char)s[1] << 16 | (uint32_t)(unsigned char)s[2] << 8 | (uint32_t)(unsigned char)s[3]; }
constexpr uint32_t M_FORM = 0x464f524du, M_CAT = 0x43415420u, M_LIST = 0x4c495354u, M_PROP = 0x50524f50u, M_JJJJ = 0x4a4a4a4au, M_TEXT = 0x54455854u, M_FILL = 0x20202020u;

struct Node
{
    uint32_t id = 0; bool group = false; uint32_t type = 0; int32_t size = 0;
    std::string data;                  // data chunks
    std::vector<Node> props, kids;     // groups (props: LIST only)
};

inline bool isGroupId(uint32_t id) { return id == M_FORM || id == M_CAT || id == M_LIST || id == M_PROP; }
std::string idStr(uint32_t id);
inline std::string idText(uint32_t id) { return { (char)(id >> 24), (char)(id >> 16), (char)(id >> 8), (char)id }; }
std::string show(const Node &n, int depth = 0);            // compact description
int32_t contentSize(const Node &n);                        // what the contents take up
void fixSizes(Node &n);                                    // sizes everywhere := contentSize
std::string encode(const Node &n);                         // EA IFF-85 bytes
void encodeTo(const Node &n, std::string &out);
void put32(std::string &s, uint32_t v);
uint32_t get32(const std::string &s, size_t at);
bool sameNode(const Node &a, const Node &b);
size_t countNodes(const Node &n);
void allNodes(Node &n, std::vector<Node *> &v);            // preorder: node, props, kids
int depthOf(const Node &n);

// validation
bool okId(uint32_t id);
bool okFormType(uint32_t t);
bool refValid(const Node &n, bool root = true);
bool strictFile(const std::string &bytes, Node *out = nullptr, size_t *used = nullptr);  // complete, valid main chunk at the start of bytes

// generators
struct GenOpts
{
    int maxDepth = 4, maxKids = 4, maxNodes = 40;
    size_t maxData = 64;
    bool big = false;        // occasionally large data
    bool anyRoot = false;    // PROP or data chunk as main chunk too
    unsigned extreme = 0;    // one in this many hierarchies is extreme in one dimension (0: none)
    int scale = 1;           // how extreme: 0 hundreds, 1 thousands, sometimes beyond 65536
    const Ctx *ctx = nullptr;
    GenOpts &extremes(const Ctx &c, unsigned den, int sc = 1) { ctx = &c; extreme = c.fuzzing ? den * 20 : den; scale = sc; return *this; }
};
std::string genData(Src &s, size_t n);
size_t genSize(Src &s, size_t max);
uint32_t genChunkId(Src &s);       // legal ID of a data chunk (never a group ID)
uint32_t genFormType(Src &s);      // legal form type
uint32_t genContentsType(Src &s);
uint32_t genAnyId(Src &s);         // any 32-bit value, biased to interesting ones
Node genExtreme(Src &s, int scale);                        // valid hierarchy, extreme in width, depth, property count or data size
Node genGiant(int k);                                      // valid hierarchy beyond the limits of 16 and 24 bits or of usual nesting
Node genTree(Src &s, const GenOpts &o);                    // valid hierarchy
Node genGroupOf(Src &s, const GenOpts &o, uint32_t kind);  // valid group of a kind (FORM/CAT/LIST/PROP)
Node genDataChunk(Src &s, const GenOpts &o);
bool oddTypes(Src &s, Node &n, bool ids, int per = 10);                            // now and then: group types and chunk IDs that must be preserved although they are not legal
int tailSize(Src &s);                                      // how many bytes to add, usually few
std::string mutateTree(Src &s, Node &n);                   // one rule-breaking (or neutral) structural edit; returns its name
std::string mutateBytes(Src &s, std::string &b);           // byte-level edit
std::string treeClass(const Node &n);                      // label

// library side
IFF_Chunk *build(const Node &n, Src *s = nullptr, bool natural = false);   // API construction (route chosen by s); sizes as in n
std::string diffChunk(const IFF_Chunk *c, const Node &n, const IFF_Group *parent, const std::string &path = "");
Node snapshot(const IFF_Chunk *c);                         // default registry interpretation
void freeTree(IFF_Chunk *c);                               // IFF_free with default registry
inline IFF_Group *asGroup(IFF_Chunk *c) { return (IFF_Group *)c; }
uint64_t hashNode(const Node &n);
void libNodes(IFF_Chunk *c, std::vector<IFF_Chunk *> &v);  // preorder like allNodes
