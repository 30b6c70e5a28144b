// Binding to the library under test: allocation tracking, fault injection,
// stream fakes, capture of messages and of standard output.
#pragma once
#include "engine.h"
#include <cstdio>
#include <cstdarg>
extern "C" {
#include "iff.h"
#include "chunk.h"
#include "group.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "rawchunk.h"
#include "chunkregistry.h"
#include "defaultregistry.h"
#include "field.h"
#include "io.h"
#include "id.h"
#include "util.h"
#include "error.h"
}
#undef TRUE
#undef FALSE
#define TRUE 1
#define FALSE 0

// ---- allocations made by the library (its malloc family is redirected here)
extern "C" {
void *vpw_malloc(size_t n);
void *vpw_calloc(size_t a, size_t b);
void *vpw_realloc(void *p, size_t n);
void vpw_free(void *p);
}
extern unsigned char gFill;          // what new memory of the library holds
extern bool gThreads;                // several threads use the library: allocations are only counted, streams yield now and then
long libThreadLive();
void libReset();                     // start of a case
void libCleanup();                   // end of a case: releases what is left
size_t libLive();                    // live library allocations
std::string libLiveDesc();
uint64_t libAllocCount();            // allocations attempted since libReset/libFaultArm
void libFaultArm(int64_t failAt, bool allLater);   // fail the failAt-th allocation from now (0 = first)
void libFaultDisarm();
bool libFaultHit();
bool libFaultTakeHit();                             // ... since the last call
void libFaultPause(bool on);                        // allocations neither count nor fail meanwhile

// ---- messages
extern thread_local std::string gMessages;        // text passed to the error callback in this case
extern thread_local unsigned gMessageCount;
void messagesClear();

// ---- streams
struct MemIn
{
    std::string data; size_t pos = 0;
    size_t gran = 0;                 // at most this many bytes per low-level read (0 = any)
    int64_t errorAt = -1;            // read error when reaching this offset
    bool errorOnce = false;          // the data goes on after the error
    bool seekable = true; bool closed = false;
};
struct MemOut
{
    std::string data; size_t pos = 0;
    int64_t failAt = -1;             // bytes from this offset on cannot be stored
    bool once = false;               // the failure happens only once
    bool seekable = true; bool failed = false; bool closed = false;
};
FILE *openIn(MemIn &m, int bufMode = 0);      // 0 default, 1 unbuffered, 2 small buffer
FILE *openOut(MemOut &m, int bufMode = 0);

// Runs f with stdout captured, returns what was printed.
std::string captureStdout(const std::function<void()> &f);

// Reads from a byte string; convenience. rest: what was left unread.
IFF_Chunk *readBytes(const std::string &bytes, const IFF_ChunkRegistry *reg, std::string *rest = nullptr);
// Writes to a string; ok: return value of the library
std::string writeBytes(const IFF_Chunk *c, const IFF_ChunkRegistry *reg, bool &ok);
std::string drain(FILE *f);

std::string tempFile(const Ctx &c, const char *name);
void putFile(const std::string &path, const std::string &bytes);
bool getFile(const std::string &path, std::string &bytes);
int countFds();
// Runs f with both standard streams captured.
void captureBoth(const std::function<void()> &f, std::string &out, std::string &err);
// Runs f with standard input replaced.
void withStdin(FILE *in, const std::function<void()> &f);
FILE *pipeWith(const std::string &bytes);      // read end of a pipe that holds the bytes (at most 60000)
