// C18 iffpp, C19 iffjoin
#include "tools.h"
#include "print.h"
#include "robust.h"
#include <cstring>
#include <algorithm>
#include <csetjmp>
#include <unistd.h>
#include <fcntl.h>
#include <getopt.h>
#include <sys/stat.h>
#include <sys/wait.h>
using std::string; using std::vector;

extern "C" int vp_main_iffpp(int argc, char **argv);
extern "C" int vp_main_iffjoin(int argc, char **argv);
static jmp_buf exitTo; static bool exitArmed; static int exitStatus;
extern "C" void vpw_exit(int st) { if(!exitArmed) _exit(st); exitArmed = false; exitStatus = st; longjmp(exitTo, 1); }
static int callMain(bool join, int argc, char **argv, bool *exited) // no objects with destructors here
{
    int st;
    *exited = false;
    if(setjmp(exitTo)) { *exited = true; return exitStatus; }
    exitArmed = true;
    st = join ? vp_main_iffjoin(argc, argv) : vp_main_iffpp(argc, argv);
    exitArmed = false;
    return st;
}
ToolRun runTool(bool join, const vector<string> &args, FILE *input, FILE *stdoutTo)
{
    ToolRun r; vector<string> a; a.push_back(join ? "iffjoin" : "iffpp"); for(auto &x : args) a.push_back(x);
    vector<char *> av; for(auto &x : a) av.push_back(&x[0]); av.push_back(nullptr);
    FILE *in = input ? input : fopen("/dev/null", "rb"); if(!in) harnessf("/dev/null");
    auto old = IFF_errorCallback; IFF_errorCallback = &IFF_errorCallbackStderr; optind = 0; opterr = 1;
    withStdin(in, [&] { captureBoth([&] { FILE *so = stdout; if(stdoutTo) stdout = stdoutTo; r.status = callMain(join, (int)a.size(), av.data(), &r.exited) & 0xff; stdout = so; }, r.out, r.err); });
    IFF_errorCallback = old; if(!input) fclose(in);
    return r;
}
ToolRun spawnTool(const Ctx &c, bool join, const vector<string> &args, const string *input, const string &stdoutTo)
{
    const char *exe = getenv(join ? "VP_IFFJOIN" : "VP_IFFPP"); if(!exe) harnessf("the path of the tool is not known");
    ToolRun r; vector<string> a; a.push_back(exe); for(auto &x : args) a.push_back(x);
    vector<char *> av; for(auto &x : a) av.push_back(&x[0]); av.push_back(nullptr);
    string in = c.scratch + "/stdin", out = stdoutTo.empty() ? c.scratch + "/stdout" : stdoutTo, err = c.scratch + "/stderr"; if(input) putFile(in, *input); else in = "/dev/null";
    pid_t pid = fork(); if(pid < 0) harnessf("fork");
    if(pid == 0)
    {
        int i = open(in.c_str(), O_RDONLY), o = open(out.c_str(), O_WRONLY | (stdoutTo.empty() ? O_CREAT | O_TRUNC : 0), 0644), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if(i < 0 || o < 0 || e < 0) _exit(125);
        dup2(i, 0); dup2(o, 1); dup2(e, 2); for(int f = 3; f < 64; f++) close(f);
        if(const char *o = getenv("VP_TOOL_ASAN")) setenv("ASAN_OPTIONS", o, 1);
        execv(exe, av.data()); _exit(125);
    }
    int st; while(waitpid(pid, &st, 0) < 0) if(errno != EINTR) harnessf("waitpid");
    getFile(err, r.err); if(stdoutTo.empty()) { getFile(out, r.out); unlink(out.c_str()); } unlink(err.c_str()); if(input) unlink(in.c_str());
    if(WIFSIGNALED(st)) failf("%s is killed by signal %d: %s", join ? "iffjoin" : "iffpp", WTERMSIG(st), r.err.c_str());
    r.status = WEXITSTATUS(st);
    if(r.status == 125) harnessf("cannot start %s", exe);
    if(r.status == 66 && (r.err.find("Sanitizer") != string::npos || r.err.find("runtime error") != string::npos)) failf("%s: %s", join ? "iffjoin" : "iffpp", r.err.c_str());
    return r;
}
static string joinWords(const vector<string> &a) { string s; for(auto &x : a) { s += x; s += ' '; } return s; }
static bool shape(const string &out) { return out.find("chunkSize = ") != string::npos; }

// file names that mean something else to a careless program
static const vector<string> oddNames = { "-", "a b", "%s%n%d", "-c", "--help", "--", "-o", "a=b", "\xff\xfe", "new\nline", "*", "~", "stdin", "NULL", string(200, 'n') };
static bool optionLike(const string &x) { return x.size() > 1 && x[0] == '-'; }
struct In // working directory for the time of a case
{
    int old = -1;
    void enter(const string &dir) { old = open(".", O_RDONLY | O_DIRECTORY); if(old < 0 || chdir(dir.c_str())) harnessf("chdir"); }
    void leave() { if(old >= 0) { if(fchdir(old)) harnessf("fchdir"); close(old); old = -1; } }
    ~In() { leave(); }
};

// how long the library's own representation is
static size_t runLength(const Node &n) { IFF_Chunk *x = build(n); size_t l = captureStdout([&] { IFF_print(x, 0, nullptr); }).size(); freeTree(x); return l; }

// ---------------------------------------------------------------- C18
static void caseC18(Src &s, Ctx &c)
{
    unlink((c.scratch + "/in").c_str());
    GenOpts o; o.maxNodes = s.chance(1, 10) ? 80 : 18; o.maxDepth = 5; o.maxData = 40; o.big = s.chance(1, 40); o.anyRoot = s.chance(1, 6); o.extremes(c, 500, 0);
    string how, bytes; Node n; bool modelled = false; unsigned k = (unsigned)s.below(10);
    if(k <= 3) { n = genTree(s, o); bytes = encode(n); modelled = refValid(n); how = modelled ? "valid file" : "PROP or data chunk as a file"; }
    else if(k <= 6) { n = genTree(s, o); unsigned m = 1 + (unsigned)s.below(3); how = "edited file:"; for(unsigned i = 0; i < m; i++) how += " " + mutateTree(s, n); bytes = encode(n); }
    else if(k == 7) { n = genTree(s, o); bytes = encode(n); bytes.resize(s.below(bytes.size())); how = "cut-off file"; }
    else { bytes = hostileBytes(s, nullptr, &how); }
    if(bytes.size() > 50000) { bytes.resize(50000); modelled = false; }
    unsigned source = (unsigned)s.below(8); // 0-3 file, 4-5 stdin, 6 missing, 7 directory or file below a file
    string path = c.scratch + "/in", odd; bool dashed = false; In cwd;
    if(source < 4 && s.chance(1, 8)) { odd = oddNames[s.below(oddNames.size())]; path = c.scratch + "/" + odd; cwd.enter(c.scratch); }
    if(source < 4) putFile(path, bytes);
    else if(source == 6) { path = s.chance(1, 4) ? "" : c.scratch + "/none"; }
    else if(source == 7) { if(s.chance(1, 2)) path = c.scratch; else { putFile(path, bytes); path += "/in"; } }
    // options
    vector<string> args; bool disable = false; int verdict = 0; // 1 help/version, 2 unknown
    unsigned no = (unsigned)s.below(3); static const char *dis[] = { "-c", "--disable-check", "-cc", "--disable" }, *inf[] = { "-h", "--help", "-v", "--version", "-cv", "--vers", "-hx" }, *unk[] = { "-x", "--bogus", "-o", "--disable-check=1", "-cx", "--Help", "-xh", "-?" };
    for(unsigned i = 0; i < no; i++)
    {
        unsigned w = (unsigned)s.below(10);
        if(w < 8) { args.push_back(dis[s.below(4)]); if(!verdict) disable = true; }
        else if(w == 8) { string a = inf[s.below(7)]; args.push_back(a); if(!verdict) verdict = 1; }
        else { args.push_back(unk[s.below(8)]); if(!verdict) verdict = 2; }
    }
    bool useFile = source < 4 || source >= 6; string full0 = path; if(!odd.empty()) path = odd;
    if(useFile)
    {
        unsigned pos = optionLike(odd) ? 2 : (unsigned)s.below(3); // at the end, at the front, after --
        if(pos == 1) args.insert(args.begin(), path);
        else if(pos == 2) { args.push_back("--"); args.push_back(path); dashed = true; }
        else args.push_back(path);
    }
    (void)dashed;
    // expectation
    bool readable = false, valid = false; Node want;
    if(source < 6)
    {
        messagesClear(); IFF_Chunk *x = readBytes(bytes, nullptr);
        if(modelled) { REQUIRE(x, "reading a valid file fails: %s", show(n).c_str()); readable = true; valid = true; want = n; }
        else if(x) { readable = true; want = snapshot(x); valid = refValid(want); }
        if(x) freeTree(x);
    }
    string what = how + " " + hexs(bytes, 60) + ", iffpp " + joinWords(args) + (useFile ? "" : "< it");
    bool proc = s.chance(1, 40), full = s.chance(1, 12); ToolRun r; MemOut sink; FILE *sinkTo = nullptr; // full: standard output cannot take everything
    if(full && !(readable && (valid || disable) && !verdict)) full = false;
    if(full && !proc) { size_t len = runLength(want); sink.failAt = (int64_t)(s.chance(1, 2) ? s.below(len) : len - 1 - s.below(std::min<size_t>(len, 20))); sink.once = s.chance(1, 3); sinkTo = openOut(sink, (int)s.below(3)); }
    FILE *decoy = nullptr; if((source == 6 || !odd.empty()) && !proc && s.chance(1, 2)) decoy = pipeWith(encode(genTree(s, GenOpts()))); // a good file on standard input does not matter
    if(proc) { r = spawnTool(c, false, args, useFile ? nullptr : &bytes, full ? "/dev/full" : ""); }
    else
    {
        size_t live = libLive(); FILE *in = decoy ? decoy : useFile ? nullptr : s.chance(1, 2) ? pipeWith(bytes) : nullptr;
        if(!useFile && !in) { putFile(path, bytes); in = fopen(path.c_str(), "rb"); }
        r = runTool(false, args, in, sinkTo); if(in) fclose(in);
        if(sinkTo) fclose(sinkTo);
        if(!r.exited) REQUIRE(libLive() == live, "iffpp leaves %zu allocations: %s", libLive() - live, what.c_str());
    }
    c.subEvals++;
    unlink((c.scratch + "/in").c_str()); if(!odd.empty()) { unlink(full0.c_str()); cwd.leave(); c.label("unusual file name"); }
    if(verdict)
    {
        if(verdict == 1) REQUIRE(r.status == 0 && !r.out.empty(), "%s exits with %d and prints '%s'", what.c_str(), r.status, r.out.c_str());
        else REQUIRE(r.status != 0 && !r.err.empty(), "%s with an unknown option exits with %d and the message '%s'", what.c_str(), r.status, r.err.c_str());
        REQUIRE(!shape(r.out), "%s prints a representation although it was asked for something else", what.c_str()); c.label(verdict == 1 ? "help or version" : "unknown option");
    }
    else if(full)
    {
        REQUIRE(r.status != 0, "%s exits with success although standard output %s", what.c_str(), proc ? "is a full device" : strf("fails%s at byte %lld", sink.once ? " once" : "", (long long)sink.failAt).c_str());
        REQUIRE(!r.err.empty(), "%s fails to print without any message", what.c_str()); c.label("standard output full");
    }
    else if(readable && (valid || disable))
    {
        REQUIRE(r.status == 0, "%s exits with %d: %s", what.c_str(), r.status, r.err.c_str());
        string d = diffPrinted(parsePrinted(r.out, 0), want, nullptr, 0); REQUIRE(d.empty(), "%s prints something else: %s", what.c_str(), d.c_str());
        if(modelled) REQUIRE(r.err.empty(), "%s complains: %s", what.c_str(), r.err.c_str());
        c.label(valid ? "valid, printed" : "invalid, printed unchecked");
    }
    else
    {
        REQUIRE(r.status != 0, "%s exits with success", what.c_str());
        REQUIRE(r.out.empty(), "%s fails but prints: %s", what.c_str(), r.out.c_str());
        REQUIRE(!r.err.empty(), "%s fails without any message", what.c_str());
        c.label(readable ? "invalid, refused" : "unreadable, refused");
    }
    c.label(proc ? "separate process" : "in process"); c.label(source < 4 ? "from a file" : source < 6 ? "from standard input" : "unusable file name");
    c.nontriv(hashBytes(what.data(), what.size(), hashBytes(bytes.data(), bytes.size()))); c.desc = what;
}

// ---------------------------------------------------------------- C19
static void caseC19(Src &s, Ctx &c)
{
    string dir = c.scratch + "/j"; mkdir(dir.c_str(), 0755); bool relative = s.chance(1, 8), optLike = false; In cwd; if(relative) cwd.enter(dir);
    vector<string> inputs, made, contents; bool bad = false; string what; vector<Node> members; size_t k = (size_t)s.range(0, s.chance(1, 12) ? 40 : 5);
    if(k == 0 && !s.chance(1, 4)) k = 1;
    static const char *types[] = { "TEST", "ILBM", "8SVX", "JJJJ" }; bool sameType = s.chance(1, 2); uint32_t common = mk(types[s.below(4)]);
    for(size_t i = 0; i < k; i++)
    {
        if(i && s.chance(1, 6)) { size_t j = s.below(inputs.size()); inputs.push_back(inputs[j]); members.push_back(members[j]); what += "again "; continue; }
        string p = dir + strf("/f%zu", i); if(relative && i < oddNames.size() && s.chance(1, 2)) { const string &on = oddNames[(size_t)(i + s.below(2) * 3) % oddNames.size()]; bool used = false; for(auto &m : made) if(m == dir + "/" + on) used = true; if(!used) { p = dir + "/" + on; if(optionLike(on)) optLike = true; } } unsigned w = (unsigned)s.below(40); Node n; GenOpts o; o.maxNodes = 10; o.maxDepth = 4; o.maxData = 24; o.extremes(c, 1000, 1);
        if(w < 36)
        {
            o.anyRoot = s.chance(1, 40);
            n = genTree(s, o); if(n.group && n.id != M_PROP && sameType && !(n.id == M_FORM && common == M_JJJJ) && (n.id == M_FORM || n.kids.empty())) { n.type = common; }
            if(!refValid(n)) bad = true;
            string b = encode(n); if(s.chance(1, 12)) b += genData(s, s.below(5));
            putFile(p, b); what += "'" + idStr(n.id) + "' '" + idStr(n.type) + "' ";
        }
        else if(w == 36) { bad = true; what += "missing "; if(s.chance(1, 3)) p = ""; }
        else if(w == 37) { n = genTree(s, o); string b = encode(n); b.resize(s.below(b.size())); putFile(p, b); bad = true; what += "cut-off "; }
        else if(w == 38) { n = genTree(s, o); mutateTree(s, n); string b = encode(n); putFile(p, b); IFF_Chunk *x = readBytes(b, nullptr); if(x) { n = snapshot(x); freeTree(x); if(!refValid(n)) bad = true; } else bad = true; what += bad ? "edited " : "edited-but-valid "; }
        else { string b = hostileBytes(s, nullptr); putFile(p, b); IFF_Chunk *x = readBytes(b, nullptr); if(x) { n = snapshot(x); freeTree(x); if(!refValid(n)) bad = true; } else bad = true; what += "hostile "; }
        inputs.push_back(p); made.push_back(p); members.push_back(n);
    }
    // output
    unsigned dest = (unsigned)s.below(8); string out = dir + "/out", old; if(relative) { string on = oddNames[s.below(oddNames.size())]; bool used = false; for(auto &m : made) if(m == dir + "/" + on) used = true; if(!used) out = dir + "/" + on; } bool toFile = dest != 0, exists = false, unwritable = false, fullOut = false;
    switch(dest)
    {
        case 0: break;
        case 1: case 2: break;
        case 3: case 4: old = genData(s, s.below(3000)); putFile(out, old); exists = true; break;
        case 5: if(!made.empty()) { out = made[s.below(made.size())]; exists = getFile(out, old); } break;
        case 6: unwritable = true; out = s.chance(1, 2) ? dir : s.chance(1, 2) ? "" : dir + "/no/out"; break;
        default: unwritable = true; out = "/dev/full"; break;
    }
    string outAt = out; 
    if(relative) { auto rel = [&](string &x) { if(x.compare(0, dir.size() + 1, dir + "/") == 0) x = x.substr(dir.size() + 1); }; rel(out); for(auto &x : inputs) rel(x); }
    vector<string> opt; int verdict = 0;
    if(toFile) switch(out.empty() ? 3 : s.below(5)) { case 0: opt = { "-o", out }; break; case 1: opt = { "-o" + out }; break; case 2: opt = { "--output-file=" + out }; break; case 3: opt = { "--output-file", out }; break; default: opt = { "-o", dir + "/unused", "-o", out }; }
    if(s.chance(1, 12)) { static const char *inf[] = { "-h", "--help", "-v", "--version" }, *unk[] = { "-x", "--bogus", "-c", "--help=1" }; unsigned q = (unsigned)s.below(8); verdict = q < 4 ? 1 : 2; opt.insert(s.chance(1, 2) ? opt.begin() : opt.end(), q < 4 ? inf[q] : unk[q - 4]); }
    vector<string> args; unsigned place = optLike && !inputs.empty() ? 2 : (unsigned)s.below(3);
    if(place == 0 || inputs.empty()) { args = opt; for(auto &i : inputs) args.push_back(i); }
    else if(place == 1) { args = inputs; for(auto &x : opt) args.push_back(x); }
    else { args = opt; args.push_back("--"); for(auto &i : inputs) args.push_back(i); }
    bool proc = s.chance(1, 40); ToolRun r; what = "iffjoin of " + what + strf("(%zu files) to ", k) + (toFile ? dest == 5 ? "one of them" : unwritable ? "unwritable " + out : exists ? "existing file" : "new file" : "standard output") + (verdict ? " with " + joinWords(opt) : "");
    if(proc && !toFile && s.chance(1, 3)) { fullOut = true; r = spawnTool(c, true, args, nullptr, "/dev/full"); }
    else if(proc) r = spawnTool(c, true, args, nullptr);
    else { size_t live = libLive(); r = runTool(true, args, nullptr); if(!r.exited) REQUIRE(libLive() == live, "%s leaves %zu allocations", what.c_str(), libLive() - live); }
    c.subEvals++; if(relative) { cwd.leave(); c.label("unusual file names"); }
    string got; bool is = toFile && !unwritable && getFile(outAt, got);
    auto untouched = [&](const char *why) { if(!toFile || unwritable) return; REQUIRE(is == exists && (!is || got == old), "%s %s but %s the output", what.c_str(), why, is && !exists ? "creates" : "alters"); };
    if(verdict)
    {
        untouched("only informs");
        if(verdict == 1) REQUIRE(r.status == 0 && (fullOut || !r.out.empty()), "%s exits with %d", what.c_str(), r.status); else REQUIRE(r.status != 0 && !r.err.empty(), "%s exits with %d, message '%s'", what.c_str(), r.status, r.err.c_str());
        c.label(verdict == 1 ? "help or version" : "unknown option");
    }
    else if(k == 0 || bad)
    {
        REQUIRE(r.status != 0, "%s succeeds", what.c_str()); REQUIRE(!r.err.empty(), "%s fails without a message", what.c_str()); REQUIRE(r.out.empty(), "%s fails but writes %zu bytes to standard output", what.c_str(), r.out.size());
        untouched("fails"); c.label(k ? "bad input" : "no input");
    }
    else if(unwritable || fullOut) { REQUIRE(r.status != 0, "%s succeeds", what.c_str()); REQUIRE(!r.err.empty(), "%s fails without a message", what.c_str()); c.label("unwritable output"); }
    else
    {
        REQUIRE(r.status == 0, "%s exits with %d: %s", what.c_str(), r.status, r.err.c_str());
        Node cat; cat.id = M_CAT; cat.group = true; cat.type = members[0].type; for(auto &m : members) { if(m.type != cat.type) { cat.type = M_JJJJ; break; } }
        cat.kids = members; cat.size = contentSize(cat);
        if(!toFile) { got = r.out; is = true; } else REQUIRE(r.out.empty(), "%s writes to standard output", what.c_str());
        REQUIRE(is, "%s creates no output", what.c_str()); string w = encode(cat);
        REQUIRE(got == w, "%s gives another concatenation: %s, expected %s", what.c_str(), firstDiff(got, w).c_str(), show(cat).c_str());
        Node back; size_t used = 0; REQUIRE(strictFile(got, &back, &used) && used == got.size(), "%s gives an invalid file %s", what.c_str(), show(cat).c_str());
        IFF_Chunk *x = readBytes(got, nullptr); REQUIRE(x && IFF_check(x, nullptr), "%s gives a file that the library rejects: %s", what.c_str(), gMessages.c_str()); freeTree(x);
        c.label(toFile ? dest == 5 ? "joined into an input" : "joined to a file" : "joined to standard output"); c.label(cat.type == M_JJJJ ? "mixed" : "common type");
    }
    struct stat st; if(lstat((dir + "/unused").c_str(), &st) == 0) failf("%s writes a file that was not its last output option", what.c_str());
    for(auto &p : made) unlink(p.c_str());
    if(!unwritable) unlink(outAt.c_str());
    rmdir(dir.c_str());
    c.label(proc ? "separate process" : "in process");
    uint64_t h = hashBytes(what.data(), what.size()); for(auto &m : members) h = mix64(h ^ hashNode(m)); c.nontriv(h); c.desc = what;
}

static RegProp r18({ "C18", "exploration",
    "Valid files (expectation from the model), edited, cut-off and hostile files (readability from the library, validity and contents from the model), missing files and directories, from files, pipes and standard input, with all spellings and positions of options; iffpp's main function runs inside the harness, one case in 40 as the real process. Standard output also fails at generated offsets. Exit status, the whole of standard output (parsed back and compared with the model) and the presence of messages are decided. Non-trivial: every case; distinct by content and command line.",
    caseC18, 60000, 1000000, 0, nullptr, { "the option parser is glibc's getopt_long without POSIXLY_CORRECT" } });
static RegProp r19({ "C19", "exploration",
    "One to 40 input files (valid, repeated, with trailing bytes, missing, cut off, edited, hostile), every spelling and position of the output option, new, existing and unwritable outputs, the output among the inputs, standard output (also full); main runs inside the harness, one case in 40 as the real process. The bytes must equal the model's encoding of the concatenation; on bad input the output must be neither created nor altered. Non-trivial: every case; distinct by members and command line.",
    caseC19, 40000, 800000, 0, nullptr, { "the option parser is glibc's getopt_long without POSIXLY_CORRECT" } });
