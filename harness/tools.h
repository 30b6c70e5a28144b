#pragma once
#include "ext.h"
// The command-line tools: their main functions called inside the harness, or the real programs.
struct ToolRun { int status = 0; bool exited = false; std::string out, err; };
// stdoutTo: stream that replaces standard output (null = captured)
// args: without the program's name; input: null = /dev/null
ToolRun runTool(bool join, const std::vector<std::string> &args, FILE *input, FILE *stdoutTo = nullptr);
// stdoutTo: path that replaces standard output ("" = captured)
ToolRun spawnTool(const Ctx &c, bool join, const std::vector<std::string> &args, const std::string *input, const std::string &stdoutTo = "");
