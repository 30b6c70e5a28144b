#pragma once
#include "ext.h"
// Parses the textual representation of chunks back. Throws Fail on anything that is not one.
struct Printed { Node n; int handler = -1; std::vector<uint32_t> values; std::string typeName; std::vector<Printed> props, kids; };
// text must be exactly one chunk printed at indentation level 'level'; r may be null (no extension handlers)
Printed parsePrinted(const std::string &text, unsigned level);
std::string diffPrinted(const Printed &p, const Node &n, const RegSpec *r, uint32_t scope, const std::string &path = "");
