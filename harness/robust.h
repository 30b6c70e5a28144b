#pragma once
#include "ext.h"
#include <algorithm>
// Malformed input: random bytes, chunk soups, broken hierarchies, mutated files.
std::string hostileBytes(Src &s, const RegSpec *r, std::string *how = nullptr);
