#pragma once
#include "symx.h"
#include <cstddef>
#include <string>
#include <vector>

#ifndef DEEP
#define DEEP 0          // 1: thorough tier
#endif

struct EntryRec { const char* name; void (*fn)(); };
#define ENTRIES(...) EntryRec symx_entries[] = { __VA_ARGS__, { nullptr, nullptr } };
#define E(f) { #f, &f }

inline std::string nm(const char* p, int i) { return std::string(p) + std::to_string(i); }
inline std::string nm(const char* p, int i, int j) { return std::string(p) + std::to_string(i) + "_" + std::to_string(j); }
inline int symInt(const std::string& n, int lo, int hi) { return symx_int(n.c_str(), lo, hi); }
inline int pick(const std::string& n, int k) { return symx_choose(n.c_str(), k); }
inline double symDbl(const std::string& n) { return symx_double(n.c_str()); }
template <class T> T oneOf(const char* n, std::initializer_list<T> l) { return *(l.begin() + symx_choose(n, (int) l.size())); }
