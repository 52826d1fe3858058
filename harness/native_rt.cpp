// Native counterpart of the engine's intrinsics: replays one concrete input file against the really compiled code.
#include "symx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <typeinfo>
#include <cxxabi.h>

static std::map<std::string, std::string> gIn;
static std::map<std::string, int> gCtr;
static bool gFault = false; static int gBudget = 0, gInjected = 0, gMallocCtr = 0;
static long gLive = 0;
static int gFailed = 0;
static std::FILE* gOut = stdout;

extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void  __real_free(void*);

static std::string key(const std::string& n) { int k = gCtr[n]++; return k ? n + "#" + std::to_string(k) : n; }
static const std::string* look(const std::string& n) { auto it = gIn.find(n); return it == gIn.end() ? nullptr : &it->second; }

static bool failNow()
{
    if (!gFault || gBudget <= 0) return false;
    ++gMallocCtr;
    char nm[64]; snprintf(nm, sizeof nm, "mallocfail!%d", gMallocCtr);
    const bool f0 = gFault; gFault = false;
    auto v = look(nm);
    const bool fail = v && *v == "1";
    gFault = f0;
    if (fail) { --gBudget; ++gInjected; }
    return fail;
}
extern "C" void* __wrap_malloc(size_t n) { if (failNow()) return nullptr; void* p = __real_malloc(n); if (p) ++gLive; return p; }
extern "C" void* __wrap_calloc(size_t a, size_t b) { if (failNow()) return nullptr; void* p = __real_calloc(a, b); if (p) ++gLive; return p; }
extern "C" void* __wrap_realloc(void* o, size_t n) { if (failNow()) return nullptr; void* p = __real_realloc(o, n); if (p && !o) ++gLive; return p; }
extern "C" void  __wrap_free(void* p) { if (p) --gLive; __real_free(p); }

static void fail(const char* label, const char* extra = "")
{
    ++gFailed;
    fprintf(gOut, "NATIVE-FAIL %s %s\n", label, extra); fflush(gOut);
    _Exit(1);                   // what follows need not make sense
}

extern "C" {
double symx_double(const char* n) { auto v = look(key(n)); return v ? strtod(v->c_str(), nullptr) : 0.0; }
int symx_int(const char* n, int lo, int hi) { auto v = look(key(n)); int x = v ? atoi(v->c_str()) : lo; if (x < lo || x > hi) { fprintf(gOut, "NATIVE-ASSUME\n"); fflush(gOut); _Exit(77); } return x; }
unsigned symx_u32(const char* n) { auto v = look(key(n)); return v ? (unsigned) strtoul(v->c_str(), nullptr, 10) : 0; }
unsigned long symx_u64(const char* n) { auto v = look(key(n)); return v ? strtoul(v->c_str(), nullptr, 10) : 0; }
int symx_choose(const char* n, int k) { return symx_int(n, 0, k - 1); }
int symx_concretize(int v) { return v; }
void symx_assume(int c) { if (!c) { fprintf(gOut, "NATIVE-ASSUME\n"); fflush(gOut); _Exit(gFailed ? 1 : 77); } }
void symx_assert(int c, const char* l) { if (!c) fail(l); }
void symx_close(double a, double b, double rt, double at, const char* l)
{
    if (a == b) return;
    if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= at + rt * std::fabs(b)) return;
    char t[100]; snprintf(t, sizeof t, "(%.17g vs %.17g)", a, b); fail(l, t);
}
void symx_le(double a, double b, double tol, const char* l) { if (!(a <= b + tol)) { char t[100]; snprintf(t, sizeof t, "(%.17g > %.17g)", a, b); fail(l, t); } }
void symx_reach(const char*) {}
void symx_observe(const char* n, double v) { fprintf(gOut, "OBS %s %.17g\n", n, v); }
void symx_observe_int(const char* n, long v) { fprintf(gOut, "OBS %s %ld\n", n, v); }
void symx_fault_begin(int b) { gFault = true; gBudget = b; gInjected = 0; }
int symx_fault_end(void) { gFault = false; return gInjected; }
int symx_fault_count(void) { return gInjected; }
size_t symx_live_allocs(void) { return (size_t) gLive; }
int symx_symbolic(void) { return 0; }
}

struct EntryRec { const char* name; void (*fn)(); };
extern EntryRec symx_entries[];

int main(int argc, char** argv)
{
    if (argc < 3) { fprintf(stderr, "usage: %s ENTRY INPUTS\n", argv[0]); return 2; }
    std::ifstream f(argv[2]); std::string l;
    while (std::getline(f, l)) { auto p = l.find('\t'); if (p != std::string::npos) gIn[l.substr(0, p)] = l.substr(p + 1); }
    for (EntryRec* e = symx_entries; e->name; ++e) if (!strcmp(e->name, argv[1])) {
        try { e->fn(); }
        catch (const std::exception& x) { gFault = false; fail("uncaught exception", x.what()); }
        catch (...) { gFault = false; fail("uncaught exception"); }
        fprintf(gOut, "NATIVE-END %d\n", gFailed);
        return gFailed ? 1 : 0;
    }
    fprintf(stderr, "no entry %s\n", argv[1]);
    return 2;
}
