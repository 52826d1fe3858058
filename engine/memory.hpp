// Flat memory: a fixed-address arena of host memory holding every object of the program under analysis,
// with per-byte initialisation state, per-granule ownership (bounds/lifetime) and a side table of symbolic cells.
#pragma once
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unordered_map>
#include <vector>
#include <fstream>
#include <sstream>

namespace symx {

struct Sym;

struct Val {
    uint64_t c = 0;
    const Sym* s = nullptr;
};

enum class AK : uint8_t { Global, Stack, Malloc, New, NewArr, Exc };

struct Alloc { uint64_t base, size; AK kind; bool live; };

struct MemError { std::string what; };

class Memory {
public:
    static constexpr uint64_t BASE = 0x200000000000ull;
    static constexpr uint64_t SIZE = 1ull << 30;

    struct Cell { const Sym* s; uint8_t size; };
    std::vector<Alloc> allocs;                       // index 0 unused
    std::unordered_map<uint64_t, Cell> cells;        // start address -> symbolic cell

    Memory()
    {
        map((void*) BASE, SIZE, true);
        init_  = (uint8_t*)  map(nullptr, SIZE, false);
        owner_ = (uint32_t*) map(nullptr, SIZE / 16 * 4, false);
        symf_  = (uint8_t*)  map(nullptr, SIZE / 8, false);
        allocs.push_back({});
    }

    bool inArena(uint64_t a) const { return a >= BASE && a < BASE + SIZE; }

    uint64_t alloc(uint64_t size, AK kind, bool initialised = false, uint64_t align = 16)
    {
        if (align < 16) align = 16;
        uint64_t b = (top_ + 32 + align - 1) & ~(align - 1);       // 32-byte (at least) red zone between objects
        if (size > SIZE || b + size + 64 > BASE + SIZE) throw MemError{ "arena exhausted" };
        top_ = (b + size + 15) & ~15ull;
        if (size == 0) top_ = b + 16;
        uint32_t id = allocs.size();
        allocs.push_back({ b, size, kind, true });
        for (uint64_t g = (b - BASE) >> 4, e = (top_ - BASE) >> 4; g < e; ++g) owner_[g] = id;
        if (initialised) memset(init_ + (b - BASE), 1, size);
        return b;
    }

    Alloc* find(uint64_t a)
    {
        if (!inArena(a)) return nullptr;
        uint32_t o = owner_[(a - BASE) >> 4];
        return o ? &allocs[o] : nullptr;
    }

    // Access check; returns true if in arena (else native memory).
    bool checkAccess(uint64_t a, uint64_t n, bool write)
    {
        if (!inArena(a)) { checkNative(a, n); return false; }
        uint32_t o = owner_[(a - BASE) >> 4];
        if (!o) throw MemError{ std::string("out-of-bounds ") + (write ? "write" : "read") };
        const Alloc& al = allocs[o];
        if (!al.live) throw MemError{ std::string(al.kind == AK::Stack ? "use-after-return " : "use-after-free ") + (write ? "write" : "read") };
        if (a < al.base || a + n > al.base + al.size)
            throw MemError{ std::string("out-of-bounds ") + (write ? "write" : "read") };
        return true;
    }

    bool anySym(uint64_t a, uint64_t n) const
    {
        if (!inArena(a) || n == 0) return false;
        for (uint64_t g = (a - BASE) >> 3, e = (a + n - 1 - BASE) >> 3; g <= e; ++g) if (symf_[g]) return true;
        return false;
    }
    bool isInit(uint64_t a, uint64_t n) const
    {
        const uint8_t* p = init_ + (a - BASE);
        if (n == 8) { uint64_t x; memcpy(&x, p, 8); return x == 0x0101010101010101ull; }
        if (n == 4) { uint32_t x; memcpy(&x, p, 4); return x == 0x01010101u; }
        for (uint64_t i = 0; i < n; ++i) if (!p[i]) return false;
        return true;
    }
    bool byteInit(uint64_t a) const { return init_[a - BASE]; }
    void markInit(uint64_t a, uint64_t n, uint8_t v = 1) { if (inArena(a)) memset(init_ + (a - BASE), v, n); }

    // Remove symbolic cells overlapping [a,a+n).  Partially overlapped cells must have been split by the caller.
    template <class Split> void clearCells(uint64_t a, uint64_t n, Split&& split)
    {
        if (!anySym(a, n)) return;
        for (uint64_t p = (a >= BASE + 7 ? a - 7 : BASE); p < a + n; ++p) {
            auto it = cells.find(p);
            if (it == cells.end()) continue;
            Cell c = it->second;
            if (p + c.size <= a) continue;
            if (p < a || p + c.size > a + n) split(p, c);
        }
        for (uint64_t p = a; p < a + n; ++p) cells.erase(p);
        refreshFlags(a, n);
    }

    void putCell(uint64_t a, const Sym* s, uint8_t n)      // caller cleared overlaps
    {
        cells[a] = Cell{ s, n };
        for (uint64_t g = (a - BASE) >> 3, e = (a + n - 1 - BASE) >> 3; g <= e; ++g) symf_[g] = 1;
        markInit(a, n);
    }

    void refreshFlags(uint64_t a, uint64_t n)
    {
        for (uint64_t g = (a - BASE) >> 3, e = (a + n - 1 - BASE) >> 3; g <= e; ++g) {
            bool any = false;
            uint64_t lo = BASE + (g << 3);
            for (uint64_t p = lo >= BASE + 7 ? lo - 7 : BASE; p < lo + 8 && !any; ++p) {
                auto it = cells.find(p);
                if (it != cells.end() && p + it->second.size > lo) any = true;
            }
            symf_[g] = any;
        }
    }

    // End of global set-up: everything above is per path.
    void seal()
    {
        sealedTop_ = top_; sealedAllocs_ = allocs.size();
        snap_.assign((char*) BASE, (char*) top_);
        snapInit_.assign(init_, init_ + (top_ - BASE));
    }
    void reset()
    {
        uint64_t used = top_ - BASE, sealed = sealedTop_ - BASE;
        memcpy((void*) BASE, snap_.data(), snap_.size());
        memcpy(init_, snapInit_.data(), snapInit_.size());
        if (used > sealed) {
            memset((char*) BASE + sealed, 0xA5, used - sealed);
            memset(init_ + sealed, 0, used - sealed + 64);
            memset(owner_ + (sealed >> 4), 0, ((used - sealed) >> 4) * 4 + 64);
        }
        memset(symf_, 0, (used >> 3) + 64);
        allocs.resize(sealedAllocs_);
        for (auto& a : allocs) a.live = true;
        cells.clear();
        top_ = sealedTop_;
    }
    uint64_t used() const { return top_ - BASE; }

    bool nativeMapped(uint64_t a, uint64_t n)
    {
        for (int pass = 0; pass < 2; ++pass) {
            for (auto& m : maps_) if (a >= m.first && a + n <= m.second) return true;
            if (pass == 0) loadMaps();
        }
        return false;
    }

private:
    uint8_t* init_; uint32_t* owner_; uint8_t* symf_;
    uint64_t top_ = BASE + 64;
    uint64_t sealedTop_ = 0, sealedAllocs_ = 0;
    std::vector<char> snap_; std::vector<uint8_t> snapInit_;
    std::vector<std::pair<uint64_t, uint64_t>> maps_;

    static void* map(void* at, uint64_t n, bool fixed)
    {
        void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (fixed ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED || (fixed && p != at)) throw std::runtime_error("mmap failed");
        return p;
    }
    void checkNative(uint64_t a, uint64_t n)
    {
        if (a < 65536) throw MemError{ "null pointer access" };
        if (!nativeMapped(a, n)) throw MemError{ "wild pointer access" };
    }
    void loadMaps()
    {
        maps_.clear();
        std::ifstream f("/proc/self/maps");
        std::string l;
        while (std::getline(f, l)) {
            uint64_t lo, hi; char r;
            if (sscanf(l.c_str(), "%lx-%lx %c", &lo, &hi, &r) == 3 && r == 'r') {
                if (!maps_.empty() && maps_.back().second == lo) maps_.back().second = hi;
                else maps_.push_back({ lo, hi });
            }
        }
    }
};

} // namespace symx
