// C27: random samples.
#include "common.hpp"
#include <opm/utility/numeric/RandomVector.hpp>
#include <cstdint>
#include <cstring>
#include <vector>

using Opm::RandomVector;


#ifndef RW
#define RW 2
#endif

// Replace the next words of the bit generator (a 624-word Mersenne twister behind the only data member) by arbitrary ones.
// Returns false when the object is laid out differently, in which case the concrete bit sequence is used instead.
static bool arbitraryBits(RandomVector& rv, int words)
{
    rv.index(1, 1);                       // state words are now regenerated and one of them is used up
    void* p; std::memcpy(&p, &rv, sizeof p);
    uint64_t* s = static_cast<uint64_t*>(p);
    if (sizeof(rv) != sizeof(void*) || s[624] != 1) return false;
    for (int i = 0; i < 8; ++i) if (s[i] > 0xffffffffu) return false;
    for (int i = 0; i < words; ++i) s[1 + i] = symx_u32(nm("w", i).c_str());
    return true;
}

static void indexIn(int max, int n)
{
    RandomVector rv;
    const bool any = arbitraryBits(rv, RW);
    const std::vector<int> v = rv.index(n, max);
    symx_assert((int) v.size() == n, "the requested number of indices");
    for (int x : v) symx_assert(x >= 0 && x <= max, "every index is between zero and the maximum");
    if (any) symx_reach("index: arbitrary bits");
}

extern "C" void c27_index() { indexIn(oneOf("max", { 0, 1, 2, 3, 4, 6, 9, 99, 255, 1000, 65535, 1 << 30, 0x7ffffffe, 0x7fffffff }), 1); }

extern "C" void c27_index2() { const int m = oneOf("max", { 0, 1, 2, 6, 99 }); indexIn(m, pick("n", 4)); }

// Symbolic maximum, the generator's own bits.
extern "C" void c27_max()
{
    RandomVector rv;
    const int warm = pick("warm", 3);
    rv.index(warm, 5);
    const int n = pick("n", 2) + DEEP;
    const int max = symInt("max", 0, DEEP ? 0xffff : 0xfff);
    const std::vector<int> v = rv.index(n, max);
    symx_assert((int) v.size() == n, "the requested number of indices");
    for (int x : v) symx_assert(x >= 0 && x <= max, "every index is between zero and the maximum");
    symx_reach("index: any maximum");
}

// Every value in range occurs: a witness among the first samples.
extern "C" void c27_attain()
{
    const int max = pick("max", 7);
    RandomVector rv;
    const int n = 60 * (max + 1);
    const std::vector<int> v = rv.index(n, max);
    symx_assert((int) v.size() == n, "the requested number of indices");
    for (int t = 0; t <= max; ++t) {
        bool hit = false; for (int x : v) hit |= x == t;
        symx_assert(hit, "every value in range can occur");
    }
}

// Normal samples with any mean and deviation.
extern "C" void c27_normal()
{
    const int n0 = pick("n0", 3), n = pick("n", 6), n1 = pick("n1", 3);
    const double m = symDbl("mean"), s = symDbl("stdev");
    symx_assume(m >= -1e6 && m <= 1e6 && s >= 1e-6 && s <= 1e6);
    RandomVector a, b;
    a.normal(n0, 0, 1); b.normal(n0, 0, 1);
    const std::vector<double> std0 = a.normal(n, 0.0, 1.0), x = b.normal(n, m, s);
    symx_assert((int) x.size() == n && (int) std0.size() == n, "the requested number of samples");
    for (int i = 0; i < n; ++i) symx_close(x[i], std0[i] * s + m, 1e-12, 1e-12 * 1e6, "each sample is the standard sample scaled and shifted");
    const std::vector<int> i1 = a.index(n1, 50), i2 = b.index(n1, 50);
    symx_assert(i1 == i2, "the same requests give the same values");
    bool spread = n < 2; for (int i = 1; i < n; ++i) spread |= std0[i] != std0[0];
    symx_assert(spread, "samples are not all equal");
    symx_reach("normal");
}

// Two generators, the same history of requests: the same values, whether interleaved or one after the other.
static std::vector<double> request(RandomVector& r, int kind, int n, int max, double mean, double sd)
{
    if (kind == 0) { std::vector<double> o; for (int x : r.index(n, max)) o.push_back(x); return o; }
    return r.normal(n, mean, sd);
}
extern "C" void c27_repeat()
{
    const int steps = 3;
    const bool interleave = pick("interleave", 2);
    int kind[3], n[3], max[3]; double mean[3], sd[3];
    for (int i = 0; i < steps; ++i) {
        kind[i] = pick(nm("kind", i), 2); n[i] = pick(nm("n", i), 4); max[i] = 0; mean[i] = 0; sd[i] = 1;
        if (kind[i] == 0) max[i] = 1 + 498 * pick(nm("max", i), 2);
        else { mean[i] = symDbl(nm("mean", i)); sd[i] = symDbl(nm("sd", i)); symx_assume(mean[i] > -1e3 && mean[i] < 1e3 && sd[i] > 1e-3 && sd[i] < 1e3); }
    }
    RandomVector a;
    std::vector<std::vector<double>> ra, rb;
    if (!interleave) for (int i = 0; i < steps; ++i) ra.push_back(request(a, kind[i], n[i], max[i], mean[i], sd[i]));
    RandomVector b;
    for (int i = 0; i < steps; ++i) {
        if (interleave) ra.push_back(request(a, kind[i], n[i], max[i], mean[i], sd[i]));
        rb.push_back(request(b, kind[i], n[i], max[i], mean[i], sd[i]));
    }
    for (int i = 0; i < steps; ++i) {
        symx_assert((int) ra[i].size() == n[i] && (int) rb[i].size() == n[i], "the requested number of samples");
        for (int k = 0; k < n[i]; ++k) symx_close(ra[i][k], rb[i][k], 0, 0, "two generators return the same values");
    }
    symx_reach("repeat");
}
// long samples: count, range, both generators alike, mean and deviation
extern "C" void c27_long()
{
    const int n = oneOf<int>("n", { 700, 3000, 70000 }), max = oneOf<int>("max", { 1, 1000, 65536, 0x7fffffff });
    RandomVector a, b;
    const std::vector<int> v = a.index(n, max), w = b.index(n, max);
    symx_assert((int) v.size() == n, "the requested number of indices");
    bool in = true; int top = 0; for (int x : v) { in = in && x >= 0 && x <= max; if (x > top) top = x; }
    symx_assert(in, "every index is between zero and the maximum");
    symx_assert(v == w, "the same requests give the same values");
    symx_assert(top >= max - max / 50, "large values occur");
    const double m = symDbl("mean"), s = symDbl("stdev"); symx_assume(m >= -1e3 && m <= 1e3 && s >= 1e-3 && s <= 1e3);
    const int k = n < 3000 ? n : 40;
    const std::vector<double> z = a.normal(k, 0.0, 1.0), y = b.normal(k, m, s);
    symx_assert((int) z.size() == k && (int) y.size() == k, "the requested number of samples");
    for (int i = 0; i < k; ++i) symx_close(y[i], z[i] * s + m, 1e-12, 1e-9, "each sample is the standard sample scaled and shifted");
    const std::vector<double> q = a.normal(n, 2.0, 0.5); double sum = 0, dev = 0;
    for (double x : q) sum += x; sum /= n;
    for (double x : q) dev += (x - sum) * (x - sum);
    symx_assert((int) q.size() == n && sum > 1.9 && sum < 2.1 && dev / n > 0.2 && dev / n < 0.3, "samples have the requested mean and deviation");
    symx_reach("long");
}
ENTRIES(E(c27_long), E(c27_index), E(c27_index2), E(c27_max), E(c27_attain), E(c27_normal), E(c27_repeat))
