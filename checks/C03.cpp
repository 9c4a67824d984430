// C03: block-sorting transform.
// BUILD: mode=asan fuzz=120
#include <pbt/pbt.h>
#include <algorithm>
#include <numeric>
#include <hzip_core/preprocessor/burrows_wheeler.h>

using namespace pbt;
const char *pbt::property_id = "C03";
const char *pbt::rule = "symbol arrays of 0..3000 elements, now and then 32760..72760 (random, small alphabet, periodic, Fibonacci/Thue-Morse words, runs, ramps, all equal) for five "
                        "combinations of symbol and index width, alphabets up to the largest the symbol type can hold; reference: sorted suffixes by prefix doubling; "
                        "non-trivial: at least 3 symbols, not all equal";

static std::vector<uint32_t> suffixes(const std::vector<uint64_t> &v) {
    // positions of all suffixes (the empty one included) in order; end of input sorts first
    uint64_t n = v.size() + 1;
    std::vector<uint32_t> sa(n);
    std::vector<uint64_t> rank(n), tmp(n);
    std::iota(sa.begin(), sa.end(), 0);
    for (uint64_t i = 0; i < n; i++) rank[i] = i < v.size() ? v[i] + 1 : 0;
    for (uint64_t k = 1;; k *= 2) {
        auto less = [&](uint32_t a, uint32_t b) {
            if (rank[a] != rank[b]) return rank[a] < rank[b];
            uint64_t ra = a + k < n ? rank[a + k] + 1 : 0, rb = b + k < n ? rank[b + k] + 1 : 0;
            return ra < rb;
        };
        std::sort(sa.begin(), sa.end(), less);
        tmp[sa[0]] = 0;
        for (uint64_t i = 1; i < n; i++) tmp[sa[i]] = tmp[sa[i - 1]] + (less(sa[i - 1], sa[i]) ? 1 : 0);
        rank = tmp;
        if (rank[sa[n - 1]] == n - 1) break;
    }
    return sa;
}

static std::vector<uint64_t> input(G &g, uint64_t alpha) {
    uint64_t n = g.draw(1999) == 1999 ? 32760 + g.below(40000) : g.size(0, thorough() ? 3000 : 1200);
    std::vector<uint64_t> v(n);
    unsigned style = g.draw(8);
    g.label(fmt("style%u", style));
    Rng r = g.sub();
    uint64_t lo = g.below(alpha), k = std::min<uint64_t>(alpha, 1 + g.below(4)), period = 1 + g.below(9);
    auto small = [&](uint64_t x) { return (lo + x % k) % alpha; };
    for (uint64_t i = 0; i < n; i++) {
        switch (style) {
            case 0: v[i] = n <= 16 ? g.below(alpha) : r.below(alpha); break;
            case 1: v[i] = small(n <= 16 ? g.below(k) : r.below(k)); break;
            case 2: v[i] = lo; break;
            case 3: v[i] = i < period ? r.below(alpha) : v[i - period]; break;
            case 4: v[i] = small((unsigned) __builtin_popcountll(i)); break; // Thue-Morse
            case 5: v[i] = i > 0 && r.below(10) ? v[i - 1] : r.below(alpha); break; // runs
            case 6: v[i] = i % alpha; break;
            case 7: v[i] = alpha - 1 - i % alpha; break;
            default: {
                // Fibonacci word
                static std::string fib = [] {
                    std::string a = "0", b = "01";
                    while (b.size() < 73000) { auto c = b + a; a = b; b = c; }
                    return b;
                }();
                v[i] = small(fib[i] - '0');
            }
        }
    }
    if (style == 3 && n > 3 && g.boolean()) v[r.below(n)] = r.below(alpha);
    return v;
}

template<typename I, typename M>
static void run(G &g, uint64_t max_alpha) {
    uint64_t alpha = g.chance(40) ? max_alpha : 1 + g.below(max_alpha);
    auto v = input(g, alpha);
    uint64_t n = v.size();
    g.note("alphabet %llu, %llu symbols:", (unsigned long long) alpha, (unsigned long long) n);
    for (uint64_t i = 0; i < std::min<uint64_t>(n, 24); i++) g.note(" %llu", (unsigned long long) v[i]);
    if (n >= 3 && std::count(v.begin(), v.end(), v[0]) != (int64_t) n) g.nontrivial();
    auto data = rainman::ptr<I>(n);
    for (uint64_t i = 0; i < n; i++) data[i] = (I) v[i];
    uint64_t index;
    {
        hztrans::BurrowsWheelerTransformer<I, M> t(data, alpha);
        index = t.transform();
    }
    auto sa = suffixes(v);
    std::vector<uint64_t> want;
    uint64_t want_index = 0;
    for (uint64_t i = 0; i < sa.size(); i++) {
        if (sa[i] == 0) want_index = i;
        else want.push_back(v[sa[i] - 1]);
    }
    CHECK(index == want_index, "the input is row %llu of the sorted suffixes, reported %llu", (unsigned long long) want_index, (unsigned long long) index);
    for (uint64_t i = 0; i < n; i++) CHECK((uint64_t) data[i] == want[i], "output %llu is %lld, expected %llu", (unsigned long long) i, (long long) data[i], (unsigned long long) want[i]);
    {
        hztrans::BurrowsWheelerTransformer<I, M> t(data, alpha);
        t.invert(index);
    }
    for (uint64_t i = 0; i < n; i++) CHECK((uint64_t) data[i] == v[i], "symbol %llu comes back as %lld, was %llu", (unsigned long long) i, (long long) data[i], (unsigned long long) v[i]);
}

static void i16(G &g) { run<int16_t, int32_t>(g, 256); }
static void i32(G &g) { run<int32_t, int32_t>(g, 2000); }
static void i32w(G &g) { run<int32_t, int64_t>(g, 600); }
static void u8(G &g) { run<uint8_t, int32_t>(g, 255); }
static void u16(G &g) { run<uint16_t, uint32_t>(g, 3000); }

std::vector<Prop> pbt::properties() {
    return {{"int16_int32", i16, 40000, 600000}, {"int32_int32", i32, 24000, 300000}, {"int32_int64", i32w, 16000, 300000}, {"uint8_int32", u8, 24000, 300000}, {"uint16_uint32", u16, 16000, 300000}};
}
