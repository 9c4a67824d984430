// C04: move-to-front transform.
// BUILD: mode=asan fuzz=60
#include <pbt/pbt.h>
#include <algorithm>
#include <list>
#include <hzip_core/preprocessor/move_to_front.h>

using namespace pbt;
const char *pbt::property_id = "C04";
const char *pbt::rule = "arrays of 0..2000 symbols, now and then 32760..72760 (random, runs, small sets, ramps) over alphabets of 1..256 (8-bit) or 1..1500 (wider) symbols, for four symbol types, "
                        "with transformer objects used once or several times; non-trivial: at least 3 symbols and 2 distinct ones";

template<typename I>
static void run(G &g, uint64_t max_alpha) {
    uint64_t alpha = g.chance(40) ? max_alpha : 1 + g.below(max_alpha);
    uint64_t n = g.draw(999) == 999 ? 32760 + g.below(40000) : g.size(0, 2000);
    std::vector<uint64_t> v(n);
    Rng r = g.sub();
    unsigned style = g.draw(3);
    g.label(fmt("style%u", style));
    uint64_t k = std::min<uint64_t>(alpha, 1 + g.below(5)), lo = g.below(alpha);
    for (uint64_t i = 0; i < n; i++) {
        switch (style) {
            case 0: v[i] = n <= 16 ? g.below(alpha) : r.below(alpha); break;
            case 1: v[i] = (lo + r.below(k)) % alpha; break;
            case 2: v[i] = i > 0 && r.below(5) ? v[i - 1] : r.below(alpha); break;
            default: v[i] = i % 2 ? i % alpha : alpha - 1 - i % alpha;
        }
    }
    g.note("alphabet %llu, %llu symbols:", (unsigned long long) alpha, (unsigned long long) n);
    for (uint64_t i = 0; i < std::min<uint64_t>(n, 24); i++) g.note(" %llu", (unsigned long long) v[i]);
    if (n >= 3 && std::count(v.begin(), v.end(), v[0]) != (int64_t) n) g.nontrivial();
    std::vector<uint64_t> want(n), order(alpha);
    for (uint64_t i = 0; i < alpha; i++) order[i] = i;
    for (uint64_t i = 0; i < n; i++) {
        auto it = std::find(order.begin(), order.end(), v[i]);
        want[i] = it - order.begin();
        std::rotate(order.begin(), it, it + 1);
    }
    auto data = rainman::ptr<I>(n);
    bool same = g.boolean(); // one object for everything, or one per direction
    uint64_t rounds = 1 + (g.chance(25) ? 1 : 0);
    hztrans::MoveToFrontTransformer<I> shared(data, alpha);
    for (uint64_t round = 0; round < rounds; round++) {
        for (uint64_t i = 0; i < n; i++) data[i] = (I) v[i];
        hztrans::MoveToFrontTransformer<I> a(data, alpha), b(data, alpha);
        (same ? shared : a).transform();
        for (uint64_t i = 0; i < n; i++) CHECK((uint64_t) data[i] == want[i], "rank %llu is %lld, expected %llu", (unsigned long long) i, (long long) data[i], (unsigned long long) want[i]);
        (same ? shared : b).invert();
        for (uint64_t i = 0; i < n; i++) CHECK((uint64_t) data[i] == v[i], "symbol %llu comes back as %lld, was %llu", (unsigned long long) i, (long long) data[i], (unsigned long long) v[i]);
        if (round + 1 < rounds) { // other content through the same object in between
            for (uint64_t i = 0; i < n; i++) data[i] = (I) r.below(alpha);
            if (g.boolean()) shared.transform();
            else shared.invert();
        }
    }
}

static void i16(G &g) { run<int16_t>(g, 256); }
static void u8(G &g) { run<uint8_t>(g, 256); }
static void i32(G &g) { run<int32_t>(g, 1500); }
static void u64(G &g) { run<uint64_t>(g, 600); }

std::vector<Prop> pbt::properties() { return {{"int16", i16, 60000, 900000}, {"uint8", u8, 60000, 900000}, {"int32", i32, 24000, 400000}, {"uint64", u64, 24000, 400000}}; }
