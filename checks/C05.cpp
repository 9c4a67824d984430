// C05: delta filter.
// BUILD: repo=hzip_core/preprocessor/delta.cpp mode=asan
#include <pbt/pbt.h>
#include <climits>
#include <hzip_core/preprocessor/delta.h>

using namespace pbt;
const char *pbt::property_id = "C05";
const char *pbt::rule = "arrays of int32 (length 0..20000, now and then 65530..155000; boundary values, runs, random) in a guarded heap block; "
                        "non-trivial: at least two elements that are not all equal";

static std::vector<int> gen_array(G &g, uint64_t n) {
    std::vector<int> v(n);
    unsigned style = g.draw(3);
    if (n <= 40) {
        for (auto &x: v) {
            switch (style) {
                case 0:
                    x = (int) g.draw(10);
                    break;
                case 1:
                    x = (int) (uint32_t) g.u64(0xffffffffull);
                    break;
                case 2:
                    x = g.pick({0, INT_MAX, INT_MIN, -1, 1, INT_MIN + 1});
                    break;
                default:
                    x = (int) g.irange(-1000, 1000);
            }
        }
    } else {
        Rng r = g.sub();
        int64_t walk = 0;
        for (auto &x: v) {
            switch (style) {
                case 0:
                    x = (int) r.below(256);
                    break;
                case 1:
                    x = (int) (uint32_t) r.next();
                    break;
                case 2:
                    x = r.below(2) ? INT_MAX : INT_MIN;
                    break;
                default:
                    walk += (int64_t) r.below(21) - 10;
                    x = (int) walk;
            }
        }
    }
    return v;
}

static std::string show(const std::vector<int> &v) {
    std::string s = fmt("n=%zu [", v.size());
    for (size_t i = 0; i < v.size() && i < 24; i++) s += fmt("%d ", v[i]);
    return s + "]";
}

static void roundtrip(G &g) {
    uint64_t n = g.draw(399) == 399 ? 65530 + g.below(90000) : g.size(0, 20000);
    auto v = gen_array(g, n);
    g.note("%s", show(v).c_str());
    g.label(n == 0 ? "empty" : n == 1 ? "one" : n < 40 ? "short" : "long");
    if (n > 1) for (auto x: v) if (x != v[0]) g.nontrivial();
    // The array sits between canaries (and sanitizer red zones): nothing outside it may change.
    const uint64_t guard = 4;
    std::vector<int> buf(n + 2 * guard);
    for (uint64_t i = 0; i < guard; i++) buf[i] = buf[guard + n + i] = 0x5a5a5a5a;
    std::copy(v.begin(), v.end(), buf.begin() + guard);
    hztrans::DeltaTransformer t(buf.data() + guard, n);
    bool again = g.chance(20);
    unsigned rounds = again ? 2 : 1;
    auto expect = v;
    for (unsigned k = 0; k < rounds; k++) {
        for (uint64_t i = n; i-- > 1;) expect[i] = (int) ((uint32_t) expect[i] - (uint32_t) expect[i - 1]);
        t.transform();
        for (uint64_t i = 0; i < n; i++)
            CHECK(buf[guard + i] == expect[i], "forward filter (pass %u): element %llu is %d, expected %d", k + 1, (unsigned long long) i, buf[guard + i], expect[i]);
    }
    for (unsigned k = 0; k < rounds; k++) t.invert();
    for (uint64_t i = 0; i < n; i++)
        CHECK(buf[guard + i] == v[i], "inverse filter: element %llu is %d, expected %d", (unsigned long long) i, buf[guard + i], v[i]);
    for (uint64_t i = 0; i < guard; i++)
        CHECK(buf[i] == 0x5a5a5a5a && buf[guard + n + i] == 0x5a5a5a5a, "memory outside the array was changed");
    // Exact-size heap block, so that the sanitizer sees a one-element overrun; a fresh object inverts, too.
    int *h = new int[n];
    std::copy(expect.begin(), expect.end(), h);
    hztrans::DeltaTransformer u(h, n);
    for (unsigned k = 0; k < rounds; k++) u.invert();
    bool same = std::equal(v.begin(), v.end(), h);
    u.transform();
    u.invert();
    same = same && std::equal(v.begin(), v.end(), h);
    delete[] h;
    CHECK(same, "inverse filter on a fresh object does not restore the array");
}

std::vector<Prop> pbt::properties() { return {{"delta", roundtrip, 60000, 2000000}}; }
