// C33: first-order context model.
// BUILD: repo=hzip_core/models/first_order_context.cpp mode=asan
#include <pbt/pbt.h>
#include <hzip_core/models/models.h>

using namespace pbt;
const char *pbt::property_id = "C33";
const char *pbt::rule = "alphabets of 1..300 symbols and histories of sequential updates, direct updates, reverts and sets against a dense count table; "
                        "non-trivial: at least 2 symbols and 3 operations that change a count";

static void history(G &g) {
    uint64_t a = 1 + g.size(0, 299);
    hzmodels::FirstOrderContextModel m;
    m.set_alphabet_size(a);
    std::vector<uint64_t> ref(a * a, 1);
    int64_t prev = -1;
    uint64_t ops = g.size(0, g.chance(2) ? 3000 : 60), changed = 0;
    auto delta = [&]() -> uint64_t { return g.chance(12) ? 0 : g.chance(20) ? g.u64(1ull << 50) : 1 + g.below(1000); };
    g.note("alphabet %llu:", (unsigned long long) a);
    auto sym = [&] { return g.chance(40) ? (g.boolean() ? a - 1 : 0) : g.below(a); };
    for (uint64_t k = 0; k < ops; k++) {
        switch (g.weighted({6, 2, 2, 1, 2})) {
            case 0: {
                uint64_t s = sym();
                if (g.boolean()) {
                    m.update(s);
                    if (prev >= 0) ref[prev * a + s] += 1;
                } else {
                    uint64_t d = delta();
                    m.update(s, d);
                    if (prev >= 0) ref[prev * a + s] += d;
                }
                if (prev >= 0) changed++;
                g.note(" u%llu", (unsigned long long) s);
                prev = (int64_t) s;
                break;
            }
            case 1: {
                uint64_t p = sym(), s = sym(), d = delta();
                m.update(p, s, d);
                ref[p * a + s] += d;
                changed++;
                g.note(" u(%llu,%llu)+%llu", (unsigned long long) p, (unsigned long long) s, (unsigned long long) d);
                break;
            }
            case 2: {
                uint64_t p = sym(), s = sym();
                uint64_t d = g.chance(20) ? ref[p * a + s] : g.below(ref[p * a + s] + 1);
                m.revert(p, s, d);
                ref[p * a + s] -= d;
                changed++;
                g.note(" r(%llu,%llu)-%llu", (unsigned long long) p, (unsigned long long) s, (unsigned long long) d);
                break;
            }
            case 3: {
                uint64_t p = sym(), s = sym(), v = g.u64(1ull << 40);
                m.set(p, s, v);
                ref[p * a + s] = v;
                changed++;
                g.note(" s(%llu,%llu)=%llu", (unsigned long long) p, (unsigned long long) s, (unsigned long long) v);
                break;
            }
            default: {
                uint64_t c = sym();
                auto d = m.get_dist(c);
                CHECK(d.size() == a, "the distribution has %llu entries", (unsigned long long) d.size());
                for (uint64_t j = 0; j < a; j++) CHECK(d[j] == ref[c * a + j], "count (%llu,%llu) is %llu, expected %llu", (unsigned long long) c, (unsigned long long) j, (unsigned long long) d[j], (unsigned long long) ref[c * a + j]);
            }
        }
    }
    for (uint64_t c = 0; c < a; c++) {
        auto d = m.get_dist(c);
        for (uint64_t j = 0; j < a; j++) CHECK(d[j] == ref[c * a + j], "at the end count (%llu,%llu) is %llu, expected %llu", (unsigned long long) c, (unsigned long long) j, (unsigned long long) d[j], (unsigned long long) ref[c * a + j]);
    }
    if (a > 1 && changed >= 3) g.nontrivial();
}

std::vector<Prop> pbt::properties() { return {{"history", history, 60000, 900000}}; }
