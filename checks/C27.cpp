// C27: segmented stack.
// BUILD: mode=asan
#include <pbt/pbt.h>
#include <hzip_core/utils/stack.h>

using namespace pbt;
const char *pbt::property_id = "C27";
const char *pbt::rule = "histories of up to 60 bursts of pushes/pops (1..200000 elements each, aimed at segment boundaries and at empty) against a vector; "
                        "non-trivial: a segment boundary crossed downwards, or pushes after the stack was emptied";

template<typename T>
static void history(G &g, const char *tn, uint64_t max_burst, uint64_t max_total) {
    auto holder = rainman::ptr<HZ_Stack<T>>();
    auto &s = *holder;
    std::vector<T> m;
    uint64_t ctr = 1, ops = g.range(1, 14), seg = 65536;
    bool emptied = false, nt = false;
    g.note("%s:", tn);
    auto same = [&](const char *when) {
        CHECK(s.empty() == m.empty(), "%s: empty() is %d with %zu values held", when, (int) s.empty(), m.size());
        CHECK(s.size() == m.size(), "%s: size() is %llu, expected %zu", when, (unsigned long long) s.size(), m.size());
        if (!m.empty()) CHECK(s.top() == m.back(), "%s: top() is not the most recently pushed value", when);
    };
    same("at the start");
    for (uint64_t k = 0; k < ops; k++) {
        uint64_t n;
        bool push;
        switch (g.weighted({4, 3, 2, 2, 1})) {
            case 0:
                push = true;
                n = g.size(1, 40);
                break;
            case 1:
                push = false;
                n = g.size(1, 40);
                break;
            case 2: { // push up to just around the next boundary
                push = true;
                uint64_t next = (m.size() / seg + 1) * seg;
                n = next - m.size() + g.below(5);
                n = n > 2 ? n - 2 : 1;
                break;
            }
            case 3: { // pop to around the boundary below, or to empty
                push = false;
                uint64_t below = g.boolean() ? 0 : (m.size() / seg) * seg;
                n = m.size() - below + g.below(4);
                break;
            }
            default:
                push = g.boolean();
                n = g.size(1, max_burst);
        }
        if (n > max_burst) n = max_burst;
        if (push && m.size() + n > max_total) push = false;
        g.note(" %s%llu", push ? "+" : "-", (unsigned long long) n);
        uint64_t before = m.size();
        for (uint64_t i = 0; i < n; i++) {
            if (push) {
                T v = (T) (ctr++ * 0x9e3779b97f4a7c15ull);
                s.push(v);
                m.push_back(v);
            } else {
                if (!m.empty()) CHECK(s.top() == m.back(), "pop %llu of the burst would give a wrong value", (unsigned long long) i);
                s.pop();
                if (!m.empty()) m.pop_back();
            }
            bool edge = m.size() % seg < 3 || m.size() % seg > seg - 3;
            if (edge && n < 300) same("inside a burst");
        }
        same("after a burst");
        if (push && emptied) {
            nt = true;
            g.label("push after empty");
        }
        if (m.empty() && before > 0) emptied = true;
        if (!push && before / seg != m.size() / seg) {
            nt = true;
            g.label("boundary crossed downwards");
        }
        if (m.size() > 2 * seg) g.label("three segments");
    }
    if (nt) g.nontrivial();
    if (g.boolean()) {
        while (!m.empty()) {
            CHECK(s.top() == m.back(), "final drain: wrong value with %zu left", m.size());
            s.pop();
            m.pop_back();
        }
        same("after the final drain");
    }
}

static void u32(G &g) { history<uint32_t>(g, "u32", 140000, 220000); }

static void u8(G &g) { history<uint8_t>(g, "u8", 140000, 220000); }

static void u64(G &g) { history<uint64_t>(g, "u64", 140000, 220000); }

std::vector<Prop> pbt::properties() { return {{"u32", u32, 2400, 40000}, {"u8", u8, 800, 10000}, {"u64", u64, 800, 10000}}; }
