// C06: zig-zag traversal.
// BUILD: mode=asan
#include <pbt/pbt.h>
#include <hzip_core/preprocessor/zigzag.h>

using namespace pbt;
const char *pbt::property_id = "C06";
const char *pbt::rule = "matrix sizes (0..300 on each side, plus thin matrices up to 60000 long, walked completely; and single steps "
                        "from arbitrary cells of matrices up to 2^32-1 on a side) with random mixes of pre/post increment; "
                        "non-trivial: width and height both at least 2";

using ZZ = hztrans::ZigZagTransformer;
using It = ZZ::const_iterator;

struct Cell {
    uint64_t x, y;
    bool end;
};

// Reference: JPEG order. Even anti-diagonals run up-right, odd ones down-left, the first step goes right.
static Cell ref_next(uint64_t x, uint64_t y, uint64_t w, uint64_t h) {
    uint64_t d = x + y;
    if (d % 2 == 0) {
        if (x + 1 < w && y > 0) return {x + 1, y - 1, false};
    } else {
        if (x > 0 && y + 1 < h) return {x - 1, y + 1, false};
    }
    d++;
    if (d > w + h - 2) return {0, 0, true};
    if (d % 2 == 1) { // starts at its top-right end
        x = std::min(d, w - 1);
        return {x, d - x, false};
    }
    y = std::min(d, h - 1);
    return {d - y, y, false};
}

static void full_walk(G &g) {
    uint64_t w, h;
    switch (g.weighted({6, 1, 1, 2})) {
        case 0:
            w = g.size(0, 40);
            h = g.size(0, 40);
            break;
        case 1:
            w = g.size(0, 60000);
            h = g.size(0, 3);
            break;
        case 2:
            w = g.size(0, 3);
            h = g.size(0, 60000);
            break;
        default:
            w = g.size(0, 300);
            h = g.size(0, 300);
    }
    unsigned style = g.draw(3); // 0 range-for, 1 prefix, 2 postfix, 3 mixed
    g.note("%llu x %llu, style %u", (unsigned long long) w, (unsigned long long) h, style);
    if (w > 1 && h > 1) g.nontrivial();
    g.label(w == 0 || h == 0 ? "empty" : w == 1 || h == 1 ? "line" : w == h ? "square" : "rectangle");
    g.label(fmt("style%u", style));
    ZZ t((uint32_t) w, (uint32_t) h);
    uint64_t total = w * h, steps = 0;
    Cell e{0, 0, total == 0};
    auto at = [&](uint32_t x, uint32_t y, const char *what) {
        CHECK(!e.end, "%s: the traversal visits (%u,%u) after all %llu cells", what, x, y, (unsigned long long) total);
        CHECK(x == e.x && y == e.y, "%s: step %llu is cell (%u,%u), expected (%llu,%llu)", what,
              (unsigned long long) steps, x, y, (unsigned long long) e.x, (unsigned long long) e.y);
    };
    auto advance = [&] {
        e = ref_next(e.x, e.y, w, h);
        steps++;
    };
    if (style == 0) {
        for (auto c: t) {
            at(c.x, c.y, "range-for");
            advance();
        }
    } else {
        Rng r = g.sub();
        It it = t.begin();
        auto end = t.end();
        while (it != end) {
            CHECK(!(it == end), "an iterator is both equal and unequal to end");
            at(it.x, it.y, "iterator");
            auto d = *it;
            at(d.x, d.y, "dereferenced iterator");
            bool pre = style == 1 || (style == 3 && r.below(2));
            Cell was = e;
            advance();
            if (pre) {
                auto n = ++it;
                CHECK(n == it, "prefix increment does not give the advanced iterator");
                if (!e.end) at(n.x, n.y, "prefix increment");
            } else {
                auto o = it++;
                CHECK(o.x == was.x && o.y == was.y, "postfix increment gives (%u,%u), expected the old cell (%llu,%llu)",
                      o.x, o.y, (unsigned long long) was.x, (unsigned long long) was.y);
                auto q = o;
                ++q;
                CHECK(q == it, "the iterator returned by postfix increment is not the old position");
            }
        }
    }
    CHECK(steps == total && e.end, "the traversal ends after %llu of %llu cells", (unsigned long long) steps,
          (unsigned long long) total);
}

static void big_step(G &g) {
    uint64_t w = 1 + g.u64(0xfffffffeull), h = 1 + g.u64(0xfffffffeull);
    uint64_t x, y;
    auto edge = [&](uint64_t n) {
        switch (g.draw(3)) {
            case 0:
                return std::min<uint64_t>(g.below(4), n - 1);
            case 1:
                return n - 1 - std::min<uint64_t>(g.below(4), n - 1);
            default:
                return g.u64(n - 1);
        }
    };
    x = edge(w);
    y = edge(h);
    g.note("%llu x %llu from (%llu,%llu)", (unsigned long long) w, (unsigned long long) h, (unsigned long long) x, (unsigned long long) y);
    if (w > 1 && h > 1) g.nontrivial();
    ZZ t((uint32_t) w, (uint32_t) h);
    It it(ZZ::zigzag_pair{.x=(uint32_t) x, .y=(uint32_t) y}, (uint32_t) w, (uint32_t) h);
    auto end = t.end();
    Cell e{x, y, false};
    for (int i = 0; i < 8; i++) {
        CHECK(it != end, "the walk ended before cell (%llu,%llu)", (unsigned long long) e.x, (unsigned long long) e.y);
        e = ref_next(e.x, e.y, w, h);
        ++it;
        if (e.end) {
            CHECK(it == end, "the walk does not end after the last cell");
            g.label("reached end");
            break;
        }
        CHECK(it != end && it.x == e.x && it.y == e.y, "step %d goes to (%u,%u), expected (%llu,%llu)", i + 1, it.x, it.y,
              (unsigned long long) e.x, (unsigned long long) e.y);
    }
}

std::vector<Prop> pbt::properties() {
    return {{"walk", full_walk, 20000, 400000},
            {"step", big_step, 100000, 3000000}};
}
