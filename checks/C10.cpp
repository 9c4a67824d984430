// C10: Sharingan pixel streams.
// BUILD: repo=hzip_codec/*,hzip_core/*,hzip_storage/* mode=asan libs=crypto,png,loguru extra=fakecl
#include <pbt/pbt.h>
#include "png_gen.h"
#include <hzip_codec/sharingan/sharingan.h>
#include <hzip_codec/sharingan/state_transition.h>
#include <hzip_core/kernel/hzrans/hzrans64.h>
#include <hzip_core/opencl/cl_helper.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/runtime/cache_provider.h>
#include <fakecl/fakecl.h>

using namespace pbt;
const char *pbt::property_id = "C10";
const char *pbt::rule = "PNG images of 1x1 to 40x40 (some up to 260x260, a few beyond 1,000,000 pixels) of every colour type and bit depth, chunk sizes 1..300, context orders 0..5, learning rates 0..70000, 0..2 OpenCL devices, "
                        "through the codec; sample planes of the same shapes through the CPU, OpenCL and static model coders; non-trivial: two or more distinct samples and more than one pixel";

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

using u64 = unsigned long long;
using Vec = std::vector<uint16_t>;

namespace {
    const uint64_t TOTAL = 1u << 24;

    struct Shape {
        uint64_t w, h, ch, cw, chh;
        unsigned depth;
        uint8_t order;
        uint64_t rate;

        unsigned shift() const { return depth > 8 ? depth - 8 : 0; }

        uint64_t size() const { return w * h * ch * (shift() ? 2 : 1); }
    };

    // A source of symbols for the model below: given the frequencies in force, the next symbol.
    struct Coder {
        virtual uint8_t next(const uint64_t *freq) = 0; // freq sums to 2^24; null: equal parts

        virtual ~Coder() = default;
    };

    // Reads symbols from the emitted words.
    struct Reader : Coder {
        const rainman::ptr<uint32_t> &d;
        uint64_t n, at = 2, x;

        Reader(const rainman::ptr<uint32_t> &d, uint64_t n) : d(d), n(n) {
            CHECK(n >= 2, "the stream has %llu words, not even a state", (u64) n);
            x = d[0] | (uint64_t) d[1] << 32;
        }

        uint8_t next(const uint64_t *f) override {
            uint64_t slot = x & (TOTAL - 1), bs = 0, ls = 65536;
            unsigned s = 0;
            if (f == nullptr) {
                s = (unsigned) (slot >> 16);
                bs = (uint64_t) s << 16;
            } else {
                while (s < 256 && slot >= bs + f[s]) bs += f[s++];
                CHECK(s < 256, "the table does not cover slot %llu", (u64) slot);
                ls = f[s];
            }
            x = ls * (x >> 24) + slot - bs;
            if (x < (1ull << 31)) {
                CHECK(at < n, "the stream ends too early (%llu words)", (u64) n);
                x = x << 32 | d[at++];
            }
            return (uint8_t) s;
        }
    };

    // Knows the symbols in coding order and checks the coder's pairs against the tables.
    struct Follower : Coder {
        const std::vector<SSTPair> &p;
        uint64_t at = 0;
        const std::vector<uint8_t> &sym;
        const char *what;

        Follower(const std::vector<SSTPair> &p, const std::vector<uint8_t> &sym, const char *what) : p(p), sym(sym), what(what) {}

        uint8_t next(const uint64_t *f) override {
            // at is set by the caller to the position of the symbol
            uint8_t s = sym[at];
            uint64_t ls = 65536, bs = (uint64_t) s << 16;
            if (f) {
                ls = f[s];
                bs = 0;
                for (unsigned i = 0; i < s; i++) bs += f[i];
            }
            CHECK(p[at].ls == ls && p[at].bs == bs, "%s: position %llu (symbol %u) has frequency %u at %u, the model says %llu at %llu", what, (u64) at, s, p[at].ls, p[at].bs, (u64) ls, (u64) bs);
            return s;
        }
    };

    void table(const uint64_t *counts, uint64_t *out) {
        hzrans64_t st;
        st.size = 256;
        st.scale = 24;
        st.ftable = out;
        hzrans64_create_ftable_nf(&st, counts);
        uint64_t sum = 0;
        for (int i = 0; i < 256; i++) {
            CHECK(out[i] > 0, "symbol %d has frequency zero", i);
            sum += out[i];
        }
        CHECK(sum == TOTAL, "frequencies sum to %llu", (u64) sum);
    }

    // The documented model: per channel and chunk, leading bytes by first-order context, then residues by frequency.
    // Calls visit(position, next) in position order of each chunk. Symbols come back in `sym` by position.
    struct Model {
        const Shape &s;
        std::vector<uint8_t> sym;
        std::vector<uint64_t> map;

        explicit Model(const Shape &s) : s(s), sym(s.size()), map(65536) {}

        // Positions are visited chunk by chunk only when `follow`; a stream is coded in position order, so all chunks
        // advance in parallel there.
        template<typename F>
        void run(F next) {
            // contexts of a chunk are independent: keep one per chunk of the current row of chunks
            uint64_t xc = (s.w + s.cw - 1) / s.cw, px = s.w * s.h;
            std::vector<std::vector<uint64_t>> maps(xc, std::vector<uint64_t>(65536)), dist(xc, std::vector<uint64_t>(256));
            uint64_t f[256];
            for (uint64_t c = 0; c < s.ch; c++)
                for (uint64_t y = 0; y < s.h; y++) {
                    uint64_t cy = y % s.chh;
                    if (cy == 0) for (auto &m: maps) std::fill(m.begin(), m.end(), 0);
                    for (uint64_t x = 0; x < s.w; x++) {
                        uint64_t cx = x % s.cw, at = c * px + y * s.w + x;
                        auto &m = maps[x / s.cw];
                        int ctx = cx > 0 ? sym[at - 1] : cy > 0 && s.order > 1 ? sym[at - s.w] : -1;
                        if (ctx >= 0) table(&m[ctx * 256], f);
                        uint8_t v = sym[at] = next(at, ctx >= 0 ? f : nullptr);
                        if (cx > 0) m[sym[at - 1] * 256 + v] += s.rate;
                        if (cy > 0 && s.order > 1) m[sym[at - s.w] * 256 + v] += s.rate;
                        if (cx > 0 && cy > 0 && s.order > 2) m[sym[at - s.w - 1] * 256 + v] += s.rate >> 1;
                    }
                }
            if (!s.shift()) return;
            for (uint64_t c = 0; c < s.ch; c++)
                for (uint64_t y = 0; y < s.h; y++) {
                    uint64_t cy = y % s.chh;
                    if (cy == 0) for (auto &d: dist) std::fill(d.begin(), d.end(), 0);
                    for (uint64_t x = 0; x < s.w; x++) {
                        uint64_t cx = x % s.cw, at = (s.ch + c) * px + y * s.w + x;
                        auto &d = dist[x / s.cw];
                        bool first = cx == 0 && cy == 0;
                        if (!first) table(d.data(), f);
                        uint8_t v = sym[at] = next(at, first ? nullptr : f);
                        d[v] += s.rate << 1;
                    }
                }
        }

        Vec planes() const {
            uint64_t n = s.w * s.h * s.ch;
            Vec v(n);
            for (uint64_t i = 0; i < n; i++) v[i] = s.shift() ? sym[i] << s.shift() | (sym[n + i] & ((1u << s.shift()) - 1)) : sym[i];
            return v;
        }
    };

    void params(G &g, Shape &s) {
        static const uint64_t rates[] = {32, 0, 1, 2, 3, 255, 70000};
        s.cw = g.chance(40) ? 64 : 1 + g.size(0, 299);
        s.chh = g.chance(40) ? 64 : 1 + g.size(0, 299);
        s.order = g.chance(50) ? 3 : (uint8_t) g.below(6);
        s.rate = g.chance(50) ? 32 : rates[g.below(7)];
        // the coders clear half a megabyte per chunk
        while (((s.w + s.cw - 1) / s.cw) * ((s.h + s.chh - 1) / s.chh) * s.ch > 150) {
            if ((s.w + s.cw - 1) / s.cw > 1) s.cw *= 2;
            else s.chh *= 2;
        }
        g.note("chunks %llux%llu order %u rate %llu", (u64) s.cw, (u64) s.chh, s.order, (u64) s.rate);
    }

    unsigned devices(G &g, bool at_least_one) {
        unsigned n = at_least_one ? 1 + g.draw(1) : g.draw(2);
        std::vector<fakecl::DeviceSpec> v;
        static const uint64_t wg[] = {1, 32, 64, 7};
        for (unsigned i = 0; i < n; i++) v.push_back({"dev" + std::to_string(i), wg[g.below(4)]});
        fakecl::reset(n ? std::vector<std::vector<fakecl::DeviceSpec>>{v} : std::vector<std::vector<fakecl::DeviceSpec>>{{}}, g.draw(1000));
        hzopencl::DeviceProvider::load_devices();
        hzruntime::Config::opencl_support_enabled = n > 0;
        hzruntime::Config::opencl_kernels = 1 + g.below(40);
        hzruntime::CacheProvider::init_cache("cache", 1 + g.below(3), 1 + g.below(5000));
        return n;
    }

    unsigned absdiff(unsigned a, unsigned b) { return a > b ? a - b : b - a; }

    void unfilter(Vec &v, const Shape &s) {
        uint32_t mask = (1u << s.depth) - 1;
        for (uint64_t c = 0; c < s.ch; c++)
            for (uint64_t y = 0; y < s.h; y++)
                for (uint64_t x = 0; x < s.w; x++) {
                    uint16_t *p = &v[(c * s.h + y) * s.w + x];
                    unsigned d = 0;
                    if (x && y) {
                        unsigned a = p[-1], b = *(p - s.w), e = *(p - s.w - 1), k = absdiff(a + b, e);
                        unsigned da = absdiff(a, k), db = absdiff(b, k), dc = absdiff(e, k);
                        d = da <= db && da <= dc ? a : db <= dc ? b : e;
                    } else if (x) d = p[-1];
                    else if (y) d = *(p - s.w);
                    *p = (uint16_t) ((*p + d) & mask);
                }
    }

    void uncolor(Vec &v, const Shape &s) {
        uint32_t mask = (1u << s.depth) - 1;
        uint64_t n = s.w * s.h;
        for (uint64_t i = 0; i < n; i++) {
            uint32_t y = v[i], co = v[i + n], cg = v[i + 2 * n];
            uint32_t g = (y - (cg >> 1)) & mask, t = (g + cg) & mask;
            uint32_t r = (t - (co >> 1)) & mask, b = (r + co) & mask;
            v[i] = r;
            v[i + n] = g;
            v[i + 2 * n] = b;
        }
    }

    struct Bits {
        const rainman::ptr<uint8_t> &d;
        uint64_t at = 0;

        uint64_t take(unsigned n) {
            uint64_t v = 0;
            while (n--) {
                CHECK(at / 8 < d.size(), "the header ends after %llu bytes", (u64) d.size());
                v = v << 1 | (d[at / 8] >> (7 - at % 8) & 1);
                at++;
            }
            return v;
        }
    };
}

static void codec(G &g, int size) {
    static const uint64_t lo[] = {1, 100, 1001}, hi[] = {40, 260, 1020};
    bool rgb = g.chance(40);
    auto spec = pnggen::spec(g, rgb, hi[size], lo[size], size == 2 ? g.pick({4, 11, 0}) : -1);
    auto png = pnggen::encode(g, spec);
    Shape s{spec.w, spec.h, (uint64_t) spec.channels(), 0, 0, (unsigned) spec.depth, 0, 0};
    if (spec.w * spec.h > 1 && std::adjacent_find(spec.raw.begin(), spec.raw.end(), std::not_equal_to<>()) != spec.raw.end()) g.nontrivial();
    params(g, s);
    unsigned n = devices(g, false);
    g.label(n ? "devices" : "no device");
    auto blob = rainman::ptr<HZ_Blob>();
    blob->data = rainman::ptr<uint8_t>(png.size());
    for (size_t i = 0; i < png.size(); i++) blob->data[i] = png[i];
    blob->size = blob->o_size = png.size();
    // parameters left at their defaults half of the time they equal them
    auto put = [&](const char *k, uint64_t v, uint64_t def) { if (v != def || g.boolean()) blob->codec_params.params[k] = std::to_string(v); };
    put("chunk_width", s.cw, 64);
    put("chunk_height", s.chh, 64);
    put("locality_context_order", s.order, 3);
    put("learning_rate", s.rate, 32);
    auto out = hzcodec::Sharingan().compress(blob);
    for (size_t i = 0; i < png.size(); i++) CHECK(blob->data[i] == png[i], "the input was changed");
    CHECK(out->o_size == png.size(), "original size %llu, the image has %zu bytes", (u64) out->o_size, png.size());
    CHECK(out->size == out->data.size(), "size %llu, %llu bytes of data", (u64) out->size, (u64) out->data.size());
    CHECK(out->size % 4 == 0, "%llu bytes are not whole words", (u64) out->size);
    CHECK(out->mstate->alg == hzcodec::algorithms::SHARINGAN, "the algorithm state is marked as %d", (int) out->mstate->alg);
    // header
    Bits b{out->header.raw};
    auto want = [&](const char *what, unsigned bits, uint64_t v) {
        uint64_t x = b.take(bits);
        CHECK(x == v, "the header says %s %llu, the image has %llu", what, (u64) x, (u64) v);
    };
    want("channels", 8, s.ch);
    want("width", 32, s.w);
    want("height", 32, s.h);
    want("bit depth", 8, s.depth);
    want("colour type", 8, spec.color);
    want("interlace method", 8, spec.interlaced);
    want("filter method", 8, 0);
    want("compression method", 8, 0);
    uint64_t colours = b.take(32);
    if (spec.color == PNG_COLOR_TYPE_PALETTE) {
        CHECK(colours == spec.palette.size(), "the header has %llu palette entries, the image %zu", (u64) colours, spec.palette.size());
        for (auto &c: spec.palette) {
            want("red", 8, c.red);
            want("green", 8, c.green);
            want("blue", 8, c.blue);
        }
    }
    // stream
    auto words = rainman::ptr<uint32_t>(out->size / 4);
    for (uint64_t i = 0; i < out->size / 4; i++) {
        // the stream is stored the way the other codec stores it
        words[i] = (uint32_t) out->data[4 * i] << 24 | out->data[4 * i + 1] << 16 | out->data[4 * i + 2] << 8 | out->data[4 * i + 3];
    }
    Reader r(words, out->size / 4);
    Model m(s);
    m.run([&](uint64_t, const uint64_t *f) { return r.next(f); });
    CHECK(r.at == r.n, "%llu words were not needed", (u64) (r.n - r.at));
    CHECK(r.x == 1ull << 31, "the final state is %llx", (u64) r.x);
    Vec v = m.planes();
    if (spec.color != PNG_COLOR_TYPE_PALETTE) unfilter(v, s);
    if (spec.color == PNG_COLOR_TYPE_RGB || spec.color == PNG_COLOR_TYPE_RGBA) uncolor(v, s);
    for (uint64_t c = 0; c < s.ch; c++)
        for (uint32_t y = 0; y < s.h; y++)
            for (uint32_t x = 0; x < s.w; x++) {
                unsigned got = v[(c * s.h + y) * s.w + x], exp = spec.sample(x, y, (int) c);
                CHECK(got == exp, "sample %llu of pixel (%u,%u) decodes to %u, not %u", (u64) c, x, y, got, exp);
            }
    CHECK(fakecl::complaints().empty(), "OpenCL misuse: %s", fakecl::complaints()[0].c_str());
}

static void small(G &g) { codec(g, 0); }
static void large(G &g) { codec(g, 1); }
static void huge(G &g) { codec(g, 2); } // beyond the thresholds of every OpenCL path

static void coders(G &g) {
    Shape s;
    s.w = 1 + g.size(0, 39);
    s.h = 1 + g.size(0, 39);
    s.ch = 1 + g.below(4);
    s.depth = g.chance(50) ? (g.boolean() ? 16 : 8) : 1 + (unsigned) g.draw(15);
    uint64_t n = s.w * s.h * s.ch;
    Vec v(n);
    uint32_t mask = (1u << s.depth) - 1;
    unsigned style = (unsigned) g.draw(3);
    Rng r = g.sub();
    uint32_t base = (uint32_t) g.below(mask + 1);
    for (uint64_t i = 0; i < n; i++)
        v[i] = (style == 0 ? n <= 24 ? g.below(mask + 1) : r.next() : style == 1 ? base : style == 2 ? base + r.below(3) : r.below(2) ? mask : 0) & mask;
    if (n > 1 && style != 1) g.nontrivial();
    g.note("%llux%llux%llu %u bits %s", (u64) s.w, (u64) s.h, (u64) s.ch, s.depth, hex(v.data(), n * 2, 16).c_str());
    params(g, s);
    auto buf = rainman::ptr<uint16_t>(n);
    for (uint64_t i = 0; i < n; i++) buf[i] = v[i];
    PNGBundle bundle(buf, (uint8_t) s.ch);
    bundle.ihdr.width = (uint32_t) s.w;
    bundle.ihdr.height = (uint32_t) s.h;
    bundle.ihdr.bit_depth = (uint8_t) s.depth;
    bundle.ihdr.color_type = PNG_COLOR_TYPE_RGB;
    std::vector<uint8_t> sym(s.size());
    for (uint64_t i = 0; i < n; i++) {
        sym[i] = (uint8_t) (v[i] >> s.shift());
        if (s.shift()) sym[n + i] = (uint8_t) v[i];
    }
    unsigned path = (unsigned) g.draw(3);
    devices(g, path == 1);
    static const char *names[] = {"cpu", "opencl", "dispatch", "static"};
    g.label(names[path]);
    SharinganStateTransition t(bundle, s.cw, s.chh, s.order, s.rate);
    auto take = [&](std::pair<rainman::virtual_array<SSTPair>, std::mutex &> x) {
        CHECK(x.second.try_lock(), "the cache is still locked");
        x.second.unlock();
        CHECK(x.first.size() == s.size(), "%llu pairs for %llu symbols", (u64) x.first.size(), (u64) s.size());
        std::vector<SSTPair> p;
        for (uint64_t i = 0; i < x.first.size(); i++) p.push_back(x.first.get(i));
        return p;
    };
    if (path < 3) {
        auto p = take(path == 0 ? t.cpu_dynamic_precode() : path == 1 ? t.opencl_dynamic_precode() : t.dynamic_precode());
        Follower f(p, sym, names[path]);
        Model m(s);
        m.run([&](uint64_t at, const uint64_t *q) {
            f.at = at;
            return f.next(q);
        });
    } else {
        auto maps = rainman::make_ptr3d<uint64_t>(s.ch, 256, 256);
        auto dist = rainman::ptr2d<uint64_t>(s.ch, 256);
        Rng mr = g.sub();
        std::vector<uint64_t> counts(s.ch * 65536), dc(s.ch * 256);
        uint64_t top = g.pick({1ull, 2ull, 100ull, 1000000ull});
        for (auto &x: counts) x = mr.below(4) ? 0 : mr.below(top);
        for (auto &x: dc) x = mr.below(4) ? 0 : mr.below(top);
        for (uint64_t c = 0; c < s.ch; c++) {
            for (int a = 0; a < 256; a++) {
                for (int b = 0; b < 256; b++) maps[c][a][b] = counts[(c * 256 + a) * 256 + b];
                dist[c][a] = dc[c * 256 + a];
            }
        }
        t.inject_model(maps, dist);
        auto p = take(t.static_precode());
        Follower f(p, sym, names[path]);
        uint64_t freq[256];
        for (uint64_t c = 0; c < s.ch; c++)
            for (uint64_t y = 0; y < s.h; y++)
                for (uint64_t x = 0; x < s.w; x++) {
                    uint64_t at = f.at = (c * s.h + y) * s.w + x;
                    int ctx = x ? sym[at - 1] : y && s.order > 1 ? sym[at - s.w] : -1;
                    if (ctx >= 0) table(&counts[(c * 256 + ctx) * 256], freq);
                    f.next(ctx >= 0 ? freq : nullptr);
                    if (s.shift()) {
                        f.at = n + at;
                        table(&dc[c * 256], freq);
                        f.next(freq);
                    }
                }
    }
    for (uint64_t i = 0; i < n; i++) CHECK(buf[i] == v[i], "the samples were changed");
    CHECK(fakecl::complaints().empty(), "OpenCL misuse: %s", fakecl::complaints()[0].c_str());
}

std::vector<Prop> pbt::properties() {
    return {{"codec", small, 3000, 60000},
            {"large", large, 40, 1000},
            {"huge", huge, 5, 100, SINGLE, 120},
            {"coders", coders, 3500, 80000}};
}
