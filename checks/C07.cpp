// C07: reversible colour transforms.
// BUILD: repo=hzip_core/preprocessor/color.cpp,hzip_core/runtime/*.cpp,hzip_core/opencl/*.cpp extra=fakecl mode=asan
#include <pbt/pbt.h>
#include <algorithm>
#include <new>
#include <hzip_core/preprocessor/color.h>
#include <hzip_core/opencl/cl_helper.h>
#include <fakecl/fakecl.h>

using namespace pbt;
const char *pbt::property_id = "C07";
const char *pbt::rule = "images of 1x1 to 70x70 (some above the 1,000,000-pixel path threshold) with 3 or 4 planes, bit depths 1..16, random, extreme, flat and gradient samples, "
                        "through the CPU, OpenCL and dispatching entry points, in place and out of place, on 0..3 devices with several work-group sizes and kernel counts, "
                        "with the transformer object placed in dirty memory; per-pixel template for several types; non-trivial: two or more distinct samples";

struct Img {
    uint64_t w, h, planes;
    unsigned bd;
    std::vector<uint16_t> v;
};

static Img image(G &g, bool large) {
    Img m;
    if (large) {
        m.w = 1001 + g.below(30);
        m.h = 1000 + g.below(5);
    } else {
        m.w = 1 + g.size(0, 69);
        m.h = 1 + g.size(0, 69);
    }
    m.planes = 3 + g.draw(1);
    m.bd = g.chance(50) ? (g.boolean() ? 16 : 8) : 1 + g.draw(15);
    uint32_t mask = (1u << m.bd) - 1;
    m.v.resize(m.w * m.h * m.planes);
    unsigned style = g.draw(4);
    g.label(fmt("samples%u", style));
    Rng r = g.sub();
    uint32_t base = g.below(mask + 1);
    for (uint64_t i = 0; i < m.v.size(); i++) {
        switch (style) {
            case 0: m.v[i] = m.v.size() <= 24 ? g.below(mask + 1) : r.below(mask + 1); break;
            case 1: m.v[i] = r.below(2) ? mask : 0; break;
            case 2: m.v[i] = base; break;
            case 3: m.v[i] = (base + i) & mask; break;
            default: m.v[i] = (base + r.below(5)) & mask;
        }
    }
    g.note("%llux%llu, %llu planes, %u bits: %s", (unsigned long long) m.w, (unsigned long long) m.h, (unsigned long long) m.planes, m.bd, hex(m.v.data(), m.v.size() * 2).c_str());
    if (*std::max_element(m.v.begin(), m.v.end()) != *std::min_element(m.v.begin(), m.v.end())) g.nontrivial();
    return m;
}

// Lifting-based YCoCg-R modulo 2^bits.
static std::vector<uint16_t> forward(const Img &m) {
    std::vector<uint16_t> o = m.v;
    uint64_t n = m.w * m.h;
    uint32_t mask = (1u << m.bd) - 1;
    for (uint64_t i = 0; i < n; i++) {
        uint32_t r = m.v[i], g = m.v[i + n], b = m.v[i + 2 * n];
        uint32_t co = (b - r) & mask, t = (r + (co >> 1)) & mask;
        uint32_t cg = (t - g) & mask, y = (g + (cg >> 1)) & mask;
        o[i] = y;
        o[i + n] = co;
        o[i + 2 * n] = cg;
    }
    return o;
}

static rainman::ptr<uint16_t> arr(const std::vector<uint16_t> &v) {
    auto p = rainman::ptr<uint16_t>(v.size());
    for (uint64_t i = 0; i < v.size(); i++) p[i] = v[i];
    return p;
}

static void expect(const rainman::ptr<uint16_t> &p, const std::vector<uint16_t> &want, const Img &m, const char *what) {
    CHECK(p.size() == want.size(), "%s: %llu samples, expected %zu", what, (unsigned long long) p.size(), want.size());
    const uint16_t *d = p.pointer();
    for (uint64_t i = 0; i < want.size(); i++) if (d[i] != want[i]) fail("%s: sample %llu (plane %llu of a %llux%llu image, %u bits) is %u, expected %u", what, (unsigned long long) i, (unsigned long long) (i / (m.w * m.h)), (unsigned long long) m.w, (unsigned long long) m.h, m.bd, d[i], want[i]);
}

static unsigned devices(G &g, bool at_least_one) {
    unsigned n = at_least_one ? 1 + g.draw(2) : g.draw(2);
    std::vector<fakecl::DeviceSpec> v;
    static const uint64_t wg[] = {1, 32, 64, 7};
    for (unsigned i = 0; i < n; i++) v.push_back({"dev" + std::to_string(i), wg[g.below(4)]});
    fakecl::reset(n ? std::vector<std::vector<fakecl::DeviceSpec>>{v} : std::vector<std::vector<fakecl::DeviceSpec>>{{}}, g.draw(1000));
    hzopencl::DeviceProvider::load_devices();
    hzruntime::Config::opencl_support_enabled = n > 0;
    hzruntime::Config::opencl_kernels = g.chance(40) ? 32 : 1 + g.below(100);
    return n;
}

using X = hztrans::LinearU16XColorTransformer;

static void with_transformer(G &g, const Img &m, const std::function<void(X &)> &f) {
    // an object may be created anywhere; what the memory held before must not matter
    alignas(16) static thread_local uint32_t mem[(sizeof(X) + 3) / 4 + 4];
    static const uint32_t fills[] = {0, 1, 0xffffffff, 0x01010101};
    uint32_t fill = fills[g.draw(3)];
    for (auto &x: mem) x = fill;
    X *x = new(mem) X(m.w, m.h, m.bd);
    f(*x);
    x->~X();
}

static void body(G &g, bool large) {
    Img m = image(g, large);
    auto want = forward(m);
    uint32_t mask = (1u << m.bd) - 1;
    for (uint64_t i = 0; i < 3 * m.w * m.h; i++) CHECK(want[i] <= mask, "reference out of range");
    // 0 cpu, 1 opencl, 2 dispatch
    unsigned path = large ? 2 : g.draw(2);
    unsigned n = devices(g, path == 1);
    g.label(path == 0 ? "cpu" : path == 1 ? "opencl" : n ? "dispatch, devices" : "dispatch, no device");
    bool in1 = g.boolean(), in2 = g.boolean();
    with_transformer(g, m, [&](X &x) {
        auto src = arr(m.v);
        auto a = path == 0 ? x.cpu_rgb_to_ycocg(src, in1) : path == 1 ? x.opencl_rgb_to_ycocg(src, in1) : x.rgb_to_ycocg(src, in1);
        expect(a, want, m, "forward");
        if (in1) expect(src, want, m, "forward in place, caller's buffer");
        else expect(src, m.v, m, "forward out of place, caller's buffer");
        unsigned path2 = large ? 2 : path == 1 ? 1 : g.boolean() ? path : 0;
        with_transformer(g, m, [&](X &) {});
        auto b = path2 == 0 ? x.cpu_ycocg_to_rgb(a, in2) : path2 == 1 ? x.opencl_ycocg_to_rgb(a, in2) : x.ycocg_to_rgb(a, in2);
        expect(b, m.v, m, "back");
        if (in2) expect(a, m.v, m, "back in place, caller's buffer");
        else expect(a, want, m, "back out of place, caller's buffer");
    });
    CHECK(fakecl::complaints().empty(), "OpenCL misuse: %s", fakecl::complaints()[0].c_str());
}

static void planes(G &g) { body(g, false); }
static void large(G &g) { body(g, true); }

template<typename T>
static void one_type(G &g, int64_t lo, int64_t hi) {
    using P = hztrans::ColorTransformPixel<T>;
    hztrans::RGBColorTransformer<T> f1(hztrans::RGB_TO_YCOCG), b1(hztrans::YCOCG_TO_RGB), f2(hztrans::YCOCG), b2(hztrans::YCOCG, true);
    for (int k = 0; k < 8; k++) {
        auto s = [&] { return (T) (g.chance(30) ? (g.boolean() ? lo : hi) : g.irange(lo, hi)); };
        P p{s(), s(), s()};
        if (p.x != p.y || p.y != p.z) g.nontrivial();
        if (k == 0) g.note("%lld %lld %lld", (long long) p.x, (long long) p.y, (long long) p.z);
        T co = (T) (p.z - p.x), t = (T) (p.x + (T) (co >> 1)), cg = (T) (t - p.y), y = (T) (p.y + (T) (cg >> 1));
        bool alt = g.boolean();
        P q = (alt ? f2 : f1).transform(p);
        CHECK(q.x == y && q.y == co && q.z == cg, "pixel (%lld,%lld,%lld) becomes (%lld,%lld,%lld), expected (%lld,%lld,%lld)", (long long) p.x, (long long) p.y, (long long) p.z, (long long) q.x, (long long) q.y, (long long) q.z, (long long) y, (long long) co, (long long) cg);
        P r = (g.boolean() ? b2 : b1).transform(q);
        CHECK(r.x == p.x && r.y == p.y && r.z == p.z, "pixel (%lld,%lld,%lld) comes back as (%lld,%lld,%lld)", (long long) p.x, (long long) p.y, (long long) p.z, (long long) r.x, (long long) r.y, (long long) r.z);
    }
    bool threw = false;
    try {
        hztrans::RGBColorTransformer<T>(g.boolean() ? hztrans::RGB_TO_YCBCR : hztrans::YCBCR_TO_RGB).transform(P{1, 2, 3});
    } catch (const std::exception &) { threw = true; }
    CHECK(threw, "a colour space that is not implemented is not refused");
}

static void pixels(G &g) {
    switch (g.draw(4)) {
        case 0: one_type<uint8_t>(g, 0, 255); break;
        case 1: one_type<uint16_t>(g, 0, 65535); break;
        case 2: one_type<int32_t>(g, -70000, 70000); break;
        case 3: one_type<int16_t>(g, 0, 255); break;
        default: one_type<int64_t>(g, -(1ll << 40), 1ll << 40);
    }
}

std::vector<Prop> pbt::properties() { return {{"planes", planes, 6000, 150000}, {"pixels", pixels, 40000, 600000}, {"large", large, 24, 400}}; }
