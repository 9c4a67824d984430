// C08: Paeth residual filter.
// BUILD: repo=hzip_core/models/paeth.cpp,hzip_core/runtime/*.cpp,hzip_core/opencl/*.cpp extra=fakecl mode=asan
#include <pbt/pbt.h>
#include <algorithm>
#include <hzip_core/models/paeth.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/opencl/cl_helper.h>
#include <fakecl/fakecl.h>

using namespace pbt;
const char *pbt::property_id = "C08";
const char *pbt::rule = "images of 1x1 to 60x60 (some above the 49152-sample path threshold) with 1..4 planes and bit depths 1..16; random, extreme, flat, gradient and edge samples; "
                        "CPU, OpenCL and dispatching entry points, in place and out of place, on 0..3 devices; the residuals are inverted by a reference; "
                        "non-trivial: two or more distinct samples and more than one pixel";

struct Img {
    uint64_t w, h, planes;
    unsigned bd;
    std::vector<uint16_t> v;
};

static uint32_t predict(const std::vector<uint16_t> &v, uint64_t off, uint64_t w, uint64_t x, uint64_t y) {
    uint64_t i = off + y * w + x;
    if (x == 0 && y == 0) return 0;
    if (y == 0) return v[i - 1];
    if (x == 0) return v[i - w];
    int64_t a = v[i - 1], b = v[i - w], c = v[i - w - 1];
    int64_t p = std::llabs(a + b - c), da = std::llabs(a - p), db = std::llabs(b - p), dc = std::llabs(c - p);
    int64_t m = std::min(da, std::min(db, dc));
    return da == m ? a : db == m ? b : c;
}

static std::vector<uint16_t> residuals(const Img &m) {
    std::vector<uint16_t> o(m.v.size());
    uint32_t mod = 1u << m.bd;
    for (uint64_t c = 0; c < m.planes; c++)
        for (uint64_t y = 0; y < m.h; y++)
            for (uint64_t x = 0; x < m.w; x++) {
                uint64_t off = c * m.w * m.h, i = off + y * m.w + x;
                o[i] = (uint16_t) ((m.v[i] + mod - predict(m.v, off, m.w, x, y)) % mod);
            }
    return o;
}

static std::vector<uint16_t> inverse(const Img &m, const rainman::ptr<uint16_t> &r) {
    std::vector<uint16_t> v(r.size());
    uint32_t mod = 1u << m.bd;
    for (uint64_t c = 0; c < m.planes; c++)
        for (uint64_t y = 0; y < m.h; y++)
            for (uint64_t x = 0; x < m.w; x++) {
                uint64_t off = c * m.w * m.h, i = off + y * m.w + x;
                v[i] = (uint16_t) ((r[i] + predict(v, off, m.w, x, y)) % mod);
            }
    return v;
}

static Img image(G &g, bool large) {
    Img m;
    if (large) {
        m.planes = 1 + g.draw(3);
        m.w = 130 + g.below(120);
        m.h = 49152 / m.w / m.planes + 1 + g.below(3) - (g.chance(25) ? 2 : 0);
    } else {
        m.planes = 1 + g.draw(3);
        m.w = 1 + g.size(0, 59);
        m.h = 1 + g.size(0, 59);
    }
    m.bd = g.chance(60) ? (g.boolean() ? 16 : 8) : 1 + g.draw(15);
    uint32_t mask = (1u << m.bd) - 1;
    m.v.resize(m.w * m.h * m.planes);
    unsigned style = g.draw(5);
    g.label(fmt("samples%u", style));
    Rng r = g.sub();
    uint32_t base = g.below(mask + 1), gx = r.below(9), gy = r.below(9);
    for (uint64_t i = 0; i < m.v.size(); i++) {
        uint64_t x = i % m.w, y = i / m.w;
        switch (style) {
            case 0: m.v[i] = m.v.size() <= 24 ? g.below(mask + 1) : r.below(mask + 1); break;
            case 1: m.v[i] = r.below(2) ? mask : 0; break;
            case 2: m.v[i] = base; break;
            case 3: m.v[i] = (base + gx * x + gy * y) & mask; break;
            case 4: m.v[i] = (x > m.w / 2) != (y > m.h / 2) ? base : mask - base; break;
            default: m.v[i] = (base + r.below(5)) & mask;
        }
    }
    g.note("%llux%llu, %llu planes, %u bits: %s", (unsigned long long) m.w, (unsigned long long) m.h, (unsigned long long) m.planes, m.bd, hex(m.v.data(), m.v.size() * 2).c_str());
    if (m.w * m.h > 1 && *std::max_element(m.v.begin(), m.v.end()) != *std::min_element(m.v.begin(), m.v.end())) g.nontrivial();
    return m;
}

static void expect(const rainman::ptr<uint16_t> &p, const std::vector<uint16_t> &want, const Img &m, const char *what) {
    CHECK(p.size() == want.size(), "%s: %llu samples, expected %zu", what, (unsigned long long) p.size(), want.size());
    const uint16_t *d = p.pointer();
    uint64_t n = m.w * m.h;
    for (uint64_t i = 0; i < want.size(); i++)
        if (d[i] != want[i]) fail("%s: sample (%llu,%llu) of plane %llu (%llux%llu, %u bits) is %u, expected %u", what, (unsigned long long) (i % n % m.w), (unsigned long long) (i % n / m.w), (unsigned long long) (i / n), (unsigned long long) m.w, (unsigned long long) m.h, m.bd, d[i], want[i]);
}

using F = hzmodels::LinearU16PaethDifferential;

static void body(G &g, bool large) {
    Img m = image(g, large);
    unsigned path = large ? 2 : g.draw(2);
    unsigned n = path == 1 ? 1 + g.draw(2) : g.draw(2);
    std::vector<fakecl::DeviceSpec> ds;
    static const uint64_t wg[] = {1, 32, 64, 7};
    for (unsigned i = 0; i < n; i++) ds.push_back({"dev" + std::to_string(i), wg[g.below(4)]});
    fakecl::reset({ds}, g.draw(1000));
    hzopencl::DeviceProvider::load_devices();
    hzruntime::Config::opencl_support_enabled = n > 0;
    hzruntime::Config::opencl_kernels = g.chance(40) ? 32 : 1 + g.below(100);
    g.label(path == 0 ? "cpu" : path == 1 ? "opencl" : n ? "dispatch, devices" : "dispatch, no device");
    bool in = g.boolean();
    auto src = rainman::ptr<uint16_t>(m.v.size());
    for (uint64_t i = 0; i < m.v.size(); i++) src[i] = m.v[i];
    auto out = path == 0 ? F::cpu_filter(src, m.w, m.h, m.planes, in, m.bd) : path == 1 ? F::opencl_filter(src, m.w, m.h, m.planes, in, m.bd) : F::filter(src, m.w, m.h, m.planes, in, m.bd);
    auto want = residuals(m);
    if (in) expect(src, want, m, "in place, caller's buffer");
    else expect(src, m.v, m, "out of place, caller's buffer");
    expect(out, want, m, "residuals");
    auto back = inverse(m, out);
    CHECK(back == m.v, "the residuals do not give the image back");
    CHECK(fakecl::complaints().empty(), "OpenCL misuse: %s", fakecl::complaints()[0].c_str());
}

static void planes(G &g) { body(g, false); }
static void large(G &g) { body(g, true); }

// The generic predictor: nearest of upper, left and upper-left neighbour to upper + left - upper-left.
template<typename T>
static void model(G &g) {
    uint64_t w = 1 + g.size(0, 20), h = 1 + g.size(0, 20), planes = 1 + g.draw(2);
    auto a = rainman::ptr<T>(w * h * planes);
    Rng r = g.sub();
    for (uint64_t i = 0; i < a.size(); i++) a[i] = (T) (a.size() <= 16 ? g.below(256) : r.below(g.draw(1) ? 4 : 256));
    uint64_t c = g.below(planes);
    g.note("%llux%llu plane %llu of %llu", (unsigned long long) w, (unsigned long long) h, (unsigned long long) c, (unsigned long long) planes);
    if (w * h > 1) g.nontrivial();
    hzmodels::PaethModel<T> m(a, w, h, c);
    for (uint64_t y = 0; y < h; y++)
        for (uint64_t x = 0; x < w; x++) {
            uint64_t i = c * w * h + y * w + x;
            T want = 0;
            if (x == 0 && y == 0) want = 0;
            else if (x == 0) want = a[i - w];
            else if (y == 0) want = a[i - 1];
            else {
                int64_t u = a[i - w], l = a[i - 1], d = a[i - w - 1], p = u + l - d;
                int64_t du = std::llabs(u - p), dl = std::llabs(l - p), dd = std::llabs(d - p), mn = std::min(du, std::min(dl, dd));
                want = (T) (du == mn ? u : dl == mn ? l : d);
            }
            T got = m.predict(x, y);
            CHECK(got == want, "prediction at (%llu,%llu) is %lld, expected %lld", (unsigned long long) x, (unsigned long long) y, (long long) got, (long long) want);
        }
}

static void predictor(G &g) {
    switch (g.draw(2)) {
        case 0: model<int32_t>(g); break;
        case 1: model<int16_t>(g); break;
        default: model<int64_t>(g);
    }
}

std::vector<Prop> pbt::properties() { return {{"planes", planes, 8000, 200000}, {"predictor", predictor, 10000, 200000}, {"large", large, 400, 8000}}; }
