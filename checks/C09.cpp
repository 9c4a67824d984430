// C09: PNG reader.
// BUILD: repo=hzip_core/preprocessor/png_bundle.cpp mode=asan libs=png,loguru
#include <pbt/pbt.h>
#include <loguru/loguru.hpp>
#include <hzip_core/preprocessor/png_bundle.h>
#include "png_gen.h"

using namespace pbt;
using namespace pnggen;
const char *pbt::property_id = "C09";
const char *pbt::rule = "PNG files of 1x1 to 90x90 (some up to 1500 wide or high) in all 15 colour type/bit depth combinations, interlaced or not, every row filter, one or many IDAT chunks, "
                        "with or without ancillary chunks; the same after chunk-level damage with valid checksums (dropped, duplicated, reordered, truncated, altered chunks, wrong "
                        "lengths, header fields), after byte-level damage and truncation, and arbitrary bytes; non-trivial: an image of two or more pixels, or damage that libpng rejects";

using u64 = unsigned long long;

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

static rainman::ptr<uint8_t> arr(const Bytes &v) {
    auto p = rainman::ptr<uint8_t>(v.size());
    for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
    return p;
}

static void compare(const PNGBundle &b, const Decoded &d) {
    CHECK(b.ihdr.width == d.w && b.ihdr.height == d.h, "size reported as %ux%u, the image is %ux%u", b.ihdr.width, b.ihdr.height, d.w, d.h);
    CHECK(b.ihdr.bit_depth == d.depth, "bit depth reported as %u, it is %d", b.ihdr.bit_depth, d.depth);
    CHECK(b.ihdr.color_type == d.color, "colour type reported as %u, it is %d", b.ihdr.color_type, d.color);
    CHECK(b.nchannels == d.channels, "%u channels reported, there are %d", b.nchannels, d.channels);
    CHECK(b.ihdr.interlace_method == d.interlace && b.ihdr.compression_method == d.compression && b.ihdr.filter_method == d.filter,
          "interlace/compression/filter methods reported as %u/%u/%u, they are %d/%d/%d", b.ihdr.interlace_method, b.ihdr.compression_method, b.ihdr.filter_method, d.interlace,
          d.compression, d.filter);
    u64 n = (u64) d.w * d.h;
    CHECK(b.buf.size() == n * d.channels, "%llu samples returned, there are %llu", (u64) b.buf.size(), n * d.channels);
    const uint16_t *q = b.buf.pointer();
    for (int z = 0; z < d.channels; z++)
        for (uint32_t y = 0; y < d.h; y++)
            for (uint32_t x = 0; x < d.w; x++) {
                uint16_t want = sample(d, x, y, z), got = q[z * n + (u64) y * d.w + x];
                if (got != want) fail("channel %d of pixel (%u, %u) is %u, expected %u", z, x, y, got, want);
            }
    if (d.color == PNG_COLOR_TYPE_PALETTE) {
        CHECK(b.plte.colors.size() == d.palette.size(), "%llu palette entries, there are %zu", (u64) b.plte.colors.size(), d.palette.size());
        for (size_t i = 0; i < d.palette.size(); i++) {
            auto &c = b.plte.colors[i];
            auto &e = d.palette[i];
            CHECK(c.red == e.red && c.green == e.green && c.blue == e.blue, "palette entry %zu is %u,%u,%u, expected %u,%u,%u", i, c.red, c.green, c.blue, e.red, e.green, e.blue);
        }
    }
}

// 1: read, 0: rejected
static int attempt(const Bytes &b, const Decoded &d, std::string &why) {
    auto p = arr(b);
    uint64_t before = rainman::standin::live_bytes();
    int r = 0;
    {
        auto builder = PNGBundleBuilder(p);
        try {
            auto bundle = builder.read_bundle();
            r = 1;
            if (d.ok) compare(bundle, d);
        } catch (const Failure &) { throw; }
        catch (const std::exception &e) {
            CHECK(e.what() != nullptr, "the exception carries no message");
            why = e.what();
        }
    }
    uint64_t after = rainman::standin::live_bytes();
    CHECK(after == before, "%lld bytes were not released after the image was %s (%s)", (long long) (after - before), r ? "read" : "rejected", why.c_str());
    for (size_t i = 0; i < b.size(); i++) if (p[i] != b[i]) fail("the input was changed at byte %zu", i);
    return r;
}

static void judge(G &g, const Bytes &b) {
    // Images too large to decode here are left out.
    if (b.size() >= 24) {
        u64 w = (u64) b[16] << 24 | b[17] << 16 | b[18] << 8 | b[19], h = (u64) b[20] << 24 | b[21] << 16 | b[22] << 8 | b[23];
        if ((w != 0 && h != 0 && w <= 1000000 && h <= 1000000 && (w * h > 1500000 || h > 20000)) && w < 0x80000000ull && h < 0x80000000ull) {
            g.label("header too large");
            return;
        }
    }
    Decoded d;
    decode_into(b, d);
    std::string why;
    int r = attempt(b, d, why);
    if (d.ok && d.tail_ok) {
        g.label("still valid");
        CHECK(r == 1, "an image libpng decodes was rejected: %s", why.c_str());
    } else if (d.ok) g.label("damaged after the image");
    else {
        g.label("libpng rejects");
        g.nontrivial();
        CHECK(r == 0, "an image libpng rejects (%s) was accepted", d.why.c_str());
    }
}

static Bytes valid(G &g, Spec &s) {
    uint64_t side = g.chance(8) ? 1500 : g.chance(50) ? 12 : 90;
    s = spec(g, false, side);
    return encode(g, s);
}

static void wellformed(G &g) {
    Spec s;
    auto b = valid(g, s);
    if ((u64) s.w * s.h >= 2) g.nontrivial();
    Decoded d;
    decode_into(b, d);
    CHECK(d.ok && d.tail_ok, "harness: generated image does not decode: %s", d.why.c_str());
    CHECK(d.w == s.w && d.h == s.h && d.channels == s.channels(), "harness: generated image differs");
    // The expected samples come from the generator itself, not from libpng alone.
    for (int z = 0; z < d.channels; z++) for (uint32_t y = 0; y < d.h; y++) for (uint32_t x = 0; x < d.w; x++) if (sample(d, x, y, z) != s.sample(x, y, z)) fail("harness: pixel differs");
    std::string why;
    int r = attempt(b, d, why);
    CHECK(r == 1, "a well-formed image was rejected: %s", why.c_str());
}

static void damaged_chunks(G &g) {
    Spec s = spec(g, false, 14);
    auto v = split(encode(g, s));
    unsigned n = (unsigned) g.range(1, 3);
    for (unsigned k = 0; k < n && !v.empty(); k++) {
        size_t i = g.below(v.size());
        auto &c = v[i];
        switch (g.below(11)) {
            case 0:
                g.note(" drop %s", c.type.c_str());
                v.erase(v.begin() + i);
                break;
            case 1:
                g.note(" dup %s", c.type.c_str());
                v.insert(v.begin() + g.below(v.size() + 1), Chunk(c));
                break;
            case 2: {
                size_t j = g.below(v.size());
                g.note(" swap %zu %zu", i, j);
                std::swap(v[i], v[j]);
                break;
            }
            case 3:
                g.note(" cut %s", c.type.c_str());
                c.data.resize(g.below(c.data.size() + 1));
                break;
            case 4:
                if (!c.data.empty()) {
                    size_t at = g.below(c.data.size());
                    c.data[at] = g.boolean() ? (uint8_t) g.below(256) : c.data[at] ^ (1u << g.below(8));
                    g.note(" alter %s[%zu]=%u", c.type.c_str(), at, c.data[at]);
                }
                break;
            case 5: {
                auto more = g.bytes(g.size(1, 40));
                c.data.insert(c.data.end(), more.begin(), more.end());
                g.note(" extend %s", c.type.c_str());
                break;
            }
            case 6:
                c.claim = (int64_t) g.u64(0xffffffff);
                g.note(" length of %s: %lld", c.type.c_str(), (long long) c.claim);
                break;
            case 7:
                c.bad_crc = true;
                g.note(" checksum of %s", c.type.c_str());
                break;
            case 8: {
                c.type = g.pick<const char *>({"IDAT", "PLTE", "IEND", "tRNS", "tEXt", "zzZz", "ABCD", "sBIT", "iCCP", "hIST", "bKGD", "\1\2\3\4"});
                g.note(" retype %zu %s", i, c.type.c_str());
                break;
            }
            case 9: { // header fields
                for (auto &h: v)
                    if (h.type == "IHDR" && h.data.size() == 13) {
                        switch (g.below(4)) {
                            case 0: h.data[3] = (uint8_t) g.below(40); break;
                            case 1: h.data[7] = (uint8_t) g.below(40); break;
                            case 2: h.data[8] = g.pick<uint8_t>({1, 2, 4, 8, 16, 3, 0, 32}); break;
                            default: h.data[9 + g.below(4)] = (uint8_t) g.below(8);
                        }
                        g.note(" header %s", hex(h.data).c_str());
                    }
                break;
            }
            default: { // compressed stream replaced by one of another length
                auto raw = g.bytes(g.size(0, 200));
                uLongf cap = compressBound(raw.size());
                Bytes z(cap);
                compress(z.data(), &cap, raw.data(), raw.size());
                z.resize(cap);
                for (auto &h: v) if (h.type == "IDAT") h.data = z;
                g.note(" other image data");
            }
        }
    }
    auto b = join(v);
    if (g.chance(10)) b.resize(g.below(b.size() + 1));
    judge(g, b);
}

static void damaged_bytes(G &g) {
    Spec s = spec(g, false, 14);
    auto b = encode(g, s);
    unsigned kind = g.draw(2);
    if (kind == 0) {
        b.resize(g.below(b.size()));
        g.note(" cut to %zu", b.size());
    } else if (kind == 1) {
        unsigned n = (unsigned) g.range(1, 4);
        for (unsigned k = 0; k < n; k++) {
            size_t at = g.boolean() ? g.below(std::min<size_t>(b.size(), 60)) : g.below(b.size());
            b[at] = (uint8_t) g.below(256);
            g.note(" [%zu]=%u", at, b[at]);
        }
    } else {
        size_t at = g.below(b.size() + 1);
        auto ins = g.bytes(g.size(1, 20));
        if (g.boolean()) b.insert(b.begin() + at, ins.begin(), ins.end());
        else b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + ins.size()));
        g.note(" shift at %zu", at);
    }
    judge(g, b);
}

static void arbitrary(G &g) {
    Bytes b;
    if (g.boolean()) {
        static const uint8_t sig[] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10};
        b.assign(sig, sig + g.range(1, 8));
    }
    auto more = g.data(200);
    b.insert(b.end(), more.begin(), more.end());
    g.note("%zu bytes %s", b.size(), hex(b).c_str());
    judge(g, b);
}

std::vector<Prop> pbt::properties() {
    return {{"wellformed", wellformed, 2500, 80000},
            {"damaged chunks", damaged_chunks, 5000, 250000},
            {"damaged bytes", damaged_bytes, 4000, 200000},
            {"arbitrary", arbitrary, 3000, 150000}};
}
