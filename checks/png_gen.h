// Generated PNG files (shared by C09 and C10).
#ifndef PNG_GEN_H
#define PNG_GEN_H

#include <pbt/pbt.h>
#include <algorithm>
#include <csetjmp>
#include <cstring>
#include <png.h>
#include <zlib.h>

namespace pnggen {
    using namespace pbt;
    using Bytes = std::vector<uint8_t>;

    struct Spec {
        uint32_t w = 1, h = 1;
        int depth = 8, color = PNG_COLOR_TYPE_RGB;
        bool interlaced = false;
        Bytes raw; // packed rows as libpng takes them
        std::vector<png_color> palette;
        size_t rowbytes = 0;

        int channels() const {
            switch (color) {
                case PNG_COLOR_TYPE_GRAY_ALPHA: return 2;
                case PNG_COLOR_TYPE_RGB: return 3;
                case PNG_COLOR_TYPE_RGBA: return 4;
                default: return 1;
            }
        }

        // sample `z` of pixel (x, y)
        uint16_t sample(uint32_t x, uint32_t y, int z) const {
            const uint8_t *r = raw.data() + (size_t) y * rowbytes;
            size_t i = (size_t) x * channels() + z;
            if (depth == 16) return r[2 * i] << 8 | r[2 * i + 1];
            if (depth == 8) return r[i];
            size_t bit = i * depth;
            return r[bit >> 3] >> (8 - depth - (bit & 7)) & ((1 << depth) - 1);
        }
    };

    inline void ignore(png_structp, png_const_charp) {}

    [[noreturn]] inline void writer_error(png_structp, png_const_charp m) { fail("harness: png writer: %s", m); }

    // What kind of content.
    inline Spec spec(G &g, bool rgb_only, uint64_t max_side, uint64_t min_side = 1, int force_kind = -1) {
        Spec s;
        s.w = min_side + g.size(0, max_side - min_side);
        s.h = min_side + g.size(0, max_side - min_side);
        static const int kinds[][2] = {{PNG_COLOR_TYPE_RGB, 8}, {PNG_COLOR_TYPE_RGB, 16}, {PNG_COLOR_TYPE_RGBA, 8}, {PNG_COLOR_TYPE_RGBA, 16},
                                       {PNG_COLOR_TYPE_GRAY, 8}, {PNG_COLOR_TYPE_GRAY, 16}, {PNG_COLOR_TYPE_GRAY, 1}, {PNG_COLOR_TYPE_GRAY, 2}, {PNG_COLOR_TYPE_GRAY, 4},
                                       {PNG_COLOR_TYPE_GRAY_ALPHA, 8}, {PNG_COLOR_TYPE_GRAY_ALPHA, 16},
                                       {PNG_COLOR_TYPE_PALETTE, 8}, {PNG_COLOR_TYPE_PALETTE, 1}, {PNG_COLOR_TYPE_PALETTE, 2}, {PNG_COLOR_TYPE_PALETTE, 4}};
        size_t k = force_kind >= 0 ? force_kind : g.below(rgb_only ? 4 : 15);
        s.color = kinds[k][0];
        s.depth = kinds[k][1];
        s.interlaced = g.chance(35);
        s.rowbytes = ((size_t) s.w * s.channels() * s.depth + 7) / 8;
        s.raw.resize(s.rowbytes * s.h);
        unsigned style = g.draw(4);
        uint8_t base = (uint8_t) g.below(256);
        Rng r = g.sub();
        if (style == 0 && s.raw.size() <= 24) for (auto &b: s.raw) b = (uint8_t) g.below(256);
        else
            for (size_t i = 0; i < s.raw.size(); i++)
                switch (style) {
                    case 0: s.raw[i] = (uint8_t) r.next(); break;
                    case 1: s.raw[i] = r.below(2) ? 255 : 0; break;
                    case 2: s.raw[i] = base; break;
                    case 3: s.raw[i] = (uint8_t) (base + i + i / s.rowbytes * 3); break;
                    default: s.raw[i] = (uint8_t) (base + r.below(4));
                }
        // unused bits of the last byte of a row are zero
        unsigned rest = (unsigned) ((size_t) s.w * s.channels() * s.depth % 8);
        if (rest != 0) for (uint32_t y = 0; y < s.h; y++) s.raw[(y + 1) * s.rowbytes - 1] &= (uint8_t) (0xff00 >> rest);
        if (s.color == PNG_COLOR_TYPE_PALETTE) {
            int max = 1 << s.depth, need = 1;
            for (uint32_t y = 0; y < s.h; y++) for (uint32_t x = 0; x < s.w; x++) need = std::max(need, s.sample(x, y, 0) + 1);
            int n = (int) g.range(need, max);
            Rng pr = g.sub();
            for (int i = 0; i < n; i++) s.palette.push_back({(uint8_t) pr.next(), (uint8_t) pr.next(), (uint8_t) pr.next()});
        }
        static const char *cn[] = {"gray", "?", "rgb", "palette", "gray+alpha", "?", "rgba"};
        g.note("%ux%u %s %d bits%s %s", s.w, s.h, cn[s.color], s.depth, s.interlaced ? " interlaced" : "", hex(s.raw.data(), s.raw.size(), 16).c_str());
        g.label(fmt("%s%d", cn[s.color], s.depth));
        if (s.interlaced) g.label("interlaced");
        return s;
    }

    inline Bytes encode(G &g, const Spec &s) {
        Bytes out;
        png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, writer_error, ignore);
        png_infop i = png_create_info_struct(p);
        png_set_write_fn(p, &out, [](png_structp q, png_bytep d, png_size_t n) {
            auto *o = (Bytes *) png_get_io_ptr(q);
            o->insert(o->end(), d, d + n);
        }, [](png_structp) {});
        png_set_IHDR(p, i, s.w, s.h, s.depth, s.color, s.interlaced ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
        if (!s.palette.empty()) png_set_PLTE(p, i, s.palette.data(), (int) s.palette.size());
        else if ((s.color == PNG_COLOR_TYPE_RGB || s.color == PNG_COLOR_TYPE_RGBA) && g.chance(10)) {
            png_color c[3] = {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}};
            png_set_PLTE(p, i, c, 3); // suggested palette
        }
        if (g.chance(15) && s.color != PNG_COLOR_TYPE_GRAY_ALPHA && s.color != PNG_COLOR_TYPE_RGBA) {
            png_byte a[4] = {0, 128, 255, 3};
            png_color_16 c{};
            c.red = c.green = c.blue = c.gray = 1;
            png_set_tRNS(p, i, a, (int) std::min<size_t>(4, std::max<size_t>(1, s.palette.size())), &c);
            g.label("tRNS");
        }
        if (g.chance(15)) png_set_gAMA(p, i, 0.45455);
        if (g.chance(10)) png_set_sRGB(p, i, 1);
        std::string text = "generated text";
        if (g.chance(10)) {
            png_text t{};
            t.compression = g.boolean() ? PNG_TEXT_COMPRESSION_zTXt : PNG_TEXT_COMPRESSION_NONE;
            t.key = (char *) "Comment";
            t.text = text.data();
            t.text_length = text.size();
            png_set_text(p, i, &t, 1);
        }
        static const int filters[] = {PNG_ALL_FILTERS, PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH};
        png_set_filter(p, 0, filters[g.below(6)]);
        png_set_compression_level(p, (int) g.below(10));
        if (g.chance(30)) png_set_compression_buffer_size(p, g.range(6, 400)); // several IDAT chunks
        png_write_info(p, i);
        std::vector<png_bytep> rows;
        for (uint32_t y = 0; y < s.h; y++) rows.push_back((png_bytep) s.raw.data() + y * s.rowbytes);
        png_write_image(p, rows.data());
        png_write_end(p, i);
        png_destroy_write_struct(&p, &i);
        return out;
    }

    struct Decoded {
        bool ok = false, tail_ok = false;
        std::string why;
        uint32_t w = 0, h = 0;
        int depth = 0, color = 0, channels = 0, interlace = 0, compression = 0, filter = 0;
        std::vector<Bytes> rows; // one byte per sample below 16 bits
        std::vector<png_color> palette;
    };

    struct Stop {
        jmp_buf jb;
        char why[128];
    };

    inline void stop(png_structp p, png_const_charp m) {
        auto *s = (Stop *) png_get_error_ptr(p);
        strncpy(s->why, m, 127);
        s->why[127] = 0;
        longjmp(s->jb, 1);
    }

    // A direct libpng decode: header, image, then whatever follows.
    inline __attribute__((noinline)) void decode_into(const Bytes &b, Decoded &d) {
        if (b.size() < 8 || png_sig_cmp((png_bytep) b.data(), 0, 8)) {
            d.why = "signature";
            return;
        }
        struct In {
            const Bytes *b;
            size_t at;
        } in{&b, 8};
        Stop st;
        st.why[0] = 0;
        png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, &st, stop, ignore);
        png_infop i = png_create_info_struct(p);
        if (setjmp(st.jb)) {
            d.why = st.why;
            png_destroy_read_struct(&p, &i, nullptr);
            return;
        }
        png_set_read_fn(p, &in, [](png_structp q, png_bytep o, png_size_t n) {
            auto *s = (In *) png_get_io_ptr(q);
            if (n > s->b->size() - s->at) png_error(q, "end of data");
            memcpy(o, s->b->data() + s->at, n);
            s->at += n;
        });
        png_set_sig_bytes(p, 8);
        png_read_info(p, i);
        d.w = png_get_image_width(p, i);
        d.h = png_get_image_height(p, i);
        d.depth = png_get_bit_depth(p, i);
        d.color = png_get_color_type(p, i);
        d.channels = png_get_channels(p, i);
        d.interlace = png_get_interlace_type(p, i);
        d.compression = png_get_compression_type(p, i);
        d.filter = png_get_filter_type(p, i);
        png_set_packing(p);
        int passes = png_set_interlace_handling(p);
        png_read_update_info(p, i);
        size_t rb = png_get_rowbytes(p, i);
        d.rows.assign(d.h, Bytes(rb));
        for (int k = 0; k < passes; k++) for (uint32_t y = 0; y < d.h; y++) png_read_row(p, d.rows[y].data(), nullptr);
        if (d.color == PNG_COLOR_TYPE_PALETTE) {
            png_colorp c = nullptr;
            int n = 0;
            png_get_PLTE(p, i, &c, &n);
            d.palette.assign(c, c + n);
        }
        d.ok = true;
        png_read_end(p, i);
        d.tail_ok = true;
        png_destroy_read_struct(&p, &i, nullptr);
    }

    inline uint16_t sample(const Decoded &d, uint32_t x, uint32_t y, int z) {
        size_t i = (size_t) x * d.channels + z;
        return d.depth == 16 ? d.rows[y][2 * i] << 8 | d.rows[y][2 * i + 1] : d.rows[y][i];
    }

    struct Chunk {
        std::string type;
        Bytes data;
        bool bad_crc = false;
        int64_t claim = -1; // a length other than the real one
    };

    inline std::vector<Chunk> split(const Bytes &b) {
        std::vector<Chunk> v;
        size_t at = 8;
        while (at + 12 <= b.size()) {
            uint32_t n = b[at] << 24 | b[at + 1] << 16 | b[at + 2] << 8 | b[at + 3];
            Chunk c;
            c.type.assign(b.begin() + at + 4, b.begin() + at + 8);
            c.data.assign(b.begin() + at + 8, b.begin() + at + 8 + n);
            v.push_back(c);
            at += 12 + n;
        }
        return v;
    }

    inline Bytes join(const std::vector<Chunk> &v) {
        static const uint8_t sig[] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10};
        Bytes b(sig, sig + 8);
        auto put = [&](uint32_t x) { for (int k = 24; k >= 0; k -= 8) b.push_back(x >> k); };
        for (auto &c: v) {
            put(c.claim >= 0 ? (uint32_t) c.claim : (uint32_t) c.data.size());
            size_t s = b.size();
            b.insert(b.end(), c.type.begin(), c.type.end());
            b.insert(b.end(), c.data.begin(), c.data.end());
            put((uint32_t) crc32(0, b.data() + s, b.size() - s) ^ (c.bad_crc ? 1 : 0));
        }
        return b;
    }
}
#endif
