// C11: JPEG coefficient reader and writer.
// BUILD: repo= mode=asan libs=jpeg
#include <pbt/pbt.h>
#include <algorithm>
#include <csetjmp>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <hzip_core/preprocessor/jpeg_codec.h>

using namespace pbt;
const char *pbt::property_id = "C11";
const char *pbt::rule = "JPEG files of 1x1 to 120x120 with 1..4 components, every interleavable sampling layout, from pixels (any quality) or from arbitrary coefficients, baseline, optimised, progressive, "
                        "multi-scan and restart-interval streams, read from memory and from files; damaged copies (bytes changed, cut, inserted) and arbitrary bytes; non-trivial: more than one block, or damaged";

using Bytes = std::vector<uint8_t>;
using u64 = unsigned long long;

namespace {
    struct Comp {
        int id, h, v, q;
        unsigned wb, hb;
        std::vector<short> coef; // 64 per block
    };

    struct Image {
        bool ok = false;
        std::string why;
        unsigned w = 0, h = 0, precision = 0;
        int colour = 0, unit = 0, xd = 0, yd = 0, jfif = 0, major = 0, minor = 0;
        std::vector<Comp> comps;
        bool q_present[4] = {};
        uint16_t q[4][64] = {};
    };

    struct Stop {
        jpeg_error_mgr mgr;
        jmp_buf jb;
        char why[JMSG_LENGTH_MAX];
    };

    void stop(j_common_ptr i) {
        auto *s = (Stop *) i->err;
        (*i->err->format_message)(i, s->why);
        longjmp(s->jb, 1);
    }

    void silent(j_common_ptr) {}

    // A direct libjpeg decode. Only the header when `limit` is exceeded.
    __attribute__((noinline)) void reference(const Bytes &b, Image &m, uint64_t limit, bool &too_large) {
        too_large = false;
        jpeg_decompress_struct d;
        Stop s;
        d.err = jpeg_std_error(&s.mgr);
        s.mgr.error_exit = stop;
        s.mgr.output_message = silent;
        FILE *f = fmemopen((void *) b.data(), b.size(), "rb");
        if (setjmp(s.jb)) {
            m.why = s.why;
            jpeg_destroy_decompress(&d);
            fclose(f);
            return;
        }
        jpeg_create_decompress(&d);
        jpeg_stdio_src(&d, f);
        jpeg_read_header(&d, TRUE);
        uint64_t blocks = 0;
        for (int c = 0; c < d.num_components; c++) blocks += (uint64_t) d.comp_info[c].width_in_blocks * d.comp_info[c].height_in_blocks;
        if (blocks > limit) {
            too_large = true;
            jpeg_destroy_decompress(&d);
            fclose(f);
            return;
        }
        auto *arrays = jpeg_read_coefficients(&d);
        m.w = d.image_width;
        m.h = d.image_height;
        m.precision = d.data_precision;
        m.colour = d.jpeg_color_space;
        m.jfif = d.saw_JFIF_marker;
        m.major = d.JFIF_major_version;
        m.minor = d.JFIF_minor_version;
        m.unit = d.density_unit;
        m.xd = d.X_density;
        m.yd = d.Y_density;
        for (int t = 0; t < 4; t++)
            if (d.quant_tbl_ptrs[t]) {
                m.q_present[t] = true;
                memcpy(m.q[t], d.quant_tbl_ptrs[t]->quantval, sizeof(m.q[t]));
            }
        for (int c = 0; c < d.num_components; c++) {
            auto *p = d.comp_info + c;
            m.comps.push_back({p->component_id, p->h_samp_factor, p->v_samp_factor, p->quant_tbl_no, p->width_in_blocks, p->height_in_blocks, {}});
            for (unsigned y = 0; y < p->height_in_blocks; y++) {
                JBLOCKARRAY row = d.mem->access_virt_barray((j_common_ptr) &d, arrays[c], y, 1, FALSE);
                auto *first = (short *) row[0];
                m.comps.back().coef.insert(m.comps.back().coef.end(), first, first + 64ull * p->width_in_blocks);
            }
        }
        m.ok = true;
        jpeg_finish_decompress(&d);
        jpeg_destroy_decompress(&d);
        fclose(f);
    }

    [[noreturn]] void writer_error(j_common_ptr i) {
        char why[JMSG_LENGTH_MAX];
        (*i->err->format_message)(i, why);
        fail("harness: jpeg writer: %s", why);
    }

    Bytes generate(G &g) {
        jpeg_compress_struct c;
        jpeg_error_mgr e;
        c.err = jpeg_std_error(&e);
        e.error_exit = writer_error;
        e.output_message = silent;
        jpeg_create_compress(&c);
        unsigned char *out = nullptr;
        unsigned long n = 0;
        jpeg_mem_dest(&c, &out, &n);
        c.image_width = 1 + g.size(0, 119);
        c.image_height = 1 + g.size(0, 119);
        static const int comps[] = {3, 1, 4, 4, 3, 2};
        static const J_COLOR_SPACE in[] = {JCS_RGB, JCS_GRAYSCALE, JCS_CMYK, JCS_CMYK, JCS_RGB, JCS_UNKNOWN};
        static const J_COLOR_SPACE stored[] = {JCS_YCbCr, JCS_GRAYSCALE, JCS_YCCK, JCS_CMYK, JCS_RGB, JCS_UNKNOWN};
        size_t kind = g.weighted({40, 20, 10, 10, 10, 10});
        c.input_components = comps[kind];
        c.in_color_space = in[kind];
        jpeg_set_defaults(&c);
        jpeg_set_colorspace(&c, stored[kind]);
        jpeg_set_quality(&c, (int) g.range(1, 100), TRUE);
        bool coef = g.chance(60);
        // sampling
        unsigned total = 0;
        for (int i = 0; i < c.num_components; i++) {
            int h = 1, v = 1;
            if (g.chance(60)) {
                h = (int) g.range(1, coef ? 4 : 2);
                v = (int) g.range(1, coef ? 4 : 2);
            }
            if (!coef && i > 0) h = v = 1; // whole ratios only
            if (total + h * v + (c.num_components - 1 - i) > 10) h = v = 1;
            total += h * v;
            c.comp_info[i].h_samp_factor = h;
            c.comp_info[i].v_samp_factor = v;
            if (g.chance(20) && kind != 4) {
                int t = (int) g.below(4);
                if (!c.quant_tbl_ptrs[t]) {
                    unsigned q[64];
                    for (int k = 0; k < 64; k++) q[k] = 1 + (unsigned) ((k * 7 + t * 13) % 200);
                    jpeg_add_quant_table(&c, t, q, 100, TRUE);
                    g.label("third or fourth quantisation table");
                }
                c.comp_info[i].quant_tbl_no = t;
            }
        }
        if (coef && g.chance(15)) {
            // sixteen bit tables
            unsigned t[64];
            for (auto &x: t) x = (unsigned) g.range(1, 32767);
            jpeg_add_quant_table(&c, (int) g.below(2), t, 100, FALSE);
        }
        if (g.chance(25)) {
            c.density_unit = (UINT8) g.below(3);
            c.X_density = (UINT16) g.range(1, 65535);
            c.Y_density = (UINT16) g.range(1, 65535);
        }
        if (g.chance(15)) c.write_JFIF_header = FALSE;
        if (c.write_JFIF_header && g.chance(20)) {
            c.JFIF_major_version = 1;
            c.JFIF_minor_version = (UINT8) g.below(3);
        }
        c.optimize_coding = g.boolean();
        if (g.chance(30)) c.restart_interval = (unsigned) g.range(1, 9);
        bool progressive = g.chance(35);
        static thread_local std::vector<jpeg_scan_info> scans;
        scans.clear();
        if (progressive) jpeg_simple_progression(&c);
        else if (g.chance(20)) { // one scan per component
            for (int i = 0; i < c.num_components; i++) {
                jpeg_scan_info s{};
                s.comps_in_scan = 1;
                s.component_index[0] = i;
                s.Se = 63;
                scans.push_back(s);
            }
            c.scan_info = scans.data();
            c.num_scans = (int) scans.size();
            g.label("scan per component");
        }
        static const char *names[] = {"YCbCr", "gray", "YCCK", "CMYK", "RGB", "two components"};
        g.label(names[kind]);
        g.label(progressive ? "progressive" : "sequential");
        g.note("%ux%u %s %s%s", c.image_width, c.image_height, names[kind], progressive ? "progressive" : "sequential", coef ? " from coefficients" : "");
        for (int i = 0; i < c.num_components; i++) g.note(" %dx%d", c.comp_info[i].h_samp_factor, c.comp_info[i].v_samp_factor);
        if (c.image_width > 8 || c.image_height > 8) g.nontrivial();
        unsigned style = (unsigned) g.draw(3);
        Rng r = g.sub();
        std::vector<jvirt_barray_ptr> arr; // in use until the file is finished
        if (coef) {
            int mh = 1, mv = 1;
            for (int i = 0; i < c.num_components; i++) {
                mh = std::max(mh, c.comp_info[i].h_samp_factor);
                mv = std::max(mv, c.comp_info[i].v_samp_factor);
            }
            std::vector<std::pair<unsigned, unsigned>> dims;
            for (int i = 0; i < c.num_components; i++) {
                auto *p = c.comp_info + i;
                unsigned mw = (c.image_width + 8 * mh - 1) / (8 * mh), mhh = (c.image_height + 8 * mv - 1) / (8 * mv);
                dims.push_back({mw * p->h_samp_factor, mhh * p->v_samp_factor});
                arr.push_back((*c.mem->request_virt_barray)((j_common_ptr) &c, JPOOL_IMAGE, TRUE, dims.back().first, dims.back().second, p->v_samp_factor));
            }
#if JPEG_LIB_VERSION >= 70
            c.jpeg_width = c.image_width;
            c.jpeg_height = c.image_height;
            c.min_DCT_h_scaled_size = c.min_DCT_v_scaled_size = 8;
#endif
            jpeg_write_coefficients(&c, arr.data());
            for (int i = 0; i < c.num_components; i++)
                for (unsigned y = 0; y < dims[i].second; y++) {
                    JBLOCKARRAY row = (*c.mem->access_virt_barray)((j_common_ptr) &c, arr[i], y, 1, TRUE);
                    for (unsigned x = 0; x < dims[i].first; x++)
                        for (int k = 0; k < 64; k++) {
                            int v = 0;
                            switch (style) {
                                case 0: v = r.below(6) ? 0 : (int) r.below(9) - 4; break;
                                case 1: v = (int) r.below(2047) - 1023; break;
                                case 2: v = r.below(2) ? 1023 : -1023; break;
                                default: v = k == (int) (x % 64) ? (int) r.below(2047) - 1023 : 0;
                            }
                            row[0][x][k] = (short) v;
                        }
                }
        } else {
            jpeg_start_compress(&c, TRUE);
            Bytes row((size_t) c.image_width * c.input_components);
            uint8_t base = (uint8_t) r.next();
            while (c.next_scanline < c.image_height) {
                for (size_t k = 0; k < row.size(); k++)
                    row[k] = style == 0 ? (uint8_t) (base + k + c.next_scanline) : style == 1 ? (uint8_t) r.next() : style == 2 ? (r.below(2) ? 255 : 0) : base;
                JSAMPROW p = row.data();
                jpeg_write_scanlines(&c, &p, 1);
            }
        }
        jpeg_finish_compress(&c);
        Bytes b(out, out + n);
        jpeg_destroy_compress(&c);
        free(out);
        return b;
    }

    using Struct = hzj_iface::hzj_image_struct;

    Struct read(G &g, Bytes &b) {
        if (!b.empty() && g.chance(20)) {
            // through a file
            FILE *f = fopen("in.jpg", "wb");
            CHECK(f && fwrite(b.data(), 1, b.size(), f) == b.size(), "harness: scratch file");
            fclose(f);
            return hzj_iface(std::string("in.jpg")).read();
        }
        return hzj_iface(b.data(), b.size()).read();
    }

    void compare(const Struct &s, const Image &m) {
        auto &h = s.header;
        CHECK(h.image_width == m.w && h.image_height == m.h, "dimensions %ux%u, the image is %ux%u", h.image_width, h.image_height, m.w, m.h);
        CHECK(h.num_components == m.comps.size() && h.comp_specs.size() == m.comps.size() && s.mcus.nchannels == m.comps.size(), "%u components, %zu layouts and %u coefficient arrays for %zu components",
              h.num_components, h.comp_specs.size(), s.mcus.nchannels, m.comps.size());
        CHECK(h.jpeg_color_space == m.colour, "colour space %u, not %d", h.jpeg_color_space, m.colour);
        CHECK(h.data_precision == m.precision, "precision %u, not %u", h.data_precision, m.precision);
        for (int t = 0; t < 4; t++) {
            CHECK(h.qtables[t].is_empty == !m.q_present[t], "quantisation table %d is %s", t, m.q_present[t] ? "missing" : "made up");
            if (m.q_present[t]) for (int k = 0; k < 64; k++) CHECK(h.qtables[t].cof[k] == m.q[t][k], "quantisation table %d entry %d is %u, not %u", t, k, h.qtables[t].cof[k], m.q[t][k]);
        }
        for (size_t c = 0; c < m.comps.size(); c++) {
            auto &x = h.comp_specs[c];
            auto &y = m.comps[c];
            CHECK(x.component_id == y.id && x.h_samp_factor == y.h && x.v_samp_factor == y.v && x.q_table_no == y.q, "component %zu is %u %ux%u table %u, not %d %dx%d table %d", c, x.component_id,
                  x.h_samp_factor, x.v_samp_factor, x.q_table_no, y.id, y.h, y.v, y.q);
            auto &a = s.mcus.coeff_arrays[c];
            CHECK(a.size() == (size_t) y.wb * y.hb, "component %zu has %zu blocks, not %ux%u", c, a.size(), y.wb, y.hb);
            for (size_t k = 0; k < a.size(); k++)
                for (int i = 0; i < 64; i++)
                    CHECK(a[k][i / 8][i % 8] == y.coef[k * 64 + i], "component %zu block %zu coefficient %d is %d, libjpeg has %d", c, k, i, a[k][i / 8][i % 8], y.coef[k * 64 + i]);
        }
        if (m.jfif) CHECK(h.density_unit == m.unit && h.X_density == m.xd && h.Y_density == m.yd, "density %u %ux%u, not %d %dx%d", h.density_unit, h.X_density, h.Y_density, m.unit, m.xd, m.yd);
    }

    void same(const Image &a, const Image &b) {
        CHECK(a.ok && b.ok, "the written file cannot be read: %s", b.why.c_str());
        CHECK(a.w == b.w && a.h == b.h, "written as %ux%u, not %ux%u", b.w, b.h, a.w, a.h);
        CHECK(a.comps.size() == b.comps.size() && a.colour == b.colour, "written with %zu components in colour space %d, not %zu in %d", b.comps.size(), b.colour, a.comps.size(), a.colour);
        for (size_t c = 0; c < a.comps.size(); c++) {
            auto &x = a.comps[c], &y = b.comps[c];
            CHECK(x.id == y.id && x.h == y.h && x.v == y.v, "component %zu written as %d %dx%d, not %d %dx%d", c, y.id, y.h, y.v, x.id, x.h, x.v);
            CHECK(x.wb == y.wb && x.hb == y.hb, "component %zu written with %ux%u blocks, not %ux%u", c, y.wb, y.hb, x.wb, x.hb);
            for (size_t i = 0; i < x.coef.size(); i++) CHECK(x.coef[i] == y.coef[i], "component %zu block %zu coefficient %zu written as %d, not %d", c, i / 64, i % 64, y.coef[i], x.coef[i]);
            for (int i = 0; i < 64; i++) CHECK(a.q[x.q][i] == b.q[y.q][i], "component %zu quantiser %d written as %u, not %u", c, i, b.q[y.q][i], a.q[x.q][i]);
        }
        if (a.jfif) CHECK(b.jfif && a.unit == b.unit && a.xd == b.xd && a.yd == b.yd && a.major == b.major && a.minor == b.minor, "JFIF fields written as %d.%d %d %dx%d, not %d.%d %d %dx%d", b.major, b.minor, b.unit, b.xd, b.yd, a.major, a.minor, a.unit, a.xd, a.yd);
    }
}

static void images(G &g) {
    Bytes b = generate(g), before = b;
    Image m;
    bool large;
    reference(b, m, 1u << 20, large);
    CHECK(m.ok && !large, "harness: the generated file cannot be read: %s", m.why.c_str());
    auto s = read(g, b);
    CHECK(b == before, "the input was changed");
    compare(s, m);
    if (g.chance(60)) {
        g.label("written back");
        char *mem = nullptr;
        size_t n = 0;
        FILE *out = open_memstream(&mem, &n);
        hzj_iface(b.data(), b.size()).write(s, out);
        fclose(out);
        Bytes w(mem, mem + n);
        free(mem);
        Image k;
        reference(w, k, 1u << 20, large);
        same(m, k);
        compare(read(g, w), k);
        compare(s, m);
    }
}

static void damaged(G &g) {
    Bytes b;
    if (g.chance(85)) b = generate(g);
    else {
        b = g.data(300);
        if (g.boolean()) b.insert(b.begin(), {0xff, 0xd8, 0xff});
    }
    uint64_t n = g.range(1, 5);
    for (uint64_t k = 0; k < n && !b.empty(); k++) {
        size_t head = g.boolean() ? std::min<size_t>(b.size(), 700) : b.size();
        size_t at = g.below(head);
        switch (g.draw(4)) {
            case 0: b[at] = (uint8_t) g.below(256); break;
            case 1: b[at] ^= (uint8_t) (1u << g.below(8)); break;
            case 2: b.resize(at); break;
            case 3: b.erase(b.begin() + at, b.begin() + at + std::min<size_t>(b.size() - at, g.range(1, 20))); break;
            default: {
                auto x = g.bytes(g.range(1, 6));
                if (g.boolean()) x[0] = 0xff;
                b.insert(b.begin() + at, x.begin(), x.end());
            }
        }
    }
    g.nontrivial();
    Image m;
    bool large;
    reference(b, m, 6000, large);
    if (large) {
        g.label("header asks for a large image");
        return;
    }
    bool thrown = false;
    try {
        auto s = read(g, b);
        CHECK(m.ok, "libjpeg rejects these bytes (%s), the reader does not", m.why.c_str());
        compare(s, m);
    } catch (const Failure &) { throw; }
    catch (const std::exception &e) {
        thrown = true;
        if (m.ok && m.why.empty()) fail("libjpeg decodes these bytes, the reader fails: %s", e.what());
    }
    g.label(thrown ? "rejected" : "decoded");
}

static void errors(G &g) {
    // files that are not there
    auto name = g.ascii(g.range(1, 20), "abcdefgh./") + "-none";
    g.note("%s", name.c_str());
    g.nontrivial();
    bool thrown = false;
    try { hzj_iface(name).read(); }
    catch (const std::exception &) { thrown = true; }
    CHECK(thrown, "a missing file was read");
}

std::vector<Prop> pbt::properties() {
    return {{"images", images, 40000, 1500000},
            {"damaged", damaged, 70000, 2500000},
            {"errors", errors, 200, 1000}};
}
