// C02: entropy coder and frequency tables.
// BUILD: repo=hzip_core/kernel/hzrans/*.cpp mode=asan fuzz=120
#include <pbt/pbt.h>
#include <algorithm>
#include <hzip_core/kernel/hzrans/hzrans64_codec.h>

using namespace pbt;
const char *pbt::property_id = "C02";
const char *pbt::rule = "raw counts of many shapes (flat, one-hot, zipf, huge, zero) over 1..4096 symbols at scales 1..31; symbol sequences (0..400 symbols, now and then 65530..85530) with a fixed, per-position "
                        "or context-dependent distribution, coded with the coder object and with the primitives, with object re-use; "
                        "non-trivial: two or more symbols in the alphabet and (for coding) at least four symbols coded";

using Table = std::vector<uint64_t>;

static Table counts(G &g, uint64_t n, unsigned scale) {
    // (count + 1) * 2^scale must stay within 64 bits, summed counts too.
    uint64_t max = std::min<uint64_t>((~0ull >> scale) - 2, (1ull << 48));
    Table f(n);
    unsigned style = g.draw(5);
    g.label(fmt("counts%u", style));
    Rng r = g.sub();
    uint64_t top = std::max<uint64_t>(1, g.u64(max));
    for (uint64_t i = 0; i < n; i++) {
        switch (style) {
            case 0: f[i] = 0; break;
            case 1: f[i] = top; break;
            case 2: f[i] = r.below(top); break;
            case 3: f[i] = r.below(8) == 0 ? r.below(top) : 0; break;
            case 4: f[i] = top / (i + 1); break;
            default: f[i] = r.below(20);
        }
    }
    if (style == 3) f[r.below(n)] = top;
    return f;
}

static uint64_t alphabet(G &g, unsigned scale) {
    uint64_t cap = std::min<uint64_t>(4096, 1ull << scale);
    switch (g.weighted({5, 2, 1, 2})) {
        case 0: return 1 + g.size(0, std::min<uint64_t>(cap, 300) - 1);
        case 1: return std::min<uint64_t>(cap, 256);
        case 2: return cap;
        default: return 1 + g.below(cap);
    }
}

static void check_table(const hzrans64_t &s, const Table &f) {
    uint64_t n = f.size(), sum = 0;
    for (uint64_t i = 0; i < n; i++) {
        CHECK(s.ftable[i] >= 1, "symbol %llu of %llu has no slot (count %llu, scale %llu)", (unsigned long long) i, (unsigned long long) n, (unsigned long long) f[i], (unsigned long long) s.scale);
        sum += s.ftable[i];
    }
    CHECK(sum == 1ull << s.scale, "slots sum to %llu, expected 2^%llu", (unsigned long long) sum, (unsigned long long) s.scale);
}

static void tables(G &g) {
    unsigned scale = 1 + g.draw(30);
    uint64_t n = alphabet(g, scale);
    auto f = counts(g, n, scale);
    g.note("scale %u, %llu symbols", scale, (unsigned long long) n);
    if (n > 1) g.nontrivial();
    hzrans64_t s;
    hzrans64_codec_init(&s, n, scale);
    hzrans64_create_ftable_nf(&s, f.data());
    check_table(s, f);
    // larger counts never get fewer slots (apart from the dispersed residue, which adds at most a few)
    uint64_t cum = 0;
    std::vector<uint64_t> cums(n + 1);
    for (uint64_t i = 0; i < n; i++) {
        cums[i] = cum;
        cum += s.ftable[i];
    }
    cums[n] = cum;
    unsigned probes = 12;
    for (unsigned k = 0; k < probes; k++) {
        uint64_t sym = k == 0 ? 0 : k == 1 ? n - 1 : g.below(n);
        hzrans64_add_to_seq(&s, sym);
        CHECK(s.ls == s.ftable[sym], "slot width of symbol %llu is %llu, expected %llu", (unsigned long long) sym, (unsigned long long) s.ls, (unsigned long long) s.ftable[sym]);
        CHECK(s.bs == cums[sym], "first slot of symbol %llu is %llu, expected %llu", (unsigned long long) sym, (unsigned long long) s.bs, (unsigned long long) cums[sym]);
        uint64_t in[3] = {cums[sym], cums[sym + 1] - 1, cums[sym] + g.below(s.ftable[sym])};
        for (uint64_t slot: in) {
            uint64_t got = hzrans64_inv_bs(&s, slot);
            CHECK(got == sym, "slot %llu belongs to symbol %llu, the search gives %llu", (unsigned long long) slot, (unsigned long long) sym, (unsigned long long) got);
        }
    }
    hzrans64_destroy(&s);
}

struct Model {
    std::vector<Table> f; // raw counts of each distribution
    unsigned kind; // 0 one distribution, 1 by position, 2 by previous symbol

    uint64_t which(uint64_t i, uint64_t prev) const { return kind == 0 ? 0 : kind == 1 ? i % f.size() : (i == 0 ? 0 : prev) % f.size(); }
};

static Model model(G &g, uint64_t n, unsigned scale) {
    Model m;
    m.kind = g.draw(2);
    uint64_t k = m.kind == 0 ? 1 : 1 + g.draw(4);
    for (uint64_t i = 0; i < k; i++) m.f.push_back(counts(g, n, scale));
    g.label(fmt("dist%u", m.kind));
    return m;
}

static std::vector<uint64_t> symbols(G &g, uint64_t n, uint64_t max, const Model &m) {
    uint64_t len = max > 200 && n <= 16 && g.draw(799) == 799 ? 65530 + g.below(20000) : g.size(0, max);
    std::vector<uint64_t> v(len);
    unsigned style = g.draw(4);
    Rng r = g.sub();
    uint64_t rare = std::min_element(m.f[0].begin(), m.f[0].end()) - m.f[0].begin(), common = std::max_element(m.f[0].begin(), m.f[0].end()) - m.f[0].begin();
    for (uint64_t i = 0; i < len; i++) {
        switch (style) {
            case 0: v[i] = len <= 12 ? g.below(n) : r.below(n); break;
            case 1: v[i] = rare; break;
            case 2: v[i] = common; break;
            case 3: v[i] = r.below(10) ? common : r.below(n); break;
            default: v[i] = r.below(2) ? n - 1 : 0;
        }
    }
    return v;
}

static void coder(G &g) {
    unsigned req = g.chance(10) ? 32 + g.draw(8) : 1 + g.draw(30); // scales above 31 are capped
    unsigned scale = std::min(req, 31u);
    hzrans64_encoder enc;
    hzrans64_decoder dec;
    auto buf = rainman::ptr<uint32_t>(1);
    uint64_t rounds = 1 + (g.chance(20) ? 1 : 0);
    for (uint64_t round = 0; round < rounds; round++) {
        uint64_t n = alphabet(g, scale);
        if (n > 512) n = 512;
        auto m = model(g, n, scale);
        auto v = symbols(g, n, 400, m);
        g.note("scale %u, %llu symbols, %zu coded, kind %u; ", req, (unsigned long long) n, v.size(), m.kind);
        if (n > 1 && v.size() >= 4) g.nontrivial();
        uint64_t idx = v.size();
        enc.set_header(n, req, v.size());
        enc.set_size(v.size());
        bool bad_order = false;
        enc.set_cross_encoder([&](const rainman::ptr<hzrans64_t> &st, const rainman::ptr<HZ_Stack<uint32_t>> &) {
            if (idx == 0) {
                bad_order = true;
                return;
            }
            idx--;
            hzrans64_create_ftable_nf(st.pointer(), m.f[m.which(idx, idx ? v[idx - 1] : 0)].data());
            check_table(*st.pointer(), m.f[0]);
            hzrans64_add_to_seq(st.pointer(), v[idx]);
        });
        auto out = enc.encode();
        CHECK(!bad_order && idx == 0, "the encoder asked for %s symbols", bad_order ? "more" : "fewer");
        CHECK(out.n == out.data.size(), "%llu words reported, %llu present", (unsigned long long) out.n, (unsigned long long) out.data.size());
        // nothing but the coder's own words may be consumed: exact-size copy
        auto raw = rainman::ptr<uint32_t>(out.n);
        for (uint64_t i = 0; i < out.n; i++) raw[i] = out.data[i];
        uint64_t at = 0, prev = 0, used = 0;
        rainman::ptr<hzrans64_t> seen;
        auto sym = rainman::ptr<uint64_t>(1);
        dec.set_header(n, req, v.size());
        dec.override_symbol_ptr(sym);
        dec.set_cross_decoder([&](const rainman::ptr<hzrans64_t> &st, const rainman::ptr<HZ_Stack<uint32_t>> &) {
            seen = st;
            hzrans64_create_ftable_nf(st.pointer(), m.f[m.which(at, prev)].data());
            uint64_t s = hzrans64_inv_bs(st.pointer(), st->x & st->mask);
            hzrans64_add_to_seq(st.pointer(), s);
            *sym = s;
            prev = s;
            at++;
        });
        auto back = dec.decode(raw);
        CHECK(back.n == v.size(), "%llu symbols decoded, %zu encoded", (unsigned long long) back.n, v.size());
        CHECK(at == v.size(), "the decoder asked for %llu symbols of %zu", (unsigned long long) at, v.size());
        for (uint64_t i = 0; i < v.size(); i++) CHECK(back.data[i] == v[i], "symbol %llu of %zu decodes to %llu, was %llu (scale %u)", (unsigned long long) i, v.size(), (unsigned long long) back.data[i], (unsigned long long) v[i], scale);
        if (!v.empty()) {
            used = seen->count;
            CHECK(used == out.n, "%llu of %llu words consumed", (unsigned long long) used, (unsigned long long) out.n);
        }
    }
}

// The primitives, with the alphabet (and so the table) changing at every step, as the codecs drive them.
static void primitives(G &g) {
    unsigned scale = 1 + g.draw(30);
    uint64_t n = 1 + g.below(std::min<uint64_t>(1ull << scale, 64));
    uint64_t len = g.size(0, 200);
    auto m = model(g, n, scale);
    m.kind = 1;
    hzrans64_t e, d;
    hzrans64_codec_init(&e, n, scale);
    hzrans64_codec_init(&d, n, scale);
    std::vector<uint64_t> v(len);
    Rng r = g.sub();
    for (auto &x: v) x = len <= 12 ? g.below(n) : r.below(n);
    g.note("scale %u, %llu symbols, %llu coded", scale, (unsigned long long) n, (unsigned long long) len);
    if (n > 1 && len >= 4) g.nontrivial();
    HZ_Stack<uint32_t> st;
    for (uint64_t i = len; i-- > 0;) {
        hzrans64_create_ftable_nf(&e, m.f[i % m.f.size()].data());
        hzrans64_add_to_seq(&e, v[i]);
        hzrans64_encode_s(&e, &st);
    }
    hzrans64_enc_flush(&e, &st);
    CHECK(e.count == st.size(), "%llu words counted, %llu pushed", (unsigned long long) e.count, (unsigned long long) st.size());
    auto raw = rainman::ptr<uint32_t>(e.count);
    for (uint64_t i = 0; i < e.count; i++) {
        raw[i] = st.top();
        st.pop();
    }
    hzrans64_dec_load_state(&d, raw);
    for (uint64_t i = 0; i < len; i++) {
        hzrans64_create_ftable_nf(&d, m.f[i % m.f.size()].data());
        uint64_t s = hzrans64_inv_bs(&d, d.x & d.mask);
        CHECK(s == v[i], "symbol %llu of %llu decodes to %llu, was %llu", (unsigned long long) i, (unsigned long long) len, (unsigned long long) s, (unsigned long long) v[i]);
        hzrans64_add_to_seq(&d, s);
        hzrans64_decode_s(&d, raw);
    }
    CHECK(d.count == e.count, "%llu of %llu words consumed", (unsigned long long) d.count, (unsigned long long) e.count);
    hzrans64_destroy(&e);
    hzrans64_destroy(&d);
}

std::vector<Prop> pbt::properties() {
    return {{"tables", tables, 80000, 1600000}, {"coder", coder, 60000, 1200000}, {"primitives", primitives, 80000, 1600000}};
}
