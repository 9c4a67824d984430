// C26: bit-level and integer encodings.
// BUILD: repo=hzip_core/blob/blob.cpp mode=asan libs=crypto extra=fakecl
#include <pbt/pbt.h>
#include <openssl/evp.h>
#include <hzip_core/utils/utils.h>
#include <hzip_core/blob/blob.h>

using namespace pbt;
const char *pbt::property_id = "C26";
const char *pbt::rule = "sequences of 1-40 mixed encodings (unary up to 300, Elias-gamma up to 2^31-1, fixed-width integers and bit groups of 0-64 bits) written at arbitrary bit "
                        "offsets of one stream and read back in order; byte/word packing of 0-200 elements; parameter maps with arbitrary byte strings; tokens, digests and "
                        "logarithms of boundary-biased values; non-trivial: at least three different encodings or a value above 255 or a string of two or more bytes";

using u64 = unsigned long long;

namespace {
    struct Item {
        int kind; // 0 unary 1 gamma 2 raw bits
        uint64_t v;
        unsigned n;
    };

    unsigned lg2(uint64_t v) {
        unsigned k = 0;
        while (v >>= 1) k++;
        return k;
    }

    std::string random_string(G &g, uint64_t max) {
        uint64_t n = g.size(0, max);
        auto b = g.bytes(n);
        return std::string(b.begin(), b.end());
    }
}

// Mixed encodings in one bit stream.
static void streams(G &g) {
    uint64_t n = g.range(1, 40);
    std::vector<Item> items;
    std::vector<bool> want; // the expected bits
    auto put = [&](uint64_t v, unsigned bits) { for (unsigned i = bits; i > 0; i--) want.push_back(v >> (i - 1) & 1); };
    unsigned off = (unsigned) g.below(65);
    uint64_t lead = g.u64();
    if (off < 64) lead &= (1ull << off) - 1;
    put(lead, off);
    bool huge = g.chance(1); // one number beyond 16 bits in unary
    std::vector<uint8_t> raw((huge ? 20000 : 0) + 8192 + 40 * 64);
    for (auto &b: raw) b = 0xff; // what follows must not matter
    bitio::stream w(raw.data(), raw.size());
    w.write(lead, off);
    std::set<int> kinds;
    for (uint64_t i = 0; i < n; i++) {
        Item it{(int) g.weighted({3, 4, 3}), 0, 0};
        uint64_t at = w.tell();
        if (it.kind == 0) {
            it.v = huge ? g.range(60000, 140000) : g.chance(20) ? g.range(1, 300) : g.range(1, 12);
            huge = false;
            uint64_t calls = 0, ones = 0;
            hz_unary_write(it.v, [&](uint64_t obj, uint8_t bits) {
                w.write(obj, bits);
                calls += bits;
                ones += obj;
            });
            CHECK(w.tell() - at == it.v, "unary code of %llu takes %llu bits", (u64) it.v, (u64) (w.tell() - at));
            for (uint64_t k = 1; k < it.v; k++) want.push_back(true);
            want.push_back(false);
        } else if (it.kind == 1) {
            it.v = g.u64(0x7fffffff);
            auto b = hz_elias_gamma(it.v);
            unsigned len = it.v == 0 ? 1 : 2 * lg2(it.v) + 3;
            CHECK(b.n == len, "gamma code of %llu has %llu bits, not %u", (u64) it.v, (u64) b.n, len);
            CHECK(b.n >= 64 || (uint64_t) b.obj >> b.n == 0, "gamma code of %llu does not fit its %llu bits", (u64) it.v, (u64) b.n);
            w.write(b.obj, b.n);
            if (it.v == 0) want.push_back(false);
            else {
                for (unsigned k = 0; k <= lg2(it.v); k++) want.push_back(true);
                want.push_back(false);
                put(it.v, lg2(it.v) + 1);
            }
        } else {
            it.n = (unsigned) g.range(0, 64);
            it.v = it.n == 0 ? 0 : g.u64(it.n == 64 ? ~0ull : (1ull << it.n) - 1);
            w.write(it.v, it.n);
            put(it.v, it.n);
        }
        kinds.insert(it.kind);
        if (it.v > 255) g.nontrivial();
        g.note("%c%llu ", "UGB"[it.kind], (u64) it.v);
        items.push_back(it);
    }
    if (kinds.size() >= 3) g.nontrivial();
    CHECK(w.tell() == want.size(), "%llu bits written, %zu expected", (u64) w.tell(), want.size());
    for (size_t i = 0; i < want.size(); i++)
        CHECK(((raw[i >> 3] >> (7 - (i & 7))) & 1) == want[i], "bit %zu of the stream is %d", i, !want[i]);
    bitio::stream r(raw.data(), raw.size());
    CHECK(r.read(off) == lead, "lead-in changed");
    for (auto &it: items) {
        uint64_t got;
        if (it.kind == 0) got = hz_unary_read([&](uint8_t bits) { return r.read(bits); });
        else if (it.kind == 1) {
            auto b = hz_elias_gamma_inv([&](uint64_t bits) { return r.read(bits); });
            got = b.obj;
            unsigned len = it.v == 0 ? 0 : lg2(it.v) + 1;
            CHECK(b.n == len, "gamma decoder reports %llu bits for %llu", (u64) b.n, (u64) it.v);
        } else got = r.read(it.n);
        CHECK(got == it.v, "%s: wrote %llu, read %llu", it.kind == 0 ? "unary" : it.kind == 1 ? "gamma" : "bits", (u64) it.v, (u64) got);
    }
    CHECK(r.tell() == want.size(), "%llu bits consumed of %zu", (u64) r.tell(), want.size());
}

// A vector of bit groups packed into bytes.
static void pack(G &g) {
    uint64_t n = g.size(0, g.chance(2) ? 3000 : 60);
    std::vector<bin_t> v;
    std::vector<bool> want;
    for (uint64_t i = 0; i < n; i++) {
        bin_t b;
        b.n = g.chance(30) ? g.pick<unsigned>({1, 7, 8, 9, 32, 63, 64}) : g.range(0, 64);
        b.obj = b.n == 0 ? 0 : g.u64(b.n == 64 ? ~0ull : (1ull << b.n) - 1);
        for (unsigned k = b.n; k > 0; k--) want.push_back((uint64_t) b.obj >> (k - 1) & 1);
        v.push_back(b);
        if (b.obj > 255) g.nontrivial();
    }
    g.note("%llu groups, %zu bits", (u64) n, want.size());
    auto raw = hz_vecbin_to_raw(v);
    CHECK(raw.size() == (want.size() + 7) / 8, "%zu bits packed into %llu bytes", want.size(), (u64) raw.size());
    for (size_t i = 0; i < want.size(); i++) CHECK((raw[i >> 3] >> (7 - (i & 7)) & 1) == want[i], "bit %zu is wrong", i);
    bitio::stream r(raw.pointer(), raw.size());
    for (auto &b: v) CHECK(r.read(b.n) == (uint64_t) b.obj, "a group of %u bits reads back differently", (unsigned) b.n);
}

// Byte buffers and words.
static void words(G &g) {
    uint64_t n = g.chance(30) ? g.pick<uint64_t>({0, 1, 2, 3, 4, 5, 7, 8, 9}) : g.size(0, g.chance(1) ? 70000 : 200);
    auto b = g.bytes(n);
    auto p = rainman::ptr<uint8_t>(n);
    for (uint64_t i = 0; i < n; i++) p[i] = b[i];
    auto w = hz_u8_to_u32ptr(p, n);
    uint64_t n32 = (n + 3) / 4;
    if (n >= 2) g.nontrivial();
    g.label(n % 4 == 0 ? "whole words" : "partial last word");
    g.note("%llu bytes %s; ", (u64) n, hex(b).c_str());
    CHECK(w.size() == n32, "%llu bytes became %llu words", (u64) n, (u64) w.size());
    for (uint64_t i = 0; i < n32; i++) {
        uint32_t e = 0;
        for (unsigned k = 0; k < 4; k++) e = e << 8 | (4 * i + k < n ? b[4 * i + k] : 0);
        CHECK(w[i] == e, "word %llu is %08x, not %08x", (u64) i, w[i], e);
    }
    auto back = hz_u32_to_u8ptr(w, n32);
    CHECK(back.size() == 4 * n32, "%llu words became %llu bytes", (u64) n32, (u64) back.size());
    for (uint64_t i = 0; i < 4 * n32; i++) CHECK(back[i] == (i < n ? b[i] : 0), "byte %llu came back as %u", (u64) i, back[i]);
    for (uint64_t i = 0; i < n; i++) CHECK(p[i] == b[i], "the source was changed");
    // a prefix only
    uint64_t m = g.below(n + 1);
    auto wp = hz_u8_to_u32ptr(p, m);
    auto bp = hz_u32_to_u8ptr(wp, wp.size());
    for (uint64_t i = 0; i < m; i++) CHECK(bp[i] == b[i], "prefix of %llu: byte %llu differs", (u64) m, (u64) i);
    // 64-bit integers
    uint64_t x = g.u64();
    auto buf = rainman::ptr<uint8_t>(16);
    for (int i = 0; i < 16; i++) buf[i] = 0x5a;
    hz_u64_to_u8buf(x, buf);
    for (int i = 0; i < 8; i++) CHECK(buf[i] == (uint8_t) (x >> (8 * i)), "byte %d of %llx is %02x", i, (u64) x, buf[i]);
    for (int i = 8; i < 16; i++) CHECK(buf[i] == 0x5a, "the buffer was written past eight bytes");
    CHECK(hz_u8buf_to_u64(buf) == x, "%llx came back as %llx", (u64) x, (u64) hz_u8buf_to_u64(buf));
    g.note("%llx", (u64) x);
}

// Codec parameter maps.
static void params(G &g) {
    HZ_Params p;
    uint64_t n = g.size(0, g.chance(2) ? 300 : 12);
    std::map<std::string, std::string> want;
    for (uint64_t i = 0; i < n; i++) {
        std::string k = random_string(g, g.chance(3) ? 700 : 20), v;
        switch (g.weighted({5, 2, 2})) {
            case 0:
                v = random_string(g, g.chance(5) ? g.pick<uint64_t>({300, 5000, 70000}) : 30);
                break;
            case 1:
                v = std::to_string(g.u64());
                break;
            default:
                v = std::to_string((int64_t) g.u64());
        }
        want[k] = v;
        p.params[k] = v;
        if (k.size() > 1 || v.size() > 1) g.nontrivial();
        g.note("%s=%s ", hex(k.data(), k.size(), 10).c_str(), hex(v.data(), v.size(), 10).c_str());
    }
    auto raw = p.to_byte_array();
    uint64_t len = 8;
    for (auto &[k, v]: want) len += 16 + k.size() + v.size();
    CHECK(raw.size() == len, "%llu bytes for %zu parameters, not %llu", (u64) raw.size(), want.size(), (u64) len);
    auto q = HZ_Params::from_byte_array(raw);
    CHECK(q.params.size() == want.size(), "%zu parameters came back of %zu", q.params.size(), want.size());
    for (auto &[k, v]: want) {
        CHECK(q.params.contains(k) && q.params[k] == v, "parameter %s came back differently", hex(k.data(), k.size()).c_str());
        CHECK(q.get<std::string>(k, "other") == v, "get() returned something else");
    }
    uint64_t u = g.u64();
    int64_t s = (int64_t) g.u64();
    std::string key = random_string(g, 6);
    std::string du = std::to_string(u), ds = std::to_string(s);
    if (!want.contains(key)) {
        CHECK(q.get<std::string>(key, du) == du, "an absent parameter has no default");
        CHECK(q.get<uint64_t>(key, du) == u, "default %s read as %llu", du.c_str(), (u64) q.get<uint64_t>(key, du));
        CHECK(q.get<int64_t>(key, ds) == s, "default %s read as %lld", ds.c_str(), (long long) q.get<int64_t>(key, ds));
    }
    CHECK(q.params.size() == want.size(), "get() changed the map");
    q.params[key] = du;
    CHECK(q.get<uint64_t>(key, "0") == u, "parameter %s read as %llu", du.c_str(), (u64) q.get<uint64_t>(key, "0"));
    q.params[key] = ds;
    CHECK(q.get<int64_t>(key, "0") == s, "parameter %s read as %lld", ds.c_str(), (long long) q.get<int64_t>(key, "0"));
}

// Tokens, digests, logarithms, assertions.
static void misc(G &g) {
    std::string pwd = random_string(g, g.chance(6) ? g.pick<uint64_t>({300, 1000, 70000}) : 40);
    uint64_t x = g.u64();
    uint64_t e = hz_enc_token(pwd, x);
    uint64_t want = x;
    for (size_t i = 0; i < pwd.size(); i++) want ^= (uint64_t) (uint8_t) pwd[i] << (8 * (i % 8));
    if (pwd.size() > 1) g.nontrivial();
    g.note("token %llx under %s", (u64) x, hex(pwd.data(), pwd.size(), 40).c_str());
    CHECK(e == want, "token %llx became %llx, not %llx", (u64) x, (u64) e, (u64) want);
    CHECK(hz_enc_token(pwd, e) == x, "token %llx came back as %llx", (u64) x, (u64) hz_enc_token(pwd, e));
    std::string s = random_string(g, g.chance(10) ? g.pick<uint64_t>({3000, 3000, 100000}) : 200);
    unsigned char md[64];
    unsigned ml = 0;
    EVP_Digest(s.data(), s.size(), md, &ml, EVP_sha512(), nullptr);
    std::string h;
    for (unsigned i = 0; i < 64; i++) h += fmt("%02x", md[i]);
    CHECK(hz_sha512(s) == h, "digest of %zu bytes is %s", s.size(), hz_sha512(s).c_str());
    uint64_t v = g.u64();
    CHECK(hz_u64log2(v) == (v == 0 ? 0 : lg2(v)), "log2 of %llu is %llu", (u64) v, (u64) hz_u64log2(v));
    std::string msg = random_string(g, 20);
    bool c = g.boolean(), thrown = false;
    try { hz_assert(c, msg); }
    catch (const std::exception &ex) {
        thrown = true;
        CHECK(ex.what() != nullptr && ex.what()[0] != 0, "the assertion's exception carries no message");
    }
    CHECK(thrown == !c, "assertion %s", thrown ? "failed although it holds" : "did not fail");
    uint64_t a = hz_rand64(), b = hz_rand64();
    CHECK(a != b, "two random numbers in a row are equal");
}

std::vector<Prop> pbt::properties() {
    return {{"streams", streams, 40000, 1500000},
            {"pack", pack, 20000, 700000},
            {"words", words, 20000, 700000},
            {"params", params, 15000, 500000},
            {"misc", misc, 30000, 1000000}};
}
