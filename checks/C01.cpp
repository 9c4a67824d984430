// C01: Victini codec.
// BUILD: repo=hzip_codec/victini/*.cpp,hzip_core/kernel/hzrans/*.cpp,hzip_core/blob/*.cpp,hzip_core/models/first_order_context.cpp extra=fakecl mode=asan libs=crypto fuzz=180
#include <pbt/pbt.h>
#include <algorithm>
#include <hzip_codec/victini/victini.h>

using namespace pbt;
const char *pbt::property_id = "C01";
const char *pbt::rule = "byte strings of 0..6000 bytes, and of 20000..350000 (thorough: up to 4 MiB) with lengths next to powers of two (runs, periods, text, small alphabets, random, all byte values) compressed with no state, a fresh state, a state trained "
                        "once or several times on other data, or a state left by another blob; several blobs share one state and are decompressed in any order, from the "
                        "live state or a byte-copied one; non-trivial: at least 8 bytes that are not all equal in some blob";

static rainman::ptr<uint8_t> arr(const std::vector<uint8_t> &v) {
    auto p = rainman::ptr<uint8_t>(v.size());
    for (uint64_t i = 0; i < v.size(); i++) p[i] = v[i];
    return p;
}

static rainman::ptr<HZ_Blob> blob_of(const std::vector<uint8_t> &v, const rainman::ptr<HZ_MState> &m) {
    auto b = rainman::ptr<HZ_Blob>();
    b->data = arr(v);
    b->size = v.size();
    b->o_size = v.size();
    b->mstate = m;
    return b;
}

static bool same(const rainman::ptr<uint8_t> &p, const std::vector<uint8_t> &v) {
    if (p.size() != v.size()) return false;
    for (uint64_t i = 0; i < v.size(); i++) if (p[i] != v[i]) return false;
    return true;
}

static std::vector<uint8_t> bytes_of(const rainman::ptr<uint8_t> &p) {
    std::vector<uint8_t> v(p.size());
    for (uint64_t i = 0; i < v.size(); i++) v[i] = p[i];
    return v;
}

// A copy as it would come back from storage.
static rainman::ptr<HZ_MState> stored(const rainman::ptr<HZ_MState> &m) {
    auto c = rainman::ptr<HZ_MState>();
    c->alg = m->alg;
    c->data = arr(bytes_of(m->data));
    return c;
}

static std::vector<uint8_t> content(G &g) {
    uint64_t max = g.chance(10) ? 6000 : 600;
    if (g.chance(6)) { // every byte value at least once
        std::vector<uint8_t> v(256 + g.below(200));
        for (uint64_t i = 0; i < v.size(); i++) v[i] = (uint8_t) (g.mode == G::RANDOM ? 255 - i : 255 - i);
        return v;
    }
    return g.data(max);
}

struct Item {
    std::vector<uint8_t> orig;
    rainman::ptr<HZ_Blob> c;
};

static void roundtrip(G &g) {
    auto codec = hzcodec::Victini();
    rainman::ptr<HZ_MState> state = rainman::ptr<HZ_MState>();
    unsigned start = g.weighted({3, 4, 2});
    bool trained = false;
    if (start >= 1) {
        unsigned rounds = start == 1 ? 1 : 2 + g.draw(1);
        for (unsigned i = 0; i < rounds; i++) {
            auto v = content(g);
            auto tb = blob_of(v, state);
            auto before = v;
            state = codec.train(tb);
            CHECK(same(tb->data, before), "training changed the training data");
            CHECK(!state->is_empty() && state->alg == hzcodec::algorithms::VICTINI, "a trained state does not carry the algorithm");
            CHECK(state->size() >= 256 * 256 * 8, "a trained state has only %llu bytes", (unsigned long long) state->size());
            trained = true;
            if (g.chance(30)) state = stored(state);
        }
        g.label(start == 1 ? "trained" : "trained repeatedly");
    } else g.label("no state");
    uint64_t n = 1 + g.below(trained ? 3 : 2);
    std::vector<Item> items;
    for (uint64_t k = 0; k < n; k++) {
        Item it;
        it.orig = content(g);
        bool nt = it.orig.size() >= 8 && std::count(it.orig.begin(), it.orig.end(), it.orig[0]) != (int64_t) it.orig.size();
        if (nt) g.nontrivial();
        g.note("%zu bytes%s %s; ", it.orig.size(), trained ? " (shared state)" : "", hex(it.orig).c_str());
        bool shared = !state->is_empty();
        auto use = shared || g.boolean() ? state : rainman::ptr<HZ_MState>();
        auto sbytes = bytes_of(use->data);
        bool fresh = use->is_empty();
        auto b = blob_of(it.orig, use);
        it.c = codec.compress(b);
        CHECK(same(b->data, it.orig) && b->size == it.orig.size() && b->o_size == it.orig.size(), "compressing changed the input blob");
        CHECK(it.c->o_size == it.orig.size(), "original size %llu recorded for %zu bytes", (unsigned long long) it.c->o_size, it.orig.size());
        CHECK(it.c->size == it.c->data.size(), "blob size %llu, %llu bytes of data", (unsigned long long) it.c->size, (unsigned long long) it.c->data.size());
        CHECK(it.c->header.size() == 8, "header of %llu bytes", (unsigned long long) it.c->header.size());
        CHECK(!it.c->mstate->is_empty() && it.c->mstate->alg == hzcodec::algorithms::VICTINI, "the compressed blob's state does not carry the algorithm");
        if (!fresh) CHECK(same(use->data, sbytes) && same(it.c->mstate->data, sbytes), "compressing changed the supplied model state");
        if (fresh && g.boolean()) state = it.c->mstate; // later blobs reuse the state this one created
        items.push_back(it);
    }
    // decompress in any order, possibly from storage copies, possibly twice
    uint64_t reps = n + g.below(2);
    for (uint64_t k = 0; k < reps; k++) {
        auto &it = items[k < n ? n - 1 - k : g.below(n)];
        auto d = rainman::ptr<HZ_Blob>();
        d->data = it.c->data;
        d->size = it.c->size;
        d->o_size = it.c->o_size;
        d->header = it.c->header;
        d->status = true;
        bool copy = g.boolean();
        d->mstate = copy ? stored(it.c->mstate) : it.c->mstate;
        auto cbytes = bytes_of(it.c->data), sb = bytes_of(it.c->mstate->data);
        auto out = codec.decompress(d);
        CHECK(out->o_size == it.orig.size(), "%llu bytes reported after decompression, %zu stored", (unsigned long long) out->o_size, it.orig.size());
        CHECK(same(out->data, it.orig), "decompressed data differs: %s, was %s", hex(bytes_of(out->data)).c_str(), hex(it.orig).c_str());
        CHECK(same(it.c->data, cbytes) && same(d->mstate->data, sb), "decompressing changed the blob or its state");
    }
    // the verdict on whether the blob is worth keeping
    auto &it = items[g.below(n)];
    auto ev = rainman::ptr<HZ_Blob>();
    *ev = *it.c;
    auto sb = bytes_of(it.c->mstate->data);
    auto orig = arr(it.orig);
    ev->evaluate(orig);
    bool worth = it.c->size < it.orig.size();
    g.label(worth ? "worth compressing" : "not worth compressing");
    CHECK(ev->status == worth, "%llu bytes for %zu: reported %s", (unsigned long long) it.c->size, it.orig.size(), ev->status ? "compressed" : "not compressed");
    CHECK(same(orig, it.orig), "evaluating changed the original data");
    CHECK(ev->o_size == it.orig.size(), "evaluating changed the original size");
    if (!worth) {
        CHECK(same(ev->data, it.orig) && ev->size == it.orig.size(), "an uncompressed blob does not hold the original data");
        CHECK(ev->mstate->is_empty(), "an uncompressed blob keeps a model state");
    } else CHECK(ev->size == it.c->size && same(ev->data, bytes_of(it.c->data)) && !ev->mstate->is_empty(), "evaluating changed a compressed blob");
    CHECK(!it.c->mstate->is_empty() && same(it.c->mstate->data, sb), "evaluating one blob changed the shared state");
}

// Lengths around the widths of the integers in use, up to the largest blob the server cuts a file into.
static void large(G &g) {
    static const uint64_t edges[] = {32767, 65535, 131071, 262143};
    uint64_t n;
    if (thorough() && g.chance(8)) n = (4u << 20) - g.below(3);
    else if (g.chance(50)) n = g.pick(std::vector<uint64_t>(edges, edges + 4)) - 3 + g.below(7);
    else n = 20000 + g.below(thorough() ? 1000000 : 330000);
    std::vector<uint8_t> v(n);
    unsigned style = g.draw(5);
    Rng r = g.sub();
    uint64_t period = 1 + g.below(70000), k = 1 + g.below(6);
    for (uint64_t i = 0; i < n; i++) {
        switch (style) {
            case 0: v[i] = (uint8_t) r.next(); break; // does not shrink: more than 65536 words
            case 1: v[i] = (uint8_t) (i ? (r.below(40) ? v[i - 1] : r.next()) : 7); break;
            case 2: v[i] = i < period ? (uint8_t) r.next() : v[i - period]; break;
            case 3: v[i] = (uint8_t) ('a' + r.below(k)); break;
            case 4: v[i] = (uint8_t) (i >> 8); break;
            default: v[i] = (uint8_t) (r.below(3000) ? 0 : r.next()); break;
        }
    }
    g.note("%llu bytes, style %u", (unsigned long long) n, style);
    g.label(fmt("style%u", style));
    g.label(n > 262144 ? "more than 262144 bytes" : n > 65536 ? "more than 65536 bytes" : n > 32768 ? "more than 32768 bytes" : "up to 32768 bytes");
    g.nontrivial();
    auto codec = hzcodec::Victini();
    auto state = rainman::ptr<HZ_MState>();
    if (g.chance(30)) {
        std::vector<uint8_t> t(v.begin(), v.begin() + n / 2);
        state = codec.train(blob_of(t, state));
        g.label("trained");
    }
    auto b = blob_of(v, state);
    auto c = codec.compress(b);
    CHECK(same(b->data, v) && b->size == n, "compressing changed the input blob");
    CHECK(c->o_size == n && c->size == c->data.size(), "sizes: original %llu, %llu of %llu bytes", (unsigned long long) c->o_size, (unsigned long long) c->size, (unsigned long long) c->data.size());
    c->mstate = stored(c->mstate);
    auto out = codec.decompress(c);
    CHECK(out->o_size == n && out->data.size() == n, "%llu bytes reported, %llu returned, %llu stored", (unsigned long long) out->o_size, (unsigned long long) out->data.size(), (unsigned long long) n);
    auto got = bytes_of(out->data);
    if (got != v) {
        uint64_t i = std::mismatch(v.begin(), v.end(), got.begin()).first - v.begin();
        fail("byte %llu of %llu comes back as %u, was %u", (unsigned long long) i, (unsigned long long) n, got[i], v[i]);
    }
    uint64_t csize = c->size;
    auto orig = arr(v);
    c->evaluate(orig);
    CHECK(c->status == (csize < n), "%llu bytes for %llu: reported %s", (unsigned long long) csize, (unsigned long long) n, c->status ? "compressed" : "not compressed");
    if (!c->status) CHECK(same(c->data, v) && c->size == n, "an uncompressed blob does not hold the original data");
}

std::vector<Prop> pbt::properties() { return {{"roundtrip", roundtrip, 1600, 60000}, {"large", large, 120, 1500, SINGLE, 120}}; }
