// C32: codec registry and the store-only codec.
// BUILD: repo=hzip_codec/*,hzip_core/*,hzip_storage/* mode=asan libs=crypto,png,loguru extra=fakecl
#include <pbt/pbt.h>
#include <typeinfo>
#include <thread>
#include <hzip_codec/compressors.h>
#include <hzip_codec/codec_provider.h>

using namespace pbt;
using namespace hzcodec;
const char *pbt::property_id = "C32";
const char *pbt::rule = "sequences of 1-60 registry requests (codec, name, block size) for known and unknown identifiers (any value of the enumeration's type, boundary-biased), "
                        "partly from several threads at once; store-only codec: byte strings of 0-70000 bytes, with or without a state, both directions; "
                        "non-trivial: known and unknown identifiers mixed, or at least one byte stored";

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

using u64 = unsigned long long;
using A = algorithms::ALGORITHM;

namespace {
    const A known[] = {algorithms::UNCOMPRESSED, algorithms::VICTINI, algorithms::SHARINGAN};
    const char *names[] = {"UNCOMPRESSED", "VICTINI", "SHARINGAN"};
    AbstractCodec *first_seen[3];
    uint64_t first_bsize[3];

    int index_of(uint64_t v) { return v < 3 ? (int) v : -1; }

    // The codec itself tells which one it is.
    bool right_type(int i, AbstractCodec *c) {
        if (i == 0) return dynamic_cast<Uncompressed *>(c) != nullptr;
        if (i == 1) return dynamic_cast<Victini *>(c) != nullptr;
        return dynamic_cast<Sharingan *>(c) != nullptr;
    }

    // Unknown identifiers stay within the underlying type. memcpy keeps the optimiser from assuming a valid enumerator.
    A make(u64 v) {
        A a{};
        memcpy((void *) &a, &v, std::min(sizeof(a), sizeof(v)));
        return a;
    }

    struct Req {
        u64 id;
        int what;
    };

    std::string ask(const Req &r) {
        int i = index_of(r.id);
        A a = make(r.id);
        try {
            if (r.what == 0) {
                auto *c = CodecProvider::algorithm_to_codec(a);
                if (i < 0) return fmt("identifier %llu was given a codec", r.id);
                if (c == nullptr) return fmt("%s has a null codec", names[i]);
                if (!right_type(i, c)) return fmt("%s was given a codec of another algorithm", names[i]);
                if (c != first_seen[i]) return fmt("%s was given another codec object than before", names[i]);
            } else if (r.what == 1) {
                const char *s = CodecProvider::algorithm_to_str(a);
                if (i < 0) return fmt("identifier %llu has the name %s", r.id, s);
                if (s == nullptr || std::string(s) != names[i]) return fmt("%s is called %s", names[i], s ? s : "(null)");
            } else {
                uint64_t b = CodecProvider::algorithm_to_bsize(a);
                if (i >= 0 && b == 0) return fmt("block size of %s is 0", names[i]);
                if (i >= 0 && b != first_bsize[i]) return fmt("block size of %s changed from %llu to %llu", names[i], (u64) first_bsize[i], (u64) b);
            }
        } catch (const std::exception &e) {
            if (i >= 0) return fmt("%s was refused: %s", names[i], e.what());
            if (e.what() == nullptr || e.what()[0] == 0) return "the exception carries no message";
        }
        return "";
    }
}

static void lookup(G &g) {
    for (int i = 0; i < 3; i++)
        if (first_seen[i] == nullptr) {
            first_seen[i] = CodecProvider::algorithm_to_codec(known[i]);
            first_bsize[i] = CodecProvider::algorithm_to_bsize(known[i]);
        }
    uint64_t n = g.range(1, 60);
    std::vector<Req> reqs;
    bool k = false, u = false;
    for (uint64_t j = 0; j < n; j++) {
        Req r;
        r.id = g.chance(50) ? g.below(3) : g.chance(60) ? g.u64() : (1ull << g.range(1, 63)) + g.below(3);
        if (sizeof(A) < 8) r.id &= ~0ull >> (64 - 8 * sizeof(A));
        r.what = (int) g.below(3);
        (index_of(r.id) >= 0 ? k : u) = true;
        reqs.push_back(r);
        g.note("%llu%c ", r.id, "cnb"[r.what]);
    }
    if (k && u) g.nontrivial();
    unsigned threads = g.chance(10) ? 3 : 1;
    if (threads == 1) {
        for (auto &r: reqs) {
            auto e = ask(r);
            CHECK(e.empty(), "%s", e.c_str());
        }
    } else {
        g.label("threads");
        std::vector<std::string> err(threads);
        std::vector<std::thread> t;
        for (unsigned x = 0; x < threads; x++)
            t.emplace_back([&, x] {
                for (auto &r: reqs)
                    if (auto e = ask(r); !e.empty()) err[x] = e;
            });
        for (auto &x: t) x.join();
        for (auto &e: err) CHECK(e.empty(), "%s", e.c_str());
    }
    for (int i = 0; i < 3; i++)
        for (int w = 0; w < 3; w++) {
            auto e = ask({(u64) i, w});
            CHECK(e.empty(), "afterwards: %s", e.c_str());
        }
}

static void store(G &g) {
    auto d = g.data(g.chance(5) ? 70000 : 800);
    if (!d.empty()) g.nontrivial();
    auto *c = CodecProvider::algorithm_to_codec(algorithms::UNCOMPRESSED);
    auto b = rainman::ptr<HZ_Blob>();
    b->data = rainman::ptr<uint8_t>(d.size());
    for (size_t i = 0; i < d.size(); i++) b->data[i] = d[i];
    b->size = b->o_size = d.size();
    b->status = g.boolean();
    std::vector<uint8_t> ms;
    if (g.boolean()) {
        ms = g.bytes(g.size(1, 40));
        b->mstate->data = rainman::ptr<uint8_t>(ms.size());
        for (size_t i = 0; i < ms.size(); i++) b->mstate->data[i] = ms[i];
        b->mstate->alg = g.boolean() ? algorithms::VICTINI : algorithms::UNCOMPRESSED;
    }
    g.note("%zu bytes %s", d.size(), hex(d).c_str());
    auto verify = [&](const rainman::ptr<HZ_Blob> &x, const char *what) {
        CHECK(x->size == d.size() && x->o_size == d.size() && x->data.size() == d.size(), "%s: sizes %llu/%llu, %llu bytes of data, not %zu", what, (u64) x->size, (u64) x->o_size,
              (u64) x->data.size(), d.size());
        for (size_t i = 0; i < d.size(); i++) CHECK(x->data[i] == d[i], "%s: byte %zu is %u, not %u", what, i, x->data[i], d[i]);
        CHECK(!x->status, "%s: the result claims to be compressed", what);
    };
    auto input = [&](const rainman::ptr<HZ_Blob> &x) {
        for (size_t i = 0; i < d.size(); i++) CHECK(x->data[i] == d[i], "the input was changed");
        CHECK(x->size == d.size() && x->o_size == d.size(), "the input's sizes were changed");
    };
    auto e = c->compress(b);
    verify(e, "stored");
    input(b);
    auto f = c->decompress(e);
    verify(f, "restored");
    verify(e, "stored");
    auto h = c->compress(c->decompress(e));
    verify(h, "stored twice");
    bool thrown = false;
    try { c->train(b); }
    catch (const std::exception &) { thrown = true; }
    CHECK(thrown, "training the store-only codec did not fail");
    // A blob from outside that claims more data than it has.
    auto m = rainman::ptr<HZ_Blob>();
    m->data = e->data;
    m->size = d.size();
    m->o_size = d.size() + g.range(1, 5000);
    try {
        auto x = c->decompress(m);
        CHECK(x->o_size <= x->data.size(), "%llu bytes claimed, %llu bytes of data", (u64) x->o_size, (u64) x->data.size());
    } catch (const Failure &) { throw; }
    catch (const std::exception &) {}
}

std::vector<Prop> pbt::properties() {
    return {{"lookup", lookup, 8000, 300000, REALTIME},
            {"store", store, 12000, 400000}};
}
