// Property-based testing engine: choice-sequence generation (every random decision is one bounded
// integer), forked workers with crash and hang isolation, generic shrinking on the choice sequence,
// replay files and evidence. One property function can also be driven by libFuzzer (PBT_LIBFUZZER).
#ifndef PBT_H
#define PBT_H

#include <cstdarg>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {
    // 0 while searching, 1 while a failure is confirmed, 2 while it is made smaller.
    extern int phase;

    // Thrown by a failed check inside a property.
    struct Failure {
        std::string msg;
    };

    std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

    [[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));

    // Report a failure from any thread or from inside an interposed C function; ends the process.
    [[noreturn]] void fail_now(const char *f, ...) __attribute__((format(printf, 1, 2)));

    struct Rng {
        uint64_t s[2];

        explicit Rng(uint64_t seed);

        uint64_t next();

        uint64_t below(uint64_t n); // [0, n)
    };

    uint64_t mix(uint64_t a, uint64_t b);

    uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x9e3779b97f4a7c15ull);

    class G {
    public:
        enum Mode { RANDOM, REPLAY, BYTES };

        // The only primitive: an integer in [0, bound]. 0 is the simplest value.
        uint64_t draw(uint64_t bound);

        // As draw, but a random run picks the value with a caller-supplied sampler.
        uint64_t draw_with(uint64_t bound, const std::function<uint64_t(Rng &)> &sampler);

        uint64_t below(uint64_t n) { return n <= 1 ? 0 : draw(n - 1); } // [0, n)
        uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); } // [lo, hi]
        int64_t irange(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t) (hi - lo)); }

        bool chance(unsigned percent); // true with that probability; shrinks to false
        bool boolean() { return draw(1) != 0; }

        // Index picked with the given weights; shrinks to the first.
        size_t weighted(std::initializer_list<unsigned> w);

        template<typename C>
        const typename C::value_type &pick(const C &c) { return c[below(c.size())]; }

        template<typename T>
        T pick(std::initializer_list<T> c) { return *(c.begin() + below(c.size())); }

        // A length in [lo, hi], skewed to small values but reaching hi.
        uint64_t size(uint64_t lo, uint64_t hi);

        // A 64-bit value (at most `max`) biased to boundaries and powers of two.
        uint64_t u64(uint64_t max = ~0ull);

        // Byte string of given length. Short ones are drawn byte by byte (so they shrink well); long ones
        // are expanded from a drawn style and seed.
        std::vector<uint8_t> bytes(uint64_t n);

        // Byte string with generated length and structure (runs, periods, text, small alphabets, ...).
        std::vector<uint8_t> data(uint64_t max);

        std::string ascii(uint64_t n, const char *alphabet);

        Rng sub(); // generator seeded by one draw, for bulk content

        // Classification.
        void label(const std::string &l) { labels.insert(l); }

        void nontrivial() { is_nontrivial = true; }

        // Free text describing the case (kept for samples and the replay file).
        void note(const char *f, ...) __attribute__((format(printf, 2, 3)));

        // Internal state.
        Mode mode = RANDOM;
        Rng rng{0};
        std::vector<uint64_t> in; // REPLAY
        const uint8_t *bp = nullptr; // BYTES
        size_t bn = 0;
        size_t pos = 0;
        uint64_t budget = 1u << 22;
        std::set<std::string> labels;
        bool is_nontrivial = false;
        std::string notes;
    };

    using Fn = void (*)(G &);

    enum Kind {
        SINGLE, // one thread: a lock that cannot be taken is a deadlock
        SCHED, // threads under the deterministic scheduler (sched.cpp linked in)
        REALTIME // real threads; a failure must repeat in most re-runs
    };

    struct Prop {
        const char *name;
        Fn fn;
        unsigned quick; // cases in the quick tier
        unsigned thorough; // cases in the thorough tier
        Kind kind = SINGLE;
        unsigned wall_s = 20; // watchdog per case
        unsigned jobs = 8;
    };

    // Each harness defines these.
    extern const char *property_id;
    extern const char *rule;

    std::vector<Prop> properties();

    // Optional: run once in every process that executes cases.
    extern void (*process_init)();

    // The engine's current thread mode (read by the interposers).
    extern Kind current_kind;

    // Scratch directory of this process (created, removed by the engine).
    const std::string &scratch();

    // Directory shared by all processes of one run.
    std::string shared_dir();

    void rm_scratch_contents();

    // Called by a property when it knowingly handles a listed finding.
    bool thorough();

    std::string hex(const void *p, size_t n, size_t max = 24);

    inline std::string hex(const std::vector<uint8_t> &v) { return hex(v.data(), v.size()); }
}

#define CHECK(c, ...) do { if (!(c)) ::pbt::fail(__VA_ARGS__); } while (0)

#endif
