// C20: counting semaphore.
// BUILD: repo=hzip_core/utils/semaphore.cpp mode=sched
#include <pbt/sched.h>
#include <hzip_core/utils/semaphore.h>
#include <thread>
#include <memory>

using namespace pbt;
const char *pbt::property_id = "C20";
const char *pbt::rule = "1-6 threads with scripts of up to 6 acquire/release calls on one semaphore (initial count 0-4), every call and instrumented memory access a generated preemption "
                        "point, spurious wake-ups included; non-trivial: some thread had to block";

namespace {
    struct Shared {
        std::unique_ptr<Semaphore> s;
        uint64_t init = 0;
        // Only the running thread touches these, and no scheduling point lies between an operation's return and its update.
        uint64_t rel_started = 0, acq_done = 0, rel_done = 0, acq_started = 0;
    };

    void acquire(Shared &h) {
        h.acq_started++;
        h.s->acquire();
        h.acq_done++;
        if (h.acq_done > h.init + h.rel_started)
            fail_now("%llu acquisitions completed with an initial count of %llu and %llu releases", (unsigned long long) h.acq_done,
                     (unsigned long long) h.init, (unsigned long long) h.rel_started);
    }

    void release(Shared &h) {
        h.rel_started++;
        h.s->release();
        h.rel_done++;
    }
}

static void mixed(G &g) {
    Shared h;
    h.init = g.below(5);
    bool dflt = g.chance(10);
    if (dflt) h.init = 0;
    h.s = dflt ? std::make_unique<Semaphore>() : std::make_unique<Semaphore>(h.init);
    unsigned n = (unsigned) g.range(1, 6);
    std::vector<std::vector<bool>> scripts(n);
    g.note("count %llu;", (unsigned long long) h.init);
    uint64_t total_acq = 0;
    for (auto &s: scripts) {
        unsigned k = (unsigned) g.range(1, 6);
        for (unsigned i = 0; i < k; i++) {
            s.push_back(g.chance(45));
            total_acq += !s.back();
        }
        g.note(" ");
        for (bool b: s) g.note("%c", b ? 'R' : 'A');
    }
    bool blocked_seen = false;
    {
        sched::Scope sc(g);
        std::vector<std::thread> t;
        for (auto &s: scripts)
            t.emplace_back([&h, &s] {
                for (bool r: s) r ? release(h) : acquire(h);
            });
        // Once nothing can run any more, a blocked thread means there is no permit left.
        while (true) {
            sched::settle();
            int b = sched::blocked();
            if (b == 0) break;
            blocked_seen = true;
            uint64_t permits = h.init + h.rel_done - h.acq_done;
            if (permits != 0) fail_now("%d threads are blocked in acquire() while %llu permits are available (initial %llu, %llu releases, %llu acquisitions)",
                                       b, (unsigned long long) permits, (unsigned long long) h.init, (unsigned long long) h.rel_done, (unsigned long long) h.acq_done);
            unsigned give = (unsigned) g.range(1, b);
            for (unsigned i = 0; i < give; i++) release(h);
        }
        for (auto &x: t) x.join();
    }
    // The remaining permits can be taken without blocking.
    uint64_t left = h.init + h.rel_done - h.acq_done;
    {
        sched::Scope sc(g);
        std::thread t([&] { for (uint64_t i = 0; i < left; i++) acquire(h); });
        t.join();
        bool more = g.boolean();
        if (more) {
            std::thread u([&] { acquire(h); });
            sched::settle();
            if (sched::blocked() != 1) fail_now("an acquisition without any permit left did not block");
            release(h);
            u.join();
        }
    }
    if (blocked_seen) {
        g.nontrivial();
        g.label("blocked");
    }
    g.label(fmt("%u threads", n));
}

// Used as a lock or a pool, as the processor does: never more than `count` holders.
static void pool(G &g) {
    unsigned cap = (unsigned) g.range(1, 4), n = (unsigned) g.range(2, 6), rounds = (unsigned) g.range(1, 4);
    Shared h;
    h.init = cap;
    h.s = std::make_unique<Semaphore>(cap);
    unsigned inside = 0, peak = 0;
    g.note("capacity %u, %u threads, %u rounds", cap, n, rounds);
    {
        sched::Scope sc(g);
        std::vector<std::thread> t;
        for (unsigned i = 0; i < n; i++)
            t.emplace_back([&] {
                for (unsigned r = 0; r < rounds; r++) {
                    acquire(h);
                    inside++;
                    if (inside > cap) fail_now("%u holders of a semaphore with %u permits", inside, cap);
                    peak = std::max(peak, inside);
                    sched::point();
                    inside--;
                    release(h);
                }
            });
        for (auto &x: t) x.join();
    }
    if (peak == cap && n > cap) {
        g.nontrivial();
        g.label("pool full");
    }
}

std::vector<Prop> pbt::properties() {
    return {{"mixed", mixed, 6000, 120000, SCHED, 20},
            {"pool", pool, 3000, 60000, SCHED, 20}};
}
