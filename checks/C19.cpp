// C19: the processor.
// BUILD: repo=hzip_codec/*,hzip_core/*,hzip_storage/* mode=sched libs=crypto,png,loguru extra=fakecl
#include <pbt/sched.h>
#include <hzip_codec/processor/processor.h>
#include <memory>
#include <thread>
#include <unistd.h>

using namespace pbt;
const char *pbt::property_id = "C19";
const char *pbt::rule = "1-12 encode/decode/train jobs (up to 2 submitted from inside each running job, missing callbacks, unknown algorithms, callbacks that throw, jobs held inside their callback until released) from 1-3 "
                        "submitting threads on a processor with 1-4 threads, callers of the throttling call in between, every synchronisation call and memory access a generated preemption "
                        "point; non-trivial: more jobs than threads, and a job had to wait";

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

using u64 = unsigned long long;
using Bytes = std::vector<uint8_t>;

namespace {
    enum Shape { ENCODE, DECODE, ENCODE_ARCHIVE, UNKNOWN, NO_OUTPUT, TRAIN, THROWS, SHAPES };
    const char *shape_names[] = {"encode", "decode", "archive", "unknown", "no-output", "train", "throws"};

    struct Spec {
        Shape shape;
        Bytes data;
        bool hold; // stays inside its callback until released
        bool quiet_success, quiet_error, quiet_completed; // notification not wanted
        int child[2]; // submitted from inside, -1: none
        int child_at; // 0: blob callback, 1: success, 2: error, 3: completed
        // outcome
        int runs = 0, ok = 0, bad = 0, completed = 0, ids = 0;
        uint64_t id = 0;
        bool submitted = false, gate = false;
        std::string why;
    };

    struct Shared {
        std::unique_ptr<HZ_Processor> p;
        unsigned n = 1;
        std::vector<Spec> jobs;
        rainman::ptr<HZ_Archive> archive;
        bool with_archive = false;
        unsigned inside = 0; // jobs inside their callbacks
        unsigned held = 0; // of these: waiting to be released
        unsigned done = 0, submitted = 0;
        bool waited = false;
    };

    bool outcome_ok(const Spec &s) { return s.shape == ENCODE || s.shape == DECODE || s.shape == ENCODE_ARCHIVE; }

    bool reaches_callback(const Spec &s) { return outcome_ok(s) || s.shape == THROWS; }

    rainman::ptr<uint8_t> arr(const Bytes &v) {
        auto p = rainman::ptr<uint8_t>(v.size());
        for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
        return p;
    }

    void submit(Shared &h, unsigned k);

    void children(Shared &h, unsigned k, int where) {
        auto &s = h.jobs[k];
        if (s.child_at != where) return;
        for (int c: s.child) if (c >= 0) submit(h, (unsigned) c);
    }

    void enter(Shared &h, unsigned k) {
        auto &s = h.jobs[k];
        s.runs++;
        h.inside++;
        if (s.runs > 1) fail_now("job %u ran %d times", k, s.runs);
        if (h.inside > h.n) fail_now("%u jobs run at once on a processor with %u threads", h.inside, h.n);
        sched::point();
        children(h, k, 0);
        if (s.hold) {
            h.held++;
            sched::wait_until([&] { return s.gate; }, "the test to release a job");
            h.held--;
        }
        sched::point();
        h.inside--;
    }

    void submit(Shared &h, unsigned k) {
        auto &s = h.jobs[k];
        s.submitted = true;
        h.submitted++;
        auto job = rainman::ptr<HZ_Job>();
        job->type = HZ_Job::CODEC;
        auto c = rainman::ptr<HZ_CodecJob>();
        auto b = rainman::ptr<HZ_Blob>();
        b->data = arr(s.data);
        b->size = b->o_size = s.data.size();
        c->blob = b;
        c->algorithm = s.shape == UNKNOWN ? (hzcodec::algorithms::ALGORITHM) 77 : hzcodec::algorithms::UNCOMPRESSED;
        c->job_type = s.shape == TRAIN ? HZ_CodecJob::TRAIN : s.shape == DECODE ? HZ_CodecJob::DECODE : HZ_CodecJob::ENCODE;
        if (s.shape == ENCODE_ARCHIVE) {
            c->archive = h.archive;
            c->blob_id_callback = [&h, k](uint64_t id) {
                h.jobs[k].ids++;
                h.jobs[k].id = id;
            };
        }
        if (s.shape != NO_OUTPUT && s.shape != TRAIN)
            c->blob_callback = [&h, k](const rainman::ptr<HZ_Blob> &r) {
                auto &s = h.jobs[k];
                uint64_t n = s.shape == DECODE ? r->o_size : r->size;
                if (n != s.data.size()) fail_now("job %u was given %zu bytes, its result has %llu", k, s.data.size(), (u64) n);
                for (uint64_t i = 0; i < n; i++) if (r->data[i] != s.data[i]) fail_now("the result of job %u does not belong to its input", k);
                enter(h, k);
                if (s.shape == THROWS) throw std::runtime_error("as generated");
            };
        auto tell = [&h, k](int &count, int where) {
            auto &s = h.jobs[k];
            count++;
            if (s.ok + s.bad > 1) fail_now("job %u (%s) reported success %d times and an error %d times", k, shape_names[s.shape], s.ok, s.bad);
            if (s.completed && where != 3) fail_now("job %u reported its outcome after its completion", k);
            sched::point();
            children(h, k, where);
        };
        if (!s.quiet_success) job->stub->on_success = [&s, tell](const std::string &) { tell(s.ok, 1); };
        if (!s.quiet_error) job->stub->on_error = [&s, tell](const std::string &w) {
                s.why = w;
                tell(s.bad, 2);
            };
        if (!s.quiet_completed)
            job->stub->on_completed = [&h, &s, tell, k] {
                h.done++;
                tell(s.completed, 3);
                if (s.completed > 1) fail_now("job %u completed %d times", k, s.completed);
            };
        job->codec = c;
        h.p->run(job);
        // the submitter's own references go away
        job = rainman::ptr<HZ_Job>();
        c = rainman::ptr<HZ_CodecJob>();
        b = rainman::ptr<HZ_Blob>();
    }
}

static void jobs(G &g) {
    Shared h;
    h.n = (unsigned) g.range(1, 4);
    unsigned roots = (unsigned) g.range(1, 7);
    h.with_archive = g.chance(15);
    bool memory = g.boolean();
    h.p = std::make_unique<HZ_Processor>(h.n);
    g.note("%u threads:", h.n);
    h.jobs.reserve(64);
    std::vector<unsigned> todo;
    auto make = [&](bool may_nest) {
        Spec s{};
        s.shape = (Shape) g.weighted({40, 15, h.with_archive ? 30u : 0u, 10, 7, 7, 12});
        s.data = g.bytes(g.size(0, 40));
        s.hold = reaches_callback(s) && g.chance(50);
        s.quiet_success = g.chance(5);
        s.quiet_error = g.chance(5);
        s.quiet_completed = g.chance(5);
        s.child[0] = s.child[1] = -1;
        if (may_nest && g.chance(20)) {
            s.child_at = reaches_callback(s) && g.boolean() ? 0 : outcome_ok(s) ? s.quiet_success ? -1 : 1 : s.quiet_error ? -1 : 2;
            if (!s.quiet_completed && g.chance(25)) s.child_at = 3;
        } else s.child_at = -1;
        h.jobs.push_back(s);
        return (unsigned) h.jobs.size() - 1;
    };
    for (unsigned i = 0; i < roots; i++) todo.push_back(make(true));
    for (unsigned r: todo)
        if (h.jobs[r].child_at >= 0) {
            unsigned n = (unsigned) g.range(1, 2);
            for (unsigned i = 0; i < n; i++) {
                unsigned c = make(false); // (push_back within the reserve)
                h.jobs[r].child[i] = (int) c;
            }
        }
    for (size_t i = 0; i < h.jobs.size(); i++) {
        auto &s = h.jobs[i];
        g.note(" %zu=%s/%zu%s", i, shape_names[s.shape], s.data.size(), s.hold ? "+hold" : "");
        if (s.child_at >= 0) g.note("[%d:%d,%d]", s.child_at, s.child[0], s.child[1]);
    }
    unsigned submitters = (unsigned) g.range(1, 3);
    unsigned cyclers = (unsigned) g.weighted({40, 30, 20, 10});
    g.note("; %u submitting threads, %u throttled", submitters, cyclers);
    if (h.with_archive) {
        unlink("jobs.hz");
        h.archive = rainman::ptr<HZ_Archive>(1, "jobs.hz");
        h.archive->load();
    }
    {
        sched::Options o;
        o.memory = memory && !h.with_archive;
        sched::Scope sc(g, o);
        unsigned cycles_done = 0;
        std::vector<std::thread> t;
        for (unsigned i = 0; i < submitters; i++)
            t.emplace_back([&, i] {
                for (size_t k = i; k < todo.size(); k += submitters) submit(h, todo[k]);
            });
        for (unsigned i = 0; i < cyclers; i++)
            t.emplace_back([&] {
                bool full = h.held == h.n; // no held job is released while the test thread does not run
                h.p->cycle();
                if (full && h.held == h.n) {
                    // Only the test thread releases jobs; if it has not done so since, no slot was free.
                    bool same = true;
                    for (auto &s: h.jobs) same &= !s.gate || s.runs == 0;
                    if (same) fail_now("the throttling call returned while %u held jobs take all %u slots", h.held, h.n);
                }
                cycles_done++;
            });
        while (true) {
            sched::settle();
            // Nothing can run: every slot is taken by a held job, or no job is left.
            unsigned pending = 0, held = 0;
            for (auto &s: h.jobs) {
                bool over = outcome_ok(s) ? s.ok || s.quiet_success : s.bad || s.quiet_error;
                bool in = s.hold && s.runs && !s.gate;
                held += in;
                    if (outcome_ok(s) && s.bad) fail_now("a %s job of %zu bytes failed: %s", shape_names[s.shape], s.data.size(), s.why.c_str());
                pending += s.submitted && reaches_callback(s) && s.runs == 0;
                if (!in && s.submitted && reaches_callback(s) && s.runs && !over) fail_now("a job stopped after its callback");
                pending += s.submitted && !reaches_callback(s) && !over;
            }
            if (held != h.held) fail_now("%u jobs are held, %u are inside", held, h.held);
            if (pending) h.waited = true;
            if (held < h.n && pending) fail_now("%u jobs wait although only %u of %u slots are taken", pending, held, h.n);
            if (held < h.n && cycles_done < cyclers) fail_now("the throttling call does not return although only %u of %u slots are taken", held, h.n);
            if (held == 0) break;
            unsigned k = (unsigned) g.range(1, held);
            std::vector<Spec *> v;
            for (auto &s: h.jobs) if (s.hold && s.runs && !s.gate) v.push_back(&s);
            for (unsigned i = 0; i < k; i++) {
                size_t x = g.below(v.size());
                v[x]->gate = true;
                v.erase(v.begin() + (long) x);
            }
        }
        for (auto &x: t) x.join();
        // A throttling call that starts while every slot is taken waits for the first release.
        if (g.chance(40)) {
            g.label("throttled while full");
            std::vector<unsigned> hold;
            for (unsigned i = 0; i < h.n; i++) {
                Spec s{};
                s.shape = ENCODE;
                s.hold = true;
                s.child_at = -1;
                h.jobs.push_back(s);
                hold.push_back((unsigned) h.jobs.size() - 1);
                submit(h, hold.back());
            }
            sched::settle();
            if (h.held != h.n) fail_now("%u jobs run on %u free slots", h.held, h.n);
            bool back = false;
            std::thread c([&] {
                h.p->cycle();
                back = true;
            });
            sched::settle();
            if (back) fail_now("the throttling call returned while all %u slots are taken", h.n);
            h.jobs[hold[g.below(hold.size())]].gate = true;
            sched::settle();
            if (!back) fail_now("the throttling call does not return although a slot is free");
            for (unsigned x: hold) h.jobs[x].gate = true;
            c.join();
        }
    }
    for (size_t i = 0; i < h.jobs.size(); i++) {
        auto &s = h.jobs[i];
        if (!s.submitted) {
            CHECK(!s.runs && !s.completed, "job %zu ran without being submitted", i);
            continue;
        }
        CHECK(s.runs == (int) reaches_callback(s), "job %zu ran %d times", i, s.runs);
        int ok = outcome_ok(s), bad = !ok;
        CHECK(s.ok == (s.quiet_success ? 0 : ok) && s.bad == (s.quiet_error ? 0 : bad), "job %zu (%s) reported success %d times and an error %d times", i, shape_names[s.shape], s.ok, s.bad);
        CHECK(s.completed == !s.quiet_completed, "job %zu completed %d times", i, s.completed);
        CHECK(s.ids == (s.shape == ENCODE_ARCHIVE), "job %zu stored %d blobs", i, s.ids);
        if (s.shape == ENCODE_ARCHIVE) {
            auto b = h.archive->read_blob(s.id);
            CHECK(b->size == s.data.size() && b->o_size == s.data.size(), "job %zu stored %llu bytes, not %zu", i, (u64) b->size, s.data.size());
            for (size_t j = 0; j < s.data.size(); j++) CHECK(b->data[j] == s.data[j], "job %zu stored other data", i);
            g.label("stored in an archive");
        }
        g.label(shape_names[s.shape]);
        if (s.child_at >= 0) g.label("submitted from a callback");
    }
    if (h.with_archive) h.archive->close();
    if (h.waited && h.submitted > h.n) g.nontrivial();
    g.label(fmt("%u threads", h.n));
}

std::vector<Prop> pbt::properties() {
    return {{"jobs", jobs, 4000, 150000, SCHED, 20}};
}
