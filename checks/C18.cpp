// C18: files through the processor and an archive.
// BUILD: repo=hzip_codec/*,hzip_core/*,hzip_storage/* mode=plain libs=crypto,png,loguru extra=sched,fakecl
#include <pbt/pbt.h>
#include "png_gen.h"
#include <condition_variable>
#include <list>
#include <map>
#include <mutex>
#include <set>
#include <unistd.h>
#include <hzip_codec/processor/processor.h>
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_storage/archive/archive.h>

using namespace pbt;
const char *pbt::property_id = "C18";
const char *pbt::rule = "histories of 1-14 encode/train/install/uninstall/read/remove/reopen steps on one archive through a processor with 1-4 threads: files of 0-5 blobs (0-3000 bytes, a few up to 120000), "
                        "each with no algorithm, Victini or Sharingan, with a fresh state or one named (trained, empty, missing, of another algorithm), one job at a time or several at once; "
                        "piggy-backed blobs decoded from their parts; non-trivial: a file with a compressed blob was read back";

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

using u64 = unsigned long long;
using A = hzcodec::algorithms::ALGORITHM;
using Bytes = std::vector<uint8_t>;
using namespace hzcodec::algorithms;

namespace {
    rainman::ptr<uint8_t> arr(const Bytes &v) {
        auto p = rainman::ptr<uint8_t>(v.size());
        for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
        return p;
    }

    Bytes vec(const rainman::ptr<uint8_t> &p, uint64_t n) {
        CHECK(n <= p.size(), "%llu bytes are announced, %llu are there", (u64) n, (u64) p.size());
        Bytes v(n);
        for (uint64_t i = 0; i < n; i++) v[i] = p[i];
        return v;
    }

    struct Result {
        bool done = false;
        int ok = 0, bad = 0;
        std::string why;
        std::vector<uint64_t> ids;
        std::vector<rainman::ptr<HZ_Blob>> blobs;
    };

    // Runs jobs and waits for them.
    struct Runner {
        HZ_Processor *p; // never freed: its threads may still be returning their permit
        std::mutex m;
        std::condition_variable cv;
        unsigned left = 0;

        explicit Runner(unsigned n) : p(new HZ_Processor(n)) {}

        rainman::ptr<HZ_Job> job(Result &r, const rainman::ptr<HZ_CodecJob> &c) {
            auto j = rainman::ptr<HZ_Job>();
            j->type = HZ_Job::CODEC;
            j->codec = c;
            j->stub->on_success = [&r](const std::string &) { r.ok++; };
            j->stub->on_error = [&r](const std::string &w) {
                r.bad++;
                r.why = w;
            };
            j->stub->on_completed = [this, &r] {
                std::scoped_lock l(m);
                r.done = true;
                left--;
                cv.notify_all();
            };
            return j;
        }

        void run(const std::vector<rainman::ptr<HZ_Job>> &v) {
            left = (unsigned) v.size();
            for (auto &j: v) p->run(j);
            std::unique_lock l(m);
            cv.wait(l, [this] { return left == 0; });
        }
    };

    const char *names[] = {"store", "victini", "sharingan"};

    struct FileModel {
        std::vector<Bytes> blobs;
        std::vector<A> used; // as found in the archive
        std::vector<std::string> state; // "" for own
    };

    struct State {
        A alg;
        Bytes data;
    };

    struct World {
        G &g;
        std::string path = fmt("archive%u.hz", made++); // an archive left open by a failed case stays locked
        static inline unsigned made = 0;
        rainman::ptr<HZ_Archive> a;
        Runner run;
        std::map<std::string, FileModel> files;
        std::map<std::string, State> states;
        std::vector<std::string> names;
        unsigned next = 0;
        bool compressed_read = false;

        explicit World(G &g, unsigned threads) : g(g), run(threads) { open(); }

        void open() {
            a = rainman::ptr<HZ_Archive>(1, path);
            a->load();
        }

        void reopen() {
            g.note("reopen; ");
            a->close();
            open();
            for (auto &[n, s]: states) CHECK(a->check_mstate_exists(n), "state %s is gone after reopening", n.c_str());
            for (auto &[n, f]: files) CHECK(a->check_file_exists(n), "file %s is gone after reopening", n.c_str());
        }

        Bytes content() {
            switch (g.weighted({70, 6, 4, 20})) {
                case 0: return g.data(g.chance(20) ? 3000 : 300);
                case 1: return g.data(120000);
                case 2: return {};
                default: {
                    auto spec = pnggen::spec(g, false, 12);
                    return pnggen::encode(g, spec);
                }
            }
        }

        static bool is_png(const Bytes &b) { return b.size() > 8 && b[1] == 'P' && b[2] == 'N' && b[3] == 'G'; }

        std::string some_state() {
            if (!states.empty() && g.chance(75)) return std::next(states.begin(), g.below(states.size()))->first;
            return "/state" + std::to_string(g.below(4));
        }

        rainman::ptr<HZ_Blob> input(const Bytes &d, A alg) {
            auto b = rainman::ptr<HZ_Blob>();
            b->data = arr(d);
            b->o_size = d.size();
            if (alg == UNCOMPRESSED || g.boolean()) b->size = d.size(); // the network layer leaves it out
            return b;
        }

        uint64_t users(const std::string &n) {
            uint64_t k = 0;
            for (auto &[p, f]: files) for (auto &s: f.state) k += s == n;
            return k;
        }

        void store() {
            FileModel f;
            unsigned n = (unsigned) g.size(0, 5);
            std::string name = "/dir" + std::to_string(g.below(2)) + "/file" + std::to_string(next++);
            g.note("%s:", name.c_str());
            std::list<Result> results;
            std::vector<rainman::ptr<HZ_Job>> jobs;
            struct Want {
                bool must, must_not;
                A alg;
                std::string state;
            };
            std::vector<Want> want;
            for (unsigned i = 0; i < n; i++) {
                auto d = content();
                Want w{};
                w.alg = is_png(d) ? (g.chance(70) ? SHARINGAN : VICTINI) : (A) g.weighted({25, 70, 5});
                auto c = rainman::ptr<HZ_CodecJob>();
                c->algorithm = w.alg;
                c->job_type = HZ_CodecJob::ENCODE;
                c->archive = a;
                if (g.chance(45)) {
                    w.state = some_state();
                    c->mstate_addr = w.state;
                }
                bool missing = !w.state.empty() && !states.count(w.state);
                bool other = !w.state.empty() && !missing && states[w.state].alg != w.alg && states[w.state].alg != UNCOMPRESSED;
                bool garbage = w.alg == SHARINGAN && !is_png(d);
                w.must_not = missing || garbage;
                w.must = !w.must_not && !other;
                if (other) g.label("state of another algorithm");
                c->blob = input(d, w.alg);
                results.emplace_back();
                auto &r = results.back();
                c->blob_id_callback = [&r](uint64_t id) { r.ids.push_back(id); };
                if (g.chance(40)) c->blob_callback = [&r](const rainman::ptr<HZ_Blob> &b) { r.blobs.push_back(b); };
                jobs.push_back(run.job(r, c));
                want.push_back(w);
                f.blobs.push_back(d);
                g.note(" %s/%zu%s%s", ::names[w.alg], d.size(), w.state.empty() ? "" : "@", w.state.c_str());
            }
            if (jobs.size() > 1 && g.chance(40)) {
                g.label("several jobs at once");
                run.run(jobs);
            } else for (auto &j: jobs) run.run({j});
            bool all = true;
            unsigned i = 0;
            std::set<uint64_t> ids;
            for (auto &r: results) {
                auto &w = want[i];
                CHECK(r.ok + r.bad == 1, "job %u reported success %d times and errors %d times", i, r.ok, r.bad);
                if (w.must_not) CHECK(r.bad == 1, "%s encoded with %s although %s", w.state.c_str(), ::names[w.alg], w.alg == SHARINGAN ? "the input is no image" : "the state does not exist");
                if (w.must) CHECK(r.ok == 1, "blob %u (%zu bytes, %s, state '%s') was refused: %s", i, f.blobs[i].size(), ::names[w.alg], w.state.c_str(), r.why.c_str());
                if (r.bad) {
                    all = false;
                    CHECK(r.ids.empty(), "a failed job reported a stored blob");
                } else {
                    CHECK(r.ids.size() == 1, "%zu blobs were stored for one job", r.ids.size());
                    CHECK(ids.insert(r.ids[0]).second, "two jobs stored the same blob");
                    check_stored(r.ids[0], f, i, w.alg, w.state);
                    for (auto &b: r.blobs) CHECK(b->o_size == f.blobs[i].size() && b->data.size() >= b->size, "the piggy-backed blob claims %llu bytes of %llu", (u64) b->size, (u64) b->o_size);
                }
                i++;
            }
            if (!all) {
                // as the network layer does with blobs that cannot become part of a file
                for (auto &r: results) for (auto id: r.ids) a->remove_blob(id);
                g.label("failed encode");
                g.note(" failed; ");
                CHECK(!a->check_file_exists(name), "a file appeared");
                return;
            }
            auto ids_arr = rainman::ptr<uint64_t>(n);
            i = 0;
            for (auto &r: results) ids_arr[i++] = r.ids[0];
            a->create_file_entry(name, HZ_ArchiveFile(ids_arr));
            files[name] = f;
            g.note("; ");
        }

        void check_stored(uint64_t id, FileModel &f, unsigned i, A alg, const std::string &state) {
            auto b = a->read_blob(id);
            auto &d = f.blobs[i];
            CHECK(b->o_size == d.size(), "blob %u is stored with original size %llu, not %zu", i, (u64) b->o_size, d.size());
            A used = b->mstate->alg;
            if (b->size < b->o_size) {
                CHECK(used == alg, "blob %u encoded with %s is stored as %s", i, ::names[alg], used < 3 ? ::names[used] : "?");
                bool shared = !state.empty() && states[state].alg == alg;
                f.state.push_back(shared ? state : "");
                if (shared) CHECK(vec(b->mstate->data, b->mstate->size()) == states[state].data, "blob %u does not refer to the state %s it was encoded with", i, state.c_str());
                g.label(fmt("%s %s", ::names[alg], state.empty() ? "fresh" : "named"));
            } else {
                CHECK(used == UNCOMPRESSED, "blob %u did not shrink and is stored as %s", i, used < 3 ? ::names[used] : "?");
                CHECK(vec(b->data, b->size) == d, "blob %u did not shrink and is not stored as it is", i);
                f.state.push_back("");
                g.label(fmt("%s stored", ::names[alg]));
            }
            f.used.push_back(used);
        }

        void read(const std::string &name) {
            auto &f = files[name];
            auto entry = a->read_file_entry(name);
            CHECK(entry.blob_ids.size() == f.blobs.size(), "%s has %llu blobs, not %zu", name.c_str(), (u64) entry.blob_ids.size(), f.blobs.size());
            std::list<Result> results;
            std::vector<rainman::ptr<HZ_Job>> jobs;
            for (size_t i = 0; i < f.blobs.size(); i++) {
                auto c = rainman::ptr<HZ_CodecJob>();
                c->job_type = HZ_CodecJob::DECODE;
                c->blob = a->read_blob(entry.blob_ids[i]);
                c->algorithm = c->blob->mstate->alg;
                CHECK(c->algorithm == f.used[i], "%s blob %zu is now stored as %d, it was %d", name.c_str(), i, (int) c->algorithm, (int) f.used[i]);
                if (g.boolean()) c->archive = a;
                if (c->blob->size < c->blob->o_size) compressed_read = true;
                results.emplace_back();
                auto &r = results.back();
                c->blob_callback = [&r](const rainman::ptr<HZ_Blob> &b) { r.blobs.push_back(b); };
                jobs.push_back(run.job(r, c));
            }
            if (g.chance(40)) run.run(jobs);
            else for (auto &j: jobs) run.run({j});
            size_t i = 0;
            for (auto &r: results) {
                CHECK(r.ok + r.bad == 1, "decode job %zu reported success %d times and errors %d times", i, r.ok, r.bad);
                if (r.bad && f.used[i] == SHARINGAN) {
                    g.label("known finding: sharingan blobs cannot be decoded");
                } else {
                    CHECK(r.ok == 1 && r.blobs.size() == 1, "%s blob %zu cannot be decoded: %s", name.c_str(), i, r.why.c_str());
                    CHECK(r.blobs[0]->o_size == f.blobs[i].size() && vec(r.blobs[0]->data, r.blobs[0]->o_size) == f.blobs[i], "%s blob %zu (%s, state '%s') comes back as other bytes", name.c_str(), i,
                          ::names[f.used[i]], f.state[i].c_str());
                }
                i++;
            }
        }

        void train() {
            auto name = some_state();
            A alg = (A) g.weighted({6, 84, 10});
            auto d = content();
            g.note("train %s %s/%zu", name.c_str(), ::names[alg], d.size());
            auto c = rainman::ptr<HZ_CodecJob>();
            c->job_type = HZ_CodecJob::TRAIN;
            c->algorithm = alg;
            c->archive = a;
            c->mstate_addr = name;
            c->blob = input(d, alg);
            bool existed = states.count(name);
            State before = existed ? states[name] : State{};
            Result r;
            run.run({run.job(r, c)});
            CHECK(r.ok + r.bad == 1, "the training job reported success %d times and errors %d times", r.ok, r.bad);
            bool fits = !existed || before.alg == alg || before.alg == UNCOMPRESSED;
            if (alg != VICTINI) CHECK(r.bad == 1, "training with %s succeeded", ::names[alg]);
            else if (fits && users(name) == 0) CHECK(r.ok == 1, "training %s failed: %s", name.c_str(), r.why.c_str());
            g.note("%s; ", r.ok ? "" : "!");
            g.label(r.ok ? existed ? "trained again" : "trained" : "failed training");
            CHECK(a->check_mstate_exists(name) == (existed || r.ok), "state %s %s after %s training", name.c_str(), existed || r.ok ? "is gone" : "exists", r.ok ? "successful" : "failed");
            if (r.ok) {
                auto m = a->read_mstate(name);
                CHECK(m->alg == VICTINI, "the trained state is marked as algorithm %d", (int) m->alg);
                states[name] = {m->alg, vec(m->data, m->size())};
                CHECK(d.size() < 2 || states[name].data != before.data, "training on %zu bytes changed nothing", d.size());
            }
            check_state(name);
        }

        void check_state(const std::string &name) {
            if (!states.count(name)) return;
            auto m = a->read_mstate(name);
            CHECK(m->alg == states[name].alg && vec(m->data, m->size()) == states[name].data, "state %s has changed", name.c_str());
        }

        void install() {
            auto name = some_state();
            if (states.count(name)) return;
            auto m = rainman::ptr<HZ_MState>();
            switch (g.draw(2)) {
                case 0: break; // empty
                case 1: m->alg = SHARINGAN; break;
                default:
                    for (auto &[n, s]: states)
                        if (s.alg == VICTINI) {
                            m->alg = VICTINI;
                            m->data = arr(s.data);
                        }
            }
            g.note("install %s (%s); ", name.c_str(), ::names[m->alg]);
            a->install_mstate(name, m);
            states[name] = {m->alg, vec(m->data, m->size())};
        }

        void uninstall() {
            auto name = some_state();
            g.note("uninstall %s; ", name.c_str());
            bool thrown = false;
            try { a->uninstall_mstate(name); }
            catch (const std::exception &) { thrown = true; }
            CHECK(thrown == (!states.count(name) || users(name) > 0), "uninstalling %s %s with %llu users", name.c_str(), thrown ? "failed" : "succeeded", (u64) users(name));
            if (!thrown) states.erase(name);
            check_state(name);
        }

        void remove() {
            if (files.empty()) return;
            auto it = std::next(files.begin(), g.below(files.size()));
            g.note("remove %s; ", it->first.c_str());
            a->remove_file(it->first);
            files.erase(it);
        }

        void step() {
            switch (g.weighted({45, 18, 6, 5, 12, 8, 6})) {
                case 0: store(); break;
                case 1: train(); break;
                case 2: install(); break;
                case 3: uninstall(); break;
                case 4:
                    if (!files.empty()) read(std::next(files.begin(), g.below(files.size()))->first);
                    break;
                case 5: remove(); break;
                default: reopen();
            }
        }

        void all() {
            for (auto &[n, f]: files) read(n);
            for (auto &[n, s]: states) check_state(n);
        }
    };
}

static void history(G &g) {
    hzruntime::CacheProvider::init_cache("cache", 2, 4096);
    hzruntime::Config::opencl_support_enabled = false;
    unsigned threads = (unsigned) g.range(1, 4), n = (unsigned) g.range(1, 14);
    g.note("%u threads: ", threads);
    World w(g, threads);
    for (unsigned i = 0; i < n; i++) w.step();
    w.all();
    w.reopen();
    w.all();
    w.a->close();
    unlink(w.path.c_str());
    if (w.compressed_read) g.nontrivial();
}

// Without an archive: the blob's parts are all that is needed.
static void piggyback(G &g) {
    hzruntime::CacheProvider::init_cache("cache", 2, 4096);
    hzruntime::Config::opencl_support_enabled = false;
    Runner run((unsigned) g.range(1, 3));
    auto d = g.chance(15) ? Bytes{} : g.data(g.chance(10) ? 40000 : 600);
    A alg = g.chance(80) ? VICTINI : UNCOMPRESSED;
    g.note("%s %zu bytes %s", names[alg], d.size(), hex(d).c_str());
    auto c = rainman::ptr<HZ_CodecJob>();
    c->algorithm = alg;
    c->job_type = HZ_CodecJob::ENCODE;
    c->blob = rainman::ptr<HZ_Blob>();
    c->blob->data = arr(d);
    c->blob->size = c->blob->o_size = d.size();
    Result r;
    bool back = !g.chance(5);
    if (back) c->blob_callback = [&r](const rainman::ptr<HZ_Blob> &b) { r.blobs.push_back(b); };
    run.run({run.job(r, c)});
    CHECK(r.ok + r.bad == 1, "success %d times, errors %d times", r.ok, r.bad);
    if (!back) {
        CHECK(r.bad == 1, "a job without archive and callback succeeded");
        return;
    }
    CHECK(r.ok == 1 && r.blobs.size() == 1, "refused (%s), %zu blobs", r.why.c_str(), r.blobs.size());
    auto &b = r.blobs[0];
    CHECK(vec(c->blob->data, d.size()) == d, "the input was changed");
    auto payload = vec(b->data, b->size), header = vec(b->header.raw, b->header.size()), state = vec(b->mstate->data, b->mstate->size());
    CHECK(b->o_size == d.size(), "original size %llu, not %zu", (u64) b->o_size, d.size());
    if (b->size < b->o_size) {
        g.nontrivial();
        CHECK(b->mstate->alg == alg && b->status, "a compressed blob is marked as %d, %d", (int) b->mstate->alg, b->status);
    } else CHECK(b->mstate->alg == UNCOMPRESSED && payload == d && !b->status, "data that does not shrink is not stored as it is");
    auto e = rainman::ptr<HZ_CodecJob>();
    e->job_type = HZ_CodecJob::DECODE;
    e->algorithm = b->mstate->alg;
    e->blob = rainman::ptr<HZ_Blob>();
    e->blob->data = arr(payload);
    e->blob->header.raw = arr(header);
    e->blob->mstate->data = arr(state);
    e->blob->mstate->alg = b->mstate->alg;
    e->blob->size = payload.size();
    e->blob->o_size = d.size();
    e->blob->status = payload.size() < d.size();
    Result q;
    if (back = !g.chance(5); back) e->blob_callback = [&q](const rainman::ptr<HZ_Blob> &x) { q.blobs.push_back(x); };
    run.run({run.job(q, e)});
    CHECK(q.ok + q.bad == 1, "decoding reported success %d times and errors %d times", q.ok, q.bad);
    if (!back) {
        CHECK(q.bad == 1, "decoding without archive and callback succeeded");
        return;
    }
    CHECK(q.ok == 1 && q.blobs.size() == 1, "cannot be decoded: %s", q.why.c_str());
    CHECK(q.blobs[0]->o_size == d.size() && vec(q.blobs[0]->data, q.blobs[0]->o_size) == d, "comes back as other bytes");
}

std::vector<Prop> pbt::properties() {
    return {{"history", history, 600, 16000, REALTIME, 60},
            {"piggyback", piggyback, 1200, 30000, REALTIME}};
}
