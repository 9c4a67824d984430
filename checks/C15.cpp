// C15: a refused archive operation changes nothing and leaves the archive usable.
// BUILD: repo=hzip_storage/*,hzip_core/blob/*,hzip_core/utils/* mode=asan libs=crypto extra=sched,fakecl
#include "archive_model.h"
#include <sys/stat.h>
#include <thread>

using namespace pbt;
const char *pbt::property_id = "C15";
const char *pbt::rule = "histories of up to 40 operations, 45% with invalid arguments (unknown, existing, nested, directory, malformed paths; unknown blobs and states), contents compared after each refusal "
                        "and after reopening; refused opens of unopenable and unsupported files; every changing operation after the archive was closed; non-trivial: at least three refusals (or a refused open, or an operation after close)";

static void history(G &g) {
    am::Weights w;
    w.invalid_pct = 45;
    w.compare_after_refusal = true;
    w.reopen = 3;
    w.uninstall = 5;
    w.scale = 120;
    am::Driver d(g, w);
    d.open();
    unsigned n = (unsigned) g.range(1, 40);
    for (unsigned i = 0; i < n; i++) d.step();
    d.op_reopen();
    d.close();
    if (d.refusals >= 3) g.nontrivial();
    g.label(fmt("%u+ refusals", d.refusals / 5 * 5));
}

static std::string flip_version(const std::string &path, G &g) {
    auto b = am::slurp(path);
    // version record: marker 8, length 64, type 8, version 24 bits
    unsigned k = 10 + (unsigned) g.below(3);
    b[k] ^= (uint8_t) g.range(1, 255);
    std::ofstream(path, std::ios::binary).write((const char *) b.data(), b.size());
    return std::string(b.begin(), b.end());
}

// Opens that must be refused; the lock must be free afterwards and nothing may be damaged.
static void open_refused(G &g) {
    am::Weights w;
    w.scale = 60;
    am::Driver d(g, w);
    d.open();
    unsigned n = (unsigned) g.range(0, 8);
    for (unsigned i = 0; i < n; i++) d.step();
    d.close();
    auto good = am::slurp(d.path);
    unsigned rounds = (unsigned) g.range(1, 3);
    for (unsigned r = 0; r < rounds; r++) {
        switch (g.below(3)) {
            case 0: { // a version this program does not know
                g.note("version; ");
                auto bad = flip_version(d.path, g);
                bool threw = false;
                std::unique_ptr<HZ_Archive> a;
                try {
                    a = std::make_unique<HZ_Archive>(d.path);
                    a->load();
                } catch (std::exception &) { threw = true; }
                CHECK(threw, "an archive of an unsupported version was loaded");
                if (a) a->close(); // must neither block nor touch the file
                auto now = am::slurp(d.path);
                CHECK(std::string(now.begin(), now.end()) == bad, "refusing an archive of an unsupported version changed the file");
                std::ofstream(d.path, std::ios::binary).write((const char *) good.data(), good.size());
                g.label("version");
                break;
            }
            case 1: { // a directory
                g.note("directory; ");
                std::string p = scratch() + "/dir";
                ::mkdir(p.c_str(), 0755);
                for (int k = 0; k < 2; k++) {
                    bool threw = false;
                    try { HZ_Archive a(p); } catch (std::exception &) { threw = true; }
                    CHECK(threw, "a directory was opened as an archive");
                }
                ::rmdir(p.c_str());
                // The same path can be an archive later.
                {
                    HZ_Archive a(p);
                    a.load();
                    a.close();
                }
                ::unlink(p.c_str());
                g.label("directory");
                break;
            }
            default: { // missing parent directory, later created
                g.note("missing parent; ");
                std::string dir = scratch() + "/nodir", p = dir + "/x.hz";
                for (int k = 0; k < 2; k++) {
                    bool threw = false;
                    try { HZ_Archive a(p); } catch (std::exception &) { threw = true; }
                    CHECK(threw, "an archive was opened in a directory that does not exist");
                }
                ::mkdir(dir.c_str(), 0755);
                {
                    HZ_Archive a(p);
                    a.load();
                    a.close();
                }
                ::unlink(p.c_str());
                ::rmdir(dir.c_str());
                g.label("missing parent");
            }
        }
        d.open();
        am::compare_all(*d.a, d.m, d.seen);
        d.step();
        d.close();
        d.disk();
        good = am::slurp(d.path);
    }
    g.nontrivial();
}

// What is asked of an archive after it was closed cannot be kept, so it has to be refused.
static void closed(G &g) {
    am::Weights w;
    w.scale = 60;
    am::Driver d(g, w);
    d.open();
    unsigned n = (unsigned) g.range(0, 10);
    for (unsigned i = 0; i < n; i++) d.step();
    d.a->close();
    auto file = am::slurp(d.path);
    unsigned k = (unsigned) g.range(1, 6);
    g.note("closed; ");
    for (unsigned i = 0; i < k; i++) {
        auto p = d.some_path(d.m.files.raw, 60), q = d.some_path(d.m.named.raw, 60);
        auto b = d.gen_blob();
        auto s = d.gen_state();
        switch (g.below(12)) {
            case 0: d.attempt(false, "create", [&] { d.a->inject_mstate(am::Driver::real(s), b); d.a->create_file(p, b, 1); }); break;
            case 1: d.attempt(false, "create empty", [&] { d.a->create_file(p, {}, 0); }); break;
            case 2: d.attempt(false, "create entry", [&] { d.a->create_file_entry(p, HZ_ArchiveFile(rainman::ptr<uint64_t>((uint64_t) 0))); }); break;
            case 3: d.attempt(false, "write blob", [&] { b->mstate = am::Driver::real(s); if (!d.m.states.empty()) b->mstate_id = d.m.states.begin()->first; d.a->write_blob(b); }); break;
            case 4: d.attempt(false, "remove", [&] { d.a->remove_file(p); }); break;
            case 5: d.attempt(false, "remove blob", [&] { d.a->remove_blob(d.m.blobs.empty() ? 1 : d.m.blobs.begin()->first); }); break;
            case 6: d.attempt(false, "install", [&] { d.a->install_mstate(q, am::Driver::real(s)); }); break;
            case 7: d.attempt(false, "install by id", [&] { d.a->install_mstate(am::Driver::real(s)); }); break;
            case 8: d.attempt(false, "uninstall", [&] { d.a->uninstall_mstate(q); }); break;
            case 9: d.attempt(false, "uninstall by id", [&] { d.a->uninstall_mstate(d.m.states.empty() ? 1 : d.m.states.begin()->first); }); break;
            case 10: d.attempt(false, "inject", [&] { d.a->inject_mstate(am::Driver::real(s), b); }); break;
            default: // (may be answered)
                try { d.a->read_file(p); } catch (std::exception &) {}
                try { d.a->check_file_exists(p); } catch (std::exception &) {}
                try { d.a->list_file_system("/"); } catch (std::exception &) {}
                try { d.a->read_mstate(q); } catch (std::exception &) {}
        }
        if (g.chance(30)) d.a->close();
    }
    d.close();
    CHECK(am::slurp(d.path) == file, "the file changed after the archive was closed");
    d.disk();
    d.open();
    am::compare_all(*d.a, d.m, d.seen);
    d.close();
    g.nontrivial();
}

// After a refusal another thread can use the archive at once.
static void other_thread(G &g) {
    am::Weights w;
    w.scale = 40;
    w.invalid_pct = 60;
    am::Driver d(g, w);
    {
        sched::Options o;
        o.memory = false;
        o.spurious = false;
        sched::Scope sc(g, o);
        d.open();
        unsigned n = (unsigned) g.range(1, 12);
        for (unsigned i = 0; i < n; i++) {
            d.step();
            std::thread t([&] {
                auto x = d.a->check_file_exists("/a");
                if (x != d.m.files.exists("/a")) fail_now("wrong answer in another thread");
            });
            t.join();
        }
        d.close();
    }
    d.disk();
    if (d.refusals) g.nontrivial();
}

std::vector<Prop> pbt::properties() {
    return {{"history", history, 4000, 80000}, {"open", open_refused, 800, 12000}, {"closed", closed, 1200, 16000}, {"other_thread", other_thread, 400, 6000, SCHED}};
}
