// C14: an algorithm state in use is never destroyed; an unused anonymous one is released.
// BUILD: repo=hzip_storage/*,hzip_core/blob/*,hzip_core/utils/* mode=asan libs=crypto extra=sched,fakecl
#include "archive_model.h"

using namespace pbt;
const char *pbt::property_id = "C14";
const char *pbt::rule = "histories of up to 50 operations weighted to shared states (named, by id, injected) with uninstall attempts and reopen points; "
                        "non-trivial: an uninstall was refused because of a dependency, or a state lost its last blob";

static void history(G &g) {
    am::Weights w;
    w.create = 8;
    w.write_blob = 2;
    w.remove = 7;
    w.install = 5;
    w.install_id = 4;
    w.uninstall = 7;
    w.uninstall_id = 5;
    w.inject_named = 5;
    w.reopen = 4;
    w.read = 2;
    w.invalid_pct = 4;
    w.scale = 100;
    am::Driver d(g, w);
    d.open();
    unsigned n = (unsigned) g.range(1, 50);
    for (unsigned i = 0; i < n; i++) {
        auto before = d.m.states.size();
        auto ids = d.m.states;
        d.step();
        (void) before;
        // Every state some blob depends on can still be read through that blob.
        if (g.chance(15)) am::compare_all(*d.a, d.m, d.seen);
        for (auto &s: ids) if (!d.m.states.count(s.first) && !s.second.named) g.label("anonymous state released");
    }
    d.op_reopen();
    // Removing every file releases every anonymous state that had blobs and keeps the named ones.
    auto files = d.m.files.raw;
    for (auto &f: files) {
        d.attempt(true, "remove " + am::show(f.second), [&] { d.a->remove_file(f.second); });
        for (auto id: d.m.files.m.at(f.first)) d.m.drop_blob(id);
        d.m.files.del(f.first);
    }
    am::compare_all(*d.a, d.m, d.seen);
    auto named = d.m.named.raw;
    for (auto &s: named) {
        bool ok = d.m.states.at(d.m.named.m.at(s.first)).deps == 0;
        if (d.attempt(ok, "uninstall " + am::show(s.second), [&] { d.a->uninstall_mstate(s.second); })) {
            d.m.states.erase(d.m.named.m.at(s.first));
            d.m.named.del(s.first);
        }
    }
    d.op_reopen();
    d.close();
    if (d.dep_refused || g.labels.count("anonymous state released")) g.nontrivial();
    if (d.dep_refused) g.label("uninstall refused");
}

std::vector<Prop> pbt::properties() {
    return {{"history", history, 6000, 120000}};
}
