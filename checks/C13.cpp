// C13: close and reopen preserve everything; the file on disk is well formed.
// BUILD: repo=hzip_storage/*,hzip_core/blob/*,hzip_core/utils/* mode=asan libs=crypto extra=sched,fakecl
#include "archive_model.h"

using namespace pbt;
const char *pbt::property_id = "C13";
const char *pbt::rule = "histories of up to 50 operations with generated close/reopen points, the closed file parsed independently and compared record by record with the model; "
                        "non-trivial: at least two reopens after files were removed, or a removed file re-stored";

static void history(G &g) {
    am::Weights w;
    w.reopen = 6;
    am::Driver d(g, w);
    if (g.chance(15)) { // a fresh archive may be closed without being loaded
        d.a = std::make_unique<HZ_Archive>(d.path);
        d.close();
        d.disk();
        g.label("closed unloaded");
    }
    d.open();
    unsigned n = (unsigned) g.range(1, 50);
    for (unsigned i = 0; i < n; i++) d.step();
    if (g.chance(10)) { // opening and closing without loading leaves the file alone
        d.close();
        d.a = std::make_unique<HZ_Archive>(d.path);
        d.close();
        d.disk();
        d.open();
    }
    d.op_reopen();
    for (unsigned i = 0; i < 3; i++) d.step();
    d.op_reopen();
    d.close();
    if (d.reopens >= 2 && d.removed) g.nontrivial();
    g.label(fmt("%u+ reopens", d.reopens / 3 * 3));
}

// What was just removed leaves room for itself: re-storing it does not grow the file.
static void restore(G &g) {
    am::Weights w;
    w.reopen = 2;
    w.invalid_pct = 2;
    am::Driver d(g, w);
    d.open();
    unsigned n = (unsigned) g.range(1, 25);
    for (unsigned i = 0; i < n; i++) d.step();
    for (unsigned round = 0; round < 3 && !d.m.files.m.empty(); round++) {
        d.close();
        uint64_t before = d.disk();
        d.open();
        auto it = d.m.files.raw.begin();
        std::advance(it, g.below(d.m.files.raw.size()));
        std::string p = it->second;
        auto ids = d.m.files.m.at(it->first);
        rainman::ptr<HZ_Blob> blobs((uint64_t) ids.size());
        auto old = d.a->read_file(p);
        std::vector<am::MBlob> mb;
        std::vector<am::MState> ms;
        for (auto id: ids) {
            mb.push_back(d.m.blobs.at(id));
            ms.push_back(d.m.states.at(mb.back().state));
        }
        d.attempt(true, "remove " + am::show(p), [&] { d.a->remove_file(p); });
        for (auto id: ids) d.m.drop_blob(id);
        d.m.files.del(p);
        if (g.boolean()) d.op_reopen();
        for (size_t i = 0; i < ids.size(); i++) {
            blobs[i] = old[i];
            if (!d.m.states.count(mb[i].state)) { // released with its last blob: put it back
                auto holder = rainman::ptr<HZ_Blob>();
                d.a->inject_mstate(am::Driver::real(ms[i]), holder);
                am::MState s = ms[i];
                s.deps = 0;
                d.new_state(holder->mstate_id, s);
                uint64_t was = mb[i].state;
                for (size_t k = i; k < ids.size(); k++) if (mb[k].state == was) mb[k].state = holder->mstate_id;
            }
            blobs[i].mstate_id = mb[i].state;
        }
        d.attempt(true, "restore " + am::show(p), [&] { d.a->create_file(p, blobs, ids.size()); });
        auto e = d.a->read_file_entry(p);
        CHECK(e.blob_ids.size() == ids.size(), "wrong number of blobs");
        std::vector<uint64_t> v;
        for (size_t i = 0; i < ids.size(); i++) {
            v.push_back(e.blob_ids[i]);
            d.m.add_blob(e.blob_ids[i], mb[i]);
        }
        d.m.files.put(p, v);
        d.close();
        uint64_t after = d.disk();
        CHECK(after <= before, "removing %s and storing the same again grew the records from %llu to %llu bits: its space was not reusable", am::show(p).c_str(),
              (unsigned long long) before, (unsigned long long) after);
        d.open();
        g.nontrivial();
        for (unsigned i = 0; i < 2; i++) d.step();
    }
    d.op_reopen();
    d.close();
}

std::vector<Prop> pbt::properties() {
    return {{"history", history, 5000, 100000}, {"restore", restore, 2500, 50000}};
}
