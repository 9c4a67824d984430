// C12: an open archive is a map from paths to blobs.
// BUILD: repo=hzip_storage/*,hzip_core/blob/*,hzip_core/utils/* mode=asan libs=crypto extra=sched,fakecl
#include "archive_model.h"

using namespace pbt;
const char *pbt::property_id = "C12";
const char *pbt::rule = "histories of up to 60 create/read/remove/install/uninstall/inject operations on one open archive, sizes aimed at exact, splitting and too-small reuse of freed space; "
                        "non-trivial: at least two files stored after something was removed";

static void run(G &g, am::Weights w, unsigned max_ops) {
    am::Driver d(g, w);
    d.open();
    unsigned n = (unsigned) g.range(1, max_ops);
    for (unsigned i = 0; i < n; i++) d.step();
    am::compare_all(*d.a, d.m, d.seen);
    d.close();
    if (d.stored_after_remove >= 2) g.nontrivial();
    g.label(fmt("%u+ ops", n / 20 * 20));
    if (d.refusals) g.label("refusals");
}

static void mixed(G &g) { run(g, am::Weights(), 60); }

// Few paths and much churn: fragments are reused and split over and over.
static void churn(G &g) {
    am::Weights w;
    w.create = 14;
    w.remove = 12;
    w.install = 4;
    w.uninstall = 4;
    w.invalid_pct = 2;
    w.scale = 120;
    w.compare_each = true;
    run(g, w, 50);
}

static void large(G &g) {
    am::Weights w;
    w.scale = 60000;
    run(g, w, 14);
}

std::vector<Prop> pbt::properties() {
    return {{"mixed", mixed, 5000, 100000}, {"churn", churn, 2500, 60000}, {"large", large, 300, 6000}};
}
