// C16: namespace trie.
// BUILD: repo=hzip_storage/*,hzip_core/blob/*,hzip_core/utils/* mode=asan libs=crypto extra=sched,fakecl
#include "archive_model.h"

using namespace pbt;
const char *pbt::property_id = "C16";
const char *pbt::rule = "histories of up to 80 set/erase/get/contains/list calls on the path trie, and of archive operations with listings, against a map; "
                        "non-trivial: an erase pruned at least one directory while others remained";

static void trie(G &g) {
    HZ_ArchiveTrie<uint64_t> t;
    am::Names<uint64_t> m;
    std::vector<std::string> seen{"/"};
    unsigned n = (unsigned) g.range(1, 80);
    bool pruned = false;
    auto path = [&](unsigned existing) {
        if (!m.m.empty() && g.chance(existing)) {
            auto it = m.raw.begin();
            std::advance(it, g.below(m.raw.size()));
            switch (g.weighted({8, 2, 2, 1})) {
                case 0: return it->second;
                case 1: { // an ancestor
                    auto k = it->first.rfind('/');
                    return k == 0 ? std::string("/") : it->first.substr(0, k);
                }
                case 2: return it->first + "/" + g.pick({"a", "b", "k"});
                default: return it->first + "/";
            }
        }
        auto p = am::gen_path(g);
        if (g.chance(2)) { // far below
            for (unsigned k = (unsigned) g.range(5, 80); k > 0; k--) p += g.chance(80) ? "/d" : "/e";
        }
        if (seen.size() < 60) seen.push_back(p);
        return p;
    };
    // f must throw a standard exception exactly if !ok
    auto attempt = [&](bool ok, const std::string &what, auto f) {
        g.note("%s%s; ", what.c_str(), ok ? "" : "!");
        bool threw = false;
        try { f(); }
        catch (Failure &) { throw; }
        catch (std::exception &) { threw = true; }
        CHECK(threw != ok, "%s was %s", what.c_str(), ok ? "refused" : "accepted");
        return ok;
    };
    auto compare = [&] {
        for (auto &e: m.m) {
            CHECK(t.contains(e.first), "%s is missing", am::show(e.first).c_str());
            CHECK(t.get(e.first) == e.second, "%s holds another value", am::show(e.first).c_str());
        }
        for (auto &d: m.dirs()) am::same_list(t.children(d), m.list(d), d);
        am::same_list(t.children("/"), m.list("/"), "/");
        for (auto &p: seen) if (am::norm(p) != "/") CHECK(t.contains(p) == m.exists(p), "contains(%s) is %d", am::show(p).c_str(), !m.exists(p));
    };
    for (unsigned i = 0; i < n; i++) {
        switch (g.weighted({8, 6, 3, 2, 2})) {
            case 0: {
                auto p = path(30);
                bool ok = am::norm(p) != "/" && !m.dir(p) && !m.under_file(p);
                uint64_t v = g.below(1000000);
                if (attempt(ok, "set " + am::show(p), [&] { t.set(p, v); })) m.put(p, v);
                break;
            }
            case 1: {
                auto p = path(85);
                if (m.dir(p) && am::norm(p) != "/") { // erasing a directory removes what is below it
                    auto q = am::norm(p) + "/";
                    auto dirs = m.dirs().size();
                    if (attempt(true, "erase " + am::show(p), [&] { t.erase(p); })) {
                        for (auto it = m.m.begin(); it != m.m.end();)
                            if (it->first.compare(0, q.size(), q) == 0) {
                                m.raw.erase(it->first);
                                it = m.m.erase(it);
                            } else ++it;
                        if (m.dirs().size() < dirs && !m.m.empty()) pruned = true;
                    }
                    break;
                }
                bool ok = m.file(p);
                if (!ok && g.chance(60)) break;
                auto dirs = m.dirs().size();
                if (attempt(ok, "erase " + am::show(p), [&] { t.erase(p); })) {
                    m.del(p);
                    if (m.dirs().size() < dirs && !m.m.empty()) pruned = true;
                }
                break;
            }
            case 2: {
                auto p = path(70);
                bool ok = m.file(p);
                uint64_t v = 0;
                if (attempt(ok, "get " + am::show(p), [&] { v = t.get(p); })) CHECK(v == m.m.at(am::norm(p)), "%s holds another value", am::show(p).c_str());
                break;
            }
            case 3: {
                auto p = path(60);
                bool ok = m.exists(p);
                std::vector<HZ_ArchiveTrieListElement> l;
                if (attempt(ok, "list " + am::show(p), [&] { l = t.children(p); })) am::same_list(l, m.list(p), p);
                break;
            }
            default: {
                auto p = path(50);
                if (am::norm(p) == "/") break;
                CHECK(t.contains(p) == m.exists(p), "contains(%s) is %d", am::show(p).c_str(), !m.exists(p));
            }
        }
        compare();
    }
    if (pruned) g.nontrivial();
}

static void archive(G &g) {
    am::Weights w;
    w.create = 12;
    w.create_entry = 6;
    w.remove = 9;
    w.read = 0;
    w.write_blob = 1;
    w.install = 4;
    w.install_id = 0;
    w.uninstall = 4;
    w.uninstall_id = 0;
    w.inject = 0;
    w.probe = 8;
    w.invalid_pct = 15;
    w.scale = 10;
    w.compare_each = true;
    w.reopen = 1;
    am::Driver d(g, w);
    d.open();
    unsigned n = (unsigned) g.range(1, 30);
    bool pruned = false;
    for (unsigned i = 0; i < n; i++) {
        auto before = d.m.files.dirs().size() + d.m.named.dirs().size();
        d.step();
        if (d.m.files.dirs().size() + d.m.named.dirs().size() < before && d.m.files.m.size() + d.m.named.m.size() > 0) pruned = true;
    }
    d.op_reopen();
    d.close();
    if (pruned) g.nontrivial();
}

std::vector<Prop> pbt::properties() {
    return {{"trie", trie, 8000, 150000}, {"archive", archive, 2500, 40000}};
}
