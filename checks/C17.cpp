// C17: one archive object, many threads; one opener at a time.
// BUILD: repo=hzip_storage/*,hzip_core/blob/*,hzip_core/utils/* mode=sched libs=crypto
#include "archive_model.h"
#include <thread>
#include <sys/stat.h>

using namespace pbt;
const char *pbt::property_id = "C17";
const char *pbt::rule = "2-4 threads with up to 4 operations each on one archive object, preempted at generated synchronisation points, stream operations and memory accesses; results checked "
                        "for a sequential order that respects real time, then the file parsed; 2-4 openers of one path; non-trivial: at least one generated preemption and two threads touching one path";

namespace {
    // Contents are identified by a tag (their first bytes).
    struct Op {
        enum Kind { CREATE, READ, REMOVE, EXISTS, INSTALL, UNINSTALL, RSTATE, INJECT, CREATE_WITH, LIST } kind;
        std::string path, name;
        unsigned tag = 0; // content stored, or state installed
        unsigned size = 0;
        unsigned use = 0; // CREATE_WITH: index of the INJECT operation of the same thread
        // outcome
        bool ok = false, ran = false;
        std::string result;
        uint64_t start = 0, end = 0;
    };

    struct SModel {
        std::map<std::string, std::pair<unsigned, unsigned>> files; // path -> content tag, state tag
        std::map<std::string, unsigned> named; // name -> state tag
        std::map<unsigned, unsigned> deps; // live named-origin state tags -> dependents
        std::set<unsigned> gone;

        std::string key() const {
            std::string k;
            for (auto &f: files) k += f.first + fmt("=%u,%u;", f.second.first, f.second.second);
            k += "|";
            for (auto &f: named) k += f.first + fmt("=%u;", f.second);
            return k;
        }
    };

    // Applies op if its recorded outcome is what the model gives; false otherwise.
    bool apply(SModel &m, const Op &o, const std::vector<Op> &thread_ops) {
        auto nested = [&] { // "/a" versus "/a/x"
            for (auto &f: m.files) {
                if (f.first.size() > o.path.size() && f.first.compare(0, o.path.size() + 1, o.path + "/") == 0) return true;
                if (o.path.size() > f.first.size() && o.path.compare(0, f.first.size() + 1, f.first + "/") == 0) return true;
            }
            return false;
        };
        switch (o.kind) {
            case Op::CREATE: {
                bool ok = !m.files.count(o.path) && !nested();
                if (ok != o.ok) return false;
                if (ok) m.files[o.path] = {o.tag, 0};
                return true;
            }
            case Op::CREATE_WITH: {
                const Op &inj = thread_ops[o.use];
                unsigned st = inj.ok ? (unsigned) strtoul(inj.result.c_str(), nullptr, 10) : 0;
                bool ok = inj.ok && m.deps.count(st) && !m.files.count(o.path) && !nested();
                if (ok != o.ok) return false;
                if (ok) {
                    m.files[o.path] = {o.tag, st};
                    m.deps[st]++;
                }
                return true;
            }
            case Op::READ: {
                auto it = m.files.find(o.path);
                if ((it != m.files.end()) != o.ok) return false;
                return !o.ok || o.result == fmt("%u/%u", it->second.first, it->second.second);
            }
            case Op::REMOVE: {
                auto it = m.files.find(o.path);
                if ((it != m.files.end()) != o.ok) return false;
                if (o.ok) {
                    if (it->second.second) m.deps[it->second.second]--;
                    m.files.erase(it);
                }
                return true;
            }
            case Op::EXISTS: {
                bool e = m.files.count(o.path);
                for (auto &f: m.files) e |= f.first.compare(0, o.path.size() + 1, o.path + "/") == 0;
                return e == (o.result == "1");
            }
            case Op::INSTALL: {
                if (m.named.count(o.name) == o.ok) return false;
                if (o.ok) {
                    m.named[o.name] = o.tag;
                    m.deps[o.tag] = 0;
                }
                return true;
            }
            case Op::UNINSTALL: {
                auto it = m.named.find(o.name);
                bool ok = it != m.named.end() && m.deps[it->second] == 0;
                if (ok != o.ok) return false;
                if (ok) {
                    m.deps.erase(it->second);
                    m.named.erase(it);
                }
                return true;
            }
            case Op::RSTATE:
            case Op::INJECT: {
                auto it = m.named.find(o.name);
                if ((it != m.named.end()) != o.ok) return false;
                return !o.ok || o.result == fmt("%u", it->second);
            }
            case Op::LIST: {
                std::set<std::string> s;
                for (auto &f: m.files) {
                    auto k = f.first.find('/', 1);
                    s.insert(k == std::string::npos ? f.first.substr(1) + ":f" : f.first.substr(1, k - 1) + ":d");
                }
                std::string r;
                for (auto &x: s) r += x + " ";
                return r == o.result;
            }
        }
        return false;
    }

    const char *names[] = {"create", "read", "remove", "exists", "install", "uninstall", "read_state", "inject", "create_with", "list"};

    std::string describe(const Op &o) {
        return fmt("%s %s%s", names[o.kind], (o.kind == Op::INSTALL || o.kind == Op::UNINSTALL || o.kind == Op::RSTATE || o.kind == Op::INJECT ? o.name : o.path).c_str(),
                   !o.ran ? "" : o.kind == Op::EXISTS || o.kind == Op::LIST ? ("=" + o.result).c_str() : o.ok ? (o.result.empty() ? ":ok" : ("=" + o.result).c_str()) : ":refused");
    }

    bool linearise(const std::vector<std::vector<Op>> &t, std::vector<size_t> &pos, const SModel &m, std::set<std::string> &dead, uint64_t &budget) {
        bool done = true;
        for (size_t i = 0; i < t.size(); i++) done &= pos[i] == t[i].size();
        if (done) return true;
        if (budget == 0) return true; // undecided: give up quietly
        budget--;
        std::string k = m.key();
        for (auto p: pos) k += fmt(",%zu", p);
        if (dead.count(k)) return false;
        // An operation may come next if no other pending one ended before it started.
        uint64_t first_end = ~0ull;
        for (size_t i = 0; i < t.size(); i++) if (pos[i] < t[i].size()) first_end = std::min(first_end, t[i][pos[i]].end);
        for (size_t i = 0; i < t.size(); i++) {
            if (pos[i] == t[i].size() || t[i][pos[i]].start > first_end) continue;
            SModel n = m;
            if (!apply(n, t[i][pos[i]], t[i])) continue;
            pos[i]++;
            if (linearise(t, pos, n, dead, budget)) return true;
            pos[i]--;
        }
        dead.insert(k);
        return false;
    }

    rainman::ptr<uint8_t> content(unsigned tag, unsigned size) {
        rainman::ptr<uint8_t> p((uint64_t) size + 4);
        for (unsigned i = 0; i < size + 4; i++) p[i] = i < 4 ? (uint8_t) (tag >> (8 * i)) : (uint8_t) (tag * 31 + i * 7);
        return p;
    }

    // The tag of a byte string made by content(), or a complaint.
    unsigned tag_of(const rainman::ptr<uint8_t> &p, uint64_t n, const char *what) {
        if (n < 4) fail_now("%s is %llu bytes long: mixed up with another entry", what, (unsigned long long) n);
        unsigned tag = p[0] | p[1] << 8 | p[2] << 16 | (unsigned) p[3] << 24;
        for (unsigned i = 4; i < n; i++) if (p[i] != (uint8_t) (tag * 31 + i * 7)) fail_now("%s is damaged at byte %u", what, i);
        return tag;
    }

    uint64_t clock_ = 0; // only the running thread touches it
}

static void shared(G &g) {
    std::string path = scratch() + "/t.hz";
    ::unlink(path.c_str());
    clock_ = 0;
    unsigned nt = (unsigned) g.range(2, 4);
    static const char *paths[] = {"/a", "/b", "/d/x", "/d/y", "/d"};
    static const char *snames[] = {"/s", "/t"};
    unsigned tag = 1;
    std::map<unsigned, unsigned> sizes;
    auto gen_op = [&](std::vector<Op> &ops) {
        Op o;
        o.path = paths[g.weighted({5, 3, 3, 2, 1})];
        o.name = snames[g.weighted({3, 1})];
        o.size = (unsigned) g.below(30);
        o.tag = tag++;
        sizes[o.tag] = o.size;
        switch (g.weighted({6, 4, 5, 2, 3, 3, 1, 4, 1})) {
            case 0: o.kind = Op::CREATE; break;
            case 1: o.kind = Op::READ; break;
            case 2: o.kind = Op::REMOVE; break;
            case 3: o.kind = Op::EXISTS; break;
            case 4: o.kind = Op::INSTALL; break;
            case 5: o.kind = Op::UNINSTALL; break;
            case 6: o.kind = Op::RSTATE; break;
            case 7: {
                o.kind = Op::INJECT;
                ops.push_back(o);
                o.kind = Op::CREATE_WITH;
                o.use = (unsigned) ops.size() - 1;
                o.tag = tag++;
                sizes[o.tag] = o.size;
                break;
            }
            default: o.kind = Op::LIST;
        }
        ops.push_back(o);
    };
    std::vector<std::vector<Op>> t(nt + 2); // the last but one: prologue, the last: epilogue
    unsigned pro = (unsigned) g.below(4);
    for (unsigned i = 0; i < pro; i++) gen_op(t[nt]);
    for (unsigned i = 0; i < nt; i++) {
        unsigned n = (unsigned) g.range(1, 3);
        for (unsigned k = 0; k < n; k++) gen_op(t[i]);
    }
    std::set<std::string> touched;
    bool overlap = false;
    for (unsigned i = 0; i < nt; i++) {
        std::set<std::string> mine;
        for (auto &o: t[i]) mine.insert(o.kind == Op::INSTALL || o.kind == Op::UNINSTALL || o.kind == Op::RSTATE || o.kind == Op::INJECT ? o.name : o.path);
        for (auto &p: mine) overlap |= !touched.insert(p).second;
    }

    std::unique_ptr<HZ_Archive> a;
    std::vector<uint64_t> orphan_states;
    auto run_op = [&](Op &o, std::vector<rainman::ptr<HZ_Blob>> &injected, size_t index) {
        o.start = ++clock_;
        try {
            switch (o.kind) {
                case Op::CREATE: {
                    auto b = rainman::ptr<HZ_Blob>();
                    b->data = content(o.tag, o.size);
                    b->size = o.size + 4;
                    b->o_size = o.tag;
                    b->header.raw = content(o.tag, o.size % 5);
                    auto s = rainman::ptr<HZ_MState>();
                    s->alg = hzcodec::algorithms::VICTINI;
                    s->data = content(o.tag + 1000000, o.size / 2);
                    a->inject_mstate(s, b);
                    orphan_states.push_back(b->mstate_id);
                    a->create_file(o.path, b, 1);
                    orphan_states.erase(std::find(orphan_states.begin(), orphan_states.end(), b->mstate_id));
                    break;
                }
                case Op::CREATE_WITH: {
                    auto b = injected[o.use];
                    if (b.size() == 0) throw std::runtime_error("not injected");
                    b->data = content(o.tag, o.size);
                    b->size = o.size + 4;
                    b->o_size = o.tag;
                    b->header.raw = content(o.tag, o.size % 5);
                    a->create_file(o.path, b, 1);
                    break;
                }
                case Op::READ: {
                    auto f = a->read_file(o.path);
                    if (f.size() != 1) fail_now("%s has %llu blobs, stored 1", o.path.c_str(), (unsigned long long) f.size());
                    auto &b = f[0];
                    unsigned c = tag_of(b.data, b.size, o.path.c_str());
                    if (b.size != sizes[c] + 4 || b.o_size != c || b.header.size() != sizes[c] % 5 + 4 || tag_of(b.header.raw, b.header.size(), "a header") != c)
                        fail_now("%s: data, header and sizes of different blobs are mixed up", o.path.c_str());
                    unsigned s = tag_of(b.mstate->data, b.mstate->data.size(), "a state");
                    if (s >= 1000000) {
                        if (s != c + 1000000) fail_now("%s came with the state of another blob", o.path.c_str());
                        s = 0;
                    }
                    o.result = fmt("%u/%u", c, s);
                    break;
                }
                case Op::REMOVE: a->remove_file(o.path); break;
                case Op::EXISTS: o.result = a->check_file_exists(o.path) ? "1" : "0"; break;
                case Op::INSTALL: {
                    auto s = rainman::ptr<HZ_MState>();
                    s->alg = hzcodec::algorithms::VICTINI;
                    s->data = content(o.tag, o.size);
                    a->install_mstate(o.name, s);
                    break;
                }
                case Op::UNINSTALL: a->uninstall_mstate(o.name); break;
                case Op::RSTATE: {
                    auto s = a->read_mstate(o.name);
                    o.result = fmt("%u", tag_of(s->data, s->data.size(), "a state"));
                    break;
                }
                case Op::INJECT: {
                    auto b = rainman::ptr<HZ_Blob>();
                    a->inject_mstate(o.name, b);
                    o.result = fmt("%u", tag_of(b->mstate->data, b->mstate->data.size(), "a state"));
                    injected[index] = b;
                    break;
                }
                case Op::LIST: {
                    std::set<std::string> s;
                    for (auto &e: a->list_file_system("/")) s.insert(e.entry + (e.is_leaf ? ":f" : ":d"));
                    for (auto &x: s) o.result += x + " ";
                    break;
                }
            }
            o.ok = true;
        } catch (std::exception &e) {
            o.ok = false;
        }
        o.ran = true;
        o.end = ++clock_;
    };
    auto run_all = [&](std::vector<Op> &ops) {
        std::vector<rainman::ptr<HZ_Blob>> injected(ops.size(), rainman::ptr<HZ_Blob>((uint64_t) 0));
        for (size_t i = 0; i < ops.size(); i++) run_op(ops[i], injected, i);
    };
    uint64_t pre = 0;
    {
        sched::Options so;
        so.eintr = g.chance(10);
        sched::Scope sc(g, so);
        a = std::make_unique<HZ_Archive>(path);
        a->load();
        run_all(t[nt]);
        std::vector<std::thread> th;
        for (unsigned i = 0; i < nt; i++) th.emplace_back([&, i] { run_all(t[i]); });
        for (auto &x: th) x.join();
        a->close();
        a.reset();
        pre = sched::preemptions();
        a = std::make_unique<HZ_Archive>(path);
        a->load();
        for (auto p: paths) {
            Op o;
            o.kind = Op::READ;
            o.path = p;
            if (o.path == "/d") o.kind = Op::EXISTS;
            t[nt + 1].push_back(o);
        }
        for (auto p: snames) {
            Op o;
            o.kind = Op::RSTATE;
            o.name = p;
            t[nt + 1].push_back(o);
        }
        Op o;
        o.kind = Op::LIST;
        t[nt + 1].push_back(o);
        run_all(t[nt + 1]);
    }
    for (unsigned i = 0; i < t.size(); i++) {
        g.note("%s:", i < nt ? fmt("T%u", i).c_str() : i == nt ? "before" : "after");
        for (auto &o: t[i]) g.note(" %s;", describe(o).c_str());
        g.note(" ");
    }
    g.note("(%llu preemptions)", (unsigned long long) pre);
    std::vector<size_t> pos(t.size(), 0);
    std::set<std::string> dead;
    uint64_t budget = 200000;
    SModel m0;
    CHECK(linearise(t, pos, m0, dead, budget), "no sequential order of the operations explains their results");
    if (budget == 0) g.label("undecided");
    // The file holds exactly what the archive reports.
    am::Model m;
    for (auto p: paths) {
        if (std::string(p) == "/d" && (a->check_file_exists("/d/x") || a->check_file_exists("/d/y"))) continue;
        if (!a->check_file_exists(p)) continue;
        auto e = a->read_file_entry(p);
        std::vector<uint64_t> ids;
        for (uint64_t i = 0; i < e.blob_ids.size(); i++) {
            auto b = a->read_blob(e.blob_ids[i]);
            ids.push_back(e.blob_ids[i]);
            if (!m.states.count(b->mstate_id)) m.states[b->mstate_id] = am::MState{(uint64_t) b->mstate->alg, am::to_bytes(b->mstate->data)};
            m.add_blob(e.blob_ids[i], am::Driver::model_of(*b));
        }
        m.files.put(p, ids);
    }
    for (auto p: snames) {
        if (!a->check_mstate_exists(p)) continue;
        auto b = rainman::ptr<HZ_Blob>();
        a->inject_mstate(p, b);
        m.states[b->mstate_id] = am::MState{(uint64_t) b->mstate->alg, am::to_bytes(b->mstate->data)};
        m.named.put(p, b->mstate_id);
    }
    for (auto id: orphan_states) {
        auto b = rainman::ptr<HZ_Blob>();
        // states of refused stores stay installed; their contents are known only by reading the file
        am::BitReader r{am::slurp(path)};
        (void) b;
        m.states[id];
    }
    a->close();
    // Fill in the orphans' contents from the records themselves (their well-formedness is still checked).
    if (!orphan_states.empty()) {
        am::BitReader r{am::slurp(path)};
        while (true) {
            uint64_t mk = r.read(8);
            if (mk == 0xff) break;
            uint64_t len = r.read(64), body = r.pos;
            if (mk == 3) {
                uint64_t id = r.read(64), alg = r.read(64);
                auto d = r.bytes(r.read(64));
                if (std::find(orphan_states.begin(), orphan_states.end(), id) != orphan_states.end()) {
                    m.states[id].alg = alg;
                    m.states[id].data = d;
                }
            }
            r.pos = body + len;
        }
    }
    am::check_disk(path, m);
    if (pre > 0 && overlap) g.nontrivial();
    if (pre > 0) g.label("preempted");
}

// Several openers of one path, spelled differently: never two at once, nobody waits for ever, nothing is lost.
static void openers(G &g) {
    std::string dir = scratch();
    ::mkdir((dir + "/sub").c_str(), 0755);
    ::unlink((dir + "/t.hz").c_str());
    ::unlink((dir + "/link.hz").c_str());
    std::vector<std::string> spell{dir + "/t.hz", dir + "/./t.hz", dir + "/sub/../t.hz", dir + "//t.hz"};
    bool exists = g.boolean();
    if (exists) {
        HZ_Archive a(spell[0]);
        a.close();
        if (::symlink((dir + "/t.hz").c_str(), (dir + "/link.hz").c_str()) == 0) spell.push_back(dir + "/link.hz");
    }
    unsigned n = (unsigned) g.range(2, 4), rounds = (unsigned) g.range(1, 2);
    std::vector<unsigned> which(n);
    for (auto &x: which) x = (unsigned) g.below(spell.size());
    int inside = 0;
    uint64_t pre;
    g.note("%s archive, %u threads, %u rounds, spellings", exists ? "existing" : "new", n, rounds);
    for (auto x: which) g.note(" %u", x);
    {
        sched::Options so;
        so.eintr = g.chance(30);
        sched::Scope sc(g, so);
        std::vector<std::thread> th;
        for (unsigned i = 0; i < n; i++)
            th.emplace_back([&, i] {
                for (unsigned r = 0; r < rounds; r++) {
                    try {
                        HZ_Archive a(spell[which[i]]);
                        if (++inside != 1) fail_now("two openers hold the archive at the same time");
                        sched::point();
                        a.load();
                        auto b = rainman::ptr<HZ_Blob>();
                        b->data = content(i * 10 + r, i);
                        b->size = i + 4;
                        a.inject_mstate(rainman::ptr<HZ_MState>(), b);
                        a.create_file(fmt("/f%u-%u", i, r), b, 1);
                        inside--;
                        a.close();
                    } catch (std::exception &e) {
                        fail_now("an opener failed: %s", e.what());
                    }
                }
            });
        for (auto &x: th) x.join();
        pre = sched::preemptions();
        HZ_Archive a(spell[0]);
        a.load();
        for (unsigned i = 0; i < n; i++)
            for (unsigned r = 0; r < rounds; r++) {
                std::string p = fmt("/f%u-%u", i, r);
                if (!a.check_file_exists(p)) fail_now("%s, stored by one of the openers, is lost", p.c_str());
                auto f = a.read_file(p);
                if (tag_of(f[0].data, f[0].size, p.c_str()) != i * 10 + r) fail_now("%s has other contents", p.c_str());
            }
        a.close();
    }
    ::unlink((dir + "/link.hz").c_str());
    if (pre > 0) g.nontrivial();
}

// Closing admits exactly one of the waiters.
static void handover(G &g) {
    std::string p = scratch() + "/t.hz";
    ::unlink(p.c_str());
    unsigned n = (unsigned) g.range(1, 4);
    unsigned opened = 0;
    std::vector<std::unique_ptr<HZ_Archive>> got(n);
    {
        sched::Scope sc(g);
        HZ_Archive first(p);
        if (g.boolean()) first.load();
        std::vector<std::thread> th;
        for (unsigned i = 0; i < n; i++)
            th.emplace_back([&, i] {
                got[i] = std::make_unique<HZ_Archive>(p);
                opened++;
            });
        sched::settle();
        if (opened != 0) fail_now("an archive that is open was opened again");
        for (unsigned k = 0; k < n; k++) {
            if (k == 0) first.close();
            else for (auto &x: got) if (x) {
                x->load();
                x->close();
                x.reset();
                break;
            }
            sched::settle();
            if (opened != k + 1) fail_now("closing the archive let %u waiters in instead of one", opened - k);
        }
        for (auto &x: th) x.join();
        for (auto &x: got) if (x) x->close();
    }
    if (n > 1) g.nontrivial();
}

std::vector<Prop> pbt::properties() {
    return {{"shared", shared, 5000, 120000, SCHED}, {"openers", openers, 1500, 30000, SCHED}, {"handover", handover, 500, 8000, SCHED}};
}
