// C23: what one client stores is what any client reads back.
// BUILD: repo=hzip_network/*,hzip_codec/*,hzip_core/*,hzip_storage/* mode=plain libs=crypto,png,loguru extra=sched,fakecl
#include "api_model.h"

const char *pbt::property_id = "C23";
const char *pbt::rule = "histories of 1-30 commands (encode, train, decode, decode of a piggy-backed blob, write/read state, existence, listing, removal, health, memory) over 1-3 sessions and 1-2 archives "
                        "(named by several spellings), with options in generated order, repeated or missing, arguments valid or refused for a known reason, restarts of the server; "
                        "concurrently: 2-4 sessions on one archive, in directories of their own or with the same names, with or without states that others remove; large: files of several 4 MiB blobs; "
                        "non-trivial: a file stored through one session was read back through another (or after a restart)";

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

static void history(G &g) {
    auto o = options(g, 3);
    auto archives = make_archives(g, (unsigned) g.range(1, 2));
    Server s(o);
    Client c(g, s, archives);
    g.note("%u sessions: ", o.instances);
    c.open_sessions(o.instances);
    unsigned n = (unsigned) g.range(1, 30);
    for (unsigned i = 0; i < n; i++) {
        if (g.chance(4)) {
            g.note("restart; ");
            c.close_all();
            s.stop();
            for (auto &a: archives) direct(a.path, {&a});
            s.start();
            c.serial++;
            c.open_sessions(o.instances);
            g.label("restarted");
        }
        c.step();
    }
    c.all();
    c.close_all();
    check_capacity(s, "after the history");
    s.stop();
    for (auto &a: archives) {
        direct(a.path, {&a});
        unlink(a.path.c_str());
    }
    if (c.cross) g.nontrivial();
    if (c.refused_once) g.label("a command was refused");
}

static void concurrent(G &g) {
    Options o;
    o.instances = (unsigned) g.range(2, 4);
    o.threads = (unsigned) g.range(1, 4);
    auto base = make_archives(g, (unsigned) g.range(1, 2));
    Server s(o);
    struct T {
        G g;
        std::vector<Arch> archives;
        std::string failed;
        bool stored = false;
        std::thread t;
    };
    std::list<T> v;
    unsigned n = (unsigned) g.range(1, 12);
    g.note("%u threads, %u commands each: ", o.instances, n);
    for (unsigned i = 0; i < o.instances; i++) {
        auto &t = v.emplace_back();
        t.g.rng = g.sub();
        t.archives = base;
        for (auto &a: t.archives) a.prefix = fmt("/t%u", i);
    }
    for (auto &t: v)
        t.t = std::thread([&t, &s, n] {
            try {
                Client c(t.g, s, t.archives);
                c.open_sessions(1);
                for (unsigned i = 0; i < n; i++) c.step();
                c.all();
                c.close_all();
                t.stored = c.stored;
            } catch (const Failure &f) { t.failed = f.msg; }
            catch (const Refused &f) { t.failed = "refused: " + f.msg; }
            catch (const Gone &f) { t.failed = "the server ends the session: " + f.why; }
        });
    for (auto &t: v) t.t.join();
    s.check_alive("with several clients");
    unsigned stored = 0;
    for (auto &t: v) {
        g.note("[%s] ", t.g.notes.substr(0, 400).c_str());
        stored += t.stored;
        CHECK(t.failed.empty(), "with several clients at once: %s", t.failed.c_str());
    }
    check_capacity(s, "after several clients at once");
    s.stop();
    for (size_t i = 0; i < base.size(); i++) {
        std::vector<const Arch *> m;
        for (auto &t: v) m.push_back(&t.archives[i]);
        direct(base[i].path, m);
        unlink(base[i].path.c_str());
    }
    if (stored > 1) g.nontrivial();
}

// Several sessions use the same names: all answers fit one order of the commands, and what was acknowledged is there.
namespace {
    struct Op {
        enum Kind { STORE_FILE, REMOVE_FILE, READ_FILE, FILE_EXISTS, WRITE_STATE, REMOVE_STATE, READ_STATE } kind;
        std::string name;
        Bytes data; // stored or (to be) found
        uint64_t alg = 0;
        bool done = false; // not refused
        uint64_t from = 0, to = 0;
    };

    struct World {
        am::Names<std::pair<uint64_t, Bytes>> files, states;

        // Can o have been answered as it was? Then it takes effect.
        bool apply(const Op &o) {
            switch (o.kind) {
                case Op::STORE_FILE:
                    if (files.can_insert(o.name) != o.done) return false;
                    if (o.done) files.put(o.name, {0, o.data});
                    return true;
                case Op::REMOVE_FILE:
                    if (files.file(o.name) != o.done) return false;
                    if (o.done) files.del(o.name);
                    return true;
                case Op::READ_FILE: return files.file(o.name) == o.done && (!o.done || files.m.at(o.name).second == o.data);
                case Op::FILE_EXISTS: return files.exists(o.name) == o.done;
                case Op::WRITE_STATE:
                    if (states.can_insert(o.name) != o.done) return false;
                    if (o.done) states.put(o.name, {o.alg, o.data});
                    return true;
                case Op::REMOVE_STATE:
                    if (states.file(o.name) != o.done) return false;
                    if (o.done) states.del(o.name);
                    return true;
                default: return states.file(o.name) == o.done && (!o.done || states.m.at(o.name) == std::make_pair(o.alg, o.data));
            }
        }

        std::string key() const {
            std::string k;
            for (auto *n: {&files, &states}) {
                for (auto &e: n->m) k += e.first + "=" + fmt("%zu.%llx ", e.second.second.size(), (u64) hash_bytes(e.second.second.data(), e.second.second.size()));
                k += "|";
            }
            return k;
        }
    };

    bool fits(const std::vector<std::vector<Op>> &v, std::vector<size_t> &at, const World &w, std::set<std::string> &seen) {
        uint64_t first_end = ~0ull;
        bool all = true;
        for (size_t i = 0; i < v.size(); i++)
            if (at[i] < v[i].size()) {
                all = false;
                first_end = std::min(first_end, v[i][at[i]].to);
            }
        if (all) return true;
        std::string k;
        for (auto x: at) k += fmt("%zu,", x);
        if (!seen.insert(k + w.key()).second) return false;
        for (size_t i = 0; i < v.size(); i++) {
            if (at[i] >= v[i].size() || v[i][at[i]].from > first_end) continue;
            World n = w;
            if (!n.apply(v[i][at[i]])) continue;
            at[i]++;
            if (fits(v, at, n, seen)) return true;
            at[i]--;
        }
        return false;
    }
}

static void contended(G &g) {
    Options o;
    o.instances = (unsigned) g.range(2, 4);
    o.threads = (unsigned) g.range(1, 4);
    auto base = make_archives(g, 1);
    auto path = base[0].path;
    Server s(o);
    bool with_states = g.chance(40); // files that need states which come and go
    unsigned n = (unsigned) g.range(1, 9);
    Bytes trained;
    if (with_states) {
        Session x(s, o.password);
        Session::EncodeArgs e;
        e.archive = {path};
        e.state = {"/s"};
        e.alg = {VICTINI};
        x.train(g, e, Bytes(400, 'a'));
        trained = x.read_state({path}, {"/s"}, true).second;
        x.close_session();
    }
    g.note("%u sessions, %u commands each%s: ", o.instances, n, with_states ? ", with states" : "");
    std::atomic<uint64_t> clock{1};
    struct T {
        G g;
        std::vector<Op> ops;
        std::string failed;
        std::thread t;
    };
    std::list<T> v;
    for (unsigned i = 0; i < o.instances; i++) v.emplace_back().g.rng = g.sub();
    unsigned id = 0;
    for (auto &t: v) {
        t.t = std::thread([&, id] {
            try {
                Session x(s, o.password);
                for (unsigned k = 0; k < n; k++) {
                    Op op;
                    op.kind = with_states ? (Op::Kind) t.g.pick({0, 0, 0, 1, 2, 4, 5, 5}) : (Op::Kind) t.g.pick({0, 0, 0, 1, 1, 2, 2, 3, 4, 4, 5, 6, 6});
                    op.name = op.kind >= Op::WRITE_STATE ? t.g.pick({std::string("/s"), std::string("/s"), std::string("/s/t")}) : t.g.pick({std::string("/x"), std::string("/x"), std::string("/x/y"), std::string("/z")});
                    Session::EncodeArgs e;
                    e.archive = {path};
                    e.alg = {VICTINI};
                    if (with_states) {
                        if (op.kind >= Op::WRITE_STATE) op.name = "/s";
                        else op.name = fmt("/%u/%u", id, k);
                        if (op.kind == Op::REMOVE_FILE || op.kind == Op::READ_FILE) {
                            std::vector<std::string> own;
                            for (auto &q: t.ops) if (q.kind == Op::STORE_FILE && q.done) own.push_back(q.name);
                            if (own.empty()) continue;
                            op.name = t.g.pick(own);
                        }
                        if (t.g.chance(80)) e.state = {"/s"};
                    }
                    op.from = clock++;
                    std::string why;
                    int r = outcome([&] {
                        switch (op.kind) {
                            case Op::STORE_FILE:
                                e.dest = {op.name};
                                op.data = Bytes(with_states ? 300 + t.g.below(300) : t.g.below(300), 'a');
                                for (int j = 0; j < 4 && op.data.size() > 4; j++) op.data[t.g.below(op.data.size())] = (uint8_t) ('b' + t.g.below(20));
                                x.encode(t.g, e, op.data);
                                break;
                            case Op::REMOVE_FILE: x.remove(false, {path}, {op.name}); break;
                            case Op::READ_FILE: op.data = x.decode(t.g, {path}, {op.name}, true); break;
                            case Op::FILE_EXISTS: if (!x.file_exists({path}, {op.name}, true)) throw Refused{"(no)"}; break;
                            case Op::WRITE_STATE:
                                op.alg = with_states ? VICTINI : STORE;
                                op.data = with_states ? trained : Bytes(1 + t.g.below(30), (uint8_t) t.g.below(256));
                                x.write_state({path}, {op.name}, op.alg, op.data);
                                break;
                            case Op::REMOVE_STATE: x.remove(true, {path}, {op.name}); break;
                            default: std::tie(op.alg, op.data) = x.read_state({path}, {op.name}, true);
                        }
                    }, &why);
                    if (r == 2) throw Gone{why};
                    op.done = r == 0;
                    op.to = clock++;
                    t.ops.push_back(op);
                }
                x.close_session();
            } catch (const Failure &f) { t.failed = f.msg; }
            catch (const Refused &f) { t.failed = "refused: " + f.msg; }
            catch (const Gone &f) { t.failed = "the server ends the session: " + f.why; }
        });
        id++;
    }
    for (auto &t: v) t.t.join();
    s.check_alive("with several clients");
    std::vector<std::vector<Op>> ops;
    static const char *const names[] = {"store", "remove", "read", "exists", "write state", "remove state", "read state"};
    unsigned overlaps = 0;
    for (auto &t: v) {
        CHECK(t.failed.empty(), "with several clients at once: %s", t.failed.c_str());
        g.note("[");
        for (auto &p: t.ops) {
            g.note("%llu-%llu %s %s%s; ", (u64) p.from, (u64) p.to, names[p.kind], p.name.c_str(), p.done ? "" : "!");
            overlaps += p.to > p.from + 1;
        }
        g.note("] ");
        ops.push_back(t.ops);
    }
    // A last look, after everything else.
    World end;
    {
        Session x(s, o.password);
        std::vector<Op> last;
        auto look = [&](Op::Kind kind, const std::string &name) {
            Op p{kind, name};
            p.from = clock++;
            p.done = outcome([&] {
                if (kind == Op::READ_FILE) p.data = x.decode(g, {path}, {name}, true);
                else std::tie(p.alg, p.data) = x.read_state({path}, {name}, true);
            }) == 0;
            p.to = clock++;
            if (p.done) (kind == Op::READ_FILE ? end.files : end.states).put(name, {p.alg, p.data});
            last.push_back(p);
        };
        if (!with_states) {
            for (auto *f: {"/x", "/x/y", "/z"}) look(Op::READ_FILE, f);
            for (auto *f: {"/s", "/s/t"}) look(Op::READ_STATE, f);
            ops.push_back(last);
            std::vector<size_t> at(ops.size());
            std::set<std::string> seen;
            CHECK(fits(ops, at, World{}, seen), "the answers to the sessions fit no order of their commands");
        } else {
            for (auto &t: v) {
                std::map<std::string, Bytes> mine;
                for (auto &p: t.ops) {
                    if (p.kind == Op::STORE_FILE && p.done) mine[p.name] = p.data;
                    if (p.kind == Op::READ_FILE) {
                        CHECK(p.done, "%s cannot be read back", p.name.c_str());
                        Client::same(p.data, mine[p.name], p.name);
                    }
                    if (p.kind == Op::REMOVE_FILE) {
                        CHECK(p.done, "%s cannot be removed", p.name.c_str());
                        mine.erase(p.name);
                        for (auto &q: t.ops) if (&q > &p && q.name == p.name && q.kind != Op::STORE_FILE) goto next; // (not looked at any further)
                    }
                }
                for (auto &f: mine) {
                    Bytes r;
                    std::string why;
                    CHECK(outcome([&] { r = x.decode(g, {path}, {f.first}, true); }, &why) == 0, "%s cannot be read back at the end (%s)", f.first.c_str(), why.c_str());
                    Client::same(r, f.second, f.first);
                }
                next:;
            }
        }
        x.close_session();
    }
    check_capacity(s, "after several clients at once");
    s.stop();
    if (access(path.c_str(), F_OK) == 0) check_reachable(path);
    if (!with_states) {
        Arch a;
        a.path = path;
        for (auto &f: end.files.m) a.files.put(f.first, File{f.second.second});
        for (auto &f: end.states.m) a.states.put(f.first, State{f.second.first, f.second.second});
        direct(path, {&a});
    }
    unlink(path.c_str());
    if (overlaps > 1) g.nontrivial();
}

static void large(G &g) {
    Options o;
    o.instances = 2;
    o.threads = (unsigned) g.range(1, 3);
    auto archives = make_archives(g, 1);
    Server s(o);
    auto &a = archives[0];
    Client c(g, s, archives);
    c.open_sessions(2);
    uint64_t n = g.chance(75) ? 0x800000ull + g.pick({1, 1, 300, 12345, 0x300000}) : 0x400000ull * g.range(1, thorough() ? 4 : 2) + g.pick({0, 1, -1, 12345});
    Bytes d(n);
    Rng r = g.sub();
    uint64_t period = 1 + r.below(50000);
    for (uint64_t i = 0; i < n; i++) d[i] = i >= period && (i & 63) ? d[i - period] : (uint8_t) r.next();
    bool back = g.boolean();
    g.note("%llu bytes, piggy-back %d", (u64) n, back);
    Session::EncodeArgs e;
    e.archive = {a.path};
    e.dest = {"/dir/large"};
    e.alg = {VICTINI};
    e.piggyback = back;
    std::vector<Parts> parts;
    c.attempt(true, "encode", [&] { parts = c.v[0].encode(g, e, d); });
    Bytes b;
    c.attempt(true, "decode", [&] { b = c.v[1].decode(g, {a.path}, {"/dir/large"}, true); });
    Client::same(b, d, "/dir/large");
    e.dest = {"/dir/other"};
    e.state = {"/missing"};
    c.attempt(false, "encode with a missing state", [&] { c.v[0].encode(g, e, d); });
    e.state.clear();
    e.dest = {"/dir"};
    c.attempt(false, "encode again", [&] { c.v[0].encode(g, e, Bytes(5)); });
    c.close_all();
    s.stop();
    File f;
    f.data = d;
    f.parts = parts;
    a.files.put("/dir/large", f);
    direct(a.path, {&a});
    unlink(a.path.c_str());
    g.nontrivial();
}

std::vector<Prop> pbt::properties() {
    return {{"history", history, 400, 12000, REALTIME, 120},
            {"concurrent", concurrent, 80, 3000, REALTIME, 120},
            {"contended", contended, 120, 4000, REALTIME, 120},
            {"large", large, 16, 160, REALTIME, 300}};
}
