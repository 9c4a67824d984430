// A client of the remote API which knows what has to be stored, shared by C23 and C34.
#ifndef API_MODEL_H
#define API_MODEL_H

#include "api_client.h"
#include "png_gen.h"
#include <list>

using namespace pbt;
using namespace api;

namespace {
    using u64 = unsigned long long;
    enum { STORE = 0, VICTINI = 1, SHARINGAN = 2 };

    struct File {
        Bytes data;
        uint64_t alg = 0;
        std::string state; // that its blobs may use
        bool sure = false; // they do
        std::vector<Parts> parts; // if known
        size_t by = 0; // session
    };

    struct State {
        uint64_t alg = 0;
        Bytes data;
    };

    struct Arch {
        std::string path, prefix;
        am::Names<File> files;
        am::Names<State> states;
    };

    struct Loose { // a piggy-backed blob
        Parts p;
        Bytes want;
        uint64_t alg = 0;
    };

    bool is_png(const Bytes &b) { return b.size() > 8 && b[1] == 'P' && b[2] == 'N' && b[3] == 'G'; }

    struct Client {
        G &g;
        Server &s;
        std::vector<Arch> &archives;
        std::vector<Session> v;
        std::vector<Loose> loose;
        std::vector<std::string> problems;
        size_t at = 0, serial = 0;
        bool cross = false, stored = false, refused_once = false;
        uint64_t max_data = 3000;

        Client(G &g, Server &s, std::vector<Arch> &a) : g(g), s(s), archives(a) {}

        void open_sessions(size_t n) {
            for (size_t i = 0; i < n; i++) v.emplace_back(s, s.o.password);
        }

        Session &session() {
            at = g.below(v.size());
            if (!v[at].open()) v[at] = Session(s, s.o.password);
            return v[at];
        }

        Arch &arch() { return archives[g.below(archives.size())]; }

        std::string spelling(const Arch &a) {
            if (!g.chance(15)) return a.path;
            auto k = a.path.rfind('/');
            switch (g.below(4)) {
                case 0: return a.path.substr(0, k) + "/." + a.path.substr(k);
                case 1: return a.path.substr(0, k) + "//" + a.path.substr(k + 1);
                case 2: return a.path.substr(0, k) + "/nowhere/.." + a.path.substr(k);
                default: return "./" + a.path.substr(k + 1); // (the server runs in the scratch directory)
            }
        }

        template<typename T>
        std::string some(const Arch &a, const am::Names<T> &n, unsigned existing, unsigned malformed = 0) {
            if (!n.m.empty() && g.chance(existing)) {
                auto p = std::next(n.raw.begin(), (long) g.below(n.raw.size()))->second;
                if (g.chance(4) && p.back() != '/') p += "/";
                return p;
            }
            if (!n.m.empty() && g.chance(12)) { // a directory, or below a file
                auto q = std::next(n.m.begin(), (long) g.below(n.m.size()))->first;
                auto k = q.rfind('/');
                if (g.boolean() && k > a.prefix.size()) return q.substr(0, k);
                return q + "/k";
            }
            while (true) {
                auto p = am::gen_path(g, a.prefix.empty() ? malformed : 0);
                if (p.find('\0') != std::string::npos) continue; // paths are C strings on the wire
                if (g.chance(4) && am::well_formed(p)) p += (p.back() == '/' ? "" : "/") + std::string(g.pick({255, 256, 300, 4000, 60000}), 'l');
                return a.prefix + p;
            }
        }

        Bytes content() {
            switch (g.weighted({70, 5, 5, 20})) {
                case 0: return g.data(g.chance(20) ? max_data : 300);
                case 1: return g.data(40 * max_data);
                case 2: return {};
                default: return pnggen::encode(g, pnggen::spec(g, false, 12));
            }
        }

        // f must be done exactly if ok; with unsure, either way.
        template<typename F>
        bool attempt(bool ok, const std::string &what, F f, bool unsure = false) {
            g.note("%zu: %s%s; ", at, what.c_str(), unsure ? "?" : ok ? "" : "!");
            std::string why;
            int r = outcome(f, &why);
            s.check_alive("during a command");
            CHECK(r != 2, "the server ends the session during: %s (%s)", what.c_str(), why.c_str());
            if (!unsure) {
                if (ok) CHECK(r == 0, "refused: %s (%s)", what.c_str(), why.c_str());
                else CHECK(r == 1, "done although it has to be refused: %s", what.c_str());
            }
            if (r == 1) {
                refused_once = true;
                CHECK(!why.empty(), "refused without a reason: %s", what.c_str());
                if (g.chance(30)) v[at].health();
            }
            return r == 0;
        }

        uint64_t users(const Arch &a, const std::string &n, bool sure) {
            uint64_t k = 0;
            for (auto &f: a.files.m) k += f.second.state == am::norm(n) && !f.second.state.empty() && (!sure || f.second.sure);
            return k;
        }

        void encode() {
            auto &x = session();
            auto &a = arch();
            Session::EncodeArgs e;
            auto d = content();
            uint64_t alg = is_png(d) ? (g.chance(70) ? SHARINGAN : VICTINI) : g.chance(93) ? VICTINI : SHARINGAN;
            bool has_archive = g.chance(95), has_dest = g.chance(95), bad_archive = false;
            e.piggyback = g.chance(40);
            if (g.chance(3)) alg = g.pick({0ull, 3ull, 7ull, 255ull, 256ull, 257ull, 1ull << 32, (1ull << 32) + 1, ~0ull, (1ull << 63) + 2});
            if (g.chance(98)) e.alg.push_back(alg);
            else alg = 0;
            if (!e.alg.empty() && g.chance(4)) e.alg.insert(e.alg.begin(), g.below(5));
            if (has_archive) {
                if (g.chance(4)) e.archive.push_back(spelling(arch()));
                e.archive.push_back(spelling(a));
                if (g.chance(2)) {
                    bad_archive = true;
                    auto dir = a.path.substr(0, a.path.rfind('/'));
                    e.archive.push_back(g.pick({std::string(), dir, dir + "/missing/a.hz", dir + "/", std::string(5000, 'n')}));
                }
            }
            std::string dest, st;
            bool malformed = false;
            if (has_dest) {
                if (g.chance(4)) e.dest.push_back(some(a, a.files, 30));
                dest = some(a, a.files, 10, 4);
                e.dest.push_back(dest);
                malformed = !am::well_formed(dest);
            }
            bool has_state = g.chance(45);
            if (has_state) {
                st = some(a, a.states, 85, 4);
                e.state.push_back(st);
            }
            bool state_known = am::well_formed(st) && a.states.file(st);
            bool other = state_known && a.states.m[am::norm(st)].alg != STORE && a.states.m[am::norm(st)].alg != alg;
            bool ok = (alg == VICTINI || alg == SHARINGAN) && !bad_archive && !malformed && (e.piggyback || (has_archive && has_dest)) && !(has_archive && has_dest && !a.files.can_insert(dest));
            if (!d.empty() && has_state && (!has_archive || !state_known || other)) ok = false;
            if (!d.empty() && alg == SHARINGAN && !is_png(d)) ok = false;
            std::vector<Parts> parts;
            for (size_t i = 0; i + 1 < e.dest.size(); i++) g.note("(first %s) ", am::show(e.dest[i]).c_str());
            auto what = fmt("encode %s %zuB alg %llu%s%s%s%s", has_dest ? am::show(dest).c_str() : "-", d.size(), (u64) alg, has_state ? " state " : "", !has_state ? "" : am::show(st).c_str(),
                            e.piggyback ? " back" : "", has_archive ? "" : " without archive");
            if (!attempt(ok, what, [&] { parts = x.encode(g, e, d); }, d.empty() && other)) return;
            if (e.piggyback) {
                uint64_t bs = alg == VICTINI ? 0x400000 : ~0ull, off = 0;
                for (auto &p: parts) {
                    uint64_t n = std::min<uint64_t>(bs, d.size() - off);
                    Loose l{p, Bytes(d.begin() + (long) off, d.begin() + (long) (off + n)), alg};
                    check_parts(l, a, st);
                    if (d.size() < 100000 || loose.empty()) loose.push_back(l);
                    off += n;
                }
                CHECK(off == d.size(), "the blobs sent back cover %llu of %zu bytes", (u64) off, d.size());
            }
            if (!has_archive || !has_dest) return;
            File f;
            f.data = d;
            f.alg = alg;
            f.parts = parts;
            f.by = serial * 100 + at;
            if (state_known && a.states.m[am::norm(st)].alg == alg) {
                f.state = am::norm(st);
                for (auto &p: parts) f.sure |= p.alg == alg;
                if (!e.piggyback && d.empty()) f.state.clear();
                if (e.piggyback && !f.sure) f.state.clear();
            }
            a.files.put(dest, f);
            stored = true;
            g.label(alg == SHARINGAN ? "image" : f.state.empty() ? "encoded" : "encoded with a named state");
        }

        void check_parts(const Loose &l, const Arch &a, const std::string &st) {
            if (l.p.data.size() < l.want.size()) {
                CHECK(l.p.alg == l.alg, "a blob compressed with %llu is announced as %llu", (u64) l.alg, (u64) l.p.alg);
                if (!st.empty() && a.states.m.at(am::norm(st)).alg == l.alg)
                    CHECK(l.p.state == a.states.m.at(am::norm(st)).data, "a blob encoded with the state %s comes with another state", st.c_str());
            } else CHECK(l.p.alg == STORE && l.p.data == l.want, "data that does not shrink is not sent back as it is");
        }

        void train() {
            auto &x = session();
            auto &a = arch();
            Session::EncodeArgs e;
            auto d = content();
            uint64_t alg = g.chance(90) ? VICTINI : g.pick({0ull, 2ull, 3ull, 7ull, (1ull << 32) + 1, (1ull << 63) + 1});
            if (alg || g.boolean()) e.alg.push_back(alg);
            bool has_archive = g.chance(96), has_name = g.chance(96);
            if (has_archive) e.archive.push_back(spelling(a));
            auto n = some(a, a.states, 45, 5);
            if (has_name) e.state.push_back(n);
            bool known = am::well_formed(n) && a.states.file(n);
            bool usable = known ? a.states.m[am::norm(n)].alg == STORE || a.states.m[am::norm(n)].alg == VICTINI : a.states.can_insert(n);
            bool ok = has_archive && has_name && (alg == VICTINI || (alg == SHARINGAN && d.empty())) && (usable || d.empty());
            bool used = known && users(a, n, false) > 0;
            auto done = attempt(ok, fmt("train %s %zuB alg %llu", has_name ? am::show(n).c_str() : "-", d.size(), (u64) alg), [&] { x.train(g, e, d); }, ok && used && !d.empty());
            if (done && !d.empty()) {
                std::pair<uint64_t, Bytes> r;
                attempt(true, "read the trained state", [&] { r = x.read_state({a.path}, {n}, true); });
                CHECK(r.first == VICTINI && !r.second.empty(), "the state trained is of algorithm %llu, %zu bytes", (u64) r.first, r.second.size());
                if (known) {
                    CHECK(d.size() < 2 || r.second != a.states.m[am::norm(n)].data, "training on %zu bytes changed nothing", d.size());
                    CHECK(users(a, n, true) == 0, "a state which a file needs was replaced");
                    for (auto &f: a.files.m) if (f.second.state == am::norm(n)) f.second.state.clear();
                    a.states.m[am::norm(n)] = {r.first, r.second};
                } else a.states.put(n, {r.first, r.second});
                g.label(known ? "trained again" : "trained");
            }
        }

        void decode() {
            auto &x = session();
            auto &a = arch();
            auto src = some(a, a.files, 92, 30);
            bool has_archive = g.chance(97), has_src = g.chance(97), back = g.chance(97);
            bool known = am::well_formed(src) && a.files.file(src);
            bool ok = has_archive && has_src && back && known;
            bool image = ok && a.files.m[am::norm(src)].alg == SHARINGAN;
            Bytes r;
            std::vector<std::string> av, sv;
            if (has_archive) {
                if (g.chance(5)) av.push_back(spelling(arch()));
                av.push_back(spelling(a));
            }
            if (has_src) {
                if (g.chance(5)) sv.push_back(some(a, a.files, 50));
                sv.push_back(src);
            }
            if (!attempt(ok, "decode " + am::show(src), [&] { r = x.decode(g, av, sv, back); }, image)) {
                if (image) g.label("known finding: sharingan blobs cannot be decoded");
                return;
            }
            auto &f = a.files.m[am::norm(src)];
            same(r, f.data, src);
            if (f.by != serial * 100 + at) cross = true;
        }

        static void same(const Bytes &r, const Bytes &want, const std::string &of) {
            CHECK(r.size() == want.size(), "%s comes back as %zu bytes, not %zu", am::show(of).c_str(), r.size(), want.size());
            if (r != want) {
                size_t i = 0;
                while (r[i] == want[i]) i++;
                fail("%s comes back with another byte at %zu", am::show(of).c_str(), i);
            }
        }

        void decode_blob() {
            if (loose.empty()) return;
            auto &x = session();
            auto &l = loose[g.below(loose.size())];
            std::string ap, st;
            bool ok = true;
            if (g.chance(25)) {
                auto &a = arch();
                ap = spelling(a);
                st = some(a, a.states, 90);
                bool known = am::well_formed(st) && a.states.file(st);
                bool compressed = l.p.data.size() < l.want.size();
                if (!known) ok = !compressed;
                else if (compressed) {
                    auto &m = a.states.m[am::norm(st)];
                    if (m.alg != l.p.alg) ok = false;
                    else if (m.data != l.p.state) st.clear(); // (decodes to something else)
                } else st.clear();
                if (compressed && !st.empty()) g.label(ok ? "blob decoded with a state by name" : "blob with an unsuitable state");
                else st.clear();
            }
            if (st.empty()) ok = true;
            Bytes r;
            bool image = l.p.alg == SHARINGAN;
            if (!attempt(ok, fmt("decode a blob of %zuB%s", l.want.size(), st.empty() ? "" : (" by " + am::show(st)).c_str()), [&] { r = x.decode_blob(g, l.p, l.want.size(), ap, st); }, image)) return;
            same(r, l.want, "the blob");
            if (l.p.data.size() < l.want.size()) g.label("compressed blob decoded from its parts");
        }

        void write_state() {
            auto &x = session();
            auto &a = arch();
            auto n = some(a, a.states, 15, 8);
            bool has_archive = g.chance(97), has_name = g.chance(97);
            State st;
            std::vector<std::string> from;
            for (auto &y: archives) for (auto &e: y.states.m) if (e.second.alg == VICTINI) from.push_back(y.path + "\n" + e.first);
            auto kind = g.weighted({40, 30, 30});
            if (kind == 0 && !from.empty()) {
                auto f = g.pick(from);
                auto k = f.find('\n');
                for (auto &y: archives) if (y.path == f.substr(0, k) && y.states.file(f.substr(k + 1))) st = y.states.m[f.substr(k + 1)];
            } else if (kind == 1) {
                st.alg = STORE;
                st.data = am::gen_bytes(g, 500);
            } else {
                st.alg = g.pick({(uint64_t) 7, (uint64_t) 3, (uint64_t) 0xff, (uint64_t) 0x100000001, ~(uint64_t) 0, (uint64_t) 1 << 32}); // no such algorithm (yet)
                st.data = am::gen_bytes(g, 20000);
            }
            std::vector<std::string> av, nv;
            if (has_archive) av.push_back(spelling(a));
            if (has_name) nv.push_back(n);
            bool ok = has_archive && has_name && a.states.can_insert(n);
            if (attempt(ok, fmt("write state %s alg %llu %zuB", am::show(n).c_str(), (u64) st.alg, st.data.size()), [&] { x.write_state(av, nv, st.alg, st.data); })) a.states.put(n, st);
        }

        void read_state() {
            auto &x = session();
            auto &a = arch();
            auto n = some(a, a.states, 88, 20);
            bool has_archive = g.chance(97), has_name = g.chance(97), back = g.chance(97);
            std::vector<std::string> av, nv;
            if (has_archive) av.push_back(spelling(a));
            if (has_name) nv.push_back(n);
            std::pair<uint64_t, Bytes> r;
            bool ok = has_archive && has_name && back && am::well_formed(n) && a.states.file(n);
            // (Reading does not insist on the form of a name.)
            bool odd = has_archive && has_name && back && !am::well_formed(n) && a.states.file(n);
            if (attempt(ok, "read state " + am::show(n), [&] { r = x.read_state(av, nv, back); }, odd)) {
                auto &m = a.states.m[am::norm(n)];
                CHECK(r.first == m.alg, "the state %s is of algorithm %llu, not %llu", n.c_str(), (u64) r.first, (u64) m.alg);
                same(r.second, m.data, n);
            }
        }

        void query() {
            auto &x = session();
            auto &a = arch();
            bool st = g.chance(35), back = g.chance(97), has_archive = g.chance(97), has_target = g.chance(97);
            auto raw = st ? some(a, a.states, 50, 8) : some(a, a.files, 50, 8);
            if (g.chance(25) && a.prefix.empty()) raw = "/";
            std::vector<std::string> av, tv;
            if (has_archive) av.push_back(spelling(a));
            if (has_target) {
                if (g.chance(5)) tv.push_back("/x");
                tv.push_back(raw);
            }
            bool ok = back && has_archive && has_target && am::well_formed(raw);
            bool ex = ok && (st ? a.states.exists(raw) : a.files.exists(raw));
            if (!st && g.chance(40)) {
                bool r = false;
                if (attempt(ok, "exists " + am::show(raw), [&] { r = x.file_exists(av, tv, back); }) && am::norm(raw) != "/")
                    CHECK(r == ex, "%s is said %s exist", am::show(raw).c_str(), r ? "to" : "not to");
                return;
            }
            std::map<std::string, bool> r;
            if (attempt(ok && ex, "list " + am::show(raw), [&] { r = x.list(st, av, tv, back); })) {
                auto want = st ? a.states.list(raw) : a.files.list(raw);
                for (auto &w: want) {
                    CHECK(r.count(w.first), "the listing of %s lacks %s", am::show(raw).c_str(), am::show(w.first).c_str());
                    CHECK(r[w.first] == w.second, "the listing of %s has %s as a %s", am::show(raw).c_str(), am::show(w.first).c_str(), w.second ? "directory" : "leaf");
                }
                for (auto &y: r) CHECK(want.count(y.first), "the listing of %s has %s, which does not exist", am::show(raw).c_str(), am::show(y.first).c_str());
            }
        }

        void remove() {
            auto &x = session();
            auto &a = arch();
            bool st = g.chance(40), has_archive = g.chance(97), has_target = g.chance(97);
            auto n = st ? some(a, a.states, 88, 10) : some(a, a.files, 88, 10);
            if (st && g.chance(40))
                for (auto &f: a.files.m) if (!f.second.state.empty()) n = f.second.state;
            std::vector<std::string> av, tv;
            if (has_archive) av.push_back(spelling(a));
            if (has_target) tv.push_back(n);
            bool known = am::well_formed(n) && (st ? a.states.file(n) : a.files.file(n));
            bool ok = has_archive && has_target && known;
            bool unsure = ok && st && users(a, n, false) > 0 && users(a, n, true) == 0;
            if (ok && st && users(a, n, true) > 0) {
                ok = false;
                g.label("removal of a state in use");
            }
            if (!attempt(ok, fmt("remove %s %s", st ? "state" : "file", am::show(n).c_str()), [&] { x.remove(st, av, tv); }, unsure)) return;
            if (st) {
                for (auto &f: a.files.m) if (f.second.state == am::norm(n)) f.second.state.clear();
                a.states.del(n);
            } else a.files.del(n);
        }

        void step() {
            switch (g.weighted({34, 12, 14, 7, 7, 5, 10, 11, 2, 3, 3})) {
                case 0: encode(); break;
                case 1: train(); break;
                case 2: decode(); break;
                case 3: decode_blob(); break;
                case 4: write_state(); break;
                case 5: read_state(); break;
                case 6: query(); break;
                case 7: remove(); break;
                case 8: {
                    auto &x = session();
                    attempt(true, "memory", [&] { x.mem_usage(); });
                    break;
                }
                case 9: {
                    auto &x = session();
                    attempt(true, "health", [&] { x.health(); });
                    break;
                }
                default: {
                    auto &x = session();
                    attempt(true, "close", [&] { x.close_session(); });
                    at = 0;
                    serial++;
                }
            }
        }

        // Everything once more through the API.
        void all() {
            for (auto &a: archives) {
                for (bool st: {false, true}) {
                    auto dirs = st ? a.states.dirs() : a.files.dirs();
                    unsigned left = 12;
                    for (auto &d: dirs) {
                        if (d.size() <= a.prefix.size() || left == 0) continue;
                        left--;
                        auto &x = session();
                        std::map<std::string, bool> r;
                        auto want = st ? a.states.list(d) : a.files.list(d);
                        if (!attempt(true, "list " + am::show(d), [&] { r = x.list(st, {a.path}, {d}, true); })) continue;
                        for (auto &w: want) {
                            CHECK(r.count(w.first), "the listing of %s lacks %s", am::show(d).c_str(), am::show(w.first).c_str());
                            CHECK(r[w.first] == w.second, "the listing of %s has %s as a %s", am::show(d).c_str(), am::show(w.first).c_str(), w.second ? "directory" : "leaf");
                        }
                        for (auto &y: r) CHECK(want.count(y.first), "the listing of %s has %s, which does not exist", am::show(d).c_str(), am::show(y.first).c_str());
                    }
                }
                for (auto &f: a.files.m) {
                    auto &x = session();
                    Bytes r;
                    if (attempt(true, "decode " + am::show(f.first), [&] { r = x.decode(g, {a.path}, {f.first}, true); }, f.second.alg == SHARINGAN)) same(r, f.second.data, f.first);
                    if (f.second.by != serial * 100 + at) cross = true;
                }
                for (auto &t: a.states.m) {
                    auto &x = session();
                    std::pair<uint64_t, Bytes> r;
                    attempt(true, "read state " + am::show(t.first), [&] { r = x.read_state({a.path}, {t.first}, true); });
                    CHECK(r.first == t.second.alg, "the state %s is of algorithm %llu, not %llu", t.first.c_str(), (u64) r.first, (u64) t.second.alg);
                    same(r.second, t.second.data, t.first);
                }
            }
        }

        void close_all() {
            for (auto &x: v) if (x.open()) x.close_session();
            v.clear();
        }
    };

    // The archive opened directly agrees.
    void direct(const std::string &path, const std::vector<const Arch *> &models) {
        if (access(path.c_str(), F_OK) != 0) {
            for (auto *m: models) CHECK(m->files.m.empty() && m->states.m.empty(), "the archive %s was never written", path.c_str());
            return;
        }
        check_reachable(path);
        HZ_Archive a(path);
        a.load();
        std::map<std::string, bool> top, stop;
        for (auto *m: models) {
            for (auto &e: m->files.list("/")) top[e.first] = e.second;
            for (auto &e: m->states.list("/")) stop[e.first] = e.second;
            for (auto &d: m->files.dirs()) if (d.size() > m->prefix.size()) am::same_list(a.list_file_system(d), m->files.list(d), d);
            for (auto &d: m->states.dirs()) if (d.size() > m->prefix.size()) am::same_list(a.list_mstate_system(d), m->states.list(d), d);
            for (auto &f: m->files.m) {
                auto b = a.read_file(f.first);
                uint64_t total = 0;
                for (uint64_t i = 0; i < b.size(); i++) total += b[i].o_size;
                CHECK(total == f.second.data.size(), "%s has original sizes of %llu bytes in all, not %zu", f.first.c_str(), (u64) total, f.second.data.size());
                if (!f.second.parts.empty()) CHECK(b.size() == f.second.parts.size(), "%s has %llu blobs, %zu were sent back", f.first.c_str(), (u64) b.size(), f.second.parts.size());
                for (uint64_t i = 0; i < b.size(); i++) {
                    if (f.second.parts.empty()) break;
                    auto &p = f.second.parts[i];
                    CHECK(b[i].size == p.data.size() && am::to_bytes(b[i].data) == p.data && am::to_bytes(b[i].header.raw) == p.header, "blob %llu of %s differs from the one sent back", (u64) i,
                          f.first.c_str());
                    CHECK(b[i].mstate->alg == (hzcodec::algorithms::ALGORITHM) p.alg && am::to_bytes(b[i].mstate->data) == p.state, "the state of blob %llu of %s differs from the one sent back", (u64) i,
                          f.first.c_str());
                }
            }
            for (auto &t: m->states.m) am::same_state(a.read_mstate(t.first), am::MState{t.second.alg, t.second.data}, t.first);
        }
        am::same_list(a.list_file_system("/"), top, "/");
        am::same_list(a.list_mstate_system("/"), stop, "/ (states)");
        a.close();
    }

    Options options(G &g, unsigned max_instances) {
        Options o;
        o.instances = (unsigned) g.range(1, max_instances);
        o.threads = (unsigned) g.range(1, 3);
        o.password = g.pick({std::string("hybridzip"), std::string("x"), std::string("some other password")});
        return o;
    }

    std::vector<Arch> make_archives(G &g, unsigned n) {
        static unsigned made = 0;
        std::vector<Arch> v(n);
        for (auto &a: v) {
            a.path = scratch() + fmt("/a%u.hz", made++);
            unlink(a.path.c_str());
        }
        return v;
    }
}

#endif
