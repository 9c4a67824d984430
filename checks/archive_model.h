// Reference model of an archive and a generator of operation histories, shared by C12-C17.
#ifndef ARCHIVE_MODEL_H
#define ARCHIVE_MODEL_H

#include <pbt/sched.h>
#include <hzip_storage/archive/archive.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <memory>

namespace am {
    using namespace pbt;
    using Bytes = std::vector<uint8_t>;

    struct MState {
        uint64_t alg = 0;
        Bytes data;
        bool named = false;
        uint64_t deps = 0;
    };

    struct MBlob {
        Bytes header, data;
        uint64_t o_size = 0, state = 0;
    };

    inline std::string norm(const std::string &p) { // components joined with '/'
        std::string r, t;
        std::stringstream ss(p);
        while (std::getline(ss, t, '/')) if (!t.empty()) r += "/" + t;
        return r.empty() ? "/" : r;
    }

    inline bool well_formed(const std::string &p) {
        if (p.empty() || p[0] != '/') return false;
        for (size_t i = 0; i < p.size(); i++) {
            if (p[i] == 0 || p[i] == '\\' || p[i] == ' ') return false;
            if (i && p[i] == '/' && p[i - 1] == '/') return false;
        }
        return true;
    }

    inline std::string show(const std::string &p) {
        std::string r;
        for (unsigned char c: p) {
            if (c < 33 || c > 126 || c == '"') r += fmt("\\x%02x", c);
            else r += (char) c;
        }
        if (r.size() > 60) r = r.substr(0, 57) + "...";
        return "\"" + r + "\"";
    }

    inline Bytes to_bytes(const rainman::ptr<uint8_t> &p) { return Bytes(p.begin(), p.begin() + p.size()); }

    inline rainman::ptr<uint8_t> from_bytes(const Bytes &b) {
        rainman::ptr<uint8_t> p(b.size());
        for (size_t i = 0; i < b.size(); i++) p[i] = b[i];
        return p;
    }

    // A namespace: normalised path -> something, with directory semantics.
    template<typename T>
    struct Names {
        std::map<std::string, T> m;
        std::map<std::string, std::string> raw; // spelling under which it was stored

        bool file(const std::string &p) const { return m.count(norm(p)); }

        bool dir(const std::string &p) const {
            std::string q = norm(p);
            if (q == "/") return true;
            q += "/";
            auto it = m.lower_bound(q);
            return it != m.end() && it->first.compare(0, q.size(), q) == 0;
        }

        bool exists(const std::string &p) const { return file(p) || dir(p); }

        bool under_file(const std::string &p) const {
            std::string q = norm(p);
            for (size_t i = 1; i < q.size(); i++) if (q[i] == '/' && m.count(q.substr(0, i))) return true;
            return false;
        }

        bool can_insert(const std::string &p) const { return well_formed(p) && !exists(p) && !under_file(p); }

        void put(const std::string &p, const T &v) {
            m[norm(p)] = v;
            raw[norm(p)] = p;
        }

        void del(const std::string &p) {
            m.erase(norm(p));
            raw.erase(norm(p));
        }

        // name -> is file
        std::map<std::string, bool> list(const std::string &p) const {
            std::map<std::string, bool> r;
            std::string q = norm(p);
            if (q != "/") q += "/";
            for (auto &e: m) {
                if (e.first.compare(0, q.size(), q) != 0) continue;
                std::string rest = e.first.substr(q.size());
                auto s = rest.find('/');
                if (s == std::string::npos) r[rest] = true;
                else r[rest.substr(0, s)] = false;
            }
            return r;
        }

        std::vector<std::string> dirs() const {
            std::set<std::string> d;
            for (auto &e: m) for (size_t i = 1; i < e.first.size(); i++) if (e.first[i] == '/') d.insert(e.first.substr(0, i));
            return {d.begin(), d.end()};
        }
    };

    struct Model {
        Names<std::vector<uint64_t>> files; // path -> blob ids
        Names<uint64_t> named; // path -> state id
        std::map<uint64_t, MBlob> blobs; // stored, by id
        std::map<uint64_t, MState> states; // stored, by id

        void add_blob(uint64_t id, const MBlob &b) {
            blobs[id] = b;
            states.at(b.state).deps++;
        }

        void drop_blob(uint64_t id) {
            auto s = blobs.at(id).state;
            blobs.erase(id);
            auto &st = states.at(s);
            if (--st.deps == 0 && !st.named) states.erase(s);
        }
    };

    // ---- comparing ------------------------------------------------------------------------------------
    inline void same_bytes(const rainman::ptr<uint8_t> &got, uint64_t n, const Bytes &want, const char *what, const std::string &of) {
        CHECK(n == want.size(), "%s of %s has %llu bytes, expected %zu", what, of.c_str(), (unsigned long long) n, want.size());
        CHECK(got.size() >= n, "%s of %s: buffer shorter than its size", what, of.c_str());
        for (uint64_t i = 0; i < n; i++)
            CHECK(got[i] == want[i], "%s of %s differs at byte %llu: %02x, stored %02x", what, of.c_str(), (unsigned long long) i, got[i], want[i]);
    }

    inline void same_state(const rainman::ptr<HZ_MState> &got, const MState &want, const std::string &of) {
        CHECK((uint64_t) got->alg == want.alg, "algorithm of the state of %s is %llu, expected %llu", of.c_str(), (unsigned long long) got->alg, (unsigned long long) want.alg);
        same_bytes(got->data, got->data.size(), want.data, "state data", of);
    }

    inline void same_blob(const HZ_Blob &got, const MBlob &want, const Model &m, const std::string &of) {
        same_bytes(got.data, got.size, want.data, "data", of);
        same_bytes(got.header.raw, got.header.size(), want.header, "header", of);
        CHECK(got.o_size == want.o_size, "original size of %s is %llu, expected %llu", of.c_str(), (unsigned long long) got.o_size, (unsigned long long) want.o_size);
        CHECK(got.mstate_id == want.state, "state id of %s changed", of.c_str());
        same_state(got.mstate, m.states.at(want.state), of);
    }

    inline void same_list(const std::vector<HZ_ArchiveTrieListElement> &got, const std::map<std::string, bool> &want, const std::string &of) {
        std::map<std::string, bool> g;
        for (auto &e: got) {
            CHECK(!g.count(e.entry), "listing of %s names %s twice", of.c_str(), show(e.entry).c_str());
            g[e.entry] = e.is_leaf;
        }
        for (auto &w: want) {
            CHECK(g.count(w.first), "listing of %s lacks %s", of.c_str(), show(w.first).c_str());
            CHECK(g[w.first] == w.second, "listing of %s reports %s as a %s", of.c_str(), show(w.first).c_str(), w.second ? "directory" : "file");
        }
        for (auto &e: g) CHECK(want.count(e.first), "listing of %s has %s, which does not exist", of.c_str(), show(e.first).c_str());
    }

    // Everything the archive reports agrees with the model.
    inline void compare_all(HZ_Archive &a, const Model &m, const std::vector<std::string> &probes = {}) {
        for (auto &f: m.files.m) {
            CHECK(a.check_file_exists(f.first), "%s does not exist any more", show(f.first).c_str());
            auto e = a.read_file_entry(f.first);
            CHECK(e.blob_ids.size() == f.second.size(), "%s has %llu blobs, expected %zu", show(f.first).c_str(), (unsigned long long) e.blob_ids.size(), f.second.size());
            for (size_t i = 0; i < f.second.size(); i++) CHECK(e.blob_ids[i] == f.second[i], "blob %zu of %s is another one", i, show(f.first).c_str());
            auto b = a.read_file(f.first);
            CHECK(b.size() == f.second.size(), "reading %s gives %llu blobs, expected %zu", show(f.first).c_str(), (unsigned long long) b.size(), f.second.size());
            for (size_t i = 0; i < f.second.size(); i++) same_blob(b[i], m.blobs.at(f.second[i]), m, show(f.first) + fmt(" blob %zu", i));
        }
        for (auto &b: m.blobs) {
            auto g = a.read_blob(b.first);
            same_blob(*g, b.second, m, fmt("blob %llx", (unsigned long long) b.first));
        }
        for (auto &s: m.named.m) {
            CHECK(a.check_mstate_exists(s.first), "state %s does not exist any more", show(s.first).c_str());
            same_state(a.read_mstate(s.first), m.states.at(s.second), show(s.first));
        }
        same_list(a.list_file_system("/"), m.files.list("/"), "/");
        same_list(a.list_mstate_system("/"), m.named.list("/"), "/ (states)");
        for (auto &d: m.files.dirs()) {
            CHECK(a.check_file_exists(d), "directory %s does not exist", show(d).c_str());
            same_list(a.list_file_system(d), m.files.list(d), d);
        }
        for (auto &d: m.named.dirs()) same_list(a.list_mstate_system(d), m.named.list(d), d + " (states)");
        for (auto &p: probes) {
            if (!well_formed(p) || norm(p) == "/") continue;
            CHECK(a.check_file_exists(p) == m.files.exists(p), "check_file_exists(%s) is %d", show(p).c_str(), !m.files.exists(p));
            CHECK(a.check_mstate_exists(p) == m.named.exists(p), "check_mstate_exists(%s) is %d", show(p).c_str(), !m.named.exists(p));
        }
    }

    // ---- the file on disk -------------------------------------------------------------------------------
    struct BitReader {
        Bytes b;
        uint64_t pos = 0;

        uint64_t read(unsigned n) {
            CHECK(pos + n <= b.size() * 8, "archive file: a record runs past the end of the file (bit %llu of %zu)", (unsigned long long) pos, b.size() * 8);
            uint64_t v = 0;
            for (unsigned i = 0; i < n; i++, pos++) v = v << 1 | (b[pos >> 3] >> (7 - (pos & 7)) & 1);
            return v;
        }

        Bytes bytes(uint64_t n) {
            CHECK(n <= b.size(), "archive file: a length field says %llu bytes", (unsigned long long) n);
            Bytes r(n);
            for (auto &x: r) x = (uint8_t) read(8);
            return r;
        }
    };

    inline Bytes slurp(const std::string &p) {
        std::ifstream f(p, std::ios::binary);
        return Bytes(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
    }

    // Parses the file independently, checks that it is well formed and holds exactly the model. Returns the
    // end-of-records position in bits.
    inline uint64_t check_disk(const std::string &path, const Model &m) {
        BitReader r{slurp(path)};
        std::set<uint64_t> blobs, states;
        std::set<std::string> files, named;
        bool first = true;
        uint64_t end;
        while (true) {
            uint64_t at = r.pos, marker = r.read(8);
            if (marker == 0xff) {
                end = at;
                break;
            }
            uint64_t len = r.read(64), body = r.pos;
            CHECK(len <= r.b.size() * 8 - body, "archive file: record at bit %llu has length %llu, past the end of the file", (unsigned long long) at, (unsigned long long) len);
            CHECK(!first || marker == 1, "archive file does not start with the version record");
            if (marker == 0) {
            } else if (marker == 1) {
                uint64_t type = r.read(8);
                CHECK(first == (type == 0), "archive file: version record missing at the start or repeated at bit %llu", (unsigned long long) at);
                if (type == 0) {
                    CHECK(r.read(24) == 0x000100, "archive file: wrong version");
                } else {
                    auto pb = r.bytes(r.read(64));
                    std::string p(pb.begin(), pb.end());
                    if (type == 1) {
                        CHECK(m.files.file(p), "archive file: entry for %s, which was removed or never stored", show(p).c_str());
                        CHECK(files.insert(norm(p)).second, "archive file: two entries for %s", show(p).c_str());
                        CHECK(m.files.raw.at(norm(p)) == p, "archive file: %s is recorded as %s", show(m.files.raw.at(norm(p))).c_str(), show(p).c_str());
                        auto &ids = m.files.m.at(norm(p));
                        CHECK(r.read(58) == ids.size(), "archive file: wrong blob count for %s", show(p).c_str());
                        for (auto id: ids) CHECK(r.read(64) == id, "archive file: wrong blob id for %s", show(p).c_str());
                    } else {
                        CHECK(type == 2, "archive file: unknown metadata type %llu", (unsigned long long) type);
                        CHECK(m.named.file(p), "archive file: state name %s, which was uninstalled or never installed", show(p).c_str());
                        CHECK(named.insert(norm(p)).second, "archive file: two state entries for %s", show(p).c_str());
                        CHECK(r.read(64) == m.named.m.at(norm(p)), "archive file: %s names another state", show(p).c_str());
                    }
                }
                CHECK(r.pos == body + len, "archive file: metadata record at bit %llu has length %llu but uses %llu bits", (unsigned long long) at,
                      (unsigned long long) len, (unsigned long long) (r.pos - body));
            } else if (marker == 2) {
                uint64_t id = r.read(64);
                CHECK(m.blobs.count(id), "archive file: a blob record that should be reusable space (bit %llu)", (unsigned long long) at);
                CHECK(blobs.insert(id).second, "archive file: two records for one blob");
                auto &b = m.blobs.at(id);
                CHECK(r.bytes(r.read(64)) == b.header, "archive file: blob header differs");
                CHECK(r.read(64) == b.o_size, "archive file: blob original size differs");
                CHECK(r.read(64) == b.state, "archive file: blob state id differs");
                CHECK(r.bytes(r.read(64)) == b.data, "archive file: blob data differs");
                CHECK(r.pos == body + len, "archive file: blob record length wrong");
            } else if (marker == 3) {
                uint64_t id = r.read(64);
                CHECK(m.states.count(id), "archive file: an algorithm state record that should be reusable space (bit %llu)", (unsigned long long) at);
                CHECK(states.insert(id).second, "archive file: two records for one state");
                auto &s = m.states.at(id);
                CHECK(r.read(64) == s.alg, "archive file: state algorithm differs");
                CHECK(r.bytes(r.read(64)) == s.data, "archive file: state data differs");
                CHECK(r.pos == body + len, "archive file: state record length wrong");
            } else fail("archive file: unknown marker %llu at bit %llu", (unsigned long long) marker, (unsigned long long) at);
            r.pos = body + len;
            first = false;
        }
        for (auto &f: m.files.m) CHECK(files.count(f.first), "archive file: no entry for %s", show(f.first).c_str());
        for (auto &f: m.named.m) CHECK(named.count(f.first), "archive file: no state entry for %s", show(f.first).c_str());
        for (auto &f: m.blobs) CHECK(blobs.count(f.first), "archive file: a stored blob has no record");
        for (auto &f: m.states) CHECK(states.count(f.first), "archive file: a stored state has no record");
        return end;
    }

    // ---- generating ---------------------------------------------------------------------------------------
    inline std::string gen_path(G &g, unsigned malformed_pct = 0) {
        std::string p;
        static const char *comp[] = {"a", "b", "c", "d", "ab", "A", "a.b", ".", "..", "x-1_", "\xc3\xa9", "0"};
        unsigned depth = g.chance(3) ? (unsigned) g.range(5, 40) : 1 + (unsigned) g.weighted({5, 4, 2, 1});
        for (unsigned i = 0; i < depth; i++) {
            p += "/";
            if (g.chance(depth > 4 ? 1 : 3)) p += std::string(g.chance(6) ? g.range(300, 5000) : g.range(20, 300), 'L');
            else p += comp[g.chance(75) ? g.below(3) : g.below(12)];
        }
        if (g.chance(4)) p += "/";
        if (g.chance(malformed_pct)) {
            switch (g.below(7)) {
                case 0: return "";
                case 1: return p.substr(1);
                case 2: return p + " ";
                case 3: return p + "\\x";
                case 4: return p + std::string(1, '\0') + "x";
                case 5: return "/" + p;
                default: return p + "//z";
            }
        }
        return p;
    }

    inline Bytes gen_bytes(G &g, unsigned scale) {
        uint64_t n;
        switch (g.weighted({6, 3, 1})) {
            case 0: n = g.below(24); break;
            case 1: n = 9 * g.below(12) + g.below(3); break;
            default: n = g.size(0, scale); break;
        }
        auto r = g.sub();
        Bytes b(n);
        for (auto &x: b) x = (uint8_t) r.next();
        return b;
    }

    struct Weights {
        unsigned create = 10, create_entry = 2, write_blob = 3, remove = 7, read = 4, install = 3, install_id = 2, uninstall = 3, uninstall_id = 1,
                inject = 3, inject_named = 2, probe = 2, reopen = 0, bad = 3;
        unsigned invalid_pct = 8; // invalid arguments among ordinary operations
        unsigned scale = 600;
        bool compare_each = false;
        bool compare_after_refusal = false;
    };

    class Driver {
    public:
        G &g;
        Weights w;
        Model m;
        std::string path;
        std::unique_ptr<HZ_Archive> a;
        std::vector<rainman::ptr<HZ_Blob>> prepared; // blobs with a state id, possibly stale
        std::vector<uint64_t> loose; // stored, in no file
        std::vector<std::string> seen;
        std::set<uint64_t> dead_ids;
        unsigned refusals = 0, reuse = 0, reopens = 0, removed = 0, stored_after_remove = 0, refused_uninstall = 0, dep_refused = 0;

        Driver(G &g, const Weights &w, const std::string &name = "t.hz") : g(g), w(w) {
            path = scratch() + "/" + name;
            ::unlink(path.c_str());
        }

        void open() {
            a = std::make_unique<HZ_Archive>(path);
            a->load();
        }

        void close() {
            a->close();
            a.reset();
        }

        // f must succeed exactly if ok; what describes the operation.
        template<typename F>
        bool attempt(bool ok, const std::string &what, F f) {
            g.note("%s%s; ", what.c_str(), ok ? "" : "!");
            bool threw = false;
            std::string msg;
            try { f(); }
            catch (Failure &) { throw; }
            catch (std::exception &e) {
                threw = true;
                msg = e.what();
            }
            catch (...) { fail("%s threw something that is not a standard exception", what.c_str()); }
            if (ok) CHECK(!threw, "%s was refused: %s", what.c_str(), msg.c_str());
            else {
                CHECK(threw, "%s was accepted", what.c_str());
                refusals++;
                if (w.compare_after_refusal) compare_all(*a, m, seen);
            }
            return !threw;
        }

        std::string some_path(const std::map<std::string, std::string> &raw, unsigned existing_pct, unsigned malformed_pct = 0) {
            if (!raw.empty() && g.chance(existing_pct)) {
                auto it = raw.begin();
                std::advance(it, g.below(raw.size()));
                if (g.chance(6)) return it->second + (it->second.back() == '/' ? "" : "/"); // other spelling
                return it->second;
            }
            auto p = gen_path(g, malformed_pct);
            if (seen.size() < 40) seen.push_back(p);
            return p;
        }

        std::string odd_path(const std::map<std::string, std::string> &raw) { // prefixes and extensions of existing paths
            auto p = some_path(raw, 100, 0);
            if (g.boolean()) {
                auto q = norm(p);
                auto k = q.rfind('/');
                return k == 0 ? "/" : q.substr(0, k);
            }
            return norm(p) + "/" + g.pick({"k", "a", "b"});
        }

        MState gen_state() {
            MState s;
            s.alg = g.chance(85) ? g.below(3) : g.chance(50) ? 1ull << g.below(64) : g.u64();
            s.data = gen_bytes(g, w.scale);
            return s;
        }

        static rainman::ptr<HZ_MState> real(const MState &s) {
            auto p = rainman::ptr<HZ_MState>();
            p->alg = (hzcodec::algorithms::ALGORITHM) s.alg;
            p->data = from_bytes(s.data);
            return p;
        }

        rainman::ptr<HZ_Blob> gen_blob() {
            auto b = rainman::ptr<HZ_Blob>();
            auto h = gen_bytes(g, 64), d = gen_bytes(g, w.scale);
            b->header.raw = from_bytes(h);
            b->data = from_bytes(d);
            b->size = d.size();
            b->o_size = g.u64();
            b->status = true;
            return b;
        }

        static MBlob model_of(const HZ_Blob &b) {
            MBlob m;
            m.header = to_bytes(b.header.raw);
            m.data = to_bytes(b.data);
            m.o_size = b.o_size;
            m.state = b.mstate_id;
            return m;
        }

        // The new (anonymous) state must have been given a fresh id.
        void new_state(uint64_t id, MState s) {
            CHECK(!m.states.count(id), "a new state was given the id of an existing one");
            m.states[id] = std::move(s);
        }

        // A blob ready to store: mostly with a live state.
        rainman::ptr<HZ_Blob> ready_blob(bool *ok, unsigned stale_pct) {
            *ok = true;
            rainman::ptr<HZ_Blob> b;
            if (!prepared.empty() && g.chance(40)) {
                auto i = g.below(prepared.size());
                b = prepared[i];
                *ok = m.states.count(b->mstate_id);
                if (*ok || g.chance(stale_pct)) return b;
            }
            b = gen_blob();
            if (g.chance(stale_pct)) {
                b->mstate_id = g.boolean() || dead_ids.empty() ? g.u64() : *dead_ids.begin();
                *ok = m.states.count(b->mstate_id);
                return b;
            }
            *ok = true;
            if (!m.named.m.empty() && g.chance(35)) {
                auto it = m.named.m.begin();
                std::advance(it, g.below(m.named.m.size()));
                attempt(true, "inject " + show(it->first), [&] { a->inject_mstate(it->first, b); });
                CHECK(b->mstate_id == it->second, "injecting %s gave another state", show(it->first).c_str());
                same_state(b->mstate, m.states.at(it->second), show(it->first));
            } else if (!m.states.empty() && g.chance(30)) { // share a state by id
                auto it = m.states.begin();
                std::advance(it, g.below(m.states.size()));
                b->mstate_id = it->first;
                b->mstate = real(it->second);
            } else {
                auto s = gen_state();
                g.note("inject %zuB; ", s.data.size());
                a->inject_mstate(real(s), b);
                new_state(b->mstate_id, s);
            }
            if (prepared.size() < 6) prepared.push_back(b);
            return b;
        }

        void remember_dead() {
            // ids of states that existed and do not any more
            for (auto &p: prepared) if (!m.states.count(p->mstate_id)) dead_ids.insert(p->mstate_id);
        }

        void op_create(unsigned bad_pct) {
            bool odd = !m.files.m.empty() && g.chance(bad_pct);
            std::string p = odd ? (g.boolean() ? odd_path(m.files.raw) : some_path(m.files.raw, 100)) : some_path(m.files.raw, bad_pct, bad_pct / 3);
            unsigned n = (unsigned) g.weighted({5, 2, 2, 1, 1});
            n = n == 0 ? 1 : n == 4 ? 0 : n;
            rainman::ptr<HZ_Blob> arr((uint64_t) n);
            bool ok = m.files.can_insert(p);
            std::string d;
            for (unsigned i = 0; i < n; i++) {
                bool bok;
                auto b = ready_blob(&bok, bad_pct);
                arr[i] = *b;
                ok &= bok;
                d += fmt("%s%zu+%zuB%s", i ? "," : "", to_bytes(b->header.raw).size(), to_bytes(b->data).size(), bok ? "" : "?");
            }
            // A blob prepared earlier may have lost its state since.
            for (unsigned i = 0; i < n; i++) ok &= m.states.count(arr[i].mstate_id) > 0;
            if (attempt(ok, "create " + show(p) + "[" + d + "]", [&] { a->create_file(p, arr, n); })) {
                auto e = a->read_file_entry(p);
                CHECK(e.blob_ids.size() == n, "%s has %llu blobs, stored %u", show(p).c_str(), (unsigned long long) e.blob_ids.size(), n);
                std::vector<uint64_t> ids;
                for (unsigned i = 0; i < n; i++) {
                    CHECK(!m.blobs.count(e.blob_ids[i]), "a new blob was given the id of an existing one");
                    ids.push_back(e.blob_ids[i]);
                    m.add_blob(e.blob_ids[i], model_of(arr[i]));
                }
                m.files.put(p, ids);
                if (removed) stored_after_remove++;
            }
        }

        void op_write_blob(unsigned bad_pct) {
            bool ok;
            auto b = ready_blob(&ok, bad_pct);
            uint64_t id = 0;
            if (attempt(ok, fmt("write_blob %zuB", to_bytes(b->data).size()), [&] { id = a->write_blob(b); })) {
                CHECK(!m.blobs.count(id), "a new blob was given the id of an existing one");
                m.add_blob(id, model_of(*b));
                loose.push_back(id);
            }
        }

        void op_create_entry(unsigned bad_pct) {
            std::string p = some_path(m.files.raw, bad_pct, bad_pct / 2);
            unsigned n = (unsigned) g.below(std::min<size_t>(loose.size(), 3) + 1);
            rainman::ptr<uint64_t> ids((uint64_t) n);
            std::vector<uint64_t> v(loose.end() - n, loose.end());
            for (unsigned i = 0; i < n; i++) ids[i] = v[i];
            if (attempt(m.files.can_insert(p), "create_entry " + show(p) + fmt("[%u]", n), [&] { a->create_file_entry(p, HZ_ArchiveFile(ids)); })) {
                loose.resize(loose.size() - n);
                m.files.put(p, v);
            }
        }

        void op_remove(unsigned bad_pct) {
            bool odd = !m.files.m.empty() && g.chance(bad_pct);
            std::string p = odd ? odd_path(m.files.raw) : some_path(m.files.raw, 100 - bad_pct, bad_pct);
            bool ok = well_formed(p) && m.files.file(p);
            if (!ok && !g.chance(bad_pct * 3 + 5)) return;
            if (attempt(ok, "remove " + show(p), [&] { a->remove_file(p); })) {
                for (auto id: m.files.m.at(norm(p))) m.drop_blob(id);
                m.files.del(p);
                removed++;
                CHECK(m.files.exists(p) == a->check_file_exists(p), "%s still exists after it was removed", show(p).c_str());
                remember_dead();
            }
        }

        void op_read(unsigned bad_pct) {
            if (!m.blobs.empty() && g.chance(30)) {
                auto it = m.blobs.begin();
                std::advance(it, g.below(m.blobs.size()));
                bool ok = !g.chance(bad_pct);
                uint64_t id = ok ? it->first : g.u64();
                ok = m.blobs.count(id);
                rainman::ptr<HZ_Blob> b;
                if (attempt(ok, "read_blob", [&] { b = a->read_blob(id); })) same_blob(*b, m.blobs.at(id), m, "a blob");
                return;
            }
            bool odd = !m.files.m.empty() && g.chance(bad_pct);
            std::string p = odd ? odd_path(m.files.raw) : some_path(m.files.raw, 100 - bad_pct, bad_pct);
            bool ok = well_formed(p) && m.files.file(p);
            if (g.chance(30)) {
                HZ_ArchiveFile f;
                if (!well_formed(p)) return;
                if (attempt(ok, "read_entry " + show(p), [&] { f = a->read_file_entry(p); }))
                    CHECK(f.blob_ids.size() == m.files.m.at(norm(p)).size(), "%s: wrong number of blobs", show(p).c_str());
                return;
            }
            rainman::ptr<HZ_Blob> b;
            if (attempt(ok, "read " + show(p), [&] { b = a->read_file(p); })) {
                auto &ids = m.files.m.at(norm(p));
                CHECK(b.size() == ids.size(), "reading %s gives %llu blobs, expected %zu", show(p).c_str(), (unsigned long long) b.size(), ids.size());
                for (size_t i = 0; i < ids.size(); i++) same_blob(b[i], m.blobs.at(ids[i]), m, show(p));
            }
        }

        void op_install(unsigned bad_pct) {
            bool odd = !m.named.m.empty() && g.chance(bad_pct);
            std::string p = odd ? (g.boolean() ? odd_path(m.named.raw) : some_path(m.named.raw, 100)) : some_path(m.named.raw, bad_pct, bad_pct / 2);
            auto s = gen_state();
            bool ok = m.named.can_insert(p);
            if (attempt(ok, "install " + show(p) + fmt(" %zuB", s.data.size()), [&] { a->install_mstate(p, real(s)); })) {
                // learn the id the archive chose
                auto b = rainman::ptr<HZ_Blob>();
                a->inject_mstate(p, b);
                s.named = true;
                new_state(b->mstate_id, s);
                m.named.put(p, b->mstate_id);
            }
        }

        void op_install_id() {
            auto s = gen_state();
            uint64_t id = 0;
            attempt(true, fmt("install %zuB", s.data.size()), [&] { id = a->install_mstate(real(s)); });
            new_state(id, s);
            if (g.boolean() && prepared.size() < 8) {
                auto b = gen_blob();
                b->mstate_id = id;
                b->mstate = real(s);
                prepared.push_back(b);
            }
        }

        void op_uninstall(unsigned bad_pct) {
            bool odd = !m.named.m.empty() && g.chance(bad_pct);
            std::string p = odd ? odd_path(m.named.raw) : some_path(m.named.raw, 100 - bad_pct, bad_pct);
            bool known = well_formed(p) && m.named.file(p);
            bool ok = known && m.states.at(m.named.m.at(norm(p))).deps == 0;
            if (!known && !g.chance(bad_pct * 3 + 5)) return;
            if (known && !ok) dep_refused++;
            if (attempt(ok, "uninstall " + show(p), [&] { a->uninstall_mstate(p); })) {
                auto id = m.named.m.at(norm(p));
                m.states.erase(id);
                dead_ids.insert(id);
                m.named.del(p);
                CHECK(m.named.exists(p) == a->check_mstate_exists(p), "state %s still exists after it was uninstalled", show(p).c_str());
            } else if (known) {
                CHECK(a->check_mstate_exists(p), "state %s is gone after a refused uninstall", show(p).c_str());
            }
        }

        void op_uninstall_id() {
            std::vector<uint64_t> anon;
            for (auto &s: m.states) if (!s.second.named) anon.push_back(s.first);
            if (anon.empty()) return;
            uint64_t id = anon[g.below(anon.size())];
            bool ok = m.states.at(id).deps == 0;
            if (!ok) dep_refused++;
            if (attempt(ok, "uninstall by id", [&] { a->uninstall_mstate(id); })) {
                m.states.erase(id);
                dead_ids.insert(id);
            }
        }

        void op_inject() {
            auto b = gen_blob();
            auto s = gen_state();
            attempt(true, fmt("inject %zuB", s.data.size()), [&] { a->inject_mstate(real(s), b); });
            new_state(b->mstate_id, s);
            same_state(b->mstate, s, "an injected state");
            if (prepared.size() < 8) prepared.push_back(b);
        }

        void op_inject_named(unsigned bad_pct) {
            bool odd = !m.named.m.empty() && g.chance(bad_pct);
            std::string p = odd ? odd_path(m.named.raw) : some_path(m.named.raw, 100 - bad_pct, bad_pct);
            bool ok = well_formed(p) && m.named.file(p);
            if (!ok && !g.chance(bad_pct * 3 + 5)) return;
            auto b = gen_blob();
            if (attempt(ok, "inject " + show(p), [&] { a->inject_mstate(p, b); })) {
                CHECK(b->mstate_id == m.named.m.at(norm(p)), "injecting %s gave another state", show(p).c_str());
                same_state(b->mstate, m.states.at(b->mstate_id), show(p));
                if (prepared.size() < 8) prepared.push_back(b);
            }
        }

        void op_probe(unsigned bad_pct) {
            switch (g.below(4)) {
                case 0: {
                    auto p = some_path(m.files.raw, 50, 0);
                    CHECK(a->check_file_exists(p) == m.files.exists(p), "check_file_exists(%s) is %d", show(p).c_str(), !m.files.exists(p));
                    break;
                }
                case 1: {
                    auto p = some_path(m.named.raw, 50, 0);
                    CHECK(a->check_mstate_exists(p) == m.named.exists(p), "check_mstate_exists(%s) is %d", show(p).c_str(), !m.named.exists(p));
                    break;
                }
                case 2: {
                    bool st = g.boolean();
                    auto p = some_path(st ? m.named.raw : m.files.raw, 40, 0);
                    bool ex = st ? m.named.exists(p) : m.files.exists(p);
                    if (!ex && !g.chance(bad_pct * 3 + 5)) return;
                    std::vector<HZ_ArchiveTrieListElement> l;
                    if (attempt(ex, "list " + show(p), [&] { l = st ? a->list_mstate_system(p) : a->list_file_system(p); }))
                        same_list(l, st ? m.named.list(p) : m.files.list(p), p);
                    break;
                }
                default: {
                    auto p = some_path(m.named.raw, 70, 0);
                    rainman::ptr<HZ_MState> s;
                    bool ok = m.named.file(p);
                    if (!ok && !g.chance(bad_pct * 3 + 5)) return;
                    if (attempt(ok, "read_mstate " + show(p), [&] { s = a->read_mstate(p); })) same_state(s, m.states.at(m.named.m.at(norm(p))), show(p));
                }
            }
        }

        uint64_t disk() {
            return check_disk(path, m);
        }

        void op_reopen() {
            g.note("reopen; ");
            close();
            disk();
            open();
            reopens++;
            compare_all(*a, m, seen);
        }

        void step() {
            unsigned b = w.invalid_pct;
            switch (g.weighted({w.create, w.create_entry, w.write_blob, w.remove, w.read, w.install, w.install_id, w.uninstall, w.uninstall_id, w.inject,
                                w.inject_named, w.probe, w.reopen})) {
                case 0: op_create(b); break;
                case 1: op_create_entry(b); break;
                case 2: op_write_blob(b); break;
                case 3: op_remove(b); break;
                case 4: op_read(b); break;
                case 5: op_install(b); break;
                case 6: op_install_id(); break;
                case 7: op_uninstall(b); break;
                case 8: op_uninstall_id(); break;
                case 9: op_inject(); break;
                case 10: op_inject_named(b); break;
                case 11: op_probe(b); break;
                default: op_reopen();
            }
            if (w.compare_each) compare_all(*a, m, seen);
        }
    };
}
#endif
