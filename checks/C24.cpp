// C24: malformed and aborted traffic stays without consequences for others.
// BUILD: repo=hzip_network/*,hzip_codec/*,hzip_core/*,hzip_storage/* mode=asan libs=crypto,png,loguru extra=sched,fakecl
#include "api_client.h"
#include <filesystem>

using namespace pbt;
using namespace api;
const char *pbt::property_id = "C24";
const char *pbt::rule = "a server with 3 slots, an archive with two files and two states, a session that stays open, and 1-10 attacks: a valid command cut (closed, reset or stalled) after any number of bytes sent "
                        "or received, a command with one word, length, number, path or payload replaced, random and command-like bytes sent without waiting, unknown words at every level, lengths larger than the "
                        "memory; the open session and new ones work throughout, all slots are free afterwards, the stored data is as before, cut commands have no effect and keep no memory; "
                        "non-trivial: a command was cut or altered after its first option";

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

namespace {
    using u64 = unsigned long long;

    // What an archive holds, read directly.
    using Snapshot = std::map<std::string, Bytes>;

    void walk(HZ_Archive &a, const std::string &dir, bool states, std::vector<std::string> &out) {
        for (auto &e: states ? a.list_mstate_system(dir) : a.list_file_system(dir)) {
            auto p = (dir == "/" ? "" : dir) + "/" + e.entry;
            if (e.is_leaf) out.push_back(p);
            else walk(a, p, states, out);
        }
    }

    void add(Bytes &b, uint64_t n) { b.insert(b.end(), (uint8_t *) &n, (uint8_t *) &n + 8); }

    void add(Bytes &b, const rainman::ptr<uint8_t> &p) {
        add(b, p.size());
        for (uint64_t i = 0; i < p.size(); i++) b.push_back(p[i]);
    }

    Snapshot snapshot(const std::string &path) {
        check_reachable(path);
        Snapshot r;
        HZ_Archive a(path);
        a.load();
        std::vector<std::string> f, s;
        walk(a, "/", false, f);
        walk(a, "/", true, s);
        for (auto &n: f) {
            auto b = a.read_file(n);
            auto &x = r["file " + n];
            add(x, b.size());
            for (uint64_t i = 0; i < b.size(); i++) {
                add(x, b[i].o_size);
                add(x, b[i].data);
                add(x, b[i].header.raw);
                add(x, (uint64_t) b[i].mstate->alg);
                add(x, b[i].mstate->data);
            }
        }
        for (auto &n: s) {
            auto m = a.read_mstate(n);
            auto &x = r["state " + n];
            add(x, (uint64_t) m->alg);
            add(x, m->data);
        }
        a.close();
        return r;
    }

    enum Cmd { ENCODE, ENCODE_STATE, ENCODE_BACK, TRAIN, DECODE, DECODE_BLOB, WRITE_STATE, READ_STATE, EXISTS, LIST, REMOVE, N_CMD };
    const char *cmd_name[] = {"encode", "encode with a state", "encode back", "train", "decode", "decode a blob", "write state", "read state", "exists", "list", "remove"};

    struct World {
        G &g;
        Options o;
        std::string path, rel;
        std::unique_ptr<Server> s;
        std::map<std::string, Bytes> base; // file -> content
        Parts part;
        Bytes part_data;
        Snapshot before;
        std::map<std::string, Bytes> own; // files of completed commands
        std::map<std::string, Bytes> maybe;
        std::set<std::string> own_states, maybe_states;
        bool wild = false;
        unsigned next = 0;
        bool deep = false;

        explicit World(G &g) : g(g) {
            static unsigned made = 0;
            rel = fmt("x%u.hz", made++);
            path = scratch() + "/" + rel;
            unlink(path.c_str());
            o.instances = 3;
            o.threads = (unsigned) g.range(1, 2);
            o.largest = 1u << 27;
            s = std::make_unique<Server>(o);
            Session x(*s, o.password);
            Session::EncodeArgs e;
            e.archive = {path};
            e.state = {"/s"};
            e.alg = {1};
            Bytes text(600);
            Rng r = g.sub();
            for (auto &c: text) c = (uint8_t) ("abcde "[r.below(6)]);
            x.train(g, e, text);
            x.write_state({path}, {"/dir/t"}, 7, {1, 2, 3});
            e.dest = {"/f"};
            x.encode(g, e, text);
            base["/f"] = text;
            e.state.clear();
            e.dest = {"/dir/g"};
            e.piggyback = true;
            Bytes t2(g.range(2, 500));
            for (auto &c: t2) c = (uint8_t) r.below(3);
            auto parts = x.encode(g, e, t2);
            base["/dir/g"] = t2;
            part = parts.at(0);
            part_data = t2;
            x.close_session();
            s->stop();
            before = snapshot(path);
            s->start();
        }

        Bytes content() { return g.chance(90) ? g.data(300) : g.data(20000); }

        // Runs a command in session x; with archives named relatively if it may be altered.
        void command(G &g, Session &x, Cmd c, const std::string &arch, const std::string &name, const Bytes &d) {
            Session::EncodeArgs e;
            e.archive = {arch};
            e.alg = {1};
            switch (c) {
                case ENCODE_BACK: e.piggyback = true; [[fallthrough]];
                case ENCODE_STATE:
                    if (c == ENCODE_STATE) e.state = {"/s"};
                    [[fallthrough]];
                case ENCODE:
                    e.dest = {name};
                    x.encode(g, e, d);
                    break;
                case TRAIN:
                    e.state = {name};
                    x.train(g, e, d);
                    break;
                case DECODE: CHECK(x.decode(g, {arch}, {"/f"}, true) == base["/f"], "a stored file comes back as other bytes"); break;
                case DECODE_BLOB: CHECK(x.decode_blob(g, part, part_data.size(), "", "") == part_data, "a blob comes back as other bytes"); break;
                case WRITE_STATE: x.write_state({arch}, {name}, 7, d); break;
                case READ_STATE: x.read_state({arch}, {"/s"}, true); break;
                case EXISTS: x.file_exists({arch}, {"/dir/g"}, true); break;
                case LIST: x.list(g.boolean(), {arch}, {"/"}, true); break;
                default: x.remove(g.boolean(), {arch}, {name});
            }
        }

        void done(Cmd c, const std::string &name, const Bytes &d, bool sure) {
            if (c == ENCODE || c == ENCODE_STATE || c == ENCODE_BACK) (sure ? own : maybe)[name] = d;
            if (c == WRITE_STATE || (c == TRAIN && !d.empty())) (sure ? own_states : maybe_states).insert(name);
        }

        Session connect() {
            s->check_alive("after malformed traffic");
            try { return Session(*s, o.password); }
            catch (const Gone &e) {
                s->check_alive("after malformed traffic");
                fail("no session can be opened: %s", e.why.c_str());
            }
        }

        // The number of bytes that can be sent (received) until the cut, spread over the command's length.
        uint64_t position(Cmd c, const Bytes &d, bool received) {
            uint64_t head = received ? 60 : 70;
            if (g.chance(75)) return g.below(head);
            uint64_t n = head + d.size() + (c == DECODE ? 600 : 0) + (c == DECODE_BLOB || c == READ_STATE ? part.data.size() + part.state.size() : 0);
            return g.below(n);
        }

        std::vector<Session> stalled;

        void cut(bool received, bool stall) {
            auto c = (Cmd) g.below(N_CMD);
            auto name = fmt("/own%u", next++);
            if (g.chance(20)) name = "/dir/own" + std::to_string(next);
            auto d = content();
            auto pos = position(c, d, received);
            auto x = connect();
            x.sent = 0;
            if (received) x.w.recv_left = pos;
            else x.cut_after = pos;
            x.w.cut_reset = g.boolean();
            x.w.keep = stall;
            g.note("%s %s %s %zuB after %llu bytes %s; ", stall ? "stall" : x.w.cut_reset ? "reset" : "close", cmd_name[c], name.c_str(), d.size(), (u64) pos, received ? "received" : "sent");
            std::string why;
            int r = outcome([&] { command(g, x, c, path, name, d); }, &why);
            if (r == 1) {
                CHECK(c == REMOVE, "refused: %s (%s)", cmd_name[c], why.c_str());
                x.w.recv_left = ~0ull;
                x.cut_after = ~0ull;
                x.health();
                return;
            }
            if (r == 2) {
                CHECK(why == "given up by the client", "the server ends the session during: %s (%s)", cmd_name[c], why.c_str());
                if (pos > 12) deep = true;
                if (received) done(c, name, d, false);
                g.label(fmt("cut: %s", cmd_name[c]));
                if (stall) stalled.push_back(std::move(x));
            } else {
                done(c, name, d, true);
                g.label("cut after the command");
            }
        }

        void altered() {
            wild = true;
            auto c = (Cmd) g.below(N_CMD);
            auto name = fmt("/alt%u", next++);
            auto d = content();
            auto x = connect();
            x.w.hurry(30);
            uint64_t at = g.below(24), k = 0;
            bool more = g.chance(20), hit = false;
            std::string what;
            x.tamper = [&](Bytes b) {
                if (k++ != at && !(more && k > at && g.chance(20))) return b;
                uint64_t v = 0;
                if (b.size() == 8) memcpy(&v, b.data(), 8);
                hit = true;
                what += fmt("%zu:%zuB>", (size_t) k, b.size());
                if (b.size() == 1) b[0] = (uint8_t) (g.chance(80) ? g.below(10) : g.below(256));
                else if (b.size() == 2) {
                    uint16_t n;
                    memcpy(&n, b.data(), 2);
                    n = (uint16_t) g.pick({(uint64_t) 0, (uint64_t) n - 1, (uint64_t) n + 1, (uint64_t) 0xffff, (uint64_t) 0x8000, g.below(300)});
                    memcpy(b.data(), &n, 2);
                } else if (b.size() == 8) {
                    v = g.pick({(uint64_t) 0, v - 1, v + 1, ~(uint64_t) 0, (uint64_t) 1 << 63, (uint64_t) 1 << 32, (uint64_t) 0xffffffff, g.u64()});
                    memcpy(b.data(), &v, 8);
                } else if (g.boolean()) b.resize(g.below(b.size()));
                else if (g.boolean()) {
                    auto t = g.bytes(g.range(1, 40));
                    b.insert(b.end(), t.begin(), t.end());
                } else b[g.below(b.size())] = (uint8_t) g.below(256);
                what += hex(b.data(), b.size(), 8);
                return b;
            };
            std::string why;
            int r;
            try { r = outcome([&] { command(g, x, c, rel, name, d); }, &why); }
            catch (const Failure &f) {
                r = 2; // out of step with the server
                why = f.msg;
            }
            g.note("%s altered %s: %s; ", cmd_name[c], what.c_str(), r == 0 ? "done" : why.c_str());
            if (hit && at > 2) deep = true;
            g.label(fmt("altered: %s", !hit ? "no" : r == 0 ? "done" : r == 1 ? "refused" : "ended"));
            if (g.boolean()) x.w.reset();
        }

        // Words, strings and numbers as in commands, without waiting for anything.
        void blind() {
            wild = true;
            auto x = connect();
            Bytes b;
            auto w = [&](uint8_t c) { b.push_back(c); };
            auto str = [&](const std::string &t) {
                auto n = (uint16_t) t.size();
                b.insert(b.end(), (uint8_t *) &n, (uint8_t *) &n + 2);
                b.insert(b.end(), t.begin(), t.end());
            };
            auto num = [&](uint64_t v) { add(b, v); };
            unsigned n = (unsigned) g.range(1, 30);
            for (unsigned i = 0; i < n; i++)
                switch (g.weighted({35, 15, 10, 8, 10, 10})) {
                    case 0: w((uint8_t) g.below(9)); break;
                    case 1: str(g.pick({rel, std::string("/bl"), std::string("/dir/bl"), std::string("/f"), std::string("other.hz"), std::string("bad path"), std::string()})); break;
                    case 2: num(g.pick({0, 1, 2, 5})); break;
                    case 3: num(g.u64()); break;
                    case 4: {
                        auto t = g.bytes(g.below(12));
                        b.insert(b.end(), t.begin(), t.end());
                        break;
                    }
                    default: // a whole encode command
                        w(0), w(0), w(2), str(rel), w(3), str(fmt("/blind%u", next++)), w(4), num(1), w(0);
                        auto d = g.bytes(g.below(20));
                        num(d.size());
                        b.insert(b.end(), d.begin(), d.end());
                }
            g.note("blind %s; ", hex(b.data(), b.size(), 200).c_str());
            try { x.w.send_raw(b.data(), b.size()); }
            catch (const Gone &) {}
            if (g.boolean()) {
                shutdown(x.w.fd, SHUT_WR);
                x.w.until_closed();
                g.label("blind, read to the end");
            } else if (g.boolean()) x.w.reset();
            deep |= b.size() > 5;
        }

        // An unknown word: refused, and the session goes on.
        void unknown() {
            auto x = connect();
            unsigned rounds = (unsigned) g.range(1, 4);
            for (unsigned i = 0; i < rounds; i++) {
                std::string why;
                uint8_t bad = 0;
                auto level = g.below(7);
                int r = outcome([&] {
                    auto pick = [&](unsigned known) { return bad = (uint8_t) g.range(known, 254); };
                    switch (level) {
                        case 0: x.word(pick(3)); break;
                        case 1:
                            x.word(hzapi::API_CTL_STREAM);
                            x.word(pick(4));
                            break;
                        case 2:
                            x.word(hzapi::API_CTL_QUERY);
                            if (g.boolean()) x.str(hzapi::QUERY_CTL_TARGET, "/f");
                            x.word(pick(9));
                            break;
                        case 3:
                            x.word(hzapi::API_CTL_STREAM);
                            x.word(hzapi::STREAM_CTL_ENCODE);
                            if (g.boolean()) x.str(hzapi::ENCODE_CTL_ARCHIVE, path);
                            if (g.boolean()) x.str(hzapi::ENCODE_CTL_DEST, "/unknown");
                            x.word(pick(7));
                            break;
                        case 4:
                            x.word(hzapi::API_CTL_STREAM);
                            x.word(hzapi::STREAM_CTL_DECODE);
                            if (g.boolean()) x.str(hzapi::DECODE_CTL_ARCHIVE, path);
                            x.word(pick(8));
                            break;
                        case 5:
                            x.word(hzapi::API_CTL_STREAM);
                            x.word(hzapi::STREAM_CTL_WRITE_MSTATE);
                            if (g.boolean()) x.str(hzapi::MSTATE_CTL_ARCHIVE, path);
                            x.word(pick(4));
                            break;
                        default:
                            x.word(hzapi::API_CTL_STREAM);
                            x.word(hzapi::STREAM_CTL_READ_MSTATE);
                            if (g.boolean()) x.str(hzapi::MSTATE_CTL_ADDR, "/s");
                            x.word(pick(4));
                    }
                    x.ctl();
                }, &why);
                g.note("word %u at level %llu; ", bad, (u64) level);
                CHECK(r == 1, "the unknown word %u at level %llu is %s", bad, (u64) level, r == 0 ? "taken" : "answered by ending the session");
                x.health();
            }
            if (g.boolean()) CHECK(x.decode(g, {path}, {"/f"}, true) == base["/f"], "a stored file comes back as other bytes after unknown words");
            x.close_session();
            g.label("unknown words");
        }

        // More bytes announced than there is memory: refused, and the session goes on.
        void huge() {
            auto x = connect();
            uint64_t n = g.boolean() ? ~0ull - g.below(300) : 1ull << g.range(33, 63);
            auto kind = g.below(5);
            std::string why;
            int r = outcome([&] {
                x.word(hzapi::API_CTL_STREAM);
                switch (kind) {
                    case 0:
                        x.word(hzapi::STREAM_CTL_WRITE_MSTATE);
                        x.str(hzapi::MSTATE_CTL_ARCHIVE, path);
                        x.str(hzapi::MSTATE_CTL_ADDR, "/huge");
                        x.word(hzapi::MSTATE_CTL_STREAM);
                        x.u64(7);
                        x.u64(n);
                        break;
                    case 1:
                        x.word(hzapi::STREAM_CTL_DECODE);
                        x.word(hzapi::DECODE_CTL_MSTATE_STREAM);
                        x.u64(n);
                        break;
                    case 2:
                    case 3:
                        x.word(hzapi::STREAM_CTL_DECODE);
                        x.word(hzapi::DECODE_CTL_PIGGYBACK);
                        x.word(hzapi::DECODE_CTL_MSTATE_STREAM);
                        x.u64(0);
                        x.put("", 0);
                        x.word(hzapi::DECODE_CTL_BLOB_STREAM);
                        x.u64(kind == 2 ? n : 1);
                        if (kind == 3) {
                            x.put("h", 1);
                            x.u64(n);
                        }
                        break;
                    default:
                        x.word(hzapi::STREAM_CTL_ENCODE);
                        x.str(hzapi::ENCODE_CTL_ARCHIVE, path);
                        x.str(hzapi::ENCODE_CTL_DEST, "/huge");
                        x.word(hzapi::ENCODE_CTL_ALGORITHM);
                        x.u64(2);
                        x.word(hzapi::ENCODE_CTL_STREAM);
                        x.u64(n);
                        x.ctl();
                }
                x.ctl();
            }, &why);
            g.note("%llu bytes announced (%llu); ", (u64) n, (u64) kind);
            CHECK(r == 1, "%llu bytes announced: %s", (u64) n, r == 0 ? "accepted" : why.c_str());
            x.health();
            x.close_session();
            g.label("huge lengths");
        }

        void witness(Session &x) {
            std::string why;
            int r = outcome([&] {
                switch (g.below(4)) {
                    case 0: x.health(); break;
                    case 1: CHECK(x.decode(g, {path}, {"/f"}, true) == base["/f"], "a stored file comes back as other bytes"); break;
                    case 2: CHECK(x.file_exists({path}, {"/dir/g"}, true), "a stored file is gone"); break;
                    default: {
                        auto d = content();
                        auto name = fmt("/w%u", next++);
                        Session::EncodeArgs e;
                        e.archive = {path};
                        e.dest = {name};
                        e.alg = {1};
                        x.encode(g, e, d);
                        own[name] = d;
                    }
                }
            }, &why);
            s->check_alive("after malformed traffic");
            CHECK(r == 0, "another session does not go on (%s)", why.c_str());
        }

        void finish() {
            check_capacity(*s, "after malformed traffic");
            {
                auto x = connect();
                for (auto &f: base) CHECK(x.decode(g, {path}, {f.first}, true) == f.second, "%s comes back as other bytes", f.first.c_str());
                for (auto &f: own) CHECK(x.decode(g, {path}, {f.first}, true) == f.second, "%s comes back as other bytes", f.first.c_str());
                for (auto &f: maybe)
                    if (x.file_exists({path}, {f.first}, true)) CHECK(x.decode(g, {path}, {f.first}, true) == f.second, "%s, whose session was cut, was stored wrongly", f.first.c_str());
                x.close_session();
            }
            s->stop();
            auto after = snapshot(path);
            for (auto &e: before) {
                CHECK(after.count(e.first), "%s is gone", e.first.c_str());
                CHECK(after[e.first] == e.second, "%s has changed", e.first.c_str());
            }
            if (!wild)
                for (auto &e: after) {
                    if (before.count(e.first)) continue;
                    auto k = e.first.find(' ');
                    auto n = e.first.substr(k + 1);
                    bool fine = e.first[0] == 'f' ? own.count(n) || maybe.count(n) : own_states.count(n) || maybe_states.count(n);
                    CHECK(fine, "%s exists although its command was never completed", e.first.c_str());
                }
            unlink(path.c_str());
        }
    };
}

static void attacks(G &g) {
    World w(g);
    bool open = g.chance(80);
    Session x;
    if (open) x = w.connect();
    unsigned n = (unsigned) g.range(1, 10);
    for (unsigned i = 0; i < n; i++) {
        // (one slot is for the session that stays, one for a stalled one)
        switch (g.weighted({40, 16, 22, 14, 6, 5, w.stalled.empty() ? 8u : 0u})) {
            case 0: w.cut(false, false); break;
            case 1: w.cut(true, false); break;
            case 2: w.altered(); break;
            case 3: w.blind(); break;
            case 4: w.unknown(); break;
            case 5: w.huge(); break;
            default: w.cut(g.chance(30), true);
        }
        w.s->check_alive("after malformed traffic");
        if (open && g.chance(40)) w.witness(x);
        if (!w.stalled.empty() && g.chance(30)) w.stalled.clear();
    }
    if (open) {
        w.witness(x);
        x.close_session();
    }
    w.stalled.clear();
    w.finish();
    if (w.deep) g.nontrivial();
}

// Commands that lack a part of what they need, in any order of the parts: refused before any data is asked for, with no effect.
static void incomplete(G &g) {
    World w(g);
    auto x = w.connect();
    unsigned n = (unsigned) g.range(1, 40);
    bool some = false;
    for (unsigned i = 0; i < n; i++) {
        enum Part { ARCHIVE, NAME, SECOND, BACK, ALG, N_PART };
        auto c = (Cmd) g.below(N_CMD);
        bool has[N_PART];
        unsigned gap = (unsigned) g.below(N_PART + 1); // one is missing, or none
        for (unsigned k = 0; k < N_PART; k++) has[k] = k != gap && (gap == N_PART || g.chance(80));
        uint64_t alg = g.chance(85) ? 1 : g.pick({(uint64_t) 0, (uint64_t) 3, (uint64_t) 255, (uint64_t) 256, (uint64_t) 257, (uint64_t) 1 << 32, ((uint64_t) 1 << 32) + 1, ~(uint64_t) 0, ((uint64_t) 1 << 63) + 1});
        auto d = g.chance(70) ? g.data(200) : Bytes();
        auto name = fmt("/inc%u", w.next++);
        bool existing = g.chance(15), text = g.chance(80); // (also names in use)
        std::vector<std::function<void()>> parts;
        auto str = [&](bool there, uint8_t word, std::string v) {
            if (there) parts.push_back([&x, word, v] { x.str(word, v); });
        };
        bool early = false, ok = true, tail = false; // refused before the data; in the end; data was asked for
        std::function<void()> last;
        switch (c) {
            case ENCODE:
            case ENCODE_STATE:
            case ENCODE_BACK: {
                bool st = c == ENCODE_STATE && has[SECOND], back = c == ENCODE_BACK && has[BACK];
                if (existing) name = "/f";
                str(has[ARCHIVE], hzapi::ENCODE_CTL_ARCHIVE, w.path);
                str(has[NAME], hzapi::ENCODE_CTL_DEST, name);
                str(st, hzapi::ENCODE_CTL_MSTATE_ADDR, "/s");
                if (back) parts.push_back([&] { x.word(hzapi::ENCODE_CTL_PIGGYBACK); });
                if (has[ALG]) parts.push_back([&] { x.word(hzapi::ENCODE_CTL_ALGORITHM), x.u64(alg); });
                early = !has[ALG] || alg != 1 || (!back && !(has[ARCHIVE] && has[NAME])) || (has[ARCHIVE] && has[NAME] && existing);
                ok = !(st && !has[ARCHIVE] && !d.empty());
                last = [&, back] {
                    x.word(hzapi::ENCODE_CTL_STREAM);
                    x.ctl();
                    tail = true;
                    uint64_t k = d.size();
                    x.raw(&k, 8);
                    x.ctl();
                    x.raw(d.data(), d.size());
                    if (back && !d.empty()) {
                        x.get_u64();
                        x.get(x.get_u64());
                        x.get(x.get_u64());
                        x.get(x.get_u64());
                    }
                    x.success();
                };
                break;
            }
            case TRAIN:
                str(has[ARCHIVE], hzapi::ENCODE_CTL_ARCHIVE, w.path);
                str(has[NAME], hzapi::ENCODE_CTL_MSTATE_ADDR, name);
                str(has[SECOND], hzapi::ENCODE_CTL_DEST, "/nothing");
                if (has[BACK]) parts.push_back([&] { x.word(hzapi::ENCODE_CTL_PIGGYBACK); });
                if (has[ALG]) parts.push_back([&] { x.word(hzapi::ENCODE_CTL_ALGORITHM), x.u64(alg); });
                early = !has[ALG] || alg != 1 || !has[ARCHIVE] || !has[NAME];
                last = [&] {
                    x.word(hzapi::ENCODE_CTL_TRAIN);
                    x.ctl();
                    tail = true;
                    uint64_t k = d.size();
                    x.raw(&k, 8);
                    x.ctl();
                    x.raw(d.data(), d.size());
                    x.success();
                };
                break;
            case DECODE: {
                auto src = existing ? "/nowhere" : "/f";
                str(has[ARCHIVE], hzapi::DECODE_CTL_ARCHIVE, w.path);
                str(has[NAME], hzapi::DECODE_CTL_SRC, src);
                if (has[BACK]) parts.push_back([&] { x.word(hzapi::DECODE_CTL_PIGGYBACK); });
                if (has[ALG]) parts.push_back([&] { x.word(hzapi::DECODE_CTL_ALGORITHM), x.u64(alg); });
                early = !has[ARCHIVE] || !has[NAME] || !has[BACK] || existing;
                last = [&] {
                    x.word(hzapi::DECODE_CTL_STREAM);
                    x.ctl();
                    tail = true;
                    uint64_t k;
                    x.w.recv_raw(&k, 8);
                    Bytes all;
                    for (; k > 0; k--) {
                        auto b = x.get(x.get_u64());
                        all.insert(all.end(), b.begin(), b.end());
                    }
                    CHECK(all == w.base["/f"], "a stored file comes back as other bytes");
                    x.success();
                };
                break;
            }
            case DECODE_BLOB: {
                // The state by its name needs the archive before it.
                bool by_name = has[NAME] && g.boolean(), by_value = has[SECOND], compressed = w.part.data.size() < w.part_data.size();
                str(has[ARCHIVE] && !by_name, hzapi::DECODE_CTL_ARCHIVE, w.path);
                if (by_name)
                    parts.push_back([&] {
                        if (has[ARCHIVE]) x.str(hzapi::DECODE_CTL_ARCHIVE, w.path);
                        x.str(hzapi::DECODE_CTL_MSTATE_ADDR, "/s");
                    });
                if (by_value)
                    parts.push_back([&] {
                        x.word(hzapi::DECODE_CTL_MSTATE_STREAM);
                        x.u64(w.part.state.size());
                        x.put(w.part.state.data(), w.part.state.size());
                    });
                if (has[BACK]) parts.push_back([&] { x.word(hzapi::DECODE_CTL_PIGGYBACK); });
                alg = w.part.alg;
                if (has[ALG]) parts.push_back([&] { x.word(hzapi::DECODE_CTL_ALGORITHM), x.u64(alg); });
                early = !has[BACK] || (!by_name && !by_value) || (by_name && !has[ARCHIVE]);
                ok = true;
                bool own = by_value && !by_name && has[ALG];
                last = [&, compressed, own] {
                    x.word(hzapi::DECODE_CTL_BLOB_STREAM);
                    x.ctl();
                    tail = true;
                    uint64_t k = w.part.header.size();
                    x.raw(&k, 8);
                    x.put(w.part.header.data(), w.part.header.size());
                    x.u64(w.part.data.size());
                    x.put(w.part.data.data(), w.part.data.size());
                    x.u64(w.part_data.size());
                    auto b = x.get(x.get_u64());
                    if (own || !compressed) CHECK(b == w.part_data, "a blob comes back as other bytes");
                    x.success();
                };
                if (compressed && !own) ok = false; // (perhaps: it is not this state, or not this algorithm)
                break;
            }
            case WRITE_STATE:
                if (existing) name = "/s";
                str(has[ARCHIVE], hzapi::MSTATE_CTL_ARCHIVE, w.path);
                str(has[NAME], hzapi::MSTATE_CTL_ADDR, name);
                early = !has[ARCHIVE] || !has[NAME];
                ok = !existing;
                last = [&] {
                    x.word(hzapi::MSTATE_CTL_STREAM);
                    x.ctl();
                    tail = true;
                    uint64_t k = 7;
                    x.raw(&k, 8);
                    x.u64(d.size());
                    x.put(d.data(), d.size());
                    x.success();
                };
                break;
            case READ_STATE:
                str(has[ARCHIVE], hzapi::MSTATE_CTL_ARCHIVE, w.path);
                str(has[NAME], hzapi::MSTATE_CTL_ADDR, existing ? "/nowhere" : "/dir/t");
                if (has[BACK]) parts.push_back([&] { x.word(hzapi::MSTATE_CTL_PIGGYBACK); });
                early = !has[ARCHIVE] || !has[NAME] || !has[BACK] || existing;
                last = [&] {
                    x.word(hzapi::MSTATE_CTL_STREAM);
                    x.ctl();
                    tail = true;
                    uint64_t k;
                    x.w.recv_raw(&k, 8);
                    auto b = x.get(x.get_u64());
                    CHECK(k == 7 && b == (Bytes{1, 2, 3}), "a stored state comes back as another");
                    x.success();
                };
                break;
            default: {
                bool list = c == LIST, remove = c == REMOVE;
                uint8_t word = c == EXISTS ? hzapi::QUERY_CTL_CHECK_IF_FILE_EXISTS : list ? (text ? hzapi::QUERY_CTL_LIST_FILE_SYSTEM : hzapi::QUERY_CTL_LIST_MSTATE_SYSTEM)
                                                                                    : text ? hzapi::QUERY_CTL_DELETE_FILE : hzapi::QUERY_CTL_DELETE_MSTATE;
                str(has[ARCHIVE], hzapi::QUERY_CTL_ARCHIVE, w.path);
                str(has[NAME], hzapi::QUERY_CTL_TARGET, c == EXISTS ? "/f" : list ? (existing ? "/nowhere" : "/dir") : name);
                if (has[BACK]) parts.push_back([&] { x.word(hzapi::QUERY_CTL_PIGGYBACK); });
                early = !has[ARCHIVE] || !has[NAME] || (!remove && !has[BACK]) || remove || (list && existing);
                last = [&, word, list] {
                    x.word(word);
                    x.ctl();
                    tail = true;
                    if (list) {
                        uint64_t k;
                        x.w.recv_raw(&k, 8);
                        CHECK(k == 1, "the listing of /dir has %llu entries", (u64) k);
                        auto b = x.get(x.get_int<uint16_t>());
                        CHECK(b.size() == 1 && b[0] == (text ? 'g' : 't') && x.get_int<uint8_t>() == 1, "the listing of /dir names %s", hex(b.data(), b.size()).c_str());
                    } else {
                        uint8_t r;
                        x.w.recv_raw(&r, 1);
                        CHECK(r == 1, "a stored file is said not to exist");
                    }
                };
            }
        }
        for (size_t k = parts.size(); k > 1; k--) std::swap(parts[k - 1], parts[g.below(k)]);
        std::string why, what;
        for (auto h: has) what += h ? '1' : '0';
        what = fmt("%s %s alg %llu %s%s%zuB", cmd_name[c], what.c_str(), (u64) alg, existing ? "existing " : "", text ? "" : "states ", d.size());
        g.note("%s%s; ", what.c_str(), early ? "!" : ok ? "" : "?");
        int r = outcome([&] {
            if (c <= DECODE_BLOB || c == WRITE_STATE || c == READ_STATE) {
                x.word(hzapi::API_CTL_STREAM);
                x.word(c <= TRAIN ? hzapi::STREAM_CTL_ENCODE : c <= DECODE_BLOB ? hzapi::STREAM_CTL_DECODE : c == WRITE_STATE ? hzapi::STREAM_CTL_WRITE_MSTATE : hzapi::STREAM_CTL_READ_MSTATE);
            } else x.word(hzapi::API_CTL_QUERY);
            for (auto &p: parts) p();
            last();
        }, &why);
        w.s->check_alive("after an incomplete command");
        CHECK(r != 2, "the session ends with %s", what.c_str());
        if (early) {
            some = true;
            CHECK(r == 1 && !tail, "%s is %s although a part is missing or wrong", what.c_str(), r == 0 ? "done" : "only refused after its data");
        } else if (ok) {
            CHECK(r == 0, "refused: %s (%s)", what.c_str(), why.c_str());
            if (c <= ENCODE_BACK && has[ARCHIVE] && has[NAME]) w.own[name] = d;
            if (c == WRITE_STATE || (c == TRAIN && !d.empty())) w.own_states.insert(name);
        } else CHECK(c == DECODE_BLOB || r == 1, "done although it has to be refused: %s", what.c_str());
        if (r == 1 && g.chance(50)) x.health();
    }
    x.close_session();
    w.finish();
    if (some) g.nontrivial();
}

// What a cut command was given is released.
static void memory(G &g) {
    World w(g);
    auto c = (Cmd) g.below(N_CMD);
    auto d = w.content();
    bool received = g.chance(30);
    auto pos = w.position(c, d, received), seed = g.u64();
    g.note("%s %zuB cut after %llu bytes %s, again and again", cmd_name[c], d.size(), (u64) pos, received ? "received" : "sent");
    auto once = [&] {
        G h; // the same choices
        h.rng = Rng(seed);
        auto x = w.connect();
        x.sent = 0;
        if (received) x.w.recv_left = pos;
        else x.cut_after = pos;
        return outcome([&] { w.command(h, x, c, w.path, "/m", d); });
    };
    {
        auto x = w.connect(); // (the archive is loaded)
        x.file_exists({w.path}, {"/f"}, true);
        x.close_session();
    }
    if (once() != 2) return; // (the whole command)
    auto used = [&] {
        check_capacity(*w.s, "after a cut command");
        auto x = w.connect();
        auto n = x.mem_usage();
        x.close_session();
        return n;
    };
    auto completed = [&] { // the server may not notice the cut before it is done
        if (!received) return false;
        auto x = w.connect();
        bool there = false;
        if (c <= ENCODE_BACK) there = x.file_exists({w.path}, {"/m"}, true);
        else if (c == TRAIN || c == WRITE_STATE) there = x.list(true, {w.path}, {"/"}, true).count("m");
        x.close_session();
        return there;
    };
    if (completed()) return;
    once();
    auto first = used();
    unsigned n = (unsigned) g.range(3, 8);
    for (unsigned i = 0; i < n; i++) once();
    uint64_t last = 0;
    for (unsigned i = 0; i < 60; i++) { // a session may still be ending
        last = used();
        if (last <= first) break;
        usleep(i * 1000);
    }
    if (completed()) return;
    CHECK(last <= first, "after %u more cut commands the server holds %llu bytes more", n, (u64) (last - first));
    w.s->stop();
    unlink(w.path.c_str());
    g.nontrivial();
}

std::vector<Prop> pbt::properties() {
    return {{"attacks", attacks, 300, 12000, REALTIME, 120},
            {"incomplete", incomplete, 120, 4000, REALTIME, 120},
            {"memory", memory, 60, 2500, REALTIME, 120}};
}
