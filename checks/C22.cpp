// C22: the handshake and the session slots.
// BUILD: repo=hzip_network/*,hzip_codec/*,hzip_core/*,hzip_storage/* mode=plain libs=crypto,png,loguru extra=sched,fakecl
#include "api_client.h"

using namespace pbt;
using namespace api;
const char *pbt::property_id = "C22";
const char *pbt::rule = "a server with 1-3 slots and a generated password; 1-12 clients: right password, wrong or truncated or echoed or recorded or random responses followed by commands sent blindly, connections "
                        "closed, reset, half-closed or stalled (with a timeout set) at every point of the handshake, sessions held open, more clients than slots; non-trivial: a client was refused and a "
                        "right one served afterwards";

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

namespace {
    std::string password(G &g) {
        if (g.chance(30)) return g.pick({std::string("hybridzip"), std::string("p"), std::string("\xff\x80 x"), std::string("a long password of several words, longer than a token")});
        auto b = g.bytes(g.range(1, 20));
        return {b.begin(), b.end()};
    }

    // Commands as a client sends them that does not wait for anything.
    Bytes blind(const std::string &archive) {
        Bytes v;
        auto w = [&](uint8_t c) { v.push_back(c); };
        auto s = [&](const std::string &x) {
            uint16_t n = (uint16_t) x.size();
            v.insert(v.end(), (uint8_t *) &n, (uint8_t *) &n + 2);
            v.insert(v.end(), x.begin(), x.end());
        };
        auto u = [&](uint64_t x) { v.insert(v.end(), (uint8_t *) &x, (uint8_t *) &x + 8); };
        w(hzapi::API_CTL_QUERY);
        w(hzapi::QUERY_CTL_ARCHIVE);
        s(archive);
        w(hzapi::QUERY_CTL_TARGET);
        s("/f");
        w(hzapi::QUERY_CTL_DELETE_FILE);
        w(hzapi::API_CTL_STREAM);
        w(hzapi::STREAM_CTL_ENCODE);
        w(hzapi::ENCODE_CTL_ARCHIVE);
        s("evil.hz");
        w(hzapi::ENCODE_CTL_DEST);
        s("/g");
        w(hzapi::ENCODE_CTL_ALGORITHM);
        u(1);
        w(hzapi::ENCODE_CTL_STREAM);
        u(3);
        w('x');
        w('y');
        w('z');
        return v;
    }
}

static void clients(G &g) {
    Options o;
    o.instances = (unsigned) g.range(1, 3);
    o.threads = (unsigned) g.range(1, 2);
    o.password = password(g);
    o.random = g.u64();
    bool timed = g.chance(6);
    if (timed) o.timeout_s = 1;
    std::string path = scratch() + "/a.hz", evil = scratch() + "/evil.hz";
    unlink(path.c_str());
    unlink(evil.c_str());
    Bytes content = g.bytes(g.size(0, 100));
    {
        HZ_Archive a(path);
        a.load();
        rainman::ptr<HZ_Blob> b(1);
        b[0].data = am::from_bytes(content);
        b[0].size = b[0].o_size = content.size();
        auto one = rainman::ptr<HZ_Blob>();
        a.inject_mstate(rainman::ptr<HZ_MState>(), one);
        b[0].mstate_id = one->mstate_id;
        b[0].mstate = one->mstate;
        a.create_file("/f", b, 1);
        a.close();
    }
    auto before = am::slurp(path);
    Server s(o);
    g.note("%u slots, password %s%s: ", o.instances, hex(o.password.data(), o.password.size()).c_str(), timed ? ", timeout" : "");
    std::vector<Session> held;
    std::vector<uint64_t> recorded;
    std::set<uint64_t> challenges;
    auto challenge = [&](Session &x) {
        auto t = x.get_u64();
        CHECK(challenges.insert(t).second, "a challenge was sent before: the response recorded then opens a session");
        return t;
    };
    bool refused = false, served_after = false, touched = false;
    unsigned n = (unsigned) g.range(1, timed ? 5 : 12);
    for (unsigned i = 0; i < n; i++) {
        s.check_alive("during the case");
        if (g.chance(4)) { // what was recorded is worth nothing after a restart, too
            g.note("restart; ");
            g.label("restarted");
            for (auto &x: held) x.close_session();
            held.clear();
            s.stop();
            s.start();
        }
        auto kind = g.weighted({30, 40, 12, 12, timed ? 40u : 0u, 10});
        if (held.size() == o.instances) {
            // No slot is left: a further client waits until one is given back.
            g.note("full; ");
            g.label("more clients than slots");
            Wire w(s);
            pollfd p{w.fd, POLLIN, 0};
            CHECK(poll(&p, 1, 15) == 0, "a client is served although all %u slots are taken", o.instances);
            size_t k = g.below(held.size());
            if (g.boolean()) held[k].close_session();
            else g.boolean() ? held[k].w.reset() : held[k].w.shut();
            held.erase(held.begin() + (long) k);
            uint8_t c;
            w.recv_raw(&c, 1);
            CHECK(c == 0, "the handshake starts with %02x", c);
            continue; // (and goes away)
        }
        switch (kind) {
            case 0: {
                g.note("right; ");
                try {
                    Session x(s, o.password);
                    x.health();
                    if (g.boolean()) {
                        CHECK(x.file_exists({path}, {"/f"}, true), "the stored file is gone");
                        touched = true;
                    }
                    served_after |= refused;
                    if (!timed && g.chance(40)) held.push_back(std::move(x));
                    else if (g.boolean()) x.close_session();
                    else g.boolean() ? x.w.reset() : x.w.shut();
                } catch (const Gone &e) { fail("a client with the right password is turned away: %s", e.why.c_str()); }
                catch (const Refused &e) { fail("a client with the right password is refused: %s", e.msg.c_str()); }
                break;
            }
            case 1: {
                Session x;
                x.w = Wire(s);
                uint64_t t = challenge(x), want = token_for(o.password, t), r = 0;
                switch (g.weighted({20, 15, 12, 12, 12, 10, 10, 5})) {
                    case 0: {
                        auto wrong = g.pick({std::string("hybridzip"), o.password + "x", o.password.substr(1), std::string(), password(g)});
                        r = token_for(wrong, t);
                        break;
                    }
                    case 1: r = want ^ 1ull << g.below(64); break;
                    case 2: r = t; break;
                    case 3: r = 0; break;
                    case 4: r = recorded.empty() ? ~0ull : g.pick(recorded); break;
                    case 5: r = want ^ 0xffull << 8 * g.below(8); break;
                    case 6: r = __builtin_bswap64(want); break;
                    default: r = want ^ g.u64();
                }
                if (r == want) {
                    g.label("equivalent password");
                    x.put(&r, 8);
                    x.success();
                    break;
                }
                g.note("wrong ^%llx; ", (unsigned long long) (r ^ want));
                refused = true;
                x.ctl();
                Bytes out((uint8_t *) &r, (uint8_t *) &r + 8);
                if (g.boolean()) { // once more, rightly
                    out.insert(out.end(), (uint8_t *) &want, (uint8_t *) &want + 8);
                }
                auto b = blind(path);
                if (g.chance(70)) out.insert(out.end(), b.begin(), b.end());
                try { x.w.send_raw(out.data(), out.size()); }
                catch (const Gone &) {}
                auto reply = x.w.until_closed();
                CHECK(reply.empty() || reply[0] == 0xff, "a wrong response is answered with success");
                break;
            }
            case 2: {
                Wire w(s);
                uint8_t buf[10];
                size_t cut = g.below(8);
                g.note("%zu bytes; ", cut);
                w.recv_raw(buf, 10);
                Rng r = g.sub();
                uint64_t x = r.next();
                if (cut) w.send_raw(&x, cut);
                bool half = g.chance(30);
                if (half) {
                    shutdown(w.fd, SHUT_WR);
                    auto reply = w.until_closed();
                    CHECK(reply.empty() || reply[0] == 0xff, "a truncated response is answered with success");
                } else if (g.boolean()) w.reset();
                refused = true;
                break;
            }
            case 3: {
                Wire w(s);
                size_t k = g.below(11);
                g.note("gone after reading %zu; ", k);
                uint8_t buf[10];
                if (k) w.recv_raw(buf, std::min<size_t>(k, 10));
                if (g.boolean()) w.reset();
                refused = true;
                break;
            }
            case 4: {
                Wire w(s);
                uint8_t buf[10];
                size_t k = g.below(8);
                g.note("stall after %zu; ", k);
                w.recv_raw(buf, 10);
                uint64_t x = 0;
                if (k) w.send_raw(&x, k);
                auto reply = w.until_closed();
                CHECK(reply.empty() || reply[0] == 0xff, "a stalled client is answered with success");
                g.label("stalled client");
                refused = true;
                break;
            }
            default: {
                g.note("aborted; ");
                Session x;
                x.w = Wire(s);
                uint64_t t = token_for(o.password, challenge(x));
                x.put(&t, 8);
                recorded.push_back(t);
                if (g.boolean()) x.success();
                if (g.boolean()) x.w.reset();
            }
        }
    }
    for (auto &x: held) {
        x.health();
        x.close_session();
    }
    check_capacity(s, "after these clients");
    s.stop();
    CHECK(access(evil.c_str(), F_OK) != 0, "a command of a client that was refused had an effect");
    if (!touched) CHECK(am::slurp(path) == before, "the archive was changed by clients that did not get a session");
    {
        HZ_Archive a(path);
        a.load();
        CHECK(a.check_file_exists("/f"), "a file was removed by a client that was refused");
        auto b = a.read_file("/f");
        CHECK(b.size() == 1 && am::to_bytes(b[0].data) == content, "a file was changed by a client that was refused");
        CHECK(a.list_file_system("/").size() == 1, "a file was added by a client that was refused");
        a.close();
    }
    if (refused) g.nontrivial();
    if (served_after) g.label("served after a refusal");
}

// Many wrong answers that come close to the right one, each to a challenge of its own.
static void answers(G &g) {
    Options o;
    o.instances = (unsigned) g.range(1, 3);
    o.threads = 1;
    o.password = password(g);
    o.random = g.u64();
    Server s(o);
    unsigned n = (unsigned) g.range(1, 60);
    g.note("%u answers, password %s: ", n, hex(o.password.data(), o.password.size()).c_str());
    unsigned wrong = 0;
    for (unsigned i = 0; i < n; i++) {
        Session x;
        x.w = Wire(s);
        uint64_t t = x.get_u64(), want = token_for(o.password, t), r = want;
        uint8_t b[8];
        memcpy(b, &want, 8);
        size_t p = g.below(8), q = (p + g.range(1, 7)) % 8;
        auto kind = g.below(19);
        auto bytes = [&] { memcpy(&r, b, 8); };
        switch (kind) {
            case 0: for (auto k = g.range(1, 6); k > 0; k--) r ^= 1ull << g.below(64); break; // some bits
            case 1: { // the same bits in an even or odd number of bytes
                auto m = (uint8_t) (g.boolean() ? 1u << g.below(8) : g.range(1, 255));
                b[p] ^= m;
                b[q] ^= m;
                if (g.chance(30)) b[(q + 1) % 8] ^= m;
                bytes();
                break;
            }
            case 2: { // the sum of the bytes stays
                auto k = (uint8_t) g.range(1, 255);
                b[p] += k;
                b[q] -= k;
                bytes();
                break;
            }
            case 3: std::swap(b[p], b[q]); bytes(); break;
            case 4: std::reverse(b, b + 8); bytes(); break;
            case 5: std::rotate(b, b + g.range(1, 7), b + 8); bytes(); break;
            case 6: r = want << g.range(1, 63); break;
            case 7: r = want >> g.range(1, 63); break;
            case 8: r = want & (~0ull >> 8 * g.range(1, 7)); break; // only a part of it
            case 9: r = want & (~0ull << 8 * g.range(1, 7)); break;
            case 10: r = want ^ (g.u64() << 8 * g.range(1, 7)); break; // the low part is right
            case 11: r = want ^ (g.u64() >> 8 * g.range(1, 7)); break; // the high part
            case 12: r = ~want; break;
            case 13: r = g.boolean() ? 0 : ~0ull; break;
            case 14: b[p] = (uint8_t) g.below(256); bytes(); break;
            case 15: r = want + (g.boolean() ? 1 : -1) * (int64_t) g.range(1, 1000); break;
            case 16: r = 0 - want; break;
            case 17: r = t; break; // the challenge, for any password
            default: r = g.u64();
        }
        g.note("%llu ^%llx; ", (unsigned long long) kind, (unsigned long long) (r ^ want));
        try {
            x.ctl();
            x.w.send_raw(&r, 8);
        } catch (const Gone &) { fail("the server ends the connection before the answer"); }
        if (r == want) {
            x.success();
            x.close_session();
            continue;
        }
        wrong++;
        uint8_t first = 0xff;
        try { x.w.recv_raw(&first, 1); }
        catch (const Gone &) {}
        CHECK(first == 0xff, "a wrong response (off by %llx) is answered with success", (unsigned long long) (r ^ want));
        x.w.until_closed();
    }
    check_capacity(s, "after wrong responses");
    s.stop();
    if (wrong) g.nontrivial();
}

// With a timeout, a client that stops at any point gives its slot back.
static void stalled(G &g) {
    Options o;
    o.instances = (unsigned) g.range(1, 2);
    o.threads = (unsigned) g.range(1, 2);
    o.timeout_s = 1;
    std::string path = scratch() + "/stall.hz";
    unlink(path.c_str());
    Bytes content(1u << 20);
    Rng rng = g.sub();
    for (auto &c: content) c = (uint8_t) rng.next();
    {
        // (many blobs of the same file: more than any socket buffer holds)
        HZ_Archive a(path);
        a.load();
        unsigned blobs = (unsigned) g.range(16, 24);
        rainman::ptr<HZ_Blob> b(blobs);
        auto one = rainman::ptr<HZ_Blob>();
        auto state = rainman::ptr<HZ_MState>();
        state->alg = hzcodec::algorithms::UNCOMPRESSED;
        a.inject_mstate(state, one);
        for (unsigned i = 0; i < blobs; i++) {
            b[i].data = am::from_bytes(content);
            b[i].size = b[i].o_size = content.size();
            b[i].mstate_id = one->mstate_id;
            b[i].mstate = one->mstate;
        }
        a.create_file("/large", b, blobs);
        a.close();
    }
    Server s(o);
    g.note("%u slots: ", o.instances);
    std::vector<Session> v;
    for (unsigned i = 0; i < o.instances; i++) {
        if (i > 0 && g.chance(30)) continue;
        Session x(s, o.password);
        auto kind = g.below(6);
        try {
            switch (kind) {
                case 0: g.note("idle; "); break;
                case 1:
                    g.note("in a command; ");
                    x.word(hzapi::API_CTL_QUERY);
                    if (g.boolean()) x.word(hzapi::QUERY_CTL_PIGGYBACK);
                    break;
                case 2: {
                    g.note("in a string; ");
                    x.word(hzapi::API_CTL_QUERY);
                    x.word(hzapi::QUERY_CTL_ARCHIVE);
                    uint16_t n = 100;
                    x.put(&n, 2);
                    x.put("abc", g.below(4));
                    break;
                }
                case 3: {
                    g.note("in the data; ");
                    x.word(hzapi::API_CTL_STREAM);
                    x.word(hzapi::STREAM_CTL_ENCODE);
                    x.word(hzapi::ENCODE_CTL_ALGORITHM);
                    x.u64(1);
                    x.word(hzapi::ENCODE_CTL_PIGGYBACK);
                    x.word(hzapi::ENCODE_CTL_STREAM);
                    x.u64(1000);
                    x.ctl();
                    auto part = Bytes(g.below(1000), 7);
                    x.raw(part.data(), part.size());
                    break;
                }
                default:
                    g.note("in a long answer; ");
                    g.label("stalled in a long answer");
                    x.word(hzapi::API_CTL_STREAM);
                    x.word(hzapi::STREAM_CTL_DECODE);
                    x.word(hzapi::DECODE_CTL_PIGGYBACK);
                    x.str(hzapi::DECODE_CTL_ARCHIVE, path);
                    x.str(hzapi::DECODE_CTL_SRC, "/large");
                    x.word(hzapi::DECODE_CTL_STREAM);
                    x.get_u64();
                    if (g.boolean()) x.get(x.get_u64());
            }
        } catch (const Gone &e) { fail("the server ends a session by itself: %s", e.why.c_str()); }
        catch (const Refused &e) { fail("a command is refused: %s", e.msg.c_str()); }
        v.push_back(std::move(x));
    }
    // All the slots are needed now. (The first of the new sessions may have to wait for the others longer than the timeout.)
    for (unsigned tries = 0;; tries++) {
        std::vector<Session> w;
        bool ended = false;
        for (unsigned i = 0; i < o.instances; i++) {
            s.check_alive("after clients stalled");
            try { w.emplace_back(s, o.password); }
            catch (const Gone &e) { fail("a client is turned away after others stalled: %s", e.why.c_str()); }
            catch (const Refused &e) { fail("a client is refused after others stalled: %s", e.msg.c_str()); }
            catch (const Failure &f) { fail("only %u of %u sessions can be open after clients stalled (%s)", i, o.instances, f.msg.c_str()); }
        }
        for (auto &x: w)
            try {
                x.health();
                x.close_session();
            } catch (const Gone &) { ended = true; }
        if (!ended) break;
        CHECK(tries < 10, "sessions end again and again");
    }
    s.stop();
    unlink(path.c_str());
    g.nontrivial();
}

// As many clients as there are slots come at the same moment: each of them is served.
static void burst(G &g) {
    Options o;
    o.instances = (unsigned) g.range(2, 10);
    o.threads = 1;
    o.password = password(g);
    o.random = g.u64();
    Server s(o);
    unsigned rounds = (unsigned) g.range(1, 6);
    g.note("%u slots, %u rounds: ", o.instances, rounds);
    for (unsigned r = 0; r < rounds; r++) {
        s.check_alive("during the case");
        unsigned n = g.chance(60) ? o.instances : (unsigned) g.range(2, o.instances), way = (unsigned) g.below(3);
        bool held = g.chance(40), stay = g.boolean(); // the server gets to run after they came; all stay until the last one is served
        g.note("%u%s%s; ", n, held ? " held" : "", stay ? " stay" : "");
        std::atomic<unsigned> ready{0}, served{0};
        std::vector<std::string> bad(n);
        std::vector<std::thread> t;
        if (held) s.send_signal(SIGSTOP);
        for (unsigned i = 0; i < n; i++)
            t.emplace_back([&, i] {
                ready++;
                while (ready < n) std::this_thread::yield();
                try {
                    Session x(s, o.password);
                    x.health();
                    served++;
                    for (int w = 0; stay && served < n && w < 4000 * (int) patience(); w++) usleep(250);
                    if (stay) x.health();
                    if (way == 0) x.close_session();
                    else way == 1 ? x.w.reset() : x.w.shut();
                } catch (const Failure &f) { bad[i] = f.msg; }
                catch (const Refused &f) { bad[i] = "refused: " + f.msg; }
                catch (const Gone &f) { bad[i] = f.why; }
            });
        if (held) {
            usleep(3000 + (useconds_t) g.below(20000));
            s.send_signal(SIGCONT);
        }
        for (auto &x: t) x.join();
        for (auto &b: bad) CHECK(b.empty(), "%u clients come at once to a server with %u slots, one of them is not served: %s", n, o.instances, b.c_str());
    }
    s.check_alive("at the end");
    s.stop();
    g.nontrivial();
}

std::vector<Prop> pbt::properties() {
    return {{"clients", clients, 500, 20000, REALTIME, 120}, {"burst", burst, 400, 12000, REALTIME, 120},
            {"answers", answers, 160, 4000, REALTIME, 120}, {"stalled", stalled, 16, 600, REALTIME, 120}};
}
