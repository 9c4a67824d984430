// C25: archive path validation.
// BUILD: mode=asan libs=loguru
#include <pbt/pbt.h>
#include <exception>
#include <loguru/loguru.hpp>
#include <hzip_core/utils/validation.h>

using namespace pbt;
const char *pbt::property_id = "C25";
const char *pbt::rule = "strings built as valid paths and then mutated (inserted/replaced bytes, doubled slashes, dropped prefix), plus arbitrary "
                        "byte strings, up to 70000 bytes; non-trivial: the string starts with '/' and has at least 2 bytes";

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

static bool valid(const std::string &s) {
    if (s.empty() || s[0] != '/') return false;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == 0 || c == '\\' || c == ' ') return false;
        if (i > 0 && c == '/' && s[i - 1] == '/') return false;
    }
    return true;
}

static bool accepted(const std::string &s) {
    try {
        hz_validate_path(s);
        return true;
    } catch (const std::exception &e) {
        CHECK(e.what() != nullptr, "the exception carries no message");
        return false;
    }
}

static void paths(G &g) {
    std::string s;
    unsigned kind = g.weighted({6, 2, 1});
    if (kind == 0) {
        uint64_t comps = g.size(0, 30);
        for (uint64_t i = 0; i < comps; i++) {
            s += '/';
            uint64_t n = 1 + g.size(0, 12);
            for (uint64_t k = 0; k < n; k++) {
                unsigned char c = 'a' + g.below(3);
                if (g.chance(15)) c = g.range(1, 255);
                if (c == '/' || c == '\\' || c == ' ') c = 'x';
                s += (char) c;
            }
        }
        if (comps == 0 || g.chance(10)) s += '/';
    } else if (kind == 1) {
        auto b = g.bytes(g.size(0, 24));
        s.assign(b.begin(), b.end());
        if (g.boolean()) s = "/" + s;
    } else {
        uint64_t n = g.size(1, 70000);
        Rng r = g.sub();
        s = "/";
        while (s.size() < n) s += r.below(8) ? (char) ('a' + r.below(26)) : s.back() == '/' ? 'q' : '/';
    }
    unsigned muts = g.weighted({4, 4, 2, 1});
    for (unsigned m = 0; m < muts; m++) {
        size_t at = g.chance(30) ? (g.boolean() ? s.size() : 0) : g.below(s.size() + 1);
        char c = g.pick<char>({'/', '\\', ' ', '\0', 'a', '\t', '\n', '.', (char) 0xff, (char) 0x80, (char) 0xa0});
        switch (g.draw(2)) {
            case 0:
                s.insert(at, 1, c);
                break;
            case 1:
                if (at < s.size()) s[at] = c;
                break;
            default:
                if (at < s.size()) s.erase(at, 1);
        }
    }
    bool want = valid(s);
    g.note("%zu bytes %s", s.size(), hex(s.data(), s.size(), 60).c_str());
    g.label(want ? "valid" : "invalid");
    if (s.size() >= 2 && s[0] == '/') g.nontrivial();
    std::string copy = s;
    bool got = accepted(s);
    CHECK(s == copy, "the path string was changed");
    CHECK(got == want, "path is %s but was %s", want ? "well-formed" : "malformed", got ? "accepted" : "rejected");
    CHECK(accepted(s) == want, "the verdict changed on the second call");
}

std::vector<Prop> pbt::properties() { return {{"paths", paths, 150000, 4000000}}; }
