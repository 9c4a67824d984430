// C30: command-line sizes and options.
// BUILD: mode=asan
#include <pbt/pbt.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <stdexcept>
#include <string>
#include <terminal.h>

using namespace pbt;
const char *pbt::property_id = "C30";
const char *pbt::rule = "size strings (every unit, numbers up to the largest that fits in 64 bits, leading zeros) and texts without a unit; argument vectors "
                        "with every spelling, order and subset of the declared options; non-trivial: a size above 9, or at least one option given";

static void sizes(G &g) {
    unsigned u = g.draw(3);
    static const char *units[] = {"b", "kb", "mb", "gb"};
    uint64_t max = ~0ull >> (10 * u);
    uint64_t v = g.u64(max);
    std::string s = std::to_string(v);
    if (g.chance(20)) s = std::string(g.range(1, 5), '0') + s;
    s += units[u];
    g.note("%s", s.c_str());
    g.label(units[u]);
    if (v > 9) g.nontrivial();
    uint64_t got = conv_to_bytes(s);
    CHECK(got == v << (10 * u), "%s is %llu bytes, expected %llu", s.c_str(), (unsigned long long) got, (unsigned long long) (v << (10 * u)));
    std::string t = g.ascii(g.size(0, 12), "0123456789kmgKMGB abx");
    while (!t.empty() && t.back() == 'b') t.pop_back();
    CHECK(conv_to_bytes(t) == 0, "text without a unit '%s' is not zero", t.c_str());
}

static void options(G &g) {
    struct Opt {
        std::string s, l, val, probe_s, probe_l;
        bool given;
    };
    Opt o[2] = {{"-p", "--peak-size", "", "p", "peak-size", false},
                {"-v", "--verbose",   "", "v", "verbose",   false}};
    std::vector<std::string> av = {"hybridzip"};
    unsigned first = g.draw(1);
    bool help = false;
    for (unsigned k = 0; k < 2; k++) {
        Opt &x = o[(first + k) & 1];
        if (g.chance(5)) {
            av.push_back(g.boolean() ? "-h" : "--help");
            help = true;
        }
        if (!g.chance(75)) continue;
        x.given = true;
        switch (g.draw(3)) {
            case 0:
                x.val = std::to_string(g.u64());
                break;
            case 1:
                x.val = g.ascii(g.range(1, 12), "abcXYZ019_");
                break;
            case 2:
                x.val = std::to_string(g.below(100000)) + g.pick<const char *>({"b", "kb", "mb", "gb"});
                break;
            default:
                x.val = g.ascii(g.range(1, 8), "a.:/=+,%~ -b");
                if (x.val[0] == '-') x.val[0] = 'q';
                if (x.val[0] == ' ') x.val[0] = 'q';
        }
        unsigned form = g.draw(4);
        g.label(fmt("form%u", form));
        switch (form) {
            case 0:
                av.push_back(x.s);
                av.push_back(x.val);
                break;
            case 1:
                av.push_back(x.l);
                av.push_back(x.val);
                break;
            case 2:
                av.push_back(x.l + "=" + x.val);
                break;
            case 3:
                av.push_back(x.s + "=" + x.val);
                break;
            default:
                av.push_back(g.boolean() ? x.s : x.l); // no value
                x.val = "";
        }
    }
    bool bogus = g.chance(8);
    std::string bad;
    if (bogus) {
        bad = g.pick<const char *>({"--bogus", "-z", "--peak", "--peaksize", "--verbos", "--verbose-x", "--peak_size"});
        av.insert(av.begin() + 1, bad);
    }
    std::string line;
    for (auto &a: av) line += a + " ";
    g.note("%s", line.c_str());
    if (o[0].given || o[1].given) g.nontrivial();
    std::vector<const char *> argv;
    for (auto &a: av) argv.push_back(a.c_str());
    auto parser = build_parser();
    auto err = parser.parse((int) argv.size(), argv.data());
    if (bogus) {
        CHECK((bool) err, "the undeclared option %s is not reported", bad.c_str());
        return;
    }
    CHECK(!(bool) err, "a correct command line is refused: %s", err.what().c_str());
    CHECK(parser.exists("help") == help, "help is reported wrongly");
    for (auto &x: o) {
        for (auto &name: {x.s, x.l, x.probe_s, x.probe_l}) {
            CHECK(parser.exists(name) == x.given, "option %s is reported %s", name.c_str(), x.given ? "absent" : "present");
            if (x.given && name[0] != '-') { // values are looked up by bare name
                std::string v = parser.get<std::string>(name);
                CHECK(v == x.val, "option %s has value '%s', expected '%s'", name.c_str(), v.c_str(), x.val.c_str());
            }
        }
    }
}

std::vector<Prop> pbt::properties() { return {{"sizes", sizes, 150000, 3000000}, {"options", options, 60000, 1500000}}; }
