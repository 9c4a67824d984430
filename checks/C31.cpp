// C31: file-system helpers.
// BUILD: mode=asan
#include <pbt/pbt.h>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
#include <hzip_core/utils/fsutils.h>

using namespace pbt;
namespace fs = std::filesystem;
const char *pbt::property_id = "C31";
const char *pbt::rule = "random scratch trees (files of 0..20000 bytes, directories, read-only directories, symlinks to files/directories/nothing) and "
                        "sequences of helper calls on existing, missing, nested, over-long and unusual paths inside them; "
                        "non-trivial: at least one call on an existing entry and one on a missing one";

struct Entry {
    char kind; // f d l
    std::string data;

    bool operator==(const Entry &o) const { return kind == o.kind && data == o.data; }
};

static std::map<std::string, Entry> snapshot(const std::string &root) {
    std::map<std::string, Entry> m;
    for (auto it = fs::recursive_directory_iterator(root); it != fs::recursive_directory_iterator(); ++it) {
        auto p = it->path().string().substr(root.size() + 1);
        auto st = fs::symlink_status(it->path());
        if (fs::is_symlink(st)) m[p] = {'l', fs::read_symlink(it->path()).string()};
        else if (fs::is_directory(st)) m[p] = {'d', ""};
        else if (fs::is_fifo(st)) m[p] = {'p', ""};
        else {
            std::ifstream f(it->path(), std::ios::binary);
            m[p] = {'f', std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>())};
        }
    }
    return m;
}

static void tree(G &g) {
    std::string root = scratch() + "/t";
    mkdir(root.c_str(), 0777);
    std::vector<std::string> dirs = {""}, names, ro;
    uint64_t n = g.range(1, 8);
    for (uint64_t i = 0; i < n; i++) {
        std::string d = g.pick(dirs);
        std::string name = d + (d.empty() ? "" : "/") + fmt("%c%llu", "abc-."[g.below(5)], (unsigned long long) i) +
                           (g.chance(10) ? std::string(1, (char) g.range(128, 255)) : "") + (g.chance(10) ? " x" : "");
        std::string full = root + "/" + name;
        switch (g.weighted({5, 3, 1, 1, 1, 1})) {
            case 0: {
                auto b = g.bytes(g.size(0, 20000));
                std::ofstream(full, std::ios::binary).write((const char *) b.data(), b.size());
                break;
            }
            case 1:
                mkdir(full.c_str(), 0777);
                dirs.push_back(name);
                break;
            case 2:
                if (names.empty()) continue;
                if (symlink((root + "/" + g.pick(names)).c_str(), full.c_str()) != 0) continue;
                break;
            case 3:
                if (symlink((root + "/nowhere").c_str(), full.c_str()) != 0) continue;
                break;
            case 5:
                if (mkfifo(full.c_str(), 0666) != 0) continue;
                break;
            default:
                mkdir(full.c_str(), 0777);
                ro.push_back(full);
        }
        names.push_back(name);
    }
    for (auto &d: ro) chmod(d.c_str(), 0555);
    for (auto &d: ro) names.push_back(d.substr(root.size() + 1) + "/inside");
    auto ops = g.range(1, 8);
    bool on_existing = false, on_missing = false;
    for (uint64_t k = 0; k < ops; k++) {
        std::string name;
        switch (g.weighted({5, 2, 1, 1, 1})) {
            case 0:
                if (!names.empty()) {
                    name = g.pick(names);
                    break;
                }
                [[fallthrough]];
            case 1: {
                std::string d = g.pick(dirs);
                name = d + (d.empty() ? "" : "/") + "new" + std::to_string(g.below(3));
                break;
            }
            case 2:
                name = "missing/dir/file";
                break;
            case 3:
                name = std::string(g.range(250, 300), 'n');
                break;
            default:
                if (names.empty()) continue;
                name = g.pick(names) + "/below";
        }
        std::string full = root + "/" + name;
        struct stat st{}, lst{};
        int rs = stat(full.c_str(), &st), es = errno;
        int rl = lstat(full.c_str(), &lst);
        auto before = snapshot(root);
        unsigned op = g.weighted({3, 3, 3, 2});
        const char *opn = op == 0 ? "exists" : op == 1 ? "size" : op == 2 ? "create" : "delete";
        g.note("%s(%s) ", opn, name.size() > 60 ? "long-name" : name.c_str());
        g.label(opn);
        (rs == 0 ? on_existing : on_missing) = true;
        if (op == 0) {
            bool plain_error = rs == 0 || es == ENOENT || es == ENOTDIR;
            try {
                bool v = fsutils::check_if_file_exists(full);
                CHECK(v == (rs == 0 && !S_ISDIR(st.st_mode)), "check_if_file_exists(%s) is %d", name.c_str(), v);
            } catch (const Failure &) {
                throw;
            } catch (const std::exception &e) {
                CHECK(!plain_error, "check_if_file_exists(%s) threw %s", name.c_str(), e.what());
            }
            CHECK(snapshot(root) == before, "check_if_file_exists changed the file system");
        } else if (op == 1) {
            uint64_t v = fsutils::get_file_size(full);
            uint64_t want = rs == 0 && S_ISREG(st.st_mode) ? st.st_size : 0; // (nothing else has a size)
            CHECK(v == want, "get_file_size(%s) is %llu, expected %llu", name.c_str(), (unsigned long long) v, (unsigned long long) want);
            CHECK(snapshot(root) == before, "get_file_size changed the file system");
        } else if (op == 2) {
            if (rs == 0 && S_ISFIFO(st.st_mode)) continue; // (opening it waits for a reader)
            bool threw = false;
            try {
                fsutils::create_empty_file(full);
            } catch (const std::exception &) {
                threw = true;
            }
            auto after = snapshot(root);
            struct stat st2{};
            int r2 = stat(full.c_str(), &st2);
            std::string real = name;
            std::error_code ec;
            {
                // the place a write through links ends up
                auto c = fs::weakly_canonical(full, ec).string();
                if (!ec && c.rfind(root + "/", 0) == 0) real = c.substr(root.size() + 1);
            }
            bool created = r2 == 0 && S_ISREG(st2.st_mode) && st2.st_size == 0;
            // Can it be created at all? (opening it for writing here tells)
            FILE *fp = fopen(full.c_str(), "ab");
            bool possible = fp != nullptr;
            if (fp != nullptr) fclose(fp);
            if (possible) CHECK(created && !threw, "create_empty_file(%s) did not leave an empty file", name.c_str());
            auto b = before, c = after;
            for (auto *m: {&b, &c}) {
                m->erase(name);
                m->erase(real);
            }
            CHECK(b == c, "create_empty_file(%s) changed another entry", name.c_str());
            g.label(possible ? "create possible" : "create impossible");
        } else {
            bool dir_itself = rl == 0 && S_ISDIR(lst.st_mode);
            // where the entry itself lives (its directory may be reached through a link), and whether it may be removed there
            auto slash = full.rfind('/');
            std::error_code ec;
            auto dir = fs::weakly_canonical(full.substr(0, slash), ec).string();
            std::string real = name;
            if (!ec && dir.rfind(root + "/", 0) == 0) real = dir.substr(root.size() + 1) + full.substr(slash);
            else if (!ec && dir == root) real = full.substr(slash + 1);
            bool may = access(full.substr(0, slash).c_str(), W_OK | X_OK) == 0;
            fsutils::delete_file_if_exists(full);
            auto after = snapshot(root);
            if (dir_itself) {
                // Not a file. An empty directory may go, one with entries stays with them.
                if (after.size() < before.size()) before.erase(real);
                g.label("delete a directory");
            } else if (may) before.erase(real);
            CHECK(after == before, "delete_file_if_exists(%s) did not remove exactly that file", name.c_str());
        }
    }
    for (auto &d: ro) chmod(d.c_str(), 0777);
    if (on_existing && on_missing) g.nontrivial();
}

std::vector<Prop> pbt::properties() { return {{"tree", tree, 20000, 300000}}; }
