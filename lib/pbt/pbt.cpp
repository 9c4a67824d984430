#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <grp.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
    __attribute__((weak)) void (*process_init)() = nullptr;
    Kind current_kind = SINGLE;

    // ------------------------------------------------------------------ shared state of one child
    constexpr uint64_t max_choices = 1u << 20;
    constexpr uint64_t max_hashes = 1u << 20;

    struct LabelSlot {
        char name[56];
        uint64_t n;
    };

    struct Shm {
        std::atomic<uint32_t> status; // 0 running, 1 done, 2 failed, 3 discarded
        std::atomic<uint64_t> sub, index, case_no;
        std::atomic<uint64_t> start_ms; // monotonic, of the current case
        std::atomic<uint64_t> cpu_start_ms;
        uint64_t evals, nontrivial, discarded;
        uint64_t sub_evals[32];
        uint64_t n_choices;
        uint64_t n_hashes;
        char msg[8192];
        char notes[8192];
        LabelSlot labels[160];
        uint64_t n_labels;
        char samples[8][1024];
        uint64_t n_samples;
        uint64_t choices[max_choices];
        uint64_t hashes[max_hashes];
    };

    static Shm *cur = nullptr;

    static Shm *new_shm() {
        void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            _exit(2);
        }
        return (Shm *) p;
    }

    static uint64_t now_ms() {
        timespec t{};
        clock_gettime(CLOCK_MONOTONIC, &t);
        return (uint64_t) t.tv_sec * 1000 + t.tv_nsec / 1000000;
    }

    static uint64_t cpu_ms(pid_t pid) {
        clockid_t c;
        if (clock_getcpuclockid(pid, &c) != 0) return 0;
        timespec t{};
        if (clock_gettime(c, &t) != 0) return 0;
        return (uint64_t) t.tv_sec * 1000 + t.tv_nsec / 1000000;
    }

    // ------------------------------------------------------------------ basics
    std::string fmt(const char *f, ...) {
        va_list a;
        va_start(a, f);
        char buf[4096];
        vsnprintf(buf, sizeof(buf), f, a);
        va_end(a);
        return buf;
    }

    void fail(const char *f, ...) {
        va_list a;
        va_start(a, f);
        char buf[4096];
        vsnprintf(buf, sizeof(buf), f, a);
        va_end(a);
        throw Failure{buf};
    }

    static G *cur_g = nullptr;

    static void copy_out(char *dst, size_t n, const std::string &s) {
        size_t k = std::min(n - 1, s.size());
        memcpy(dst, s.data(), k);
        dst[k] = 0;
    }

    void fail_now(const char *f, ...) {
        va_list a;
        va_start(a, f);
        char buf[4096];
        vsnprintf(buf, sizeof(buf), f, a);
        va_end(a);
        if (cur != nullptr) {
            copy_out(cur->msg, sizeof(cur->msg), buf);
            if (cur_g != nullptr) copy_out(cur->notes, sizeof(cur->notes), cur_g->notes);
            cur->status = 2;
            _exit(3);
        }
        fprintf(stderr, "PBT-FAIL: %s\n", buf);
        abort();
    }

    uint64_t mix(uint64_t a, uint64_t b) {
        uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
        auto *b = (const uint8_t *) p;
        for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
        return mix(h, n);
    }

    Rng::Rng(uint64_t seed) {
        s[0] = mix(seed, 1);
        s[1] = mix(seed, 2) | 1;
    }

    uint64_t Rng::next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }

    uint64_t Rng::below(uint64_t n) { return n <= 1 ? 0 : next() % n; }

    std::string hex(const void *p, size_t n, size_t max) {
        auto *b = (const uint8_t *) p;
        std::string s;
        for (size_t i = 0; i < n && i < max; i++) s += fmt("%02x", b[i]);
        if (n > max) s += fmt("..(%zu bytes)", n);
        return s;
    }

    // ------------------------------------------------------------------ generation
    struct Overrun {
    };

    uint64_t G::draw_with(uint64_t bound, const std::function<uint64_t(Rng &)> &sampler) {
        uint64_t v = 0;
        if (mode == RANDOM) {
            v = sampler ? sampler(rng) : (bound == ~0ull ? rng.next() : rng.next() % (bound + 1));
            if (v > bound) v = bound;
        } else if (mode == REPLAY) {
            v = pos < in.size() ? in[pos] : 0;
            pos++;
            if (v > bound) v = bound;
        } else {
            int n = bound > 0xffffffffull ? 8 : bound > 0xffff ? 4 : bound > 0xff ? 2 : bound > 0 ? 1 : 0;
            for (int i = 0; i < n; i++) v |= (uint64_t) (pos < bn ? bp[pos++] : 0) << (8 * i);
            if (bound != ~0ull) v %= bound + 1;
        }
        if (cur != nullptr) {
            if (cur->n_choices >= max_choices || cur->n_choices >= budget) throw Overrun{};
            cur->choices[cur->n_choices++] = v;
        }
        return v;
    }

    uint64_t G::draw(uint64_t bound) { return draw_with(bound, nullptr); }

    bool G::chance(unsigned percent) {
        // Encoded so that 0 means false.
        if (percent == 0 || percent >= 100) return percent != 0;
        return draw_with(1, [percent](Rng &r) { return r.below(100) < percent ? 1 : 0; }) != 0;
    }

    size_t G::weighted(std::initializer_list<unsigned> w) {
        uint64_t tot = 0;
        for (auto x: w) tot += x;
        auto k = draw_with(w.size() - 1, [&](Rng &r) -> uint64_t {
            uint64_t v = r.below(tot), i = 0;
            for (auto x: w) {
                if (v < x) return i;
                v -= x;
                i++;
            }
            return 0;
        });
        if (*(w.begin() + k) > 0) return k;
        for (k = 0; *(w.begin() + k) == 0;) k++; // a weight of 0 is never chosen, while shrinking either
        return k;
    }

    uint64_t G::size(uint64_t lo, uint64_t hi) {
        return lo + draw_with(hi - lo, [lo, hi](Rng &r) -> uint64_t {
            uint64_t span = hi - lo;
            if (span == 0) return 0;
            unsigned k = r.below(20);
            if (k < 10) return r.below(std::min<uint64_t>(span, 16) + 1);
            if (k < 19) {
                // log-uniform
                unsigned bits = 64 - __builtin_clzll(span);
                uint64_t m = r.below(bits + 1);
                uint64_t v = m == 0 ? 0 : (1ull << (m - 1)) + r.below(1ull << (m - 1));
                return std::min(v, span);
            }
            return r.below(4) == 0 ? span : r.below(span + 1);
        });
    }

    uint64_t G::u64(uint64_t max) {
        return draw_with(max, [max](Rng &r) -> uint64_t {
            uint64_t v;
            switch (r.below(6)) {
                case 0:
                    v = r.below(8);
                    break;
                case 1:
                    v = max - r.below(std::min<uint64_t>(max, 4) + 1);
                    break;
                case 2:
                    v = (1ull << r.below(64)) + r.below(3) - 1;
                    break;
                case 3:
                    v = r.next() >> r.below(64);
                    break;
                default:
                    v = r.next();
            }
            return max == ~0ull ? v : (v > max ? v % (max + 1) : v);
        });
    }

    Rng G::sub() { return Rng(draw(0xffffffffull)); }

    static void fill(std::vector<uint8_t> &v, unsigned style, Rng &r) {
        size_t n = v.size();
        switch (style) {
            default:
            case 0: { // one repeated byte
                uint8_t b = r.next();
                for (auto &x: v) x = b;
                break;
            }
            case 1: { // small alphabet
                uint8_t base = r.next();
                unsigned k = 2 + r.below(4);
                for (auto &x: v) x = base + r.below(k);
                break;
            }
            case 2: { // runs
                size_t i = 0;
                while (i < n) {
                    uint8_t b = r.below(3) ? r.below(4) : r.next();
                    size_t k = 1 + r.below(1 + r.below(300));
                    while (k-- && i < n) v[i++] = b;
                }
                break;
            }
            case 3: { // periodic with period 1..40 and rare errors
                uint8_t p[40];
                unsigned k = 1 + r.below(40);
                for (auto &x: p) x = r.next();
                for (size_t i = 0; i < n; i++) v[i] = p[i % k];
                for (unsigned e = r.below(4); e-- && n;) v[r.below(n)] = r.next();
                break;
            }
            case 4: { // text-like
                static const char w[] = "the of and to in is hybridzip archive stream encode compress a 0123456789\n";
                size_t i = 0;
                while (i < n) {
                    size_t s = r.below(sizeof(w) - 1), k = 1 + r.below(12);
                    while (k-- && i < n) v[i++] = w[s++ % (sizeof(w) - 1)];
                }
                break;
            }
            case 5: { // extreme bytes
                static const uint8_t e[] = {0, 1, 127, 128, 254, 255};
                for (auto &x: v) x = e[r.below(6)];
                break;
            }
            case 6: { // skewed (geometric)
                uint8_t base = r.next();
                for (auto &x: v) x = base + __builtin_ctzll(r.next() | (1ull << 60));
                break;
            }
            case 7: // uniform random
                for (auto &x: v) x = r.next() >> 24;
                break;
            case 8: { // ramp
                uint8_t b = r.next(), d = 1 + r.below(3);
                for (auto &x: v) x = b += d;
                break;
            }
        }
    }

    std::vector<uint8_t> G::bytes(uint64_t n) {
        std::vector<uint8_t> v(n);
        if (n <= 24) {
            unsigned st = draw(1);
            for (auto &x: v) {
                x = st == 0 ? draw_with(255, [](Rng &r) { return r.below(3); }) : draw(255);
            }
        } else {
            unsigned st = draw(8);
            Rng r = sub();
            fill(v, st, r);
        }
        return v;
    }

    std::vector<uint8_t> G::data(uint64_t max) { return bytes(size(0, max)); }

    std::string G::ascii(uint64_t n, const char *alphabet) {
        std::string s;
        size_t k = strlen(alphabet);
        for (uint64_t i = 0; i < n; i++) s += alphabet[below(k)];
        return s;
    }

    void G::note(const char *f, ...) {
        if (notes.size() > 7000) return;
        va_list a;
        va_start(a, f);
        char buf[2048];
        vsnprintf(buf, sizeof(buf), f, a);
        va_end(a);
        notes += buf;
        if (cur != nullptr) copy_out(cur->notes, sizeof(cur->notes), notes);
    }

    // ------------------------------------------------------------------ scratch directories
    static std::string scratch_dir;

    const std::string &scratch() { return scratch_dir; }

    static void rm_tree(const std::string &d) {
        // Only ever called with a directory this engine created under its own base.
        if (d.rfind("/tmp/verif.pbt.", 0) != 0) return;
        std::error_code ec;
        std::filesystem::remove_all(d, ec);
    }

    void rm_scratch_contents() {
        if (scratch_dir.rfind("/tmp/verif.pbt.", 0) != 0) return;
        std::error_code ec;
        for (auto &e: std::filesystem::directory_iterator(scratch_dir, ec)) std::filesystem::remove_all(e.path(), ec);
    }

    static std::string base_dir;
    static bool is_thorough = false;

    std::string shared_dir() { return base_dir + "/shared"; }

    static void make_shared_dir() {
        mkdir(shared_dir().c_str(), 0777);
        chmod(shared_dir().c_str(), 0777);
    }

    bool thorough() { return is_thorough; }

    static void enter_child(const std::string &tag) {
        scratch_dir = base_dir + "/" + tag;
        mkdir(scratch_dir.c_str(), 0777);
        chmod(scratch_dir.c_str(), 0777);
        int fd = open((base_dir + "/" + tag + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0666);
        if (fd >= 0) {
            dup2(fd, 2);
            dup2(fd, 1);
            close(fd);
        }
        int nul = open("/dev/null", O_RDONLY);
        if (nul >= 0) {
            dup2(nul, 0);
            close(nul);
        }
        if (chdir(scratch_dir.c_str()) != 0) _exit(2);
        signal(SIGPIPE, SIG_IGN);
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        rlimit fs{1ull << 30, 1ull << 30};
        setrlimit(RLIMIT_FSIZE, &fs);
        // The code under test runs as an unprivileged user that owns only its scratch directory.
        if (geteuid() == 0 && getenv("PBT_KEEP_ROOT") == nullptr) {
            if (chown(scratch_dir.c_str(), 65534, 65534) != 0) {}
            if (setgroups(0, nullptr) != 0) {}
            if (setgid(65534) != 0) {}
            if (setuid(65534) != 0) {}
        }
        setenv("HOME", scratch_dir.c_str(), 1);
        setenv("TMPDIR", scratch_dir.c_str(), 1);
    }

    static std::string err_tail(const std::string &tag) {
        std::ifstream f(base_dir + "/" + tag + ".err");
        std::string line, out;
        std::vector<std::string> v;
        bool in_rep = false;
        int kept = 0;
        while (std::getline(f, line)) {
            bool mark = line.find("STANDIN-FATAL") != std::string::npos ||
                        line.find("ERROR: AddressSanitizer") != std::string::npos ||
                        line.find("runtime error:") != std::string::npos || line.find("terminate") != std::string::npos ||
                        line.find("what():") != std::string::npos || line.find("Assertion") != std::string::npos ||
                        line.find("ThreadSanitizer") != std::string::npos;
            if (mark) {
                in_rep = true;
                kept = 0;
            }
            if (in_rep && kept++ < 10) v.push_back(line);
        }
        size_t s = v.size() > 14 ? v.size() - 14 : 0;
        for (size_t i = s; i < v.size(); i++) out += v[i] + "\n";
        return out.substr(0, 2500);
    }

    // ------------------------------------------------------------------ running cases
    static std::vector<Prop> props;
    static uint64_t base_seed = 1;

    static uint64_t case_seed(uint64_t sub, uint64_t index) {
        uint64_t h = hash_bytes(property_id, strlen(property_id));
        h = mix(h, hash_bytes(props[sub].name, strlen(props[sub].name)));
        return mix(mix(h, base_seed), index);
    }

    enum Res {
        OK, FAILED, DISCARD
    };

    static Res run_case(uint64_t sub, G &g) {
        cur->sub = sub;
        cur->n_choices = 0;
        cur->msg[0] = 0;
        cur->notes[0] = 0;
        cur->start_ms = now_ms();
        cur->case_no++;
        current_kind = props[sub].kind;
        cur_g = &g;
        Res r = OK;
        try {
            props[sub].fn(g);
        } catch (const Failure &f) {
            copy_out(cur->msg, sizeof(cur->msg), f.msg);
            r = FAILED;
        } catch (const Overrun &) {
            r = DISCARD;
        } catch (const std::exception &e) {
            copy_out(cur->msg, sizeof(cur->msg), std::string("unexpected exception escaped: ") + e.what());
            r = FAILED;
        } catch (...) {
            copy_out(cur->msg, sizeof(cur->msg), "unexpected non-standard exception escaped");
            r = FAILED;
        }
        copy_out(cur->notes, sizeof(cur->notes), g.notes);
        cur_g = nullptr;
        return r;
    }

    static void account(uint64_t sub, G &g, Res r) {
        cur->evals++;
        cur->sub_evals[sub & 31]++;
        if (r == DISCARD) {
            cur->discarded++;
            return;
        }
        if (g.is_nontrivial) {
            cur->nontrivial++;
            uint64_t h = hash_bytes(cur->choices, cur->n_choices * 8, sub);
            if (cur->n_hashes < max_hashes) cur->hashes[cur->n_hashes++] = h;
            uint64_t k = cur->nontrivial;
            if (cur->n_samples < 8 && (k == 1 || k == 7 || k == 40 || k == 150 || k == 600) && !g.notes.empty()) {
                copy_out(cur->samples[cur->n_samples++], 1024,
                         std::string(props[sub].name) + ": " + g.notes.substr(0, 900));
            }
        }
        for (auto &l: g.labels) {
            std::string name = std::string(props[sub].name) + "/" + l;
            uint64_t i = 0;
            for (; i < cur->n_labels; i++) if (name.compare(0, 55, cur->labels[i].name) == 0) break;
            if (i == cur->n_labels) {
                if (i >= 160) continue;
                copy_out(cur->labels[i].name, 56, name.substr(0, 55));
                cur->n_labels++;
            }
            cur->labels[i].n++;
        }
    }

    struct Job { // cases first, first+stride, ... of sub
        uint64_t sub, first, stride, end;
    };

    [[noreturn]] static void worker(Shm *shm, const std::string &tag, const std::vector<Job> &jobs) {
        cur = shm;
        enter_child(tag);
        if (process_init != nullptr) process_init();
        for (auto &j: jobs) {
            for (uint64_t i = j.first; i < j.end; i += j.stride) {
                G g;
                g.rng = Rng(case_seed(j.sub, i));
                shm->index = i;
                Res r = run_case(j.sub, g);
                if (r == FAILED) {
                    shm->status = 2;
                    _exit(3);
                }
                account(j.sub, g, r);
                rm_scratch_contents();
                if (shm->case_no % 64 == 0) { if (ftruncate(2, 0) != 0) {}}
            }
        }
        shm->status = 1;
        _exit(0);
    }

    struct Outcome {
        bool failed = false, hang = false, discarded = false;
        std::string msg, notes;
        std::vector<uint64_t> choices;
    };

    static std::set<pid_t> kids;

    static void kill_kids() {
        for (auto p: kids) {
            kill(-p, SIGKILL);
            kill(p, SIGKILL);
        }
    }

    static void become_leader() {
        setpgid(0, 0);
    }

    static uint64_t single_counter = 0;

    // Wait for a child, killing it when it hangs. Returns true when it ended by itself.
    static bool wait_child(pid_t pid, Shm *shm, double wall_s, int *st) {
        uint64_t t0 = now_ms(), c0 = 0;
        uint64_t seen = shm->case_no;
        unsigned us = 300;
        while (true) {
            pid_t r = waitpid(pid, st, WNOHANG);
            if (r == pid) return true;
            if (shm->case_no != seen) {
                seen = shm->case_no;
                t0 = now_ms();
                c0 = cpu_ms(pid);
            }
            uint64_t w = now_ms() - t0, c = cpu_ms(pid) - c0;
            // Busy for the whole allowance, or stuck without using the processor.
            if ((c > wall_s * 1000) || (w > wall_s * 1000 && c < w / 20) || w > wall_s * 8000) {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, st, 0);
                return false;
            }
            usleep(us);
            if (us < 5000) us += us / 4;
        }
    }

    static std::string crash_text(int st, const std::string &tag) {
        std::string t = err_tail(tag);
        std::string s;
        if (WIFSIGNALED(st)) s = fmt("process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else s = fmt("process ended with status %d", WEXITSTATUS(st));
        return s + (t.empty() ? "" : "\n" + t);
    }

    // Run one case (or a whole sequence of random cases) in a fresh child.
    static Outcome run_isolated(uint64_t sub, const std::vector<uint64_t> *choices, uint64_t index, const Job *seq,
                                double wall_s) {
        static Shm *shm = nullptr;
        if (shm == nullptr) shm = new_shm();
        shm->status = 0;
        shm->case_no = 0;
        shm->n_choices = 0;
        shm->evals = shm->nontrivial = shm->discarded = shm->n_hashes = shm->n_labels = shm->n_samples = 0;
        shm->msg[0] = shm->notes[0] = 0;
        std::string tag = fmt("s%" PRIu64, single_counter++ % 64);
        pid_t pid = fork();
        if (pid == 0) {
            become_leader();
            if (seq != nullptr) worker(shm, tag, {*seq});
            cur = shm;
            enter_child(tag);
            if (process_init != nullptr) process_init();
            G g;
            if (choices != nullptr) {
                g.mode = G::REPLAY;
                g.in = *choices;
            } else {
                g.rng = Rng(case_seed(sub, index));
            }
            Res r = run_case(sub, g);
            shm->status = r == FAILED ? 2 : r == DISCARD ? 3 : 1;
            _exit(r == FAILED ? 3 : 0);
        }
        kids.insert(pid);
        int st = 0;
        bool ended = wait_child(pid, shm, wall_s, &st);
        kill(-pid, SIGKILL);
        kids.erase(pid);
        Outcome o;
        o.choices.assign(shm->choices, shm->choices + std::min(shm->n_choices, max_choices));
        o.notes = shm->notes;
        if (!ended) {
            o.failed = o.hang = true;
            o.msg = "no progress: the case never finished (hang or deadlock)";
        } else if (shm->status == 2) {
            o.failed = true;
            o.msg = shm->msg;
        } else if (shm->status == 1) {
        } else if (shm->status == 3) {
            o.discarded = true;
        } else {
            o.failed = true;
            o.msg = crash_text(st, tag);
        }
        rm_tree(base_dir + "/" + tag);
        return o;
    }

    // ------------------------------------------------------------------ shrinking
    int phase = 0;

    static Outcome shrink(uint64_t sub, Outcome best, uint64_t max_attempts, double max_s, uint64_t &attempts) {
        uint64_t t0 = now_ms();
        double wall = best.hang ? std::min(3.0, (double) props[sub].wall_s) : props[sub].wall_s;
        bool was_hang = best.hang;
        auto spent = [&] { return attempts >= max_attempts || (now_ms() - t0) / 1000.0 > max_s; };
        auto try_ = [&](const std::vector<uint64_t> &c) {
            if (spent()) return false;
            attempts++;
            Outcome o = run_isolated(sub, &c, 0, nullptr, wall);
            if (!o.failed || o.hang != was_hang) return false;
            // keep only real progress: shorter, or lexicographically smaller
            if (o.choices.size() > best.choices.size()) return false;
            if (o.choices.size() == best.choices.size() && !(o.choices < best.choices)) return false;
            best = o;
            return true;
        };
        bool progress = true;
        while (progress && !spent()) {
            progress = false;
            for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1 && !spent(); k /= 2) {
                for (size_t i = best.choices.size(); i-- > 0 && !spent();) {
                    if (i + k > best.choices.size()) continue;
                    auto c = best.choices;
                    c.erase(c.begin() + i, c.begin() + i + k);
                    if (try_(c)) {
                        progress = true;
                    } else if (k > 1) {
                        i -= std::min(i, k / 2);
                    }
                }
            }
            for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 2 && !spent(); k /= 2) {
                for (size_t i = 0; i + k <= best.choices.size() && !spent(); i += k) {
                    auto c = best.choices;
                    bool any = false;
                    for (size_t j = i; j < i + k; j++) {
                        any |= c[j] != 0;
                        c[j] = 0;
                    }
                    if (any && try_(c)) progress = true;
                }
            }
            for (size_t i = 0; i < best.choices.size() && !spent(); i++) {
                if (best.choices[i] == 0) continue;
                auto c = best.choices;
                c[i] = 0;
                if (try_(c)) {
                    progress = true;
                    continue;
                }
                uint64_t lo = 0, hi = best.choices[i];
                while (lo + 1 < hi && !spent()) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    c = best.choices;
                    if (i >= c.size()) break;
                    c[i] = mid;
                    if (try_(c)) {
                        progress = true;
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                }
                // shorten: decrement a count and drop what it introduced
                for (size_t k = 1; k <= 6 && i < best.choices.size() && best.choices[i] > 0; k++) {
                    c = best.choices;
                    c[i]--;
                    if (i + 1 + k > c.size()) break;
                    c.erase(c.begin() + i + 1, c.begin() + i + 1 + k);
                    if (try_(c)) {
                        progress = true;
                        break;
                    }
                }
            }
        }
        return best;
    }

    // ------------------------------------------------------------------ output
    static std::string jstr(const std::string &s) {
        std::string o = "\"";
        for (unsigned char c: s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += (char) c;
            } else if (c == '\n') o += "\\n";
            else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
            else o += (char) c;
        }
        return o + "\"";
    }

    static std::string write_replay(const std::string &dir, uint64_t sub, const Outcome &o, const Job *seq) {
        mkdir(dir.c_str(), 0777);
        std::ostringstream s;
        s << "property " << property_id << "\nsub " << props[sub].name << "\nseed " << base_seed << "\n";
        if (seq != nullptr) {
            s << "sequence " << seq->first << " " << seq->stride << " " << seq->end << "\n";
        } else {
            s << "choices";
            for (auto c: o.choices) s << " " << c;
            s << "\n";
        }
        s << "--- message\n" << o.msg << "\n--- case\n" << o.notes << "\n";
        uint64_t h = hash_bytes(s.str().data(), s.str().size());
        std::string path = fmt("%s/%s-%s-%016" PRIx64 ".replay", dir.c_str(), property_id, props[sub].name, h);
        std::ofstream(path) << s.str();
        return path;
    }

    struct Args {
        std::string tier = "quick", evidence, replay_dir = "/verif/replays", replay, fuzz_file, only, level = "exploration";
        uint64_t seed = 1;
        double scale = 1.0;
        unsigned jobs = 8;
        bool no_shrink = false;
        uint64_t only_index = ~0ull;
    };

    static int confirm_and_report(const Args &a, uint64_t sub, Outcome o, const Job *seq, std::string &out_path) {
        // Re-run: every re-run must fail (most of them, with real threads).
        const int need = 3, runs = props[sub].kind == REALTIME ? 5 : 3;
        auto repeated = [&](const std::vector<uint64_t> *c, Outcome &last) {
            int bad = 0;
            double wall = props[sub].wall_s;
            for (int i = 0; i < runs && bad < need && runs - i >= need - bad; i++) {
                Outcome p = seq != nullptr ? run_isolated(sub, nullptr, 0, seq, wall) : run_isolated(sub, c, 0, nullptr, wall);
                if (p.failed) {
                    bad++;
                    last = p;
                    if (p.hang && wall > 25) wall = 25;
                }
            }
            return bad >= need;
        };
        Outcome last;
        uint64_t t0 = now_ms();
        phase = 1;
        bool sure = repeated(&o.choices, last);
        phase = 0;
        if (!sure) return 0;
        double each = (now_ms() - t0) / 1000.0 / need;
        if (seq == nullptr && !a.no_shrink) {
            uint64_t attempts = 0;
            phase = 2;
            Outcome s = shrink(sub, last, is_thorough ? 6000 : 2500, is_thorough ? 120 : 45, attempts);
            phase = 1;
            if (s.choices != last.choices || each < 5) {
                Outcome l2;
                if (repeated(&s.choices, l2)) last = l2;
            }
            phase = 0;
            fprintf(stderr, "[pbt] shrunk %zu -> %zu choices in %" PRIu64 " attempts\n", o.choices.size(),
                    last.choices.size(), attempts);
        }
        out_path = write_replay(a.replay_dir, sub, last, seq);
        printf("--- failing case (%s)\n%s\n--- why\n%s\n", props[sub].name, last.notes.c_str(), last.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", property_id, out_path.c_str());
        fflush(stdout);
        return 1;
    }

    static int do_replay(const Args &a) {
        std::ifstream f(a.replay);
        std::string line, subname;
        std::vector<uint64_t> ch;
        Job seq{};
        bool has_seq = false;
        while (std::getline(f, line)) {
            std::istringstream s(line);
            std::string w;
            s >> w;
            if (w == "sub") s >> subname;
            if (w == "seed") s >> base_seed;
            if (w == "sequence") {
                s >> seq.first >> seq.stride >> seq.end;
                has_seq = true;
            }
            if (w == "choices") {
                uint64_t v;
                while (s >> v) ch.push_back(v);
            }
            if (w == "---") break;
        }
        for (uint64_t i = 0; i < props.size(); i++) {
            if (subname != props[i].name) continue;
            seq.sub = i;
            phase = 1;
            Outcome o = has_seq ? run_isolated(i, nullptr, 0, &seq, props[i].wall_s)
                                : run_isolated(i, &ch, 0, nullptr, props[i].wall_s);
            printf("--- case\n%s\n", o.notes.c_str());
            if (o.failed) {
                printf("--- why\n%s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), property_id, a.replay.c_str());
                return 1;
            }
            printf("replay: the property held\n");
            return 0;
        }
        fprintf(stderr, "replay file does not match this check\n");
        return 2;
    }

    static int do_fuzz_file(const Args &a) {
        // A libFuzzer input: first byte picks the sub-property, the rest are the choices.
        std::ifstream f(a.fuzz_file, std::ios::binary);
        std::string b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (b.empty()) return 0;
        uint64_t sub = (uint8_t) b[0] % props.size();
        Shm *shm = new_shm();
        pid_t pid = fork();
        if (pid == 0) {
            become_leader();
            cur = shm;
            enter_child("fz");
            if (process_init != nullptr) process_init();
            G g;
            g.mode = G::BYTES;
            g.bp = (const uint8_t *) b.data() + 1;
            g.bn = b.size() - 1;
            Res r = run_case(sub, g);
            _exit(r == FAILED ? 3 : 0);
        }
        int st;
        bool ended = wait_child(pid, shm, props[sub].wall_s, &st);
        Outcome o;
        o.choices.assign(shm->choices, shm->choices + shm->n_choices);
        o.hang = !ended;
        if (ended && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        std::string path;
        return confirm_and_report(a, sub, o, nullptr, path);
    }

    int engine_main(int argc, char **argv) {
        Args a;
        for (int i = 1; i < argc; i++) {
            std::string s = argv[i];
            auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
            if (s == "--tier") a.tier = val();
            else if (s == "--seed") a.seed = strtoull(val().c_str(), nullptr, 10);
            else if (s == "--evidence") a.evidence = val();
            else if (s == "--replay-dir") a.replay_dir = val();
            else if (s == "--replay") a.replay = val();
            else if (s == "--fuzz-file") a.fuzz_file = val();
            else if (s == "--only") a.only = val();
            else if (s == "--index") a.only_index = strtoull(val().c_str(), nullptr, 10);
            else if (s == "--scale") a.scale = strtod(val().c_str(), nullptr);
            else if (s == "--jobs") a.jobs = strtoul(val().c_str(), nullptr, 10);
            else if (s == "--no-shrink") a.no_shrink = true;
            else if (s == "--level") a.level = val();
        }
        is_thorough = a.tier == "thorough";
        base_seed = a.seed;
        props = properties();
        base_dir = fmt("/tmp/verif.pbt.%d.%" PRIu64, getpid(), now_ms());
        mkdir(base_dir.c_str(), 0777);
        make_shared_dir();
        chmod(base_dir.c_str(), 0777);
        int rc = 0;
        if (!a.replay.empty()) {
            rc = do_replay(a);
            rm_tree(base_dir);
            return rc;
        }
        if (!a.fuzz_file.empty()) {
            rc = do_fuzz_file(a);
            rm_tree(base_dir);
            return rc;
        }
        if (a.only_index != ~0ull) {
            for (uint64_t i = 0; i < props.size(); i++) {
                if (a.only != props[i].name) continue;
                Outcome o = run_isolated(i, nullptr, a.only_index, nullptr, props[i].wall_s);
                printf("--- case\n%s\n--- %s\n%s\n", o.notes.c_str(), o.failed ? "FAILED" : "ok", o.msg.c_str());
            }
            rm_tree(base_dir);
            return 0;
        }
        uint64_t t0 = now_ms();

        struct W {
            pid_t pid = -1;
            Shm *shm = nullptr;
            std::string tag;
            std::vector<Job> jobs;
            uint64_t seen = 0, t = 0, c = 0;
        };
        unsigned nw = a.jobs;
        std::vector<W> ws;
        uint64_t total_evals = 0, unconfirmed = 0, total_discarded = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        std::map<std::string, uint64_t> per_sub;
        std::vector<std::string> unconf_msgs;

        auto harvest = [&](W &w) {
            Shm *s = w.shm;
            total_evals += s->evals;
            total_discarded += s->discarded;
            for (uint64_t i = 0; i < s->n_hashes; i++) distinct.insert(s->hashes[i]);
            for (uint64_t i = 0; i < s->n_labels; i++) labels[s->labels[i].name] += s->labels[i].n;
            for (uint64_t i = 0; i < s->n_samples && samples.size() < 14; i++) samples.push_back(s->samples[i]);
            for (uint64_t i = 0; i < props.size() && i < 32; i++) per_sub[props[i].name] += s->sub_evals[i];
        };
        auto reset = [](Shm *s) {
            s->status = 0;
            s->case_no = 0;
            s->evals = s->nontrivial = s->discarded = s->n_hashes = s->n_labels = s->n_samples = 0;
            memset(s->sub_evals, 0, sizeof(s->sub_evals));
        };
        auto start = [&](W &w) {
            reset(w.shm);
            pid_t pid = fork();
            if (pid == 0) {
                become_leader();
                worker(w.shm, w.tag, w.jobs);
            }
            setpgid(pid, pid);
            kids.insert(pid);
            w.pid = pid;
            w.seen = 0;
            w.t = now_ms();
            w.c = 0;
        };

        for (unsigned k = 0; k < nw; k++) {
            W w;
            w.shm = new_shm();
            w.tag = fmt("w%u", k);
            for (uint64_t i = 0; i < props.size(); i++) {
                if (!a.only.empty() && a.only != props[i].name) continue;
                uint64_t n = is_thorough ? props[i].thorough : props[i].quick;
                if (n == 0) continue;
                n = std::max<uint64_t>(1, (uint64_t) (n * a.scale));
                if (k < props[i].jobs) w.jobs.push_back({i, k, std::min(nw, props[i].jobs), n});
            }
            ws.push_back(w);
        }
        for (auto &w: ws) start(w);

        bool violated = false;
        std::string vpath, vmsg;
        std::map<uint64_t, unsigned> unconf_per_sub;
        while (!violated) {
            bool alive = false;
            for (auto &w: ws) {
                if (w.pid < 0) continue;
                int st = 0;
                bool hang = false;
                pid_t r = waitpid(w.pid, &st, WNOHANG);
                if (r == 0) {
                    alive = true;
                    uint64_t cn = w.shm->case_no;
                    if (cn != w.seen) {
                        w.seen = cn;
                        w.t = now_ms();
                        w.c = cpu_ms(w.pid);
                        continue;
                    }
                    uint64_t wall = now_ms() - w.t, c = cpu_ms(w.pid) - w.c;
                    double lim = props[w.shm->sub].wall_s * 1000.0;
                    if (cn == 0) lim = std::max(lim, 60000.0);
                    if (!((c > lim) || (wall > lim && c < wall / 20) || wall > lim * 8)) continue;
                    kill(-w.pid, SIGKILL);
                    kill(w.pid, SIGKILL);
                    waitpid(w.pid, &st, 0);
                    hang = true;
                }
                kill(-w.pid, SIGKILL);
                kids.erase(w.pid);
                w.pid = -1;
                harvest(w);
                if (!hang && w.shm->status == 1) continue;
                // A case failed, crashed or hung.
                uint64_t sub = w.shm->sub, idx = w.shm->index;
                if (w.shm->case_no == 0) {
                    fprintf(stderr, "[pbt] worker could not start: %s\n", crash_text(st, w.tag).c_str());
                    kill_kids();
                    rm_tree(base_dir);
                    return 2;
                }
                Outcome first = run_isolated(sub, nullptr, idx, nullptr, props[sub].wall_s);
                int conf = 0;
                if (!first.failed && props[sub].kind == REALTIME) {
                    for (int i = 0; i < 4 && !first.failed; i++)
                        first = run_isolated(sub, nullptr, idx, nullptr, props[sub].wall_s);
                }
                if (first.failed) conf = confirm_and_report(a, sub, first, nullptr, vpath);
                Job seq{};
                if (!conf && props[sub].kind != REALTIME) {
                    for (auto &j: w.jobs)
                        if (j.sub == sub) seq = {sub, j.first, j.stride, idx + 1};
                    Outcome o;
                    conf = confirm_and_report(a, sub, o, &seq, vpath);
                }
                if (conf) {
                    violated = true;
                    break;
                }
                unconfirmed++;
                unconf_per_sub[sub]++;
                if (unconf_msgs.size() < 5)
                    unconf_msgs.push_back(fmt("%s case %" PRIu64 ": %s", props[sub].name, idx,
                                              hang ? "slow" : w.shm->status == 2 ? w.shm->msg : crash_text(st, w.tag).c_str()));
                // Continue behind it.
                std::vector<Job> rest;
                bool past = false;
                for (auto j: w.jobs) {
                    if (j.sub == sub) {
                        past = true;
                        j.first = idx + j.stride;
                        if (j.first < j.end && unconf_per_sub[sub] < 12) rest.push_back(j);
                    } else if (past) rest.push_back(j);
                }
                w.jobs = rest;
                if (!rest.empty()) {
                    start(w);
                    alive = true;
                }
            }
            if (!alive) break;
            usleep(5000);
        }
        kill_kids();
        for (auto p: kids) waitpid(p, nullptr, 0);
        if (violated) for (auto &w: ws) if (w.pid >= 0) harvest(w);

        double wall = (now_ms() - t0) / 1000.0;
        if (!a.evidence.empty()) {
            std::ostringstream s;
            s << "{\n \"property\": " << jstr(property_id) << ",\n \"tier\": " << jstr(a.tier) << ",\n \"seed\": " << a.seed
              << ",\n \"level\": " << jstr(a.level) << ",\n \"coverage\": {\n  \"evaluations\": " << total_evals
              << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jstr(rule)
              << ",\n  \"cases_per_generator\": {";
            bool f = true;
            for (auto &p: per_sub) {
                s << (f ? "" : ", ") << jstr(p.first) << ": " << p.second;
                f = false;
            }
            s << "},\n  \"discarded\": " << total_discarded << ",\n  \"unconfirmed_failures\": " << unconfirmed
              << ",\n  \"classes\": {";
            f = true;
            for (auto &l: labels) {
                s << (f ? "" : ", ") << jstr(l.first) << ": " << l.second;
                f = false;
            }
            s << "},\n  \"samples\": [";
            f = true;
            for (auto &x: samples) {
                s << (f ? "\n   " : ",\n   ") << jstr(x);
                f = false;
            }
            s << "]";
            if (!unconf_msgs.empty()) {
                s << ",\n  \"unconfirmed\": [";
                f = true;
                for (auto &x: unconf_msgs) {
                    s << (f ? "" : ", ") << jstr(x);
                    f = false;
                }
                s << "]";
            }
            s << "\n },\n \"assumptions\": [],\n \"wall_s\": " << fmt("%.2f", wall) << ",\n \"violations\": "
              << (violated ? 1 : 0) << "\n}\n";
            std::ofstream(a.evidence) << s.str();
        }
        fprintf(stderr, "[pbt] %s: %" PRIu64 " cases, %zu distinct non-trivial, %" PRIu64 " unconfirmed, %.1fs\n",
                property_id, total_evals, distinct.size(), unconfirmed, wall);
        for (auto &m: unconf_msgs) fprintf(stderr, "[pbt] unconfirmed: %s\n", m.c_str());
        if (getenv("PBT_VERBOSE") != nullptr)
            for (auto &l: labels) fprintf(stderr, "   %-56s %" PRIu64 "\n", l.first.c_str(), l.second);
        rm_tree(base_dir);
        return violated ? 1 : 0;
    }
}

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    using namespace pbt;
    static bool init = false;
    if (!init) {
        init = true;
        props = properties();
        cur = new_shm();
        base_dir = fmt("/tmp/verif.pbt.fz.%d.%" PRIu64, getpid(), now_ms());
        mkdir(base_dir.c_str(), 0777);
        make_shared_dir();
        scratch_dir = base_dir + "/f";
        mkdir(scratch_dir.c_str(), 0777);
        signal(SIGPIPE, SIG_IGN);
        if (process_init != nullptr) process_init();
        atexit([] { rm_tree(base_dir); });
    }
    if (n < 1) return 0;
    G g;
    g.mode = G::BYTES;
    g.bp = d + 1;
    g.bn = n - 1;
    uint64_t sub = d[0] % props.size();
    Res r = run_case(sub, g);
    if (r == FAILED) {
        fprintf(stderr, "PBT-FAIL: %s\n", cur->msg);
        abort();
    }
    rm_scratch_contents();
    return 0;
}
#else
int main(int argc, char **argv) { return pbt::engine_main(argc, argv); }
#endif
