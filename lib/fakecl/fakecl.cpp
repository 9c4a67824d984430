#include "fakecl.h"
#define CL_TARGET_OPENCL_VERSION 300
#include <CL/cl.h>
#include <CL/cl_ext.h>
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <regex>
#include <spawn.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <pbt/pbt.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define FAKECL_ASAN "-fsanitize=address",
#endif
#endif
#ifndef FAKECL_ASAN
#define FAKECL_ASAN
#endif

extern char **environ;

struct Obj {
    uint32_t magic;
    std::atomic<int> refs{1};

    explicit Obj(uint32_t m) : magic(m) {}
};

struct _cl_platform_id {
    std::string name;
    std::vector<cl_device_id> devices;
};

struct _cl_device_id {
    fakecl::DeviceSpec spec;
    cl_platform_id platform;
};

struct _cl_context : Obj {
    std::vector<cl_device_id> devices;

    _cl_context() : Obj(0xC0) {}
};

struct Module {
    void *so = nullptr;
    std::map<std::string, unsigned> kernels; // name -> argument count
    std::string log;
};

struct _cl_program : Obj {
    cl_context ctx;
    std::string src;
    std::string opts, log;
    cl_build_status status = CL_BUILD_NONE;
    std::shared_ptr<Module> mod;

    _cl_program() : Obj(0xC1) {}
};

struct _cl_mem : Obj {
    cl_context ctx;
    cl_mem_flags flags;
    size_t size;
    uint8_t *data;

    _cl_mem() : Obj(0xC2) {}
};

struct Arg {
    bool set = false;
    cl_mem mem = nullptr;
    std::vector<uint8_t> raw;
};

struct _cl_kernel : Obj {
    cl_program prog;
    std::string name;
    std::vector<Arg> args;

    _cl_kernel() : Obj(0xC3) {}
};

struct Cmd {
    int kind; // 0 kernel, 1 read, 2 barrier, 3 write
    std::shared_ptr<Module> mod;
    std::string kernel;
    std::vector<Arg> args;
    size_t global[3] = {1, 1, 1}, local[3] = {1, 1, 1}, off[3] = {0, 0, 0};
    unsigned dim = 1;
    cl_mem mem = nullptr;
    size_t at = 0, n = 0;
    void *host = nullptr;
};

struct _cl_command_queue : Obj {
    cl_context ctx;
    cl_device_id dev;
    cl_command_queue_properties props;
    std::vector<Cmd> pending;

    _cl_command_queue() : Obj(0xC4) {}
};

namespace fakecl {
    static std::vector<std::unique_ptr<_cl_platform_id>> platforms;
    static std::vector<std::unique_ptr<_cl_device_id>> devices;
    static pbt::Rng rng(1);
    static uint64_t runs = 0;
    static std::atomic<int64_t> live{0};
    static std::vector<std::string> complaint_list;
    static std::atomic_flag spin = ATOMIC_FLAG_INIT;

    struct Lock {
        Lock() { while (spin.test_and_set()) usleep(50); }

        ~Lock() { spin.clear(); }
    };

    static void complain(const std::string &s) { complaint_list.push_back(s); }

    void reset(const std::vector<std::vector<DeviceSpec>> &ps, uint64_t seed) {
        // Old platforms and devices stay allocated: handles to them may still be around.
        for (auto &p: platforms) p.release();
        for (auto &d: devices) d.release();
        platforms.clear();
        devices.clear();
        rng = pbt::Rng(seed);
        runs = 0;
        live = 0;
        complaint_list.clear();
        for (size_t i = 0; i < ps.size(); i++) {
            auto p = std::make_unique<_cl_platform_id>();
            p->name = "fake platform " + std::to_string(i);
            for (auto &s: ps[i]) {
                auto d = std::make_unique<_cl_device_id>();
                d->spec = s;
                d->platform = p.get();
                p->devices.push_back(d.get());
                devices.push_back(std::move(d));
            }
            platforms.push_back(std::move(p));
        }
    }

    DeviceSpec &device_spec(const std::string &name) {
        for (auto &d: devices) if (d->spec.name == name) return d->spec;
        static DeviceSpec none;
        return none;
    }

    std::string device_name(const void *d) {
        for (auto &x: devices) if (x.get() == d) return x->spec.name;
        return "<unknown device>";
    }

    uint64_t kernels_run() { return runs; }

    uint64_t live_objects() { return live < 0 ? 0 : (uint64_t) live; }

    const std::vector<std::string> &complaints() { return complaint_list; }

    // ---------------------------------------------------------------- work items
    static thread_local size_t gid[3], lid[3], grp[3];
    static thread_local size_t gsz[3], lsz[3], goff[3];
    static thread_local unsigned wdim;

    // ---------------------------------------------------------------- compiler
    static std::string strip_comments(const std::string &s) {
        std::string o;
        for (size_t i = 0; i < s.size(); i++) {
            if (s[i] == '/' && i + 1 < s.size() && s[i + 1] == '/') {
                while (i < s.size() && s[i] != '\n') i++;
                o += '\n';
            } else if (s[i] == '/' && i + 1 < s.size() && s[i + 1] == '*') {
                auto e = s.find("*/", i + 2);
                i = e == std::string::npos ? s.size() : e + 1;
                o += ' ';
            } else o += s[i];
        }
        return o;
    }

    static int run(const std::vector<std::string> &cmd, const std::string &log) {
        std::vector<char *> av;
        for (auto &c: cmd) av.push_back((char *) c.c_str());
        av.push_back(nullptr);
        posix_spawn_file_actions_t fa;
        posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
        posix_spawn_file_actions_addopen(&fa, 2, log.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
        pid_t pid;
        int r = posix_spawn(&pid, av[0], &fa, nullptr, av.data(), environ);
        posix_spawn_file_actions_destroy(&fa);
        if (r != 0) return 127;
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        return WIFEXITED(st) ? WEXITSTATUS(st) : 126;
    }

    static std::string slurp(const std::string &p) {
        std::ifstream f(p);
        std::stringstream s;
        s << f.rdbuf();
        return s.str();
    }

    static std::string trim(const std::string &s) {
        size_t a = 0, b = s.size();
        while (a < b && isspace((unsigned char) s[a])) a++;
        while (b > a && isspace((unsigned char) s[b - 1])) b--;
        return s.substr(a, b - a);
    }

    static std::shared_ptr<Module> compile(const std::string &src, const std::string &opts) {
        static std::map<std::string, std::shared_ptr<Module>> cache;
        std::string key = opts + "\n" + src;
        auto it = cache.find(key);
        if (it != cache.end()) return it->second;
        auto m = std::make_shared<Module>();
        cache[key] = m;
        std::string gen = src + "\n";
        std::string bare = strip_comments(src);
        std::regex re(R"((?:__kernel|\bkernel)\s+void\s+(\w+)\s*\(([^)]*)\))");
        for (std::sregex_iterator i(bare.begin(), bare.end(), re), e; i != e; ++i) {
            std::string name = (*i)[1], params = (*i)[2];
            std::vector<std::string> types;
            std::stringstream ss(params);
            std::string part;
            while (std::getline(ss, part, ',')) {
                part = trim(part);
                if (part.empty() || part == "void") continue;
                size_t k = part.size();
                while (k > 0 && (isalnum((unsigned char) part[k - 1]) || part[k - 1] == '_')) k--;
                types.push_back(trim(part.substr(0, k)));
            }
            std::string sizes, call;
            for (size_t a = 0; a < types.size(); a++) {
                bool p = types[a].find('*') != std::string::npos;
                sizes += pbt::fmt(" case %zu: return %s;", a, p ? "0" : ("sizeof(" + types[a] + ")").c_str());
                if (a) call += ", ";
                call += p ? "(" + types[a] + ") a[" + std::to_string(a) + "]"
                          : "*(" + types[a] + " *) a[" + std::to_string(a) + "]";
            }
            gen += "unsigned long __fakecl_size_" + name + "(int i) { switch (i) {" + sizes + " } return 0; }\n";
            gen += "void __fakecl_run_" + name + "(void **a) { " + name + "(" + call + "); }\n";
            m->kernels[name] = types.size();
        }
        std::string base = pbt::shared_dir() + pbt::fmt("/k%016llx", (unsigned long long) pbt::hash_bytes(key.data(), key.size()));
        std::string so = base + ".so";
        if (access(so.c_str(), R_OK) != 0) {
            std::string tmp = base + "." + std::to_string(getpid());
            std::ofstream(tmp + ".cl") << gen;
            std::vector<std::string> cmd = {"/usr/bin/clang-18", "-x", "cl", "-target", "x86_64-linux-gnu", "-O1", "-fPIC", "-w", FAKECL_ASAN "-c", tmp + ".cl", "-o", tmp + ".o"};
            std::stringstream os(opts);
            std::string o;
            while (os >> o) cmd.push_back(o);
            int r = run(cmd, tmp + ".log");
            if (r == 0) r = run({"/usr/bin/ld", "-shared", tmp + ".o", "-o", tmp + ".so"}, tmp + ".log");
            if (r != 0) m->log = slurp(tmp + ".log");
            else if (rename((tmp + ".so").c_str(), so.c_str()) != 0) m->log = "cannot store the module";
            unlink((tmp + ".cl").c_str());
            unlink((tmp + ".o").c_str());
            unlink((tmp + ".log").c_str());
            if (!m->log.empty() || r != 0) {
                if (m->log.empty()) m->log = "compiler failed";
                return m;
            }
        }
        m->so = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (m->so == nullptr) m->log = dlerror();
        return m;
    }

    static void run_kernel(const Cmd &c) {
        auto fn = (void (*)(void **)) dlsym(c.mod->so, ("__fakecl_run_" + c.kernel).c_str());
        std::vector<void *> av;
        for (auto &a: c.args) av.push_back(a.mem != nullptr ? (void *) a.mem->data : (void *) a.raw.data());
        uint64_t n = c.global[0] * c.global[1] * c.global[2];
        // a multiplicative permutation of the work items, so no order can be relied on
        uint64_t start = n ? rng.below(n) : 0, step = n ? 1 + rng.below(n) : 1;
        auto gcd = [](uint64_t a, uint64_t b) {
            while (b) {
                auto t = a % b;
                a = b;
                b = t;
            }
            return a;
        };
        while (n > 1 && gcd(step, n) != 1) step = step % n + 1;
        wdim = c.dim;
        for (int d = 0; d < 3; d++) {
            gsz[d] = c.global[d];
            lsz[d] = c.local[d] ? c.local[d] : 1;
            goff[d] = c.off[d];
        }
        for (uint64_t k = 0, i = start; k < n; k++, i = (i + step) % n) {
            uint64_t v = i;
            for (int d = 0; d < 3; d++) {
                size_t q = v % c.global[d];
                v /= c.global[d];
                gid[d] = q + c.off[d];
                lid[d] = q % lsz[d];
                grp[d] = q / lsz[d];
            }
            fn(av.data());
        }
        runs++;
    }

    static void unref_mem(cl_mem m);

    static void exec(cl_command_queue q) {
        auto cmds = std::move(q->pending);
        q->pending.clear();
        bool ooo = q->props & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE;
        size_t i = 0;
        auto one = [](Cmd &c) {
            if (c.kind == 0) run_kernel(c);
            else if (c.kind == 1) memcpy(c.host, c.mem->data + c.at, c.n);
        };
        while (i < cmds.size()) {
            size_t j = i;
            while (j < cmds.size() && cmds[j].kind != 2) j++;
            // nothing orders these in an out-of-order queue: latest first
            if (ooo) for (size_t k = j; k-- > i;) one(cmds[k]);
            else for (size_t k = i; k < j; k++) one(cmds[k]);
            i = j + 1;
        }
        for (auto &c: cmds) {
            if (c.mem != nullptr) unref_mem(c.mem);
            for (auto &a: c.args) if (a.mem != nullptr) unref_mem(a.mem);
        }
    }

    static void unref_ctx(cl_context c) {
        if (--c->refs == 0) {
            c->magic = 0;
            live--;
        }
    }

    static void unref_prog(cl_program p) {
        if (--p->refs == 0) {
            p->magic = 0;
            live--;
            unref_ctx(p->ctx);
        }
    }

    static void unref_mem(cl_mem m) {
        if (--m->refs == 0) {
            m->magic = 0;
            live--;
            unref_ctx(m->ctx);
            free(m->data);
            delete m;
        }
    }

    template<typename T>
    static cl_int info(const T &v, size_t n, void *out, size_t *ret) {
        if (ret != nullptr) *ret = sizeof(T);
        if (out != nullptr) {
            if (n < sizeof(T)) return CL_INVALID_VALUE;
            memcpy(out, &v, sizeof(T));
        }
        return CL_SUCCESS;
    }

    static cl_int info_str(const std::string &v, size_t n, void *out, size_t *ret) {
        if (ret != nullptr) *ret = v.size() + 1;
        if (out != nullptr) {
            if (n < v.size() + 1) return CL_INVALID_VALUE;
            memcpy(out, v.c_str(), v.size() + 1);
        }
        return CL_SUCCESS;
    }

    template<typename T>
    static cl_int info_vec(const std::vector<T> &v, size_t n, void *out, size_t *ret) {
        if (ret != nullptr) *ret = v.size() * sizeof(T);
        if (out != nullptr) {
            if (n < v.size() * sizeof(T)) return CL_INVALID_VALUE;
            memcpy(out, v.data(), v.size() * sizeof(T));
        }
        return CL_SUCCESS;
    }

    static void ok(cl_int *e, cl_int v) { if (e != nullptr) *e = v; }
}

using namespace fakecl;

extern "C" {
// ---- work-item functions, as mangled by the OpenCL front end
size_t _Z13get_global_idj(unsigned d) { return d < 3 ? gid[d] : 0; }
size_t _Z12get_local_idj(unsigned d) { return d < 3 ? lid[d] : 0; }
size_t _Z12get_group_idj(unsigned d) { return d < 3 ? grp[d] : 0; }
size_t _Z15get_global_sizej(unsigned d) { return d < 3 ? gsz[d] : 1; }
size_t _Z14get_local_sizej(unsigned d) { return d < 3 ? lsz[d] : 1; }
size_t _Z17get_global_offsetj(unsigned d) { return d < 3 ? goff[d] : 0; }
size_t _Z14get_num_groupsj(unsigned d) { return d < 3 ? (gsz[d] + lsz[d] - 1) / lsz[d] : 1; }
unsigned _Z12get_work_dimv() { return wdim; }

#define BUILTINS(C, T, U, UC) \
    T _Z3min##C##C(T a, T b) { return a < b ? a : b; } \
    T _Z3max##C##C(T a, T b) { return a > b ? a : b; } \
    T _Z5clamp##C##C##C(T x, T lo, T hi) { return x < lo ? lo : x > hi ? hi : x; } \
    U _Z3abs##C(T a) { return (U) (a < (T) 0 ? -a : a); } \
    U _Z8abs_diff##C##C(T a, T b) { return a > b ? (U) a - (U) b : (U) b - (U) a; } \
    T _Z6mul_hi##C##C(T a, T b) { return (T) (((__int128) a * (__int128) b) >> (8 * sizeof(T))); } \
    T _Z4hadd##C##C(T a, T b) { return (T) (((__int128) a + b) >> 1); } \
    T _Z8popcount##C(T a) { return (T) __builtin_popcountll((unsigned long long) (U) a); }
BUILTINS(h, unsigned char, unsigned char, h)
BUILTINS(t, unsigned short, unsigned short, t)
BUILTINS(j, unsigned int, unsigned int, j)
BUILTINS(m, unsigned long, unsigned long, m)
BUILTINS(c, signed char, unsigned char, h)
BUILTINS(s, short, unsigned short, t)
BUILTINS(i, int, unsigned int, j)
BUILTINS(l, long, unsigned long, m)
int _Z5mad24iii(int a, int b, int c) { return a * b + c; }
unsigned _Z5mad24jjj(unsigned a, unsigned b, unsigned c) { return a * b + c; }
int _Z5mul24ii(int a, int b) { return a * b; }
unsigned _Z5mul24jj(unsigned a, unsigned b) { return a * b; }
void _Z7barrierj(unsigned) { fprintf(stderr, "STANDIN-FATAL: work-group barriers are not modelled\n"); abort(); }

// ---- platforms and devices
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *out, cl_uint *num) {
    Lock l;
    if (platforms.empty()) { // what the usual loader says when no driver is installed
        if (num != nullptr) *num = 0;
        return CL_PLATFORM_NOT_FOUND_KHR;
    }
    if (num != nullptr) *num = platforms.size();
    if (out != nullptr) for (cl_uint i = 0; i < n && i < platforms.size(); i++) out[i] = platforms[i].get();
    return CL_SUCCESS;
}

cl_int clGetPlatformInfo(cl_platform_id p, cl_platform_info what, size_t n, void *out, size_t *ret) {
    Lock l;
    switch (what) {
        case CL_PLATFORM_NAME: return info_str(p->name, n, out, ret);
        case CL_PLATFORM_VERSION: return info_str("OpenCL 2.0 fake", n, out, ret);
        case CL_PLATFORM_VENDOR: return info_str("fake", n, out, ret);
        case CL_PLATFORM_PROFILE: return info_str("FULL_PROFILE", n, out, ret);
        case CL_PLATFORM_EXTENSIONS: return info_str("", n, out, ret);
        default: return CL_INVALID_VALUE;
    }
}

cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id *out, cl_uint *num) {
    Lock l;
    std::vector<cl_device_id> v;
    for (auto d: p->devices) {
        cl_device_type have = d->spec.cpu ? CL_DEVICE_TYPE_CPU : CL_DEVICE_TYPE_GPU;
        if (t == CL_DEVICE_TYPE_ALL || (t & have) || (t & CL_DEVICE_TYPE_DEFAULT)) v.push_back(d);
    }
    if (num != nullptr) *num = v.size();
    if (v.empty()) return CL_DEVICE_NOT_FOUND;
    if (out != nullptr) for (cl_uint i = 0; i < n && i < v.size(); i++) out[i] = v[i];
    return CL_SUCCESS;
}

cl_int clGetDeviceInfo(cl_device_id d, cl_device_info what, size_t n, void *out, size_t *ret) {
    Lock l;
    switch (what) {
        case CL_DEVICE_NAME: return info_str(d->spec.name, n, out, ret);
        case CL_DEVICE_PLATFORM: return info(d->platform, n, out, ret);
        case CL_DEVICE_VERSION: return info_str("OpenCL 2.0 fake", n, out, ret);
        case CL_DEVICE_VENDOR: return info_str("fake", n, out, ret);
        case CL_DEVICE_TYPE: return info<cl_device_type>(d->spec.cpu ? CL_DEVICE_TYPE_CPU : CL_DEVICE_TYPE_GPU, n, out, ret);
        case CL_DEVICE_MAX_CLOCK_FREQUENCY: return info<cl_uint>(1000, n, out, ret);
        case CL_DEVICE_MAX_COMPUTE_UNITS: return info<cl_uint>(4, n, out, ret);
        case CL_DEVICE_MAX_WORK_GROUP_SIZE: return info<size_t>(1024, n, out, ret);
        case CL_DEVICE_GLOBAL_MEM_SIZE: return info<cl_ulong>(1ull << 32, n, out, ret);
        case CL_DEVICE_MAX_MEM_ALLOC_SIZE: return info<cl_ulong>(1ull << 31, n, out, ret);
        case CL_DEVICE_REFERENCE_COUNT: return info<cl_uint>(1, n, out, ret);
        case CL_DEVICE_AVAILABLE: return info<cl_bool>(1, n, out, ret);
        default: return CL_INVALID_VALUE;
    }
}

cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }

// ---- contexts
cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id *d, void (*)(const char *, const void *, size_t, void *), void *, cl_int *e) {
    Lock l;
    auto c = new _cl_context;
    for (cl_uint i = 0; i < n; i++) c->devices.push_back(d[i]);
    live++;
    ok(e, CL_SUCCESS);
    return c;
}

cl_int clRetainContext(cl_context c) {
    if (c->magic != 0xC0) complain("context used after release");
    c->refs++;
    return CL_SUCCESS;
}

cl_int clReleaseContext(cl_context c) {
    Lock l;
    if (c->magic != 0xC0) {
        complain("context released twice");
        return CL_INVALID_CONTEXT;
    }
    unref_ctx(c);
    return CL_SUCCESS;
}

cl_int clGetContextInfo(cl_context c, cl_context_info what, size_t n, void *out, size_t *ret) {
    Lock l;
    switch (what) {
        case CL_CONTEXT_DEVICES: return info_vec(c->devices, n, out, ret);
        case CL_CONTEXT_NUM_DEVICES: return info<cl_uint>(c->devices.size(), n, out, ret);
        case CL_CONTEXT_REFERENCE_COUNT: return info<cl_uint>(c->refs, n, out, ret);
        case CL_CONTEXT_PROPERTIES: return info_vec(std::vector<cl_context_properties>(), n, out, ret);
        default: return CL_INVALID_VALUE;
    }
}

// ---- programs
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *len, cl_int *e) {
    Lock l;
    auto p = new _cl_program;
    p->ctx = c;
    c->refs++;
    for (cl_uint i = 0; i < n; i++) p->src += len != nullptr && len[i] ? std::string(s[i], len[i]) : std::string(s[i]);
    live++;
    ok(e, CL_SUCCESS);
    return p;
}

cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id *, const char *opts, void (*)(cl_program, void *), void *) {
    Lock l;
    if (p->magic != 0xC1) return CL_INVALID_PROGRAM;
    p->opts = opts == nullptr ? "" : opts;
    for (auto d: p->ctx->devices) {
        if (d->spec.build_error != 0) {
            p->status = CL_BUILD_ERROR;
            p->log = "injected failure on " + d->spec.name;
            return d->spec.build_error;
        }
    }
    p->mod = compile(p->src, p->opts);
    p->log = p->mod->log;
    if (p->mod->so == nullptr) {
        p->status = CL_BUILD_ERROR;
        return CL_BUILD_PROGRAM_FAILURE;
    }
    p->status = CL_BUILD_SUCCESS;
    return CL_SUCCESS;
}

cl_int clGetProgramBuildInfo(cl_program p, cl_device_id d, cl_program_build_info what, size_t n, void *out, size_t *ret) {
    Lock l;
    if (std::find(p->ctx->devices.begin(), p->ctx->devices.end(), d) == p->ctx->devices.end()) return CL_INVALID_DEVICE;
    switch (what) {
        case CL_PROGRAM_BUILD_STATUS: return info(p->status, n, out, ret);
        case CL_PROGRAM_BUILD_LOG: return info_str(p->log, n, out, ret);
        case CL_PROGRAM_BUILD_OPTIONS: return info_str(p->opts, n, out, ret);
        default: return CL_INVALID_VALUE;
    }
}

cl_int clGetProgramInfo(cl_program p, cl_program_info what, size_t n, void *out, size_t *ret) {
    Lock l;
    if (p->magic != 0xC1) return CL_INVALID_PROGRAM;
    switch (what) {
        case CL_PROGRAM_DEVICES: return info_vec(p->ctx->devices, n, out, ret);
        case CL_PROGRAM_NUM_DEVICES: return info<cl_uint>(p->ctx->devices.size(), n, out, ret);
        case CL_PROGRAM_CONTEXT:
            if (out != nullptr) p->ctx->refs++;
            return info(p->ctx, n, out, ret);
        case CL_PROGRAM_SOURCE: return info_str(p->src, n, out, ret);
        case CL_PROGRAM_REFERENCE_COUNT: return info<cl_uint>(p->refs, n, out, ret);
        case CL_PROGRAM_NUM_KERNELS: return info<size_t>(p->mod ? p->mod->kernels.size() : 0, n, out, ret);
        case CL_PROGRAM_KERNEL_NAMES: {
            std::string s;
            if (p->mod) for (auto &k: p->mod->kernels) s += (s.empty() ? "" : ";") + k.first;
            return info_str(s, n, out, ret);
        }
        default: return CL_INVALID_VALUE;
    }
}

cl_int clRetainProgram(cl_program p) {
    if (p->magic != 0xC1) complain("program used after release");
    p->refs++;
    return CL_SUCCESS;
}

cl_int clReleaseProgram(cl_program p) {
    Lock l;
    if (p->magic != 0xC1) {
        complain("program released twice");
        return CL_INVALID_PROGRAM;
    }
    unref_prog(p);
    return CL_SUCCESS;
}

// ---- kernels
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *e) {
    Lock l;
    if (p->magic != 0xC1) {
        ok(e, CL_INVALID_PROGRAM);
        return nullptr;
    }
    if (p->status != CL_BUILD_SUCCESS) {
        ok(e, CL_INVALID_PROGRAM_EXECUTABLE);
        return nullptr;
    }
    auto it = p->mod->kernels.find(name);
    if (it == p->mod->kernels.end()) {
        ok(e, CL_INVALID_KERNEL_NAME);
        return nullptr;
    }
    auto k = new _cl_kernel;
    k->prog = p;
    p->refs++;
    k->name = name;
    k->args.resize(it->second);
    live++;
    ok(e, CL_SUCCESS);
    return k;
}

cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void *v) {
    Lock l;
    if (i >= k->args.size()) return CL_INVALID_ARG_INDEX;
    auto fn = (unsigned long (*)(int)) dlsym(k->prog->mod->so, ("__fakecl_size_" + k->name).c_str());
    unsigned long want = fn((int) i);
    Arg a;
    a.set = true;
    if (want == 0) {
        if (n != sizeof(cl_mem)) return CL_INVALID_ARG_SIZE;
        cl_mem m = v == nullptr ? nullptr : *(const cl_mem *) v;
        if (m == nullptr || m->magic != 0xC2) return CL_INVALID_MEM_OBJECT;
        if (m->ctx != k->prog->ctx) return CL_INVALID_MEM_OBJECT;
        a.mem = m;
        m->refs++;
    } else {
        if (n != want) return CL_INVALID_ARG_SIZE;
        a.raw.assign((const uint8_t *) v, (const uint8_t *) v + n);
    }
    if (k->args[i].mem != nullptr) unref_mem(k->args[i].mem);
    k->args[i] = a;
    return CL_SUCCESS;
}

cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info what, size_t n, void *out, size_t *ret) {
    Lock l;
    switch (what) {
        case CL_KERNEL_CONTEXT: return info(k->prog->ctx, n, out, ret);
        case CL_KERNEL_PROGRAM: return info(k->prog, n, out, ret);
        case CL_KERNEL_FUNCTION_NAME: return info_str(k->name, n, out, ret);
        case CL_KERNEL_NUM_ARGS: return info<cl_uint>(k->args.size(), n, out, ret);
        case CL_KERNEL_REFERENCE_COUNT: return info<cl_uint>(k->refs, n, out, ret);
        default: return CL_INVALID_VALUE;
    }
}

cl_int clGetKernelWorkGroupInfo(cl_kernel k, cl_device_id d, cl_kernel_work_group_info what, size_t n, void *out, size_t *ret) {
    Lock l;
    auto &ds = k->prog->ctx->devices;
    if (std::find(ds.begin(), ds.end(), d) == ds.end()) return CL_INVALID_DEVICE;
    switch (what) {
        case CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE: return info<size_t>(d->spec.work_group, n, out, ret);
        case CL_KERNEL_WORK_GROUP_SIZE: return info<size_t>(1024, n, out, ret);
        case CL_KERNEL_LOCAL_MEM_SIZE: return info<cl_ulong>(0, n, out, ret);
        case CL_KERNEL_PRIVATE_MEM_SIZE: return info<cl_ulong>(0, n, out, ret);
        default: return CL_INVALID_VALUE;
    }
}

cl_int clRetainKernel(cl_kernel k) {
    k->refs++;
    return CL_SUCCESS;
}

cl_int clReleaseKernel(cl_kernel k) {
    Lock l;
    if (k->magic != 0xC3) {
        complain("kernel released twice");
        return CL_INVALID_KERNEL;
    }
    if (--k->refs == 0) {
        for (auto &a: k->args) if (a.mem != nullptr) unref_mem(a.mem);
        k->magic = 0;
        live--;
        unref_prog(k->prog);
    }
    return CL_SUCCESS;
}

// ---- buffers
cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t n, void *host, cl_int *e) {
    Lock l;
    cl_int r = CL_SUCCESS;
    bool copy = f & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR);
    if (n == 0 || n > (1ull << 31)) r = CL_INVALID_BUFFER_SIZE;
    else if ((host != nullptr) != copy) r = CL_INVALID_HOST_PTR;
    else if (__builtin_popcountll(f & (CL_MEM_READ_WRITE | CL_MEM_READ_ONLY | CL_MEM_WRITE_ONLY)) > 1) r = CL_INVALID_VALUE;
    else if (__builtin_popcountll(f & (CL_MEM_HOST_READ_ONLY | CL_MEM_HOST_WRITE_ONLY | CL_MEM_HOST_NO_ACCESS)) > 1) r = CL_INVALID_VALUE;
    if (r != CL_SUCCESS) {
        ok(e, r);
        return nullptr;
    }
    auto m = new _cl_mem;
    m->ctx = c;
    c->refs++;
    m->flags = f;
    m->size = n;
    m->data = (uint8_t *) malloc(n);
    if (copy) memcpy(m->data, host, n);
    else for (size_t i = 0; i < n; i++) m->data[i] = (uint8_t) (0x5D + (i & 0x27)); // device memory starts out undefined
    live++;
    ok(e, CL_SUCCESS);
    return m;
}

cl_int clRetainMemObject(cl_mem m) {
    m->refs++;
    return CL_SUCCESS;
}

cl_int clReleaseMemObject(cl_mem m) {
    Lock l;
    unref_mem(m);
    return CL_SUCCESS;
}

// ---- queues
cl_command_queue clCreateCommandQueueWithProperties(cl_context c, cl_device_id d, const cl_queue_properties *p, cl_int *e) {
    Lock l;
    if (std::find(c->devices.begin(), c->devices.end(), d) == c->devices.end()) {
        ok(e, CL_INVALID_DEVICE);
        return nullptr;
    }
    auto q = new _cl_command_queue;
    q->ctx = c;
    c->refs++;
    q->dev = d;
    q->props = 0;
    for (; p != nullptr && *p != 0; p += 2) if (*p == CL_QUEUE_PROPERTIES) q->props = p[1];
    live++;
    ok(e, CL_SUCCESS);
    return q;
}

cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int *e) {
    cl_queue_properties v[] = {CL_QUEUE_PROPERTIES, p, 0};
    return clCreateCommandQueueWithProperties(c, d, v, e);
}

cl_int clRetainCommandQueue(cl_command_queue q) {
    q->refs++;
    return CL_SUCCESS;
}

cl_int clReleaseCommandQueue(cl_command_queue q) {
    Lock l;
    if (q->magic != 0xC4) {
        complain("queue released twice");
        return CL_INVALID_COMMAND_QUEUE;
    }
    if (--q->refs == 0) {
        // commands nobody waited for never deliver their results here
        for (auto &c: q->pending) {
            if (c.mem != nullptr) unref_mem(c.mem);
            for (auto &a: c.args) if (a.mem != nullptr) unref_mem(a.mem);
        }
        q->magic = 0;
        live--;
        unref_ctx(q->ctx);
    }
    return CL_SUCCESS;
}

cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *off, const size_t *gs, const size_t *ls, cl_uint, const cl_event *, cl_event *) {
    Lock l;
    if (k->prog->ctx != q->ctx) return CL_INVALID_CONTEXT;
    if (dim < 1 || dim > 3) return CL_INVALID_WORK_DIMENSION;
    Cmd c;
    c.kind = 0;
    c.mod = k->prog->mod;
    c.kernel = k->name;
    c.dim = dim;
    for (cl_uint i = 0; i < dim; i++) {
        c.global[i] = gs[i];
        if (off != nullptr) c.off[i] = off[i];
        if (ls != nullptr) {
            c.local[i] = ls[i];
            if (ls[i] == 0) return CL_INVALID_WORK_GROUP_SIZE;
        }
        if (gs[i] == 0) return CL_INVALID_GLOBAL_WORK_SIZE;
    }
    if (c.local[0] * c.local[1] * c.local[2] > 1024) return CL_INVALID_WORK_GROUP_SIZE;
    for (auto &a: k->args) if (!a.set) return CL_INVALID_KERNEL_ARGS;
    c.args = k->args; // captured now; later changes do not apply
    for (auto &a: c.args) if (a.mem != nullptr) a.mem->refs++;
    q->pending.push_back(std::move(c));
    return CL_SUCCESS;
}

cl_int clEnqueueTask(cl_command_queue q, cl_kernel k, cl_uint n, const cl_event *w, cl_event *e) {
    size_t one = 1;
    return clEnqueueNDRangeKernel(q, k, 1, nullptr, &one, &one, n, w, e);
}

cl_int clEnqueueBarrierWithWaitList(cl_command_queue q, cl_uint, const cl_event *, cl_event *) {
    Lock l;
    Cmd c;
    c.kind = 2;
    q->pending.push_back(c);
    return CL_SUCCESS;
}

cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, size_t at, size_t n, void *host, cl_uint, const cl_event *, cl_event *) {
    Lock l;
    if (m->ctx != q->ctx) return CL_INVALID_CONTEXT;
    if (m->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_WRITE_ONLY)) return CL_INVALID_OPERATION;
    if (n == 0 || at + n > m->size || host == nullptr) return CL_INVALID_VALUE;
    Cmd c;
    c.kind = 1;
    c.mem = m;
    m->refs++;
    c.at = at;
    c.n = n;
    c.host = host;
    q->pending.push_back(std::move(c));
    if (blocking) exec(q);
    return CL_SUCCESS;
}

cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool, size_t at, size_t n, const void *host, cl_uint, const cl_event *, cl_event *) {
    Lock l;
    if (m->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY)) return CL_INVALID_OPERATION;
    if (n == 0 || at + n > m->size || host == nullptr) return CL_INVALID_VALUE;
    exec(q);
    memcpy(m->data + at, host, n);
    return CL_SUCCESS;
}

cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void *pat, size_t pn, size_t at, size_t n, cl_uint, const cl_event *, cl_event *) {
    Lock l;
    if (pn == 0 || at + n > m->size || n % pn || at % pn) return CL_INVALID_VALUE;
    exec(q);
    for (size_t i = 0; i < n; i += pn) memcpy(m->data + at + i, pat, pn);
    return CL_SUCCESS;
}

cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }

cl_int clFinish(cl_command_queue q) {
    Lock l;
    exec(q);
    return CL_SUCCESS;
}

cl_int clWaitForEvents(cl_uint, const cl_event *) { return CL_SUCCESS; }
cl_int clReleaseEvent(cl_event) { return CL_SUCCESS; }
cl_int clRetainEvent(cl_event) { return CL_SUCCESS; }
}
