// C29: OpenCL device and program registry.
// BUILD: repo=hzip_core/opencl/*.cpp,hzip_core/runtime/*.cpp extra=fakecl mode=asan libs=loguru
#include <pbt/pbt.h>
#include <regex>
#include <sstream>
#include <thread>
#include <iostream>
#include <algorithm>
#include <fakecl/fakecl.h>
#include <hzip_core/opencl/cl_helper.h>
#include <hzip_core/runtime/executor.h>
#include <loguru/loguru.hpp>

using namespace pbt;
using namespace hzopencl;
const char *pbt::property_id = "C29";
const char *pbt::rule = "histories of up to 40 loads (by device type), filters (matching all, some, none, malformed), registrations (repeated names, sources that fail to build, devices that "
                        "fail to build with various errors), kernel requests (known, unknown program, unknown kernel), listings and device replacements over 0-3 platforms with 0-4 "
                        "devices each; requests also from 4 threads at once; non-trivial: a kernel was handed out with two or more devices";

using u64 = unsigned long long;

namespace {
    void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

    struct Src {
        const char *text;
        std::vector<const char *> kernels; // empty: does not compile
    };

    const std::vector<Src> sources = {
            {"kernel void run(global unsigned *o) { o[get_global_id(0)] = 1; }\n", {"run"}},
            {"kernel void run(global unsigned *o) { o[get_global_id(0)] = 2; } kernel void other(global unsigned *o) { o[get_global_id(0)] = 3; }\n", {"run", "other"}},
            {"kernel void other(global unsigned *o) { o[get_global_id(0)] = 4; }\n", {"other"}},
            {"kernel void run(global unsigned *o) { this is not a program; }\n", {}},
    };

    struct Dev {
        std::string name;
        bool cpu;
        int err;
    };

    struct Model {
        std::vector<std::vector<Dev>> platforms; // what the host has now
        std::vector<Dev> loaded; // in order
        std::map<std::string, size_t> programs; // name -> source
        int index = -1; // next device, -1: any
        std::map<size_t, std::mutex *> locks; // by device index in `loaded`
    };

    std::string joined(const std::vector<Dev> &v) {
        std::string s;
        for (auto &d: v) s += d.name + (d.err ? fmt("(!%d)", d.err) : "") + " ";
        return s;
    }

    std::string source_of(cl_program p) {
        size_t n = 0;
        CHECK(clGetProgramInfo(p, CL_PROGRAM_SOURCE, 0, nullptr, &n) == CL_SUCCESS, "the program handed out is not valid");
        std::string s(n, 0);
        clGetProgramInfo(p, CL_PROGRAM_SOURCE, n, s.data(), nullptr);
        s.resize(n ? n - 1 : 0);
        return s;
    }

    cl_device_id device_of(cl_program p) {
        cl_uint n = 0;
        clGetProgramInfo(p, CL_PROGRAM_NUM_DEVICES, sizeof(n), &n, nullptr);
        CHECK(n == 1, "a program belongs to %u devices", n);
        cl_device_id d = nullptr;
        clGetProgramInfo(p, CL_PROGRAM_DEVICES, sizeof(d), &d, nullptr);
        return d;
    }

    cl_program program_of(cl_kernel k) {
        cl_program p = nullptr;
        clGetKernelInfo(k, CL_KERNEL_PROGRAM, sizeof(p), &p, nullptr);
        return p;
    }

    std::string name_of(cl_kernel k) {
        char b[64] = {0};
        clGetKernelInfo(k, CL_KERNEL_FUNCTION_NAME, sizeof(b), b, nullptr);
        return b;
    }

    // The compiled kernel really runs on its device.
    uint32_t execute(const cl::Kernel &kernel) {
        cl::Kernel k = kernel;
        cl_program p = program_of(k());
        cl_context raw = nullptr;
        clGetKernelInfo(k(), CL_KERNEL_CONTEXT, sizeof(raw), &raw, nullptr);
        cl::Context ctx(raw, true);
        cl::Device dev(device_of(p));
        cl::CommandQueue q(ctx, dev);
        cl::Buffer b(ctx, CL_MEM_READ_WRITE, 16);
        k.setArg(0, b);
        q.enqueueNDRangeKernel(k, cl::NullRange, cl::NDRange(4));
        uint32_t out[4] = {0, 0, 0, 0};
        q.enqueueReadBuffer(b, CL_TRUE, 0, 16, out);
        CHECK(out[0] == out[1] && out[1] == out[2] && out[2] == out[3], "the kernel left different values");
        return out[0];
    }

    uint32_t value(size_t src, const std::string &kernel) {
        if (src == 0) return 1;
        if (src == 1) return kernel == "run" ? 2 : 3;
        return 4;
    }

    const char *stems[] = {"alpha", "beta", "gamma", "delta"};

    void host(G &g, Model &m) {
        uint64_t np = g.weighted({1, 6, 5, 2});
        m.platforms.assign(np, {});
        std::vector<std::vector<fakecl::DeviceSpec>> spec(np);
        unsigned serial = 0;
        for (uint64_t p = 0; p < np; p++) {
            uint64_t nd = g.weighted({1, 2, 5, 4, 2});
            for (uint64_t d = 0; d < nd; d++) {
                Dev x;
                x.name = std::string(stems[g.below(4)]) + (g.boolean() ? " GPU" : "") + " #" + std::to_string(serial++);
                x.cpu = g.chance(30);
                x.err = 0;
                m.platforms[p].push_back(x);
                spec[p].push_back({x.name, 32, 0, x.cpu});
            }
        }
        fakecl::reset(spec, g.draw(1000));
        g.note("host:");
        for (auto &p: m.platforms) g.note(" [%s]", joined(p).c_str());
    }

    std::vector<cl::Device> registered() {
        try { return DeviceProvider::get_devices(); }
        catch (const std::exception &) { return {}; }
    }

    void check_devices(Model &m) {
        CHECK(DeviceProvider::empty() == m.loaded.empty(), "%zu devices are loaded, empty() is %d", m.loaded.size(), DeviceProvider::empty());
        bool best = hzruntime::get_best_executor() == hzruntime::OPENCL;
        CHECK(best == !m.loaded.empty(), "%zu devices are loaded, the best executor is %s", m.loaded.size(), best ? "OpenCL" : "the CPU");
        bool thrown = false;
        std::vector<cl::Device> d;
        try { d = DeviceProvider::get_devices(); }
        catch (const OpenCLErrors::InvalidOperationException &) { thrown = true; }
        CHECK(thrown == m.loaded.empty(), "get_devices() with %zu devices %s", m.loaded.size(), thrown ? "failed" : "did not fail");
        CHECK(d.size() == m.loaded.size(), "%zu devices registered, expected %s", d.size(), joined(m.loaded).c_str());
        for (size_t i = 0; i < d.size(); i++) {
            auto n = fakecl::device_name(d[i]());
            CHECK(n == m.loaded[i].name, "device %zu is %s, expected %s", i, n.c_str(), m.loaded[i].name.c_str());
        }
        std::set<std::mutex *> locks;
        for (size_t i = 0; i < d.size(); i++) {
            auto *l = &DeviceProvider::get_mutex(i);
            CHECK(locks.insert(l).second, "two devices share a lock");
            bool got = l->try_lock();
            CHECK(got, "the lock of device %zu is held", i);
            l->unlock();
        }
    }

    void load(G &g, Model &m) {
        uint32_t type = g.pick<uint32_t>({CL_DEVICE_TYPE_ALL, CL_DEVICE_TYPE_ALL, CL_DEVICE_TYPE_GPU, CL_DEVICE_TYPE_CPU});
        bool dflt = type == CL_DEVICE_TYPE_ALL && g.boolean();
        g.note(" load(%s)", type == CL_DEVICE_TYPE_ALL ? "all" : type == CL_DEVICE_TYPE_GPU ? "gpu" : "cpu");
        if (dflt) DeviceProvider::load_devices();
        else DeviceProvider::load_devices(type);
        m.loaded.clear();
        for (auto &p: m.platforms)
            for (auto &d: p) if (type == CL_DEVICE_TYPE_ALL || (type == CL_DEVICE_TYPE_CPU) == d.cpu) m.loaded.push_back(d);
        m.programs.clear();
        m.locks.clear();
        m.index = -1;
    }

    // One kernel request against the model.
    void request(G &g, Model &m, bool with_exec) {
        static const char *names[] = {"p0", "p1", "p2", "", "p\xff"};
        std::string prog = names[g.weighted({5, 5, 3, 1, 1})];
        bool two = g.boolean();
        std::string kern = two ? g.pick<const char *>({"run", "other", "missing", ""}) : "run";
        g.note(" get(%s,%s)", prog.c_str(), kern.c_str());
        auto it = m.programs.find(prog);
        bool known = it != m.programs.end();
        bool has = known && std::any_of(sources[it->second].kernels.begin(), sources[it->second].kernels.end(), [&](const char *k) { return kern == k; });
        try {
            auto pr = two ? KernelProvider::get(prog, kern) : KernelProvider::get(prog);
            cl_program p = program_of(pr.first());
            CHECK(known, "a kernel of the unregistered program %s was handed out", prog.c_str());
            CHECK(has, "a kernel %s was handed out that program %s does not have", kern.c_str(), prog.c_str());
            CHECK(name_of(pr.first()) == kern, "kernel %s was handed out for %s", name_of(pr.first()).c_str(), kern.c_str());
            CHECK(source_of(p) == sources[it->second].text, "the kernel of %s comes from another program", prog.c_str());
            auto devs = registered();
            auto dev = device_of(p);
            int at = -1;
            for (size_t i = 0; i < devs.size(); i++) if (devs[i]() == dev) at = (int) i;
            CHECK(at >= 0, "the kernel was built for %s, which is not registered", fakecl::device_name(dev).c_str());
            CHECK(m.index < 0 || m.index == at, "device %d served, device %d is next in turn (%s)", at, m.index, joined(m.loaded).c_str());
            m.index = (at + 1) % (int) m.loaded.size();
            auto *l = &pr.second;
            for (auto &[i, q]: m.locks) CHECK((i == (size_t) at) == (q == l), "device %d was handed out with the lock of device %zu", at, i);
            m.locks[at] = l;
            bool got = l->try_lock();
            CHECK(got, "the lock of device %d is held by nobody known", at);
            l->unlock();
            if (with_exec) {
                uint32_t v = execute(pr.first), want = value(it->second, kern);
                CHECK(v == want, "the kernel %s of %s computed %u, not %u", kern.c_str(), prog.c_str(), v, want);
            }
            if (m.loaded.size() >= 2) g.nontrivial();
            g.label("kernel");
        } catch (const OpenCLErrors::InvalidOperationException &e) {
            CHECK(!known, "%s is registered but was refused: %s", prog.c_str(), e.what());
            g.label("unknown program");
        } catch (const std::exception &e) {
            CHECK(known && !has, "request for %s of %s failed: %s", kern.c_str(), prog.c_str(), e.what());
            m.index = -1; // whether the slot counts as served is not specified
            g.label("unknown kernel");
        }
    }

    void reg(G &g, Model &m) {
        static const char *names[] = {"p0", "p1", "p2"};
        std::string prog = names[g.below(3)];
        size_t s = g.weighted({4, 4, 2, 2});
        g.note(" register(%s,%zu)", prog.c_str(), s);
        std::string log;
        // the first device in order that fails decides
        int err = 0;
        std::string failing;
        for (auto &d: m.loaded) {
            if (d.err != 0) err = d.err;
            else if (sources[s].kernels.empty()) err = CL_BUILD_PROGRAM_FAILURE;
            else continue;
            failing = d.name;
            log = d.err != 0 ? "injected failure on " + d.name : "";
            break;
        }
        bool already = m.programs.contains(prog);
        int got = 0;
        std::string what;
        try { ProgramProvider::register_program(prog, sources[s].text); }
        catch (const OpenCLErrors::ProgramException &e) {
            got = 1;
            what = e.what();
        } catch (const OpenCLErrors::InvalidOperationException &e) {
            got = 2;
            what = e.what();
        }
        if (already) {
            CHECK(got == 0, "registering %s again failed: %s", prog.c_str(), what.c_str());
            g.label("registered again");
        } else if (m.loaded.empty()) {
            CHECK(got == 2, "a program was registered without any device");
        } else if (err == 0) {
            CHECK(got == 0, "registering %s failed: %s", prog.c_str(), what.c_str());
            m.programs[prog] = s;
        } else if (err == CL_BUILD_PROGRAM_FAILURE) {
            g.label("build failure");
            CHECK(got == 1, "a build failure on %s %s", failing.c_str(), got == 0 ? "was not reported" : "was reported as an invalid operation");
            CHECK(what.find(failing) != std::string::npos, "the build error does not name the device %s: %s", failing.c_str(), what.c_str());
            if (!log.empty()) CHECK(what.find(log) != std::string::npos, "the build log is missing: %s", what.c_str());
            else CHECK(what.find("error") != std::string::npos, "the compiler's log is missing: %s", what.c_str());
        } else {
            g.label("other build error");
            CHECK(got != 0, "build error %d on %s was not reported", err, failing.c_str());
        }
    }

    void filter(G &g, Model &m) {
        static const char *pats[] = {"", "alpha", "GPU", "beta|gamma", "#[02468]", "^delta", "nothing at all", ".*", "("};
        std::string pat = pats[g.below(9)];
        bool bad = pat == "(";
        g.note(" filter(%s)", pat.c_str());
        int got = 0;
        try { DeviceProvider::filter_devices(pat); }
        catch (const OpenCLErrors::InvalidOperationException &) { got = 1; }
        catch (const std::exception &) { got = 2; }
        if (m.loaded.empty()) {
            CHECK(got != 0, "filtering without devices did not fail");
            if (!bad) CHECK(got == 1, "filtering without devices is not reported as an invalid operation");
            return;
        }
        CHECK((got != 0) == bad, "filter '%s' %s", pat.c_str(), got ? "failed" : "was accepted");
        if (bad) return;
        std::regex re(pat);
        std::vector<Dev> keep;
        for (auto &d: m.loaded) if (std::regex_search(d.name, re)) keep.push_back(d);
        g.label(keep.empty() ? "filtered to none" : keep.size() < m.loaded.size() ? "filtered" : "filter keeps all");
        m.loaded = keep;
        m.programs.clear();
        m.locks.clear();
        m.index = -1;
    }

    void begin(G &g, Model &m) {
        host(g, m);
        load(g, m);
        check_devices(m);
    }

    void finish() { CHECK(fakecl::complaints().empty(), "OpenCL misuse: %s", fakecl::complaints()[0].c_str()); }
}

void (*pbt::process_init)() = quiet;

static void history(G &g) {
    Model m;
    begin(g, m);
    for (uint64_t i = g.below(4); i > 0; i--) reg(g, m);
    uint64_t n = g.range(1, 40);
    for (uint64_t i = 0; i < n; i++) {
        switch (g.weighted({10, 5, 2, 2, 2, 1, 1})) {
            case 0:
                request(g, m, g.chance(20));
                break;
            case 1:
                reg(g, m);
                break;
            case 2:
                filter(g, m);
                break;
            case 3:
                load(g, m);
                break;
            case 4: { // a device starts or stops failing
                if (m.loaded.empty()) break;
                auto &d = m.loaded[g.below(m.loaded.size())];
                d.err = g.pick<int>({0, 0, CL_BUILD_PROGRAM_FAILURE, CL_OUT_OF_HOST_MEMORY, CL_INVALID_OPERATION, CL_COMPILER_NOT_AVAILABLE});
                fakecl::device_spec(d.name).build_error = d.err;
                for (auto &p: m.platforms) for (auto &x: p) if (x.name == d.name) x.err = d.err;
                g.note(" %s:%d", d.name.c_str(), d.err);
                break;
            }
            case 5: {
                if (m.platforms.empty()) break;
                std::stringstream out;
                auto *old = std::cout.rdbuf(out.rdbuf());
                try { DeviceProvider::list_available_devices(); }
                catch (...) {
                    std::cout.rdbuf(old);
                    throw;
                }
                std::cout.rdbuf(old);
                for (auto &p: m.platforms) for (auto &d: p) CHECK(out.str().find(d.name) != std::string::npos, "the listing lacks %s", d.name.c_str());
                break;
            }
            default:
                check_devices(m);
        }
    }
    check_devices(m);
    // every registered program is still served, on every device in turn
    for (auto &[name, s]: m.programs) {
        std::string kern = sources[s].kernels[0];
        std::set<size_t> served;
        auto devs = registered();
        for (size_t i = 0; i < devs.size(); i++) {
            auto pr = KernelProvider::get(name, kern);
            auto dev = device_of(program_of(pr.first()));
            for (size_t k = 0; k < devs.size(); k++) if (devs[k]() == dev) served.insert(k);
            CHECK(source_of(program_of(pr.first())) == sources[s].text, "the kernel of %s comes from another program", name.c_str());
        }
        CHECK(served.size() == devs.size(), "%zu requests in a row served %zu of %zu devices", devs.size(), served.size(), devs.size());
    }
    finish();
}

// Requests from several threads: every device still gets its share, with its own lock.
static void threads(G &g) {
    Model m;
    std::vector<fakecl::DeviceSpec> spec;
    uint64_t n = g.range(1, 5);
    for (uint64_t i = 0; i < n; i++) spec.push_back({"dev #" + std::to_string(i), 32, 0, false});
    fakecl::reset({spec}, 1);
    DeviceProvider::load_devices();
    ProgramProvider::register_program("p0", sources[0].text);
    ProgramProvider::register_program("p1", sources[1].text);
    uint64_t skip = g.below(n), per = g.range(1, 30), nt = g.range(2, 4);
    for (uint64_t i = 0; i < skip; i++) KernelProvider::get("p0");
    auto devs = DeviceProvider::get_devices();
    g.note("%llu devices, %llu threads, %llu requests each", (u64) n, (u64) nt, (u64) per);
    if (n >= 2) g.nontrivial();
    std::vector<std::vector<std::pair<size_t, std::mutex *>>> got(nt);
    std::vector<std::string> err(nt);
    std::vector<std::thread> t;
    for (uint64_t x = 0; x < nt; x++)
        t.emplace_back([&, x] {
            try {
                for (uint64_t i = 0; i < per; i++) {
                    const char *name = (i + x) % 2 ? "p1" : "p0";
                    auto pr = KernelProvider::get(name);
                    cl_program p = program_of(pr.first());
                    if (source_of(p) != sources[(i + x) % 2].text) err[x] = "a kernel of another program was handed out";
                    auto d = device_of(p);
                    for (size_t k = 0; k < devs.size(); k++) if (devs[k]() == d) got[x].push_back({k, &pr.second});
                    std::lock_guard<std::mutex> lk(pr.second);
                }
            } catch (const std::exception &e) { err[x] = e.what(); }
        });
    for (auto &x: t) x.join();
    for (auto &e: err) CHECK(e.empty(), "%s", e.c_str());
    std::vector<uint64_t> count(n);
    std::map<size_t, std::mutex *> lock;
    uint64_t total = 0;
    for (auto &v: got)
        for (auto &[k, l]: v) {
            count[k]++;
            total++;
            if (lock.contains(k)) CHECK(lock[k] == l, "device %zu was handed out with two locks", k);
            lock[k] = l;
        }
    CHECK(total == nt * per, "%llu of %llu requests were served by registered devices", (u64) total, (u64) (nt * per));
    std::set<std::mutex *> distinct;
    for (auto &[k, l]: lock) CHECK(distinct.insert(l).second, "two devices share a lock");
    auto [lo, hi] = std::minmax_element(count.begin(), count.end());
    CHECK(*hi - *lo <= 1, "%llu requests were spread over %llu devices as %llu to %llu each", (u64) total, (u64) n, (u64) *lo, (u64) *hi);
    finish();
}

std::vector<Prop> pbt::properties() {
    return {{"history", history, 12000, 400000},
            {"threads", threads, 1500, 40000, REALTIME}};
}
