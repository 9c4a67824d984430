// In-process OpenCL implementation for the checks: any number of named devices on any number of platforms,
// kernels compiled for the host with clang's OpenCL front end and executed work item by work item in a drawn
// order, strict argument checks, deferred queues, and build-failure injection.
#ifndef FAKECL_H
#define FAKECL_H

#include <cstdint>
#include <string>
#include <vector>

namespace fakecl {
    struct DeviceSpec {
        std::string name;
        uint64_t work_group = 32; // preferred work-group size multiple
        int build_error = 0; // 0 ok; CL_BUILD_PROGRAM_FAILURE (-11) or any other error code
        bool cpu = false; // CL_DEVICE_TYPE_CPU instead of GPU
    };

    // Replace everything (only while no object is in use).
    void reset(const std::vector<std::vector<DeviceSpec>> &platforms, uint64_t seed = 1);

    DeviceSpec &device_spec(const std::string &name);

    // Identity of a handle, for checks.
    std::string device_name(const void *cl_device);

    uint64_t kernels_run();

    uint64_t live_objects();

    // Problems noticed (released twice, used after release, undeclared arguments...).
    const std::vector<std::string> &complaints();
}

#endif
