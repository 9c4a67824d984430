From 7b8ee2d1987efdc383239a08cc6e002de39a72d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 01/50] fix: delta filter read out of bounds on an empty array
 and overflowed signed integers

---
 src/hzip_core/preprocessor/delta.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hzip_core/preprocessor/delta.cpp b/src/hzip_core/preprocessor/delta.cpp
index 36abf6d..7548c75 100755
--- a/src/hzip_core/preprocessor/delta.cpp
+++ b/src/hzip_core/preprocessor/delta.cpp
@@ -6,13 +6,14 @@ hztrans::DeltaTransformer::DeltaTransformer(int *data, uint64_t length) {
 }
 
 void hztrans::DeltaTransformer::transform() {
-    for (uint64_t i = length - 1; i > 0; i--) {
-        data[i] -= data[i - 1];
+    // Differences wrap around (unsigned arithmetic), and an empty array has nothing to do.
+    for (uint64_t i = length; i > 1; i--) {
+        data[i - 1] = (int) ((unsigned int) data[i - 1] - (unsigned int) data[i - 2]);
     }
 }
 
 void hztrans::DeltaTransformer::invert() {
     for (uint64_t i = 1; i < length; i++) {
-        data[i] += data[i - 1];
+        data[i] = (int) ((unsigned int) data[i] + (unsigned int) data[i - 1]);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 0f9f05f58a0112d8ad049d44c00c2ca2fa953e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 02/50] fix: zig-zag iterator had prefix and postfix increment
 swapped and mishandled empty matrices

---
 src/hzip_core/preprocessor/zigzag.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/hzip_core/preprocessor/zigzag.h b/src/hzip_core/preprocessor/zigzag.h
index d0d92ba..c541871 100644
--- a/src/hzip_core/preprocessor/zigzag.h
+++ b/src/hzip_core/preprocessor/zigzag.h
@@ -82,21 +82,21 @@ namespace hztrans {
             const_iterator(value_type val, uint32_t width, uint32_t height) : _val(val) {
                 this->width = width;
                 this->height = height;
+                this->x = val.x;
+                this->y = val.y;
             }
 
-            self_type operator++() {
-                self_type i = *this;
+            self_type &operator++() {
                 _val.next(width, height);
                 this->x = _val.x;
                 this->y = _val.y;
-                return i;
+                return *this;
             }
 
             self_type operator++(int) {
-                _val.next(width, height);
-                this->x = _val.x;
-                this->y = _val.y;
-                return *this;
+                self_type i = *this;
+                ++(*this);
+                return i;
             }
 
             bool operator==(const self_type &rhs) { return _val == rhs._val; }
@@ -112,6 +112,11 @@ namespace hztrans {
         };
 
         [[nodiscard]] const_iterator begin() const {
+            // A matrix without cells has nothing to visit.
+            if (width == 0 || height == 0) {
+                return end();
+            }
+
             return const_iterator(zigzag_pair(), width, height);
         }
 
-- 
2.43.0


From 1088c4594ae432d7d547754c886828215d4288b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 03/50] fix: HZ_Stack reported a wrong size and corrupted its
 state after being emptied

---
 src/hzip_core/utils/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/stack.h b/src/hzip_core/utils/stack.h
index 2870eb9..b120308 100644
--- a/src/hzip_core/utils/stack.h
+++ b/src/hzip_core/utils/stack.h
@@ -52,9 +52,9 @@ struct HZ_Buffer {
         if (index > 1) {
             index--;
         } else {
-            index = bufsize;
             auto tmp = buffer;
             buffer = buffer->prev;
+            index = buffer != nullptr ? bufsize : 0;
 
             rfree(tmp);
         }
-- 
2.43.0


From 6745bdc033568c2f373a2c04a84cc40b6ea152c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 04/50] fix: hz_unary_write never terminated for values above
 one

---
 src/hzip_core/utils/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 6906936..8902327 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -72,6 +72,7 @@ HZ_INLINE std::string hz_sha512(const std::string& str) {
 HZ_INLINE void hz_unary_write(uint64_t n, const std::function<void(uint64_t, uint8_t)>& writefunc) {
     while (n > 1) {
         writefunc(1, 1);
+        n--;
     }
 
     writefunc(0, 1);
-- 
2.43.0


From 9d1e0dad6a54eb73d2af204571d19ca55b54c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 05/50] fix: hz_u8_to_u32ptr dropped the bytes of an incomplete
 last word

---
 src/hzip_core/utils/utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 8902327..dfeb85a 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -137,6 +137,11 @@ HZ_INLINE rainman::ptr<uint32_t> hz_u8_to_u32ptr(const rainman::ptr<uint8_t> &ar
         }
     }
 
+    // The last word is padded with zeros when the length is not a multiple of four.
+    if (n & 0x3) {
+        arr32[j] = tmp << ((4 - (n & 0x3)) << 3);
+    }
+
     return arr32;
 }
 
-- 
2.43.0


From 953edea9d7e6cb53db8dfb35f0f55b13c5f8fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 06/50] fix: InternalError could not be caught as a
 std::exception

---
 src/hzip_core/errors/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/errors/utils.h b/src/hzip_core/errors/utils.h
index e46c2dc..8a76794 100644
--- a/src/hzip_core/errors/utils.h
+++ b/src/hzip_core/errors/utils.h
@@ -18,7 +18,7 @@ namespace UtilErrors {
         }
     };
 
-    class InternalError : std::exception {
+    class InternalError : public std::exception {
     public:
 
         InternalError(const std::string &msg) {
-- 
2.43.0


From 38663108d0bed1c091fa8014157ecb16d65ee801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 07/50] fix: create_empty_file crashed when the file cannot be
 created

---
 src/hzip_core/utils/fsutils.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/fsutils.h b/src/hzip_core/utils/fsutils.h
index 9c9130c..f6d3d81 100755
--- a/src/hzip_core/utils/fsutils.h
+++ b/src/hzip_core/utils/fsutils.h
@@ -7,7 +7,11 @@
 
 namespace fsutils {
     HZ_INLINE void create_empty_file(const std::string &path) {
-        fclose(fopen(path.c_str(), "wb"));
+        FILE *fp = fopen(path.c_str(), "wb");
+
+        if (fp != nullptr) {
+            fclose(fp);
+        }
     }
 
     HZ_INLINE bool check_if_file_exists(const std::string& filename) {
-- 
2.43.0


From 40ea29425203b2c19a90bfbd87dd1d4158ae234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 08/50] fix: options with a dash in their name (--peak-size)
 were not recognised

---
 other/argparse/include/argparse/argparse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/other/argparse/include/argparse/argparse.h b/other/argparse/include/argparse/argparse.h
index 6ae8c77..94a3331 100644
--- a/other/argparse/include/argparse/argparse.h
+++ b/other/argparse/include/argparse/argparse.h
@@ -89,7 +89,8 @@ static inline int _find_equal(const std::string &s) {
 static inline size_t _find_name_end(const std::string &s) {
   size_t i;
   for (i = 0; i < s.length(); ++i) {
-    if (std::ispunct(static_cast<int>(s[i]))) {
+    // as in _find_equal: --asd_f and --asd-f are names
+    if (std::ispunct(static_cast<int>(s[i])) && s[i] != '_' && s[i] != '-') {
       break;
     }
   }
-- 
2.43.0


From c94f26e4bc9c34f63ab9e72b8ee2bf1efbdfaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 09/50] fix: colour transformer chose its executor from
 uninitialised memory

---
 src/hzip_core/preprocessor/color.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/preprocessor/color.h b/src/hzip_core/preprocessor/color.h
index ebb7209..08b0a89 100644
--- a/src/hzip_core/preprocessor/color.h
+++ b/src/hzip_core/preprocessor/color.h
@@ -87,7 +87,7 @@ namespace hztrans {
 
     class LinearU16XColorTransformer {
     private:
-        hzruntime::Executor _executor;
+        hzruntime::Executor _executor = hzruntime::CPU;
         uint64_t _width;
         uint64_t _height;
         uint8_t _bit_depth;
-- 
2.43.0


From 54edbd471bf931a6ce108d34a9cde660ac7b4350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 10/50] fix: out-of-place colour transform on the CPU lost the
 alpha plane

---
 src/hzip_core/preprocessor/color.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hzip_core/preprocessor/color.cpp b/src/hzip_core/preprocessor/color.cpp
index b36b336..b188b85 100644
--- a/src/hzip_core/preprocessor/color.cpp
+++ b/src/hzip_core/preprocessor/color.cpp
@@ -67,6 +67,11 @@ hztrans::LinearU16XColorTransformer::cpu_rgb_to_ycocg(const rainman::ptr<uint16_
         output[i + lz2] = cg;
     }
 
+    // Samples beyond the three colour planes (alpha) pass through.
+    for (uint64_t i = lz + lz2; i < buffer.size(); i++) {
+        output[i] = buffer[i];
+    }
+
     return output;
 }
 
@@ -96,6 +101,11 @@ hztrans::LinearU16XColorTransformer::cpu_ycocg_to_rgb(const rainman::ptr<uint16_
         output[i + lz2] = b;
     }
 
+    // Samples beyond the three colour planes (alpha) pass through.
+    for (uint64_t i = lz + lz2; i < buffer.size(); i++) {
+        output[i] = buffer[i];
+    }
+
     return output;
 }
 
-- 
2.43.0


From 6ce38e44ed00c02bdc1c4ee51a4a622585375086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 11/50] fix: OpenCL round-robin index pointed past the devices
 after they were reloaded or filtered

---
 src/hzip_core/opencl/cl_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index f631bd6..faf5055 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -157,6 +157,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 void ProgramProvider::set_device_count(uint64_t device_count) {
     std::scoped_lock<std::mutex> lock(_mutex);
     _device_count = device_count;
+    _device_index = 0;
 }
 
 std::pair<cl::Kernel, std::mutex &> KernelProvider::get(const std::string &program_name) {
-- 
2.43.0


From 48e4107c7be232a6d1ee82f0c0b3f3965f106ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 12/50] fix: a program that failed to build on one device
 stayed registered for the others

---
 src/hzip_core/opencl/cl_helper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index faf5055..bad8a03 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -127,6 +127,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 
     if (!_program_map.contains(program_name)) {
         auto devices = DeviceProvider::get_devices();
+        std::vector<cl::Program> programs;
 
         for (const auto &device : devices) {
             cl::Context context(device);
@@ -149,8 +150,11 @@ void ProgramProvider::register_program(const std::string &program_name, const st
                 }
             }
 
-            _program_map[program_name].push_back(program);
+            programs.push_back(program);
         }
+
+        // Nothing is registered unless the program was built for every device.
+        _program_map[program_name] = programs;
     }
 }
 
-- 
2.43.0


From 7df9abbbbc37882c6a8e83cc1b04032326c05756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 13/50] fix: OpenCL build errors other than compiler errors
 were ignored

---
 src/hzip_core/opencl/cl_helper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index bad8a03..fedfcf8 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -147,6 +147,8 @@ void ProgramProvider::register_program(const std::string &program_name, const st
                     } else {
                         throw OpenCLErrors::InvalidOperationException(e.what());
                     }
+                } else {
+                    throw OpenCLErrors::InvalidOperationException(e.what());
                 }
             }
 
-- 
2.43.0


From 7c6fdedd1c8572f8f3685b4023681b57439aab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 14/50] fix: loading OpenCL devices failed on hosts without any
 OpenCL platform

---
 src/hzip_core/opencl/cl_helper.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index fedfcf8..a006d9a 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -84,7 +84,14 @@ void DeviceProvider::load_devices(uint32_t device_type) {
 
     _devices.clear();
     std::vector<cl::Platform> platforms;
-    cl::Platform::get(&platforms);
+    try {
+        cl::Platform::get(&platforms);
+    } catch (cl::Error &e) {
+        // The loader reports the absence of any platform as an error.
+        if (e.err() != CL_PLATFORM_NOT_FOUND_KHR) {
+            throw;
+        }
+    }
 
     for (const auto &platform: platforms) {
         std::vector<cl::Device> platform_devices;
-- 
2.43.0


From f5b9b9fc4febb43bfb6fae4c2d42dd9e249ff238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 15/50] fix: OpenCL support stayed enabled when the device
 filter left no device

---
 src/hzip_core/runtime/config.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hzip_core/runtime/config.cpp b/src/hzip_core/runtime/config.cpp
index 9617296..1037225 100644
--- a/src/hzip_core/runtime/config.cpp
+++ b/src/hzip_core/runtime/config.cpp
@@ -74,9 +74,7 @@ void Config::configure() {
 #ifdef HZIP_ENABLE_OPENCL
     hzopencl::DeviceProvider::load_devices();
 
-    if (!hzopencl::DeviceProvider::empty()) {
-        opencl_support_enabled = true;
-    }
+    opencl_support_enabled = !hzopencl::DeviceProvider::empty();
 
     const char *_opencl_kernels = std::getenv("HZIP_OPENCL_KERNELS");
     const char *_opencl_device_regex = std::getenv("HZIP_OPENCL_DEVICE_REGEX");
@@ -88,6 +86,7 @@ void Config::configure() {
     if (_opencl_device_regex != nullptr) {
         Config::opencl_device_regex = _opencl_device_regex;
         hzopencl::DeviceProvider::filter_devices(Config::opencl_device_regex);
+        opencl_support_enabled = !hzopencl::DeviceProvider::empty();
     }
 #endif
 }
-- 
2.43.0


From 057f76ae6a8ac33011e36fa5d5e30e303aefbe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 16/50] fix: cache provider index pointed past the caches after
 re-initialisation with fewer

---
 src/hzip_core/runtime/cache_provider.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/runtime/cache_provider.cpp b/src/hzip_core/runtime/cache_provider.cpp
index 2e483b9..b464b3b 100644
--- a/src/hzip_core/runtime/cache_provider.cpp
+++ b/src/hzip_core/runtime/cache_provider.cpp
@@ -19,6 +19,7 @@ void CacheProvider::init_cache(const std::string &filename, uint64_t count, uint
     }
 
     _rainman_cache_count = count;
+    _rainman_cache_index = 0;
 }
 
 std::pair<rainman::cache&, std::mutex &> CacheProvider::get_cache() {
-- 
2.43.0


From 4b1ff9091db4ca864dc56edd6b040ae088bacf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 17/50] fix: archive stayed locked for ever after an operation
 that throws

---
 src/hzip_storage/archive/archive.cpp | 90 +++++++---------------------
 src/hzip_storage/archive/archive.h   |  1 +
 2 files changed, 22 insertions(+), 69 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 9fe6f44..005a074 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -46,7 +46,7 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
 }
 
 void HZ_Archive::hza_scan() {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
 
     auto readfn = [this](uint64_t n) {
         this->metadata.eof += n;
@@ -89,8 +89,6 @@ void HZ_Archive::hza_scan() {
                 break;
         }
     }
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t)> &read,
@@ -242,7 +240,7 @@ rainman::option<uint64_t> HZ_Archive::hza_alloc_fragment(uint64_t length) {
 }
 
 void HZ_Archive::hza_init() {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
 
     stream->seek_to(0);
 
@@ -258,15 +256,12 @@ void HZ_Archive::hza_init() {
     stream->seek_to(0);
 
     LOG_F(INFO, "hzip_core.archive: Initialized archive [%s]", path.c_str());
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
     // Evaluate length of entry to utilize fragmented-space.
 
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
@@ -319,12 +314,10 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
     for (int i = 0; i < file.blob_ids.size(); i++) {
         stream->write(file.blob_ids[i], 0x40);
     }
-
 }
 
 HZ_ArchiveFile HZ_Archive::hza_read_metadata_file_entry(const std::string &file_path) {
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -335,7 +328,6 @@ rainman::ptr<HZ_Blob> HZ_Archive::hza_read_blob(uint64_t id) {
     auto blob = rainman::ptr<HZ_Blob>();
 
     if (!metadata.blob_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
 
@@ -346,7 +338,6 @@ rainman::ptr<HZ_Blob> HZ_Archive::hza_read_blob(uint64_t id) {
     // Ignore block-marker, block-length and blob-id as we know the blob-format.
     stream->seek(0x88);
 
-
     blob->header = HZ_BlobHeader();
     auto header_len = stream->read(0x40);
 
@@ -377,7 +368,6 @@ uint64_t HZ_Archive::hza_write_blob(const HZ_Blob &blob) {
     // <mstate-id (64-bit)> <blob-data <size (64-bit)> <data (8-bit arr)>>
 
     if (!metadata.mstate_map.contains(blob.mstate_id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(blob.mstate_id);
     }
 
@@ -459,15 +449,12 @@ void HZ_Archive::hza_rm_blob(uint64_t id) {
         // erase entry from blob map
         metadata.blob_map.erase(id);
     } else {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
-
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::hza_read_mstate(uint64_t id) {
     if (!metadata.mstate_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(id);
     }
 
@@ -538,9 +525,8 @@ uint64_t HZ_Archive::hza_write_mstate(const rainman::ptr<HZ_MState>& mstate) {
 void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     if (metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
@@ -588,14 +574,11 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
 
     // Write mstate-id.
     stream->write(id, 0x40);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_rm_mstate(uint64_t id) {
     if (metadata.mstate_map.contains(id)) {
         if (hza_check_mstate_deps(id)) {
-            mutex.unlock();
             throw ArchiveErrors::InvalidOperationException("mstate dependency detected");
         }
 
@@ -613,7 +596,6 @@ void HZ_Archive::hza_rm_mstate(uint64_t id) {
     } else {
         LOG_F(INFO, "hzip_core.archive: mstate(0x%lx) was not found, operation ignored", id);
     }
-
 }
 
 bool HZ_Archive::hza_check_mstate_deps(uint64_t id) const {
@@ -645,9 +627,8 @@ void HZ_Archive::hza_decrement_dep(uint64_t id) {
 void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ_Blob> &blobs, uint64_t blob_count) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
@@ -659,16 +640,13 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
     }
 
     hza_create_metadata_file_entry(file_path, file);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::remove_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -690,16 +668,13 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     }
 
     hza_metadata_erase_file(file_path);
-
-    mutex.unlock();
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -712,17 +687,14 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
         blobs[i] = *blob;
     }
 
-    mutex.unlock();
-
     return blobs;
 }
 
 void HZ_Archive::uninstall_mstate(const std::string &_path) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
@@ -743,57 +715,47 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
 
     metadata.mstate_aux_map.erase(_path);
     metadata.mstate_inv_aux_map.erase(id);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &mstate, const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
 
     blob->mstate_id = hza_write_mstate(mstate);
     blob->mstate = mstate;
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_Blob>& blob) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
 
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
     blob->mstate_id = metadata.mstate_aux_map.get(_path).data;
 
     blob->mstate = hza_read_mstate(blob->mstate_id);
-
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     uint64_t id = hza_write_mstate(mstate);
-    mutex.unlock();
     return id;
 }
 
 void HZ_Archive::uninstall_mstate(uint64_t id) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     hza_rm_mstate(id);
-    mutex.unlock();
 }
 
 void HZ_Archive::close() {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
 
     stream->seek_to(metadata.eof);
     stream->write(HZ_ArchiveMarker::END, 0x8);
     stream->flush();
 
-    mutex.unlock();
     sem_post(archive_mutex.pointer());
 }
 
@@ -802,61 +764,53 @@ void HZ_Archive::load() {
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     hza_create_metadata_file_entry(file_path, file);
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     uint64_t id = hza_write_blob(*blob);
-    mutex.unlock();
 
     return id;
 }
 
 bool HZ_Archive::check_file_exists(const std::string &file_path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     bool v = metadata.file_map.contains(file_path);
-    mutex.unlock();
 
     return v;
 }
 
 HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     HZ_ArchiveFile file = hza_read_metadata_file_entry(file_path);
-    mutex.unlock();
 
     return file;
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     auto blob = hza_read_blob(id);
-    mutex.unlock();
 
     return blob;
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate not found");
     }
 
     auto id = metadata.mstate_aux_map.get(_path).data;
     auto mstate = hza_read_mstate(id);
-    mutex.unlock();
 
     return mstate;
 }
 
 bool HZ_Archive::check_mstate_exists(const std::string &_path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     bool exists = metadata.mstate_aux_map.contains(_path);
-    mutex.unlock();
 
     return exists;
 }
@@ -869,17 +823,15 @@ void HZ_Archive::hza_metadata_erase_file(const std::string &_file_path) {
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::string &prefix) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     auto list = metadata.file_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_mstate_system(const std::string &prefix) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     auto list = metadata.mstate_aux_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index d31142a..775cead 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <functional>
+#include <mutex>
 #include <unordered_map>
 #include <semaphore.h>
 #include <bitio/bitio.h>
-- 
2.43.0


From 417da126442ac3563bcd04f086366463260f820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 18/50] fix: archive trie crashed or returned garbage for the
 root and left empty directories behind

---
 src/hzip_storage/archive/archive_trie.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index 1b9e16e..97582b0 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -75,6 +75,10 @@ public:
             throw ArchiveErrors::InvalidOperationException("The given path is a directory");
         }
 
+        if (!is_leaf_node(curr)) {
+            throw ArchiveErrors::TargetNotFoundException(path);
+        }
+
         return curr->value;
     }
 
@@ -102,7 +106,7 @@ public:
             curr = curr->children[token];
         }
 
-        if (is_dir_node(curr)) {
+        if (curr == root || is_dir_node(curr)) {
             throw ArchiveErrors::InvalidOperationException("A directory exists in the given path");
         }
 
@@ -149,16 +153,17 @@ public:
             }
         }
 
+        if (curr == root) {
+            throw ArchiveErrors::InvalidOperationException("The root directory cannot be erased");
+        }
+
         HZ_ArchiveTrieNode<Type> *descendant = curr;
+        curr = curr->parent;
         while (curr->children.size() < 2 && curr->parent != nullptr) {
             descendant = curr;
             curr = curr->parent;
         }
 
-        if (curr == descendant) {
-            curr = curr->parent;
-        }
-
         curr->children.erase(descendant->key);
 
         erase_node(descendant);
-- 
2.43.0


From 2ed3b2b522a02bb959cec8952a2d0afcd3ebd64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 19/50] fix: a refused archive insertion left unreachable
 records and holes in the file

---
 src/hzip_storage/archive/archive.cpp    | 13 ++++++++++++
 src/hzip_storage/archive/archive_trie.h | 28 +++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 005a074..435486c 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -265,6 +265,8 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
+    metadata.file_map.check_insertable(file_path);
+
     uint64_t length = 0;
 
     uint64_t path_length = file_path.length();
@@ -530,6 +532,8 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
+    metadata.mstate_aux_map.check_insertable(_path);
+
     uint64_t id = hza_write_mstate(mstate);
 
     // Create auxillary mstate-entry.
@@ -632,6 +636,15 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
+    // Refuse the operation before anything is written.
+    metadata.file_map.check_insertable(file_path);
+
+    for (uint64_t i = 0; i < blob_count; i++) {
+        if (!metadata.mstate_map.contains(blobs[i].mstate_id)) {
+            throw ArchiveErrors::MstateNotFoundException(blobs[i].mstate_id);
+        }
+    }
+
     HZ_ArchiveFile file{};
     file.blob_ids = rainman::ptr<uint64_t>(blob_count);
 
diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index 97582b0..52228b3 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -82,6 +82,34 @@ public:
         return curr->value;
     }
 
+    // Throws if set() would refuse the path.
+    void check_insertable(const std::string &path) {
+        std::stringstream ss(path);
+
+        std::string token;
+
+        HZ_ArchiveTrieNode<Type> *curr = root;
+        while (std::getline(ss, token, '/')) {
+            if (token.empty()) {
+                continue;
+            }
+
+            if (is_leaf_node(curr)) {
+                throw ArchiveErrors::InvalidOperationException("A file exists in the path prefix");
+            }
+
+            if (!curr->children.contains(token)) {
+                return;
+            }
+
+            curr = curr->children[token];
+        }
+
+        if (curr == root || is_dir_node(curr)) {
+            throw ArchiveErrors::InvalidOperationException("A directory exists in the given path");
+        }
+    }
+
     void set(const std::string &path, Type val) {
         std::stringstream ss(path);
 
-- 
2.43.0


From 97b89a5f2bfd43402a0f876a14e64656cd20d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 20/50] fix: create_file_entry accepted malformed paths that no
 other operation can name

---
 src/hzip_storage/archive/archive.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 435486c..e7fb69f 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -777,6 +777,8 @@ void HZ_Archive::load() {
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
+    hz_validate_path(file_path);
+
     std::lock_guard<std::mutex> lock(mutex);
     hza_create_metadata_file_entry(file_path, file);
 }
-- 
2.43.0


From 3ed4064b3dbcc4873cd885d39d7d833d0bba73f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 21/50] fix: dependencies on algorithm states were forgotten
 when an archive was reopened

---
 src/hzip_storage/archive/archive.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index e7fb69f..ca7d696 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -146,7 +146,10 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
                 _path += (char) read(0x8);
             }
 
-            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(read(0x40), sof - 0x8));
+            uint64_t mstate_id = read(0x40);
+
+            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(mstate_id, sof - 0x8));
+            metadata.mstate_inv_aux_map[mstate_id] = true;
             break;
         }
     }
@@ -154,15 +157,22 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
 
 void HZ_Archive::hza_scan_blob_segment(const std::function<uint64_t(uint64_t)> &read,
                                        const std::function<void(uint64_t)> &seek) {
-    // BLOB format: <hza_marker (8-bit)> <block-length (64bit)> <blob-id (64-bit)> ...
+    // BLOB format: <hza_marker (8-bit)> <block-length (64bit)> <blob-id (64-bit)>
+    // <blob-header <size (64-bit)> <raw (8-bit-arr)>> <blob-o-size (64-bit)> <mstate-id (64-bit)> ...
 
     auto sof = metadata.eof - 0x8;
     auto size = read(0x40);
 
     uint64_t blob_id = read(0x40);
 
+    uint64_t header_size = read(0x40) << 3;
+    seek(header_size + 0x40);
+
+    // The blob depends on its mstate.
+    hza_increment_dep(read(0x40));
+
     // Skip the blob data
-    seek(size - 0x40);
+    seek(size - 0x100 - header_size);
 
     metadata.blob_map[blob_id] = sof;
 }
-- 
2.43.0


From 8dadec54bb6f7cf5e55e150bdeb16815bda238ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 22/50] fix: archive was inspected and initialised before its
 lock was held, and aliases of its path had separate locks

---
 src/hzip_storage/archive/archive.cpp | 48 +++++++++++++++++-----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index ca7d696..70e36a2 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -8,21 +8,8 @@
 #include <hzip_storage/errors/archive.h>
 
 HZ_Archive::HZ_Archive(const std::string &archive_path) {
-    path = std::filesystem::absolute(archive_path);
-
-    bool init_flag = !fsutils::check_if_file_exists(path);
-
-    if (init_flag) {
-        fsutils::create_empty_file(path);
-    }
-
-    FILE *fp;
-    if ((fp = fopen(path.c_str(), "rb+")) == nullptr) {
-        throw ArchiveErrors::InvalidOperationException(std::string("fopen() failed with error: ") +
-                                                       std::strerror(errno));
-    }
-
-    stream = rainman::ptr<bitio::stream>(1, fp);
+    // Aliases of one file must share one lock.
+    path = std::filesystem::weakly_canonical(std::filesystem::absolute(archive_path));
 
     auto sha512_path = "/" + hz_sha512(path);
 
@@ -36,12 +23,37 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
         throw ArchiveErrors::InvalidOperationException(std::string("sem_open() failed with error: ") + std::strerror(errno));
     }
 
-    sem_wait(archive_mutex.pointer());
+    while (sem_wait(archive_mutex.pointer()) != 0) {
+        if (errno != EINTR) {
+            throw ArchiveErrors::InvalidOperationException(std::string("sem_wait() failed with error: ") +
+                                                           std::strerror(errno));
+        }
+    }
 
     LOG_F(INFO, "hzip_core.archive: Access granted to archive [%s]", path.c_str());
 
-    if (init_flag) {
-        hza_init();
+    try {
+        // Only the holder of the lock may inspect or create the file.
+        bool init_flag = !fsutils::check_if_file_exists(path);
+
+        if (init_flag) {
+            fsutils::create_empty_file(path);
+        }
+
+        FILE *fp;
+        if ((fp = fopen(path.c_str(), "rb+")) == nullptr) {
+            throw ArchiveErrors::InvalidOperationException(std::string("fopen() failed with error: ") +
+                                                           std::strerror(errno));
+        }
+
+        stream = rainman::ptr<bitio::stream>(1, fp);
+
+        if (init_flag) {
+            hza_init();
+        }
+    } catch (...) {
+        sem_post(archive_mutex.pointer());
+        throw;
     }
 }
 
-- 
2.43.0


From 8095fb63050fdd3b90688b8b2b7d5f05aee2fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 23/50] fix: closing an archive that was not (successfully)
 loaded overwrote its records

---
 src/hzip_storage/archive/archive.cpp | 9 +++++++--
 src/hzip_storage/archive/archive.h   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 70e36a2..7ce65a4 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -77,6 +77,7 @@ void HZ_Archive::hza_scan() {
 
         if (marker == HZ_ArchiveMarker::END) {
             metadata.eof -= 0x8;
+            loaded = true;
             break;
         }
 
@@ -787,8 +788,12 @@ void HZ_Archive::uninstall_mstate(uint64_t id) {
 void HZ_Archive::close() {
     std::lock_guard<std::mutex> lock(mutex);
 
-    stream->seek_to(metadata.eof);
-    stream->write(HZ_ArchiveMarker::END, 0x8);
+    // The end of the archive is known only after it was loaded.
+    if (loaded) {
+        stream->seek_to(metadata.eof);
+        stream->write(HZ_ArchiveMarker::END, 0x8);
+    }
+
     stream->flush();
 
     sem_post(archive_mutex.pointer());
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index 775cead..4b7a2cc 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -78,6 +78,7 @@ class HZ_Archive {
 private:
     std::string path;
     HZ_ArchiveMetadata metadata;
+    bool loaded{};
     rainman::ptr<bitio::stream> stream;
     rainman::ptr<sem_t> archive_mutex{};
     std::mutex mutex{};
-- 
2.43.0


From 8ca8312da4c908fa08e1e13f132a3559a4eeb9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:52 +0000
Subject: [PATCH 24/50] fix: failed or interrupted socket transfers were taken
 for complete ones

---
 .../api/handlers/socket_class.cpp             | 57 ++++++++++++++++---
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index e64da57..ea238e7 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -8,13 +8,56 @@
 
 using namespace hzapi;
 
+// Transfer exactly n bytes, false if the peer closed the connection or an error (including a timeout) occurred.
+static bool send_all(int sock, const void *buf, size_t n) {
+    auto ptr = static_cast<const uint8_t *>(buf);
+
+    while (n > 0) {
+        ssize_t count = send(sock, ptr, n, MSG_NOSIGNAL);
+
+        if (count < 0 && errno == EINTR) {
+            continue;
+        }
+
+        if (count <= 0) {
+            return false;
+        }
+
+        ptr += count;
+        n -= count;
+    }
+
+    return true;
+}
+
+static bool recv_all(int sock, void *buf, size_t n) {
+    auto ptr = static_cast<uint8_t *>(buf);
+
+    while (n > 0) {
+        ssize_t count = recv(sock, ptr, n, MSG_WAITALL);
+
+        if (count < 0 && errno == EINTR) {
+            continue;
+        }
+
+        if (count <= 0) {
+            return false;
+        }
+
+        ptr += count;
+        n -= count;
+    }
+
+    return true;
+}
+
 void SocketInterface::t_send(const void *buf, size_t n) const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (!send_all(_sock, &word, sizeof(word))) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-    if (send(_sock, buf, n, 0) < n) {
+    if (!send_all(_sock, buf, n)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -28,7 +71,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
         t_recv_sync();
     }
 
-    if (recv(_sock, buf, n, MSG_WAITALL) < n) {
+    if (!recv_all(_sock, buf, n)) {
         throw ApiErrors::ConnectionError("Insufficient data received");
     }
 
@@ -39,7 +82,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
 
 void SocketInterface::t_recv_sync() const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (!send_all(_sock, &word, sizeof(word))) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -52,12 +95,10 @@ void SocketInterface::error(const std::string &msg) const {
     // Error format: <CTLWORD (1B)> <msg len (8B)> <msg (?B)>
 
     uint8_t word = COMMON_CTL_ERROR;
-    send(_sock, &word, sizeof(word), 0);
-
     uint16_t len = msg.length();
 
-    send(_sock, &len, sizeof(len), 0);
-    send(_sock, msg.c_str(), len, 0);
+    // The peer may be gone already, the next receive operation notices that.
+    send_all(_sock, &word, sizeof(word)) && send_all(_sock, &len, sizeof(len)) && send_all(_sock, msg.c_str(), len);
 }
 
 void SocketInterface::success(const std::string &msg) {
-- 
2.43.0


From 82e78edf59dec5fddd4f69142a14ea2e18f5fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 25/50] fix: archive provider stayed locked after a failed open
 and deadlocked on aliases of an open archive

---
 .../api/providers/archive_provider.cpp        | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 1a21f51..5c43587 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,28 +1,34 @@
 #include "archive_provider.h"
+#include <filesystem>
 
 rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
-    mutex.lock();
-    rainman::ptr<HZ_Archive> archive;
-    if (arch_map.contains(path)) {
-        archive = arch_map[path];
-    } else {
-        archive = rainman::ptr<HZ_Archive>(1, path);
-        archive->load();
+    std::lock_guard<std::mutex> lock(mutex);
+
+    // An archive can be opened only once, so all names of a file must lead to the same entry.
+    std::string key = std::filesystem::weakly_canonical(std::filesystem::absolute(path));
 
-        arch_map[path] = archive;
+    if (arch_map.contains(key)) {
+        return arch_map[key];
     }
 
-    mutex.unlock();
+    auto archive = rainman::ptr<HZ_Archive>(1, key);
+
+    try {
+        archive->load();
+    } catch (...) {
+        archive->close();
+        throw;
+    }
+
+    arch_map[key] = archive;
 
     return archive;
 }
 
 void hzapi::ArchiveProvider::close() {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
 
     for (auto &entry : arch_map) {
         entry.second->close();
     }
-
-    mutex.unlock();
 }
-- 
2.43.0


From c60741b91d432fca136a7c17c5aeb04984b9f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:38 +0000
Subject: [PATCH 26/50] fix: incompressible data encoded with a named mstate
 could not be decoded

---
 src/hzip_codec/processor/processor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 0193b2d..7762ad1 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -67,7 +67,8 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
 
         blob->mstate_id = job->blob->mstate_id;
 
-        if (job->mstate_addr.is_none()) {
+        // Data that could not be compressed is stored as it is, it must not refer to the mstate found by address.
+        if (job->mstate_addr.is_none() || !blob->status) {
             if (job->archive.is_some()) {
                 job->archive.inner()->inject_mstate(blob->mstate, blob);
             } else if (job->blob_callback == nullptr) {
-- 
2.43.0


From 7aac0f6d0240a141ec12b4939a2e8c06e23e4a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:38 +0000
Subject: [PATCH 27/50] fix: failed training destroyed the previous mstate

---
 src/hzip_codec/processor/processor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 7762ad1..487053b 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -120,9 +120,10 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
         throw ProcessorErrors::InvalidOperationError("Archive not found");
     }
 
-    if (job->archive.inner()->check_mstate_exists(job->mstate_addr.inner())) {
+    bool mstate_exists = job->archive.inner()->check_mstate_exists(job->mstate_addr.inner());
+
+    if (mstate_exists) {
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
-        job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -132,6 +133,11 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
     try {
         mstate = codec->train(job->blob);
 
+        // The previous mstate is replaced only after the training was successful.
+        if (mstate_exists) {
+            job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
+        }
+
         job->archive.inner()->install_mstate(job->mstate_addr.inner(), mstate);
     } catch (std::exception &e) {
         throw ProcessorErrors::GenericError(e.what());
-- 
2.43.0


From d9de21d634bc0783e4c3605295db03bbfdb186fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 28/50] fix: truncated png data was read past its end

---
 src/hzip_core/preprocessor/png_bundle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 2ee30eb..18bc1c0 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -1,6 +1,10 @@
 #include "png_bundle.h"
 
 void PNGBundleBuilder::MemBuffer::read(uint8_t *dst, uint64_t size, uint64_t n) {
+    if (size * n > buffer.size() - index) {
+        throw TransformErrors::InvalidInputError("png data is truncated");
+    }
+
     for (uint64_t i = 0; i < size * n; i++) {
         dst[i] = buffer[index++];
     }
-- 
2.43.0


From c83b8862d27aa159d4730b086a0dfed055909ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 29/50] fix: png structure was freed by an allocator that did
 not allocate it

---
 src/hzip_core/preprocessor/png_bundle.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 18bc1c0..b93e1fc 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -61,21 +61,23 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         throw TransformErrors::InvalidInputError("png header check failed");
     }
 
-    png_structp png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
+    // The structure itself must come from the allocator that frees it.
+    png_structp png_ptr = png_create_read_struct_2(
+            PNG_LIBPNG_VER_STRING,
+            nullptr, png_error_fn, png_warning_fn,
+            nullptr, png_malloc_fn, png_free_fn
+    );
 
     if (!png_ptr) {
         throw TransformErrors::InvalidOperationError("png_create_read_struct() failed");
     }
 
-    png_set_mem_fn(png_ptr, nullptr, png_malloc_fn, png_free_fn);
-
     png_infop info_ptr = png_create_info_struct(png_ptr);
     if (!info_ptr) {
         png_destroy_read_struct(&png_ptr, nullptr, nullptr);
         throw TransformErrors::InvalidOperationError("png_create_info_struct() failed");
     }
 
-    png_set_error_fn(png_ptr, nullptr, png_error_fn, png_warning_fn);
     png_set_read_fn(png_ptr, &_mem_buf, png_read_fn);
     png_set_sig_bytes(png_ptr, 8);
 
-- 
2.43.0


From cb3cb22c4254a33572f76305743c1dfd0b6cfb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 30/50] fix: png images with a bit depth other than 8 were read
 wrongly

---
 src/hzip_core/preprocessor/png_bundle.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index b93e1fc..8040164 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -89,28 +89,37 @@ PNGBundle PNGBundleBuilder::read_bundle() {
     png_byte bit_depth = png_get_bit_depth(png_ptr, info_ptr);
     png_byte nchannels = png_get_channels(png_ptr, info_ptr);
 
+    // Unpack samples of less than 8 bits.
+    png_set_packing(png_ptr);
+
     int number_of_passes = png_set_interlace_handling(png_ptr);
 
     png_read_update_info(png_ptr, info_ptr);
 
-    uint64_t buffer_size = 0;
     auto row_pointers = rmalloc<png_bytep>(height);
     for (int y = 0; y < height; y++) {
         uint64_t row_byte_count = png_get_rowbytes(png_ptr, info_ptr);
-        buffer_size += row_byte_count;
         row_pointers[y] = rmalloc<png_byte>(row_byte_count);
     }
 
     png_read_image(png_ptr, row_pointers);
 
-    auto pixar = rainman::ptr<uint16_t>(buffer_size);
-    uint64_t sz = height * width;
+    uint64_t sz = (uint64_t) height * width;
+    auto pixar = rainman::ptr<uint16_t>(sz * nchannels);
     uint64_t sy = width;
 
     for (uint64_t y = 0, ly = 0; y < height; y++, ly += sy) {
         for (uint64_t x = 0; x < width; x++) {
             for (uint64_t z = 0, lz = 0; z < nchannels; z++, lz += sz) {
-                pixar[lz + ly + x] = row_pointers[y][nchannels * x + z];
+                uint64_t sample_index = nchannels * x + z;
+
+                if (bit_depth == 16) {
+                    // 16-bit samples are stored in network byte order.
+                    pixar[lz + ly + x] = (row_pointers[y][sample_index << 1] << 8) |
+                                         row_pointers[y][(sample_index << 1) + 1];
+                } else {
+                    pixar[lz + ly + x] = row_pointers[y][sample_index];
+                }
             }
         }
     }
-- 
2.43.0


From d96b3be87729f00b5d16c8baa10f27c92c2d566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:32 +0000
Subject: [PATCH 31/50] fix: rejected png images leaked memory

---
 src/hzip_core/preprocessor/png_bundle.cpp | 35 ++++++++++++-----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 8040164..9b6cec6 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -1,4 +1,5 @@
 #include "png_bundle.h"
+#include <vector>
 
 void PNGBundleBuilder::MemBuffer::read(uint8_t *dst, uint64_t size, uint64_t n) {
     if (size * n > buffer.size() - index) {
@@ -72,9 +73,18 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         throw TransformErrors::InvalidOperationError("png_create_read_struct() failed");
     }
 
-    png_infop info_ptr = png_create_info_struct(png_ptr);
+    // Release the structures on every path, libpng reports errors by throwing.
+    struct ReadGuard {
+        png_structp png_ptr;
+        png_infop info_ptr;
+
+        ~ReadGuard() {
+            png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
+        }
+    } guard{png_ptr, nullptr};
+
+    png_infop info_ptr = guard.info_ptr = png_create_info_struct(png_ptr);
     if (!info_ptr) {
-        png_destroy_read_struct(&png_ptr, nullptr, nullptr);
         throw TransformErrors::InvalidOperationError("png_create_info_struct() failed");
     }
 
@@ -96,13 +106,15 @@ PNGBundle PNGBundleBuilder::read_bundle() {
 
     png_read_update_info(png_ptr, info_ptr);
 
-    auto row_pointers = rmalloc<png_bytep>(height);
-    for (int y = 0; y < height; y++) {
-        uint64_t row_byte_count = png_get_rowbytes(png_ptr, info_ptr);
-        row_pointers[y] = rmalloc<png_byte>(row_byte_count);
+    uint64_t row_byte_count = png_get_rowbytes(png_ptr, info_ptr);
+    auto rows = std::vector<rainman::ptr<png_byte>>();
+    auto row_pointers = rainman::ptr<png_bytep>(height);
+    for (uint64_t y = 0; y < height; y++) {
+        rows.emplace_back(row_byte_count);
+        row_pointers[y] = rows[y].pointer();
     }
 
-    png_read_image(png_ptr, row_pointers);
+    png_read_image(png_ptr, row_pointers.pointer());
 
     uint64_t sz = (uint64_t) height * width;
     auto pixar = rainman::ptr<uint16_t>(sz * nchannels);
@@ -124,12 +136,6 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         }
     }
 
-    for (int y = 0; y < height; y++) {
-        rfree(row_pointers[y]);
-    }
-
-    rfree(row_pointers);
-
     auto bundle = PNGBundle(
             pixar,
             nchannels
@@ -157,9 +163,6 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         bundle.plte.colors = colors;
     }
 
-    png_destroy_info_struct(png_ptr, &info_ptr);
-    png_destroy_read_struct(&png_ptr, nullptr, nullptr);
-
     return bundle;
 }
 
-- 
2.43.0


From 4ca1c28a3ff14c63da964290439e58bd761295ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:32 +0000
Subject: [PATCH 32/50] fix: sharingan returned garbage when OpenCL support is
 disabled

---
 src/hzip_codec/sharingan/state_transition.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 3c20615..fdf3728 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -469,14 +469,16 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
     return std::pair<rainman::virtual_array<SSTPair>, std::mutex &>(array, cache_mutex);
 }
 
+#endif
+
 std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransition::dynamic_precode() {
+#ifdef HZIP_ENABLE_OPENCL
     if (hzruntime::Config::opencl_support_enabled) {
         if (_width * _height > 1000000) {
             return opencl_dynamic_precode();
-        } else {
-            return cpu_dynamic_precode();
         }
     }
-}
-
 #endif
+
+    return cpu_dynamic_precode();
+}
-- 
2.43.0


From 7fe5dab8c0bd194fb647a396087debdd6f1ae561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:32 +0000
Subject: [PATCH 33/50] fix: sharingan read outside the image for bit depths
 above 8

---
 src/hzip_codec/sharingan/state_transition.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index fdf3728..7482d4d 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -126,14 +126,14 @@ SharinganStateTransition::static_precode() {
                 uint64_t curr_symbol = _data[index] >> shift;
 
                 if (x > 0) {
-                    auto left_symbol = _data[index - 1];
+                    auto left_symbol = _data[index - 1] >> shift;
                     uint32_t ls = ls_chan[left_symbol][curr_symbol];
                     uint32_t bs = bs_chan[left_symbol][curr_symbol];
 
                     array[index] = SSTPair{.ls=ls, .bs=bs};
                 } else if (y > 0) {
                     if (_locality_context_order > 1) {
-                        auto up_symbol = _data[index - _width];
+                        auto up_symbol = _data[index - _width] >> shift;
                         uint32_t ls = ls_chan[up_symbol][curr_symbol];
                         uint32_t bs = bs_chan[up_symbol][curr_symbol];
 
@@ -156,18 +156,18 @@ SharinganStateTransition::static_precode() {
             auto ls_arr = _frequency_dists[channel_index];
             auto bs_arr = _cumulative_dists[channel_index];
 
-            uint64_t channel_offset = residue_offset + per_channel_size * channel_index;
+            uint64_t channel_offset = per_channel_size * channel_index;
             for (uint64_t y = 0; y < _height; y++) {
                 uint64_t y_offset = channel_offset + y * _width;
 
                 for (uint64_t x = 0; x < _width; x++) {
                     uint64_t index = y_offset + x;
-                    uint64_t curr_symbol = _data[index];
+                    uint64_t curr_symbol = _data[index] & 0xff;
 
                     uint32_t ls = ls_arr[curr_symbol];
                     uint32_t bs = bs_arr[curr_symbol];
 
-                    array[index] = SSTPair{.ls=ls, .bs=bs};
+                    array[residue_offset + index] = SSTPair{.ls=ls, .bs=bs};
                 }
             }
         }
@@ -290,11 +290,11 @@ SharinganStateTransition::cpu_dynamic_precode() {
 
     if (shift != 0) {
         for (uint64_t channel_index = 0; channel_index < _nchannels; channel_index++) {
-            uint64_t channel_offset = residue_segment_offset + channel_index * per_channel_offset;
+            uint64_t channel_offset = channel_index * per_channel_offset;
 
             for (uint64_t y_chunk_index = 0; y_chunk_index < y_chunks; y_chunk_index++) {
                 uint64_t y_chunk_partial_offset = y_chunk_index * _chunk_height;
-                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset;
+                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset * _width;
                 uint64_t chunk_h = y_chunk_partial_offset + _chunk_height > _height ? y_residue : _chunk_height;
 
                 for (uint64_t x_chunk_index = 0; x_chunk_index < x_chunks; x_chunk_index++) {
@@ -315,7 +315,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                             uint64_t residual_symbol = _data[index] & 0xff;
 
                             if (x == 0 && y == 0) {
-                                array.set(uniform_pair(residual_symbol), index);
+                                array.set(uniform_pair(residual_symbol), residue_segment_offset + index);
                             } else {
                                 state.ftable = ls_arr;
 
@@ -325,7 +325,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                                 array.set(SSTPair{
                                         .ls=static_cast<uint32_t>(state.ls),
                                         .bs=static_cast<uint32_t>(state.bs)
-                                }, index);
+                                }, residue_segment_offset + index);
                             }
 
                             f_dist[residual_symbol] += (_learning_rate << 1);
-- 
2.43.0


From f315b481d6c53832f0fec3348eeb867b74e17f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:52 +0000
Subject: [PATCH 34/50] fix: sharingan OpenCL path counted in uninitialised
 memory and passed an argument of the wrong size

---
 src/hzip_codec/sharingan/state_transition.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 7482d4d..7f71af4 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -404,6 +404,8 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
         {
             std::scoped_lock<std::mutex> device_lock(device_mutex);
             auto queue = cl::CommandQueue(context, device, CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE);
+            queue.enqueueFillBuffer(g_freq_map, (uint64_t) 0, 0, true_size * 65536 * sizeof(uint64_t));
+            queue.enqueueBarrierWithWaitList();
             queue.enqueueNDRangeKernel(kernel, cl::NDRange(0), cl::NDRange(global_size), cl::NDRange(local_size));
             queue.enqueueBarrierWithWaitList();
             queue.enqueueReadBuffer(g_output, CL_FALSE, 0, n * sizeof(SSTPair), output.pointer());
@@ -439,7 +441,7 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
             kernel.setArg(3, _chunk_width);
             kernel.setArg(4, _chunk_height);
             kernel.setArg(5, _locality_context_order);
-            kernel.setArg(6, 0);
+            kernel.setArg(6, (uint8_t) 0);
             kernel.setArg(7, true);
             kernel.setArg(8, _width);
             kernel.setArg(9, _height);
@@ -451,6 +453,8 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
             {
                 std::scoped_lock<std::mutex> device_lock(device_mutex);
                 auto queue = cl::CommandQueue(context, device, CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE);
+                queue.enqueueFillBuffer(g_freq_map, (uint64_t) 0, 0, true_size * 256 * sizeof(uint64_t));
+                queue.enqueueBarrierWithWaitList();
                 queue.enqueueNDRangeKernel(kernel, cl::NDRange(0), cl::NDRange(global_size), cl::NDRange(local_size));
                 queue.enqueueBarrierWithWaitList();
                 queue.enqueueReadBuffer(g_output, CL_FALSE, 0, n * sizeof(SSTPair), output.pointer());
-- 
2.43.0


From 092f2ebec8ac18e159f45d02a02a8164a3591613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:52 +0000
Subject: [PATCH 35/50] fix: sharingan residue models differed between the CPU
 and OpenCL

---
 src/hzip_codec/sharingan/sharingan_dynamic.cl | 17 +++++++++++------
 src/hzip_codec/sharingan/state_transition.cpp |  2 +-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/hzip_codec/sharingan/sharingan_dynamic.cl b/src/hzip_codec/sharingan/sharingan_dynamic.cl
index cfd14b3..cf1d911 100644
--- a/src/hzip_codec/sharingan/sharingan_dynamic.cl
+++ b/src/hzip_codec/sharingan/sharingan_dynamic.cl
@@ -65,13 +65,18 @@ __kernel void sharingan_dynamic(
 				
 				u64 curr_symbol = (g_input[index] >> shift) & 0xff;
 				
-				hzrans64_create_ftable_nf(&state, f_dist);
-				hzrans64_add_to_seq(&state, curr_symbol);
-				
-				p.ls = state.ls;
-				p.bs = state.bs;
+				if (x == 0 && y == 0) {
+					p.ls = 65536;
+					p.bs = curr_symbol << 16;
+				} else {
+					hzrans64_create_ftable_nf(&state, f_dist);
+					hzrans64_add_to_seq(&state, curr_symbol);
+
+					p.ls = state.ls;
+					p.bs = state.bs;
+				}
 				
-				f_dist[curr_symbol] += learning_rate;
+				f_dist[curr_symbol] += (learning_rate << 1);
 				
 				g_output[index] = p;
 			}
diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 7f71af4..ed9a54f 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -304,7 +304,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                     uint64_t chunk_w = x_chunk_partial_offset + _chunk_width > _width ? x_residue : _chunk_width;
 
                     // Create dists.
-                    uint64_t f_dist[256] = {1};
+                    uint64_t f_dist[256] = {0};
 
                     // Encode residual symbols if any.
                     for (uint64_t y = 0; y < chunk_h; y++) {
-- 
2.43.0


From 9aba405c48e4f4303a205a1c687e630293a5bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:52 +0000
Subject: [PATCH 36/50] fix: sharingan silently returned nothing for operations
 it does not support

---
 src/hzip_codec/sharingan/sharingan.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/sharingan/sharingan.cpp b/src/hzip_codec/sharingan/sharingan.cpp
index 3b0ce34..ec80f90 100644
--- a/src/hzip_codec/sharingan/sharingan.cpp
+++ b/src/hzip_codec/sharingan/sharingan.cpp
@@ -4,6 +4,7 @@
 #include <hzip_core/models/paeth.h>
 #include <hzip_core/kernel/hzrans/hzrans64_codec.h>
 #include <hzip_core/utils/utils.h>
+#include <hzip_codec/errors/codec.h>
 #include "state_transition.h"
 
 void hzcodec::Sharingan::preprocess_data(const PNGBundle &bundle) {
@@ -127,9 +128,9 @@ rainman::ptr<HZ_Blob> hzcodec::Sharingan::compress(const rainman::ptr<HZ_Blob> &
 }
 
 rainman::ptr<HZ_Blob> hzcodec::Sharingan::decompress(const rainman::ptr<HZ_Blob> &blob) {
-    return rainman::ptr<HZ_Blob>();
+    throw CodecErrors::InvalidOperationException("Decompression is not supported by algorithm: SHARINGAN");
 }
 
 rainman::ptr<HZ_MState> hzcodec::Sharingan::train(const rainman::ptr<HZ_Blob> &blob) {
-    return rainman::ptr<HZ_MState>();
+    throw CodecErrors::InvalidOperationException("Cannot train models with algorithm: SHARINGAN");
 }
-- 
2.43.0


From 82174064a4eb5adc4d3b63487fe07f7d856b94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 37/50] fix: jpeg header was built from a destroyed
 decompressor

---
 src/hzip_core/preprocessor/jpeg_codec.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index cf40153..49ee98f 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -218,11 +218,12 @@ public:
             }
         }
 
+        auto image = hzj_image_struct{hzj_header(&info), dct_coeffs};
+
         jpeg_finish_decompress(&info);
         jpeg_destroy_decompress(&info);
 
-
-        return hzj_image_struct{hzj_header(&info), dct_coeffs};
+        return image;
     }
 
     void write(hzj_image_struct image, FILE *out) {
-- 
2.43.0


From 95e4bfc01acb32e1b89bc612892ecf044ece3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 38/50] fix: jpeg density fields were never initialised

---
 src/hzip_core/preprocessor/jpeg_codec.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index 49ee98f..fd2829d 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -75,8 +75,8 @@ public:
         uint8_t JFIF_major_version = 0;
         uint8_t JFIF_minor_version = 0;
         uint8_t density_unit;
-        uint8_t X_density;
-        uint8_t Y_density;
+        uint16_t X_density;
+        uint16_t Y_density;
 
 
         hzj_header(j_decompress_ptr info) {
@@ -91,6 +91,15 @@ public:
             data_precision = info->data_precision;
             CCIR601_sampling = info->CCIR601_sampling;
 
+            if (info->saw_JFIF_marker) {
+                JFIF_major_version = info->JFIF_major_version;
+                JFIF_minor_version = info->JFIF_minor_version;
+            }
+
+            density_unit = info->density_unit;
+            X_density = info->X_density;
+            Y_density = info->Y_density;
+
             qtables = new QTABLE[NUM_QUANT_TBLS];
             for (int tblno = 0; tblno < NUM_QUANT_TBLS; tblno++) {
                 if (info->quant_tbl_ptrs[tblno] != NULL) {
-- 
2.43.0


From adfc5f41682ba6a0bf3023cb85bd94b6633bdf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 39/50] fix: bytes that are not a jpeg ended the whole process

---
 src/hzip_core/preprocessor/jpeg_codec.h | 35 +++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index fd2829d..ca76162 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -5,6 +5,7 @@
 #include <jpeglib.h>
 #include <string>
 #include <cstring>
+#include <stdexcept>
 #include <vector>
 #include <jerror.h>
 #include <jpegint.h>
@@ -24,6 +25,22 @@ private:
         }
     }
 
+    // libjpeg's default handler ends the process.
+    static void hzj_error_exit(j_common_ptr info) {
+        char msg[JMSG_LENGTH_MAX];
+        (*info->err->format_message)(info, msg);
+        throw std::runtime_error(std::string("libjpeg: ") + msg);
+    }
+
+    static void hzj_output_message(j_common_ptr) {}
+
+    static jpeg_error_mgr *hzj_error_mgr(jpeg_error_mgr *err) {
+        jpeg_std_error(err);
+        err->error_exit = hzj_error_exit;
+        err->output_message = hzj_output_message;
+        return err;
+    }
+
     inline long hzj_round_up(long a, long b) {
         a += b - 1L;
         return a - (a % b);
@@ -189,10 +206,16 @@ public:
 
     hzj_iface(uint8_t *buf, uint64_t len) {
         jpeg_file = fmemopen(buf, len, "rb");
+        if (jpeg_file == nullptr) {
+            throw std::runtime_error("jpeg buffer cannot be read");
+        }
     }
 
     hzj_iface(std::string filename) {
         jpeg_file = fopen(filename.c_str(), "rb");
+        if (jpeg_file == nullptr) {
+            throw std::runtime_error("jpeg file cannot be opened: " + filename);
+        }
     }
 
     hzj_image_struct read() {
@@ -200,9 +223,18 @@ public:
         jpeg_error_mgr err;
 
 
-        info.err = jpeg_std_error(&err);
+        info.err = hzj_error_mgr(&err);
         jpeg_create_decompress(&info);
 
+        // Release the decompressor on every path.
+        struct Guard {
+            j_decompress_ptr info;
+
+            ~Guard() {
+                jpeg_destroy_decompress(info);
+            }
+        } guard{&info};
+
         jpeg_stdio_src(&info, jpeg_file);
         jpeg_read_header(&info, true);
 
@@ -230,7 +262,6 @@ public:
         auto image = hzj_image_struct{hzj_header(&info), dct_coeffs};
 
         jpeg_finish_decompress(&info);
-        jpeg_destroy_decompress(&info);
 
         return image;
     }
-- 
2.43.0


From f7c8fe36b3af07d159edcc861fab088ebcd99674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 40/50] fix: jpeg writer swapped width and height and used
 arrays of an unrelated decompressor

---
 src/hzip_core/preprocessor/jpeg_codec.h | 45 ++++++++++++++-----------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index ca76162..3512af0 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -267,19 +267,24 @@ public:
     }
 
     void write(hzj_image_struct image, FILE *out) {
-        j_compress_ptr info = new jpeg_compress_struct;
+        jpeg_compress_struct cinfo;
         jpeg_error_mgr err;
+        j_compress_ptr info = &cinfo;
 
+        info->err = hzj_error_mgr(&err);
         jpeg_create_compress(info);
 
+        // Release the compressor on every path.
+        struct Guard {
+            j_compress_ptr info;
+
+            ~Guard() {
+                jpeg_destroy_compress(info);
+            }
+        } guard{info};
 
         image.header.create_compress_ptr(info);
         jpeg_stdio_dest(info, out);
-        info->err = jpeg_std_error(&err);
-
-        j_decompress_ptr dinfo = new jpeg_decompress_struct;
-        jpeg_create_decompress(dinfo);
-
 
         uint8_t max_v_samp_factor = 1;
         uint8_t max_h_samp_factor = 1;
@@ -292,31 +297,32 @@ public:
             }
         }
 
-        auto *coeff_arrays = new jvirt_barray_ptr[info->num_components];
+        // The virtual arrays belong to the compressor, it reads them back.
+        auto coeff_arrays = std::vector<jvirt_barray_ptr>(info->num_components);
 
         jpeg_component_info *compptr;
         int ci;
         for (ci = 0, compptr = info->comp_info; ci < info->num_components; ci++, compptr++) {
-            compptr->width_in_blocks =
-                    (JDIMENSION) image.header.image_height * image.header.comp_specs[ci].v_samp_factor /
-                    (8 * max_v_samp_factor);
-            compptr->height_in_blocks =
-                    (JDIMENSION) image.header.image_width * image.header.comp_specs[ci].h_samp_factor /
-                    (8 * max_h_samp_factor);
-
-            coeff_arrays[ci] = (*dinfo->mem->request_virt_barray)
-                    ((j_common_ptr) dinfo, JPOOL_IMAGE, TRUE,
+            compptr->width_in_blocks = hzj_round_up(
+                    (long) image.header.image_width * image.header.comp_specs[ci].h_samp_factor,
+                    8 * max_h_samp_factor) / (8 * max_h_samp_factor);
+            compptr->height_in_blocks = hzj_round_up(
+                    (long) image.header.image_height * image.header.comp_specs[ci].v_samp_factor,
+                    8 * max_v_samp_factor) / (8 * max_v_samp_factor);
+
+            coeff_arrays[ci] = (*info->mem->request_virt_barray)
+                    ((j_common_ptr) info, JPOOL_IMAGE, TRUE,
                      (JDIMENSION) hzj_round_up((long) compptr->width_in_blocks, (long) compptr->h_samp_factor),
                      (JDIMENSION) hzj_round_up((long) compptr->height_in_blocks, (long) compptr->v_samp_factor),
                      (JDIMENSION) compptr->v_samp_factor);
         }
 
-        (*dinfo->mem->realize_virt_arrays)((j_common_ptr) dinfo);
+        (*info->mem->realize_virt_arrays)((j_common_ptr) info);
 
         for (ci = 0, compptr = info->comp_info; ci < info->num_components; ci++, compptr++) {
 
             for (int by = 0; by < compptr->height_in_blocks; by++) {
-                JBLOCKARRAY buffer = (*dinfo->mem->access_virt_barray)((j_common_ptr) dinfo, coeff_arrays[ci], by,
+                JBLOCKARRAY buffer = (*info->mem->access_virt_barray)((j_common_ptr) info, coeff_arrays[ci], by,
                                                                        (JDIMENSION) 1, TRUE);
                 for (int bx = 0; bx < compptr->width_in_blocks; bx++) {
                     // We are now at a 8x8 dct-block.
@@ -329,9 +335,8 @@ public:
             }
         }
 
-        jpeg_write_coefficients(info, coeff_arrays);
+        jpeg_write_coefficients(info, coeff_arrays.data());
         jpeg_finish_compress(info);
-        jpeg_destroy_compress(info);
     }
 
 
-- 
2.43.0


From 1f27b10d742c9f367cc6103afa6ae90944463b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:03 +0000
Subject: [PATCH 41/50] fix: failed encode, train and decode requests reported
 success after the error and left unreachable blobs

A failed job sent an error in the middle of the data exchange, the loop went on and a success
message (and a truncated file) followed. The failure is now reported once, after all of the
client's data was received, and blobs that did not end up in a file are removed. Unknown
algorithms are refused before the data is requested. Decoding a streamed blob used a job
without codec data and held the lock while it failed. Unknown commands return to the
session's command level like all other errors.
---
 src/hzip_network/api/handlers/streamer.cpp | 172 +++++++++++----------
 src/hzip_network/api/handlers/streamer.h   |   6 +
 src/hzip_storage/archive/archive.cpp       |   5 +
 src/hzip_storage/archive/archive.h         |   3 +
 4 files changed, 103 insertions(+), 83 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 718ad51..dd587bc 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -25,6 +25,48 @@ Streamer::Streamer(
     _archive_provider = archive_provider;
 }
 
+void Streamer::run_job(const rainman::ptr<HZ_Job> &job) {
+    bool failed = false;
+    std::string failure;
+
+    job->type = HZ_Job::CODEC;
+
+    job->stub->on_completed = [this]() {
+        _mutex->unlock();
+    };
+
+    job->stub->on_error = [&failed, &failure](const std::string &msg) {
+        failed = true;
+        failure = msg;
+    };
+
+    _mutex->lock();
+
+    // Avoid processor overload.
+    _processor->cycle();
+
+    // Dispatch hz_job to hz_processor.
+    _processor->run(job);
+
+    // Wait for completion.
+    _mutex->lock();
+    _mutex->unlock();
+
+    if (failed) {
+        throw ApiErrors::InvalidOperationError(failure);
+    }
+}
+
+void Streamer::drain(uint64_t n) {
+    auto buf = std::vector<uint8_t>(0x10000);
+
+    while (n > 0) {
+        uint64_t len = HZ_MIN(n, buf.size());
+        t_recv(buf.data(), len, false);
+        n -= len;
+    }
+}
+
 void Streamer::encode() {
     uint16_t archive_path_len{};
     uint16_t mstate_addr_len{};
@@ -50,13 +92,16 @@ void Streamer::encode() {
                     throw ApiErrors::InvalidOperationError("No algorithm was provided");
                 }
 
+                // Unknown algorithms must be refused before the data is requested.
+                hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
+
                 if (archive.is_some() && dest.is_some()) {
                     if (archive.inner()->check_file_exists(dest.inner().pointer())) {
                         throw ApiErrors::InvalidOperationError("File already exists");
                     }
                 }
 
-                if (!piggy_back && dest.is_none()) {
+                if (!piggy_back && (dest.is_none() || archive.is_none())) {
                     throw ApiErrors::InvalidOperationError("Null operations are not allowed");
                 }
 
@@ -64,17 +109,30 @@ void Streamer::encode() {
 
                 HZ_RECV(&data_len, sizeof(data_len));
 
-                std::vector<uint64_t> blob_ids;
+                // Blobs that do not end up in a file can never be reached again.
+                struct BlobGuard {
+                    rainman::option<rainman::ptr<HZ_Archive>> archive;
+                    std::vector<uint64_t> ids;
+                    bool committed{};
+
+                    ~BlobGuard() {
+                        for (uint64_t i = 0; !committed && i < ids.size(); i++) {
+                            try {
+                                archive.inner()->remove_blob(ids[i]);
+                            } catch (std::exception &e) {
+                                LOG_F(ERROR, "hzip_network.api: Failed to remove blob: %s", e.what());
+                            }
+                        }
+                    }
+                } blob_guard;
+
+                auto &blob_ids = blob_guard.ids;
+                blob_guard.archive = archive;
 
                 // Start raw-streaming using manual sync.
                 HZ_RECV_SYNC;
 
                 while (data_len > 0) {
-                    _mutex->lock();
-
-                    // Avoid processor overload.
-                    _processor->cycle();
-
                     auto blob = rainman::ptr<HZ_Blob>();
 
                     max_blob_size = HZ_MIN(max_blob_size, data_len);
@@ -126,29 +184,16 @@ void Streamer::encode() {
                     }
 
 
-                    auto stub = rainman::ptr<HZ_JobStub>();
-                    stub->on_completed = [this]() {
-                        _mutex->unlock();
-                    };
-
-                    stub->on_error = [this](const std::string &msg) {
-                        error(msg);
-                    };
-
-                    job->stub = stub;
-                    job->type = HZ_Job::CODEC;
-
-                    // Dispatch hz_job to hz_processor.
-                    _processor->run(job);
                     data_len -= max_blob_size;
 
-                    _mutex->lock();
-                    _mutex->unlock();
+                    try {
+                        run_job(job);
+                    } catch (ApiErrors::InvalidOperationError &e) {
+                        drain(data_len);
+                        throw;
+                    }
                 }
 
-
-                _mutex->lock();
-
                 if (archive.is_some() && dest.is_some()) {
                     auto blob_id_arr = rainman::ptr<uint64_t>(blob_ids.size());
                     for (int i = 0; i < blob_ids.size(); i++) {
@@ -159,10 +204,9 @@ void Streamer::encode() {
                     file.blob_ids = blob_id_arr;
 
                     archive.inner()->create_file_entry(dest.inner().pointer(), file);
+                    blob_guard.committed = true;
                 }
 
-                _mutex->unlock();
-
                 success("Operation completed successfully");
 
                 return;
@@ -210,6 +254,9 @@ void Streamer::encode() {
                     throw ApiErrors::InvalidOperationError("No algorithm was provided");
                 }
 
+                // Unknown algorithms must be refused before the data is requested.
+                hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
+
                 if (mstate_addr.is_none()) {
                     throw ApiErrors::InvalidOperationError("Mstate address not found");
                 }
@@ -228,14 +275,10 @@ void Streamer::encode() {
                 uint64_t batch_count = 0;
 
                 while (data_len > 0) {
-                    _mutex->lock();
                     HZAPI_LOGF(INFO, "[%s] Training [%s] batch: %lu", hzcodec::CodecProvider::algorithm_to_str(
                             static_cast<hzcodec::algorithms::ALGORITHM>(algorithm)), mstate_addr.inner().pointer(),
                                ++batch_count);
 
-                    // Avoid processor overload.
-                    _processor->cycle();
-
                     auto blob = rainman::ptr<HZ_Blob>();
 
                     max_blob_size = HZ_MIN(max_blob_size, data_len);
@@ -249,7 +292,6 @@ void Streamer::encode() {
                     // Construct hz_job struct for processing.
                     auto job = rainman::ptr<HZ_Job>();
                     auto codec = rainman::ptr<HZ_CodecJob>();
-                    auto stub = rainman::ptr<HZ_JobStub>();
 
                     codec->algorithm = (hzcodec::algorithms::ALGORITHM) algorithm;
                     codec->archive = archive;
@@ -259,32 +301,23 @@ void Streamer::encode() {
                     codec->blob = blob;
                     codec->job_type = HZ_CodecJob::TRAIN;
 
-
-                    stub->on_completed = [this]() {
-                        _mutex->unlock();
-                    };
-
-                    stub->on_error = [this](const std::string &msg) {
-                        error(msg);
-                    };
-
                     job->codec = codec;
-                    job->stub = stub;
-
-                    // Dispatch hz_job to hz_processor.
-                    _processor->run(job);
 
                     data_len -= max_blob_size;
 
-                    _mutex->lock();
-                    _mutex->unlock();
+                    try {
+                        run_job(job);
+                    } catch (ApiErrors::InvalidOperationError &e) {
+                        drain(data_len);
+                        throw;
+                    }
                 }
 
                 success("Operation completed successfully");
                 return;
             }
             default: {
-                error("Invalid command");
+                throw ApiErrors::InvalidOperationError("Invalid command");
             }
         }
     }
@@ -331,14 +364,12 @@ void Streamer::decode() {
                 HZ_SEND(&blob_count, sizeof(blob_count));
 
                 for (uint64_t i = 0; i < blob_count; i++) {
-                    _mutex->lock();
                     auto src_blob = archive.inner()->read_blob(file_entry.blob_ids[i]);
 
                     // Construct hz_job
 
                     auto job = rainman::ptr<HZ_Job>();
                     auto codec = rainman::ptr<HZ_CodecJob>();
-                    auto stub = rainman::ptr<HZ_JobStub>();
 
                     codec->archive = archive;
                     codec->job_type = HZ_CodecJob::DECODE;
@@ -350,28 +381,14 @@ void Streamer::decode() {
                         HZ_SEND(dblob->data.pointer(), dblob->o_size);
                     };
 
-                    stub->on_completed = [this]() {
-                        _mutex->unlock();
-                    };
-
-                    stub->on_error = [this](const std::string &msg) {
-                        error(msg);
-                    };
-
                     HZAPI_LOGF(INFO, "[%s] Decompressing blob of size: %lu bytes",
                                hzcodec::CodecProvider::algorithm_to_str(
                                        static_cast<hzcodec::algorithms::ALGORITHM>(codec->algorithm)),
                                src_blob->size);
 
                     job->codec = codec;
-                    job->stub = stub;
-
-                    _processor->cycle();
-                    _processor->run(job);
 
-                    // Cycle the mutex
-                    _mutex->lock();
-                    _mutex->unlock();
+                    run_job(job);
                 }
 
                 success("Operation completed successfully");
@@ -430,9 +447,6 @@ void Streamer::decode() {
                 break;
             }
             case DECODE_CTL_BLOB_STREAM: {
-                _mutex->lock();
-                _processor->cycle();
-
                 if (!piggy_back) {
                     throw ApiErrors::InvalidOperationError("Piggy-back was disabled");
                 }
@@ -453,20 +467,21 @@ void Streamer::decode() {
                 HZ_RECV(blob->data.pointer(), blob->size);
 
                 HZ_RECV(&blob->o_size, sizeof(blob->o_size));
+                blob->status = blob->size < blob->o_size;
 
                 if (mstate.is_some()) {
+                    mstate.inner()->alg = (hzcodec::algorithms::ALGORITHM) algorithm;
                     blob->mstate = mstate.inner();
                 }
 
                 auto job = rainman::ptr<HZ_Job>();
                 auto codec = rainman::ptr<HZ_CodecJob>();
-                auto stub = rainman::ptr<HZ_JobStub>();
 
                 if (mstate_addr.is_some()) {
                     codec->mstate_addr = std::string(mstate_addr.inner().pointer());
                 }
                 codec->archive = archive;
-
+                codec->algorithm = (hzcodec::algorithms::ALGORITHM) algorithm;
 
                 codec->blob_callback = [this](const rainman::ptr<HZ_Blob> &dblob) {
                     HZ_SEND(&dblob->o_size, sizeof(dblob->o_size));
@@ -477,24 +492,15 @@ void Streamer::decode() {
                 codec->blob = blob;
                 codec->job_type = HZ_CodecJob::DECODE;
 
-                job->stub->on_completed = [this]() {
-                    _mutex->unlock();
-                };
-
-                job->stub->on_error = [this](const std::string &msg) {
-                    error(msg);
-                };
-
-                _processor->run(job);
+                job->codec = codec;
 
-                _mutex->lock();
-                _mutex->unlock();
+                run_job(job);
 
                 success("Operation completed successfully");
                 return;
             }
             default: {
-                error("Invalid command");
+                throw ApiErrors::InvalidOperationError("Invalid command");
             }
         }
     }
diff --git a/src/hzip_network/api/handlers/streamer.h b/src/hzip_network/api/handlers/streamer.h
index 3190376..fbd76d4 100644
--- a/src/hzip_network/api/handlers/streamer.h
+++ b/src/hzip_network/api/handlers/streamer.h
@@ -17,6 +17,12 @@ namespace hzapi {
         rainman::ptr<hzapi::ArchiveProvider> _archive_provider;
 
         static uint64_t hzes_b_size(hzcodec::algorithms::ALGORITHM alg);
+
+        // Run a job and wait for it, throws an error if the job failed.
+        void run_job(const rainman::ptr<HZ_Job> &job);
+
+        // Receive and ignore raw data, the peer streams all of it in any case.
+        void drain(uint64_t n);
     public:
 
         Streamer(int sock, const std::string &ip_addr, uint16_t port, const rainman::ptr<HZ_Processor>& processor,
diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 7ce65a4..5f676d6 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -817,6 +817,11 @@ uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
     return id;
 }
 
+void HZ_Archive::remove_blob(uint64_t id) {
+    std::lock_guard<std::mutex> lock(mutex);
+    hza_rm_blob(id);
+}
+
 bool HZ_Archive::check_file_exists(const std::string &file_path) {
     std::lock_guard<std::mutex> lock(mutex);
     bool v = metadata.file_map.contains(file_path);
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index 4b7a2cc..5193426 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -143,6 +143,9 @@ public:
 
     rainman::ptr<HZ_Blob> read_blob(uint64_t id);
 
+    // Remove a blob that does not belong to a file.
+    void remove_blob(uint64_t id);
+
     rainman::ptr<HZ_Blob> read_file(const std::string &file_path);
 
     rainman::ptr<HZ_MState> read_mstate(const std::string& _path);
-- 
2.43.0


From 3ea7a269f5d27f512c7ac01bf57ddea9036d46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 42/50] fix: an uncompressed blob could claim a larger size
 than its data

---
 src/hzip_codec/uncompressed/uncompressed.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_codec/uncompressed/uncompressed.cpp b/src/hzip_codec/uncompressed/uncompressed.cpp
index 08703b0..0deab3d 100644
--- a/src/hzip_codec/uncompressed/uncompressed.cpp
+++ b/src/hzip_codec/uncompressed/uncompressed.cpp
@@ -18,6 +18,11 @@ rainman::ptr<HZ_Blob> hzcodec::Uncompressed::compress(const rainman::ptr<HZ_Blob
 }
 
 rainman::ptr<HZ_Blob> hzcodec::Uncompressed::decompress(const rainman::ptr<HZ_Blob> &blob) {
+    // The original size is taken from the peer or the archive, it must not exceed the data.
+    if (blob->o_size != blob->size) {
+        throw CodecErrors::InvalidOperationException("Size mismatch in uncompressed data");
+    }
+
     auto dblob = rainman::ptr<HZ_Blob>();
     auto mstate = blob->mstate;
 
-- 
2.43.0


From da5657e2fd6d62dd6e143da4a5e4df791b04d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 43/50] fix: main.cpp did not compile

---
 src/main.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index ad14b0d..d34df13 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -43,12 +43,12 @@ int main(int argc, const char **argv) {
     setup_logger();
     set_unhandled_exception_handler();
 
-    Config::configure();
+    hzruntime::Config::configure();
 
-    rainman::Allocator().peak_size(Config::host_max_memory);
+    rainman::Allocator().peak_size(hzruntime::Config::host_max_memory);
     LOG_F(INFO, "hybridzip: Max memory usage set to %lu bytes", rainman::Allocator().peak_size());
 
-    auto api = new hzapi::Api(Config::api_threads);
+    auto api = new hzapi::Api(hzruntime::Config::api_threads);
 
     _hzapi_graceful_shutdown = [api]() {
         LOG_F(WARNING, "Gracefully shutting down.");
@@ -57,8 +57,8 @@ int main(int argc, const char **argv) {
 
     set_signal_handlers();
 
-    api->process(Config::processor_threads)
-            ->protect(Config::api_key)
-            ->timeout(timeval{.tv_sec=Config::api_timeout})
-            ->start("127.0.0.1", Config::api_port);
+    api->process(hzruntime::Config::processor_threads)
+            ->protect(hzruntime::Config::api_key)
+            ->timeout(timeval{.tv_sec=hzruntime::Config::api_timeout})
+            ->start("127.0.0.1", hzruntime::Config::api_port);
 }
\ No newline at end of file
-- 
2.43.0


From 87cb263ab273e03f026b742d768c4bd9c633416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:50 +0000
Subject: [PATCH 44/50] fix: an mstate of another algorithm or an empty one
 produced blobs that cannot be decoded

---
 src/hzip_codec/processor/processor.cpp | 23 ++++++++++++++++++++++-
 src/hzip_codec/processor/processor.h   |  2 ++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 487053b..11fb4ba 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -49,13 +49,28 @@ void HZ_Processor::hzp_run_codec_job(const rainman::ptr<HZ_CodecJob> &job) {
     }
 }
 
+void HZ_Processor::hzp_check_mstate(const rainman::ptr<HZ_CodecJob> &job) {
+    // A codec cannot interpret the mstate of another one.
+    if (job->algorithm != hzcodec::algorithms::UNCOMPRESSED && job->blob->mstate->alg != job->algorithm) {
+        throw ProcessorErrors::InvalidOperationError("Mstate does not belong to the algorithm");
+    }
+}
+
 void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
+    bool reuse_mstate = false;
+
     if (job->mstate_addr.is_some()) {
         if (job->archive.is_none()) {
             throw ProcessorErrors::InvalidOperationError("Archive is required for mstate-injection by address");
         }
 
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
+
+        // An empty mstate is populated by the codec, the result differs from the one found by address.
+        if (!job->blob->mstate->is_empty()) {
+            hzp_check_mstate(job);
+            reuse_mstate = true;
+        }
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -68,7 +83,7 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
         blob->mstate_id = job->blob->mstate_id;
 
         // Data that could not be compressed is stored as it is, it must not refer to the mstate found by address.
-        if (job->mstate_addr.is_none() || !blob->status) {
+        if (!reuse_mstate || !blob->status) {
             if (job->archive.is_some()) {
                 job->archive.inner()->inject_mstate(blob->mstate, blob);
             } else if (job->blob_callback == nullptr) {
@@ -101,6 +116,8 @@ void HZ_Processor::hzp_decode(const rainman::ptr<HZ_CodecJob> &job) {
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
     }
 
+    hzp_check_mstate(job);
+
     auto codec = hzp_get_codec(job->algorithm);
     rainman::ptr<HZ_Blob> blob;
     try {
@@ -124,6 +141,10 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
 
     if (mstate_exists) {
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
+
+        if (!job->blob->mstate->is_empty()) {
+            hzp_check_mstate(job);
+        }
     }
 
     auto codec = hzp_get_codec(job->algorithm);
diff --git a/src/hzip_codec/processor/processor.h b/src/hzip_codec/processor/processor.h
index 2143558..aacb505 100644
--- a/src/hzip_codec/processor/processor.h
+++ b/src/hzip_codec/processor/processor.h
@@ -18,6 +18,8 @@ private:
 
     hzcodec::AbstractCodec *hzp_get_codec(hzcodec::algorithms::ALGORITHM alg);
 
+    static void hzp_check_mstate(const rainman::ptr<HZ_CodecJob> &job);
+
     void hzp_encode(const rainman::ptr<HZ_CodecJob> &job);
 
     void hzp_decode(const rainman::ptr<HZ_CodecJob> &job);
-- 
2.43.0


From 5a755ed9c513d7dbfd2948eec50c3d19ede78098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:42 +0000
Subject: [PATCH 45/50] fix: malformed Victini blobs and mstates are refused,
 they crashed the process

---
 src/hzip_codec/victini/victini.cpp       | 27 ++++++++++++++++++++++++
 src/hzip_codec/victini/victini.h         |  3 +++
 src/hzip_core/kernel/hzrans/hzrans64.cpp |  8 +++++++
 3 files changed, 38 insertions(+)

diff --git a/src/hzip_codec/victini/victini.cpp b/src/hzip_codec/victini/victini.cpp
index 5886826..06f3546 100755
--- a/src/hzip_codec/victini/victini.cpp
+++ b/src/hzip_codec/victini/victini.cpp
@@ -74,9 +74,24 @@ rainman::ptr<HZ_Blob> hzcodec::Victini::decompress(const rainman::ptr<HZ_Blob> &
     auto mstate = blob->mstate;
     uint64_t length = blob->o_size;
 
+    // The blob and its mstate may have been sent by a peer.
+    if (blob->header.size() != 8) {
+        throw CodecErrors::InvalidOperationException("Invalid blob header");
+    }
+
+    if (blob->size < 8 || (blob->size & 3) != 0 || blob->size > blob->data.size()) {
+        throw CodecErrors::InvalidOperationException("Invalid blob data");
+    }
+
+    _check_mstate(mstate);
+
     // Parse blob_header
     uint64_t bwt_index = hz_u8buf_to_u64(blob->header.raw);
 
+    if (bwt_index > length) {
+        throw CodecErrors::InvalidOperationException("Invalid blob header");
+    }
+
     auto m_stream = bitio::stream(mstate->data.pointer(), mstate->size());
 
     auto dict = rainman::make_ptr2d<uint64_t>(0x100, 0x100);
@@ -203,6 +218,8 @@ void hzcodec::Victini::_model_transform(
 
         _normalize(dict, cdict);
     } else {
+        _check_mstate(mstate);
+
         auto m_stream = bitio::stream(mstate->data.pointer(), mstate->data.size());
 
         for (int i = 0; i < 0x100; i++) {
@@ -274,11 +291,21 @@ rainman::ptr<HZ_MState> hzcodec::Victini::train(const rainman::ptr<HZ_Blob> &blo
     return mstate;
 }
 
+void hzcodec::Victini::_check_mstate(const rainman::ptr<HZ_MState> &mstate) {
+    if (mstate->size() < (0x100 * 0x100) << 3) {
+        throw CodecErrors::InvalidOperationException("Invalid mstate");
+    }
+}
+
 void hzcodec::Victini::_normalize(const rainman::ptr2d<uint64_t> &dict, const rainman::ptr2d<uint64_t> &cdict) {
     for (int i = 0; i < 0x100; i++) {
         auto row = dict[i];
         uint64_t sum = 0;
         for (int k = 0; k < 0x100; k++) {
+            // Larger frequencies cannot be scaled.
+            if (row[k] > UINT64_MAX / 16776960) {
+                throw CodecErrors::InvalidOperationException("Invalid mstate");
+            }
             sum += row[k];
         }
 
diff --git a/src/hzip_codec/victini/victini.h b/src/hzip_codec/victini/victini.h
index 2025cec..4260f85 100755
--- a/src/hzip_codec/victini/victini.h
+++ b/src/hzip_codec/victini/victini.h
@@ -22,6 +22,9 @@ namespace hzcodec {
                 bool training_mode = false
         );
 
+        // Throws an error if the mstate cannot be one of this codec.
+        static void _check_mstate(const rainman::ptr<HZ_MState> &mstate);
+
         static void _normalize(const rainman::ptr2d<uint64_t> &dict, const rainman::ptr2d<uint64_t> &cdict);
 
     public:
diff --git a/src/hzip_core/kernel/hzrans/hzrans64.cpp b/src/hzip_core/kernel/hzrans/hzrans64.cpp
index 7075cb0..5058923 100755
--- a/src/hzip_core/kernel/hzrans/hzrans64.cpp
+++ b/src/hzip_core/kernel/hzrans/hzrans64.cpp
@@ -1,4 +1,5 @@
 #include "hzrans64.h"
+#include <stdexcept>
 #include <hzip_core/utils/stack.h>
 
 uint64_t hzrans64_inv_bs(hzrans64_t *state, uint64_t bs) {
@@ -79,6 +80,10 @@ void hzrans64_enc_flush(hzrans64_t *state, HZ_Stack<uint32_t> *data) {
 }
 
 void hzrans64_dec_load_state(hzrans64_t *state, rainman::ptr<uint32_t> &data) {
+    if (data.size() < 2) {
+        throw std::runtime_error("hzrans64: Unexpected end of data");
+    }
+
     uint64_t x;
     x = (uint64_t) (data[0]) << 0;
     x |= (uint64_t) (data[1]) << 32;
@@ -93,6 +98,9 @@ void hzrans64_decode_s(hzrans64_t *state, rainman::ptr<uint32_t> &data) {
 
     x = (ls * (x >> state->scale)) + (x & state->mask) - bs;
     if (x < state->lower_bound) {
+        if (state->count >= data.size()) {
+            throw std::runtime_error("hzrans64: Unexpected end of data");
+        }
         x = (x << 32) | data[state->count++];
     }
 
-- 
2.43.0


From 61a4ab4f7ef0048f874aea26c67790d0889c63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:49 +0000
Subject: [PATCH 46/50] fix: operations on a closed archive were acknowledged
 and lost, a second close released the lock twice

---
 src/hzip_storage/archive/archive.cpp | 59 ++++++++++++++++++----------
 src/hzip_storage/archive/archive.h   |  3 ++
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 5f676d6..3ce99b3 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -58,7 +58,7 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
 }
 
 void HZ_Archive::hza_scan() {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
 
     auto readfn = [this](uint64_t n) {
         this->metadata.eof += n;
@@ -263,7 +263,7 @@ rainman::option<uint64_t> HZ_Archive::hza_alloc_fragment(uint64_t length) {
 }
 
 void HZ_Archive::hza_init() {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
 
     stream->seek_to(0);
 
@@ -550,7 +550,7 @@ uint64_t HZ_Archive::hza_write_mstate(const rainman::ptr<HZ_MState>& mstate) {
 void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate) {
     hz_validate_path(_path);
 
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     if (metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
@@ -654,7 +654,7 @@ void HZ_Archive::hza_decrement_dep(uint64_t id) {
 void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ_Blob> &blobs, uint64_t blob_count) {
     hz_validate_path(file_path);
 
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     if (metadata.file_map.contains(file_path)) {
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
@@ -681,7 +681,7 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
 void HZ_Archive::remove_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     if (!metadata.file_map.contains(file_path)) {
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
@@ -709,7 +709,7 @@ void HZ_Archive::remove_file(const std::string &file_path) {
 rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     if (!metadata.file_map.contains(file_path)) {
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
@@ -729,7 +729,7 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
 void HZ_Archive::uninstall_mstate(const std::string &_path) {
     hz_validate_path(_path);
 
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     if (!metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::MstateNotFoundException(0);
     }
@@ -754,7 +754,7 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
 }
 
 void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &mstate, const rainman::ptr<HZ_Blob> &blob) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
 
     blob->mstate_id = hza_write_mstate(mstate);
     blob->mstate = mstate;
@@ -763,7 +763,7 @@ void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &mstate, const rain
 void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_Blob>& blob) {
     hz_validate_path(_path);
 
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
 
     if (!metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::MstateNotFoundException(0);
@@ -775,19 +775,36 @@ void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_B
 }
 
 uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     uint64_t id = hza_write_mstate(mstate);
     return id;
 }
 
 void HZ_Archive::uninstall_mstate(uint64_t id) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     hza_rm_mstate(id);
 }
 
+std::unique_lock<std::mutex> HZ_Archive::hza_lock() {
+    std::unique_lock<std::mutex> lock(mutex);
+
+    // What is written after the archive was closed would be lost.
+    if (closed) {
+        throw ArchiveErrors::InvalidOperationException("Archive is closed");
+    }
+
+    return lock;
+}
+
 void HZ_Archive::close() {
     std::lock_guard<std::mutex> lock(mutex);
 
+    if (closed) {
+        return;
+    }
+
+    closed = true;
+
     // The end of the archive is known only after it was loaded.
     if (loaded) {
         stream->seek_to(metadata.eof);
@@ -806,45 +823,45 @@ void HZ_Archive::load() {
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
     hz_validate_path(file_path);
 
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     hza_create_metadata_file_entry(file_path, file);
 }
 
 uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     uint64_t id = hza_write_blob(*blob);
 
     return id;
 }
 
 void HZ_Archive::remove_blob(uint64_t id) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     hza_rm_blob(id);
 }
 
 bool HZ_Archive::check_file_exists(const std::string &file_path) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     bool v = metadata.file_map.contains(file_path);
 
     return v;
 }
 
 HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     HZ_ArchiveFile file = hza_read_metadata_file_entry(file_path);
 
     return file;
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     auto blob = hza_read_blob(id);
 
     return blob;
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     if (!metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::InvalidOperationException("Mstate not found");
     }
@@ -856,7 +873,7 @@ rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
 }
 
 bool HZ_Archive::check_mstate_exists(const std::string &_path) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     bool exists = metadata.mstate_aux_map.contains(_path);
 
     return exists;
@@ -870,14 +887,14 @@ void HZ_Archive::hza_metadata_erase_file(const std::string &_file_path) {
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::string &prefix) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     auto list = metadata.file_map.children(prefix);
 
     return list;
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_mstate_system(const std::string &prefix) {
-    std::lock_guard<std::mutex> lock(mutex);
+    auto lock = hza_lock();
     auto list = metadata.mstate_aux_map.children(prefix);
 
     return list;
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index 5193426..d52a157 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -79,10 +79,13 @@ private:
     std::string path;
     HZ_ArchiveMetadata metadata;
     bool loaded{};
+    bool closed{};
     rainman::ptr<bitio::stream> stream;
     rainman::ptr<sem_t> archive_mutex{};
     std::mutex mutex{};
 
+    std::unique_lock<std::mutex> hza_lock();
+
     void hza_scan();
 
     void hza_scan_metadata_segment(const std::function<uint64_t(uint64_t)> &read,
-- 
2.43.0


From 63977ce61e24b79765940b0c35f3dc76cfd1be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:49 +0000
Subject: [PATCH 47/50] fix: archives opened during the shutdown were never
 closed

---
 src/hzip_network/api/providers/archive_provider.cpp | 8 ++++++++
 src/hzip_network/api/providers/archive_provider.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 5c43587..b287aa1 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,9 +1,15 @@
 #include "archive_provider.h"
 #include <filesystem>
+#include <hzip_network/errors/api.h>
 
 rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
     std::lock_guard<std::mutex> lock(mutex);
 
+    // Nobody would close an archive that is opened now.
+    if (closed) {
+        throw ApiErrors::InvalidOperationError("Archives are closed");
+    }
+
     // An archive can be opened only once, so all names of a file must lead to the same entry.
     std::string key = std::filesystem::weakly_canonical(std::filesystem::absolute(path));
 
@@ -28,6 +34,8 @@ rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path
 void hzapi::ArchiveProvider::close() {
     std::lock_guard<std::mutex> lock(mutex);
 
+    closed = true;
+
     for (auto &entry : arch_map) {
         entry.second->close();
     }
diff --git a/src/hzip_network/api/providers/archive_provider.h b/src/hzip_network/api/providers/archive_provider.h
index c625797..ecb4c49 100644
--- a/src/hzip_network/api/providers/archive_provider.h
+++ b/src/hzip_network/api/providers/archive_provider.h
@@ -10,6 +10,7 @@ namespace hzapi {
     private:
         std::unordered_map<std::string, rainman::ptr<HZ_Archive>> arch_map;
         std::mutex mutex;
+        bool closed{};
     public:
         rainman::ptr<HZ_Archive> provide(const std::string &path);
 
-- 
2.43.0


From e8d3a432cda565d2d20dacf2015588fbd9e8e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:49 +0000
Subject: [PATCH 48/50] fix: a second signal during the shutdown deadlocked the
 server

---
 src/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index d34df13..548fd8c 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -1,3 +1,4 @@
+#include <atomic>
 #include <csignal>
 #include <loguru/loguru.hpp>
 #include <rainman/rainman.h>
@@ -21,6 +22,13 @@ void set_unhandled_exception_handler() {
 
 void set_signal_handlers() {
     auto signal_handler = [](int signum) {
+        // Further signals must not disturb the shutdown.
+        static std::atomic_flag shutting_down;
+
+        if (shutting_down.test_and_set()) {
+            return;
+        }
+
         LOG_F(ERROR, "hybridzip: Signal captured: %s", strsignal(signum));
         _hzapi_graceful_shutdown();
         exit(signum);
-- 
2.43.0


From e9b5202827cff771a6aba048530203d04c9a4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:15 +0000
Subject: [PATCH 49/50] fix: remember the number of instances, the listen
 backlog was always 1

The constructor parameter hid the member, so that clients that connected at the
same time, within the number of instances, could be left without an answer.
---
 src/hzip_network/api/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index f843087..7c20ce1 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -189,4 +189,4 @@ void Api::shutdown() {
     close(server_sock);
 }
 
-Api::Api(uint64_t max_instances) : _semaphore(1, max_instances) {}
+Api::Api(uint64_t max_instances) : max_instances(max_instances), _semaphore(1, max_instances) {}
-- 
2.43.0


From 4f8bb65fb26989203c697534b71f816cb2f7a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 50/50] fix: algorithm numbers were cut to 32 bits, unknown
 ones could pass as known

---
 src/hzip_codec/compressor_enums.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hzip_codec/compressor_enums.h b/src/hzip_codec/compressor_enums.h
index 3353951..b8bade2 100644
--- a/src/hzip_codec/compressor_enums.h
+++ b/src/hzip_codec/compressor_enums.h
@@ -1,8 +1,10 @@
 #ifndef HYBRIDZIP_COMPRESSOR_ENUMS_H
 #define HYBRIDZIP_COMPRESSOR_ENUMS_H
 
+#include <cstdint>
+
 namespace hzcodec::algorithms {
-    enum ALGORITHM {
+    enum ALGORITHM : uint64_t {
         UNCOMPRESSED = 0x0,
         VICTINI = 0x1,
         SHARINGAN = 0x2
-- 
2.43.0

