// Stand-in for the missing "rainman" submodule: reference-counted arrays, a tracking allocator,
// an option type and a cache-backed array. Semantics follow what /repo's sources and tests use.
// Every access through a smart pointer is bounds-checked: an out-of-range index aborts the process,
// which the property engine reports as a memory-safety violation.
#ifndef STANDIN_RAINMAN_H
#define STANDIN_RAINMAN_H

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define STANDIN_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define STANDIN_ASAN 1
#endif
#endif
#ifdef STANDIN_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void) (a), (void) (n))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void) (a), (void) (n))
#endif

namespace rainman {
    namespace standin {
        [[noreturn]] inline void die(const char *what, uint64_t index, uint64_t size) {
            fprintf(stderr, "STANDIN-FATAL: %s (index %llu, size %llu)\n", what, (unsigned long long) index,
                    (unsigned long long) size);
            fflush(stderr);
            abort();
        }

        inline std::atomic<uint64_t> &live_bytes() {
            static std::atomic<uint64_t> v{0};
            return v;
        }

        inline std::atomic<uint64_t> &peak_limit() {
            static std::atomic<uint64_t> v{0xffffffffffffffffull};
            return v;
        }

        // A request this large is a length that was computed or read wrongly; the real allocator would refuse it too.
        constexpr uint64_t huge = 1ull << 32;

        // Checks may set a smaller limit.
        inline std::atomic<uint64_t> &largest() {
            static std::atomic<uint64_t> v{huge};
            return v;
        }

        inline void account(uint64_t n) {
            if (n >= largest()) throw std::bad_alloc();
            live_bytes() += n;
        }

        inline void unaccount(uint64_t n) { live_bytes() -= n; }

        struct Header {
            uint64_t bytes;
            uint64_t n;
            void (*destroy)(void *, uint64_t);
            uint64_t magic;
        };
        static_assert(sizeof(Header) == 32);
        constexpr uint64_t magic_live = 0x5241494e4d414e31ull, magic_dead = 0xdeaddeaddeaddeadull;

        inline void *raw_alloc(uint64_t n, uint64_t elem, void (*destroy)(void *, uint64_t)) {
            if (elem != 0 && n > huge / elem) throw std::bad_alloc();
            uint64_t bytes = n * elem;
            account(bytes);
            auto *p = (uint8_t *) malloc(bytes + sizeof(Header));
            if (p == nullptr) throw std::bad_alloc();
            auto *h = (Header *) p;
            h->bytes = bytes;
            h->n = n;
            h->destroy = destroy;
            h->magic = magic_live;
            ASAN_POISON_MEMORY_REGION(p + 16, 16);
            return p + sizeof(Header);
        }

        inline void raw_free(void *ptr) {
            if (ptr == nullptr) return;
            auto *p = (uint8_t *) ptr - sizeof(Header);
            ASAN_UNPOISON_MEMORY_REGION(p, sizeof(Header));
            auto *h = (Header *) p;
            if (h->magic != magic_live) die("rfree of a block that is not live", 0, 0);
            if (h->destroy != nullptr) h->destroy(ptr, h->n);
            h->magic = magic_dead;
            unaccount(h->bytes);
            free(p);
        }

        template<typename T>
        void destroy_n(void *p, uint64_t n) {
            auto *t = (T *) p;
            for (uint64_t i = n; i > 0; i--) t[i - 1].~T();
        }
    }

    class memmgr {
    public:
        memmgr() = default;

        void print_mem_trace() {}

        void set_peak(uint64_t) {}

        void peak_size(uint64_t) {}

        void wipe() {}
    };

    class Allocator {
    public:
        Allocator() = default;

        explicit Allocator(memmgr *) {}

        template<typename T>
        T *rmalloc(uint64_t n) const {
            auto *p = (T *) standin::raw_alloc(n, sizeof(T), nullptr);
            if (n * sizeof(T) <= (1u << 22)) memset((void *) p, 0xA5, n * sizeof(T));
            return p;
        }

        template<typename T, typename... Args>
        T *rnew(uint64_t n, Args &&... args) const {
            auto *p = (T *) standin::raw_alloc(n, sizeof(T), &standin::destroy_n<T>);
            memset((void *) p, 0xA5, n * sizeof(T));
            for (uint64_t i = 0; i < n; i++) new(p + i) T(args...);
            return p;
        }

        template<typename T>
        void rfree(T *p) const { standin::raw_free((void *) p); }

        template<typename T>
        void r_free(T *p) const { standin::raw_free((void *) p); }

        uint64_t alloc_size() const { return standin::live_bytes(); }

        uint64_t peak_size() const { return standin::peak_limit(); }

        void peak_size(uint64_t n) const { standin::peak_limit() = n; }
    };

    template<typename T>
    class ptr {
    private:
        std::shared_ptr<void> _own;
        T *_p = nullptr;
        uint64_t _n = 0;

        template<typename... Args>
        void alloc(uint64_t n, Args &&... args) {
            auto *p = (T *) standin::raw_alloc(n, sizeof(T), &standin::destroy_n<T>);
            if constexpr (sizeof...(Args) == 0) {
                for (uint64_t i = 0; i < n; i++) new(p + i) T();
            } else {
                for (uint64_t i = 0; i < n; i++) new(p + i) T(args...);
            }
            _own = std::shared_ptr<void>(p, [](void *q) { standin::raw_free(q); });
            _p = p;
            _n = n;
        }

    public:
        using value_type = T;

        ptr() { alloc(1); }

        template<typename I, typename = std::enable_if_t<std::is_integral_v<I>>>
        explicit ptr(I n) { alloc((uint64_t) n); }

        template<typename I, typename A0, typename... Args, typename = std::enable_if_t<std::is_integral_v<I>>>
        ptr(I n, A0 &&a0, Args &&... args) { alloc((uint64_t) n, std::forward<A0>(a0), std::forward<Args>(args)...); }

        // Adopt storage owned by somebody else (never freed here).
        ptr(T *p, uint64_t n) : _p(p), _n(n) {}

        explicit ptr(T *p) : _p(p), _n(1) {}

        // View into shared storage (rows of ptr2d/ptr3d).
        ptr(std::shared_ptr<void> own, T *p, uint64_t n) : _own(std::move(own)), _p(p), _n(n) {}

        ptr(const ptr &) = default;

        ptr(ptr &&o) noexcept: _own(o._own), _p(o._p), _n(o._n) {}

        ptr &operator=(const ptr &) = default;

        ptr &operator=(ptr &&o) noexcept {
            _own = o._own;
            _p = o._p;
            _n = o._n;
            return *this;
        }

        T &operator[](uint64_t i) const {
            if (__builtin_expect(i >= _n, 0)) standin::die("smart pointer index out of range", i, _n);
            return _p[i];
        }

        T &operator*() const {
            if (_n == 0 || _p == nullptr) standin::die("dereference of an empty smart pointer", 0, _n);
            return *_p;
        }

        T *operator->() const {
            if (_p == nullptr) standin::die("dereference of a null smart pointer", 0, _n);
            return _p;
        }

        T *pointer() const { return _p; }

        const std::shared_ptr<void> &standin_owner() const { return _own; }

        T *get() const { return _p; }

        T *begin() const { return _p; }

        T *end() const { return _p + _n; }

        uint64_t size() const { return _n; }

        bool empty() const { return _n == 0; }

        uint64_t use_count() const { return _own.use_count(); }

        uint64_t refcount() const { return _own.use_count(); }

        void fill(const T &v) const { for (uint64_t i = 0; i < _n; i++) _p[i] = v; }

        ptr clone() const {
            ptr c(_n);
            for (uint64_t i = 0; i < _n; i++) c[i] = _p[i];
            return c;
        }

        bool operator==(const ptr &o) const { return _p == o._p && _n == o._n; }

        bool operator!=(const ptr &o) const { return !(*this == o); }
    };

    template<typename T>
    class ptr2d {
    private:
        ptr<T> _d;
        uint64_t _r = 0, _c = 0;
    public:
        ptr2d() : _d((uint64_t) 0) {}

        ptr2d(uint64_t r, uint64_t c) : _d(r * c), _r(r), _c(c) {}

        ptr2d(const ptr<T> &d, uint64_t r, uint64_t c) : _d(d), _r(r), _c(c) {}

        ptr<T> operator[](uint64_t i) const {
            if (i >= _r) standin::die("2d smart pointer row out of range", i, _r);
            return ptr<T>(_d.standin_owner(), _d.pointer() + i * _c, _c);
        }

        T &at(uint64_t i, uint64_t j) const {
            if (i >= _r || j >= _c) standin::die("2d smart pointer index out of range", i, _r);
            return _d[i * _c + j];
        }

        uint64_t size() const { return _r; }

        uint64_t rows() const { return _r; }

        uint64_t cols() const { return _c; }

        ptr<T> data() const { return _d; }
    };

    template<typename T>
    class ptr3d {
    private:
        ptr<T> _d;
        uint64_t _a = 0, _r = 0, _c = 0;
    public:
        ptr3d() : _d((uint64_t) 0) {}

        ptr3d(uint64_t a, uint64_t r, uint64_t c) : _d(a * r * c), _a(a), _r(r), _c(c) {}

        ptr2d<T> operator[](uint64_t i) const {
            if (i >= _a) standin::die("3d smart pointer plane out of range", i, _a);
            return ptr2d<T>(ptr<T>(_d.standin_owner(), _d.pointer() + i * _r * _c, _r * _c), _r, _c);
        }

        uint64_t size() const { return _a; }
    };

    template<typename T>
    ptr2d<T> make_ptr2d(uint64_t r, uint64_t c) { return ptr2d<T>(r, c); }

    template<typename T>
    ptr3d<T> make_ptr3d(uint64_t a, uint64_t r, uint64_t c) { return ptr3d<T>(a, r, c); }

    template<typename T>
    class option {
    private:
        bool _some = false;
        std::shared_ptr<T> _v;
    public:
        option() = default;

        option(const T &v) : _some(true), _v(std::make_shared<T>(v)) {}

        option(const option &o) : _some(o._some), _v(o._some ? std::make_shared<T>(*o._v) : nullptr) {}

        option &operator=(const option &o) {
            if (this != &o) {
                _some = o._some;
                _v = o._some ? std::make_shared<T>(*o._v) : nullptr;
            }
            return *this;
        }

        option &operator=(const T &v) {
            _some = true;
            _v = std::make_shared<T>(v);
            return *this;
        }

        [[nodiscard]] bool is_some() const { return _some; }

        [[nodiscard]] bool is_none() const { return !_some; }

        T &inner() const {
            if (!_some) standin::die("inner() of an empty option", 0, 0);
            return *_v;
        }

        T &unwrap() const { return inner(); }

        T inner_or(const T &d) const { return _some ? *_v : d; }
    };

    class cache {
    public:
        std::string standin_filename;
        uint64_t standin_page_size = 0;

        cache() = default;

        cache(const std::string &filename, uint64_t page_size) : standin_filename(filename),
                                                                 standin_page_size(page_size) {}

        explicit cache(const std::string &filename) : standin_filename(filename), standin_page_size(4096) {}

        void clear() {}

        void close() {}
    };

    template<typename T>
    class virtual_array {
    private:
        std::shared_ptr<std::vector<T>> _v;
    public:
        virtual_array() : _v(std::make_shared<std::vector<T>>()) {}

        virtual_array(const cache &, uint64_t n) {
            if (n > standin::huge / sizeof(T)) throw std::bad_alloc();
            _v = std::make_shared<std::vector<T>>(n);
        }

        T &operator[](uint64_t i) const {
            if (i >= _v->size()) standin::die("virtual array index out of range", i, _v->size());
            return (*_v)[i];
        }

        T get(uint64_t i) const { return (*this)[i]; }

        void set(const T &x, uint64_t i) const { (*this)[i] = x; }

        uint64_t size() const { return _v->size(); }
    };
}
#endif
