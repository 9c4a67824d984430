// Stand-in for the missing "bitio" submodule: a bit-addressed stream over a byte buffer or a file.
// Bits are MSB first. File streams read the file lazily (at first use) and write it back on flush().
// Reading past the end throws; writing past the end of a file stream extends it with zero bits.
// Two threads inside one stream at the same time is reported as a fatal error.
#ifndef STANDIN_BITIO_H
#define STANDIN_BITIO_H

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
#include <unistd.h>

// Optional hook, called inside every stream operation (used as a preemption point by the scheduler).
extern "C" __attribute__((weak)) void standin_stream_hook(int op);

namespace bitio {
    class bitio_exception : public std::runtime_error {
    public:
        explicit bitio_exception(const std::string &m) : std::runtime_error("bitio: " + m) {}
    };

    [[noreturn]] __attribute__((noinline)) inline void bad(const char *m) { throw bitio_exception(m); }

    class stream {
    private:
        FILE *_fp = nullptr;
        bool _loaded = false;
        uint8_t *_ext = nullptr;
        uint64_t _ext_size = 0;
        std::vector<uint8_t> _buf;
        uint64_t _pos = 0;
        std::shared_ptr<std::atomic<int>> _busy = std::make_shared<std::atomic<int>>(0);

        struct Guard {
            std::atomic<int> &b;

            Guard(std::atomic<int> &b, int op) : b(b) {
                if (b.fetch_add(1) != 0) {
                    fprintf(stderr, "STANDIN-FATAL: two threads use one bit stream at the same time\n");
                    fflush(stderr);
                    abort();
                }
                if (standin_stream_hook != nullptr) standin_stream_hook(op);
            }

            ~Guard() { b.fetch_sub(1); }
        };

        void load() {
            if (_fp != nullptr && !_loaded) load_file();
        }

        __attribute__((noinline)) void load_file() {
            _loaded = true;
            fflush(_fp);
            fseek(_fp, 0, SEEK_SET);
            uint8_t tmp[65536];
            size_t k;
            while ((k = fread(tmp, 1, sizeof(tmp), _fp)) > 0) _buf.insert(_buf.end(), tmp, tmp + k);
        }

        uint64_t limit() const { return (_fp != nullptr ? _buf.size() : _ext_size) * 8ull; }

        uint8_t *data() { return _fp != nullptr ? _buf.data() : _ext; }

    public:
        stream() = default;

        stream(FILE *fp) : _fp(fp) {
            if (fp == nullptr) throw bitio_exception("null file");
        }

        stream(uint8_t *p, uint64_t n) : _ext(p), _ext_size(n) {}

        stream(const stream &) = delete;

        stream &operator=(const stream &) = delete;

        ~stream() { if (_fp != nullptr) fclose(_fp); }

        uint64_t read(uint64_t n) {
            Guard g(*_busy, 0);
            load();
            if (n > 64) bad("read of more than 64 bits");
            if (n == 0) return 0;
            if (_pos > limit() || limit() - _pos < n) bad("read past end");
            uint64_t v = 0;
            uint8_t *d = data();
            if (n == 8 && (_pos & 7) == 0) {
                v = d[_pos >> 3];
                _pos += 8;
                return v;
            }
            uint64_t left = n;
            while (left > 0) {
                uint64_t off = _pos & 7, take = 8 - off < left ? 8 - off : left;
                uint64_t bits = (d[_pos >> 3] >> (8 - off - take)) & ((1u << take) - 1);
                v = (take == 64 ? 0 : v << take) | bits;
                _pos += take;
                left -= take;
            }
            return v;
        }

        void write(uint64_t obj, uint64_t n) {
            Guard g(*_busy, 1);
            load();
            if (n > 64) bad("write of more than 64 bits");
            if (n == 0) return;
            if (_fp != nullptr) {
                uint64_t need = (_pos + n + 7) >> 3;
                if (need > (1ull << 32)) bad("file too large");
                if (need > _buf.size()) _buf.resize(need, 0);
            } else if (_pos > limit() || limit() - _pos < n) {
                bad("write past end of buffer");
            }
            uint8_t *d = data();
            if (n == 8 && (_pos & 7) == 0) {
                d[_pos >> 3] = (uint8_t) obj;
                _pos += 8;
                return;
            }
            uint64_t left = n;
            while (left > 0) {
                uint64_t off = _pos & 7, take = 8 - off < left ? 8 - off : left;
                uint8_t bits = (obj >> (left - take)) & ((1u << take) - 1);
                uint8_t mask = ((1u << take) - 1) << (8 - off - take);
                d[_pos >> 3] = (d[_pos >> 3] & ~mask) | (bits << (8 - off - take));
                _pos += take;
                left -= take;
            }
        }

        void seek(int64_t n) {
            Guard g(*_busy, 2);
            _pos += (uint64_t) n;
        }

        void seek_to(uint64_t n) {
            Guard g(*_busy, 3);
            _pos = n;
        }

        uint64_t tell() const { return _pos; }

        uint64_t size() const { return _fp != nullptr ? _buf.size() : _ext_size; }

        void flush() {
            Guard g(*_busy, 4);
            if (_fp == nullptr) return;
            load();
            fseek(_fp, 0, SEEK_SET);
            fwrite(_buf.data(), 1, _buf.size(), _fp);
            fflush(_fp);
        }

        void close() { flush(); }
    };
}
#endif
