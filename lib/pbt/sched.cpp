#include "sched.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

using pbt::current_kind;

namespace {
    long raw_futex(void *addr, int op, uint32_t val) {
        long ret;
        register long r10 __asm__("r10") = 0;
        register long r8 __asm__("r8") = 0;
        register long r9 __asm__("r9") = 0;
        __asm__ volatile("syscall" : "=a"(ret)
                : "a"((long) SYS_futex), "D"(addr), "S"((long) op), "d"((long) val), "r"(r10), "r"(r8), "r"(r9)
                : "rcx", "r11", "memory");
        return ret;
    }

    enum State { RUNNABLE, BLOCKED, TIMED, PRED, ENDED };

    struct Thread {
        int id = 0;
        State st = RUNNABLE;
        const void *on = nullptr; // address waited for
        const char *what = "";
        bool is_cond = false;
        bool timed_out = false, spurious = false;
        std::function<bool()> *pred = nullptr;
        std::atomic<uint32_t> go{0};
        pthread_t real{};
        bool detached = false, joined = false;
        void *(*fn)(void *) = nullptr;
        void *arg = nullptr, *ret = nullptr;
    };

    std::vector<Thread *> *threads = nullptr;
    std::atomic<bool> active{false};
    __thread Thread *me = nullptr;
    __thread bool in_sched = false;
    pbt::G *gen = nullptr;
    sched::Options opt;
    uint64_t n_steps, n_switch, n_preempt;
    unsigned stay_pct;
    uint64_t gap; // memory accesses until the next preemption, 0 = none
    unsigned gap_style, gap_left;
    uint64_t idle_edges;

    template<typename F>
    F real(const char *name, F) {
        void *p = dlsym(RTLD_NEXT, name);
        if (p == nullptr) {
            fprintf(stderr, "no %s\n", name);
            abort();
        }
        return (F) p;
    }

#define REAL(f) ([]() { static auto p = real(#f, &f); return p; }())

    struct InSched {
        bool old;

        InSched() : old(in_sched) { in_sched = true; }

        ~InSched() { in_sched = old; }
    };

    bool managed() { return active.load(std::memory_order_relaxed) && me != nullptr && !in_sched; }

    void baton_wait(Thread *t) {
        while (t->go.load() == 0) raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
        t->go.store(0);
    }

    void baton_give(Thread *t) {
        t->go.store(1);
        raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
    }

    std::string describe() {
        std::string s;
        for (auto *t: *threads) {
            if (t->st == ENDED) continue;
            char b[160];
            snprintf(b, sizeof b, " thread %d %s%s;", t->id, t->st == RUNNABLE ? "runnable" : "blocked in ", t->st == RUNNABLE ? "" : t->what);
            s += b;
        }
        return s;
    }

    uint64_t draw_gap() {
        if (gap_style == 0 || gap_left == 0) return 0;
        gap_left--;
        static const uint64_t scale[] = {0, 6, 40, 300, 2500, 20000};
        uint64_t s = scale[gap_style];
        return gen->draw_with(1u << 20, [s](pbt::Rng &r) {
            uint64_t v = 1 + r.below(2 * s);
            return v;
        });
    }

    // Pick the next thread and hand over. The caller has already set its own state.
    void schedule() {
        InSched is;
        auto *self = me;
        n_steps++;
        idle_edges = 0;
        if (n_steps > opt.max_steps) pbt::fail_now("no progress after %llu scheduling steps:%s", (unsigned long long) n_steps, describe().c_str());
        for (auto *t: *threads) {
            if (t->st == PRED && (*t->pred)()) t->st = RUNNABLE;
        }
        // A small chance of a spurious wake-up.
        if (opt.spurious) {
            unsigned waiting = 0;
            for (auto *t: *threads) waiting += (t->st == BLOCKED || t->st == TIMED) && t->is_cond;
            if (waiting) {
                auto k = gen->draw_with(waiting, [waiting](pbt::Rng &r) { return r.below(40) == 0 ? 1 + r.below(waiting) : 0; });
                for (auto *t: *threads) {
                    if ((t->st == BLOCKED || t->st == TIMED) && t->is_cond && k > 0 && --k == 0) {
                        t->st = RUNNABLE;
                        t->spurious = true;
                    }
                }
            }
        }
        std::vector<Thread *> c, timed;
        if (self->st == RUNNABLE) c.push_back(self);
        for (auto *t: *threads) {
            if (t != self && t->st == RUNNABLE) c.push_back(t);
            if (t->st == TIMED) timed.push_back(t);
        }
        Thread *next = nullptr;
        if (!timed.empty()) {
            bool must = c.empty();
            size_t n = timed.size();
            auto k = must ? 1 + gen->draw(n - 1) : gen->draw_with(n, [n](pbt::Rng &r) { return r.below(8) == 0 ? 1 + r.below(n) : 0; });
            if (k > 0) {
                next = timed[k - 1];
                next->timed_out = true;
                next->st = RUNNABLE;
            }
        }
        if (next == nullptr) {
            if (c.empty()) pbt::fail_now("deadlock: no thread can run:%s", describe().c_str());
            size_t k = 0, n = c.size();
            if (n > 1) {
                bool cur = c[0] == self;
                k = gen->draw_with(n - 1, [n, cur](pbt::Rng &r) -> uint64_t {
                    if (!cur) return r.below(n);
                    if (r.below(100) < stay_pct) return 0;
                    return 1 + r.below(n - 1);
                });
            }
            next = c[k];
        }
        if (next == self) return;
        n_switch++;
        if (self->st == RUNNABLE) n_preempt++;
        baton_give(next);
        if (self->st != ENDED) baton_wait(self);
    }

    void sched_point() {
        if (managed()) schedule();
    }

    void block_on(const void *a, const char *what, bool cond = false, bool timed = false) {
        me->on = a;
        me->what = what;
        me->is_cond = cond;
        me->timed_out = me->spurious = false;
        me->st = timed ? TIMED : BLOCKED;
        schedule();
        me->on = nullptr;
        me->is_cond = false;
    }

    void wake_all(const void *a) {
        for (auto *t: *threads) if ((t->st == BLOCKED || t->st == TIMED) && t->on == a && !t->is_cond) t->st = RUNNABLE;
    }

    // Wake one generated waiter (or all).
    int wake_cond(const void *a, bool all, int n = 1) {
        int woken = 0;
        while (true) {
            std::vector<Thread *> w;
            for (auto *t: *threads) if ((t->st == BLOCKED || t->st == TIMED) && t->on == a && t->is_cond) w.push_back(t);
            if (w.empty()) return woken;
            size_t k;
            {
                InSched is;
                k = all ? 0 : gen->draw(w.size() - 1);
            }
            w[k]->st = RUNNABLE;
            woken++;
            if (!all && woken >= n) return woken;
        }
    }

    // Runnable, or merely yielding or sleeping.
    bool can_go(Thread *t) { return t->st == RUNNABLE || (t->st == TIMED && t->on == &opt) || (t->st == PRED && t->id != 0 && (*t->pred)()); }

    void *trampoline(void *p) {
        auto *t = (Thread *) p;
        me = t;
        baton_wait(t);
        t->ret = t->fn(t->arg);
        {
            t->st = ENDED;
            wake_all(t);
            schedule();
        }
        return t->ret;
    }

    Thread *find(pthread_t p) {
        if (threads == nullptr) return nullptr;
        for (auto it = threads->rbegin(); it != threads->rend(); ++it) if ((*it)->id != 0 && !(*it)->joined && pthread_equal((*it)->real, p)) return *it;
        return nullptr;
    }
}

namespace sched {
    void begin(pbt::G &g, const Options &o) {
        gen = &g;
        opt = o;
        n_steps = n_switch = n_preempt = 0;
        threads = new std::vector<Thread *>();
        auto *t = new Thread();
        me = t;
        t->real = pthread_self();
        threads->push_back(t);
        static const unsigned pct[] = {70, 30, 85, 95, 50};
        stay_pct = pct[g.below(5)];
        gap_style = o.memory ? g.below(6) : 0;
        gap_left = 40;
        gap = draw_gap();
        idle_edges = 0;
        active = true;
    }

    void drain() {
        if (!active || me == nullptr || me->id != 0) return;
        while (true) {
            bool any = false;
            for (auto *t: *threads) any |= t != me && t->st != ENDED;
            if (!any) return;
            std::function<bool()> pred = [] {
                for (auto *t: *threads) if (t != threads->front() && t->st != ENDED) return false;
                return true;
            };
            me->pred = &pred;
            me->what = "the end of all threads";
            me->st = PRED;
            schedule();
            me->pred = nullptr;
        }
    }

    void end() {
        if (!active) return;
        drain();
        active = false;
        for (auto *t: *threads) {
            if (t->id != 0) {
                if (!t->detached && !t->joined) REAL(pthread_join)(t->real, nullptr);
                // A detached thread may still be between handing over and exiting; its record is leaked.
                if (t->detached) continue;
            }
            delete t;
        }
        delete threads;
        threads = nullptr;
        me = nullptr;
    }

    void point() { sched_point(); }

    void wait_until(const std::function<bool()> &pred, const char *what) {
        if (!managed() || pred()) return;
        std::function<bool()> p = pred;
        me->pred = &p;
        me->what = what;
        me->st = PRED;
        schedule();
        me->pred = nullptr;
    }

    void settle() {
        auto quiet = [] {
            for (auto *t: *threads) if (t->id != 0 && can_go(t)) return false;
            return true;
        };
        while (!quiet()) wait_until(quiet, "quiescence"); // (a spurious wake-up may come in between)
    }

    int blocked() {
        int n = 0;
        for (auto *t: *threads) n += t->id != 0 && !can_go(t) && t->st != ENDED;
        return n;
    }

    int self() { return me ? me->id : -1; }

    int live() {
        int n = 0;
        for (auto *t: *threads) n += t->st != ENDED;
        return n;
    }

    uint64_t switches() { return n_switch; }

    uint64_t preemptions() { return n_preempt; }
}

// Memory accesses and edges of instrumented code.
static inline void event() {
    if (!active.load(std::memory_order_relaxed) || me == nullptr || in_sched) return;
    if (gap > 0 && --gap == 0) {
        {
            InSched is;
            gap = draw_gap();
        }
        schedule();
    }
    if (++idle_edges > 3000000) { // a spinning thread lets others run
        idle_edges = 0;
        schedule();
    }
}

extern "C" {
void standin_stream_hook(int) { event(); }

void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *) { event(); }
void __sanitizer_cov_load1(uint8_t *) { event(); }
void __sanitizer_cov_load2(uint16_t *) { event(); }
void __sanitizer_cov_load4(uint32_t *) { event(); }
void __sanitizer_cov_load8(uint64_t *) { event(); }
void __sanitizer_cov_load16(__int128 *) { event(); }
void __sanitizer_cov_store1(uint8_t *) { event(); }
void __sanitizer_cov_store2(uint16_t *) { event(); }
void __sanitizer_cov_store4(uint32_t *) { event(); }
void __sanitizer_cov_store8(uint64_t *) { event(); }
void __sanitizer_cov_store16(__int128 *) { event(); }

#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
int __interceptor_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __interceptor_pthread_join(pthread_t, void **);
#define real_create __interceptor_pthread_create
#else
#define real_create REAL(pthread_create)
#endif

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!managed()) {
        if (current_kind == pbt::SINGLE && active) {}
        return real_create(out, attr, fn, arg);
    }
    auto *t = new Thread();
    t->id = (int) threads->size();
    t->fn = fn;
    t->arg = arg;
    int d = PTHREAD_CREATE_JOINABLE;
    if (attr != nullptr) pthread_attr_getdetachstate(attr, &d);
    t->detached = d == PTHREAD_CREATE_DETACHED;
    pthread_t real_id;
    int rc;
    {
        InSched is;
        rc = real_create(&real_id, attr, trampoline, t);
    }
    if (rc != 0) {
        delete t;
        return rc;
    }
    t->real = real_id;
    *out = real_id;
    threads->push_back(t);
    schedule();
    return 0;
}

int pthread_join(pthread_t p, void **ret) {
    if (managed()) {
        Thread *t = find(p);
        if (t != nullptr) {
            schedule();
            while (t->st != ENDED) block_on(t, "pthread_join");
            t->joined = true;
            InSched is;
            return REAL(pthread_join)(p, ret);
        }
    }
    return REAL(pthread_join)(p, ret);
}

int pthread_detach(pthread_t p) {
    if (managed()) {
        Thread *t = find(p);
        if (t != nullptr) t->detached = true;
    }
    return REAL(pthread_detach)(p);
}

// ---- mutexes -------------------------------------------------------------------------------------
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (managed()) {
        schedule();
        int rc;
        while ((rc = REAL(pthread_mutex_trylock)(m)) == EBUSY) block_on(m, "mutex lock");
        return rc;
    }
    if (current_kind == pbt::SINGLE && !in_sched) {
        int rc = REAL(pthread_mutex_trylock)(m);
        if (rc != EBUSY) return rc;
        // Another thread of a pass-through library could hold it for a moment; a real deadlock persists.
        for (int i = 0; i < 200; i++) {
            struct timespec ts{0, 1000000};
            REAL(nanosleep)(&ts, nullptr);
            if ((rc = REAL(pthread_mutex_trylock)(m)) != EBUSY) return rc;
        }
        pbt::fail_now("deadlock: a mutex that is never released is locked again");
    }
    return REAL(pthread_mutex_lock)(m);
}

int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (managed()) schedule();
    return REAL(pthread_mutex_trylock)(m);
}

int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!managed()) return REAL(pthread_mutex_unlock)(m);
    int rc = REAL(pthread_mutex_unlock)(m);
    wake_all(m);
    schedule();
    return rc;
}

int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    if (!managed()) return REAL(pthread_mutex_timedlock)(m, ts);
    schedule();
    int rc;
    while ((rc = REAL(pthread_mutex_trylock)(m)) == EBUSY) {
        block_on(m, "timed mutex lock", false, true);
        if (me->timed_out) return ETIMEDOUT;
    }
    return rc;
}

int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
    if (!managed()) return REAL(pthread_mutex_clocklock)(m, c, ts);
    return pthread_mutex_timedlock(m, ts);
}

// ---- condition variables ---------------------------------------------------------------------------
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    REAL(pthread_mutex_unlock)(m);
    wake_all(m);
    block_on(c, "condition variable wait", true, timed);
    bool to = me->timed_out;
    int rc;
    while ((rc = REAL(pthread_mutex_trylock)(m)) == EBUSY) block_on(m, "mutex lock after wait");
    return rc ? rc : (to ? ETIMEDOUT : 0);
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (managed()) return cond_wait(c, m, false);
    if (current_kind == pbt::SINGLE) pbt::fail_now("deadlock: waiting for a condition with no other thread");
    return REAL(pthread_cond_wait)(c, m);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (managed()) return cond_wait(c, m, true);
    return REAL(pthread_cond_timedwait)(c, m, ts);
}

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts) {
    if (managed()) return cond_wait(c, m, true);
    return REAL(pthread_cond_clockwait)(c, m, clk, ts);
}

int pthread_cond_signal(pthread_cond_t *c) {
    if (!managed()) return REAL(pthread_cond_signal)(c);
    schedule();
    wake_cond(c, false);
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!managed()) return REAL(pthread_cond_broadcast)(c);
    schedule();
    wake_cond(c, true);
    return 0;
}

int pthread_cond_destroy(pthread_cond_t *c) {
    if (managed()) {
        for (auto *t: *threads) if ((t->st == BLOCKED || t->st == TIMED) && t->on == c) pbt::fail_now("condition variable destroyed while a thread waits on it");
        return 0;
    }
    return REAL(pthread_cond_destroy)(c);
}

// ---- read-write locks --------------------------------------------------------------------------------
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!managed()) return REAL(pthread_rwlock_rdlock)(m);
    schedule();
    int rc;
    while ((rc = REAL(pthread_rwlock_tryrdlock)(m)) == EBUSY) block_on(m, "read lock");
    return rc;
}

int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!managed()) return REAL(pthread_rwlock_wrlock)(m);
    schedule();
    int rc;
    while ((rc = REAL(pthread_rwlock_trywrlock)(m)) == EBUSY) block_on(m, "write lock");
    return rc;
}

int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!managed()) return REAL(pthread_rwlock_unlock)(m);
    int rc = REAL(pthread_rwlock_unlock)(m);
    wake_all(m);
    schedule();
    return rc;
}

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!managed()) return REAL(pthread_once)(o, fn);
    static std::set<const void *> *running = new std::set<const void *>();
    while (running->count(o)) block_on(o, "pthread_once");
    running->insert(o);
    int rc;
    try { rc = REAL(pthread_once)(o, fn); }
    catch (...) {
        running->erase(o);
        wake_all(o);
        throw;
    }
    running->erase(o);
    wake_all(o);
    return rc;
}

// ---- semaphores ------------------------------------------------------------------------------------
static std::map<std::string, sem_t *> &named() {
    static auto *m = new std::map<std::string, sem_t *>();
    return *m;
}

static pthread_mutex_t named_lock = PTHREAD_MUTEX_INITIALIZER;

// Named semaphores live inside the process: nothing outlives the case and nothing is shared with the system.
sem_t *sem_open(const char *name, int oflag, ...) {
    unsigned value = 0;
    if (oflag & O_CREAT) {
        va_list ap;
        va_start(ap, oflag);
        (void) va_arg(ap, unsigned);
        value = va_arg(ap, unsigned);
        va_end(ap);
    }
    sched_point();
    if (name == nullptr || name[0] != '/' || strchr(name + 1, '/') != nullptr || strlen(name) > 252 || strlen(name) < 2) {
        errno = name && strlen(name) > 252 ? ENAMETOOLONG : EINVAL;
        return SEM_FAILED;
    }
    REAL(pthread_mutex_lock)(&named_lock);
    sem_t *s;
    auto it = named().find(name);
    if (it != named().end()) {
        s = it->second;
        if ((oflag & O_CREAT) && (oflag & O_EXCL)) {
            errno = EEXIST;
            s = SEM_FAILED;
        }
    } else if (oflag & O_CREAT) {
        s = new sem_t;
        sem_init(s, 0, value);
        named()[name] = s;
    } else {
        errno = ENOENT;
        s = SEM_FAILED;
    }
    REAL(pthread_mutex_unlock)(&named_lock);
    return s;
}

int sem_close(sem_t *) { return 0; }

int sem_unlink(const char *name) {
    REAL(pthread_mutex_lock)(&named_lock);
    int rc = named().erase(name) ? 0 : -1;
    REAL(pthread_mutex_unlock)(&named_lock);
    if (rc) errno = ENOENT;
    return rc;
}

int sem_wait(sem_t *s) {
    if (managed()) {
        schedule();
        if (opt.eintr) {
            InSched is;
            if (gen->draw_with(1, [](pbt::Rng &r) { return r.below(16) == 0; })) {
                errno = EINTR;
                return -1;
            }
        }
        while (REAL(sem_trywait)(s) != 0) {
            if (errno != EAGAIN) return -1;
            block_on(s, "semaphore wait");
        }
        return 0;
    }
    if (current_kind == pbt::SINGLE && !in_sched) {
        if (REAL(sem_trywait)(s) == 0) return 0;
        if (errno != EAGAIN) return -1;
        pbt::fail_now("deadlock: waiting for a semaphore that nobody can release");
    }
    return REAL(sem_wait)(s);
}

int sem_timedwait(sem_t *s, const struct timespec *ts) {
    if (managed()) {
        schedule();
        while (REAL(sem_trywait)(s) != 0) {
            if (errno != EAGAIN) return -1;
            block_on(s, "timed semaphore wait", false, true);
            if (me->timed_out) {
                errno = ETIMEDOUT;
                return -1;
            }
        }
        return 0;
    }
    return REAL(sem_timedwait)(s, ts);
}

int sem_trywait(sem_t *s) {
    sched_point();
    return REAL(sem_trywait)(s);
}

int sem_post(sem_t *s) {
    if (!managed()) return REAL(sem_post)(s);
    int rc = REAL(sem_post)(s);
    wake_all(s);
    schedule();
    return rc;
}

// ---- futexes (std::atomic::wait, std::counting_semaphore, static initialisation) ---------------------
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && managed()) {
        int op = (int) b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            schedule();
            if (*(volatile int *) a != (int) c) {
                errno = EAGAIN;
                return -1;
            }
            block_on((void *) a, "futex wait", true, d != 0);
            if (me->timed_out) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = wake_cond((void *) a, (int) c == INT_MAX, (int) c);
            schedule();
            return k;
        }
    }
    return REAL(syscall)(n, a, b, c, d, e, f);
}

int sched_yield(void) {
    if (managed()) {
        block_on(&opt, "yield", false, true);
        return 0;
    }
    return REAL(sched_yield)();
}

int nanosleep(const struct timespec *ts, struct timespec *rem) {
    if (managed()) {
        block_on(&opt, "sleep", false, true);
        return 0;
    }
    return REAL(nanosleep)(ts, rem);
}

int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) {
    if (managed()) {
        block_on(&opt, "sleep", false, true);
        return 0;
    }
    return REAL(clock_nanosleep)(c, fl, ts, rem);
}

int usleep(useconds_t us) {
    if (managed()) {
        block_on(&opt, "sleep", false, true);
        return 0;
    }
    return REAL(usleep)(us);
}

unsigned sleep(unsigned s) {
    if (managed()) {
        block_on(&opt, "sleep", false, true);
        return 0;
    }
    return REAL(sleep)(s);
}
}
