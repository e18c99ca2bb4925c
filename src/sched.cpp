// Runtime for h_threads; see sched.hpp.  Not instrumented; no templates, no
// inline function that instrumented code could share.
#include "sched.hpp"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace sched;
typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned int u32;
typedef unsigned long u64;
typedef unsigned __int128 u128;

static Run* R;
static void (*Body)(int, std::uint64_t&);
static __thread int tid = -1;
static __thread int busy; // in the runtime itself

struct VC {
    u32 c[MAXTHREADS];
};

static VC clk[MAXTHREADS];
static u32 turn[MAXTHREADS];
static u32 all_done;
static bool done[MAXTHREADS];
static const void* blocked_on[MAXTHREADS];
static u64 since_switch;

constexpr u64 STACK = 1 << 18;
static char* stacks[MAXTHREADS];
// memory allocated by the threads
constexpr u64 ARENA = 4 << 20;
static char* arenas;
static u64 used[MAXTHREADS];

static void futex_wait(u32* p) {
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, p, FUTEX_WAIT, 0, 0, 0, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}

static void futex_wake(u32* p) {
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE, 1, 0, 0, 0);
}

__attribute__((noreturn)) static void stop(int status, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->message, sizeof R->message, fmt, ap);
    va_end(ap);
    R->status = status;
    _exit(0);
}

// ---------------------------------------------------------------------------
// scheduling

static int enabled_mask() {
    int m = 0;
    for (int t = 0; t < R->nthreads; ++t)
        if (!done[t] && !blocked_on[t])
            m |= 1 << t;
    return m;
}

static int decide(int current, int mask) {
    int n = R->npoints++;
    if (n >= MAXPOINTS)
        stop(TOO_LONG, "more than %d scheduling points", MAXPOINTS);
    int choice = current;
    if (current < 0 || !(mask >> current & 1)) {
        choice = 0;
        while (!(mask >> choice & 1))
            ++choice;
    }
    for (int i = 0; i < R->ndev; ++i)
        if (R->dev[i].point == n)
            choice = R->dev[i].thread;
    R->point[n].enabled = u8(mask);
    R->point[n].chosen = u8(choice);
    R->point[n].current = current < 0 || !(mask >> current & 1) ? 0xFF : u8(current);
    if (!(mask >> choice & 1))
        stop(TOO_LONG, "the run is not deterministic");
    return choice;
}

static void switch_to(int t) {
    if (t == tid)
        return;
    since_switch = 0;
    futex_wake(&turn[t]);
    futex_wait(&turn[tid]);
}

static void point() {
    int mask = enabled_mask();
    if (mask == 1 << tid)
        return;
    switch_to(decide(tid, mask));
}

// the current thread waits for `what`
static void block(const void* what) {
    blocked_on[tid] = what;
    int mask = enabled_mask();
    if (!mask)
        stop(DEADLOCK, "deadlock");
    switch_to(decide(tid, mask));
}

static void unblock(const void* what) {
    for (int t = 0; t < R->nthreads; ++t)
        if (blocked_on[t] == what)
            blocked_on[t] = 0;
}

// A thread that spins waits for another one: not a preemption, the default
// choice is another thread.
static void spinning() {
    int mask = enabled_mask() & ~(1 << tid);
    if (mask)
        switch_to(decide(-1, mask));
    else if (since_switch > 20000000)
        stop(TOO_LONG, "endless loop");
}

// ---------------------------------------------------------------------------
// accesses

struct Shadow {
    // clock of the last access by each thread
    u32 w[MAXTHREADS], r[MAXTHREADS], aw[MAXTHREADS], ar[MAXTHREADS];
    VC sync;
    bool hot, conflict;
};

// 32 bytes are described together: a run does not live long, page faults would
// dominate
struct Line {
    u64 addr;
    Shadow byte[32];
};

constexpr u64 NLINES = 1 << 13;
static u16 table[NLINES]; // index in lines + 1
static Line* lines;
static u16 nlines;

static Shadow* lookup(u64 a) {
    u64 h = (a >> 5) * 0x9e3779b97f4a7c15ul >> 51;
    for (u64 i = 0; i < NLINES; ++i) {
        u16& t = table[(h + i) & (NLINES - 1)];
        if (!t) {
            t = ++nlines;
            lines[t].addr = a >> 5;
        }
        if (lines[t].addr == a >> 5)
            return &lines[t].byte[a & 31];
    }
    stop(TOO_LONG, "too many bytes accessed");
}

static void acquire(const VC& v) {
    for (int t = 0; t < MAXTHREADS; ++t)
        if (v.c[t] > clk[tid].c[t])
            clk[tid].c[t] = v.c[t];
}

static void release(VC& v) {
    for (int t = 0; t < MAXTHREADS; ++t)
        if (clk[tid].c[t] > v.c[t])
            v.c[t] = clk[tid].c[t];
    ++clk[tid].c[tid];
}

static void race(u64 a, int other, const char* k1, const char* k2, void* pc) {
    stop(RACE, "data race on %p: %s by thread %d and %s by thread %d at %p", (void*)a, k2, other,
         k1, tid, pc);
}

static const void* last_addr[MAXTHREADS];
static void* last_pc[MAXTHREADS];
static int polls[MAXTHREADS];

static void access(const volatile void* p, u64 size, bool write, bool atomic, void* pc) {
    if (tid < 0 || busy)
        return;
    u64 a = (u64)p;
    ++R->accesses;
    if (++since_switch % 2000 == 0)
        spinning();
    // its own stack and arena are private to a thread until proved otherwise
    char* c = (char*)p;
    bool sched = R->all_points && !(c >= stacks[tid] && c < stacks[tid] + STACK) &&
        !(c >= arenas + ARENA * tid && c < arenas + ARENA * (tid + 1));
    for (u64 i = 0; i < size && !sched; ++i)
        sched = lookup(a + i)->hot;
    if (sched) {
        // a thread that polls a location waits for another one
        if (p == last_addr[tid] && pc == last_pc[tid]) {
            if (++polls[tid] >= 4)
                spinning();
        } else {
            last_addr[tid] = (const void*)p;
            last_pc[tid] = pc;
            polls[tid] = 0;
        }
        point();
    }
    int me = tid;
    for (u64 i = 0; i < size; ++i) {
        Shadow* s = lookup(a + i);
        for (int t = 0; t < R->nthreads; ++t) {
            if (t == me)
                continue;
            u32 known = clk[me].c[t];
            if (write ? s->w[t] || s->r[t] || s->aw[t] || s->ar[t] : s->w[t] || s->aw[t]) {
                if (!s->conflict) {
                    s->conflict = true;
                    if (R->nconflicts < MAXHOT)
                        R->conflict[R->nconflicts++] = a + i;
                }
            }
            const char* k = write ? (atomic ? "atomic write" : "write") : (atomic ? "atomic read" : "read");
            if (s->w[t] > known)
                race(a + i, t, k, "write", pc);
            if (!atomic && s->aw[t] > known)
                race(a + i, t, k, "atomic write", pc);
            if (write && s->r[t] > known)
                race(a + i, t, k, "read", pc);
            if (write && !atomic && s->ar[t] > known)
                race(a + i, t, k, "atomic read", pc);
        }
        (write ? (atomic ? s->aw : s->w) : (atomic ? s->ar : s->r))[me] = clk[me].c[me];
    }
}

static VC fences;

static void sync_acquire(const volatile void* p, u64 size) {
    for (u64 i = 0; i < size; ++i)
        acquire(lookup((u64)p + i)->sync);
}

static void sync_release(const volatile void* p, u64 size) {
    VC v = clk[tid];
    for (u64 i = 0; i < size; ++i) {
        Shadow* s = lookup((u64)p + i);
        for (int t = 0; t < MAXTHREADS; ++t)
            if (v.c[t] > s->sync.c[t])
                s->sync.c[t] = v.c[t];
    }
    ++clk[tid].c[tid];
}

static bool acq(int mo) {
    return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE;
}
static bool rel(int mo) {
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

// ---------------------------------------------------------------------------
// the interface of the instrumentation

#define PC __builtin_return_address(0)

extern "C" {

void __tsan_init() {
}
void __tsan_func_entry(void*) {
}
void __tsan_func_exit() {
}
void __tsan_ignore_thread_begin() {
}
void __tsan_ignore_thread_end() {
}

#define ACCESS(N)                                                              \
    void __tsan_read##N(void* p) {                                             \
        access(p, N, false, false, PC);                                        \
    }                                                                          \
    void __tsan_write##N(void* p) {                                            \
        access(p, N, true, false, PC);                                         \
    }                                                                          \
    void __tsan_unaligned_read##N(void* p) {                                   \
        access(p, N, false, false, PC);                                        \
    }                                                                          \
    void __tsan_unaligned_write##N(void* p) {                                  \
        access(p, N, true, false, PC);                                         \
    }                                                                          \
    void __tsan_volatile_read##N(void* p) {                                    \
        access(p, N, false, false, PC);                                        \
    }                                                                          \
    void __tsan_volatile_write##N(void* p) {                                   \
        access(p, N, true, false, PC);                                         \
    }                                                                          \
    void __tsan_read_write##N(void* p) {                                       \
        access(p, N, false, false, PC);                                        \
        access(p, N, true, false, PC);                                         \
    }                                                                          \
    void __tsan_unaligned_read_write##N(void* p) {                             \
        access(p, N, false, false, PC);                                        \
        access(p, N, true, false, PC);                                         \
    }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)

void __tsan_vptr_update(void** p, void* v) {
    if (*p != v)
        access(p, 8, true, false, PC);
}
void __tsan_vptr_read(void** p) {
    access(p, 8, false, false, PC);
}
void __tsan_read_range(void* p, u64 n) {
    access(p, n, false, false, PC);
}
void __tsan_write_range(void* p, u64 n) {
    access(p, n, true, false, PC);
}
void* __tsan_memcpy(void* d, const void* s, u64 n) {
    access(s, n, false, false, PC);
    access(d, n, true, false, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, u64 n) {
    access(s, n, false, false, PC);
    access(d, n, true, false, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, u64 n) {
    access(d, n, true, false, PC);
    return memset(d, c, n);
}

#define RMW(T, NAME, OP)                                                       \
    T NAME(volatile T* p, T v, int mo) {                                       \
        if (tid < 0 || busy)                                                   \
            return OP(p, v, __ATOMIC_SEQ_CST);                                 \
        access(p, sizeof(T), true, true, PC);                                  \
        if (acq(mo))                                                           \
            sync_acquire(p, sizeof(T));                                        \
        if (rel(mo))                                                           \
            sync_release(p, sizeof(T));                                        \
        return OP(p, v, __ATOMIC_SEQ_CST);                                     \
    }

#define ATOMIC(B, T)                                                           \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) {                   \
        if (tid >= 0 && !busy) {                                               \
            access(p, sizeof(T), false, true, PC);                             \
            if (acq(mo))                                                       \
                sync_acquire(p, sizeof(T));                                    \
        }                                                                      \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                           \
    }                                                                          \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) {                \
        if (tid >= 0 && !busy) {                                               \
            access(p, sizeof(T), true, true, PC);                              \
            if (rel(mo))                                                       \
                sync_release(p, sizeof(T));                                    \
        }                                                                      \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                              \
    }                                                                          \
    RMW(T, __tsan_atomic##B##_exchange, __atomic_exchange_n)                   \
    RMW(T, __tsan_atomic##B##_fetch_add, __atomic_fetch_add)                   \
    RMW(T, __tsan_atomic##B##_fetch_sub, __atomic_fetch_sub)                   \
    RMW(T, __tsan_atomic##B##_fetch_and, __atomic_fetch_and)                   \
    RMW(T, __tsan_atomic##B##_fetch_or, __atomic_fetch_or)                     \
    RMW(T, __tsan_atomic##B##_fetch_xor, __atomic_fetch_xor)                   \
    RMW(T, __tsan_atomic##B##_fetch_nand, __atomic_fetch_nand)                 \
    int __tsan_atomic##B##_compare_exchange_strong(                            \
        volatile T* p, T* expected, T v, int mo, int fmo) {                    \
        if (tid >= 0 && !busy) {                                               \
            access(p, sizeof(T), true, true, PC);                              \
            if (acq(mo) || acq(fmo))                                           \
                sync_acquire(p, sizeof(T));                                    \
            if (*p == *expected && rel(mo))                                    \
                sync_release(p, sizeof(T));                                    \
        }                                                                      \
        return __atomic_compare_exchange_n(                                    \
            p, expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
    }                                                                          \
    int __tsan_atomic##B##_compare_exchange_weak(                              \
        volatile T* p, T* expected, T v, int mo, int fmo) {                    \
        return __tsan_atomic##B##_compare_exchange_strong(                     \
            p, expected, v, mo, fmo);                                          \
    }                                                                          \
    T __tsan_atomic##B##_compare_exchange_val(                                 \
        volatile T* p, T expected, T v, int mo, int fmo) {                     \
        __tsan_atomic##B##_compare_exchange_strong(p, &expected, v, mo, fmo);  \
        return expected;                                                       \
    }

ATOMIC(8, u8)
ATOMIC(16, u16)
ATOMIC(32, u32)
ATOMIC(64, u64)

void __tsan_atomic_thread_fence(int) {
    if (tid >= 0 && !busy) {
        acquire(fences);
        release(fences);
    }
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {
}

// ---------------------------------------------------------------------------
// synchronization: static variables, mutexes, once.  Only the threads of a
// controlled run have to be synchronized; everything else is single-threaded.

struct Lock {
    const void* addr;
    int owner; // or -1
    int depth;
    int readers;
};
static Lock locks[256];

static Lock& lock_of(const void* p) {
    for (int i = 0; i < 256; ++i) {
        if (locks[i].addr == p)
            return locks[i];
        if (!locks[i].addr) {
            locks[i].addr = p;
            locks[i].owner = -1;
            return locks[i];
        }
    }
    stop(TOO_LONG, "too many locks");
}

static void lock(const void* p, bool shared, bool recursive) {
    Lock& l = lock_of(p);
    point();
    for (;;) {
        if (recursive && l.owner == tid) {
            ++l.depth;
            return;
        }
        if (l.owner < 0 && (shared || l.readers == 0))
            break;
        block(p);
    }
    if (shared)
        ++l.readers;
    else
        l.owner = tid, l.depth = 1;
    sync_acquire(p, 1);
}

static bool try_lock(const void* p, bool shared) {
    Lock& l = lock_of(p);
    point();
    if (l.owner >= 0 || (!shared && l.readers))
        return false;
    if (shared)
        ++l.readers;
    else
        l.owner = tid, l.depth = 1;
    sync_acquire(p, 1);
    return true;
}

static void unlock(const void* p) {
    Lock& l = lock_of(p);
    sync_release(p, 1);
    if (l.owner == tid) {
        if (--l.depth)
            return;
        l.owner = -1;
    } else if (l.readers)
        --l.readers;
    unblock(p);
    point();
}

#define ALONE (tid < 0 || busy)

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!ALONE)
        lock(m, false, m->__data.__kind & PTHREAD_MUTEX_RECURSIVE);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    return ALONE || try_lock(m, false) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!ALONE)
        unlock(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!ALONE)
        lock(m, true, false);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!ALONE)
        lock(m, false, false);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    return ALONE || try_lock(m, true) ? 0 : EBUSY;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    return ALONE || try_lock(m, false) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!ALONE)
        unlock(m);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    // 0: not done; 1: in progress; 2: done
    int* state = (int*)o;
    if (ALONE) {
        if (*state != 2) {
            f();
            *state = 2;
        }
        return 0;
    }
    point();
    while (*state == 1)
        block(o);
    if (*state == 0) {
        *state = 1;
        f();
        *state = 2;
        sync_release(o, 1);
        unblock(o);
    } else
        sync_acquire(o, 1);
    return 0;
}

int __cxa_guard_acquire(u64* g) {
    u8* b = (u8*)g;
    if (!ALONE) {
        point();
        while (!b[0] && b[1])
            block(g);
        sync_acquire(g, 1);
    }
    if (b[0])
        return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(u64* g) {
    u8* b = (u8*)g;
    if (!ALONE) {
        access(g, 1, true, true, PC);
        sync_release(g, 1);
    }
    b[0] = 1;
    b[1] = 0;
    if (!ALONE)
        unblock(g);
}
void __cxa_guard_abort(u64* g) {
    u8* b = (u8*)g;
    b[1] = 0;
    if (!ALONE)
        unblock(g);
}

// ---------------------------------------------------------------------------
// Memory allocated by the threads is never reused, and its addresses do not
// depend on the schedule.

void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);

static bool in_arena(void* p) {
    return arenas && (char*)p >= arenas && (char*)p < arenas + ARENA * MAXTHREADS;
}

void* malloc(size_t n) {
    if (tid < 0)
        return __libc_malloc(n);
    n = (n + 15) & ~15ul;
    if (used[tid] + n + 16 > ARENA)
        stop(TOO_LONG, "too much memory allocated");
    char* p = arenas + ARENA * tid + used[tid];
    *(size_t*)p = n;
    used[tid] += n + 16;
    return p + 16;
}
void free(void* p) {
    if (!in_arena(p))
        __libc_free(p);
}
void* calloc(size_t a, size_t b) {
    if (tid < 0)
        return __libc_calloc(a, b);
    return malloc(a * b); // from mmap, never reused
}
void* realloc(void* p, size_t n) {
    if (!in_arena(p) && tid < 0)
        return __libc_realloc(p, n);
    void* q = malloc(n);
    if (p && q) {
        size_t old = in_arena(p) ? ((size_t*)p)[-2] : n;
        memcpy(q, p, old < n ? old : n);
    }
    return q;
}

} // extern "C"

// ---------------------------------------------------------------------------

static void* thread_main(void* arg) {
    int t = int((long)arg);
    futex_wait(&turn[t]);
    tid = t;
    Body(t, R->result[t]);
    busy = 1;
    done[t] = true;
    tid = -1;
    int mask = enabled_mask();
    if (mask)
        futex_wake(&turn[decide(-1, mask)]);
    else {
        for (int i = 0; i < R->nthreads; ++i)
            if (!done[i])
                stop(DEADLOCK, "deadlock");
        futex_wake(&all_done);
    }
    return 0;
}

void sched::execute(Run* run, void (*body)(int, std::uint64_t&)) {
    R = run;
    Body = body;
    // one thread at a time: cheaper on one processor
    cpu_set_t cpu;
    CPU_ZERO(&cpu);
    CPU_SET(sched_getcpu(), &cpu);
    sched_setaffinity(0, sizeof cpu, &cpu);
    R->npoints = 0;
    R->accesses = 0;
    R->nconflicts = 0;
    R->status = UNFINISHED;
    arenas = (char*)mmap(0, ARENA * MAXTHREADS, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    lines = (Line*)mmap(0, sizeof(Line) * (NLINES + 1), PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < R->nhot; ++i)
        lookup(R->hot[i])->hot = true;
    for (int t = 0; t < R->nthreads; ++t)
        for (int u = 0; u < MAXTHREADS; ++u)
            clk[t].c[u] = t == u ? 1 : 0;
    pthread_t th[MAXTHREADS];
    for (long t = 0; t < R->nthreads; ++t) {
        pthread_attr_t a;
        pthread_attr_init(&a);
        stacks[t] = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pthread_attr_setstack(&a, stacks[t], STACK);
        if (pthread_create(&th[t], &a, thread_main, (void*)t))
            stop(TOO_LONG, "cannot create a thread");
    }
    int mask = (1 << R->nthreads) - 1;
    futex_wake(&turn[decide(-1, mask)]);
    futex_wait(&all_done);
    R->status = OK;
}
