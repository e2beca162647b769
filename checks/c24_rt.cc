// Runtime for code compiled with -fsanitize=thread: instead of the sanitizer's, every memory access, atomic operation
// and lock of a controlled thread arrives here. This file itself is compiled without instrumentation, and uses no
// library templates, so that no instrumented inline function ends up in it.
#include "c24_rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>

namespace {
using namespace rt;
enum { OFF, RECORD, EXPLORE };
struct Th { int id; int mode; char *lo, *hi; };
__thread Th * me = nullptr;
Th ths[2];
Shared * S;
uint64_t const ARENA = 256ull << 20;
char * arena[2];
uint64_t used[2];

// recording: open addressing by granule
enum { HB = 1 << 17 };
uint32_t * slot;  // index + 1 into S->acc
uint32_t find(uint64_t g) {
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 47) & (HB - 1);
    while (slot[h] && S->acc[slot[h] - 1].granule != g) h = (h + 1) & (HB - 1);
    return h;
}
// exploration
Conflict const * conf; size_t nconf;
uint64_t const * pre; int npre, nextpre;
sem_t sem[2];
int fin[2], blocked[2], alone;
uint64_t vc[2][2];
struct Cell { uint64_t granule; uint64_t w[2][8], r[2][8]; };
enum { NC = 1 << 14 };
Cell * cells;
struct Sync { void * p; uint64_t v[2]; int held; };  // held: 0 free, else owner + 1 (writers); readers counted separately
enum { NS = 1 << 12 };
Sync * syncs;

bool isPriv(char * a) {
    if (a >= me->lo && a < me->hi) return true;
    return a >= arena[me->id] && a < arena[me->id] + ARENA;
}
Cell & cell(uint64_t g) {
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 50) & (NC - 1);
    while (cells[h].granule && cells[h].granule != g) h = (h + 1) & (NC - 1);
    cells[h].granule = g;
    return cells[h];
}
Sync & sync(void * p) {
    uint32_t h = (uint32_t)(((uint64_t)p * 0x9E3779B97F4A7C15ull) >> 52) & (NS - 1);
    while (syncs[h].p && syncs[h].p != p) h = (h + 1) & (NS - 1);
    syncs[h].p = p;
    return syncs[h];
}
void acquire(Sync & s) { for (int i = 0; i < 2; ++i) if (s.v[i] > vc[me->id][i]) vc[me->id][i] = s.v[i]; }
void release(Sync & s) { for (int i = 0; i < 2; ++i) if (vc[me->id][i] > s.v[i]) s.v[i] = vc[me->id][i]; ++vc[me->id][me->id]; }

void handOver() {
    int o = 1 - me->id;
    alone = 0;
    sem_post(&sem[o]);
    while (sem_wait(&sem[me->id])) {}
}
void pass() {
    if (++alone > 300 && !fin[1 - me->id] && !blocked[1 - me->id]) { handOver(); return; }  // it may be waiting for the other
    if (nextpre < npre && S->steps == pre[nextpre]) {
        ++nextpre;
        if (!fin[1 - me->id] && !blocked[1 - me->id]) { ++S->preempted; handOver(); }
    }
}
// A synchronizing operation is about to be executed.
void point(void const volatile * object, bool write) {
    uint64_t step = ++S->steps;
    pass();
    if (S->ndone < Shared::MAXDONE) { Shared::Done & d = S->done[S->ndone++]; d.object = (uint64_t)object; d.step = step; d.thread = me->id; d.write = write; }
}
// Waits until the other thread has made progress. The other thread cannot be waiting for this one, too.
void blockedHere() {
    int o = 1 - me->id;
    if (fin[o] || blocked[o]) { S->deadlock = 1; S->finished = 1; _exit(0); }
    blocked[me->id] = 1;
    handOver();
    blocked[me->id] = 0;
}
uint8_t conflictMask(uint64_t g) {
    size_t lo = 0, hi = nconf;
    while (lo < hi) { size_t m = (lo + hi) / 2; if (conf[m].granule < g) lo = m + 1; else hi = m; }
    return lo < nconf && conf[lo].granule == g ? conf[lo].mask : 0;
}
void note(char * a, size_t n, bool w, bool at) {
    Th * t = me;
    if (!t || t->mode == OFF || n == 0) return;
    if (isPriv(a)) return;
    if (t->mode == RECORD) {
        for (size_t i = 0; i < n;) {
            uint64_t x = (uint64_t)(a + i), g = x >> 3;
            uint8_t m = 0;
            for (; i < n && ((uint64_t)(a + i) >> 3) == g; ++i) m |= 1 << ((uint64_t)(a + i) & 7);
            uint32_t h = find(g);
            if (!slot[h]) {
                if (S->nacc == MAXACC) { S->overflow = 1; return; }
                S->acc[S->nacc] = Access{g, 0, 0, 0};
                slot[h] = (uint32_t)++S->nacc;
            }
            Access & c = S->acc[slot[h] - 1];
            if (at) { c.at |= m; if (w) c.wr |= m; else c.rd |= m; } else if (w) c.wr |= m; else c.rd |= m;
        }
        return;
    }
    bool stop = false;
    int o = 1 - t->id;
    bool cross = a >= arena[o] && a < arena[o] + ARENA;
    if (cross) { ++S->cross; stop = true; }
    else for (size_t i = 0; i < n && !stop;) {
        uint64_t g = (uint64_t)(a + i) >> 3;
        uint8_t m = 0;
        for (; i < n && ((uint64_t)(a + i) >> 3) == g; ++i) m |= 1 << ((uint64_t)(a + i) & 7);
        stop = (conflictMask(g) & m) != 0;
    }
    if (!stop) {
        // memory that the operation alone did not write: remembered, so that it is added to the scheduling points
        if (w || at) for (size_t i = 0; i < n; i += 8) {
            uint64_t g = (uint64_t)(a + i) >> 3;
            uint32_t h = find(g);
            if (!slot[h] && S->nacc < MAXACC) { S->acc[S->nacc] = Access{g, 0, 0xff, 0}; slot[h] = (uint32_t)++S->nacc; }
        }
        return;
    }
    // Plain accesses are no scheduling points: unless they race (which is reported), moving them between two
    // synchronizing operations changes nothing.
    if (at) { point(a, w); return; }
    for (size_t i = 0; i < n; ++i) {
        uint64_t x = (uint64_t)(a + i);
        Cell & c = cell(x >> 3);
        int b = x & 7;
        bool bad = c.w[o][b] > vc[t->id][o] || (w && c.r[o][b] > vc[t->id][o]);
        if (bad && !S->race) {
            S->race = 1;
            snprintf(S->raceText, sizeof S->raceText, "unsynchronized %s of shared memory %p that the other thread %s", w ? "write" : "read", (void *)a, c.w[o][b] > vc[t->id][o] ? "wrote" : "read");
        }
        (w ? c.w : c.r)[t->id][b] = vc[t->id][t->id];
    }
}
enum { LD, ST, RMW };
void atomicOp(void const volatile * p, size_t n, int kind, int mo) {
    Th * t = me;
    void * a = (void *)p;
    if (!t || t->mode == OFF) return;
    if (t->mode == RECORD) { note((char *)a, n, kind != LD, true); return; }
    note((char *)a, n, kind != LD, true);
    Sync & s = sync(a);
    bool acq = mo == 1 || mo == 2 || mo == 4 || mo == 5, rel = mo == 3 || mo == 4 || mo == 5;
    if (kind != ST && acq) acquire(s);
    if (kind == ST) s.v[0] = s.v[1] = 0;  // a new head of a release sequence, or none
    if (kind != LD && rel) release(s);
}
void lockNote(void * a) {  // a lock is shared memory, too
    if (me && me->mode == RECORD) note((char *)a, 8, true, true);
    else point(a, true);
}
struct Arg { int id; Body b; int which; };
void bounds(Th & t) {
    pthread_attr_t at;
    void * lo; size_t n;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &n);
    pthread_attr_destroy(&at);
    t.lo = (char *)lo; t.hi = (char *)lo + n;
}
void * run(void * p) {
    Arg & a = *(Arg *)p;
    Th & t = ths[a.id];
    t.id = a.id;
    bounds(t);
    while (sem_wait(&sem[a.id])) {}
    t.mode = EXPLORE;
    me = &t;
    a.b(a.id);
    me = nullptr;
    fin[a.id] = 1;
    sem_post(&sem[1 - a.id]);
    return nullptr;
}
void * runAlone(void * p) {
    Arg & a = *(Arg *)p;
    ths[0].id = 0;
    bounds(ths[0]);
    ths[0].mode = RECORD;
    me = &ths[0];
    a.b(a.which);
    me = nullptr;
    return nullptr;
}
void prepare(Shared * s) {
    S = s;
    for (int i = 0; i < 2; ++i) {
        arena[i] = (char *)mmap((void *)(0x500000000000ull + i * 0x10000000000ull), ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena[i] == MAP_FAILED) { perror("mmap"); _exit(3); }
        used[i] = 0;
    }
}
}  // namespace

namespace rt {
void record(Shared * s, Body b, int which) {
    prepare(s);
    slot = (uint32_t *)mmap(nullptr, HB * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    s->nacc = 0; s->overflow = 0;
    pthread_t t;
    Arg a = {0, b, which};
    pthread_create(&t, nullptr, runAlone, &a);  // on a thread of its own: thread-local memory is private
    pthread_join(t, nullptr);
}
void explore(Shared * s, Body b, int first, uint64_t const * p, int np, Conflict const * c, size_t nc) {
    prepare(s);
    conf = c; nconf = nc; pre = p; npre = np; nextpre = 0;
    s->ndone = s->steps = s->preempted = s->cross = 0; s->deadlock = s->race = 0;
    cells = (Cell *)mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    syncs = (Sync *)mmap(nullptr, NS * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    slot = (uint32_t *)mmap(nullptr, HB * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    s->nacc = 0;
    vc[0][0] = vc[1][1] = 1;
    pthread_t t[2];
    Arg a[2] = {{0, b, 0}, {1, b, 1}};
    for (int i = 0; i < 2; ++i) sem_init(&sem[i], 0, 0);
    for (int i = 0; i < 2; ++i) pthread_create(&t[i], nullptr, run, &a[i]);
    sem_post(&sem[first]);
    for (int i = 0; i < 2; ++i) pthread_join(t[i], nullptr);
}
void store(Shared * s, int k, uint8_t const * p, size_t n, char const * text) {
    Th * t = me;
    me = nullptr;
    uint64_t a = 1469598103934665603ull, b = 88172645463325252ull;
    for (size_t i = 0; i < n; ++i) { a = (a ^ p[i]) * 1099511628211ull; b = (b + p[i]) * 6364136223846793005ull + 1442695040888963407ull; }
    Result & r = s->res[k];
    r.len = n; r.h1 = a; r.h2 = b; r.done = 1;
    size_t q = 0;
    for (; text[q] && q + 1 < sizeof r.text; ++q) r.text[q] = text[q];
    r.text[q] = 0;
    me = t;
}
}  // namespace rt

extern "C" { void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); size_t malloc_usable_size(void *); }
// ---- memory: what an operation allocates itself is private to its thread
static void * get(size_t n) {
    Th * t = me;
    if (t && t->mode != OFF) {
        size_t m = ((n + 15) & ~(size_t)15) + 16;
        uint64_t u = used[t->id];
        if (n > ARENA || u + m > ARENA) _exit(4);
        used[t->id] = u + m;
        *(size_t *)(arena[t->id] + u) = n;
        return arena[t->id] + u + 16;
    }
    return __libc_malloc(n ? n : 1);
}
static bool bumped(void * p) {
    for (int i = 0; i < 2; ++i) if (arena[i] && (char *)p >= arena[i] && (char *)p < arena[i] + ARENA) return true;
    return false;
}
static void drop(void * p) {
    if (!p || bumped(p)) return;
    __libc_free(p);
}
extern "C" {
void * malloc(size_t n) { return get(n); }
void free(void * p) { drop(p); }
void * calloc(size_t n, size_t m) {
    if (!me || me->mode == OFF) return __libc_calloc(n, m);
    return get(n * m);  // never used twice, hence zero
}
void * realloc(void * p, size_t n) {
    if ((!me || me->mode == OFF) && !bumped(p)) return __libc_realloc(p, n);
    char * q = (char *)get(n);
    size_t m = !p ? 0 : bumped(p) ? ((size_t *)p)[-2] : malloc_usable_size(p);
    for (size_t i = 0; i < n && i < m; ++i) q[i] = ((char *)p)[i];
    return q;
}
}
void * operator new(size_t n) { return get(n); }
void * operator new[](size_t n) { return get(n); }
void * operator new(size_t n, std::nothrow_t const &) noexcept { return get(n); }
void * operator new[](size_t n, std::nothrow_t const &) noexcept { return get(n); }
void operator delete(void * p) noexcept { drop(p); }
void operator delete[](void * p) noexcept { drop(p); }
void operator delete(void * p, size_t) noexcept { drop(p); }
void operator delete[](void * p, size_t) noexcept { drop(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { drop(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { drop(p); }

// ---- what the instrumentation calls
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void * a) { note((char *)a, n, false, false); } \
    void __tsan_write##n(void * a) { note((char *)a, n, true, false); } \
    void __tsan_volatile_read##n(void * a) { note((char *)a, n, false, false); } \
    void __tsan_volatile_write##n(void * a) { note((char *)a, n, true, false); } \
    void __tsan_unaligned_read##n(void * a) { note((char *)a, n, false, false); } \
    void __tsan_unaligned_write##n(void * a) { note((char *)a, n, true, false); } \
    void __tsan_unaligned_volatile_read##n(void * a) { note((char *)a, n, false, false); } \
    void __tsan_unaligned_volatile_write##n(void * a) { note((char *)a, n, true, false); } \
    void __tsan_read_write##n(void * a) { note((char *)a, n, false, false); note((char *)a, n, true, false); } \
    void __tsan_unaligned_read_write##n(void * a) { note((char *)a, n, false, false); note((char *)a, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * a, unsigned long n) { note((char *)a, n, false, false); }
void __tsan_write_range(void * a, unsigned long n) { note((char *)a, n, true, false); }
void __tsan_vptr_update(void ** a, void * v) { if (*a != v) note((char *)a, 8, true, false); }
void __tsan_vptr_read(void ** a) { note((char *)a, 8, false, false); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(T const volatile * a, int mo) { atomicOp(a, sizeof(T), LD, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(T volatile * a, T v, int mo) { atomicOp(a, sizeof(T), ST, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(T volatile * a, T v, int mo) { atomicOp(a, sizeof(T), RMW, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(T volatile * a, T v, int mo) { atomicOp(a, sizeof(T), RMW, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(T volatile * a, T v, int mo) { atomicOp(a, sizeof(T), RMW, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(T volatile * a, T v, int mo) { atomicOp(a, sizeof(T), RMW, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(T volatile * a, T v, int mo) { atomicOp(a, sizeof(T), RMW, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(T volatile * a, T v, int mo) { atomicOp(a, sizeof(T), RMW, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand(T volatile * a, T v, int mo) { atomicOp(a, sizeof(T), RMW, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(T volatile * a, T * c, T v, int mo, int) { atomicOp(a, sizeof(T), RMW, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(T volatile * a, T * c, T v, int mo, int) { atomicOp(a, sizeof(T), RMW, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(T volatile * a, T c, T v, int mo, int) { atomicOp(a, sizeof(T), RMW, mo); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- locks
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
static bool on() { return me && me->mode == EXPLORE; }
static void lock(void * m) {
    point(m, true);
    while (sync(m).held) {
        if (sync(m).held == me->id + 1) { S->deadlock = 1; S->finished = 1; _exit(0); }
        blockedHere();
    }
    sync(m).held = me->id + 1;
    acquire(sync(m));
}
static void freeLock(void * m) { sync(m).held = 0; blocked[1 - me->id] = 0; release(sync(m)); }
static void unlock(void * m) { point(m, true); freeLock(m); }
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) {
    if (on()) { lock(m); return 0; }
    if (me) lockNote(m);
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t * m) {
    if (on()) { point(m, true); if (sync(m).held) return 16; sync(m).held = me->id + 1; acquire(sync(m)); return 0; }
    if (me) lockNote(m);
    return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) {
    if (on()) { unlock(m); return 0; }
    return __real_pthread_mutex_unlock(m);
}
// Readers are treated like writers: this only removes interleavings in which readers overlap.
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t * m) { if (on()) { lock(m); return 0; } if (me) lockNote(m); return __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t * m) { if (on()) { lock(m); return 0; } if (me) lockNote(m); return __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t * m) { if (on()) { unlock(m); return 0; } return __real_pthread_rwlock_unlock(m); }
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t * o, void (*f)()) {
    if (!on()) { if (me) lockNote(o); return __real_pthread_once(o, f); }
    lock(o);
    unsigned char * done = (unsigned char *)o;
    if (*done != 2) { f(); *done = 2; }
    unlock(o);
    return 0;
}
// Initialization of function-local statics.
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t * g) {
    if (!on()) { if (me) lockNote(g); return __real___cxa_guard_acquire(g); }
    lock(g);
    if (*(unsigned char *)g) { unlock(g); return 0; }
    return 1;
}
void __wrap___cxa_guard_release(uint64_t * g) {
    if (!on()) { __real___cxa_guard_release(g); return; }
    point(g, true);
    *(unsigned char *)g = 1;
    freeLock(g);
}
void __wrap___cxa_guard_abort(uint64_t * g) {
    if (!on()) { __real___cxa_guard_abort(g); return; }
    unlock(g);
}
// ---- block operations
void * __real_memcpy(void *, void const *, size_t);
void * __real_memmove(void *, void const *, size_t);
void * __real_memset(void *, int, size_t);
int __real_memcmp(void const *, void const *, size_t);
void * __wrap_memcpy(void * d, void const * s, size_t n) { note((char *)s, n, false, false); note((char *)d, n, true, false); return __real_memcpy(d, s, n); }
void * __wrap_memmove(void * d, void const * s, size_t n) { note((char *)s, n, false, false); note((char *)d, n, true, false); return __real_memmove(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { note((char *)d, n, true, false); return __real_memset(d, c, n); }
int __wrap_memcmp(void const * a, void const * b, size_t n) { note((char *)a, n, false, false); note((char *)b, n, false, false); return __real_memcmp(a, b, n); }
}
