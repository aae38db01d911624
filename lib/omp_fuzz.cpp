// An OpenMP runtime for testing: the threads of a team are coroutines of one operating system thread,
// switched at generated points, and every memory access of the code under test is seen (the code is
// compiled with -fsanitize=thread, and the callbacks of that instrumentation are implemented here, not
// in libtsan).
//  * Schedules are a function of a seed, so a case replays exactly.
//  * Two accesses of different threads of one team to the same byte, at least one a write, without a
//    barrier in between and without a common lock or atomics, are reported as a data race - whether or
//    not this schedule computed something else because of it.
#include "omp_fuzz.h"
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <string>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>

namespace {
const size_t kStack = 1 << 20;
struct Level { int tid, n; };
struct Co {
    ucontext_t ctx;
    char* stack = nullptr;
    bool done = false;
    bool waiting = false;       // at a barrier
    int tid = 0;
    std::vector<Level> nested;
    uint64_t locks = 0;         // bit set of locks held
    int guard = 0;              // inside the initialisation of a function-local static
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
};
struct Access { uint8_t tid, bytes, write, atomic; uint64_t locks; };
struct Cell { uint64_t key = 0; uint32_t gen = 0; uint8_t n = 0; Access a[6]; };

int g_max = 1;                  // omp_set_num_threads
bool g_on = false;              // adversarial mode
uint64_t g_rng = 1;
uint32_t g_period = 0;          // mean number of accesses between switches (0: never switch)
uint32_t g_count = 0;
Co* g_team = nullptr;
int g_n = 0, g_cur = -1;
bool g_inside = false;          // in our own code
ucontext_t g_main;
std::vector<char*>* g_stacks = nullptr;
Cell* g_cells = nullptr;
const size_t kCells = 1 << 16;
uint32_t g_gen = 1;
size_t g_used = 0;
char g_race[512];
bool g_has_race = false;
long g_regions = 0, g_switches = 0;
std::vector<void*>* g_lock_names = nullptr;
int g_dummy;
// work shared by a dynamic loop
struct Loop { long next, end, incr, chunk; bool active; int joined; };
Loop g_loop;

uint64_t rnd() {
    g_rng += 0x9e3779b97f4a7c15ULL;
    uint64_t x = g_rng;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
void new_epoch() { g_gen++; g_used = 0; }
void arm() { g_count = g_period ? 1 + rnd() % (2 * g_period) : 0; }

void entry(unsigned hi, unsigned lo) {
    Co* c = (Co*) (((uintptr_t) hi << 32) | lo);
    c->fn(c->data);
    c->done = true;
    swapcontext(&c->ctx, &g_main);
}
int pick(int not_me) {
    int cand[64], n = 0;
    for(int i = 0; i < g_n; i++) if(!g_team[i].done && !g_team[i].waiting && i != not_me) cand[n++] = i;
    return n ? cand[rnd() % n] : -1;
}
void switch_away() {
    int me = g_cur;
    int to = pick(me);
    if(to < 0) {
        if(!g_team[me].waiting) return;
        swapcontext(&g_team[me].ctx, &g_main);   // everyone waits: the scheduler opens the barrier
        return;
    }
    g_switches++;
    g_cur = to;
    swapcontext(&g_team[me].ctx, &g_team[to].ctx);
}
void run_team(void (*fn)(void*), void* data, int n) {
    g_inside = true;
    if(!g_stacks) g_stacks = new std::vector<char*>;
    while((int) g_stacks->size() < n) g_stacks->push_back((char*) mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if(!g_cells) g_cells = (Cell*) mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    std::vector<Co> team(n);
    g_team = team.data();
    g_n = n;
    g_regions++;
    new_epoch();
    for(int i = 0; i < n; i++) {
        Co& c = team[i];
        c.tid = i;
        c.stack = (*g_stacks)[i];
        c.fn = fn;
        c.data = data;
        c.nested.push_back({i, n});
        getcontext(&c.ctx);
        c.ctx.uc_stack.ss_sp = c.stack;
        c.ctx.uc_stack.ss_size = kStack;
        c.ctx.uc_link = &g_main;
        uintptr_t p = (uintptr_t) &c;
        makecontext(&c.ctx, (void (*)()) entry, 2, (unsigned) (p >> 32), (unsigned) p);
    }
    arm();
    while(true) {
        int to = pick(-1);
        if(to < 0) {
            bool all = true;
            for(auto& c : team) if(!c.done) { all = false; c.waiting = false; }
            if(all) break;
            new_epoch();         // a barrier orders everything before it
            continue;
        }
        g_cur = to;
        g_inside = false;
        swapcontext(&g_main, &team[to].ctx);
        g_inside = true;
    }
    g_cur = -1;
    g_team = nullptr;
    g_n = 0;
    new_epoch();
    g_inside = false;
}
Cell* find(uint64_t key, bool create) {
    size_t h = (key * 0x9e3779b97f4a7c15ULL) >> 48;
    for(size_t k = 0; k < kCells; k++, h = (h + 1) & (kCells - 1)) {
        Cell& c = g_cells[h];
        if(c.gen != g_gen) {
            if(!create || g_used > kCells / 2) return nullptr;   // full: not tracked
            c.gen = g_gen;
            c.key = key;
            c.n = 0;
            g_used++;
            return &c;
        }
        if(c.key == key) return &c;
    }
    return nullptr;
}
void report(const void* addr, const Access& o, bool write, void* pc) {
    if(g_has_race) return;
    g_has_race = true;
    Dl_info info;
    memset(&info, 0, sizeof info);
    dladdr(pc, &info);
    snprintf(g_race, sizeof g_race, "thread %d %s memory which thread %d %s, without synchronisation (in %s, offset 0x%lx)", g_cur, write ? "writes" : "reads", o.tid, o.write ? "writes" : "reads", info.dli_sname ? info.dli_sname : "?", (unsigned long) ((char*) pc - (char*) info.dli_fbase));
}
void one(uint64_t key, uint8_t bytes, bool write, bool atomic, const void* addr, void* pc) {
    Cell* c = find(key, true);
    if(!c) return;
    Co& me = g_team[g_cur];
    bool merged = false;
    for(int i = 0; i < c->n; i++) {
        Access& o = c->a[i];
        if(o.tid != g_cur) {
            if((o.bytes & bytes) && (o.write || write) && !(o.atomic && atomic) && !(o.locks & me.locks)) report(addr, o, write, pc);
        }
        else if(o.write == write && o.atomic == atomic && o.locks == me.locks) { o.bytes |= bytes; merged = true; }
    }
    if(!merged && c->n < 6) c->a[c->n++] = Access{(uint8_t) g_cur, bytes, write, atomic, me.locks};
}
void access(const void* addr, size_t size, bool write, bool atomic, void* pc) {
    if(g_cur < 0 || g_inside) return;
    Co& me = g_team[g_cur];
    uintptr_t p = (uintptr_t) addr;
    if(p >= (uintptr_t) me.stack && p < (uintptr_t) me.stack + kStack) return;
    g_inside = true;
    if(!me.guard) {
        uintptr_t q = p, e = p + size;
        while(q < e) {
            uintptr_t base = q & ~(uintptr_t) 7, top = base + 8 < e ? base + 8 : e;
            uint8_t mask = 0;
            for(uintptr_t b = q; b < top; b++) mask |= 1 << (b - base);
            one(base >> 3, mask, write, atomic, addr, pc);
            q = top;
        }
    }
    g_inside = false;
    if(g_count && --g_count == 0 && !me.guard) {
        arm();
        switch_away();
    }
}
void forget(void* p, size_t size) {
    if(g_cur < 0 || g_inside || !p) return;
    g_inside = true;
    uintptr_t a = (uintptr_t) p >> 3, b = ((uintptr_t) p + size + 7) >> 3;
    if(b - a < 4 * kCells) for(uintptr_t k = a; k < b; k++) { Cell* c = find(k, false); if(c) c->n = 0; }
    g_inside = false;
}
uint64_t lock_bit(void* name) {
    g_inside = true;
    if(!g_lock_names) g_lock_names = new std::vector<void*>;
    size_t i = 0;
    while(i < g_lock_names->size() && (*g_lock_names)[i] != name) i++;
    if(i == g_lock_names->size()) g_lock_names->push_back(name);
    g_inside = false;
    return 1ULL << (i % 63);
}
void lock(void* name) {
    if(g_cur < 0) return;
    uint64_t b = lock_bit(name);
    for(;;) {
        bool held = false;
        for(int i = 0; i < g_n; i++) if(i != g_cur && !g_team[i].done && (g_team[i].locks & b)) held = true;
        if(!held) break;
        switch_away();
    }
    g_team[g_cur].locks |= b;
}
void unlock(void* name) {
    if(g_cur < 0) return;
    g_team[g_cur].locks &= ~lock_bit(name);
}
void barrier() {
    if(g_cur < 0 || g_team[g_cur].nested.size() > 1) return;
    g_team[g_cur].waiting = true;
    switch_away();
}
}

// ---- control
void omp_fuzz::begin(uint64_t seed, unsigned period) { g_on = true; g_rng = seed; g_period = period; g_has_race = false; g_race[0] = 0; g_regions = g_switches = 0; }
void omp_fuzz::end() { g_on = false; }
const char* omp_fuzz::race() { return g_has_race ? g_race : nullptr; }
long omp_fuzz::regions() { return g_regions; }
long omp_fuzz::switches() { return g_switches; }
bool omp_fuzz::available() { return true; }

extern "C" {
// ---- OpenMP
int omp_get_num_threads(void) { return g_cur < 0 ? 1 : g_team[g_cur].nested.back().n; }
int omp_get_thread_num(void) { return g_cur < 0 ? 0 : g_team[g_cur].nested.back().tid; }
int omp_get_max_threads(void) { return g_max; }
void omp_set_num_threads(int n) { if(n > 0) g_max = n; }
int omp_in_parallel(void) { return g_cur >= 0 && g_team[g_cur].nested[0].n > 1; }
int omp_get_num_procs(void) { return 8; }
int omp_get_thread_limit(void) { return 64; }
int omp_get_level(void) { return g_cur < 0 ? 0 : (int) g_team[g_cur].nested.size(); }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock(l); }
void omp_unset_lock(void** l) { unlock(l); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) {
    int n = num > 0 ? num : g_max;
    if(n > 32) n = 32;
    if(g_cur >= 0) {
        g_team[g_cur].nested.push_back({0, 1});
        fn(data);
        g_team[g_cur].nested.pop_back();
        return;
    }
    if(!g_on || n <= 1) { fn(data); return; }
    run_team(fn, data, n);
}
void GOMP_barrier(void) { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start(void) { lock(&g_dummy); }
void GOMP_critical_end(void) { unlock(&g_dummy); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&g_max); }
void GOMP_atomic_end(void) { unlock(&g_max); }
bool GOMP_single_start(void) { return omp_get_thread_num() == 0; }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}

static Loop g_seq_loop;
static bool loop_next(long* s, long* e) {
    Loop& l = g_cur < 0 ? g_seq_loop : g_loop;
    if(g_cur >= 0) switch_away();
    if(l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    *s = l.next;
    long step = l.incr * l.chunk;
    *e = l.next + step;
    if(l.incr > 0 ? *e > l.end : *e < l.end) *e = l.end;
    l.next += step;
    return true;
}
static void loop_init(long start, long end, long incr, long chunk) {
    Loop& l = g_cur < 0 ? g_seq_loop : g_loop;
    l.next = start; l.end = end; l.incr = incr; l.chunk = chunk > 0 ? chunk : 1; l.active = true; l.joined = 0;
}
static bool loop_start(long start, long end, long incr, long chunk, long* s, long* e) {
    if(g_cur < 0) loop_init(start, end, incr, chunk);
    else {
        if(!g_loop.active || g_loop.joined >= g_n) loop_init(start, end, incr, chunk);
        g_loop.joined++;
    }
    return loop_next(s, e);
}
#define LOOPS(K) \
bool GOMP_loop_##K##_start(long a, long b, long c, long d, long* s, long* e) { return loop_start(a, b, c, d, s, e); } \
bool GOMP_loop_##K##_next(long* s, long* e) { return loop_next(s, e); } \
void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned num, long a, long b, long c, long d, unsigned f) { \
    if(g_cur < 0) { loop_init(a, b, c, d); g_loop = g_seq_loop; g_loop.joined = 1 << 20; } \
    GOMP_parallel(fn, data, num, f); g_loop.active = false; }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
#define LOOPR(K) \
bool GOMP_loop_##K##_start(long a, long b, long c, long* s, long* e) { return loop_start(a, b, c, 1, s, e); } \
bool GOMP_loop_##K##_next(long* s, long* e) { return loop_next(s, e); } \
void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned num, long a, long b, long c, unsigned f) { \
    if(g_cur < 0) { loop_init(a, b, c, 1); g_loop = g_seq_loop; g_loop.joined = 1 << 20; } \
    GOMP_parallel(fn, data, num, f); g_loop.active = false; }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); if(g_cur >= 0) g_loop.active = false; }
void GOMP_loop_end_nowait(void) {}

// ---- instrumentation
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false, PC); }
#define RW(N) \
void __tsan_read##N(void* p) { access(p, N, false, false, PC); } \
void __tsan_write##N(void* p) { access(p, N, true, false, PC); } \
void __tsan_unaligned_read##N(void* p) { access(p, N, false, false, PC); } \
void __tsan_unaligned_write##N(void* p) { access(p, N, true, false, PC); } \
void __tsan_volatile_read##N(void* p) { access(p, N, false, false, PC); } \
void __tsan_volatile_write##N(void* p) { access(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int) { access((void*) p, sizeof(T), false, true, PC); return *p; } \
void __tsan_atomic##B##_store(volatile T* p, T v, int) { access((void*) p, sizeof(T), true, true, PC); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { access((void*) p, sizeof(T), true, true, PC); T o = *p; if(o == *c) { *p = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, a, b); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- memory functions and allocation (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { access(d, n, true, false, PC); return __real_memset(d, v, n); }
void __real_free(void*);
void __wrap_free(void* p) { forget(p, malloc_usable_size(p)); __real_free(p); }
int __real_pthread_mutex_lock(void*);
int __real_pthread_mutex_unlock(void*);
int __wrap_pthread_mutex_lock(void* m) { if(g_cur >= 0) { lock(m); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(void* m) { if(g_cur >= 0) { unlock(m); return 0; } return __real_pthread_mutex_unlock(m); }
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if(r && g_cur >= 0) g_team[g_cur].guard++; return r; }
void __wrap___cxa_guard_release(void* g) { if(g_cur >= 0) g_team[g_cur].guard--; __real___cxa_guard_release(g); }
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
