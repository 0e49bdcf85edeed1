#include "race.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <unordered_map>

// Nothing here may be merged with an instrumented copy of the same template: the
// guard below makes such a copy harmless.
namespace {

enum Kind : uint8_t { R, W, AR, AW, ACQ, REL, ACQR, RELR, LD, ST, RMW };
const char * const NAMES[] = {"r", "w", "ar", "aw", "acq", "rel", "acqr", "relr", "ld", "st", "rmw"};

struct Rec { uint8_t tid; Kind kind; uint8_t mask; uint32_t gen; uintptr_t at; int order; };
enum State { READY, BLOCKED, DONE };
struct Th {
    int id;
    sem_t sem;
    pthread_t p;
    State state;
    const void * on;
    uintptr_t lo, hi;                       // its stack
    std::function<void()> body;
    std::unordered_map<uint64_t, uint32_t> seen;    // accesses of the current epoch
    uint32_t epoch;
};
struct Lock { int owner; int depth; std::map<int, int> readers; Lock() : owner(0), depth(0) {} };

std::vector<Th *> * ths;
std::vector<Rec> * recs;
std::unordered_map<uintptr_t, uint32_t> * gens;
std::unordered_map<uintptr_t, uint8_t> * owners;    // granules of blocks made by a thread
std::map<const void *, Lock> * locks;
std::map<const void *, int> * guards;
race::Schedule sched;
size_t hpos;
uint64_t rnd;
volatile bool parallel = false;
volatile bool stuck = false;
sem_t finished;
int current;
long quiet_points;

__thread Th * me = NULL;
__thread int inside = 0;
struct Inside { Inside() { ++inside; } ~Inside() { --inside; } };

bool live() { return parallel && me && !inside; }

unsigned draw(unsigned n) {
    rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
    return (unsigned)((rnd >> 11) % n);
}

Th * pick(bool want_other) {
    std::vector<Th *> r;
    for (Th * t : *ths) if (t->state == READY && !(want_other && t == me)) r.push_back(t);
    if (r.empty()) return NULL;
    return r[draw(r.size())];
}
void hand(Th * to) {
    if (to == me) return;
    current = to->id;
    sem_post(&to->sem);
    if (me->state != DONE) sem_wait(&me->sem);
}
void give_up() {        // nobody can go on
    stuck = true;
    sem_post(&finished);
    for (;;) pause();
}
void block(const void * on) {
    me->state = BLOCKED;
    me->on = on;
    Th * n = pick(true);
    if (!n) give_up();
    hand(n);
}
void wake(const void * on) {
    for (Th * t : *ths) if (t->state == BLOCKED && t->on == on) t->state = READY;
}
void point(bool sync) {
    if (sched.kind == "hist") {
        if (!sync) return;
        while (hpos < sched.hist.size()) {
            int id = sched.hist[hpos++];
            if (id < 1 || id > (int)ths->size()) continue;
            Th * t = (*ths)[id - 1];
            if (t->state != READY) continue;
            hand(t);
            return;
        }
        return;
    }
    // a thread that spins must not keep the others from going on
    if (draw(1000) < (sync ? sched.sync : sched.data) || (sync && ++quiet_points > 2000)) {
        Th * n = pick(quiet_points > 2000);
        if (n) { if (n != me) quiet_points = 0; hand(n); }
    }
}

uint32_t gen(uintptr_t g) {
    auto i = gens->find(g);
    return i == gens->end() ? 0 : i->second;
}
void record(uintptr_t g, Kind k, uint8_t mask) {
    Rec r;
    r.tid = me->id; r.kind = k; r.mask = mask; r.gen = gen(g); r.at = g; r.order = 0;
    recs->push_back(r);
}
void sync(const void * p, Kind k) {
    record((uintptr_t)p, k, 0xff);
    me->seen.clear();
    ++me->epoch;
}

void access(uintptr_t a, size_t n, bool write) {
    if (!live() || n == 0) return;
    if (a >= me->lo && a < me->hi) return;
    Inside in;
    bool shared = false;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
        unsigned lo = g == a >> 3 ? a & 7 : 0, hi = g == (a + n - 1) >> 3 ? (a + n - 1) & 7 : 7;
        uint8_t mask = (uint8_t)(((1u << (hi - lo + 1)) - 1) << lo);
        uint64_t key = ((uint64_t)g << 8) ^ gen(g);
        uint32_t & s = me->seen[key];
        uint32_t bits = write ? (uint32_t)mask << 8 : mask;
        if ((s & bits) == bits) continue;
        auto o = owners->find(g);
        if (o == owners->end() || o->second != me->id) shared = true;
    }
    if (shared) point(false);
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
        unsigned lo = g == a >> 3 ? a & 7 : 0, hi = g == (a + n - 1) >> 3 ? (a + n - 1) & 7 : 7;
        uint8_t mask = (uint8_t)(((1u << (hi - lo + 1)) - 1) << lo);
        uint64_t key = ((uint64_t)g << 8) ^ gen(g);
        uint32_t & s = me->seen[key];
        uint32_t bits = write ? (uint32_t)mask << 8 : mask;
        if ((s & bits) == bits) continue;
        s |= bits;
        record(g, write ? W : R, mask);
    }
}

size_t round8(size_t n) { return (n + 7) / 8; }
std::unordered_map<void *, size_t> * sizes;
void made(void * p, size_t n) {
    if (!live() || !p) return;
    Inside in;
    (*sizes)[p] = n;
    for (size_t i = 0; i < round8(n); ++i) {
        uintptr_t g = ((uintptr_t)p >> 3) + i;
        ++(*gens)[g];
        (*owners)[g] = me->id;
    }
}
void freed(void * p) {
    if (!live() || !p) return;
    size_t n;
    {
        Inside in;
        auto i = sizes->find(p);
        if (i == sizes->end()) return;
        n = i->second;
        sizes->erase(i);
    }
    if (n <= 4096) access((uintptr_t)p, n, true);       // freeing conflicts with every use
    Inside in;
    for (size_t i = 0; i < round8(n); ++i) {
        uintptr_t g = ((uintptr_t)p >> 3) + i;
        ++(*gens)[g];
        owners->erase(g);
    }
}

void * start(void * x) {
    Th * t = (Th *)x;
    me = t;
    ++inside;
    pthread_attr_t a;
    pthread_getattr_np(pthread_self(), &a);
    void * base;
    size_t size;
    pthread_attr_getstack(&a, &base, &size);
    pthread_attr_destroy(&a);
    t->lo = (uintptr_t)base;
    t->hi = t->lo + size + 65536;           // thread-local storage sits above the stack
    sem_wait(&t->sem);
    --inside;
    t->body();
    ++inside;
    t->state = DONE;
    Th * n = pick(true);
    if (n) hand(n);
    else {
        for (Th * o : *ths) if (o->state != DONE) give_up();
        parallel = false;
        sem_post(&finished);
    }
    return NULL;
}
}  // namespace

namespace race {
bool run(const std::vector<std::function<void()>> & bodies, const Schedule & s) {
    ths = new std::vector<Th *>();
    recs = new std::vector<Rec>();
    gens = new std::unordered_map<uintptr_t, uint32_t>();
    owners = new std::unordered_map<uintptr_t, uint8_t>();
    locks = new std::map<const void *, Lock>();
    guards = new std::map<const void *, int>();
    sizes = new std::unordered_map<void *, size_t>();
    sched = s;
    hpos = 0;
    rnd = s.seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    for (int i = 0; i < 5; ++i) draw(2);
    sem_init(&finished, 0, 0);
    for (size_t i = 0; i < bodies.size(); ++i) {
        Th * t = new Th();
        t->id = i + 1;
        t->state = READY;
        t->epoch = 0;
        t->body = bodies[i];
        sem_init(&t->sem, 0, 0);
        ths->push_back(t);
    }
    for (Th * t : *ths) if (pthread_create(&t->p, NULL, start, t)) abort();
    parallel = true;
    Th * first = sched.kind == "hist" && !sched.hist.empty() ? (*ths)[(sched.hist[0] - 1) % ths->size()]
                                                             : (*ths)[draw(ths->size())];
    current = first->id;
    sem_post(&first->sem);
    sem_wait(&finished);
    parallel = false;
    if (!stuck) for (Th * t : *ths) pthread_join(t->p, NULL);
    return !stuck;
}

std::string report(long & accesses, long & shared) {
    struct Byte { uint16_t rd, wr; bool plain; std::vector<uint32_t> sig; std::vector<size_t> recs; };
    // which bytes are used by two threads, one of them writing
    std::map<std::pair<uintptr_t, uint32_t>, std::vector<size_t>> by;
    for (size_t i = 0; i < recs->size(); ++i) {
        const Rec & r = (*recs)[i];
        if (r.kind <= AW) by[std::make_pair(r.at, r.gen)].push_back(i);
    }
    std::vector<uint32_t> epoch(ths->size() + 1), ep(recs->size());
    for (size_t i = 0; i < recs->size(); ++i) {
        const Rec & r = (*recs)[i];
        if (r.kind >= ACQ) ++epoch[r.tid];
        ep[i] = epoch[r.tid];
    }
    std::map<std::vector<uint32_t>, int> names;
    std::vector<std::pair<size_t, std::string>> out;
    accesses = recs->size();
    shared = 0;
    for (auto & x : by) {
        unsigned users = 0, writers = 0;
        for (size_t i : x.second) {
            users |= 1u << (*recs)[i].tid;
            if ((*recs)[i].kind == W || (*recs)[i].kind == AW) writers |= 1u << (*recs)[i].tid;
        }
        if (!writers || !(users & (users - 1))) continue;
        for (int b = 0; b < 8; ++b) {
            std::vector<uint32_t> sig;
            std::vector<size_t> rs;
            users = writers = 0;
            for (size_t i : x.second) {
                const Rec & r = (*recs)[i];
                if (!(r.mask & (1 << b))) continue;
                users |= 1u << r.tid;
                if (r.kind == W || r.kind == AW) writers |= 1u << r.tid;
                sig.push_back((uint32_t)r.tid << 28 | (uint32_t)r.kind << 24 | (ep[i] & 0xffffff));
                rs.push_back(i);
            }
            if (!writers || !(users & (users - 1))) continue;
            ++shared;
            if (names.count(sig)) continue;
            int id = names.size() + 1;
            names[sig] = id;
            for (size_t i : rs) {
                const Rec & r = (*recs)[i];
                out.push_back(std::make_pair(i, "{\"e\":\"" + std::string(NAMES[r.kind]) + "\",\"t\":" + std::to_string(r.tid)
                                                    + ",\"x\":\"d" + std::to_string(id) + "\"}"));
            }
        }
    }
    // synchronisation of things that only one thread uses orders nothing
    std::map<uintptr_t, unsigned> who;
    for (const Rec & r : *recs) if (r.kind >= ACQ) who[r.at] |= 1u << r.tid;
    std::map<uintptr_t, int> sid;
    for (size_t i = 0; i < recs->size(); ++i) {
        const Rec & r = (*recs)[i];
        if (r.kind < ACQ || !(who[r.at] & (who[r.at] - 1))) continue;
        if (!sid.count(r.at)) { int k = sid.size() + 1; sid[r.at] = k; }
        out.push_back(std::make_pair(i, "{\"e\":\"" + std::string(NAMES[r.kind]) + "\",\"t\":" + std::to_string(r.tid)
                                            + ",\"x\":\"s" + std::to_string(sid[r.at]) + "\"}"));
    }
    std::stable_sort(out.begin(), out.end(), [](const std::pair<size_t, std::string> & a, const std::pair<size_t, std::string> & b) {
        return a.first < b.first; });
    std::string r;
    for (auto & o : out) { r += o.second; r += "\n"; }
    return r;
}
}  // namespace race

// ---------------------------------------------------------------------------
// what the compiler calls
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void * p) { access((uintptr_t)p, n, false); } \
    void __tsan_write##n(void * p) { access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read##n(void * p) { access((uintptr_t)p, n, false); } \
    void __tsan_unaligned_write##n(void * p) { access((uintptr_t)p, n, true); } \
    void __tsan_volatile_read##n(void * p) { access((uintptr_t)p, n, false); } \
    void __tsan_volatile_write##n(void * p) { access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { access((uintptr_t)p, n, false); }
void __tsan_write_range(void * p, unsigned long n) { access((uintptr_t)p, n, true); }
void __tsan_vptr_update(void ** p, void *) { access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void ** p) { access((uintptr_t)p, 8, false); }

static void atomic(const volatile void * p, size_t n, Kind k, int mo) {
    if (!live()) return;
    Inside in;
    point(true);
    uintptr_t a = (uintptr_t)p;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
        unsigned lo = g == a >> 3 ? a & 7 : 0, hi = g == (a + n - 1) >> 3 ? (a + n - 1) & 7 : 7;
        record(g, k == LD ? AR : AW, (uint8_t)(((1u << (hi - lo + 1)) - 1) << lo));
    }
    bool acq = mo == 1 || mo == 2 || mo == 4 || mo == 5, rel = mo == 3 || mo == 4 || mo == 5;
    if (k == LD && acq) sync((void *)p, LD);
    if (k == ST && rel) sync((void *)p, ST);
    if (k == RMW) sync((void *)p, acq && rel ? RMW : acq ? LD : RMW);
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T * p, int mo) { atomic(p, sizeof(T), LD, mo); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##bits##_store(volatile T * p, T v, int mo) { atomic(p, sizeof(T), ST, mo); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##bits##_exchange(volatile T * p, T v, int mo) { atomic(p, sizeof(T), RMW, mo); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T * p, T v, int mo) { atomic(p, sizeof(T), RMW, mo); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T * p, T v, int mo) { atomic(p, sizeof(T), RMW, mo); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T * p, T v, int mo) { atomic(p, sizeof(T), RMW, mo); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T * p, T v, int mo) { atomic(p, sizeof(T), RMW, mo); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T * p, T v, int mo) { atomic(p, sizeof(T), RMW, mo); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T * p, T v, int mo) { atomic(p, sizeof(T), RMW, mo); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T * p, T * c, T v, int mo, int) { \
        atomic(p, sizeof(T), RMW, mo); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T * p, T * c, T v, int mo, int) { \
        atomic(p, sizeof(T), RMW, mo); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
    if (!live()) return;
    static char all;
    Inside in;
    point(true);
    sync(&all, RMW);
}
void __tsan_atomic_signal_fence(int) {}

// ---- synchronisation, memory
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_spin_lock(pthread_spinlock_t *);
int __real_pthread_spin_unlock(pthread_spinlock_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real___cxa_guard_acquire(char *);
void __real___cxa_guard_release(char *);
void __real___cxa_guard_abort(char *);
void * __real_memcpy(void *, const void *, size_t);
void * __real_memmove(void *, const void *, size_t);
void * __real_memset(void *, int, size_t);
void * __real_malloc(size_t);
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void __real_free(void *);

static int write_lock(const void * m, bool recursive, bool wait) {
    Inside in;
    point(true);
    for (;;) {
        Lock & l = (*locks)[m];
        if (l.owner == me->id && recursive) { ++l.depth; return 0; }
        if (!l.owner && l.readers.empty()) { l.owner = me->id; l.depth = 1; sync(m, ACQ); return 0; }
        if (!wait) return EBUSY;
        block(m);
    }
}
static int unlock(const void * m) {
    Inside in;
    Lock & l = (*locks)[m];
    if (l.owner == me->id) {
        if (--l.depth) return 0;
        l.owner = 0;
        sync(m, REL);
    } else if (l.readers.count(me->id)) {
        if (!--l.readers[me->id]) l.readers.erase(me->id);
        sync(m, RELR);
    } else {
        return EPERM;
    }
    wake(m);
    point(true);
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) {
    return live() ? write_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true) : __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t * m) {
    return live() ? write_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false) : __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { return live() ? unlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t * m) { return live() ? write_lock((void *)m, false, true) : __real_pthread_spin_lock(m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t * m) { return live() ? unlock((void *)m) : __real_pthread_spin_unlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t * m) { return live() ? write_lock(m, false, true) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t * m) { return live() ? unlock(m) : __real_pthread_rwlock_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t * m) {
    if (!live()) return __real_pthread_rwlock_rdlock(m);
    Inside in;
    point(true);
    for (;;) {
        Lock & l = (*locks)[m];
        if (!l.owner) { ++l.readers[me->id]; sync(m, ACQR); return 0; }
        block(m);
    }
}
int __wrap_pthread_once(pthread_once_t * o, void (*f)()) {
    if (!live()) return __real_pthread_once(o, f);
    {
        Inside in;
        point(true);
        for (;;) {
            if (*o & 2) { sync(o, ACQ); return 0; }
            int & g = (*guards)[o];
            if (!g) { g = me->id; break; }
            block(o);
        }
    }
    try { f(); } catch (...) {
        Inside in;
        (*guards)[o] = 0;
        wake(o);
        throw;
    }
    Inside in;
    *o = 2;
    sync(o, REL);
    wake(o);
    point(true);
    return 0;
}
int __wrap___cxa_guard_acquire(char * g) {
    if (!live()) return __real___cxa_guard_acquire(g);
    Inside in;
    point(true);
    for (;;) {
        if (*g) { sync(g, ACQ); return 0; }
        int & w = (*guards)[g];
        if (!w) { w = me->id; sync(g, ACQ); return 1; }
        block(g);
    }
}
void __wrap___cxa_guard_release(char * g) {
    if (!live()) return __real___cxa_guard_release(g);
    Inside in;
    *g = 1;
    (*guards)[g] = 0;
    sync(g, REL);
    wake(g);
    point(true);
}
void __wrap___cxa_guard_abort(char * g) {
    if (!live()) return __real___cxa_guard_abort(g);
    Inside in;
    (*guards)[g] = 0;
    sync(g, REL);
    wake(g);
}
void * __wrap_memcpy(void * d, const void * s, size_t n) {
    access((uintptr_t)s, n, false);
    access((uintptr_t)d, n, true);
    return __real_memcpy(d, s, n);
}
void * __wrap_memmove(void * d, const void * s, size_t n) {
    access((uintptr_t)s, n, false);
    access((uintptr_t)d, n, true);
    return __real_memmove(d, s, n);
}
void * __wrap_memset(void * d, int c, size_t n) {
    access((uintptr_t)d, n, true);
    return __real_memset(d, c, n);
}
void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); made(p, n); return p; }
void * __wrap_calloc(size_t a, size_t b) { void * p = __real_calloc(a, b); made(p, a * b); return p; }
void * __wrap_realloc(void * q, size_t n) { freed(q); void * p = __real_realloc(q, n); made(p, n); return p; }
int __wrap_posix_memalign(void ** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) made(*p, n); return r; }
void __wrap_free(void * p) { freed(p); __real_free(p); }
}  // extern "C"

void * operator new(size_t n) {
    void * p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    made(p, n);
    return p;
}
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { freed(p); __real_free(p); }
void operator delete[](void * p) noexcept { operator delete(p); }
