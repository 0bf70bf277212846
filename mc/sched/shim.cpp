// A stand-in for the OpenMP run time, and for the run time of -fsanitize=thread.
//
// The extension module is linked against this file instead of libgomp.  A parallel region gets real
// threads, but only one of them runs at any time, and which one goes on at every synchronising
// operation (taking the next loop iteration, entering a critical section, ...) is dictated by a list
// of choices set from Python.  Together with the choices that were available, that lets a driver
// enumerate every schedule.  The callbacks that -fsanitize=thread puts at every memory access feed a
// vector-clock race detector: as long as no race is reported, local computation commutes, and the
// schedules of the synchronising operations stand for all interleavings.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <pthread.h>
#include <semaphore.h>
#include <malloc.h>
#include <unistd.h>

#define API extern "C" __attribute__((visibility("default")))
typedef unsigned long long ull;

namespace {

const int MAXT = 8;
enum Op { RUN, START, GRAB, LOCK, BARRIER, DONE, SINGLE, ACCESS };

struct LoopState { ull next, end, step; bool up; ull chunk; };
struct Lock { bool held; uint32_t vc[MAXT]; Lock() : held(false) { memset(vc, 0, sizeof vc); } };

struct Th {
    int id;
    pthread_t pt;
    sem_t sem;
    bool made;
    Op op;
    void* obj;          // the lock waited for
    void* site;
    int nloop, nsingle;
    int loop;           // current loop
    char* base;         // where the stack of the region starts
    uint32_t vc[MAXT];
    std::vector<void*> sites;
};

Th threads[MAXT];
int nthreads_var = 1;       // omp_set_num_threads
int team = 1;               // threads of the current region
bool in_region = false;
void (*region_fn)(void*);
void* region_data;
__thread Th* self = 0;      // set while running in a region of more than one thread
__thread int quiet = 0;       // inside this file (which is subject to --wrap itself)
struct Quiet { Quiet() { ++quiet; } ~Quiet() { --quiet; } };
__thread int nested = 0;    // > 0 in a region run by one thread

std::vector<LoopState>* loops;
std::vector<char>* singles;
std::map<void*, Lock>* locks;
std::set<void*>* writers;   // critical sections (call sites) whose body wrote something
std::vector<LoopState>* serial_loops;

// the schedule
std::vector<int>* prefix;
std::vector<int>* nopt;
std::vector<int>* chosen;
std::vector<int>* regions;  // sizes of the regions
std::vector<int>* ran;      // bit mask per region: threads that did some work in a loop
int preempt_bound = -1, preempts = 0;
bool newsite = false;       // a site turned out to write after it had been taken as not writing
long naccess = 0, nops = 0;
std::vector<std::string>* races;
std::set<void*>* racy;      // instructions involved in races
std::set<void*>* points;    // instructions to be taken as synchronising operations
long npoints = 0;

void init()
{
    if (loops) return;
    loops = new std::vector<LoopState>(); singles = new std::vector<char>();
    locks = new std::map<void*, Lock>(); writers = new std::set<void*>();
    serial_loops = new std::vector<LoopState>();
    prefix = new std::vector<int>(); nopt = new std::vector<int>(); chosen = new std::vector<int>();
    regions = new std::vector<int>(); ran = new std::vector<int>(); races = new std::vector<std::string>();
    racy = new std::set<void*>(); points = new std::set<void*>();
}

// ---------------------------------------------------------------- race detector
struct Word {
    uintptr_t key;
    uint32_t rclk[MAXT], wclk[MAXT];
    uint8_t rmask[MAXT], wmask[MAXT];
    void *rpc[MAXT], *wpc[MAXT];
};
Word* table = 0;
size_t tsize = 0, tused = 0;
std::vector<uint32_t>* used_slots = 0;

void table_reset()
{
    if (!table) {
        tsize = 1 << 14; table = (Word*)calloc(tsize, sizeof(Word));
        used_slots = new std::vector<uint32_t>();
    }
    for (uint32_t s : *used_slots) memset(&table[s], 0, sizeof(Word));
    used_slots->clear();
    tused = 0;
}

Word* lookup(uintptr_t key, bool make)
{
    size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20;
    while (true) {
        h &= tsize-1;
        Word& w = table[h];
        if (w.key == key) return &w;
        if (w.key == 0) {
            if (!make) return 0;
            if (tused * 2 > tsize) {
                Word* old = table; size_t osize = tsize;
                tsize *= 2; table = (Word*)calloc(tsize, sizeof(Word)); used_slots->clear(); tused = 0;
                for (size_t i=0; i<osize; ++i) if (old[i].key) *lookup(old[i].key, true) = old[i];
                free(old);
                return lookup(key, true);
            }
            w.key = key; ++tused; used_slots->push_back(h);
            return &w;
        }
        ++h;
    }
}

void report(void* opc, int other, bool owrite, bool write, void* pc)
{
    racy->insert(opc); racy->insert(pc);
    if (races->size() >= 20) return;
    char buf[200];
    snprintf(buf, sizeof buf, "%s of thread %d and %s of thread %d at the same address are not ordered",
             owrite ? "write" : "read", other, write ? "write" : "read", self->id);
    races->push_back(buf);
}

void access1(uintptr_t word, uint8_t mask, bool write, void* pc)
{
    Word* w = lookup(word, true);
    int me = self->id;
    for (int t=0; t<team; ++t) {
        if (t == me) continue;
        if ((w->wmask[t] & mask) && w->wclk[t] > self->vc[t]) report(w->wpc[t], t, true, write, pc);
        else if (write && (w->rmask[t] & mask) && w->rclk[t] > self->vc[t]) report(w->rpc[t], t, false, write, pc);
    }
    uint32_t c = self->vc[me];
    if (write) {
        if (w->wclk[me] != c) { w->wclk[me] = c; w->wmask[me] = 0; }
        w->wmask[me] |= mask; w->wpc[me] = pc;
    } else {
        if (w->rclk[me] != c) { w->rclk[me] = c; w->rmask[me] = 0; }
        w->rmask[me] |= mask; w->rpc[me] = pc;
    }
}

void sync(Op op, void* obj = 0, void* site = 0);

inline void access(const void* p, size_t n, bool write, void* pc)
{
    if (!self || n == 0 || quiet) return;
    Quiet q;
    ++naccess;
    if (!points->empty() && points->count(pc)) { ++npoints; sync(ACCESS); }
    if (write && !self->sites.empty()) {
        // (variables of its own do not count)
        char here;
        bool own = (char*)p >= &here && (char*)p < self->base;
        if (!own && writers->insert(self->sites.back()).second) newsite = true;
    }
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uintptr_t w = a >> 3, next = (w+1) << 3;
        uintptr_t stop = next < e ? next : e;
        uint8_t mask = (uint8_t)(((1u << (stop - a)) - 1) << (a & 7));
        access1(w, mask, write, pc);
        a = stop;
    }
}

void forget(const void* p, size_t n)
{
    if (!self || !p || quiet) return;
    Quiet q;
    uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
    for (; a<e; ++a) {
        Word* w = lookup(a, false);
        if (w) { uintptr_t k = w->key; memset(w, 0, sizeof(Word)); w->key = k; }
    }
}

void join(uint32_t* a, const uint32_t* b) { for (int i=0; i<MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }

// ---------------------------------------------------------------- scheduler
bool left(int k) { LoopState& s = (*loops)[k]; return s.up ? s.next < s.end : s.next > s.end; }

// Can the operation the thread is waiting with be executed now?
bool enabled(Th& t)
{
    switch (t.op) {
      case START: case GRAB: case SINGLE: case ACCESS: return true;
      case LOCK: return !(*locks)[t.obj].held;
      default: return false;
    }
}

// Does its place among the operations of other threads matter?
bool visible(Th& t)
{
    switch (t.op) {
      case GRAB: return left(t.loop);
      case LOCK: return writers->count(t.site) > 0;
      case SINGLE: return !(*singles)[t.nsingle-1];
      case ACCESS: return true;
      default: return false;
    }
}

void die(const char* what)
{
    char buf[300];
    int n = snprintf(buf, sizeof buf, "mc-shim: %s\n", what);
    ssize_t r = write(2, buf, n); (void)r;
    _exit(97);
}

// Decide who goes on.  Called by the thread that just reached a synchronising operation.
int pick(int me)
{
    ++nops;
    while (true) {
        bool all = true, anydone = false;
        for (int i=0; i<team; ++i) {
            if (threads[i].op != BARRIER) all = false;
            if (threads[i].op == DONE) anydone = true;
        }
        if (all) {
            uint32_t vc[MAXT] = {0};
            for (int i=0; i<team; ++i) join(vc, threads[i].vc);
            for (int i=0; i<team; ++i) { memcpy(threads[i].vc, vc, sizeof vc); ++threads[i].vc[i]; threads[i].op = START; }
            continue;
        }
        // what needs no decision goes first
        if (me >= 0 && enabled(threads[me]) && !visible(threads[me])) return me;
        for (int i=0; i<team; ++i) if (enabled(threads[i]) && !visible(threads[i])) return i;
        int opts[MAXT], n = 0;
        bool cur = me >= 0 && enabled(threads[me]);
        if (cur) opts[n++] = me;
        if (!(cur && preempt_bound >= 0 && preempts >= preempt_bound))
            for (int i=0; i<team; ++i) if (i != me && enabled(threads[i])) opts[n++] = i;
        if (n == 0) {
            bool done = true;
            for (int i=0; i<team; ++i) if (threads[i].op != DONE) done = false;
            if (done) return 0;
            (void)anydone;
            die("deadlock: no thread can go on");
        }
        int c = 0;
        if (n > 1) {
            size_t d = chosen->size();
            if (d < prefix->size()) c = (*prefix)[d];
            if (c >= n && newsite) c = 0;     // this execution does not count
            if (c >= n) die("the schedule cannot be followed: the program is not deterministic");
            nopt->push_back(n); chosen->push_back(c);
            if (cur && c != 0) ++preempts;
        }
        return opts[c];
    }
}

void sync(Op op, void* obj, void* site)
{
    Quiet q;
    Th* t = self;
    t->op = op; t->obj = obj; t->site = site;
    int next = pick(t->id);
    if (next != t->id) {
        sem_post(&threads[next].sem);
        while (sem_wait(&t->sem) != 0) {}
    }
    t->op = RUN;
}

void finish()
{
    // The thread is done with the region; hand over without coming back (thread 0 waits for the end).
    Quiet q;
    Th* t = self;
    t->op = DONE;
    bool done = true;
    for (int i=0; i<team; ++i) if (threads[i].op != DONE) done = false;
    int next = done ? 0 : pick(-1);
    if (t->id == 0) {
        if (!done) { sem_post(&threads[next].sem); while (sem_wait(&t->sem) != 0) {} }
    } else {
        sem_post(&threads[next].sem);
    }
}

void* thread_main(void* arg)
{
    Th* t = (Th*)arg;
    char base;
    t->base = &base;
    while (true) {
        while (sem_wait(&t->sem) != 0) {}
        self = t;
        t->op = RUN;
        region_fn(region_data);
        // self stays set until the hand-over is complete; only one thread runs at a time
        ++quiet;
        t->op = DONE;
        bool done = true;
        for (int i=0; i<team; ++i) if (threads[i].op != DONE) done = false;
        int next = done ? 0 : pick(-1);
        --quiet;
        self = 0;
        sem_post(&threads[next].sem);
    }
    return 0;
}

void run_region(void (*fn)(void*), void* data, unsigned n)
{
    init();
    if (n == 0) n = nthreads_var;
    if (n > (unsigned)MAXT) n = MAXT;
    if (self || nested || n == 1) {
        Th* save = self;
        if (!save) { regions->push_back(1); ran->push_back(1); }
        // a region inside another one, or of one thread
        self = 0; ++nested;
        std::vector<LoopState> sl; sl.swap(*serial_loops);
        fn(data);
        sl.swap(*serial_loops);
        --nested; self = save;
        return;
    }
    regions->push_back(n); ran->push_back(0);
    team = n; in_region = true;
    region_fn = fn; region_data = data;
    loops->clear(); singles->clear(); locks->clear();
    table_reset();
    for (int i=0; i<team; ++i) {
        Th& t = threads[i];
        t.id = i; t.op = START; t.obj = 0; t.site = 0; t.nloop = t.nsingle = 0; t.loop = -1; t.sites.clear();
        memset(t.vc, 0, sizeof t.vc);
        t.vc[i] = 1;
        if (!t.made) {
            sem_init(&t.sem, 0, 0);
            t.made = true;
            if (i > 0) {
                pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
                if (pthread_create(&t.pt, &at, thread_main, &t) != 0) die("cannot create a thread");
            }
        }
    }
    char base;
    self = &threads[0];
    self->op = RUN;
    self->base = &base;
    fn(data);
    finish();
    self = 0;
    in_region = false;
    team = 1;
}

bool grab(ull* a, ull* b)
{
    Th* t = self;
    if (!t) {
        LoopState& s = serial_loops->back();
        if (s.up ? s.next >= s.end : s.next <= s.end) return false;
        *a = s.next; *b = s.end; s.next = s.end;
        return true;
    }
    sync(GRAB);
    if (!left(t->loop)) return false;
    LoopState& s = (*loops)[t->loop];
    ull n = s.chunk * s.step;
    ull stop = s.next + n;
    if (s.up ? stop > s.end : (long long)stop < (long long)s.end) stop = s.end;
    *a = s.next; *b = stop; s.next = stop;
    ran->back() |= 1 << t->id;
    return true;
}

bool loop_start(bool up, ull start, ull end, ull incr, ull chunk, ull* a, ull* b)
{
    Quiet qq;
    LoopState s; s.next = start; s.end = end; s.step = incr; s.up = up; s.chunk = chunk ? chunk : 1;
    Th* t = self;
    if (!t) { init(); serial_loops->push_back(s); return grab(a, b); }
    t->loop = t->nloop++;
    if (t->loop == (int)loops->size()) loops->push_back(s);
    return grab(a, b);
}

void loop_end(bool wait)
{
    if (!self) { if (!serial_loops->empty()) serial_loops->pop_back(); return; }
    if (wait) sync(BARRIER);
}

void lock(void* obj, void* site)
{
    Th* t = self;
    if (!t) return;
    Quiet q;
    sync(LOCK, obj, site);
    Lock& l = (*locks)[obj];
    l.held = true;
    join(t->vc, l.vc);
    t->sites.push_back(site);
}

void unlock(void* obj)
{
    Th* t = self;
    if (!t) return;
    Quiet q;
    Lock& l = (*locks)[obj];
    l.held = false;
    join(l.vc, t->vc);
    ++t->vc[t->id];
    if (!t->sites.empty()) t->sites.pop_back();
}

char crit_obj, atomic_obj;

void atomic_sync(const void* p)
{
    Th* t = self;
    if (!t) return;
    Quiet q;
    Lock& l = (*locks)[(void*)p];
    join(t->vc, l.vc);
    join(l.vc, t->vc);
    ++t->vc[t->id];
}

} // namespace

// ---------------------------------------------------------------- control, called from Python
API void mc_begin(const int* pre, int n, int bound)
{
    init();
    prefix->assign(pre, pre+n); nopt->clear(); chosen->clear(); regions->clear(); ran->clear(); races->clear();
    preempt_bound = bound; preempts = 0; newsite = false; naccess = nops = npoints = 0; racy->clear();
}
API int mc_depth() { return chosen->size(); }
API void mc_trace(int* n, int* c) { for (size_t i=0; i<chosen->size(); ++i) { n[i] = (*nopt)[i]; c[i] = (*chosen)[i]; } }
API int mc_newsite() { return newsite; }
API int mc_nregions() { return regions->size(); }
API void mc_regions(int* r, int* m) { for (size_t i=0; i<regions->size(); ++i) { r[i] = (*regions)[i]; m[i] = (*ran)[i]; } }
API int mc_nraces() { return races->size(); }
API const char* mc_race(int i) { return (*races)[i].c_str(); }
API long mc_naccess() { return naccess; }
API int mc_nracy() { return racy->size(); }
API void mc_racy(void** p) { for (void* x : *racy) *p++ = x; }
API void mc_points(void** p, int n) { init(); points->clear(); points->insert(p, p+n); }
API long mc_nops() { return nops; }

// ---------------------------------------------------------------- libgomp
API void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_region(fn, data, n); }
API void GOMP_barrier() { if (self) sync(BARRIER); }
API bool GOMP_cancel(int, bool) { return false; }
API void GOMP_critical_start() { lock(&crit_obj, __builtin_return_address(0)); }
API void GOMP_critical_end() { unlock(&crit_obj); }
API void GOMP_critical_name_start(void** p) { lock(p, __builtin_return_address(0)); }
API void GOMP_critical_name_end(void** p) { unlock(p); }
API void GOMP_atomic_start() { lock(&atomic_obj, __builtin_return_address(0)); }
API void GOMP_atomic_end() { unlock(&atomic_obj); }
API bool GOMP_single_start()
{
    Th* t = self;
    if (!t) return true;
    Quiet q;
    int k = t->nsingle++;
    if (k == (int)singles->size()) singles->push_back(0);
    sync(SINGLE);
    bool r = !(*singles)[k];
    (*singles)[k] = 1;
    return r;
}
static bool lstart(long a, long b, long incr, long chunk, long* i, long* e)
{ return loop_start(incr > 0, a, b, incr, chunk, (ull*)i, (ull*)e); }
static bool lnext(long* i, long* e) { return grab((ull*)i, (ull*)e); }
#define LOOP(kind) \
API bool GOMP_loop_##kind##_start(long a, long b, long incr, long chunk, long* i, long* e) { return lstart(a, b, incr, chunk, i, e); } \
API bool GOMP_loop_##kind##_next(long* i, long* e) { return lnext(i, e); } \
API bool GOMP_loop_ull_##kind##_start(bool up, ull a, ull b, ull incr, ull chunk, ull* i, ull* e) { return loop_start(up, a, b, incr, chunk, i, e); } \
API bool GOMP_loop_ull_##kind##_next(ull* i, ull* e) { return grab(i, e); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(kind) \
API bool GOMP_loop_##kind##_start(long a, long b, long incr, long* i, long* e) { return lstart(a, b, incr, 1, i, e); } \
API bool GOMP_loop_##kind##_next(long* i, long* e) { return lnext(i, e); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
API void GOMP_loop_end() { loop_end(true); }
API void GOMP_loop_end_nowait() { loop_end(false); }
namespace {
struct PL { void (*fn)(void*); void* data; long a, b, incr, chunk; };
void pl_main(void* p)
{
    // combined construct: every thread starts with the loop already set up
    PL* q = (PL*)p;
    ++quiet;
    LoopState s; s.next = q->a; s.end = q->b; s.step = q->incr; s.up = q->incr > 0; s.chunk = q->chunk ? q->chunk : 1;
    Th* t = self;
    if (!t) { serial_loops->push_back(s); }
    else { t->loop = t->nloop++; if (t->loop == (int)loops->size()) loops->push_back(s); }
    --quiet;
    q->fn(q->data);
}
void ploop(void (*fn)(void*), void* data, unsigned n, long a, long b, long incr, long chunk)
{ PL q = {fn, data, a, b, incr, chunk}; run_region(pl_main, &q, n); }
}
#define PLOOP(kind) API void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long a, long b, long incr, long chunk, unsigned) \
{ ploop(fn, data, n, a, b, incr, chunk); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(kind) API void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long a, long b, long incr, unsigned) \
{ ploop(fn, data, n, a, b, incr, 1); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
API unsigned GOMP_sections_start(unsigned count) { ull i, e; return loop_start(true, 1, count+1, 1, 1, &i, &e) ? (unsigned)i : 0; }
API unsigned GOMP_sections_next() { ull i, e; return grab(&i, &e) ? (unsigned)i : 0; }
API void GOMP_sections_end() { loop_end(true); }
API void GOMP_sections_end_nowait() { loop_end(false); }
API void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{ ploop(fn, data, n, 1, count+1, 1, 1); }
API void GOMP_ordered_start() {}
API void GOMP_ordered_end() {}
API void GOMP_taskwait() {}
API int omp_get_thread_num() { return self ? self->id : 0; }
API int omp_get_num_threads() { return self ? team : 1; }
API int omp_get_max_threads() { return nthreads_var; }
API void omp_set_num_threads(int n) { nthreads_var = n < 1 ? 1 : n > MAXT ? MAXT : n; }
API int omp_get_num_procs() { return 4; }
API int omp_in_parallel() { return self != 0; }
API void omp_set_dynamic(int) {}
API int omp_get_dynamic() { return 0; }
API void omp_set_nested(int) {}
API int omp_get_thread_limit() { return MAXT; }
API double omp_get_wtime() { return 0.; }
API void omp_init_lock(void*) {}
API void omp_destroy_lock(void*) {}
API void omp_set_lock(void* p) { lock(p, __builtin_return_address(0)); }
API void omp_unset_lock(void* p) { unlock(p); }

// ---------------------------------------------------------------- -fsanitize=thread
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
#define RW(n) \
void __tsan_read##n(void* p) { access(p, n, false, PC); } \
void __tsan_write##n(void* p) { access(p, n, true, PC); } \
void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define ATOMIC(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { atomic_sync((void*)a); return *a; } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomic_sync((void*)a); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomic_sync((void*)a); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomic_sync((void*)a); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomic_sync((void*)a); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomic_sync((void*)a); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomic_sync((void*)a); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomic_sync((void*)a); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomic_sync((void*)a); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) \
{ atomic_sync((void*)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) \
{ atomic_sync((void*)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) \
{ atomic_sync((void*)a); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory: fresh blocks carry no history
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __real__Znwm(size_t); void* __real__Znam(size_t);
void __real__ZdlPv(void*); void __real__ZdaPv(void*); void __real__ZdlPvm(void*, size_t); void __real__ZdaPvm(void*, size_t);
static void gone(void* p, void* pc) { if (self && p) { size_t n = malloc_usable_size(p); access(p, n, true, pc); forget(p, n); } }
static void* fresh(void* p) { if (self && p) forget(p, malloc_usable_size(p)); return p; }
void* __wrap_malloc(size_t n) { return fresh(__real_malloc(n)); }
void* __wrap_calloc(size_t a, size_t b) { return fresh(__real_calloc(a, b)); }
void* __wrap_realloc(void* p, size_t n) { gone(p, PC); return fresh(__real_realloc(p, n)); }
void __wrap_free(void* p) { gone(p, PC); __real_free(p); }
void* __wrap__Znwm(size_t n) { return fresh(__real__Znwm(n)); }
void* __wrap__Znam(size_t n) { return fresh(__real__Znam(n)); }
void __wrap__ZdlPv(void* p) { gone(p, PC); __real__ZdlPv(p); }
void __wrap__ZdaPv(void* p) { gone(p, PC); __real__ZdaPv(p); }
void __wrap__ZdlPvm(void* p, size_t n) { gone(p, PC); __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void* p, size_t n) { gone(p, PC); __real__ZdaPvm(p, n); }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
// what srand and rand share is one hidden state, which glibc guards with a lock
int __real___cxa_guard_acquire(int64_t*); void __real___cxa_guard_release(int64_t*);
int __wrap___cxa_guard_acquire(int64_t* g) { int r = __real___cxa_guard_acquire(g); atomic_sync(g); return r; }
void __wrap___cxa_guard_release(int64_t* g) { atomic_sync(g); __real___cxa_guard_release(g); }
}
