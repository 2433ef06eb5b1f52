// The seam: allocator, stdio sources and thread scheduling under the simulator's control.
// The library's own code, glibc's getline/stdio and libstdc++ run for real on top of it.
#include "core.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <stdexcept>
#include <sys/types.h>

// This file is compiled without sanitizers (it runs before their start-up), SIM_ASAN tells whether the rest has them.
extern "C" {
#ifdef SIM_ASAN
void* __interceptor_malloc(size_t);
void* __interceptor_realloc(void*, size_t);
void* __interceptor_calloc(size_t, size_t);
void __interceptor_free(void*);
#define RAW_MALLOC __interceptor_malloc
#define RAW_REALLOC __interceptor_realloc
#define RAW_CALLOC __interceptor_calloc
#define RAW_FREE __interceptor_free
#else
void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
void __libc_free(void*);
#define RAW_MALLOC __libc_malloc
#define RAW_REALLOC __libc_realloc
#define RAW_CALLOC __libc_calloc
#define RAW_FREE __libc_free
#endif
}

namespace sim {

static thread_local TaskCtx* tl_ctx = nullptr;
static thread_local bool tl_in_lib = false;
TaskCtx*& ctx() { return tl_ctx; }
bool& in_lib() { return tl_in_lib; }

////////////////
// live allocation table (open addressing, backward shift deletion)
////////////////
enum AllocKind : uint8_t { K_MALLOC, K_NEW };
struct Live { void* p; size_t size; TaskCtx* c; uint32_t seq; uint8_t kind; };
static constexpr size_t CAP = 1 << 16;
static Live table[CAP];
static size_t live_n = 0;
static uint32_t live_seq = 0;
static std::atomic_flag lock_ = ATOMIC_FLAG_INIT;
struct Lock {
    Lock() { while (lock_.test_and_set(std::memory_order_acquire)) {} }
    ~Lock() { lock_.clear(std::memory_order_release); }
};
static size_t slot(void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 48; }

static void live_add(void* p, size_t n, uint8_t kind) {
    Lock l;
    if (live_n > CAP / 2) std::abort();
    size_t i = slot(p);
    while (table[i].p) i = (i + 1) & (CAP - 1);
    table[i] = {p, n, tl_ctx, ++live_seq, kind};
    ++live_n;
    if (tl_ctx) {
        tl_ctx->live += n;
        tl_ctx->peak = std::max(tl_ctx->peak, tl_ctx->live);
    }
}

static bool live_del(void* p, Live& out) {
    if (live_n == 0) return false;
    Lock l;
    size_t i = slot(p);
    while (table[i].p && table[i].p != p) i = (i + 1) & (CAP - 1);
    if (!table[i].p) return false;
    out = table[i];
    if (out.c) out.c->live -= out.size;
    --live_n;
    size_t j = i;
    while (true) {
        table[i].p = nullptr;
        while (true) {
            j = (j + 1) & (CAP - 1);
            if (!table[j].p) return true;
            size_t k = slot(table[j].p);
            // can table[j] stay?
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        table[i] = table[j];
        i = j;
    }
}

size_t lib_live_count() { return live_n; }
std::string lib_live_desc() {
    std::string r;
    size_t n = 0, bytes = 0;
    for (auto& t : table) {
        if (t.p) {
            ++n;
            bytes += t.size;
        }
    }
    r = std::to_string(n) + " allocations, " + std::to_string(bytes) + " bytes";
    return r;
}

static thread_local int tl_static_init = 0; // what a static object is made of is nobody's: not counted, does not fail
static bool alloc_fails() {
    TaskCtx* c = tl_ctx;
    if (!tl_in_lib || !c) return false;
    UserScope off;
    ++c->allocs;
    ++c->total_allocs;
    if (g_sched_on) yield_point(Y_ALLOC);
    if (c->faults) {
        for (const auto& f : *c->faults) {
            if (f.k == F_ALLOC && f.at == c->op && c->allocs >= f.nth && (f.n == 0 || c->allocs < f.nth + f.n)) {
                ++c->alloc_fired;
                ++c->op_alloc_fired;
                errno = ENOMEM;
                return true;
            }
        }
    }
    return false;
}

static void bad_free(const char* what) {
    if (tl_in_lib && tl_ctx && tl_ctx->violation.empty()) {
        UserScope off;
        tl_ctx->violation = what;
    }
}

static void* do_malloc(size_t n, uint8_t kind) {
    if (!tl_in_lib || tl_static_init) return RAW_MALLOC(n);
    if (alloc_fails()) return nullptr;
    void* p = RAW_MALLOC(n);
    if (p) live_add(p, n, kind);
    return p;
}
static void do_free(void* p, uint8_t kind) {
    if (!p) return;
    Live l;
    if (live_del(p, l)) {
        if (l.kind != kind) bad_free("memory released with the wrong function (new/delete against malloc/free)");
    }
    RAW_FREE(p);
}

} // namespace sim

extern "C" {
void* malloc(size_t n) { return sim::do_malloc(n, sim::K_MALLOC); }
void free(void* p) { sim::do_free(p, sim::K_MALLOC); }
void* calloc(size_t a, size_t b) {
    if (!sim::tl_in_lib || sim::tl_static_init) return RAW_CALLOC(a, b);
    if (sim::alloc_fails()) return nullptr;
    void* p = RAW_CALLOC(a, b);
    if (p) sim::live_add(p, a * b, sim::K_MALLOC);
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (sim::tl_in_lib && !sim::tl_static_init && sim::alloc_fails()) return nullptr;
    sim::Live l{};
    bool was = sim::live_del(p, l);
    if (was && l.kind != sim::K_MALLOC) sim::bad_free("realloc of memory from new");
    void* q = RAW_REALLOC(p, n);
    if (q) {
        if (was || (sim::tl_in_lib && !sim::tl_static_init)) {
            sim::TaskCtx* c = sim::tl_ctx;
            if (was) sim::tl_ctx = l.c;
            sim::live_add(q, n, sim::K_MALLOC);
            sim::tl_ctx = c;
        }
    } else if (was && n != 0) {
        sim::live_add(p, l.size, sim::K_MALLOC);
    }
    return q;
}
}

void* operator new(size_t n) {
    void* p = sim::do_malloc(n ? n : 1, sim::K_NEW);
    if (!p) throw std::bad_alloc{};
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::do_malloc(n ? n : 1, sim::K_NEW); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::do_malloc(n ? n : 1, sim::K_NEW); }
void operator delete(void* p) noexcept { sim::do_free(p, sim::K_NEW); }
void operator delete[](void* p) noexcept { sim::do_free(p, sim::K_NEW); }
void operator delete(void* p, size_t) noexcept { sim::do_free(p, sim::K_NEW); }
void operator delete[](void* p, size_t) noexcept { sim::do_free(p, sim::K_NEW); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_free(p, sim::K_NEW); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_free(p, sim::K_NEW); }

////////////////
// files
////////////////
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" int __real_fclose(FILE*);

namespace sim {
struct OpenFile { FILE* f; std::shared_ptr<Source> s; };
static std::vector<OpenFile> open_files;
uint64_t g_sim_ms = 0;

static ssize_t src_read(void* cookie, char* buf, size_t n) {
    UserScope off;
    auto* s = static_cast<Source*>(cookie);
    int idx = s->reads++;
    for (const auto& f : s->faults) {
        if (f.k == F_STALL && f.at == idx) {
            ++s->stalls;
            s->stalled_ms += f.n;
            if (!g_sched_on) g_sim_ms += f.n;
            else yield_point(Y_READ, f.n);
        }
    }
    if (g_sched_on) yield_point(Y_READ);
    size_t want = n;
    if (!s->chunks.empty()) want = std::min<size_t>(want, std::max(1, s->chunks[idx % s->chunks.size()]));
    for (auto& f : s->faults) {
        if (f.k != F_READ_ERR) continue;
        size_t at = std::min<size_t>(f.at, s->data.size());
        if (s->off == at && (f.n == 0 || f.nth < f.n)) {
            ++f.nth; // fired
            ++s->read_faults;
            errno = f.err;
            return -1;
        }
        if (at > s->off && (f.n == 0 || f.nth < f.n)) want = std::min(want, at - s->off);
    }
    want = std::min(want, s->data.size() - s->off);
    std::memcpy(buf, s->data.data() + s->off, want);
    s->off += want;
    s->high = std::max(s->high, s->off);
    return static_cast<ssize_t>(want);
}
static int src_close(void*) { return 0; }
static int src_seek(void* cookie, off64_t* off, int whence) {
    UserScope u;
    auto* s = static_cast<Source*>(cookie);
    off64_t to = *off + (whence == SEEK_CUR ? static_cast<off64_t>(s->off) : whence == SEEK_END ? static_cast<off64_t>(s->data.size()) : 0);
    if (to < 0) return -1;
    s->off = std::min<size_t>(static_cast<size_t>(to), s->data.size());
    *off = to;
    return 0;
}

static FILE* sim_open(const char* path) {
    UserScope off;
    if (g_sched_on) yield_point(Y_READ);
    for (auto& [name, s] : ctx()->fs) {
        if (name != path) continue;
        for (const auto& f : s->faults) {
            if (f.k == F_OPEN_ERR) {
                ++s->open_faults;
                errno = f.err;
                return nullptr;
            }
        }
        cookie_io_functions_t io{src_read, nullptr, s->seek ? src_seek : nullptr, src_close};
        FILE* f = fopencookie(s.get(), "rb", io);
        if (!f) std::abort();
        s->off = 0;
        s->high = 0;
        s->reads = 0;
        ++s->opens;
        if (s->vbuf > 0) {
            s->buf.assign(s->vbuf, 0);
            std::setvbuf(f, s->buf.data(), _IOFBF, s->buf.size());
        }
        open_files.push_back({f, s});
        return f;
    }
    errno = ENOENT;
    return nullptr;
}

static int sim_close(FILE* f) {
    UserScope off;
    for (size_t i = 0; i < open_files.size(); ++i) {
        if (open_files[i].f != f) continue;
        auto s = open_files[i].s;
        open_files.erase(open_files.begin() + i);
        ++s->closes;
        __real_fclose(f);
        for (const auto& q : s->faults) {
            if (q.k == F_CLOSE_ERR) {
                ++s->close_faults;
                errno = q.err;
                return EOF;
            }
        }
        return 0;
    }
    if (ctx() && ctx()->violation.empty()) ctx()->violation = "fclose of a file that is not open";
    return 0;
}

void seam_reset() {
    // whatever a failed run left behind
    for (auto& o : open_files) {
        __real_fclose(o.f);
    }
    open_files.clear();
    Lock l;
    std::memset(static_cast<void*>(table), 0, live_n ? sizeof(table) : 0);
    live_n = 0;
    live_seq = 0;
    errno = 0;
    g_sim_ms = 0;
}

void op_begin(TaskCtx& c, int op) {
    c.op = op;
    c.allocs = c.users = 0;
    c.op_alloc_fired = c.op_user_fired = 0;
    errno = 0;
    if (c.faults) {
        for (const auto& f : *c.faults) {
            if (f.k == F_ERRNO && f.at == op) {
                errno = f.err;
                ++c.errno_fired;
            }
        }
    }
}

void user_point(const char*) {
    TaskCtx* c = tl_ctx;
    if (!c || c->op < -1) return;
    int kind = -1;
    bool nest = false;
    {
        UserScope off;
        ++c->users;
        if (g_sched_on) yield_point(Y_USER);
        if (c->faults) {
            for (const auto& f : *c->faults) {
                if (f.at != c->op || f.nth != c->users) continue;
                if (f.k == F_USER) kind = f.err;
                if (f.k == F_NEST) nest = true;
            }
        }
        if (nest && c->nest) {
            ++c->nest_fired;
            int e = errno;
            (void)e; // user code may leave anything in errno
            c->nest(*c);
        }
    }
    if (kind >= 0) {
        UserScope off;
        ++c->user_fired;
        ++c->op_user_fired;
        switch (kind % 5) {
        case 0: throw UserBoom{c->op};
        case 1: throw std::runtime_error{"user boom"};
        case 2: throw 42;
        case 4: if (g_throw_ss) g_throw_ss(); [[fallthrough]];
        default: throw std::out_of_range{"user range"};
        }
    }
}

////////////////
// scheduler
////////////////
bool g_sched_on = false;
void (*g_throw_ss)() = nullptr;

namespace {
struct Th {
    sem_t sem;
    bool done = false;
    uint64_t wake = 0;
    // held before or after an access to static data, until another task has been at it (or there is no other task to run)
    const char* held_at = nullptr;
    int held_left = -1; // steps left once another one has been there
    const char* armed_at = nullptr; // to be held some steps after this access
    int armed_left = 0;
    void (*fn)(void*) = nullptr;
    void* arg = nullptr;
    pthread_t tid;
};
struct Sched {
    std::vector<Th*> th;
    int cur = -1;
    Rng rng{0};
    const std::vector<int>* script = nullptr;
    size_t si = 0;
    int stay_num = 1, stay_den = 2;
    SchedStats st;
    sem_t fin;
    // preemption inside the library: distance to the next one, mean distance (0: none)
    uint64_t edge_left = 0, edge_gap = 0;
    Rng edge_rng{0};
};
Sched* S = nullptr;

int pick(bool force) {
    // runnable set
    std::vector<int> run;
    auto collect = [&] {
        for (int i = 0; i < static_cast<int>(S->th.size()); ++i)
            if (!S->th[i]->done && !S->th[i]->held_at && S->th[i]->wake <= g_sim_ms) run.push_back(i);
    };
    collect();
    if (run.empty()) {
        for (auto* t : S->th) t->held_at = nullptr;
        collect();
    }
    if (run.empty()) {
        uint64_t m = UINT64_MAX;
        for (auto* t : S->th)
            if (!t->done) m = std::min(m, t->wake);
        if (m == UINT64_MAX) return -1;
        g_sim_ms = m;
        for (int i = 0; i < static_cast<int>(S->th.size()); ++i)
            if (!S->th[i]->done && S->th[i]->wake <= g_sim_ms) run.push_back(i);
    }
    uint64_t idx = S->st.points++;
    bool cur_ok = std::find(run.begin(), run.end(), S->cur) != run.end();
    int choice = cur_ok ? S->cur : run[0];
    if (S->script) {
        const auto& v = *S->script;
        while (S->si + 1 < v.size() && static_cast<uint64_t>(v[S->si]) < idx) S->si += 2;
        if (S->si + 1 < v.size() && static_cast<uint64_t>(v[S->si]) == idx) {
            if (std::find(run.begin(), run.end(), v[S->si + 1]) != run.end()) choice = v[S->si + 1];
            S->si += 2;
        }
    } else if (run.size() > 1 || force) {
        if (!cur_ok || !S->rng.chance(S->stay_num, S->stay_den)) choice = run[S->rng.below(run.size())];
    }
    int dflt = cur_ok ? S->cur : run[0];
    if (choice != dflt) {
        S->st.trace.push_back(static_cast<int>(idx));
        S->st.trace.push_back(choice);
    }
    return choice;
}

void switch_to(int next, bool wait) {
    int me = S->cur;
    if (next == me) return;
    ++S->st.switches;
    S->st.hash = (S->st.hash ^ (S->st.points * 31 + next)) * 1099511628211ull;
    S->cur = next;
    S->th[next]->held_at = nullptr;
    Th* mine = S->th[me];
    sem_post(&S->th[next]->sem);
    if (wait)
        while (sem_wait(&mine->sem) != 0) {}
}

void* tmain(void* p) {
    Th* t = static_cast<Th*>(p);
    while (sem_wait(&t->sem) != 0) {}
    t->fn(t->arg);
    t->done = true;
    int n = pick(true);
    if (n < 0) {
        sem_post(&S->fin);
    } else {
        // hand over without waiting
        ++S->st.switches;
        S->st.hash = (S->st.hash ^ (S->st.points * 31 + n)) * 1099511628211ull;
        S->cur = n;
        sem_post(&S->th[n]->sem);
    }
    return nullptr;
}
} // namespace

void yield_point(int, uint64_t ms) {
    if (!g_sched_on || !S) return;
    UserScope off;
    int e = errno;
    if (ms) S->th[S->cur]->wake = g_sim_ms + ms;
    int n = pick(false);
    if (n >= 0 && n != S->cur) switch_to(n, true);
    errno = e;
}

// the running task cannot go on before another one has
static void give_way() {
    if (!g_sched_on || !S) return;
    UserScope off;
    int e = errno;
    size_t n = S->th.size();
    for (size_t k = 1; k < n; ++k) {
        size_t i = (static_cast<size_t>(S->cur) + k) % n;
        if (S->th[i]->done) continue;
        g_sim_ms = std::max(g_sim_ms, S->th[i]->wake);
        switch_to(static_cast<int>(i), true);
        break;
    }
    errno = e;
}

// a step of instrumented code; at: the static data it touches
static void step(const char* at) {
    if (!g_sched_on || !tl_in_lib || tl_static_init || !S || S->edge_gap == 0) return;
    Th* me = S->th[S->cur];
    bool held = false;
    for (auto* t : S->th) {
        if (!t->held_at || t == me) continue;
        if (t->held_left > 0 && --t->held_left == 0) t->held_at = nullptr;
        else if (at && t->held_left < 0 && std::abs(at - t->held_at) < 256) t->held_left = 1 + static_cast<int>(S->edge_rng.below(200));
        held |= t->held_at != nullptr;
    }
    bool hold = at && !held && S->edge_rng.chance(1, 8);
    if (me->armed_left > 0 && --me->armed_left == 0 && !held && !hold) {
        hold = true;
        at = me->armed_at;
    } else if (at && S->edge_rng.chance(1, 4)) {
        me->armed_at = at;
        me->armed_left = 1 + static_cast<int>(S->edge_rng.below(S->edge_rng.chance(1, 2) ? 8 : 40));
    }
    if (hold) {
        me->held_at = at;
        me->held_left = -1;
    } else if (S->edge_left > 1 && !(at && S->edge_rng.chance(1, 3))) {
        --S->edge_left;
        return;
    }
    S->edge_left = 1 + S->edge_rng.below(2 * S->edge_gap);
    ++S->st.edges;
    yield_point(Y_EDGE);
    me->held_at = nullptr;
}

SchedStats run_tasks(const std::vector<void (*)(void*)>& fns, const std::vector<void*>& args, uint64_t seed,
                     const std::vector<int>* script) {
    Sched s;
    s.rng = Rng{seed};
    s.script = script;
    static const int st[][2] = {{0, 1}, {1, 2}, {3, 4}, {9, 10}, {29, 30}};
    int w = static_cast<int>(s.rng.below(5));
    s.stay_num = st[w][0];
    s.stay_den = st[w][1];
    static const int gaps[] = {0, 40, 400, 4000};
    s.edge_rng = Rng{seed + 1};
    s.edge_gap = gaps[s.edge_rng.below(4)];
    s.edge_left = s.edge_gap ? 1 + s.edge_rng.below(2 * s.edge_gap) : 0;
    std::vector<Th> th(fns.size());
    sem_init(&s.fin, 0, 0);
    for (size_t i = 0; i < fns.size(); ++i) {
        sem_init(&th[i].sem, 0, 0);
        th[i].fn = fns[i];
        th[i].arg = args[i];
        s.th.push_back(&th[i]);
    }
    S = &s;
    g_sched_on = true;
    uint64_t t0 = g_sim_ms;
    for (auto& t : th) {
        if (pthread_create(&t.tid, nullptr, tmain, &t) != 0) std::abort();
    }
    s.cur = 0;
    int n = pick(true);
    s.cur = n;
    sem_post(&th[n].sem);
    while (sem_wait(&s.fin) != 0) {}
    for (auto& t : th) pthread_join(t.tid, nullptr);
    g_sched_on = false;
    S = nullptr;
    for (auto& t : th) sem_destroy(&t.sem);
    sem_destroy(&s.fin);
    s.st.sim_ms = g_sim_ms - t0;
    return s.st;
}

} // namespace sim

extern "C" FILE* __wrap_fopen(const char* p, const char* m) {
    if (!sim::ctx()) return __real_fopen(p, m);
    return sim::sim_open(p);
}
extern "C" int __wrap_fclose(FILE* f) {
    if (!sim::ctx()) return __real_fclose(f);
    return sim::sim_close(f);
}

////////////////
// preemption between the basic blocks and memory accesses of the library (only where it is compiled with
// -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores)
////////////////
extern "C" {
extern char __data_start, _end;
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
void __sanitizer_cov_trace_pc_guard(uint32_t*) {
    if (sim::tl_in_lib && sim::tl_ctx) ++sim::tl_ctx->work;
    sim::step(nullptr);
}
static void touch(const void* p) {
    if (!sim::g_sched_on || p < &__data_start || p >= &_end) return;
    sim::step(static_cast<const char*>(p));
}
void __sanitizer_cov_load1(uint8_t* p) { touch(p); }
void __sanitizer_cov_load2(uint16_t* p) { touch(p); }
void __sanitizer_cov_load4(uint32_t* p) { touch(p); }
void __sanitizer_cov_load8(uint64_t* p) { touch(p); }
void __sanitizer_cov_load16(__int128* p) { touch(p); }
void __sanitizer_cov_store1(uint8_t* p) { touch(p); }
void __sanitizer_cov_store2(uint16_t* p) { touch(p); }
void __sanitizer_cov_store4(uint32_t* p) { touch(p); }
void __sanitizer_cov_store8(uint64_t* p) { touch(p); }
void __sanitizer_cov_store16(__int128* p) { touch(p); }

////////////////
// waiting for another task has to let it run
////////////////
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!sim::g_sched_on || !sim::tl_in_lib) return __real_pthread_mutex_lock(m);
    while (true) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        sim::give_way();
    }
}
// initialisation of function-local statics (Itanium C++ ABI: byte 0 is set when done; byte 1: somebody is at it)
int __wrap___cxa_guard_acquire(char* g) {
    while (true) {
        if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
        if (!g[1]) break;
        sim::give_way();
    }
    g[1] = 1;
    ++sim::tl_static_init;
    return 1;
}
void __wrap___cxa_guard_release(char* g) {
    g[1] = 0;
    __atomic_store_n(g, 1, __ATOMIC_RELEASE);
    --sim::tl_static_init;
}
void __wrap___cxa_guard_abort(char* g) {
    g[1] = 0;
    --sim::tl_static_init;
}
}
