// A small OpenMP runtime (the part gcc's generated code calls) on plain pthreads.
//
// libgomp is not instrumented, so ThreadSanitizer can neither see the happens-before edges it creates nor be kept from
// missing ones; this one is compiled with the same flags as the core.  A parallel region is fork and join, nothing else, so
// the only edges are the ones the program is entitled to.  It can also run a team one thread at a time in a chosen order
// (a thread gives up its turn only at a barrier or at its end), which makes interleavings reproducible.
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <map>
#include <vector>

#define API extern "C" __attribute__((visibility("default")))
typedef unsigned long long ull;

namespace {
    int g_default = 1;
    int g_mode = 0;               // 0 concurrent, 1 one at a time
    uint64_t g_seed = 1;
    long g_regions = 0, g_parallel = 0, g_threads = 0, g_orders = 0, g_barriers = 0, g_loops = 0;

    uint64_t next_random() {
        g_seed ^= g_seed << 13; g_seed ^= g_seed >> 7; g_seed ^= g_seed << 17;
        return g_seed;
    }

    struct Loop { bool ready; ull next, end, incr, chunk; bool down; bool guided; long left; };

    struct Team {
        int n;
        void (*fn)(void*);
        void* data;
        pthread_mutex_t m;
        pthread_cond_t c;
        int arrived, generation;
        std::map<unsigned, Loop> loops;
        std::map<unsigned, int> singles;
        // one at a time
        std::vector<int> order;
        std::vector<char> blocked, done;
        int turn;                 // thread whose turn it is, -1 if free
    };

    struct Me { Team* team; int id; unsigned loop, single; int delay; };
    __thread Me me;

    pthread_mutex_t g_atomic = PTHREAD_MUTEX_INITIALIZER, g_critical = PTHREAD_MUTEX_INITIALIZER, g_names = PTHREAD_MUTEX_INITIALIZER;

    // give the turn to the next thread that can run (team mutex held)
    void pass(Team* t) {
        for (int k : t->order)
            if (!t->blocked[k] && !t->done[k]) { t->turn = k; pthread_cond_broadcast(&t->c); return; }
        t->turn = -1;
        pthread_cond_broadcast(&t->c);
    }

    void wait_turn(Team* t, int id) { while (t->turn != id) pthread_cond_wait(&t->c, &t->m); }

    void barrier() {
        Team* t = me.team;
        if (!t || t->n == 1) return;
        pthread_mutex_lock(&t->m);
        g_barriers++;
        int gen = t->generation;
        if (++t->arrived == t->n) {
            t->arrived = 0;
            t->generation++;
            if (g_mode == 1) {
                for (auto& b : t->blocked) b = 0;
                pass(t);
            }
            pthread_cond_broadcast(&t->c);
        } else {
            if (g_mode == 1) { t->blocked[me.id] = 1; pass(t); }
            while (t->generation == gen) pthread_cond_wait(&t->c, &t->m);
        }
        if (g_mode == 1) wait_turn(t, me.id);
        pthread_mutex_unlock(&t->m);
    }

    void* body(void* p) {
        Me* mine = (Me*)p;
        me = *mine;
        Team* t = me.team;
        if (g_mode == 1) {
            pthread_mutex_lock(&t->m);
            wait_turn(t, me.id);
            pthread_mutex_unlock(&t->m);
        } else {
            for (int k = 0; k < me.delay; k++) sched_yield();
        }
        t->fn(t->data);
        if (g_mode == 1) {
            pthread_mutex_lock(&t->m);
            t->done[me.id] = 1;
            pass(t);
            pthread_mutex_unlock(&t->m);
        }
        return 0;
    }

    void run(void (*fn)(void*), void* data, unsigned num_threads, const Loop* first) {
        g_regions++;
        int n = num_threads ? (int)num_threads : g_default;
        if (me.team && me.team->n > 1) n = 1;         // nested regions are serial
        if (n > 256) n = 256;
        Team team;
        team.n = n; team.fn = fn; team.data = data;
        pthread_mutex_init(&team.m, 0);
        pthread_cond_init(&team.c, 0);
        team.arrived = team.generation = 0;
        if (first) team.loops[0] = *first;
        Me saved = me;
        if (n == 1) {
            me.team = &team; me.id = 0; me.loop = first ? 1 : 0; me.single = 0;
            fn(data);
        } else {
            g_parallel++;
            g_threads += n;
            team.order.resize(n);
            for (int k = 0; k < n; k++) team.order[k] = k;
            for (int k = n - 1; k > 0; k--) { int j = next_random() % (k + 1); int q = team.order[k]; team.order[k] = team.order[j]; team.order[j] = q; }
            for (int k = 0; k < n; k++) if (team.order[k] != k) { g_orders++; break; }
            team.blocked.assign(n, 0);
            team.done.assign(n, 0);
            team.turn = g_mode == 1 ? team.order[0] : -1;
            std::vector<Me> ms(n);
            std::vector<pthread_t> th(n);
            // the caller takes part as thread 0; the rest start in the chosen order
            for (int k = 0; k < n; k++) {
                ms[k].team = &team; ms[k].id = k; ms[k].loop = first ? 1 : 0; ms[k].single = 0;
                ms[k].delay = next_random() % 4 ? 0 : next_random() % 64;
            }
            for (int k : team.order) if (k) if (pthread_create(&th[k], 0, body, &ms[k])) abort();
            body(&ms[0]);
            me = saved;
            for (int k = 1; k < n; k++) pthread_join(th[k], 0);
        }
        me = saved;
        pthread_mutex_destroy(&team.m);
        pthread_cond_destroy(&team.c);
    }

    // hand out the next chunk; only the position is shared, without ordering anything else
    bool chunk(Loop& l, int n, ull* a, ull* b) {
        ull total = l.down ? (l.next > l.end ? (l.next - l.end + (0 - l.incr) - 1) / (0 - l.incr) : 0)
                           : (l.end > l.next ? (l.end - l.next + l.incr - 1) / l.incr : 0);
        if ((long long)total <= 0) return false;
        ull c = l.chunk ? l.chunk : 1;
        if (l.guided) { ull g = (total + n - 1) / n; if (g > c) c = g; }
        if (c > total) c = total;
        *a = l.next;
        *b = l.next + c * l.incr;
        l.next = *b;
        return true;
    }

    bool next_chunk(ull* a, ull* b) {
        Team* t = me.team;
        pthread_mutex_lock(&t->m);
        bool r = chunk(t->loops[me.loop - 1], t->n, a, b);
        pthread_mutex_unlock(&t->m);
        return r;
    }

    bool start_loop(const Loop& l, ull* a, ull* b) {
        Team* t = me.team;
        if (!t) { static __thread Team* lone; if (!lone) { lone = new Team; lone->n = 1; pthread_mutex_init(&lone->m, 0); pthread_cond_init(&lone->c, 0); } t = me.team = lone; }
        pthread_mutex_lock(&t->m);
        g_loops++;
        Loop& w = t->loops[me.loop++];
        if (!w.ready) w = l;
        bool r = chunk(w, t->n, a, b);
        pthread_mutex_unlock(&t->m);
        return r;
    }

    Loop make(long s, long e, long i, long c, bool guided) {
        Loop l; memset(&l, 0, sizeof l);
        l.ready = true; l.guided = guided; l.chunk = c;
        l.down = i < 0;
        // shift so that unsigned arithmetic orders signed bounds
        l.next = (ull)s; l.end = (ull)e; l.incr = (ull)i;
        if (!l.down && s >= e) l.end = l.next;
        if (l.down && s <= e) l.end = l.next;
        return l;
    }

    // an even split for "static" loops that are handed out by the runtime
    Loop make_static(long s, long e, long i, long c, int n) {
        long total = i > 0 ? (e > s ? (e - s + i - 1) / i : 0) : (s > e ? (s - e - i - 1) / -i : 0);
        return make(s, e, i, c ? c : (total + n - 1) / (n ? n : 1), false);
    }
    int width(unsigned k) { return k ? (int)k : g_default; }
}

API void vm_shim_set(int mode, unsigned long seed) { g_mode = mode; g_seed = seed * 0x9E3779B97F4A7C15ull + 1; if (!g_seed) g_seed = 1; }
API void vm_shim_stats(long* out) { long q[6] = {g_regions, g_parallel, g_threads, g_orders, g_barriers, g_loops}; memcpy(out, q, sizeof q); }

API int omp_get_num_threads(void) { return me.team ? me.team->n : 1; }
API int omp_get_thread_num(void) { return me.team ? me.id : 0; }
API int omp_get_max_threads(void) { return g_default; }
API void omp_set_num_threads(int n) { if (n > 0) g_default = n; }
API int omp_get_num_procs(void) { return 8; }
API int omp_in_parallel(void) { return me.team && me.team->n > 1; }
API int omp_get_level(void) { return me.team ? 1 : 0; }
API int omp_get_active_level(void) { return me.team && me.team->n > 1; }
API int omp_get_team_size(int) { return omp_get_num_threads(); }
API int omp_get_dynamic(void) { return 0; }
API void omp_set_dynamic(int) {}
API int omp_get_nested(void) { return 0; }
API void omp_set_nested(int) {}
API int omp_get_thread_limit(void) { return 256; }
API double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
API double omp_get_wtick(void) { return 1e-9; }
typedef pthread_mutex_t* Lock;
API void omp_init_lock(Lock* l) { *l = new pthread_mutex_t; pthread_mutex_init(*l, 0); }
API void omp_destroy_lock(Lock* l) { pthread_mutex_destroy(*l); delete *l; }
API void omp_set_lock(Lock* l) { pthread_mutex_lock(*l); }
API void omp_unset_lock(Lock* l) { pthread_mutex_unlock(*l); }
API int omp_test_lock(Lock* l) { return !pthread_mutex_trylock(*l); }

API void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run(fn, data, n, 0); }
API unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { run(fn, data, n, 0); return width(n); }
API void GOMP_barrier(void) { barrier(); }
API bool GOMP_cancel(int, bool) { return false; }
API bool GOMP_barrier_cancel(void) { barrier(); return false; }
API bool GOMP_cancellation_point(int) { return false; }
API void GOMP_atomic_start(void) { pthread_mutex_lock(&g_atomic); }
API void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_atomic); }
API void GOMP_critical_start(void) { pthread_mutex_lock(&g_critical); }
API void GOMP_critical_end(void) { pthread_mutex_unlock(&g_critical); }
API void GOMP_critical_name_start(void** p) {
    pthread_mutex_lock(&g_names);
    if (!*p) { pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, 0); *p = m; }
    pthread_mutex_t* m = (pthread_mutex_t*)*p;
    pthread_mutex_unlock(&g_names);
    pthread_mutex_lock(m);
}
API void GOMP_critical_name_end(void** p) { pthread_mutex_unlock((pthread_mutex_t*)*p); }
API bool GOMP_single_start(void) {
    Team* t = me.team;
    if (!t || t->n == 1) return true;
    pthread_mutex_lock(&t->m);
    bool first = !t->singles[me.single++]++;
    pthread_mutex_unlock(&t->m);
    return first;
}

#define LOOPS(kind, guided) \
    API bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { return start_loop(make(s, e, i, c, guided), (ull*)a, (ull*)b); } \
    API bool GOMP_loop_##kind##_next(long* a, long* b) { return next_chunk((ull*)a, (ull*)b); } \
    API void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { Loop l = make(s, e, i, c, guided); run(fn, data, n, &l); } \
    API bool GOMP_loop_ull_##kind##_start(bool, ull s, ull e, ull i, ull c, ull* a, ull* b) { return start_loop(make(s, e, i, c, guided), a, b); } \
    API bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return next_chunk(a, b); }
LOOPS(dynamic, false)
LOOPS(guided, true)
LOOPS(nonmonotonic_dynamic, false)
LOOPS(nonmonotonic_guided, true)

#define RUNTIME(kind) \
    API bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { return start_loop(make(s, e, i, 1, false), (ull*)a, (ull*)b); } \
    API bool GOMP_loop_##kind##_next(long* a, long* b) { return next_chunk((ull*)a, (ull*)b); } \
    API void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) { Loop l = make(s, e, i, 1, false); run(fn, data, n, &l); } \
    API bool GOMP_loop_ull_##kind##_start(bool, ull s, ull e, ull i, ull* a, ull* b) { return start_loop(make(s, e, i, 1, false), a, b); } \
    API bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return next_chunk(a, b); }
RUNTIME(runtime)
RUNTIME(maybe_nonmonotonic_runtime)
RUNTIME(nonmonotonic_runtime)

API bool GOMP_loop_static_start(long s, long e, long i, long c, long* a, long* b) { return start_loop(make_static(s, e, i, c, omp_get_num_threads()), (ull*)a, (ull*)b); }
API bool GOMP_loop_static_next(long* a, long* b) { return next_chunk((ull*)a, (ull*)b); }
API void GOMP_parallel_loop_static(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { Loop l = make_static(s, e, i, c, width(n)); run(fn, data, n, &l); }
API void GOMP_loop_end(void) { barrier(); }
API void GOMP_loop_end_nowait(void) {}
API bool GOMP_loop_end_cancel(void) { barrier(); return false; }
API unsigned GOMP_sections_start(unsigned n) { ull a, b; return start_loop(make(1, (long)n + 1, 1, 1, false), &a, &b) ? (unsigned)a : 0; }
API unsigned GOMP_sections_next(void) { ull a, b; return next_chunk(&a, &b) ? (unsigned)a : 0; }
API void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { Loop l = make(1, (long)count + 1, 1, 1, false); run(fn, data, n ? n : count, &l); }
API void GOMP_sections_end(void) { barrier(); }
API void GOMP_sections_end_nowait(void) {}
