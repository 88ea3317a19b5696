// A small OpenMP runtime over std::thread, linked in front of libgomp in ThreadSanitizer builds, which see its
// synchronisation (they cannot see libgomp's).  Teams are as large as asked for, whatever the machine has.
#pragma once
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>
namespace teams {
struct Team {
    int n = 1;
    std::mutex m;
    std::condition_variable cv;
    int waiting = 0;
    long round = 0;
    // one work-sharing construct at a time; numbered so that threads that run ahead don't mix them up
    struct Work { long next = 0, end = 0, incr = 1, chunk = 1; bool dynamic = true; int left = 0; };
    std::vector<Work> works;
    void barrier() {
        std::unique_lock<std::mutex> l(m);
        long r = round;
        if (++waiting == n) { waiting = 0; ++round; cv.notify_all(); return; }
        cv.wait(l, [&] { return round != r; });
    }
};
struct Me { Team* team = nullptr; int id = 0; size_t work = 0; long single = 0; };
inline Me& me() { static thread_local Me m; return m; }
inline std::atomic<int>& size() { static std::atomic<int> s{3}; return s; }
inline std::mutex& critical() { static std::mutex m; return m; }
inline Team& team() { static thread_local Team alone; Me& x = me(); return x.team ? *x.team : alone; }

inline void run(void (*fn)(void*), void* data, unsigned n, const Team::Work* first) {
    if (me().team) n = 1;
    else if (!n) n = (unsigned)size().load();
    Team t;
    t.n = (int)n;
    if (first) t.works.push_back(*first);
    Me saved = me();
    auto body = [&](int id) { me() = Me{&t, id, (size_t)(first ? 1 : 0), 0}; fn(data); };
    std::vector<std::thread> ts;
    for (unsigned i = 1; i < n; ++i) ts.emplace_back([&, i] { body((int)i); });
    body(0);
    for (auto& th : ts) th.join();
    me() = saved;
}
inline bool take(Team& t, Team::Work& w, long* s, long* e) {
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    *s = w.next;
    long to = w.next + w.chunk * w.incr;
    if (w.incr > 0 ? to > w.end : to < w.end) to = w.end;
    *e = w.next = to;
    return true;
}
inline bool next(long* s, long* e) {
    Team& t = team();
    std::lock_guard<std::mutex> l(t.m);
    return take(t, t.works.at(me().work - 1), s, e);
}
inline bool start(long a, long b, long incr, long chunk, long* s, long* e) {
    Team& t = team();
    {
        std::lock_guard<std::mutex> l(t.m);
        size_t k = me().work++;
        if (t.works.size() <= k) { Team::Work w; w.next = a; w.end = b; w.incr = incr; w.chunk = chunk > 0 ? chunk : 1; t.works.push_back(w); }
    }
    return next(s, e);
}
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { teams::run(fn, data, n, nullptr); }
void GOMP_barrier() { teams::team().barrier(); }
void GOMP_critical_start() { teams::critical().lock(); }
void GOMP_critical_end() { teams::critical().unlock(); }
void GOMP_critical_name_start(void**) { teams::critical().lock(); }
void GOMP_critical_name_end(void**) { teams::critical().unlock(); }
void GOMP_atomic_start() { teams::critical().lock(); }
void GOMP_atomic_end() { teams::critical().unlock(); }
bool GOMP_single_start() {
    long s, e;
    return teams::start(0, 1, 1, 1, &s, &e);
}
#define TEAMS_LOOP(kind) \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long* s, long* e) { return teams::start(a, b, i, c, s, e); } \
    bool GOMP_loop_##kind##_next(long* s, long* e) { return teams::next(s, e); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c, unsigned) { \
        teams::Team::Work w; w.next = a; w.end = b; w.incr = i; w.chunk = c > 0 ? c : 1; teams::run(fn, data, n, &w); }
#define TEAMS_RUNTIME(kind) \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long* s, long* e) { return teams::start(a, b, i, 1, s, e); } \
    bool GOMP_loop_##kind##_next(long* s, long* e) { return teams::next(s, e); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, unsigned) { \
        teams::Team::Work w; w.next = a; w.end = b; w.incr = i; teams::run(fn, data, n, &w); }
TEAMS_LOOP(dynamic) TEAMS_LOOP(guided) TEAMS_LOOP(nonmonotonic_dynamic) TEAMS_LOOP(nonmonotonic_guided) TEAMS_LOOP(static)
TEAMS_RUNTIME(runtime) TEAMS_RUNTIME(nonmonotonic_runtime) TEAMS_RUNTIME(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { teams::team().barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) {
    teams::Team::Work w; w.next = 1; w.end = (long)count + 1; teams::run(fn, data, n, &w);
}
unsigned GOMP_sections_next() { long s, e; return teams::next(&s, &e) ? (unsigned)s : 0; }
unsigned GOMP_sections_start(unsigned count) { long s, e; return teams::start(1, (long)count + 1, 1, 1, &s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end() { teams::team().barrier(); }
void GOMP_sections_end_nowait() {}
int omp_get_num_threads() { return teams::team().n; }
int omp_get_thread_num() { return teams::me().id; }
int omp_get_max_threads() { return teams::me().team ? 1 : teams::size().load(); }
void omp_set_num_threads(int n) { teams::size() = n < 1 ? 1 : n; }
int omp_in_parallel() { return teams::me().team && teams::me().team->n > 1; }
int omp_get_num_procs() { return teams::size().load(); }
}
