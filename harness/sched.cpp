#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <deque>
#include <map>
#include <unordered_map>
#include <random>
#include <algorithm>
#include <dlfcn.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

namespace {

const int MAXT = 1000, MAXP = 60000, MAXM = 4096, MAXSTEPS = 1000000;

// ---------------------------------------------------------------- shared between explorer and run

struct Shared {
    int nprefix;
    int prefix[MAXP];
    int spurious;
    unsigned eseed;             // 0: no switches at entries of functions
    long elen;                  // about as many entries as a run has
    // result
    long entries;
    int npoints;                // decisions with more than one option
    unsigned short opts[MAXP], chosen[MAXP], sure[MAXP];   // options from `sure` on cost one
    int end;                    // 0 running, 1 ok, 2 deadlock, 3 too many steps
    int outlen;
    char out[SCHED_MAXOUT];
};
Shared* sh;

// ---------------------------------------------------------------- the scheduler

enum St { FREE, RUN, MUTEX, COND, JOIN, QUIET, PIPE, DONE };
struct T {
    St st = FREE;
    void* obj = nullptr;        // mutex or condition waited for
    void* mtx = nullptr;        // mutex to take again after a condition
    int join = -1;
    int fd = -1;                // pipe waited for
    short event = 0;
    bool timed = false, timedout = false, detached = false;
    pthread_t real;
    sem_t sem;
    void* (*fn)(void*);
    void* arg;
};
T th[MAXT];
int nth = 0;
long steps = 0;
bool active = false;
int order = 0;
long next_entry = 0;
std::vector<long> gaps;     // until the next switches, then
long gap = 0;
std::mt19937* erng;
__thread int self = -1;

struct M { int owner = -1, depth = 0; };

M& mx(void* m) {
    static auto ms = new std::unordered_map<void*, M>;
    auto it = ms->find(m);
    if (it != ms->end()) return it->second;
    if (ms->size() > MAXM)
        for (auto i = ms->begin(); i != ms->end();) i = i->second.owner < 0 ? ms->erase(i) : std::next(i);
    return (*ms)[m];
}

template <class F> F real(const char* name) {
    return (F) dlsym(RTLD_NEXT, name);
}
#define REAL(ret, name, ...) static auto f_##name = real<ret (*)(__VA_ARGS__)>(#name)

void finish(int how) {
    sh->end = how;
    _exit(how == 1 ? 0 : 3);
}

// a decision among n > 1 options
int decide(int n, int sure) {
    if (sh->npoints >= MAXP) finish(3);
    int i = sh->npoints++;
    int c = i < sh->nprefix ? sh->prefix[i] : 0;
    if (c >= n) c = n - 1;
    sh->opts[i] = n;
    sh->chosen[i] = c;
    sh->sure[i] = sure;
    return c;
}

bool enabled(int t) {
    switch (th[t].st) {
    case RUN:   return true;
    case MUTEX: return mx(th[t].obj).owner < 0;
    case COND:  return false;
    case JOIN:  return th[th[t].join].st == DONE;
    case PIPE: {
        pollfd p = {th[t].fd, th[t].event, 0};
        return poll(&p, 1, 0) != 0;
    }
    case QUIET:
        for (int o = 0; o < nth; ++o) if (o != t && th[o].st != QUIET && enabled(o)) return false;
        return true;
    default:    return false;
    }
}

}
void (*sched_hook)() = nullptr;
bool sched_files = false;
namespace {

// give the processor to another thread, or keep it
void reschedule() {
    if (++steps > MAXSTEPS) finish(3);
    if (sched_hook) sched_hook();
    int opt[2 * MAXT], n = 0;
    bool here = self >= 0 && enabled(self);
    if (here) opt[n++] = self;
    for (int k = 1; k <= nth; ++k) {
        int t = order ? (k <= 2 ? k - 1 : nth + 2 - k) % nth : (std::max(self, 0) + k) % nth;
        if (t != self && enabled(t)) opt[n++] = t;
    }
    int sure = n;
    // a wait may end by its time, and by itself
    for (int t = 0; t < nth; ++t)
        if (th[t].st == COND && th[t].timed && mx(th[t].mtx).owner < 0) opt[n++] = t + MAXT;
    bool quiet = n == 1 && th[opt[0]].st == QUIET;
    if (sh->spurious && sure && !quiet)
        for (int t = 0; t < nth; ++t)
            if (th[t].st == COND && !th[t].timed && mx(th[t].mtx).owner < 0) opt[n++] = t + MAXT;
    if (!n) finish(2);
    // switching is free when the running thread cannot go on
    int c = n == 1 ? 0 : decide(n, here ? 1 : std::max(sure, 1));
    int t = opt[c] % MAXT;
    if (opt[c] >= MAXT) { th[t].timedout = th[t].timed; th[t].st = MUTEX; th[t].obj = th[t].mtx; }
    if (t == self) return;
    sem_post(&th[t].sem);
    if (self >= 0 && th[self].st != DONE)
        while (sem_wait(&th[self].sem)) {}
}

// at an entry where another thread shall go on
void elsewhere() {
    if (!gaps.empty()) { next_entry = sh->entries + gaps.back(); gaps.pop_back(); }
    else next_entry = gap ? sh->entries + 1 + (*erng)() % (2 * gap) : -1;
    int opt[MAXT], n = 0;
    for (int t = 0; t < nth; ++t) if (t != self && th[t].st != QUIET && enabled(t)) opt[n++] = t;
    if (!n) return;
    int t = opt[n == 1 ? 0 : (*erng)() % n];
    sem_post(&th[t].sem);
    while (sem_wait(&th[self].sem)) {}
}

void plan() {
    next_entry = -1;
    gap = 0;
    gaps.clear();
    sh->entries = 0;
    if (!sh->eseed) return;
    erng = new std::mt19937(sh->eseed);
    auto& g = *erng;
    switch (g() % 4) {
    case 0: case 1: {
        std::vector<long> at;
        for (int i = 1 + g() % 5; i > 0; --i) at.push_back(g() % std::max(1L, sh->elen));
        std::sort(at.begin(), at.end());
        for (size_t i = at.size(); i-- > 1;) gaps.push_back(at[i] - at[i - 1] + 1);
        next_entry = at[0] + 1;
        break;
    }
    case 2: gap = std::max(2L, sh->elen / 40); next_entry = 1 + g() % gap; break;
    default: gap = 2 + g() % 300; next_entry = 1 + g() % gap;
    }
}

// wait until what this thread waits for is there
void block() {
    do reschedule(); while (!enabled(self));
    th[self].st = RUN;
}

bool on() { return active && self >= 0; }

void* trampoline(void* p) {
    self = (int)(long) p;
    while (sem_wait(&th[self].sem)) {}
    th[self].st = RUN;
    void* r = th[self].fn(th[self].arg);
    th[self].st = DONE;
    reschedule();
    self = -1;          // whatever the thread still does on its way out is its own affair
    return r;
}

void acquire(void* m) {
    th[self].st = MUTEX;
    th[self].obj = m;
    while (mx(m).owner >= 0) reschedule();
    th[self].st = RUN;
    M& x = mx(m);
    x.owner = self;
    x.depth = 1;
}

bool library(void* ret) {       // of no interest: the locks inside the XML libraries
    static std::map<void*, bool>* memo = new std::map<void*, bool>;
    auto it = memo->find(ret);
    if (it != memo->end()) return it->second;
    Dl_info d;
    bool r = dladdr(ret, &d) && d.dli_fname && (strstr(d.dli_fname, "libxml2") || strstr(d.dli_fname, "libxslt") || strstr(d.dli_fname, "libexslt") || strstr(d.dli_fname, "libarchive")
                || strstr(d.dli_fname, "libcurl") || strstr(d.dli_fname, "libcrypto") || strstr(d.dli_fname, "libssl") || strstr(d.dli_fname, "libc.so"));
    (*memo)[ret] = r;
    return r;
}

}

// ---------------------------------------------------------------- the interposed functions

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    if (!on()) return f_pthread_create(out, a, fn, arg);
    if (nth == MAXT) finish(3);
    int t = nth++;
    th[t].st = RUN;
    th[t].fn = fn;
    th[t].arg = arg;
    sem_init(&th[t].sem, 0, 0);
    int r = f_pthread_create(&th[t].real, a, trampoline, (void*)(long) t);
    if (r) { --nth; return r; }
    *out = th[t].real;
    reschedule();
    return 0;
}

static int number(pthread_t p) {
    for (int t = nth - 1; t >= 0; --t)
        if (th[t].real == p && th[t].st != FREE) return t;
    return -1;
}

int pthread_join(pthread_t p, void** r) {
    REAL(int, pthread_join, pthread_t, void**);
    if (!on()) return f_pthread_join(p, r);
    int t = number(p);
    if (t < 0) return f_pthread_join(p, r);
    reschedule();
    th[self].st = JOIN;
    th[self].join = t;
    block();
    int x = f_pthread_join(p, r);
    th[t].real = 0;
    return x;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_lock, pthread_mutex_t*);
    if (!on()) return f_pthread_mutex_lock(m);
    if (mx(m).owner == self) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++mx(m).depth; return 0; }
    }
    if (!library(__builtin_return_address(0))) reschedule();
    acquire(m);
    return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    if (!on()) return f_pthread_mutex_trylock(m);
    if (!library(__builtin_return_address(0))) reschedule();
    if (mx(m).owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++mx(m).depth; return 0; }
    if (mx(m).owner >= 0) return EBUSY;
    acquire(m);
    return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    if (!on()) return f_pthread_mutex_unlock(m);
    M& x = mx(m);
    if (x.owner == self && --x.depth > 0) return 0;
    x.owner = -1;
    if (!library(__builtin_return_address(0))) reschedule();
    return 0;
}

static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    reschedule();
    M& x = mx(m);
    x.owner = -1;
    th[self].st = COND;
    th[self].obj = c;
    th[self].mtx = m;
    th[self].timed = timed;
    th[self].timedout = false;
    do reschedule(); while (th[self].st == COND);
    acquire(m);
    return timed && th[self].timedout ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
    return on() ? cwait(c, m, false) : f_pthread_cond_wait(c, m);
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    return on() ? cwait(c, m, true) : f_pthread_cond_timedwait(c, m, t);
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    return on() ? cwait(c, m, true) : f_pthread_cond_clockwait(c, m, k, t);
}

static void wake(int t) { th[t].st = MUTEX; th[t].obj = th[t].mtx; }

int pthread_cond_signal(pthread_cond_t* c) {
    REAL(int, pthread_cond_signal, pthread_cond_t*);
    if (!on()) return f_pthread_cond_signal(c);
    reschedule();
    int w[MAXT], n = 0;
    for (int t = 0; t < nth; ++t) if (th[t].st == COND && th[t].obj == c) w[n++] = t;
    if (n) wake(w[n == 1 ? 0 : decide(n, n)]);
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t* c) {
    REAL(int, pthread_cond_broadcast, pthread_cond_t*);
    if (!on()) return f_pthread_cond_broadcast(c);
    reschedule();
    for (int t = 0; t < nth; ++t) if (th[t].st == COND && th[t].obj == c) wake(t);
    return 0;
}

void __cyg_profile_func_enter(void*, void*) {
    if (!on()) return;
    if (++sh->entries == next_entry) elsewhere();
}
void __cyg_profile_func_exit(void*, void*) {
    if (!on()) return;
    if (++sh->entries == next_entry) elsewhere();
}

// the first to come initialises, the others wait
int __cxa_guard_acquire(char* g) {
    static auto real = (int (*)(char*)) dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    if (!on()) return real(g);
    while (g[1] && !g[0]) {
        if (sh->entries > sh->elen * 20 + 1000000) finish(3);
        ++sh->entries;
        reschedule();
        if (g[1] && !g[0]) elsewhere();
    }
    if (g[0]) return 0;
    g[1] = 1;
    return 1;
}
void __cxa_guard_release(char* g) {
    static auto real = (void (*)(char*)) dlsym(RTLD_NEXT, "__cxa_guard_release");
    if (!on()) return real(g);
    g[0] = 1;
    g[1] = 0;
}
void __cxa_guard_abort(char* g) {
    static auto real = (void (*)(char*)) dlsym(RTLD_NEXT, "__cxa_guard_abort");
    if (!on()) return real(g);
    g[1] = 0;
}

int sched_yield() noexcept {
    if (on()) reschedule();
    return 0;
}

// the ends of pipes: a thread waits here until its read or write does not wait
static bool is_pipe(int fd) {
    struct stat s;
    return fd > 2 && !fstat(fd, &s) && S_ISFIFO(s.st_mode);
}

static void until(int fd, short event) {
    th[self].st = PIPE;
    th[self].fd = fd;
    th[self].event = event;
    block();
}

ssize_t read(int fd, void* b, size_t n) {
    REAL(ssize_t, read, int, void*, size_t);
    if (on() && is_pipe(fd)) until(fd, POLLIN);
    return f_read(fd, b, n);
}

ssize_t write(int fd, const void* b, size_t n) {
    REAL(ssize_t, write, int, const void*, size_t);
    if (!on() || !is_pipe(fd)) return f_write(fd, b, n);
    size_t done = 0;
    do {
        until(fd, POLLOUT);
        ssize_t r = f_write(fd, (const char*) b + done, std::min(n - done, (size_t) 4096));
        if (r < 0) return done ? (ssize_t) done : r;
        done += r;
    } while (done < n);
    return done;
}

// files and the current directory, if asked for: only as used by the code under test itself and by
// libarchive, since other libraries open files while they hold locks that are not seen here
static void file_(void* ret) {
    if (!sched_files || !on()) return;
    static std::map<void*, bool>* memo = new std::map<void*, bool>;
    auto it = memo->find(ret);
    if (it == memo->end()) {
        Dl_info d, me;
        bool r = dladdr(ret, &d) && d.dli_fname && (strstr(d.dli_fname, "libsrcml") || strstr(d.dli_fname, "libarchive")
                    || (dladdr((void*) &file_, &me) && me.dli_fbase == d.dli_fbase));
        it = memo->insert({ret, r}).first;
    }
    if (it->second) reschedule();
}
#define file() file_(__builtin_return_address(0))

int open(const char* p, int f, ...) {
    REAL(int, open, const char*, int, ...);
    va_list a;
    va_start(a, f);
    int m = va_arg(a, int);
    va_end(a);
    file();
    return f_open(p, f, m);
}

int open64(const char* p, int f, ...) {
    REAL(int, open64, const char*, int, ...);
    va_list a;
    va_start(a, f);
    int m = va_arg(a, int);
    va_end(a);
    file();
    return f_open64(p, f, m);
}

int openat(int d, const char* p, int f, ...) {
    REAL(int, openat, int, const char*, int, ...);
    va_list a;
    va_start(a, f);
    int m = va_arg(a, int);
    va_end(a);
    file();
    return f_openat(d, p, f, m);
}

FILE* fopen(const char* p, const char* m) {
    REAL(FILE*, fopen, const char*, const char*);
    file();
    return f_fopen(p, m);
}

FILE* fopen64(const char* p, const char* m) {
    REAL(FILE*, fopen64, const char*, const char*);
    file();
    return f_fopen64(p, m);
}

int fchdir(int d) noexcept {
    REAL(int, fchdir, int);
    file();
    int r = f_fchdir(d);
    file();
    return r;
}

int chdir(const char* p) noexcept {
    REAL(int, chdir, const char*);
    file();
    int r = f_chdir(p);
    file();
    return r;
}

}

void sched_point() { if (on()) reschedule(); }
void sched_quiesce() {
    if (!on()) return;
    th[self].st = QUIET;
    block();
}
void sched_end() {
    if (sh) sh->end = 1;
    _exit(0);
}
int sched_self() { return self < 0 ? 0 : self; }

int sched_threads_alive() {
    int n = 0;
    for (int t = 0; t < nth; ++t) if (t != self && th[t].st != DONE && th[t].st != FREE) ++n;
    return n;
}

void emit(const std::string& s) {
    if (!sh) { puts(s.c_str()); return; }
    if (sh->outlen + (int) s.size() + 2 > SCHED_MAXOUT) return;
    memcpy(sh->out + sh->outlen, s.data(), s.size());
    sh->outlen += s.size();
    sh->out[sh->outlen++] = '\n';
}

// ---------------------------------------------------------------- the search

namespace {

// runs that did not end in their time: a change that makes everything hang must not use up the time
static int hung = 0;

std::string run(const SearchOptions& o, const std::vector<int>& prefix, void (*body)()) {
    sh->nprefix = std::min((int) prefix.size(), MAXP);
    std::copy(prefix.begin(), prefix.begin() + sh->nprefix, sh->prefix);
    sh->spurious = o.spurious;
    sh->npoints = sh->end = sh->outlen = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(70); }
    if (!p) {
        struct rlimit nocore = {0, 0};
        setrlimit(RLIMIT_CORE, &nocore);
        signal(SIGALRM, SIG_DFL);
        struct itimerval tv = {{0, 0}, {o.wall_ms / 1000, (o.wall_ms % 1000) * 1000}};
        setitimer(ITIMER_REAL, &tv, nullptr);       // not for ever
        self = 0;
        nth = 1;
        th[0].st = RUN;
        th[0].real = pthread_self();
        sem_init(&th[0].sem, 0, 0);
        plan();
        active = !o.native;
        order = o.order;
        body();
        active = false;
        sh->end = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { ++hung; return "HANG"; }
    if (WIFEXITED(st) && sh->end == 1 && WEXITSTATUS(st) == 0) return "ok";
    if (WIFEXITED(st) && sh->end == 2) return "DEADLOCK";
    if (WIFEXITED(st) && sh->end == 3) return "HANG";
    return "CRASH";
}

std::string quote(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

std::string lines(const std::string& out) {
    std::string r = "[";
    size_t b = 0;
    while (b < out.size()) {
        size_t e = out.find('\n', b);
        if (e == std::string::npos) e = out.size();
        if (r.size() > 1) r += ", ";
        r += out.substr(b, e - b);      // a line is JSON already
        b = e + 1;
    }
    return r + "]";
}

std::string list(const std::vector<int>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}

void setup() {
    sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); exit(70); }
}

struct Node { std::vector<int> prefix; int cost; };

}

void replay(const std::vector<int>& s, const SearchOptions& o, void (*body)()) {
    if (!sh) setup();
    sh->eseed = o.entries && s.size() == 2 ? s[0] : 0;
    sh->elen = o.entries && s.size() == 2 ? s[1] : 0;
    std::string end = run(o, o.entries ? std::vector<int>() : s, body);
    printf("{\"end\": %s, \"trace\": %s, \"points\": [", quote(end).c_str(), lines(std::string(sh->out, sh->outlen)).c_str());
    for (int i = 0; i < sh->npoints; ++i)
        printf("%s[%d,%d,%d]", i ? "," : "", sh->chosen[i], sh->opts[i], sh->sure[i]);
    printf("]}\n");
}

void explore(const SearchOptions& o, void (*body)()) {
    if (!sh) setup();
    struct Seen { long n; std::vector<int> sched; };
    std::map<std::pair<std::string, std::string>, Seen> seen;
    std::vector<std::deque<Node>> todo(o.bound + 1);
    std::mt19937 rng(o.seed);
    todo[0].push_back({{}, 0});
    long runs = 0, bad = 0;
    int points = 0;
    size_t held = 0;
    bool left = false;
    while (runs < o.max_runs && bad < 40 && hung < 3) {
        int lvl = -1;
        // fewest preemptions first, but when not all can be run do not starve the others
        for (int k = 0; k <= o.bound; ++k) if (!todo[k].empty()) { lvl = k; break; }
        if (lvl < 0) break;
        if (runs > o.max_runs / 4) {
            std::vector<int> have;
            for (int k = 0; k <= o.bound; ++k) if (!todo[k].empty()) have.push_back(k);
            lvl = have[rng() % have.size()];
        }
        auto& q = todo[lvl];
        size_t i = rng() % q.size();
        std::swap(q[i], q.back());
        Node n = q.back();
        q.pop_back();
        held -= n.prefix.size();
        sh->eseed = o.entries ? o.seed * 7919u + runs + 1 : 0;
        std::string end = run(o, n.prefix, body);
        sh->elen = std::max(sh->elen, sh->entries);
        ++runs;
        if (end != "ok") ++bad;
        if (hung) bad += 20;
        points = std::max(points, sh->npoints);
        auto& s = seen[{end, std::string(sh->out, sh->outlen)}];
        if (!s.n++ && o.entries) s.sched = {(int) sh->eseed, (int) sh->elen};
        else if (s.n == 1) s.sched = std::vector<int>(sh->chosen, sh->chosen + sh->npoints);
        // cost so far is that of the prefix: after it the first option is always taken
        if (o.native || o.entries) todo[0].push_back({{}, 0});
        else for (int i = n.prefix.size(); i < sh->npoints; ++i) {
            std::vector<int> base(sh->chosen, sh->chosen + i);
            for (int a = 1; a < sh->opts[i]; ++a) {
                int c = n.cost + (a >= sh->sure[i] ? 1 : 0);
                if (c > o.bound) continue;
                if (held + base.size() > 20000000) { left = true; continue; }
                held += base.size() + 1;
                Node m{base, c};
                m.prefix.push_back(a);
                todo[c].push_back(std::move(m));
            }
        }
    }
    for (auto& d : todo) if (!d.empty()) left = true;
    for (auto& s : seen)
        printf("{\"n\": %ld, \"end\": %s, \"sched\": %s, \"trace\": %s}\n", s.second.n, quote(s.first.first).c_str(), list(s.second.sched).c_str(), lines(s.first.second).c_str());
    printf("{\"runs\": %ld, \"exhausted\": %s, \"points\": %d, \"outcomes\": %zu}\n", runs, left ? "false" : "true", points, seen.size());
}
