#include "dst.hpp"
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <dlfcn.h>
#include <unordered_map>
#include <atomic>
#include <exception>

extern "C" {
void __asan_set_death_callback(void (*fn)(void));
const char * __asan_get_report_description(void);
int __asan_report_present(void);
void __asan_unpoison_memory_region(void const volatile * p, size_t n);
void __sanitizer_start_switch_fiber(void ** fake, void const * bottom, size_t size);
void __sanitizer_finish_switch_fiber(void * fake, void const ** bottom, size_t * size);
char const * __asan_default_options(void);
void embc_fatal(char const * file, int line, char const * msg);
int embc_log_initialize(void (*handler)(char const *, ...));
void * sim_malloc(size_t sz);
void * sim_calloc(size_t n, size_t sz);
void * sim_realloc(void * p, size_t sz);
void sim_free(void * p);
char * sim_strdup(char const * s);
// state of the code under test that survives a run: restored for each run
int32_t embc_dst_event_counter;     // hook in event_manager.c
extern char __start_repo_data[] __attribute__((weak));
extern char __stop_repo_data[] __attribute__((weak));
}

char const * __asan_default_options(void) {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:quarantine_size_mb=16:handle_abort=1:"
           "symbolize=0:print_legend=0:print_summary=0:max_malloc_fill_size=0:malloc_context_size=0";
}

namespace dst {

static constexpr size_t MAX_CHOICES = 1u << 20;  // per stream
static constexpr size_t COUNTERS = 192;
static constexpr size_t MAP_BITS = 1u << 24;

struct Counter { char name[48]; uint64_t n; };
struct FoundViol { uint64_t run; char kind[64]; char msg[400]; uint64_t hash; };

// memory of one worker, shared with the parent
struct Shared {
    uint64_t cur_run;
    uint64_t runs_done;
    uint64_t runs_nontrivial;
    uint64_t sim_ns;
    uint64_t events;
    uint64_t steps;
    uint64_t off_target;       // violations of other properties
    uint64_t hash;             // of the current run
    int in_run;
    int nontrivial;
    int viol_count;
    FoundViol viol[8];
    char asan[64];
    char kind[64];
    char msg[400];
    char off_kind[64];
    int result;                // 0 ok, 1 violation
    Counter faults[COUNTERS];
    Counter probes[COUNTERS];
    uint32_t choice_count[STREAM_COUNT];
};

struct Global {
    std::atomic<uint64_t> min_viol;
    uint8_t states[MAP_BITS / 8];
    uint8_t runs[MAP_BITS / 8];
};

static Shared * sh;
static Global * gl;
static uint32_t * choices[STREAM_COUNT];   // recorded
static std::vector<uint32_t> replay_choices[STREAM_COUNT];
static bool replaying = false;
static uint64_t prng[STREAM_COUNT];
static int target_ = 0;
static FILE * trace_file = 0;
static uint64_t step_limit = 0, step_count = 0;
static uint64_t run_seed_ = 1;

uint64_t mix(uint64_t x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27; x *= 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

static char const * stream_names[STREAM_COUNT] = {"cfg", "app", "net", "sched", "data", "aux"};

uint32_t draw(Stream s, uint32_t n) {
    uint32_t k = sh->choice_count[s];
    uint32_t v;
    if (n == 0) { n = 1; }
    if (replaying) {
        v = (k < replay_choices[s].size()) ? (replay_choices[s][k] % n) : 0;
    } else {
        prng[s] += 0x9e3779b97f4a7c15ull;
        v = (uint32_t) (((mix(prng[s]) >> 32) * (uint64_t) n) >> 32);
    }
    if (k >= MAX_CHOICES) { throw Violation{"runaway", "too many choices in one run"}; }
    choices[s][k] = v;
    sh->choice_count[s] = k + 1;
    return v;
}

uint32_t draw_u32(Stream s) {
    switch (draw(s, 4)) {
        case 0: return draw(s, 16);
        case 1: return (uint32_t) -(int32_t) (1 + draw(s, 16));
        case 2: { uint32_t b = draw(s, 32); return (1u << b) + draw(s, 3) - 1; }
        default: return (draw(s, 65536) << 16) | draw(s, 65536);
    }
}

int target() { return target_; }
int64_t trace_now = -1;
bool verbose() { return trace_file != 0; }

static inline void hash_add(uint64_t v) { sh->hash = mix(sh->hash ^ v) + 0x9e3779b97f4a7c15ull; }

void note(char const * fmt, ...) {
    if (!trace_file) { return; }
    va_list ap; va_start(ap, fmt);
    vfprintf(trace_file, fmt, ap);
    va_end(ap);
    fputc('\n', trace_file);
    fflush(trace_file);
}

void ev(char const * name, int64_t a, int64_t b, int64_t c, int64_t d) {
    uint64_t h = 1469598103934665603ull;
    for (char const * p = name; *p; ++p) { h = (h ^ (uint8_t) *p) * 1099511628211ull; }
    hash_add(h); hash_add((uint64_t) a); hash_add((uint64_t) b); hash_add((uint64_t) c); hash_add((uint64_t) d);
    ++sh->events;
    if (trace_file) {
        if (trace_now >= 0) { fprintf(trace_file, "%lld.%03lld ms  ", (long long) (trace_now / 1000000), (long long) (trace_now / 1000 % 1000)); }
        fprintf(trace_file, "%s %lld %lld %lld %lld\n", name, (long long) a, (long long) b, (long long) c, (long long) d);
        fflush(trace_file);
    }
}

void violate(uint32_t props, char const * kind, char const * fmt, ...) {
    char msg[400];
    va_list ap; va_start(ap, fmt);
    vsnprintf(msg, sizeof(msg), fmt, ap);
    va_end(ap);
    for (char * p = msg; *p; ++p) { if (*p == '\n') { *p = ' '; } }
    if (props & P(target_)) { throw Violation{kind, msg}; }
    ++sh->off_target;
    snprintf(sh->off_kind, sizeof(sh->off_kind), "%s", kind);
    note("(violation of another property: %s: %s)", kind, msg);
}

static void task_switch_maybe();
void step(void) {
    ++step_count;
    ++sh->steps;
    if (step_count > step_limit) { throw Violation{"livelock", "step limit exceeded"}; }
    task_switch_maybe();
}
void set_step_limit(uint64_t l) { step_limit = l; }
uint64_t steps(void) { return step_count; }
void sim_time(int64_t ns) { sh->sim_ns += (uint64_t) ns; }

static void count(Counter * c, char const * name, uint64_t n) {
    for (size_t i = 0; i < COUNTERS; ++i) {
        if (!c[i].name[0]) { snprintf(c[i].name, sizeof(c[i].name), "%s", name); }
        if (0 == strcmp(c[i].name, name)) { c[i].n += n; return; }
    }
}
void fault(char const * name, uint64_t n) { count(sh->faults, name, n); }
void probe(char const * name, uint64_t n) { count(sh->probes, name, n); }
void nontrivial(void) { sh->nontrivial = 1; }
void cover(uint64_t h) {
    h = mix(h) & (MAP_BITS - 1);
    __atomic_fetch_or(&gl->states[h >> 3], (uint8_t) (1u << (h & 7)), __ATOMIC_RELAXED);
}

// --- heap --------------------------------------------------------------
static std::map<uintptr_t, size_t> live;
static HeapStats hs;
static std::function<bool(size_t)> fail_hook;

HeapStats heap() { return hs; }
void heap_fail_hook(std::function<bool(size_t)> fn) { fail_hook = fn; }

static void * alloc_raw(size_t sz, int fill) {
    if (hs.live_bytes + sz > (256u << 20) || hs.live_blocks > 500000) {
        throw Violation{"runaway", "runaway memory allocation"};
    }
    uint8_t * p = (uint8_t *) malloc(sz ? sz : 1);
    if (!p) { throw Violation{"runaway", "host out of memory"}; }
    if (fill >= 0) { memset(p, fill, sz); }
    live[(uintptr_t) p] = sz;
    ++hs.live_blocks; hs.live_bytes += sz; ++hs.allocs;
    return p;
}
static void free_raw(void * p) {
    auto it = live.find((uintptr_t) p);
    if (it == live.end()) {
        throw Violation{"bad-free", "free of memory which is not allocated (or already freed)"};
    }
    --hs.live_blocks; hs.live_bytes -= it->second; ++hs.frees;
    live.erase(it);
    free(p);
}
void * heap_alloc(size_t sz) { return alloc_raw(sz, 0xA7); }
void heap_free(void * p) { free_raw(p); }
bool heap_owns(void * p, size_t sz) {
    auto it = live.upper_bound((uintptr_t) p);
    if (it == live.begin()) { return false; }
    --it;
    return ((uintptr_t) p >= it->first) && ((uintptr_t) p + sz <= it->first + it->second);
}
static void heap_reset() {
    for (auto & kv : live) { free((void *) kv.first); }
    live.clear();
    memset(&hs, 0, sizeof(hs));
    fail_hook = nullptr;
}

// --- assertions of the code under test ------------------------------------
struct Assertion { std::string text; };
static void (*fatal_fn)(char const *, int, char const *) = 0;
void fatal_hook(void (*fn)(char const *, int, char const *)) { fatal_fn = fn; }
static int expect_assert = 0;

bool asserts(std::function<void()> fn) {
    ++expect_assert;
    try { fn(); } catch (Assertion &) { --expect_assert; return true; } catch (...) { --expect_assert; throw; }
    --expect_assert;
    return false;
}

// --- tasks -----------------------------------------------------------------
static constexpr int TASKS = 3;
static constexpr size_t STACK = 1u << 20;
struct Task {
    ucontext_t ctx;
    char const * bottom;
    size_t size;
    void * fake;
    std::function<void()> const * fn;
    bool done;
    int expect;
    void * local;
};
static Task task_[TASKS + 1];      // the last one is the caller
static int task_count = 0, task_now = 0, task_alive = 0;
static uint32_t task_rate = 2;
static std::exception_ptr task_error;
static void * no_local;

int task() { return task_count ? task_now : 0; }
void * & task_local() { return task_count ? task_[task_now].local : no_local; }

static void task_go(int to, bool last) {
    Task & a = task_[task_now], & b = task_[to];
    a.expect = expect_assert;
    expect_assert = b.expect;
    task_now = to;
    __sanitizer_start_switch_fiber(last ? nullptr : &a.fake, b.bottom, b.size);
    // not through the interceptor of AddressSanitizer, which knows nothing of the calls around this one
    static int (*swap)(ucontext_t *, ucontext_t const *) = (int (*)(ucontext_t *, ucontext_t const *)) dlsym(RTLD_NEXT, "swapcontext");
    swap(&a.ctx, &b.ctx);
    __sanitizer_finish_switch_fiber(a.fake, nullptr, nullptr);
}

static void task_entry() {
    Task & caller = task_[TASKS];
    void const * bottom;
    size_t size;
    __sanitizer_finish_switch_fiber(nullptr, &bottom, &size);
    if (!caller.bottom) { caller.bottom = (char const *) bottom; caller.size = size; }   // the first one is started by the caller
    Task & t = task_[task_now];
    try { (*t.fn)(); } catch (...) { task_error = std::current_exception(); }
    t.done = true;
    --task_alive;
    int to = TASKS;
    if (!task_error) {
        for (int i = 0; i < task_count; ++i) { if (!task_[i].done) { to = i; break; } }
    }
    task_go(to, true);
    abort();
}

static void task_switch_maybe() {
    if (task_count < 2 || task_alive < 2) { return; }
    if (!chance(SCHED, 1, task_rate)) { return; }
    int to = task_now;
    int n = 1 + (task_alive > 2 ? (int) draw(SCHED, (uint32_t) task_alive - 1) : 0);
    while (n) { to = (to + 1) % task_count; if (!task_[to].done) { --n; } }
    ev("task", to);
    task_go(to, false);
}

void tasks(std::vector<std::function<void()>> const & fns) {
    if (fns.size() == 1) { fns[0](); return; }
    static char * stacks = 0;
    if (!stacks) { stacks = (char *) mmap(0, STACK * TASKS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    __asan_unpoison_memory_region(stacks, STACK * TASKS);
    task_rate = pick<uint32_t>(CFG, {2, 8, 1, 40});
    task_error = nullptr;
    for (int i = 0; i < (int) fns.size(); ++i) {
        Task & t = task_[i];
        getcontext(&t.ctx);
        t.bottom = stacks + STACK * (size_t) i;
        t.size = STACK;
        t.ctx.uc_stack.ss_sp = (void *) t.bottom;
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link = 0;
        makecontext(&t.ctx, task_entry, 0);
        t.fake = 0;
        t.fn = &fns[(size_t) i];
        t.done = false;
        t.expect = 0;
        t.local = 0;
    }
    task_[TASKS].bottom = 0;
    task_count = task_alive = (int) fns.size();
    task_now = TASKS;
    task_go(0, false);
    task_count = task_alive = 0;
    task_now = 0;
    if (task_error) { std::exception_ptr e = task_error; task_error = nullptr; std::rethrow_exception(e); }
}

static char * data_snapshot = 0;
static size_t data_size = 0;
__attribute__((no_sanitize("address"))) static void data_restore() {
    for (size_t i = 0; i < data_size; ++i) { ((volatile char *) __start_repo_data)[i] = data_snapshot[i]; }
}
__attribute__((no_sanitize("address"))) static void data_save_raw() {
    if (!__start_repo_data) { return; }
    data_size = (size_t) (__stop_repo_data - __start_repo_data);
    data_snapshot = (char *) malloc(data_size + 1);
    for (size_t i = 0; i < data_size; ++i) { data_snapshot[i] = ((volatile char *) __start_repo_data)[i]; }
}

// --- one run ---------------------------------------------------------------
static std::function<void()> override_fn;

static void log_reader(char const * fmt, ...) {
    char text[256];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(text, sizeof(text), fmt, ap);
    va_end(ap);
}

static int run_once(uint64_t seed, uint64_t run) {
    for (int s = 0; s < STREAM_COUNT; ++s) {
        prng[s] = mix2(mix2(seed, run), (uint64_t) s + 77);
        sh->choice_count[s] = 0;
    }
    sh->hash = 0x1234567;
    sh->kind[0] = 0; sh->msg[0] = 0; sh->result = 0; sh->asan[0] = 0;
    sh->nontrivial = 0;
    step_count = 0; step_limit = 2000000;
    heap_reset();
    data_restore();
    fatal_fn = 0;
    sh->in_run = 1;
    int rv = 0;
    std::string kind, msg;
    try {
        if (override_fn) { override_fn(); } else {
            // in some runs the log has a reader, which formats every line
            if (chance(CFG, 1, 8)) { embc_log_initialize(log_reader); probe("log is formatted"); }
            world.run();
        }
    } catch (RunEnd &) {
    } catch (Violation & v) {
        kind = v.kind; msg = v.msg; rv = 1;
    } catch (Assertion & a) {
        kind = "assert"; msg = a.text; rv = 1;
    }
    if (rv) {
        snprintf(sh->kind, sizeof(sh->kind), "%s", kind.c_str());
        snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
        sh->result = 1;
    }
    sh->in_run = 0;
    heap_reset();
    return rv;
}

static void on_death() {
    if (sh && !sh->asan[0]) {
        char const * d = __asan_report_present() ? __asan_get_report_description() : 0;
        snprintf(sh->asan, sizeof(sh->asan), "%s", d ? d : "sanitizer");
    }
}
static void on_cpu_limit(int) {
    snprintf(sh->asan, sizeof(sh->asan), "hang");
    _exit(77);
}
static void arm_cpu_limit(int ms) {
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = ms / 1000;
    it.it_value.tv_usec = (ms % 1000) * 1000;
    setitimer(ITIMER_PROF, &it, 0);
}
static int cpu_limit_ms = 6000;

static void child_setup() {
    __asan_set_death_callback(on_death);
    signal(SIGPROF, on_cpu_limit);
    // ASan's reports are not wanted on the console
    if (!getenv("DST_STDERR")) {
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
    }
}

static void * shared_alloc(size_t sz) {
    void * p = mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return p;
}
static void choices_alloc() {
    for (int s = 0; s < STREAM_COUNT; ++s) { choices[s] = (uint32_t *) shared_alloc(MAX_CHOICES * sizeof(uint32_t)); }
}

static double now_s() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}

static std::string crash_kind(Shared * s, int st) {
    if (!strcmp(s->asan, "hang")) { return "hang"; }
    if (s->asan[0]) { return std::string("memory:") + s->asan; }
    if (WIFSIGNALED(st)) { return "signal:" + std::to_string(WTERMSIG(st)); }
    return "exit:" + std::to_string(WEXITSTATUS(st));
}

// --- isolated runs -----------------------------------------------------------
struct Outcome {
    bool violation = false;
    std::string kind, msg;
    uint64_t hash = 0;
    std::vector<uint32_t> c[STREAM_COUNT];
};

static bool hash_matters(std::string const & kind) { return kind != "hang"; }

// run once in a forked child (so that a crash is contained)
static Outcome run_isolated(uint64_t seed, uint64_t run, char const * trace_path = 0) {
    fflush(stdout);
    sh->result = 0; sh->kind[0] = 0; sh->asan[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        if (trace_path) { trace_file = fopen(trace_path, "a"); }
        arm_cpu_limit(cpu_limit_ms);
        run_once(seed, run);
        if (trace_file) { fflush(trace_file); }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.hash = sh->hash;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        o.violation = sh->result == 1;
        o.kind = sh->kind; o.msg = sh->msg;
    } else {
        o.violation = true;
        o.kind = crash_kind(sh, st);
        o.msg = "the process ended: " + o.kind;
    }
    for (int s = 0; s < STREAM_COUNT; ++s) { o.c[s].assign(choices[s], choices[s] + sh->choice_count[s]); }
    return o;
}

static Outcome run_choices(std::vector<uint32_t> const * c, char const * trace_path = 0) {
    replaying = true;
    for (int s = 0; s < STREAM_COUNT; ++s) { replay_choices[s] = c[s]; }
    Outcome o = run_isolated(0, 0, trace_path);
    replaying = false;
    return o;
}

static void trim(std::vector<uint32_t> & v) { while (!v.empty() && v.back() == 0) { v.pop_back(); } }

static Outcome minimise(Outcome best, double budget_s, int & tries) {
    double end = now_s() + budget_s;
    std::vector<uint32_t> cur[STREAM_COUNT];
    for (int s = 0; s < STREAM_COUNT; ++s) { cur[s] = best.c[s]; trim(cur[s]); }
    std::string kind = best.kind;
    tries = 0;
    auto attempt = [&](int s, std::vector<uint32_t> const & v) -> bool {
        if (now_s() > end) { return false; }
        ++tries;
        std::vector<uint32_t> keep = cur[s];
        cur[s] = v;
        trim(cur[s]);
        if (cur[s] == keep) { return false; }
        Outcome o = run_choices(cur);
        if (o.violation && o.kind == kind) {
            best = o;
            // use what was really consumed
            for (int k = 0; k < STREAM_COUNT; ++k) {
                if (o.c[k].size() < cur[k].size()) { cur[k].resize(o.c[k].size()); trim(cur[k]); }
            }
            return true;
        }
        cur[s] = keep;
        return false;
    };
    {   // baseline: trimmed choices must reproduce
        Outcome o = run_choices(cur);
        if (!(o.violation && o.kind == kind)) { return best; }
        best = o;
    }
    for (int pass = 0; pass < 4 && now_s() < end; ++pass) {
        bool progress = false;
        for (int s = STREAM_COUNT - 1; s >= 0; --s) {
            if (cur[s].empty()) { continue; }
            if (attempt(s, {})) { progress = true; continue; }
            // truncate
            size_t lo = 0;
            while (cur[s].size() - lo > 1 && now_s() < end) {
                size_t mid = lo + (cur[s].size() - lo) / 2;
                std::vector<uint32_t> v(cur[s].begin(), cur[s].begin() + mid);
                if (attempt(s, v)) { progress = true; } else { lo = mid; }
            }
            // delete and zero chunks
            for (size_t sz = std::max<size_t>(1, cur[s].size() / 2); sz >= 1; sz /= 2) {
                for (size_t i = 0; i < cur[s].size() && now_s() < end; ) {
                    std::vector<uint32_t> v = cur[s];
                    size_t e = std::min(v.size(), i + sz);
                    v.erase(v.begin() + i, v.begin() + e);
                    if (attempt(s, v)) { progress = true; continue; }
                    v = cur[s];
                    bool nz = false;
                    e = std::min(v.size(), i + sz);
                    for (size_t k = i; k < e; ++k) { nz |= v[k] != 0; v[k] = 0; }
                    if (nz && attempt(s, v)) { progress = true; }
                    i += sz;
                }
                if (sz == 1) { break; }
            }
            // reduce values
            for (size_t i = 0; i < cur[s].size() && now_s() < end; ++i) {
                while (i < cur[s].size() && cur[s][i] > 1) {
                    std::vector<uint32_t> v = cur[s];
                    v[i] /= 2;
                    if (!attempt(s, v)) { break; }
                    progress = true;
                }
            }
        }
        if (!progress) { break; }
    }
    Outcome o = run_choices(cur);
    if (o.violation && o.kind == kind) {
        best = o;
        for (int s = 0; s < STREAM_COUNT; ++s) { best.c[s] = cur[s]; }
    }
    return best;
}

static bool write_replay(std::string const & path, Outcome const & o, uint64_t seed, uint64_t run, bool minimised, size_t orig_choices) {
    FILE * f = fopen(path.c_str(), "w");
    if (!f) { return false; }
    size_t n = 0;
    for (int s = 0; s < STREAM_COUNT; ++s) { n += o.c[s].size(); }
    fprintf(f, "dst-replay 1\nworld %s\nproperty C%02d\nseed %llu\nrun %llu\nkind %s\nhash %016llx\nmsg %s\n",
            world.name, target_, (unsigned long long) seed, (unsigned long long) run, o.kind.c_str(),
            (unsigned long long) o.hash, o.msg.c_str());
    fprintf(f, "minimised %d choices %zu of %zu\n", minimised ? 1 : 0, n, orig_choices);
    for (int s = 0; s < STREAM_COUNT; ++s) {
        fprintf(f, "stream %s %zu", stream_names[s], o.c[s].size());
        for (uint32_t v : o.c[s]) { fprintf(f, " %u", v); }
        fprintf(f, "\n");
    }
    fprintf(f, "trace\n");
    fclose(f);
    return true;
}

static bool read_replay(char const * path, std::vector<uint32_t> * c, std::string & kind, uint64_t & hash, int & prop) {
    FILE * f = fopen(path, "r");
    if (!f) { return false; }
    char word[64];
    kind.clear(); hash = 0; prop = 0;
    char line[1024];
    bool ok = false;
    while (fscanf(f, "%63s", word) == 1) {
        if (!strcmp(word, "kind")) {
            if (!fgets(line, sizeof(line), f)) { break; }
            char * p = line; while (*p == ' ') { ++p; }
            p[strcspn(p, "\n")] = 0; kind = p;
        } else if (!strcmp(word, "hash")) {
            unsigned long long h; if (fscanf(f, "%llx", &h) != 1) { break; } hash = h;
        } else if (!strcmp(word, "property")) {
            if (fscanf(f, " C%d", &prop) != 1) { break; }
        } else if (!strcmp(word, "stream")) {
            size_t n; if (fscanf(f, "%63s %zu", word, &n) != 2) { break; }
            for (int s = 0; s < STREAM_COUNT; ++s) {
                if (!strcmp(word, stream_names[s])) {
                    c[s].clear();
                    for (size_t i = 0; i < n; ++i) { unsigned v; if (fscanf(f, "%u", &v) != 1) { break; } c[s].push_back(v); }
                }
            }
        } else if (!strcmp(word, "trace")) { ok = true; break; }
        else { if (!fgets(line, sizeof(line), f)) { break; } }
    }
    fclose(f);
    return ok;
}

static int bits(uint8_t const * m) {
    int n = 0;
    for (size_t i = 0; i < MAP_BITS / 8; ++i) { n += __builtin_popcount(m[i]); }
    return n;
}

static std::string json_str(std::string const & s) {
    std::string r = "\"";
    for (char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if ((unsigned char) ch < 0x20) { r += ' '; }
        else { r += ch; }
    }
    return r + "\"";
}

static void merge(std::map<std::string, uint64_t> & m, Counter const * c) {
    for (size_t i = 0; i < COUNTERS && c[i].name[0]; ++i) { m[c[i].name] += c[i].n; }
}
static void put_counters(FILE * f, char const * name, std::map<std::string, uint64_t> const & m) {
    fprintf(f, "  \"%s\": {", name);
    bool first = true;
    for (auto & kv : m) {
        fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(kv.first).c_str(), (unsigned long long) kv.second);
        first = false;
    }
    fprintf(f, "},\n");
}

static char ** argv_;

// the gate: a fresh process must reproduce the same violation, twice
static bool fresh_replay(std::string const & path) {
    for (int k = 0; k < 2; ++k) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            execl("/proc/self/exe", argv_[0], "--replay", path.c_str(), (char *) 0);
            _exit(4);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { return false; }
    }
    return true;
}

struct Args {
    int prop = 0;
    uint64_t seed = 1;
    uint64_t runs = 1000;
    uint64_t first = 0;
    double wall = 60;
    int workers = 0;
    std::string out, result, replay, scenario;
    bool trace = false;
    long hash_from = -1, hash_to = -1;
    bool keep = false;
    double min_budget = 25;
};

static int main_(Args const & a) {
    gl = (Global *) shared_alloc(sizeof(Global));
    gl->min_viol = UINT64_MAX;
    target_ = a.prop;
    run_seed_ = a.seed;
    data_save_raw();

    if (!a.replay.empty()) {
        std::vector<uint32_t> c[STREAM_COUNT];
        std::string kind; uint64_t hash; int prop;
        if (!read_replay(a.replay.c_str(), c, kind, hash, prop)) { fprintf(stderr, "cannot read %s\n", a.replay.c_str()); return 2; }
        target_ = prop;
        sh = (Shared *) shared_alloc(sizeof(Shared));
        choices_alloc();
        Outcome o = run_choices(c, a.trace ? "/dev/stdout" : 0);
        printf("replay kind=%s hash=%016llx expected kind=%s hash=%016llx\n%s\n", o.kind.c_str(),
               (unsigned long long) o.hash, kind.c_str(), (unsigned long long) hash, o.msg.c_str());
        if (o.violation && o.kind == kind && (o.hash == hash || !hash_matters(kind))) {
            printf("VIOLATION property=C%02d replay=%s\n", prop, a.replay.c_str());
            return 1;
        }
        if (o.violation) { printf("a different violation\n"); return 2; }
        return 0;
    }

    if (!a.scenario.empty()) {
        sh = (Shared *) shared_alloc(sizeof(Shared));
        choices_alloc();
        for (auto const & sc : world.scenarios) {
            if (a.scenario != sc.name) { continue; }
            target_ = sc.prop;
            override_fn = sc.fn;
            replaying = true;  // all choices 0
            Outcome o = run_isolated(0, 0, a.trace ? "/dev/stdout" : 0);
            printf("scenario %s property=C%02d violation=%d kind=%s hash=%016llx %s\n", sc.name, sc.prop, (int) o.violation,
                   o.kind.c_str(), (unsigned long long) o.hash, o.msg.c_str());
            return o.violation ? 1 : 0;
        }
        return 2;
    }

    if (a.hash_from >= 0) {  // determinism check: print the hash of each run
        sh = (Shared *) shared_alloc(sizeof(Shared));
        choices_alloc();
        for (long i = a.hash_from; i < a.hash_to; ++i) {
            Outcome o;
            if (a.trace) { o = run_isolated(a.seed, (uint64_t) i, "/dev/stdout"); }
            else { int rv = run_once(a.seed, (uint64_t) i); o.violation = rv; o.hash = sh->hash; o.kind = sh->kind; o.msg = sh->msg; }
            printf("%ld %016llx %s %s\n", i, (unsigned long long) o.hash, o.kind.c_str(), o.msg.c_str());
        }
        return 0;
    }

    double t0 = now_s();
    double end = t0 + a.wall;
    int w_count = a.workers > 0 ? a.workers : (int) sysconf(_SC_NPROCESSORS_ONLN);
    if (w_count < 1) { w_count = 1; }
    struct W { Shared * sh; pid_t pid; uint64_t next; bool done; std::vector<FoundViol> crashes; int crash_count; };
    std::vector<W> ws;
    for (int w = 0; w < w_count; ++w) {
        ws.push_back(W{(Shared *) shared_alloc(sizeof(Shared)), 0, a.first + (uint64_t) w, false, {}, 0});
    }
    auto launch = [&](W & w) {
        fflush(stdout);
        uint64_t start = w.next;
        w.sh->in_run = 0;
        w.pid = fork();
        if (w.pid == 0) {
            sh = w.sh;
            choices_alloc();
            child_setup();
            for (uint64_t i = start; i < a.first + a.runs; i += (uint64_t) w_count) {
                if (i > gl->min_viol.load() || now_s() > end) { break; }
                sh->cur_run = i;
                arm_cpu_limit(cpu_limit_ms);
                int rv = run_once(a.seed, i);
                ++sh->runs_done;
                if (sh->nontrivial) {
                    ++sh->runs_nontrivial;
                    uint64_t h = sh->hash & (MAP_BITS - 1);
                    __atomic_fetch_or(&gl->runs[h >> 3], (uint8_t) (1u << (h & 7)), __ATOMIC_RELAXED);
                }
                if (rv) {
                    if (sh->viol_count < 8) {
                        FoundViol & v = sh->viol[sh->viol_count++];
                        v.run = i; v.hash = sh->hash;
                        memcpy(v.kind, sh->kind, sizeof(v.kind)); memcpy(v.msg, sh->msg, sizeof(v.msg));
                    }
                    if (!a.keep) {
                        uint64_t m = gl->min_viol.load();
                        while (i < m && !gl->min_viol.compare_exchange_weak(m, i)) {}
                    }
                }
            }
            _exit(0);
        }
    };
    for (auto & w : ws) { launch(w); }
    int running = w_count;
    while (running > 0) {
        int st = 0;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) { if (errno == EINTR) { continue; } break; }
        for (auto & w : ws) {
            if (w.pid != pid) { continue; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { w.done = true; --running; break; }
            // crashed within a run
            FoundViol v;
            memset(&v, 0, sizeof(v));
            v.run = w.sh->cur_run; v.hash = w.sh->hash;
            snprintf(v.kind, sizeof(v.kind), "%s", crash_kind(w.sh, st).c_str());
            snprintf(v.msg, sizeof(v.msg), "the process ended: %s", v.kind);
            w.crashes.push_back(v);
            ++w.sh->runs_done;
            if (!a.keep) {
                uint64_t m = gl->min_viol.load();
                while (v.run < m && !gl->min_viol.compare_exchange_weak(m, v.run)) {}
            }
            w.next = v.run + (uint64_t) w_count;
            w.sh->asan[0] = 0;
            if (++w.crash_count < 20 && now_s() < end) { launch(w); } else { w.done = true; --running; }
            break;
        }
    }
    double search_s = now_s() - t0;

    std::vector<FoundViol> found;
    uint64_t runs = 0, nontrivial = 0, sim_ns = 0, events = 0, nsteps = 0, off = 0;
    std::string off_kind;
    std::map<std::string, uint64_t> faults, probes;
    for (auto & w : ws) {
        runs += w.sh->runs_done; nontrivial += w.sh->runs_nontrivial; sim_ns += w.sh->sim_ns; events += w.sh->events; nsteps += w.sh->steps; off += w.sh->off_target;
        if (w.sh->off_kind[0]) { off_kind = w.sh->off_kind; }
        merge(faults, w.sh->faults); merge(probes, w.sh->probes);
        for (int i = 0; i < w.sh->viol_count; ++i) { found.push_back(w.sh->viol[i]); }
        for (auto & v : w.crashes) { found.push_back(v); }
    }
    std::sort(found.begin(), found.end(), [](FoundViol const & x, FoundViol const & y) { return x.run < y.run; });

    int rv = 0;
    std::string replay_path, kind, msg;
    bool min_ok = false; int tries = 0; size_t n0 = 0, n1 = 0;
    uint64_t vrun = 0;
    if (!found.empty()) {
        rv = 2;
        sh = (Shared *) shared_alloc(sizeof(Shared));
        choices_alloc();
        int attempts = 0;
        for (auto & v : found) {
            if (++attempts > 5) { break; }
            // gate 1: the same seed twice, isolated, must agree
            Outcome o1 = run_isolated(a.seed, v.run);
            Outcome o2 = run_isolated(a.seed, v.run);
            if (!o1.violation || !o2.violation || o1.kind != o2.kind || (hash_matters(o1.kind) && o1.hash != o2.hash)) {
                fprintf(stderr, "run %llu: not reproducible (%s / %s / %s)\n", (unsigned long long) v.run, v.kind, o1.kind.c_str(), o2.kind.c_str());
                continue;
            }
            n0 = 0; for (int s = 0; s < STREAM_COUNT; ++s) { n0 += o1.c[s].size(); }
            char name[256];
            snprintf(name, sizeof(name), "%s/C%02d-seed%llu-run%llu.replay", a.out.c_str(), a.prop, (unsigned long long) a.seed, (unsigned long long) v.run);
            Outcome m = minimise(o1, o1.kind == "hang" ? std::min(40.0, a.min_budget) : a.min_budget, tries);
            Outcome const * use = &m;
            min_ok = true;
            if (!write_replay(name, m, a.seed, v.run, true, n0) || !fresh_replay(name)) {
                min_ok = false;
                use = &o1;
                if (!write_replay(name, o1, a.seed, v.run, false, n0) || !fresh_replay(name)) {
                    fprintf(stderr, "run %llu: fresh replay failed (%s)\n", (unsigned long long) v.run, o1.kind.c_str());
                    continue;
                }
            }
            run_choices(use->c, name);  // append the trace
            n1 = 0; for (int s = 0; s < STREAM_COUNT; ++s) { n1 += use->c[s].size(); }
            replay_path = name; kind = use->kind; msg = use->msg; vrun = v.run;
            rv = 1;
            break;
        }
    }
    if (!a.result.empty()) {
        FILE * f = fopen(a.result.c_str(), "w");
        if (!f) { return 2; }
        fprintf(f, "{\n  \"world\": \"%s\",\n  \"property\": \"C%02d\",\n  \"seed\": %llu,\n  \"first_run\": %llu,\n  \"runs\": %llu,\n  \"runs_nontrivial\": %llu,\n  \"requested\": %llu,\n  \"workers\": %d,\n",
                world.name, a.prop, (unsigned long long) a.seed, (unsigned long long) a.first, (unsigned long long) runs, (unsigned long long) nontrivial, (unsigned long long) a.runs, w_count);
        fprintf(f, "  \"search_s\": %.3f,\n  \"wall_s\": %.3f,\n  \"sim_s\": %.3f,\n  \"events\": %llu,\n  \"steps\": %llu,\n  \"states\": %d,\n  \"interleavings\": %d,\n  \"off_target_violations\": %llu,\n  \"off_target_kind\": %s,\n",
                search_s, now_s() - t0, (double) sim_ns * 1e-9, (unsigned long long) events, (unsigned long long) nsteps, bits(gl->states), bits(gl->runs), (unsigned long long) off, json_str(off_kind).c_str());
        put_counters(f, "faults", faults);
        put_counters(f, "probes", probes);
        fprintf(f, "  \"found\": %zu,\n", found.size());
        if (rv == 1) {
            fprintf(f, "  \"violation\": {\"run\": %llu, \"kind\": %s, \"msg\": %s, \"replay\": %s, \"minimised\": %s, \"choices_before\": %zu, \"choices_after\": %zu, \"candidates\": %d},\n",
                    (unsigned long long) vrun, json_str(kind).c_str(), json_str(msg).c_str(), json_str(replay_path).c_str(), min_ok ? "true" : "false", n0, n1, tries);
        }
        fprintf(f, "  \"rv\": %d\n}\n", rv);
        fclose(f);
    }
    printf("C%02d %s: %llu runs in %.1f s, %llu violations\n", a.prop, world.name, (unsigned long long) runs, search_s, (unsigned long long) found.size());
    if (a.keep || rv) {
        std::map<std::string, std::pair<int, FoundViol>> k;
        for (auto & v : found) { auto & e = k[v.kind]; if (!e.first) { e.second = v; } ++e.first; }
        for (auto & kv : k) { printf("  %s x%d: run %llu: %s\n", kv.first.c_str(), kv.second.first, (unsigned long long) kv.second.second.run, kv.second.second.msg); }
    }
    if (off && getenv("DST_OFF")) { printf("  off target: %llu, e.g. %s\n", (unsigned long long) off, off_kind.c_str()); }
    if (rv == 1) { printf("%s: %s\nVIOLATION property=C%02d replay=%s\n", kind.c_str(), msg.c_str(), a.prop, replay_path.c_str()); }
    if (rv == 2) { printf("ERROR: a violation could not be reproduced\n"); }
    return rv;
}

}  // namespace dst

extern "C" {
void embc_fatal(char const * file, int line, char const * msg) {
    (void) line;  // not part of the hash or the kind: survives refactoring
    if (dst::fatal_fn) { dst::fatal_fn(file, line, msg); }
    throw dst::Assertion{std::string(file ? file : "?") + ": " + (msg ? msg : "?")};
}
void * sim_malloc(size_t sz) {
    if (dst::fail_hook && dst::fail_hook(sz)) { ++dst::hs.failed; return 0; }
    return dst::alloc_raw(sz, 0xA5);
}
void * sim_calloc(size_t n, size_t sz) {
    if (dst::fail_hook && dst::fail_hook(n * sz)) { ++dst::hs.failed; return 0; }
    return dst::alloc_raw(n * sz, 0);
}
void * sim_realloc(void * p, size_t sz) {
    if (!p) { return sim_malloc(sz); }
    if (dst::fail_hook && dst::fail_hook(sz)) { ++dst::hs.failed; return 0; }
    auto it = dst::live.find((uintptr_t) p);
    if (it == dst::live.end()) { throw dst::Violation{"bad-free", "realloc of memory which is not allocated"}; }
    size_t n = std::min(it->second, sz);
    void * q = dst::alloc_raw(sz, 0xA5);
    memcpy(q, p, n);
    dst::free_raw(p);
    return q;
}
void sim_free(void * p) { if (p) { dst::free_raw(p); } }
char * sim_strdup(char const * s) {
    size_t n = strlen(s) + 1;
    char * p = (char *) sim_malloc(n);
    if (p) { memcpy(p, s, n); }
    return p;
}
}

int main(int argc, char ** argv) {
    dst::argv_ = argv;
    // same addresses in every process, where the system allows it
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DST_NO_RANDOMIZE")) {
        if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("DST_NO_RANDOMIZE", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    dst::Args a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        auto val = [&]() -> char const * { return (i + 1 < argc) ? argv[++i] : ""; };
        if (k == "--prop") { char const * v = val(); a.prop = atoi(v[0] == 'C' ? v + 1 : v); }
        else if (k == "--seed") { a.seed = strtoull(val(), 0, 0); }
        else if (k == "--runs") { a.runs = strtoull(val(), 0, 0); }
        else if (k == "--first") { a.first = strtoull(val(), 0, 0); }
        else if (k == "--wall") { a.wall = atof(val()); }
        else if (k == "--workers") { a.workers = atoi(val()); }
        else if (k == "--out") { a.out = val(); }
        else if (k == "--result") { a.result = val(); }
        else if (k == "--replay") { a.replay = val(); }
        else if (k == "--scenario") { a.scenario = val(); }
        else if (k == "--trace") { a.trace = true; }
        else if (k == "--keep") { a.keep = true; }
        else if (k == "--min") { a.min_budget = atof(val()); }
        else if (k == "--hash") { a.hash_from = atol(val()); a.hash_to = atol(val()); }
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    return dst::main_(a);
}
