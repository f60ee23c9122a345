// World: an application which installs, replaces and uses the library's handlers.
// Real: lib.c, platform.c, log.c and the log macros.
// Simulated: allocators (which fail), fatal, print and log handlers (which use the library themselves), standard output.
// Reference: the handlers installed at each moment, and the calls which are due.
#include "dst.hpp"
#include <cstdarg>
#include <unistd.h>
#include <sys/mman.h>
extern "C" {
#include "embc/lib.h"
#include "embc/log.h"
void embc_fatal(char const * file, int line, char const * msg);
void embc_fatal_real(char const * file, int line, char const * msg);
void runtime_log(int level, int form, int i, char const * s, int * line);
void runtime_log_quiet(int level, int form, int i, char const * s, int * line);
void * runtime_alloc_clr(embc_size_t sz);
void runtime_contract(int which, int value, int low, int high, void const * place);
int runtime_argument(int which, int value, int low, int high, void const * place);
int runtime_argument_quiet(int which, int value, int low, int high, void const * place);
}
using namespace dst;

namespace {

constexpr uint32_t C23 = P(23);
constexpr int H = 3;        // handlers of each kind
constexpr size_t TEXT_MAX = 8191;

enum Kind { ALLOC, FREE, FATAL, PRINT, LOG, OUT };
char const * const kind_name[] = {"alloc", "free", "fatal", "print", "log", "output"};
struct Call {
    Kind kind;
    int handler;
    void * user;
    int64_t num;            // size, line
    void * ptr;
    std::string text, text2;
};

struct Block { uint8_t * p; size_t size; uint8_t v; };
struct Sim {
    // what is installed: -1 is the default
    int alloc = -1, free = -1, fatal = -1, print = -1, log = -1;
    bool heap = false, log_to_print = false;
    void * fatal_user = 0, * print_user = 0;
    std::deque<Call> due;   // calls expected from the operation in progress
    std::vector<Block> live;
    std::string out;        // what standard output should have
    int depth = 0, budget = 0, calls = 0, fail_next = 0;
};
Sim * S = 0;
int mem_fd = -1;

void operate();

void got(Call const & c) {
    Sim & s = *S;
    step();
    ++s.calls;
    ev(kind_name[c.kind], c.handler, c.num, (int64_t) c.text.size(), (int64_t) s.due.size());
    if (s.due.empty()) { violate(C23, "unexpected", "%s handler %d is called, nothing is due", kind_name[c.kind], c.handler); return; }
    Call d = s.due.front();
    s.due.pop_front();
    if (d.kind != c.kind || d.handler != c.handler) {
        violate(C23, "handler", "%s handler %d is called, due is %s handler %d", kind_name[c.kind], c.handler, kind_name[d.kind], d.handler);
        return;
    }
    if (d.user != c.user) { violate(C23, "user-data", "%s handler %d is called with user data %p, expected %p", kind_name[c.kind], c.handler, c.user, d.user); }
    if (d.num != c.num) { violate(C23, "number", "%s handler %d gets %lld, expected %lld", kind_name[c.kind], c.handler, (long long) c.num, (long long) d.num); }
    if (d.ptr != c.ptr) { violate(C23, "pointer", "%s handler %d gets another pointer", kind_name[c.kind], c.handler); }
    if (d.text != c.text || d.text2 != c.text2) {
        violate(C23, "text", "%s handler %d gets '%.60s' (%zu) '%.60s', expected '%.60s' (%zu) '%.60s'", kind_name[c.kind], c.handler,
                c.text.c_str(), c.text.size(), c.text2.c_str(), d.text.c_str(), d.text.size(), d.text2.c_str());
    }
}

// handlers use the library themselves
void inside() {
    Sim & s = *S;
    if (s.depth < 3 && s.budget > 0 && chance(APP, 1, 4)) {
        --s.budget;
        std::deque<Call> outer;
        outer.swap(s.due);
        probe("handler uses the library");
        operate();
        outer.swap(s.due);
    }
}

void * alloc_fn(int h, embc_size_t size) {
    Sim & s = *S;
    got({ALLOC, h, 0, size, 0, "", ""});
    inside();
    if (s.fail_next) { --s.fail_next; fault("allocation fails"); return 0; }
    void * p = heap_alloc((size_t) size + !size);
    memset(p, 0xA5, (size_t) size);
    return p;
}
void free_fn(int h, void * p) {
    got({FREE, h, 0, 0, p, "", ""});
    inside();
    heap_free(p);
}
void fatal_fn(int h, void * user, char const * file, int line, char const * msg) {
    Call c = {FATAL, h, user, line, 0, file ? file : "(null)", msg ? msg : "(null)"};
    got(c);
    inside();
}
void print_fn(int h, void * user, char const * text) {
    std::string t(text);
    got({PRINT, h, user, 0, 0, t, ""});
    inside();
    if (t != text) { violate(C23, "text", "the text changes while print handler %d runs", h); }
}
void log_fn(int h, char const * fmt, va_list ap) {
    std::vector<char> b(40000);
    vsnprintf(b.data(), b.size(), fmt, ap);
    got({LOG, h, 0, 0, 0, b.data(), ""});
    inside();
}
template <int N> void * alloc_n(embc_size_t n) { return alloc_fn(N, n); }
template <int N> void free_n(void * p) { free_fn(N, p); }
template <int N> void fatal_n(void * u, char const * f, int l, char const * m) { fatal_fn(N, u, f, l, m); }
template <int N> void print_n(void * u, char const * t) { print_fn(N, u, t); }
template <int N> void log_n(char const * f, ...) { va_list ap; va_start(ap, f); log_fn(N, f, ap); va_end(ap); }
embc_alloc_fn const allocs[H] = {alloc_n<0>, alloc_n<1>, alloc_n<2>};
embc_free_fn const frees[H] = {free_n<0>, free_n<1>, free_n<2>};
embc_lib_fatal_fn const fatals[H] = {fatal_n<0>, fatal_n<1>, fatal_n<2>};
embc_lib_print_fn const prints[H] = {print_n<0>, print_n<1>, print_n<2>};
embc_log_printf const logs[H] = {log_n<0>, log_n<1>, log_n<2>};

std::string text() {
    size_t n = chance(DATA, 1, 40) ? (size_t) pick(DATA, {8000, 8150, 8190, 8191, 8192, 8200, 9000, 20000}) + draw(DATA, 40) : draw(DATA, 60);
    std::string t;
    for (size_t i = 0; i < n; ++i) { t += (char) (draw(DATA, 16) ? 'a' + (int) (i % 26) : '%'); if (i > 200) { t.append(n - i, (char) ('A' + draw(DATA, 26))); break; } }
    return t;
}

// text through the print handler, or to standard output
void due_print(std::string const & t) {
    Sim & s = *S;
    if (s.print < 0) {
        s.out += t;
        if (t.size()) { probe("text to standard output"); }
    } else {
        if (t.size() > TEXT_MAX) { probe("text is truncated"); }
        s.due.push_back({PRINT, s.print, s.print_user, 0, 0, t.substr(0, TEXT_MAX), ""});
    }
}
void due_fatal(std::string const & file, int line, std::string const & msg) {
    Sim & s = *S;
    if (s.fatal < 0) { due_print("FATAL: " + file + " : " + std::to_string(line) + " : " + msg); }
    else { s.due.push_back({FATAL, s.fatal, s.fatal_user, line, 0, file, msg}); }
}

// fatal errors which the library raises itself: file and line are its own
bool own_fatal;
std::string own_msg;
void on_fatal(char const * file, int line, char const * msg) {
    if (!own_fatal) { violate(C23, "fatal", "'%s' is reported, nothing was wrong", msg); return; }
    own_fatal = false;
    if (!file || !*file || line <= 0 || !msg || !*msg) { violate(C23, "fatal", "an incomplete report"); }
    due_fatal(file, line, msg);
    embc_fatal_real(file, line, msg);
    own_msg = msg;   // handlers may have met errors of their own
    if (S->due.size()) { violate(C23, "lost", "%s handler %d was not called", kind_name[S->due.front().kind], S->due.front().handler); }
}

void check_stdout() {
    Sim & s = *S;
    fflush(stdout);
    off_t n = lseek(mem_fd, 0, SEEK_END);
    std::string t((size_t) std::max<off_t>(n, 0), 0);
    if (n > 0 && pread(mem_fd, &t[0], t.size(), 0) != n) { t.clear(); }
    if (t != s.out) { violate(C23, "stdout", "standard output has '%.60s' (%zu), expected '%.60s' (%zu)", t.c_str(), t.size(), s.out.c_str(), s.out.size()); }
}

int user_data[4];

std::string captured;
void capture(char const * fmt, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    captured += b;
}

// contract and argument checks of the application: what they decide and where the report goes
void contract() {
    int near = (int) draw(DATA, 4);
    auto number = [near](int of) -> int {
        switch (draw(DATA, 4)) {
            case 0: return of;   // most often the boundary
            case 1: return (int) ((unsigned) of + draw(DATA, 5) - 2);
            case 2: return near ? (int) draw(DATA, 7) - 3 : (int) draw_u32(DATA);
            default: return pick<int>(DATA, {0, 1, -1, INT32_MAX, INT32_MIN, 256, -256, 65536});
        }
    };
    int low = number(0), high = number(low), value = number(chance(DATA, 1, 2) ? low : high);
    if (high < low) { std::swap(low, high); }
    void const * place = chance(DATA, 1, 2) ? &user_data[draw(DATA, 4)] : 0;
    bool between = value >= low && value <= high;
    if (chance(APP, 1, 2)) {
        int which = (int) draw(APP, 20);
        bool const good[] = {!!value, !!place, !!value, !!value, !value, !!place, value == low, value > low, value >= low, value != low,
            value < low, value <= low, value > 0, value >= 0, value != 0, value < 0, value <= 0, between, !!value, false};
        bool fail = !good[which];
        own_fatal = fail;
        own_msg.clear();
        bool bad = asserts([&]() { runtime_contract(which, value, low, high, place); });
        ev("contract", which, fail, bad);
        if (bad != fail || own_fatal) { violate(C23, "contract", "contract check %d of %d (%d, %d) %s", which, value, low, high, bad ? "is fatal" : "goes on"); own_fatal = false; }
        if (fail) { probe("contract broken"); }
        char const * say = which == 0 || which == 1 ? "" : which == 5 ? "place" : "value";
        if (fail && bad && own_msg.find(say) == std::string::npos) { violate(C23, "contract", "contract check %d reports '%.60s'", which, own_msg.c_str()); }
    } else {
        int which = (int) draw(APP, 11);
        bool const good[] = {!!value, !!value, !value, !!place, value > 0, value >= 0, value != 0, value < 0, value <= 0, between, !!value};
        bool fail = !good[which], quiet = chance(APP, 1, 4);
        auto * fn = quiet ? runtime_argument_quiet : runtime_argument;
        auto keep = embc_log_printf_;
        captured.clear();
        embc_log_initialize(capture);
        fn(which, value, low, high, place);
        embc_log_initialize(keep);
        if ((fail && !quiet) == captured.empty()) { violate(C23, "argument", "argument check %d of %d (%d, %d) logs '%.60s'", which, value, low, high, captured.c_str()); }
        else if (captured.size() && (captured[0] != 'I' || captured.find(which == 3 ? "place" : "value") == std::string::npos)) { violate(C23, "argument", "argument check %d logs '%.60s'", which, captured.c_str()); }
        Sim & s = *S;
        if (captured.size()) {
            if (s.log_to_print) { due_print(captured); }
            else if (s.log >= 0) { s.due.push_back({LOG, s.log, 0, 0, 0, captured, ""}); }
        }
        int rc = fn(which, value, low, high, place);
        ev("argument", which, fail, rc, quiet);
        if (!!rc != fail) { violate(C23, "argument", "argument check %d of %d (%d, %d) returns %d", which, value, low, high, rc); }
        if (fail) { probe("argument refused"); }
    }
}

void operate() {
    Sim & s = *S;
    ++s.depth;
    step();
    int h = (int) draw(APP, H + 1) - 1;
    void * user = chance(APP, 1, 5) ? 0 : &user_data[draw(APP, 4)];
    switch (draw(APP, 15)) {
        case 0:
            ev("lib_initialize");
            embc_lib_initialize();
            s.heap = true; s.alloc = s.free = -1;
            break;
        case 1: {
            int f = (int) draw(APP, H + 1) - 1;
            ev("allocator_set", h, f);
            embc_allocator_set(h < 0 ? 0 : allocs[h], f < 0 ? 0 : frees[f]);
            s.heap = false; s.alloc = h; s.free = f;
            break;
        }
        case 2:
            ev("fatal_set", h);
            s.fatal = h; s.fatal_user = user;
            embc_lib_fatal_set(h < 0 ? 0 : fatals[h], user);
            break;
        case 3:
            ev("print_set", h);
            s.print = h; s.print_user = user; s.log_to_print = true;
            embc_lib_print_set(h < 0 ? 0 : prints[h], user);
            break;
        case 4:
            ev("log_initialize", h);
            s.log = h; s.log_to_print = false;
            if (h < 0 && chance(APP, 1, 2)) { embc_log_finalize(); }
            else if (embc_log_initialize(h < 0 ? 0 : logs[h])) { violate(C23, "log-init", "embc_log_initialize fails"); }
            break;
        case 5: case 6: {   // a fatal error of the application
            std::string f = text(), m = text();
            int line = (int) draw(DATA, 100000);
            ev("fatal", line);
            due_fatal(f, line, m);
            embc_fatal_real(f.c_str(), line, m.c_str());
            break;
        }
        case 7: case 8: {   // log
            int level = (int) draw(APP, 10), form = (int) draw(APP, 4), line = 0, i = (int) draw_u32(DATA);
            bool quiet = chance(APP, 1, 4);
            std::string t = text(), m;
            switch (form) {
                case 0: m = t; break;
                case 1: m = std::to_string(i) + ":" + t; break;
                case 2: m = "fixed text"; break;
                default: m = "x " + std::to_string(i) + " " + t + " " + std::to_string((unsigned) i) + " 1 2 3 4 5"; break;
            }
            ev("log", level, form, quiet);
            // the line is known only from the call: the text is completed by a first, unlogged, pass
            auto keep = embc_log_printf_;
            embc_log_initialize(0);
            (quiet ? runtime_log_quiet : runtime_log)(level, form, i, t.c_str(), &line);
            embc_log_initialize(keep);
            if (!quiet || level <= 4) {
                std::string full = std::string(1, "!ACEWNIDDD"[level]) + " runtime_c.c:" + std::to_string(line) + ": " + m + "\n";
                if (s.log_to_print) { due_print(full); }
                else if (s.log >= 0) { s.due.push_back({LOG, s.log, 0, 0, 0, full, ""}); }
            }
            (quiet ? runtime_log_quiet : runtime_log)(level, form, i, t.c_str(), &line);
            break;
        }
        case 9: case 10: {   // allocate
            embc_size_t n = chance(DATA, 1, 10) ? pick<int>(DATA, {1, 4096, 65536, 100000}) : 1 + (embc_size_t) draw(DATA, 200);
            int how = (int) draw(APP, 3);
            bool fail = s.alloc < 0 && !s.heap;
            if (s.alloc >= 0) {
                s.due.push_back({ALLOC, s.alloc, 0, n, 0, "", ""});
                if (chance(APP, 1, 6)) { s.fail_next = 1; fail = true; }
            } else if (s.heap && chance(APP, 1, 6)) {
                int k = 1;
                heap_fail_hook([k](size_t) mutable { if (k) { --k; fault("allocation fails"); return true; } return false; });
                fail = true;
            }
            if (fail) { s.budget = 0; }   // the failure is for this request
            own_fatal = fail;
            uint8_t * p = 0;
            bool bad = asserts([&]() { p = (uint8_t *) (how == 0 ? embc_lib_alloc(n) : how == 1 ? runtime_alloc_clr(n) : embc_alloc(n)); });
            heap_fail_hook(nullptr);
            s.fail_next = 0;
            ev("allocate", how, n, fail, bad);
            if (bad != fail) { violate(C23, "alloc", "an allocation of %ld bytes %s", (long) n, bad ? "is fatal" : "which cannot succeed goes on"); }
            if (own_fatal) { violate(C23, "alloc", "a failed allocation was not reported"); own_fatal = false; }
            if (bad) { break; }
            if (!p || !heap_owns(p, (size_t) n)) { violate(C23, "alloc", "memory which the allocator did not provide"); break; }
            for (auto & b : s.live) { if (p < b.p + b.size && b.p < p + n) { violate(C23, "alloc", "memory which is in use"); break; } }
            if (how < 2) { for (embc_size_t k = 0; k < n; ++k) { if (p[k]) { violate(C23, "clear", "byte %ld of %ld is not clear", (long) k, (long) n); break; } } }
            Block b = {p, (size_t) n, (uint8_t) draw(DATA, 256)};
            memset(p, b.v, b.size);
            s.live.push_back(b);
            break;
        }
        case 13: case 14: contract(); break;
        default: {   // free
            bool lib = chance(APP, 1, 2);
            if (chance(APP, 1, 8)) {
                own_fatal = !lib;
                bool bad = asserts([&]() { if (lib) { embc_lib_free(0); } else { embc_free(0); } });
                ev("free_null", lib, bad);
                if (bad == lib || own_fatal) { violate(C23, "free-null", "%s of null %s", lib ? "embc_lib_free" : "embc_free", bad ? "is fatal" : "goes on"); own_fatal = false; }
                break;
            }
            if (s.live.empty()) { break; }
            size_t k = draw(APP, (uint32_t) s.live.size());
            Block b = s.live[k];
            for (size_t i = 0; i < b.size; ++i) { if (b.p[i] != b.v) { violate(C23, "content", "byte %zu of an allocation changed", i); break; } }
            bool fail = s.free < 0 && !s.heap;
            if (!fail) { s.live.erase(s.live.begin() + (long) k); }
            if (s.free >= 0) { s.due.push_back({FREE, s.free, 0, 0, b.p, "", ""}); }
            own_fatal = fail;
            bool bad = asserts([&]() { if (lib) { embc_lib_free(b.p); } else { embc_free(b.p); } });
            ev("release", lib, fail, bad);
            if (bad != fail || own_fatal) { violate(C23, "free", "a free %s", bad ? "is fatal" : "without a handler goes on"); own_fatal = false; }
            if (!fail && heap_owns(b.p, b.size)) { violate(C23, "free", "the memory was not given back"); }
            break;
        }
    }
    if (s.due.size()) { violate(C23, "lost", "%s handler %d was not called", kind_name[s.due.front().kind], s.due.front().handler); s.due.clear(); }
    --s.depth;
}

struct Redirect {
    int saved;
    Redirect() {
        fflush(stdout);
        if (mem_fd < 0) { mem_fd = memfd_create("stdout", 0); }
        if (mem_fd >= 0 && ftruncate(mem_fd, 0)) {}
        lseek(mem_fd, 0, SEEK_SET);
        saved = dup(1);
        dup2(mem_fd, 1);
    }
    ~Redirect() { fflush(stdout); dup2(saved, 1); close(saved); }
};

void run_world() {
    set_step_limit(20000);
    Sim sim;
    S = &sim;
    own_fatal = false;
    fatal_hook(on_fatal);
    embc_lib_fatal_set(0, 0);
    embc_lib_print_set(0, 0);
    embc_log_initialize(0);
    embc_allocator_set(0, 0);
    int n = 5 + (int) draw(CFG, 75);
    int chatty = pick(CFG, {0, 2, 8});
    note("operations %d", n);
    Redirect r;
    for (int i = 0; i < n; ++i) {
        sim.budget = chatty;
        operate();
        cover(mix2(mix2((uint64_t) (sim.alloc + 1) * 100 + (uint64_t) (sim.free + 1) * 10 + sim.heap, (uint64_t) (sim.fatal + 1) * 100 + (uint64_t) (sim.print + 1) * 10 + (uint64_t) (sim.log + 1)), sim.log_to_print));
    }
    check_stdout();
    for (int i = 0; i <= EMBC_LOG_LEVEL_ALL; ++i) {
        static char const * const names[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG", "DEBUG2", "DEBUG3", "ALL"};
        char const * t = embc_log_level_str[i];
        if (!t || strncmp(t, names[i], 4) || (i == 9 && t[5] != '3') || (i == 8 && t[5] != '2')) { violate(C23, "level-name", "level %d is named %s", i, t ? t : "(null)"); }
    }
    if (sim.calls > 3) { nontrivial(); }
}

}  // namespace

namespace dst {
World const world = {"runtime", {23}, run_world, {}};
}
