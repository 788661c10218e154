// Native run-time for the replay harnesses: implements the external operations that the proofs leave
// open (element type, allocator) with registries and fault injection, and catches crashes.
// A harness replays the real code of /repo on concrete inputs; it decides nothing when the proof succeeds.
#ifndef VP_RT_HPP
#define VP_RT_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <time.h>
#include <string>
#include <vector>
#include <list>
#include <set>
#include <map>
#include <unordered_map>
#include <algorithm>
#include "../units/vp_common.hpp"

namespace rt {
struct Blk { int id; size_t bytes; };
static std::unordered_map<const void*, int> live;      // element objects
static std::map<const char*, Blk> blocks;              // allocated storage
static std::vector<void*> quarantine;
static long fault_at = -1, fault_no = 0;               // fail the fault_at-th fallible environment operation
static bool faulted = false;
static sigjmp_buf jb;
static std::string desc, last_cat, last_msg;
static std::set<std::string> wanted;
static bool armed = false;
static long scenarios = 0, found = 0;
static double deadline = 0;
static long from = 0, restarts = 0; static char** g_argv; static int g_argc;
static const char* pin = 0;                             // when set, every failure is reported under this category
static const char* outpath = 0;
static std::string only;                                // replay only this scenario
enum { DEF = -7, MOVED = -9, GARBAGE = -8 };

static void (*on_dtor)(const void*) = 0;                  // what an element's own destructor does

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline void bad(const char* cat, const char* fmt, ...)
{
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    last_cat = pin ? pin : cat; last_msg = b;
    siglongjmp(jb, 1);
}
static char altstack[1 << 16];
inline void onsig(int s)
{
    if (!armed) _exit(3);
    last_cat = pin ? pin : "crash";
    last_msg = s == SIGALRM ? "does not terminate" : s == SIGABRT ? "assertion failed / abort" : "memory fault";
    siglongjmp(jb, 2);
}
inline void init(int argc, char** argv)
{
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    int sg[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM};
    for (int s : sg) sigaction(s, &sa, 0);
    double budget = 20;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--cats" && i + 1 < argc) { std::string c = argv[++i]; size_t p = 0; while (p <= c.size()) { size_t q = c.find(',', p); if (q == std::string::npos) q = c.size(); wanted.insert(c.substr(p, q - p)); p = q + 1; } }
        else if (a == "--budget" && i + 1 < argc) budget = atof(argv[++i]);
        else if (a == "--out" && i + 1 < argc) outpath = argv[++i];
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--from" && i + 1 < argc) from = atol(argv[++i]);
        else if (a == "--deadline" && i + 1 < argc) deadline = atof(argv[++i]);
        else if (a == "--restarts" && i + 1 < argc) restarts = atol(argv[++i]);
    }
    g_argv = argv; g_argc = argc;
    if (deadline == 0) deadline = now() + budget;
    setvbuf(stdout, 0, _IOLBF, 0);
    if(!getenv("VP_ERR")) freopen("/dev/null", "w", stderr);   // assert() chatter of abandoned scenarios
}
inline void reset()
{
    live.clear(); blocks.clear();
    fault_at = -1; fault_no = 0; faulted = false;
}
// guard mode: every block lies at the end of a page of its own, which becomes inaccessible when the block is released
static bool guard = false;
enum { PAGE = 4096, ARENA = 4096 };
static char* arena = 0; static size_t arena_next = 0; static std::vector<size_t> arena_freed;
inline void* get_block(size_t bytes)
{
    size_t sz = (bytes + 15) & ~size_t(15);
    if (!guard || sz > PAGE || sz == 0) return malloc(bytes ? bytes : 1);
    if (!arena) arena = (char*)mmap(0, size_t(PAGE) * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (arena_next >= ARENA) return malloc(bytes);
    return arena + PAGE * (arena_next++) + PAGE - sz;
}
inline bool retire_block(void* p)
{
    char* c = (char*)p;
    if (!arena || c < arena || c >= arena + size_t(PAGE) * ARENA) return false;
    size_t k = (c - arena) / PAGE;
    mprotect(arena + k * PAGE, PAGE, PROT_NONE);
    arena_freed.push_back(k);
    return true;
}
inline void arena_reset()
{
    for (size_t k : arena_freed) mprotect(arena + k * PAGE, PAGE, PROT_READ | PROT_WRITE);
    arena_freed.clear(); arena_next = 0;
}
inline bool expired() { return now() > deadline; }

inline bool fault()
{
    if (fault_at < 0) return false;
    if (fault_no++ == fault_at) { faulted = true; return true; }
    return false;
}
// element objects
inline int val(const E* p)
{
    auto it = live.find(p);
    if (it == live.end()) bad("lifetime", "use of a dead element");
    return it->second;
}
inline bool is_live(const E* p) { return live.count(p) != 0; }
// runs one scenario; f() does everything, reports through bad()
template <class F> void scenario(const std::string& d, F f)
{
    if (!only.empty() && only != d) return;
    if (++scenarios <= from) return;
    if (expired()) return;
    desc = d;
    reset(); arena_reset();
    pin = 0;
    armed = true;
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 2;
    setitimer(ITIMER_REAL, &tv, 0);
    int r = sigsetjmp(jb, 1);
    if (r == 0) f();
    memset(&tv, 0, sizeof tv); setitimer(ITIMER_REAL, &tv, 0);
    armed = false;
    if (r == 0) { for (void* p : quarantine) free(p); quarantine.clear(); return; }
    quarantine.clear();
    if (last_cat == "crash" || wanted.empty() || wanted.count(last_cat))
    {
        ++found;
        printf("FAIL [%s] %s\n  scenario: %s\n", last_cat.c_str(), last_msg.c_str(), d.c_str());
        fflush(stdout);
        _exit(1);
    }
    // a failure that belongs to another property: its state may be corrupt, so go on in a fresh process image
    if (restarts >= 400) { printf("PASS scenarios=%ld (the rest is masked by failures of other properties)\n", scenarios); fflush(stdout); _exit(0); }
    static char b1[40], b2[40], b3[40]; snprintf(b1, 40, "%ld", scenarios); snprintf(b2, 40, "%.3f", deadline); snprintf(b3, 40, "%ld", restarts + 1);
    static char* av[64]; int n = 0; av[n++] = g_argv[0];     // no allocation here: the heap may be damaged
    for (int i = 1; i < g_argc && n < 50; ++i)
    {
        if (!strcmp(g_argv[i], "--from") || !strcmp(g_argv[i], "--deadline") || !strcmp(g_argv[i], "--restarts")) { ++i; continue; }
        av[n++] = g_argv[i];
    }
    av[n++] = (char*)"--from"; av[n++] = b1; av[n++] = (char*)"--deadline"; av[n++] = b2; av[n++] = (char*)"--restarts"; av[n++] = b3; av[n] = 0;
    sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, 0);
    execv("/proc/self/exe", av);
    _exit(4);
}
inline int finish(const char* bound)
{
    printf("PASS scenarios=%ld bound=%s%s\n", scenarios, bound, expired() ? " (time budget reached)" : "");
    fflush(stdout);
    _exit(0);
}
inline std::string S(const char* fmt, ...)
{
    char b[800]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
struct Rng { unsigned long long s; explicit Rng(unsigned long long x) : s(x * 2654435761ULL + 88172645463325252ULL) {}
    unsigned operator()(unsigned n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return n ? (unsigned)((s >> 11) % n) : 0; } };
}

E::E() noexcept
{
    if (rt::live.count(this)) rt::bad("lifetime", "element constructed over a live element");
    rt::live[this] = rt::DEF;
}
E::~E() noexcept
{
    if (!rt::live.erase(this)) rt::bad("lifetime", "dead element destroyed");
    if (rt::on_dtor) rt::on_dtor(this);
}
static int vp_clock = 0;
extern "C" void vp_E_init_copy(Err* err, E* d, const E* s) noexcept
{
    int v = rt::val(s); rt::val(d);
    if (rt::fault()) { rt::live[d] = rt::GARBAGE; build_bad_alloc(*err); return; }
    rt::live[d] = v;
}
extern "C" void vp_E_init_move(Err* err, E* d, E* s) noexcept
{
    int v = rt::val(s); rt::val(d);
    if (rt::fault()) { rt::live[d] = rt::GARBAGE; build_bad_alloc(*err); return; }
    rt::live[s] = rt::MOVED;
    rt::live[d] = v;
}
// values carry an identity in the low digits: comparison looks at v/100 only
extern "C" bool vp_E_eq(const E* l, const E* r) noexcept { return rt::val(l) / 100 == rt::val(r) / 100; }
extern "C" bool vp_E_less(const E* l, const E* r) noexcept { return rt::val(l) / 100 < rt::val(r) / 100; }

extern "C" void* vp_allocate(int id, Err* err, std::size_t n, std::size_t size) noexcept
{
    if (rt::fault()) { build_bad_alloc(*err); return (void*)0x10; }
    if (size != 0 && n > (std::size_t(1) << 24)) { build_bad_alloc(*err); return (void*)0x10; }
    std::size_t bytes = n * size;
    char* p = (char*)rt::get_block(bytes);
    memset(p, 0xA5, bytes);
    rt::blocks[p] = rt::Blk{id, bytes};
    return p;
}
extern "C" void vp_deallocate(int id, void* p, std::size_t n, std::size_t size) noexcept
{
    if (!p) return;
    auto it = rt::blocks.find((char*)p);
    if (it == rt::blocks.end()) rt::bad("lifetime", "deallocate of a block that is not allocated");
    if (it->second.bytes != n * size) rt::bad("lifetime", "block of %zu bytes deallocated as %zu", it->second.bytes, n * size);
    if (it->second.id != id) rt::bad("allocator", "block of allocator %d returned to allocator %d", it->second.id, id);
    const char* b = (const char*)p;
    for (auto& e : rt::live) if ((const char*)e.first >= b && (const char*)e.first < b + n * size) rt::bad("lifetime", "storage released with a live element in it");
    rt::blocks.erase(it);
    if (!rt::retire_block(p)) { memset(p, 0x5A, n * size); rt::quarantine.push_back(p); }
}
#endif
