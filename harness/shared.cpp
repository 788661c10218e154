// model-based replay of shared_ptr / weak_ptr / make_shared on the real code
#include "rt.hpp"
#include "../units/vp_track.hpp"
#include <nestl/implementation/shared_ptr.hpp>
using namespace rt;
typedef nestl::impl::shared_ptr<E> SP;
typedef nestl::impl::shared_ptr<const E> CSP;
typedef nestl::impl::weak_ptr<E> WP;
typedef TA<E> Al;

static std::set<const void*> objs;                 // live allocator objects
extern "C" void vp_obj_ctor(void* p) noexcept { if (!objs.insert(p).second) bad("lifetime", "allocator object constructed twice"); }
extern "C" void vp_obj_dtor(void* p) noexcept { if (!objs.erase(p)) bad("lifetime", "allocator object destroyed twice"); }

template <class T> struct Cell { alignas(T) char mem[sizeof(T)]; T& operator*() { return *reinterpret_cast<T*>(mem); } T* p() { return reinterpret_cast<T*>(mem); } };
enum { NS = 3, NW = 3, NO = 64 };
struct Obj { const E* e; int use, weak, val, al; Cell<WP>* selfw; Cell<SP>* sub; int subobj; bool alive() const { return use > 0; } };
struct World
{
    Cell<SP> s[NS]; Cell<WP> w[NW]; Cell<CSP> c; int ms[NS], mw[NW], mc; Obj o[NO]; int no; int seq;
};
static World* G;
static void own_dtor(const void* p)
{
    if (!G) return;
    for (int i = 0; i < G->no; ++i) if (G->o[i].e == p)
    {
        Obj& x = G->o[i];
        if (x.selfw) { Cell<WP>* q = x.selfw; x.selfw = 0; (**q).~WP(); memset(q->mem, 0xA5, sizeof q->mem); free(q); }
        if (x.sub) { Cell<SP>* q = x.sub; x.sub = 0; (**q).~SP(); memset(q->mem, 0xA5, sizeof q->mem); free(q); }
        x.e = 0;
    }
}
// model
static void m_release(World& g, int k)
{
    if (k < 0) return;
    Obj& x = g.o[k];
    if (--x.use == 0) { if (x.selfw || x.weak < 0) {} }
}
struct Model { int use[NO], weak[NO]; };
// recompute the counts from the roots (an object's own references count only while it is alive)
static void recount(World& g, Model& m, std::vector<int>& hasSelf, std::vector<int>& subOf)
{
    memset(&m, 0, sizeof m);
    for (int i = 0; i < NS; ++i) if (g.ms[i] >= 0) m.use[g.ms[i]]++;
    if (g.mc >= 0) m.use[g.mc]++;
    for (int i = 0; i < NW; ++i) if (g.mw[i] >= 0) m.weak[g.mw[i]]++;
    // objects kept alive by other objects: repeat in creation order (an object owns only older objects)
    for (int k = g.no - 1; k >= 0; --k) if (m.use[k] > 0)
    {
        if (hasSelf[k]) m.weak[k]++;
        if (subOf[k] >= 0) m.use[subOf[k]]++;
    }
}
static std::vector<int> hasSelf, subOf;
static void start(World& g)
{
    memset(&g, 0, sizeof g); G = &g; objs.clear(); on_dtor = own_dtor; hasSelf.assign(NO, 0); subOf.assign(NO, -1);
    for (int i = 0; i < NS; ++i) { new (g.s[i].mem) SP(); g.ms[i] = -1; }
    for (int i = 0; i < NW; ++i) { new (g.w[i].mem) WP(); g.mw[i] = -1; }
    new (g.c.mem) CSP(); g.mc = -1;
}
static void check(World& g, const char* when)
{
    Model m; recount(g, m, hasSelf, subOf);
    size_t nl = 0, nb = 0;
    for (int k = 0; k < g.no; ++k)
    {
        if (m.use[k] > 0)
        {
            ++nl;
            if (!g.o[k].e || !is_live(g.o[k].e)) bad("lifetime", "%s: object %d destroyed while owned %d times", when, k, m.use[k]);
            if (val(g.o[k].e) != g.o[k].val) bad("contents", "%s: object %d has value %d", when, k, val(g.o[k].e));
        }
        if (m.use[k] > 0 || m.weak[k] > 0) ++nb;
    }
    for (int i = 0; i < NS + 1; ++i)
    {
        int k = i < NS ? g.ms[i] : g.mc;
        const E* p = i < NS ? (*g.s[i]).get() : (*g.c).get();
        long u = i < NS ? (*g.s[i]).use_count() : (*g.c).use_count();
        bool b = i < NS ? bool(*g.s[i]) : bool(*g.c), un = i < NS ? (*g.s[i]).unique() : (*g.c).unique();
        if (k < 0 ? (p != 0 || u != 0 || b || un) : (p != g.o[k].e || u != m.use[k] || !b || un != (m.use[k] == 1)))
            bad("contents", "%s: shared_ptr %d -> object %d: get=%s use_count=%ld (expected %d) bool=%d unique=%d", when, i, k, k >= 0 && p == g.o[k].e ? "right" : p ? "wrong" : "null", u, k < 0 ? 0 : m.use[k], b, un);
        if (k >= 0 && i < NS && (&**g.s[i] != p || (*g.s[i]).operator->() != p)) bad("contents", "%s: dereference wrong", when);
    }
    for (int i = 0; i < NW; ++i)
    {
        int k = g.mw[i]; long u = (*g.w[i]).use_count(); bool ex = (*g.w[i]).expired();
        long want = k < 0 ? 0 : m.use[k];
        if (u != want || ex != (want == 0)) bad("contents", "%s: weak_ptr %d -> object %d: use_count=%ld (expected %ld) expired=%d", when, i, k, u, want, ex);
    }
    if (live.size() != nl) bad("lifetime", "%s: %zu live values, expected %zu", when, live.size(), nl);
    if (blocks.size() != nb) bad("lifetime", "%s: %zu control blocks, expected %zu", when, blocks.size(), nb);
    if (objs.size() != nb) bad("lifetime", "%s: %zu allocator objects alive, expected %zu", when, objs.size(), nb);
}
static int make(World& g, int i, int al, long fault_pos, bool dflt, int kind, int sub)
{
    // kind bit0: value holds a weak_ptr to itself, bit1: value holds a shared_ptr to what shared_ptr `sub` owns
    Err e;
    int k = -2;
    int subk = g.ms[sub];
    {
        Al a; a.id = al;
        int v = 1000 + 100 * g.no;
        struct H { E e; } h; live[&h.e] = v;
        fault_at = fault_pos; fault_no = 0; faulted = false;
        SP* tmp = g.s[i].p();
        {
            SP r(dflt ? nestl::impl::make_shared_a_nothrow<E>(e, a) : nestl::impl::make_shared_a_nothrow<E>(e, a, h.e));
            fault_at = -1;
            if (bool(e) != faulted) bad("err", "make_shared: error %d after fault %d", bool(e), faulted);
            if (e) { if (r || r.get() || r.use_count()) bad("err", "make_shared returned an object together with an error"); k = -1; }
            else
            {
                if (!r || r.use_count() != 1) bad("contents", "make_shared: use_count %ld", r.use_count());
                k = g.no++;
                Obj& o = g.o[k]; memset(&o, 0, sizeof o); o.e = r.get(); o.val = dflt ? (int)DEF : v; o.al = al;
                if (!is_live(o.e) || val(o.e) != o.val) bad("contents", "make_shared: wrong value");
                if (kind & 1) { o.selfw = (Cell<WP>*)malloc(sizeof(Cell<WP>)); new (o.selfw->mem) WP(r); hasSelf[k] = 1; }
                if ((kind & 2) && subk >= 0) { o.sub = (Cell<SP>*)malloc(sizeof(Cell<SP>)); new (o.sub->mem) SP(*g.s[sub]); subOf[k] = subk; }
                bool found_al = false;
                for (auto& b : blocks) if ((const char*)o.e >= b.first && (const char*)o.e < b.first + b.second.bytes) { found_al = true; if (b.second.id != al) bad("allocator", "make_shared used allocator %d instead of %d", b.second.id, al); }
                if (!found_al) bad("allocator", "make_shared: the value does not live in allocated storage");
                tmp->swap(r);
            }
            // r (previous content of s[i]) dies here when successful
            if (k >= 0) g.ms[i] = k;
            pin = "own";
        }
        pin = "make";
        live.erase(&h.e); live[&h.e] = 0;
    }
    return k;
}
enum Op { RESET, DTOR, COPYA, MOVEA, COPYC, MOVEC, SWAP, CCONV, CASN, CMASN, CRESET, NESTA, NESTM, MAKE, MAKEF,
          WRESET, WDTOR, WFROM, WASP, WCOPYA, WMOVEA, WCOPYC, WMOVEC, LOCK, NOPS };
static const char* opname[] = {"reset", "destroy", "copy-assign", "move-assign", "copy-construct", "move-construct", "swap", "convert-construct",
    "convert-assign", "convert-move-assign", "const reset", "assign from pointer owned by the pointee", "move-assign from pointer owned by the pointee", "make", "make with fault",
    "weak reset", "weak destroy", "weak from shared", "weak assign shared", "weak copy-assign", "weak move-assign", "weak copy-construct", "weak move-construct", "lock"};
static const char* catof(int op) { return op == MAKE || op == MAKEF ? "make" : op >= WRESET ? "weak" : "own"; }
static bool apply(World& g, int op, int i, int j)
{
    pin = catof(op);
    switch (op)
    {
    case RESET: (*g.s[i]).reset(); g.ms[i] = -1; break;
    case DTOR: (*g.s[i]).~SP(); new (g.s[i].mem) SP(nullptr); g.ms[i] = -1; break;
    case COPYA: { SP& r = (*g.s[i] = *g.s[j]); if (&r != g.s[i].p()) bad("contents", "operator= returns a different object"); g.ms[i] = g.ms[j]; break; }
    case MOVEA: if (i == j) return false; *g.s[i] = std::move(*g.s[j]); g.ms[i] = g.ms[j]; g.ms[j] = -1; break;
    case COPYC: if (i == j) return false; (*g.s[i]).~SP(); new (g.s[i].mem) SP(*g.s[j]); g.ms[i] = g.ms[j]; break;
    case MOVEC: if (i == j) return false; (*g.s[i]).~SP(); new (g.s[i].mem) SP(std::move(*g.s[j])); g.ms[i] = g.ms[j]; g.ms[j] = -1; break;
    case SWAP: (*g.s[i]).swap(*g.s[j]); std::swap(g.ms[i], g.ms[j]); break;
    case CCONV: if (i) return false; (*g.c).~CSP(); new (g.c.mem) CSP(*g.s[j]); g.mc = g.ms[j]; break;
    case CASN: if (i) return false; *g.c = *g.s[j]; g.mc = g.ms[j]; break;
    case CMASN: if (i) return false; *g.c = std::move(*g.s[j]); g.mc = g.ms[j]; g.ms[j] = -1; break;
    case CRESET: if (i || j) return false; (*g.c).reset(); g.mc = -1; break;
    case NESTA: case NESTM:
    {
        bool cc = j == 1; int k = cc ? g.mc : g.ms[i]; if ((cc && i) || j > 1 || k < 0 || !g.o[k].sub) return false;
        Cell<SP>* q = g.o[k].sub; int t = subOf[k];
        Model m; recount(g, m, hasSelf, subOf);
        if (cc) { if (op == NESTA) *g.c = **q; else { *g.c = std::move(**q); subOf[k] = -1; } g.mc = t; break; }
        if (op == NESTA) *g.s[i] = **q; else { *g.s[i] = std::move(**q); subOf[k] = -1; }
        g.ms[i] = t; break;
    }
    case MAKE: make(g, i, 1 + j, -1, j == 2, j, (i + 1) % NS); break;
    case MAKEF: make(g, i, 1, j, false, 1, (i + 1) % NS); break;
    case WRESET: if (j) return false; (*g.w[i]).reset(); g.mw[i] = -1; break;
    case WDTOR: if (j) return false; (*g.w[i]).~WP(); new (g.w[i].mem) WP(); g.mw[i] = -1; break;
    case WFROM: (*g.w[i]).~WP(); new (g.w[i].mem) WP(*g.s[j]); g.mw[i] = g.ms[j]; break;
    case WASP: *g.w[i] = *g.s[j]; g.mw[i] = g.ms[j]; break;
    case WCOPYA: *g.w[i] = *g.w[j]; g.mw[i] = g.mw[j]; break;
    case WMOVEA: if (i == j) return false; *g.w[i] = std::move(*g.w[j]); g.mw[i] = g.mw[j]; g.mw[j] = -1; break;
    case WCOPYC: if (i == j) return false; (*g.w[i]).~WP(); new (g.w[i].mem) WP(*g.w[j]); g.mw[i] = g.mw[j]; break;
    case WMOVEC: if (i == j) return false; (*g.w[i]).~WP(); new (g.w[i].mem) WP(std::move(*g.w[j])); g.mw[i] = g.mw[j]; g.mw[j] = -1; break;
    case LOCK: { Model m; recount(g, m, hasSelf, subOf); int k = g.mw[j]; bool alive = k >= 0 && m.use[k] > 0;
        { SP t((*g.w[j]).lock()); if (bool(t) != alive || (t.get() != 0) != alive || (alive && t.get() != g.o[k].e)) bad("contents", "lock of %s object gives %s", alive ? "a living" : "a destroyed", t.get() ? "a pointer" : "null");
          t.swap(*g.s[i]); g.ms[i] = alive ? k : -1; pin = "own"; } pin = "weak"; break; }
    default: return false;
    }
    check(g, opname[op]);
    return true;
}
static void finish_world(World& g)
{
    for (int i = 0; i < NW; ++i) { pin = "weak"; (*g.w[i]).~WP(); new (g.w[i].mem) WP(); g.mw[i] = -1; check(g, "destroy all"); }
    for (int i = 0; i < NS; ++i) { pin = "own"; (*g.s[i]).~SP(); new (g.s[i].mem) SP(); g.ms[i] = -1; check(g, "destroy all"); }
    (*g.c).~CSP(); new (g.c.mem) CSP(); g.mc = -1; check(g, "destroy all");
    pin = 0; G = 0;
}
struct Step { int op, i, j; };
static std::string text(const std::vector<Step>& v)
{
    std::string r; for (auto& s : v) r += S("%s(%d,%d); ", opname[s.op], s.i, s.j); return r;
}
static void run(const std::vector<Step>& v)
{
    scenario(text(v), [&]() {
        World g; start(g);
        for (auto& s : v) if (!apply(g, s.op, s.i, s.j)) { finish_world(g); return; }
        finish_world(g);
    });
}
int main(int argc, char** argv)
{
    init(argc, argv);
    guard = true;
    for (int pass = 0; pass < 1; ++pass)
    {
        std::vector<Step> all;
        for (int op = 0; op < NOPS; ++op) for (int i = 0; i < 2; ++i) for (int j = 0; j < (op == MAKE || op == MAKEF ? 3 : 2); ++j) all.push_back(Step{op, i, j});
        for (auto& a : all) run({a});
        for (auto& a : all) for (auto& b : all) run({a, b});
        // after creating an object: every sequence of three operations
        for (int kind = 0; kind < 3; ++kind) for (auto& a : all) for (auto& b : all) { run({Step{MAKE, 0, kind}, a, b}); run({Step{MAKE, 1, 0}, Step{MAKE, 0, kind}, a, b}); }
        for (auto& a : all) for (auto& b : all) run({Step{MAKE, 0, 0}, Step{WFROM, 0, 0}, a, b});
        for (auto& a : all) for (auto& b : all) run({Step{MAKE, 1, 0}, Step{MAKE, 0, 2}, Step{RESET, 1, 0}, a, b});
        for (auto& a : all) for (auto& b : all) run({Step{MAKE, 0, 0}, Step{WFROM, 0, 0}, Step{RESET, 0, 0}, a, b});
        for (auto& a : all) for (auto& b : all) run({Step{MAKE, 1, 0}, Step{MAKE, 0, 2}, Step{CASN, 0, 0}, Step{RESET, 0, 0}, a, b});
    }
    unsigned long seed = getenv("VERIF_SEED") ? strtoul(getenv("VERIF_SEED"), 0, 10) : 1;
    for (int it = 0; it < 40000 && !expired(); ++it)
    {
        unsigned long sd = seed * 1000003UL + it;
        scenario(S("random history seed=%lu", sd), [&]() {
            Rng R(sd); World g; start(g);
            int n = 3 + R(30);
            for (int k = 0; k < n && g.no < NO - 1; ++k) apply(g, R(3) == 0 ? (int)MAKE : R(NOPS), R(NS), R(3));
            finish_world(g);
        });
    }
    return finish("all sequences of up to 2 operations after 6 prefixes on 3 shared and 3 weak pointers, 40000 random histories of up to 32 operations");
}
