#include "rt.hpp"
#include <nestl/implementation/vector.hpp>
using namespace rt;
typedef nestl::impl::vector<E, A<E> > V;
typedef std::vector<int> M;

struct Holder { // external element with a value
    E e; explicit Holder(int v) { live[&e] = v; }
};
struct VH {      // a vector under test with its model
    alignas(V) char mem[sizeof(V)]; M m; int id; bool made;
    V& v() { return *reinterpret_cast<V*>(mem); }
    VH() : id(0), made(false) {}
    void make(int i) { A<E> a; a.id = i; id = i; new (mem) V(a); made = true; }
    void kill() { if (made) v().~V(); made = false; m.clear(); }
};

static void inv(VH& h, const char* when)
{
    V& v = h.v();
    if (v.size() != h.m.size()) bad("contents", "%s: size %zu, expected %zu", when, v.size(), h.m.size());
    if (v.empty() != h.m.empty()) bad("contents", "%s: empty() wrong", when);
    if (v.capacity() < v.size() || v.max_size() < v.size()) bad("contents", "%s: capacity/max_size below size", when);
    if (v.get_allocator().id != h.id) bad("allocator", "%s: allocator %d, expected %d", when, v.get_allocator().id, h.id);
    const V& c = v;
    if (v.begin() != c.begin() || c.begin() != c.cbegin() || v.end() != c.end() || c.end() != c.cend() ||
        v.rbegin().base() != v.end() || v.rend().base() != v.begin() || c.rbegin().base() != c.end() || c.rend().base() != c.begin() ||
        c.crbegin().base() != c.end() || c.crend().base() != c.begin() || size_t(c.end() - c.begin()) != c.size()) bad("contents", "%s: iterators disagree", when);
    for (size_t i = 0; i < h.m.size(); ++i)
    {
        if (!is_live(&v[i])) bad("lifetime", "%s: element %zu is dead", when, i);
        if (&v[i] != v.begin() + i || &c[i] != c.begin() + i) bad("contents", "%s: operator[] wrong", when);
        if (val(&v[i]) != h.m[i]) bad("contents", "%s: element %zu is %d, expected %d", when, i, val(&v[i]), h.m[i]);
    }
    if (!h.m.empty() && (&v.front() != v.begin() || &v.back() != v.end() - 1 || v.data() != v.begin() || &c.front() != c.begin() || &c.back() != c.end() - 1 || c.data() != c.begin()))
        bad("contents", "%s: front/back/data wrong", when);
    if (v.capacity())
    {
        auto it = blocks.find((const char*)&*v.begin());
        if (it == blocks.end()) bad("lifetime", "%s: storage is not an allocated block", when);
        if (it->second.bytes != v.capacity() * sizeof(E)) bad("lifetime", "%s: capacity %zu but block of %zu", when, v.capacity(), it->second.bytes);
        if (it->second.id != h.id) bad("allocator", "%s: storage of allocator %d, vector has %d", when, it->second.id, h.id);
    }
}
static void totals(std::vector<VH*> hs, size_t ext, const char* when)
{
    size_t n = ext, b = 0;
    for (VH* h : hs) if (h->made) { n += h->v().size(); b += h->v().capacity() != 0; }
    if (live.size() != n) bad("lifetime", "%s: %zu live elements, expected %zu (leak or loss)", when, live.size(), n);
    size_t nz = 0; for (auto& x : blocks) nz += x.second.bytes != 0;
    if (nz != b) bad("lifetime", "%s: %zu blocks allocated, expected %zu (leak)", when, nz, b);
}

static void build(VH& h, int id, int n, int slack, int base)
{
    h.make(id);
    Err e;
    if (n + slack) h.v().reserve_nothrow(e, n + slack);
    if (e) bad("err", "reserve failed without a fault");
    for (int i = 0; i < n; ++i)
    {
        Holder x(base + 100 * i + i);
        h.v().push_back_nothrow(e, x.e);
        if (e) bad("err", "push_back failed without a fault");
        h.m.push_back(base + 100 * i + i);
    }
    inv(h, "build");
}
// adopt what a failed operation left: the model becomes the first m of `seq`
static void after_fail(VH& h, const M& seq, size_t lo, size_t hi)
{
    size_t n = h.v().size();
    if (n < lo || n > hi) bad("err", "after the failed operation the vector has %zu elements, allowed %zu..%zu", n, lo, hi);
    for (size_t i = 0; i < n; ++i)
    {
        if (!is_live(&h.v()[i])) bad("err", "after the failed operation element %zu is dead", i);
        if (val(&h.v()[i]) != seq[i]) bad("err", "after the failed operation element %zu is %d, expected %d", i, val(&h.v()[i]), seq[i]);
    }
    h.m.assign(seq.begin(), seq.begin() + n);
}
struct InIt { // input iterator over E
    typedef std::input_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef const E* pointer; typedef const E& reference;
    const E* p; const E& operator*() const { return *p; } InIt& operator++() { ++p; return *this; }
    bool operator!=(const InIt& o) const { return p != o.p; } bool operator==(const InIt& o) const { return p == o.p; }
};

enum Op { PUSHC, PUSHM, INSC, INSM, EMPB, EMPB0, RESV, SHR, RSZ, RSZV, ASN, ASIT, ASIN, COPY, MASG, SWAP, EQ, MCTOR, NOPS };
static const char* names[] = {"push_back(const&)", "push_back(&&)", "insert(const&)", "insert(&&)", "emplace_back(x)", "emplace_back()", "reserve", "shrink_to_fit", "resize(n)", "resize(n,x)", "assign(n,x)", "assign(it)", "assign(input it)", "copy", "move-assign", "swap", "==", "move-ctor"};

// one operation with arguments a (position/count) and b (value: <0 external, else alias of own element b / other's element)
static void apply(VH& h, VH& o, Op op, int a, int b)
{
    Err e; V& v = h.v();
    Holder ext(90000 + a);
    size_t n = h.m.size(); M old = h.m; size_t cap0 = v.capacity();
    E* x = b < 0 ? &ext.e : b < (int)n ? v.begin() + b : &ext.e;
    int xv = val(x);
    size_t before = live.size();
    bool canfail = true, fail = false;
    M want = old; size_t lo = 0, hi = n; M fseq = old;
    const E* base = v.begin();
    switch (op)
    {
    case PUSHC: v.push_back_nothrow(e, *x); want.push_back(xv); lo = n; break;
    case EMPB: v.emplace_back_nothrow(e, *x); want.push_back(xv); lo = n; break;
    case EMPB0: v.emplace_back_nothrow(e); want.push_back(DEF); lo = n; break;
    case PUSHM: v.push_back_nothrow(e, std::move(ext.e)); xv = 90000 + a; want.push_back(xv); lo = n; break;
    case INSC: case INSM:
    {
        E* r;
        if (op == INSM) { xv = 90000 + a; r = v.insert_nothrow(e, v.cbegin() + a, std::move(ext.e)); }
        else r = v.insert_nothrow(e, v.cbegin() + a, *x);
        want.insert(want.begin() + a, xv); lo = a;
        if (!e && r != v.begin() + a) bad("contents", "%s returns the wrong position", names[op]);
        break;
    }
    case RESV: v.reserve_nothrow(e, a); lo = n;
        if (!e && v.capacity() < (size_t)a) bad("contents", "reserve(%d) gives capacity %zu", a, v.capacity());
        if ((size_t)a <= cap0 && (e || v.begin() != base)) bad("contents", "reserve within capacity reallocates or fails");
        break;
    case SHR: v.shrink_to_fit_nothrow(e); lo = n; if (v.capacity() > cap0) bad("contents", "shrink_to_fit grew"); break;
    case RSZ: v.resize_nothrow(e, a); want.resize(a, DEF); fseq = want; lo = n; hi = a ? a - 1 : 0; break;
    case RSZV: v.resize_nothrow(e, a, *x); want.resize(a, xv); fseq = want; lo = n; hi = a ? a - 1 : 0; break;
    case ASN: v.assign_nothrow(e, a, *x); want.assign(a, xv); fseq = want; lo = 0; hi = a; break;
    case ASIT: case ASIN:
    {
        V& s = b < 0 ? o.v() : v; M& sm = b < 0 ? o.m : old;
        size_t k = std::min<size_t>(a, sm.size());
        want.assign(sm.begin(), sm.begin() + k); fseq = want; lo = 0; hi = k;
        if (op == ASIT) v.assign_nothrow(e, s.cbegin(), s.cbegin() + k);
        else { InIt f = {s.cbegin()}, l = {s.cbegin() + k}; v.assign_nothrow(e, f, l); }
        break;
    }
    case COPY: { V& s = b < 0 ? o.v() : v; want = b < 0 ? o.m : old; fseq = want; lo = 0; hi = want.size(); v.copy_nothrow(e, s); break; }
    case MASG: v = std::move(o.v()); want = o.m; o.m.clear(); h.id = o.id; o.id = o.v().get_allocator().id; canfail = false; break;
    case SWAP: if (b < 0) { v.swap(o.v()); want = o.m; o.m = old; std::swap(h.id, o.id); } else v.swap(v); canfail = false; break;
    case EQ:
    {
        bool r = v == o.v(), w = h.m.size() == o.m.size();
        for (size_t i = 0; w && i < h.m.size(); ++i) w = h.m[i] / 100 == o.m[i] / 100;
        if (r != w) bad("contents", "== gives %d, expected %d", r, w);
        if (!(v == v)) bad("contents", "vector differs from itself");
        canfail = false; break;
    }
    case MCTOR:
    {
        VH t; new (t.mem) V(std::move(v)); t.made = true; t.id = h.id; t.m = h.m; h.m.clear();
        if (v.size() || v.capacity()) bad("contents", "moved-from vector is not empty");
        inv(t, "move-ctor"); if (v.get_allocator().id != h.id) h.id = v.get_allocator().id;
        t.kill(); want.clear(); canfail = false; break;
    }
    default: break;
    }
    (void)before;
    fail = bool(e);
    if (fail && !faulted) bad("err", "%s reports an error although nothing failed", names[op]);
    if (fail && !canfail) bad("err", "%s reports an error", names[op]);
    if (!fail && faulted && canfail) bad("err", "%s does not report the failure", names[op]);
    if (!fail) h.m = want;
    else after_fail(h, fseq, std::min(lo, hi), hi);
    if (!fail && (op == PUSHC || op == PUSHM || op == INSC || op == INSM || op == EMPB || op == EMPB0) && n < cap0 && v.begin() != base)
        bad("contents", "insertion within capacity reallocates");
}

static void one(int n, int sl, int on, int osl, Op op, int a, int b, long f, int seed2)
{
    scenario(S("v: size=%d slack=%d alloc=1; o: size=%d slack=%d alloc=2; %s a=%d b=%d fault=%ld", n, sl, on, osl, names[op], a, b, f), [&]() {
        VH h, o; build(h, 1, n, sl, 1000); build(o, 2, on, osl, 5000);
        fault_no = 0; fault_at = f; faulted = false;
        apply(h, o, op, a, b);
        fault_at = -1;
        inv(h, "after"); inv(o, "after (other)"); totals({&h, &o}, 0, "after");
        // the vector must stay usable
        Err e; Holder y(77700); faulted = false;
        h.v().push_back_nothrow(e, y.e); if (e) bad("err", "push_back after the operation fails"); h.m.push_back(77700);
        o.v().push_back_nothrow(e, y.e); if (e) bad("err", "push_back after the operation fails"); o.m.push_back(77700);
        inv(h, "follow-up"); inv(o, "follow-up"); totals({&h, &o}, 1, "follow-up");
        h.kill(); o.kill(); totals({}, 1, "destroyed");
    });
}

int main(int argc, char** argv)
{
    init(argc, argv);
    const int N = 4;
    for (int n = 0; n <= N; ++n) for (int sl = 0; sl <= 2; ++sl) for (int op = 0; op < NOPS; ++op)
    {
        int amax = 0, bmax = -1; int onmax = 1;
        switch (op)
        {
        case PUSHC: case EMPB: bmax = n - 1; break;
        case INSC: amax = n; bmax = n - 1; break;
        case INSM: amax = n; break;
        case RESV: amax = n + 6; break;
        case RSZ: amax = n + 4; break;
        case RSZV: amax = n + 4; bmax = n - 1; break;
        case ASN: amax = n + 3; bmax = n - 1; break;
        case ASIT: case ASIN: amax = 3; bmax = 0; onmax = 3; break;
        case COPY: bmax = 0; onmax = 3; break;
        case SWAP: bmax = 0; onmax = 2; break;
        case MASG: case EQ: onmax = 4; break;
        default: break;
        }
        for (int on = 0; on <= onmax; ++on) for (int osl = 0; osl <= (onmax > 1 ? 1 : 0); ++osl)
        for (int a = 0; a <= amax; ++a) for (int b = -1; b <= bmax; ++b)
        for (long f = -1; f < 2 * (n + a + on) + 6; ++f) one(n, sl, on, osl, Op(op), a, b, f, 0);
    }
    // a lookalike second vector for ==
    for (int n = 1; n <= 5; ++n) for (int d = -1; d < n; ++d)
        scenario(S("== with size=%d differing at %d", n, d), [&]() {
            VH h, o; build(h, 1, n, 0, 1000); build(o, 2, n, 1, 1000);
            if (d >= 0) { live[&o.v()[d]] = 9900; }
            bool r = h.v() == o.v(), r2 = o.v() == h.v();
            if (r != (d < 0) || r2 != (d < 0)) bad("contents", "== gives %d", r);
            h.kill(); o.kill(); totals({}, 0, "destroyed");
        });
    // larger sizes, random histories
    int big[] = {7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2049};
    for (int n : big) for (int op = 0; op < NOPS; ++op)
        for (int a : {0, 1, n / 2, n - 1, n}) for (int b : {-1, 0, n - 1}) for (long f : {-1L, 0L, 1L, 2L, 3L, (long)n / 2, (long)n, (long)n + 1})
            one(n, op % 2, 3, 0, Op(op), op == RESV || op == RSZ || op == RSZV ? a + n / 2 : a, b, f, 0);
    unsigned long seed = getenv("VERIF_SEED") ? strtoul(getenv("VERIF_SEED"), 0, 10) : 1;
    for (int it = 0; it < 20000 && !expired(); ++it)
    {
        unsigned long sd = seed * 1000003UL + it;
        scenario(S("random history seed=%lu", sd), [&]() {
            Rng R(sd); VH h, o; build(h, 1, R(6), R(3), 1000); build(o, 2, R(6), R(3), 5000);
            int steps = 3 + R(25); int mx = R(4) == 0 ? 200 : 12;
            for (int i = 0; i < steps; ++i)
            {
                int op = R(NOPS), n = h.m.size(), a = 0, b = (int)R(n + 2) - 1;
                switch (op) { case INSC: case INSM: a = R(n + 1); break; case RESV: a = R(mx); break; case RSZ: case RSZV: case ASN: case ASIT: case ASIN: a = R(mx); break; default: break; }
                fault_no = 0; faulted = false; fault_at = R(3) == 0 ? R(2 * n + 6) : -1;
                if (R(2)) apply(h, o, Op(op), a, b); else { n = o.m.size(); if (op == INSC || op == INSM) a = R(n + 1); apply(o, h, Op(op), a, b >= n ? -1 : b); }
                fault_at = -1;
                inv(h, "random"); inv(o, "random"); totals({&h, &o}, 0, "random");
            }
            h.kill(); o.kill(); totals({}, 0, "destroyed");
        });
    }
    return finish("sizes 0..4 exhaustively with every fault position, selected sizes to 2049, 20000 random histories");
}
