#include "rt.hpp"
#include <functional>
#include <nestl/implementation/list.hpp>
using namespace rt;
typedef nestl::impl::list<E, A<E> > L;
typedef nestl::impl::list_node_base NB;
typedef std::vector<int> M;

struct Holder { E e; explicit Holder(int v) { live[&e] = v; } };
struct LH {
    alignas(L) char mem[sizeof(L)]; M m; int id; bool made;
    L& v() { return *reinterpret_cast<L*>(mem); }
    LH() : id(0), made(false) {}
    void make(int i) { A<E> a; a.id = i; id = i; new (mem) L(a); made = true; }
    void kill() { if (made) v().~L(); made = false; m.clear(); }
    L::iterator at(int i) { L::iterator it = v().begin(); while (i-- > 0) ++it; return it; }
    L::const_iterator cat(int i) { return L::const_iterator(at(i)); }
};
static const char* C = "contents";     // category of a wrong sequence

static void inv(LH& h, const char* when)
{
    L& v = h.v(); const L& c = v;
    size_t n = h.m.size();
    std::vector<NB*> nodes;
    NB* e = v.end().get_list_node();
    for (L::iterator it = v.begin(); it != v.end(); ++it)
    {
        NB* p = it.get_list_node();
        if (nodes.size() > n + 3) bad(C, "%s: more elements than expected or a cycle", when);
        auto b = blocks.find((const char*)p);
        if (b == blocks.end()) bad("lifetime", "%s: node %zu is not allocated", when, nodes.size());
        if (b->second.id != h.id) bad("allocator", "%s: node of allocator %d in a list with allocator %d", when, b->second.id, h.id);
        nodes.push_back(p);
    }
    if (nodes.size() != n) bad(C, "%s: %zu elements, expected %zu", when, nodes.size(), n);
    size_t i = n;
    L::const_iterator ci = c.end();
    while (i > 0)
    {
        --ci; --i;
        if (ci.get_list_node() != nodes[i]) bad(C, "%s: backward links differ at %zu", when, i);
    }
    if (ci != c.begin() || c.cbegin() != c.begin() || c.cend() != c.end() || c.end().get_list_node() != e || v.begin().get_list_node() != c.begin().get_list_node()) bad(C, "%s: iterators disagree", when);
    if (v.rbegin().base() != v.end() || v.rend().base() != v.begin() || c.rbegin().base() != c.end() || c.rend().base() != c.begin() || c.crbegin().base() != c.end() || c.crend().base() != c.begin())
        bad(C, "%s: reverse iterators disagree", when);
    if (v.size() != n || v.empty() != (n == 0)) bad(C, "%s: size() gives %zu, expected %zu", when, v.size(), n);
    if (v.get_allocator().id != h.id) bad("allocator", "%s: allocator %d, expected %d", when, v.get_allocator().id, h.id);
    i = 0;
    for (L::iterator it = v.begin(); it != v.end(); ++it, ++i)
    {
        if (!is_live(&*it)) bad("lifetime", "%s: element %zu is dead", when, i);
        if (val(&*it) != h.m[i]) bad(C, "%s: element %zu is %d, expected %d", when, i, val(&*it), h.m[i]);
        if (it.operator->() != &*it || &*L::const_iterator(it) != &*it) bad(C, "%s: iterator access", when);
    }
    if (n && (&v.front() != &*v.begin() || &c.front() != &*c.begin() || val(&v.back()) != h.m[n - 1] || &c.back() != &v.back())) bad(C, "%s: front/back", when);
}
static void totals(std::vector<LH*> hs, size_t ext, const char* when)
{
    size_t n = ext, b = 0;
    for (LH* h : hs) if (h->made) { n += h->m.size(); b += h->m.size(); }
    if (live.size() != n) bad("lifetime", "%s: %zu live elements, expected %zu", when, live.size(), n);
    if (blocks.size() != b) bad("lifetime", "%s: %zu blocks allocated, expected %zu", when, blocks.size(), b);
}
static void build(LH& h, int id, const M& m)
{
    h.make(id);
    for (int x : m)
    {
        Err e; Holder y(x);
        h.v().push_back_nothrow(e, y.e);
        if (e) bad("err", "push_back failed without a fault");
        h.m.push_back(x);
    }
    inv(h, "build");
}
struct InIt {
    typedef std::input_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef const E* pointer; typedef const E& reference;
    const E* p; const E& operator*() const { return *p; } InIt& operator++() { ++p; return *this; }
    bool operator!=(const InIt& o) const { return p != o.p; } bool operator==(const InIt& o) const { return p == o.p; }
};
struct Arr { E e[8]; Arr() { for (int i = 0; i < 8; ++i) live[e + i] = 60000 + 101 * i; } };
enum Op { PBC, PBM, EB, EB0, PFC, PFM, EF, INSC, INSM, EMP, EMP0, INSN, INSIT, POPB, POPF, ER, ERR, CLR, ASN, ASIT, ASLI, COPY, MASG, SWAP, EQ, MCTOR, SPL, SPLR, SPL1, SPL1R, SPLN, SPLNR, NOPS };
static const char* names[] = {"push_back(const&)", "push_back(&&)", "emplace_back(x)", "emplace_back()", "push_front(const&)", "push_front(&&)", "emplace_front(x)", "insert(const&)", "insert(&&)", "emplace(x)", "emplace()", "insert(n,x)", "insert(it)", "pop_back", "pop_front", "erase", "erase(range)", "clear", "assign(n,x)", "assign(it)", "assign(list iterators)", "copy", "move-assign", "swap", "==", "move-ctor", "splice(list)", "splice(list&&)", "splice(one)", "splice(one,&&)", "splice(range)", "splice(range,&&)"};

// a: position, b: second position / count, c: third (position in the other list or aliased element), self: other list is the list itself
static void apply(LH& h, LH& o, Op op, int a, int b, int c, bool self)
{
    Err e; L& v = h.v(); Holder ext(90000 + a); Arr arr;
    int n = h.m.size(); M old = h.m, want = old;
    LH& s = self ? h : o; M olds = s.m, wants = olds;
    E* x = c < 0 || c >= n ? &ext.e : &*h.at(c);
    int xv = val(x);
    bool canfail = true, part = false; int base = 0, cnt = 0; int pos = a; // failed runs: some of the cnt elements were added at pos
    M run;
    std::vector<NB*> keep; for (L::iterator it = v.begin(); it != v.end(); ++it) keep.push_back(it.get_list_node());
    switch (op)
    {
    case PBC: v.push_back_nothrow(e, *x); want.push_back(xv); break;
    case PBM: v.push_back_nothrow(e, std::move(ext.e)); want.push_back(90000 + a); break;
    case EB: v.emplace_back_nothrow(e, *x); want.push_back(xv); break;
    case EB0: v.emplace_back_nothrow(e); want.push_back(DEF); break;
    case PFC: v.push_front_nothrow(e, *x); want.insert(want.begin(), xv); break;
    case PFM: v.push_front_nothrow(e, std::move(ext.e)); want.insert(want.begin(), 90000 + a); break;
    case EF: v.emplace_front_nothrow(e, *x); want.insert(want.begin(), xv); break;
    case INSC: case INSM: case EMP: case EMP0:
    {
        L::iterator r = op == INSC ? v.insert_nothrow(e, h.cat(a), *x) : op == INSM ? v.insert_nothrow(e, h.cat(a), std::move(ext.e)) : op == EMP ? v.emplace_nothrow(e, h.cat(a), *x) : v.emplace_nothrow(e, h.cat(a));
        want.insert(want.begin() + a, op == INSM ? 90000 + a : op == EMP0 ? int(DEF) : xv);
        if (!e && r != h.at(a)) bad(C, "%s returns the wrong position", names[op]);
        break;
    }
    case INSN: v.insert_nothrow(e, h.cat(a), (size_t)b, *x); run.assign(b, xv); part = true; break;
    case INSIT: v.insert_nothrow(e, h.cat(a), (const E*)arr.e, (const E*)arr.e + b); for (int i = 0; i < b; ++i) run.push_back(60000 + 101 * i); part = true; break;
    case POPB: v.pop_back(); want.pop_back(); canfail = false; break;
    case POPF: v.pop_front(); want.erase(want.begin()); canfail = false; break;
    case ER: { L::iterator r = v.erase(h.cat(a)); want.erase(want.begin() + a); if (r != h.at(a)) bad(C, "erase returns the wrong position"); canfail = false; break; }
    case ERR: { L::iterator r = v.erase(h.cat(a), h.cat(b)); want.erase(want.begin() + a, want.begin() + b); if (r != h.at(a)) bad(C, "erase(range) returns the wrong position"); canfail = false; break; }
    case CLR: v.clear(); want.clear(); canfail = false; break;
    case ASN: v.assign_nothrow(e, (size_t)b, ext.e); want.clear(); run.assign(b, 90000 + a); part = true; pos = 0; break;
    case ASIT: { if (c < 0) v.assign_nothrow(e, (const E*)arr.e, (const E*)arr.e + b); else { InIt f = {arr.e}, l = {arr.e + b}; v.assign_nothrow(e, f, l); } want.clear(); for (int i = 0; i < b; ++i) run.push_back(60000 + 101 * i); part = true; pos = 0; break; }
    case ASLI: v.assign_nothrow(e, o.v().cbegin(), o.v().cend()); want.clear(); run = o.m; part = true; pos = 0; break;
    case COPY: v.copy_nothrow(e, s.v()); if (!self) { want.clear(); run = o.m; part = true; pos = 0; } break;
    case MASG: v = std::move(o.v()); want = o.m; wants.clear(); h.id = o.id; o.id = o.v().get_allocator().id; canfail = false; break;
    case SWAP: v.swap(s.v()); if (!self) { want = olds; wants = old; std::swap(h.id, o.id); } canfail = false; break;
    case EQ:
    {
        bool r = v == s.v(), w = h.m.size() == s.m.size();
        for (size_t i = 0; w && i < h.m.size(); ++i) w = h.m[i] / 100 == s.m[i] / 100;
        if (r != w) bad(C, "== gives %d, expected %d", r, w);
        canfail = false; break;
    }
    case MCTOR:
    {
        LH t; new (t.mem) L(std::move(v)); t.made = true; t.id = h.id; t.m = h.m; h.m.clear();
        inv(t, "move-ctor"); h.id = v.get_allocator().id; inv(h, "move-ctor source");
        t.kill(); want.clear(); canfail = false; break;
    }
    case SPL: case SPLR: if (op == SPL) v.splice(h.cat(a), o.v()); else v.splice(h.cat(a), std::move(o.v())); want.insert(want.begin() + a, olds.begin(), olds.end()); wants.clear(); canfail = false; break;
    case SPL1: case SPL1R: case SPLN: case SPLNR:
    {
        bool one = op == SPL1 || op == SPL1R; int f = b, l = one ? b + 1 : c;
        // keep the reference to the position: elements move, iterators stay with them
        if (op == SPL1) v.splice(h.cat(a), s.v(), s.cat(f)); else if (op == SPL1R) v.splice(h.cat(a), std::move(s.v()), s.cat(f));
        else if (op == SPLN) v.splice(h.cat(a), s.v(), s.cat(f), s.cat(l)); else v.splice(h.cat(a), std::move(s.v()), s.cat(f), s.cat(l));
        M moved(olds.begin() + f, olds.begin() + l);
        if (self)
        {
            if (a > f && a < l) { /* only the one-element no-op reaches here */ }
            else { want.erase(want.begin() + f, want.begin() + l); int p = a <= f ? a : a - (l - f); want.insert(want.begin() + p, moved.begin(), moved.end()); }
        }
        else { want.insert(want.begin() + a, moved.begin(), moved.end()); wants.erase(wants.begin() + f, wants.begin() + l); }
        canfail = false; break;
    }
    default: break;
    }
    (void)base; (void)cnt;
    if (part) { M w0 = want; want.insert(want.begin() + pos, run.begin(), run.end());
        if (e)
        {
            size_t k = v.size() - w0.size();
            if (k >= run.size() || v.size() < w0.size()) bad("err", "%s: after the failure %zu elements", names[op], v.size());
            want = w0; want.insert(want.begin() + pos, run.begin(), run.begin() + k);
        } }
    else if (e) want = old;
    bool fail = bool(e);
    if (fail && !faulted) bad("err", "%s reports an error although nothing failed", names[op]);
    if (fail && !canfail) bad("err", "%s reports an error", names[op]);
    if (!fail && faulted) bad("err", "%s does not report the failure", names[op]);
    h.m = want; if (!self) o.m = wants;
    if (fail)
    {
        const char* c0 = C; C = "err"; inv(h, "after the failed operation"); C = c0;
    }
    // elements that stay are not moved to other nodes
    if (op <= INSIT && !fail) { size_t found = 0; for (L::iterator it = v.begin(); it != v.end() && found < keep.size(); ++it) if (it.get_list_node() == keep[found]) ++found; if (found != keep.size()) bad(C, "%s moves existing elements", names[op]); }
}
static M seqm(int n, int base) { M m; for (int i = 0; i < n; ++i) m.push_back(base + 101 * i); return m; }
static void one(int n, int on, Op op, int a, int b, int c, bool self, long f)
{
    bool sameal = op >= SPL;
    scenario(S("l: size=%d; o: size=%d; %s a=%d b=%d c=%d self=%d fault=%ld", n, on, names[op], a, b, c, self, f), [&]() {
        LH h, o; build(h, 1, seqm(n, 1000)); build(o, sameal ? 1 : 2, seqm(on, 5000));
        fault_no = 0; fault_at = f; faulted = false;
        apply(h, o, op, a, b, c, self);
        fault_at = -1; faulted = false;
        inv(h, "after"); inv(o, "after (other)"); totals({&h, &o}, 0, "after");
        Err e; Holder y(77700);
        h.v().push_back_nothrow(e, y.e); if (e) bad("err", "push_back after the operation fails"); h.m.push_back(77700);
        o.v().push_front_nothrow(e, y.e); if (e) bad("err", "push_front after the operation fails"); o.m.insert(o.m.begin(), 77700);
        inv(h, "follow-up"); inv(o, "follow-up"); totals({&h, &o}, 1, "follow-up");
        h.kill(); o.kill(); totals({}, 1, "destroyed");
    });
}
static bool lessv(int a, int b) { return a / 100 < b / 100; }
struct ByVal { bool operator()(const E& l, const E& r) const { return l < r; } };
struct Desc { bool operator()(const E& l, const E& r) const { return r < l; } };
static bool gtv(int a, int b) { return lessv(b, a); }
static void sortit(const M& m, int how)
{
    std::string d; if (m.size() <= 24) for (int x : m) d += S("%d ", x); else d = S("%zu elements hash %ld", m.size(), (long)std::hash<std::string>()(std::string((const char*)m.data(), m.size() * 4)) % 100000);
    scenario(S("sort%d: %s", how, d.c_str()), [&]() {
        LH h; build(h, 0, m);
        C = "order";
        std::map<NB*, int> who; for (L::iterator it = h.v().begin(); it != h.v().end(); ++it) who[it.get_list_node()] = val(&*it);
        if (how == 0) h.v().sort(); else if (how == 1) h.v().sort(ByVal()); else h.v().sort(Desc());
        if (how == 2) std::stable_sort(h.m.begin(), h.m.end(), gtv); else std::stable_sort(h.m.begin(), h.m.end(), lessv);
        inv(h, "sort"); totals({&h}, 0, "sort");
        for (L::iterator it = h.v().begin(); it != h.v().end(); ++it) if (!who.count(it.get_list_node()) || who[it.get_list_node()] != val(&*it)) bad("order", "sort does not keep elements in their nodes");
        h.kill(); totals({}, 0, "destroyed");
        C = "contents";
    });
    C = "contents";
}
static void mergeit(M a, M b, int how)
{
    bool (*lt)(int, int) = how == 4 ? gtv : lessv;
    std::stable_sort(a.begin(), a.end(), lt); std::stable_sort(b.begin(), b.end(), lt);
    std::string d; for (int x : a) d += S("%d ", x); d += "+ "; for (int x : b) d += S("%d ", x); if (d.size() > 300) d = S("%zu and %zu elements hash %ld", a.size(), b.size(), (long)(std::hash<std::string>()(d) % 100000));
    scenario(S("merge%d: %s", how, d.c_str()), [&]() {
        LH h, o; build(h, 1, a); build(o, 1, b);
        C = "order";
        switch (how) { case 0: h.v().merge(o.v()); break; case 1: h.v().merge(std::move(o.v())); break; case 2: h.v().merge(o.v(), ByVal()); break; case 3: h.v().merge(std::move(o.v()), ByVal()); break; default: h.v().merge(o.v(), Desc()); }
        M w; std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w), lt);
        h.m = w; o.m.clear();
        inv(h, "merge"); inv(o, "merge (other)"); totals({&h, &o}, 0, "merge");
        h.kill(); o.kill(); totals({}, 0, "destroyed");
        C = "contents";
    });
    C = "contents";
}

int main(int argc, char** argv)
{
    init(argc, argv);
    bool wantorder = wanted.empty() || wanted.count("order");
    if (wantorder)
    {
        for (int n = 0; n <= 7; ++n) { M m(n); long tot = 1; for (int i = 0; i < n; ++i) tot *= 3; for (long c = 0; c < tot; ++c) { long x = c; for (int i = 0; i < n; ++i) { m[i] = 1000 + 100 * (x % 3) + i; x /= 3; } sortit(m, c % 3 == 0 ? 2 : c % 2); } }
        for (int n = 0; n <= 4; ++n) for (int k = 0; k <= 4; ++k) for (int c = 0; c < 243; ++c) { M a, b; int x = c; for (int i = 0; i < n; ++i) { a.push_back(1000 + 100 * (x % 3) + i); x = x * 7 / 3 + 1; } x = c * 5 + 1; for (int i = 0; i < k; ++i) { b.push_back(1000 + 100 * (x % 3) + 50 + i); x = x / 3 + c; } mergeit(a, b, c % 5); }
        Rng R(getenv("VERIF_SEED") ? strtoul(getenv("VERIF_SEED"), 0, 10) : 1);
        for (int it = 0; it < 3000 && !expired(); ++it) { int n = R(it % 100 == 0 ? 5000 : 90); M m; for (int i = 0; i < n; ++i) m.push_back(1000 + 100 * R(1 + R(40)) + i % 100); sortit(m, it % 3); if (it % 3 == 0) { M b; for (int i = 0; i < (int)R(40); ++i) b.push_back(1000 + 100 * R(20) + 50 + i % 50); if (n < 200) mergeit(m, b, R(5)); } }
        for (int n : {127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097}) for (int p = 0; p < 4; ++p) { M m; for (int i = 0; i < n; ++i) m.push_back(1000 + 100 * (p == 0 ? i : p == 1 ? n - i : p == 2 ? 0 : (i * 7919) % n) + i % 100); sortit(m, p % 3); }
        if (wanted.size() == 1) return finish("sort: all 3-valued sequences to length 7, random to 5000; merge: sizes 0..4, random");
    }
    const int N = 4;
    for (int n = 0; n <= N; ++n) for (int op = 0; op < NOPS; ++op)
    {
        int onmax = 1, amax = 0, bmin = 0, bmax = 0, cmin = -1, cmax = -1; bool selfok = false;
        switch (op)
        {
        case PBC: case EB: case PFC: case EF: cmax = n - 1; break;
        case INSC: case EMP: amax = n; cmax = n - 1; break;
        case INSM: case EMP0: amax = n; break;
        case INSN: amax = n; bmax = 4; cmax = n - 1; break;
        case INSIT: amax = n; bmax = 4; break;
        case POPB: case POPF: if (!n) continue; break;
        case ER: amax = n - 1; break;
        case ERR: amax = n; bmax = n; break;
        case ASN: bmax = 5; break;
        case ASIT: bmax = 5; cmax = 0; break;
        case ASLI: onmax = 4; break;
        case COPY: case EQ: case SWAP: selfok = true; onmax = 4; break;
        case MASG: onmax = 4; break;
        case SPL: case SPLR: amax = n; onmax = 3; break;
        case SPL1: case SPL1R: amax = n; bmax = 4; onmax = 3; selfok = true; break;
        case SPLN: case SPLNR: amax = n; bmax = 4; cmin = 0; cmax = 4; onmax = 3; selfok = true; break;
        default: break;
        }
        for (int self = 0; self <= selfok; ++self) for (int on = 0; on <= onmax; ++on) for (int a = 0; a <= amax; ++a) for (int b = bmin; b <= bmax; ++b) for (int c = cmin; c <= cmax; ++c)
        {
            int sn = self ? n : on;
            if (op == ERR && b < a) continue;
            if ((op == SPL1 || op == SPL1R) && b >= sn) continue;
            if ((op == SPLN || op == SPLNR) && (c > sn || b > c || (self && a >= b && a < c))) continue;
            for (long f = -1; f < (op <= INSIT || (op >= ASN && op <= COPY) ? 2 * (b + on) + 5 : 0); ++f) one(n, on, Op(op), a, b, c, self, f);
        }
    }
    unsigned long seed = getenv("VERIF_SEED") ? strtoul(getenv("VERIF_SEED"), 0, 10) : 1;
    for (int it = 0; it < 12000 && !expired(); ++it)
    {
        unsigned long sd = seed * 1000003UL + it;
        scenario(S("random history seed=%lu", sd), [&]() {
            Rng R(sd); LH hh[2]; build(hh[0], 1, seqm(R(7), 1000)); build(hh[1], 1, seqm(R(7), 5000));
            int steps = 3 + R(25);
            for (int i = 0; i < steps; ++i)
            {
                LH& h = hh[R(2)]; LH& o = &h == hh ? hh[1] : hh[0];
                int op = R(NOPS), n = h.m.size(), a = R(n + 1), b = 0, c = -1; bool self = R(3) == 0; int sn = self ? n : (int)o.m.size();
                switch (op)
                {
                case POPB: case POPF: if (!n) continue; break;
                case ER: if (!n) continue; a = R(n); break;
                case ERR: b = a + R(n - a + 1); break;
                case INSN: case INSIT: case ASN: case ASIT: b = R(8); break;
                case MCTOR: self = false; break;
                case COPY: case EQ: case SWAP: break;
                case SPL1: case SPL1R: if (!sn) continue; b = R(sn); break;
                case SPLN: case SPLNR: b = R(sn + 1); c = b + R(sn - b + 1); if (self && a >= b && a < c) continue; break;
                default: self = false; break;
                }
                if (op == PBC || op == INSC || op == INSN || op == EMP) c = (int)R(n + 1) - 1;
                fault_no = 0; faulted = false; fault_at = (op <= INSIT || (op >= ASN && op <= COPY)) && R(3) == 0 ? R(10) : -1;
                apply(h, o, Op(op), a, b, c, self);
                fault_at = -1; faulted = false;
                inv(hh[0], "random"); inv(hh[1], "random"); totals({&hh[0], &hh[1]}, 0, "random");
            }
            hh[0].kill(); hh[1].kill(); totals({}, 0, "destroyed");
        });
    }
    return finish("list sizes 0..4 exhaustively with every fault position, 12000 random histories");
}
