#include "rt.hpp"
#include <functional>
#include <nestl/implementation/set.hpp>
using namespace rt;
typedef nestl::impl::set<E, std::less<E>, A<E> > T;
typedef nestl::impl::detail::rb_tree_node_base NB;
typedef std::vector<int> M;      // ordered by v/100, distinct

struct Holder { E e; explicit Holder(int v) { live[&e] = v; } };
struct SH {
    alignas(T) char mem[sizeof(T)]; M m; int id; bool made;
    T& v() { return *reinterpret_cast<T*>(mem); }
    SH() : id(0), made(false) {}
    void make(int i) { A<E> a; a.id = i; id = i; new (mem) T(a); made = true; }
    void kill() { if (made) v().~T(); made = false; m.clear(); }
    T::iterator at(int i) { T::iterator it = v().begin(); while (i-- > 0) ++it; return it; }
};
static const char* C = "contents";
static size_t mpos(const M& m, int k) { size_t i = 0; while (i < m.size() && m[i] / 100 < k / 100) ++i; return i; }
static bool mhas(const M& m, int k) { size_t i = mpos(m, k); return i < m.size() && m[i] / 100 == k / 100; }

static int shape(const NB* n, const NB* p, bool red, size_t depth, size_t lim, size_t& cnt)
{
    if (!n) return 1;
    if (depth > lim) bad("balance", "path longer than %zu", lim);
    if (n->m_parent != p) bad("contents", "parent link wrong");
    bool r = n->m_color == nestl::impl::detail::rb_red;
    if (r && red) bad("balance", "a red node has a red child");
    ++cnt;
    int a = shape(n->m_left, n, r, depth + 1, lim, cnt), b = shape(n->m_right, n, r, depth + 1, lim, cnt);
    if (a != b) bad("balance", "black heights %d and %d", a, b);
    return a + !r;
}
static void inv(SH& h, const char* when)
{
    T& v = h.v(); const T& c = v; size_t n = h.m.size();
    if (v.size() != n || v.empty() != (n == 0)) bad(C, "%s: size() gives %zu, expected %zu", when, v.size(), n);
    if (v.max_size() < n) bad(C, "%s: max_size", when);
    NB* head = v.end().m_node;
    std::vector<NB*> nodes;
    for (T::iterator it = v.begin(); it != v.end(); ++it)
    {
        if (nodes.size() > n + 2) bad(C, "%s: more elements than expected or a cycle", when);
        auto b = blocks.find((const char*)it.m_node);
        if (b == blocks.end()) bad("lifetime", "%s: node %zu is not allocated", when, nodes.size());
        if (b->second.id != h.id) bad("allocator", "%s: node of allocator %d in a set with allocator %d", when, b->second.id, h.id);
        if (!is_live(&*it)) bad("lifetime", "%s: element %zu is dead", when, nodes.size());
        if (nodes.size() < n && val(&*it) != h.m[nodes.size()]) bad(C, "%s: element %zu is %d, expected %d", when, nodes.size(), val(&*it), h.m[nodes.size()]);
        if (it.operator->() != &*it || &*T::const_iterator(it) != &*it || T::const_iterator(it).operator->() != &*it) bad(C, "%s: iterator access", when);
        nodes.push_back(it.m_node);
    }
    if (nodes.size() != n) bad(C, "%s: %zu elements, expected %zu", when, nodes.size(), n);
    size_t i = n;
    T::const_iterator ci = c.end();
    while (i > 0) { if (i & 1) --ci; else { T::const_iterator o = ci--; if (i < n ? o.m_node != nodes[i] : o != c.end()) bad(C, "%s: post-decrement", when); } --i; if (ci.m_node != nodes[i]) bad(C, "%s: backward traversal differs at %zu", when, i); }
    if (ci != c.begin()) bad(C, "%s: backward traversal ends in the wrong place", when);
    i = 0; for (T::const_iterator k = c.begin(); k != c.end();) { if (k.m_node != nodes[i]) bad(C, "%s: const traversal", when); T::const_iterator o = k++; if (o.m_node != nodes[i]) bad(C, "%s: post-increment", when); ++i; }
    i = n; for (T::reverse_iterator r = v.rbegin(); r != v.rend(); ++r) { --i; if (&*r != &*h.at(i)) bad(C, "%s: reverse traversal", when); if (n > 40) break; }
    if (c.cbegin() != c.begin() || c.cend() != c.end() || v.begin().m_node != c.begin().m_node || head != c.end().m_node || c.rbegin().base() != c.end() || c.rend().base() != c.begin() || c.crbegin().base() != c.end() || c.crend().base() != c.begin()) bad(C, "%s: iterators disagree", when);
    if (v.get_allocator().id != h.id) bad("allocator", "%s: allocator %d, expected %d", when, v.get_allocator().id, h.id);
    size_t cnt = 0, lim = 0; while ((size_t(1) << lim) < n + 1) ++lim; lim *= 2;
    if (head->m_parent && head->m_parent->m_color == nestl::impl::detail::rb_red) bad("balance", "%s: the root is red", when);
    if (head->m_color != nestl::impl::detail::rb_red) bad("contents", "%s: the header is not red", when);
    shape(head->m_parent, head, false, 1, lim, cnt);
    if (cnt != n) bad(C, "%s: tree has %zu nodes, expected %zu", when, cnt, n);
    if (head->m_left != (n ? nodes[0] : head) || head->m_right != (n ? nodes[n - 1] : head)) bad(C, "%s: leftmost/rightmost", when);
}
static void totals(std::vector<SH*> hs, size_t ext, const char* when)
{
    size_t n = ext, b = 0;
    for (SH* h : hs) if (h->made) { n += h->m.size(); b += h->m.size(); }
    if (live.size() != n) bad("lifetime", "%s: %zu live elements, expected %zu", when, live.size(), n);
    if (blocks.size() != b) bad("lifetime", "%s: %zu blocks allocated, expected %zu", when, blocks.size(), b);
}
enum Op { INSC, INSM, ERK, ERP, FIND, CFIND, CLR, COPY, MASG, MCTOR, COPYS, NOPS };
static const char* names[] = {"insert(const&)", "insert(&&)", "erase(key)", "erase(pos)", "find", "const find", "clear", "copy", "move-assign", "move-ctor", "copy from itself"};
static void apply(SH& h, SH& o, Op op, int k)
{
    Err e; T& v = h.v(); M want = h.m, old = h.m, wants = o.m; bool canfail = false; size_t n = old.size();
    Holder ext(k); size_t p = mpos(old, k); bool has = mhas(old, k);
    std::map<int, NB*> where; for (T::iterator it = v.begin(); it != v.end(); ++it) where[val(&*it)] = it.m_node;
    bool ispos = op == ERP;
    switch (op)
    {
    case INSC: case INSM:
    {
        T::iterator_with_flag r = op == INSC ? v.insert_nothrow(e, ext.e) : v.insert_nothrow(e, std::move(ext.e));
        canfail = !has;
        if (!e)
        {
            if (r.second == has) bad(C, "insert reports %d", r.second);
            if (!has) want.insert(want.begin() + p, k);
            if (r.first == v.end() || val(&*r.first) != (has ? old[p] : k)) bad(C, "insert returns the wrong position");
            if (has && op == INSM && val(&ext.e) != k) bad(C, "a rejected value was moved from");
        }
        break;
    }
    case ERK: { size_t r = v.erase(ext.e); if (r != (has ? 1u : 0u)) bad(C, "erase(key) returns %zu", r); if (has) want.erase(want.begin() + p); break; }
    case ERP: { size_t q = k; T::iterator r = v.erase(T::const_iterator(h.at(q))); want.erase(want.begin() + q); if (q < want.size() ? (r == v.end() || val(&*r) != want[q]) : r != v.end()) bad(C, "erase(pos) returns the wrong position"); break; }
    case FIND: { T::iterator r = v.find(ext.e); if (has ? (r == v.end() || val(&*r) != old[p]) : r != v.end()) bad(C, "find is wrong"); break; }
    case CFIND: { T::const_iterator r = const_cast<const T&>(v).find(ext.e); if (has ? (r == const_cast<const T&>(v).end() || val(&*r) != old[p]) : r != const_cast<const T&>(v).end()) bad(C, "find is wrong"); break; }
    case CLR: v.clear(); want.clear(); break;
    case COPY: v.copy_nothrow(e, o.v()); canfail = true; want = o.m; h.id = o.id; break;
    case COPYS: v.copy_nothrow(e, v); break;
    case MASG: v = std::move(o.v()); want = o.m; wants.clear(); h.id = o.id; o.id = o.v().get_allocator().id; break;
    case MCTOR: { SH t; new (t.mem) T(std::move(v)); t.made = true; t.id = h.id; t.m = h.m; h.m.clear(); inv(t, "move-ctor"); h.id = v.get_allocator().id; inv(h, "move-ctor source"); t.kill(); want.clear(); break; }
    default: break;
    }
    bool fail = bool(e);
    if (fail && !faulted) bad("err", "%s reports an error although nothing failed", names[op]);
    if (fail && !canfail) bad("err", "%s reports an error", names[op]);
    if (!fail && faulted) bad("err", "%s does not report the failure", names[op]);
    if (fail) { if (op == COPY) want.clear(); else want = old; }
    h.m = want; o.m = wants;
    if (fail) { const char* c0 = C; C = "err"; inv(h, "after the failed operation"); C = c0; }
    if (op <= CFIND) for (T::iterator it = v.begin(); it != v.end(); ++it) { auto w = where.find(val(&*it)); if (w != where.end() && w->second != it.m_node) bad(C, "%s moves an element to another node", names[op]); }
    (void)ispos; (void)n;
}
static void follow(SH& h, SH& o)
{
    fault_at = -1; faulted = false;
    inv(h, "after"); inv(o, "after (other)"); totals({&h, &o}, 0, "after");
    Err e; Holder y(77700), z(77800);
    for (SH* s : {&h, &o}) { s->v().insert_nothrow(e, y.e); s->v().insert_nothrow(e, z.e); if (e) bad("err", "insert after the operation fails"); s->m.push_back(77700); s->m.push_back(77800); inv(*s, "follow-up"); }
    totals({&h, &o}, 2, "follow-up");
    h.kill(); o.kill(); totals({}, 2, "destroyed");
}
static void fill(SH& h, int id, const std::vector<int>& ks)
{
    h.make(id);
    for (int k : ks) { Err e; Holder y(k); h.v().insert_nothrow(e, y.e); if (e) bad("err", "insert failed without a fault"); if (!mhas(h.m, k)) h.m.insert(h.m.begin() + mpos(h.m, k), k); inv(h, "build"); }
}
// the tree below the set has more public operations than the set uses
struct Tree : nestl::impl::detail::rb_tree<E, E, nestl::impl::detail::identity<E>, std::less<E>, A<E> > { typedef nestl::impl::detail::rb_tree<E, E, nestl::impl::detail::identity<E>, std::less<E>, A<E> > B; explicit Tree(const A<E>& a) : B(a) {} };
static void trees(int n, int lo, int hint)
{
    scenario(S("rb_tree: %d keys, key %d, hint %d", n, lo, hint), [&]() {
        {
        A<E> a; a.id = 4; Tree t(a); Err e; M m;
        for (int i = 0; i < n; ++i) { int k = 1000 + 200 * ((i * 7) % n); Holder y(k); t.m_insert_unique(e, y.e); if (!mhas(m, k)) m.insert(m.begin() + mpos(m, k), k); }
        if (e || t.size() != m.size()) bad(C, "rb_tree build");
        Holder x(lo); const Tree& c = t;
        size_t p = mpos(m, lo); bool has = mhas(m, lo); size_t u = p + has;
        auto ix = [&](Tree::iterator it) { size_t k = 0; for (Tree::iterator j = t.begin(); j != it; ++j) ++k; return k; };
        auto cx = [&](Tree::const_iterator it) { size_t k = 0; for (Tree::const_iterator j = c.begin(); j != it; ++j) ++k; return k; };
        if (ix(t.lower_bound(x.e)) != p || cx(c.lower_bound(x.e)) != p || ix(t.upper_bound(x.e)) != u || cx(c.upper_bound(x.e)) != u) bad(C, "lower_bound/upper_bound");
        auto r = t.equal_range(x.e); auto q = c.equal_range(x.e);
        if (ix(r.first) != p || ix(r.second) != u || cx(q.first) != p || cx(q.second) != u) bad(C, "equal_range");
        if (c.count(x.e) != size_t(has)) bad(C, "count");
        Tree::iterator at = t.begin(); for (int i = 0; i < hint; ++i) ++at;
        Tree::iterator z = hint % 2 ? t.m_insert_unique_at(e, Tree::const_iterator(at), x.e) : t.m_emplace_hint_unique(e, Tree::const_iterator(at), x.e);
        if (e || ix(z) != p || val(&*z) != (has ? m[p] : lo)) bad(C, "insertion with a hint");
        if (!has) m.insert(m.begin() + p, lo);
        size_t i = 0; for (Tree::iterator j = t.begin(); j != t.end(); ++j, ++i) if (i >= m.size() || val(&*j) != m[i]) bad(C, "insertion with a hint breaks the order");
        if (i != m.size() || t.size() != m.size()) bad(C, "insertion with a hint: size");
        Holder w(5050); auto em = t.m_emplace_unique(e, w.e); bool hw = mhas(m, 5050); if (em.second == hw) bad(C, "emplace"); if (!hw) m.insert(m.begin() + mpos(m, 5050), 5050);
        size_t f = std::min<size_t>(hint, m.size()), l = std::min<size_t>(m.size(), f + 2);
        Tree::iterator fi = t.begin(), li; for (i = 0; i < f; ++i) ++fi; li = fi; for (; i < l; ++i) ++li;
        Tree::iterator er = t.erase(Tree::const_iterator(fi), Tree::const_iterator(li)); m.erase(m.begin() + f, m.begin() + l);
        if (er != li) bad(C, "erase(range) returns");
        i = 0; for (Tree::iterator j = t.begin(); j != t.end(); ++j, ++i) if (i >= m.size() || val(&*j) != m[i]) bad(C, "erase(range)");
        if (i != m.size() || t.size() != m.size() || live.size() != m.size() + 2 || blocks.size() != m.size()) bad("lifetime", "rb_tree erase(range)");
        if (t.size()) { size_t cnt = 0; const NB* hd = t.end().m_node; shape(hd->m_parent, hd, false, 1, 64, cnt); }
        Tree t2(a); t2.copy_nothrow(e, t); if (e || !(t2 == t) || t2 != t || t2 < t || !(t2 <= t)) bad(C, "rb_tree comparison");
        }
        if (live.size() || blocks.size()) bad("lifetime", "rb_tree leaks");
    });
}
int main(int argc, char** argv)
{
    init(argc, argv);
    // every insertion order of up to 7 keys followed by every erase
    for (int n = 0; n <= 6; ++n)
    {
        std::vector<int> pm; for (int i = 0; i < n; ++i) pm.push_back(i);
        do {
            for (int op = 0; op < NOPS; ++op)
            {
                int amax = op <= ERK || op == FIND || op == CFIND ? 2 * n : op == ERP ? n - 1 : 0;
                if (n == 6 && op != ERP && op != INSC && op != COPY) continue;
                for (int a = 0; a <= amax; ++a) for (long f = -1; f < (op <= INSM ? 2 : op == COPY ? 9 : 0); ++f)
                {
                    std::string d; for (int i : pm) d += S("%d ", i);
                    scenario(S("keys inserted: %s; %s %d fault=%ld", d.c_str(), names[op], a, f), [&]() {
                        std::vector<int> ks, ko; for (int i : pm) ks.push_back(1100 + 200 * i + 3); for (int i = 0; i < 4; ++i) ko.push_back(5000 + 300 * ((i * 3) % 4));
                        SH h, o;
                        if (op == COPY) { fill(o, 1, ks); fill(h, 2, ko); } else { fill(h, 1, ks); fill(o, 2, ko); }
                        fault_no = 0; fault_at = f; faulted = false;
                        apply(h, o, Op(op), op == ERP ? a : 1000 + 100 * a + 55);
                        follow(h, o);
                    });
                }
            }
        } while (std::next_permutation(pm.begin(), pm.end()));
    }
    for (int n = 0; n <= 9; ++n) for (int k = 0; k <= 2 * n + 1; ++k) for (int hint = 0; hint <= n; ++hint) trees(n, 900 + 100 * k, hint);
    unsigned long seed = getenv("VERIF_SEED") ? strtoul(getenv("VERIF_SEED"), 0, 10) : 1;
    for (int it = 0; it < 1500 && !expired(); ++it)
    {
        unsigned long sd = seed * 1000003UL + it;
        scenario(S("random history seed=%lu", sd), [&]() {
            Rng R(sd); SH hh[2]; int range = 4 + R(it % 4 == 0 ? 150 : 30);
            fill(hh[0], 1, {}); fill(hh[1], 2, {});
            int steps = 20 + R(it % 4 == 0 ? 250 : 60), bias = R(3), pat = R(4), ctr = 0;
            for (int i = 0; i < steps; ++i)
            {
                SH& h = hh[R(8) == 0]; SH& o = &h == hh ? hh[1] : hh[0];
                int x = R(100), op = x < 45 + 10 * bias ? (x & 1 ? INSC : INSM) : x < 70 ? ERK : x < 85 ? ERP : x < 92 ? FIND + R(2) : CLR + R(NOPS - CLR);
                if (op == CLR && R(4)) op = INSC;
                int n = h.m.size(); if (op == ERP && !n) continue;
                int kk = pat == 0 ? ctr++ % range : pat == 1 ? range - ctr++ % range : (int)R(range);
                int k = op == ERP ? (int)R(n) : 1000 + 100 * kk + R(100);
                fault_no = 0; faulted = false; fault_at = (op <= INSM || op == COPY) && R(5) == 0 ? R(op == COPY ? 2 * o.m.size() + 1 : 2) : -1;
                apply(h, o, Op(op), k);
                fault_at = -1; faulted = false;
                inv(hh[0], "random"); inv(hh[1], "random"); totals({&hh[0], &hh[1]}, 0, "random");
            }
            hh[0].kill(); hh[1].kill(); totals({}, 0, "destroyed");
        });
    }
    return finish("all insertion orders of up to 6 keys followed by every operation, 1500 random histories");
}
