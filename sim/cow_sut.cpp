#include <signals.hpp>
#include "cow_api.h"
#include <new>
#include <utility>
#pragma clang section bss = "" data = "" // below: simulated user code, not the library's own statics
namespace {
constexpr unsigned LIVE = 0x5EEDF00Du, DEAD = 0xDEADBEEFu;
struct Val {
    int a;
    unsigned magic = LIVE;
    int* heap;   // a part of the value on the heap, as in the slot list
    int b;
    explicit Val(int v) : a(v), heap(new int(v)), b(v) { cu::made(); }
    Val(std::initializer_list<int> il) : Val(*il.begin()) {}
    Val(const Val& o) : a(o.a), heap(nullptr), b(0)
    {
        o.check();
        cu::copying();
        heap = new int(*o.heap);
        b = o.b;
        cu::copied();
    }
    Val& operator=(const Val& o)
    {
        check();
        o.check();
        cu::copying();
        int* h = new int(*o.heap);
        a = o.a;
        cu::pause();
        delete heap;
        heap = h;
        b = o.b;
        return *this;
    }
    Val& operator=(Val&& o)
    {
        check();
        o.check();
        std::swap(a, o.a);
        cu::pause();
        std::swap(heap, o.heap);
        std::swap(b, o.b);
        return *this;
    }
    ~Val() { check(); magic = DEAD; delete heap; cu::gone(); }
    void check() const { if (magic != LIVE) cu::bad("value"); }
    int get() const { check(); int x = a, y = *heap, z = b; return x == y && y == z ? x : -2; }
    void set(int v) { check(); a = v; cu::pause(); *heap = v; b = v; }
};
using ptr = sig::detail::cow_ptr<Val>;
ptr* cell[NCOW];
void* mem[NCOW];
ptr* many;
int nmany;
template<class... A> void renew(int c, A&&... a)
{
    cell[c]->~ptr();
    try { cell[c] = ::new (mem[c]) ptr(std::forward<A>(a)...); }
    catch (...) { cell[c] = ::new (mem[c]) ptr(); throw; }
}
void take(ptr p, int c) { *cell[c] = p; }
const Val* view(const ptr& p, int form)
{
    switch (form) {
    case 0: return &p.read();
    case 1: return &*p;
    case 2: return p.operator->();
    case 3: return static_cast<const Val*>(p);
    default: return p.data();
    }
}
Val* wview(ptr& p, int form)
{
    switch (form) {
    case 0: return &p.write();
    case 1: return &*p;
    case 2: return p.operator->();
    case 3: return static_cast<Val*>(p);
    default: return p.data();
    }
}
} // namespace
namespace cw {
void reset()
{
    nmany = 0;
    for (int i = 0; i < NCOW; ++i) { mem[i] = sim::harness_block(sizeof(ptr)); cell[i] = ::new (mem[i]) ptr(); }
}
void bulk(int c, int n)
{
    sim::Live l;
    while (nmany) many[--nmany].~ptr();
    if (n > 1000) sim::large_run();
    if (n) many = (ptr*)sim::harness_block((size_t)n * sizeof(ptr));
    for (; nmany < n; ++nmany) ::new ((void*)(many + nmany)) ptr(*cell[c]);
}
int bulk_read(int i)
{
    sim::Live l;
    const ptr& p = many[i];
    return p ? p.read().get() : -1;
}
void teardown() { bulk(0, 0); sim::Live l; for (auto& c : cell) c->~ptr(); }
void make(int c, int val, int form)
{
    sim::Live l;
    switch (form) {
    case 0: *cell[c] = ptr(new Val(val)); break;
    case 1: *cell[c] = sig::detail::make_cow<Val>(val); break;
    case 2: *cell[c] = new Val(val); break;
    case 3: renew(c); renew(c, new Val(val)); break;
    default: *cell[c] = sig::detail::make_cow<Val>({val}); break;
    }
}
void clear(int c, int form) { sim::Live l; if (form) renew(c); else *cell[c] = ptr(); }
void copy(int c, int d, int form)
{
    sim::Live l;
    const ptr& s = *cell[d];
    switch (form) {
    case 0: *cell[c] = s; break;
    case 1: renew(c, s); break;
    case 2: { ptr t(s); *cell[c] = std::move(t); break; }
    default: take(s, c); break;
    }
}
void move(int c, int d, int form) { sim::Live l; if (form) renew(c, std::move(*cell[d])); else *cell[c] = std::move(*cell[d]); }
void swap(int c, int d) { sim::Live l; std::swap(*cell[c], *cell[d]); }
int read(int c, int form)
{
    sim::Live l;
    const ptr& p = *cell[c];
    if (!p) return -1;
    return view(p, form)->get();
}
int read_hold(int c, int form)
{
    sim::Live l;
    const ptr& p = *cell[c];
    if (!p) return -1;
    const Val* v = view(p, form);
    int x = v->get();
    cu::pause();
    int y = v->get();
    cu::pause();
    return x == y && v->get() == x ? x : -3;
}
void write(int c, int val, int form) { sim::Live l; wview(*cell[c], form)->set(val); }
int write_hold(int c, int val, int form)
{
    sim::Live l;
    Val* v = wview(*cell[c], form);
    v->set(val);
    cu::pause();
    int x = v->get();
    cu::pause();
    return x == val && v->get() == val ? val : -3;
}
bool engaged(int c) { sim::Live l; return bool(*cell[c]); }
bool equal(int c, int d, bool ne) { sim::Live l; const ptr &a = *cell[c], &b = *cell[d]; return ne ? !(a != b) : a == b; }
bool null_data(int c)
{
    sim::Live l;
    ptr& p = *cell[c];
    const ptr& q = p;
    return !p.data() && !q.data() && !p.operator->() && !static_cast<Val*>(p) && !static_cast<const Val*>(q);
}
} // namespace cw
