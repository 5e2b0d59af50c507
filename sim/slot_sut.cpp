#include <signals.hpp>
#include "slot_api.h"
#include <functional>
#include <memory>
#include <new>
#include <utility>
#pragma clang section bss = "" data = "" // below: simulated user code, not the library's own statics

namespace {
constexpr unsigned LIVE = 0x5EEDF00Du, DEAD = 0xDEADBEEFu;

struct FnBase {
    int key, cnt = 0;
    unsigned magic = LIVE;
    explicit FnBase(int k) : key(k) { su::fn_made(); }
    FnBase(const FnBase& o) : key((o.check(), o.key)), cnt(o.cnt) { su::fn_copy(); }
    FnBase(FnBase&& o) : key((o.check(), o.key)), cnt(o.cnt) { su::fn_move(); o.key = -1; }
    FnBase& operator=(const FnBase&) = delete;
    ~FnBase() { check(); magic = DEAD; su::fn_gone(); }
    void check() const { if (magic != LIVE) su::bad("callable"); }
};
template<class R> R res(int v) { if constexpr (!std::is_void<R>::value) return v; }
template<class R> struct Fn : FnBase {
    using FnBase::FnBase;
    R operator()(int tok) { check(); ++cnt; su::called(SK_FN, key, tok, cnt); return res<R>(key * 1000 + cnt); }
    friend bool operator==(const Fn& a, const Fn& b) { a.check(); b.check(); su::fn_eq(); return a.key == b.key; }
};
template<class R> struct NFn : FnBase {
    using FnBase::FnBase;
    R operator()(int tok) { check(); ++cnt; su::called(SK_NFN, key, tok, cnt); return res<R>(key * 1000 + cnt); }
};
template<class R> struct Free {
    template<int N> static R f(int tok) { su::called(SK_FREE, N, tok, 0); return res<R>(N * 1000); }
    static auto get(int n) { return n == 1 ? &f<1> : n == 2 ? &f<2> : &f<3>; }
};
template<class R> struct Obj {
    int id, cnt = 0;
    unsigned magic = LIVE;
    explicit Obj(int i) : id(i) {}
    ~Obj() { check(); magic = DEAD; }
    void check() const { if (magic != LIVE) su::bad("object"); }
    friend bool operator==(const Obj& a, const Obj& b) { a.check(); b.check(); su::fn_eq(); return a.id == b.id; }
    R m0(int tok) { check(); su::called(SK_PMF, id * 2, tok, 0); return res<R>(id * 2 * 1000); }
    R m1(int tok) const { check(); su::called(SK_PMF, id * 2 + 1, tok, 0); return res<R>((id * 2 + 1) * 1000); }
    R r0(int tok) { check(); su::called(SK_PREF, id * 2, tok, 0); return res<R>(id * 2 * 1000); }
    R r1(int tok) { check(); su::called(SK_PREF, id * 2 + 1, tok, 0); return res<R>((id * 2 + 1) * 1000); }
    R u0(int tok) { check(); su::called(SK_UTRK, id * 2, tok, 0); return res<R>(id * 2 * 1000); }
    R u1(int tok) { check(); su::called(SK_UTRK, id * 2 + 1, tok, 0); return res<R>((id * 2 + 1) * 1000); }
    R t0(int tok) { check(); su::called(SK_TRK, id * 2, tok, 0); return res<R>(id * 2 * 1000); }
    R t1(int tok) { check(); su::called(SK_TRK, id * 2 + 1, tok, 0); return res<R>((id * 2 + 1) * 1000); }
};
// A user's own smart pointer, known to the library through to_weak(); the weak form has operator==.
template<class T> struct UHandle {
    std::shared_ptr<T> p;
    T& operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
};
template<class T> struct UWeak {
    std::weak_ptr<T> p;
    bool expired() const noexcept { return p.expired(); }
    UHandle<T> lock() const noexcept { return UHandle<T>{p.lock()}; }
    void reset() noexcept { p.reset(); }
    friend bool operator==(const UWeak& a, const UWeak& b) { su::fn_eq(); return !a.p.owner_before(b.p) && !b.p.owner_before(a.p); }
};
template<class T> UWeak<T> to_weak(const UHandle<T>& h) { return UWeak<T>{h.p}; }
template<class T> UWeak<T> to_weak(const UWeak<T>& h) { return h; }
// an object the slot holds by value
template<class R> struct VObj : FnBase {
    using FnBase::FnBase;
    R m(int tok) { check(); ++cnt; su::called(SK_PVAL, key, tok, cnt); return res<R>(key * 1000 + cnt); }
    friend bool operator==(const VObj& a, const VObj& b) { a.check(); b.check(); su::fn_eq(); return a.key == b.key; }
};

// functors that are called with the object they are bound to
template<class R> int number(Obj<R>& o) { o.check(); return o.id; }
template<class R> int number(VObj<R>& o) { o.check(); return o.key; }
template<class P> auto number(P& p) -> decltype(number(*p)) { return number(*p); }
template<class R, int K> struct BFn : FnBase {
    using FnBase::FnBase;
    template<class P> R operator()(P&& p, int tok)
    {
        check();
        ++cnt;
        int id = key * 4 + number(p);
        su::called(K, id, tok, cnt);
        return res<R>(id * 1000 + cnt);
    }
    friend bool operator==(const BFn& a, const BFn& b) { a.check(); b.check(); su::fn_eq(); return a.key == b.key; }
};

// what is given as an lvalue stays the caller's, whether or not the operation succeeds
template<class A> bool full(const A& a)
{
    if constexpr (std::is_base_of<FnBase, A>::value) return a.key >= 0;
    else if constexpr (std::is_class<A>::value && std::is_constructible<bool, const A&>::value) return bool(a);
    else return true;
}
template<class T> bool full(const std::weak_ptr<T>& a) { return a.owner_before(std::weak_ptr<T>()) || std::weak_ptr<T>().owner_before(a); }
template<class T> bool full(const UWeak<T>& a) { return full(a.p); }
template<class A> bool mine(const A& a, std::true_type) { return full(a); }
template<class A> bool mine(const A&, std::false_type) { return true; }
template<class W> struct After {
    W& whole;
    const bool was = whole();
    int exc = std::uncaught_exceptions();
    ~After() { if (was && !whole()) su::taken(std::uncaught_exceptions() > exc); }
};

template<class R> struct Impl {
using slot_t = sig::slot<R(int)>;
using sig_t = sig::signal<R(int)>;
using O = Obj<R>;

slot_t* cell[NSLOT];
sig_t* sg;
sig::connection* conn[NSCONN];
O* raw[NSOBJ];
std::shared_ptr<O> obj[NSOBJ];
void* mem[NSLOT];

struct FFn : FnBase {
    using FnBase::FnBase;
    R operator()(int tok) { check(); ++cnt; su::called(SK_FUN, key, tok, cnt); return res<R>(key * 1000 + cnt); }
};

// destroys cell c and constructs it anew from args; an empty slot takes its place if that throws
template<class... A> void renew(int c, A&&... a)
{
    auto whole = [&] { return (mine(a, std::is_lvalue_reference<A>()) && ... && true); };
    After<decltype(whole)> after{whole};
    cell[c]->~slot_t();
    try {
        cell[c] = ::new (mem[c]) slot_t(std::forward<A>(a)...);
    } catch (...) {
        cell[c] = ::new (mem[c]) slot_t();
        throw;
    }
}
void reset()
{
    for (int i = 0; i < NSLOT; ++i) { mem[i] = sim::harness_block(sizeof(slot_t)); cell[i] = ::new (mem[i]) slot_t(); }
    for (int i = 0; i < NSCONN; ++i) conn[i] = ::new (sim::harness_block(sizeof(sig::connection))) sig::connection();
    for (int i = 0; i < NSOBJ; ++i) raw[i] = ::new (sim::harness_block(sizeof(O))) O(i);
    for (auto& o : obj) ::new ((void*)&o) std::shared_ptr<O>();
    sim::Live l;
    sg = new sig_t();
}
void teardown()
{
    sim::Live l;
    for (auto& c : cell) c->~slot_t();
    delete sg;
    for (auto& c : conn) *c = sig::connection();
    for (auto& o : obj) o.reset();
}
void obj_new(int o) { sim::Live l; obj[o] = std::make_shared<O>(o); }
void obj_drop(int o) { sim::Live l; obj[o].reset(); }
void make(int c, int kind, int key, int o, int form)
{
    sim::Live l;
    switch (kind) {
    case SK_FN:
        if (form == 0) *cell[c] = slot_t(Fn<R>(key));
        else if (form == 1) { Fn<R> f(key); renew(c, f); }
        else { const Fn<R> f(key); *cell[c] = slot_t(f); }
        break;
    case SK_NFN:
        if (form == 0) *cell[c] = slot_t(NFn<R>(key));
        else { NFn<R> f(key); renew(c, f); }
        break;
    case SK_PMF:
        if (key) {
            if (form == 0) *cell[c] = slot_t(&O::m1, raw[o]);
            else { const O* p = raw[o]; renew(c, &O::m1, (O*)p); }
        } else if (form == 0) *cell[c] = slot_t(&O::m0, raw[o]);
        else renew(c, &O::m0, raw[o] + 0);
        break;
    case SK_PREF: {
        auto m = key ? &O::r1 : &O::r0;
        if (form == 0) *cell[c] = slot_t(m, std::ref(*raw[o]));
        else { auto r = std::ref(*raw[o]); renew(c, m, r); }
        break;
    }
    case SK_PVAL:
        if (form == 0) *cell[c] = slot_t(&VObj<R>::m, VObj<R>(key));
        else { VObj<R> v(key); renew(c, &VObj<R>::m, v); }
        break;
    case SK_FREE: {
        auto p = Free<R>::get(key);
        if (form == 0) *cell[c] = slot_t(p);
        else renew(c, *p);
        break;
    }
    case SK_FUN:
        if (form == 0) *cell[c] = slot_t(std::function<R(int)>(FFn(key)));
        else { *cell[c] = slot_t(); std::function<R(int)> f{FFn(key)}; renew(c, f); }
        break;
    case SK_UTRK: {
        auto m = key ? &O::u1 : &O::u0;
        if (form == 0) *cell[c] = slot_t(m, UHandle<O>{obj[o]});
        else { const UWeak<O> w{obj[o]}; renew(c, m, w); }
        break;
    }
    case SK_PFN:
        if (form == 0) *cell[c] = slot_t(BFn<R, SK_PFN>(key), raw[o] + 0);
        else { const BFn<R, SK_PFN> f(key); O* p = raw[o]; renew(c, f, p); }
        break;
    case SK_VFN:
        if (form == 0) *cell[c] = slot_t(BFn<R, SK_VFN>(key), VObj<R>(o));
        else { BFn<R, SK_VFN> f(key); const VObj<R> v(o); renew(c, f, v); }
        break;
    case SK_TFN:
        if (form == 0) *cell[c] = slot_t(BFn<R, SK_TFN>(key), UHandle<O>{obj[o]});
        else { BFn<R, SK_TFN> f(key); const UWeak<O> w{obj[o]}; renew(c, f, w); }
        break;
    case SK_TRK: {
        auto m = key ? &O::t1 : &O::t0;
        if (form == 0) *cell[c] = slot_t(m, obj[o]);
        else if (form == 1) { std::weak_ptr<O> w(obj[o]); renew(c, m, w); }
        else renew(c, m, std::shared_ptr<O>(obj[o]));
        break;
    }
    }
}
void make_empty(int c, int form) { sim::Live l; if (form) renew(c); else *cell[c] = slot_t(); }
void copy_ctor(int c, int d, int form)
{
    sim::Live l;
    if (form == 0) renew(c, static_cast<const slot_t&>(*cell[d]));
    else if (form == 1) renew(c, *cell[d]);
    else { slot_t t(*cell[d]); *cell[c] = std::move(t); }
}
void copy_assign(int c, int d) { sim::Live l; *cell[c] = *static_cast<const slot_t*>(cell[d]); }
void move_ctor(int c, int d) { sim::Live l; renew(c, std::move(*cell[d])); }
void move_assign(int c, int d) { sim::Live l; *cell[c] = std::move(*cell[d]); }
void swap(int c, int d) { sim::Live l; std::swap(*cell[c], *cell[d]); }
int call(int c, int tok)
{
    sim::Live l;
    auto r = (*cell[c])(std::move(tok));
    if constexpr (std::is_void<R>::value) return r ? -2 : -1;
    else return r ? *r : -1;
}
void block(int c) { sim::Live l; cell[c]->block(); }
void unblock(int c) { sim::Live l; cell[c]->unblock(); }
bool blocked(int c) { sim::Live l; return cell[c]->blocked(); }
bool connected(int c) { sim::Live l; return cell[c]->connected(); }
bool engaged(int c) { sim::Live l; return bool(*cell[c]); }
bool disconnect(int c) { sim::Live l; return cell[c]->disconnect(); }
bool eq(int c, int d, bool ne)
{
    sim::Live l;
    const slot_t &a = *cell[c], &b = *cell[d];
    return ne ? a != b : a == b;
}
bool connect(int c, int k, bool scoped)
{
    sim::Live l;
    slot_t& s = *cell[c];
    const slot_t& cs = s;
    if (c & 1) {
        if (scoped) *conn[k] = sg->connect_scoped(s).release();
        else *conn[k] = sg->connect(s);
    } else if (scoped) *conn[k] = sg->connect_scoped(cs).release();
    else *conn[k] = sg->connect(cs);
    return conn[k]->connected();
}
void drop_conn(int k, bool disc) { sim::Live l; if (disc) conn[k]->disconnect(); *conn[k] = sig::connection(); }
bool conn_connected(int k) { sim::Live l; return conn[k]->connected(); }
bool conn_blocked(int k) { sim::Live l; return conn[k]->blocked(); }
void conn_block(int k, bool on) { sim::Live l; if (on) conn[k]->block(); else conn[k]->unblock(); }
unsigned long sdisc(int c) { sim::Live l; return c & 1 ? sg->disconnect(*cell[c]) : sg->disconnect(static_cast<const slot_t&>(*cell[c])); }
int emit(int tok)
{
    sim::Live l;
    auto r = (*sg)(tok);
    if constexpr (std::is_void<R>::value) return r ? -2 : -1;
    else return r ? *r : -1;
}
};
Impl<int> gi;
Impl<void> gv;
int variant;
} // namespace

#define BOTH(call) (variant ? gv.call : gi.call)
namespace ss {
void reset(int v) { variant = v; BOTH(reset()); }
void teardown() { BOTH(teardown()); }
void obj_new(int o) { BOTH(obj_new(o)); }
void obj_drop(int o) { BOTH(obj_drop(o)); }
void make(int c, int kind, int key, int o, int form) { BOTH(make(c, kind, key, o, form)); }
void make_empty(int c, int form) { BOTH(make_empty(c, form)); }
void copy_ctor(int c, int d, int form) { BOTH(copy_ctor(c, d, form)); }
void copy_assign(int c, int d) { BOTH(copy_assign(c, d)); }
void move_ctor(int c, int d) { BOTH(move_ctor(c, d)); }
void move_assign(int c, int d) { BOTH(move_assign(c, d)); }
void swap(int c, int d) { BOTH(swap(c, d)); }
int call(int c, int tok) { return BOTH(call(c, tok)); }
void block(int c) { BOTH(block(c)); }
void unblock(int c) { BOTH(unblock(c)); }
bool blocked(int c) { return BOTH(blocked(c)); }
bool connected(int c) { return BOTH(connected(c)); }
bool engaged(int c) { return BOTH(engaged(c)); }
bool disconnect(int c) { return BOTH(disconnect(c)); }
bool eq(int c, int d, bool ne) { return BOTH(eq(c, d, ne)); }
bool connect(int c, int k, bool scoped) { return BOTH(connect(c, k, scoped)); }
void drop_conn(int k, bool disc) { BOTH(drop_conn(k, disc)); }
bool conn_connected(int k) { return BOTH(conn_connected(k)); }
bool conn_blocked(int k) { return BOTH(conn_blocked(k)); }
void conn_block(int k, bool on) { BOTH(conn_block(k, on)); }
unsigned long sdisc(int c) { return BOTH(sdisc(c)); }
int emit(int tok) { return BOTH(emit(tok)); }
} // namespace ss
