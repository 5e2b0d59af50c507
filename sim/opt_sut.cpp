#include <optional.hpp>
#include "opt_api.h"
#include <new>
#pragma clang section bss = "" data = "" // below: simulated user code, not the library's own statics
namespace {
constexpr unsigned LIVE = 0x5EEDF00Du, DEAD = 0xDEADBEEFu;
struct U {
    int val;
    unsigned magic = LIVE;
    explicit U(int v) : val(v) {}
    U(const U& o) : val(o.val) { o.check(); }
    U(U&& o) : val(o.val) { o.check(); o.val = MOVED; }
    U& operator=(const U& o) { check(); o.check(); val = o.val; return *this; }
    ~U() { check(); magic = DEAD; }
    void check() const { if (magic != LIVE) ou::bad("convertible value"); }
};
// over-aligned, and its operator& is not the address
struct alignas(64) V {
    int val;
    unsigned magic;
    V* operator&() const { ou::bad("value whose operator& was called"); return nullptr; }
    V() : val(0) { ou::may_throw(OF_CTOR); up(); }
    V(int v) : val(v) { ou::may_throw(OF_CTOR); up(); }
    V(int v, int w) : val(v + w) { ou::may_throw(OF_CTOR); up(); }
    V(std::initializer_list<int> il) : val(0) { for (int x : il) val += x; ou::may_throw(OF_CTOR); up(); }
    V(std::initializer_list<int> il, int w) : val(w) { for (int x : il) val += x; ou::may_throw(OF_CTOR); up(); }
    V(const U& u) : val(u.val) { u.check(); ou::may_throw(OF_CONV); up(); }
    V(U&& u) : val(u.val) { u.check(); ou::may_throw(OF_CONV); u.val = MOVED; up(); }
    V(std::initializer_list<int> il, const U& u) : val(u.val) { u.check(); for (int x : il) val += x; ou::may_throw(OF_CONV); up(); }
    V(std::initializer_list<int> il, U&& u) : val(u.val) { u.check(); for (int x : il) val += x; ou::may_throw(OF_CONV); u.val = MOVED; up(); }
    V(int w, const U& u) : val(u.val + w) { u.check(); ou::may_throw(OF_CONV); up(); }
    V(int w, U&& u) : val(u.val + w) { u.check(); ou::may_throw(OF_CONV); u.val = MOVED; up(); }
    V(const V& o) : val(o.val) { o.check(); ou::may_throw(OF_COPY); up(); }
    V(V&& o) : val(o.val) { o.check(); ou::may_throw(OF_MOVE); o.val = MOVED; up(); }
    V& operator=(const V& o) { check(); o.check(); ou::may_throw(OF_CASSIGN); val = o.val; return *this; }
    V& operator=(V&& o) { check(); o.check(); ou::may_throw(OF_MASSIGN); int v = o.val; if (std::addressof(o) != this) o.val = MOVED; val = v; return *this; }
    ~V() { check(); magic = DEAD; ou::gone(this); }
    void up() { if ((uintptr_t)this % alignof(V)) ou::bad("misaligned value"); magic = LIVE; ou::made(this, sizeof *this); }
    void check() const { if (magic != LIVE) ou::bad("value"); }
    int get() const { check(); return val; }
    int cmp(const V& o) const { check(); o.check(); ou::may_throw(OF_CMP); return val < o.val ? -1 : val > o.val; }
    friend bool operator==(const V& a, const V& b) { return a.cmp(b) == 0; }
    friend bool operator!=(const V& a, const V& b) { return a.cmp(b) != 0; }
    friend bool operator<(const V& a, const V& b) { return a.cmp(b) < 0; }
    friend bool operator>(const V& a, const V& b) { return a.cmp(b) > 0; }
    friend bool operator<=(const V& a, const V& b) { return a.cmp(b) <= 0; }
    friend bool operator>=(const V& a, const V& b) { return a.cmp(b) >= 0; }
};
struct M { // can be moved but not copied
    int val;
    unsigned magic;
    explicit M(int v) : val(v) { ou::may_throw(OF_CTOR); up(); }
    M(int v, int w) : val(v + w) { ou::may_throw(OF_CTOR); up(); }
    M(M&& o) : val(o.val) { o.check(); ou::may_throw(OF_MOVE); o.val = MOVED; up(); }
    M& operator=(M&& o) { check(); o.check(); ou::may_throw(OF_MASSIGN); int v = o.val; if (&o != this) o.val = MOVED; val = v; return *this; }
    ~M() { check(); magic = DEAD; ou::gone(this); }
    void up() { magic = LIVE; ou::made(this, sizeof *this); }
    void check() const { if (magic != LIVE) ou::bad("value"); }
    int get() const { check(); return val; }
};
// only one of the two moves can throw
template<bool CTOR> struct N {
    int val;
    unsigned magic;
    explicit N(int v) : val(v) { up(); }
    N(N&& o) noexcept(!CTOR) : val(o.val) { o.check(); if (CTOR) ou::may_throw(OF_MOVE); o.val = MOVED; up(); }
    N& operator=(N&& o) noexcept(CTOR) { check(); o.check(); if (!CTOR) ou::may_throw(OF_MASSIGN); int v = o.val; if (&o != this) o.val = MOVED; val = v; return *this; }
    ~N() { check(); magic = DEAD; ou::gone(this); }
    void up() { magic = LIVE; ou::made(this, sizeof *this); }
    void check() const { if (magic != LIVE) ou::bad("value"); }
};
template<bool CTOR> int half_noexcept(int val, int form)
{
    using on = opt::optional<N<CTOR>>;
    on a(opt::in_place, -9), b(opt::in_place, val), e;
    switch (form & 7) {
    case 0: a = std::move(b); return a->val;
    case 1: e = std::move(b); return e->val;
    case 2: a.swap(b); return b->val == -9 ? a->val : NOVAL;
    case 3: std::swap(a, b); return b->val == -9 ? a->val : NOVAL;
    case 4: { on c(std::move(b)); return c->val; }
    case 5: a = N<CTOR>(val); return a->val;
    case 6: e.swap(b); return b ? (int)NOVAL : e->val;
    default: { N<CTOR> x = std::move(b).value(); return x.val; }
    }
}
struct Z { // converts to int, may throw
    int val;
    operator int() const& { ou::may_throw(OF_CONV); return val; }
    operator int() && { ou::may_throw(OF_CONV); int v = val; val = MOVED; return v; }
};
// an argument handed on as it was given: an lvalue keeps its value, an rvalue is moved from
template<class T> struct Given {
    T x;
    const int before;
    explicit Given(int v) : x{v}, before(v) {}
    template<class F> void lvalue(F&& f)
    {
        try { f(x); }
        catch (...) { same(); throw; }
        same();
    }
    template<class F> void rvalue(F&& f, bool used = true)
    {
        try { f(std::move(x)); }
        catch (...) { if (x.val != before && x.val != MOVED) ou::wrong("optional-argument", "an argument given as an rvalue was changed"); throw; }
        if (used && before != MOVED && x.val == before) ou::wrong("optional-argument", "an argument given as an rvalue was not handed on as one");
        if (!used && x.val != before) ou::wrong("optional-argument", "an argument that was not needed was used");
    }
    void same() const { if (x.val != before) ou::wrong("optional-argument", "an argument given as an lvalue was changed"); }
};
template<class X> void kept(const X& x, int val) { if (x.get() != val) ou::wrong("optional-argument", "an object given as an lvalue was changed"); }
struct P { // trivially copyable, needs more than an int
    int val, inv;
    P() = default;
    P(int a) : val(a), inv(~a) {}
    P(int a, int b) : val(a + b), inv(~val) {}
    P(std::initializer_list<int> il) : val(0) { for (int x : il) val += x; inv = ~val; }
    P(std::initializer_list<int> il, int w) : P(il) { val += w; inv = ~val; }
    int get() const { if (inv != ~val) ou::bad("trivially copyable value"); return val; }
};
using ov = opt::optional<V>;
using om = opt::optional<M>;
using ouu = opt::optional<U>;
using oi = opt::optional<int>;
using orf = opt::optional<V&>;
using oz = opt::optional<Z>;
ov* v[NV];
#ifndef SIM_BASIC
om* mo[NM];
#endif
ouu* u[NU];
oi* i[NI];
orf* r[NR];
V* ext[NEXT];
opt::optional<void>* vd;
template<class T, class... A> void renew(T*& p, A&&... a)
{
    void* m = p;
    p->~T();
    try { p = ::new (m) T(std::forward<A>(a)...); }
    catch (...) { p = ::new (m) T(); throw; }
}
template<class T> void* place()
{
    uintptr_t a = (uintptr_t)sim::harness_block(sizeof(T) + alignof(T));
    return (void*)((a + alignof(T) - 1) / alignof(T) * alignof(T));
}
template<class T, class... A> T* make(A&&... a) { return ::new (place<T>()) T(std::forward<A>(a)...); }
} // namespace
namespace os {
void reset()
{
    for (auto& p : v) p = make<ov>();
#ifndef SIM_BASIC
    for (auto& p : mo) p = make<om>();
#endif
    for (auto& p : u) p = make<ouu>();
    for (auto& p : i) p = make<oi>();
    for (auto& p : r) p = make<orf>();
    for (int k = 0; k < NEXT; ++k) ext[k] = make<V>(ext_val(k));
    vd = make<opt::optional<void>>();
}
void teardown()
{
    sim::Live l;
    for (auto& p : v) p->~ov();
#ifndef SIM_BASIC
    for (auto& p : mo) p->~om();
#endif
    for (auto& p : u) p->~ouu();
    for (auto& p : i) p->~oi();
    for (auto& p : r) p->~orf();
    for (auto& p : ext) p->~V();
}
void v_construct(int c, int form, int val, int d)
{
    sim::Live l;
    switch (form) {
    case VC_DEFAULT: renew(v[c]); break;
    case VC_NULL: renew(v[c], opt::nullopt); break;
    case VC_LVAL: if (d % 2) { const V x(val); renew(v[c], x); } else { V x(val); renew(v[c], x); kept(x, val); } break;
    case VC_RVAL: { V x(val); renew(v[c], std::move(x)); if (x.get() == val && val != MOVED) ou::wrong("optional-argument", "an rvalue given to a constructor was copied"); break; }
    case VC_COND: { V x(val); renew(v[c], d % 2 == 0, std::move(x)); break; }
    case VC_INPLACE: renew(v[c], opt::in_place, val); break;
    case VC_INPLACE2: renew(v[c], opt::in_place, val - 1, 1); break;
    case VC_INPLACEIL: { std::initializer_list<int> il{val, 0}; renew(v[c], opt::in_place, il); break; }
    case VC_IF: renew(v[c], opt::in_place_if, d % 2 == 0, val); break;
    case VC_IFIL: { std::initializer_list<int> il{val - 3, 1}; renew(v[c], opt::in_place_if, d % 2 == 0, il, 2); break; }
    case VC_COPY: { const ov& s = *v[d]; ov t(s); renew(v[c], static_cast<const ov&>(t)); break; }
    case VC_MOVE: renew(v[c], std::move(*v[d])); break;
    case VC_FROMU: renew(v[c], static_cast<const ouu&>(*u[d])); break;
    case VC_FROMUMOVE: renew(v[c], std::move(*u[d])); break;
    case VC_MAKE: { V x(val); *v[c] = opt::make_optional(std::move(x)); break; }
    case VC_MAKECOND: {
        V x(val);
        *v[c] = opt::make_optional(d % 2 == 0, std::move(x));
        if (d % 2 == 0 ? x.get() == val && val != MOVED : x.get() != val) ou::wrong("optional-argument", d % 2 ? "an rvalue was used by an optional made empty" : "an rvalue given to make_optional was copied");
        break;
    }
    case VC_MAKEARGS: *v[c] = opt::make_optional<V>(val - 1, 1); break;
    case VC_ARG: {
        std::initializer_list<int> il{2, 1};
        using opt::in_place; using opt::in_place_if;
        switch (d % 16) {
        case 0: Given<U>(val).lvalue([&](U& x) { renew(v[c], in_place, x); }); break;
        case 1: Given<U>(val).rvalue([&](U&& x) { renew(v[c], in_place, std::move(x)); }); break;
        case 2: Given<U>(val).lvalue([&](U& x) { renew(v[c], in_place_if, true, x); }); break;
        case 3: Given<U>(val).rvalue([&](U&& x) { renew(v[c], in_place_if, true, std::move(x)); }); break;
        case 4: Given<U>(val - 3).lvalue([&](U& x) { renew(v[c], in_place, il, x); }); break;
        case 5: Given<U>(val - 3).rvalue([&](U&& x) { renew(v[c], in_place, il, std::move(x)); }); break;
        case 6: Given<U>(val - 3).lvalue([&](U& x) { renew(v[c], in_place_if, true, il, x); }); break;
        case 7: Given<U>(val - 3).rvalue([&](U&& x) { renew(v[c], in_place_if, true, il, std::move(x)); }); break;
        case 8: Given<U>(val - 1).lvalue([&](U& x) { renew(v[c], opt::make_optional<V>(1, x)); }); break;
        case 9: Given<U>(val - 1).rvalue([&](U&& x) { renew(v[c], opt::make_optional<V>(1, std::move(x))); }); break;
        case 10: Given<U>(val - 2).lvalue([&](U& x) { renew(v[c], opt::make_optional<V>(true, 2, x)); }); break;
        case 11: Given<U>(val - 2).rvalue([&](U&& x) { renew(v[c], opt::make_optional<V>(true, 2, std::move(x))); }); break;
        case 12: { V x(val); renew(v[c], opt::make_optional(x)); kept(x, val); break; }
        case 13: { V x(val); renew(v[c], opt::make_optional(true, x)); kept(x, val); break; }
        case 14: Given<U>(val).rvalue([&](U&& x) { renew(v[c], in_place_if, false, std::move(x)); renew(v[c], in_place, val); }, false); break;
        case 15: { V x(val); renew(v[c], opt::make_optional(std::move(x))); if (x.get() == val && val != MOVED) ou::wrong("optional-argument", "an rvalue given to make_optional was copied"); break; }
        }
        break;
    }
    case VC_MAKEIF: *v[c] = opt::make_optional<V>(d % 2 == 0, val - 1, 1); break;
    }
}
void v_assign(int c, int form, int val, int d)
{
    sim::Live l;
    ov& o = *v[c];
    switch (form) {
    case VA_LVAL: if (d % 2) { const V x(val); o = x; } else { V x(val); o = x; kept(x, val); } break;
    case VA_RVAL: { V x(val); o = std::move(x); if (x.get() == val && val != MOVED) ou::wrong("optional-argument", "an assigned rvalue was copied"); break; }
    case VA_NULL: o = opt::nullopt; break;
    case VA_RESET: o.reset(); break;
    case VA_COPY: o = static_cast<const ov&>(*v[d]); break;
    case VA_MOVE: o = std::move(*v[d]); break;
    case VA_FROMU: o = static_cast<const ouu&>(*u[d]); break;
    case VA_FROMUMOVE: o = std::move(*u[d]); break;
    case VA_SELFVAL: o = *static_cast<const ov&>(o); break;
    case VA_EMPLACE: o.emplace(val); break;
    case VA_EMPLACE2: o.emplace(val - 1, 1); break;
    case VA_EMPLACEIL: { std::initializer_list<int> il{val, 0}; o.emplace(il); break; }
    case VA_EMPLACECOPY: if (d % 2) { const V x(val); o.emplace(x); } else { V x(val); o.emplace(x); kept(x, val); } break;
    case VA_ARG: {
        std::initializer_list<int> il{2, 1};
        switch (d % 8) {
        case 0: Given<U>(val).lvalue([&](U& x) { o.emplace(x); }); break;
        case 1: Given<U>(val).rvalue([&](U&& x) { o.emplace(std::move(x)); }); break;
        case 2: Given<U>(val - 1).lvalue([&](U& x) { o.emplace(1, x); }); break;
        case 3: Given<U>(val - 1).rvalue([&](U&& x) { o.emplace(1, std::move(x)); }); break;
        case 4: Given<U>(val - 3).lvalue([&](U& x) { o.emplace(il, x); }); break;
        case 5: Given<U>(val - 3).rvalue([&](U&& x) { o.emplace(il, std::move(x)); }); break;
        case 6: { U x(val); o.emplace(static_cast<const U&>(x)); if (x.val != val) ou::wrong("optional-argument", "a const argument was changed"); break; }
        case 7: o.emplace(U(val)); break;
        }
        break;
    }
    case VA_THROUGH: // by way of a reference or pointer to the value
        switch (d % 8) {
        case 0: { const V x(val); *o = x; break; }
        case 1: *o = V(val); break;
        case 2: o.value() = V(val); break;
        case 3: o.get() = V(val); break;
        case 4: *o.get_ptr() = V(val); break;
        case 5: opt::get(o) = V(val); break;
        case 6: *opt::get_pointer(o) = V(val); break;
        case 7: { V x(-5); o.get_value_or(x) = V(val); break; }
        }
        break;
    case VA_TEMP: o = ov(V(val)); break;
    }
}
int v_read(int c, int form, int dflt)
{
    sim::Live l;
    ov& o = *v[c];
    const ov& k = o;
    switch (form) {
    case VR_DEREF: return (*o).get();
    case VR_CDEREF: return (*k).get();
    case VR_VALUE: try { return o.value().get(); } catch (const opt::bad_optional_access&) { return NOVAL; }
    case VR_CVALUE: try { return k.value().get(); } catch (const opt::bad_optional_access&) { return NOVAL; }
    case VR_ARROW: return o->get();
    case VR_CARROW: return k->get();
    case VR_GET: return o.get().get();
    case VR_CGET: return k.get().get();
    case VR_PTR: return o.get_ptr() ? o.get_ptr()->get() : NOVAL;
    case VR_CPTR: return k.get_ptr() ? k.get_ptr()->get() : NOVAL;
    case VR_FGET: return opt::get(k).get();
    case VR_FPTR: return opt::get_pointer(k) ? opt::get_pointer(o)->get() : NOVAL;
    case VR_GVO: { V x(dflt); return o.get_value_or(x).get(); }
    case VR_CGVO: { const V x(dflt); return k.get_value_or(x).get(); }
    case VR_VALOR: {
        V x(dflt);
        V y = dflt % 2 ? k.value_or(x) : k.value_or(static_cast<const V&>(x));
        kept(x, dflt);
        return y.get();
    }
    case VR_VALORR: {
        V x(dflt);
        const bool empty = !k;
        V y = k.value_or(std::move(x));
        if (empty ? x.get() == dflt && dflt != MOVED : x.get() != dflt) ou::wrong("optional-argument", empty ? "the default was copied although given as an rvalue" : "the default was used by an engaged optional");
        return y.get();
    }
    case VR_FGETM: return opt::get(o).get();
    case VR_FPTRC: return opt::get(&k) ? opt::get(&k)->get() : NOVAL;
    case VR_FPTRM: return opt::get(&o) ? opt::get(&o)->get() : NOVAL;
    case VR_FGVOM: { V x(dflt); return opt::get_optional_value_or(o, x).get(); }
    default: { const V x(dflt); return opt::get_optional_value_or(k, x).get(); }
    }
}
int v_take(int c, int form, int dflt)
{
    sim::Live l;
    ov& o = *v[c];
    switch (form) {
    case VT_VALUE: try { V x = std::move(o).value(); return x.get(); } catch (const opt::bad_optional_access&) { return NOVAL; }
    case VT_DEREF: { V x = *std::move(o); return x.get(); }
    default: {
        V e(dflt);
        const bool empty = !o;
        V x = std::move(o).value_or(std::move(e));
        if (empty ? e.get() == dflt && dflt != MOVED : e.get() != dflt) ou::wrong("optional-argument", empty ? "the default was copied although given as an rvalue" : "the default was used by an engaged optional");
        return x.get();
    }
    }
}
void v_swap(int c, int d, int form) { sim::Live l; if (form) v[c]->swap(*v[d]); else std::swap(*v[c], *v[d]); }
bool v_engaged(int c, bool has) { sim::Live l; return has ? v[c]->has_value() : bool(*v[c]); }
const void* v_addr(int c) { return v[c]; }
unsigned v_size() { return sizeof(ov); }
void u_set(int c, int val) { sim::Live l; if (val == NOVAL) u[c]->reset(); else *u[c] = U(val); }
void u_state(int c, int* val) { sim::Live l; *val = *u[c] ? (**u[c]).val : (int)NOVAL; }
void i_op(int c, int form, int val, int d)
{
    sim::Live l;
    switch (form) {
    case IF_RVAL: *i[c] = (int)val; break;
    case IF_LVAL: { const int x = val; *i[c] = x; break; }
    case IF_COND: renew(i[c], d % 2 == 0, std::move(val)); break;
    case IF_INPLACE: renew(i[c], opt::in_place, val); break;
    case IF_IF: renew(i[c], opt::in_place_if, d % 2 == 0, val); break;
    case IF_NULL: *i[c] = opt::nullopt; break;
    case IF_RESET: i[c]->reset(); break;
    case IF_COPY: *i[c] = static_cast<const oi&>(*i[d]); break;
    case IF_MOVE: *i[c] = std::move(*i[d]); break;
    case IF_EMPLACE: i[c]->emplace(val); break;
    case IF_EMPLACEZ: i[c]->emplace(Z{val}); break;
    case IF_FROMZ: { const oz z(Z{val}); if (d % 2) *i[c] = z; else { oz e; *i[c] = static_cast<const oz&>(e); } break; }
    case IF_FROMZMOVE: { oz z(Z{val}); if (d % 2) *i[c] = std::move(z); else { oz e; *i[c] = std::move(e); } break; }
    case IF_CTORZ: { const oz z(Z{val}); renew(i[c], z); break; }
    case IF_ARG:
        switch (d % 8) {
        case 0: Given<Z>(val).lvalue([&](Z& x) { i[c]->emplace(x); }); break;
        case 1: Given<Z>(val).rvalue([&](Z&& x) { i[c]->emplace(std::move(x)); }); break;
        case 2: Given<Z>(val).lvalue([&](Z& x) { renew(i[c], opt::in_place, x); }); break;
        case 3: Given<Z>(val).rvalue([&](Z&& x) { renew(i[c], opt::in_place, std::move(x)); }); break;
        case 4: Given<Z>(val).lvalue([&](Z& x) { renew(i[c], opt::in_place_if, true, x); }); break;
        case 5: Given<Z>(val).rvalue([&](Z&& x) { renew(i[c], opt::in_place_if, true, std::move(x)); }); break;
        case 6: Given<Z>(val).lvalue([&](Z& x) { renew(i[c], opt::make_optional<int>(static_cast<Z&>(x))); }); break;
        case 7: { int x = val; *i[c] = x; if (x != val) ou::wrong("optional-argument", "an int given as an lvalue was changed"); break; }
        }
        break;
    case IF_NX: { const int x = val & 1 ? half_noexcept<true>(val, d) : half_noexcept<false>(val, d); *i[c] = x; break; }
    case IF_CTOR:
        switch (d % 8) {
        case 0: renew(i[c], opt::nullopt); break;
        case 1: renew(i[c], val); break;
        case 2: renew(i[c], static_cast<const int&>(val)); break;
        case 3: renew(i[c], std::move(val)); break;
        case 4: renew(i[c]); break;
        case 5: renew(i[c], opt::make_optional(val)); break;
        case 6: renew(i[c], opt::make_optional(true, std::move(val))); break;
        case 7: *i[c] = oi(opt::nullopt); break;
        }
        break;
    case IF_THROUGH:
        if (!*i[c]) break;
        switch (d % 8) {
        case 0: **i[c] = val; break;
        case 1: i[c]->value() = val; break;
        case 2: i[c]->get() = val; break;
        case 3: *i[c]->get_ptr() = val; break;
        case 4: opt::get(*i[c]) = val; break;
        case 5: *opt::get_pointer(*i[c]) = val; break;
        case 6: { int x = -5; i[c]->get_value_or(x) = val; break; }
        case 7: opt::get_optional_value_or(*i[c], val) = val; break;
        }
        break;
    case IF_P: { // by way of a trivially copyable class
        std::initializer_list<int> il{val - 3, 1}, all{val - 3, 1, 2};
        using op = opt::optional<P>;
        op p(opt::nullopt);
        switch (d % 8) {
        case 0: p = op(opt::in_place, all); break;
        case 1: p = op(opt::in_place, il, 2); break;
        case 2: p = op(opt::in_place_if, true, all); break;
        case 3: p = op(opt::in_place_if, false, il); break;
        case 4: p.emplace(all); break;
        case 5: p.emplace(val - 4, 4); break;
        case 6: p = op(opt::in_place, val - 4, 4); p.swap(p); break;
        case 7: { op q{P(val)}; std::swap(p, q); if (q) ou::bad("swapped optional"); break; }
        }
        op z(p);
        z = op(p);
        if (!z) *i[c] = opt::nullopt;
        else { const int x = (*z).get() + (z->val == p.value().get() && z.get_ptr()->get() == p.value_or(P(-1)).get() ? 0 : 1); *i[c] = x; }
        break;
    }
    case IF_SWAP: std::swap(*i[c], *i[d]); break;
    case IF_COPYCTOR: { oi t(static_cast<const oi&>(*i[d])); renew(i[c], static_cast<const oi&>(t)); break; }
    case IF_MOVECTOR: { oi t(*i[d]); renew(i[c], std::move(t)); break; }
    }
}
int i_read(int c, int form, int dflt)
{
    sim::Live l;
    oi& o = *i[c];
    const oi& k = o;
    switch (form) {
    case 0: return k ? *k : (int)NOVAL;
    case 1: try { return k.value(); } catch (const opt::bad_optional_access&) { return NOVAL; }
    case 2: return k.value_or(dflt);
    case 3: return o.get_ptr() ? *o.get_ptr() : (int)NOVAL;
    case 4: return k.get_value_or(dflt);
    case 6: return k.get_ptr() ? *k.get_ptr() : (int)NOVAL;
    case 7: return o.get_value_or(dflt);
    case 8: return opt::get_pointer(k) ? *opt::get_pointer(o) : (int)NOVAL;
    case 9: try { return std::move(o).value(); } catch (const opt::bad_optional_access&) { return NOVAL; }
    case 10: return oi(k).value_or(dflt);
    default: return k.has_value() ? k.get() : (int)NOVAL;
    }
}
bool i_engaged(int c) { sim::Live l; return i[c]->has_value(); }
void r_op(int c, int form, int e, int d)
{
    sim::Live l;
    switch (form) {
    case RF_BIND: renew(r[c], *ext[e]); break;
    case RF_INPLACE: renew(r[c], opt::in_place, *ext[e]); break;
    case RF_NULL: *r[c] = opt::nullopt; break;
    case RF_RESET: r[c]->reset(); break;
    case RF_COPY: *r[c] = *r[d]; break;
    case RF_COPYCTOR: { orf t(static_cast<const orf&>(*r[d])); renew(r[c], static_cast<const orf&>(t)); break; }
    case RF_EMPLACE: r[c]->emplace(*ext[e]); break;
    case RF_SWAP: r[c]->swap(*r[d]); break;
    case RF_MAKE: *r[c] = opt::make_optional(std::ref(*ext[e])); break;
    }
}
int r_read(int c, int form, int dflt)
{
    sim::Live l;
    const orf& k = *r[c];
    switch (form) {
    case 0: return k ? (*k).get() : (int)NOVAL;
    case 1: try { return k.value().get(); } catch (const opt::bad_optional_access&) { return NOVAL; }
    case 2: return k.has_value() ? k->get() : (int)NOVAL;
    case 3: {
        V e(dflt);
        V x = k.value_or(std::move(e));
        if (k && e.get() != dflt) ou::wrong("optional-argument", "the default was used by an engaged optional");
        return x.get();
    }
    default: { V e(dflt); V x = k.value_or(e); kept(e, dflt); return x.get(); }
    }
}
int r_index(int c)
{
    sim::Live l;
    const orf& k = *r[c];
    for (int e = 0; e < NEXT; ++e) if (k && std::addressof(*k) == ext[e]) return e;
    return -1;
}
bool r_engaged(int c) { sim::Live l; return bool(*r[c]); }
#ifdef SIM_BASIC // the library does not build with a type that can only be moved
bool has_mo() { return false; }
void m_op(int, int, int, int) {}
int m_read(int, int, int) { return NOVAL; }
int m_take(int, int, int) { return NOVAL; }
bool m_engaged(int) { return false; }
const void* m_addr(int) { return nullptr; }
unsigned m_size() { return 0; }
#else
bool has_mo() { return true; }
void m_op(int c, int form, int val, int d)
{
    sim::Live l;
    om& o = *mo[c];
    switch (form) {
    case MF_RVAL: { M x(val); o = std::move(x); break; }
    case MF_CTORRVAL: { M x(val); renew(mo[c], std::move(x)); break; }
    case MF_COND: { M x(val); renew(mo[c], d % 2 == 0, std::move(x)); break; }
    case MF_INPLACE: renew(mo[c], opt::in_place, val); break;
    case MF_IF: renew(mo[c], opt::in_place_if, d % 2 == 0, val - 1, 1); break;
    case MF_NULL: o = opt::nullopt; break;
    case MF_RESET: o.reset(); break;
    case MF_MOVE: o = std::move(*mo[d]); break;
    case MF_MOVECTOR: renew(mo[c], std::move(*mo[d])); break;
    case MF_EMPLACE: o.emplace(val - 1, 1); break;
    case MF_EMPLACERVAL: { M x(val); o.emplace(std::move(x)); break; }
    case MF_SWAP: std::swap(o, *mo[d]); break;
    case MF_MSWAP: o.swap(*mo[d]); break;
    case MF_MAKE: { M x(val); o = opt::make_optional(std::move(x)); break; }
    }
}
int m_read(int c, int form, int dflt)
{
    sim::Live l;
    const om& k = *mo[c];
    switch (form) {
    case 0: return k ? (*k).get() : (int)NOVAL;
    case 1: try { return k.value().get(); } catch (const opt::bad_optional_access&) { return NOVAL; }
    case 2: return k.get_ptr() ? k.get_ptr()->get() : (int)NOVAL;
    case 3: { const M x(dflt); return k.get_value_or(x).get(); }
    default: return k.has_value() ? k->get() : (int)NOVAL;
    }
}
int m_take(int c, int form, int dflt)
{
    sim::Live l;
    om& o = *mo[c];
    switch (form) {
    case VT_VALUE: try { M x = std::move(o).value(); return x.get(); } catch (const opt::bad_optional_access&) { return NOVAL; }
    case VT_DEREF: { M x = *std::move(o); return x.get(); }
    default: { M x = std::move(o).value_or(M(dflt)); return x.get(); }
    }
}
bool m_engaged(int c) { sim::Live l; return bool(*mo[c]); }
const void* m_addr(int c) { return mo[c]; }
unsigned m_size() { return sizeof(om); }
#endif
bool void_engaged()
{
    sim::Live l;
    int x = 3;
    vd->emplace(x);
    vd->emplace(3);
    *vd = 4;
    opt::optional<void> a, b(a), c(opt::nullopt);
    a = b;
    a = opt::nullopt;
    a.swap(c);
    vd->reset();
    bool thrown = false;
    try { vd->value(); } catch (const opt::bad_optional_access&) { thrown = true; }
    return bool(*vd) || vd->has_value() || a.has_value() || b.has_value() || !thrown || vd->value_or(7) != 7;
}
template<class A, class B> static bool rel(int r, const A& a, const B& b)
{
    switch (r) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return a < b;
    case 3: return a > b;
    case 4: return a <= b;
    default: return a >= b;
    }
}
bool compare(int shape, int r_, int c, int d, int val)
{
    sim::Live l;
    using oc = opt::optional<const V&>;
    auto cref = [](int k) { return *r[k] ? oc(**r[k]) : oc(); };
    const opt::nullopt_t& n = opt::nullopt;
    switch (shape) {
    case CS_VV: return rel(r_, *v[c], *v[d]);
    case CS_VX: { const V x(val); return rel(r_, *v[c], x); }
    case CS_XV: { const V x(val); return rel(r_, x, *v[c]); }
    case CS_VN: return rel(r_, *v[c], n);
    case CS_NV: return rel(r_, n, *v[c]);
    case CS_II: return rel(r_, *i[c], *i[d]);
    case CS_IX: return rel(r_, *i[c], val);
    case CS_XI: return rel(r_, val, *i[c]);
    case CS_IN: return rel(r_, *i[c], n);
    case CS_NI: return rel(r_, n, *i[c]);
    case CS_RR: return rel(r_, *r[c], *r[d]);
    case CS_RX: { const V x(val); return rel(r_, *r[c], x); }
    case CS_XR: { const V x(val); return rel(r_, x, *r[c]); }
    case CS_RN: return rel(r_, *r[c], n);
    case CS_NR: return rel(r_, n, *r[c]);
    case CS_CC: { oc a = cref(c), b = cref(d); return rel(r_, a, b); }
    case CS_CX: { oc a = cref(c); const V x(val); return rel(r_, a, x); }
    case CS_XC: { oc a = cref(c); const V x(val); return rel(r_, x, a); }
    case CS_CN: { oc a = cref(c); return rel(r_, a, n); }
    case CS_NC: { oc a = cref(c); return rel(r_, n, a); }
    case CS_DN: return rel(r_, *vd, n);
    default: return rel(r_, n, *vd);
    }
}
} // namespace os
