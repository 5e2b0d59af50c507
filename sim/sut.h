// Instrumented user code around the real library: callables, arguments, results, combiners.
#pragma once
#include <signals.hpp>
#include "wapi.h"
#include <functional>
#include <memory>
#include <new>
#pragma clang section bss = "" data = "" // below: simulated user code, not the library's own statics

namespace sutns {

constexpr unsigned LIVE = 0x5EEDF00Du, DEAD = 0xDEADBEEFu;

// by-value / reference argument
struct Payload {
    int val;
    unsigned magic = LIVE;
    explicit Payload(int v) : val(v) { w::pl_made(); }
    Payload(const Payload& o) : val(o.check()) { w::pl_copy(); }
    Payload(Payload&& o) noexcept : val(o.check()) { o.val = -1; w::pl_made(); }
    Payload& operator=(const Payload& o) { check(); val = o.check(); return *this; }
    Payload& operator=(Payload&& o) noexcept { check(); int v = o.check(); o.val = -1; val = v; return *this; }
    ~Payload() { check(); magic = DEAD; w::pl_gone(); }
    int check() const { if (magic != LIVE) w::bad_object("argument"); return val; }
};

inline bool operator==(const Payload& a, const Payload& b) { return a.check() == b.check(); }
inline bool operator!=(const Payload& a, const Payload& b) { return a.check() != b.check(); }
inline bool operator<(const Payload& a, const Payload& b) { return a.check() < b.check(); }

struct BodyScope {
    void* c;
    BodyScope(int kind, int ident, const ArgView& a) : c(w::body_begin(kind, ident, a)) {}
    ~BodyScope() { w::body_end(c); }
};

// A result.  One that is a data member of a slot object (kind >= 0) stands for a slot: copying it out is the call.
struct Res {
    int val, kind = -1, ident = 0;
    unsigned magic = LIVE;
    explicit Res(int v) : val(v) { w::rs_made(); }
    Res(int k, int i) : val(0), kind(k), ident(i) {}
    Res(const Res& o) : val(o.read()) { w::rs_copy(false); }
    Res(Res&& o) : val(o.read()) { w::rs_copy(true); o.val = -2; }
    Res& operator=(const Res& o) { check(); w::rs_copy(false); w::rs_gone(); val = o.check(); return *this; }
    Res& operator=(Res&& o) { check(); w::rs_copy(true); w::rs_gone(); val = o.check(); if (&o != this) o.val = -2; return *this; }
    ~Res() { check(); magic = DEAD; if (kind < 0) w::rs_gone(); }
    int check() const { if (magic != LIVE) w::bad_object("result"); return val; }
    int read() const
    {
        check();
        if (kind < 0) return val;
        BodyScope b(kind, ident, ArgView{0, 0, 0, nullptr, nullptr, 0, false, false, true});
        w::body_run(b.c);
        return w::body_value(b.c);
    }
};

inline bool operator==(const Res& a, const Res& b) { return a.check() == b.check(); }
inline bool operator!=(const Res& a, const Res& b) { return a.check() != b.check(); }
inline bool operator<(const Res& a, const Res& b) { return a.check() < b.check(); }

// combiner of the custom-combiner variants; walks the iterators in the ways combiners do
struct CollectResult { int n = 0; int last = 0; bool any = false; };
struct Collect {
    using result_type = CollectResult;
    // a combiner that is not const keeps its intermediate result in itself
    result_type acc;
    template<typename It> result_type operator()(It first, It last)
    {
        acc = result_type();
        walk(first, last, acc);
        return acc;
    }
    template<typename It> result_type operator()(It first, It last) const
    {
        result_type r;
        walk(first, last, r);
        return r;
    }
    template<typename It> static void walk(It first, It last, result_type& r)
    {
        w::combiner_start();
        const int form = w::combiner_form();
        while (form & 1 ? !(first == last) : first != last) {
            bool stop;
            w::deref_begin();
            switch (form) {
            case 2: { auto o = *first++; stop = take(o, r); break; }
            case 3: { It c(first); ++first; auto o = *c; stop = take(o, r); break; }
            case 1: { { auto o = *first; stop = take(o, r); } if (!stop) first++; break; }
            default: { { auto&& o = *first; stop = take(o, r); } if (!stop) ++first; break; }
            }
            if (stop) break;
        }
    }
    template<typename T> static bool take(const opt::optional<T>& o, result_type& r)
    {
        const bool e = bool(o);
        const bool stop = w::deref_end(e, e ? value_of(o) : 0);
        if (e) { r.any = true; r.last = value_of(o); }
        if (e || std::is_void<T>::value) r.n++;
        return stop;
    }
    template<typename T> static int value_of(const opt::optional<T>& o) { return get((*o)); }
    static int value_of(const opt::optional<void>&) { return 0; }
    static int get(const Res& r) { return r.check(); }
    static int get(int v) { return v; }
};

// ---- variants
struct V0 { // int(int), default combiner
    using R = int;
    using NR = long; // what the slots without operator== return: converted to R
    using sig_t = sig::signal<int(int)>;
    using fn_t = int(int);
    static constexpr bool payload = false, ref = false, result = true, custom = false, rref = false, data = false;
    static int ret(int v) { return v; }
};
struct V1 { // void(int), default combiner
    using R = void;
    using NR = int; // discarded
    using sig_t = sig::signal<void(int)>;
    using fn_t = void(int);
    static constexpr bool payload = false, ref = false, result = false, custom = false, rref = false, data = false;
    static void ret(int) {}
};
struct V2 { // Res(int, Payload, Payload&, const Payload&), custom combiner
    using R = Res;
    using NR = Res;
    using sig_t = sig::signal<Res(int, Payload, Payload&, const Payload&), Collect>;
    using fn_t = Res(int, Payload, Payload&, const Payload&);
    static constexpr bool payload = true, ref = true, result = true, custom = true, rref = false, data = false;
    static Res ret(int v) { return Res(v); }
};
struct V3 { // Res(int, Payload), default combiner
    using R = Res;
    using NR = Res;
    using sig_t = sig::signal<Res(int, Payload)>;
    using fn_t = Res(int, Payload);
    static constexpr bool payload = true, ref = false, result = true, custom = false, rref = false, data = false;
    static Res ret(int v) { return Res(v); }
};

struct V4 { // void(int, Payload&&, const int&), custom combiner
    using R = void;
    using NR = void;
    using sig_t = sig::signal<void(int, Payload&&, const int&), Collect>;
    using fn_t = void(int, Payload&&, const int&);
    static constexpr bool payload = false, ref = false, result = false, custom = true, rref = true, data = false;
    static void ret(int) {}
};
struct V5 { // Res(), default combiner; also accepts members that are data
    using R = Res;
    using NR = Res;
    using sig_t = sig::signal<Res()>;
    using fn_t = Res();
    static constexpr bool payload = false, ref = false, result = true, custom = false, rref = false, data = true;
    static Res ret(int v) { return Res(v); }
};

inline ArgView view() { return ArgView{0, 0, 0, nullptr, nullptr, 0, false, false, true}; }
inline ArgView view(int tok, const Payload& r, const int& c) { return ArgView{tok, 0, r.check(), &r, &c, c, false, true}; }
inline ArgView view(int tok) { return ArgView{tok, 0, 0, nullptr, nullptr, 0, false, false}; }
inline ArgView view(int tok, const Payload& p) { return ArgView{tok, p.check(), 0, nullptr, nullptr, 0, true, false}; }
inline ArgView view(int tok, const Payload& p, const Payload& r, const Payload& c) { return ArgView{tok, p.check(), r.check(), &r, &c, c.check(), true, true}; }
inline void use(int) {}
inline void use(int, int) {}
inline void use(int flags, int, Payload& r, const int&) { if (flags & CF_MUTATE) r.val++; }
inline void use(int flags, int, Payload& p) { if (flags & CF_CONSUME) { Payload q(std::move(p)); } }
inline void use(int flags, int, Payload& p, Payload& r, const Payload&)
{
    if (flags & CF_CONSUME) { Payload q(std::move(p)); }
    if (flags & CF_MUTATE) r.val++;
}

template<class V> typename V::R finish_body(void* c)
{
    w::body_run(c);
    return V::ret(w::body_value(c));
}

// ---- functors
struct FnData {
    int uid, key, dact, flags;
    unsigned magic = LIVE;
    bool orig;
    const FnData* self = this; // a callable that was relocated byte by byte no longer points to itself
    explicit FnData(const CallSpec& s) : uid(s.uid), key(s.key), dact(s.dact), flags(s.flags), orig(true) { w::fn_made(uid); }
    FnData(const FnData& o) : uid((o.check(), o.uid)), key(o.key), dact(o.dact), flags(o.flags), orig(false) { w::fn_copy(uid, flags & CF_COPYACT ? dact : -1); }
    FnData(FnData&& o) : uid((o.check(), o.uid)), key(o.key), dact(o.dact), flags(o.flags), orig(false) { w::fn_move(uid); o.kill(); }
    FnData& operator=(const FnData& o) { o.check(); check(); w::fn_copy(o.uid, -1); drop(); uid = o.uid; key = o.key; dact = o.dact; flags = o.flags; orig = false; return *this; }
    FnData& operator=(FnData&& o)
    {
        o.check(); check();
        if (this == &o) return *this;
        w::fn_move(o.uid); drop();
        uid = o.uid; key = o.key; dact = o.dact; flags = o.flags; orig = false;
        o.kill();
        return *this;
    }
    ~FnData() { check(); magic = DEAD; drop(); }
    void check() const { if (magic != LIVE || self != this) w::bad_object("callable"); }
    void kill() { w::fn_gone(uid, -1); uid = -1; key = -1; }
    void drop() { if (uid >= 0) { int u = uid; uid = -1; w::fn_gone(u, orig ? -1 : dact); } }
};
template<class V, class Sig = typename V::fn_t> struct Fn;
template<class V, class R, class... A> struct Fn<V, R(A...)> : FnData {
    explicit Fn(const CallSpec& s) : FnData(s) {}
    R operator()(A... a)
    {
        check();
        if (uid < 0) w::moved_call(K_FN);
        BodyScope b(K_FN, uid, view(a...));
        use(flags, a...);
        return finish_body<V>(b.c);
    }
    friend bool operator==(const Fn& x, const Fn& y) { x.check(); y.check(); w::fn_eq(); return x.key == y.key; }
};
template<class A> void scribble(std::remove_reference_t<A>& a)
{
    if constexpr (std::is_same<A, int>::value) a = -a - 7;
    (void)a;
}
// a member that makes a callable large and over-aligned
struct alignas(64) Bulk {
    unsigned head = LIVE;
    char body[312] = {};
    unsigned tail = LIVE;
    void check() const { if (head != LIVE || tail != LIVE || reinterpret_cast<unsigned long>(this) % 64) w::bad_object("large callable"); }
};
// no operator==; large; takes by-value arguments by rvalue reference (may consume or overwrite them in place)
template<class V, class Sig = typename V::fn_t> struct NFn;
template<class V, class R, class... A> struct NFn<V, R(A...)> : FnData {
    Bulk bulk;
    explicit NFn(const CallSpec& s) : FnData(s) {}
    typename V::NR operator()(A&&... a)
    {
        check();
        bulk.check();
        if (uid < 0) w::moved_call(K_NFN);
        BodyScope b(K_NFN, uid, view(a...));
        use(flags, a...);
        if (flags & CF_CONSUME) (scribble<A>(a), ...);
        if constexpr (std::is_same<typename V::NR, int>::value) { finish_body<V>(b.c); return 7; }
        else return finish_body<V>(b.c);
    }
};
// functors that are called with the object they were connected with; Eq: with operator==
template<class V, bool Eq, class Sig = typename V::fn_t> struct Tied;
template<class V, bool Eq, class R, class... A> struct Tied<V, Eq, R(A...)> : FnData {
    explicit Tied(const CallSpec& s) : FnData(s) {}
    template<class H> R operator()(H&& h, A... a)
    {
        check();
        if (uid < 0) w::moved_call(K_TFN);
        const auto& o = object(h);
        o.check();
        w::bound_to(uid, o.number());
        BodyScope b(K_FN, uid, view(a...));
        use(flags, a...);
        struct End { decltype(o) ob; const FnData* f; ~End() { ob.check(); f->check(); } } e{o, this};
        return finish_body<V>(b.c);
    }
    template<class H> static auto object(H& h) -> decltype((*h)) { return *h; }
    template<class H> static auto object(H& h) -> decltype((h.number(), h)) { return h; }
    template<class H> static auto object(H& h) -> decltype((h.get().number(), h.get())) { return h.get(); }
};
template<class V> bool operator==(const Tied<V, true>& x, const Tied<V, true>& y) { x.check(); y.check(); w::fn_eq(); return x.key == y.key; }
template<class V, class Sig = typename V::fn_t> struct Free;
template<class V, class R, class... A> struct Free<V, R(A...)> {
    template<int N> static R f(A... a)
    {
        BodyScope b(K_FREE, N, view(a...));
        use(N & 1, a...);
        return finish_body<V>(b.c);
    }
    using ptr = R (*)(A...);
    static ptr get(int n)
    {
        switch (n) {
        case 0: return &f<0>; case 1: return &f<1>; case 2: return &f<2>;
        case 3: return &f<3>; case 4: return &f<4>; default: return &f<5>;
        }
    }
};
// no state, so that only its type tells one from another
template<class V, int N, class Sig = typename V::fn_t> struct Lam;
template<class V, int N, class R, class... A> struct Lam<V, N, R(A...)> {
    R operator()(A... a)
    {
        BodyScope b(K_LAM, N, view(a...));
        use(0, a...);
        return finish_body<V>(b.c);
    }
};
template<class V, int N> struct LamEq : Lam<V, N> {
    friend bool operator==(const LamEq&, const LamEq&) { w::fn_eq(); return true; }
};
// a base class whose members are slots of the derived objects; not at offset 0 in them
struct Lead { long pad[2] = {}; virtual ~Lead() {} };
template<class V, class Sig = typename V::fn_t> struct BObj;
template<class V, class R, class... A> struct BObj<V, R(A...)> {
    int bkind, bident;
    unsigned bmagic = LIVE;
    BObj(int k, int i) : bkind(k), bident(i) {}
    ~BObj() { bcheck(); bmagic = DEAD; }
    void bcheck() const { if (bmagic != LIVE) w::bad_object("object"); }
    R inherited(A... a)
    {
        bcheck();
        BodyScope b(bkind, bident, view(a...));
        use(0, a...);
        struct End { BObj* o; ~End() { o->bcheck(); } } e{this};
        return finish_body<V>(b.c);
    }
};
// object with member-function slots; owner 0: raw pointer, 1: by reference, 2: by value
template<class V, class Sig = typename V::fn_t> struct RObj;
template<class V, class R, class... A> struct RObj<V, R(A...)> : Lead, BObj<V> {
    int id, kind;
    unsigned magic = LIVE;
    Res d;
    RObj(int i, int k) : BObj<V>(k, i * N_MFN + 3), id(i), kind(k), d(k, i * N_MFN + 2) {}
    RObj(const RObj& o) : BObj<V>(K_PMFVAL, o.id * N_MFN + 3), id(o.id), kind(K_PMFVAL), d(K_PMFVAL, id * N_MFN + 2) { o.check(); }
    ~RObj() { check(); magic = DEAD; }
    void check() const { if (magic != LIVE) w::bad_object("object"); }
    int number() const { return id; }
    R mc(A... a) const
    {
        check();
        BodyScope b(kind, id * N_MFN + 4, view(a...));
        use(0, a...);
        return finish_body<V>(b.c);
    }
    template<int M> R m(A... a)
    {
        check();
        BodyScope b(kind, id * N_MFN + M, view(a...));
        use(0, a...);
        return finish_body<V>(b.c);
    }
    friend bool operator==(const RObj& x, const RObj& y) { w::fn_eq(); return x.id == y.id; }
    using pmf = R (RObj::*)(A...);
    static pmf get(int m_) { return m_ == 0 ? &RObj::template m<0> : m_ == 1 ? &RObj::template m<1> : &RObj::template m<2>; }
};
template<class V, class Sig = typename V::fn_t> struct TObj;
template<class V, class R, class... A> struct TObj<V, R(A...)> : Lead, BObj<V> {
    int inst, dact;
    unsigned magic = LIVE;
    Res d;
    TObj(int i, int da) : BObj<V>(K_TRK, i * N_MFN + 3), inst(i), dact(da), d(K_TRK, i * N_MFN + 2) { w::obj_made(i); }
    TObj(const TObj&) = delete;
    ~TObj() { check(); magic = DEAD; w::obj_gone(inst, dact); }
    void check() const { if (magic != LIVE) w::bad_object("tracked object"); }
    int number() const { return inst; }
    R mc(A... a) const
    {
        check();
        BodyScope b(K_TRK, inst * N_MFN + 4, view(a...));
        use(0, a...);
        struct End { const TObj* o; ~End() { o->check(); } } e{this};
        return finish_body<V>(b.c);
    }
    template<int M> R m(A... a)
    {
        check();
        BodyScope b(K_TRK, inst * N_MFN + M, view(a...));
        use(0, a...);
        struct End { TObj* o; ~End() { o->check(); } } e{this};
        return finish_body<V>(b.c);
    }
    using pmf = R (TObj::*)(A...);
    static pmf get(int m_) { return m_ == 0 ? &TObj::template m<0> : m_ == 1 ? &TObj::template m<1> : &TObj::template m<2>; }
};

// A user's own smart pointer: reaches the library through to_weak() found by argument-dependent lookup, and its
// weak form has operator==, so that slots bound to it can be compared.
template<class T> struct UHandle {
    std::shared_ptr<T> p;
    T& operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
    bool operator!() const { return !p; }
};
template<class T> struct UWeak {
    std::weak_ptr<T> p;
    bool expired() const noexcept { return p.expired(); }
    UHandle<T> lock() const noexcept { return UHandle<T>{p.lock()}; }
    void reset() noexcept { p.reset(); }
    friend bool operator==(const UWeak& a, const UWeak& b) { w::fn_eq(); return !a.p.owner_before(b.p) && !b.p.owner_before(a.p); }
};
template<class T> UWeak<T> to_weak(const UHandle<T>& h) { return UWeak<T>{h.p}; }
template<class T> UWeak<T> to_weak(const UWeak<T>& h) { return h; }

template<class V> struct Sut final : ISut {
    using Sig = typename V::sig_t;
    using slot_t = typename Sig::slot_type;
    using F = Fn<V>;
    using NF = NFn<V>;
    Sig* sig[MAXSIG] = {};
    std::shared_ptr<TObj<V>> obj[MAXOBJ];
    RObj<V>* robj[N_ROBJ] = {};
    RObj<V>* rref[N_ROBJ] = {};
    F* pool[N_REFPOOL] = {};

    void reset() override
    {
        for (auto& s : sig) s = nullptr;
        for (auto& o : obj) ::new ((void*)&o) std::shared_ptr<TObj<V>>();
        for (int i = 0; i < N_ROBJ; ++i) { void* m = sim::harness_block(sizeof(RObj<V>)); robj[i] = ::new (m) RObj<V>(i, K_PMF); }
        for (int i = 0; i < N_ROBJ; ++i) { void* m = sim::harness_block(sizeof(RObj<V>)); rref[i] = ::new (m) RObj<V>(i, K_PMFREF); }
        for (int i = 0; i < N_REFPOOL; ++i) {
            void* m = sim::harness_block(sizeof(F));
            CallSpec c{K_REF, 0, i, MAXSID + i, -1, -1, 0, 0};
            pool[i] = ::new (m) F(c);
        }
    }
    void sig_new(int s) override { sim::Live l; sig[s] = new Sig(); }
    void sig_del(int s) override { sim::Live l; Sig* p = sig[s]; sig[s] = nullptr; delete p; }
    bool can_move() override
    {
#ifdef SIM_MOVE
        return true;
#else
        return false;
#endif
    }
    bool basic() override
    {
#ifdef SIM_BASIC
        return true;
#else
        return false;
#endif
    }
    void sig_move(int s, int t) override
    {
#ifdef SIM_MOVE
        sim::Live l;
        *sig[s] = std::move(*sig[t]);
#else
        (void)s; (void)t;
#endif
    }
    void sig_movector(int s, int t) override
    {
#ifdef SIM_MOVE
        sim::Live l;
        sig[s] = new Sig(std::move(*sig[t]));
#else
        (void)s; (void)t;
#endif
    }

    static auto bind_fn(const CallSpec& c)
    {
        using namespace std::placeholders;
        if constexpr (V::ref) return std::bind(F(c), _1, _2, _3, _4);
        else if constexpr (V::rref) return std::bind(F(c), _1, _2, _3);
        else if constexpr (V::data) return std::bind(F(c));
        else if constexpr (V::payload) return std::bind(F(c), _1, _2);
        else return std::bind(F(c), _1);
    }

    // Hands the callable described by c to go(...), in the value category and constness it names.
    template<class Go> auto dispatch(const CallSpec& c, Go&& go)
    {
        switch (c.kind) {
        case K_FN:
            if (c.form == 0) return go(F(c));
            if (c.form == 1) { F f(c); return go(f); }
            { const F f(c); return go(f); }
        case K_FREE: {
            auto p = Free<V>::get(c.key);
            if (c.form == 0) return go(std::move(p));
            if (c.form == 1) return go(p);
            if (c.form == 2) { const auto q = p; return go(q); }
            return go(*p);
        }
        case K_LAM:
            switch (c.key) {
            case 0: return go(Lam<V, 0>());
            case 1: { Lam<V, 1> f; return go(f); }
            case 2: { const LamEq<V, 2> f{}; return go(f); }
            default: return go(LamEq<V, 3>());
            }
        case K_NFN:
            if (c.form == 0) return go(NF(c));
            { NF f(c); return go(f); }
        case K_PMF: {
#ifndef SIM_BASIC
            if constexpr (V::data) if (c.key == 2) {
                auto m = &RObj<V>::d;
                if (c.form == 0) return go(std::move(m), robj[c.obj] + 0);
                return go(m, robj[c.obj]);
            }
            if (c.key == 3) return go(&BObj<V>::inherited, robj[c.obj]);
            if (c.key == 4) { const RObj<V>* p = robj[c.obj]; return go(&RObj<V>::mc, p); }
#endif
            auto m = RObj<V>::get(c.key);
            if (c.form == 0) return go(std::move(m), robj[c.obj] + 0);
            RObj<V>* p = robj[c.obj];
            if (c.form == 1) return go(m, p);
            const auto cm = m;
            RObj<V>* const cp = p;
            return go(cm, cp);
        }
        case K_TRK: {
#ifndef SIM_BASIC
            if constexpr (V::data) if (c.key == 2) {
                auto m = &TObj<V>::d;
                if (c.form >= 3) return go(m, UHandle<TObj<V>>{obj[c.obj]});
                if (c.form == 0) return go(m, obj[c.obj]);
                if (c.form == 1) return go(std::move(m), std::shared_ptr<TObj<V>>(obj[c.obj]));
                std::weak_ptr<TObj<V>> wp(obj[c.obj]);
                slot_t s(m, wp);
                return go(std::move(s));
            }
            if (c.key == 3 && c.form >= 3) return go(&BObj<V>::inherited, UHandle<TObj<V>>{obj[c.obj]});
            if (c.key == 4 && c.form >= 3) return go(&TObj<V>::mc, UHandle<TObj<V>>{obj[c.obj]});
            if (c.key == 3) return go(&BObj<V>::inherited, obj[c.obj]);
            if (c.key == 4) { const std::shared_ptr<TObj<V>> p(obj[c.obj]); return go(&TObj<V>::mc, p); }
#endif
            auto m = TObj<V>::get(c.key);
#ifndef SIM_BASIC
            if (c.form == 3) return go(m, UHandle<TObj<V>>{obj[c.obj]});
            if (c.form == 4) { const UHandle<TObj<V>> u{obj[c.obj]}; return go(m, u); }
            if (c.form == 5) { UWeak<TObj<V>> u{obj[c.obj]}; slot_t s(m, u); return go(s); }
#endif
            if (c.form == 0) { std::shared_ptr<TObj<V>> p(obj[c.obj]); return go(m, p); }
            if (c.form == 1) return go(std::move(m), std::shared_ptr<TObj<V>>(obj[c.obj]));
            std::weak_ptr<TObj<V>> wp(obj[c.obj]);
            slot_t s = give([](auto&&... x) { return slot_t(std::forward<decltype(x)>(x)...); }, m, wp);
            return go(std::move(s));
        }
        case K_SLOT: {
            slot_t s{F(c)};
            if (c.flags & CF_INITBLOCK) s.block();
            if (c.form == 0) return go(std::move(s));
            if (c.form == 1) return go(s);
            const slot_t& cs = s;
            return go(cs);
        }
#ifndef SIM_BASIC
        case K_REF:
            if (c.form == 0) return go(std::ref(*pool[c.key]));
            { auto r = std::ref(*pool[c.key]); return go(r); }
        case K_BIND: {
            if (c.form >= 2) {
                std::function<typename V::fn_t> f{F(c)};
                if (c.form == 2) return go(std::move(f));
                return go(f);
            }
            auto b = bind_fn(c);
            if (c.form == 0) return go(std::move(b));
            return go(b);
        }
        case K_TFN: {
            using O = TObj<V>;
            switch (c.form) {
            case 0: return go(Tied<V, false>(c), obj[c.obj]);
            case 1: { Tied<V, false> f(c); return go(f, std::shared_ptr<O>(obj[c.obj])); }
            case 2: { const Tied<V, false> f(c); std::weak_ptr<O> wp(obj[c.obj]); slot_t s(f, wp); return go(std::move(s)); }
            case 3: return go(Tied<V, true>(c), UHandle<O>{obj[c.obj]});
            case 4: { Tied<V, true> f(c); const UHandle<O> u{obj[c.obj]}; return go(f, u); }
            default: { Tied<V, true> f(c); UWeak<O> u{obj[c.obj]}; slot_t s(std::move(f), u); return go(s); }
            }
        }
        case K_PFN: {
            if (c.form == 0) return go(Tied<V, true>(c), robj[c.obj] + 0);
            if (c.form == 1) { Tied<V, true> f(c); RObj<V>* const p = robj[c.obj]; return go(f, p); }
            if (c.form == 2) return go(Tied<V, true>(c), std::ref(*rref[c.obj]));
            Tied<V, true> f(c);
            RObj<V> o(c.obj, K_PMFVAL);
            return go(f, o);
        }
        case K_PMFREF: {
            if constexpr (V::data) if (c.key == 2) return go(&RObj<V>::d, std::ref(*rref[c.obj]));
            auto m = RObj<V>::get(c.key);
            if (c.form == 0) return go(m, std::ref(*rref[c.obj]));
            auto r = std::ref(*rref[c.obj]);
            return go(m, r);
        }
        default: {
            if constexpr (V::data) if (c.key == 2) { RObj<V> o(c.obj, K_PMFVAL); return go(&RObj<V>::d, o); }
            auto m = RObj<V>::get(c.key);
            RObj<V> o(c.obj, K_PMFVAL);
            if (c.form == 0) return go(m, std::move(o));
            return go(m, o);
        }
#else
        default: return go(NF(c));
#endif
        }
    }
    // What is given as an lvalue stays the caller's, whether or not the operation succeeds.
    template<class A> static bool full(const A& a)
    {
        if constexpr (std::is_base_of<FnData, A>::value) return a.uid >= 0;
        else if constexpr (std::is_same<A, std::weak_ptr<TObj<V>>>::value) return a.owner_before(std::weak_ptr<TObj<V>>()) || std::weak_ptr<TObj<V>>().owner_before(a);
        else if constexpr (std::is_class<A>::value && std::is_constructible<bool, const A&>::value) return bool(a);
        else return true;
    }
    template<class A> static bool mine(const A& a, std::true_type) { return full(a); }
    template<class A> static bool mine(const A&, std::false_type) { return true; }
    template<class Go, class... A> static auto give(Go&& go, A&&... a)
    {
        auto whole = [&] { return (mine(a, std::is_lvalue_reference<A>()) && ...); };
        if (!whole()) return go(std::forward<A>(a)...);
        struct After {
            decltype(whole)& ok;
            int exc = std::uncaught_exceptions();
            ~After() { if (!ok()) w::taken(std::uncaught_exceptions() > exc); }
        } after{whole};
        return go(std::forward<A>(a)...);
    }
    // The same through a slot object that was built from the callable, copied and assigned.
    template<class Go> auto hand_over(const CallSpec& c, Go&& go)
    {
        return dispatch(c, [&](auto&&... a) {
            if (!(c.flags & CF_VIASLOT)) return give(go, std::forward<decltype(a)>(a)...);
            slot_t s = give([](auto&&... x) { return slot_t(std::forward<decltype(x)>(x)...); }, std::forward<decltype(a)>(a)...);
            if (c.flags & CF_INITBLOCK) s.block();
            const slot_t t(s);
            if (c.form & 1) return give(go, t);
            slot_t u;
            u = t;
            if (c.key & 1) return give(go, u);
            return go(std::move(u));
        });
    }
    void connect(int s, const CallSpec& c, int sid) override
    {
        void* mem = h::conn_mem(sid);
        sim::Live l;
        Sig& g = *sig[s];
        hand_over(c, [&](auto&&... a) { ::new (mem) sig::connection(g.connect(std::forward<decltype(a)>(a)...)); return 0; });
    }
    void connect_sc(int s, const CallSpec& c, int sid, int cell) override
    {
        h::conn_mem(sid);
        sim::Live l;
        Sig& g = *sig[s];
        auto* x = static_cast<sig::scoped_connection*>(h::sc_ptr(cell));
        hand_over(c, [&](auto&&... a) {
            auto n = g.connect_scoped(std::forward<decltype(a)>(a)...);
            *x = std::move(n);
            return 0;
        });
        h::conn_copy_from_sc(sid, cell);
    }
    unsigned long sdisc(int s, const CallSpec& c) override
    {
        sim::Live l;
        Sig& g = *sig[s];
        return hand_over(c, [&](auto&&... a) { return (unsigned long)g.disconnect(std::forward<decltype(a)>(a)...); });
    }
    template<class O> static void out(const O& o, EmitOut& r)
    {
        r.engaged = bool(o);
        if constexpr (V::result) {
            if (r.engaged) {
                if constexpr (V::payload || V::data) r.value = (*o).check();
                else r.value = *o;
            }
        }
    }
    void emit(int s, const EmitIn& in, EmitOut& r, const void** raddr, const void** caddr) override
    {
        Sig& g = *sig[s];
        if constexpr (V::ref) {
            Payload p(in.pval), q(in.pval + 1), k(in.pval + 2);
            *raddr = &q;
            *caddr = &k;
            {
                sim::Live l;
                auto x = g(in.tok, p, q, k);
                r.engaged = x.any;
                r.value = x.last;
                r.collected = x.n;
            }
            if (p.check() != in.pval) r.collected = -100;
        } else if constexpr (V::rref) {
            Payload q(in.pval + 1);
            const int k = in.pval + 2;
            *raddr = &q;
            *caddr = &k;
            sim::Live l;
            auto x = g(in.tok, std::move(q), k);
            r.engaged = x.any;
            r.value = x.last;
            r.collected = x.n;
        } else if constexpr (V::data) {
            sim::Live l;
            auto x = g();
            out(x, r);
        } else if constexpr (V::payload) {
            Payload p(in.pval);
            {
                sim::Live l;
                if (in.pval & 1) { auto x = g(in.tok, p); out(x, r); }
                else { auto x = g(in.tok, Payload(in.pval)); out(x, r); }
            }
        } else {
            sim::Live l;
            auto x = g(in.tok);
            out(x, r);
        }
    }
    void obj_new(int cell, int inst, int dact) override { sim::Live l; obj[cell] = std::make_shared<TObj<V>>(inst, dact); }
    void obj_drop(int cell) override { sim::Live l; std::shared_ptr<TObj<V>> p; p.swap(obj[cell]); p.reset(); }
    bool has_payload() override { return V::payload; }
    bool has_ref() override { return V::ref; }
    bool has_data() override { return V::data; }
    bool has_result() override { return V::result; }
    bool custom_combiner() override { return V::custom; }
};
} // namespace sutns
