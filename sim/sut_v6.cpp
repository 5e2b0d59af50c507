// One signal with very many connections, driven sequentially (see run_scale in world.cpp), and
// signals that threads move into one another while they are in use (see run_cross).
#include "wapi.h"
#ifdef SIM_STUB // this signature does not build with the library
IScale* sut_v6() { return nullptr; }
ICross* sut_cross() { return nullptr; }
#else
#include <signals.hpp>
#include <memory>
#include <new>
namespace {
struct F { // calls are reported with the id; callables with the same key are equal
    int id, key;
    F(int i, int k) : id(i), key(k) { sim::Harness h; w::scale_live(id, 1); }
    F(const F& o) : id(o.id), key(o.key) { sim::Harness h; w::scale_live(id, 1); }
    ~F() { sim::Harness h; w::scale_live(id, -1); }
    int operator()(int tok) const { sim::Harness h; w::scale_call(id, tok); return id + 1; }
    friend bool operator==(const F& a, const F& b) { return a.key == b.key; }
};
struct Obj { // tracked
    int id;
    explicit Obj(int i) : id(i) { sim::Harness h; w::scale_live(id, 1); }
    ~Obj() { sim::Harness h; w::scale_live(id, -1); }
    int f(int tok) { sim::Harness h; w::scale_call(id, tok); return id + 1; }
};
using Sig = sig::signal<int(int)>;
struct Scale : IScale {
    Sig* g = nullptr;
    sig::connection* c = nullptr;
    std::shared_ptr<Obj>* o = nullptr;
    int n = 0;
    void start(int cap) override
    {
        n = 0;
        o = (std::shared_ptr<Obj>*)sim::harness_block((size_t)cap * sizeof(std::shared_ptr<Obj>));
        c = (sig::connection*)sim::harness_block((size_t)cap * sizeof(sig::connection));
        void* m = sim::harness_block(sizeof(Sig));
        sim::Live l;
        g = ::new (m) Sig();
    }
    void connect(int id, int key, bool tracked) override
    {
        sim::Live l;
        ::new ((void*)(o + n)) std::shared_ptr<Obj>();
        if (tracked) o[n] = std::make_shared<Obj>(id);
        ::new ((void*)(c + n)) sig::connection(tracked ? g->connect(&Obj::f, o[n]) : g->connect(F{id, key}));
        ++n;
    }
    void drop(int id) override { sim::Live l; o[id].reset(); }
    bool disc(int id) override { sim::Live l; return c[id].disconnect(); }
    bool connected(int id) override { sim::Live l; return c[id].connected(); }
    void block(int id, bool on) override { sim::Live l; if (on) c[id].block(); else c[id].unblock(); }
    unsigned long sdisc(int key) override { sim::Live l; return g->disconnect(F{-1, key}); }
    int emit(int tok) override { sim::Live l; auto r = (*g)(tok); return r ? *r : 0; }
    void move() override { void* m = sim::harness_block(sizeof(Sig)); sim::Live l; Sig* t = ::new (m) Sig(std::move(*g)); g->~Sig(); g = t; }
    void cycle(int how, int id) override
    {
        sim::Live l;
        switch (how) {
        case 0: { sig::connection k = g->connect(F{-2, -2}); k.disconnect(); break; }
        case 1: g->connect(F{-2, -2}); g->disconnect(F{-1, -2}); break;
        case 2: { sig::scoped_connection k = g->connect_scoped(F{-2, -2}); break; }
        case 3: { auto b = c[id].blocker(); break; }
        case 4: { sig::connection k(c[id]), m; m = k; k.swap(m); m = std::move(k); break; }
        case 5: { sig::scoped_connection k(c[id]); k.release(); break; }
        default: g->disconnect(F{-1, -2}); break;
        }
    }
    void finish() override
    {
        sim::Live l;
        g->~Sig();
        while (n) { c[--n].~connection(); o[n].~shared_ptr(); }
    }
} g_s;
struct G {
    int id, key;
    G(int i, int k) : id(i), key(k) { sim::Harness h; w::scale_live(id, 1); }
    G(const G& o) : id(o.id), key(o.key) { sim::Harness h; w::scale_live(id, 1); }
    ~G() { sim::Harness h; w::scale_live(id, -1); }
    int operator()(int tok) const { sim::Harness h; w::cross_call(id, tok); return id + 1; }
    friend bool operator==(const G& a, const G& b) { return a.key == b.key; }
};
struct Cross : ICross {
    Sig* g = nullptr;
    int n = 0, cap = 0;
    sig::connection* c = nullptr;
    void start(int nsig, int m) override
    {
        cap = m;
        c = (sig::connection*)sim::harness_block((size_t)cap * sizeof(sig::connection));
        g = (Sig*)sim::harness_block((size_t)nsig * sizeof(Sig));
        sim::Live l;
        for (int i = 0; i < cap; ++i) ::new ((void*)(c + i)) sig::connection();
        for (n = 0; n < nsig; ++n) ::new ((void*)(g + n)) Sig();
    }
    void connect(int s, int id, int key) override { sim::Live l; c[id] = g[s].connect(G{id, key}); }
    unsigned long sdisc(int s, int key) override { sim::Live l; return g[s].disconnect(G{-1, key}); }
    bool connected(int id) override { sim::Live l; return c[id].connected(); }
    void block(int id, bool on) override { sim::Live l; if (on) c[id].block(); else c[id].unblock(); }
    int emit(int s, int tok) override { sim::Live l; auto r = g[s](tok); return r ? *r : 0; }
    void move(int s, int t, bool via) override
    {
        sim::Live l;
        if (!via) { g[s] = std::move(g[t]); return; }
        Sig x(std::move(g[t]));
        g[s] = std::move(x);
    }
    void finish() override
    {
        sim::Live l;
        while (n) g[--n].~Sig();
        for (int i = cap; i; ) c[--i].~connection();
    }
} g_x;
}
ICross* sut_cross() { return &g_x; }
IScale* sut_v6() { return &g_s; }
#endif
