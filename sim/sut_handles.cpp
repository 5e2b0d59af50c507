// Instrumented: operations on connections, scoped connections and blockers (real library code).
#include <signals.hpp>
#include "wapi.h"
#include <new>
#pragma clang section bss = "" data = "" // below: simulated user code, not the library's own statics
using namespace sig;

static connection* g_c[MAXSID];
static scoped_connection* g_sc[MAXCELL];
static connection_blocker* g_bl[MAXCELL];
static connection_blocker* g_more[MAXCELL]; // further blockers of the cell
static int g_nmore[MAXCELL];

namespace h {
void reset()
{
    for (auto& c : g_c) c = nullptr;
    for (auto& c : g_sc) { void* m = sim::harness_block(sizeof(scoped_connection)); c = ::new (m) scoped_connection(); }
    for (auto& c : g_bl) { void* m = sim::harness_block(sizeof(connection_blocker)); c = ::new (m) connection_blocker(); }
    for (auto& n : g_nmore) n = 0;
}
void* conn_mem(int sid)
{
    if (!g_c[sid]) g_c[sid] = (connection*)sim::harness_block(sizeof(connection));
    return g_c[sid];
}
void* sc_ptr(int x) { return g_sc[x]; }
void conn_copy_from_sc(int sid, int cell) { void* m = conn_mem(sid); ::new (m) connection(*g_sc[cell]); }
void drop_handle(int sid)
{
    sim::Live l;
    if (g_c[sid]) { g_c[sid]->~connection(); g_c[sid] = nullptr; }
}
template<class F> static auto through(int sid, int via, F&& f)
{
    if (via == 1) { connection c(*g_c[sid]); return f(c); }
    if (via == 2) { connection a(*g_c[sid]), b; b = std::move(a); return f(b); }
    if (via == 3) { connection a(*g_c[sid]), b; a.swap(b); return f(b); }
    if (via == 4) { connection b; b = *g_c[sid]; connection& same = b; b = same; return f(b); }
    if (via == 5) { connection a(*g_c[sid]), b; sig::swap(a, a); sig::swap(b, a); return f(b); }
    if (via == 6) { connection a(*g_c[sid]), b(std::move(a)); a = b; a = std::move(b); b.swap(b); return f(a); }
    if (via == 7) { scoped_connection s(*g_c[sid]); connection c = s.release(); return f(c); }
    return f(*g_c[sid]);
}
bool disc(int sid, int via) { sim::Live l; return through(sid, via, [](connection& c) { return c.disconnect(); }); }
bool connected(int sid, int via) { sim::Live l; return through(sid, via, [](connection& c) { return c.connected(); }); }
bool blocked(int sid, int via) { sim::Live l; return through(sid, via, [](connection& c) { return c.blocked(); }); }
bool valid(int sid, int via) { sim::Live l; return through(sid, via, [](connection& c) { return c.valid(); }); }
void block(int sid, int via) { sim::Live l; through(sid, via, [](connection& c) { c.block(); return 0; }); }
void unblock(int sid, int via) { sim::Live l; through(sid, via, [](connection& c) { c.unblock(); return 0; }); }

void sc_from(int x, int sid, int form)
{
    sim::Live l;
    if (form == 1) { *g_sc[x] = *g_c[sid]; return; }
    if (form == 2) { *g_sc[x] = connection(*g_c[sid]); return; }
    if (form == 3) {
        connection c(*g_c[sid]);
        scoped_connection n(std::move(c));
        n.swap(*g_sc[x]);
        return;
    }
    if (form == 4) {
        connection c(*g_c[sid]);
        scoped_connection n;
        static_cast<connection&>(n).swap(c);
        *g_sc[x] = std::move(n);
        return;
    }
    *g_sc[x] = scoped_connection(*g_c[sid]);
}
void sc_move(int x, int y) { sim::Live l; *g_sc[x] = std::move(*g_sc[y]); }
void sc_movector(int x, int y)
{
    sim::Live l;
    g_sc[x]->~scoped_connection();
    ::new ((void*)g_sc[x]) scoped_connection(std::move(*g_sc[y]));
}
void sc_swap(int x, int y) { sim::Live l; using sig::swap; swap(*g_sc[x], *g_sc[y]); }
bool sc_release(int x) { sim::Live l; connection c = g_sc[x]->release(); return c.connected(); }
void sc_reset(int x, int form)
{
    sim::Live l;
    if (form == 1) { connection* b = g_sc[x]; b->~connection(); }
    else if (form == 2) { *g_sc[x] = scoped_connection(); return; }
    else g_sc[x]->~scoped_connection();
    ::new ((void*)g_sc[x]) scoped_connection();
}
bool sc_disc(int x) { sim::Live l; return g_sc[x]->disconnect(); }
bool sc_connected(int x) { sim::Live l; return g_sc[x]->connected(); }
void sc_unwind(int sid, int ex)
{
    sim::Live l;
    try {
        scoped_connection c(*g_c[sid]);
        throw SimEx{ex};
    } catch (const SimEx&) {}
}
static void drop_more(int b)
{
    while (g_nmore[b]) g_more[b][--g_nmore[b]].~connection_blocker();
}
static void swap_more(int b, int c)
{
    std::swap(g_more[b], g_more[c]);
    std::swap(g_nmore[b], g_nmore[c]);
}
void bl_make(int b, int sid, int count)
{
    if (count < 0) count = (count >= -8 ? 65536 : 32768 + 8) + 4 + count; // close to where a narrow counter would wrap
    sim::Live l;
    *g_bl[b] = g_c[sid]->blocker();
    drop_more(b);
    if (count > 1000) sim::large_run();
    if (!count) return;
    g_more[b] = (connection_blocker*)sim::harness_block((size_t)count * sizeof(connection_blocker));
    for (; g_nmore[b] < count; ++g_nmore[b]) ::new ((void*)(g_more[b] + g_nmore[b])) connection_blocker(g_c[sid]->blocker());
}
void bl_move(int b, int c) { sim::Live l; if (b != c) drop_more(b); *g_bl[b] = std::move(*g_bl[c]); if (b != c) swap_more(b, c); }
void bl_movector(int b, int c)
{
    sim::Live l;
    drop_more(b);
    g_bl[b]->~connection_blocker();
    ::new ((void*)g_bl[b]) connection_blocker(std::move(*g_bl[c]));
    swap_more(b, c);
}
void bl_swap(int b, int c) { sim::Live l; using sig::swap; swap(*g_bl[b], *g_bl[c]); if (b != c) swap_more(b, c); }
void bl_reset(int b)
{
    sim::Live l;
    drop_more(b);
    g_bl[b]->~connection_blocker();
    ::new ((void*)g_bl[b]) connection_blocker();
}
}
