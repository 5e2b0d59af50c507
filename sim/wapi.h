// Interface between the instrumented library user code (sut*.cpp, compiled together with the real
// headers from /repo) and the uninstrumented world (world.cpp: recorder, oracles, fault plans).
#pragma once
#include "simcore.h"
#include "simex.h"

enum CallKind {
    K_FN = 0,     // functor with operator==, carries its identity
    K_FREE,       // free function
    K_NFN,        // functor without operator== (like a lambda)
    K_PMF,        // member function + raw pointer
    K_TRK,        // member function + shared object (tracked)
    K_SLOT,       // sig::slot object
    K_REF,        // std::ref(functor)
    K_BIND,       // std::bind
    K_PMFREF,     // member function + std::ref(object)
    K_PMFVAL,     // member function + object by value
    K_LAM,        // functor without state: key 0, 1 without, 2, 3 with operator==
    K_TFN,        // functor that is bound to a shared object (tracked)
    K_PFN,        // functor that is bound to a raw pointer, a reference or a copy of an object
    K_N
};
enum { N_FREE = 6, N_ROBJ = 4, N_MFN = 5, N_REFPOOL = 4, MAXSID = 340, MAXSIG = 4, MAXCELL = 4, MAXOBJ = 4, MAXINST = 32 };

inline bool bound(int kind) { return kind == K_TRK || kind == K_TFN; } // to a tracked object

struct CallSpec { int kind, form, key, uid, act, dact, obj, flags; };
enum { CF_CONSUME = 1, CF_INITBLOCK = 2, CF_MUTATE = 4, CF_RVALUE = 8, CF_VIASLOT = 16, CF_COPYACT = 32 };

struct ArgView { int tok; int pv; int rv; const void* raddr; const void* caddr; int cv; bool hasP, hasRef, noTok = false; };
struct EmitIn { int tok; int pval; };
struct EmitOut { bool engaged; int value; int collected; };

// callbacks into the world; all switch to harness mode themselves
namespace w {
void fn_made(int uid);
void fn_copy(int uid, int act);               // may throw
void fn_move(int uid);               // may throw
void fn_gone(int uid, int dact);
void fn_eq();                        // may throw
void bound_to(int uid, int obj);     // the object a functor was called with
void bad_object(const char* what);   // object used before construction or after destruction
void pl_made(); void pl_copy(); void pl_gone();       // payload (argument) copies; copy may throw
void rs_made(); void rs_copy(bool move); void rs_gone(); // results
void* body_begin(int kind, int ident, const ArgView&);
void body_run(void* call);           // actions; may throw
int  body_value(void* call);
void body_end(void* call);
void moved_call(int kind);
void taken(bool threw); // an object given as an lvalue was moved from
void obj_made(int inst);
void obj_gone(int inst, int dact);
void deref_begin();
bool deref_end(bool engaged, int value); // may throw; true: stop
int combiner_form();
void combiner_start();
void scale_call(int id, int tok);
void scale_live(int id, int d);
void cross_call(int id, int tok);
}

struct ISut {
    virtual ~ISut() {}
    virtual void reset() = 0;                                    // forget everything (new run)
    virtual void sig_new(int s) = 0;
    virtual void sig_del(int s) = 0;
    virtual void sig_move(int s, int t) = 0;
    virtual void sig_movector(int s, int t) = 0;
    virtual bool can_move() = 0;
    virtual bool basic() = 0;                                    // only the common kinds of callables
    virtual void connect(int s, const CallSpec&, int sid) = 0;   // stores handle sid
    virtual void connect_sc(int s, const CallSpec&, int sid, int cell) = 0; // cell = connect_scoped; stores handle sid too
    virtual unsigned long sdisc(int s, const CallSpec&) = 0;
    virtual void emit(int s, const EmitIn&, EmitOut&, const void** raddr, const void** caddr) = 0;
    virtual void obj_new(int cell, int inst, int dact) = 0;
    virtual void obj_drop(int cell) = 0;
    virtual bool has_payload() = 0;
    virtual bool has_ref() = 0;
    virtual bool has_data() = 0;
    virtual bool has_result() = 0;
    virtual bool custom_combiner() = 0;
};
struct IScale { // one signal, very many connections
    virtual ~IScale() {}
    virtual void start(int cap) = 0;
    virtual void connect(int id, int key, bool tracked) = 0; // ids count from 0
    virtual void drop(int id) = 0;             // release the object of a tracked connection
    virtual bool disc(int id) = 0;
    virtual bool connected(int id) = 0;
    virtual void block(int id, bool on) = 0;
    virtual unsigned long sdisc(int key) = 0;
    virtual int emit(int tok) = 0;             // id + 1 of the last slot called
    virtual void move() = 0;
    virtual void cycle(int how, int id) = 0;   // something that leaves everything as it was: see S_REPEAT
    virtual void finish() = 0;
};
struct ICross { // several signals, moved while other threads use them
    virtual ~ICross() {}
    virtual void start(int nsig, int cap) = 0;
    virtual void connect(int s, int id, int key) = 0;
    virtual unsigned long sdisc(int s, int key) = 0;
    virtual bool connected(int id) = 0;
    virtual void block(int id, bool on) = 0;
    virtual int emit(int s, int tok) = 0;      // id + 1 of the last slot called
    virtual void move(int s, int t, bool via) = 0; // s = std::move(t), or by way of a third signal
    virtual void finish() = 0;
};
IScale* sut_v6();
ICross* sut_cross();
ISut* sut_v0(); ISut* sut_v1(); ISut* sut_v2(); ISut* sut_v3(); ISut* sut_v4(); ISut* sut_v5();

// operations on handles (sut_handles.cpp)
namespace h {
void reset();
void* conn_mem(int sid);
void conn_copy_from_sc(int sid, int cell);
bool disc(int sid, int via); bool connected(int sid, int via); bool blocked(int sid, int via); bool valid(int sid, int via);
void block(int sid, int via); void unblock(int sid, int via);
void sc_from(int x, int sid, int form); void sc_move(int x, int y); void sc_movector(int x, int y); void sc_swap(int x, int y);
bool sc_release(int x); void sc_reset(int x, int form); bool sc_disc(int x); void sc_unwind(int sid, int ex);
bool sc_connected(int x);
void bl_make(int b, int sid, int count); void bl_move(int b, int c); void bl_movector(int b, int c); void bl_swap(int b, int c); void bl_reset(int b);
void drop_handle(int sid);
void* sc_ptr(int x);
}
