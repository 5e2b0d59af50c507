// simslot: slot objects as values (C20).  Interface between the instrumented user code
// (slot_sut.cpp) and the uninstrumented world (slot_world.cpp).
#pragma once
#include "simcore.h"

enum { SK_EMPTY = 0, SK_FN, SK_NFN, SK_PMF, SK_TRK, SK_FREE, SK_PREF, SK_PVAL, SK_FUN, SK_UTRK, SK_PFN, SK_VFN, SK_TFN, SK_N };
enum { NSLOT = 6, NSOBJ = 3, NSCONN = 12 };

namespace su { // callbacks of the user code
void fn_made();
void fn_copy();     // may throw
void fn_move();     // may throw
void fn_gone();
void fn_eq();       // may throw
void bad(const char*);
void taken(bool threw); // an object given as an lvalue was moved from
void called(int kind, int key, int tok, int cnt); // may throw; a callable was invoked, its cnt-th call on that copy
}
namespace ss {
void reset(int variant);             // 0: int(int), 1: void(int)
void teardown();
void obj_new(int o);
void obj_drop(int o);
void make(int c, int kind, int key, int obj, int form);
void make_empty(int c, int form);
void copy_ctor(int c, int d, int form);
void copy_assign(int c, int d);
void move_ctor(int c, int d);
void move_assign(int c, int d);
void swap(int c, int d);
int  call(int c, int tok);           // -1: no result, -2: a void result that is engaged
void block(int c); void unblock(int c);
bool blocked(int c); bool connected(int c); bool engaged(int c); bool disconnect(int c);
bool eq(int c, int d, bool ne);
bool connect(int c, int k, bool scoped);  // connection k = signal.connect(cell c); returns connected()
void drop_conn(int k, bool disc);
bool conn_connected(int k); bool conn_blocked(int k);
void conn_block(int k, bool on);
unsigned long sdisc(int c);
int  emit(int tok);                  // default combiner: last result or -1
}
