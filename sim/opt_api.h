// simopt: optional results (C22) and their comparisons (C23).  Interface between the instrumented user code (opt_sut.cpp) and the
// uninstrumented world (opt_world.cpp).
#pragma once
#include "simcore.h"
enum { NV = 4, NU = 3, NI = 3, NR = 3, NEXT = 3, NM = 3 };   // cells: optional<V>, optional<U>, optional<int>, optional<V&>; external V objects
enum { OF_NONE = 0, OF_CTOR, OF_COPY, OF_MOVE, OF_CASSIGN, OF_MASSIGN, OF_CONV, OF_CMP, OF_N };
enum { MOVED = -1, NOVAL = -2 };
namespace ou { // callbacks of the value types
void may_throw(int kind);
void made(const void* at, unsigned size);
void gone(const void* at);
void bad(const char*);
void wrong(const char* cls, const char* what);
}
enum VForm { // ways to construct an optional<V>
    VC_DEFAULT = 0, VC_NULL, VC_LVAL, VC_RVAL, VC_COND, VC_INPLACE, VC_INPLACE2, VC_INPLACEIL, VC_IF, VC_IFIL, VC_COPY, VC_MOVE, VC_FROMU, VC_FROMUMOVE, VC_MAKE, VC_MAKECOND, VC_MAKEARGS, VC_MAKEIF, VC_ARG, VC_N };
enum AForm { VA_LVAL = 0, VA_RVAL, VA_NULL, VA_RESET, VA_COPY, VA_MOVE, VA_FROMU, VA_FROMUMOVE, VA_SELFVAL, VA_EMPLACE, VA_EMPLACE2, VA_EMPLACEIL, VA_EMPLACECOPY, VA_TEMP, VA_ARG, VA_THROUGH, VA_N };
enum RForm { VR_DEREF = 0, VR_CDEREF, VR_VALUE, VR_CVALUE, VR_ARROW, VR_CARROW, VR_GET, VR_CGET, VR_PTR, VR_CPTR, VR_FGET, VR_FPTR, VR_GVO, VR_CGVO, VR_VALOR, VR_VALORR, VR_FGVO, VR_FGETM, VR_FPTRC, VR_FPTRM, VR_FGVOM, VR_N };
enum TForm { VT_VALUE = 0, VT_DEREF, VT_VALOR, VT_N };
namespace os {
void reset();
void teardown();
void v_construct(int c, int form, int val, int d);
void v_assign(int c, int form, int val, int d);
int  v_read(int c, int form, int dflt);               // the value seen, NOVAL: bad_optional_access or null pointer
int  v_take(int c, int form, int dflt);               // moves the value out of an rvalue optional
void v_swap(int c, int d, int form);
bool v_engaged(int c, bool viaHas);
const void* v_addr(int c); unsigned v_size();
void u_set(int c, int val);                           // NOVAL: empty
void u_state(int c, int* val);                        // NOVAL: empty
void i_op(int c, int form, int val, int d);
int  i_read(int c, int form, int dflt);
bool i_engaged(int c);
void r_op(int c, int form, int e, int d);
int  r_read(int c, int form, int dflt);               // value of the external object seen, NOVAL
int  r_index(int c);                                  // which external object it refers to, -1 none
bool r_engaged(int c);
void m_op(int c, int form, int val, int d);            // optional of a type that can only be moved
int  m_read(int c, int form, int dflt);
int  m_take(int c, int form, int dflt);
bool m_engaged(int c);
const void* m_addr(int c); unsigned m_size();
bool has_mo();
bool void_engaged();
bool compare(int shape, int rel, int c, int d, int val);
}
enum IForm { IF_RVAL = 0, IF_LVAL, IF_COND, IF_INPLACE, IF_IF, IF_NULL, IF_RESET, IF_COPY, IF_MOVE, IF_EMPLACE, IF_EMPLACEZ, IF_FROMZ, IF_FROMZMOVE, IF_CTORZ, IF_SWAP, IF_COPYCTOR, IF_MOVECTOR, IF_P, IF_ARG, IF_THROUGH, IF_CTOR, IF_NX, IF_N };
enum MForm { MF_RVAL = 0, MF_CTORRVAL, MF_COND, MF_INPLACE, MF_IF, MF_NULL, MF_RESET, MF_MOVE, MF_MOVECTOR, MF_EMPLACE, MF_EMPLACERVAL, MF_SWAP, MF_MSWAP, MF_MAKE, MF_N };
enum RefForm { RF_BIND = 0, RF_INPLACE, RF_NULL, RF_RESET, RF_COPY, RF_COPYCTOR, RF_EMPLACE, RF_SWAP, RF_MAKE, RF_N };
// comparisons: shape x relation; lhs/rhs kinds: optional, value, empty marker
enum CShape { CS_VV = 0, CS_VX, CS_XV, CS_VN, CS_NV, CS_II, CS_IX, CS_XI, CS_IN, CS_NI, CS_RR, CS_RX, CS_XR, CS_RN, CS_NR, CS_CC, CS_CX, CS_XC, CS_CN, CS_NC, CS_DN, CS_ND, CS_N };
enum { REL_N = 6 }; // == != < > <= >=
inline int ext_val(int e) { return e == 2 ? 901 : 900 + e; }   // two of the external objects have equal values
