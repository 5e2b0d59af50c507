// simcow: copy-on-write pointers (C21).  Interface between the instrumented user code (cow_sut.cpp)
// and the uninstrumented world (cow_world.cpp).
#pragma once
#include "simcore.h"
enum { NCOW = 8 };
namespace cu { // callbacks of the value type
void made();
void copying();     // may throw; a scheduling point in the middle of a copy
void copied();
void gone();
void bad(const char*);
void pause();       // scheduling point while a reference is held
}
namespace cw {
void reset();
void teardown();
void make(int c, int val, int form);        // 0 explicit ctor, 1 make_cow, 2 assign T*, 3 rebuild in place, 4 initializer_list
void clear(int c, int form);
void copy(int c, int d, int form);          // 0 assign, 1 rebuild from copy, 2 via temporary, 3 via by-value parameter
void move(int c, int d, int form);
void swap(int c, int d);
int  read(int c, int form);                 // -1 null, -2 torn
int  read_hold(int c, int form);            // reads twice with scheduling points in between; -3: changed
void write(int c, int val, int form);
int  write_hold(int c, int val, int form);  // writes, pauses, reads back through the same reference; -3: changed
bool engaged(int c);
bool equal(int c, int d, bool ne);
void bulk(int c, int n);                    // n further copies of c, in place of the ones made before
int  bulk_read(int i);                      // the value of one of them
bool null_data(int c);                      // conversions of a null pointer give null
}
