#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    P.append(d)

S = "signals.hpp"; O = "optional.hpp"
LIST = ("slot list", "copy-on-write vector of the connected slots of one signal", "signals.hpp: signal::m_Slots")
MTX = ("slot mutex", "protects the list; never held while user code runs", "signals.hpp: signal::m_SlotMutex")
CONN = ("connected flag", "per-slot atomic, cleared exactly once", "signals.hpp: slot_state::m_Connected")
BLK = ("block state", "per-slot atomic block state", "signals.hpp: slot_state")
IDX = ("slot index", "position of a slot in the list, rewritten on swap-removal", "signals.hpp: slot_state::m_Index")

p("C01", "Every emission calls each connected, unblocked slot exactly once",
  "A slot that stays connected and unblocked for the whole of an emission is called exactly once by that emission, and no emission calls any slot more than once or a slot that was never connected to that signal. This holds however other threads and other slots concurrently connect, disconnect, block and emit.",
  ["schedules", "histories"], "all interleavings of emissions with connect/disconnect/block/emit from other threads and from inside slots",
  "The threaded tests only compare a total counter on one uncontrolled schedule; ThreadedConnect does not even assert the threaded part.",
  [S], [("signal::operator() snapshot + slot::operator() check", "signals.hpp: signal::operator(), slot_iterator, slot::operator()")], [LIST, MTX], ["slot bodies"])
p("C02", "A disconnected slot is never called again",
  "Once a disconnection of a slot has returned (through a connection, a scoped connection, or the signal's own disconnect), no emission that starts afterwards calls it. An emission already in progress, in any thread, that has not yet reached the slot skips it; only a call that had already been let through may still run.",
  ["schedules", "histories"], "all placements of the disconnection relative to every step of every concurrent or enclosing emission",
  "Tests only disconnect between emissions on one thread.",
  [S], [("connected flag checked before each call", "signals.hpp: slot::operator()"), ("removal from the list", "signals.hpp: signal::remove_slot, signal::erase")], [LIST, CONN], ["slot bodies", "connection::disconnect", "signal::disconnect"])
p("C03", "Each connection ends exactly once and no other connection is disturbed",
  "Ending a connection affects only that connection: every slot nobody disconnected stays connected and is still called. Of all concurrent or repeated attempts to end one connection exactly one reports success, and the successes reported by connections plus the counts reported by the signal's disconnect equal the number of connections ended.",
  ["schedules", "histories"], "all interleavings and orders of connect, per-connection disconnect and disconnect-by-callable, including from inside slots",
  "Tests disconnect sequentially and never check bystanders after stale or duplicate disconnections under concurrency.",
  [S], [("index bookkeeping in swap-removal", "signals.hpp: signal::remove_slot, signal::erase, signal::add_slot"), ("exchange on the connected flag", "signals.hpp: slot_state::disconnect")], [IDX, CONN, LIST], ["return values of disconnect", "later emissions"])
p("C04", "An emission works on the slots that were connected when it started",
  "A slot whose connection is requested after an emission has begun calling slots is not called by that emission, and is called by every later emission while it stays connected. Connecting or disconnecting from inside a slot, at any nesting depth, never makes the enclosing emission skip or repeat another slot.",
  ["schedules", "histories"], "all re-entrant and concurrent modifications at every point of an emission, including nested emissions",
  "No test modifies a signal from inside one of its slots.",
  [S], [("read-only snapshot of the list", "signals.hpp: signal::read_slots"), ("copy-on-write detach before modification", "signals.hpp: cow_ptr::detach")], [LIST], ["slot bodies"])
p("C05", "A blocked slot is not called, and blocking affects nothing else",
  "While a slot is blocked, explicitly or by at least one live blocker object, no emission that has yet to reach it calls it; the connection stays connected, other slots are unaffected, and once neither an explicit block nor a live blocker remains it is called again. Moving or swapping blocker objects transfers the block without a gap, and moving one onto itself changes nothing.",
  ["schedules", "histories"], "all histories of block, unblock and overlapping, moved, swapped blockers, concurrent with emissions",
  "One test blocks and unblocks explicitly on one thread; blockers are never tested.",
  [S], [("block state checked before each call", "signals.hpp: slot::operator()"), ("RAII blocker", "signals.hpp: connection_blocker")], [BLK], ["slot bodies", "connection::blocked"])
p("C06", "Connection handles report the true state, as if each call were instantaneous",
  "The connected, blocked and valid queries on any copy of a connection agree with a sequential history consistent with real time: connected goes from true to false once, is never true after a disconnection has returned, never false before any has started, and blocked reflects the block operations. A connected handle is always valid, and at rest a slot is called exactly when its handle says connected and not blocked.",
  ["schedules", "histories"], "all interleavings of queries through shared and copied handles with connects, disconnects, blocks and emissions",
  "Tests query handles only between operations on one thread.",
  [S], [("atomics + weak reference", "signals.hpp: connection, slot_state")], [CONN, BLK], ["connection::connected/blocked/valid"])
p("C07", "A scoped connection disconnects its slot exactly when its ownership ends",
  "A slot owned by a scoped connection is disconnected when the owner is destroyed or overwritten, and not before. Moving, swapping or releasing transfers or gives up that ownership, so a slot is never disconnected by a scoped connection that no longer owns it and never stays connected after the one that does is gone; stack unwinding counts as destruction.",
  ["schedules", "histories", "fault_sequences"], "all histories of create, move, swap, assign, release, destroy and unwinding, concurrent with emissions and disconnections",
  "Three straight-line tests cover single moves and releases.",
  [S], [("scoped_connection special members", "signals.hpp: scoped_connection")], [CONN], ["connection::connected", "slot bodies"])
p("C08", "A tracked object is alive during its calls and never kept alive by a connection",
  "A slot bound to a shared object is only ever called while that object is alive, and the object is not destroyed during the call. A connection never extends the object's lifetime beyond a call in progress; once the object is gone the slot reports disconnected, is never called, and yields no result.",
  ["schedules", "histories"], "all instants at which the last owner releases the object relative to every step of concurrent emissions",
  "Tests release the object only between emissions on one thread.",
  [S], [("weak lock held for the duration of the call", "signals.hpp: slot_pmf_tracked::operator()"), ("expired check", "signals.hpp: slot_pmf_tracked::connected")], [], ["member slot bodies", "object destructor"])
p("C09", "No use deadlocks, and a slow slot never blocks other threads",
  "Slots, callable copies and destructors, tracked objects' destructors and combiners may call back into any signal, and threads may emit, connect and disconnect across signals in any pattern, without deadlock. A thread stalled inside a slot does not stop any other thread's operations on the same signal from finishing in a bounded number of steps.",
  ["schedules", "histories", "fault_sequences"], "all schedules, cross-signal and re-entrant call patterns, with threads stalled at arbitrary points of user code",
  "ThreadedCrossed checks one emission pattern on one uncontrolled schedule; nothing re-enters from destructors.",
  [S], [("lock held only around list access", "signals.hpp: read_slots, add_slot, remove_slot, erase")], [MTX], ["operation returns"])
p("C10", "An exception from a slot reaches the emitter and leaves the signal intact",
  "If a slot, combiner, argument copy or result copy throws, exactly that exception leaves the emission, the slots not yet reached are not called, and the slots already called are not called again. The signal, all connections and all concurrent emissions are unaffected and no lock stays held.",
  ["fault_sequences", "schedules"], "exceptions thrown at every user-code point of an emission, under concurrency and nesting",
  "No test throws from a slot.",
  [S, O], [("no catch, RAII only", "signals.hpp: signal::operator(), slot_iterator")], [LIST, MTX], ["emission result", "later emissions"])
p("C11", "A failed allocation or callable copy leaves the signal as it was",
  "When memory runs out or copying or moving a callable throws during connect, disconnect or emit, the operation either completes or reports the failure with no effect: a failed connect connects nothing, a failed disconnect-by-callable disconnects nothing. Ending a connection through its handle never fails and never terminates the program.",
  ["fault_sequences", "histories"], "a failure at every allocation and callable copy or move of every operation, alone or inside emissions",
  "No test injects failures.",
  [S], [("allocate before modify", "signals.hpp: add_slot, erase, cow_ptr::detach"), ("noexcept disconnect", "signals.hpp: slot::disconnect, connection::disconnect")], [LIST], ["operation outcome", "later emissions"])
p("C12", "Callables are released promptly, exactly once, and nothing leaks",
  "Every copy of a callable, argument and result the library makes is destroyed exactly once. After a disconnection and the end of emissions in progress the callable is released even though the signal lives on, and when the signal and its handles are gone no memory remains.",
  ["schedules", "histories", "fault_sequences"], "all histories and schedules, including exceptions and failed allocations at every point",
  "Tests never count copies or check release times.",
  [S, O], [("shared ownership by list, snapshots and in-flight handles", "signals.hpp: signal, slot"), ("optional storage", "optional.hpp: optional_base")], [LIST], ["callable/argument/result constructors and destructors", "allocator"])
p("C13", "Concurrent use of one signal is free of data races and memory errors",
  "Any number of threads may connect, disconnect, block, query and emit on the same signal and its connections with no external locking: no two threads ever make unsynchronised conflicting accesses to the library's memory, and no freed or unowned memory is touched.",
  ["schedules"], "all interleavings at memory-access granularity (sequentially consistent atomics)",
  "Three threaded tests on uncontrolled schedules without a race detector.",
  [S], [("mutex, atomics, copy-on-write", "signals.hpp: signal, cow_ptr, slot_state")], [LIST, MTX, CONN, BLK, IDX], ["memory accesses"])
p("C14", "Handles may outlive their signal, even one destroyed inside its own emission",
  "When a signal is destroyed, also from within one of its own slots, all its connections become disconnected, the rest of that emission calls none of its slots, and every later operation on any connection, scoped connection or blocker that referred to it is a harmless no-op.",
  ["histories", "schedules"], "all points of destruction in a history, including inside (nested) emissions, and all later handle operations",
  "No test destroys a signal before its connections are last used.",
  [S], [("weak handles", "signals.hpp: connection"), ("signal destructor", "signals.hpp: signal::~signal")], [CONN], ["connection operations after destruction"])
p("C15", "Moving a signal carries its connections with it",
  "After a signal is moved by construction or assignment, its slots are called by the target in the same order, existing handles keep controlling them, and the source is empty and reusable; moving a signal onto itself changes nothing. The target's previous connections become disconnected, also when the move happens inside an emission of either signal.",
  ["histories", "fault_sequences"], "all histories of moves mixed with connects, disconnects, blocks and emissions, including re-entrant ones",
  "No test moves a signal.",
  [S], [("move constructor and assignment", "signals.hpp: signal(signal&&), signal::operator=(signal&&)")], [LIST], ["emissions of source and target", "connection operations"])
p("C16", "Every slot of an emission receives the arguments the emitter passed",
  "Each slot called by an emission receives by-value arguments equal to what the emitter passed, no matter what earlier slots did with theirs, and reference arguments refer to the emitter's own object. Concurrent or nested emissions never see each other's arguments.",
  ["schedules", "histories", "inputs"], "all numbers and kinds of slots (by value, consuming, by reference), nestings, schedules and throwing argument copies",
  "Tests only pass ints and references to one consuming slot.",
  [S], [("argument tuple and forwarding", "signals.hpp: signal::operator(), slot_iterator::do_invoke")], [], ["slot bodies"])
p("C17", "The emission result is the combiner's result over exactly the called slots",
  "The combiner sees one result per called slot in call order, with blocked, disconnected and expired slots yielding none; the default combiner returns the last result obtained and no result when no slot was called. A combiner that stops early causes no further slot to be called.",
  ["schedules", "histories", "fault_sequences"], "all combinations of slots disappearing, blocking or expiring during the emission, and all stopping points",
  "Tests check a few fixed slot sets with nothing changing during the emission.",
  [S, O], [("optional_last_value, slot_iterator", "signals.hpp"), ("optional", "optional.hpp")], [], ["emission result"])
p("C18", "Slots are called in connection order, reordered only as documented",
  "An emission calls its slots in the order in which they were connected, except that disconnecting a slot moves the slot that is last at that moment into the vacated place; the death of a tracked object by itself reorders nothing. With concurrent modifications the order is that of some instant within the emission call. (A disconnected slot whose removal ran out of memory keeps its place, uncalled, until a later update of the list removes it.)",
  ["schedules", "histories"], "all histories of connects and single disconnections, sequential and concurrent",
  "Tests check order only through last-value results of a few fixed histories.",
  [S], [("append and swap-removal", "signals.hpp: add_slot, remove_slot, erase")], [LIST, IDX], ["order of slot bodies"])
p("C19", "Disconnecting by callable ends all and only the equal connections",
  "Disconnecting by a callable, or callable and object, or slot ends every connection holding an equal callable, regardless of how either was passed in, ends no other, and returns how many it ended. If the callables cannot be compared it throws the documented exception and ends nothing; later use of the ended connections' handles is harmless.",
  ["schedules", "histories", "fault_sequences"], "all multisets of connected callables of different kinds, concurrent modifications, and comparisons that throw",
  "Tests disconnect a handful of free functions and functors passed the same way.",
  [S], [("slot equality", "signals.hpp: slot operator==, slot_func/slot_pmf equals, try_equals"), ("erase", "signals.hpp: signal::erase")], [LIST], ["return value", "later emissions"])
p("C20", "Slot objects behave as values, also when copying fails",
  "A copied or copy-assigned slot equals its source, is blocked if the source was explicitly blocked, is empty when the source is empty, and afterwards changes independently of it; connecting a slot copies it. A copy or assignment that throws leaves both slots as they were, and threads may copy, compare and connect one shared slot concurrently.",
  ["histories", "fault_sequences", "schedules"], "all histories of copy, move, assign, block, connect and compare with allocation and copy failures",
  "Tests only construct slots and assign temporaries.",
  [S], [("slot special members, clone", "signals.hpp: slot, slot_impl::clone")], [], ["slot invocation and comparison"])
p("C21", "Copies of a copy-on-write value never observe each other's writes",
  "Each copy-on-write pointer behaves as if it owned its own value: a write through one is visible only through it, a reader's view never changes under it, and concurrent threads using their own copies never interfere. A write whose copy fails changes nothing.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of copy, read, write, assign, move and destroy by threads holding their own pointers to one shared value",
  "Two sequential tests with two or three pointers.",
  [S], [("detach on use_count", "signals.hpp: cow_ptr")], [], ["cow_ptr::read/write"])
p("C22", "Optional results never lose, duplicate or fake a value when operations throw",
  "An optional is engaged exactly when it holds a constructed value, every constructed value is destroyed exactly once, and after any operation that throws the optional is empty or holds a value as documented, and stays usable. Results are transferred by copy, move, assignment, emplacement and swap with the value intact.",
  ["fault_sequences", "histories"], "all sequences of operations with an exception injected at any constructor or assignment of the value type",
  "The repository has no tests of the optional type at all.",
  [O], [("storage and flag", "optional.hpp: optional_base, tc_optional_base, optional")], [("engaged flag", "whether the storage holds a value", "optional.hpp: m_initialized")] and None, ["optional API"])
p("C23", "Optional comparisons form the documented total order",
  "An empty optional equals another empty one and orders before every engaged one; engaged optionals compare as their totally ordered values do, whether compared with an optional, with a value or with the empty marker, and whatever operations, failed ones included, led to their state. A comparison changes neither operand, also when comparing the values throws, and comparisons with the empty marker never throw.",
  ["histories", "fault_sequences"], "all pairs of optionals (of values and of references), values and the empty marker, in every state reachable by operations with an exception injected at any operation of the value type",
  "No tests of comparisons beyond equality of results.",
  [O], [("relational operators", "optional.hpp"), ("storage and flag", "optional.hpp: optional_base, tc_optional_base, optional<T&>")], None, ["comparison operators"])
p("C24", "Exactly the callables invocable with the signature are accepted",
  "A callable of any kind is accepted by connect exactly when it can be invoked with the signal's arguments and its result converts to the signal's result; all others are rejected at compile time.",
  ["programs"], "all callable types and signatures",
  "Tests instantiate about a dozen callable types.",
  [S], [("invoke_result / is_invocable_r traits", "signals.hpp: detail::traits")], None, ["compilation"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
