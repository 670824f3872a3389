#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
S = 'signals.hpp'
O = 'optional.hpp'
out = []


def p(id, title, statement, over, text, why, mech, files=(S,), state=(), observe=()):
    out.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': list(files),
                    'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                    'mechanism': [{'name': a, 'where': b} for a, b in mech],
                    'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'An emission calls every connected, unblocked slot exactly once, in order',
  'Invoking a signal calls each slot that is connected and not blocked exactly once before it returns, whatever kind of callable it holds, and calls nothing else. As long as no slot has been disconnected, the calls happen in the order in which the slots were connected. After any history of connects and disconnects, exactly the slots that are still connected are called.',
  ['histories', 'inputs', 'configurations'],
  'every number of slots, every history of connect/disconnect, every kind of callable and signature',
  'The tests emit on lists of one to three slots and one history each; the claim is for any list length and history.',
  [('signal::operator()', 'signals.hpp signal::operator()'), ('slot_iterator', 'signals.hpp slot_iterator::do_invoke'), ('default combiner', 'signals.hpp optional_last_value'), ('add_slot', 'signals.hpp signal::add_slot')],
  state=[('m_Slots', 'copy-on-write list of shared slots', 'signals.hpp signal'), ('m_Index', 'position of a slot in the list', 'signals.hpp slot_state')],
  observe=['calls made to the callables'])

p('C02', 'A disconnected slot is never called again',
  'Once a slot has been disconnected (through its connection, through a scoped connection going away, by callable or slot value, or because its signal was destroyed or replaced by assignment) no call of it starts any more (a call another thread had already begun to dispatch may still run). This includes emissions that were already in progress when the disconnection happened. Its connection then reports that it is not connected.',
  ['histories', 'schedules'],
  'every route of disconnection, every point of an emission in progress, every position of the slot in a list of any length',
  'Tests disconnect between emissions; disconnection from inside another slot at each position of a long list is not sampled.',
  [('connected check before each call', 'signals.hpp slot::operator()'), ('state of the slot is shared with emissions in progress', 'signals.hpp slot_state::disconnect'), ('erase', 'signals.hpp signal::erase')],
  state=[('m_Connected', 'false from the moment of disconnection', 'signals.hpp slot_state')])

p('C03', 'Disconnecting removes exactly the intended slot',
  'Disconnecting one slot never disconnects, drops, duplicates or blocks any other slot: all others are still called by later emissions. Every remaining connection keeps controlling the slot it was created for. This holds for any sequence of connects and disconnects, in any order, also during emissions and also for slots that were removed before.',
  ['histories', 'inputs'],
  'every list length, every position, every sequence of removals by connection and by callable',
  'The list is compacted by swapping with the last slot; tests remove from lists of two or three slots and rarely disconnect again after a removal moved slots around.',
  [('remove_slot', 'signals.hpp signal::remove_slot'), ('erase', 'signals.hpp signal::erase'), ('index bookkeeping', 'signals.hpp slot_state::index')],
  state=[('m_Index', 'must equal the position in the current list', 'signals.hpp slot_state')])

p('C04', 'disconnect() reports success exactly once per connected slot',
  'For every slot, at most one of all the disconnect() calls made through any copies of its connection, from any threads, returns true, and the first one made while the slot is connected to a live signal does. All others, and those on empty or stale connections, return false and change nothing. Afterwards connected() is false on every copy.',
  ['schedules', 'histories'],
  'every interleaving of two disconnecting threads and every history of copies',
  'A test calls disconnect twice in one thread; it cannot cover the interleavings.',
  [('atomic exchange', 'signals.hpp slot_state::disconnect'), ('slot::disconnect', 'signals.hpp slot::disconnect'), ('connection::disconnect', 'signals.hpp connection::disconnect')])

p('C05', 'Blocking suppresses exactly one slot for exactly as long as it is in force',
  'A slot that is blocked through a connection or a live blocker is not called by any emission, stays connected, and reports blocked on every copy of its connection; unblocking, or the end of the blocker it was last moved to, makes it callable again. Blocking one slot never affects any other slot. A default-constructed or moved-from blocker, and a blocker whose slot is gone, has no effect.',
  ['histories', 'inputs'],
  'every sequence of block, unblock, blocker creation, move and destruction (blockers of one slot not overlapping), every position in a list of any length',
  'Tests cover one block/unblock pair and one blocker scope.',
  [('connection_blocker', 'signals.hpp connection_blocker'), ('blocked flag', 'signals.hpp slot_state'), ('check before the call', 'signals.hpp slot::operator()')],
  state=[('m_Blocked', 'set while blocked', 'signals.hpp slot_state')])

p('C06', 'Tracked objects are never used after they died and never kept alive',
  'A slot bound to a shared pointer or (built as a slot from) a weak pointer never calls into its object once the object is destroyed; from then on it counts as not connected. While a call into the object is running, the object stays alive even if every other owner lets go of it, and it is destroyed no later than the end of that call. The connection itself never prolongs the life of the object between emissions.',
  ['schedules', 'histories'],
  'every point at which the last owner may release the object: before, during and between emissions',
  'Tests reset the pointer between two emissions only.',
  [('slot_pmf_tracked', 'signals.hpp slot_pmf_tracked::operator()'), ('to_weak', 'signals.hpp to_weak'), ('connected()', 'signals.hpp slot_pmf_tracked::connected')])

p('C07', 'Slots run without any lock held; every operation is re-entrant',
  'No callable is invoked, copied or destroyed while the library holds a mutex. Hence connecting, disconnecting, blocking, emitting and destroying connections from inside a slot, or from the destructor of a callable, never deadlocks. Every mutex taken by an operation is released again when it returns or throws.',
  ['schedules', 'programs'],
  'every operation called from inside a slot or from a destructor of a callable, nested to any depth, on every path including exceptional ones',
  'A deadlock shows only in the particular re-entrant program that triggers it; the tests contain few of them.',
  [('snapshot under lock', 'signals.hpp signal::read_slots'), ('deferred destruction', 'signals.hpp signal::erase'), ('lock scopes', 'signals.hpp signal')])

p('C08', 'An emission works on a stable snapshot of the slots',
  'Slots connected while an emission is in progress are not called by that emission but by the next one. Connecting, disconnecting or emitting again from inside a slot never makes the emission in progress skip or repeat another connected slot, and never makes it touch released memory. Nested emissions each call the slots connected when they start.',
  ['histories', 'programs'],
  'every mutation performed by any slot at any position of a list of any length',
  'Tests do not mutate the list from inside a slot at arbitrary positions.',
  [('read_slots snapshot', 'signals.hpp signal::read_slots'), ('copy-on-write', 'signals.hpp cow_ptr::detach')])

p('C09', 'Signals and connections may be used from several threads without data races',
  'Concurrent emissions, connects, disconnects (through connections or by callable), and block/unblock of one signal from different threads never access the same memory location without synchronisation when one of the accesses is a write. No thread observes a slot or a list that has been released.',
  ['schedules'],
  'every pair of concurrent operations on one signal, every interleaving of their synchronisation points',
  'Races are invisible to single runs; the one threaded test samples a handful of schedules.',
  [('m_SlotMutex', 'signals.hpp signal'), ('atomic slot state', 'signals.hpp slot_state'), ('copy-on-write snapshot', 'signals.hpp cow_ptr')])

p('C10', 'Copy-on-write pointers never let a write show through another copy',
  'After a copy-on-write pointer has been copied, writing through one of the copies is never visible through the other, and a copy that is only read keeps sharing one object; two compare equal exactly while they share one. Moving one leaves it null. Access through a sole owner modifies the object in place. The shared object is destroyed exactly once, after its last owner.',
  ['histories', 'inputs'],
  'every sequence of copy, move, assignment, read and write access through every accessor',
  'Tests exercise some accessors on two copies.',
  [('detach', 'signals.hpp cow_ptr::detach'), ('non-const accessors', 'signals.hpp cow_ptr')])

p('C11', 'A scoped connection disconnects its slot exactly when its ownership ends',
  'Destroying a scoped connection, or assigning another one to it, disconnects the slot it owns; moving transfers that duty to the new owner, swapping exchanges it, and release() hands back an ordinary connection whose slot stays connected. Until then the slot stays connected. An empty, moved-from or released scoped connection disconnects nothing.',
  ['histories'],
  'every sequence of construction, move, assignment, swap, release and destruction',
  'Tests cover construction and scope exit.',
  [('scoped_connection', 'signals.hpp scoped_connection'), ('connect_scoped', 'signals.hpp signal::connect_scoped')])

p('C12', 'Connection handles are safe to use for ever and own nothing',
  'Every operation of a connection, blocker or scoped connection is safe at any time: after the slot was disconnected, after the signal was destroyed (even by one of its own slots), and on empty, copied or moved-from handles; it then reports not connected and has no effect. Handles never keep a callable or a signal alive: when its slot is disconnected and no emission is in progress, the callable is destroyed, and when a signal is destroyed all its callables are.',
  ['histories', 'programs'],
  'every order of destruction of signals, slots and handles, also during an emission',
  'Tests check a few handle states; dangling use shows only under particular orders of destruction.',
  [('weak handle', 'signals.hpp connection'), ('~signal', 'signals.hpp signal::~signal')])

p('C13', 'Exceptions leave the signal intact and usable',
  'An exception thrown by a slot, a combiner, or the copy of an argument propagates to the caller of the signal; no later slot is called by that emission, and afterwards every slot is still connected and the signal works as before. If connect fails (the callable cannot be copied, memory runs out), the signal is unchanged; if a disconnection by callable fails, it leaves a consistent list. Nothing is leaked and no mutex stays locked.',
  ['fault_sequences', 'inputs'],
  'every point at which user code or an allocation may throw, every list length',
  'Tests inject no failures at all.',
  [('RAII locks', 'signals.hpp signal'), ('strong guarantee of add_slot', 'signals.hpp signal::add_slot'), ('local snapshot', 'signals.hpp signal::operator()')])

p('C14', 'Every slot receives exactly the arguments the signal was invoked with',
  'Each slot receives the argument values given to the emission, in position, unaffected by what earlier slots did to their own copies. Reference parameters refer to the very object the caller passed. Nothing is converted, copied into a shared place or left moved-from between slots (rvalue-reference and move-only parameters excepted).',
  ['inputs', 'configurations'],
  'every argument value, by value, by lvalue reference and by const reference, for every kind of slot and any number of slots',
  'Tests pass ints to one slot; a moved-from or shared argument shows only with several slots and class-type arguments.',
  [('argument tuple', 'signals.hpp signal::operator()'), ('slot_iterator', 'signals.hpp slot_iterator::do_invoke'), ('invoke_helper', 'signals.hpp invoke_helper')])

p('C15', 'Slot equality and disconnect-by-callable match exactly the equal slots',
  'Two slots compare equal exactly when they hold the same kind of callable and these (and their bound objects) compare equal, or when both are empty; comparing callables without an equality operator throws not_comparable_exception. Disconnecting by callable, by callable and object, or by slot value removes every matching slot and no other, and returns how many were removed.',
  ['inputs', 'configurations', 'histories'],
  'every pattern of matching and non-matching slots in a list of any length, every kind of callable',
  'Tests remove one or two slots from short lists; adjacent and trailing matches in longer lists are not sampled.',
  [('equals', 'signals.hpp slot_impl::equals'), ('try_equals', 'signals.hpp try_equals'), ('erase', 'signals.hpp signal::erase')])

p('C16', 'Combiners see the result of every slot; the default one returns the last',
  'The combiner is given a range with one element per slot of the snapshot, in order, whose dereferencing calls that slot and yields its result, or a disengaged value if the slot is blocked or disconnected. The default combiner returns the result of the last slot that yielded a value, and a disengaged optional if none did; signals returning void always return a disengaged optional. What the combiner returns is what the emission returns.',
  ['inputs', 'histories', 'configurations'],
  'every number of slots, every pattern of blocked, disconnected and expired slots, every result value',
  'Tests use two or three fixed slots.',
  [('optional_last_value', 'signals.hpp optional_last_value'), ('slot_iterator', 'signals.hpp slot_iterator')])

p('C17', 'optional constructs and destroys its value exactly once, also under exceptions',
  'Whatever sequence of construction, copy, move, assignment, emplace, reset and swap is applied, every value ever constructed inside an optional is destroyed exactly once, never before it is released and never used after. Copies hold equal values that are independent of the original. If an operation of the value type throws, the optional ends up in a valid state (disengaged or holding a live value) and nothing is leaked.',
  ['histories', 'fault_sequences', 'configurations'],
  'every sequence of operations on engaged and disengaged optionals of class and scalar types, every throwing point',
  'There are no tests of the optional type itself in this repository.',
  [('construct/destroy', 'optional.hpp optional_base'), ('assign', 'optional.hpp optional_base::assign')], files=(O,),
  state=[('m_initialized', 'whether the storage holds a live value', 'optional.hpp optional_base')])

p('C18', 'optional reports, yields and compares its value correctly',
  'has_value() and conversion to bool are true exactly when a value is held, and then *, ->, value(), get(), value_or() and get_ptr() give that value; otherwise value() throws bad_optional_access, value_or() gives the fallback and get_ptr() null. All comparison operators, between optionals, with nullopt and with values, behave as the order in which a disengaged optional is equal to nullopt and less than every value. References held by optional references are rebound, never written through, by assignment; a void optional is always disengaged.',
  ['inputs', 'configurations'],
  'all engagement states and all values on either side of every operator and accessor',
  'There are no tests of the optional type itself in this repository.',
  [('relational operators', 'optional.hpp operator== ...'), ('accessors', 'optional.hpp optional')], files=(O,))

p('C19', 'Moving a signal transfers all its slots and keeps their connections working',
  'After a signal is move-constructed or move-assigned, the target calls exactly the slots the source had, and their connections disconnect, block and report on the target; the slots the target had before an assignment are disconnected. The moved-from signal has no slots, may be emitted, connected to, assigned to and destroyed. Moving leaks nothing and deadlocks with nothing, including self-assignment and two threads assigning in opposite directions.',
  ['histories', 'schedules'],
  'every list length on either side, every later use of both signals and of the connections',
  'No test moves a signal that has connections and uses them afterwards.',
  [('move operations', 'signals.hpp signal::signal(signal&&), signal::operator=(signal&&)')],
  state=[('m_pSignal', 'the signal a slot belongs to', 'signals.hpp slot')])

p('C20', 'Slots have value semantics and are empty or callable',
  'Copying a slot gives an independent slot with an equal callable that is blocked exactly when the original was, moving one transfers the callable and leaves the source empty, and assignment replaces the previous callable, which is destroyed. Invoking, comparing, copying, moving, blocking, disconnecting or connecting an empty slot is harmless. A slot connected to a signal is unaffected by later changes to the slot it was copied from, and vice versa.',
  ['histories', 'configurations'],
  'every sequence of copy, move, assignment and connection of empty and non-empty slots',
  'Tests build and call slots but neither assign nor copy non-const or empty ones.',
  [('slot special members', 'signals.hpp slot'), ('clone', 'signals.hpp slot_impl::clone')])

p('C21', 'Every kind of callable is invoked on the right target with the right result',
  'Free functions, function objects, lambdas, pointers to member functions (const, overridden, inherited) and pointers to data members can be connected, with the object given as a raw pointer, reference wrapper, value or smart pointer, and the call reaches exactly that object and function. Objects given by reference, pointer or reference wrapper are used in place; callables and objects given by value are copied once at connection and keep their state between emissions. The value returned by the callable is the value the slot yields.',
  ['configurations', 'inputs'],
  'every combination of callable kind, object binding, constness and result type',
  'Tests sample some combinations with one object each.',
  [('invoke_helper', 'signals.hpp invoke_helper'), ('slot_func, slot_pmf, slot_pmf_tracked', 'signals.hpp detail')])

p('C22', 'Ill-typed or unsafe uses are rejected at compile time, valid ones accepted',
  'connect, connect_scoped and disconnect accept exactly the callables invocable with the arguments of the signal and a convertible result. Signals, scoped connections and blockers cannot be copied; optional references cannot bind temporaries. Connections are copyable, and connections, scoped connections, blockers, signals and slots are movable.',
  ['programs'],
  'every program that would compile if the interface were too loose or too strict',
  'A test suite contains only programs that compile; it cannot show that others are rejected.',
  [('is_invocable_r constraints', 'signals.hpp traits, signal::connect'), ('deleted members', 'signals.hpp, optional.hpp')], files=(S, O))

p('C23', 'Everything the library allocates or stores is released exactly once',
  'When a signal and the handles of its slots are gone, every callable, bound object and list it ever stored has been destroyed exactly once and all memory is returned. Copies made while emitting are gone when the emission returns. Nothing is destroyed while an emission is still using it.',
  ['histories', 'programs'],
  'every history of connects, disconnects, emissions and nested mutations, every list length',
  'The tests run without leak or lifetime checking and with trivial callables.',
  [('shared ownership of slots', 'signals.hpp signal'), ('unique ownership of implementations', 'signals.hpp slot')])

p('C24', 'The headers are usable in every C++11 or later program and behave the same in all of them',
  'Each of the two headers compiles on its own, in either order and after any standard headers, as C++11, C++14, C++17 and C++20, for every documented use, and rejects the documented misuses there too. They may be included by any number of translation units of one program: they define nothing twice and keep no state per translation unit. What the library does depends neither on the language standard nor on whether assertions are compiled in (NDEBUG).',
  ['programs', 'configurations'],
  'every documented use under every language standard, with and without assertions, in any number of translation units',
  'The tests are built once, as gnu++17 with assertions enabled.',
  [('namespace-scope definitions, conditional code', 'signals.hpp, optional.hpp'), ('asserted preconditions', 'optional.hpp get, operator->, operator*')], files=(S, O))

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in out:
        f.write(json.dumps(x) + '\n')
