#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                               hook_needed=None)))


K = 'sparta/sparta/kernel/'
E = 'sparta/sparta/events/'
R = 'sparta/sparta/resources/'
SRC = 'sparta/src/'

# ------------------------------------------------------------------ kernel
prop('C01', 'Every scheduled event fires exactly once, at exactly its due tick',
     'Every event that is scheduled for d ticks or cycles from now and is not cancelled has its handler invoked exactly once, '
     'at exactly the tick it was scheduled for, and no handler runs that was not scheduled. This holds however schedulings '
     'are interleaved, including from inside handlers, from several phases, for the same event several times, and across any '
     'sequence of run calls.',
     ['schedules', 'programs', 'histories'],
     'All programs of schedule calls made outside and inside handlers, with any relative delays, phases, clocks and any split of the simulation into run calls.',
     'Tests run a handful of fixed event programs and look at final counters; the set of interleavings of schedule calls made by running handlers with partially consumed time quanta is unbounded.',
     [K + 'Scheduler.hpp', SRC + 'Scheduler.cpp', K + 'SpartaHandler.hpp', E + 'Scheduleable.hpp', SRC + 'Scheduleable.cpp', E + 'PhasedUniqueEvent.hpp' if False else E + 'UniqueEvent.hpp', E + 'Event.hpp'],
     [('ordered list of tick quanta, each with per-group event lists', K + 'Scheduler.hpp'), ('scheduleEvent / determineTickQuantum_', SRC + 'Scheduler.cpp'), ('run loop that drains group after group', SRC + 'Scheduler.cpp')],
     [('current tick', 'the simulated time handlers observe', K + 'Scheduler.hpp')],
     ['handler invocations and Scheduler::getCurrentTick inside them'])
prop('C02', 'Events in one tick fire in phase order and in precedence order',
     'Within one tick, every event of an earlier scheduling phase fires before any event of a later phase, and if a precedence '
     'a >> b between events was declared (directly, through groups or through global ordering points) then no firing of a in that tick '
     'comes after a firing of b. Events of one phase without any precedence fire in the order in which they were scheduled, any '
     'program fires in the same order every time it is run, and a zero-delay scheduling that could only fire out of '
     'order (the target orders before the event now firing) is rejected with an exception instead of being fired late.',
     ['schedules', 'programs', 'configurations'],
     'All event sets with arbitrary phases and acyclic precedences (also through grouping nodes), all sets of same-tick schedulings, including those made by running handlers.',
     'Tests declare a few precedence chains and schedule them in a few orders; ordering bugs appear only for specific graph shapes combined with specific schedule orders.',
     [SRC + 'Scheduler.cpp', K + 'Scheduler.hpp', K + 'DAG.hpp', SRC + 'DAG.cpp', SRC + 'Vertex.cpp', E + 'Precedence.hpp', K + 'PhasedObject.hpp', SRC + 'Scheduleable.cpp'],
     [('topological levels (group ids)', SRC + 'DAG.cpp'), ('firing group check in scheduleEvent', SRC + 'Scheduler.cpp'), ('phase gate vertices', SRC + 'Scheduleable.cpp')],
     observe=['sequence of handler invocations within a tick'])
prop('C03', 'A precedence graph is accepted exactly when it is acyclic',
     'Finalising a set of precedences succeeds if and only if the precedence relation, together with the fixed order of the '
     'scheduling phases, has no cycle; otherwise finalisation is refused with an exception. Neither the order in which the '
     'precedences were declared nor redundant declarations change the verdict (an event declared before itself is redundant), and a refused set can be corrected and finalised again.',
     ['inputs', 'configurations'],
     'All finite directed graphs over events of all phases, in all declaration orders.',
     'Tests use two or three hand-made cycles; the claim is about every graph and every declaration order.',
     [SRC + 'DAG.cpp', K + 'DAG.hpp', SRC + 'Vertex.cpp', K + 'Vertex.hpp', SRC + 'Scheduleable.cpp', SRC + 'Scheduler.cpp'],
     [('DAG::sort / detectCycle', SRC + 'DAG.cpp')], observe=['Scheduler::finalize outcome'])
prop('C04', 'Run calls start, stop and leave time exactly where they promise',
     'Running for n ticks fires every event due in the next n ticks and none due later, moves time forward never backward, '
     'never past n ticks, and exactly n ticks when exact running is asked for; without exact running it ends early only when '
     'a stop was requested or when no continuing event is left. The tick a handler sees, the elapsed ticks and the '
     'current time reported between runs agree with the events that have fired, whatever runs came before.',
     ['histories', 'schedules'],
     'All sequences of run calls with any lengths, modes and stop requests, interleaved with all patterns of continuing and non-continuing events.',
     'Tests call run with one or two lengths; the interplay of a stopped run, left-over stop requests, non-continuing events and the next run is a history property.',
     [SRC + 'Scheduler.cpp', K + 'Scheduler.hpp', SRC + 'TemporaryRunController.cpp'],
     [('run, stopRunning, stop event', SRC + 'Scheduler.cpp'), ('isFinished/continuing bookkeeping', K + 'Scheduler.hpp')],
     observe=['Scheduler::run, getCurrentTick, getElapsedTicks, isRunning, isFinished'])
prop('C05', 'Cancelling removes exactly the scheduled occurrences named, and nothing else',
     'After an event is cancelled, none of the occurrences the cancel call covers (all outstanding ones, those at a given '
     'time, or those of a given payload) fires, every other occurrence of the same and of other events fires as if nothing '
     'had been cancelled, and scheduling again after a cancel works normally. The is-scheduled queries agree at all times with what will fire.',
     ['histories', 'schedules'],
     'All histories of schedule, cancel and query calls, made outside and inside handlers, including cancelling what is due in the current tick.',
     'Tests cancel in two or three situations; a cancel racing with same-tick firing, rescheduling and partially fired groups is not sampled.',
     [SRC + 'Scheduler.cpp', SRC + 'Scheduleable.cpp', E + 'Scheduleable.hpp', E + 'PayloadEvent.hpp', E + 'PhasedPayloadEvent.hpp', E + 'SingleCycleUniqueEvent.hpp', E + 'PhasedSingleCycleUniqueEvent.hpp'],
     [('cancelEvent replaces list entries', SRC + 'Scheduler.cpp'), ('PayloadEvent::cancel*', E + 'PhasedPayloadEvent.hpp')],
     observe=['handler invocations, isScheduled'])
prop('C06', 'A unique event fires at most once per tick, at every tick it was asked for',
     'However often a unique event is scheduled for the same tick, it fires exactly once in that tick; it fires once in each '
     'distinct tick it was scheduled for and in no other. This holds for both kinds of unique events in their documented '
     'range of delays, after cancels, and when scheduling from within its own or other handlers.',
     ['histories', 'schedules'],
     'All histories of schedule and cancel calls for unique events with all delay patterns.',
     'Tests schedule twice in one cycle; deduplication state surviving a cancel, a fire or a time jump is not exercised.',
     [E + 'PhasedUniqueEvent.hpp', E + 'PhasedSingleCycleUniqueEvent.hpp', E + 'UniqueEvent.hpp', E + 'SingleCycleUniqueEvent.hpp', SRC + 'Scheduler.cpp'],
     [('per-tick deduplication', E + 'PhasedUniqueEvent.hpp'), ('next/previous tick memory', E + 'PhasedSingleCycleUniqueEvent.hpp')],
     observe=['handler invocations per tick'])
prop('C07', 'Each payload is delivered once, unchanged, to its own scheduling',
     'Every payload prepared and scheduled is handed to the handler exactly once per scheduling, at its due time and with the '
     'value it was prepared with, no matter how many other payloads of the same event are in flight, were cancelled or were '
     'recycled. The count of outstanding payloads always equals the number of payloads scheduled or held by a handle, and no payload is released while it is one of these or being delivered.',
     ['histories', 'schedules'],
     'All histories of prepare, schedule (once or repeatedly), cancel by handle, by value, by time or of everything, interleaved with firing.',
     'Tests use few payloads at a time; object recycling errors need particular prepare/cancel/fire histories.',
     [E + 'PhasedPayloadEvent.hpp', E + 'PayloadEvent.hpp', E + 'Scheduleable.hpp', 'sparta/sparta/utils/DataContainer.hpp', 'sparta/sparta/utils/ValidValue.hpp'],
     [('payload proxies allocated from and returned to a free list', E + 'PhasedPayloadEvent.hpp'), ('reference counted ScheduleableHandle', E + 'Scheduleable.hpp')],
     observe=['payload seen by the handler, getNumOutstandingEvents'])
prop('C08', 'Events scheduled from other threads are delivered once and never in the past',
     'An event scheduled from a foreign thread through the asynchronous interface fires exactly once, in the simulation '
     'thread, at a tick not earlier than the one current when it was picked up, and events from one thread with equal delay fire '
     'in the order they were posted; no posting is lost or duplicated.',
     ['schedules'],
     'All interleavings of posting threads with the running scheduler.',
     'The tests use one timing; loss needs a post racing with the pick-up of the previous batch.',
     [SRC + 'Scheduler.cpp', K + 'Scheduler.hpp', E + 'AsyncEvent.hpp'],
     [('mutex protected async list swapped at the start of a quantum', SRC + 'Scheduler.cpp')],
     observe=['handler invocations of asynchronously posted events'])
prop('C09', 'Clock domains convert, count and cross without losing a tick',
     'For clocks with any rational frequency ratios in one tree, a cycle of every clock is a whole number of ticks, the ratios of '
     'these periods are exactly the ratios of the declared frequencies, and converting cycles to ticks and back is the identity. '
     'The number of elapsed cycles of a clock is exactly the number of its rising edges passed, positive-edge queries are '
     'true exactly on multiples of its period, and a transfer between two clocks arrives on a rising edge of the destination at the '
     'promised distance, never earlier.',
     ['inputs', 'configurations', 'histories'],
     'All clock trees with rational ratios, all ticks and all cycle counts.',
     'Tests check a few ratio sets and a few crossings.',
     ['sparta/sparta/simulation/Clock.hpp', 'sparta/sparta/simulation/ClockManager.hpp', SRC + 'Clock.cpp', SRC + 'ClockManager.cpp', 'sparta/sparta/utils/Rational.hpp'],
     [('ClockManager::normalize', SRC + 'ClockManager.cpp'), ('calculateClockCrossingDelay', SRC + 'ClockManager.cpp'), ('Clock::getCycle/getTick/elapsedCycles', 'sparta/sparta/simulation/Clock.hpp')],
     observe=['Clock and ClockManager public queries'])
prop('C10', 'Ports deliver every item once, in order, after exactly the stated delay',
     'Data sent on an out port arrives at every bound in port exactly once, unchanged, after exactly the port delay plus the '
     'send delay in cycles of the port clock, in the order sent when due together; signals behave alike but multiple signals due '
     'in the same tick may be merged only as documented. Nothing arrives at unbound ports, cancelled items never arrive, and '
     'data-received and is-driven queries agree with what is in flight.',
     ['histories', 'programs', 'configurations'],
     'All bindings (one to one, fan-in, fan-out), delays, phases and all histories of sends and cancels, including sends from receiving handlers.',
     'Tests exercise a few topologies with one or two sends at a time.',
     ['sparta/sparta/ports/DataPort.hpp', 'sparta/sparta/ports/SignalPort.hpp', 'sparta/sparta/ports/Port.hpp', SRC + 'Port.cpp'],
     [('DataOutPort::send / DataInPort::bind', 'sparta/sparta/ports/DataPort.hpp'), ('port precedence', 'sparta/sparta/ports/Port.hpp')],
     observe=['consumer handler invocations, pullData, dataReceived, isDriven'])
prop('C11', 'Synchronous ports cross clock domains without loss, reordering or early arrival',
     'An item sent through a synchronising port is received exactly once, in sending order, on a rising edge of the receiver\'s clock '
     'and not before the sender\'s delay has elapsed, with at most one item per receiver cycle where the port is single-entry; '
     'the ready-to-send query is true exactly when a send in that cycle would be accepted and keep these guarantees.',
     ['histories', 'configurations'],
     'All ratios of sender and receiver clock, all send times and delays.',
     'Tests use a few frequency pairs with regular traffic.',
     ['sparta/sparta/ports/SyncPort.hpp', SRC + 'ClockManager.cpp'],
     [('SyncOutPort::computeSendToReceivePosedgeDelay_', 'sparta/sparta/ports/SyncPort.hpp')],
     observe=['consumer handler invocations, isReady'])
# --------------------------------------------------------------- resources
prop('C13', 'A queue is FIFO, bounded, and its handles follow their own element',
     'A queue returns its elements oldest first (or drops the youngest on request), holds exactly what was pushed and not yet '
     'removed, never more than its capacity, and refuses a push when full and a pop or access when there is nothing. A handle '
     'to an element stays valid and refers to that element exactly until that element leaves the queue, through any number of '
     'wrap-arounds, and every removed element is destroyed exactly once.',
     ['histories'],
     'All histories of push, pop, pop_back, clear, access and handle moves on queues of any capacity.',
     'Tests wrap once or twice with fixed sequences; stale-handle and wrap-around errors depend on the history.',
     [R + 'Queue.hpp'],
     [('power-of-two ring with object ids', R + 'Queue.hpp')],
     [('head, write index, valid count', 'the live window of the ring', R + 'Queue.hpp')],
     ['Queue public interface'])
prop('C14', 'A buffer keeps order under insertion and erasure anywhere',
     'A buffer behaves as a bounded sequence: appending, inserting before and erasing any position affect only that position, keep '
     'the relative order of all other elements, and reads by index, forward and backward iteration all show the same sequence. '
     'Handles follow their own element and become invalid exactly when it is erased; a full buffer refuses unless it may grow.',
     ['histories'],
     'All histories of append, insert, erase, clear, resize and handle operations, for all capacities, bounded and growing.',
     'Tests run fixed sequences on small buffers.',
     [R + 'Buffer.hpp'], [('pool of slots with index indirection and free list', R + 'Buffer.hpp')], observe=['Buffer public interface'])
prop('C15', 'A circular buffer keeps the newest elements in order',
     'A circular buffer contains the most recently appended elements in order, dropping the oldest when an append exceeds its capacity, '
     'and insertion or erasure at a position changes nothing else. An iterator is valid exactly while its element is still present '
     'and no erase or insert has happened since, and iteration visits every element once.',
     ['histories'],
     'All histories of push_back, insert, erase and clear, for all capacities.',
     'Tests use one capacity and fixed sequences.',
     [R + 'CircularBuffer.hpp'], [('list with sliding validity window', R + 'CircularBuffer.hpp')], observe=['CircularBuffer public interface'])
prop('C16', 'An array tracks validity and age of its entries exactly',
     'An entry of an array is valid exactly from its last write until it is erased or cleared, reads return the last value written, and '
     'reads of invalid entries are refused. For aged arrays, the age order always equals the order of the last writes of the '
     'valid entries: oldest, youngest, n-th oldest, relative age, and aged iteration agree with it; the front-insertion variant always inserts at the first free position.',
     ['histories'],
     'All histories of write, erase, clear and queries, for all sizes.',
     'Tests write a few entries in one order.',
     [R + 'Array.hpp', R + 'FrontArray.hpp'], [('valid set and aged list', R + 'Array.hpp')], observe=['Array and FrontArray public interface'])
prop('C17', 'A pipe moves every element one stage per cycle and neither loses nor invents one',
     'An element placed in a pipe appears in stage k exactly k cycles after it was appended, with its value, and leaves after the last stage; '
     'flushed elements disappear at once and no other element is affected. The element count and per-stage validity always agree with the contents.',
     ['histories', 'schedules'],
     'All histories of append, stage writes, invalidation, flushes and clock cycles for all depths, before and after update in a cycle.',
     'Tests run a few fixed patterns.',
     [R + 'Pipe.hpp'], [('tail-rotating slot vector updated by an event each cycle', R + 'Pipe.hpp')], observe=['Pipe public interface'])
prop('C18', 'A pipeline moves, stalls, flushes and triggers stages exactly as programmed',
     'Each element of a pipeline advances one stage per cycle unless held by a stall, in which case it and everything behind it stays put; nothing is duplicated, '
     'overtaken or lost except by an explicit flush or invalidate. Each stage\'s registered handler runs exactly once in every cycle in which that stage holds a valid '
     'element, in the configured order of stages.',
     ['histories', 'schedules', 'configurations'],
     'All pipelines, all histories of append, write, flush, stall and restart over all cycles.',
     'Tests run a few fixed patterns of stalls.',
     [R + 'Pipeline.hpp', R + 'Pipe.hpp'], [('stage events and stall bookkeeping', R + 'Pipeline.hpp')], observe=['Pipeline public interface, stage handler invocations'])
prop('C19', 'A priority queue yields elements in priority order, ties in insertion order',
     'A priority queue always presents its elements ordered by the configured comparison, elements of equal priority in insertion order, '
     'except elements explicitly forced to the front; popping removes exactly the first, erasing removes exactly the named elements, and nothing else changes.',
     ['histories'],
     'All histories of insert, force to front, pop, erase and clear with any keys.',
     'Tests insert a few fixed keys.',
     [R + 'PriorityQueue.hpp'], [('ordered list insertion', R + 'PriorityQueue.hpp')], observe=['PriorityQueue public interface'])
prop('C20', 'Shared data shows the value written last cycle, and only that',
     'A value written to shared data becomes the present value exactly one cycle later and stays until a later written value replaces it; before that, readers in '
     'the same cycle see the old value. Validity queries for present and next value agree with this at all times, and the last write in a cycle wins.',
     ['histories', 'schedules'],
     'All histories of writes, clears and reads over all cycles, in all phases.',
     'Tests write at most once per cycle.',
     [R + 'SharedData.hpp'], [('double buffer flipped by an update event', R + 'SharedData.hpp')], observe=['SharedData public interface'])
prop('C21', 'Scoreboard views learn readiness after exactly the configured latency',
     'A bit set ready by a producer becomes ready in each consumer\'s view exactly after the latency configured for that producer and consumer, immediately '
     'in the master; clearing takes effect at once everywhere. A registered callback runs exactly once, at the first update after which all '
     'its bits are ready, and never after it was cleared.',
     ['histories', 'configurations'],
     'All latency matrices and all histories of set, clear, callback registration and clearing.',
     'Tests use one matrix and few updates.',
     [R + 'Scoreboard.hpp', SRC + 'Scoreboard.cpp'], [('per-producer payload events to views', SRC + 'Scoreboard.cpp')], observe=['Scoreboard and ScoreboardView public interface'])

# ------------------------------------------------------ utilities, memory
U = 'sparta/sparta/utils/'
prop('C22', 'Shared objects are destroyed exactly once, when the last reference goes',
     'An object managed by the library\'s shared pointers stays alive and unchanged exactly as long as at least one strong reference to it exists and is destroyed exactly '
     'once when the last goes, through any sequence of copies, moves, assignments, resets and self-assignments; weak references observe this truthfully. '
     'Objects from a pooled allocator never share storage while alive, whatever was recycled before.',
     ['histories'],
     'All histories of creation, copy, move, assignment, reset and weak locking over any set of pointers, pooled or not.',
     'Tests exercise each operation once or in fixed chains.',
     [U + 'SpartaSharedPointer.hpp', U + 'SpartaSharedPointerAllocator.hpp'], [('reference counts', U + 'SpartaSharedPointer.hpp'), ('pool with overflow watermark', U + 'SpartaSharedPointerAllocator.hpp')],
     observe=['object destructor calls, use_count, expired'])
prop('C23', 'Loading a checkpoint restores exactly the state it was taken from',
     'Loading any existing checkpoint restores every architectural value and the scheduler time to exactly what they were when that checkpoint was taken, no matter which '
     'checkpoints were created, loaded or deleted since and on which branch. Deleting a checkpoint never affects any other, '
     'and counts, chains and existence queries report exactly the checkpoints that are not deleted.',
     ['histories'],
     'All histories of state changes, checkpoint creation (delta or snapshot, any snapshot threshold), loading and deletion, forming arbitrary checkpoint trees.',
     'Tests follow a few fixed trees; deltas are only wrong for particular combinations of branch, snapshot distance and deletion order.',
     ['sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp', 'sparta/sparta/serialization/checkpoint/DeltaCheckpoint.hpp', 'sparta/sparta/serialization/checkpoint/VectorStorage.hpp', 'sparta/sparta/serialization/checkpoint/Checkpointer.hpp', 'sparta/sparta/functional/ArchData.hpp'],
     [('delta chain with periodic snapshots', 'sparta/sparta/serialization/checkpoint/DeltaCheckpoint.hpp'), ('deferred deletion (cleanupChain_)', 'sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp')],
     observe=['register and memory reads after loadCheckpoint, checkpoint queries'])
prop('C24', 'Memory reads return the last bytes written, and nothing else changes',
     'Reading any range of a memory object returns, byte for byte, what was last written there, or the initial fill pattern where nothing was written; accesses that are out of range or cross '
     'a block boundary where that is forbidden are refused without effect. A memory map sends each access to the one device mapped at '
     'that address, with the offset translated, and refuses unmapped accesses and overlapping mappings.',
     ['inputs', 'histories'],
     'All histories of reads and writes of any sizes, addresses and alignments, with any memory, block and line sizes and any sets of mappings.',
     'Tests touch a few addresses.',
     ['sparta/sparta/memory/MemoryObject.hpp', 'sparta/sparta/memory/BlockingMemoryIF.hpp', 'sparta/sparta/memory/SimpleMemoryMap.hpp', 'sparta/sparta/memory/DebugMemoryIF.hpp', 'sparta/sparta/functional/ArchData.hpp'],
     [('lazily allocated lines', 'sparta/sparta/functional/ArchData.hpp'), ('interval search tree', 'sparta/sparta/memory/SimpleMemoryMap.hpp')],
     observe=['BlockingMemoryIF read/write/peek/poke/tryRead/tryWrite'])
prop('C25', 'Register writes change exactly the addressed, writable bits',
     'Writing a register, a field or a part of it changes exactly the bits addressed that are not protected by a write mask, leaves every other bit and every other register unchanged, and a later '
     'read returns the combined value; fields and overlapping subset registers always show the bits of their parent. Reset restores the '
     'defined reset value.',
     ['inputs', 'histories'],
     'All register sizes, field layouts, subset layouts, write masks, offsets and values, and all histories of writes.',
     'Tests check a few registers with a few values.',
     ['sparta/sparta/functional/Register.hpp', 'sparta/sparta/functional/RegisterSet.hpp', 'sparta/sparta/functional/RegisterBits.hpp', 'sparta/sparta/functional/DataView.hpp', SRC + 'RegisterSet.cpp'],
     [('write masks computed from fields', 'sparta/sparta/functional/Register.hpp')], observe=['Register and Field read, write, peek, poke'])
prop('C26', 'The device tree keeps unique names and findable, phase-locked structure',
     'Two nodes under one parent can never share a name or alias, and every node attached to a tree is found by its full path from any ancestor, and nothing else is; parents and children always '
     'agree on their relation. Structure and phase can only change in the allowed order: nodes may be added while building, never after finalising, and '
     'every node of a tree is in the same phase.',
     ['histories', 'inputs'],
     'All histories of node creation, attachment, phase changes and lookups with names, aliases, groups, patterns and parent references.',
     'Tests build a few fixed trees.',
     ['sparta/sparta/simulation/TreeNode.hpp', SRC + 'TreeNode.cpp', 'sparta/sparta/simulation/RootTreeNode.hpp', SRC + 'RootTreeNode.cpp'],
     [('addChild checks', SRC + 'TreeNode.cpp'), ('findChildren/getChild', SRC + 'TreeNode.cpp')], observe=['TreeNode queries'])
prop('C27', 'Observers get every notification of their scope exactly once while registered',
     'A notification posted at a node reaches every observer registered for it, at that node or at any ancestor by name or type, exactly once per '
     'registration while it is registered and never afterwards, in whatever order observers were added, removed or nodes were attached. Whether a source '
     'claims to be observed always agrees with whether somebody would be told.',
     ['histories'],
     'All histories of registering and deregistering observers and attaching subtrees, interleaved with posts.',
     'Tests register two or three observers once.',
     ['sparta/sparta/log/NotificationSource.hpp', 'sparta/sparta/simulation/TreeNode.hpp', SRC + 'TreeNode.cpp'],
     [('propagation of delegates down the tree', SRC + 'TreeNode.cpp')], observe=['observer callbacks, NotificationSource::observed'])
prop('C28', 'Log messages reach exactly the taps that asked for them',
     'A message emitted at a node with some categories is written once to each destination of the taps that lie on the node or an ancestor and match one of the categories (or all), and to no other; '
     'adding, removing or redirecting taps takes effect for all later messages and no earlier ones. A message source reports that it is observed exactly when some tap would receive its messages.',
     ['histories', 'configurations'],
     'All histories of tap creation, removal and messages over all trees and category patterns.',
     'Tests use a small fixed tree and a few taps.',
     ['sparta/sparta/log/MessageSource.hpp', SRC + 'MessageSource.cpp', 'sparta/sparta/log/Tap.hpp', 'sparta/sparta/log/Destination.hpp', 'sparta/sparta/log/NotificationSource.hpp', 'sparta/sparta/log/categories/CategoryManager.hpp'],
     [('taps observe notification sources', 'sparta/sparta/log/Tap.hpp')], observe=['lines in tap destinations'])
prop('C29', 'A parameter takes the last permitted value and refuses invalid ones',
     'A parameter\'s value is the last value assigned to it before the tree was locked, else its default; assignments that do not parse are '
     'refused, validation reports exactly the parameters whose constraints fail, and after it has been read or finalised, changes are refused. A configuration tree yields for each path the value set last by '
     'the most recent matching (also wildcard) assignment, and marks as unread exactly what was never read.',
     ['histories', 'inputs'],
     'All histories of assignments, reads and validations, all values and all path patterns.',
     'Tests check a few parameters once each.',
     ['sparta/sparta/simulation/Parameter.hpp', SRC + 'Parameter.cpp', 'sparta/sparta/simulation/ParameterSet.hpp', 'sparta/sparta/simulation/ParameterTree.hpp'],
     [('Parameter::operator=, validate, lock', 'sparta/sparta/simulation/Parameter.hpp'), ('ParameterTree::Node wildcard matching', 'sparta/sparta/simulation/ParameterTree.hpp')],
     observe=['Parameter reads, ParameterTree lookups'])
prop('C30', 'Counters and histograms account for every event and every cycle exactly',
     'A normal counter equals the sum of its increments and never decreases, a latest-value or integral one shows what was last set; a cycle counter equals the number of cycles during '
     'which it was counting. A histogram\'s bins partition all values, each value or cycle is counted in exactly the bin it belongs to, and totals, extremes and averages follow from '
     'exactly the recorded values.',
     ['inputs', 'histories'],
     'All histories of increments, sets, starts, stops and added values over all bounds and bin sizes.',
     'Tests feed a few values.',
     ['sparta/sparta/statistics/Counter.hpp', 'sparta/sparta/statistics/CycleCounter.hpp', 'sparta/sparta/statistics/Histogram.hpp', 'sparta/sparta/statistics/CycleHistogram.hpp', SRC + 'CounterBase.cpp', 'sparta/sparta/statistics/ContextCounter.hpp', SRC + 'ContextCounter.cpp'],
     [('bin selection', 'sparta/sparta/statistics/Histogram.hpp')], observe=['counter and histogram queries'])
prop('C31', 'A statistic instance reports its window exactly',
     'A statistic instance started at some moment reports, at any later moment, the change of its counter (or the value, for non-cumulative ones) over exactly its window, and an arithmetic '
     'expression over statistics evaluates to the value of that expression over the same window. Ending or restarting one instance never influences another.',
     ['histories', 'inputs'],
     'All histories of counter changes and window starts and ends, for all expressions.',
     'Tests evaluate a few expressions over one window.',
     ['sparta/sparta/statistics/StatisticInstance.hpp', SRC + 'StatisticInstance.cpp', 'sparta/sparta/statistics/Expression.hpp', SRC + 'Expression.cpp', SRC + 'ExpressionGrammar.cpp', 'sparta/sparta/statistics/StatisticDef.hpp'],
     [('start/end snapshot of the counter', SRC + 'StatisticInstance.cpp')], observe=['StatisticInstance::getValue'])
prop('C32', 'A trigger fires exactly once, exactly when its condition first holds',
     'A counter, cycle or time trigger that was set and not disabled fires its callback exactly once, in the first cycle in which its watched quantity has reached the '
     'requested point, never before and never after being disabled; re-arming starts a fresh, independent wait.',
     ['histories', 'schedules'],
     'All trigger points, all histories of counter increments, of setting, disabling and resetting triggers and of simulated time.',
     'Tests arm a trigger once for one fixed point.',
     ['sparta/sparta/trigger/Trigger.hpp', 'sparta/sparta/trigger/SingleTrigger.hpp', 'sparta/sparta/trigger/TriggerManager.hpp', SRC + 'Trigger.cpp', SRC + 'TriggerManager.cpp'],
     [('TriggerManager event', 'sparta/sparta/trigger/TriggerManager.hpp')], observe=['trigger callbacks'])
prop('C33', 'A cache keeps hits, replacements and line state consistent',
     'A lookup in a cache hits exactly when a valid line for that address was filled and not since replaced or invalidated, a fill replaces only the way the replacement policy names and only in the '
     'addressed set. The least-recently-used way named by true LRU is always the one touched longest ago, and tree-PLRU always names a way that is not the one touched last.',
     ['histories', 'configurations'],
     'All geometries, all histories of lookups, fills, touches and invalidations.',
     'Tests run a short fixed access sequence.',
     ['sparta/cache/SimpleCache2.hpp', 'sparta/cache/SimpleCache.hpp', 'sparta/cache/Cache.hpp', 'sparta/cache/BasicCacheSet.hpp', 'sparta/cache/LRUReplacement.hpp', 'sparta/cache/TreePLRUReplacement.hpp'],
     [('replacement bookkeeping', 'sparta/cache/LRUReplacement.hpp')], observe=['cache and replacement public interface'])
prop('C34', 'Small containers never lose, duplicate or relocate their elements',
     'The library\'s fixed-pool list behaves as a bounded doubly linked list: elements keep their place and address while present and iteration shows exactly the inserted, not erased '
     'elements in order. The tiered map agrees with an ordinary map that is iterated in order of insertion, and bit arrays with arrays of bits: shifts, logic, copies and comparisons are exact and never affect another array.',
     ['histories', 'inputs'],
     'All histories of insertions, erasures and accesses.',
     'Tests run fixed sequences.',
     [U + 'FastList.hpp', U + 'TieredMap.hpp', U + 'BitArray.hpp', U + 'BoundedValue.hpp'],
     [('node pool with free chain', U + 'FastList.hpp')], observe=['FastList, TieredMap, BitArray public interface'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    P.sort(key=lambda p: p['id'])
    for p in P:
        p['anchors']['files'] = [f for f in p['anchors']['files']]
    assert len({p['id'] for p in P}) == len(P)
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    # every anchor must exist
    for p in P:
        for f in p['anchors']['files']:
            if not os.path.exists('/repo/' + f):
                print('missing anchor', p['id'], f)
