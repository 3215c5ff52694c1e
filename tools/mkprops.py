#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, C, S, HI, F = 'inputs', 'configurations', 'schedules', 'histories', 'fault_sequences'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


IMPL = 'src/HsmImpl.cpp'
BASE = 'src/HsmEventDispatcherBase.cpp'
PLAT = ['src/HsmEventDispatcher%s.cpp' % x for x in ('STD', 'GLib', 'GLibmm', 'Qt')]
ANYM = 'every machine (states, hierarchy, entry points, history, transitions, conditions), every configuration reached and every event with every argument list'

p('C01', 'A transition happens only if registered and its condition holds',
  'An event moves the machine only along a transition registered for that event from an active state whose condition evaluates to the registered expected value for the event\'s arguments, and only into the registered destination. If no such transition exists the list of active states stays as it was, no state callback runs, and the failed-transition callback is called exactly once with the active states, the event and its arguments.',
  [I, C, HI], ANYM, 'The tests check a fixed set of machines and conditions; the guarantee is over every machine, configuration and argument list, including which of several registered transitions is taken.',
  [IMPL, 'src/HsmImplTypes.cpp'],
  [('look-up of the transitions that apply', IMPL + ' findTransitionTarget'), ('target selection', IMPL + ' determineTargetState'),
   ('event loop and failure callback', IMPL + ' doTransition, dispatchEvents')],
  ['active states reported by the API', 'state, transition and failure callbacks'])
p('C02', 'An exit veto leaves the machine as it was',
  'If any state to be exited by a transition refuses in its exit callback, the transition does not happen: no destination is entered, the transition\'s own callback does not run, and afterwards exactly the same states are active as before. States that had already been exited are entered again, parents before children, and no state that had not been exited receives a callback.',
  [I, C, F], 'every machine, configuration and transition, and every position at which an exit callback may refuse',
  'A refusal can come from any of the exited states at any nesting depth and with any number of parallel siblings; the tests contain a few two-level cases.',
  [IMPL], [('exit phase and its rollback', IMPL + ' executeExitTransition'), ('exit callbacks', IMPL + ' onStateExiting'),
           ('set of active states', IMPL + ' replaceActiveState, addActiveState')], ['active states reported by the API', 'exit/enter/changed callbacks'])
p('C03', 'An enter veto returns the machine to the source state',
  'If the only destination of a transition refuses in its enter callback, the destination is not active afterwards and its state-changed callback does not run. The states that the transition had left are entered again, parents before children, and exactly the same states are active as before.',
  [I, C, F], 'every machine, configuration and transition, and every destination that may refuse to be entered',
  'The rollback depends on how many nested and parallel states had been left before the refusal; the tests cover single-level cases.',
  [IMPL], [('enter phase and its rollback', IMPL + ' processExternalTransition'), ('enter callbacks', IMPL + ' onStateEntering')],
  ['active states reported by the API', 'enter/changed callbacks'])
p('C04', 'Callbacks of one transition run once each and in order',
  'For a transition that is carried out the exit callbacks of all left states run first (children before their parents), then the transition callback, then the enter callback of the destination, then its state-changed callback; each runs exactly once. Enter, changed and transition callbacks receive exactly the argument list the event was sent with, and a self transition registered as internal runs only its transition callback.',
  [I, C, HI], ANYM, 'Order and multiplicity have to hold for every nesting depth and every number of parallel states, and the arguments for every payload.',
  [IMPL], [('exit phase', IMPL + ' executeExitTransition'), ('enter phase', IMPL + ' processExternalTransition'), ('self transitions', IMPL + ' executeSelfTransitions'),
           ('callback wrappers', IMPL + ' onStateExiting, onStateEntering, onStateChanged')], ['order and arguments of all callbacks'])
p('C05', 'Inner states take precedence; parallel regions stay independent',
  'An event is offered to the active states in reverse order of their activation, and an active state is not offered an event that one of its active descendants has handled. A transition taken by one state never exits, deactivates or enters a state outside the subtree it leaves and the destination it enters, in particular not states of sibling regions active in parallel.',
  [I, C, HI], ANYM, 'The number of nested and parallel active states is unbounded, and precedence depends on the order in which they were activated.',
  [IMPL], [('iteration over the active states', IMPL + ' doTransition'), ('exit set of a transition', IMPL + ' executeExitTransition'),
           ('ancestry', IMPL + ' isSubstateOf, getParentState')], ['active states reported by the API', 'callbacks'])
p('C06', 'Entering a composite state activates its enabled entry points',
  'Whenever a state with registered entry points is entered as a destination, the machine then enters, within handling the same event and before any other pending event, every entry point that is registered for the causing event (or for any event) and whose condition holds, and no other substate. A state with substates is chosen as destination only if such entry points lead down to a state without substates.',
  [I, C, HI], ANYM, 'Entry points can nest, be parallel, conditional and event-specific in any combination.',
  [IMPL], [('selection of entry points', IMPL + ' getEntryPoints, determineTargetState'), ('pending internal transitions', IMPL + ' handleSingleTransition, clearPendingEvents')],
  ['active states reported by the API', 'enter callbacks'])
p('C07', 'History restores the last active substates, or the default',
  'A transition into a history state activates the substates that were active when the history\'s parent was last left: its direct substates for shallow history and the whole nested configuration for deep history. If the parent has never been left, the default registered for the history state is entered, or the parent\'s entry points when there is no default; the history state itself does not stay active.',
  [I, C, HI], 'every machine with history states, and every sequence of events leading to the last exit of the history\'s parent',
  'What is restored depends on the whole sequence of past events; the tests try a handful of short ones.',
  [IMPL], [('recording of history', IMPL + ' updateHistory'), ('restoring', IMPL + ' processHistoryTransition, transitionToPreviousActiveStates, transitionToDefaultHistoryState')],
  ['active states reported by the API', 'enter callbacks'])
p('C08', 'Reaching a final state ends the region and tells the parent once',
  'When every active substate of a composite state is final, the event registered for that final state (or the event that caused the transition) is generated for the parent exactly once; while another region of the parent is still running, nothing is generated.',
  [I, C, HI], 'every machine with final states, every number of parallel regions and every order in which they finish',
  'The order in which parallel regions finish and the nesting of final states are unbounded.',
  [IMPL], [('completion of a region', IMPL + ' processFinalStateTransition, hasActiveChildren'), ('final states', IMPL + ' isFinalState')],
  ['active states reported by the API', 'callbacks caused by the completion event'])
p('C09', 'Events are handled one at a time, in the order they were sent',
  'Every event accepted by the machine is handled exactly once and completely (with the follow-up steps it causes) before the next, in the order of sending, including events sent from callbacks. Sending with queue clearing drops exactly the events that were sent before and not yet started, and never the unfinished steps of the event being handled; a synchronous send reports success only if the event was handled with a transition before its timeout.',
  [I, S, HI], 'every sequence of events, sent from outside or from within callbacks, in every option combination',
  'The interleaving of sends with handling, and sends from inside callbacks, multiply beyond what a test list samples.',
  [IMPL], [('queueing', IMPL + ' transitionExWithArgsArray'), ('dropping', IMPL + ' clearPendingEvents'), ('event loop', IMPL + ' dispatchEvents')],
  ['callbacks', 'result of synchronous sends'])
p('C10', 'A timer delivers its event to its owner as often as requested',
  'Starting a timer makes the platform timer run with the given interval, starting it again replaces it, and stopping ends it; the platform is told to end a single-shot timer after its first expiry and to continue a repeating one. Each expiry of a registered, running timer sends the registered event exactly once to the machine that owns it and to no other, and an expiry that is not registered or no longer running does nothing.',
  [I, HI, S], 'every sequence of start, restart, stop, expiry and (un)registration of any number of timers and owners',
  'Timer tests run a few timings; the guarantee is over every order of requests and expiries.',
  [BASE, IMPL] + PLAT, [('timer table', BASE + ' startTimer, restartTimer, stopTimer, handleTimerEvent, unregisterTimerHandler'),
                ('platform timers', ', '.join(PLAT) + ' startTimerImpl, stopTimerImpl, onTimerEvent / handleTimers, unregisterAllTimerHandlers'), ('event of a timer', IMPL + ' dispatchTimerEvent')],
  ['calls of the platform timer', 'events delivered'])
p('C11', 'The dispatcher calls exactly the handlers that are registered',
  'Each request to dispatch is delivered to the addressed handler exactly as requested and to no handler that was unregistered before the delivery began; handler identifiers are unique and never reused; a handler that reports that it is done is not called again in the same delivery. Enqueued events reach only the handler they were sent to and pending actions run exactly once, also when handlers register, unregister or send from within a call.',
  [I, HI, S], 'every sequence of registrations, unregistrations, events and actions, also from within handlers',
  'Re-entrant registration and removal while a delivery is in progress has unboundedly many shapes.',
  [BASE] + PLAT, [('handler tables', BASE + ' registerEventHandler, unregisterEventHandler, registerEnqueuedEventHandler, unregisterAllEventHandlers'),
           ('delivery', BASE + ' dispatchPendingEventsImpl, dispatchEnqueuedEvents, dispatchPendingActions'),
           ('event loops', ', '.join(PLAT) + ' start, stop, emitEvent, notifyDispatcherAboutEvent, onPipeDataAvailable, customEvent, doDispatching')], ['handler calls'])
p('C12', 'State actions run exactly on their trigger and in order',
  'Every action registered for a state runs exactly once each time its trigger (entering or leaving the state successfully) occurs, in the order of registration, with the parameters given at registration, and never otherwise. An action is accepted at registration only if its parameters fit the action.',
  [I, C, HI], 'every list of actions with every parameter list, and every sequence of entries and exits including refused ones',
  'Parameters are dynamically typed and the number and mix of actions per state is unbounded.',
  [IMPL], [('execution', IMPL + ' executeStateAction'), ('validation', IMPL + ' registerStateAction')], ['timers started/stopped', 'events sent by actions'])
p('C13', 'Variant values convert by value, losslessly where possible',
  'Reading a variant as the type it was built with gives back the stored value exactly. Reading a numeric, boolean or textual variant as another type gives the value defined by the conversion of that value, type queries agree with the stored type, and a conversion that is not defined gives the documented default instead of failing.',
  [I], 'every stored type and value and every requested type', 'Eleven numeric types, text and containers in all pairs over their whole value ranges; tests try a few values of some pairs.',
  ['src/variant.cpp', 'include/hsmcpp/variant.hpp'], [('conversions', 'src/variant.cpp toInt64, toUInt64, toDouble, toBool, toString'), ('construction', 'include/hsmcpp/variant.hpp make')], ['values read'])
p('C14', 'Copies of a variant are independent; comparison is by value',
  'Copying, assigning or moving a variant leaves the destination equal to what the source was, a later change of one never shows in the other, and this holds also when a variant is assigned to itself or to a part of itself. Comparing two variants gives the comparison of their values for numbers (converted as C++ does: to floating point with a tolerance of 1e-8 if one is, else to unsigned if one is), booleans, text and byte arrays; NaN aside, equality is reflexive and symmetric and the six relations agree with each other.',
  [I, HI], 'every sequence of construction, copy, move, change and comparison of variants of every type and nesting',
  'Sharing shows only after particular sequences of copies and changes, and comparison is over all pairs of types and values.',
  ['src/variant.cpp', 'include/hsmcpp/variant.hpp'], [('copy and move', 'src/variant.cpp operator='), ('comparison', 'src/variant.cpp operator==, operator<, operator>')], ['values read'])
p('C15', 'The reported active states are consistent',
  'The list of active states never contains a state twice, and a state is reported active exactly if it is in that list. A state that becomes active is appended at the end, a state that stops being active is removed, and the states that stay active keep their order.',
  [I, C, HI], ANYM, 'It is an invariant over every sequence of events, vetoes, history and completion steps.',
  [IMPL], [('set of active states', IMPL + ' addActiveState, replaceActiveState, isStateActive')], ['active states reported by the API'])
p('C16', 'Asking whether a transition is possible is accurate and has no effect',
  'Asking whether an event would cause a transition changes nothing: no callback other than conditions runs, and active states and pending events stay as they were. Without pending events the answer is yes exactly if an active state or one of its ancestors has an applicable transition for the event and arguments; pending events are first followed in order from each active state, each with its own arguments.',
  [I, C, HI], ANYM + ', with any list of pending events', 'The answer depends on the configuration reached by events that are still pending.',
  [IMPL], [('query', IMPL + ' isTransitionPossible, checkTransitionPossibility'), ('look-up', IMPL + ' findTransitionTarget')], ['result of the query', 'callbacks'])
p('C17', 'Shared queues are touched only under their lock, and locks are released',
  'Every access to data shared between the sending threads and the dispatching thread happens while the lock that belongs to it is held. No call returns with a lock still held, none takes a lock it already holds, and no user callback is run while a queue\'s lock is held unless the API says so.',
  [S], 'every schedule of sending, registering and dispatching threads', 'A missing lock shows only under particular schedules; the lock discipline is a fact about every path of every function.',
  [IMPL, BASE, 'src/os'] + PLAT, [('lock wrappers', 'src/os/common/*.cpp, src/os/stl/ConditionVariable.cpp: LockGuard, UniqueLock, CriticalSection, ConditionVariable::wait'), ('locks of the machine', IMPL + ' transitionExWithArgsArray, dispatchEvents, clearPendingEvents'), ('locks of the dispatcher', BASE + ' emitEvent, dispatchPendingEventsImpl and others')],
  ['lock operations'])
p('C18', 'Every way of calling the API has the same effect',
  'The public class, its overloads (member function or free function callbacks, argument packs or argument arrays, aliases of the same operation) and the internal implementation behave identically: each call has exactly the effect, arguments and result of the operation it names.',
  [I, HI], 'every public operation and overload, with every argument', 'The overloads are many and thin; a swapped or dropped argument in one of them shows only when that one is used with distinguishing values.',
  ['src/hsm.cpp', 'include/hsmcpp/hsm.hpp'], [('forwarding', 'src/hsm.cpp and the templates of include/hsmcpp/hsm.hpp')], ['results and effects of API calls'])
p('C19', 'The registered hierarchy is always a forest',
  'However registration calls are made, no state ever has two parents or is its own ancestor: a registration that would cause this, or that is otherwise invalid, is refused, reports failure and changes nothing. An accepted registration adds exactly the requested relation.',
  [I, HI], 'every sequence of registration calls', 'A cycle can be closed over any number of levels; the tests try one and two.',
  [IMPL], [('registration of substates', IMPL + ' registerSubstate'), ('ancestry', IMPL + ' isSubstateOf, hasParentState')], ['result of registration calls'])

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
