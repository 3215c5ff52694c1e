From 0243cdedfdfd8203b3d11b75ce8e181942e2ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 01/26] fix: do not call an empty handler for events queued
 before their handler was unregistered

---
 src/HsmEventDispatcherBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index b1c8812..15c4990 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -303,7 +303,9 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
                 prevHandlerID = it->handlerID;
             }
 
-            callback(it->eventID);
+            if (callback) {
+                callback(it->eventID);
+            }
         }
     }
 }
-- 
2.43.0


From 82d9c2aa24ab901b0aa6ef3a885ca87cd7a04494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 02/26] fix: restore exited states starting from parents when a
 transition is vetoed

---
 src/HsmImpl.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b00c921..5c8770d 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1170,11 +1170,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
-        for (const StateID_t& curState : exitedStates) {
+        // NOTE: states were exited starting from children, so they must be restored starting from parents
+        for (auto itState = exitedStates.rbegin(); itState != exitedStates.rend(); ++itState) {
             // to prevent infinite loops we don't allow state to cancel transition
-            (void)onStateEntering(curState, VariantVector_t());
-            (void)addActiveState(curState);
-            onStateChanged(curState, VariantVector_t());
+            (void)onStateEntering(*itState, VariantVector_t());
+            (void)addActiveState(*itState);
+            onStateChanged(*itState, VariantVector_t());
         }
     }
 
@@ -1313,12 +1314,13 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
             }
             // if one of the states blocked ongoing transition we need to rollback
             else {
-                for (const auto& curState : outExitedStates) {
-                    mActiveStates.remove(curState);
+                // NOTE: states were exited starting from children, so they must be restored starting from parents
+                for (auto itState = outExitedStates.rbegin(); itState != outExitedStates.rend(); ++itState) {
+                    mActiveStates.remove(*itState);
                     // to prevent infinite loops we don't allow state to cancel transition
-                    (void)onStateEntering(curState, VariantVector_t());
-                    mActiveStates.emplace_back(curState);
-                    onStateChanged(curState, VariantVector_t());
+                    (void)onStateEntering(*itState, VariantVector_t());
+                    mActiveStates.emplace_back(*itState);
+                    onStateChanged(*itState, VariantVector_t());
                 }
             }
         }
-- 
2.43.0


From c0d8785ce2d16cad4cacedb8258891d5ee53a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 03/26] fix: stop processing parallel transitions after one of
 the states vetoed exit

---
 src/HsmImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 5c8770d..3daae29 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1322,6 +1322,9 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
                     mActiveStates.emplace_back(*itState);
                     onStateChanged(*itState, VariantVector_t());
                 }
+
+                // transition was canceled, so remaining (parallel) transitions must not try to exit these states again
+                break;
             }
         }
     }
-- 
2.43.0


From 7615622cc3351b0078bb3c5c60d668a4fa39906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 04/26] fix: lock events queue when scheduling default history
 transition

---
 src/HsmImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 3daae29..af68114 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1454,7 +1454,10 @@ void HierarchicalStateMachine::Impl::transitionToDefaultHistoryState(
                                                                       cbTransition,
                                                                       nullptr);
 
-        mPendingEvents.push_front(defHistoryTransitionEvent);
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            mPendingEvents.push_front(defHistoryTransitionEvent);
+        }
     }
 }
 
-- 
2.43.0


From c7356117f9abe22b2312a40d3af50e0196280b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 05/26] fix: do not reuse targets of pending events when
 checking if a transition is possible

---
 src/HsmImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index af68114..6bbed17 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -955,6 +955,7 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
         for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()) && (true == possible); ++it) {
             nextEvent = it->id;
+            possibleTransitions.clear();
             possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
 
             if (true == possible) {
@@ -970,6 +971,7 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
     if (true == possible) {
         nextEvent = event;
+        possibleTransitions.clear();
         possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
     }
 
-- 
2.43.0


From b5690ec7a8d21859545d46bcd4ca14dff15a03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 06/26] fix: execute forced history transitions once and
 replace only the history state

---
 src/HsmImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 6bbed17..71acad4 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1101,6 +1101,11 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
             res = HsmEventStatus::DONE_FAILED;
             break;
         }
+
+        // forced (history) transitions don't depend on the active state and must be executed only once
+        if (TransitionBehavior::FORCED == event.transitionType) {
+            break;
+        }
     }
 
     if (mFailedTransitionCallback && ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {
@@ -1531,7 +1536,8 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
                 // everything except internal self-transitions
                 if ((curTransition.fromState != curTransition.destinationState) ||
                     (TransitionType::EXTERNAL_TRANSITION == curTransition.transitionType)) {
-                    res = processExternalTransition(event, fromState, curTransition, exitedStates);
+                    // NOTE: forced (history) transitions have their own source state. other active states must not be replaced
+                    res = processExternalTransition(event, curTransition.fromState, curTransition, exitedStates);
                 }
             }
         } else {
-- 
2.43.0


From 14a582c61f0059b3b54520a6122e5e3d303334e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 07/26] fix: keep ongoing entry point and history transitions
 when clearing the events queue

---
 src/HsmImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 71acad4..a67a74a 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1559,14 +1559,15 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 void HierarchicalStateMachine::Impl::clearPendingEvents() {
     HSM_TRACE_CALL_DEBUG_ARGS("clearPendingEvents: mPendingEvents.size()=%ld", mPendingEvents.size());
 
-    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()); ++it) {
+    for (auto it = mPendingEvents.begin(); it != mPendingEvents.end();) {
         // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
         if (TransitionBehavior::REGULAR == it->transitionType) {
             it->releaseLock();
+            it = mPendingEvents.erase(it);
+        } else {
+            ++it;
         }
     }
-
-    mPendingEvents.clear();
 }
 
 bool HierarchicalStateMachine::Impl::hasSubstates(const StateID_t parent) const {
-- 
2.43.0


From 58e7e2f9f4dde0ccbdaff36f237e56f7a5e7180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 08/26] fix: keep the old value of a variant alive while a part
 of it is assigned to the variant

---
 include/hsmcpp/variant.hpp | 3 +++
 src/variant.cpp            | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 41697c8..40a4d7a 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -864,6 +864,9 @@ Variant::Variant(const T& v, const Type t) {
 
 template <typename T>
 void Variant::assign(const T& v, const Type t) {
+    // NOTE: v can be a part of the current value (for example an item of the stored vector)
+    const std::shared_ptr<void> oldData = data;
+
     freeMemory();
     createMemoryAllocator<T>();
     type = t;
diff --git a/src/variant.cpp b/src/variant.cpp
index a249742..c9cfc3d 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -130,6 +130,9 @@ Variant& Variant::operator=(const char* v) {
 
 Variant& Variant::operator=(const Variant& v) {
     if (false == isSameObject(v)) {
+        // NOTE: v can be a part of the current value (for example an item of the stored vector)
+        const std::shared_ptr<void> oldData = data;
+
         if ((Type::UNKNOWN != v.type) && (v.memoryAllocator)) {
             data = v.memoryAllocator(v.data.get());
             type = v.type;
@@ -145,6 +148,9 @@ Variant& Variant::operator=(const Variant& v) {
 
 Variant& Variant::operator=(Variant&& v) noexcept {
     if (false == isSameObject(v)) {
+        // NOTE: v can be a part of the current value (for example an item of the stored vector)
+        const std::shared_ptr<void> oldData = data;
+
         data = std::move(v.data);
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
-- 
2.43.0


From d3c83550ce68a36b5a1b7a667a14d43f6a6fea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:29 +0000
Subject: [PATCH 09/26] fix: check conditions of pending events with their own
 arguments in isTransitionPossible()

---
 src/HsmImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index a67a74a..80150e2 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -956,7 +956,8 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
         for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()) && (true == possible); ++it) {
             nextEvent = it->id;
             possibleTransitions.clear();
-            possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
+            // NOTE: conditions of pending events must be checked with arguments of these events
+            possible = findTransitionTarget(currentState, nextEvent, it->getArgs(), true, possibleTransitions);
 
             if (true == possible) {
                 if (false == possibleTransitions.empty()) {
-- 
2.43.0


From 577d508b3602d7eac0d0054852e2dd01d4c50013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 10/26] fix: restore states of deep history starting from
 parents

A deep history which contained parallel composite states restored children
before their parents or re-entered entry points of the restored parent in
addition to the restored children.
---
 src/HsmImpl.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 80150e2..751d5d8 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1366,28 +1366,30 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
 void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates,
                                                                       const PendingEventInfo& event,
                                                                       const StateID_t destinationState) {
-    StateID_t prevChildState = INVALID_HSM_STATE_ID;
     PendingEventInfo historyTransitionEvent = event;
 
     historyTransitionEvent.transitionType = TransitionBehavior::FORCED;
     historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
+    historyTransitionEvent.ignoreEntryPoints = false;
 
     {
         HSM_SYNC_EVENTS_QUEUE();
 
+        // NOTE: states are stored starting from children, so states which have children in the history must be restored first
         for (const StateID_t prevState : previousActiveStates) {
-            if ((INVALID_HSM_STATE_ID != prevChildState) && (true == isSubstateOf(prevState, prevChildState))) {
-                if (false == historyTransitionEvent.forcedTransitionsInfo->empty()) {
-                    mPendingEvents.push_front(historyTransitionEvent);
-                }
+            bool isParent = false;
+
+            for (const TransitionInfo& childTransition : *historyTransitionEvent.forcedTransitionsInfo) {
+                isParent = isParent || isSubstateOf(prevState, childTransition.destinationState);
+            }
+
+            if (true == isParent) {
+                mPendingEvents.push_front(historyTransitionEvent);
 
                 historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
                 historyTransitionEvent.ignoreEntryPoints = true;
-            } else {
-                historyTransitionEvent.ignoreEntryPoints = false;
             }
 
-            prevChildState = prevState;
             historyTransitionEvent.forcedTransitionsInfo->emplace_back(destinationState,
                                                                        prevState,
                                                                        TransitionType::EXTERNAL_TRANSITION,
-- 
2.43.0


From 0d9e3b98040da7af033742554493e6d09a5d8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 11/26] fix: access dispatcher queues, handlers and timers only
 under their lock

---
 src/HsmEventDispatcherBase.cpp | 35 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 15c4990..ac0ba5f 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -75,13 +75,16 @@ void HsmEventDispatcherBase::emitEvent(const HandlerID_t handlerID) {
 bool HsmEventDispatcherBase::enqueueEvent(const HandlerID_t handlerID, const EventID_t event) {
     bool wasAdded = false;
 
-    if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
-        {
-            CriticalSection cs(mEnqueuedEventsSync);
+    {
+        CriticalSection cs(mEnqueuedEventsSync);
+
+        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
             mEnqueuedEvents.emplace_back(handlerID, event);
+            wasAdded = true;
         }
+    }
 
-        wasAdded = true;
+    if (true == wasAdded) {
         notifyDispatcherAboutEvent();
     }
 
@@ -207,6 +210,8 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 }
 
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
+    LockGuard lck(mHandlersSync);
+
     return (mActiveTimers.find(timerID) != mActiveTimers.end());
 }
 
@@ -283,7 +288,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
-    if ((false == mStopDispatcher) && (false == mEnqueuedEvents.empty())) {
+    if (false == mStopDispatcher) {
         HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         EnqueuedEventHandlerFunc_t callback;
         std::vector<EnqueuedEventInfo> currentEvents;
@@ -299,6 +304,8 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
         // need to traverse events in reverse order
         for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher); ++it) {
             if (prevHandlerID != it->handlerID) {
+                LockGuard lck(mHandlersSync);
+
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
                 prevHandlerID = it->handlerID;
             }
@@ -311,17 +318,15 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
 }
 
 void HsmEventDispatcherBase::dispatchPendingActions() {
-    if (false == mPendingActions.empty()) {
-        std::list<ActionHandlerFunc_t> actionsSnapshot;
+    std::list<ActionHandlerFunc_t> actionsSnapshot;
 
-        {
-            LockGuard lck(mEmitSync);
-            actionsSnapshot = std::move(mPendingActions);
-        }
+    {
+        LockGuard lck(mEmitSync);
+        actionsSnapshot = std::move(mPendingActions);
+    }
 
-        for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
-            actionCallback();
-        }
+    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
+        actionCallback();
     }
 }
 
@@ -330,7 +335,7 @@ void HsmEventDispatcherBase::dispatchPendingEvents() {
 
     dispatchPendingActions();
 
-    if (false == mPendingEvents.empty()) {
+    {
         LockGuard lck(mEmitSync);
         events = std::move(mPendingEvents);
     }
-- 
2.43.0


From 331d35cf7a52b334b4a774278379855b8d8c8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 12/26] fix: check for pending state machine events only under
 the lock of the queue

---
 src/HsmImpl.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 751d5d8..d837ac1 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -611,7 +611,14 @@ void HierarchicalStateMachine::Impl::handleStartup() {
             }
         }
 
-        if (false == mPendingEvents.empty()) {
+        bool hasPendingEvents = false;
+
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            hasPendingEvents = (false == mPendingEvents.empty());
+        }
+
+        if (true == hasPendingEvents) {
             dispatcherPtr->emitEvent(mEventsHandlerId);
         }
     }
@@ -630,22 +637,32 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
         UniqueLock lk = mIsDispatching.lock();
 
         if (false == mStopDispatching) {
-            if (false == mPendingEvents.empty()) {
-                PendingEventInfo pendingEvent;
+            PendingEventInfo pendingEvent;
+            bool hasPendingEvents = false;
 
-                {
-                    HSM_SYNC_EVENTS_QUEUE();
+            {
+                HSM_SYNC_EVENTS_QUEUE();
+
+                if (false == mPendingEvents.empty()) {
                     pendingEvent = std::move(mPendingEvents.front());
                     mPendingEvents.pop_front();
+                    hasPendingEvents = true;
                 }
+            }
 
+            if (true == hasPendingEvents) {
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
                 HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
                 pendingEvent.unlock(transitiontStatus);
             }
 
-            if ((false == mStopDispatching) && (false == mPendingEvents.empty())) {
+            {
+                HSM_SYNC_EVENTS_QUEUE();
+                hasPendingEvents = (false == mPendingEvents.empty());
+            }
+
+            if ((false == mStopDispatching) && (true == hasPendingEvents)) {
                 dispatcherPtr->emitEvent(mEventsHandlerId);
             }
         }
-- 
2.43.0


From 6d261d99554e0826c9968bd93ebd568df8069243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 13/26] fix: wake up STD dispatcher for enqueued actions

---
 src/HsmEventDispatcherSTD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 2f216a7..e13ba36 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -144,7 +144,8 @@ void HsmEventDispatcherSTD::doDispatching() {
                 // cppcheck-suppress misra-c2012-15.5
                 mEmitEvent.wait(lck, [=]() {
                     // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
+                    return (false == mPendingEvents.empty()) || (false == mPendingActions.empty()) ||
+                           (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
                 });
                 HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
             }
-- 
2.43.0


From ada799b75c569a25ff6f4be5fb096b598c5b8fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 14/26] fix: do not hold timers lock of STD dispatcher while
 handling an expired timer

startTimer() and handleTimers() locked in the opposite order (deadlock) and
notifications sent before the timers thread started to wait were lost.
---
 src/HsmEventDispatcherSTD.cpp | 38 ++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index e13ba36..d416712 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -157,17 +157,22 @@ void HsmEventDispatcherSTD::doDispatching() {
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
     HSM_TRACE_CALL_DEBUG();
-    mNotifiedTimersThread = true;
+    {
+        CriticalSection cs(mRunningTimersSync);
+        mNotifiedTimersThread = true;
+    }
+
     mTimerEvent.notify();
 }
 
 void HsmEventDispatcherSTD::handleTimers() {
     HSM_TRACE_CALL_DEBUG();
-    Mutex timerEventSync;
-    UniqueLock lck(timerEventSync);
 
     while (false == mStopDispatcher) {
-        mRunningTimersSync.lock();
+        UniqueLock lck(mRunningTimersSync);
+
+        // NOTE: any change made to timers before this point will be taken into account below
+        mNotifiedTimersThread = false;
 
         if (false == mRunningTimers.empty()) {
             auto itTimeout = mRunningTimers.begin();
@@ -178,17 +183,14 @@ void HsmEventDispatcherSTD::handleTimers() {
                 }
             }
 
-            TimerID_t waitingTimerId = itTimeout->first;
+            const TimerID_t waitingTimerId = itTimeout->first;
+            const auto timerStartedAt = itTimeout->second.startedAt;
             const int waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
                                                                                          std::chrono::steady_clock::now())
                                        .count();
-
-            // unlock after itTimeout value is not needed anymore
-            mRunningTimersSync.unlock();
-            // NOTE: make sure we don't use itTimeout value after this line
-
             bool waitResult = false;
 
+            // NOTE: make sure we don't use itTimeout value after this line (mRunningTimersSync will be unlocked)
             // if waitDurationMs <= 0 it means that timer already expired and we only need to trigger event
             if (waitDurationMs > 0) {
                 // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
@@ -197,7 +199,7 @@ void HsmEventDispatcherSTD::handleTimers() {
                 waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread; });
             }
 
-            mNotifiedTimersThread = false;
+            lck.unlock();
 
             if (false == waitResult) {
                 // timeout expired
@@ -205,13 +207,15 @@ void HsmEventDispatcherSTD::handleTimers() {
                 // store wakeup time in case we'll need to calculate new elapseAfter value
                 // needed to avoid potential delays caused by CriticalSection and handleTimerEvent()
                 const auto wakeupTime = std::chrono::steady_clock::now();
+                // NOTE: mRunningTimersSync must not be locked during this call, because startTimer() and stopTimer()
+                //       use an opposite order of locks
+                const unsigned int nextIntervalMs = handleTimerEvent(waitingTimerId);
                 CriticalSection lckExpired(mRunningTimersSync);
 
                 itTimeout = mRunningTimers.find(waitingTimerId);
 
-                if (itTimeout != mRunningTimers.end()) {
-                    const unsigned int nextIntervalMs = handleTimerEvent(waitingTimerId);
-
+                // do nothing if timer was stopped or restarted in the meantime
+                if ((itTimeout != mRunningTimers.end()) && (timerStartedAt == itTimeout->second.startedAt)) {
                     if (nextIntervalMs > 0u) {
                         // restart timer
                         itTimeout->second.startedAt = wakeupTime;
@@ -227,14 +231,12 @@ void HsmEventDispatcherSTD::handleTimers() {
                 // thread was woken up by start/stop operation. no need to do anything
             }
         } else {
-            mRunningTimersSync.unlock();
-
             // wait for timer events
-            mTimerEvent.wait(lck);
+            mTimerEvent.wait(lck, [&]() { return mNotifiedTimersThread; });
         }
     }
 
     HSM_TRACE_DEBUG("EXIT");
 }
 
-}  // namespace hsmcpp
\ No newline at end of file
+}  // namespace hsmcpp
-- 
2.43.0


From 5fec6c24a058dff18e9ada29e0a6671df27d11aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 15/26] fix: generate handler identifiers under the lock of the
 handlers

---
 src/HsmEventDispatcherBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index ac0ba5f..30dbdee 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -38,8 +38,8 @@ void HsmEventDispatcherBase::stop() {
 
 HandlerID_t HsmEventDispatcherBase::registerEventHandler(const EventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEventHandlers[id] = handler;
 
@@ -104,8 +104,8 @@ void HsmEventDispatcherBase::enqueueAction(ActionHandlerFunc_t actionCallback) {
 
 HandlerID_t HsmEventDispatcherBase::registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEnqueuedEventHandlers[id] = handler;
 
@@ -120,8 +120,8 @@ void HsmEventDispatcherBase::unregisterEnqueuedEventHandler(const HandlerID_t ha
 }
 
 HandlerID_t HsmEventDispatcherBase::registerTimerHandler(const TimerHandlerFunc_t& handler) {
-    const HandlerID_t newID = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t newID = getNextHandlerID();
 
     mTimerHandlers[newID] = handler;
 
-- 
2.43.0


From 2165046b726e557c4f7a549a05b5bacc3de31690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 16/26] fix: synchronous transition could miss the notification
 and wait forever

---
 src/HsmImpl.cpp      | 8 +++++++-
 src/HsmImplTypes.cpp | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index d837ac1..82f74bc 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -442,7 +442,13 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
         if (true == sync) {
             HSM_TRACE_DEBUG("transitionEx: wait...");
             eventInfo.wait(timeoutMs);
-            status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
+
+            {
+                // NOTE: event could still be in processing if timeout expired
+                UniqueLock lck(*eventInfo.cvLock);
+
+                status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
+            }
         } else {
             // always return true for async transitions
             status = true;
diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 3406f41..5bca124 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -170,7 +170,12 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
 
     if (true == isSync()) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
-        *transitionStatus = status;
+        {
+            // NOTE: without a lock notification could be lost if wait() already checked the status, but didn't start waiting yet
+            UniqueLock lck(*cvLock);
+
+            *transitionStatus = status;
+        }
 
         if (status != HsmEventStatus::PENDING) {
             syncProcessed->notify();
-- 
2.43.0


From 05b9c9f719ca9c50ab719a448cda788d9eb0bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 17/26] fix: HsmEventDispatcherSTD::stop() could deadlock with
 an expiring timer

---
 src/HsmEventDispatcherSTD.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index d416712..a264fd7 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -60,9 +60,14 @@ bool HsmEventDispatcherSTD::start() {
 
 void HsmEventDispatcherSTD::stop() {
     HSM_TRACE_CALL_DEBUG();
-    UniqueLock lck(mEmitSync);
 
-    HsmEventDispatcherBase::stop();
+    {
+        UniqueLock lck(mEmitSync);
+
+        HsmEventDispatcherBase::stop();
+    }
+
+    // NOTE: mEmitSync must not be locked during this call, because timer handlers emit events while handlers are locked
     unregisterAllEventHandlers();
     notifyDispatcherAboutEvent();
     notifyTimersThread();
-- 
2.43.0


From 035ad74f785eb29c19cd543e437a277e5e4ef7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 18/26] fix: timers thread of HsmEventDispatcherSTD could miss
 stop() and block join() forever

---
 src/HsmEventDispatcherSTD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index a264fd7..7f398de 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -201,7 +201,7 @@ void HsmEventDispatcherSTD::handleTimers() {
                 // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
                 //       "return" statement belogs to a lamda function, not doDispatching.
                 // cppcheck-suppress misra-c2012-15.5
-                waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread; });
+                waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread || mStopDispatcher; });
             }
 
             lck.unlock();
@@ -237,7 +237,8 @@ void HsmEventDispatcherSTD::handleTimers() {
             }
         } else {
             // wait for timer events
-            mTimerEvent.wait(lck, [&]() { return mNotifiedTimersThread; });
+            // NOTE: stop notification could have been sent before mNotifiedTimersThread was reset
+            mTimerEvent.wait(lck, [&]() { return mNotifiedTimersThread || mStopDispatcher; });
         }
     }
 
-- 
2.43.0


From 69dbeeb5ed62fc96b91ccef8ced3d405c15b3d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 19/26] fix: HsmEventDispatcherSTD read the enqueued events
 without their lock

---
 src/HsmEventDispatcherSTD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 7f398de..019709a 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -148,6 +148,7 @@ void HsmEventDispatcherSTD::doDispatching() {
                 //       "return" statement belogs to a lamda function, not doDispatching.
                 // cppcheck-suppress misra-c2012-15.5
                 mEmitEvent.wait(lck, [=]() {
+                    CriticalSection cs(mEnqueuedEventsSync);
                     // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
                     return (false == mPendingEvents.empty()) || (false == mPendingActions.empty()) ||
                            (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
-- 
2.43.0


From b7b4344ea4ea0c747e568a1adee6ecea1f99c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 20/26] fix: release() reset the dispatcher while it could
 still be used by an ongoing dispatching

---
 src/HsmImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 82f74bc..ec98a5d 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -178,11 +178,12 @@ void HierarchicalStateMachine::Impl::release() {
         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
-        mDispatcher.reset();
-        mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
 
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
+
+        mDispatcher.reset();
+        mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     }
 }
 
-- 
2.43.0


From 05952332fa1ac67024c54a4f275763a8f96e5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 21/26] fix: timers with intervals above INT_MAX ms expired
 immediately (HsmEventDispatcherSTD)

---
 src/HsmEventDispatcherSTD.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 019709a..ab1492b 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -3,6 +3,8 @@
 
 #include "hsmcpp/HsmEventDispatcherSTD.hpp"
 
+#include <limits>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
 
@@ -191,9 +193,13 @@ void HsmEventDispatcherSTD::handleTimers() {
 
             const TimerID_t waitingTimerId = itTimeout->first;
             const auto timerStartedAt = itTimeout->second.startedAt;
-            const int waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
-                                                                                         std::chrono::steady_clock::now())
-                                       .count();
+            const auto remainingMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
+                                                                                           std::chrono::steady_clock::now())
+                                         .count();
+            // NOTE: long intervals don't fit into wait_for() argument. They require more than one wait
+            constexpr int maxWaitDurationMs = std::numeric_limits<int>::max();
+            const bool isLongWait = (remainingMs > maxWaitDurationMs);
+            const int waitDurationMs = (isLongWait ? maxWaitDurationMs : ((remainingMs > 0) ? static_cast<int>(remainingMs) : 0));
             bool waitResult = false;
 
             // NOTE: make sure we don't use itTimeout value after this line (mRunningTimersSync will be unlocked)
@@ -207,7 +213,7 @@ void HsmEventDispatcherSTD::handleTimers() {
 
             lck.unlock();
 
-            if (false == waitResult) {
+            if ((false == waitResult) && (false == isLongWait)) {
                 // timeout expired
 
                 // store wakeup time in case we'll need to calculate new elapseAfter value
@@ -234,7 +240,7 @@ void HsmEventDispatcherSTD::handleTimers() {
                     // do nothing
                 }
             } else {
-                // thread was woken up by start/stop operation. no need to do anything
+                // thread was woken up by start/stop operation or needs to continue waiting. no need to do anything
             }
         } else {
             // wait for timer events
-- 
2.43.0


From 38a3c37f42ba1ffe86c757a8e25de65278345997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 22/26] fix: HsmEventDispatcherGLib::start() kept the pipe of a
 failed attempt and then claimed to be running

---
 src/HsmEventDispatcherGLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 52443cd..0d0a85c 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -93,7 +93,7 @@ bool HsmEventDispatcherGLib::start() {
                 mReadChannel = nullptr;
             }
 
-            if ((-1) == mPipeFD[0]) {
+            if ((-1) != mPipeFD[0]) {
                 close(mPipeFD[0]);
                 close(mPipeFD[1]);
                 mPipeFD[0] = -1;
-- 
2.43.0


From ed3d92651b23c7569489522fc7575cf3f14a0596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 23/26] fix: HsmEventDispatcherGLib blocked forever when its
 main loop sent more events than fit in the pipe

---
 src/HsmEventDispatcherGLib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 0d0a85c..edd3b53 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -3,6 +3,7 @@
 
 #include "hsmcpp/HsmEventDispatcherGLib.hpp"
 
+#include <fcntl.h>
 #include <unistd.h>
 
 #include "hsmcpp/logging.hpp"
@@ -68,6 +69,8 @@ bool HsmEventDispatcherGLib::start() {
         int rc = pipe(mPipeFD);
 
         if (0 == rc) {
+            // NOTE: pipe only wakes up main loop. writing to a full pipe must not block since it could be done from main loop itself
+            fcntl(mPipeFD[1], F_SETFL, O_NONBLOCK);
             mReadChannel = g_io_channel_unix_new(mPipeFD[0]);
 
             if (nullptr != mReadChannel) {
-- 
2.43.0


From 59be867075356148613c60160c3d8bd1458c9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 24/26] fix: HsmEventDispatcherGLibmm dereferenced a missing
 dispatcher before start() and after stop()

---
 src/HsmEventDispatcherGLibmm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 0c1081e..b4f5dff 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -146,7 +146,10 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
-    mDispatcher->emit();
+    // NOTE: there is no dispatcher before start() and after stop()
+    if (mDispatcher) {
+        mDispatcher->emit();
+    }
 }
 
 bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
-- 
2.43.0


From e30eddfa7e4bf2f4c2fcadc91f8d93d0625ad376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 25/26] fix: HsmEventDispatcherQt looked up native timers
 without their lock

---
 src/HsmEventDispatcherQt.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 4b79444..6eb48cb 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -95,9 +95,15 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
                               SC2INT(timerID),
                               intervalMs,
                               BOOL2INT(isSingleShot));
-    auto it = mNativeTimerHandlers.find(timerID);
+    bool timerExists = false;
+
+    {
+        CriticalSection cs(mRunningTimersSync);
+
+        timerExists = (mNativeTimerHandlers.end() != mNativeTimerHandlers.find(timerID));
+    }
 
-    if (mNativeTimerHandlers.end() == it) {
+    if (false == timerExists) {
         auto funcCreateTimer = [=]() {
             QTimer* newTimer = new QTimer(this);
 
-- 
2.43.0


From 3d2d146bef283e4fa4c7270b4e661ab7c55457f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 26/26] fix: HsmEventDispatcherQt left a second timer running
 when a timer was restarted from another thread

---
 src/HsmEventDispatcherQt.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 6eb48cb..19a426f 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -113,6 +113,13 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
             newTimer->start(intervalMs);
 
             CriticalSection cs(mRunningTimersSync);
+            auto itPrevious = mNativeTimerHandlers.find(timerID);
+
+            // NOTE: timer could have been started again before Qt main thread had a chance to create it
+            if (mNativeTimerHandlers.end() != itPrevious) {
+                itPrevious->second->deleteLater();
+            }
+
             mNativeTimerHandlers[timerID] = newTimer;
         };
 
-- 
2.43.0

