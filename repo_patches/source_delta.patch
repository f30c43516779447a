From dc78fdc69a1ddf76c56a7dcdc5807e7e80af37b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 01/64] fix: restore exited states parent-first when a
 transition is canceled

States are exited starting from the most nested one, and rollback re-entered
them in the same order. Parents ended up after their children in the list of
active states, so after a canceled transition a parent was offered events
before its children and getLastActiveState() returned the parent.
---
 src/HsmImpl.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b00c921..28471b6 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1170,11 +1170,15 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
-        for (const StateID_t& curState : exitedStates) {
+        // states were exited starting from the most nested one, so they must be restored in the opposite order
+        for (auto itState = exitedStates.rbegin(); itState != exitedStates.rend(); ++itState) {
             // to prevent infinite loops we don't allow state to cancel transition
-            (void)onStateEntering(curState, VariantVector_t());
-            (void)addActiveState(curState);
-            onStateChanged(curState, VariantVector_t());
+            (void)onStateEntering(*itState, VariantVector_t());
+
+            // states could have been already restored by another target of the same transition
+            if (true == addActiveState(*itState)) {
+                onStateChanged(*itState, VariantVector_t());
+            }
         }
     }
 
@@ -1315,10 +1319,14 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
             else {
                 for (const auto& curState : outExitedStates) {
                     mActiveStates.remove(curState);
+                }
+
+                // states were exited starting from the most nested one, so they must be restored in the opposite order
+                for (auto itState = outExitedStates.rbegin(); itState != outExitedStates.rend(); ++itState) {
                     // to prevent infinite loops we don't allow state to cancel transition
-                    (void)onStateEntering(curState, VariantVector_t());
-                    mActiveStates.emplace_back(curState);
-                    onStateChanged(curState, VariantVector_t());
+                    (void)onStateEntering(*itState, VariantVector_t());
+                    mActiveStates.emplace_back(*itState);
+                    onStateChanged(*itState, VariantVector_t());
                 }
             }
         }
-- 
2.43.0


From dff3766f685a577d7416dd3137d53b5de9fede1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 02/64] fix: exit the source state only once in transitions
 with multiple targets

When an exit callback blocked a transition that has several targets, exit
callbacks and rollback were executed again for each additional target. The
transition could even proceed if a later attempt was not blocked.
---
 src/HsmImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 28471b6..11683ba 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1329,6 +1329,9 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
                     onStateChanged(*itState, VariantVector_t());
                 }
             }
+
+            // all matching transitions have the same source state, so it must be exited only once
+            break;
         }
     }
 
-- 
2.43.0


From f8825c1dc49a49afd7e0b2e92115a7c22722db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 03/64] fix: don't drop restored source state if one of
 multiple targets is canceled

When the first of several targets refused entry, the source state was restored
(entered again) and then silently removed from active states by the next
target, without calling its exit callback.
---
 src/HsmImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 11683ba..6c9cb94 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1131,7 +1131,13 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
     }
 
     if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
-        if (true == replaceActiveState(fromState, curTransition.destinationState)) {
+        // NOTE: source state of a regular transition was already removed from the list of active states. if it's active again
+        //       then it was restored because another target of the same transition was canceled
+        const bool wasActivated = (TransitionBehavior::REGULAR == event.transitionType)
+                                      ? addActiveState(curTransition.destinationState)
+                                      : replaceActiveState(fromState, curTransition.destinationState);
+
+        if (true == wasActivated) {
             onStateChanged(curTransition.destinationState, event.getArgs());
         }
 
-- 
2.43.0


From 2ef938c98862b377f6bb759345c19e84c3fc03aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 04/64] fix: history transitions must not affect unrelated
 active states

Forced transitions generated for a history state were applied to every active
state. Active states of parallel regions were silently removed (without calling
exit callbacks) and state changed callback of an already active history parent
was called again.
---
 src/HsmImpl.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 6c9cb94..a9e512a 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1244,9 +1244,19 @@ bool HierarchicalStateMachine::Impl::determineTargetState(const PendingEventInfo
         }
     } else if (TransitionBehavior::FORCED == event.transitionType) {
         HSM_TRACE_DEBUG("forced history transitions: %d", SC2INT(event.forcedTransitionsInfo->size()));
-        // cppcheck-suppress misra-c2012-17.8 ; outMatchingTransitions is used to return result
-        outMatchingTransitions = *event.forcedTransitionsInfo;
-        isCorrectTransition = true;
+        const StateID_t historyState = event.forcedTransitionsInfo->front().fromState;
+        StateID_t historyParent = INVALID_HSM_STATE_ID;
+
+        // forced transitions belong to the history state. once it was replaced by its parent the parent takes over.
+        // all other active states (for example, parallel ones) must not be affected
+        isCorrectTransition = (fromState == historyState) ||
+                              ((false == isStateActive(historyState)) &&
+                               (true == getHistoryParent(historyState, historyParent)) && (fromState == historyParent));
+
+        if (true == isCorrectTransition) {
+            // cppcheck-suppress misra-c2012-17.8 ; outMatchingTransitions is used to return result
+            outMatchingTransitions = *event.forcedTransitionsInfo;
+        }
     } else {
         // NOTE: do nothing
     }
-- 
2.43.0


From 1eb1a7db9e6cda1ed4c28d2930ace1bc640b8ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 05/64] fix: restore deep history of states with parallel
 regions

Entry points were ignored only if a parent directly followed its own child in
the list of stored states. With parallel regions default substates were entered
in addition to the restored ones.
---
 src/HsmImpl.cpp | 51 +++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index a9e512a..ef543c5 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1380,36 +1380,45 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
 void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates,
                                                                       const PendingEventInfo& event,
                                                                       const StateID_t destinationState) {
-    StateID_t prevChildState = INVALID_HSM_STATE_ID;
     PendingEventInfo historyTransitionEvent = event;
+    auto parentTransitions = std::make_shared<std::list<TransitionInfo>>();
+    auto childTransitions = std::make_shared<std::list<TransitionInfo>>();
+
+    for (const StateID_t prevState : previousActiveStates) {
+        const bool hasStoredSubstates =
+            std::any_of(previousActiveStates.begin(), previousActiveStates.end(), [this, prevState](const StateID_t state) {
+                // NOTE: false-positive. "return" statement belongs to lambda function, not parent function
+                // cppcheck-suppress misra-c2012-15.5
+                return isSubstateOf(prevState, state);
+            });
+
+        if (true == hasStoredSubstates) {
+            // states are stored starting from the most nested one, but parents must be restored first
+            parentTransitions->emplace_front(destinationState,
+                                             prevState,
+                                             TransitionType::EXTERNAL_TRANSITION,
+                                             nullptr,
+                                             nullptr);
+        } else {
+            childTransitions->emplace_back(destinationState, prevState, TransitionType::EXTERNAL_TRANSITION, nullptr, nullptr);
+        }
+    }
 
     historyTransitionEvent.transitionType = TransitionBehavior::FORCED;
-    historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
 
     {
         HSM_SYNC_EVENTS_QUEUE();
 
-        for (const StateID_t prevState : previousActiveStates) {
-            if ((INVALID_HSM_STATE_ID != prevChildState) && (true == isSubstateOf(prevState, prevChildState))) {
-                if (false == historyTransitionEvent.forcedTransitionsInfo->empty()) {
-                    mPendingEvents.push_front(historyTransitionEvent);
-                }
-
-                historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
-                historyTransitionEvent.ignoreEntryPoints = true;
-            } else {
-                historyTransitionEvent.ignoreEntryPoints = false;
-            }
+        historyTransitionEvent.ignoreEntryPoints = false;
+        historyTransitionEvent.forcedTransitionsInfo = childTransitions;
+        mPendingEvents.push_front(historyTransitionEvent);
 
-            prevChildState = prevState;
-            historyTransitionEvent.forcedTransitionsInfo->emplace_back(destinationState,
-                                                                       prevState,
-                                                                       TransitionType::EXTERNAL_TRANSITION,
-                                                                       nullptr,
-                                                                       nullptr);
+        // substates of these states are going to be restored from history. default entry points must be ignored
+        if (false == parentTransitions->empty()) {
+            historyTransitionEvent.ignoreEntryPoints = true;
+            historyTransitionEvent.forcedTransitionsInfo = parentTransitions;
+            mPendingEvents.push_front(historyTransitionEvent);
         }
-
-        mPendingEvents.push_front(historyTransitionEvent);
     }
 
     previousActiveStates.clear();
-- 
2.43.0


From 5e4cdaeb90712d5ceeec9f7bf90f2970cefa1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 06/64] fix: protect events queue when transitioning to default
 history state

---
 src/HsmImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index ef543c5..2b7dfb7 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1485,7 +1485,10 @@ void HierarchicalStateMachine::Impl::transitionToDefaultHistoryState(
                                                                       cbTransition,
                                                                       nullptr);
 
-        mPendingEvents.push_front(defHistoryTransitionEvent);
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            mPendingEvents.push_front(defHistoryTransitionEvent);
+        }
     }
 }
 
-- 
2.43.0


From b6acd434f2091bb90c24f3a8ef67e15336361729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 07/64] fix: don't discard ongoing entry transitions when
 clearing events queue

Entry point and history transitions are a part of an already started transition
and are supposed to be atomic. Discarding them left parent states without active
substates and pending synchronous transition was never finished.
---
 src/HsmImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 2b7dfb7..4023960 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1582,14 +1582,15 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 void HierarchicalStateMachine::Impl::clearPendingEvents() {
     HSM_TRACE_CALL_DEBUG_ARGS("clearPendingEvents: mPendingEvents.size()=%ld", mPendingEvents.size());
 
-    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()); ++it) {
+    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end());) {
         // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
         if (TransitionBehavior::REGULAR == it->transitionType) {
             it->releaseLock();
+            it = mPendingEvents.erase(it);
+        } else {
+            ++it;
         }
     }
-
-    mPendingEvents.clear();
 }
 
 bool HierarchicalStateMachine::Impl::hasSubstates(const StateID_t parent) const {
-- 
2.43.0


From 76d9ecf72f21347c61edb865030bba3a9f6b6b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 08/64] fix: don't report failed transition when several states
 are entered by the same event

Every destination with substates scheduled its own entry transition, but the first one already handles all of them. Remaining ones could not find anything to do, so failed transition callback was called (and sync transitions reported failure) for a successful transition.
---
 src/HsmImpl.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 4023960..520111d 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1153,7 +1153,9 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             if (false == event.ignoreEntryPoints) {
                 std::list<StateID_t> entryPoints;
 
-                if (true == getEntryPoints(curTransition.destinationState, event.id, event.getArgs(), entryPoints)) {
+                // NOTE: state could have been already entered together with its substates by another parallel transition
+                if ((true == getEntryPoints(curTransition.destinationState, event.id, event.getArgs(), entryPoints)) &&
+                    (false == hasActiveChildren(curTransition.destinationState, true))) {
                     HSM_TRACE_DEBUG("state <%s> has substates with %d entry points (first: <%s>)",
                                     getStateName(curTransition.destinationState).c_str(),
                                     SC2INT(entryPoints.size()),
@@ -1164,7 +1166,16 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
 
                     {
                         HSM_SYNC_EVENTS_QUEUE();
-                        mPendingEvents.push_front(entryPointTransitionEvent);
+                        // a single entry transition handles all states which were activated by the same event
+                        const bool isAlreadyPending = (false == mPendingEvents.empty()) &&
+                                                      (TransitionBehavior::ENTRYPOINT == mPendingEvents.front().transitionType) &&
+                                                      (mPendingEvents.front().id == event.id) &&
+                                                      (mPendingEvents.front().args == event.args) &&
+                                                      (mPendingEvents.front().cvLock == event.cvLock);
+
+                        if (false == isAlreadyPending) {
+                            mPendingEvents.push_front(entryPointTransitionEvent);
+                        }
                     }
                     res = HsmEventStatus::PENDING;
                 } else {
-- 
2.43.0


From fa6ef92666e209f43cd36cf0504603bdd3486539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 09/64] fix: isTransitionPossible must check each pending event
 on its own

Transitions found for a pending event were never discarded, so once the first pending event was possible everything after it was reported as possible too. Conditions of pending events were checked using arguments of the requested event.
---
 src/HsmImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 520111d..4394a79 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -955,7 +955,8 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
         for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()) && (true == possible); ++it) {
             nextEvent = it->id;
-            possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
+            possibleTransitions.clear();
+            possible = findTransitionTarget(currentState, nextEvent, it->getArgs(), true, possibleTransitions);
 
             if (true == possible) {
                 if (false == possibleTransitions.empty()) {
@@ -970,6 +971,7 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
     if (true == possible) {
         nextEvent = event;
+        possibleTransitions.clear();
         possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
     }
 
-- 
2.43.0


From e0dc99c42f96ccd0192102a22408f885c2d76d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 10/64] fix: don't reactivate parent of a history state which
 is already active

If history parent was already active its forced transition removed it from the list of active states and added back, so state changed callback was called again for a state which was never left.
---
 src/HsmImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 4394a79..892f3a7 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1637,7 +1637,7 @@ bool HierarchicalStateMachine::Impl::getEntryPoints(const StateID_t state,
 bool HierarchicalStateMachine::Impl::replaceActiveState(const StateID_t oldState, const StateID_t newState) {
     HSM_TRACE_CALL_DEBUG_ARGS("oldState=<%s>, newState=<%s>", getStateName(oldState).c_str(), getStateName(newState).c_str());
 
-    if (false == isSubstateOf(oldState, newState)) {
+    if ((oldState != newState) && (false == isSubstateOf(oldState, newState))) {
         mActiveStates.remove(oldState);
     }
 
-- 
2.43.0


From 0fb0792d5850b3a43e07993c1b91d8e6b7f43093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 11/64] fix: don't dispatch events before initial state becomes
 active

Event handler is registered before initial state is entered. If callbacks or actions of the initial state generated an event, dispatcher's thread could process it (concurrently with the startup) while there were no active states yet and the event was lost.
---
 src/HsmImpl.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 892f3a7..287f764 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -595,6 +595,10 @@ void HierarchicalStateMachine::Impl::handleStartup() {
         HSM_TRACE_DEBUG("state=<%s>", getStateName(mInitialState).c_str());
         std::list<StateID_t> entryPoints;
 
+        // event handler is already registered and dispatcher could be running in another thread. events generated by callbacks
+        // of initial state must not be dispatched until this state becomes active
+        (void)mIsDispatching.test_and_set();
+
         (void)onStateEntering(mInitialState, VariantVector_t());
         mActiveStates.emplace_back(mInitialState);
         onStateChanged(mInitialState, VariantVector_t());
@@ -611,7 +615,17 @@ void HierarchicalStateMachine::Impl::handleStartup() {
             }
         }
 
-        if (false == mPendingEvents.empty()) {
+        mIsDispatching.clear();
+        mIsDispatching.notify();
+
+        bool hasPendingEvents = false;
+
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            hasPendingEvents = (false == mPendingEvents.empty());
+        }
+
+        if (true == hasPendingEvents) {
             dispatcherPtr->emitEvent(mEventsHandlerId);
         }
     }
-- 
2.43.0


From 3507e13e5500b9e84d167a57455a261abeaed022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:47 +0000
Subject: [PATCH 12/64] fix: data race on dispatcher and HSM stop flags

Flags are modified by the thread which stops dispatcher (or releases HSM) and are checked by dispatcher's threads without any synchronization.
---
 include/hsmcpp/HsmEventDispatcherBase.hpp |  3 ++-
 src/HsmEventDispatcherArduino.cpp         |  6 +++---
 src/HsmEventDispatcherBase.cpp            | 10 +++++-----
 src/HsmEventDispatcherFreeRTOS.cpp        |  8 ++++----
 src/HsmEventDispatcherGLib.cpp            |  4 ++--
 src/HsmEventDispatcherQt.cpp              |  2 +-
 src/HsmEventDispatcherSTD.cpp             | 10 +++++-----
 src/HsmImpl.cpp                           | 12 ++++++------
 src/HsmImpl.hpp                           |  2 +-
 9 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 07d95f9..4f9efe0 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -10,6 +10,7 @@
 #include <vector>
 
 #include "IHsmEventDispatcher.hpp"
+#include "os/AtomicFlag.hpp"
 #include "os/Mutex.hpp"
 
 /**
@@ -275,7 +276,7 @@ protected:
     Mutex mHandlersSync;
     Mutex mEnqueuedEventsSync;
     Mutex mRunningTimersSync;
-    bool mStopDispatcher = false;
+    AtomicFlag mStopDispatcher;
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index 513ce13..c0c8bb3 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -38,19 +38,19 @@ bool HsmEventDispatcherArduino::deleteSafe() {
 bool HsmEventDispatcherArduino::start() {
     HSM_TRACE_CALL();
 
-    mStopDispatcher = false;
+    mStopDispatcher.clear();
 
     return true;
 }
 
 void HsmEventDispatcherArduino::emitEvent(const HandlerID_t handlerID) {
-    if (false == mStopDispatcher) {
+    if (false == mStopDispatcher.test()) {
         HsmEventDispatcherBase::emitEvent(handlerID);
     }
 }
 
 void HsmEventDispatcherArduino::dispatchEvents() {
-    if (false == mStopDispatcher) {
+    if (false == mStopDispatcher.test()) {
         handleTimers();
         HsmEventDispatcherBase::dispatchPendingEvents();
     }
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index b1c8812..1950889 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -32,7 +32,7 @@ void HsmEventDispatcherBase::handleDelete(HsmEventDispatcherBase* dispatcher) {
 
 void HsmEventDispatcherBase::stop() {
     HSM_TRACE_CALL_DEBUG();
-    mStopDispatcher = true;
+    (void)mStopDispatcher.test_and_set();
     // NOTE: child classes must provide additional logic
 }
 
@@ -283,7 +283,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
-    if ((false == mStopDispatcher) && (false == mEnqueuedEvents.empty())) {
+    if ((false == mStopDispatcher.test()) && (false == mEnqueuedEvents.empty())) {
         HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         EnqueuedEventHandlerFunc_t callback;
         std::vector<EnqueuedEventInfo> currentEvents;
@@ -297,7 +297,7 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
         }
 
         // need to traverse events in reverse order
-        for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher); ++it) {
+        for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher.test()); ++it) {
             if (prevHandlerID != it->handlerID) {
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
                 prevHandlerID = it->handlerID;
@@ -339,7 +339,7 @@ void HsmEventDispatcherBase::dispatchPendingEvents() {
 void HsmEventDispatcherBase::dispatchPendingEventsImpl(const std::list<HandlerID_t>& events) {
     dispatchEnqueuedEvents();
 
-    if ((false == mStopDispatcher) && (false == events.empty())) {
+    if ((false == mStopDispatcher.test()) && (false == events.empty())) {
         std::map<HandlerID_t, EventHandlerFunc_t> eventHandlersCopy;
 
         {
@@ -349,7 +349,7 @@ void HsmEventDispatcherBase::dispatchPendingEventsImpl(const std::list<HandlerID
             eventHandlersCopy = mEventHandlers;
         }
 
-        for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher); ++it) {
+        for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher.test()); ++it) {
             auto itHandler = eventHandlersCopy.find(*it);
 
             if (itHandler != eventHandlersCopy.end()) {
diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index c282fa3..6fd8819 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -88,7 +88,7 @@ bool HsmEventDispatcherFreeRTOS::start() {
                                                 &mDispatcherTask);
 
             if (pdPASS == taskStatus) {
-                mStopDispatcher = false;
+                mStopDispatcher.clear();
                 result = true;
             } else {
                 HSM_TRACE_ERROR("failed to start task");
@@ -98,7 +98,7 @@ bool HsmEventDispatcherFreeRTOS::start() {
         }
     } else {
         // just make sure that task was not requested to stop
-        result = (false == mStopDispatcher);
+        result = (false == mStopDispatcher.test());
     }
 
     return result;
@@ -228,7 +228,7 @@ void HsmEventDispatcherFreeRTOS::doDispatching(void* pvParameters) {
     HsmEventDispatcherFreeRTOS* pThis = static_cast<HsmEventDispatcherFreeRTOS*>(pvParameters);
 
     if (nullptr != pThis) {
-        while (false == pThis->mStopDispatcher) {
+        while (false == pThis->mStopDispatcher.test()) {
             std::list<HandlerID_t> events;
 
             pThis->dispatchPendingActions();
@@ -242,7 +242,7 @@ void HsmEventDispatcherFreeRTOS::doDispatching(void* pvParameters) {
 
             pThis->dispatchPendingEventsImpl(events);
 
-            if (false == pThis->mStopDispatcher) {
+            if (false == pThis->mStopDispatcher.test()) {
                 if (true == pThis->mPendingEvents.empty()) {
                     HSM_TRACE_DEBUG("wait for emit...");
                     ulTaskNotifyTake(pdTRUE, portMAX_DELAY);
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 52443cd..3f48bb2 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -223,7 +223,7 @@ gboolean HsmEventDispatcherGLib::onPipeDataAvailable(GIOChannel* gio, GIOConditi
     gboolean continueDispatching = TRUE;
     HsmEventDispatcherGLib* pThis = static_cast<HsmEventDispatcherGLib*>(data);
 
-    if (false == pThis->mStopDispatcher) {
+    if (false == pThis->mStopDispatcher.test()) {
         pThis->mDispatchingIterationRunning = true;
 
         HSM_TRACE_DEBUG("condition=%d, G_IO_HUP=%s, G_IO_IN=%s",
@@ -240,7 +240,7 @@ gboolean HsmEventDispatcherGLib::onPipeDataAvailable(GIOChannel* gio, GIOConditi
             }
         }
 
-        if (true == pThis->mStopDispatcher) {
+        if (true == pThis->mStopDispatcher.test()) {
             continueDispatching = FALSE;
             pThis->mDispatchingDoneEvent.notify_one();
         }
diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 4b79444..083e85e 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -173,7 +173,7 @@ void HsmEventDispatcherQt::notifyDispatcherAboutEvent() {
 void HsmEventDispatcherQt::customEvent(QEvent* ev) {
     HSM_TRACE_CALL_DEBUG();
 
-    if ((false == mStopDispatcher) && (ev->type() == mQtDispatchEventType)) {
+    if ((false == mStopDispatcher.test()) && (ev->type() == mQtDispatchEventType)) {
         HsmEventDispatcherBase::dispatchPendingEvents();
     }
 }
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 2f216a7..9a9702b 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -48,7 +48,7 @@ bool HsmEventDispatcherSTD::start() {
 
     if (false == mDispatcherThread.joinable()) {
         HSM_TRACE_DEBUG("starting thread...");
-        mStopDispatcher = false;
+        mStopDispatcher.clear();
         mDispatcherThread = std::thread(&HsmEventDispatcherSTD::doDispatching, this);
         result = mDispatcherThread.joinable();
     } else {
@@ -131,10 +131,10 @@ void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {
 void HsmEventDispatcherSTD::doDispatching() {
     HSM_TRACE_CALL_DEBUG();
 
-    while (false == mStopDispatcher) {
+    while (false == mStopDispatcher.test()) {
         HsmEventDispatcherBase::dispatchPendingEvents();
 
-        if (false == mStopDispatcher) {
+        if (false == mStopDispatcher.test()) {
             UniqueLock lck(mEmitSync);
 
             if (true == mPendingEvents.empty()) {
@@ -144,7 +144,7 @@ void HsmEventDispatcherSTD::doDispatching() {
                 // cppcheck-suppress misra-c2012-15.5
                 mEmitEvent.wait(lck, [=]() {
                     // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
+                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher.test());
                 });
                 HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
             }
@@ -165,7 +165,7 @@ void HsmEventDispatcherSTD::handleTimers() {
     Mutex timerEventSync;
     UniqueLock lck(timerEventSync);
 
-    while (false == mStopDispatcher) {
+    while (false == mStopDispatcher.test()) {
         mRunningTimersSync.lock();
 
         if (false == mRunningTimers.empty()) {
diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 287f764..f890c54 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -166,7 +166,7 @@ bool HierarchicalStateMachine::Impl::isInitialized() const {
 }
 
 void HierarchicalStateMachine::Impl::release() {
-    mStopDispatching = true;
+    (void)mStopDispatching.test_and_set();
     HSM_TRACE_CALL_DEBUG();
 
     disableHsmDebugging();
@@ -536,7 +536,7 @@ void HierarchicalStateMachine::Impl::createEventHandler(const std::shared_ptr<IH
         auto pThis = ptrInstance.lock();
 
         // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
-        if (pThis && (false == pThis->mStopDispatching)) {
+        if (pThis && (false == pThis->mStopDispatching.test())) {
             pThis->dispatchEvents();
             handlerIsValid = true;
         }
@@ -555,7 +555,7 @@ void HierarchicalStateMachine::Impl::createTimerHandler(const std::shared_ptr<IH
         auto pThis = ptrInstance.lock();
 
         // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
-        if (pThis && (false == pThis->mStopDispatching)) {
+        if (pThis && (false == pThis->mStopDispatching.test())) {
             pThis->dispatchTimerEvent(timerId);
             handlerIsValid = true;
         }
@@ -575,7 +575,7 @@ void HierarchicalStateMachine::Impl::createEnqueuedEventHandler(
         auto pThis = ptrInstance.lock();
 
         // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
-        if (pThis && (false == pThis->mStopDispatching)) {
+        if (pThis && (false == pThis->mStopDispatching.test())) {
             pThis->transitionSimple(event);
             handlerIsValid = true;
         }
@@ -643,7 +643,7 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
     if (dispatcherPtr && (false == mIsDispatching.test_and_set())) {
         UniqueLock lk = mIsDispatching.lock();
 
-        if (false == mStopDispatching) {
+        if (false == mStopDispatching.test()) {
             if (false == mPendingEvents.empty()) {
                 PendingEventInfo pendingEvent;
 
@@ -659,7 +659,7 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
                 pendingEvent.unlock(transitiontStatus);
             }
 
-            if ((false == mStopDispatching) && (false == mPendingEvents.empty())) {
+            if ((false == mStopDispatching.test()) && (false == mPendingEvents.empty())) {
                 dispatcherPtr->emitEvent(mEventsHandlerId);
             }
         }
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 06a4053..e6cd58f 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -198,7 +198,7 @@ private:
     HandlerID_t mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     HandlerID_t mEnqueuedEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     HandlerID_t mTimerHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
-    bool mStopDispatching = false;
+    AtomicFlag mStopDispatching;
 
     HsmTransitionFailedCallback_t mFailedTransitionCallback;
 
-- 
2.43.0


From 89a23e567b716bc5acf3b4dae449829e78c27d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 13/64] fix: access dispatcher's queues and timers only under
 corresponding lock

Emptiness checks, isTimerRunning() and generation of handler IDs used shared data without synchronization.
---
 src/HsmEventDispatcherBase.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 1950889..3ec5bb4 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -38,8 +38,8 @@ void HsmEventDispatcherBase::stop() {
 
 HandlerID_t HsmEventDispatcherBase::registerEventHandler(const EventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t id = getNextHandlerID();
 
     mEventHandlers[id] = handler;
 
@@ -101,8 +101,8 @@ void HsmEventDispatcherBase::enqueueAction(ActionHandlerFunc_t actionCallback) {
 
 HandlerID_t HsmEventDispatcherBase::registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t id = getNextHandlerID();
 
     mEnqueuedEventHandlers[id] = handler;
 
@@ -117,8 +117,8 @@ void HsmEventDispatcherBase::unregisterEnqueuedEventHandler(const HandlerID_t ha
 }
 
 HandlerID_t HsmEventDispatcherBase::registerTimerHandler(const TimerHandlerFunc_t& handler) {
-    const HandlerID_t newID = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t newID = getNextHandlerID();
 
     mTimerHandlers[newID] = handler;
 
@@ -207,6 +207,8 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 }
 
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
+    LockGuard lck(mHandlersSync);
+
     return (mActiveTimers.find(timerID) != mActiveTimers.end());
 }
 
@@ -309,17 +311,15 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
 }
 
 void HsmEventDispatcherBase::dispatchPendingActions() {
-    if (false == mPendingActions.empty()) {
-        std::list<ActionHandlerFunc_t> actionsSnapshot;
+    std::list<ActionHandlerFunc_t> actionsSnapshot;
 
-        {
-            LockGuard lck(mEmitSync);
-            actionsSnapshot = std::move(mPendingActions);
-        }
+    {
+        LockGuard lck(mEmitSync);
+        actionsSnapshot.swap(mPendingActions);
+    }
 
-        for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
-            actionCallback();
-        }
+    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
+        actionCallback();
     }
 }
 
@@ -328,9 +328,9 @@ void HsmEventDispatcherBase::dispatchPendingEvents() {
 
     dispatchPendingActions();
 
-    if (false == mPendingEvents.empty()) {
+    {
         LockGuard lck(mEmitSync);
-        events = std::move(mPendingEvents);
+        events.swap(mPendingEvents);
     }
 
     dispatchPendingEventsImpl(events);
-- 
2.43.0


From 2ea49e07e8caafb96972924dc5037c6f52f5446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 14/64] fix: check pending HSM events only under lock

Transitions can be requested from any thread while dispatcher checks if there are pending events. Clearing events queue between the check and access to its first element resulted in undefined behavior.
---
 src/HsmImpl.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index f890c54..05ff702 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -644,22 +644,33 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
         UniqueLock lk = mIsDispatching.lock();
 
         if (false == mStopDispatching.test()) {
-            if (false == mPendingEvents.empty()) {
-                PendingEventInfo pendingEvent;
+            PendingEventInfo pendingEvent;
+            bool hasPendingEvents = false;
 
-                {
-                    HSM_SYNC_EVENTS_QUEUE();
+            {
+                HSM_SYNC_EVENTS_QUEUE();
+
+                hasPendingEvents = (false == mPendingEvents.empty());
+
+                if (true == hasPendingEvents) {
                     pendingEvent = std::move(mPendingEvents.front());
                     mPendingEvents.pop_front();
                 }
+            }
 
+            if (true == hasPendingEvents) {
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
                 HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
                 pendingEvent.unlock(transitiontStatus);
             }
 
-            if ((false == mStopDispatching.test()) && (false == mPendingEvents.empty())) {
+            {
+                HSM_SYNC_EVENTS_QUEUE();
+                hasPendingEvents = (false == mPendingEvents.empty());
+            }
+
+            if ((false == mStopDispatching.test()) && (true == hasPendingEvents)) {
                 dispatcherPtr->emitEvent(mEventsHandlerId);
             }
         }
-- 
2.43.0


From 66c3e7a044023516973eb695059ddafcdcc6ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 15/64] fix: enqueued events must not exceed queue limit or
 crash when handler is unregistered

- limit was checked before entering critical section, so several threads could add more events than there is preallocated memory
- dispatching events of already released HSM called an empty function object
---
 src/HsmEventDispatcherBase.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 3ec5bb4..7573bcf 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -75,13 +75,17 @@ void HsmEventDispatcherBase::emitEvent(const HandlerID_t handlerID) {
 bool HsmEventDispatcherBase::enqueueEvent(const HandlerID_t handlerID, const EventID_t event) {
     bool wasAdded = false;
 
-    if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
-        {
-            CriticalSection cs(mEnqueuedEventsSync);
+    {
+        CriticalSection cs(mEnqueuedEventsSync);
+
+        // NOTE: must be checked inside critical section. otherwise vector could be reallocated
+        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
             mEnqueuedEvents.emplace_back(handlerID, event);
+            wasAdded = true;
         }
+    }
 
-        wasAdded = true;
+    if (true == wasAdded) {
         notifyDispatcherAboutEvent();
     }
 
@@ -285,7 +289,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
-    if ((false == mStopDispatcher.test()) && (false == mEnqueuedEvents.empty())) {
+    if (false == mStopDispatcher.test()) {
         HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         EnqueuedEventHandlerFunc_t callback;
         std::vector<EnqueuedEventInfo> currentEvents;
@@ -301,11 +305,17 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
         // need to traverse events in reverse order
         for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher.test()); ++it) {
             if (prevHandlerID != it->handlerID) {
+                LockGuard lck(mHandlersSync);
+
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
                 prevHandlerID = it->handlerID;
             }
 
-            callback(it->eventID);
+            // handler could have been already unregistered
+            // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has a bool() operator
+            if (callback) {
+                callback(it->eventID);
+            }
         }
     }
 }
-- 
2.43.0


From 61feab429fb090918743c8940b395ea6ab93224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 16/64] fix: don't allocate memory in CriticalSection

CriticalSection is used by transitionInterruptSafe() which is called from signals/interrupts and is not allowed to use dynamic memory.
---
 include/hsmcpp/os/common/CriticalSection.hpp | 5 ++---
 src/os/common/CriticalSection.cpp            | 4 +---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/hsmcpp/os/common/CriticalSection.hpp b/include/hsmcpp/os/common/CriticalSection.hpp
index 2f57053..e450f4f 100644
--- a/include/hsmcpp/os/common/CriticalSection.hpp
+++ b/include/hsmcpp/os/common/CriticalSection.hpp
@@ -3,12 +3,11 @@
 #ifndef HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 #define HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 
-#include <memory>
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
 
 namespace hsmcpp {
 
 class Mutex;
-class InterruptsFreeSection;
 
 class CriticalSection {
 public:
@@ -23,7 +22,7 @@ private:
 
 private:
     Mutex& mSync;
-    std::unique_ptr<InterruptsFreeSection> mInterruptsBlock;
+    InterruptsFreeSection mInterruptsBlock;
 };
 
 }  // namespace hsmcpp
diff --git a/src/os/common/CriticalSection.cpp b/src/os/common/CriticalSection.cpp
index f35a29a..48c773a 100644
--- a/src/os/common/CriticalSection.cpp
+++ b/src/os/common/CriticalSection.cpp
@@ -2,14 +2,12 @@
 // Distributed under MIT license. See file LICENSE for details
 #include "hsmcpp/os/common/CriticalSection.hpp"
 
-#include "hsmcpp/os/InterruptsFreeSection.hpp"
 #include "hsmcpp/os/Mutex.hpp"
 
 namespace hsmcpp {
 
 CriticalSection::CriticalSection(Mutex& sync)
-    : mSync(sync)
-    , mInterruptsBlock(new InterruptsFreeSection()) {
+    : mSync(sync) {
     mSync.lock();
 }
 
-- 
2.43.0


From 0b4fc8c6950e8ce783f48882793ed7bc1ac2bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 17/64] fix: STD dispatcher must wake up to execute enqueued
 actions

Actions were not part of the wake up condition, so an action enqueued while dispatcher was idle was not executed until some other event was emitted.
---
 include/hsmcpp/HsmEventDispatcherBase.hpp |  7 +++++++
 src/HsmEventDispatcherBase.cpp            |  6 ++++++
 src/HsmEventDispatcherSTD.cpp             | 20 +++++++++-----------
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 4f9efe0..f814815 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -230,6 +230,13 @@ protected:
      */
     virtual void notifyDispatcherAboutEvent() = 0;
 
+    /**
+     * @brief Check if there are any enqueued events.
+     *
+     * @threadsafe{ }
+     */
+    bool hasEnqueuedEvents();
+
     /**
      * @brief Dispatch currently enqueued events.
      * @details Should be called by derived classes in dedicated dispatcher thread.
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 7573bcf..8094192 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -288,6 +288,12 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
     return nextIntervalMs;
 }
 
+bool HsmEventDispatcherBase::hasEnqueuedEvents() {
+    CriticalSection lck(mEnqueuedEventsSync);
+
+    return (false == mEnqueuedEvents.empty());
+}
+
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
     if (false == mStopDispatcher.test()) {
         HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 9a9702b..e83234c 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -137,17 +137,15 @@ void HsmEventDispatcherSTD::doDispatching() {
         if (false == mStopDispatcher.test()) {
             UniqueLock lck(mEmitSync);
 
-            if (true == mPendingEvents.empty()) {
-                HSM_TRACE_DEBUG("wait for emit...");
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                mEmitEvent.wait(lck, [=]() {
-                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher.test());
-                });
-                HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
-            }
+            HSM_TRACE_DEBUG("wait for emit...");
+            // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
+            //       "return" statement belogs to a lamda function, not doDispatching.
+            // cppcheck-suppress misra-c2012-15.5
+            mEmitEvent.wait(lck, [=]() {
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                return (false == mPendingEvents.empty()) || (false == mPendingActions.empty()) ||
+                       (true == hasEnqueuedEvents()) || (true == mStopDispatcher.test());
+            });
         }
     }
 
-- 
2.43.0


From bc0c10db2de62a389f62007e74cbb133e5270109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 18/64] fix: deadlock, lost notifications and early expiration
 of timers in STD dispatcher

- timers thread locked mRunningTimersSync and then mHandlersSync while start/stop operations used the opposite order
- notifications sent while timers thread was not waiting were lost, so a new timer might have never expired
- timers could expire up to 1 ms too early and immediately if interval didn't fit into int
---
 include/hsmcpp/HsmEventDispatcherBase.hpp |   5 +
 include/hsmcpp/HsmEventDispatcherSTD.hpp  |   4 +-
 src/HsmEventDispatcherBase.cpp            |  10 +-
 src/HsmEventDispatcherSTD.cpp             | 139 +++++++++++++---------
 4 files changed, 97 insertions(+), 61 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index f814815..8a02144 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -224,6 +224,11 @@ protected:
      */
     unsigned int handleTimerEvent(const TimerID_t timerID);
 
+    /**
+     * @brief Same as handleTimerEvent(), but must be called while mHandlersSync is locked.
+     */
+    unsigned int handleTimerEventLocked(const TimerID_t timerID);
+
     /**
      * @brief Wakeup dispatching thread to process pending events.
      * @details Must be implemented by derived classes.
diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index c04001f..62f174f 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -102,6 +102,7 @@ protected:
 
     void notifyTimersThread();
     void handleTimers();
+    void handleExpiredTimer(const TimerID_t timerID);
 
 private:
     std::thread mDispatcherThread;
@@ -109,7 +110,8 @@ private:
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
     ConditionVariable mTimerEvent;
-    bool mNotifiedTimersThread = false;
+    Mutex mTimerEventSync;
+    bool mNotifiedTimersThread = false; // protected by mTimerEventSync
     std::map<TimerID_t, RunningTimerInfo> mRunningTimers; // protected by mRunningTimersSync
 };
 
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 8094192..005194f 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -258,13 +258,17 @@ void HsmEventDispatcherBase::stopTimerImpl(const TimerID_t timerID) {
 }
 
 unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
+    // NOTE: should lock the whole block to prevent situation when timer handler is unregistered during handler execution
+    LockGuard lck(mHandlersSync);
+
+    return handleTimerEventLocked(timerID);
+}
+
+unsigned int HsmEventDispatcherBase::handleTimerEventLocked(const TimerID_t timerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
     unsigned int nextIntervalMs = 0;
 
     if (INVALID_HSM_TIMER_ID != timerID) {
-        // NOTE: should lock the whole block to prevent situation when timer handler is unregistered during handler execution
-        LockGuard lck(mHandlersSync);
-
         auto itTimer = mActiveTimers.find(timerID);
 
         if (mActiveTimers.end() != itTimer) {
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index e83234c..01e2706 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -3,8 +3,11 @@
 
 #include "hsmcpp/HsmEventDispatcherSTD.hpp"
 
+#include <algorithm>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -154,84 +157,106 @@ void HsmEventDispatcherSTD::doDispatching() {
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
     HSM_TRACE_CALL_DEBUG();
-    mNotifiedTimersThread = true;
+
+    {
+        CriticalSection cs(mTimerEventSync);
+        mNotifiedTimersThread = true;
+    }
+
     mTimerEvent.notify();
 }
 
 void HsmEventDispatcherSTD::handleTimers() {
     HSM_TRACE_CALL_DEBUG();
-    Mutex timerEventSync;
-    UniqueLock lck(timerEventSync);
 
     while (false == mStopDispatcher.test()) {
-        mRunningTimersSync.lock();
+        bool hasTimers = false;
+        TimerID_t waitingTimerId = INVALID_HSM_TIMER_ID;
+        std::chrono::time_point<std::chrono::steady_clock> elapseAfter;
 
-        if (false == mRunningTimers.empty()) {
-            auto itTimeout = mRunningTimers.begin();
+        {
+            // any operation with timers performed after this point will interrupt waiting
+            CriticalSection cs(mTimerEventSync);
+            mNotifiedTimersThread = false;
+        }
+
+        {
+            CriticalSection cs(mRunningTimersSync);
 
             for (auto it = mRunningTimers.begin(); it != mRunningTimers.end(); ++it) {
-                if (it->second.elapseAfter < itTimeout->second.elapseAfter) {
-                    itTimeout = it;
+                if ((false == hasTimers) || (it->second.elapseAfter < elapseAfter)) {
+                    hasTimers = true;
+                    waitingTimerId = it->first;
+                    elapseAfter = it->second.elapseAfter;
                 }
             }
+        }
 
-            TimerID_t waitingTimerId = itTimeout->first;
-            const int waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
-                                                                                         std::chrono::steady_clock::now())
-                                       .count();
+        if (false == hasTimers) {
+            UniqueLock lck(mTimerEventSync);
 
-            // unlock after itTimeout value is not needed anymore
-            mRunningTimersSync.unlock();
-            // NOTE: make sure we don't use itTimeout value after this line
+            // wait for timer events
+            mTimerEvent.wait(lck, [&]() {
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                return mNotifiedTimersThread || mStopDispatcher.test();
+            });
+        } else {
+            const auto waitDuration = elapseAfter - std::chrono::steady_clock::now();
+
+            if (waitDuration > std::chrono::steady_clock::duration::zero()) {
+                constexpr std::chrono::milliseconds::rep maxWaitMs = 60 * 60 * 1000;
+                // round up since timers are not allowed to expire earlier than requested
+                const std::chrono::milliseconds::rep waitDurationMs =
+                    std::chrono::duration_cast<std::chrono::milliseconds>(waitDuration).count() + 1;
+                UniqueLock lck(mTimerEventSync);
+
+                // expiration will be checked on the next iteration
+                (void)mTimerEvent.wait_for(lck, static_cast<int>(std::min(waitDurationMs, maxWaitMs)), [&]() {
+                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                    return mNotifiedTimersThread || mStopDispatcher.test();
+                });
+            } else {
+                handleExpiredTimer(waitingTimerId);
+            }
+        }
+    }
 
-            bool waitResult = false;
+    HSM_TRACE_DEBUG("EXIT");
+}
 
-            // if waitDurationMs <= 0 it means that timer already expired and we only need to trigger event
-            if (waitDurationMs > 0) {
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread; });
-            }
+void HsmEventDispatcherSTD::handleExpiredTimer(const TimerID_t timerID) {
+    // store wakeup time in case we'll need to calculate new elapseAfter value
+    // needed to avoid potential delays caused by locks and handleTimerEventLocked()
+    const auto wakeupTime = std::chrono::steady_clock::now();
+    bool isExpired = false;
+    // NOTE: timers can't be started or stopped while mHandlersSync is locked. It must always be locked before mRunningTimersSync
+    //       (same as in startTimer() and stopTimer())
+    LockGuard lckHandlers(mHandlersSync);
 
-            mNotifiedTimersThread = false;
+    {
+        CriticalSection cs(mRunningTimersSync);
+        auto it = mRunningTimers.find(timerID);
 
-            if (false == waitResult) {
-                // timeout expired
-
-                // store wakeup time in case we'll need to calculate new elapseAfter value
-                // needed to avoid potential delays caused by CriticalSection and handleTimerEvent()
-                const auto wakeupTime = std::chrono::steady_clock::now();
-                CriticalSection lckExpired(mRunningTimersSync);
-
-                itTimeout = mRunningTimers.find(waitingTimerId);
-
-                if (itTimeout != mRunningTimers.end()) {
-                    const unsigned int nextIntervalMs = handleTimerEvent(waitingTimerId);
-
-                    if (nextIntervalMs > 0u) {
-                        // restart timer
-                        itTimeout->second.startedAt = wakeupTime;
-                        itTimeout->second.elapseAfter = itTimeout->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
-                    } else {
-                        // single shot timer. remove from queue
-                        mRunningTimers.erase(itTimeout);
-                    }
-                } else {
-                    // do nothing
-                }
+        // timer could have been already stopped or restarted
+        isExpired = (mRunningTimers.end() != it) && (it->second.elapseAfter <= wakeupTime);
+    }
+
+    if (true == isExpired) {
+        const unsigned int nextIntervalMs = handleTimerEventLocked(timerID);
+        CriticalSection cs(mRunningTimersSync);
+        auto it = mRunningTimers.find(timerID);
+
+        if (mRunningTimers.end() != it) {
+            if (nextIntervalMs > 0u) {
+                // restart timer
+                it->second.startedAt = wakeupTime;
+                it->second.elapseAfter = it->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
             } else {
-                // thread was woken up by start/stop operation. no need to do anything
+                // single shot timer. remove from queue
+                mRunningTimers.erase(it);
             }
-        } else {
-            mRunningTimersSync.unlock();
-
-            // wait for timer events
-            mTimerEvent.wait(lck);
         }
     }
-
-    HSM_TRACE_DEBUG("EXIT");
 }
 
-}  // namespace hsmcpp
\ No newline at end of file
+}  // namespace hsmcpp
-- 
2.43.0


From 72d9ced718fa9fa3a6194df7702a2fc2da81a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 19/64] fix: status of sync transitions must be protected by
 lock

Status was modified without locking the mutex used by waiting thread. Notification could be sent between status check and the actual wait, so sync transition never returned (or returned only after timeout).
---
 src/HsmImpl.cpp      |  3 +--
 src/HsmImplTypes.cpp | 19 ++++++++++++++++---
 src/HsmImplTypes.hpp |  2 +-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 05ff702..319fd1d 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -441,8 +441,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
 
         if (true == sync) {
             HSM_TRACE_DEBUG("transitionEx: wait...");
-            eventInfo.wait(timeoutMs);
-            status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
+            status = (HsmEventStatus::DONE_OK == eventInfo.wait(timeoutMs));
         } else {
             // always return true for async transitions
             status = true;
diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 3406f41..1fc62fd 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -4,6 +4,7 @@
 #include "HsmImplTypes.hpp"
 
 #include "hsmcpp/logging.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -143,7 +144,9 @@ bool PendingEventInfo::isSync() const {
     return (nullptr != cvLock);
 }
 
-void PendingEventInfo::wait(const int timeoutMs) {
+HsmEventStatus PendingEventInfo::wait(const int timeoutMs) {
+    HsmEventStatus status = HsmEventStatus::DONE_FAILED;
+
     if (true == isSync()) {
         // NOTE: lock is needed only because we have to use cond variable
         UniqueLock lck(*cvLock);
@@ -161,8 +164,14 @@ void PendingEventInfo::wait(const int timeoutMs) {
             syncProcessed->wait(lck, [=]() { return (HsmEventStatus::PENDING != *transitionStatus); });
         }
 
-        HSM_TRACE_DEBUG("unlocked! transitionStatus=%d", SC2INT(*transitionStatus));
+        // condition variable unlocks mutex when waiting is finished
+        lck.lock();
+        status = *transitionStatus;
+
+        HSM_TRACE_DEBUG("unlocked! transitionStatus=%d", SC2INT(status));
     }
+
+    return status;
 }
 
 void PendingEventInfo::unlock(const HsmEventStatus status) {
@@ -170,7 +179,11 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
 
     if (true == isSync()) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
-        *transitionStatus = status;
+
+        {
+            LockGuard lck(*cvLock);
+            *transitionStatus = status;
+        }
 
         if (status != HsmEventStatus::PENDING) {
             syncProcessed->notify();
diff --git a/src/HsmImplTypes.hpp b/src/HsmImplTypes.hpp
index 18b3f70..6c15f1e 100644
--- a/src/HsmImplTypes.hpp
+++ b/src/HsmImplTypes.hpp
@@ -99,7 +99,7 @@ struct PendingEventInfo {
     void initLock();
     void releaseLock();
     bool isSync() const;
-    void wait(const int timeoutMs = HSM_WAIT_INDEFINITELY);
+    HsmEventStatus wait(const int timeoutMs = HSM_WAIT_INDEFINITELY);
     void unlock(const HsmEventStatus status);
     const VariantVector_t& getArgs() const;
 };
-- 
2.43.0


From d2ab1f2a805caddbbe5f9a55902ae9f61194974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 20/64] fix: release threads waiting for sync transitions when
 HSM is released

Events which were not processed before release() stayed in the queue, so transitionSync() without a timeout never returned.
---
 src/HsmImpl.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 319fd1d..ad4ee14 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -184,6 +184,17 @@ void HierarchicalStateMachine::Impl::release() {
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
     }
+
+    {
+        // no one is going to process remaining events anymore. release threads which are waiting for them
+        HSM_SYNC_EVENTS_QUEUE();
+
+        for (auto it = mPendingEvents.begin(); it != mPendingEvents.end(); ++it) {
+            it->releaseLock();
+        }
+
+        mPendingEvents.clear();
+    }
 }
 
 void HierarchicalStateMachine::Impl::registerFailedTransitionCallback(HsmTransitionFailedCallback_t onFailedTransition) {
@@ -426,20 +437,30 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
             eventInfo.initLock();
         }
 
+        bool wasAdded = false;
+
         {
             HSM_SYNC_EVENTS_QUEUE();
 
-            if (true == clearQueue) {
-                clearPendingEvents();
-            }
+            // new events can't be processed if HSM is already released
+            if (false == mStopDispatching.test()) {
+                if (true == clearQueue) {
+                    clearPendingEvents();
+                }
 
-            mPendingEvents.emplace_back(eventInfo);
+                mPendingEvents.emplace_back(eventInfo);
+                wasAdded = true;
+            }
         }
 
-        HSM_TRACE_DEBUG("transitionEx: emit");
-        dispatcherPtr->emitEvent(mEventsHandlerId);
+        if (true == wasAdded) {
+            HSM_TRACE_DEBUG("transitionEx: emit");
+            dispatcherPtr->emitEvent(mEventsHandlerId);
+        }
 
-        if (true == sync) {
+        if (false == wasAdded) {
+            HSM_TRACE_ERROR("HSM was released");
+        } else if (true == sync) {
             HSM_TRACE_DEBUG("transitionEx: wait...");
             status = (HsmEventStatus::DONE_OK == eventInfo.wait(timeoutMs));
         } else {
-- 
2.43.0


From e404ddd0bf254ed632875b6d3d829c6b3b413143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 21/64] fix: deadlock when STD dispatcher is stopped while
 timer event is being handled

stop() locked mEmitSync and then mHandlersSync, but timer handlers emit events (mEmitSync) while mHandlersSync is locked.
---
 src/HsmEventDispatcherSTD.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 01e2706..820f7f2 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -63,9 +63,13 @@ bool HsmEventDispatcherSTD::start() {
 
 void HsmEventDispatcherSTD::stop() {
     HSM_TRACE_CALL_DEBUG();
-    UniqueLock lck(mEmitSync);
 
-    HsmEventDispatcherBase::stop();
+    {
+        UniqueLock lck(mEmitSync);
+        HsmEventDispatcherBase::stop();
+    }
+
+    // NOTE: handlers must not be locked together with mEmitSync since timer handlers emit events while handlers are locked
     unregisterAllEventHandlers();
     notifyDispatcherAboutEvent();
     notifyTimersThread();
-- 
2.43.0


From 2e6c61f30eac8ce9ad9ac76bac4a8eb56ff971df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 22/64] fix: crash when the last reference to STD dispatcher is
 released by dispatcher's thread

HSM keeps dispatcher alive while it handles an event. If client released his reference at that moment dispatcher was destroyed from its own thread, which tried to join itself.
---
 include/hsmcpp/HsmEventDispatcherSTD.hpp |  1 +
 src/HsmEventDispatcherSTD.cpp            | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index 62f174f..2694ea8 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -107,6 +107,7 @@ protected:
 private:
     std::thread mDispatcherThread;
     std::thread mTimersThread;
+    bool mDeleteOnExit = false; // used only by dispatcher's thread
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
     ConditionVariable mTimerEvent;
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 820f7f2..8ddbbdc 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -33,8 +33,17 @@ std::shared_ptr<HsmEventDispatcherSTD> HsmEventDispatcherSTD::create(const size_
 }
 
 bool HsmEventDispatcherSTD::deleteSafe() {
-    // NOTE: just delete the instance. Calling destructor from any thread is safe
-    return true;
+    bool deleteNow = true;
+
+    // dispatcher's thread keeps a reference to dispatcher while handling events, so it could be the one releasing the last
+    // reference. Thread can't join itself, so instance will be deleted when thread finishes
+    if (mDispatcherThread.get_id() == std::this_thread::get_id()) {
+        mDeleteOnExit = true;
+        mDispatcherThread.detach();
+        deleteNow = false;
+    }
+
+    return deleteNow;
 }
 
 void HsmEventDispatcherSTD::emitEvent(const HandlerID_t handlerID) {
@@ -157,6 +166,11 @@ void HsmEventDispatcherSTD::doDispatching() {
     }
 
     HSM_TRACE_DEBUG("EXIT");
+
+    if (true == mDeleteOnExit) {
+        // NOLINTNEXTLINE(cppcoreguidelines-owning-memory): see deleteSafe()
+        delete this;
+    }
 }
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
-- 
2.43.0


From 6764fa36e931f8a488b5095c77ad3e402761eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 23/64] fix: deadlock when HSM is released from its own
 callback

release() waits for ongoing dispatching to finish and never returned if it was called by the thread which does this dispatching.
---
 include/hsmcpp/os/stl/AtomicFlag.hpp |  2 ++
 src/os/stl/AtomicFlag.cpp            | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/hsmcpp/os/stl/AtomicFlag.hpp b/include/hsmcpp/os/stl/AtomicFlag.hpp
index 1f447f8..16c76a6 100644
--- a/include/hsmcpp/os/stl/AtomicFlag.hpp
+++ b/include/hsmcpp/os/stl/AtomicFlag.hpp
@@ -4,6 +4,7 @@
 #define HSMCPP_OS_STL_ATOMICFLAG_HPP
 
 #include <atomic>
+#include <thread>
 
 #include "hsmcpp/os/UniqueLock.hpp"
 #include "hsmcpp/os/ConditionVariable.hpp"
@@ -30,6 +31,7 @@ private:
     Mutex mSync;
     ConditionVariable mWaitCond;
     std::atomic_bool mValue;
+    std::atomic<std::thread::id> mOwner;  // thread which set the flag
 };
 
 }  // namespace hsmcpp
diff --git a/src/os/stl/AtomicFlag.cpp b/src/os/stl/AtomicFlag.cpp
index 6e1654a..86378dd 100644
--- a/src/os/stl/AtomicFlag.cpp
+++ b/src/os/stl/AtomicFlag.cpp
@@ -8,13 +8,21 @@
 namespace hsmcpp {
 
 AtomicFlag::AtomicFlag()
-    : mValue(false) {}
+    : mValue(false)
+    , mOwner(std::thread::id()) {}
 
 bool AtomicFlag::test_and_set() noexcept {
-    return mValue.exchange(true);
+    const bool old = mValue.exchange(true);
+
+    if (false == old) {
+        mOwner.store(std::this_thread::get_id());
+    }
+
+    return old;
 }
 
 void AtomicFlag::clear() noexcept {
+    mOwner.store(std::thread::id());
     mValue.store(false);
 }
 
@@ -27,7 +35,8 @@ UniqueLock AtomicFlag::lock() noexcept {
 }
 
 void AtomicFlag::wait(const bool old) noexcept {
-    if (mValue.load() == old) {
+    // thread can't wait for itself
+    if ((mValue.load() == old) && (mOwner.load() != std::this_thread::get_id())) {
         UniqueLock lk(mSync);
 
         // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function, not parent function
-- 
2.43.0


From f54135154fe2ff299467d2c255693f66ffe59294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 24/64] fix: Arduino dispatcher must restart periodic timers

handleTimerEvent() returns an interval, so comparing it with true worked only for 1 ms timers. All other timers expired only once.
---
 src/HsmEventDispatcherArduino.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index c0c8bb3..bb18415 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -105,7 +105,7 @@ void HsmEventDispatcherArduino::handleTimers() {
 
         while (it != mRunningTimers.end()) {
             if (curTime >= it->second.elapseAfter) {
-                if (true == handleTimerEvent(it->first)) {
+                if (handleTimerEvent(it->first) > 0U) {
                     // fast way to check timer interval without searching the map
                     it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
                     it->second.startedAt = millis();
-- 
2.43.0


From 58f1a13c620c89088d65c0cdf50177ba4869fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 25/64] fix: result of sync transition must not be replaced
 with PENDING

---
 src/HsmImplTypes.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 1fc62fd..9bf715f 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -180,12 +180,14 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
     if (true == isSync()) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
 
-        {
-            LockGuard lck(*cvLock);
-            *transitionStatus = status;
-        }
-
+        // NOTE: several ongoing transitions could be started by the same event. result which was already reported must not be
+        //       replaced with PENDING because waiting thread might not have read it yet
         if (status != HsmEventStatus::PENDING) {
+            {
+                LockGuard lck(*cvLock);
+                *transitionStatus = status;
+            }
+
             syncProcessed->notify();
         }
     } else {
-- 
2.43.0


From 7e5d0f77cb487a4eb19ee7ec209504594e51fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 26/64] fix: GLib dispatcher must not lock or block when
 sending events

---
 include/hsmcpp/HsmEventDispatcherGLib.hpp |  2 +-
 src/HsmEventDispatcherGLib.cpp            | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLib.hpp b/include/hsmcpp/HsmEventDispatcherGLib.hpp
index ab6d441..b825987 100644
--- a/include/hsmcpp/HsmEventDispatcherGLib.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLib.hpp
@@ -8,6 +8,7 @@
 
 #include <condition_variable>
 #include <map>
+#include <mutex>
 
 #include "HsmEventDispatcherBase.hpp"
 
@@ -109,7 +110,6 @@ private:
     GMainContext* mContext = nullptr;
     GIOChannel* mReadChannel = nullptr;
     GSource* mIoSource = nullptr;
-    std::mutex mPipeSync;
     int mPipeFD[2] = {-1, -1};
     bool mDispatchingIterationRunning = false;
     std::mutex mDispatchingSync;
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 3f48bb2..475cfac 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -3,6 +3,7 @@
 
 #include "hsmcpp/HsmEventDispatcherGLib.hpp"
 
+#include <fcntl.h>
 #include <unistd.h>
 
 #include "hsmcpp/logging.hpp"
@@ -68,6 +69,8 @@ bool HsmEventDispatcherGLib::start() {
         int rc = pipe(mPipeFD);
 
         if (0 == rc) {
+            // writing must never block because events could be sent from dispatcher's thread
+            (void)fcntl(mPipeFD[1], F_SETFL, fcntl(mPipeFD[1], F_GETFL) | O_NONBLOCK);
             mReadChannel = g_io_channel_unix_new(mPipeFD[0]);
 
             if (nullptr != mReadChannel) {
@@ -210,12 +213,12 @@ void HsmEventDispatcherGLib::onFreeTimerData(void* timerData) {
 }
 
 void HsmEventDispatcherGLib::notifyDispatcherAboutEvent() {
-    std::lock_guard<std::mutex> lck(mPipeSync);
-    char dummy = 1;
+    // NOTE: could be called from an interrupt (signal), so it's not allowed to use locks here. writing a single byte is atomic
+    const char dummy = 1;
 
     // we just need to trigger the callback. there is no need to pass any real data there
-    // TODO: should we check for result?
-    write(mPipeFD[1], &dummy, sizeof(dummy));
+    // NOTE: write fails only if pipe is full, which means that there are already pending notifications
+    (void)write(mPipeFD[1], &dummy, sizeof(dummy));
 }
 
 gboolean HsmEventDispatcherGLib::onPipeDataAvailable(GIOChannel* gio, GIOCondition condition, gpointer data) {
-- 
2.43.0


From b01e47570db2a16b3849f3a22257d3aad9f9b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 27/64] fix: GLibmm dispatcher must not block when many events
 are sent from its thread

---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp |  3 +++
 src/HsmEventDispatcherGLibmm.cpp            | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index 3070855..fb01b0e 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -6,6 +6,7 @@
 
 #include <glibmm.h>
 
+#include <atomic>
 #include <memory>
 
 #include "HsmEventDispatcherBase.hpp"
@@ -106,11 +107,13 @@ protected:
     void stopTimerImpl(const TimerID_t timerID) override;
 
     void notifyDispatcherAboutEvent() override;
+    void onNotification();
     bool onTimerEvent(const TimerID_t timerID);
 
 private:
     Glib::RefPtr<Glib::MainContext> mMainContext;
     std::unique_ptr<Glib::Dispatcher> mDispatcher;
+    std::atomic<bool> mNotificationPending{false};
     sigc::connection mDispatcherConnection;
     std::map<TimerID_t, sigc::connection> mNativeTimerHandlers; // protected by mRunningTimersSync
 };
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 0c1081e..34ef052 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -80,7 +80,8 @@ bool HsmEventDispatcherGLibmm::start() {
             if (mDispatcher) {
                 if (mDispatcherConnection.connected() == false) {
                     mDispatcherConnection =
-                        mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::dispatchPendingEvents));
+                        mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onNotification));
+                    mNotificationPending = false;
                 }
 
                 result = true;
@@ -146,7 +147,17 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
-    mDispatcher->emit();
+    // NOTE: capacity of Glib::Dispatcher is limited and emit() blocks when it's exceeded, which leads to a deadlock if events are
+    //       sent from dispatcher's thread. there is no need to have more than one pending notification
+    if (false == mNotificationPending.exchange(true)) {
+        mDispatcher->emit();
+    }
+}
+
+void HsmEventDispatcherGLibmm::onNotification() {
+    // must be cleared before fetching pending events
+    mNotificationPending = false;
+    dispatchPendingEvents();
 }
 
 bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
-- 
2.43.0


From ee26a17168c97550c75fb4e9a705bac5b2cb9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 28/64] fix: restartTimer() must restart expired singleshot
 timers

---
 include/hsmcpp/HsmEventDispatcherBase.hpp |  1 +
 src/HsmEventDispatcherBase.cpp            | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 8a02144..4b52c17 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -32,6 +32,7 @@ protected:
         HandlerID_t handlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         unsigned int intervalMs = 0;
         bool isSingleShot = false;
+        bool isExpired = false;  // expired singleshot timers are kept because they can be restarted
     };
 
     struct EnqueuedEventInfo {
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 005194f..78b8257 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -166,6 +166,7 @@ void HsmEventDispatcherBase::startTimer(const HandlerID_t handlerID,
                 it->second.handlerID = handlerID;
                 it->second.intervalMs = intervalMs;
                 it->second.isSingleShot = isSingleShot;
+                it->second.isExpired = false;
 
                 // restart timer
                 stopTimerImpl(timerID);
@@ -192,6 +193,7 @@ void HsmEventDispatcherBase::restartTimer(const TimerID_t timerID) {
     auto it = mActiveTimers.find(timerID);
 
     if (mActiveTimers.end() != it) {
+        it->second.isExpired = false;
         stopTimerImpl(timerID);
         startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);
     }
@@ -212,8 +214,9 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
     LockGuard lck(mHandlersSync);
+    auto it = mActiveTimers.find(timerID);
 
-    return (mActiveTimers.find(timerID) != mActiveTimers.end());
+    return (mActiveTimers.end() != it) && (false == it->second.isExpired);
 }
 
 int HsmEventDispatcherBase::getNextHandlerID() {
@@ -271,7 +274,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEventLocked(const TimerID_t time
     if (INVALID_HSM_TIMER_ID != timerID) {
         auto itTimer = mActiveTimers.find(timerID);
 
-        if (mActiveTimers.end() != itTimer) {
+        if ((mActiveTimers.end() != itTimer) && (false == itTimer->second.isExpired)) {
             HSM_TRACE_DEBUG("curTimer.handlerID=%d", itTimer->second.handlerID);
 
             if (INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID) {
@@ -279,9 +282,9 @@ unsigned int HsmEventDispatcherBase::handleTimerEventLocked(const TimerID_t time
 
                 nextIntervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);
 
-                // Remove singleshot timer from active list
+                // singleshot timer is not running anymore
                 if (0u == nextIntervalMs) {
-                    mActiveTimers.erase(itTimer);
+                    itTimer->second.isExpired = true;
                 }
 
                 timerHandler(timerID);
-- 
2.43.0


From 10a41fd7f08e90bd6e7bc067fcaac2d0ef655954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 29/64] fix: Arduino timers must handle overflow of millis()

---
 include/hsmcpp/HsmEventDispatcherArduino.hpp |  4 ++--
 src/HsmEventDispatcherArduino.cpp            | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherArduino.hpp b/include/hsmcpp/HsmEventDispatcherArduino.hpp
index 44eb2e3..9deb984 100644
--- a/include/hsmcpp/HsmEventDispatcherArduino.hpp
+++ b/include/hsmcpp/HsmEventDispatcherArduino.hpp
@@ -19,8 +19,8 @@ namespace hsmcpp {
 class HsmEventDispatcherArduino : public HsmEventDispatcherBase {
 private:
     struct RunningTimerInfo {
-        unsigned long startedAt;    // monotonic time when timer was started (ms)
-        unsigned long elapseAfter;  // monotonic time when timer should elapse next time (ms)
+        unsigned long startedAt;   // monotonic time when timer was started (ms)
+        unsigned long intervalMs;  // timer should elapse when this time passes since startedAt (ms)
     };
 
 public:
diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index bb18415..09b9cca 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -76,7 +76,7 @@ void HsmEventDispatcherArduino::startTimerImpl(const TimerID_t timerID,
         RunningTimerInfo newTimer;
 
         newTimer.startedAt = millis();
-        newTimer.elapseAfter = newTimer.startedAt + intervalMs;
+        newTimer.intervalMs = intervalMs;
 
         {
             InterruptsFreeSection lck;
@@ -85,7 +85,7 @@ void HsmEventDispatcherArduino::startTimerImpl(const TimerID_t timerID,
     } else  // restart timer
     {
         it->second.startedAt = millis();
-        it->second.elapseAfter = it->second.startedAt + intervalMs;
+        it->second.intervalMs = intervalMs;
     }
 }
 
@@ -104,12 +104,10 @@ void HsmEventDispatcherArduino::handleTimers() {
         auto it = mRunningTimers.begin();
 
         while (it != mRunningTimers.end()) {
-            if (curTime >= it->second.elapseAfter) {
+            // NOTE: value returned by millis() overflows, so only the difference between two values can be used
+            if ((curTime - it->second.startedAt) >= it->second.intervalMs) {
                 if (handleTimerEvent(it->first) > 0U) {
-                    // fast way to check timer interval without searching the map
-                    it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
                     it->second.startedAt = millis();
-                    it->second.elapseAfter += it->second.startedAt;
                     ++it;
                 } else {
                     InterruptsFreeSection lck;
-- 
2.43.0


From fa554892d0d34e6f1367c31eb7c907d8bfc4aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 30/64] fix: GLib and GLibmm timers must not expire early when
 restarted by another thread

---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp | 11 +++++--
 src/HsmEventDispatcherGLib.cpp              | 34 +++++++++++++------
 src/HsmEventDispatcherGLibmm.cpp            | 36 ++++++++++++++-------
 3 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index fb01b0e..8c9e1f6 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -29,6 +29,12 @@ namespace hsmcpp {
  * See @rstref{platforms-dispatcher-glibmm} for details.
  */
 class HsmEventDispatcherGLibmm : public HsmEventDispatcherBase {
+private:
+    struct NativeTimerInfo {
+        sigc::connection connection;
+        unsigned int id = 0;
+    };
+
 public:
     /**
      * @brief Create dispatcher instance.
@@ -108,14 +114,15 @@ protected:
 
     void notifyDispatcherAboutEvent() override;
     void onNotification();
-    bool onTimerEvent(const TimerID_t timerID);
+    bool onTimerEvent(const TimerID_t timerID, const unsigned int nativeTimerID);
 
 private:
     Glib::RefPtr<Glib::MainContext> mMainContext;
     std::unique_ptr<Glib::Dispatcher> mDispatcher;
     std::atomic<bool> mNotificationPending{false};
     sigc::connection mDispatcherConnection;
-    std::map<TimerID_t, sigc::connection> mNativeTimerHandlers; // protected by mRunningTimersSync
+    std::map<TimerID_t, NativeTimerInfo> mNativeTimerHandlers; // protected by mRunningTimersSync
+    unsigned int mLastNativeTimerID = 0;                       // protected by mRunningTimersSync
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 475cfac..1b41b3e 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -8,6 +8,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -189,18 +190,31 @@ gboolean HsmEventDispatcherGLib::onTimerEvent(const TimerData_t* timerData) {
     bool restartTimer = false;
 
     if (nullptr != timerData) {
-        restartTimer = (timerData->first->handleTimerEvent(timerData->second) > 0);
+        HsmEventDispatcherGLib* pThis = timerData->first;
+        const GSource* currentSource = g_main_current_source();
+        bool isRunning = false;
+        // NOTE: timers can't be started or stopped while mHandlersSync is locked
+        LockGuard lckHandlers(pThis->mHandlersSync);
+
+        {
+            CriticalSection cs(pThis->mRunningTimersSync);
+            auto itTimer = pThis->mNativeTimerHandlers.find(timerData->second);
+
+            // timer could have been already stopped or restarted by another thread
+            isRunning = (pThis->mNativeTimerHandlers.end() != itTimer) && (currentSource == itTimer->second);
+        }
 
-        if (false == restartTimer) {
-            CriticalSection lckExpired(timerData->first->mRunningTimersSync);
-            auto itTimer = timerData->first->mNativeTimerHandlers.find(timerData->second);
+        if (true == isRunning) {
+            restartTimer = (pThis->handleTimerEventLocked(timerData->second) > 0);
 
-            if (timerData->first->mNativeTimerHandlers.end() != itTimer) {
-                g_source_unref(itTimer->second);
-                timerData->first->mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_DEF();
-                HSM_TRACE_ERROR("unexpected error. timer not found");
+            if (false == restartTimer) {
+                CriticalSection cs(pThis->mRunningTimersSync);
+                auto itTimer = pThis->mNativeTimerHandlers.find(timerData->second);
+
+                if (pThis->mNativeTimerHandlers.end() != itTimer) {
+                    g_source_unref(itTimer->second);
+                    pThis->mNativeTimerHandlers.erase(itTimer);
+                }
             }
         }
     }
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 34ef052..358edc1 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -7,6 +7,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -112,7 +113,7 @@ void HsmEventDispatcherGLibmm::unregisterAllTimerHandlers() {
     CriticalSection cs(mRunningTimersSync);
 
     for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
-        it->second.disconnect();
+        it->second.connection.disconnect();
     }
 
     mNativeTimerHandlers.clear();
@@ -127,9 +128,13 @@ void HsmEventDispatcherGLibmm::startTimerImpl(const TimerID_t timerID, const uns
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() == it) {
-        mNativeTimerHandlers[timerID] = mMainContext->signal_timeout().connect(
-            sigc::bind(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onTimerEvent), timerID),
+        NativeTimerInfo newTimer;
+
+        newTimer.id = ++mLastNativeTimerID;
+        newTimer.connection = mMainContext->signal_timeout().connect(
+            sigc::bind(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onTimerEvent), timerID, newTimer.id),
             intervalMs);
+        mNativeTimerHandlers[timerID] = newTimer;
     } else {
         HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
     }
@@ -141,7 +146,7 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() != it) {
-        it->second.disconnect();
+        it->second.connection.disconnect();
         mNativeTimerHandlers.erase(it);
     }
 }
@@ -160,18 +165,27 @@ void HsmEventDispatcherGLibmm::onNotification() {
     dispatchPendingEvents();
 }
 
-bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
+bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID, const unsigned int nativeTimerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
-    const bool restartTimer = (handleTimerEvent(timerID) > 0);
+    bool restartTimer = false;
+    bool isRunning = false;
+    // NOTE: timers can't be started or stopped while mHandlersSync is locked
+    LockGuard lckHandlers(mHandlersSync);
 
-    if (false == restartTimer) {
+    {
         CriticalSection cs(mRunningTimersSync);
         auto itTimer = mNativeTimerHandlers.find(timerID);
 
-        if (mNativeTimerHandlers.end() != itTimer) {
-            mNativeTimerHandlers.erase(itTimer);
-        } else {
-            HSM_TRACE_ERROR("unexpected error. timer not found");
+        // timer could have been already stopped or restarted by another thread
+        isRunning = (mNativeTimerHandlers.end() != itTimer) && (nativeTimerID == itTimer->second.id);
+    }
+
+    if (true == isRunning) {
+        restartTimer = (handleTimerEventLocked(timerID) > 0);
+
+        if (false == restartTimer) {
+            CriticalSection cs(mRunningTimersSync);
+            mNativeTimerHandlers.erase(timerID);
         }
     }
 
-- 
2.43.0


From 96aaf079331457842299d138c74074e4e2ec9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 31/64] fix: Qt timers started by another thread must be
 created once and not expire early

---
 include/hsmcpp/HsmEventDispatcherQt.hpp |  1 +
 src/HsmEventDispatcherQt.cpp            | 72 ++++++++++++++-----------
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherQt.hpp b/include/hsmcpp/HsmEventDispatcherQt.hpp
index d2bebef..815298a 100644
--- a/include/hsmcpp/HsmEventDispatcherQt.hpp
+++ b/include/hsmcpp/HsmEventDispatcherQt.hpp
@@ -56,6 +56,7 @@ protected:
 
     void startTimerImpl(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot) override;
     void stopTimerImpl(const TimerID_t timerID) override;
+    void createNativeTimer(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot);
 
 private slots:
     void onTimerEvent();
diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 083e85e..dad1cbd 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -10,6 +10,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -95,40 +96,41 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
                               SC2INT(timerID),
                               intervalMs,
                               BOOL2INT(isSingleShot));
-    auto it = mNativeTimerHandlers.find(timerID);
 
-    if (mNativeTimerHandlers.end() == it) {
-        auto funcCreateTimer = [=]() {
-            QTimer* newTimer = new QTimer(this);
+    // NOTE: need to make sure that QTimer is started only from Qt main thread
+    if (qApp->thread() != QThread::currentThread()) {
+        QTimer* mainthreadTimer = new QTimer();
 
-            newTimer->setProperty("hsmid", QVariant(timerID));
-            connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
-            newTimer->setSingleShot(isSingleShot);
-            newTimer->start(intervalMs);
+        mainthreadTimer->moveToThread(qApp->thread());
+        mainthreadTimer->setSingleShot(true);
 
-            CriticalSection cs(mRunningTimersSync);
-            mNativeTimerHandlers[timerID] = newTimer;
-        };
+        QObject::connect(mainthreadTimer, &QTimer::timeout, this, [this, timerID]() {
+            LockGuard lckHandlers(mHandlersSync);
+            auto itTimer = mActiveTimers.find(timerID);
 
-        // NOTE: need to make sure that QTimer is started only from Qt main thread
-        QThread* callerThread = QThread::currentThread();
+            // timer could have been already stopped or restarted with other arguments
+            if ((mActiveTimers.end() != itTimer) && (false == itTimer->second.isExpired) && (false == mStopDispatcher.test())) {
+                createNativeTimer(timerID, itTimer->second.intervalMs, itTimer->second.isSingleShot);
+            }
+        });
+        QObject::connect(mainthreadTimer, &QTimer::timeout, mainthreadTimer, &QObject::deleteLater);
+        QMetaObject::invokeMethod(mainthreadTimer, "start", Qt::QueuedConnection, Q_ARG(int, 0));
+    } else {
+        createNativeTimer(timerID, intervalMs, isSingleShot);
+    }
+}
 
-        if (qApp->thread() != callerThread) {
-            QTimer* mainthreadTimer = new QTimer();
+void HsmEventDispatcherQt::createNativeTimer(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot) {
+    CriticalSection cs(mRunningTimersSync);
 
-            mainthreadTimer->moveToThread(qApp->thread());
-            mainthreadTimer->setSingleShot(true);
+    if (mNativeTimerHandlers.end() == mNativeTimerHandlers.find(timerID)) {
+        QTimer* newTimer = new QTimer(this);
 
-            QObject::connect(mainthreadTimer, &QTimer::timeout, [=]() {
-                funcCreateTimer();
-                mainthreadTimer->deleteLater();
-            });
-            QMetaObject::invokeMethod(mainthreadTimer, "start", Qt::QueuedConnection, Q_ARG(int, 0));
-        } else {
-            funcCreateTimer();
-        }
-    } else {
-        HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
+        newTimer->setProperty("hsmid", QVariant(timerID));
+        connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
+        newTimer->setSingleShot(isSingleShot);
+        newTimer->start(intervalMs);
+        mNativeTimerHandlers[timerID] = newTimer;
     }
 }
 
@@ -151,7 +153,19 @@ void HsmEventDispatcherQt::onTimerEvent() {
 
         HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
 
-        if (0 == handleTimerEvent(timerID)) {
+        bool isRunning = false;
+        // NOTE: timers can't be started or stopped while mHandlersSync is locked
+        LockGuard lckHandlers(mHandlersSync);
+
+        {
+            CriticalSection cs(mRunningTimersSync);
+            auto itTimer = mNativeTimerHandlers.find(timerID);
+
+            // timer could have been already stopped or restarted by another thread
+            isRunning = (mNativeTimerHandlers.end() != itTimer) && (ptrTimer == itTimer->second);
+        }
+
+        if ((true == isRunning) && (0 == handleTimerEventLocked(timerID))) {
             // delete timer since it doesn't need to be restarted
             CriticalSection cs(mRunningTimersSync);
             auto itTimer = mNativeTimerHandlers.find(timerID);
@@ -159,8 +173,6 @@ void HsmEventDispatcherQt::onTimerEvent() {
             if (mNativeTimerHandlers.end() != itTimer) {
                 itTimer->second->deleteLater();
                 mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_ERROR("unexpected error. timer not found");
             }
         }
     }
-- 
2.43.0


From 194901b2c56eb6fef29b1317a2949e27354ca0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:20 +0000
Subject: [PATCH 32/64] fix: data race when HSM is released while other threads
 are using it

---
 src/HsmImpl.cpp | 45 ++++++++++++++++++++++++++++-----------------
 src/HsmImpl.hpp |  4 +++-
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index ad4ee14..239f205 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -96,7 +96,7 @@ void HierarchicalStateMachine::Impl::resetParent() {
 }
 
 void HierarchicalStateMachine::Impl::setInitialState(const StateID_t initialState) {
-    if (true == mDispatcher.expired()) {
+    if (false == isInitialized()) {
         mInitialState = initialState;
     }
 }
@@ -105,7 +105,7 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
     HSM_TRACE_CALL_DEBUG();
     bool result = false;
 
-    if (true == mDispatcher.expired()) {
+    if (false == isInitialized()) {
         auto dispatcherPtr = dispatcher.lock();
 
         // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -122,6 +122,7 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
 
                 if (false == ptrInstance.expired()) {
                     mDispatcher = dispatcher;
+                    mIsReleased.clear();
 
                     createEventHandler(dispatcherPtr, ptrInstance);
                     createTimerHandler(dispatcherPtr, ptrInstance);
@@ -158,11 +159,11 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
 }
 
 std::weak_ptr<IHsmEventDispatcher> HierarchicalStateMachine::Impl::dispatcher() const {
-    return mDispatcher;
+    return lockDispatcher();
 }
 
 bool HierarchicalStateMachine::Impl::isInitialized() const {
-    return (false == mDispatcher.expired());
+    return (false == mIsReleased.test()) && (false == mDispatcher.expired());
 }
 
 void HierarchicalStateMachine::Impl::release() {
@@ -171,15 +172,15 @@ void HierarchicalStateMachine::Impl::release() {
 
     disableHsmDebugging();
 
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
-        mDispatcher.reset();
-        mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
+        // NOTE: dispatcher and handler IDs must not be modified since they could be used by another thread
+        (void)mIsReleased.test_and_set();
 
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
@@ -424,7 +425,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
                               args.size());
 
     bool status = false;
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -478,7 +479,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
 bool HierarchicalStateMachine::Impl::transitionInterruptSafe(const EventID_t event) {
     bool res = false;
     // TODO: this part needs testing with real interrupts. Not sure if it's safe to use weak_ptr.lock()
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -507,7 +508,7 @@ bool HierarchicalStateMachine::Impl::isTransitionPossible(const EventID_t event,
 void HierarchicalStateMachine::Impl::startTimer(const TimerID_t timerID,
                                                 const unsigned int intervalMs,
                                                 const bool isSingleShot) {
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -516,7 +517,7 @@ void HierarchicalStateMachine::Impl::startTimer(const TimerID_t timerID,
 }
 
 void HierarchicalStateMachine::Impl::restartTimer(const TimerID_t timerID) {
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -525,7 +526,7 @@ void HierarchicalStateMachine::Impl::restartTimer(const TimerID_t timerID) {
 }
 
 void HierarchicalStateMachine::Impl::stopTimer(const TimerID_t timerID) {
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -535,7 +536,7 @@ void HierarchicalStateMachine::Impl::stopTimer(const TimerID_t timerID) {
 
 bool HierarchicalStateMachine::Impl::isTimerRunning(const TimerID_t timerID) {
     bool running = false;
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -548,6 +549,16 @@ bool HierarchicalStateMachine::Impl::isTimerRunning(const TimerID_t timerID) {
 // ============================================================================
 // PRIVATE
 // ============================================================================
+std::shared_ptr<IHsmEventDispatcher> HierarchicalStateMachine::Impl::lockDispatcher() const {
+    std::shared_ptr<IHsmEventDispatcher> dispatcherPtr;
+
+    if (false == mIsReleased.test()) {
+        dispatcherPtr = mDispatcher.lock();
+    }
+
+    return dispatcherPtr;
+}
+
 void HierarchicalStateMachine::Impl::createEventHandler(const std::shared_ptr<IHsmEventDispatcher>& dispatcherPtr,
                                                         const std::weak_ptr<HierarchicalStateMachine::Impl>& ptrInstance) {
     // cppcheck-suppress misra-c2012-13.1 ; false-positive. this is a functor, not initializer list
@@ -608,7 +619,7 @@ void HierarchicalStateMachine::Impl::createEnqueuedEventHandler(
 
 void HierarchicalStateMachine::Impl::handleStartup() {
     HSM_TRACE_CALL_DEBUG_ARGS("mActiveStates.size=%ld", mActiveStates.size());
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -657,7 +668,7 @@ void HierarchicalStateMachine::Impl::transitionSimple(const EventID_t event) {
 
 void HierarchicalStateMachine::Impl::dispatchEvents() {
     HSM_TRACE_CALL_DEBUG_ARGS("mPendingEvents.size=%ld", mPendingEvents.size());
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr && (false == mIsDispatching.test_and_set())) {
@@ -769,7 +780,7 @@ void HierarchicalStateMachine::Impl::onStateChanged(const StateID_t state, const
 
 void HierarchicalStateMachine::Impl::executeStateAction(const StateID_t state, const StateActionTrigger actionTrigger) {
     HSM_TRACE_CALL_DEBUG_ARGS("state=<%s>, actionTrigger=%d", getStateName(state).c_str(), SC2INT(actionTrigger));
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = lockDispatcher();
     auto itRange = mRegisteredActions.equal_range(std::make_pair(state, actionTrigger));
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -1142,7 +1153,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
         }
 
         // stop processing other events if HSM was released
-        if (true == mDispatcher.expired()) {
+        if (false == isInitialized()) {
             res = HsmEventStatus::DONE_FAILED;
             break;
         }
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index e6cd58f..4b79660 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -95,6 +95,7 @@ public:
     void disableHsmDebugging();
 
 private:
+    std::shared_ptr<IHsmEventDispatcher> lockDispatcher() const;
     void createEventHandler(const std::shared_ptr<IHsmEventDispatcher>& dispatcherPtr, const std::weak_ptr<Impl>& ptrInstance);
     void createTimerHandler(const std::shared_ptr<IHsmEventDispatcher>& dispatcherPtr, const std::weak_ptr<Impl>& ptrInstance);
     void createEnqueuedEventHandler(const std::shared_ptr<IHsmEventDispatcher>& dispatcherPtr,
@@ -194,11 +195,12 @@ private:
 
 private:
     HierarchicalStateMachine* mParent = nullptr;
-    std::weak_ptr<IHsmEventDispatcher> mDispatcher;  // protected by mParentSync
+    std::weak_ptr<IHsmEventDispatcher> mDispatcher;  // not modified after initialize()
     HandlerID_t mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     HandlerID_t mEnqueuedEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     HandlerID_t mTimerHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     AtomicFlag mStopDispatching;
+    AtomicFlag mIsReleased;
 
     HsmTransitionFailedCallback_t mFailedTransitionCallback;
 
-- 
2.43.0


From 72ac8d8e5f62572b90004e9c4f57ee1eb54c3fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 33/64] fix: handlers must not be called after they were
 unregistered

Pending events were dispatched to a copy of the handlers list, so handlers
which were unregistered by one of the previous callbacks were still called.
---
 src/HsmEventDispatcherBase.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 78b8257..fe90451 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -303,8 +303,6 @@ bool HsmEventDispatcherBase::hasEnqueuedEvents() {
 
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
     if (false == mStopDispatcher.test()) {
-        HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
-        EnqueuedEventHandlerFunc_t callback;
         std::vector<EnqueuedEventInfo> currentEvents;
 
         {
@@ -317,11 +315,11 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
 
         // need to traverse events in reverse order
         for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher.test()); ++it) {
-            if (prevHandlerID != it->handlerID) {
-                LockGuard lck(mHandlersSync);
+            EnqueuedEventHandlerFunc_t callback;
 
+            {
+                LockGuard lck(mHandlersSync);
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
-                prevHandlerID = it->handlerID;
             }
 
             // handler could have been already unregistered
@@ -374,8 +372,15 @@ void HsmEventDispatcherBase::dispatchPendingEventsImpl(const std::list<HandlerID
 
         for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher.test()); ++it) {
             auto itHandler = eventHandlersCopy.find(*it);
+            bool isRegistered = false;
+
+            {
+                // handler could have been unregistered by one of the previous callbacks
+                LockGuard lck(mHandlersSync);
+                isRegistered = (mEventHandlers.find(*it) != mEventHandlers.end());
+            }
 
-            if (itHandler != eventHandlersCopy.end()) {
+            if ((true == isRegistered) && (itHandler != eventHandlersCopy.end())) {
                 // NOTE: if callback returns FALSE it means the handler doesn't want to process more events
                 if (false == itHandler->second()) {
                     eventHandlersCopy.erase(itHandler);
-- 
2.43.0


From c3098b1f14427d3c12b146368ccfcf35e3c0d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:16 +0000
Subject: [PATCH 34/64] fix: STD dispatcher must not deadlock or miss events
 sent from signal handlers

Condition variables can not be used from signal handlers: handler could
interrupt notify() which is holding an internal lock, and events sent between
the check of queues and wait() did not wake up the dispatcher.
---
 include/hsmcpp/HsmEventDispatcherSTD.hpp | 14 +++++++
 src/HsmEventDispatcherSTD.cpp            | 49 ++++++++++++++++++------
 2 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index 2694ea8..ca7ba76 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -11,6 +11,14 @@
 #include "HsmEventDispatcherBase.hpp"
 #include "os/ConditionVariable.hpp"
 
+// NOTE: condition variables can't be used from signal handlers. unnamed semaphores are not available on macOS
+#if defined(POSIX_AVAILABLE) && !defined(__APPLE__)
+  #include <semaphore.h>
+
+  #include <atomic>
+  #define HSM_DISPATCHER_STD_USE_SEMAPHORE
+#endif
+
 namespace hsmcpp {
 
 /**
@@ -99,6 +107,7 @@ protected:
 
     void notifyDispatcherAboutEvent() override;
     void doDispatching();
+    void waitForEvents();
 
     void notifyTimersThread();
     void handleTimers();
@@ -108,8 +117,13 @@ private:
     std::thread mDispatcherThread;
     std::thread mTimersThread;
     bool mDeleteOnExit = false; // used only by dispatcher's thread
+#ifdef HSM_DISPATCHER_STD_USE_SEMAPHORE
+    sem_t mEmitEvent;
+    std::atomic<bool> mEmitEventPending{false};
+#else
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
+#endif
     ConditionVariable mTimerEvent;
     Mutex mTimerEventSync;
     bool mNotifiedTimersThread = false; // protected by mTimerEventSync
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 8ddbbdc..82addd0 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -4,6 +4,7 @@
 #include "hsmcpp/HsmEventDispatcherSTD.hpp"
 
 #include <algorithm>
+#include <cerrno>
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
@@ -18,6 +19,9 @@ HsmEventDispatcherSTD::HsmEventDispatcherSTD(const size_t eventsCacheSize)
     // cppcheck-suppress misra-c2012-10.4 ; false-positive. thinks that ':' is arithmetic operation
     : HsmEventDispatcherBase(eventsCacheSize) {
     HSM_TRACE_CALL_DEBUG();
+#ifdef HSM_DISPATCHER_STD_USE_SEMAPHORE
+    (void)sem_init(&mEmitEvent, 0, 0);
+#endif
 }
 
 HsmEventDispatcherSTD::~HsmEventDispatcherSTD() {
@@ -25,6 +29,9 @@ HsmEventDispatcherSTD::~HsmEventDispatcherSTD() {
 
     HsmEventDispatcherSTD::stop();
     join();
+#ifdef HSM_DISPATCHER_STD_USE_SEMAPHORE
+    (void)sem_destroy(&mEmitEvent);
+#endif
 }
 
 std::shared_ptr<HsmEventDispatcherSTD> HsmEventDispatcherSTD::create(const size_t eventsCacheSize) {
@@ -141,7 +148,37 @@ void HsmEventDispatcherSTD::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {
+#ifdef HSM_DISPATCHER_STD_USE_SEMAPHORE
+    // NOTE: could be called from a signal handler which interrupted any other function of the dispatcher
+    if (false == mEmitEventPending.exchange(true)) {
+        (void)sem_post(&mEmitEvent);
+    }
+#else
     mEmitEvent.notify();
+#endif
+}
+
+void HsmEventDispatcherSTD::waitForEvents() {
+    HSM_TRACE_DEBUG("wait for emit...");
+#ifdef HSM_DISPATCHER_STD_USE_SEMAPHORE
+    while ((0 != sem_wait(&mEmitEvent)) && (EINTR == errno)) {
+        // interrupted by a signal handler
+    }
+
+    // must be cleared before fetching pending events
+    (void)mEmitEventPending.exchange(false);
+#else
+    UniqueLock lck(mEmitSync);
+
+    // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
+    //       "return" statement belogs to a lamda function, not waitForEvents.
+    // cppcheck-suppress misra-c2012-15.5
+    mEmitEvent.wait(lck, [=]() {
+        // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+        return (false == mPendingEvents.empty()) || (false == mPendingActions.empty()) || (true == hasEnqueuedEvents()) ||
+               (true == mStopDispatcher.test());
+    });
+#endif
 }
 
 void HsmEventDispatcherSTD::doDispatching() {
@@ -151,17 +188,7 @@ void HsmEventDispatcherSTD::doDispatching() {
         HsmEventDispatcherBase::dispatchPendingEvents();
 
         if (false == mStopDispatcher.test()) {
-            UniqueLock lck(mEmitSync);
-
-            HSM_TRACE_DEBUG("wait for emit...");
-            // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-            //       "return" statement belogs to a lamda function, not doDispatching.
-            // cppcheck-suppress misra-c2012-15.5
-            mEmitEvent.wait(lck, [=]() {
-                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                return (false == mPendingEvents.empty()) || (false == mPendingActions.empty()) ||
-                       (true == hasEnqueuedEvents()) || (true == mStopDispatcher.test());
-            });
+            waitForEvents();
         }
     }
 
-- 
2.43.0


From 24691cf6a0a4a103f4a0c55cb7dad38437d09d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:16 +0000
Subject: [PATCH 35/64] fix: data race when timers are started while STD
 dispatcher is being joined

---
 src/HsmEventDispatcherSTD.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 82addd0..51b9f61 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -98,8 +98,16 @@ void HsmEventDispatcherSTD::join() {
         mDispatcherThread.join();
     }
 
-    if (true == mTimersThread.joinable()) {
-        mTimersThread.join();
+    std::thread timersThread;
+
+    {
+        // NOTE: timers thread could be created by another thread. must not be locked while waiting for the thread to finish
+        LockGuard lck(mHandlersSync);
+        timersThread.swap(mTimersThread);
+    }
+
+    if (true == timersThread.joinable()) {
+        timersThread.join();
     }
 }
 
-- 
2.43.0


From b7974f67a7d7bbf8c0101d28a84f9eb0e88987cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:37 +0000
Subject: [PATCH 36/64] fix: crash when events are enqueued before GLibmm
 dispatcher is started

---
 src/HsmEventDispatcherGLibmm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 358edc1..3043def 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -83,6 +83,8 @@ bool HsmEventDispatcherGLibmm::start() {
                     mDispatcherConnection =
                         mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onNotification));
                     mNotificationPending = false;
+                    // handle everything what was enqueued before dispatcher was started
+                    notifyDispatcherAboutEvent();
                 }
 
                 result = true;
@@ -154,7 +156,8 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
     // NOTE: capacity of Glib::Dispatcher is limited and emit() blocks when it's exceeded, which leads to a deadlock if events are
     //       sent from dispatcher's thread. there is no need to have more than one pending notification
-    if (false == mNotificationPending.exchange(true)) {
+    // NOTE: there is nobody to notify if dispatcher is not running
+    if (mDispatcher && (false == mNotificationPending.exchange(true))) {
         mDispatcher->emit();
     }
 }
-- 
2.43.0


From 09e24466563e69d7114f29a08898ba1a8b699a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 37/64] fix: GLib dispatcher must not close its pipe while
 other threads could be writing to it

---
 src/HsmEventDispatcherGLib.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 1b41b3e..9d6e6ae 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -29,6 +29,13 @@ HsmEventDispatcherGLib::~HsmEventDispatcherGLib() {
     HSM_TRACE_CALL();
 
     HsmEventDispatcherGLib::stop();
+
+    if ((-1) != mPipeFD[0]) {
+        close(mPipeFD[0]);
+        close(mPipeFD[1]);
+        mPipeFD[0] = -1;
+        mPipeFD[1] = -1;
+    }
 }
 
 std::shared_ptr<HsmEventDispatcherGLib> HsmEventDispatcherGLib::create(const size_t eventsCacheSize) {
@@ -66,8 +73,9 @@ bool HsmEventDispatcherGLib::start() {
     bool result = false;
 
     // check if dispatcher was already started
-    if ((-1) == mPipeFD[0]) {
-        int rc = pipe(mPipeFD);
+    if (nullptr == mIoSource) {
+        // pipe is still available if dispatcher was stopped
+        int rc = ((-1) == mPipeFD[0]) ? pipe(mPipeFD) : 0;
 
         if (0 == rc) {
             // writing must never block because events could be sent from dispatcher's thread
@@ -96,13 +104,6 @@ bool HsmEventDispatcherGLib::start() {
                 g_io_channel_unref(mReadChannel);
                 mReadChannel = nullptr;
             }
-
-            if ((-1) == mPipeFD[0]) {
-                close(mPipeFD[0]);
-                close(mPipeFD[1]);
-                mPipeFD[0] = -1;
-                mPipeFD[1] = -1;
-            }
         }
     } else {
         result = true;
@@ -125,11 +126,9 @@ void HsmEventDispatcherGLib::stop() {
     if (nullptr != mReadChannel) {
         g_io_channel_unref(mReadChannel);
         mReadChannel = nullptr;
-        close(mPipeFD[0]);
-        close(mPipeFD[1]);
-        mPipeFD[0] = -1;
-        mPipeFD[1] = -1;
     }
+
+    // NOTE: pipe will be closed in destructor because other threads could still be writing to it
 }
 
 void HsmEventDispatcherGLib::emitEvent(const HandlerID_t handlerID) {
-- 
2.43.0


From 3c4385bb33a68c72a8cfddf24790fff062c63916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 38/64] fix: keep value alive when assigning a part of variant
 to the same variant

---
 include/hsmcpp/variant.hpp | 4 +++-
 src/variant.cpp            | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 41697c8..7f939ea 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -864,7 +864,9 @@ Variant::Variant(const T& v, const Type t) {
 
 template <typename T>
 void Variant::assign(const T& v, const Type t) {
-    freeMemory();
+    // NOTE: v could be a part of the current value. keep it alive until it is copied
+    const std::shared_ptr<void> prevData = data;
+
     createMemoryAllocator<T>();
     type = t;
     data = memoryAllocator(&v);
diff --git a/src/variant.cpp b/src/variant.cpp
index a249742..4305775 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -131,6 +131,9 @@ Variant& Variant::operator=(const char* v) {
 Variant& Variant::operator=(const Variant& v) {
     if (false == isSameObject(v)) {
         if ((Type::UNKNOWN != v.type) && (v.memoryAllocator)) {
+            // NOTE: v could be a part of the current value. keep it alive until everything is copied
+            const std::shared_ptr<void> prevData = data;
+
             data = v.memoryAllocator(v.data.get());
             type = v.type;
             memoryAllocator = v.memoryAllocator;
@@ -145,6 +148,9 @@ Variant& Variant::operator=(const Variant& v) {
 
 Variant& Variant::operator=(Variant&& v) noexcept {
     if (false == isSameObject(v)) {
+        // NOTE: v could be a part of the current value. keep it alive until everything is moved
+        const std::shared_ptr<void> prevData = data;
+
         data = std::move(v.data);
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
-- 
2.43.0


From 6e5ffe6ac35288118bed5e14cce685003d54e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 39/64] fix: undefined behaviour when converting double values
 which don't fit into integers

---
 src/variant.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 4305775..5d1f275 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -3,7 +3,9 @@
 
 #include "hsmcpp/variant.hpp"
 
+#include <cmath>
 #include <cstring>
+#include <limits>
 
 #include "hsmcpp/os/os.hpp"
 
@@ -33,6 +35,22 @@
 
 namespace hsmcpp {
 
+// converts the integral part of a value. returns 0 if it can't be represented by the target type
+template <typename T>
+static T doubleToInteger(const double value) {
+    // both limits can be represented by double without rounding
+    constexpr double lowerLimit = static_cast<double>(std::numeric_limits<T>::min());
+    const double upperLimit = std::ldexp(1.0, std::numeric_limits<T>::digits);
+    const double integralValue = std::trunc(value);
+    T result = 0;
+
+    if ((integralValue >= lowerLimit) && (integralValue < upperLimit)) {
+        result = static_cast<T>(integralValue);
+    }
+
+    return result;
+}
+
 // =================================================================================================================
 // make()
 IMPL_MAKE(int8_t)
@@ -473,7 +491,7 @@ int64_t Variant::toInt64() const {
             break;
 
         case Type::DOUBLE:
-            result = static_cast<int64_t>(*value<double>());
+            result = doubleToInteger<int64_t>(*value<double>());
             break;
 
         case Type::BOOL:
@@ -532,7 +550,7 @@ uint64_t Variant::toUInt64() const {
             break;
 
         case Type::DOUBLE:
-            result = static_cast<uint64_t>(*value<double>());
+            result = doubleToInteger<uint64_t>(*value<double>());
             break;
 
         case Type::BOOL:
@@ -637,6 +655,8 @@ bool Variant::toBool() const {
         } else {
             result = true;
         }
+    } else if (Type::DOUBLE == type) {
+        result = (std::abs(*value<double>()) >= 1.0);
     } else {
         result = (0 != toInt64());
     }
-- 
2.43.0


From 45728591cebb583337d0c5cd52aa38ae6617ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 40/64] fix: negative integers must not be equal to or greater
 than unsigned values

---
 include/hsmcpp/variant.hpp | 2 ++
 src/variant.cpp            | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 7f939ea..c551f43 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -659,6 +659,8 @@ private:
 
     bool isSameObject(const Variant& val) const;
 
+    bool isNegativeInteger() const;
+
     template <typename T>
     void assign(const T& v, const Type t);
 
diff --git a/src/variant.cpp b/src/variant.cpp
index 5d1f275..757d7e2 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -196,6 +196,8 @@ bool Variant::operator>(const Variant& val) const {
         if (isNumeric() && val.isNumeric()) {
             if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
                 isGreater = toDouble() > val.toDouble();
+            } else if (isNegativeInteger() != val.isNegativeInteger()) {
+                isGreater = val.isNegativeInteger();
             } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
                 isGreater = toUInt64() > val.toUInt64();
             } else {
@@ -234,6 +236,8 @@ bool Variant::operator==(const Variant& val) const {
                     // compare with precision for double
                     // cppcheck-suppress misra-c2012-10.4 : false positive. both operands have type double
                     equal = (std::abs(toDouble() - val.toDouble()) < comparePrecision);
+                } else if (isNegativeInteger() != val.isNegativeInteger()) {
+                    equal = false;
                 } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
                     equal = (toUInt64() == val.toUInt64());
                 } else {
@@ -804,6 +808,10 @@ bool Variant::isSameObject(const Variant& val) const {
     return ((val.data.get() == data.get()) && data);
 }
 
+bool Variant::isNegativeInteger() const {
+    return (isSignedNumeric() && (Type::DOUBLE != type) && (toInt64() < 0));
+}
+
 void Variant::freeMemory() {
     data.reset();
     type = Type::UNKNOWN;
-- 
2.43.0


From 40d9b27228e4e7a64057b012dd182ad3375f1ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 41/64] fix: equality of infinite doubles and values within
 compare precision

---
 src/variant.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 757d7e2..1520f51 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -195,7 +195,7 @@ bool Variant::operator>(const Variant& val) const {
     if ((data != val.data) && (data) && (val.data)) {
         if (isNumeric() && val.isNumeric()) {
             if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
-                isGreater = toDouble() > val.toDouble();
+                isGreater = (*this != val) && (toDouble() > val.toDouble());
             } else if (isNegativeInteger() != val.isNegativeInteger()) {
                 isGreater = val.isNegativeInteger();
             } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
@@ -233,9 +233,12 @@ bool Variant::operator==(const Variant& val) const {
         if ((data) && (val.data)) {
             if (isNumeric() && val.isNumeric()) {
                 if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
-                    // compare with precision for double
+                    const double left = toDouble();
+                    const double right = val.toDouble();
+
+                    // compare with precision for double (difference of infinite values is not a number)
                     // cppcheck-suppress misra-c2012-10.4 : false positive. both operands have type double
-                    equal = (std::abs(toDouble() - val.toDouble()) < comparePrecision);
+                    equal = ((left == right) || (std::abs(left - right) < comparePrecision));
                 } else if (isNegativeInteger() != val.isNegativeInteger()) {
                     equal = false;
                 } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
-- 
2.43.0


From a019a1e4162f156ae6310e445e705cae057e5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 42/64] fix: operator< of variants must be a strict order

---
 include/hsmcpp/variant.hpp |  5 +++--
 src/variant.cpp            | 13 +++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index c551f43..116c85e 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -635,7 +635,8 @@ public:
 
     /**
      * @brief Checks if this Variant object is less than another Variant object.
-     * @details Impelemented using operator!=() and operator>().
+     * @details Values of the same type (or numeric values) are compared using operator>(). Values of different types are ordered by
+     * their type, which allows to use them as keys.
      *
      * @param val The Variant object to compare to.
      * @return true if this object is less than val, false otherwise.
@@ -644,7 +645,7 @@ public:
 
     /**
      * @brief Checks if this Variant object is less than or equal to another Variant object.
-     * @details Impelemented using operator==() and operator>().
+     * @details Impelemented using operator==() and operator<().
      *
      * @param val The Variant object to compare to.
      * @return true if this object is less than or equal to val, false otherwise.
diff --git a/src/variant.cpp b/src/variant.cpp
index 1520f51..1420c0d 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -218,11 +218,20 @@ bool Variant::operator>=(const Variant& val) const {
 }
 
 bool Variant::operator<(const Variant& val) const {
-    return (*this != val) && !(*this > val);
+    bool isLess = false;
+
+    if ((type == val.type) || (isNumeric() && val.isNumeric())) {
+        isLess = (val > *this);
+    } else {
+        // different types are not comparable, but must be ordered to be used as keys
+        isLess = (type < val.type);
+    }
+
+    return isLess;
 }
 
 bool Variant::operator<=(const Variant& val) const {
-    return (*this == val) || !(*this > val);
+    return (*this == val) || (*this < val);
 }
 
 bool Variant::operator==(const Variant& val) const {
-- 
2.43.0


From c3ae58dd34b503a5c21d3859062360e262a4711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 43/64] fix: scxml2gen generates invalid code for default
 history transitions

---
 tools/scxml2gen/scxml2gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index aaa3a73..4f1c31b 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -575,12 +575,12 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
 
                             if ('transitions' in curSubstate) and (len(curSubstate['transitions']) > 0):
                                 defaultTransition = curSubstate['transitions'][0]
-                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])})"
+                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])}"
                                 if 'callback' in defaultTransition:
                                     if defaultTransition['callback'] not in definedCallbacks:
                                         genVars["HSM_TRANSITION_ACTIONS"].add(prepareHsmcppTransitionCallbackDeclaration(defaultTransition['callback']))
                                         definedCallbacks.append(defaultTransition['callback'])
-                                    historyCallback += f", &{genVars['CLASS_NAME']}::{defaultTransition['callback']}"
+                                    historyCallback += f", this, {prepareTransitionCallbackPtr(defaultTransition['callback'])}"
 
                             genVars["REGISTER_SUBSTATES"].append(f"registerHistory({getStateEnumValue(genVars, curState['id'])}, " +
                                                                  f"{getStateEnumValue(genVars, curSubstate['id'])}, " +
-- 
2.43.0


From 6b81a8649420e89e112a0498982999199ae34d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 44/64] fix: scxml2gen fails to process xi:include on the top
 level

---
 tools/scxml2gen/scxml2gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 4f1c31b..661daf5 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -203,7 +203,9 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         print(f"-- INCLUDE: {includePath}")
 
                         # add prefix only if xi:include is wrapped inside a state with no other items inside
-                        if ('id' in parentElement.attrib) and (xmlFind(parentElement, "state") is None) and (len(list(xmlFindAll(parentElement, "include"))) == 1):
+                        if 'id' not in parentElement.attrib:
+                            print("WARNING: xi:include is used on the top level. State names will not be prefixed")
+                        elif (xmlFind(parentElement, "state") is None) and (len(list(xmlFindAll(parentElement, "include"))) == 1):
                             newPrefix += parentElement.attrib['id'] + "__"
                         else:
                             print(f"WARNING: parent state({parentElement.attrib['id']}) of xi:include has other child states. State names will not be prefixed")
-- 
2.43.0


From d6c85bf440a9c3af20e507ea71412dffec12b438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 45/64] fix: scxml2gen must declare events which are used only
 by final states or state actions

---
 tools/scxml2gen/scxml2gen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 661daf5..cd20e8a 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -657,6 +657,8 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                     for curAction in curState['actions'][actionTrigger]:
                         if '_timer' in curAction['action']:
                             genVars["ENUM_TIMERS_ITEM"].add(curAction['args'][0])
+                        else:
+                            genVars["ENUM_EVENTS_ITEM"].add(curAction['args'][0])
                         stateId = f"{getStateEnumValue(genVars, curState['id'])}"
                         genVars["REGISTER_ACTIONS"].append(prepareRegisterActionFunction(stateId,
                                                                                          genVars['ENUM_EVENTS'],
@@ -672,6 +674,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
             if (curState["type"] != STATETYPE_HISTORY):
                 if curState["type"] == STATETYPE_FINAL:
                     if "final_event" in curState:
+                        genVars["ENUM_EVENTS_ITEM"].add(curState['final_event'])
                         finalEventID = f"{getEventEnumValue(genVars, curState['final_event'])}"
                     else:
                         finalEventID = "hsmcpp::INVALID_HSM_EVENT_ID"
-- 
2.43.0


From f5e4116716eac14cd7d6c6f4bcc31c0c6901a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 46/64] fix: scxml2gen must not treat history of a parallel
 state as its region

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index cd20e8a..1618057 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -234,7 +234,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["type"] = STATETYPE_HISTORY
                         newState["history_type"] = curState.attrib["type"]
 
-                    if (getTag(parentElement.tag) == "parallel") or (newState['id'] in initialStates):
+                    if ((getTag(parentElement.tag) == "parallel") and (newState["type"] != STATETYPE_HISTORY)) or (newState['id'] in initialStates):
                         newState["type"] = STATETYPE_INITIAL
                         if newState['id'] in initialStatesTransitions:
                             newState["initial_state_transitions"] = initialStatesTransitions[newState['id']]
-- 
2.43.0


From c2f1264e2058eca7e3f4d65a2c1a476414c25a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 47/64] fix: scxml2gen ignores substates of a state which has
 only final or history children

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 1618057..092c90b 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -281,7 +281,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         else:
                             print(f"WARNING: transition without event was skipped because it's not supported by hsmcpp\n{dumpXmlElement(curTransition)}")
 
-                    for nodeName in nodesWithChildren:
+                    for nodeName in stateNodes:
                         if (xmlFind(curState, nodeName) is not None) or ('src' in curState.attrib):
                             newState["states"] = parseScxmlStates(curState, rootDir, namePrefix)
                             break
-- 
2.43.0


From 93a063e56d2f8026dd72878bd021841a03f5af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 48/64] fix: scxml2gen drops default history transitions
 without event

---
 tools/scxml2gen/scxml2gen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 092c90b..d944747 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -254,9 +254,11 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["actions"] = actions
 
                     for curTransition in xmlFindAll(curState, "transition"):
-                        if "event" in curTransition.attrib:
-                            newTransition = {"event": curTransition.attrib["event"]}
-                            validateIdentifier(newTransition["event"])
+                        # default transition of a history state doesn't need an event
+                        if ("event" in curTransition.attrib) or (newState["type"] == STATETYPE_HISTORY):
+                            newTransition = {"event": curTransition.attrib.get("event", "")}
+                            if "event" in curTransition.attrib:
+                                validateIdentifier(newTransition["event"])
 
                             if "target" in curTransition.attrib:
                                 newTransition["target"] = namePrefix + curTransition.attrib["target"]
-- 
2.43.0


From 44578dadf83cd1fb3fc7b78d8bed626638990a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 49/64] fix: scxml2gen generates duplicate timers if spaces are
 used around action arguments

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index d944747..0134f29 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -25,7 +25,7 @@ def isStateActionDefinition(identifier):
     if m is not None:
         isAction = True
         actionFunc = m.group(1).strip(' \r\n\t')
-        actionArgs = m.group(2).strip(' \r\n\t').split(',')
+        actionArgs = [arg.strip(' \r\n\t') for arg in m.group(2).split(',')]
     return (isAction, actionFunc, actionArgs)
 
 
-- 
2.43.0


From bed8d1c0959285a2ba3d8fb8811a6230a5bdf506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 50/64] fix: scxml2gen generates different code for the same
 document

---
 tools/scxml2gen/scxml2gen.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 0134f29..a221634 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -629,7 +629,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                                 genVars["REGISTER_SUBSTATES"].append(f"(void){registerSubstateFunc}({getStateEnumValue(genVars, curState['id'])}, " +
                                                                      f"{getStateEnumValue(genVars, curSubstate['id'])});")
 
-            genVars["ENUM_STATES_ITEM"].append({curState['id']})
+            genVars["ENUM_STATES_ITEM"].append(curState['id'])
             registerCallbacks = ""
 
             if 'onstate' in curState:
@@ -727,21 +727,23 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
         pendingStates = substates
 
     # at this point we can be sure that all timers were identified
-    genVars["ENUM_TIMERS_ITEM"] = set(sorted(genVars["ENUM_TIMERS_ITEM"]))
-
     # register timers which don't have corresponding actions, but have defined events (such timers are usually started from code)
     for curEventName in genVars["ENUM_EVENTS_ITEM"]:
         if curEventName.startswith(TIMER_EVENT_PREFIX):
             newTimerName = curEventName[len(TIMER_EVENT_PREFIX):]
             genVars["ENUM_TIMERS_ITEM"].add(newTimerName)
 
+    genVars["ENUM_TIMERS_ITEM"] = sorted(genVars["ENUM_TIMERS_ITEM"])
+
     for curTimerName in genVars["ENUM_TIMERS_ITEM"]:
         # generate 1 event per timer (most of them are probably already available since they were used somewhere in the HSM)
         genVars["ENUM_EVENTS_ITEM"].add(f"{TIMER_EVENT_PREFIX}{curTimerName}")
         genVars["REGISTER_TIMERS"].append(prepareRegisterTimerFunc(genVars["ENUM_EVENTS"], genVars["ENUM_TIMERS"], curTimerName))
 
-    genVars["ENUM_STATES_ITEM"] = sorted(genVars["ENUM_STATES_ITEM"])
-    genVars["ENUM_EVENTS_ITEM"] = set(sorted(genVars["ENUM_EVENTS_ITEM"]))
+    # NOTE: order of items in a set is different for each run
+    for curVariable in genVars:
+        if isinstance(genVars[curVariable], set):
+            genVars[curVariable] = sorted(genVars[curVariable])
 
     generateFile(genVars, template_hpp, pathHpp)
     generateFile(genVars, template_cpp, pathCpp)
-- 
2.43.0


From ba15c4035ff8e438117d2b6d8ddb53eb7f3925a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 51/64] fix: scxml2gen must not replace names which only start
 with the name of a final state

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index a221634..103ceb8 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -1066,7 +1066,7 @@ def generatePlantumlInMemory(hsm, left2right=False, highlight=None):
         finalStates += stateFinalStates
 
     for finalID in finalStates:
-        plantuml = plantuml.replace(f"--> {finalID}", "--> [*]")
+        plantuml = re.sub(rf"--> {finalID}(?!\w)", "--> [*]", plantuml)
 
     plantuml += "\n@enduml"
     return plantuml
-- 
2.43.0


From 49ada19e95c27d571ba975c66119ae5370707893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 52/64] fix: names in the debug log must not depend on tracing
 options

---
 src/HsmImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 239f205..12df5f1 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1896,7 +1896,10 @@ void HierarchicalStateMachine::Impl::dumpActiveStates() {
 
     HSM_TRACE_DEBUG("active states: <%s>", temp.c_str());
 }
+#endif  // HSM_DISABLE_DEBUG_TRACES
 
+// NOTE: names are also written to the debug log
+#if !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     std::string res;
   #ifndef HSM_DISABLE_THREADSAFETY
@@ -1922,7 +1925,7 @@ std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event)
 
     return res;
 }
-#else   // HSM_DISABLE_DEBUG_TRACES
+#else   // !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     return std::string();
@@ -1931,6 +1934,6 @@ std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state)
 std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event) {
     return std::string();
 }
-#endif  // HSM_DISABLE_DEBUG_TRACES
+#endif  // !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From e52d1bca160a1d267fd26add5eda9a8042396b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 53/64] fix: text arguments must not break the format of the
 debug log

---
 src/HsmImpl.cpp | 53 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 12df5f1..04b660b 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1791,6 +1791,34 @@ void HierarchicalStateMachine::Impl::disableHsmDebugging() {
 #endif
 }
 
+#ifdef HSMBUILD_DEBUGGING
+// converts text to a double-quoted YAML value
+static std::string toYamlString(const std::string& text, const bool escapeNonAscii = false) {
+    constexpr unsigned char firstPrintable = 0x20U;
+    constexpr unsigned char del = 0x7FU;
+    std::string res = "\"";
+
+    for (const char curChar : text) {
+        const unsigned char code = static_cast<unsigned char>(curChar);
+
+        if (('"' == curChar) || ('\\' == curChar)) {
+            res += '\\';
+            res += curChar;
+        } else if ((code < firstPrintable) || (del == code) || ((true == escapeNonAscii) && (code > del))) {
+            constexpr const char* digits = "0123456789ABCDEF";
+
+            res += "\\x";
+            res += digits[code >> 4U];
+            res += digits[code & 0x0FU];
+        } else {
+            res += curChar;
+        }
+    }
+
+    return res + "\"";
+}
+#endif  // HSMBUILD_DEBUGGING
+
 void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                                                   const StateID_t fromState,
                                                   const StateID_t targetState,
@@ -1856,27 +1884,30 @@ void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                     "  active_states:";
 
         for (const auto& curState : mActiveStates) {
-            *mHsmLog << "\n    - \"" << getStateName(curState) << "\"";
+            *mHsmLog << "\n    - " << toYamlString(getStateName(curState));
         }
 
         *mHsmLog << "\n  action: " << actionsMap.at(action)
                  << "\n"
-                    "  from_state: \""
-                 << getStateName(fromState)
-                 << "\"\n"
-                    "  target_state: \""
-                 << getStateName(targetState)
-                 << "\"\n"
-                    "  event: \""
-                 << getEventName(event)
-                 << "\"\n"
+                    "  from_state: "
+                 << toYamlString(getStateName(fromState))
+                 << "\n"
+                    "  target_state: "
+                 << toYamlString(getStateName(targetState))
+                 << "\n"
+                    "  event: "
+                 << toYamlString(getEventName(event))
+                 << "\n"
                     "  status: "
                  << (hasFailed ? "failed" : "")
                  << "\n"
                     "  args:";
 
         for (const auto& curArg : args) {
-            *mHsmLog << "\n    - " << curArg.toString();
+            const bool isPlainValue = (curArg.isNumeric() || curArg.isBool());
+
+            *mHsmLog << "\n    - "
+                     << (isPlainValue ? curArg.toString() : toYamlString(curArg.toString(), curArg.isByteArray()));
         }
 
         mHsmLog->flush();
-- 
2.43.0


From 2b9cd85c888dfa4935f88edf884aaa02046414e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 54/64] fix: closing the debug log while state machine is
 writing to it

---
 src/HsmImpl.cpp | 24 +++++++++++++++++++++---
 src/HsmImpl.hpp |  2 ++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 04b660b..898d934 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1750,6 +1750,14 @@ bool HierarchicalStateMachine::Impl::hasParentState(const StateID_t state, State
 
 #endif  // HSM_ENABLE_SAFE_STRUCTURE
 
+#ifdef HSMBUILD_DEBUGGING
+static Mutex& getHsmLogMutex() {
+    static Mutex logMutex;
+
+    return logMutex;
+}
+#endif  // HSMBUILD_DEBUGGING
+
 bool HierarchicalStateMachine::Impl::enableHsmDebugging() {
 #ifdef HSMBUILD_DEBUGGING
     constexpr const char* DEFAULT_DUMP_PATH = "./dump.hsmlog";
@@ -1765,6 +1773,7 @@ bool HierarchicalStateMachine::Impl::enableHsmDebugging() {
 
 bool HierarchicalStateMachine::Impl::enableHsmDebugging(const std::string& dumpPath) {
 #ifdef HSMBUILD_DEBUGGING
+    CriticalSection logSync(getHsmLogMutex());
     bool res = false;
     bool isNewLog = (access(dumpPath.c_str(), F_OK) != 0);
 
@@ -1776,6 +1785,7 @@ bool HierarchicalStateMachine::Impl::enableHsmDebugging(const std::string& dumpP
             mHsmLog->flush();
         }
 
+        mIsHsmLogEnabled = true;
         res = true;
     }
 
@@ -1787,6 +1797,10 @@ bool HierarchicalStateMachine::Impl::enableHsmDebugging(const std::string& dumpP
 
 void HierarchicalStateMachine::Impl::disableHsmDebugging() {
 #ifdef HSMBUILD_DEBUGGING
+    // NOTE: can be called while state machine is writing to the log
+    CriticalSection logSync(getHsmLogMutex());
+
+    mIsHsmLogEnabled = false;
     mHsmLogFile.close();
 #endif
 }
@@ -1826,9 +1840,13 @@ void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                                                   const bool hasFailed,
                                                   const VariantVector_t& args) {
 #ifdef HSMBUILD_DEBUGGING
-    if (true == mHsmLogFile.is_open()) {
-        static Mutex logMutex;
-        CriticalSection logSync(logMutex);
+    if (true == mIsHsmLogEnabled) {
+        CriticalSection logSync(getHsmLogMutex());
+
+        if (false == mHsmLogFile.is_open()) {
+            // log was closed by another thread
+            return;
+        }
 
         static const std::map<HsmLogAction, std::string> actionsMap = {
             std::make_pair(HsmLogAction::IDLE, "idle"),
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 4b79660..114dcc2 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -9,6 +9,7 @@
 #include <memory>
 #include <vector>
 #ifdef HSMBUILD_DEBUGGING
+  #include <atomic>
   #include <fstream>
 #endif
 
@@ -234,6 +235,7 @@ private:
 #endif  // HSM_DISABLE_THREADSAFETY
 
 #ifdef HSMBUILD_DEBUGGING
+    std::atomic<bool> mIsHsmLogEnabled{false};
     std::filebuf mHsmLogFile;
     std::shared_ptr<std::ostream> mHsmLog;
 #endif  // HSMBUILD_DEBUGGING
-- 
2.43.0


From 58db697cebe79a289669de3c3d50254f8ff1600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 55/64] fix: substate can't be registered as an entry point
 more than once

---
 src/HsmImpl.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 898d934..a23314a 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -265,7 +265,8 @@ bool HierarchicalStateMachine::Impl::registerSubstate(const StateID_t parent,
         StateID_t curState = parent;
         StateID_t prevState = INVALID_HSM_STATE_ID;
 
-        if (false == hasParentState(substate, prevState)) {
+        // NOTE: it's allowed to register same substate again (for example, to add another entry point)
+        if ((false == hasParentState(substate, prevState)) || (prevState == parent)) {
             registrationAllowed = true;
 
             while (true == hasParentState(curState, prevState)) {
@@ -304,7 +305,15 @@ bool HierarchicalStateMachine::Impl::registerSubstate(const StateID_t parent,
             (void)mSubstateEntryPoints.emplace(parent, entryInfo);
         }
 
-        (void)mSubstates.emplace(parent, substate);
+        const auto itRange = mSubstates.equal_range(parent);
+        const bool isRegistered =
+            std::any_of(itRange.first, itRange.second, [substate](const std::pair<const StateID_t, StateID_t>& curSubstate) {
+                return (curSubstate.second == substate);
+            });
+
+        if (false == isRegistered) {
+            (void)mSubstates.emplace(parent, substate);
+        }
 
 #ifdef HSM_ENABLE_SAFE_STRUCTURE
         if (true == isTopState(substate)) {
@@ -1683,7 +1692,10 @@ bool HierarchicalStateMachine::Impl::getEntryPoints(const StateID_t state,
             // check transition condition if it was defined
             ((nullptr == it->second.checkCondition) ||
              (it->second.checkCondition(transitionArgs) == it->second.expectedConditionValue))) {
-            outEntryPoints.emplace_back(it->second.state);
+            // state could be registered as an entry point more than once (with different conditions)
+            if (outEntryPoints.end() == std::find(outEntryPoints.begin(), outEntryPoints.end(), it->second.state)) {
+                outEntryPoints.emplace_back(it->second.state);
+            }
         }
     }
 
-- 
2.43.0


From a16b12ce14922f1911248ba3c38fcae658524e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 56/64] fix: notifications of the STD dispatcher must not get
 lost without semaphores

---
 src/HsmEventDispatcherSTD.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 51b9f61..c7af869 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -162,6 +162,13 @@ void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {
         (void)sem_post(&mEmitEvent);
     }
 #else
+  #ifndef POSIX_AVAILABLE
+    {
+        // NOTE: dispatcher's thread could have already checked the condition but is not waiting yet. Must wait for it,
+        //       otherwise notification will be lost. Can't be done on POSIX platforms because of signal handlers.
+        LockGuard lck(mEmitSync);
+    }
+  #endif
     mEmitEvent.notify();
 #endif
 }
-- 
2.43.0


From 2ab67068dc14c1355b6e95fcd876c40d248f4bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 57/64] fix: verbose build of the STD dispatcher

---
 src/HsmEventDispatcherSTD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index c7af869..ee73797 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -174,6 +174,7 @@ void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {
 }
 
 void HsmEventDispatcherSTD::waitForEvents() {
+    HSM_TRACE_CALL_DEBUG();
     HSM_TRACE_DEBUG("wait for emit...");
 #ifdef HSM_DISPATCHER_STD_USE_SEMAPHORE
     while ((0 != sem_wait(&mEmitEvent)) && (EINTR == errno)) {
-- 
2.43.0


From bbe8892b2824e2c90be512027f43224bc9e8638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 58/64] fix: library doesn't compile with disabled thread
 safety

---
 src/HsmImpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 114dcc2..8cb332a 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -226,8 +226,9 @@ private:
     std::list<StateID_t> mTopLevelStates;  // list of states which are not substates and dont have substates of their own
 #endif
 
-#ifndef HSM_DISABLE_THREADSAFETY
     AtomicFlag mIsDispatching;
+
+#ifndef HSM_DISABLE_THREADSAFETY
     Mutex mEventsSync;
   #if !defined(HSM_DISABLE_DEBUG_TRACES)
     Mutex mParentSync;
-- 
2.43.0


From 35efde995d3c46bd0692128250b752f48a76759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 59/64] fix: data races of debug traces

---
 include/hsmcpp/logging.hpp | 8 ++++++--
 src/HsmImpl.cpp            | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/hsmcpp/logging.hpp b/include/hsmcpp/logging.hpp
index d3dc468..cb9f916 100644
--- a/include/hsmcpp/logging.hpp
+++ b/include/hsmcpp/logging.hpp
@@ -47,7 +47,7 @@
   #define HSM_TRACE_INIT()
  #elif !defined(PLATFORM_FREERTOS)
   #define HSM_TRACE_CALL_COMMON()             const int _tid = syscall(__NR_gettid); (void)_tid
-  #define HSM_TRACE_INIT()                    if (0 == g_hsm_traces_pid){ g_hsm_traces_pid = getpid(); }
+  #define HSM_TRACE_INIT()
  #else
   #define HSM_TRACE_CALL_COMMON()             const int _tid = 0; (void)_tid
   #define HSM_TRACE_INIT()
@@ -78,7 +78,11 @@
   #define HSM_TRACE_COMMON(msg, ...)          HSM_TRACE_CONSOLE(msg,## __VA_ARGS__)
   // ---------------------------------------------------------------------------------
 
-  #define HSM_TRACE_PREINIT()                 int g_hsm_traces_pid = (0);
+  #if defined(PLATFORM_ARDUINO) || defined(PLATFORM_FREERTOS)
+    #define HSM_TRACE_PREINIT()               int g_hsm_traces_pid = (0);
+  #else
+    #define HSM_TRACE_PREINIT()               int g_hsm_traces_pid = getpid();
+  #endif
   #define HSM_TRACE(msg, ...)                 HSM_TRACE_COMMON(msg,## __VA_ARGS__)
   #define HSM_TRACE_WARNING(msg, ...)         HSM_TRACE_COMMON("[WARNING] " msg,## __VA_ARGS__)
   #define HSM_TRACE_ERROR(msg, ...)           HSM_TRACE_COMMON("[ERROR] " msg,## __VA_ARGS__); \
diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index a23314a..a071858 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -676,7 +676,7 @@ void HierarchicalStateMachine::Impl::transitionSimple(const EventID_t event) {
 }
 
 void HierarchicalStateMachine::Impl::dispatchEvents() {
-    HSM_TRACE_CALL_DEBUG_ARGS("mPendingEvents.size=%ld", mPendingEvents.size());
+    HSM_TRACE_CALL_DEBUG();
     auto dispatcherPtr = lockDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -690,6 +690,7 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
             {
                 HSM_SYNC_EVENTS_QUEUE();
 
+                HSM_TRACE_DEBUG("mPendingEvents.size=%ld", mPendingEvents.size());
                 hasPendingEvents = (false == mPendingEvents.empty());
 
                 if (true == hasPendingEvents) {
-- 
2.43.0


From f697ff7a25c988a70424124aecdb9a4a492dec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 60/64] fix: timers of GLibmm dispatcher must not use sigc
 connections in several threads

---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp | 12 ++---
 src/HsmEventDispatcherGLibmm.cpp            | 54 +++++++++++++--------
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index 8c9e1f6..ad07157 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -30,10 +30,7 @@ namespace hsmcpp {
  */
 class HsmEventDispatcherGLibmm : public HsmEventDispatcherBase {
 private:
-    struct NativeTimerInfo {
-        sigc::connection connection;
-        unsigned int id = 0;
-    };
+    using TimerData_t = std::pair<HsmEventDispatcherGLibmm*, TimerID_t>;
 
 public:
     /**
@@ -114,15 +111,16 @@ protected:
 
     void notifyDispatcherAboutEvent() override;
     void onNotification();
-    bool onTimerEvent(const TimerID_t timerID, const unsigned int nativeTimerID);
+    static int onTimerEvent(void* data);
+    static void onFreeTimerData(void* data);
 
 private:
     Glib::RefPtr<Glib::MainContext> mMainContext;
     std::unique_ptr<Glib::Dispatcher> mDispatcher;
     std::atomic<bool> mNotificationPending{false};
     sigc::connection mDispatcherConnection;
-    std::map<TimerID_t, NativeTimerInfo> mNativeTimerHandlers; // protected by mRunningTimersSync
-    unsigned int mLastNativeTimerID = 0;                       // protected by mRunningTimersSync
+    // NOTE: sigc::connection can't be used for timers because it's not thread safe
+    std::map<TimerID_t, GSource*> mNativeTimerHandlers; // protected by mRunningTimersSync
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 3043def..dc0b147 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -115,7 +115,8 @@ void HsmEventDispatcherGLibmm::unregisterAllTimerHandlers() {
     CriticalSection cs(mRunningTimersSync);
 
     for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
-        it->second.connection.disconnect();
+        g_source_destroy(it->second);
+        g_source_unref(it->second);
     }
 
     mNativeTimerHandlers.clear();
@@ -130,13 +131,14 @@ void HsmEventDispatcherGLibmm::startTimerImpl(const TimerID_t timerID, const uns
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() == it) {
-        NativeTimerInfo newTimer;
-
-        newTimer.id = ++mLastNativeTimerID;
-        newTimer.connection = mMainContext->signal_timeout().connect(
-            sigc::bind(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onTimerEvent), timerID, newTimer.id),
-            intervalMs);
-        mNativeTimerHandlers[timerID] = newTimer;
+        GSource* timeoutSource = g_timeout_source_new(intervalMs);
+
+        g_source_set_callback(timeoutSource,
+                              &HsmEventDispatcherGLibmm::onTimerEvent,
+                              new TimerData_t(this, timerID),
+                              &HsmEventDispatcherGLibmm::onFreeTimerData);
+        (void)g_source_attach(timeoutSource, mMainContext->gobj());
+        mNativeTimerHandlers[timerID] = timeoutSource;
     } else {
         HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
     }
@@ -148,7 +150,8 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() != it) {
-        it->second.connection.disconnect();
+        g_source_destroy(it->second);
+        g_source_unref(it->second);
         mNativeTimerHandlers.erase(it);
     }
 }
@@ -168,31 +171,44 @@ void HsmEventDispatcherGLibmm::onNotification() {
     dispatchPendingEvents();
 }
 
-bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID, const unsigned int nativeTimerID) {
-    HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
+int HsmEventDispatcherGLibmm::onTimerEvent(void* data) {
+    const TimerData_t* timerData = static_cast<const TimerData_t*>(data);
+    HsmEventDispatcherGLibmm* pThis = timerData->first;
+    const TimerID_t timerID = timerData->second;
+    const GSource* currentSource = g_main_current_source();
     bool restartTimer = false;
     bool isRunning = false;
+    HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
     // NOTE: timers can't be started or stopped while mHandlersSync is locked
-    LockGuard lckHandlers(mHandlersSync);
+    LockGuard lckHandlers(pThis->mHandlersSync);
 
     {
-        CriticalSection cs(mRunningTimersSync);
-        auto itTimer = mNativeTimerHandlers.find(timerID);
+        CriticalSection cs(pThis->mRunningTimersSync);
+        auto itTimer = pThis->mNativeTimerHandlers.find(timerID);
 
         // timer could have been already stopped or restarted by another thread
-        isRunning = (mNativeTimerHandlers.end() != itTimer) && (nativeTimerID == itTimer->second.id);
+        isRunning = (pThis->mNativeTimerHandlers.end() != itTimer) && (currentSource == itTimer->second);
     }
 
     if (true == isRunning) {
-        restartTimer = (handleTimerEventLocked(timerID) > 0);
+        restartTimer = (pThis->handleTimerEventLocked(timerID) > 0);
 
         if (false == restartTimer) {
-            CriticalSection cs(mRunningTimersSync);
-            mNativeTimerHandlers.erase(timerID);
+            CriticalSection cs(pThis->mRunningTimersSync);
+            auto itTimer = pThis->mNativeTimerHandlers.find(timerID);
+
+            if (pThis->mNativeTimerHandlers.end() != itTimer) {
+                g_source_unref(itTimer->second);
+                pThis->mNativeTimerHandlers.erase(itTimer);
+            }
         }
     }
 
-    return restartTimer;
+    return BOOL2INT(restartTimer);
+}
+
+void HsmEventDispatcherGLibmm::onFreeTimerData(void* data) {
+    delete static_cast<TimerData_t*>(data);
 }
 
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From cb0c3b435fc5854d0359e506e9661ce0904e0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 61/64] fix: debug log must stay valid YAML when text arguments
 are not valid UTF-8

---
 src/HsmImpl.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index a071858..182fc54 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1819,10 +1819,41 @@ void HierarchicalStateMachine::Impl::disableHsmDebugging() {
 }
 
 #ifdef HSMBUILD_DEBUGGING
+// checks if text can be stored in YAML file as is
+static bool isYamlPrintable(const std::string& text) {
+    bool isPrintable = true;
+
+    for (size_t i = 0U; (i < text.size()) && (true == isPrintable);) {
+        const uint32_t lead = static_cast<unsigned char>(text[i++]);
+
+        if (lead > 0x7FU) {
+            const size_t continuationBytes = (0x06U == (lead >> 5U)) ? 1U : (0x0EU == (lead >> 4U)) ? 2U : 3U;
+            const uint32_t minCode = (1U == continuationBytes) ? 0xA0U : (2U == continuationBytes) ? 0x800U : 0x10000U;
+            uint32_t code = lead & (0x3FU >> continuationBytes);
+
+            isPrintable = (lead >= 0xC0U) && (lead < 0xF8U) && ((text.size() - i) >= continuationBytes);
+
+            for (size_t n = 0U; (n < continuationBytes) && (true == isPrintable); ++n) {
+                const uint32_t curByte = static_cast<unsigned char>(text[i++]);
+
+                code = (code << 6U) | (curByte & 0x3FU);
+                isPrintable = (0x02U == (curByte >> 6U));
+            }
+
+            // surrogates, byte order mark and noncharacters are not allowed
+            isPrintable = (true == isPrintable) && (code >= minCode) && (code <= 0x10FFFFU) &&
+                          ((code < 0xD800U) || (code > 0xDFFFU)) && (0xFEFFU != code) && (0xFFFEU != code) && (0xFFFFU != code);
+        }
+    }
+
+    return isPrintable;
+}
+
 // converts text to a double-quoted YAML value
-static std::string toYamlString(const std::string& text, const bool escapeNonAscii = false) {
+static std::string toYamlString(const std::string& text, const bool isBinary = false) {
     constexpr unsigned char firstPrintable = 0x20U;
     constexpr unsigned char del = 0x7FU;
+    const bool escapeNonAscii = (true == isBinary) || (false == isYamlPrintable(text));
     std::string res = "\"";
 
     for (const char curChar : text) {
-- 
2.43.0


From 8cb9b7443f99f121121e05b2ed2f3f53fb1d1447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 62/64] fix: comparing variants with different custom types
 must not access memory of another type

---
 include/hsmcpp/variant.hpp | 16 ++++++++++++++++
 src/variant.cpp            | 16 +++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 116c85e..c47be74 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -662,6 +662,9 @@ private:
 
     bool isNegativeInteger() const;
 
+    // different custom types have same Variant type but can't be compared with each other
+    bool isSameType(const Variant& val) const;
+
     template <typename T>
     void assign(const T& v, const Type t);
 
@@ -671,6 +674,9 @@ private:
     template <typename T>
     void createMemoryAllocator();
 
+    template <typename T>
+    static const void* getCustomTypeId();
+
     void freeMemory();
 
 private:
@@ -678,6 +684,7 @@ private:
     std::shared_ptr<void> data;
     MemoryAllocatorFunc_t memoryAllocator;
     CompareFunc_t compareOperator;
+    const void* customTypeId = nullptr;
 };
 
 template <typename T>
@@ -880,8 +887,17 @@ inline std::shared_ptr<T> Variant::value() const {
     return std::static_pointer_cast<T>(data);
 }
 
+template <typename T>
+const void* Variant::getCustomTypeId() {
+    static const char typeId = 0;
+
+    return &typeId;
+}
+
 template <typename T>
 void Variant::createMemoryAllocator() {
+    customTypeId = getCustomTypeId<T>();
+
     memoryAllocator = [](const void* ptr) {
         // NOTE: false-positive. "return" statement belongs to lambda function, not parent function
         // cppcheck-suppress misra-c2012-15.5
diff --git a/src/variant.cpp b/src/variant.cpp
index 1420c0d..577a099 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -5,6 +5,7 @@
 
 #include <cmath>
 #include <cstring>
+#include <functional>
 #include <limits>
 
 #include "hsmcpp/os/os.hpp"
@@ -156,6 +157,7 @@ Variant& Variant::operator=(const Variant& v) {
             type = v.type;
             memoryAllocator = v.memoryAllocator;
             compareOperator = v.compareOperator;
+            customTypeId = v.customTypeId;
         } else {
             freeMemory();
         }
@@ -173,6 +175,7 @@ Variant& Variant::operator=(Variant&& v) noexcept {
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
         compareOperator = std::move(v.compareOperator);
+        customTypeId = v.customTypeId;
 
         v.type = Type::UNKNOWN;
     }
@@ -203,7 +206,7 @@ bool Variant::operator>(const Variant& val) const {
             } else {
                 isGreater = toInt64() > val.toInt64();
             }
-        } else if (type == val.type) {
+        } else if (true == isSameType(val)) {
             isGreater = (1 == compareOperator(data.get(), val.data.get()));
         } else {
             // do nothing
@@ -220,8 +223,10 @@ bool Variant::operator>=(const Variant& val) const {
 bool Variant::operator<(const Variant& val) const {
     bool isLess = false;
 
-    if ((type == val.type) || (isNumeric() && val.isNumeric())) {
+    if ((true == isSameType(val)) || (isNumeric() && val.isNumeric())) {
         isLess = (val > *this);
+    } else if (type == val.type) {
+        isLess = std::less<const void*>()(customTypeId, val.customTypeId);
     } else {
         // different types are not comparable, but must be ordered to be used as keys
         isLess = (type < val.type);
@@ -255,7 +260,7 @@ bool Variant::operator==(const Variant& val) const {
                 } else {
                     equal = (toInt64() == val.toInt64());
                 }
-            } else if (val.type == type) {
+            } else if (true == isSameType(val)) {
                 equal = (0 == compareOperator(data.get(), val.data.get()));
             } else {
                 // do nothing
@@ -824,11 +829,16 @@ bool Variant::isNegativeInteger() const {
     return (isSignedNumeric() && (Type::DOUBLE != type) && (toInt64() < 0));
 }
 
+bool Variant::isSameType(const Variant& val) const {
+    return (type == val.type) && ((Type::CUSTOM != type) || (customTypeId == val.customTypeId));
+}
+
 void Variant::freeMemory() {
     data.reset();
     type = Type::UNKNOWN;
     memoryAllocator = nullptr;
     compareOperator = nullptr;
+    customTypeId = nullptr;
 }
 
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From dbb1cc6288b3465f4d839f490b97e0b5ce25d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 63/64] fix: notifications must not pile up when callbacks keep
 generating events

---
 src/HsmImpl.cpp | 22 ++++++++++++++++++++--
 src/HsmImpl.hpp |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 182fc54..be1bc8d 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -459,6 +459,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
                 }
 
                 mPendingEvents.emplace_back(eventInfo);
+                ++mScheduledDispatches;
                 wasAdded = true;
             }
         }
@@ -663,6 +664,7 @@ void HierarchicalStateMachine::Impl::handleStartup() {
         {
             HSM_SYNC_EVENTS_QUEUE();
             hasPendingEvents = (false == mPendingEvents.empty());
+            mScheduledDispatches = (true == hasPendingEvents) ? 1u : 0u;
         }
 
         if (true == hasPendingEvents) {
@@ -679,6 +681,14 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
     HSM_TRACE_CALL_DEBUG();
     auto dispatcherPtr = lockDispatcher();
 
+    {
+        HSM_SYNC_EVENTS_QUEUE();
+
+        if (mScheduledDispatches > 0u) {
+            --mScheduledDispatches;
+        }
+    }
+
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr && (false == mIsDispatching.test_and_set())) {
         UniqueLock lk = mIsDispatching.lock();
@@ -706,12 +716,20 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
                 pendingEvent.unlock(transitiontStatus);
             }
 
+            bool isDispatchNeeded = false;
+
             {
                 HSM_SYNC_EVENTS_QUEUE();
-                hasPendingEvents = (false == mPendingEvents.empty());
+
+                // NOTE: usually dispatcher is already notified about remaining events. If it would be notified again amount of
+                //       pending notifications would keep growing for as long as new events are generated by callbacks
+                if ((false == mPendingEvents.empty()) && (0u == mScheduledDispatches)) {
+                    ++mScheduledDispatches;
+                    isDispatchNeeded = true;
+                }
             }
 
-            if ((false == mStopDispatching.test()) && (true == hasPendingEvents)) {
+            if ((false == mStopDispatching.test()) && (true == isDispatchNeeded)) {
                 dispatcherPtr->emitEvent(mEventsHandlerId);
             }
         }
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 8cb332a..adea61e 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -227,6 +227,8 @@ private:
 #endif
 
     AtomicFlag mIsDispatching;
+    // amount of dispatch requests which are not handled by dispatcher yet (protected by mEventsSync)
+    size_t mScheduledDispatches = 0u;
 
 #ifndef HSM_DISABLE_THREADSAFETY
     Mutex mEventsSync;
-- 
2.43.0


From 98fcdebf2b1addc0651ba70515b8711c39fed7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 64/64] fix: GLib dispatcher must be deleted in its own context

---
 src/HsmEventDispatcherGLib.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 9d6e6ae..f4419be 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -49,9 +49,13 @@ std::shared_ptr<HsmEventDispatcherGLib> HsmEventDispatcherGLib::create(GMainCont
 }
 
 bool HsmEventDispatcherGLib::deleteSafe() {
-    g_idle_add(
+    // NOTE: must be deleted in context which is used by dispatcher. default context could be not running at all
+    GSource* idleSource = g_idle_source_new();
+
+    g_source_set_callback(
+        idleSource,
         // cppcheck-suppress misra-c2012-13.1 ; false-positive. this is a functor, not initializer list
-        [](void* data) {
+        [](void* data) -> gboolean {
             if (nullptr != data) {
                 HsmEventDispatcherGLib* pThis = reinterpret_cast<HsmEventDispatcherGLib*>(data);
 
@@ -63,7 +67,10 @@ bool HsmEventDispatcherGLib::deleteSafe() {
             // cppcheck-suppress misra-c2012-15.5
             return G_SOURCE_REMOVE;
         },
-        this);
+        this,
+        nullptr);
+    g_source_attach(idleSource, mContext);
+    g_source_unref(idleSource);
 
     return false;
 }
-- 
2.43.0

