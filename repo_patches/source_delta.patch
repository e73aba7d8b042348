From cbb3f03308987918c706e52fcd786f6739c3c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 01/55] fix: Scheduler: a run that ends before its tick limit
 no longer leaves its stop event behind

The leftover stop event ended a later, unrelated run prematurely (even an
exacting one) and was reported by nextEventTick().
---
 sparta/sparta/kernel/Scheduler.hpp |  3 ++
 sparta/src/Scheduler.cpp           | 48 ++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index 24d7d84..ede38a5 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -927,6 +927,9 @@ private:
      */
     TickQuantum* determineTickQuantum_(Tick rel_time);
 
+    //! Remove the stop event of a run that ended before reaching its limit
+    void removeStopEvent_();
+
     //! The DAG used for grouping
     std::unique_ptr<DAG> dag_;
 
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index e1af41d..60114c6 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -421,6 +421,48 @@ void Scheduler::scheduleEvent(Scheduleable * scheduleable,
     }
 }
 
+void Scheduler::removeStopEvent_()
+{
+    TickQuantum * last_tq = nullptr;
+    TickQuantum * tq = current_tick_quantum_;
+    while(tq != nullptr)
+    {
+        auto & stop_group = tq->groups[group_zero_];
+        for(uint32_t i = 0; i < stop_group.size(); ++i)
+        {
+            if(stop_group[i] != stop_event_.get()) {
+                continue;
+            }
+
+            bool other_events = (stop_group.size() > 1);
+            for(uint32_t grp = 0; !other_events && (grp < group_zero_); ++grp) {
+                other_events = (tq->groups[grp].size() != 0);
+            }
+
+            if(other_events) {
+                stop_group[i] = cancelled_event_.get();
+            }
+            else {
+                // The quantum existed only to stop the run
+                stop_group.clear();
+                if(last_tq == nullptr) {
+                    current_tick_quantum_ = tq->next;
+                }
+                else {
+                    last_tq->next = tq->next;
+                }
+                tq->next = nullptr;
+                tick_quantum_allocator_.free(tq);
+                is_finished_ = (current_tick_quantum_ == nullptr) ||
+                    (latest_continuing_event_ < current_tick_quantum_->tick);
+            }
+            return;
+        }
+        last_tq = tq;
+        tq = tq->next;
+    }
+}
+
 void Scheduler::scheduleAsyncEvent(Scheduleable *scheduleable,
                                    Scheduler::Tick rel_tick)
 {
@@ -652,6 +694,12 @@ void Scheduler::run(Tick num_ticks,
         }
     }// End run loop.
 
+    // If the run ended before reaching its tick limit, its stop event
+    // is still queued.  It must not stop a later run.
+    if(num_ticks != INDEFINITE) {
+        removeStopEvent_();
+    }
+
     // Reset the current group
     current_group_firing_ = 0;
 
-- 
2.43.0


From b68fb4d4bc7c78a7417a80f91149044f7057df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 02/55] fix: Scheduler: an entry that has fired is neither
 scheduled nor cancellable

Entries of the group being fired stay in its list until the whole group is
done. cancelEvent(event, 0) called by a handler hit such a stale entry and, for
payload events, cancelled the recycled payload that was pending for another
time; isScheduled() reported an event as scheduled that had already fired.
---
 sparta/sparta/kernel/Scheduler.hpp | 13 +++++++++++++
 sparta/src/Scheduler.cpp           | 12 ++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index ede38a5..109fe92 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -927,6 +927,19 @@ private:
      */
     TickQuantum* determineTickQuantum_(Tick rel_time);
 
+    /**
+     * \brief The first entry of a firing group that has not fired yet
+     *
+     * Entries of the group being fired stay in the group until it is
+     * done.  Those that have fired are not scheduled anymore and
+     * cannot be cancelled.
+     */
+    uint32_t firstPendingIdx_(const TickQuantum * tq, uint32_t firing_group) const {
+        const bool group_is_firing = (tq == current_tick_quantum_) && (tq->tick == current_tick_) &&
+            (firing_group == current_group_firing_);
+        return group_is_firing ? (current_event_firing_ + 1) : 0;
+    }
+
     //! Remove the stop event of a run that ended before reaching its limit
     void removeStopEvent_();
 
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index 60114c6..b3d5059 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -737,9 +737,9 @@ bool Scheduler::isScheduled(const Scheduleable * scheduleable, Tick rel_time) co
         if(rit->tick == index_time)
         {
             // This is the time quantum requested
-            const auto events = rit->groups[dag_group];
+            const auto & events = rit->groups[dag_group];
             const auto grp_size = events.size();
-            for(size_t idx = 0; idx < grp_size; ++idx)
+            for(size_t idx = firstPendingIdx_(rit, dag_group); idx < grp_size; ++idx)
             {
                 if(events[idx] == scheduleable) {
                     return true;
@@ -764,9 +764,9 @@ bool Scheduler::isScheduled(const Scheduleable * scheduleable) const
     const TickQuantum * rit = current_tick_quantum_;
     while(rit != nullptr)
     {
-        const auto events = rit->groups[dag_group];
+        const auto & events = rit->groups[dag_group];
         const auto grp_size = events.size();
-        for(size_t idx = 0; idx < grp_size; ++idx)
+        for(size_t idx = firstPendingIdx_(rit, dag_group); idx < grp_size; ++idx)
         {
             if(events[idx] == scheduleable) {
                 return true;
@@ -790,7 +790,7 @@ void Scheduler::cancelEvent(const Scheduleable * scheduleable)
     while(rit != nullptr)
     {
         TickQuantum::ScheduleableGroup & scheduleables = rit->groups[dag_group];
-        for(uint32_t i = 0; i < scheduleables.size(); ++i)
+        for(uint32_t i = firstPendingIdx_(rit, dag_group); i < scheduleables.size(); ++i)
         {
             if(scheduleables[i] == scheduleable) {
                 scheduleables[i] = cancelled_event_.get();
@@ -823,7 +823,7 @@ void Scheduler::cancelEvent(const Scheduleable * scheduleable, Tick rel_time)
         if(rit->tick == index_time)
         {
             TickQuantum::ScheduleableGroup & scheduleables = rit->groups[dag_group];
-            for(uint32_t i = 0; i < scheduleables.size(); ++i)
+            for(uint32_t i = firstPendingIdx_(rit, dag_group); i < scheduleables.size(); ++i)
             {
                 if(scheduleables[i] == scheduleable) {
                     scheduleables[i]->eventCancelled_();
-- 
2.43.0


From f1a0a54c3e0e97dfa62c707ee4ea71b08345470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 03/55] fix: ScheduleableHandle: moving and self-assignment
 keep the reference count right

A moved-from handle released the reference it no longer had, and assigning a
handle to itself reclaimed the payload it still referred to.
---
 sparta/sparta/events/Scheduleable.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/Scheduleable.hpp b/sparta/sparta/events/Scheduleable.hpp
index 9271852..31de68a 100644
--- a/sparta/sparta/events/Scheduleable.hpp
+++ b/sparta/sparta/events/Scheduleable.hpp
@@ -547,8 +547,12 @@ namespace sparta
         //! Create an empty Handle
         ScheduleableHandle() = default;
 
-        // Default move
-        ScheduleableHandle(ScheduleableHandle &&) = default;
+        //! Move a Handle; the reference count is unaffected
+        ScheduleableHandle(ScheduleableHandle && orig) noexcept :
+            scheduleable_(orig.scheduleable_)
+        {
+            orig.scheduleable_ = nullptr;
+        }
 
         //! Copy a Handle, increment the count
         ScheduleableHandle(const ScheduleableHandle & orig)
@@ -610,6 +614,9 @@ namespace sparta
 
         //! Assignment
         ScheduleableHandle & operator=(const ScheduleableHandle & rhs) {
+            if(this == &rhs) {
+                return *this;
+            }
             disconnect_();
             scheduleable_ = rhs.scheduleable_;
             connect_();
-- 
2.43.0


From dcf950406bb0db249614168b4ff1040b6301896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 04/55] fix: PayloadEvent::cancel(rel_cycle) returns how many
 events it cancelled

It returned the number of payloads in flight instead.
---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 79b7149..7887a2f 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -334,14 +334,17 @@ namespace sparta
          * This will cancel all instances of this event at the given cycle.
          */
         uint32_t cancel(Clock::Cycle rel_cycle) {
-            const uint32_t cancel_cnt = inflight_pl_.size();
+            uint32_t cancel_cnt = 0;
             auto bit = inflight_pl_.begin();
             while(bit != inflight_pl_.end()) {
                 auto proxy = *bit;
                 ++bit;
                 // Cancelling the event will change the inflight_pl_
                 // list, hence we cannot use a range for loop
-                proxy->cancel(rel_cycle);
+                if(proxy->isScheduled(rel_cycle)) {
+                    proxy->cancel(rel_cycle);
+                    ++cancel_cnt;
+                }
             }
             return cancel_cnt;
         }
-- 
2.43.0


From c64513b81487deb2f7ef1a433043370e20d84dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 05/55] fix: PayloadEvent: a payload stays alive while its
 handler runs

Cancelling the event, or dropping the last handle, from the handler itself
destroyed the payload the handler was still given a reference to.
---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 7887a2f..cd72a3e 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -84,10 +84,10 @@ namespace sparta
             // If this Scheduleable is managed by a
             // ScheduleableHandle, then this method is called when the
             // Handle goes out of scope.  The proxy is only reclaimed
-            // if it's not on the Scheduler and there are not handles
-            // pointing to it.
+            // if it's not on the Scheduler, there are not handles
+            // pointing to it, and its payload is not being delivered.
             void reclaim_() override {
-                if(!scheduled_ && (getScheduleableHandleCount_() == 0)) {
+                if(!scheduled_ && !delivering_ && (getScheduleableHandleCount_() == 0)) {
                     parent_->reclaimProxy_(loc_);
                     cancelled_ = false;
                 }
@@ -133,7 +133,9 @@ namespace sparta
                             << parent_->name_ << " to handler: "
                             << target_consumer_event_handler_.getName());
                 scheduled_ = false;
+                delivering_ = true;
                 target_consumer_event_handler_((const void*)payload_);
+                delivering_ = false;
                 reclaim_();
             }
 
@@ -144,6 +146,7 @@ namespace sparta
             typename ProxyInflightList::iterator loc_;
             bool scheduled_ = false;
             bool cancelled_ = false;
+            bool delivering_ = false;
         };
 
 
-- 
2.43.0


From fa49091503489b5a31b3cdfb181cfa628e7bb467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 06/55] fix: UniqueEvent can be scheduled again for a tick that
 is executed again

After Scheduler::restartAt a tick that was executed before can be executed
again; the event was still taken to have fired in it.
---
 sparta/sparta/events/PhasedUniqueEvent.hpp |  9 ++++++++-
 sparta/sparta/kernel/Scheduler.hpp         | 12 ++++++++++++
 sparta/src/Scheduler.cpp                   |  1 +
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/events/PhasedUniqueEvent.hpp b/sparta/sparta/events/PhasedUniqueEvent.hpp
index 233193b..546e58f 100644
--- a/sparta/sparta/events/PhasedUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedUniqueEvent.hpp
@@ -91,7 +91,10 @@ namespace sparta
                                   sparta::Scheduler * scheduler) override final
         {
             sparta_assert(scheduler_);
-            sparta_assert(last_tick_called_ != (scheduler->getCurrentTick() + rel_tick),
+            // The tick this event was called in can be executed again
+            // after a restart
+            sparta_assert((last_tick_called_ != (scheduler->getCurrentTick() + rel_tick)) ||
+                          (last_restart_called_ != scheduler->getNumRestarts()),
                         "PhasedUniqueEvent (UniqueEvent) '" << getName()
                         << "' was already scheduled and fired this cycle."
                         "\t\nAre you missing a precedence rule?");
@@ -118,6 +121,7 @@ namespace sparta
             // lack of a clock), I cannot remember the time...
             if(SPARTA_EXPECT_TRUE(local_clk_ != nullptr)) {
                 last_tick_called_ = local_clk_->getScheduler()->getCurrentTick();
+                last_restart_called_ = local_clk_->getScheduler()->getNumRestarts();
             }
             pue_consumer_event_handler_();
         }
@@ -134,6 +138,9 @@ namespace sparta
         //! The last time this PhasedUniqueEvent was called -- for sanity checking
         Scheduler::Tick last_tick_called_ = Scheduler::Tick(-1);
 
+        //! The Scheduler's restart count when this PhasedUniqueEvent was called last
+        uint64_t last_restart_called_ = 0;
+
         //! A fancy name for the event handler
         std::string fancy_name_;
     };
diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index 109fe92..29ea53d 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -458,6 +458,15 @@ public:
      */
     void restartAt(Tick t);
 
+    /**
+     * \return The number of times restartAt was called.  A tick that
+     *         was executed before a restart can be executed again.
+     */
+    uint64_t getNumRestarts() const noexcept
+    {
+        return num_restarts_;
+    }
+
     /**
      * \brief A method used for debugging the scheduler.
      *        Prints the scheduler's schedule of events.
@@ -1002,6 +1011,9 @@ private:
     //! The current event being fired.
     uint32_t current_event_firing_ = 0;
 
+    //! The number of calls to restartAt
+    uint64_t num_restarts_ = 0;
+
     //! The current SchedulingPhase
     SchedulingPhase current_scheduling_phase_ = SchedulingPhase::Trigger;
 
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index b3d5059..b014fcf 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -282,6 +282,7 @@ void Scheduler::restartAt(Tick t)
     }
 
     clearEvents();
+    ++num_restarts_;
     current_tick_ = t;
     if(first_tick_ || (t == 0)) {
         elapsed_ticks_ = t;
-- 
2.43.0


From b64b2d1b0845ad75e689ce9995c3fc81ddc57684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 07/55] fix: SingleCycleUniqueEvent fires once in every tick it
 is scheduled for

The next/previous tick memory dropped a schedule after a cancel, dropped a
schedule for tick 0 after one for tick 1, and let duplicates through when the
clock is not aligned with its period and after Scheduler::restartAt. Let the
Scheduler keep the event unique instead, as UniqueEvent does.
---
 .../events/PhasedSingleCycleUniqueEvent.hpp   | 68 ++++++++-----------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
index 3653b09..da9143e 100644
--- a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
@@ -57,8 +57,10 @@ namespace sparta
                                      const SpartaHandler & consumer_event_handler) :
             EventNode(event_set, name, sched_phase),
             local_clk_(getClock()),
+            consumer_event_handler_(consumer_event_handler),
             fancy_name_(name + "[" + consumer_event_handler.getName() + "]"),
-            single_cycle_event_scheduleable_(consumer_event_handler, 1 /*HARD CODED*/, sched_phase)
+            single_cycle_event_scheduleable_(CREATE_SPARTA_HANDLER(PhasedSingleCycleUniqueEvent, deliverEvent_),
+                                             1 /*HARD CODED*/, sched_phase, true)
         {
             single_cycle_event_scheduleable_.setScheduleableClock(getClock());
             single_cycle_event_scheduleable_.setLabel(fancy_name_.c_str());
@@ -126,40 +128,18 @@ namespace sparta
             const auto to_be_scheduled_relative_tick =
                 local_clk_->getTick(Clock::Cycle(rel_cycle));
 
-            const auto to_be_scheduled_abs_tick =
-                local_scheduler_->calcIndexTime(to_be_scheduled_relative_tick);
-
-            if(SPARTA_EXPECT_TRUE(next_scheduled_tick_ < to_be_scheduled_abs_tick || is_init_tick_))
-            {
-#ifndef NDEBUG
-                // This is a handy debug assertion to see if
-                // SingleCycleUniqueEvent is actually only scheduled once.
-                //
-                sparta_assert(single_cycle_event_scheduleable_.isScheduled(rel_cycle) == false,
-                              "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue");
-#endif
-                single_cycle_event_scheduleable_.
-                    scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
-                prev_scheduled_tick_ = next_scheduled_tick_;
-                next_scheduled_tick_ = to_be_scheduled_abs_tick;
-                is_init_tick_ = false; //only allow one event in tick 0
-            }
-            else if((to_be_scheduled_abs_tick < next_scheduled_tick_) &&
-                    (prev_scheduled_tick_ != to_be_scheduled_abs_tick))
+            // Fired already in the tick being executed?
+            if((to_be_scheduled_relative_tick == 0) &&
+               (last_tick_called_ == local_scheduler_->getCurrentTick()) &&
+               (last_restart_called_ == local_scheduler_->getNumRestarts()))
             {
-#ifndef NDEBUG
-                // This is a handy debug assertion to see if
-                // SingleCycleUniqueEvent is actually only scheduled once.
-                //
-                sparta_assert(single_cycle_event_scheduleable_.isScheduled(rel_cycle) == false,
-                              "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue");
-                sparta_assert(prev_scheduled_tick_ < to_be_scheduled_abs_tick,
-                              "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue")
-#endif
-                single_cycle_event_scheduleable_.
-                    scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
-                prev_scheduled_tick_ = to_be_scheduled_abs_tick;
+                return;
             }
+
+            // The Scheduleable is unique: the Scheduler ignores it if
+            // it is already scheduled for that tick
+            single_cycle_event_scheduleable_.
+                scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
         }
 
         /**
@@ -184,6 +164,13 @@ namespace sparta
 #endif
 
     private:
+        //! Deliver the event, but only once per tick
+        void deliverEvent_() {
+            last_tick_called_ = local_scheduler_->getCurrentTick();
+            last_restart_called_ = local_scheduler_->getNumRestarts();
+            consumer_event_handler_();
+        }
+
         //! Called by the framework on all TreeNodes
         void createResource_() override {
             local_clk_ = getClock();
@@ -196,19 +183,20 @@ namespace sparta
         //! A local scheduler for speed
         Scheduler * local_scheduler_ = nullptr;
 
-        //! The last time this PhasedSingleCycleUniqueEvent was scheduled (rel cycle == [0,1])
-        //std::array<Scheduler::Tick, 2> next_scheduled_tick_ = {0, 0};
-        Scheduler::Tick next_scheduled_tick_ = 0;
-        Scheduler::Tick prev_scheduled_tick_ = 0;
+        //! The last tick this PhasedSingleCycleUniqueEvent was fired
+        Scheduler::Tick last_tick_called_ = Scheduler::Tick(-1);
+
+        //! The Scheduler's restart count when this PhasedSingleCycleUniqueEvent was fired
+        uint64_t last_restart_called_ = 0;
+
+        //! The user's event handler
+        SpartaHandler consumer_event_handler_;
 
         //! A fancy name for the event handler
         std::string fancy_name_;
 
         //! The actual scheduled item on the scheduler
         Scheduleable single_cycle_event_scheduleable_;
-
-        //! Track if is in the initial tick = tick 0
-        bool is_init_tick_ = true;
     };
 
 }
-- 
2.43.0


From 6f555172613fccb6a162ccc77bf1d5bb259edeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 08/55] fix: Scheduler: an event posted from another thread can
 fire in any phase of the tick it is picked up in

---
 sparta/src/Scheduler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index b014fcf..c0d001d 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -585,9 +585,6 @@ void Scheduler::run(Tick num_ticks,
         // elapsed tick count > current_tick
         elapsed_ticks_             += std::llabs(int64_t(current_tick_) - int64_t(elapsed_ticks_));
 
-        // Optimization -- start at the first group with events
-        current_group_firing_       = quantum->first_group_idx;
-
         for(auto clk : registered_clocks_) {
             clk->updateElapsedCycles(elapsed_ticks_);
         }
@@ -608,6 +605,10 @@ void Scheduler::run(Tick num_ticks,
         // propagated to this thread, but since we do not give any guarantees of
         // when async event are scheduled this is not a problem.
         if (SPARTA_EXPECT_FALSE(!async_event_list_empty_hint_)) {
+            // Nothing has fired in this tick yet, async events can
+            // still be scheduled in any group of it
+            current_group_firing_ = 0;
+
             std::unique_lock<std::mutex> lock(async_event_list_mutex_);
             if (!async_event_list_.empty()) {
                 sparta_assert(!async_event_list_empty_hint_);
@@ -622,6 +623,9 @@ void Scheduler::run(Tick num_ticks,
             }
         }
 
+        // Optimization -- start at the first group with events
+        current_group_firing_ = quantum->first_group_idx;
+
         const uint32_t grp_cnt = firing_group_count_;
         while(current_group_firing_ < grp_cnt)
         {
-- 
2.43.0


From 051e889173de796dc04d19fa8037bd32984de32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:44 +0000
Subject: [PATCH 09/55] fix: SyncOutPort::isReady() knows about data already
 sent this cycle

---
 sparta/sparta/ports/SyncPort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 3a64f08..7e87879 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -856,7 +856,7 @@ namespace sparta
         bool couldAccept_(const Clock *send_clk) const {
 
             Scheduler::Tick num_delay_ticks =
-                calculateClockCrossingDelay(send_clk->currentTick(), send_clk, receive_delay_ticks_, receiver_clock_);
+                calculateClockCrossingDelay(0, send_clk, receive_delay_ticks_, receiver_clock_);
 
             sparta::Scheduler::Tick cur_tick =
                 scheduler_->getCurrentTick();
-- 
2.43.0


From f8eb88409dcaa721b43f24996631e2c137faf143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:44 +0000
Subject: [PATCH 10/55] fix: SyncInPort recirculates data for one cycle,
 whatever the port delay

---
 sparta/sparta/ports/SyncPort.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 7e87879..31d8336 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -792,11 +792,16 @@ namespace sparta
                                  << "(" << num_in_flight_ << ") "
                                  << " # " << dat;
                 }
-                bool allow_slide = false;
-                bool is_fwd_progress = false;
 
-                send_(dat, receiver_clock_, sparta::Clock::Cycle(1), allow_slide, is_fwd_progress);
-                sparta_assert(num_in_flight_ > 0);
+                // The port delay has already elapsed, so the data goes
+                // round for exactly one cycle of the receiver
+                const sparta::Scheduler::Tick one_cycle = receiver_clock_->getPeriod();
+                sparta_assert(prev_data_arrival_tick_ < (cur_tick + one_cycle),
+                              getLocation() << ": cannot recirculate data behind the data arriving at tick "
+                              << prev_data_arrival_tick_);
+                prev_data_arrival_tick_ = cur_tick + one_cycle;
+                forward_event_->preparePayload(dat)->scheduleRelativeTick(one_cycle, scheduler_);
+                num_in_flight_++;
             }
 
             // Else, forward the data to the original handler
-- 
2.43.0


From 387abc892c63eb0f6f0abe98d9d43aaa4445577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 11/55] fix: SyncOutPort::send() refuses a second send in a
 cycle before delivering it

---
 sparta/sparta/ports/SyncPort.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 31d8336..7c9fadf 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -299,6 +299,13 @@ namespace sparta
                              << " allow_slide=" << allow_slide
                              << " # " << dat;
             }
+            sparta_assert(send_cycle > prev_data_send_cycle_ || prev_data_send_cycle_ == PREV_DATA_SEND_CYCLE_INIT, //init tick 0
+                          getLocation()
+                          << ": trying to send at cycle "
+                          << send_cycle
+                          << ", which is not later than the previous send cycle: "
+                          << prev_data_send_cycle_
+                          << "; SyncOutPorts are expected to send at most once per cycle");
             bool is_fwd_progress = true;
             uint64_t sched_delay_ticks = sync_in_port_->send_(dat, clk_, send_delay_cycles,
                                                               allow_slide, is_fwd_progress);
@@ -307,13 +314,6 @@ namespace sparta
                 collector_->collectWithDuration(dat, send_delay_cycles, 1);
             }
 
-            sparta_assert(send_cycle > prev_data_send_cycle_ || prev_data_send_cycle_ == PREV_DATA_SEND_CYCLE_INIT, //init tick 0
-                          getLocation()
-                          << ": trying to send at cycle "
-                          << send_cycle
-                          << ", which is not later than the previous send cycle: "
-                          << prev_data_send_cycle_
-                          << "; SyncOutPorts are expected to send at most once per cycle");
             prev_data_send_cycle_ = send_cycle;
             return sched_delay_ticks;
         }
-- 
2.43.0


From cfb9ec70f15058fc42481d18fb09513f5bd44152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 12/55] fix: Buffer refuses to erase, read or access through an
 iterator whose entry was erased

---
 sparta/sparta/resources/Buffer.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 9c7adc8..f1cabef 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -153,7 +153,7 @@ namespace sparta
              * This aides in lexicographical comparisons
              */
             uint32_t getIndex_() const {
-                if(buffer_entry_ == nullptr) {
+                if(!isValid()) {
                     return attached_buffer_->capacity();
                 }
                 return buffer_entry_->physical_idx;
@@ -674,8 +674,10 @@ namespace sparta
             sparta_assert(entry.attached_buffer_ == this,
                           "Cannot erase an entry created by another Buffer");
             // erase the index in the actual buffer.
-            erase(entry.getIndex_());
-            return {this, buffer_map_[entry.getIndex_()]};
+            sparta_assert(entry.isValid(), "Cannot erase an entry that is no longer in the Buffer");
+            const uint32_t idx = entry.getIndex_();
+            erase(idx);
+            return {this, buffer_map_[idx]};
         }
 
         /**
-- 
2.43.0


From 3e3c4ca7a81b73c224f770a7400b853e0c90c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 13/55] fix: Buffer inserts before end(), and refuses to insert
 before an erased entry

---
 sparta/sparta/resources/Buffer.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index f1cabef..1caae19 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -586,25 +586,25 @@ namespace sparta
         //! Do an insert before a BufferIterator see insert method above
         iterator insert(const const_iterator & entry, const value_type& dat)
         {
-            return insert(entry.getIndex_(), dat);
+            return insert(getInsertIndex_(entry), dat);
         }
 
         //! Do an insert before a BufferIterator see insert method above
         iterator insert(const const_iterator & entry, value_type&& dat)
         {
-            return insert(entry.getIndex_(), std::move(dat));
+            return insert(getInsertIndex_(entry), std::move(dat));
         }
 
         //! Do an insert before a BufferIterator see insert method above
         iterator insert(const const_reverse_iterator & entry, const value_type& dat)
         {
-            return insert(entry.base().getIndex_(), dat);
+            return insert(getInsertIndex_(entry.base()), dat);
         }
 
         //! Do an insert before a BufferIterator see insert method above
         iterator insert(const const_reverse_iterator & entry, value_type&& dat)
         {
-            return insert(entry.base().getIndex_(), std::move(dat));
+            return insert(getInsertIndex_(entry.base()), std::move(dat));
         }
 
         /**
@@ -862,6 +862,15 @@ namespace sparta
             }
         };
 
+        //! The index in front of which an iterator stands; end() stands behind the last entry
+        uint32_t getInsertIndex_(const const_iterator & entry) const {
+            if(entry.buffer_entry_ == nullptr) {
+                return size();
+            }
+            sparta_assert(entry.isValid(), "Cannot insert before an entry that is no longer in the Buffer");
+            return entry.getIndex_();
+        }
+
         void updateUtilizationCounters_() {
             // Update Counters
             if(utilization_) {
-- 
2.43.0


From 3e6db0bbd97de533ec111dca6c41717eecef0a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:26 +0000
Subject: [PATCH 14/55] fix: Buffer that was moved from can be cleared and
 destroyed

---
 sparta/sparta/resources/Buffer.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 1caae19..97913bc 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -704,12 +704,14 @@ namespace sparta
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
-            for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
-                data_pool_[i].next_free = &data_pool_[i + 1];
+            if(data_pool_size_ != 0) { // a Buffer that was moved from has no pool
+                for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
+                    data_pool_[i].next_free = &data_pool_[i + 1];
+                }
+                data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
+                free_position_ = &data_pool_[0];
+                first_position_ = &data_pool_[0];
             }
-            data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
-            free_position_ = &data_pool_[0];
-            first_position_ = &data_pool_[0];
             validator_->clear();
             address_map_.clear();
             updateUtilizationCounters_();
-- 
2.43.0


From 7aa3b160d9753a2fdfaae65935372cfec3f33d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:26 +0000
Subject: [PATCH 15/55] fix: Buffer iterator to an erased entry stays invalid
 when the position is used again

---
 sparta/sparta/resources/Buffer.hpp | 97 ++++++++++++++----------------
 1 file changed, 44 insertions(+), 53 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 97913bc..ed7f154 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -104,6 +104,8 @@ namespace sparta
             DataPointer(DataPointer &&orig) noexcept {
                 ::memcpy(&object_memory_, &orig.object_memory_, sizeof(object_memory_));
                 data = reinterpret_cast<value_type*>(&object_memory_);
+                physical_idx = orig.physical_idx;
+                entry_id = orig.entry_id;
             }
 
             // No copies, only moves
@@ -117,6 +119,7 @@ namespace sparta
             value_type * data         = nullptr;
             DataPointer* next_free    = nullptr;
             uint32_t     physical_idx = 0; /*!< What index does this data currently reside */
+            uint64_t     entry_id     = 0; /*!< Which entry lives here; 0 if none does. Never used twice */
         };
         //Forward Declaration
         struct DataPointerValidator;
@@ -165,15 +168,25 @@ namespace sparta
             //! The DataPointer
             DataPointerType   buffer_entry_ = nullptr;
 
+            // Which of the entries that lived in this position is referenced
+            uint64_t          entry_id_ = 0;
+
+            // Refer to the given entry, nullptr for end()
+            void attachTo_(DataPointerType entry) {
+                buffer_entry_ = entry;
+                entry_id_ = (entry == nullptr) ? 0 : entry->entry_id;
+            }
+
             /**
              * \brief construct.
              * \param buffer a pointer to the underlaying buffer.
              * \param index The index this iterator points to in the Buffer
              */
             BufferIterator(BufferPointerType buffer, DataPointerType entry) :
-                attached_buffer_(buffer),
-                buffer_entry_(entry)
-            {}
+                attached_buffer_(buffer)
+            {
+                attachTo_(entry);
+            }
 
 
         public:
@@ -189,7 +202,8 @@ namespace sparta
              */
             BufferIterator(const BufferIterator<false> & iter) :
                 attached_buffer_(iter.attached_buffer_),
-                buffer_entry_(iter.buffer_entry_)
+                buffer_entry_(iter.buffer_entry_),
+                entry_id_(iter.entry_id_)
             {}
 
             /**
@@ -198,7 +212,8 @@ namespace sparta
              */
             BufferIterator(const BufferIterator<true> & iter) :
                 attached_buffer_(iter.attached_buffer_),
-                buffer_entry_(iter.buffer_entry_)
+                buffer_entry_(iter.buffer_entry_),
+                entry_id_(iter.entry_id_)
             {}
 
             /**
@@ -227,7 +242,7 @@ namespace sparta
             {
                 sparta_assert(attached_buffer_ == rhs.attached_buffer_,
                               "Cannot compare BufferIterators created by different buffers.");
-                return (buffer_entry_ == rhs.buffer_entry_);
+                return (buffer_entry_ == rhs.buffer_entry_) && (entry_id_ == rhs.entry_id_);
             }
 
             /// override the not equal operator.
@@ -243,7 +258,7 @@ namespace sparta
             bool isValid() const
             {
                 if(buffer_entry_ != nullptr) {
-                    return attached_buffer_->validator_->isValid(buffer_entry_);
+                    return attached_buffer_->validator_->isValid(buffer_entry_, entry_id_);
                 }
                 return false;
             }
@@ -279,10 +294,10 @@ namespace sparta
                 sparta_assert(isValid(), "Incrementing an iterator that is not valid");
                 const uint32_t idx = buffer_entry_->physical_idx + 1;
                 if(attached_buffer_->isValid(idx)) {
-                    buffer_entry_ = attached_buffer_->buffer_map_[idx];
+                    attachTo_(attached_buffer_->buffer_map_[idx]);
                 }
                 else {
-                    buffer_entry_ = nullptr;
+                    attachTo_(nullptr);
                 }
                 return *this;
             }
@@ -302,15 +317,15 @@ namespace sparta
                     uint32_t idx = buffer_entry_->physical_idx;
                     --idx;
                     if(attached_buffer_->isValid(idx)) {
-                        buffer_entry_ = attached_buffer_->buffer_map_[idx];
+                        attachTo_(attached_buffer_->buffer_map_[idx]);
                     }
                     else {
                         sparta_assert(idx < attached_buffer_->capacity(), "Decrementing the iterator results in buffer underrun");
-                        buffer_entry_ = nullptr;
+                        attachTo_(nullptr);
                     }
                 }
                 else if (attached_buffer_->size()) {
-                    buffer_entry_ = attached_buffer_->buffer_map_[attached_buffer_->size()-1];
+                    attachTo_(attached_buffer_->buffer_map_[attached_buffer_->size()-1]);
                 }
                 return *this;
             }
@@ -712,7 +727,7 @@ namespace sparta
                 free_position_ = &data_pool_[0];
                 first_position_ = &data_pool_[0];
             }
-            validator_->clear();
+            validator_->clear(data_pool_);
             address_map_.clear();
             updateUtilizationCounters_();
         }
@@ -822,45 +837,24 @@ namespace sparta
 
         struct DataPointerValidator
         {
-            //! The data_pool_ pointer which points to the actual
-            //  data_pool_ of the Buffer class.
-            const DataPool * data_pool_;
-            std::vector<uint32_t>  validator_; /*!< Keeps track of validity of iterator. */
-            size_type getIndex_(const DataPointer * dp)const {
-                auto i = (dp - &(*data_pool_)[0]);
-                return static_cast<size_type>(i);
-            }
-
-            DataPointerValidator(const Buffer &b):
-                data_pool_(&b.data_pool_),
-                validator_(b.num_entries_, 0)
-            {}
+            uint64_t last_entry_id_ = 0; /*!< The id handed out last */
 
-            void attachDataPointer(const DataPointer* dp){
-                validator_[getIndex_(dp)] = 1;
+            void attachDataPointer(DataPointer* dp){
+                dp->entry_id = ++last_entry_id_;
             }
 
-            bool isValid(const DataPointer * dp) const {
-                return bool(validator_[getIndex_(dp)]);
+            bool isValid(const DataPointer * dp, const uint64_t entry_id) const {
+                return dp->entry_id == entry_id;
             }
 
             void detachDataPointer(DataPointer * dp) {
-                validator_[getIndex_(dp)] = 0;
-            }
-
-            void clear() {
-                std::fill(validator_.begin(), validator_.end(), 0);
+                dp->entry_id = 0;
             }
 
-            /**
-             * \brief Resize the validator vector to new size.
-             *  Make the internal data_pool_ pointer point to the current
-             *  data_pool_ instance of the Buffer class.
-             */
-            void resizeIteratorValidator(const uint32_t resize_delta,
-                                         const DataPool & data_pool) {
-                validator_.resize(validator_.capacity() + resize_delta);
-                data_pool_ = &data_pool;
+            void clear(DataPool & data_pool) {
+                for(auto & dp : data_pool) {
+                    dp.entry_id = 0;
+                }
             }
         };
 
@@ -931,9 +925,6 @@ namespace sparta
             for(uint32_t i = 0; i < num_valid_; ++i) {
                 buffer_map_[i] = &data_pool_[address_map_[i]];
             }
-
-            // Resize the validator vector and relink the validator data pool.
-            validator_->resizeIteratorValidator(resize_delta_, data_pool_);
         }
 
         template<typename U>
@@ -949,9 +940,6 @@ namespace sparta
             free_position_->allocate(std::forward<U>(dat));
             free_position_->physical_idx = num_valid_;
 
-            // Create the entry to be returned.
-            iterator entry(this, free_position_);
-
             // Do the append now.  We can do this with different logic
             // that does not require a process.
             buffer_map_[num_valid_] = free_position_;
@@ -963,6 +951,9 @@ namespace sparta
                 static_cast<uint32_t>(free_position_ - &data_pool_[0]);
             //Mark this data pointer as valid
             validator_->attachDataPointer(free_position_);
+
+            // Create the entry to be returned.
+            iterator entry(this, free_position_);
             ++num_valid_;
             free_position_ = free_position_->next_free;
             updateUtilizationCounters_();
@@ -1081,7 +1072,7 @@ namespace sparta
         data_pool_.resize(data_pool_size_);
 
         // Must set the validator before you clear
-        validator_.reset(new DataPointerValidator(*this));
+        validator_.reset(new DataPointerValidator());
         clear();
     }
 
@@ -1097,7 +1088,7 @@ namespace sparta
         free_position_(rval.free_position_),
         first_position_(rval.first_position_),
         num_valid_(rval.num_valid_),
-        validator_(new DataPointerValidator(*this)),
+        validator_(new DataPointerValidator()),
         utilization_(std::move(rval.utilization_)),
         collector_(std::move(rval.collector_)),
         is_infinite_mode_(rval.is_infinite_mode_),
@@ -1111,7 +1102,7 @@ namespace sparta
         rval.num_valid_ = 0;
         rval.utilization_ = nullptr;
         rval.collector_ = nullptr;
-        validator_->validator_ = std::move(rval.validator_->validator_);
+        validator_->last_entry_id_ = rval.validator_->last_entry_id_;
         if(collector_) {
             collector_->reattach(this);
         }
-- 
2.43.0


From 64fc5d8628a387f3146b99f2ccde2983a3cab9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:26 +0000
Subject: [PATCH 16/55] fix: Buffer keeps its entries, their order and their
 iterators when it grows

---
 sparta/sparta/resources/Buffer.hpp | 69 ++++++------------------------
 1 file changed, 14 insertions(+), 55 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index ed7f154..2e96d96 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -10,6 +10,7 @@
 #pragma once
 
 #include <cinttypes>
+#include <deque>
 #include <vector>
 #include <algorithm>
 #include <type_traits>
@@ -101,14 +102,7 @@ namespace sparta
             DataPointer() { }
             ~DataPointer() { }
 
-            DataPointer(DataPointer &&orig) noexcept {
-                ::memcpy(&object_memory_, &orig.object_memory_, sizeof(object_memory_));
-                data = reinterpret_cast<value_type*>(&object_memory_);
-                physical_idx = orig.physical_idx;
-                entry_id = orig.entry_id;
-            }
-
-            // No copies, only moves
+            // The pool never relocates an entry
             DataPointer(const DataPointer &) = delete;
 
             template<typename U>
@@ -663,18 +657,12 @@ namespace sparta
                 sparta_assert(idx + 1 < num_entries_);
                 buffer_map_[idx] = buffer_map_[idx + 1];
                 buffer_map_[idx]->physical_idx = idx;
-
-                // Shift the indexes in the address map.
-                address_map_[idx] = address_map_[idx + 1];
                 ++idx;
             }
 
             // the entry at the old num_valid_ in the map now points to nullptr
             buffer_map_[top_idx_of_buffer] = nullptr;
 
-            // Remove this entry of the address map as it becomes a free position.
-            address_map_.erase(top_idx_of_buffer);
-
             // update counts.
             --num_valid_;
             updateUtilizationCounters_();
@@ -728,7 +716,6 @@ namespace sparta
                 first_position_ = &data_pool_[0];
             }
             validator_->clear(data_pool_);
-            address_map_.clear();
             updateUtilizationCounters_();
         }
 
@@ -832,7 +819,7 @@ namespace sparta
 
     private:
 
-        typedef std::vector<DataPointer>  DataPool;
+        typedef std::deque<DataPointer>   DataPool; // grows without relocating its entries
         typedef std::vector<DataPointer*> PointerList;
 
         struct DataPointerValidator
@@ -894,37 +881,28 @@ namespace sparta
             }
 
             // Resize the buffer_map_ with the amount provided by user.
-            buffer_map_.resize(buffer_map_.capacity() + resize_delta_);
+            buffer_map_.resize(buffer_map_.size() + resize_delta_);
 
             // The number of entries the buffer can hold (valid)
             num_entries_ = buffer_map_.size();
 
-            // Resize the data_pool_ to twice the capacity of the buffer_map_.
+            // Resize the data_pool_ to twice the size of the buffer_map_.
+            const size_type old_data_pool_size = data_pool_size_;
             data_pool_.resize(num_entries_ * 2);
-
-            // The number of entries the pool can hold is its capacity.
             data_pool_size_ = data_pool_.size();
 
-            // Each entry in data_pool_ should have their next free position
-            // pointer point to the slot to its right.
-            for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
+            // Append the new positions to the list of free ones, which
+            // always ends with the last position of the pool.
+            if(old_data_pool_size == 0) {
+                free_position_ = &data_pool_[0];
+                first_position_ = &data_pool_[0];
+            }
+            for(uint32_t i = (old_data_pool_size == 0) ? 0 : old_data_pool_size - 1; i < data_pool_size_ - 1; ++i) {
                 data_pool_[i].next_free = &data_pool_[i + 1];
             }
 
             // The last entry should point to itself as the next free position.
             data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
-
-            // The first position should point to the first entry.
-            first_position_ = &data_pool_[0];
-
-            // The free position should point to the location according to
-            // the number of entries in the buffer.
-            free_position_ = &data_pool_[num_valid_];
-
-            // Make all the pointers in buffer_map_ point to the appropriate indexes.
-            for(uint32_t i = 0; i < num_valid_; ++i) {
-                buffer_map_[i] = &data_pool_[address_map_[i]];
-            }
         }
 
         template<typename U>
@@ -943,12 +921,6 @@ namespace sparta
             // Do the append now.  We can do this with different logic
             // that does not require a process.
             buffer_map_[num_valid_] = free_position_;
-
-            // Store the index in the data_pool_ to which current
-            // free_position_ points to. We need to relink all these
-            // pointers once the data_pool_ resizes.
-            address_map_[num_valid_] =
-                static_cast<uint32_t>(free_position_ - &data_pool_[0]);
             //Mark this data pointer as valid
             validator_->attachDataPointer(free_position_);
 
@@ -988,19 +960,10 @@ namespace sparta
                 //assert that we are not going to do an invalid read.
                 buffer_map_[i] = buffer_map_[i - 1];
                 buffer_map_[i]->physical_idx = i ;
-
-                // Shift the indexes in the map.
-                address_map_[i] = address_map_[i - 1];
                 --i;
             }
 
             buffer_map_[idx] = free_position_;
-
-            // Store the index in the data_pool_ to which current
-            // free_position_ points to. We need to relink all these
-            // pointers once the data_pool_ resizes.
-            address_map_[num_valid_] =
-                static_cast<uint32_t>(free_position_ - &data_pool_[0]);
             ++num_valid_;
             free_position_ = free_position_->next_free;
             updateUtilizationCounters_();
@@ -1035,9 +998,6 @@ namespace sparta
         //! The amount by which the internal vectors should grow.
         //  The additional amount of entries the vector must allocate when resizing.
         sparta::utils::ValidValue<uint32_t> resize_delta_;
-
-        //! A map which holds indexes from buffer_map_ to indexes in data_pool_.
-        std::unordered_map<uint32_t, uint32_t> address_map_;
     };
 
     ////////////////////////////////////////////////////////////////////////////////
@@ -1092,8 +1052,7 @@ namespace sparta
         utilization_(std::move(rval.utilization_)),
         collector_(std::move(rval.collector_)),
         is_infinite_mode_(rval.is_infinite_mode_),
-        resize_delta_(std::move(rval.resize_delta_)),
-        address_map_(std::move(rval.address_map_)){
+        resize_delta_(std::move(rval.resize_delta_)){
         rval.clk_ = nullptr;
         rval.num_entries_ = 0;
         rval.data_pool_size_ = 0;
-- 
2.43.0


From bee00f81c1b1c031a0ed75ef9ee94985a0232bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 17/55] fix: CircularBuffer iterator past the end does not
 become valid when an entry is appended

---
 sparta/sparta/resources/CircularBuffer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 3630fee..0729f72 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -251,7 +251,10 @@ namespace sparta
             bool isValid() const
             {
                 if(attached_circularbuffer_) {
-                    return attached_circularbuffer_->isValidIterator_(window_idx_);
+                    // An end() iterator stays past-the-end, even if an
+                    // entry appended later took its place in the window
+                    return attached_circularbuffer_->isValidIterator_(window_idx_) &&
+                        (circularbuffer_entry_ != attached_circularbuffer_->circularbuffer_data_.end());
                 }
                 return false;
             }
@@ -689,7 +692,7 @@ namespace sparta
 
         // Used by the internal iterator type to see if it's still
         // valid
-        bool isValidIterator_(uint32_t window_idx) const {
+        bool isValidIterator_(uint64_t window_idx) const {
             return (window_idx >= start_idx_ && window_idx < end_idx_);
         }
 
-- 
2.43.0


From 1093b651165c92db9048d1b53daaf6d6bd668872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 18/55] fix: CircularBuffer insert never exceeds the capacity,
 insert and erase update the utilization counters

---
 sparta/sparta/resources/CircularBuffer.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 0729f72..b97ef56 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -703,6 +703,7 @@ namespace sparta
             circularbuffer_data_.erase(entry.getInternalBufferEntry_());
             --num_valid_;
             invalidateIndexes_();
+            updateUtilizationCounters_();
         }
 
         template<typename U>
@@ -735,10 +736,21 @@ namespace sparta
             }
             sparta_assert(entry.isValid(),
                         "Cannot insert into Circularbuffer at given iterator");
-            auto it = circularbuffer_data_.insert(entry.getInternalBufferEntry_(),
-                                                  CircularBufferData(std::forward<U>(dat), end_idx_));
+            auto pos = entry.getInternalBufferEntry_();
+            // Construct first, the data may refer to the entry being dropped
+            CircularBufferData new_entry(std::forward<U>(dat), end_idx_);
+            if(num_valid_ == max_size_) {
+                // Full: as with push_back, the oldest entry makes room
+                if(pos == circularbuffer_data_.begin()) {
+                    ++pos;
+                }
+                circularbuffer_data_.pop_front();
+                --num_valid_;
+            }
+            auto it = circularbuffer_data_.insert(pos, std::move(new_entry));
             ++num_valid_;
             invalidateIndexes_();
+            updateUtilizationCounters_();
             return iterator(this, it, it->window_idx);
         }
 
-- 
2.43.0


From 40c698c98d72c1fe91abc11a3a37ec0538ec8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:51 +0000
Subject: [PATCH 19/55] fix: FrontArray::readValid counts valid entries, not
 positions

---
 sparta/sparta/resources/FrontArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index e7b9121..28abdc9 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -57,7 +57,7 @@ namespace sparta{
             uint32_t i = 0;
             while(n <= nth)
             {
-                if(BaseArray::isValid(n))
+                if(BaseArray::isValid(i))
                 {
                     ++n;
                 }
-- 
2.43.0


From daa4fbad8edd5d56037e9f24e6eca06b924b5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:51 +0000
Subject: [PATCH 20/55] fix: FrontArray push_front and push_back of temporaries
 compile

---
 sparta/sparta/resources/FrontArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index 28abdc9..ee4319f 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -132,7 +132,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_front(DataT&& dat) { return writeFront(std::forward(dat)); }
+        uint32_t push_front(DataT&& dat) { return writeFront(std::move(dat)); }
 
         /**
          * \brief Push the first available index in the Array starting from the back
@@ -146,7 +146,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_back(DataT && dat) { return writeBack(std::forward(dat)); }
+        uint32_t push_back(DataT && dat) { return writeBack(std::move(dat)); }
 
     private:
         template<typename U>
-- 
2.43.0


From a2da87f982f999aa607f5bc3be35c3d27e1c46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 21/55] fix: Array destroys the old entry when it is
 overwritten

---
 sparta/sparta/resources/Array.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index 15e0432..d6ff331 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -67,8 +67,8 @@ namespace sparta
             explicit ArrayPosition(U && data) :
                 data(std::forward<U>(data)){}
 
-            bool valid;
-            bool to_validate;
+            bool valid = false;
+            bool to_validate = false;
             DataT data;
             std::list<uint32_t>::iterator list_pointer;
             uint64_t age_abs_id = 0; // Absolute ID of all allocations
@@ -933,19 +933,24 @@ namespace sparta
             sparta_assert(idx < num_entries_,
                         "Cannot write to an index outside the bounds of the array.");
 
-            // We're overwriting an entry, clear valid and age information.
+            // We're overwriting an entry, clear valid and age information
+            // and destroy the old data (the new data might refer to it).
             if(SPARTA_EXPECT_FALSE(isValid(idx)))
             {
+                ArrayPosition new_position(std::forward<U>(dat));
                 --num_valid_;
                 if constexpr (ArrayT == ArrayType::AGED) {
                     aged_list_.erase(array_[idx].list_pointer);
                 }
+                array_[idx].~ArrayPosition();
+                new (array_.get() + idx) ArrayPosition(std::move(new_position));
+            }
+            else {
+                // Since we are not timed. Write the data and validate it,
+                // then do pipeline collection.
+                new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
+                valid_index_set_.insert(idx);
             }
-
-            // Since we are not timed. Write the data and validate it,
-            // then do pipeline collection.
-            new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
-            valid_index_set_.insert(idx);
 
             // Timestamp the entry in the array, for fast age comparison between two indexes.
             array_[idx].age_abs_id = next_age_abs_id_;
-- 
2.43.0


From 061a061513dee14a80f67e428412a05ff533db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 22/55] fix: Array::erase by index works on an index taken from
 the aged list

---
 sparta/sparta/resources/Array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index d6ff331..d59cfa8 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -716,7 +716,7 @@ namespace sparta
          * \brief Invalidate the entry at a certain index.
          * \param idx The index to invalidate.
          */
-        void erase(const uint32_t& idx)
+        void erase(const uint32_t idx)
         {
             sparta_assert(isValid(idx), "Cannot invalidate a non valid index.");
             sparta_assert(num_valid_ > 0);
-- 
2.43.0


From 234fa43cd5bc9eb930c04c52027a1e41a341a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 23/55] fix: Pipe::flushIf does not count flushed append data
 as a valid stage

---
 sparta/sparta/resources/Pipe.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipe.hpp b/sparta/sparta/resources/Pipe.hpp
index f041552..62235f5 100644
--- a/sparta/sparta/resources/Pipe.hpp
+++ b/sparta/sparta/resources/Pipe.hpp
@@ -385,7 +385,8 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(pe.data.getValue() == criteria){
-                    if(pe.data.isValid()) {
+                    // Appended data does not count, yet
+                    if(i >= 0) {
                         --num_valid_;
                     }
                     pe.data.clearValid();
@@ -408,7 +409,8 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(compare(pe.data.getValue())){
-                    if(pe.data.isValid()) {
+                    // Appended data does not count, yet
+                    if(i >= 0) {
                         --num_valid_;
                     }
                     pe.data.clearValid();
-- 
2.43.0


From 966d0a52b8f6974bc40e8430b1f9102fbd4537f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:43 +0000
Subject: [PATCH 24/55] fix: Pipeline flush cancels the handlers of a stage
 that a stall has deactivated meanwhile

---
 sparta/sparta/resources/Pipeline.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Pipeline.hpp b/sparta/sparta/resources/Pipeline.hpp
index b7f58f8..2b1625d 100644
--- a/sparta/sparta/resources/Pipeline.hpp
+++ b/sparta/sparta/resources/Pipeline.hpp
@@ -1026,11 +1026,10 @@ namespace sparta
         {
             sparta_assert(stage_id < num_stages_,
                           "Try to cancel events for invalid pipeline stage[" << stage_id << "]");
-            if (pipe_.isValid(stage_id) && events_valid_at_stage_[stage_id]) {
-                sparta_assert(event_list_at_stage_[stage_id].size());
-                for (const auto & ev_ptr :  event_list_at_stage_[stage_id]) {
-                    ev_ptr->cancel(sparta::Clock::Cycle(0));
-                }
+            // The stage's events might have been scheduled before they
+            // were deactivated (stall) or before the stage was invalidated
+            for (const auto & ev_ptr :  event_list_at_stage_[stage_id]) {
+                ev_ptr->cancel(sparta::Clock::Cycle(0));
             }
         }
 
-- 
2.43.0


From 748fab9f9e79e5423928e750d86eb7f7f37ccc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:29 +0000
Subject: [PATCH 25/55] fix: end of a Pipeline stall does not reactivate
 handlers that were deactivated explicitly

---
 sparta/sparta/resources/Pipeline.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/resources/Pipeline.hpp b/sparta/sparta/resources/Pipeline.hpp
index 2b1625d..3235dec 100644
--- a/sparta/sparta/resources/Pipeline.hpp
+++ b/sparta/sparta/resources/Pipeline.hpp
@@ -258,6 +258,7 @@ namespace sparta
                           "Error: Pipeline is templated on a unsupported Event type. Supported Event types: "
                           "UniqueEvent, PayloaodEvent (where DataT == DataT of the Pipeline).");
             events_valid_at_stage_.resize(num_stages, false);
+            events_suppressed_at_stage_.resize(num_stages, false);
             advance_into_stage_.resize(num_stages, true);
 
             ev_pipeline_update_.setScheduleableClock(clk);
@@ -594,6 +595,7 @@ namespace sparta
                           "Activation fails: No registered event handler for stage[" << id << "]!");
 
             events_valid_at_stage_[id] = true;
+            events_suppressed_at_stage_[id] = false;
         }
 
         /*!
@@ -1039,7 +1041,7 @@ namespace sparta
             sparta_assert(num_stages_ == event_list_at_stage_.size());
 
             for (uint32_t i = 0; i < num_stages_; i++) {
-                if (pipe_.isValid(i) && events_valid_at_stage_[i]) {
+                if (pipe_.isValid(i) && events_valid_at_stage_[i] && !events_suppressed_at_stage_[i]) {
                     sparta_assert(event_list_at_stage_[i].size());
                     for (const auto & ev_ptr :  event_list_at_stage_[i]) {
                         if constexpr (std::is_same_v<EventT, PhasedPayloadEvent<DataT>>) {
@@ -1066,8 +1068,8 @@ namespace sparta
                     return; // bubble, crush it by allowing earlier stages to advance
                 }
 
-                if (suppress_events && event_list_at_stage_[stage_id].size() > 0) {
-                    events_valid_at_stage_[stage_id] = false;
+                if (suppress_events) {
+                    events_suppressed_at_stage_[stage_id] = true;
                 }
                 advance_into_stage_[stage_id] = false;
             }
@@ -1079,9 +1081,7 @@ namespace sparta
             for (uint32_t stage_id = 0; stage_id <= stall_stage_id; stage_id++) {
                 sparta_assert(stage_id < num_stages_,
                               "Try to restart invalid pipeline stage[" << stage_id << "]");
-                if (event_list_at_stage_[stage_id].size() > 0) {
-                    events_valid_at_stage_[stage_id] = true;
-                }
+                events_suppressed_at_stage_[stage_id] = false;
                 advance_into_stage_[stage_id] = true;
             }
         }
@@ -1106,6 +1106,9 @@ namespace sparta
 
         //! A vector of valid/active bits for pipeline stage events
         std::vector<bool> events_valid_at_stage_;
+
+        //! A vector of bits for pipeline stage events suppressed by a stall
+        std::vector<bool> events_suppressed_at_stage_;
         std::vector<bool> advance_into_stage_;
 
         //! A vector of event index matrix for every pipeline stage
-- 
2.43.0


From 6032b4fd970d15afd71ee5a95352a882abe6aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:14 +0000
Subject: [PATCH 26/55] fix: Pipeline default precedence orders stages whose
 handlers share a phase across stages that do not

---
 sparta/sparta/resources/Pipeline.hpp | 37 +++++++++++++---------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/sparta/sparta/resources/Pipeline.hpp b/sparta/sparta/resources/Pipeline.hpp
index 3235dec..5021b7e 100644
--- a/sparta/sparta/resources/Pipeline.hpp
+++ b/sparta/sparta/resources/Pipeline.hpp
@@ -434,27 +434,24 @@ namespace sparta
 
             bool forward = (static_cast<uint32_t>(default_precedence) == static_cast<uint32_t>(Precedence::FORWARD));
 
-            uint32_t pid = 0;
-            uint32_t cid = pid + 1;
-            while (cid < event_list_at_stage_.size()) {
-                if (event_list_at_stage_[pid].empty()) {
-                    ++pid;
-                } else if (event_list_at_stage_[cid].empty()) {
-                    ++cid;
-                } else {
-                    if (forward) {
-                        // This function can only be called when 'default_precedence_' is Precedence::NONE
-                        setPrecedenceBetweenStage(pid, cid);
-                    } else {
-                        setPrecedenceBetweenStage(cid, pid);
+            // Chain the stages of each phase, skipping those without a
+            // handler in that phase
+            for (uint32_t phase_id = 0; phase_id < NUM_SCHEDULING_PHASES; phase_id++) {
+                const EventMatrix * prev_stage = nullptr;
+                for (auto & stage : event_matrix_at_stage_) {
+                    if (stage[phase_id].empty()) {
+                        continue;
                     }
-
-                    // Skip the empty stages between producer and consumer to avoid duplicated checking
-                    pid = cid;
-                }
-
-                if (pid == cid) {
-                    ++cid;
+                    if (prev_stage != nullptr) {
+                        const auto & producers = forward ? (*prev_stage)[phase_id] : stage[phase_id];
+                        const auto & consumers = forward ? stage[phase_id] : (*prev_stage)[phase_id];
+                        if constexpr (std::is_same_v<EventT, PhasedPayloadEvent<DataT>>) {
+                            producers.back()->getScheduleable().precedes(consumers.front()->getScheduleable());
+                        } else {
+                            producers.back()->precedes(*consumers.front());
+                        }
+                    }
+                    prev_stage = &stage;
                 }
             }
 
-- 
2.43.0


From f61d0f17657b00b5f267b2694d052e95530809dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 27/55] fix: back() and remove() of a bounded PriorityQueue
 compile

---
 sparta/sparta/resources/PriorityQueue.hpp | 18 +++++++++++++++++-
 sparta/sparta/utils/FastList.hpp          |  6 ++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/PriorityQueue.hpp b/sparta/sparta/resources/PriorityQueue.hpp
index 84ec98c..49e9815 100644
--- a/sparta/sparta/resources/PriorityQueue.hpp
+++ b/sparta/sparta/resources/PriorityQueue.hpp
@@ -139,7 +139,23 @@ namespace sparta
 
         //! Remove the item from the queue
         void remove(const DataT & data) {
-            priority_items_.remove(data);
+            if constexpr (bounded_cnt == 0) {
+                priority_items_.remove(data);
+            }
+            else {
+                // FastList does not provide remove(); data might refer
+                // to an element of this queue
+                const DataT match(data);
+                for(auto it = priority_items_.begin(); it != priority_items_.end();)
+                {
+                    if(*it == match) {
+                        it = priority_items_.erase(it);
+                    }
+                    else {
+                        ++it;
+                    }
+                }
+            }
         }
 
         //! Erase the item from the queue (const_iterator/iterator)
diff --git a/sparta/sparta/utils/FastList.hpp b/sparta/sparta/utils/FastList.hpp
index d2ea3f7..3d48f84 100644
--- a/sparta/sparta/utils/FastList.hpp
+++ b/sparta/sparta/utils/FastList.hpp
@@ -232,6 +232,12 @@ namespace sparta::utils
         //! Get the front of the fast list, const
         const DataT & front() const { return *begin(); }
 
+        //! Get the back of the fast list non-const
+        DataT & back() { return *iterator(this, last_node_); }
+
+        //! Get the back of the fast list, const
+        const DataT & back() const { return *const_iterator(this, last_node_); }
+
         //! \return Is this container empty?
         bool   empty()    const { return size_ == 0; }
 
-- 
2.43.0


From 1509dd46ddf674caf69c50b24cae9dc87910654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 28/55] fix: two writes to SharedData in one cycle schedule one
 update

---
 sparta/sparta/resources/SharedData.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/SharedData.hpp b/sparta/sparta/resources/SharedData.hpp
index 8b23e9c..c7711c9 100644
--- a/sparta/sparta/resources/SharedData.hpp
+++ b/sparta/sparta/resources/SharedData.hpp
@@ -233,12 +233,17 @@ namespace sparta
         void writeImpl_(U && dat) {
             data_[NState_()] = std::forward<U>(dat);
             if constexpr (!manual_update) {
-                ev_update_.schedule(1);
+                // One update moves all of this cycle's writes
+                if(!update_pending_) {
+                    update_pending_ = true;
+                    ev_update_.schedule(1);
+                }
             }
         }
 
         void update_()
         {
+            update_pending_ = false;
             current_state_ = NState_();
             clearNS();
         }
@@ -246,6 +251,9 @@ namespace sparta
         // Global Event
         GlobalEvent<SchedulingPhase::Update> ev_update_;
 
+        // Is an update scheduled?
+        bool update_pending_ = false;
+
         // Current state
         uint32_t current_state_ = 0;
 
-- 
2.43.0


From 8ba947a1e8724a04dc0eafd993986c65f3e075ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 29/55] fix: an assigned LifeTracker refers to itself, not to a
 dead temporary

---
 sparta/sparta/utils/LifeTracker.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sparta/sparta/utils/LifeTracker.hpp b/sparta/sparta/utils/LifeTracker.hpp
index 79f3ad3..5ee4ac1 100644
--- a/sparta/sparta/utils/LifeTracker.hpp
+++ b/sparta/sparta/utils/LifeTracker.hpp
@@ -72,6 +72,19 @@ namespace sparta
                 tracked_object(obj)
             {}
 
+            //! A copy tracks the same object but has a life of its own
+            LifeTracker(const LifeTracker & rhs) :
+                LifeTracker(rhs.tracked_object)
+            {}
+
+            //! Assignment ends the tracking done so far
+            LifeTracker & operator=(const LifeTracker & rhs) {
+                std::shared_ptr<LifeTracker<TrackedObjectT>>::operator=(
+                    std::shared_ptr<LifeTracker<TrackedObjectT>>(this, [] (LifeTracker<TrackedObjectT> *) {}));
+                tracked_object = rhs.tracked_object;
+                return *this;
+            }
+
             TrackedObjectT * tracked_object;
         };
 
-- 
2.43.0


From e0c373e6890e66ab6e825254fe4742d81a76c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 30/55] fix: the next value of a copied, moved or assigned
 SharedData becomes present

---
 sparta/sparta/resources/SharedData.hpp | 28 ++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/sparta/sparta/resources/SharedData.hpp b/sparta/sparta/resources/SharedData.hpp
index c7711c9..2cf4bca 100644
--- a/sparta/sparta/resources/SharedData.hpp
+++ b/sparta/sparta/resources/SharedData.hpp
@@ -54,6 +54,16 @@ namespace sparta
             ev_update_.resetHandler(CREATE_SPARTA_HANDLER(SharedData, update_));
         }
 
+        // An update scheduled by rhs moves rhs only
+        void carryUpdate_(const SharedData & rhs)
+        {
+            update_pending_ = rhs.update_pending_;
+            update_cycle_ = rhs.update_cycle_;
+            if(update_pending_) {
+                ev_update_.schedule(update_cycle_ - clk_->currentCycle());
+            }
+        }
+
     public:
         /**
          * \brief Construct a SharedData item
@@ -65,31 +75,39 @@ namespace sparta
         SharedData(const std::string & name,
                    const Clock * clk,
                    U && init_val = U()) :
+            clk_(clk),
             ev_update_(clk, CREATE_SPARTA_HANDLER(SharedData, update_))
         {
             writePS(std::forward<U>(init_val));
         }
 
         SharedData(const SharedData& rhs) :
+            clk_(rhs.clk_),
             ev_update_(rhs.ev_update_),
             current_state_(rhs.current_state_),
             data_(rhs.data_)
         {
             resetHandler_();
+            carryUpdate_(rhs);
         }
 
         SharedData(SharedData&& rhs) :
+            clk_(rhs.clk_),
             ev_update_(std::move(rhs.ev_update_)),
             current_state_(std::move(rhs.current_state_)),
             data_(std::move(rhs.data_))
         {
             resetHandler_();
+            carryUpdate_(rhs);
+            rhs.update_pending_ = false;
         }
 
         SharedData& operator=(const SharedData& rhs)
         {
+            clk_ = rhs.clk_;
             ev_update_ = rhs.ev_update_;
             resetHandler_();
+            carryUpdate_(rhs);
 
             current_state_ = rhs.current_state_;
             data_ = rhs.data_;
@@ -99,8 +117,11 @@ namespace sparta
 
         SharedData& operator=(SharedData&& rhs)
         {
+            clk_ = rhs.clk_;
             ev_update_ = std::move(rhs.ev_update_);
             resetHandler_();
+            carryUpdate_(rhs);
+            rhs.update_pending_ = false;
 
             current_state_ = std::move(rhs.current_state_);
             data_ = std::move(rhs.data_);
@@ -236,6 +257,7 @@ namespace sparta
                 // One update moves all of this cycle's writes
                 if(!update_pending_) {
                     update_pending_ = true;
+                    update_cycle_ = clk_->currentCycle() + 1;
                     ev_update_.schedule(1);
                 }
             }
@@ -248,12 +270,18 @@ namespace sparta
             clearNS();
         }
 
+        // The clock of this object
+        const Clock * clk_ = nullptr;
+
         // Global Event
         GlobalEvent<SchedulingPhase::Update> ev_update_;
 
         // Is an update scheduled?
         bool update_pending_ = false;
 
+        // The cycle it is scheduled for
+        Clock::Cycle update_cycle_ = 0;
+
         // Current state
         uint32_t current_state_ = 0;
 
-- 
2.43.0


From f3ad1f4d262819bbe9e6e83d2b431c7926f7ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:20 +0000
Subject: [PATCH 31/55] fix: assigning or resetting a shared pointer kept in
 the object it releases

---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index fcdc796..cf977b8 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -11,6 +11,7 @@
 #include <cinttypes>
 #include <cassert>
 #include <type_traits>
+#include <utility>
 
 #include "sparta/utils/Utils.hpp"
 #include "sparta/utils/MetaStructs.hpp"
@@ -195,11 +196,9 @@ namespace sparta
         SpartaSharedPointer & operator=(const SpartaSharedPointer & orig)
         {
             sparta_assert(&orig != this);
-            unlink_();
-            ref_count_ = orig.ref_count_;
-            if(SPARTA_EXPECT_TRUE(ref_count_ != nullptr)) {
-                ++ref_count_->count;
-            }
+            // The original might live in the object detached from
+            SpartaSharedPointer keep(orig);
+            std::swap(ref_count_, keep.ref_count_);
             return *this;
         }
 
@@ -214,9 +213,9 @@ namespace sparta
         SpartaSharedPointer & operator=(SpartaSharedPointer && orig)
         {
             sparta_assert(&orig != this);
-            unlink_();
-            ref_count_ = orig.ref_count_;
-            orig.ref_count_ = nullptr;
+            // The original might live in the object detached from
+            SpartaSharedPointer keep(std::move(orig));
+            std::swap(ref_count_, keep.ref_count_);
             return *this;
         }
 
@@ -277,8 +276,9 @@ namespace sparta
          * \param p The new pointer
          */
         void reset(PointerT * p = nullptr) {
-            unlink_();
-            ref_count_ = p == nullptr ? nullptr : new RefCount(p);
+            // This pointer might live in the object detached from
+            SpartaSharedPointer keep(p);
+            std::swap(ref_count_, keep.ref_count_);
         }
 
         /**
-- 
2.43.0


From 5b5e6f3476779410989e52c68ff503d9773e5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:20 +0000
Subject: [PATCH 32/55] fix: pooled allocation survives constructors that
 allocate or throw

---
 .../utils/SpartaSharedPointerAllocator.hpp    | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
index 851caab..85710d6 100644
--- a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
@@ -347,10 +347,18 @@ namespace sparta
 
                 // construct value in memory of aligned storage
                 // using inplace operator new
-                auto block = new(&data_[size_]) MemBlock(alloc, std::forward<Args>(args)...);
-                ++size_;
-
-                return block;
+                // Claim the storage first: the constructor of the
+                // object might allocate another object
+                const std::size_t idx = size_++;
+                try {
+                    return new(&data_[idx]) MemBlock(alloc, std::forward<Args>(args)...);
+                }
+                catch(...) {
+                    if(size_ == idx + 1) {
+                        --size_;
+                    }
+                    throw;
+                }
             }
 
             // Access an object in aligned storage
@@ -399,7 +407,15 @@ namespace sparta
                 block->ref_count->mem_block = (void*)block;
                 block->ref_count->count = 1;
                 // perform an in place new on the reused pointer
-                new (block->ref_count->p) PointerT(std::forward<PointerTArgs>(args)...);
+                try {
+                    new (block->ref_count->p) PointerT(std::forward<PointerTArgs>(args)...);
+                }
+                catch(...) {
+                    // No object was made, the block is still free
+                    block->ref_count->count = -1;
+                    releaseBlock_(block);
+                    throw;
+                }
             }
             else {
                 if(SPARTA_EXPECT_FALSE(allocated_ > water_mark_)) {
-- 
2.43.0


From 452381586ca208db0f221a29f6d71e2b19ef973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:20 +0000
Subject: [PATCH 33/55] fix: locking an expired weak pointer yields a null
 pointer

---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index cf977b8..b849394 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -514,6 +514,9 @@ namespace sparta
          * \return nullptr if the SpartaSharedPointer has expired; otherwise a locked version
          */
         SpartaSharedPointer<PointerT> lock() const noexcept {
+            if(expired()) {
+                return SpartaSharedPointer<PointerT>(nullptr);
+            }
             return SpartaSharedPointer<PointerT>(wp_ref_cnt_, true);
         }
 
-- 
2.43.0


From 51e85244933d312b0a0d953ae0a3aca894d8f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 34/55] fix: deleted checkpoints are not found, loaded or
 deleted again

---
 .../checkpoint/FastCheckpointer.hpp              | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 419d3bf..67d67c7 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -425,11 +425,7 @@ namespace sparta::serialization::checkpoint
          * \return Checkpoint with ID of \a id if found or nullptr if not found
          */
         const checkpoint_type* findCheckpoint(chkpt_id_t id) noexcept {
-            auto it = chkpts_.find(id);
-            if (it != chkpts_.end()) {
-                return static_cast<checkpoint_type*>(it->second.get());
-            }
-            return nullptr;
+            return findCheckpoint_(id);
         }
 
         /*!
@@ -440,7 +436,7 @@ namespace sparta::serialization::checkpoint
          * always returns false
          */
         bool hasCheckpoint(chkpt_id_t id) noexcept override {
-            return chkpts_.find(id) != chkpts_.end();
+            return findCheckpoint_(id) != nullptr;
         }
 
         /*!
@@ -883,13 +879,13 @@ namespace sparta::serialization::checkpoint
         /*!
          * \brief Attempts to find a checkpoint within this checkpointer by ID.
          * \param id Checkpoint ID to search for
-         * \return Pointer to found checkpoint with matchind ID. If not found,
-         * returns nullptr.
+         * \return Pointer to found checkpoint with matchind ID. If not found
+         * or flagged as deleted, returns nullptr.
          * \todo Faster lookup?
          */
         checkpoint_type* findCheckpoint_(chkpt_id_t id) noexcept {
             auto itr = chkpts_.find(id);
-            if (itr != chkpts_.end()) {
+            if (itr != chkpts_.end() && !itr->second->isFlaggedDeleted()) {
                 return static_cast<checkpoint_type*>(itr->second.get());
             }
             return nullptr;
@@ -900,7 +896,7 @@ namespace sparta::serialization::checkpoint
          */
         const checkpoint_type* findCheckpoint_(chkpt_id_t id) const noexcept {
             auto itr = chkpts_.find(id);
-            if (itr != chkpts_.end()) {
+            if (itr != chkpts_.end() && !itr->second->isFlaggedDeleted()) {
                 return static_cast<checkpoint_type*>(itr->second.get());
             }
             return nullptr;
-- 
2.43.0


From 60be215bfa454dd2ff5385221d17bf26710d36df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 35/55] fix: refuse to delete the head checkpoint as documented

---
 sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 67d67c7..03ff5a2 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -226,6 +226,11 @@ namespace sparta::serialization::checkpoint
                     << id << " because no checkpoint by this ID was found";
             }
 
+            if(d == getHead()){
+                throw CheckpointError("Could not delete checkpoint ID=")
+                    << id << " because it is the head checkpoint";
+            }
+
             // Allow deletion and change ID to UNIDENTIFIED_CHECKPOINT.
             // This is still part of a chain though until there are no
             // dependencies on it.
-- 
2.43.0


From 22e41cd19c79f9d83a46ca777f6fbb3d931120c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 36/55] fix: findLatestCheckpointAtOrBefore never yields a
 deleted checkpoint

---
 sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 03ff5a2..3ed9905 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -414,7 +414,7 @@ namespace sparta::serialization::checkpoint
 
             // Search backward
             do{
-                if(d->getTick() <= tick){
+                if(d->getTick() <= tick && !d->isFlaggedDeleted()){
                     break;
                 }
                 d = static_cast<checkpoint_type*>(d->getPrev());
-- 
2.43.0


From 1dc724cf4de27f9ec387aa4a94c4aeb960711ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 37/55] fix: deltas include state written through DMI

---
 sparta/sparta/functional/ArchData.hpp | 11 ++++++++++-
 sparta/sparta/memory/MemoryObject.hpp |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 4cce93e..c710d79 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -294,7 +294,15 @@ namespace sparta
              * Immediately after construction, this will be true.
              */
             bool isDirty() const {
-                return dirty_;
+                return dirty_ || always_dirty_;
+            }
+
+            /*!
+             * \brief Treat this line as modified from now on. To be used when
+             * it can be written through a raw pointer, unnoticed by this line
+             */
+            void flagAlwaysDirty() {
+                always_dirty_ = true;
             }
 
             //! \name Reading and Writing
@@ -409,6 +417,7 @@ namespace sparta
             offset_type size_;   //!< Size of this line
             bool is_pool_;       //!< Is this line's data part of a pool? If not, it is owned by this object
             mutable bool dirty_; //!< Is this line dirty. Mutable so that read methods can be const
+            bool always_dirty_ = false; //!< Can this line be written without dirty_ being set
             uint8_t * data_ = nullptr;   //!< Pointer to either the allocated memory or a pool
             std::unique_ptr<uint8_t[]> alloc_data_;      //!< Data held by this line. Always allocated
 
diff --git a/sparta/sparta/memory/MemoryObject.hpp b/sparta/sparta/memory/MemoryObject.hpp
index de78819..e366bed 100644
--- a/sparta/sparta/memory/MemoryObject.hpp
+++ b/sparta/sparta/memory/MemoryObject.hpp
@@ -332,6 +332,7 @@ namespace sparta
                 }
 
                 auto & line = binding_.getLine(aligned_addr);
+                line.flagAlwaysDirty(); // DMI writes go unnoticed by the line
                 dmi_ifs_.insert({aligned_addr,
                                  std::unique_ptr<DMIBlockingMemoryIF>
                                  (new DMIBlockingMemoryIF(line.getRawDataPtr(0),
-- 
2.43.0


From 3b384d39edb2fe093be2ececb1c982e80cb1f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 38/55] fix: the first checkpoint after forgetCurrent or
 restore from a stream is a snapshot

---
 .../serialization/checkpoint/Checkpointer.hpp |  2 +-
 .../checkpoint/FastCheckpointer.hpp           | 28 ++++++++++++++++++-
 .../checkpoint/PersistentFastCheckpointer.hpp |  1 +
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
index 20d01d2..814a254 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
@@ -306,7 +306,7 @@ namespace sparta::serialization::checkpoint
          * tick number >= this scheduler's head checkpoint tick.
          * \note has no effect if the head has no been created.
          */
-        void forgetCurrent() {
+        virtual void forgetCurrent() {
             if(head_){
                 current_ = head_;
             }
diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 3ed9905..f91b8ba 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -270,6 +270,8 @@ namespace sparta::serialization::checkpoint
 
             d->load(getArchDatas());
 
+            need_snapshot_ = false;
+
             // Move current to another checkpoint. Anything between head and the
             // old current_ is fair game for removal if allowed
             checkpoint_type* rmv = static_cast<checkpoint_type*>(getCurrent_());
@@ -288,6 +290,15 @@ namespace sparta::serialization::checkpoint
             cleanupChain_(rmv);
         }
 
+        /*!
+         * \brief Implements Checkpointer::forgetCurrent. Since there is no
+         * continuity with head, the next checkpoint will be a snapshot
+         */
+        void forgetCurrent() override {
+            Checkpointer::forgetCurrent();
+            stateReplaced_();
+        }
+
         /*!
          * \brief Gets all checkpoints taken at tick t on any timeline.
          * \param t Tick number at which checkpoints should found.
@@ -759,6 +770,15 @@ namespace sparta::serialization::checkpoint
             return to_save;
         }
 
+        /*!
+         * \brief To be called when the state no longer follows from the
+         * current checkpoint by writes alone. No delta can express the
+         * difference, so the next checkpoint must be a snapshot
+         */
+        void stateReplaced_() noexcept {
+            need_snapshot_ = true;
+        }
+
         /*!
          * \brief Delete given checkpoint and all contiguous previous
          * checkpoints which can be deleted (See checkpoint_type::canDelete).
@@ -1009,7 +1029,8 @@ namespace sparta::serialization::checkpoint
                                                        next_chkpt_id_++,
                                                        tick,
                                                        prev,
-                                                       force_snapshot || is_snapshot);
+                                                       force_snapshot || is_snapshot || need_snapshot_);
+            need_snapshot_ = false;
             chkpts_[dcp->getID()].reset(dcp);
             num_alive_checkpoints_++;
             num_alive_snapshots_ += (dcp->isSnapshot() == true);
@@ -1065,6 +1086,11 @@ namespace sparta::serialization::checkpoint
          * still exist in the checkpointer.
          */
         uint32_t num_dead_checkpoints_;
+
+        /*!
+         * \brief Must the next checkpoint be a snapshot
+         */
+        bool need_snapshot_ = false;
     };
 
 } // namespace sparta::serialization::checkpoint
diff --git a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
index 8b64086..9f43531 100644
--- a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
@@ -236,6 +236,7 @@ namespace sparta::serialization::checkpoint
          * \param in Input stream from which to retrieve checkpoint data
          */
         void restore(std::istream& in) {
+            stateReplaced_();
             auto adatas = getArchDatas();
             FileReadAdapter fsa(in);
             for (auto aditr=adatas.begin(); aditr!= adatas.end(); aditr++) {
-- 
2.43.0


From 6193fc45429cd0f3b88c4d6fddb8abf3e82e0d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 39/55] fix: committing a branch keeps count of the checkpoints
 it discards, also of deleted ones

---
 .../checkpoint/FastCheckpointer.hpp           | 37 ++++++++++---------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index f91b8ba..94da48b 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -616,7 +616,7 @@ namespace sparta::serialization::checkpoint
                 }
 
                 for (auto& [id, chkpt] : chkpts_) {
-                    chkpt->flagDeleted();
+                    discard_(chkpt.get());
                 }
                 chkpts_.clear();
 
@@ -668,19 +668,12 @@ namespace sparta::serialization::checkpoint
                     std::vector<chkpt_id_t> to_delete;
                     for (auto& [id, chkpt] : chkpts_) {
                         if (!to_keep.count(id)) {
-                            chkpt->flagDeleted();
+                            discard_(chkpt.get());
                             to_delete.emplace_back(id);
-                        }                        
+                        }
                     }
 
                     for (auto id : to_delete) {
-                        auto chkpt = std::move(chkpts_[id]);
-
-                        sparta_assert(num_alive_checkpoints_-- > 0);
-                        if (chkpt->isSnapshot()) {
-                            sparta_assert(num_alive_snapshots_-- > 0);
-                        }
-
                         chkpts_.erase(id);
                     }
 
@@ -749,13 +742,7 @@ namespace sparta::serialization::checkpoint
                     }
 
                     for (auto id : to_delete) {
-                        auto & chkpt = chkpts_[id];
-                        chkpt->flagDeleted();
-
-                        sparta_assert(num_alive_checkpoints_-- > 0);
-                        if (chkpt->isSnapshot()) {
-                            sparta_assert(num_alive_snapshots_-- > 0);
-                        }
+                        discard_(chkpts_[id].get());
                     }
 
                     for (auto id : to_delete) {
@@ -770,6 +757,22 @@ namespace sparta::serialization::checkpoint
             return to_save;
         }
 
+        /*!
+         * \brief Flag a checkpoint that is about to be freed as deleted and
+         * keep the counts of the checkpoints held
+         */
+        void discard_(checkpoint_type* d) {
+            if (d->isFlaggedDeleted()) {
+                sparta_assert(num_dead_checkpoints_-- > 0);
+                return;
+            }
+            d->flagDeleted();
+            sparta_assert(num_alive_checkpoints_-- > 0);
+            if (d->isSnapshot()) {
+                sparta_assert(num_alive_snapshots_-- > 0);
+            }
+        }
+
         /*!
          * \brief To be called when the state no longer follows from the
          * current checkpoint by writes alone. No delta can express the
-- 
2.43.0


From 19cfe7c427fdd63e5a11746968c39dfdf41337eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:58 +0000
Subject: [PATCH 40/55] fix: a deleted current checkpoint and what it depends
 on are kept

---
 .../serialization/checkpoint/FastCheckpointer.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 94da48b..ed52040 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -841,10 +841,11 @@ namespace sparta::serialization::checkpoint
 
                 checkpoint_type* prev = static_cast<checkpoint_type*>(d->getPrev());
 
-                // If nothing later in the chain (tree) depends on d's data, it can be deleted.
-                // This also patches the checkpoint tree around the deleted checkpoint
-                //! \todo canDelete is recursive at worst and might benefit from optimization
-                if(d->canDelete()) {
+                // If nothing later in the chain (tree), including current, depends on d's
+                // data, it can be deleted. This also patches the checkpoint tree around
+                // the deleted checkpoint
+                //! \todo recursForwardFindAlive_ is recursive at worst and might benefit from optimization
+                if(!recursForwardFindAlive_(d)) {
                     // Get checkpoint id regardless of whether alive or dead
                     chkpt_id_t id = d->getID();
                     if (d->isFlaggedDeleted()) {
@@ -880,9 +881,9 @@ namespace sparta::serialization::checkpoint
                 checkpoint_type* dc = static_cast<checkpoint_type*>(chkpt);
                 // Only check descendants for snapshot-ness
                 if(dc->isSnapshot()){
-                    // Found a live snapshot that ends this branch. d is not needed
-                    // after this
-                    return false;
+                    // Found a snapshot that ends this branch. d is not needed
+                    // after this, but may be on another branch
+                    continue;
                 }
                 if(dc == getCurrent_()){
                     // Found current in this search chain
-- 
2.43.0


From a86e857b81844c737f3fd767bf9966988f632330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:31 +0000
Subject: [PATCH 41/55] fix: a DMI of memory whose line was replaced or which
 was invalidated can be taken again

---
 sparta/sparta/memory/MemoryObject.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/memory/MemoryObject.hpp b/sparta/sparta/memory/MemoryObject.hpp
index e366bed..189ad4e 100644
--- a/sparta/sparta/memory/MemoryObject.hpp
+++ b/sparta/sparta/memory/MemoryObject.hpp
@@ -327,18 +327,23 @@ namespace sparta
                     return nullptr;
                 }
                 const auto aligned_addr = addr & block_mask_;
-                if(auto it = dmi_ifs_.find(aligned_addr); it != dmi_ifs_.end()) {
-                    return it->second.get();
-                }
 
                 auto & line = binding_.getLine(aligned_addr);
                 line.flagAlwaysDirty(); // DMI writes go unnoticed by the line
-                dmi_ifs_.insert({aligned_addr,
-                                 std::unique_ptr<DMIBlockingMemoryIF>
-                                 (new DMIBlockingMemoryIF(line.getRawDataPtr(0),
-                                                          line.getOffset(),
-                                                          line.getLayoutSize()))});
-                return dmi_ifs_[aligned_addr].get();
+
+                auto & dmi_if = dmi_ifs_[aligned_addr];
+                if(dmi_if && dmi_if->isValid() && dmi_if->getRawDataPtr() == line.getRawDataPtr(0)) {
+                    return dmi_if.get();
+                }
+                if(dmi_if) {
+                    // Invalidated, or the line was replaced (e.g. by loading a checkpoint)
+                    dmi_if->clearValid();
+                    stale_dmi_ifs_.emplace_back(std::move(dmi_if));
+                }
+                dmi_if.reset(new DMIBlockingMemoryIF(line.getRawDataPtr(0),
+                                                     line.getOffset(),
+                                                     line.getLayoutSize()));
+                return dmi_if.get();
             }
 
             /*!
@@ -401,6 +406,7 @@ namespace sparta
             }
 
             std::map<addr_t, std::unique_ptr<DMIBlockingMemoryIF>> dmi_ifs_;
+            std::vector<std::unique_ptr<DMIBlockingMemoryIF>> stale_dmi_ifs_; //!< Invalid, but users may still hold them
 
         }; // class BlockingMemoryIF
 
-- 
2.43.0


From 6da20c1c5dd57631e66ed034be71b79b318b207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:08 +0000
Subject: [PATCH 42/55] fix: an access wrapping around the end of the address
 space is not inside an access window

---
 sparta/sparta/memory/DebugMemoryIF.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index 13e7fbb..8d21cd3 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -344,7 +344,7 @@ namespace sparta
             void verifyInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                if(__builtin_expect(addr < acc_windows_[0].start || addr+size > acc_windows_[0].end, 0)){
+                if(__builtin_expect(isInAccessWindows(addr, size) == false, 0)){
                     MemoryAccessError ex(addr, size, "any", "The access at does not fit within access windows: ");
                     ex << "{ [" << acc_windows_[0].start << "," << acc_windows_[0].end << ") }";
                     throw ex;
@@ -363,7 +363,8 @@ namespace sparta
             bool isInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                return addr >= acc_windows_[0].start && addr+size <= acc_windows_[0].end;
+                // Note that addr+size can wrap around to 0
+                return addr >= acc_windows_[0].start && addr <= acc_windows_[0].end && size <= acc_windows_[0].end - addr;
             }
 
             /*!
-- 
2.43.0


From 0b284cdf33d3aa7fbcc27ae0045d1956730c51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:25 +0000
Subject: [PATCH 43/55] fix: a poke that is not mapped completely has no effect

---
 sparta/sparta/memory/DebugMemoryIF.hpp       | 12 ++++++++++-
 sparta/sparta/memory/SimpleMemoryMapNode.hpp | 22 ++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index 8d21cd3..0c18f0c 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -468,6 +468,16 @@ namespace sparta
                 }
             }
 
+            /*!
+             * \brief Determines if every byte of a range can be poked, so that
+             * a poke of several blocks is either done completely or not at all.
+             * \note To be overridden by interfaces which refuse accesses inside
+             * of their access windows
+             */
+            virtual bool canPoke(addr_t addr, addr_t size) const {
+                return isInAccessWindows(addr, size);
+            }
+
             /*!
              * \brief Attempts to 'poke' memory without having any side effects
              * other than changing the bytes within the range
@@ -503,7 +513,7 @@ namespace sparta
             bool tryPoke(addr_t addr,
                          addr_t size,
                          const uint8_t *buf) {
-                if(false == __builtin_expect(isInAccessWindows(addr, size), 0)){
+                if(false == __builtin_expect(canPoke(addr, size), 0)){
                     return false;
                 }
 
diff --git a/sparta/sparta/memory/SimpleMemoryMapNode.hpp b/sparta/sparta/memory/SimpleMemoryMapNode.hpp
index 32a85fe..c3a0975 100644
--- a/sparta/sparta/memory/SimpleMemoryMapNode.hpp
+++ b/sparta/sparta/memory/SimpleMemoryMapNode.hpp
@@ -163,6 +163,28 @@ namespace sparta
             //! @{
             ////////////////////////////////////////////////////////////////////////
 
+            /*!
+             * \brief Override of DebugMemoryIF::canPoke: all bytes must be mapped
+             */
+            virtual bool canPoke(addr_t addr, addr_t size) const override {
+                if(false == isInAccessWindows(addr, size)) {
+                    return false;
+                }
+                while(size > 0) {
+                    const Mapping* m = findMapping(addr);
+                    if(!m) {
+                        return false;
+                    }
+                    const addr_t size_in_mapping = std::min(size, m->end - addr);
+                    if(false == m->memif->canPoke(m->mapAddress(addr), size_in_mapping)) {
+                        return false;
+                    }
+                    addr += size_in_mapping;
+                    size -= size_in_mapping;
+                }
+                return true;
+            }
+
             /**
              * \brief Get a DMI blocking interface at the given address and size
              *
-- 
2.43.0


From 87fa6108786d6bddea8aa4506931f323c34dd5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:51 +0000
Subject: [PATCH 44/55] fix: CachedMemory does not overwrite downstream memory
 when a block is poked, and loads the block a write is merged into

---
 sparta/sparta/memory/CachedMemory.hpp | 34 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index c913492..ee5cd16 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -269,6 +269,9 @@ namespace sparta::memory
                       uint8_t *buf) const override final;
         bool tryPoke_(addr_t paddr, addr_t size, const uint8_t *buf) override final;
 
+        // Bring the block that contains paddr into the cache if it is not there
+        void loadBlock_(addr_t paddr);
+
         ////////////////////////////////////////////////////////////////////////////////
         // Memory
         sparta::memory::BlockingMemoryIF * downstream_memory_ = nullptr;
@@ -293,6 +296,17 @@ namespace sparta::memory
         cached_memory_(nullptr, block_size, total_size, 0)
     {}
 
+    template<class MemoryWriteType>
+    void CachedMemory<MemoryWriteType>::loadBlock_(addr_t paddr)
+    {
+        if(cached_memory_.tryGetLine(paddr) == nullptr) {
+            const auto aligned_paddr = paddr & block_mask_;
+            std::vector<uint8_t> block(block_size_);
+            downstream_memory_->peek(aligned_paddr, block_size_, block.data());
+            cached_memory_.write(aligned_paddr, block_size_, block.data());
+        }
+    }
+
     // Reads always occur on the cached memory.  If it "misses," data
     // will be peeked from downsteam memory but not read loaded into
     // the cached memory.  The cached memory does not maintain notions
@@ -320,13 +334,9 @@ namespace sparta::memory
                       "Watermark of outstanding writes reached. "
                       "Writes need to be committed or dropped via the CoSim API");
 
-        if(cached_memory_.tryGetLine(paddr) == nullptr) {
-            // This block has not been initialized in cached memory yet because
-            // it has not been written to before.
-            const auto aligned_paddr = paddr & block_mask_;
-            uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->peek(aligned_paddr, block_size_, cached_mem_block_ptr);
-        }
+        // This block might not have been initialized in cached memory yet
+        // because it has not been written to before.
+        loadBlock_(paddr);
 
         // Store the write into a outstanding chain
         ++write_uid_;
@@ -365,12 +375,8 @@ namespace sparta::memory
     template<class MemoryWriteType>
     bool CachedMemory<MemoryWriteType>::tryPoke_(addr_t paddr, addr_t size, const uint8_t *buf)
     {
-        if(cached_memory_.tryGetLine(paddr) == nullptr) {
-            // This memory was never written (or read) before.
-            const auto aligned_paddr = paddr & block_mask_;
-            uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->poke(aligned_paddr, block_size_, cached_mem_block_ptr);
-        }
+        // This memory might never have been written before.
+        loadBlock_(paddr);
         cached_memory_.write(paddr, size, buf);
         downstream_memory_->poke(paddr, size, buf);
         return true;
@@ -484,12 +490,14 @@ namespace sparta::memory
                     }
                 }
                 if(!collision) {
+                    loadBlock_(paddr_offset);
                     // Write the one byte of data -- no collisions
                     cached_memory_.write(paddr_offset, 1, buf + byte);
                 }
             }
         }
         else {
+            loadBlock_(paddr);
             cached_memory_.write(paddr, size, buf);
         }
     }
-- 
2.43.0


From 112c82ed89151cdee40ad9135f75a738a61ea9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:46 +0000
Subject: [PATCH 45/55] fix: resetting a register that has no initial value
 leaves it alone instead of crashing

---
 sparta/sparta/functional/Register.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 5a6ea7a..997005a 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -800,8 +800,12 @@ public:
     /*!
      * \brief Reset this register to its default value
      * \note Uses poke internally so no notifications are posted
+     * \note A register defined without an initial value is left as it is
      */
     void reset(bool unmasked=true) {
+        if(def_.initial_value == nullptr){
+            return;
+        }
         // Poke the whole value, one-byte at a time
         for(size_type i=0; i<def_.bytes; i++){
             if(unmasked){
-- 
2.43.0


From dd6115d1d76704b90aa093751f5faa2d0a0f9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:52 +0000
Subject: [PATCH 46/55] fix: Register::writeUnmasked counts its index in
 values, not in bytes

---
 sparta/sparta/functional/Register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 997005a..cbf1267 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1575,7 +1575,7 @@ public:
     inline void writeUnmasked(T val, index_type idx = 0)
     {
         assert(isWritable());
-        dmiWriteImpl_(&val, sizeof(T), idx);
+        dmiWriteImpl_(&val, sizeof(T), idx * sizeof(T));
     }
 
 private:
-- 
2.43.0


From b401e98bdd54dd167ccf80b67bb889451cdc3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:03 +0000
Subject: [PATCH 47/55] fix: RegisterBits::operator<<= by whole words keeps
 words it has yet to move

---
 sparta/sparta/functional/RegisterBits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 1db515a..d95dceb 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -570,10 +570,10 @@ namespace sparta
                 //
                 if(double_word_shift_count > 0)
                 {
-                    uint32_t dest_idx = double_word_shift_count;
-                    for(uint32_t src_idx = 0; dest_idx < num_dbl_words; ++dest_idx, ++src_idx) {
-                        *(final_data + dest_idx) = *(src_data + src_idx);
-                        *(src_data + src_idx) = 0;
+                    // From the top, as source and destination are the same words
+                    for(uint32_t dest_idx = num_dbl_words; dest_idx > 0; --dest_idx) {
+                        *(final_data + dest_idx - 1) = (dest_idx > double_word_shift_count) ?
+                            *(src_data + dest_idx - 1 - double_word_shift_count) : 0;
                     }
                 }
 
-- 
2.43.0


From 0bf8d6759bad80ca2ed7edc718a7ed62ffc53a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:03 +0000
Subject: [PATCH 48/55] fix: RegisterBits::none is false when all bytes are the
 same but not zero

---
 sparta/sparta/functional/RegisterBits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index d95dceb..3372a39 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -713,7 +713,7 @@ namespace sparta
         bool none() const {
             sparta_assert(num_bytes_ > 0);
             const auto mem_data_plus_one = remote_data_ + 1;
-            return (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
+            return (*remote_data_ == 0) && (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
         }
 
         /**
-- 
2.43.0


From 5cac87fb979b851421cd242b7b5c0539fd3c4fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:07 +0000
Subject: [PATCH 49/55] fix: writing or poking a part of a register works for
 every number of bytes

---
 sparta/sparta/functional/Register.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index cbf1267..0ba7f21 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1221,10 +1221,8 @@ public:
     {
         assert(isWritable());
         sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
-        RegisterBits val(reinterpret_cast<const uint8_t *>(buf), size);
-        RegisterBits mask = mask_ >> 8 * offset;
-        RegisterBits old = (peekRegisterBits_(size, offset) & ~mask) | (val & mask);
-        write_(old.data(), size, offset);
+        const RegisterBits merged = mergeWritable_(buf, size, offset);
+        write_(merged.data(), size, offset);
     }
 
     void writeUnmasked(const void *buf, size_t size, size_t offset)
@@ -1238,10 +1236,8 @@ public:
     {
         assert(isWritable());
         sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
-        RegisterBits val(reinterpret_cast<const uint8_t *>(buf), size);
-        RegisterBits mask = mask_ >> 8 * offset;
-        RegisterBits old = (peekRegisterBits_(size, offset) & ~mask) | (val & mask);
-        poke_(old.data(), size, offset);
+        const RegisterBits merged = mergeWritable_(buf, size, offset);
+        poke_(merged.data(), size, offset);
     }
 
     void pokeUnmasked(const void *buf, size_t size, size_t offset)
@@ -1391,6 +1387,19 @@ private:
         return bits;
     }
 
+    //! The current bytes at offset, with those bits of buf that may be written.
+    //! By bytes, as size can be any number and not just the size of a register.
+    RegisterBits mergeWritable_(const void *buf, size_t size, size_t offset) const
+    {
+        RegisterBits bits = peekRegisterBits_(size, offset);
+        const uint8_t *val = static_cast<const uint8_t *>(buf);
+        const uint8_t *mask = mask_.data() + offset;
+        for(size_t i = 0; i < size; ++i) {
+            bits.data()[i] = (bits.data()[i] & ~mask[i]) | (val[i] & mask[i]);
+        }
+        return bits;
+    }
+
     /*!
      * \brief Register definition given at construction
      */
-- 
2.43.0


From 6bd99599e1dc0baf2f21350767c530d2931aab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:42 +0000
Subject: [PATCH 50/55] fix: a subtree attached to a device tree takes over its
 phase as a whole

---
 sparta/src/TreeNode.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index d3d3c6f..806de1f 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -1693,8 +1693,7 @@ void TreeNode::setParent_(TreeNode* parent, bool inherit_phase) {
             << "whether phase is being inherited";
     }
     if(inherit_phase){
-        //recursSetPhase_(parent->getPhase()); // Act on subtree
-        setPhase_(parent->getPhase());
+        recursSetPhase_(parent->getPhase()); // Act on subtree
     }
 
     // Update to new parent
-- 
2.43.0


From 05d5194b1638d47a2a258b5e1757fe022b19c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:42 +0000
Subject: [PATCH 51/55] fix: refuse a child which cannot be attached before
 changing the device tree

---
 sparta/src/TreeNode.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 806de1f..909f4e4 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -1726,6 +1726,20 @@ void TreeNode::addChild_(TreeNode* child, bool inherit_phase) {
             << getLocation() << "\". A TreeNode can never be a parent of itself.";
     }
 
+    if(child->getParent() != nullptr){
+        throw SpartaException("Cannot add device tree node \"")
+            << child->getName() << "\" as child to device tree node \""
+            << getLocation() << "\". It already is a child of \""
+            << child->getParent()->getLocation() << "\". Cannot change parents";
+    }
+
+    if(getPhase() < child->getPhase()){
+        throw SpartaException("Cannot add device tree node \"")
+            << child->getName() << "\", whose phase is " << child->getPhase()
+            << ", as child to device tree node \"" << getLocation()
+            << "\", whose phase is only " << getPhase();
+    }
+
     // Prevent cycles in the tree.
     TreeNode* parent = getParent();
     uint32_t levels = 0;
-- 
2.43.0


From b22729b919e521c61daa49c65f5aec4238c96516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:42 +0000
Subject: [PATCH 52/55] fix: findChildren reports the wildcard replacements of
 a path in order

---
 sparta/src/TreeNode.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 909f4e4..06e0ec1 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -942,8 +942,7 @@ uint32_t TreeNode::findChildren_(const std::string& pattern,
                     results.push_back(subchild);
                     replacements.push_back(immediate_replacements.at(idx));
                     std::vector<std::string>& added = descendent_replacements.at(subidx);
-                    replacements.back().resize(added.size() + replacements.back().size());
-                    std::copy(added.begin(), added.end(), replacements.back().rbegin());
+                    replacements.back().insert(replacements.back().end(), added.begin(), added.end());
                     ++subidx;
                 }
             }
-- 
2.43.0


From 6fb964761eac2c13f754784e54e833b1b34160e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:31 +0000
Subject: [PATCH 53/55] fix: an assigned or moved BitArray refers to its own
 storage

---
 sparta/sparta/utils/BitArray.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/utils/BitArray.hpp b/sparta/sparta/utils/BitArray.hpp
index 583e0c7..59d4c5a 100644
--- a/sparta/sparta/utils/BitArray.hpp
+++ b/sparta/sparta/utils/BitArray.hpp
@@ -89,11 +89,16 @@ namespace sparta {
                 std::copy(other.data_, other.data_ + data_size_, data_);
             }
 
-            BitArray &operator=(const BitArray &other) = default;
-
-            BitArray(BitArray &&) = default;
-
-            BitArray &operator=(BitArray &&) = default;
+            BitArray &operator=(const BitArray &other)
+            {
+                if (this != &other) {
+                    data_ls_ = other.data_ls_;
+                    std::copy(std::begin(other.data_ss_), std::end(other.data_ss_), data_ss_);
+                    data_size_ = other.data_size_;
+                    data_ = data_ls_.empty() ? data_ss_ : &data_ls_[0];
+                }
+                return *this;
+            }
 
             const void *getValue() const
             {
-- 
2.43.0


From 64c68a39d9e387f55f16f317acb82791f8c1ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:31 +0000
Subject: [PATCH 54/55] fix: shifting a BitArray by more than its size leaves
 zeros

---
 sparta/sparta/utils/BitArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/utils/BitArray.hpp b/sparta/sparta/utils/BitArray.hpp
index 59d4c5a..491efe8 100644
--- a/sparta/sparta/utils/BitArray.hpp
+++ b/sparta/sparta/utils/BitArray.hpp
@@ -253,6 +253,7 @@ namespace sparta {
                 const auto first = array.data_;
                 const auto last = array.data_ + array.data_size_;
 
+                amount = std::min(amount, array.data_size_);
                 std::rotate(first, last - amount, last);
                 std::fill(first, first + amount, 0);
             }
@@ -283,6 +284,7 @@ namespace sparta {
                 const auto first = array.data_;
                 const auto last = array.data_ + array.data_size_;
 
+                amount = std::min(amount, array.data_size_);
                 std::rotate(first, first + amount, last);
                 std::fill(last - amount, last, 0);
             }
-- 
2.43.0


From b4cbc48fd654af7e8fa0c5c499ed011fd5f7283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:47 +0000
Subject: [PATCH 55/55] fix: a FastList keeps its capacity when the constructor
 of an element throws

---
 sparta/sparta/utils/FastList.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/utils/FastList.hpp b/sparta/sparta/utils/FastList.hpp
index 3d48f84..4c2c2d1 100644
--- a/sparta/sparta/utils/FastList.hpp
+++ b/sparta/sparta/utils/FastList.hpp
@@ -83,6 +83,24 @@ namespace sparta::utils
             return &nodes_[node_idx].type_storage;
         }
 
+        // Take a node from the free list and construct its element.  The
+        // node goes back if the constructor throws
+        template<class ...ArgsT>
+        Node & constructNode_(ArgsT&...args)
+        {
+            auto & new_node = nodes_[free_head_];
+            free_head_ = new_node.next;
+            try {
+                new (&new_node.type_storage) DataT(args...);
+            }
+            catch(...) {
+                new_node.next = free_head_;
+                free_head_ = new_node.index;
+                throw;
+            }
+            return new_node;
+        }
+
     public:
         using value_type = DataT; //!< Handy using
 
@@ -311,9 +329,7 @@ namespace sparta::utils
                 return emplace_back(std::forward<ArgsT>(args)...);
             }
 
-            auto & new_node = nodes_[free_head_];
-            free_head_ = new_node.next;
-            new (&new_node.type_storage) DataT(args...);
+            auto & new_node = constructNode_(args...);
             // Update pointers.  Start with a clean slate
             new_node.next = -1;
             new_node.prev = -1;
@@ -348,9 +364,7 @@ namespace sparta::utils
             sparta_assert(free_head_ != -1,
                           "FastList is out of element room");
 
-            auto & new_node = nodes_[free_head_];
-            free_head_ = new_node.next;
-            new (&new_node.type_storage) DataT(args...);
+            auto & new_node = constructNode_(args...);
 
             // Update pointers.  Start with a clean slate
             new_node.next = -1;
@@ -380,9 +394,7 @@ namespace sparta::utils
             sparta_assert(free_head_ != -1,
                           "FastList is out of element room");
 
-            auto & new_node = nodes_[free_head_];
-            free_head_ = new_node.next;
-            new (&new_node.type_storage) DataT(args...);
+            auto & new_node = constructNode_(args...);
 
             // Update pointers.  Start with a clean slate
             new_node.next = -1;
-- 
2.43.0

