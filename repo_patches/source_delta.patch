From 0e30638dc8c739d70cc70a320384d8d7d5e24594 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 01/50] fix: removing the next job of a queue no longer moves
 the queue's cursor back

ScheduledJobQueue::remove decremented the cursor also when the removed job was the one the
cursor points at: the job that is executing was called a second time, and removing the first
job of a queue that is not being walked wrapped the cursor around.
---
 .../sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index 4566024..1b7cf7a 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -151,7 +151,7 @@ int Trick::ScheduledJobQueue::remove( JobData * delete_job ) {
             for ( jj = ii + 1 ; jj < list_size ; jj++ ) {
                 new_list[jj-1] = list[jj] ;
             }
-            if ( ii <= curr_index ) {
+            if ( ii < curr_index ) {
                 curr_index-- ;
             }
             /* Decrement the size of the queue */
-- 
2.43.0


From e5753f2c4e6bcb66f075cf0c1ffaf8e1d3404e47 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 02/50] fix: jobs whose call time lies behind the queue's
 cursor are no longer lost

A job added to the simulation, or given a new cycle, after the current pass had walked past its place in the
queue was never called: its call time was not considered for the next time step, and once time had moved past it
the job was never due again. A pending freeze time left behind when freezing on frame boundaries hid the call
times of all other jobs in the same way. advance_sim_time now considers every job of the queue.
---
 include/trick/ScheduledJobQueue.hh            |  9 ++++++++
 .../Executive/Executive_advance_sim_time.cpp  |  6 ++---
 .../ScheduledJobQueue/ScheduledJobQueue.cpp   | 23 +++++++++++++++++++
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/include/trick/ScheduledJobQueue.hh b/include/trick/ScheduledJobQueue.hh
index 00e97e7..4307bf4 100644
--- a/include/trick/ScheduledJobQueue.hh
+++ b/include/trick/ScheduledJobQueue.hh
@@ -183,6 +183,15 @@ namespace Trick {
              */
             long long get_next_job_call_time() ;
 
+            /**
+             * @brief Returns the lowest job call time in the whole queue that is later than the incoming time. Cyclic
+             * jobs whose call time is not later (they were added, or had their call time changed, after the queue had
+             * been walked past them) are moved to the next time of their cycle.
+             * @param after_tics - the time all jobs of the queue have been called for
+             * @return next job call time in tics
+             */
+            long long get_next_job_call_time(long long after_tics) ;
+
             /**
              * @brief tests the current job next job call time against the current time and the overall next job call
              * time.  Sets the overall next job call time to the current job's time if it is lower
diff --git a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
index 8d3b957..2369dad 100644
--- a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
+++ b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
@@ -28,9 +28,9 @@ int Trick::Executive::advance_sim_time() {
 
     /* Set the simulation time to the next lowest job call time by
        calling Trick::ScheduledThread::get_next_job_call_time(). */
-    long long next_job_call_time = threads[0]->job_queue.get_next_job_call_time() ;
-    if ( next_job_call_time < time_tics && next_job_call_time > time_last_pass_tics )  {
-        time_tics =  threads[0]->job_queue.get_next_job_call_time() ;
+    long long next_job_call_time = threads[0]->job_queue.get_next_job_call_time(time_last_pass_tics) ;
+    if ( next_job_call_time < time_tics )  {
+        time_tics = next_job_call_time ;
     }
 
     /* Check to see if there is an input processor event that happens before the next job */
diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index 1b7cf7a..3628b15 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -392,6 +392,29 @@ long long Trick::ScheduledJobQueue::get_next_job_call_time() {
     return(next_job_time) ;
 }
 
+/**
+@details
+-# For all jobs in the queue
+    -# If the job's next call time is not after the incoming time, and the job does not schedule itself, advance the
+       next call time by whole cycles until it is, honoring the stop time.
+    -# Track the lowest next call time after the incoming time
+*/
+long long Trick::ScheduledJobQueue::get_next_job_call_time(long long after_tics) {
+    long long lowest_time = TRICK_MAX_LONG_LONG ;
+    for ( unsigned int ii = 0 ; ii < list_size ; ii++ ) {
+        JobData * curr_job = list[ii] ;
+        if ( curr_job->next_tics <= after_tics && ! curr_job->system_job_class && curr_job->cycle_tics > 0 ) {
+            long long next_call = curr_job->next_tics +
+             ((after_tics - curr_job->next_tics) / curr_job->cycle_tics + 1) * curr_job->cycle_tics ;
+            curr_job->next_tics = (next_call > curr_job->stop_tics) ? TRICK_MAX_LONG_LONG : next_call ;
+        }
+        if ( curr_job->next_tics > after_tics && curr_job->next_tics < lowest_time ) {
+            lowest_time = curr_job->next_tics ;
+        }
+    }
+    return(lowest_time) ;
+}
+
 /**
 @details
 -# If the current job next call time is less than the overall next job call time, and is
-- 
2.43.0


From 57a59548e1c881162951046389c6d3a299d55501 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 03/50] fix: changing the time tic value keeps all times

set_time_tic_value divided pending freeze times, the termination time, event times and thread cycle times as
integers, which dropped fractions of a second; it did not convert job stop times, the current frame boundary and
event cycles at all, and it restarted the schedule of every job from its start time offset by the current time.
get_terminate_time dropped fractions of a second as well.
---
 .../EventManager/EventManager.cpp             |  4 ++-
 .../sim_services/Executive/Executive.cpp      |  2 +-
 .../Executive_set_time_tic_value.cpp          | 36 ++++++++++++-------
 .../Executive/Threads_set_amf_cycle_tics.cpp  |  2 +-
 4 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index a3d1856..d5945bc 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -257,7 +257,9 @@ int Trick::EventManager::time_tic_changed() {
     tt = exec_get_time_tic_value() ;
 
     for ( ii = 0 ; ii < num_active_events ; ii++ ) {
-        active_events[ii]->set_next_tics((long long)round((active_events[ii]->get_next_tics() / old_tt) * tt)) ;
+        // recalculate the cycle in tics, and keep the next time
+        active_events[ii]->set_cycle(active_events[ii]->get_cycle()) ;
+        active_events[ii]->set_next_tics((long long)round((double)active_events[ii]->get_next_tics() / old_tt * tt)) ;
     }
 
     return 0 ;
diff --git a/trick_source/sim_services/Executive/Executive.cpp b/trick_source/sim_services/Executive/Executive.cpp
index 55c43b8..c46fede 100644
--- a/trick_source/sim_services/Executive/Executive.cpp
+++ b/trick_source/sim_services/Executive/Executive.cpp
@@ -268,7 +268,7 @@ double Trick::Executive::get_thread_amf_cycle_time(unsigned int thread_id) {
 }
 
 double Trick::Executive::get_terminate_time() {
-    return(terminate_time / time_tic_value) ;
+    return((double)terminate_time / time_tic_value) ;
 }
 
 int Trick::Executive::get_time_tic_value() {
diff --git a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
index 0806c78..318bbc4 100644
--- a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
@@ -7,6 +7,14 @@
 #include "trick/message_proto.h"
 #include "trick/message_type.h"
 
+// Converts a time from the old to the new tic value.  The largest values mean "never" and are kept.
+static long long convert_tics(long long tics, long long old_value, long long new_value) {
+    if ( tics >= TRICK_MAX_LONG_LONG - 1 ) {
+        return tics ;
+    }
+    return (long long)round((long double)tics / old_value * new_value) ;
+}
+
 int Trick::Executive::set_time_tic_value(int in_tics) {
 
     int ret ;
@@ -20,33 +28,37 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
     Trick::JobData::set_time_tic_value(in_tics) ;
 
     /* reset time tics */
-    time_tics = (long long)round((double)time_tics / old_time_tic_value * time_tic_value) ;
+    time_tics = convert_tics(time_tics, old_time_tic_value, time_tic_value) ;
+    time_last_pass_tics = convert_tics(time_last_pass_tics, old_time_tic_value, time_tic_value) ;
+    freeze_time_tics = convert_tics(freeze_time_tics, old_time_tic_value, time_tic_value) ;
+    for ( unsigned int ii = 0 ; ii < threads.size() ; ii++ ) {
+        threads[ii]->curr_time_tics = convert_tics(threads[ii]->curr_time_tics, old_time_tic_value, time_tic_value) ;
+    }
 
     /* reset software frames */
     software_frame_tics = (long long)(software_frame * time_tic_value) ;
     freeze_frame_tics = (long long)(freeze_frame * time_tic_value) ;
+    next_frame_check_tics = convert_tics(next_frame_check_tics, old_time_tic_value, time_tic_value) ;
+    next_freeze_frame_check_tics = convert_tics(next_freeze_frame_check_tics, old_time_tic_value, time_tic_value) ;
 
     /* reset job times */
     reset_job_cycle_times() ;
-    reset_job_call_times() ;
+    for ( unsigned int ii = 0 ; ii < all_jobs_vector.size() ; ii++ ) {
+        Trick::JobData * temp_job = all_jobs_vector[ii] ;
+        temp_job->start_tics = convert_tics(temp_job->start_tics, old_time_tic_value, time_tic_value) ;
+        temp_job->stop_tics = convert_tics(temp_job->stop_tics, old_time_tic_value, time_tic_value) ;
+        temp_job->next_tics = convert_tics(temp_job->next_tics, old_time_tic_value, time_tic_value) ;
+    }
 
     /* reset freeze times */
     while ( ! freeze_times.empty() ) {
-        new_freeze_times.push( (long long)round((freeze_times.top() / old_time_tic_value ) * time_tic_value) ) ;
+        new_freeze_times.push(convert_tics(freeze_times.top(), old_time_tic_value, time_tic_value)) ;
         freeze_times.pop() ;
     }
     freeze_times = new_freeze_times ;
 
-    if ( freeze_job != NULL ) {
-        if ( freeze_job->next_tics != TRICK_MAX_LONG_LONG ) {
-            freeze_job->next_tics =  (long long)round((freeze_job->next_tics / old_time_tic_value) * time_tic_value) ;
-        }
-    }
-
     /* reset stop time */
-    if ( terminate_time != TRICK_MAX_LONG_LONG-1 ) {
-        terminate_time = (long long)round((terminate_time / old_time_tic_value) * time_tic_value) ;
-    }
+    terminate_time = convert_tics(terminate_time, old_time_tic_value, time_tic_value) ;
 
     /* call jobs for other objects that need to know the time_tic changed. */
     time_tic_changed_queue.reset_curr_index() ;
diff --git a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
index cfa2922..da511d0 100644
--- a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
+++ b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
@@ -23,6 +23,6 @@ int Trick::Threads::set_amf_cycle(double in_cycle , long long time_tic_value) {
 */
 int Trick::Threads::time_tic_changed(long long old_time_tic_value , long long time_tic_value) {
     amf_cycle_tics = (long long)(amf_cycle * time_tic_value) ;
-    amf_next_tics = (long long)round((amf_next_tics / old_time_tic_value) * time_tic_value) ;
+    amf_next_tics = (long long)round((double)amf_next_tics / old_time_tic_value * time_tic_value) ;
     return(0) ;
 }
-- 
2.43.0


From cfd84450855efdd3abc222c20cf5a12b66a8c2cc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 04/50] fix: setting the simulation time offsets job start
 times once

reset_job_call_times, which is only left to serve set_time, scaled the start times by the last change of the time
tic value every time it was called and added the new time to an already offset start time.
---
 trick_source/sim_services/Executive/Executive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Executive/Executive.cpp b/trick_source/sim_services/Executive/Executive.cpp
index c46fede..0bea553 100644
--- a/trick_source/sim_services/Executive/Executive.cpp
+++ b/trick_source/sim_services/Executive/Executive.cpp
@@ -312,7 +312,9 @@ void Trick::Executive::reset_job_call_times() {
     unsigned int ii ;
     for ( ii = 0 ; ii < all_jobs_vector.size() ; ii++ ) {
         Trick::JobData * temp_job = all_jobs_vector[ii] ;
-        temp_job->start_tics = (long long)round((double)temp_job->start_tics / old_time_tic_value * time_tic_value) + time_tics ;
+        if ( temp_job->start <= TRICK_MAX_LONG_LONG / time_tic_value ) {
+            temp_job->start_tics = (long long)(temp_job->start * time_tic_value) + time_tics ;
+        }
 
         if ( temp_job->disabled == false and
              (!temp_job->system_job_class or !temp_job->job_class_name.compare("system_advance_sim_time")) ) {
-- 
2.43.0


From 679b4472a65aa8cc6ea21ed99d50f25af95d74b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 05/50] fix: a new job cycle does not revive a job past its
 stop time, a zero cycle is refused

set_job_cycle gave a job whose stop time had passed, or whose next call would be past it, a new call time. A cycle of
zero (or less than half a tic) divided by zero.
---
 .../sim_services/Executive/Executive_set_job_cycle.cpp        | 3 ++-
 trick_source/sim_services/SimObject/JobData.cpp               | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp b/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp
index 425faaf..5e4f9e9 100644
--- a/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_job_cycle.cpp
@@ -1,5 +1,6 @@
 
 #include <iostream>
+#include <math.h>
 
 #include "trick/Executive.hh"
 #include "trick/message_proto.h"
@@ -11,7 +12,7 @@ int Trick::Executive::set_job_cycle(std::string job_name, int instance_num, doub
     std::multimap<std::string , Trick::JobData *>::iterator it ;
     std::pair<std::multimap<std::string , Trick::JobData *>::iterator , std::multimap<std::string , Trick::JobData *>::iterator> range ;
 
-    if ( in_cycle < 0.0 ) {
+    if ( in_cycle < 0.0 || round(in_cycle * time_tic_value) < 1.0 ) {
         message_publish(MSG_WARNING, "Warning: Invalid cycle %g specified in Executive::set_job_cycle for %s\n" , in_cycle, job_name.c_str()) ;
         return -1 ;
     }
diff --git a/trick_source/sim_services/SimObject/JobData.cpp b/trick_source/sim_services/SimObject/JobData.cpp
index 1aaeb45..2c3a881 100644
--- a/trick_source/sim_services/SimObject/JobData.cpp
+++ b/trick_source/sim_services/SimObject/JobData.cpp
@@ -2,6 +2,7 @@
 #include <math.h>
 
 #include "trick/JobData.hh"
+#include "trick/TrickConstant.hh"
 #include "trick/SimObject.hh"
 
 long long Trick::JobData::time_tic_value = 0 ;
@@ -105,6 +106,9 @@ int Trick::JobData::calc_cycle_tics() {
 int Trick::JobData::set_next_call_time(long long time_tics) {
     if ( next_tics > time_tics  ) {
         next_tics = time_tics - ( time_tics % cycle_tics ) + cycle_tics ;
+        if ( next_tics > stop_tics ) {
+            next_tics = TRICK_MAX_LONG_LONG ;
+        }
     } else {
         next_tics = time_tics ;
     }
-- 
2.43.0


From 11f77cbf98e59648f04762d3cc213efeaae5a885 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 06/50] fix: simulation time does not go back when the
 terminate time has already passed

---
 .../sim_services/Executive/Executive_advance_sim_time.cpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
index 2369dad..fcfdd2e 100644
--- a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
+++ b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
@@ -58,6 +58,10 @@ int Trick::Executive::advance_sim_time() {
     /* Adjust time_tics to the terminate time if terminate is the next event */
     if ( terminate_time < time_tics ) {
         time_tics = terminate_time ;
+        /* time does not go back if the terminate time has already passed */
+        if ( time_tics < time_last_pass_tics ) {
+            time_tics = time_last_pass_tics ;
+        }
     }
 
     // set the default next job call time to the next software frame ;
-- 
2.43.0


From d28d39c9ba090c56ba285a9cc2332441c8f00b55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 07/50] fix: turning a sim object off twice keeps the
 individual states of its jobs

---
 .../Executive/Executive_set_simobject_onoff.cpp            | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive_set_simobject_onoff.cpp b/trick_source/sim_services/Executive/Executive_set_simobject_onoff.cpp
index 60dd5c1..4339c1b 100644
--- a/trick_source/sim_services/Executive/Executive_set_simobject_onoff.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_simobject_onoff.cpp
@@ -27,6 +27,7 @@ int Trick::Executive::set_sim_object_onoff(std::string sim_object_name, int on)
         return -1;
     }
 
+    bool was_disabled = sim_object->object_disabled;
     sim_object->object_disabled = !on;
     if (on) {
         // Apply saved state
@@ -42,8 +43,10 @@ int Trick::Executive::set_sim_object_onoff(std::string sim_object_name, int on)
         sim_object->saved_job_states.clear();
     } else {
         for ( int i = 0 ; i < sim_object->jobs.size() ; i++ ) {
-            // Save state, turn off
-            sim_object->saved_job_states[sim_object->jobs[i]] = sim_object->jobs[i]->disabled;
+            // Save state unless the object is off already, turn off
+            if (!was_disabled) {
+                sim_object->saved_job_states[sim_object->jobs[i]] = sim_object->jobs[i]->disabled;
+            }
             sim_object->jobs[i]->disabled = true ;
         }
     }
-- 
2.43.0


From 837d7cf6d7933038420a0999da5ca1fb602be6a2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 08/50] fix: a child thread that is enabled again catches up
 instead of turning time back

---
 .../Executive/Executive_advance_sim_time.cpp  | 19 ++++++++----
 .../sim_services/Executive/Threads_child.cpp  | 31 ++++++++++++++-----
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
index fcfdd2e..b66ac45 100644
--- a/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
+++ b/trick_source/sim_services/Executive/Executive_advance_sim_time.cpp
@@ -43,14 +43,21 @@ int Trick::Executive::advance_sim_time() {
     for (ii = 1; ii < threads.size() ; ii++) {
         Threads * curr_thread = threads[ii] ;
         if ( curr_thread->enabled ) {
-            if ( (curr_thread->process_type == PROCESS_TYPE_SCHEDULED) &&
-                 (curr_thread->job_queue.get_next_job_call_time() < time_tics) ) {
-                time_tics = curr_thread->job_queue.get_next_job_call_time() ;
+            if ( curr_thread->process_type == PROCESS_TYPE_SCHEDULED ) {
+                next_job_call_time = curr_thread->job_queue.get_next_job_call_time(time_last_pass_tics) ;
+                if ( next_job_call_time < time_tics ) {
+                    time_tics = next_job_call_time ;
+                }
             }
             if ( (curr_thread->process_type == PROCESS_TYPE_AMF_CHILD ) &&
-                 (curr_thread->amf_cycle_tics > 0 ) &&
-                 (curr_thread->amf_next_tics < time_tics) ) {
-                time_tics = curr_thread->amf_next_tics ;
+                 (curr_thread->amf_cycle_tics > 0 ) ) {
+                /* a thread that was disabled catches up to the current time */
+                while ( curr_thread->amf_next_tics <= time_last_pass_tics ) {
+                    curr_thread->amf_next_tics += curr_thread->amf_cycle_tics ;
+                }
+                if ( curr_thread->amf_next_tics < time_tics ) {
+                    time_tics = curr_thread->amf_next_tics ;
+                }
             }
         }
     }
diff --git a/trick_source/sim_services/Executive/Threads_child.cpp b/trick_source/sim_services/Executive/Threads_child.cpp
index baf094d..2e5b593 100644
--- a/trick_source/sim_services/Executive/Threads_child.cpp
+++ b/trick_source/sim_services/Executive/Threads_child.cpp
@@ -72,6 +72,26 @@ static int call_next_job(Trick::JobData * curr_job, Trick::ScheduledJobQueue & j
     return 0 ;
 }
 
+/**
+-# Advance the next call times that lie before the start of the frame by whole job cycles, honoring the stop times.
+*/
+static void catch_up_jobs(Trick::ScheduledJobQueue & job_queue, long long start_frame) {
+
+    Trick::JobData * curr_job ;
+
+    job_queue.reset_curr_index() ;
+    while ( (curr_job = job_queue.get_next_job()) != NULL ) {
+        if ( curr_job->next_tics < start_frame && curr_job->cycle_tics > 0 ) {
+            while ( curr_job->next_tics < start_frame ) {
+                curr_job->next_tics += curr_job->cycle_tics ;
+            }
+            if ( curr_job->next_tics > curr_job->stop_tics ) {
+                curr_job->next_tics = TRICK_MAX_LONG_LONG ;
+            }
+        }
+    }
+}
+
 /**
 @details
 -# Block all signals to the child.
@@ -120,6 +140,9 @@ void * Trick::Threads::thread_body() {
                     break ;
 
                     case PROCESS_TYPE_AMF_CHILD:
+                    // catch up job next times to current frame if the thread has been disabled.
+                    catch_up_jobs(job_queue, curr_time_tics) ;
+
                     /* call the AMF top of frame jobs */
                     top_of_frame_queue.reset_curr_index() ;
                     while ( (curr_job = top_of_frame_queue.get_next_job()) != NULL ) {
@@ -163,13 +186,7 @@ void * Trick::Threads::thread_body() {
                     } else {
 
                         // catch up job next times to current frame.
-                        job_queue.reset_curr_index() ;
-                        while ( (curr_job = job_queue.get_next_job()) != NULL ) {
-                            long long start_frame = amf_next_tics - amf_cycle_tics ;
-                            while ( curr_job->next_tics < start_frame ) {
-                                curr_job->next_tics += curr_job->cycle_tics ;
-                            }
-                        }
+                        catch_up_jobs(job_queue, amf_next_tics - amf_cycle_tics) ;
 
                         // New behavior, run a mini scheduler.
                         /* call the AMF top of frame jobs */
-- 
2.43.0


From 54647f11d9f5de29d0cbea69a9b4afcbf027004a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 09/50] fix: a job does not wait for a dependency that is not
 due and has never run

---
 trick_source/sim_services/SimObject/JobData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/SimObject/JobData.cpp b/trick_source/sim_services/SimObject/JobData.cpp
index 2c3a881..da97864 100644
--- a/trick_source/sim_services/SimObject/JobData.cpp
+++ b/trick_source/sim_services/SimObject/JobData.cpp
@@ -22,7 +22,7 @@ Trick::JobData::JobData() {
     cycle = 0.0 ;
     start = 0.0 ;
     stop = 0.0 ;
-    complete = false ;
+    complete = true ;
     rt_start_time = -1;
     phase = 60000 ;
     system_job_class = 0 ;
@@ -54,7 +54,7 @@ Trick::JobData::JobData(int in_thread, int in_id, std::string in_job_class_name
     cycle = in_cycle ;
     start = in_start ;
     stop = in_stop ;
-    complete = false ;
+    complete = true ;
     name = in_name ;
     add_tag(in_tag) ;
     rt_start_time = -1;
-- 
2.43.0


From 016fefcacb98f856e9acec04dd805cbaf8a2e6e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 10/50] fix: an empty job queue keeps the call time it was set
 to

---
 .../sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index 3628b15..f367bbd 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -400,7 +400,8 @@ long long Trick::ScheduledJobQueue::get_next_job_call_time() {
     -# Track the lowest next call time after the incoming time
 */
 long long Trick::ScheduledJobQueue::get_next_job_call_time(long long after_tics) {
-    long long lowest_time = TRICK_MAX_LONG_LONG ;
+    /* a queue without jobs has the time it was set to */
+    long long lowest_time = (list_size == 0) ? get_next_job_call_time() : TRICK_MAX_LONG_LONG ;
     for ( unsigned int ii = 0 ; ii < list_size ; ii++ ) {
         JobData * curr_job = list[ii] ;
         if ( curr_job->next_tics <= after_tics && ! curr_job->system_job_class && curr_job->cycle_tics > 0 ) {
-- 
2.43.0


From 499607fa07679918bcf8de12fd3af0b371eb843c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 11/50] fix: firing a futex thread trigger before the thread
 waits is not lost

---
 trick_source/sim_services/Executive/ThreadTrigger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/Executive/ThreadTrigger.cpp b/trick_source/sim_services/Executive/ThreadTrigger.cpp
index bbfd051..e53ce28 100644
--- a/trick_source/sim_services/Executive/ThreadTrigger.cpp
+++ b/trick_source/sim_services/Executive/ThreadTrigger.cpp
@@ -78,12 +78,15 @@ void Trick::ThreadTriggerEventFD::dump(std::ostream & oss) {
 Trick::ThreadTriggerFutex::ThreadTriggerFutex() : ThreadTriggerBase(TT_FUTEX), futex_addr(0) {}
 
 void Trick::ThreadTriggerFutex::fire() {
+    /* A fire before the thread waits must not be lost, the word remembers it. */
+    __sync_lock_test_and_set(&futex_addr, 1);
     syscall(SYS_futex, &futex_addr, FUTEX_WAKE, 1, NULL, NULL, 0);
 }
 
 void Trick::ThreadTriggerFutex::wait() {
-    futex_addr = 0;
-    syscall(SYS_futex, &futex_addr, FUTEX_WAIT, 0, NULL, NULL, 0);
+    while ( ! __sync_bool_compare_and_swap(&futex_addr, 1, 0) ) {
+        syscall(SYS_futex, &futex_addr, FUTEX_WAIT, 0, NULL, NULL, 0);
+    }
 }
 
 void Trick::ThreadTriggerFutex::dump(std::ostream & oss) {
-- 
2.43.0


From f9bb526d40e01482deee6eb11318bdedb5843747 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 12/50] fix: the call time a job queue was set to counts when
 time advances

---
 .../sim_services/Executive/Executive_set_time_tic_value.cpp   | 3 +++
 .../sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp      | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
index 318bbc4..0715cf4 100644
--- a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
@@ -50,6 +50,9 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
         temp_job->next_tics = convert_tics(temp_job->next_tics, old_time_tic_value, time_tic_value) ;
     }
 
+    /* the queue finds its next time again from the new job times */
+    threads[0]->job_queue.set_next_job_call_time(TRICK_MAX_LONG_LONG) ;
+
     /* reset freeze times */
     while ( ! freeze_times.empty() ) {
         new_freeze_times.push(convert_tics(freeze_times.top(), old_time_tic_value, time_tic_value)) ;
diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index f367bbd..537e24d 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -400,8 +400,8 @@ long long Trick::ScheduledJobQueue::get_next_job_call_time() {
     -# Track the lowest next call time after the incoming time
 */
 long long Trick::ScheduledJobQueue::get_next_job_call_time(long long after_tics) {
-    /* a queue without jobs has the time it was set to */
-    long long lowest_time = (list_size == 0) ? get_next_job_call_time() : TRICK_MAX_LONG_LONG ;
+    /* the time the queue was set to, or has seen while it was walked, counts too */
+    long long lowest_time = (next_job_time > after_tics) ? next_job_time : TRICK_MAX_LONG_LONG ;
     for ( unsigned int ii = 0 ; ii < list_size ; ii++ ) {
         JobData * curr_job = list[ii] ;
         if ( curr_job->next_tics <= after_tics && ! curr_job->system_job_class && curr_job->cycle_tics > 0 ) {
-- 
2.43.0


From b1670f723a85a303622c064020f60711014b6a5d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 13/50] fix: iterating a string map backwards returns entries
 of the same bucket

---
 trick_source/trick_utils/trick_adt/src/MapStrToPtr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trick_source/trick_utils/trick_adt/src/MapStrToPtr.c b/trick_source/trick_utils/trick_adt/src/MapStrToPtr.c
index 6ed1ffe..bc07f43 100644
--- a/trick_source/trick_utils/trick_adt/src/MapStrToPtr.c
+++ b/trick_source/trick_utils/trick_adt/src/MapStrToPtr.c
@@ -148,6 +148,10 @@ void *SMI_GetPrev(char **key, StrMapIterator * pIter)
                 return pEntry->data;   /* return the tail element of the previous list that was not empty */
             }
         }
+    } else {                           /* found the previous entry in the current list */
+        TBLENTRY *pEntry = (TBLENTRY *) DLL_GetAt(pIter->m_ListPos, pIter->m_pTable->m_ppList[pIter->m_Index]);
+        *key = pEntry->key;
+        return pEntry->data;
     }
     return NULL;                       /* return null if there is no previous element */
 }
-- 
2.43.0


From f21936a709219c298dd4d59009a2b1fe932557f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 14/50] fix: deleting an empty search tree does not dereference
 its root

---
 trick_source/trick_utils/trick_adt/src/bst.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trick_source/trick_utils/trick_adt/src/bst.c b/trick_source/trick_utils/trick_adt/src/bst.c
index b92a33d..cd04cf2 100644
--- a/trick_source/trick_utils/trick_adt/src/bst.c
+++ b/trick_source/trick_utils/trick_adt/src/bst.c
@@ -422,7 +422,9 @@ void bstDeleteTree(BST * bst)
         return;
     }
 
-    bstDeleteNodes(bst, bst->root);
+    if (bst->root != NULL) {
+        bstDeleteNodes(bst, bst->root);
+    }
 
     bst->root = NULL;
     bst->nodes = 0;
-- 
2.43.0


From 0fe96928720a52195bd0abb52983afb09a41b694 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 15/50] fix: renaming an allocation kept its old name, and a
 name already taken made two variables share it

---
 .../MemoryManager/MemoryManager_alloc_info_map.cpp  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp
index 03904c4..5d18a9a 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp
@@ -1,5 +1,6 @@
 #include "trick/MemoryManager.hh"
 #include <sstream>
+#include <stdlib.h>
 #include <string.h>
 
 ALLOC_INFO* Trick::MemoryManager::get_alloc_info_of( void* addr) {
@@ -28,10 +29,9 @@ int Trick::MemoryManager::set_name_at( void* addr , const char * name ) {
 
     int ret = 0 ;
 
+    pthread_mutex_lock(&mm_mutex);
     ALLOC_INFO_MAP::iterator pos = alloc_info_map.find( addr);
     if (pos != alloc_info_map.end()) {
-        pos->second->name = strdup(name) ;
-        pthread_mutex_lock(&mm_mutex);
         VARIABLE_MAP::iterator variable_pos;
         variable_pos = variable_map.find(name);
         if (variable_pos != variable_map.end()) {
@@ -39,14 +39,19 @@ int Trick::MemoryManager::set_name_at( void* addr , const char * name ) {
             ss << "Call to set_name_at() failed because a variable named \""
                << name << "\" already exists.";
             emitError(ss.str());
-            pthread_mutex_unlock(&mm_mutex);
             ret = -1 ;
         } else {
+            /* The variable is no longer known by its previous name. */
+            if (pos->second->name != NULL) {
+                variable_map.erase(pos->second->name) ;
+                free(pos->second->name) ;
+            }
+            pos->second->name = strdup(name) ;
             variable_map[name] = pos->second ;
         }
-        pthread_mutex_unlock(&mm_mutex);
     } else {
         ret = -1 ;
     }
+    pthread_mutex_unlock(&mm_mutex);
     return ret ;
 }
-- 
2.43.0


From f7cca69112d0d2d5cf48d18b96a3fb8e4e00de8d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 16/50] fix: a declared variable's allocation type was
 uninitialised: deleting it could use the wrong deallocator

---
 .../sim_services/MemoryManager/MemoryManager_declare_var.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp
index 186a24c..0a72125 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp
@@ -46,7 +46,7 @@ void* Trick::MemoryManager::declare_var( TRICK_TYPE type,
     char* allocation_name;
     int n_elems;
     Language language;
-    TRICK_ALLOC_TYPE allocation_type;
+    TRICK_ALLOC_TYPE allocation_type = TRICK_ALLOC_MALLOC;
     void* address;
     ATTRIBUTES* sub_attr;
     ALLOC_INFO *new_alloc;
-- 
2.43.0


From 9fcff1c897c6508e3036a90d7d803b2219bc215e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 17/50] fix: a reduced checkpoint judged elements of
 std::string arrays by the wrong addresses and left out non-empty strings

---
 .../sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 3e40446..8b77521 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -459,7 +459,7 @@ int Trick::ClassicCheckPointAgent::is_nil_valued( void* address,
                return(0);
                break;
            case TRICK_STRING :
-               test_addr = (char*)address + offset * sizeof(void*);
+               test_addr = (char*)address + offset * sizeof(std::string);
                if (*(std::string*)test_addr == "") return(1);
                break;
            case TRICK_WSTRING :
-- 
2.43.0


From c6c0a2988e6b381921d02cde308f266549f7bda2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 18/50] fix: a backslash in a string was not escaped in a
 checkpoint, so that the string came back changed or the checkpoint did not
 parse

---
 .../ClassicCheckPointAgent.cpp                |  1 +
 .../CheckPointAgent/input_parser.l            | 30 ++++++-------------
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 8b77521..622570e 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -527,6 +527,7 @@ static void write_quoted_str( std::ostream& os, const char* s) {
         case '\t': os << "\\t"; break;
         case '\b': os << "\\b"; break;
         case '\"': os << "\\\""; break;
+        case '\\': os << "\\\\"; break;
         default  : os << s[ii] ; break;
         }
     }
diff --git a/trick_source/sim_services/CheckPointAgent/input_parser.l b/trick_source/sim_services/CheckPointAgent/input_parser.l
index 5893786..c212052 100644
--- a/trick_source/sim_services/CheckPointAgent/input_parser.l
+++ b/trick_source/sim_services/CheckPointAgent/input_parser.l
@@ -93,29 +93,17 @@ ECHO_OFF    [Ee][Cc][Hh][Oo][ \t_][Oo][Ff][Ff]
 }
 <QSTR>"\"" { 
 
-   int l ; PRINTBMAGENTA ;
+   PRINTBMAGENTA ;
    /*
-    * This rule picks up either 1) the closing double quote of a
-    * string, or 2) an escaped quote within a string.
+    * This rule picks up the closing double quote of a string: the
+    * rule for backslashes takes care of escaped quotes. Save off the
+    * character string without the closing quote to the YACC
+    * variable, switch the parsing state back to the normal
+    * state and return a S_CON token to YACC
     */
-   l = strlen( I->buf ) ;
-   if( (l > 0) && (I->buf[ l - 1 ] == '\\') ) {
-      /* If the previous character is a backslash then this is an
-       * escaped quote, copy the character to the string buffer an
-       * continue looking for the real closing quote.
-       */
-      I->buf[l-1] = '"' ;
-   }
-   else {
-      /* else this is the real closing quote. Save off the
-       * character string without the closing quote to the YACC
-       * variable, switch the parsing state back to the normal
-       * state and return a S_CON token to YACC
-       */
-      yylval->sval = strdup( I->buf ) ;
-      BEGIN 0 ;
-      return( S_CON ) ;
-   }
+   yylval->sval = strdup( I->buf ) ;
+   BEGIN 0 ;
+   return( S_CON ) ;
 
 }
 
-- 
2.43.0


From acf76c0aa403c35f92e6fe762c5b9ca99a9c86b5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 19/50] fix: pointers into multi-dimensional allocations,
 arrays of pointers and to pointer members were written to checkpoints as
 other objects or errors

---
 .../ClassicCheckPointAgent.cpp                | 60 +++++++++++++------
 .../MemoryManager/AttributesUtils.cpp         | 12 +++-
 ...moryManager_get_attributes_for_address.cpp |  4 +-
 3 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 622570e..d79d1bd 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -266,6 +266,18 @@ static int getCompositeSubReference(
         return ret;
     }
 
+    /*** Member is an array of pointers to structs: nothing more is inside ***********/
+    if (Ai->type == TRICK_STRUCTURED && Ai->index[Ai->num_index - 1].size == 0)
+    {
+        for (int j = 0; j < traversalResult.num_computed_indices; j++)
+        {
+            size_t len = strlen(reference_name);
+            size_t rem = REFNAME_MAXSIZE - len;
+            snprintf(&reference_name[len], rem, "[%d]", traversalResult.array_indices[j]);
+        }
+        return 0;
+    }
+
     /*** Member is an arrayed struct *********************************************/
 
     // If it's a structured type with array indices
@@ -736,6 +748,21 @@ void Trick::ClassicCheckPointAgent::write_singleton( std::ostream& chkpnt_os, vo
     }
 }
 
+// STATIC FUNCTION
+// The subscripts that select the given element (counted in storage order) of an allocation: one for each of its
+// constrained dimensions.
+static std::string element_subscripts( ALLOC_INFO* alloc_info, int element_index) {
+    std::string subscripts;
+    for (int ii = alloc_info->num_index - 1; ii >= 0; ii--) {
+        int extent = alloc_info->index[ii];
+        if (extent > 0) {
+            subscripts = "[" + std::to_string(element_index % extent) + "]" + subscripts;
+            element_index /= extent;
+        }
+    }
+    return subscripts;
+}
+
 // MEMBER FUNCTION
 // Get the variable-name associated with the given variable-address and data-type.
 // If no data-type is specified, (i.e., if attr == NULL), then the name will refer
@@ -790,14 +817,11 @@ std::string Trick::ClassicCheckPointAgent::
                 // is either not structured or if it is, the attr-list that describes the contents
                 // of the structure is the same.
 
-                if ( (attr != NULL) && (attr->type == alloc_info->type) &&
-                     ( (attr->type != TRICK_STRUCTURED) || (attr->attr == alloc_info->attr))) {
-
                 int ii;
                 int n_l_ptrs, n_r_ptrs;
 
                 // Calculate the number of pointers (asterisks) on the left side of the assignment.
-                n_l_ptrs = attr->num_index - curr_dim;
+                n_l_ptrs = (attr != NULL) ? attr->num_index - curr_dim : 0;
 
                 // Calculate the number of pointers (asterisks) on the right side of the assignment.
                 n_r_ptrs = 0;
@@ -805,16 +829,18 @@ std::string Trick::ClassicCheckPointAgent::
                     if (alloc_info->index[ii] == 0) n_r_ptrs++;
                 }
 
+                // (A pointer to a pointer can lead to a pointer member of the structure it finally leads to.)
+                if ( (attr != NULL) && (attr->type == alloc_info->type) &&
+                     ( (attr->type != TRICK_STRUCTURED) ||
+                       ((attr->attr == alloc_info->attr) && ((n_l_ptrs == 1) || (n_r_ptrs > 0))))) {
+
                 if (n_l_ptrs != (n_r_ptrs + 1)) {
                     reference_string = "NULL /*ERROR: # asterisks disagree.*/";
                 } else {
                     if (misalignment == 0) {
                         std::stringstream workss;
                         if (alloc_info->name != NULL) {
-                            workss << "&" << alloc_info->name;
-                            if (alloc_info->num_index != 0) {
-                                workss << "[" << alloc_elem_index << "]";
-                            }
+                            workss << "&" << alloc_info->name << element_subscripts(alloc_info, alloc_elem_index);
                             reference_string = workss.str();
                         } else {
                             std::stringstream ss;
@@ -832,22 +858,23 @@ std::string Trick::ClassicCheckPointAgent::
                         reference_string = "ERROR - Badly aligned pointer";
                     }
                 }
-            } else if (alloc_info->type == TRICK_STRUCTURED) {
+            } else if ((alloc_info->type == TRICK_STRUCTURED) &&
+                       ((n_r_ptrs == 0) || ((attr != NULL) && (attr->type == TRICK_STRUCTURED)))) {
                 // The type specifications don't match, but the right-side is structured,
                 // so we apparently the matching type is buried in the right hand side structure.
+                // (Or the type is the same, under another name of a typedef.)
 
                 if (alloc_info->name != NULL) {
                     std::string rightside;
                     std::stringstream element_name;
-                    element_name << "&" << alloc_info->name;
-                    if (alloc_info->num_index != 0) {
-                        element_name << '[' << alloc_elem_index << ']';
-                    }
+                    element_name << "&" << alloc_info->name << element_subscripts(alloc_info, alloc_elem_index);
+                    // A pointer to a pointer leads to a pointer inside the structure, never to a structure.
+                    ATTRIBUTES* struct_type = (n_l_ptrs > 1) ? NULL : attr;
                     rightside = get_var_name( pointer,
                                               alloc_info->attr,
                                               (char *) alloc_info->start + (alloc_elem_index * alloc_info->size),
                                               element_name.str(),
-                                              &attr
+                                              &struct_type
                                             );
                     reference_string = rightside;
                 } else {
@@ -873,10 +900,7 @@ std::string Trick::ClassicCheckPointAgent::
                         std::stringstream workss;
 
                         if (alloc_info->name != NULL) {
-                            workss << "&" << alloc_info->name;
-                            if (alloc_info->num_index != 0) {
-                                workss << "[" << alloc_elem_index << "]";
-                            }
+                            workss << "&" << alloc_info->name << element_subscripts(alloc_info, alloc_elem_index);
                             reference_string = workss.str();
                         } else {
                             std::stringstream ss;
diff --git a/trick_source/sim_services/MemoryManager/AttributesUtils.cpp b/trick_source/sim_services/MemoryManager/AttributesUtils.cpp
index 9ac0473..7785dac 100644
--- a/trick_source/sim_services/MemoryManager/AttributesUtils.cpp
+++ b/trick_source/sim_services/MemoryManager/AttributesUtils.cpp
@@ -235,6 +235,12 @@ int Trick::AttributesUtils::traverse_for_offset(
         return 1;
     }
 
+    // If it's an array of pointers, there is nothing inside its elements
+    if (result.num_computed_indices < ret_attr->num_index)
+    {
+        return 0;
+    }
+
     // Calculate the linear offset within the array element
     size_t element_offset = 0;
     for (int j = 0; j < ret_attr->num_index; j++)
@@ -272,8 +278,10 @@ bool Trick::AttributesUtils::compute_fixed_indices_for_linear_offset(
         return true;
     }
 
-    long size = member.size;
-    int last_size = member.size;
+    // the elements of an array of pointers are pointers
+    int element_size = (out_num_fixed_dims < member.num_index) ? (int)sizeof(void*) : member.size;
+    long size = element_size;
+    int last_size = element_size;
     long remaining = offset_within_member_bytes;
 
     for (int i = out_num_fixed_dims - 1; i >= 0; --i)
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp
index fcd2897..ee05841 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp
@@ -73,8 +73,8 @@ static int getCompositeSubReference(
         return getCompositeSubReference(addrValue, attrOut, structAddrValue + retAttr->offset, (ATTRIBUTES*)retAttr->attr, remainingOffset);
     }
 
-    // If the member is a pointer, do nothing and return
-    if (retAttr->index[0].size == 0)
+    // If the member is a pointer or an array of pointers, do nothing and return
+    if (retAttr->index[retAttr->num_index - 1].size == 0)
     {
         attrOut = *retAttr;
         return 0;
-- 
2.43.0


From d845c81ccbad994816b1ef3a1bd37b4125931157 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 20/50] fix: an index through a pointer was not checked against
 the end of the allocation that the pointer leads into

---
 .../MemoryManager/MemoryManager_ref_dim.cpp          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_ref_dim.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_ref_dim.cpp
index a8e4462..ed6f16d 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_ref_dim.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_ref_dim.cpp
@@ -234,6 +234,14 @@ int Trick::MemoryManager::ref_dim( REF2* R, V_DATA* V) {
         // Get allocation information for the address
         ALLOC_INFO *alloc_info = get_alloc_info_of(R->address);
 
+        // The element has to lie within the allocation that the pointer leads to, wherever in it that is.
+        if (alloc_info != NULL && (char*)R->address + (index_value + 1L) * item_size - 1 > (char*)alloc_info->end) {
+            if (debug_level > 1) {
+                emitError("Memory Manager ERROR: Array index out of bounds.") ;
+            }
+            return (TRICK_PARAMETER_ARRAY_SIZE);
+        }
+
         // Skip if allocation name is NULL
         if (alloc_info != NULL && alloc_info->name != NULL) {
             // Get the reference name from the address that R points if exists and contains & at front
@@ -269,13 +277,13 @@ int Trick::MemoryManager::ref_dim( REF2* R, V_DATA* V) {
                     } else { // Dynamic array case
                         // Check if the index is out of bounds if the pointer points to a dynamic array.
                         // R->address is already dereferenced to the heap array.
-                        if (index_value >= (get_size(R->address)))
+                        if (index_value >= (get_truncated_size(R->address)))
                         {
                             /* print out of bounds error message if MM debug_level is greater than 1 */
                             if (debug_level > 1) {
                                 std::stringstream message;
                                 message << index_value << " is out of bounds for " << R->reference
-                                        << " (size=" << get_size(R->address) << ").";
+                                        << " (size=" << get_truncated_size(R->address) << ").";
                                 emitError(message.str());
                             }
                             free(ref2);
-- 
2.43.0


From 972f3c048edde036220f7c9b8b7dae36f5ff21cc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 21/50] fix: a reference through a pointer had the size of a
 pointer instead of the size of its type

---
 .../MemoryManager_make_reference_attr.cpp              | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_make_reference_attr.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_make_reference_attr.cpp
index abc9911..8fa312d 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_make_reference_attr.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_make_reference_attr.cpp
@@ -34,6 +34,16 @@ ATTRIBUTES* Trick::MemoryManager::make_reference_attr( ALLOC_INFO* alloc_info) {
         reference_attr->index[ii].start= 0;
         reference_attr->index[ii].size = alloc_info->index[ii];
     }
+    /* As in the ATTRIBUTES of class members, the size is that of the type that the pointers finally lead to. */
+    if ((alloc_info->num_index > 0) && (alloc_info->index[alloc_info->num_index - 1] == 0)) {
+        TRICK_TYPE type = alloc_info->type;
+        ATTRIBUTES* sub_attr;
+        int size;
+        if (get_type_attributes( type, (alloc_info->user_type_name != NULL) ? alloc_info->user_type_name : "", 0, sub_attr, size) == 0) {
+            reference_attr->size = size;
+        }
+    }
+
     return( reference_attr);
 }
 
-- 
2.43.0


From c2b266872bd86aab266b18a7e40a0cf379417792 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 22/50] fix: STL containers in multi-dimensional arrays were
 found at the wrong elements

---
 .../sim_services/MemoryManager/MemoryManager_alloc_depends.cpp  | 2 +-
 .../MemoryManager/MemoryManager_get_stl_dependencies.cpp        | 2 +-
 .../sim_services/MemoryManager/MemoryManager_restore_stls.cpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_depends.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_depends.cpp
index acb927a..a0ee3e1 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_depends.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_depends.cpp
@@ -185,7 +185,7 @@ void Trick::MemoryManager::get_alloc_deps_in_arrayed_class(
                 get_alloc_deps_in_arrayed_class( address, attr, curr_dim + 1, offset * curr_dim_size + ii);
             } else {
                 char* elem_addr;
-                elem_addr = address + (offset * curr_dim + ii) * attr->size ;
+                elem_addr = address + (offset * curr_dim_size + ii) * attr->size ;
                 get_alloc_deps_in_class( elem_addr, (ATTRIBUTES*)attr->attr );
             }
         }
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_get_stl_dependencies.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_get_stl_dependencies.cpp
index 8f111bc..2215f8a 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_get_stl_dependencies.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_get_stl_dependencies.cpp
@@ -135,7 +135,7 @@ void Trick::MemoryManager::get_stl_dependencies_in_arrayed_class(
                 get_stl_dependencies_in_arrayed_class( name + index, address, attr, curr_dim + 1, offset * curr_dim_size + ii);
             } else {
                 char* elem_addr;
-                elem_addr = address + (offset * curr_dim + ii) * attr->size ;
+                elem_addr = address + (offset * curr_dim_size + ii) * attr->size ;
                 get_stl_dependencies_in_class( name + index, elem_addr, (ATTRIBUTES*)attr->attr );
             }
         }
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_restore_stls.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_restore_stls.cpp
index 49d0c80..dd15e0a 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_restore_stls.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_restore_stls.cpp
@@ -140,7 +140,7 @@ void Trick::MemoryManager::restore_stls_in_arrayed_class(
                 restore_stls_in_arrayed_class( name + index, address, attr, curr_dim + 1, offset * curr_dim_size + ii);
             } else {
                 char* elem_addr;
-                elem_addr = address + (offset * curr_dim + ii) * attr->size ;
+                elem_addr = address + (offset * curr_dim_size + ii) * attr->size ;
                 restore_stls_in_class( name + index, elem_addr, (ATTRIBUTES*)attr->attr );
             }
         }
-- 
2.43.0


From 22799960e755b5c8371a0965e9313d9a1065665a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 23/50] fix: named character arrays were left out of
 checkpoints, and temporary names collided with those of variables read from a
 checkpoint

---
 .../MemoryManager_write_checkpoint.cpp        | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
index bf88020..72b03f6 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
@@ -16,6 +16,7 @@ void Trick::MemoryManager::execute_checkpoint( std::ostream& out_s ) {
     ALLOC_INFO_MAP::iterator pos;
     ALLOC_INFO* alloc_info;
     char name[256];
+    std::vector<ALLOC_INFO*> temporarily_named;
     int local_anon_var_number;
     int extern_anon_var_number;
 
@@ -45,11 +46,16 @@ void Trick::MemoryManager::execute_checkpoint( std::ostream& out_s ) {
             }
 
             if ( alloc_info->stcl == TRICK_LOCAL) {
-                snprintf( name, sizeof(name), "%s%d", local_anon_var_prefix, local_anon_var_number++);
+                // A variable that has been read from a checkpoint may already have such a name.
+                do {
+                    snprintf( name, sizeof(name), "%s%d", local_anon_var_prefix, local_anon_var_number++);
+                } while (variable_map.find( name) != variable_map.end());
                 alloc_info->name = strdup( name);
+                temporarily_named.push_back( alloc_info);
             } else if (alloc_info->stcl == TRICK_EXTERN) {
                 snprintf( name, sizeof(name), "%s%d", extern_anon_var_prefix, extern_anon_var_number++);
                 alloc_info->name = strdup( name);
+                temporarily_named.push_back( alloc_info);
                 /** @b NOTE: We should not write declarations for external
                     anonymous variables, because we should not reload them.*/
             } else {
@@ -83,10 +89,8 @@ void Trick::MemoryManager::execute_checkpoint( std::ostream& out_s ) {
         // Skip naming individual C-string allocations to eliminate unused declarations.
         // Individual char arrays (size=1, num_index=1) represent single strings that are
         // included in char* arrays, so we don't need separate allocations for them.
-        // Also, safety check for NULL name before pushing to name stack later.
-        if (!(alloc_info->type == TRICK_CHARACTER && alloc_info->size == 1 && alloc_info->num_index == 1
-              && alloc_info->stcl == TRICK_LOCAL)
-            && alloc_info->name != NULL)
+        // These have no name; character arrays that do have one are variables like any other.
+        if (alloc_info->name != NULL)
         {
             write_var(out_s, alloc_info);
             out_s << std::endl;
@@ -95,15 +99,9 @@ void Trick::MemoryManager::execute_checkpoint( std::ostream& out_s ) {
 
     // Free all of the temporary names that were created for the checkpoint.
 
-    for (int ii = 0 ; ii < n_depends ; ii ++) {
-        alloc_info = dependencies[ii];
-        // If the temporary-variable prefix occurs at the beginning of the name ...
-        if ((alloc_info->name != NULL) &&
-            (( strstr( alloc_info->name, local_anon_var_prefix ) == alloc_info->name ) ||
-             ( strstr( alloc_info->name, extern_anon_var_prefix) == alloc_info->name ))) {
-                free( alloc_info->name);
-                alloc_info->name = NULL;
-        }
+    for (size_t ii = 0 ; ii < temporarily_named.size() ; ii ++) {
+        free( temporarily_named[ii]->name);
+        temporarily_named[ii]->name = NULL;
     }
 
     // Delete the variables created by STLs. Remove memory in reverse order.
-- 
2.43.0


From 7d2071fb363def9c4a03d4c83535868e6e98bef8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 24/50] fix: naming a member of an enumeration variable read
 its enumerators as members and crashed

---
 .../sim_services/MemoryManager/MemoryManager_ref_name.cpp    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_ref_name.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_ref_name.cpp
index 3d1f76a..59e0739 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_ref_name.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_ref_name.cpp
@@ -35,6 +35,11 @@ int Trick::MemoryManager::ref_name(REF2 * R, char *name) {
     char *addr;
     ATTRIBUTES *attr;
 
+    // Only a structure has members. (The attr of an enumeration is its list of enumerators.)
+    if (R->attr->type != TRICK_STRUCTURED && R->attr->type != TRICK_STL) {
+        return (MM_PARAMETER_NAME);
+    }
+
     attr = (ATTRIBUTES*)(R->attr->attr);
 
     if (attr == NULL) {
-- 
2.43.0


From 1159e36dc0555e0dd6a10f1addf2bd387841f97c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 25/50] fix: a new cycle given to a job whose call time is past
 made it run past its stop time

---
 trick_source/sim_services/SimObject/JobData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trick_source/sim_services/SimObject/JobData.cpp b/trick_source/sim_services/SimObject/JobData.cpp
index da97864..79b6cc9 100644
--- a/trick_source/sim_services/SimObject/JobData.cpp
+++ b/trick_source/sim_services/SimObject/JobData.cpp
@@ -106,12 +106,12 @@ int Trick::JobData::calc_cycle_tics() {
 int Trick::JobData::set_next_call_time(long long time_tics) {
     if ( next_tics > time_tics  ) {
         next_tics = time_tics - ( time_tics % cycle_tics ) + cycle_tics ;
-        if ( next_tics > stop_tics ) {
-            next_tics = TRICK_MAX_LONG_LONG ;
-        }
     } else {
         next_tics = time_tics ;
     }
+    if ( next_tics > stop_tics ) {
+        next_tics = TRICK_MAX_LONG_LONG ;
+    }
     return 0 ;
 }
 
-- 
2.43.0


From dbbdd4aa7cc883149a5ddc6615c835d062624450 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 26/50] fix: send_hs used the message text as a format string

---
 trick_source/sim_services/Message/Message_c_intf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Message/Message_c_intf.cpp b/trick_source/sim_services/Message/Message_c_intf.cpp
index 60aec2d..a16be6b 100644
--- a/trick_source/sim_services/Message/Message_c_intf.cpp
+++ b/trick_source/sim_services/Message/Message_c_intf.cpp
@@ -125,7 +125,7 @@ extern "C" int send_hs(FILE * fp __attribute__ ((unused)), const char * format_m
     (void) vsnprintf(msg_buf, MAX_MSG_SIZE, format_msg, args);
     va_end(args);
 
-    message_publish(0, msg_buf) ;
+    message_publish(0, "%s", msg_buf) ;
 
     return (0);
 }
-- 
2.43.0


From 6face2b678772c31f69a898e1502eec3744554ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 27/50] fix: messages published by several threads at once were
 garbled, lost or crashed the simulation: the subscriber list had no lock

---
 include/trick/MessagePublisher.hh             |  4 +--
 .../sim_services/Message/MessagePublisher.cpp | 35 +++++++++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/trick/MessagePublisher.hh b/include/trick/MessagePublisher.hh
index f22d364..38dd1a4 100644
--- a/include/trick/MessagePublisher.hh
+++ b/include/trick/MessagePublisher.hh
@@ -53,13 +53,13 @@ namespace Trick {
              @brief Add a message subscriber to this publisher's subscriber list, which will output published messages in some manner.
              @param in_ms - an instance of Trick::MessageSubscriber that wants to subscribe to this publisher.
              */
-            void subscribe(MessageSubscriber *in_ms) { subscribers.push_back(in_ms) ; } ;
+            void subscribe(MessageSubscriber *in_ms) ;
 
             /**
              @brief Remove a message subscriber from this publisher's subscriber list.
              @param in_ms - an instance of Trick::MessageSubscriber that needs unsubscribe from this publisher.
              */
-            void unsubscribe(MessageSubscriber *in_ms) { subscribers.remove(in_ms) ; } ;
+            void unsubscribe(MessageSubscriber *in_ms) ;
 
             /**
              @brief Publish a message with specified level and header.
diff --git a/trick_source/sim_services/Message/MessagePublisher.cpp b/trick_source/sim_services/Message/MessagePublisher.cpp
index 43a834d..07edf19 100644
--- a/trick_source/sim_services/Message/MessagePublisher.cpp
+++ b/trick_source/sim_services/Message/MessagePublisher.cpp
@@ -7,6 +7,8 @@
 #include <sys/time.h>
 #include <math.h>
 #include <unistd.h>
+#include <pthread.h>
+#include <mutex>
 
 #include "trick/MessagePublisher.hh"
 #include "trick/message_proto.h"
@@ -16,6 +18,26 @@
 
 Trick::MessagePublisher * the_message_publisher ;
 
+/* Any thread may publish or subscribe.  A subscriber may itself publish, so the lock is recursive.  A thread must not
+   be cancelled while it holds the lock. */
+static std::recursive_mutex publisher_mutex ;
+
+namespace {
+class PublisherLock {
+    public:
+        PublisherLock() {
+            pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state) ;
+            publisher_mutex.lock() ;
+        }
+        ~PublisherLock() {
+            publisher_mutex.unlock() ;
+            pthread_setcancelstate(cancel_state, NULL) ;
+        }
+    private:
+        int cancel_state ;
+} ;
+}
+
 Trick::MessagePublisher::MessagePublisher() {
 
     sim_name = " " ;
@@ -42,8 +64,20 @@ int Trick::MessagePublisher::init() {
     return 0 ;
 }
 
+void Trick::MessagePublisher::subscribe(Trick::MessageSubscriber * in_ms) {
+    PublisherLock lock ;
+    subscribers.push_back(in_ms) ;
+}
+
+void Trick::MessagePublisher::unsubscribe(Trick::MessageSubscriber * in_ms) {
+    PublisherLock lock ;
+    subscribers.remove(in_ms) ;
+}
+
 int Trick::MessagePublisher::publish(int level , std::string message) {
 
+    PublisherLock lock ;
+
     /** @par Design Details: */
     std::list<Trick::MessageSubscriber *>::iterator p ;
 
@@ -91,6 +125,7 @@ int Trick::MessagePublisher::publish(int level , std::string message) {
 }
 
 Trick::MessageSubscriber * Trick::MessagePublisher::getSubscriber( std::string sub_name ) {
+    PublisherLock lock ;
     std::list<Trick::MessageSubscriber *>::iterator lit ;
     for ( lit = subscribers.begin() ; lit != subscribers.end() ; ++lit ) {
         if ( ! (*lit)->name.compare(sub_name) ) {
-- 
2.43.0


From e348a02eaab8bf5a02f83360569006d43bc9d90d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 28/50] fix: recording an element of an STL container under an
 alias recorded the bytes of the container with no type

---
 include/trick/DataRecordGroup.hh                         | 2 ++
 trick_source/sim_services/DataRecord/DRAscii.cpp         | 4 ++--
 trick_source/sim_services/DataRecord/DRBinary.cpp        | 4 ++--
 trick_source/sim_services/DataRecord/DRHDF5.cpp          | 6 +++---
 trick_source/sim_services/DataRecord/DataRecordGroup.cpp | 5 +----
 5 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/trick/DataRecordGroup.hh b/include/trick/DataRecordGroup.hh
index 60df9c3..104ae3d 100644
--- a/include/trick/DataRecordGroup.hh
+++ b/include/trick/DataRecordGroup.hh
@@ -61,6 +61,8 @@ namespace Trick {
             std::string name ;      /* ** actual name of the variable to record */
             std::string alias ;      /* ** alias name used in data recording files */
             DataRecordBuffer() ;
+            /** Name of the variable in data recording files: the alias if there is one, else the reference. */
+            const char * record_name() const { return alias.empty() ? ref->reference : alias.c_str() ; }
             ~DataRecordBuffer() ;
     } ;
 
diff --git a/trick_source/sim_services/DataRecord/DRAscii.cpp b/trick_source/sim_services/DataRecord/DRAscii.cpp
index e6318a6..22618ed 100644
--- a/trick_source/sim_services/DataRecord/DRAscii.cpp
+++ b/trick_source/sim_services/DataRecord/DRAscii.cpp
@@ -77,7 +77,7 @@ int Trick::DRAscii::format_specific_init() {
     before_write = out_stream.tellp();
     // Write out the title line of the recording file
     /* Start with the 1st item in the buffer which should be "sys.exec.out.time" */
-    out_stream << rec_buffer[0]->ref->reference ;
+    out_stream << rec_buffer[0]->record_name() ;
     if ( rec_buffer[0]->ref->attr->units != NULL ) {
         if ( rec_buffer[0]->ref->attr->mods & TRICK_MODS_UNITSDASHDASH ) {
             out_stream << " {--}" ;
@@ -88,7 +88,7 @@ int Trick::DRAscii::format_specific_init() {
     
     /* Write out specified recorded parameters */
     for (jj = 1; jj < rec_buffer.size() ; jj++) {
-        out_stream << delimiter << rec_buffer[jj]->ref->reference ;
+        out_stream << delimiter << rec_buffer[jj]->record_name() ;
 
         if ( rec_buffer[jj]->ref->attr->units != NULL ) {
             if ( rec_buffer[jj]->ref->attr->mods & TRICK_MODS_UNITSDASHDASH ) {
diff --git a/trick_source/sim_services/DataRecord/DRBinary.cpp b/trick_source/sim_services/DataRecord/DRBinary.cpp
index 55c079c..6121791 100644
--- a/trick_source/sim_services/DataRecord/DRBinary.cpp
+++ b/trick_source/sim_services/DataRecord/DRBinary.cpp
@@ -97,9 +97,9 @@ int Trick::DRBinary::format_specific_init() {
 
     for (jj = 0; jj < rec_buffer.size(); jj++) {
         /* name */
-        write_value = strlen(rec_buffer[jj]->ref->reference) ;
+        write_value = strlen(rec_buffer[jj]->record_name()) ;
         bytes += write( fd , &write_value , sizeof(int)) ;
-        bytes += write( fd , rec_buffer[jj]->ref->reference , write_value ) ;
+        bytes += write( fd , rec_buffer[jj]->record_name() , write_value ) ;
 
         /* units */
         if ( rec_buffer[jj]->ref->attr->mods & TRICK_MODS_UNITSDASHDASH ) {
diff --git a/trick_source/sim_services/DataRecord/DRHDF5.cpp b/trick_source/sim_services/DataRecord/DRHDF5.cpp
index 2d973b1..6d47de0 100644
--- a/trick_source/sim_services/DataRecord/DRHDF5.cpp
+++ b/trick_source/sim_services/DataRecord/DRHDF5.cpp
@@ -197,9 +197,9 @@ int Trick::DRHDF5::format_specific_init() {
          *     Returns an identifier for the new packet table, or H5I_BADID on error.
          */
         // Allocate memory for the parameter names
-        param_names[ii] = (char *)malloc(strlen(rec_buffer[ii]->ref->reference) + 1);
+        param_names[ii] = (char *)malloc(strlen(rec_buffer[ii]->record_name()) + 1);
         // Copy the parameter name to the list
-        strcpy(param_names[ii], rec_buffer[ii]->ref->reference);
+        strcpy(param_names[ii], rec_buffer[ii]->record_name());
         // Create a packet table for each parameter
         param_dataset_ids[ii] = H5PTcreate_fl(root_group, param_names[ii], datatype, chunk_size, 1) ;
         // Validate the dataset
@@ -224,7 +224,7 @@ int Trick::DRHDF5::format_specific_init() {
             H5PTappend( param_units_id, 1, rec_buffer[ii]->ref->attr->units );
         }
         /* Param Name */
-        H5PTappend( param_names_id, 1, rec_buffer[ii]->ref->reference );
+        H5PTappend( param_names_id, 1, rec_buffer[ii]->record_name() );
 
     }
     H5PTclose( byte_id );
diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 453bd3a..1bef4fa 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -444,9 +444,6 @@ int Trick::DataRecordGroup::init(bool is_restart) {
                 }
             }
         }
-        if ( drb->alias.compare("") ) {
-            drb->ref->reference = strdup(drb->alias.c_str()) ;
-        }
         size_t elem_size  = Trick::ReferenceUtils::effective_trick_size(drb->ref);
         drb->last_value   = (char*)calloc(1, elem_size);
         drb->buffer       = (char*)calloc(max_num, elem_size);
@@ -693,7 +690,7 @@ int Trick::DataRecordGroup::write_header() {
         } else {
             out_stream << rec_buffer[jj]->ref->attr->units ;
         }
-        out_stream << "\t" << rec_buffer[jj]->ref->reference << std::endl ;
+        out_stream << "\t" << rec_buffer[jj]->record_name() << std::endl ;
     }
 
     // Send all unwritten characters in the buffer to its output/file.
-- 
2.43.0


From 91af3b7e3baa83dc55df8b0ec61d95d1a4efc256 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 29/50] fix: recording changes as steps began with a row of
 zeros that no variable ever had

---
 trick_source/sim_services/DataRecord/DataRecordGroup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 1bef4fa..5561fd3 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -740,7 +740,8 @@ int Trick::DataRecordGroup::data_record(double in_time) {
 
             curr_time = in_time ;
 
-            if ( freq == DR_Changes_Step ) {
+            // there is no previous row to repeat at the first call
+            if ( freq == DR_Changes_Step && buffer_num > 0 ) {
                 buffer_offset = buffer_num % max_num ;
                 *((double *)(rec_buffer[0]->last_value)) = in_time ;
                 for (jj = 0; jj < rec_buffer.size() ; jj++) {
-- 
2.43.0


From b30b8b51d0e031befb7a6b56b98ef7e354a8b304 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 30/50] fix: a cycle set or added while recording only took
 effect after the next call at the old cycle

---
 include/trick/DataRecordGroup.hh                |  5 +++++
 .../sim_services/DataRecord/DataRecordGroup.cpp | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/trick/DataRecordGroup.hh b/include/trick/DataRecordGroup.hh
index 104ae3d..330e59b 100644
--- a/include/trick/DataRecordGroup.hh
+++ b/include/trick/DataRecordGroup.hh
@@ -467,6 +467,11 @@ namespace Trick {
              */
             long long calculate_next_logging_tic(long long min_tic);
 
+            /**
+             * Set the next call of the write job of a running group to follow changed logging rates.
+             */
+            void reschedule();
+
             /**
              * Loop through the required logging rates and advance the next cycle tics of matching rates
              * @param curr_tic_in - time in tics to match and advance the next cycle tic
diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 5561fd3..9708e35 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -185,15 +185,32 @@ const std::string & Trick::DataRecordGroup::get_group_name() {
 int Trick::DataRecordGroup::set_cycle( double in_cycle ) {
     logging_rates[0].set_rate(in_cycle);
     write_job->set_cycle(in_cycle) ;
+    reschedule() ;
     return(0) ;
 }
 
 int Trick::DataRecordGroup::add_cycle(double in_cycle)
 {
     logging_rates.emplace_back(in_cycle);
+    reschedule() ;
     return(0);
 }
 
+/**
+ * The logging rates of a running group have changed: the next call of the write job follows them.
+ * A call that is due at the current time stays.
+ */
+void Trick::DataRecordGroup::reschedule()
+{
+    long long curr_tics = exec_get_time_tics();
+    if(inited && write_job->next_tics != curr_tics)
+    {
+        write_job->next_tics = calculate_next_logging_tic(curr_tics);
+        write_job->cycle_tics = write_job->next_tics - curr_tics;
+        write_job->cycle = (double)write_job->cycle_tics / Trick::JobData::time_tic_value;
+    }
+}
+
 int Trick::DataRecordGroup::set_phase( unsigned short in_phase ) {
     write_job->phase = in_phase ;
     return(0) ;
-- 
2.43.0


From 67f5381565f79897e38fe85891c3aa863fd1ea5f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 31/50] fix: a recording buffer of one row overwrote rows
 before they were written, one of no rows crashed

---
 trick_source/sim_services/DataRecord/DataRecordGroup.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 9708e35..9d71c07 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -432,6 +432,13 @@ int Trick::DataRecordGroup::init(bool is_restart) {
 
     pthread_mutex_init(&buffer_mutex, NULL);
 
+    // Room for at least one row, and for the two rows a step change takes before they are written.
+    if ( max_num < 2 && buffer_type != DR_Ring_Buffer ) {
+        max_num = 2 ;
+    } else if ( max_num < 1 ) {
+        max_num = 1 ;
+    }
+
     // Allocate recording space for time.
     rec_buffer[0]->buffer = (char *)calloc(max_num , rec_buffer[0]->ref->attr->size) ;
     rec_buffer[0]->last_value = (char *)calloc(1 , rec_buffer[0]->ref->attr->size) ;
-- 
2.43.0


From fab85ba222c5f7bac585e283445bb67781766336 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 32/50] fix: the file size limit of a recording group was
 checked once per batch of rows instead of per row

---
 trick_source/sim_services/DataRecord/DataRecordGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 9d71c07..0ba1e5f 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -922,7 +922,7 @@ int Trick::DataRecordGroup::write_data(bool must_write) {
         writer_num = local_buffer_num - num_to_write ;
 
         //! This loop pulls a "row" of time homogeneous data and writes it to the file
-        while ( writer_num != local_buffer_num ) {
+        while ( writer_num != local_buffer_num && total_bytes_written <= max_file_size ) {
 
             writer_offset = writer_num % max_num ;
             //! keep record of bytes written to file. Default max is 1GB
-- 
2.43.0


From 429a83ac17a0f8fb8ed03dead358d187cf300403 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 33/50] fix: watching an element of an STL container for
 changes compared the size of the container and saw changes of memory that
 follows the element

---
 .../sim_services/DataRecord/DataRecordGroup.cpp        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 0ba1e5f..52d9eff 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -369,9 +369,10 @@ int Trick::DataRecordGroup::add_change_variable( std::string in_name ) {
     Trick::DataRecordBuffer * new_var = new Trick::DataRecordBuffer ;
     new_var->ref = ref2 ;
     new_var->name = in_name;
-    new_var->buffer = (char *)malloc(ref2->attr->size) ;
+    size_t elem_size = Trick::ReferenceUtils::effective_trick_size(ref2) ;
+    new_var->buffer = (char *)malloc(elem_size) ;
     new_var->last_value =  NULL ;
-    memcpy(new_var->buffer , ref2->address , ref2->attr->size) ;
+    memcpy(new_var->buffer , ref2->address , elem_size) ;
     change_buffer.push_back(new_var) ;
 
     return(0) ;
@@ -741,9 +742,10 @@ int Trick::DataRecordGroup::data_record(double in_time) {
                 if ( ref->pointer_present == 1 ) {
                     ref->address = follow_address_path(ref) ;
                 }
-                if ( memcmp( drb->buffer , drb->ref->address , drb->ref->attr->size) ) {
+                size_t elem_size = Trick::ReferenceUtils::effective_trick_size(ref) ;
+                if ( memcmp( drb->buffer , drb->ref->address , elem_size) ) {
                     change_detected = true ;
-                    memcpy( drb->buffer , drb->ref->address , drb->ref->attr->size) ;
+                    memcpy( drb->buffer , drb->ref->address , elem_size) ;
                 }
             }
 
-- 
2.43.0


From 480e8667d7e94ee50b1d0558621e915e0a21abd9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 34/50] fix: signed longs were read from binary logs as
 unsigned longs

---
 trick_source/data_products/Log/TrickBinary.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trick_source/data_products/Log/TrickBinary.cpp b/trick_source/data_products/Log/TrickBinary.cpp
index 1688f44..e161d71 100644
--- a/trick_source/data_products/Log/TrickBinary.cpp
+++ b/trick_source/data_products/Log/TrickBinary.cpp
@@ -136,6 +136,7 @@ TrickBinary::TrickBinary(char * file_name , char * param_name ) {
                                             default:
                                                 break ;
                                         }
+                                        break ;
                                     case TRICK_UNSIGNED_LONG:
                                         switch  ( size ) {
                                             case 4:
-- 
2.43.0


From 6084ed405f7344c065511891f8f92fa99cb62108 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 35/50] fix: unsigned shorts and single precision times were
 misread from binary logs of the other byte order

---
 trick_source/data_products/Log/TrickBinary.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trick_source/data_products/Log/TrickBinary.cpp b/trick_source/data_products/Log/TrickBinary.cpp
index e161d71..3a68c3e 100644
--- a/trick_source/data_products/Log/TrickBinary.cpp
+++ b/trick_source/data_products/Log/TrickBinary.cpp
@@ -215,8 +215,7 @@ int TrickBinary::get( double * time , double * value ) {
                 }
                 else {
                         float *my_time = (float *)record_ ;
-                        *time = (double)*my_time ;
-                        *time = swap_ ? trick_byteswap_double(*my_time) : *time ;
+                        *time = (double)(swap_ ? trick_byteswap_float(*my_time) : *my_time) ;
                 }
 
                 switch ( type_ ) {
@@ -234,7 +233,7 @@ int TrickBinary::get( double * time , double * value ) {
                                 break ;
                         case TRICK_UNSIGNED_SHORT:
                                 usp = (unsigned short *)(record_ + record_offset_) ;
-                                *value = (double)(swap_ ? trick_byteswap_short(*usp) : *usp) ;
+                                *value = (double)(swap_ ? (unsigned short)trick_byteswap_short(*usp) : *usp) ;
                                 break ;
                         case TRICK_ENUMERATED:
                         case TRICK_INTEGER:
-- 
2.43.0


From 58ec718fd0f732aa39d7b7b7b674896cbacc46ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 36/50] fix: a variable was read from a comma separated log of
 another variable whose name begins with its name, or from the time column

---
 trick_source/data_products/Log/Csv.cpp | 64 +++++++++++---------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/trick_source/data_products/Log/Csv.cpp b/trick_source/data_products/Log/Csv.cpp
index e90aa92..1a323a7 100644
--- a/trick_source/data_products/Log/Csv.cpp
+++ b/trick_source/data_products/Log/Csv.cpp
@@ -8,14 +8,19 @@
 #include "Csv.hh"
 #include "trick/map_trick_units_to_udunits.hh"
 
+/* whether a field of the header line, a name followed by its units, is of exactly this parameter:
+   a.b.c_more is not a.b.c */
+static bool field_is( const char * field , const char * param_name ) {
+        size_t len = strlen(param_name) ;
+        return strcspn(field , " \t\r{") == len && ! strncmp(field , param_name , len) ;
+}
+
 Csv::Csv(char * file_name , char * param_name ) {
 
         char * header ;
         char * next_field ;
-        int len ;
 
         fileName_ = file_name ;
-        len = strlen(param_name) ;
 
         if ((fp_ = fopen(file_name , "r")) == 0 ) {
            std::cerr << "ERROR:  Couldn't open \"" << file_name << "\": " << std::strerror(errno) << std::endl;
@@ -30,39 +35,24 @@ Csv::Csv(char * file_name , char * param_name ) {
         header[strlen(header)-1] = '\0' ;
 
         field_num_ = 0 ;
-        next_field = strtok( header , "," ) ;
-
-        if ( strncmp(next_field , param_name, len) ) {
-                field_num_++ ;
-                while ((next_field = strtok( NULL , "," ))) {
-                        char *space_loc = strchr(next_field, ' ');
-                        int actual_name_len = space_loc - next_field;
-                        // need to make sure if the length of the parameter and the length
-                        // of the parameter found in the next_field are actually the same,
-                        // since strncmp(a.b.c_more, a.b.c, 5) results a.b.c_more equals a.b.c.
-                        if ( strncmp(next_field , param_name, len) || actual_name_len != len) {
-                                field_num_++ ;
-                        }
-                        else {
-                                /* found the parameter, get the units if there are any */
-                                char * start_unit ,  * end_unit ;
-                                if ((start_unit = index( next_field , '{' ))) {
-                                        end_unit = index( next_field , '}' ) ;
-                                        end_unit[0] = '\0' ;
-                                        if ( ! strcmp( param_name , "sys.exec.out.time" )) {
-                                                unitTimeStr_ = start_unit + 1 ;
-                                        }
-                                        else {
-                                                if ( !strcmp(start_unit + 1,"--") ) {
-                                                    unitStr_ = start_unit + 1;
-                                                } else {
-                                                    unitStr_ = map_trick_units_to_udunits(start_unit + 1) ;
-                                                }
-                                        }
+        for ( next_field = strtok( header , "," ) ; next_field != NULL ; next_field = strtok( NULL , "," ) ) {
+                if ( field_is(next_field , param_name) ) {
+                        /* found the parameter, get the units if there are any */
+                        char * start_unit ,  * end_unit ;
+                        if ((start_unit = index( next_field , '{' )) && (end_unit = index( start_unit , '}' ))) {
+                                end_unit[0] = '\0' ;
+                                if ( ! strcmp( param_name , "sys.exec.out.time" )) {
+                                        unitTimeStr_ = start_unit + 1 ;
+                                }
+                                if ( !strcmp(start_unit + 1,"--") ) {
+                                    unitStr_ = start_unit + 1;
+                                } else {
+                                    unitStr_ = map_trick_units_to_udunits(start_unit + 1) ;
                                 }
-                                break ;
                         }
+                        break ;
                 }
+                field_num_++ ;
         }
 
         data_offset_ = ftell(fp_) ;
@@ -151,9 +141,6 @@ int CsvLocateParam( char * file_name , char * param_name ) {
         char * header ;
         char * next_field ;
         FILE * fp ;
-        int len ;
-
-        len = strlen(param_name) ;
 
         if ((fp = fopen(file_name , "r")) != 0 ) {
                 header = new char[20480] ;
@@ -162,13 +149,14 @@ int CsvLocateParam( char * file_name , char * param_name ) {
                 // remove trailing newline
                 header[strlen(header)-1] = '\0' ;
                 next_field = strtok( header , "," ) ;
-                do {
-                        if ( ! strncmp(next_field , param_name, len) ) {
+                while ( next_field != NULL ) {
+                        if ( field_is(next_field , param_name) ) {
                                 fclose(fp) ;
                                 delete[]header ;
                                 return(1) ;
                         }
-                } while ((next_field = strtok( NULL , "," ))) ;
+                        next_field = strtok( NULL , "," ) ;
+                }
 
                 delete[]header ;
                 fclose(fp) ;
-- 
2.43.0


From f00ff2681c353078d1cefb06735b26e826f4e9ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 37/50] fix: a comma separated log did not report its end after
 the last row, groups of streams then used values never read

---
 trick_source/data_products/Log/Csv.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trick_source/data_products/Log/Csv.cpp b/trick_source/data_products/Log/Csv.cpp
index 1a323a7..ec609e7 100644
--- a/trick_source/data_products/Log/Csv.cpp
+++ b/trick_source/data_products/Log/Csv.cpp
@@ -125,7 +125,10 @@ void Csv::begin() {
 }
 
 int Csv::end() {
-        return(feof(fp_)) ;
+        double time , value ;
+
+        /* whether no row is left, not whether a read has failed already */
+        return( ! peek( &time , &value ) ) ;
 }
 
 int Csv::step() {
-- 
2.43.0


From 7849a8ce66d8006a998ea24cf3dc5977eead6a4d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 38/50] fix: beginning a group of streams at a start time
 skipped a first row that is not before it

---
 trick_source/data_products/Log/DataStreamGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/data_products/Log/DataStreamGroup.cpp b/trick_source/data_products/Log/DataStreamGroup.cpp
index 911a75b..f29e480 100644
--- a/trick_source/data_products/Log/DataStreamGroup.cpp
+++ b/trick_source/data_products/Log/DataStreamGroup.cpp
@@ -81,7 +81,7 @@ void DataStreamGroup::begin()
 
         // If time < start time requested by user,
         // continue marching through time until start time reached
-        timeStamp = 0.0 ;
+        timeStamp = getTime() ;
         while ( timeStamp < startTime_ ) {
                 step() ;
                 timeStamp = getTime();
-- 
2.43.0


From 50e784549c66cc00f427445965b1af17fcd45159 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:20:53 +0000
Subject: [PATCH 39/50] fix: matching the rows of several logs by time skipped
 rows at a common time after rows at times only one of them has

---
 .../data_products/Log/DataStreamGroup.cpp     | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/trick_source/data_products/Log/DataStreamGroup.cpp b/trick_source/data_products/Log/DataStreamGroup.cpp
index f29e480..9acba05 100644
--- a/trick_source/data_products/Log/DataStreamGroup.cpp
+++ b/trick_source/data_products/Log/DataStreamGroup.cpp
@@ -297,19 +297,20 @@ int DataStreamGroup::matchTimeStamps() {
 
                 matched_time_stamps = 0 ;
                 maxTime = startTime_ ;
-                while ( ! matched_time_stamps ) {
 
-                        // get the next record out of the file and find the maximum time stamp
-                        for ( ii = 0 ; ii < dataStreams_.size() ; ii++ ) {
-                                if ( ! dataStreams_[ii]->get(&lastRead_[dataStreams_[ii]].time,
-                                        &lastRead_[dataStreams_[ii]].value) ) {
-                                        isEOF_ = 1 ;
-                                        return(0) ;
-                                }
-                                if (lastRead_[dataStreams_[ii]].time > maxTime ) {
-                                        maxTime = lastRead_[dataStreams_[ii]].time ;
-                                }
+                // get the next record out of the file and find the maximum time stamp
+                for ( ii = 0 ; ii < dataStreams_.size() ; ii++ ) {
+                        if ( ! dataStreams_[ii]->get(&lastRead_[dataStreams_[ii]].time,
+                                &lastRead_[dataStreams_[ii]].value) ) {
+                                isEOF_ = 1 ;
+                                return(0) ;
                         }
+                        if (lastRead_[dataStreams_[ii]].time > maxTime ) {
+                                maxTime = lastRead_[dataStreams_[ii]].time ;
+                        }
+                }
+
+                while ( ! matched_time_stamps ) {
 
                         // if the maximum time is greater than the stopTime we are done ;
                         if ( maxTime > stopTime_ ) {
@@ -330,12 +331,15 @@ int DataStreamGroup::matchTimeStamps() {
                         }
 
 
-                        // check to see if all the time stamps match or not
+                        // check to see if all the time stamps match or not.  A stream that has
+                        // gone past the time sets the next one the others have to reach.
                         matched_time_stamps = 1 ;
                         for ( ii = 0 ; ii < dataStreams_.size() ; ii++ ) {
                                 if ( DPLOG_ABS(lastRead_[dataStreams_[ii]].time - maxTime) > timeMatchTolerance_ ) {
                                         matched_time_stamps = 0 ;
-                                        break ;
+                                        if (lastRead_[dataStreams_[ii]].time > maxTime ) {
+                                                maxTime = lastRead_[dataStreams_[ii]].time ;
+                                        }
                                 }
                         }
 
-- 
2.43.0


From 15e83ec8a0b66988a518f53e8989961a3dd95bc1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 40/50] fix: a second cycle change between two calls of a
 recording group scheduled it in the past: the rows until the next change were
 lost

---
 trick_source/sim_services/DataRecord/DataRecordGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 52d9eff..2e6eb99 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -205,6 +205,7 @@ void Trick::DataRecordGroup::reschedule()
     long long curr_tics = exec_get_time_tics();
     if(inited && write_job->next_tics != curr_tics)
     {
+        advance_log_tics_given_curr_tic(curr_tics);
         write_job->next_tics = calculate_next_logging_tic(curr_tics);
         write_job->cycle_tics = write_job->next_tics - curr_tics;
         write_job->cycle = (double)write_job->cycle_tics / Trick::JobData::time_tic_value;
-- 
2.43.0


From 35e68cc1c35bb5ea63e1f9e5c8af8906f5d7cee3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:55:52 +0000
Subject: [PATCH 41/50] fix: an event that needs all its conditions never fired
 once its first condition was disabled

---
 trick_source/sim_services/InputProcessor/IPPythonEvent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp b/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
index c822ddf..85d42c7 100644
--- a/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
+++ b/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
@@ -543,6 +543,7 @@ bool Trick::IPPythonEvent::process_user_event( long long curr_time ) {
     int ii ;
     int return_val ;
     bool it_fired, it_ran;
+    bool first_enabled = true ;
 
     fired = false ;
     ran = false ;
@@ -593,7 +594,8 @@ bool Trick::IPPythonEvent::process_user_event( long long curr_time ) {
                 }
             } // end evaluate condition
             /** @li If cond_all is true, only set event fired/hold after all enabled conditions evaluated. */
-            if (ii==0) {
+            if (first_enabled) {
+                first_enabled = false ;
                 fired = condition_list[ii]->fired ;
                 hold  = condition_list[ii]->hold ;
             }  else {
-- 
2.43.0


From f6b508d711a08098aa8ac7bd33ed2bdd7ac04520 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:55:52 +0000
Subject: [PATCH 42/50] fix: an event without actions that was fired manually
 once fired again at every evaluation

---
 trick_source/sim_services/InputProcessor/IPPythonEvent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp b/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
index 85d42c7..597bff9 100644
--- a/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
+++ b/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
@@ -665,9 +665,10 @@ bool Trick::IPPythonEvent::process_user_event( long long curr_time ) {
             ran = true ;
         }
         /** @li Leave event fired state on if hold is on. */
-        manual_fired &= hold ;
         fired &= hold ;
     }
+    /** @li A manual fire is over, also if there are no actions, unless hold is on. */
+    manual_fired &= hold ;
     /** @li Set the event's ran state if any actions were run. */
     if (it_ran) {
         ran_count++ ;
-- 
2.43.0


From f8e21ab3d797c8ba72dd1c1cf33decfec3c0be20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:55:52 +0000
Subject: [PATCH 43/50] fix: an event condition that raises an error took the
 value of the condition evaluated before it

---
 trick_source/sim_services/InputProcessor/IPPython.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/InputProcessor/IPPython.cpp b/trick_source/sim_services/InputProcessor/IPPython.cpp
index 0f7fbc8..c107be2 100644
--- a/trick_source/sim_services/InputProcessor/IPPython.cpp
+++ b/trick_source/sim_services/InputProcessor/IPPython.cpp
@@ -259,9 +259,11 @@ int Trick::IPPython::parse_condition(std::string in_string, int & cond_return_va
     int py_ret;
     {
         GILGuard gil_guard;
+        // A condition that cannot be evaluated is false, it does not take the value of the one evaluated before it.
+        return_val = 0 ;
         py_ret = PyRun_SimpleString(in_string.c_str());
+        cond_return_val = return_val ;
     }
-    cond_return_val = return_val ;
 
     return py_ret ;
 
-- 
2.43.0


From f9c0f944383d3ac280757fe7ce13a60f5f784a91 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:56:13 +0000
Subject: [PATCH 44/50] fix: removing one event from a job detached every other
 event tied to the same job

---
 include/trick/JobData.hh                                | 7 +++++++
 trick_source/sim_services/EventManager/EventManager.cpp | 4 ++--
 trick_source/sim_services/SimObject/JobData.cpp         | 7 +++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/trick/JobData.hh b/include/trick/JobData.hh
index 3c5fde6..0751f77 100644
--- a/include/trick/JobData.hh
+++ b/include/trick/JobData.hh
@@ -255,6 +255,13 @@ namespace Trick {
              */
             virtual int remove_inst( std::string job_name ) ;
 
+            /**
+             * Removes one instrument job, other instruments of the same name stay.
+             * @param in_job - the instrument job
+             * @return always 0
+             */
+            virtual int remove_inst( InstrumentBase * in_job ) ;
+
             /**
              * Calls the instumentation jobs and the job itself.
              * @return always 0
diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index d5945bc..e8c49e0 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -201,7 +201,7 @@ int Trick::EventManager::remove_event(Trick::Event * in_event) {
                 /* If the event is tied to a job, call the target jobs remove instrument routine */
                 Trick::EventInstrument * found_event_instru = *ei_it ;
                 ei_it = events_instrumented.erase(ei_it) ;
-                found_event_instru->get_target_job()->remove_inst(found_event_instru->name) ;
+                found_event_instru->get_target_job()->remove_inst(found_event_instru) ;
                 delete found_event_instru ;
             } else {
                 ei_it++ ;
@@ -271,7 +271,7 @@ int Trick::EventManager::preload_checkpoint() {
     for ( ei_it = events_instrumented.begin() ; ei_it != events_instrumented.end() ; ) {
         Trick::EventInstrument * found_event_instru = *ei_it ;
         ei_it = events_instrumented.erase(ei_it) ;
-        found_event_instru->get_target_job()->remove_inst(found_event_instru->name) ;
+        found_event_instru->get_target_job()->remove_inst(found_event_instru) ;
         delete found_event_instru ;
     }
     return 0 ;
diff --git a/trick_source/sim_services/SimObject/JobData.cpp b/trick_source/sim_services/SimObject/JobData.cpp
index 79b6cc9..3be2fc2 100644
--- a/trick_source/sim_services/SimObject/JobData.cpp
+++ b/trick_source/sim_services/SimObject/JobData.cpp
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <math.h>
 
 #include "trick/JobData.hh"
@@ -174,6 +175,12 @@ int Trick::JobData::remove_inst( std::string job_name ) {
     return 0 ;
 }
 
+int Trick::JobData::remove_inst( InstrumentBase * in_job ) {
+    inst_before.erase( std::remove( inst_before.begin() , inst_before.end() , in_job ) , inst_before.end() ) ;
+    inst_after.erase( std::remove( inst_after.begin() , inst_after.end() , in_job ) , inst_after.end() ) ;
+    return 0 ;
+}
+
 int Trick::JobData::call() {
     int ret ;
     unsigned int ii , size ;
-- 
2.43.0


From fe4b388a61933f32d3e88c3fbc7450ff2b990b3a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:56:13 +0000
Subject: [PATCH 45/50] fix: an event whose action removes another event tied
 to the same job crashed: the removed one was still called

---
 .../sim_services/SimObject/JobData.cpp        | 38 +++++++------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/trick_source/sim_services/SimObject/JobData.cpp b/trick_source/sim_services/SimObject/JobData.cpp
index 3be2fc2..c5542d4 100644
--- a/trick_source/sim_services/SimObject/JobData.cpp
+++ b/trick_source/sim_services/SimObject/JobData.cpp
@@ -181,46 +181,36 @@ int Trick::JobData::remove_inst( InstrumentBase * in_job ) {
     return 0 ;
 }
 
+/* An instrument may remove itself or others from the list it is called from: those removed are not called anymore. */
+static void call_instruments( std::vector<Trick::InstrumentBase *> & insts ) {
+    std::vector<Trick::InstrumentBase *> to_call(insts) ;
+    for ( unsigned int ii = 0 ; ii < to_call.size() ; ii++ ) {
+        if ( std::find( insts.begin() , insts.end() , to_call[ii] ) != insts.end() ) {
+            to_call[ii]->call() ;
+        }
+    }
+}
+
 int Trick::JobData::call() {
     int ret ;
-    unsigned int ii , size ;
-    InstrumentBase * curr_job ;
 
-    size = inst_before.size() ;
-    for ( ii = 0 ; ii < size ; ii++ ) {
-        curr_job = inst_before[ii] ;
-        curr_job->call() ;
-    }
+    call_instruments( inst_before ) ;
 
     ret = parent_object->call_function(this) ;
 
-    size = inst_after.size() ;
-    for ( ii = 0 ; ii < size ; ii++ ) {
-        curr_job = inst_after[ii] ;
-        curr_job->call() ;
-    }
+    call_instruments( inst_after ) ;
 
     return ret ;
 }
 
 double Trick::JobData::call_double() {
     double ret ;
-    unsigned int ii , size ;
-    InstrumentBase * curr_job ;
 
-    size = inst_before.size() ;
-    for ( ii = 0 ; ii < size ; ii++ ) {
-        curr_job = inst_before[ii] ;
-        curr_job->call() ;
-    }
+    call_instruments( inst_before ) ;
 
     ret = parent_object->call_function_double(this) ;
 
-    size = inst_after.size() ;
-    for ( ii = 0 ; ii < size ; ii++ ) {
-        curr_job = inst_after[ii] ;
-        curr_job->call() ;
-    }
+    call_instruments( inst_after ) ;
 
     return ret ;
 }
-- 
2.43.0


From f8ba650ecd74ec8a09234e23742b610d78d4ffcc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 46/50] fix: an event removed in the frame it was added in was
 processed from the next frame on

---
 trick_source/sim_services/EventManager/EventProcessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trick_source/sim_services/EventManager/EventProcessor.cpp b/trick_source/sim_services/EventManager/EventProcessor.cpp
index 1ee3fa1..e46f3a0 100644
--- a/trick_source/sim_services/EventManager/EventProcessor.cpp
+++ b/trick_source/sim_services/EventManager/EventProcessor.cpp
@@ -7,6 +7,7 @@
    PROGRAMMERS: ( Alex Lin NASA 2014 )
 */
 
+#include <algorithm>
 #include <iostream>
 
 #include "trick/EventProcessor.hh"
@@ -29,6 +30,8 @@ void Trick::EventProcessor::add_event(Trick::Event * in_event) {
 -# Else set the process_event job to maximum time
 */
 void Trick::EventProcessor::remove_event(Trick::Event * in_event) {
+    // the event may not have made it into the set yet.
+    pending_events.erase(std::remove(pending_events.begin(), pending_events.end(), in_event), pending_events.end()) ;
     std::multiset< Trick::Event *, CompareEventPtrs >::iterator sit = event_set.begin() ;
     for (sit=event_set.begin(); sit!=event_set.end(); ++sit) {
         if ((*sit) == in_event) {
-- 
2.43.0


From 66c76154be3f9157b13a88e870153c212c34861e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 47/50] fix: an event whose action removes it went on being
 processed every cycle

---
 include/trick/EventProcessor.hh                       |  5 +++++
 .../sim_services/EventManager/EventProcessor.cpp      | 11 +++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/trick/EventProcessor.hh b/include/trick/EventProcessor.hh
index 9d98107..319e006 100644
--- a/include/trick/EventProcessor.hh
+++ b/include/trick/EventProcessor.hh
@@ -37,6 +37,8 @@ namespace Trick {
 
         public:
 
+            EventProcessor() : process_event_job(NULL) , processing(NULL) {}
+
             /**
              @brief Sets the process_event_job pointer.
             */
@@ -74,6 +76,9 @@ namespace Trick {
 
             Trick::JobData * process_event_job ; // trick_io(**)
 
+            /** The event process_event is processing, NULL once that event is removed.\n */
+            Trick::Event * processing ; // trick_io(**)
+
             /** Use an ordered set to store the events.  The events are sorted by their next execution
                 time.  The set allows us to add/remove items at any time.\n */
             std::multiset< Trick::Event *, CompareEventPtrs > event_set ;  // trick_io(**)
diff --git a/trick_source/sim_services/EventManager/EventProcessor.cpp b/trick_source/sim_services/EventManager/EventProcessor.cpp
index e46f3a0..924704d 100644
--- a/trick_source/sim_services/EventManager/EventProcessor.cpp
+++ b/trick_source/sim_services/EventManager/EventProcessor.cpp
@@ -31,6 +31,10 @@ void Trick::EventProcessor::add_event(Trick::Event * in_event) {
 */
 void Trick::EventProcessor::remove_event(Trick::Event * in_event) {
     // the event may not have made it into the set yet.
+    if ( in_event == processing ) {
+        // the event removes itself, do not put it back in the set.
+        processing = NULL ;
+    }
     pending_events.erase(std::remove(pending_events.begin(), pending_events.end(), in_event), pending_events.end()) ;
     std::multiset< Trick::Event *, CompareEventPtrs >::iterator sit = event_set.begin() ;
     for (sit=event_set.begin(); sit!=event_set.end(); ++sit) {
@@ -84,18 +88,21 @@ int Trick::EventProcessor::process_event( long long curr_tics ) {
 
         // erase the current event out of the set.
         event_set.erase(sit) ;
+        processing = curr_event ;
 
         // if the event is active process it
         if ( curr_event->is_active() ) {
             curr_event->process(curr_tics) ;
         }
 
-        // if the event has a cycle time, update the time and put the item back in the set
-        if ( curr_event->get_cycle_tics() != 0 ) {
+        // if the event has a cycle time and was not removed meanwhile, update the time and put the item back in the set
+        if ( processing != NULL and curr_event->get_cycle_tics() != 0 ) {
             curr_event->advance_next_tics() ;
             event_set.insert(curr_event) ;
         }
 
+        processing = NULL ;
+
         // get the next top element of the set.
         sit = event_set.begin() ;
     }
-- 
2.43.0


From bf970cbcced57b0121ae7044b84709c6f3345d66 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 48/50] fix: adding an event that was already added kept other
 events from being processed

---
 include/trick/EventProcessor.hh               |  3 +++
 .../EventManager/EventProcessor.cpp           | 21 ++++++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/trick/EventProcessor.hh b/include/trick/EventProcessor.hh
index 319e006..09fbfc8 100644
--- a/include/trick/EventProcessor.hh
+++ b/include/trick/EventProcessor.hh
@@ -74,6 +74,9 @@ namespace Trick {
 
         private:
 
+            /** Takes an event out of the set of events. */
+            void erase_from_set(Trick::Event * in_event) ;
+
             Trick::JobData * process_event_job ; // trick_io(**)
 
             /** The event process_event is processing, NULL once that event is removed.\n */
diff --git a/trick_source/sim_services/EventManager/EventProcessor.cpp b/trick_source/sim_services/EventManager/EventProcessor.cpp
index 924704d..064f25c 100644
--- a/trick_source/sim_services/EventManager/EventProcessor.cpp
+++ b/trick_source/sim_services/EventManager/EventProcessor.cpp
@@ -36,13 +36,7 @@ void Trick::EventProcessor::remove_event(Trick::Event * in_event) {
         processing = NULL ;
     }
     pending_events.erase(std::remove(pending_events.begin(), pending_events.end(), in_event), pending_events.end()) ;
-    std::multiset< Trick::Event *, CompareEventPtrs >::iterator sit = event_set.begin() ;
-    for (sit=event_set.begin(); sit!=event_set.end(); ++sit) {
-        if ((*sit) == in_event) {
-            event_set.erase(sit) ;
-            break;
-        }
-    }
+    erase_from_set(in_event) ;
     if ( !event_set.empty() ) {
         process_event_job->next_tics = (*(event_set.begin()))->get_next_tics() ;
     } else {
@@ -51,10 +45,23 @@ void Trick::EventProcessor::remove_event(Trick::Event * in_event) {
     }
 }
 
+// Takes the event out of the set.  The event's next time must not change while the event is in the set.
+void Trick::EventProcessor::erase_from_set(Trick::Event * in_event) {
+    std::multiset< Trick::Event *, CompareEventPtrs >::iterator sit ;
+    for (sit=event_set.begin(); sit!=event_set.end(); ++sit) {
+        if ((*sit) == in_event) {
+            event_set.erase(sit) ;
+            break;
+        }
+    }
+}
+
 //Top of frame job to add new events to processing set.
 void Trick::EventProcessor::add_pending_events( long long curr_tics , bool is_restart ) {
     std::vector< Trick::Event * >::iterator it ;
     for ( it = pending_events.begin() ; it != pending_events.end() ; ) {
+        // an event that is added again starts over, it is in the set only once.
+        erase_from_set(*it) ;
         if ( (*it)->get_cycle_tics() != 0 ) {
             // this is a cyclic event
             // If we are not calling this routine during a restart
-- 
2.43.0


From cc29b695b9adebf3b8b6b8bfccd6251078cbb057 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 49/50] fix: manual on did not fire an event on the event job's
 list that is not active, as every event that fired once is

---
 include/trick/Event.hh                                    | 5 +++++
 include/trick/IPPythonEvent.hh                            | 2 ++
 trick_source/sim_services/EventManager/EventProcessor.cpp | 4 ++--
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/trick/Event.hh b/include/trick/Event.hh
index d54dd0f..54c63f2 100644
--- a/include/trick/Event.hh
+++ b/include/trick/Event.hh
@@ -61,6 +61,11 @@ class Event {
         */
         bool is_active() { return active ; } ;
 
+        /**
+         @brief returns if the event is to be processed although it is not active
+        */
+        virtual bool is_manual_fired() { return false ; } ;
+
         /**
          @brief @userdesc Command to turn on processing of event (can be overridden by manual mode).
          @par Python Usage:
diff --git a/include/trick/IPPythonEvent.hh b/include/trick/IPPythonEvent.hh
index f62fe3b..d5660a8 100644
--- a/include/trick/IPPythonEvent.hh
+++ b/include/trick/IPPythonEvent.hh
@@ -400,6 +400,8 @@ namespace Trick {
             */
             double action_ran_time(int num) ;
 
+            virtual bool is_manual_fired() { return manual_fired ; } ;
+
             virtual int process( long long curr_time ) ;
 
             bool process_user_event( long long curr_time ) ;
diff --git a/trick_source/sim_services/EventManager/EventProcessor.cpp b/trick_source/sim_services/EventManager/EventProcessor.cpp
index 064f25c..122501f 100644
--- a/trick_source/sim_services/EventManager/EventProcessor.cpp
+++ b/trick_source/sim_services/EventManager/EventProcessor.cpp
@@ -97,8 +97,8 @@ int Trick::EventProcessor::process_event( long long curr_tics ) {
         event_set.erase(sit) ;
         processing = curr_event ;
 
-        // if the event is active process it
-        if ( curr_event->is_active() ) {
+        // if the event is active, or held fired by manual mode, process it
+        if ( curr_event->is_active() or curr_event->is_manual_fired() ) {
             curr_event->process(curr_tics) ;
         }
 
-- 
2.43.0


From 886173cd9ef6f608326faf0518e08042eb12f95b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:56:57 +0000
Subject: [PATCH 50/50] fix: removing an event that was added both to the event
 job and to a job removed it from only one of them

---
 .../EventManager/EventManager.cpp             | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index e8c49e0..77d23f6 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -191,21 +191,21 @@ int Trick::EventManager::remove_event(Trick::Event * in_event) {
         return 0 ;
     }
 
-    if ( in_event->get_before_after() == Trick::EVENT_NOTARGET ) {
-        /* If the event is cyclic, remove the event from the event processor on the event's thread */
+    /* The event may be cyclic and tied to jobs.  Remove it from the event processor on the event's thread */
+    if ( in_event->get_thread() < event_processors.size() ) {
         event_processors[in_event->get_thread()]->remove_event(in_event) ;
-    } else {
-        std::vector< Trick::EventInstrument * >::iterator ei_it ;
-        for ( ei_it = events_instrumented.begin() ; ei_it != events_instrumented.end() ; ) {
-            if ( (*ei_it)->get_event() == in_event ) {
-                /* If the event is tied to a job, call the target jobs remove instrument routine */
-                Trick::EventInstrument * found_event_instru = *ei_it ;
-                ei_it = events_instrumented.erase(ei_it) ;
-                found_event_instru->get_target_job()->remove_inst(found_event_instru) ;
-                delete found_event_instru ;
-            } else {
-                ei_it++ ;
-            }
+    }
+
+    std::vector< Trick::EventInstrument * >::iterator ei_it ;
+    for ( ei_it = events_instrumented.begin() ; ei_it != events_instrumented.end() ; ) {
+        if ( (*ei_it)->get_event() == in_event ) {
+            /* If the event is tied to a job, call the target jobs remove instrument routine */
+            Trick::EventInstrument * found_event_instru = *ei_it ;
+            ei_it = events_instrumented.erase(ei_it) ;
+            found_event_instru->get_target_job()->remove_inst(found_event_instru) ;
+            delete found_event_instru ;
+        } else {
+            ei_it++ ;
         }
     }
 
-- 
2.43.0

