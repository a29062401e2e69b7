From 6c0e2b198734eced93da84ed9419e6e4db768593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 01/64] fix: do not crash when an optimizer's signals arrive
 after its log cache was cleared

---
 glompo/core/optimizerlogger.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 7040bec..df478bb 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -111,15 +111,19 @@ class BaseLogger:
             del self._storage[key]
 
     def put_metadata(self, opt_id: int, key: str, value: Any):
-        """ Adds optimizer metadata to storage. """
-        self._storage[opt_id]['metadata'][key] = value
+        """ Adds optimizer metadata to storage. Ignored if `opt_id` has already been cleared from memory. """
+        if opt_id in self._storage:
+            self._storage[opt_id]['metadata'][key] = value
 
     def put_manager_metadata(self, key: str, value: Any):
         pass
 
     def put_message(self, opt_id: int, message: str):
-        """ Stores message signals sent from optimizers to the manager. """
-        self._storage[opt_id]['messages'].append(message)
+        """ Stores message signals sent from optimizers to the manager.
+        Ignored if `opt_id` has already been cleared from memory.
+        """
+        if opt_id in self._storage:
+            self._storage[opt_id]['messages'].append(message)
 
     def put_iteration(self, iter_res: IterationResult):
         """ Records function evaluations in memory. """
-- 
2.43.0


From 7692a52874ef0ec4481568951649d12a994dee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 02/64] fix: count optimizers cleared from memory in
 BaseLogger.n_optimizers

---
 glompo/core/optimizerlogger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index df478bb..d3c0943 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -35,8 +35,8 @@ class BaseLogger:
 
     @property
     def n_optimizers(self) -> int:
-        """ Returns the number of optimizers in the log. """
-        return len(self._storage)
+        """ Returns the number of optimizers in the log (including those since cleared from memory). """
+        return len(self._best_iters) - 1  # Discounts the placeholder which exists before any optimizer is started
 
     @property
     def largest_eval(self) -> float:
-- 
2.43.0


From 7d6c7f18f99c27ce5886020bec6f45d010417bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 03/64] fix: do not crash when the last optimizer ends after
 spawning has stopped

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 967cb86..6c3aac1 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1256,7 +1256,7 @@ class GloMPOManager:
                                   'max_jobs': self.max_jobs,
                                   'f': self.f_counter,
                                   'f_best': f_best})
-        elif len(processes) == 0:
+        elif len(processes) == 0 and self.spawning_opts:
             raise RuntimeError("Not enough worker slots to start any optimizers with the current settings.")
 
     def _start_new_job(self, opt_id: int, optimizer: BaseOptimizer, call_kwargs: Dict[str, Any],
-- 
2.43.0


From 8bf40691bc0d10c7204fbfafb6296099a67876fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 04/64] fix: process all outstanding results before ending
 because no optimizers are alive

---
 glompo/core/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 6c3aac1..1ef4474 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1023,7 +1023,9 @@ class GloMPOManager:
                     self.t_end = time()
                     reason = self.convergence_checker.str_with_result()
 
-                self.converged = checker_condition or (all_dead and not self.spawning_opts)
+                # Dead optimizers may have left results in the queue which must still be processed
+                self.converged = checker_condition or (all_dead and not self.spawning_opts and
+                                                       self.optimizer_queue.empty())
                 if self.converged:
                     self.logger.info("Convergence Reached")
 
-- 
2.43.0


From 7f32d9786929da04e074ebc0b99adf81fd2c6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 05/64] fix: share an incumbent only when it is new, also if
 the best value is zero

---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 1ef4474..fd92fd6 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1622,7 +1622,8 @@ class GloMPOManager:
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
+        previous_fx = float('inf') if self.result.fx is None else self.result.fx
+        if self.incumbent_sharing and best_iter['fx'] < previous_fx:
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
                     pack.signal_pipe.send((4, best_iter['x'], best_iter['fx']))
-- 
2.43.0


From 51fa2da95edbab9d898837a446b4e6668dc422f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 06/64] fix: report the final optimizer counters in the result
 statistics

---
 glompo/core/manager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index fd92fd6..93067df 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1085,10 +1085,16 @@ class GloMPOManager:
             self.logger.debug("Saving summary file results")
             self._save_log(self.result, reason, caught_exception, self.working_dir, self.summary_files)
 
+            final_stats = {'end_cond': reason}
+            if self.result.stats:  # Counters may have changed since the last function evaluation was processed
+                final_stats = {**self.result.stats,
+                               'opts_started': self.o_counter,
+                               'opts_killed': len(self.hunt_victims),
+                               'opts_conv': self.conv_counter,
+                               **final_stats}
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
-                                 {**self.result.stats, 'end_cond': reason} if self.result.stats else {
-                                     'end_cond': reason},
+                                 final_stats,
                                  self.result.origin)
 
             self.opt_log.close()
-- 
2.43.0


From 5969914b5b3b2470e282b2649abbc3d5592ca000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 07/64] fix: keep the results queue empty while waiting for
 optimizers to end

---
 glompo/core/manager.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 93067df..94f2d05 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1656,12 +1656,7 @@ class GloMPOManager:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
         # Purge the queue to ensure no optimizers are blocking
-        try:
-            while not self.optimizer_queue.empty():
-                self.optimizer_queue.get_nowait()
-        except Exception as e:
-            # Queue may not be accessible in a crash
-            self.logger.debug("Queue purge failed.", exc_info=e)
+        self._purge_queue()
 
         for opt_id, pack in self._optimizer_packs.items():
             # Add stop condition to logs without overwriting existing ones
@@ -1675,7 +1670,16 @@ class GloMPOManager:
                                           crash_reason if crash_reason else "GloMPO Convergence")
 
             if pack.process.is_alive():
-                pack.process.join(timeout=self.end_timeout if not crash_reason else 0.1)
+                t_end = None
+                if crash_reason:
+                    t_end = time() + 0.1
+                elif self.end_timeout is not None:
+                    t_end = time() + self.end_timeout
+                while pack.process.is_alive() and (t_end is None or time() < t_end):
+                    # Optimizers only see the stop signal after the iterations they are busy with have been accepted by
+                    # the queue, thus it must be kept empty while waiting for them.
+                    self._purge_queue()
+                    pack.process.join(timeout=0.1 if t_end is None else max(0., min(0.1, t_end - time())))
                 if pack.process.is_alive():
                     if self.proc_backend:
                         self.logger.info("Termination signal sent to optimizer %d", opt_id)
@@ -1684,6 +1688,15 @@ class GloMPOManager:
                         self.logger.warning("Could not join optimizer %d. May crash out with it still running and thus "
                                             "generate errors. Terminations cannot be sent to threads.", opt_id)
 
+    def _purge_queue(self):
+        """ Discards all the results waiting in the :attr:`optimizer_queue`. """
+        try:
+            while not self.optimizer_queue.empty():
+                self.optimizer_queue.get_nowait()
+        except Exception as e:
+            # Queue may not be accessible in a crash
+            self.logger.debug("Queue purge failed.", exc_info=e)
+
     def _save_log(self, result: Result, reason: str, caught_exception: Optional[str], dump_dir: Path,
                   summary_files: int):
         """ Saves the manager's state and history into the collection of files indicated by :obj:`summary_files`.
-- 
2.43.0


From fb09827cad79a7d79cd84786f4c78d45a6837ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 08/64] fix: accept optimizer messages without text

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 94f2d05..a1f5628 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1383,7 +1383,7 @@ class GloMPOManager:
                 elif key == 9:
                     self.opt_log.put_message(opt_id, message)
                     self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
-                    self.opt_crashed = "Traceback" in message or self.opt_crashed
+                    self.opt_crashed = (message is not None and "Traceback" in message) or self.opt_crashed
                     if self.visualisation:
                         self.scope.update_crash_terminate(opt_id)
                 found_signal = True
-- 
2.43.0


From ddb5ef8f253b33fbfb0bb514f03af06123168bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:49 +0000
Subject: [PATCH 09/64] fix: save the log in checkpoints after the outstanding
 results were processed

---
 glompo/core/manager.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a1f5628..fa04232 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1133,11 +1133,6 @@ class GloMPOManager:
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
 
         try:
-            # Flush logger
-            self.opt_log.flush()
-            self.opt_log.checkpoint_save(path)
-            self.logger.debug("Log successfully pickled")
-
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
@@ -1147,6 +1142,12 @@ class GloMPOManager:
             self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
 
             self._checkpoint_optimizers(path)
+
+            # Flush logger, only once the results outstanding when the optimizers were paused have been processed
+            self.opt_log.flush()
+            self.opt_log.checkpoint_save(path)
+            self.logger.debug("Log successfully pickled")
+
             self._checkpoint_manager(path)
             self._checkpoint_task(path)
 
-- 
2.43.0


From 73c162a32cd2d7688e7bf192a542c0be678518c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:49 +0000
Subject: [PATCH 10/64] fix: accept log messages from optimizers while a
 checkpoint is synchronised

---
 glompo/core/manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index fa04232..9ecf148 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1862,6 +1862,12 @@ class GloMPOManager:
                             if self.visualisation:
                                 self.scope.update_pause(opt_id)
                             wait_reply.remove(opt_id)
+                        elif key == 9:
+                            self.opt_log.put_message(opt_id, message)
+                            self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
+                            self.opt_crashed = (message is not None and "Traceback" in message) or self.opt_crashed
+                            if self.visualisation:
+                                self.scope.update_crash_terminate(opt_id)
                         else:
                             raise RuntimeError(f"Unhandled message: {message}")
                 else:
-- 
2.43.0


From ff6683bed2825db43d851c9f8256f325aebb2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 11/64] fix: include results cached by the queue in checkpoints

---
 glompo/core/manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 9ecf148..a76c7a8 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1881,6 +1881,11 @@ class GloMPOManager:
         closed, victims = self._process_results()
         [not_chkpt.add(cld) for cld in closed]
         [not_chkpt.add(vic) for vic in victims]
+        while self.optimizer_queue.has_cache():  # Results which have not been put in the queue yet
+            self.optimizer_queue.flush()
+            closed, victims = self._process_results()
+            [not_chkpt.add(cld) for cld in closed]
+            [not_chkpt.add(vic) for vic in victims]
         self.logger.info("Outstanding results processed")
 
         assert self.optimizer_queue.empty()
-- 
2.43.0


From 47b84010771e6c516336311f37c3071fb64cdced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 12/64] fix: do not checkpoint optimizers which have been told
 to stop

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a76c7a8..9a79985 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1830,7 +1830,7 @@ class GloMPOManager:
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
-        not_chkpt = set()  # Set of messaged opts that should not be checkpointed
+        not_chkpt = messaged & self._graveyard  # Set of messaged opts that should not be checkpointed
         wait_reply = messaged.copy()
         living = messaged.copy()
         n_alive = len(messaged)
-- 
2.43.0


From 3255b7128248707b71eb0727ff7f36a6811fb626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 13/64] fix: do not stop the optimizers in a periodic
 checkpoint before the one made at convergence

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 9a79985..47b1253 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1032,7 +1032,7 @@ class GloMPOManager:
                 if time() - self.last_status > self.status_frequency:
                     self.logger.info(self._build_status_message())
 
-                if self.checkpoint_control:
+                if self.checkpoint_control and not (self.converged and self.checkpoint_control.checkpoint_at_conv):
                     if time() - self.last_time_checkpoint > self.checkpoint_control.checkpoint_time_frequency:
                         self.last_time_checkpoint = time()
                         self.checkpoint()
-- 
2.43.0


From 12819a152fe199955f072b9814fbae33fa69b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 14/64] fix: match complete checkpoint names, with any literal
 characters and counts above 999

---
 glompo/core/checkpointing.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index b34d9b8..320d0ce 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -108,20 +108,15 @@ class CheckpointingControl:
         self.naming_format = naming_format
         self.count = None
 
-        codes = {'%[(]date[)]': 8, '%[(]year[)]': 4, '%[(]yr[)]': 2, '%[(]month[)]': 2, '%[(]day[)]': 2,
-                 '%[(]time[)]': 6, '%[(]hour[)]': 2,
-                 '%[(]min[)]': 2, '%[(]sec[)]': 2}
-
-        format_re = list(copy(self.naming_format))
-        for i, char in enumerate(format_re):
-            if any([char == c for c in ('{', '(', '+', '*', '|', '.', '$', ')', '}')]):
-                format_re[i] = f'[{char}]'
-            if any([char == c for c in ('^', '[', ']')]):
-                format_re[i] = rf'\{char}'
-        format_re = "".join(format_re)
+        codes = {'%(date)': 8, '%(year)': 4, '%(yr)': 2, '%(month)': 2, '%(day)': 2, '%(time)': 6, '%(hour)': 2,
+                 '%(min)': 2, '%(sec)': 2}
+
+        format_re = re.escape(self.naming_format)
         for key, digits in codes.items():
-            format_re = format_re.replace(key, f'[0-9]{{{digits}}}')
-        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3})')
+            format_re = format_re.replace(re.escape(key), f'[0-9]{{{digits}}}')
+        # More than three digits are only used once the count exceeds 999
+        format_re = format_re.replace(re.escape('%(count)'), '(?P<index>[0-9]{3}|[1-9][0-9]{3,})')
+        format_re += r'(?:\.tar\.gz)?'
 
         self._naming_format_re = format_re
 
@@ -144,7 +139,7 @@ class CheckpointingControl:
 
         if self.checkpointing_dir.exists():
             max_index = -1
-            matches = [re.match(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
+            matches = [re.fullmatch(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
             for match in matches:
                 if match and match.lastgroup == 'index':
                     i = int(match.group('index'))
@@ -160,4 +155,4 @@ class CheckpointingControl:
 
     def matches_naming_format(self, name: str) -> bool:
         """ Returns :obj:`True` if the provided name matches the pattern in the :attr:`naming_format`. """
-        return bool(re.match(self._naming_format_re, name))
+        return bool(re.fullmatch(self._naming_format_re, name))
-- 
2.43.0


From cdc242f365fe5e4fd32ca5c8abe1b0425d1c3678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 15/64] fix: use task.checkpoint_save whatever error pickling
 the task raises

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 47b1253..e53e4da 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1953,7 +1953,7 @@ class GloMPOManager:
                     dill.dump(self.task, file)
                 self.logger.info("Task successfully pickled")
                 task_persisted = True
-            except PickleError as pckl_err:
+            except Exception as pckl_err:
                 self.logger.info("Pickle task failed. Attempting task.checkpoint_save()", exc_info=pckl_err)
                 (path / 'task').unlink()
 
-- 
2.43.0


From aede02c9189ec07dc95e794494eccb4e2816cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 16/64] fix: do not wait forever for the checkpoint of an
 optimizer which has crashed

---
 glompo/core/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index e53e4da..d1d0709 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1907,7 +1907,9 @@ class GloMPOManager:
         wait_reply = living.copy()
         while wait_reply:
             for opt_id in wait_reply.copy():
-                if not self._optimizer_packs[opt_id].allow_run_event.is_set():
+                pack = self._optimizer_packs[opt_id]
+                # An optimizer may also end because its checkpoint_save failed
+                if not pack.allow_run_event.is_set() or not pack.process.is_alive():
                     wait_reply.remove(opt_id)
 
         # Confirm all restart files are found
-- 
2.43.0


From 836d89af412913b574ed4d27c9b24e8bde62a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 17/64] fix: checkpoints only appear when complete, failures
 leave the others as they were and the newest are kept

---
 glompo/core/manager.py | 138 ++++++++++++++++++++++++-----------------
 1 file changed, 80 insertions(+), 58 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index d1d0709..c24daa9 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1125,72 +1125,74 @@ class GloMPOManager:
 
         self.logger.info("Constructing Checkpoint")
 
-        # Construct Checkpoint Name
-        path = self.checkpoint_control.checkpointing_dir / self.checkpoint_control.get_name()
-        path.mkdir(parents=True, exist_ok=True)
-
-        overwriting_chkpt = False
-        ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
+        checkpoint = None
+        new_entry = False
+        build_dir = None
 
         try:
+            try:
+                # Construct Checkpoint Name
+                path = self.checkpoint_control.checkpointing_dir / self.checkpoint_control.get_name()
+                tar_path = path.with_name(path.name + '.tar.gz')
+                tar_path.parent.mkdir(parents=True, exist_ok=True)
+
+                # Nothing appears under the name of the checkpoint before it is complete
+                build_dir = Path(tempfile.mkdtemp(prefix='_building_', dir=str(tar_path.parent)))
+                path = build_dir / 'checkpoint'
+                path.mkdir()
+            except OSError as e:
+                raise CheckpointingError("Could not create checkpoint directory") from e
+
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
                     self.dt_ends[-1] = datetime.now()
                 else:
                     self.dt_ends.append(datetime.now())
-            self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
+            checkpoint = str(tar_path.resolve())
+            new_entry = checkpoint not in self.checkpoint_history
+            self.checkpoint_history.add(checkpoint)
 
             self._checkpoint_optimizers(path)
 
-            # Flush logger, only once the results outstanding when the optimizers were paused have been processed
-            self.opt_log.flush()
-            self.opt_log.checkpoint_save(path)
-            self.logger.debug("Log successfully pickled")
-
-            self._checkpoint_manager(path)
-            self._checkpoint_task(path)
-
-            # Save scope
-            if self.visualisation and self.scope:
-                self.scope.checkpoint_save(path)
-            self.logger.debug("Scope successfully pickled")
-
-            # Compress checkpoint
-            self.logger.debug("Building TarFile")
-            tar_path = path.with_suffix('.tar.gz')
-            if tar_path.exists():
-                self.logger.warning("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
-                                    "format")
-                warnings.warn("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
-                              "format")
-                tar_path.replace(ovw_path)
-                overwriting_chkpt = True
-
             try:
-                with tarfile.open(tar_path, 'x:gz') as tfile:
+                # Flush logger, only once the results outstanding when the optimizers were paused have been processed
+                self.opt_log.flush()
+                self.opt_log.checkpoint_save(path)
+                self.logger.debug("Log successfully pickled")
+
+                self._checkpoint_manager(path)
+                self._checkpoint_task(path)
+
+                # Save scope
+                if self.visualisation and self.scope:
+                    self.scope.checkpoint_save(path)
+                self.logger.debug("Scope successfully pickled")
+
+                # Compress checkpoint
+                self.logger.debug("Building TarFile")
+                with tarfile.open(build_dir / 'checkpoint.tar.gz', 'x:gz') as tfile:
                     tfile.add(path, recursive=True, arcname='')
                 self.logger.debug("TarFile built")
-            except tarfile.TarError as e:
-                self.logger.error("Error encountered during compression.")
-                if overwriting_chkpt:
-                    self.logger.info("Overwritten checkpoint restored")
-                    ovw_path.replace(tar_path)
-                raise CheckpointingError("Could not compress checkpoint", e)
-
-            # Delete old checkpoints
-            if self.checkpoint_control.keep_past > -1:
-                self.logger.debug("Finding old checkpoints to delete")
-                files = (file.name for file in self.checkpoint_control.checkpointing_dir.iterdir())
-                to_delete = sorted(filter(self.checkpoint_control.matches_naming_format, files), reverse=True)
-                self.logger.debug("Identified to delete: %d", to_delete[self.checkpoint_control.keep_past + 2:])
-                for old in to_delete[self.checkpoint_control.keep_past + 2:]:
-                    del_path = self.checkpoint_control.checkpointing_dir / old
-                    if del_path.is_file():
-                        del_path.unlink()
+
+                if tar_path.exists():
+                    self.logger.warning("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
+                                        "format")
+                    warnings.warn("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
+                                  "format")
+                (build_dir / 'checkpoint.tar.gz').replace(tar_path)
+            except CheckpointingError:
+                raise
+            except Exception as e:
+                self.logger.error("Error encountered while saving the checkpoint.")
+                raise CheckpointingError(f"Could not save checkpoint: {e!r}") from e
+
+            self._delete_old_checkpoints(tar_path)
+            self.logger.info("Checkpoint '%s' successfully built", tar_path.name)
 
         except CheckpointingError as e:
-            self.checkpoint_history.remove(str(path.resolve().with_suffix('.tar.gz')))
+            if new_entry:
+                self.checkpoint_history.remove(checkpoint)
 
             if self.checkpoint_control.raise_checkpoint_fail:
                 self.logger.error("Checkpointing failed", exc_info=e)
@@ -1199,14 +1201,12 @@ class GloMPOManager:
             self.logger.warning("Checkpointing failed. Aborting checkpoint construction.", exc_info=e)
             warnings.warn(f"Checkpointing failed: {e}.\nAborting checkpoint construction.")
         finally:
-            shutil.rmtree(path, ignore_errors=True)
-            if ovw_path.exists():
-                ovw_path.unlink()
+            if build_dir:
+                shutil.rmtree(build_dir, ignore_errors=True)
 
-        if self.converged:
-            [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
-        self._toggle_optimizers(1)
-        self.logger.info("Checkpoint '%s' successfully built", path.name)
+            if self.converged:
+                [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            self._toggle_optimizers(1)
 
     def write_summary_file(self, dump_dir: Optional[Path] = None):
         """ Writes a manager summary YAML file detailing the state of the optimization.
@@ -1822,6 +1822,12 @@ class GloMPOManager:
     def _checkpoint_optimizers(self, path: Union[str, Path]):
         """ Checkpointing sub-task. Gathers, synchronises and saves child optimizers. """
 
+        # A failure is only acceptable before the optimizers wait for further instructions
+        try:
+            (path / 'optimizers').mkdir()
+        except OSError as e:
+            raise CheckpointingError("Could not create the optimizers' checkpoint directory") from e
+
         # Pause optimizers
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
@@ -1891,7 +1897,6 @@ class GloMPOManager:
         assert self.optimizer_queue.empty()
 
         # Send checkpoint_save signals
-        (path / 'optimizers').mkdir()
         for opt_id in messaged:
             pack = self._optimizer_packs[opt_id]
             if pack.process.is_alive():
@@ -1943,6 +1948,23 @@ class GloMPOManager:
                 raise CheckpointingError("Could not pickle manager.") from e
         self.logger.debug("Manager successfully pickled")
 
+    def _delete_old_checkpoints(self, new: Path):
+        """ Checkpointing sub-task. Deletes the oldest checkpoints, `new` is the one which has just been made. """
+
+        if self.checkpoint_control.keep_past < 0:
+            return
+
+        self.logger.debug("Finding old checkpoints to delete")
+        try:
+            old = [file for file in self.checkpoint_control.checkpointing_dir.iterdir()
+                   if file.is_file() and file != new and self.checkpoint_control.matches_naming_format(file.name)]
+            old.sort(key=lambda file: (file.stat().st_mtime_ns, file.name), reverse=True)
+            for file in old[self.checkpoint_control.keep_past:]:
+                self.logger.debug("Deleting old checkpoint: %s", file.name)
+                file.unlink()
+        except OSError as e:
+            self.logger.warning("Could not delete old checkpoints", exc_info=e)
+
     def _checkpoint_task(self, path: Union[str, Path]):
         """ Checkpointing sub-task. Identifies procedure to persist minimization task. """
 
-- 
2.43.0


From 482d1906b79d582cdef5d156623b4090831da716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 18/64] fix: respect the last threshold of ChainSelector and
 pass several thresholds at once

---
 glompo/opt_selectors/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glompo/opt_selectors/chain.py b/glompo/opt_selectors/chain.py
index 429f94a..d1efdfe 100644
--- a/glompo/opt_selectors/chain.py
+++ b/glompo/opt_selectors/chain.py
@@ -56,9 +56,12 @@ class ChainSelector(BaseSelector):
         if not self.allow_spawn(manager):
             return False
 
-        if self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
+        while self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
             self.toggle += 1
 
+        if self.toggle >= len(self.avail_opts):  # The last threshold turns spawning off
+            return False
+
         selected = self.avail_opts[self.toggle]
         if selected[1]['workers'] > slots_available:
             return None
-- 
2.43.0


From b9a1df7f2c1acbfa6b019975a28c93681c31389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 19/64] fix: do not change the user's settings in selectors

---
 glompo/opt_selectors/baseselector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glompo/opt_selectors/baseselector.py b/glompo/opt_selectors/baseselector.py
index 062f5a1..80b2738 100644
--- a/glompo/opt_selectors/baseselector.py
+++ b/glompo/opt_selectors/baseselector.py
@@ -82,8 +82,7 @@ class BaseSelector(ABC):
                         call_dict = {}
                     assert isinstance(call_dict, dict)
 
-                    if 'workers' not in init_dict:
-                        init_dict['workers'] = 1
+                    init_dict = {'workers': 1, **init_dict}
 
                     self.avail_opts.append((opt, init_dict, call_dict))
 
-- 
2.43.0


From 9fc610707692d86f2e9e54910227d03b06096749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 20/64] fix: use the configured backend of all optimizers, not
 just the first

---
 glompo/core/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c24daa9..45be92c 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1342,8 +1342,8 @@ class GloMPOManager:
         event.set()
 
         if 'backend' in init_kwargs:
-            backend = init_kwargs['backend']
-            del init_kwargs['backend']
+            init_kwargs = dict(init_kwargs)  # The settings in the selector are used for the following optimizers too
+            backend = init_kwargs.pop('backend')
         else:
             backend = 'threads' if self.opts_daemonic else 'processes'
 
-- 
2.43.0


From 4ca84ef35d3d5aa1a264dcf27150a857be0a22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 21/64] fix: generate a random vector if there is no usable
 incumbent yet in IncumbentGenerator

---
 glompo/generators/best.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/generators/best.py b/glompo/generators/best.py
index 6a1ae0c..1656a72 100644
--- a/glompo/generators/best.py
+++ b/glompo/generators/best.py
@@ -23,7 +23,7 @@ class IncumbentGenerator(BaseGenerator):
 
     def generate(self, manager: 'GloMPOManager') -> np.ndarray:
         best: Result = manager.result
-        if best.x is None:
+        if best.x is None or len(best.x) == 0:
             return (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
-        return best.x
+        return best.x.copy()
-- 
2.43.0


From 494e80e523bb69da3400b0f8eed500222dbb3fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 22/64] fix: accept incumbents which are lists and respect the
 maximum step size in BasinHoppingGenerator

---
 glompo/generators/basinhopping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/generators/basinhopping.py b/glompo/generators/basinhopping.py
index 7132be5..60f232b 100644
--- a/glompo/generators/basinhopping.py
+++ b/glompo/generators/basinhopping.py
@@ -110,14 +110,14 @@ class BasinHoppingGenerator(BaseGenerator):
             actual_accept_rate = self.n_accept / manager.o_counter
             self.logger.debug("Accept rate at %f", actual_accept_rate)
             if actual_accept_rate > self.target_accept_rate:
-                self.step_size /= self.factor
+                self.step_size = min(self.step_size / self.factor, self.max_step_size)
                 self.logger.debug("Accept rate too high, step size increasing %f -> %f.", old_step, self.step_size)
             elif actual_accept_rate < self.target_accept_rate:
                 self.step_size *= self.factor
                 self.logger.debug("Accept rate too low, step size decreasing %f -> %f.", old_step, self.step_size)
 
         # Random perturbation of the best vector based on the step size
-        x = best['x'].copy()
+        x = np.array(best['x'], dtype=float)
         x += np.random.uniform(-self.step_size, self.step_size, x.size)
 
         return x
-- 
2.43.0


From ea0e61236bcd7a3b8defd712ae5c1afce0fe410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 23/64] fix: ignore optimizers without usable evaluations in
 ExploitExploreGenerator

---
 glompo/generators/exploit_explore.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/glompo/generators/exploit_explore.py b/glompo/generators/exploit_explore.py
index d1c1284..4878c4a 100644
--- a/glompo/generators/exploit_explore.py
+++ b/glompo/generators/exploit_explore.py
@@ -58,7 +58,9 @@ class ExploitExploreGenerator(BaseGenerator):
         random = (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
         self.logger.debug("Random = %s", random)
 
-        f_track = np.array([best['fx'] for best in manager.opt_log._best_iters.values()])[1:]
+        f_track = {opt_id: best['fx'] for opt_id, best in manager.opt_log._best_iters.items() if np.isfinite(best['fx'])}
+        candidates = [*f_track.keys()]
+        f_track = np.array([*f_track.values()])
 
         if len(f_track) == 0:
             return random
@@ -70,8 +72,8 @@ class ExploitExploreGenerator(BaseGenerator):
             return random
         prob = revert / np.sum(revert)
 
-        select = np.random.choice(range(len(f_track)), p=prob)
-        incumbent = np.array(manager.opt_log.get_best_iter(select + 1)['x'])
+        select = candidates[np.random.choice(range(len(f_track)), p=prob)]
+        incumbent = np.array(manager.opt_log.get_best_iter(select)['x'])
         self.logger.debug("Selected incumbent from Optimizer %d = %s", select, incumbent)
 
         # Blending parameter
@@ -81,6 +83,6 @@ class ExploitExploreGenerator(BaseGenerator):
 
         # New point
         generated = alpha * incumbent + (1 - alpha) * random
-        self.logger.debug("Generated = %f", generated)
+        self.logger.debug("Generated = %s", generated)
 
         return generated
-- 
2.43.0


From 1d630f42be9a42f38ac6e9ebdcba8103888dd8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 24/64] fix: do not let optimizers change the vector of
 SinglePointGenerator

---
 glompo/generators/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/single.py b/glompo/generators/single.py
index 9bb9c32..ecd5942 100644
--- a/glompo/generators/single.py
+++ b/glompo/generators/single.py
@@ -25,4 +25,4 @@ class SinglePointGenerator(BaseGenerator):
             self.vector = (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
     def generate(self, manager: 'GloMPOManager') -> np.ndarray:
-        return self.vector
+        return np.array(self.vector)  # A copy as optimizers may work on it in place
-- 
2.43.0


From 84a0177bb854aada2ab1ff51875e2a3dda0b2f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 25/64] fix: use med_kill_chance as probability to kill, not to
 survive

---
 glompo/hunters/valueannealing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/hunters/valueannealing.py b/glompo/hunters/valueannealing.py
index 44b0bc1..17318db 100644
--- a/glompo/hunters/valueannealing.py
+++ b/glompo/hunters/valueannealing.py
@@ -32,7 +32,7 @@ class ValueAnnealing(BaseHunter):
         super().__init__()
         assert 0 < med_kill_chance < 1, "med_kill_chance must be between 0 and 1"
         self.med_kill_chance = med_kill_chance
-        self.strictness = np.log(med_kill_chance)
+        self.strictness = np.log(1 - med_kill_chance)  # The exponential describes the probability of survival
 
     def __call__(self,
                  log: BaseLogger,
-- 
2.43.0


From 2addcee42059b459e3dc2951f102cc46033633e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 26/64] fix: ignore nan values in BestUnmoving

---
 glompo/hunters/bestunmoving.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/hunters/bestunmoving.py b/glompo/hunters/bestunmoving.py
index ffa0b6f..22e292b 100644
--- a/glompo/hunters/bestunmoving.py
+++ b/glompo/hunters/bestunmoving.py
@@ -40,7 +40,8 @@ class BestUnmoving(BaseHunter):
             self.last_result = False
             return self.last_result
 
-        best_at_calls = min(vals[:-self.calls])
-        best_at_end = min(vals)
+        # nan is never the best value
+        best_at_calls = min((v for v in vals[:-self.calls] if v == v), default=float('inf'))
+        best_at_end = min((v for v in vals if v == v), default=float('inf'))
         self.last_result = abs(best_at_end - best_at_calls) <= abs(best_at_calls * self.tol)
         return self.last_result
-- 
2.43.0


From e01649b67a0e3a09e74acd5773b7276a243f1eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 27/64] fix: record the vector which was evaluated, also if the
 optimizer reuses it

---
 glompo/optimizers/baseoptimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/optimizers/baseoptimizer.py b/glompo/optimizers/baseoptimizer.py
index 5fa5b0a..dc4b73b 100644
--- a/glompo/optimizers/baseoptimizer.py
+++ b/glompo/optimizers/baseoptimizer.py
@@ -6,6 +6,7 @@ import logging
 import traceback
 import warnings
 from abc import ABC, abstractmethod
+from copy import copy
 from multiprocessing.connection import Connection
 from pathlib import Path
 from threading import Event
@@ -88,13 +89,14 @@ class _MessagingWrapper:
 
     def _calculate(self, x: Sequence[float], caller: str) -> Union[float, Sequence]:
         is_det_call = self.is_log_detailed or caller == 'detailed_call'
+        evaluated = copy(x)  # Optimizers (and tasks) may reuse and change x while the result is in the queue or log
         if is_det_call:
             calc = self.func.detailed_call(x)
         else:
             calc = (self.func(x),)
 
         result = IterationResult(opt_id=self.opt_id,
-                                 x=x,
+                                 x=evaluated,
                                  fx=calc[0],
                                  extras=calc[1:])
         self.results_queue.put_nowait(result)
-- 
2.43.0


From 089bfedd527d8b708cdc19d6aee856b2f7e51c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:08 +0000
Subject: [PATCH 28/64] fix: read the history of optimizers cleared from the
 cache

---
 glompo/core/optimizerlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index d3c0943..72e257e 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -479,7 +479,7 @@ class FileLogger(BaseLogger):
         opt_ids = [opt_id] if opt_id else self._writing_chunk.keys()
 
         for o in opt_ids:
-            if len(self._writing_chunk[o]) > 0:
+            if len(self._writing_chunk.get(o, [])) > 0:  # Optimizers already cleared have nothing to write
                 self.put_metadata(o, 'best_iter', self._best_iters[o])
                 table = self._get_table(o)
                 table.append(self._writing_chunk[o])
-- 
2.43.0


From 1bd737ec0450bdb1075f59895346a30a612d4ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:36 +0000
Subject: [PATCH 29/64] fix: keep the columns of detailed calls in the order of
 the headers in the log file

---
 glompo/core/optimizerlogger.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 72e257e..e6821d8 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -1,5 +1,6 @@
 import datetime
 import warnings
+from copy import copy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Sequence, Union
 
@@ -394,6 +395,13 @@ class FileLogger(BaseLogger):
                    'fx': tb.Float64Col(pos=-1)}
 
         if extra_headers:
+            # PyTables orders columns without a position by name, but the extras arrive in the order of the headers.
+            extra_headers = {key: copy(col) for key, col in extra_headers.items()}
+            for i, (key, col) in enumerate(extra_headers.items()):
+                if key in headers:
+                    col._v_pos = headers[key]._v_pos
+                elif col._v_pos is None:
+                    col._v_pos = i
             headers = {**headers, **extra_headers}
 
         table = self.pytab_file.create_table(where=f'/optimizer_{opt_id}',
-- 
2.43.0


From ccfeb78c11667c2c28b0581fcf1d4f4bfe5b2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 30/64] fix: resume into log files of interrupted sessions,
 missing log files and without entries made after the checkpoint

---
 glompo/core/manager.py         | 26 +++++++++++-----
 glompo/core/optimizerlogger.py | 57 +++++++++++++++++++++++++---------
 2 files changed, 61 insertions(+), 22 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 45be92c..e87cc6d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -936,7 +936,9 @@ class GloMPOManager:
                                    f"this one (Checksum: {self._checksum})! Aborting optimization.")
 
                 # Overwrite excess iterations
-                file_f_count = peek.root._v_attrs.f_counter
+                # Taken from the tables since counters are not written to the file by sessions which are interrupted
+                tables = [*peek.walk_nodes('/', 'Table')]
+                file_f_count = max([tab.col('call_id').max() for tab in tables if tab.nrows > 0], default=0)
                 if file_f_count > self.f_counter:
                     self.logger.warning("The log file (%d evaluations) has iterated past the checkpoint "
                                         "(%d evaluations). Rolling back the log file to the checkpoint.",
@@ -944,16 +946,24 @@ class GloMPOManager:
                     warnings.warn(f"The log file ({file_f_count} evaluations) has iterated past "
                                   f"the checkpoint ({self.f_counter} evaluations). Rolling back the log file to "
                                   f"the checkpoint.")
-                    for tab in peek.walk_nodes('/', 'Table'):
-                        tab: tb.Table
-                        call_ids = tab.col('call_id')
-                        crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
+                for tab in tables:
+                    tab: tb.Table
+                    call_ids = tab.col('call_id')
+                    crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
+                    if crit_i == 0:
+                        tab.remove()
+                    elif crit_i < tab.nrows:
                         tab.remove_rows(crit_i)
 
-                    for group in peek.iter_nodes('/', 'Group'):
-                        if int(group._v_name.split('_')[1]) > self.o_counter:
-                            peek.remove_node('/', group._v_name, recursive=True)
+                # Optimizers may have been started after the checkpoint without any iterations
+                for group in [*peek.iter_nodes('/', 'Group')]:
+                    if int(group._v_name.split('_')[1]) > self.o_counter:
+                        peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
+        elif self._is_restart and self.summary_files > 2:
+            self.logger.warning("The log file of the checkpoint was not found (%s). Logging to a new file.", log_file)
+            warnings.warn(f"The log file of the checkpoint was not found ({log_file}). Logging to a new file.",
+                          RuntimeWarning)
 
         self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
         self.opt_log.open(log_file, mode, self._checksum)
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index e6821d8..dec0bef 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -371,25 +371,14 @@ class FileLogger(BaseLogger):
     def add_optimizer(self, opt_id: int, opt_type: str, t_start: datetime.datetime):
         """ Creates an HDF5 file and memory log for a new optimizer. """
         super().add_optimizer(opt_id, opt_type, t_start)
-        group = self.pytab_file.create_group(where='/',
-                                             name=f'optimizer_{opt_id}')
-        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
-                                       name='messages',
-                                       atom=tb.VLUnicodeAtom(),
-                                       title="Messages Generated by Optimizer",
-                                       expectedrows=3)
+        self._create_group(opt_id)
         self._writing_chunk[opt_id] = []
-        self._groups[opt_id] = group
-
-        for key, val in zip(('opt_id', 'opt_type', 't_start'),
-                            (opt_id, opt_type, t_start)):
-            group._v_attrs[key] = val
-
         self._o_counter += 1
 
     def add_iter_history(self, opt_id: int, extra_headers: Optional[Dict[str, tb.Col]] = None):
         """ Creates an iteration history table in the HDF5 file. """
-        super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
+        if not super().has_iter_history(opt_id):  # Already in memory if resumed without the original file.
+            super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
         headers = {'call_id': tb.UInt32Col(pos=-3),
                    'x': tb.Float64Col(shape=self.n_task_dims, pos=-2),
                    'fx': tb.Float64Col(pos=-1)}
@@ -468,6 +457,24 @@ class FileLogger(BaseLogger):
 
             return []
 
+    def _create_group(self, opt_id: int):
+        """ Creates the group of an optimizer in the file from the information about it in memory. """
+        self._groups[opt_id] = self.pytab_file.create_group(where='/', name=f'optimizer_{opt_id}')
+        self._create_messages(opt_id)
+
+        for key, val in self._storage[opt_id]['metadata'].items():
+            self._groups[opt_id]._v_attrs[key] = val
+
+    def _create_messages(self, opt_id: int):
+        """ Creates the array of messages of an optimizer in the file from those in memory. """
+        messages = self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
+                                                  name='messages',
+                                                  atom=tb.VLUnicodeAtom(),
+                                                  title="Messages Generated by Optimizer",
+                                                  expectedrows=3)
+        for message in self._storage[opt_id]['messages']:
+            messages.append(message)
+
     def _get_group(self, opt_id: int) -> tb.Group:
         """ Returns the the :class:`tables.Group` object for optimizer `opt_id`. """
         if opt_id not in self._groups:
@@ -523,11 +530,33 @@ class FileLogger(BaseLogger):
         """
         self.pytab_file = tb.open_file(str(path), mode, filters=tb.Filters(1, 'blosc'))
         self.pytab_file.root._v_attrs.checksum = checksum
+        self._groups = {}
+        self._tables = {}
         if mode == 'a':
             self._groups = {int(g._v_name.split('_')[1]): g for g in self.pytab_file.iter_nodes('/', 'Group')}
             self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
                             self.pytab_file.walk_nodes('/', 'Table')}
 
+        # Optimizers loaded from a checkpoint. The file may be a new one, or hold entries made after the checkpoint
+        for opt_id, store in self._storage.items():
+            if opt_id not in self._groups:
+                self._create_group(opt_id)
+                continue
+
+            attrs = self._groups[opt_id]._v_attrs
+            for key in {*attrs._f_list('user')} - {*store['metadata'], 'best_iter'}:
+                del attrs[key]
+            for key, val in store['metadata'].items():
+                attrs[key] = val
+            if self._best_iters[opt_id]['call_id'] > 0:
+                attrs['best_iter'] = self._best_iters[opt_id]
+            elif 'best_iter' in attrs:
+                del attrs['best_iter']
+
+            if self._groups[opt_id]['messages'].nrows > len(store['messages']):
+                self._groups[opt_id]['messages'].remove()
+                self._create_messages(opt_id)
+
     def close(self):
         """ Remove from memory, flush to file and close the file. """
         for key, value in (('opts_started', self._o_counter),
-- 
2.43.0


From 74c9b5b10c9e8873202323265cf47d1cc65bfe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 31/64] fix: use the provided task if task_loader fails, as
 documented

---
 glompo/core/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index e87cc6d..234feda 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -740,7 +740,9 @@ class GloMPOManager:
                     self.logger.info("Task successfully loaded.")
                 except Exception as e:
                     self.logger.error("Use of task_loader failed.")
-                    raise e
+                    self.task = None
+                    if not task:
+                        raise e
 
             if not self.task and task:
                 try:
-- 
2.43.0


From 80e8449341968c1dbf6a5949a4f9a15481f4190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 32/64] fix: accept changes of summary_files when loading a
 checkpoint

---
 glompo/core/manager.py         |  3 +++
 glompo/core/optimizerlogger.py | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 234feda..0692189 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -795,6 +795,9 @@ class GloMPOManager:
         # Rebuild optimizer logger
         self.opt_log = FileLogger if self.summary_files > 2 else BaseLogger
         self.opt_log = self.opt_log.checkpoint_load(tmp_dir / 'opt_log')
+        self.opt_log.build_traj_plot = self.summary_files > 1  # The checkpoint may have been made with other settings
+        self.opt_log.n_task_dims = self.n_parms
+        self.opt_log.expected_rows = self._log_expected_rows()
 
         # Modify/create missing variables
         assert len(self.dt_starts) == len(self.dt_ends), "Timestamps missing from checkpoint."
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index dec0bef..53d2364 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -246,6 +246,11 @@ class BaseLogger:
         colors = glompo_colors()
         y_lab = "Best Function Evaluation" if best_fx else "Function Evaluation"
         for opt_id in range(1, self.n_optimizers + 1):
+            try:
+                opt_type = self.get_metadata(opt_id, 'opt_type')
+            except LookupError:  # Cleared before a plot was requested
+                continue
+
             f_calls = self.get_history(opt_id, 'call_id')
             traj = self.get_history(opt_id, 'fx')
             if best_fx:
@@ -258,7 +263,7 @@ class BaseLogger:
 
             ax.plot(f_calls, traj, ls='-', marker='.', c=colors(opt_id))
             leg_elements.append(lines.Line2D([], [], ls='-', c=colors(opt_id),
-                                             label=f"{opt_id}: {self.get_metadata(opt_id, 'opt_type')}"))
+                                             label=f"{opt_id}: {opt_type}"))
 
             try:
                 end_cond = self.get_metadata(opt_id, "end_cond")
@@ -353,6 +358,17 @@ class FileLogger(BaseLogger):
         self._groups = {}  # In memory address to pytables_file groups (expensive otherwise)
         self._tables = {}  # In memory address to pytables_file tables (expensive otherwise)
 
+    @classmethod
+    def checkpoint_load(cls, path: Union[Path, str]):
+        opt_log = super().checkpoint_load(path)
+
+        if not hasattr(opt_log, '_writing_chunk'):  # Checkpoint was made by a session without a log file
+            opt_log._o_counter = len(opt_log._best_iters) - 1
+            opt_log._writing_chunk = {opt_id: [] for opt_id in opt_log._storage}
+            opt_log._est_iter_size = 0
+
+        return opt_log
+
     def __contains__(self, opt_id: int) -> bool:
         return f'/optimizer_{opt_id}' in self.pytab_file
 
-- 
2.43.0


From 3b73f14bbb46208ae3a755589caae081d82086a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 33/64] fix: write the log file to disk when a checkpoint is
 made

---
 glompo/core/optimizerlogger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 53d2364..1da0f8a 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -588,3 +588,6 @@ class FileLogger(BaseLogger):
 
     def checkpoint_save(self, path: Union[Path, str] = '', block: Optional[Sequence[str]] = None):
         super().checkpoint_save(path, ['pytab_file', '_tables', '_groups'])
+
+        if self.pytab_file is not None and self.pytab_file.isopen:
+            self.pytab_file.flush()  # The file must hold everything before the checkpoint if the session is interrupted
-- 
2.43.0


From aa114bbdc294794e9e4545c57031c3a06e4215d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:14 +0000
Subject: [PATCH 34/64] fix: let checkpoints made at initialisation match the
 log file of the session

---
 glompo/core/manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 0692189..5d11785 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -617,6 +617,7 @@ class GloMPOManager:
                 self.end_timeout = None
 
         self._is_restart = False
+        self._checksum = self._new_checksum()  # Also allows checkpoints made before the start to match the log file
 
         if self.checkpoint_control and self.checkpoint_control.checkpoint_at_init:
             self.checkpoint()
@@ -970,7 +971,8 @@ class GloMPOManager:
             warnings.warn(f"The log file of the checkpoint was not found ({log_file}). Logging to a new file.",
                           RuntimeWarning)
 
-        self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
+        if self._is_restart or not self._checksum:
+            self._checksum = self._new_checksum()
         self.opt_log.open(log_file, mode, self._checksum)
 
         if self.visualisation and self.scope.record_movie:
@@ -2157,6 +2159,11 @@ class GloMPOManager:
                 'mem_ave': mem_ave, 'mem_max': mem_max,
                 'cpu_ave': cpu_ave, 'cpu_std': cpu_std}
 
+    @staticmethod
+    def _new_checksum() -> str:
+        """ Returns a random key used to match checkpoints to log files. """
+        return ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
+
     def _log_expected_rows(self) -> int:
         """ Provides an estimate for the maximum number of rows which will be used by each optimizer iteration history
             log.
-- 
2.43.0


From 64d0e3f5ea3d1aa1c09b4108baab94ea0737247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:14 +0000
Subject: [PATCH 35/64] fix: accept optimizer messages without text in the log
 file

---
 glompo/core/optimizerlogger.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 1da0f8a..1a12efc 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -453,7 +453,7 @@ class FileLogger(BaseLogger):
     def put_message(self, opt_id: int, message: str):
         super().put_message(opt_id, message)
         table = self._get_group(opt_id)['messages']
-        table.append(message)
+        table.append(self._as_text(message))
         table.flush()
 
     def get_metadata(self, opt_id, key: str) -> Any:
@@ -473,6 +473,11 @@ class FileLogger(BaseLogger):
 
             return []
 
+    @staticmethod
+    def _as_text(message: Optional[str]) -> str:
+        """ Messages without text cannot be saved as such. """
+        return '' if message is None else str(message)
+
     def _create_group(self, opt_id: int):
         """ Creates the group of an optimizer in the file from the information about it in memory. """
         self._groups[opt_id] = self.pytab_file.create_group(where='/', name=f'optimizer_{opt_id}')
@@ -489,7 +494,7 @@ class FileLogger(BaseLogger):
                                                   title="Messages Generated by Optimizer",
                                                   expectedrows=3)
         for message in self._storage[opt_id]['messages']:
-            messages.append(message)
+            messages.append(self._as_text(message))
 
     def _get_group(self, opt_id: int) -> tb.Group:
         """ Returns the the :class:`tables.Group` object for optimizer `opt_id`. """
-- 
2.43.0


From 0ea8fd3a61e46a943b88fcdcad89ffc47f86185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 36/64] fix: accept incumbents which are tuples in
 IncumbentGenerator

---
 glompo/generators/best.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/generators/best.py b/glompo/generators/best.py
index 1656a72..9152919 100644
--- a/glompo/generators/best.py
+++ b/glompo/generators/best.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import Sequence, Tuple
 
 import numpy as np
@@ -26,4 +27,4 @@ class IncumbentGenerator(BaseGenerator):
         if best.x is None or len(best.x) == 0:
             return (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
-        return best.x.copy()
+        return copy(best.x)
-- 
2.43.0


From 9fd5c84b0ff3f53c8f7ac7bd97b88bfe10259cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 37/64] fix: infer columns of numpy scalars in detailed calls

---
 glompo/common/helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index ef5a853..a413db6 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -366,13 +366,13 @@ def infer_headers(infer_from: Sequence[Any]) -> Dict[str, tb.Col]:
 
     tb_type = {}
     for pos, arg in enumerate(infer_from):
-        if isinstance(arg, float):
+        if isinstance(arg, (float, np.floating)):
             tb_type[f'result_{pos}'] = tb.Float64Col(pos=pos)
 
-        elif isinstance(arg, bool):
+        elif isinstance(arg, (bool, np.bool_)):
             tb_type[f'result_{pos}'] = tb.BoolCol(pos=pos)
 
-        elif isinstance(arg, int):
+        elif isinstance(arg, (int, np.integer)):
             tb_type[f'result_{pos}'] = tb.Int64Col(pos=pos)
 
         elif isinstance(arg, str):
@@ -385,7 +385,7 @@ def infer_headers(infer_from: Sequence[Any]) -> Dict[str, tb.Col]:
         elif isinstance(arg, type(None)):
             tb_type[f'result_{pos}'] = tb.Float64Col(pos=pos)
 
-        elif isinstance(arg, complex):
+        elif isinstance(arg, (complex, np.complexfloating)):
             tb_type[f'result_{pos}'] = tb.ComplexCol(itemsize=16, pos=pos)
 
         else:
-- 
2.43.0


From edb9909fee9aae7c1658437b61758e1d26577059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 38/64] fix: exclude the last parameter from the sum of Levy as
 documented

---
 glompo/benchmark_fncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 5cc0165..4a76794 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -703,8 +703,8 @@ class Levy(BaseTestCase):
 
         term1 = np.sin(np.pi * w[0]) ** 2
 
-        term2 = (w - 1) ** 2
-        term2 *= 1 + 10 * np.sin(np.pi * w + 1) ** 2
+        term2 = (w[:-1] - 1) ** 2
+        term2 *= 1 + 10 * np.sin(np.pi * w[:-1] + 1) ** 2
         term2 = np.sum(term2)
 
         term3 = (w[-1] - 1) ** 2
-- 
2.43.0


From bb6f683d8898bb696716b11fa261e7f379646d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 39/64] fix: correct the gradient of LennardJones for sigma
 other than 1 and for integer vectors

---
 glompo/benchmark_fncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 4a76794..17c2819 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -600,8 +600,8 @@ class LennardJones(BaseTestCase):
         # Pre-calculation shortcuts
         self._triu_indices = np.triu_indices(atoms, 1)
         self._sig2 = sigma ** 2
-        self._sig5 = sigma ** 5
-        self._sig11 = sigma ** 11
+        self._sig6 = sigma ** 6
+        self._sig12 = sigma ** 12
 
     def __call__(self, x: Sequence[float]) -> float:
         x, delta, dists_sq = self._common_calc(x)
@@ -629,7 +629,7 @@ class LennardJones(BaseTestCase):
 
         energy_grads = np.einsum(
             "n,nd->nd",
-            -24 * self.eps * (2 * self._sig11 * dists_sq ** -7 - self._sig5 * dists_sq ** -4),
+            -24 * self.eps * (2 * self._sig12 * dists_sq ** -7 - self._sig6 * dists_sq ** -4),
             delta
         )
 
@@ -650,7 +650,7 @@ class LennardJones(BaseTestCase):
         numpy.ndarray
             Array of square distances between points in `x`.
         """
-        x = np.array(x)
+        x = np.array(x, dtype=float)
         if x.ndim == 1:
             x = x.reshape((self.N, self.d))
 
-- 
2.43.0


From 6f3e67e1675c83d7d81edaeb8b5b3eefd03785ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 40/64] fix: respect the delay in LennardJones and estimate its
 minimum in three dimensions

---
 glompo/benchmark_fncs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 17c2819..35dfd97 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -578,7 +578,7 @@ class LennardJones(BaseTestCase):
     The `x` parameter for the call method may be a :math:`Nd` length vector or a :math:`N \\times d` array.
     """
 
-    def __init__(self, atoms: int, dims: int, eps: float = 1, sigma: float = 1, *, delay=None):
+    def __init__(self, atoms: int, dims: int, eps: float = 1, sigma: float = 1, *, delay: float = 0):
         super().__init__(atoms * dims, delay=delay)
         self.N = atoms
         self.d = dims
@@ -604,6 +604,7 @@ class LennardJones(BaseTestCase):
         self._sig12 = sigma ** 12
 
     def __call__(self, x: Sequence[float]) -> float:
+        super().__call__(x)
         x, delta, dists_sq = self._common_calc(x)
 
         calc = self._sig2 / np.array(dists_sq)
@@ -667,7 +668,7 @@ class LennardJones(BaseTestCase):
 
     @property
     def min_fx(self) -> float:
-        if self._dims == 3:
+        if self.d == 3:
             warnings.warn("Energy minimum estimate only.")
             energy = self.global_min_fitting_coefficients * self.N ** np.arange(6, -1, -1)
             return energy.sum()
-- 
2.43.0


From b6c735a98c115a4aa6017b3c32a3efbfdf6481ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 41/64] fix: accept any number of explicit training points in
 ExpLeastSquaresCost

---
 glompo/benchmark_fncs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 35dfd97..e56a1e0 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -499,6 +499,7 @@ class ExpLeastSquaresCost(BaseTestCase):
             self.u_train = np.random.uniform(u_train[0], u_train[1], n_train)
         else:
             self.u_train = np.array(u_train)
+            self.n_train = len(self.u_train)
 
         self.p_true = np.random.uniform(p_range[0], p_range[1], dims)
 
-- 
2.43.0


From 2cda7ec99ab0d937eb82b7db2b55a00171241126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 42/64] fix: correct the minimum of ZeroSum

---
 glompo/benchmark_fncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index e56a1e0..c31889d 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -1367,11 +1367,11 @@ class ZeroSum(BaseTestCase):
 
     @property
     def min_x(self) -> Sequence[float]:
-        return [7.70628098] * self.dims
+        return [0] * self.dims
 
     @property
     def min_fx(self) -> float:
-        return -self.dims
+        return 0
 
     @property
     def bounds(self) -> Sequence[Tuple[float, float]]:
-- 
2.43.0


From 94d1ead6bb463c98ec8634ddc49fde194f00f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 43/64] fix: accept share_best_solutions when loading a
 checkpoint

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 5d11785..707cf22 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -769,6 +769,8 @@ class GloMPOManager:
                 force_terminations_after = glompo_kwargs['force_terminations_after']
                 self.allow_forced_terminations = force_terminations_after > 0
                 self._too_long = force_terminations_after
+            elif key == 'share_best_solutions':
+                self.incumbent_sharing = val
             elif key == 'visualisation_args':
                 pass
             elif key == 'working_dir':
-- 
2.43.0


From 660c66820b9ad866efeba6ce52b36c47071ceac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 44/64] fix: let CMAOptimizer restart from a checkpoint without
 sigma0

---
 glompo/optimizers/cmawrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 6d08d97..074cf0a 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -136,7 +136,7 @@ class CMAOptimizer(BaseOptimizer):
         """
         task_settings = copy.deepcopy(self.cmasettings)
 
-        if sigma0 <= 0:
+        if sigma0 <= 0 and not self.is_restart:  # The manager does not resupply arguments when restarting
             self.logger.critical('sigma0 value invalid. Please select a positive value.')
             raise ValueError('sigma0 value invalid. Please select a positive value.')
 
-- 
2.43.0


From f5e0727e3dd689813a6358d9bfc64e34cf28b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 45/64] fix: make every minimisation of a CMAOptimizer
 independent of the one before

---
 glompo/optimizers/cmawrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 074cf0a..c05278c 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -140,7 +140,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.critical('sigma0 value invalid. Please select a positive value.')
             raise ValueError('sigma0 value invalid. Please select a positive value.')
 
-        if not self.popsize:
+        if 'popsize' not in task_settings:
             if self.workers > 1:
                 task_settings['popsize'] = self.workers
             else:
@@ -157,6 +157,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.info("Setting up fresh CMA")
 
             self.result = MinimizeResult()
+            self.injection_counter = 0
             task_settings.update({'bounds': np.transpose(bounds).tolist()})
             self.es = cma.CMAEvolutionStrategy(x0, sigma0, task_settings)
             self.es.inject([x0], force=True)
-- 
2.43.0


From 80960a60325b14ffc5b6059a15304e4cdd848aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 46/64] fix: report convergence of CMAOptimizer as success

---
 glompo/optimizers/cmawrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index c05278c..7561a71 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -157,6 +157,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.info("Setting up fresh CMA")
 
             self.result = MinimizeResult()
+            self.result.success = True  # Until stopped from outside
             self.injection_counter = 0
             task_settings.update({'bounds': np.transpose(bounds).tolist()})
             self.es = cma.CMAEvolutionStrategy(x0, sigma0, task_settings)
-- 
2.43.0


From e09d25d372ef31a1ce885a01dd365e093ec9047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 47/64] fix: include the latest evaluation in checkpoints of
 RandomOptimizer

---
 glompo/optimizers/random.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/glompo/optimizers/random.py b/glompo/optimizers/random.py
index 3ca06f7..dd9dc04 100644
--- a/glompo/optimizers/random.py
+++ b/glompo/optimizers/random.py
@@ -60,6 +60,12 @@ class RandomOptimizer(BaseOptimizer):
             fx = function(vector)
             self.logger.debug("Function returned fx = %f", fx)
 
+            if fx < best_f:
+                best_f = fx
+                best_x = vector
+                self.logger.debug("Updating best")
+                self.result.x, self.result.fx = best_x, best_f
+
             if callbacks and callbacks():
                 self.stop_called = True
 
@@ -68,12 +74,6 @@ class RandomOptimizer(BaseOptimizer):
                 self.check_messages()
                 self._pause_signal.wait()
 
-            if fx < best_f:
-                best_f = fx
-                best_x = vector
-                self.logger.debug("Updating best")
-                self.result.x, self.result.fx = best_x, best_f
-
         self.result.success = True
         self.logger.debug("Termination successful")
         if self._results_queue:
-- 
2.43.0


From 80ac08d489a41fe064255d3442d0d6650515dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 48/64] fix: read the last signals of optimizers which have
 ended

The traceback of an optimizer which crashed between two signal checks was never
read, neither logged nor counted: sessions whose optimizers crash slowly before
their first evaluation went on spawning forever.
---
 glompo/core/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 707cf22..d683c1c 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1420,6 +1420,10 @@ class GloMPOManager:
 
         for opt_id, pack in self._optimizer_packs.items():
 
+            # Signals sent just before the end have not necessarily been read, e.g. the traceback of a crash.
+            while not pack.process.is_alive() and self._check_signals(opt_id):
+                pass
+
             # Find dead optimizer processes that did not properly signal their termination.
             if opt_id not in self._graveyard and not pack.process.is_alive():
                 exitcode = pack.process.exitcode
-- 
2.43.0


From 72fc65ddb2a372dc9a3b0ebd17c267a0612d04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 49/64] fix: record the end of optimizers which die before a
 checkpoint in it

Signals of optimizers which had ended were not read by the checkpoint, so that
a resumed session counted too few converged optimizers and considered them for
termination. The convergence signal of a killed optimizer read by a checkpoint
was counted and replaced the reason of its termination.
---
 glompo/core/manager.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index d683c1c..511d0cb 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1413,9 +1413,14 @@ class GloMPOManager:
             self.logger.debug("No signals from %d.", opt_id)
         return found_signal
 
-    def _inspect_children(self):
+    def _inspect_children(self, only_dead: bool = False):
         """ Loops through all children processes and checks their status.
         Tidies up and gracefully deals with any strange behaviour such as crashes or non-responsive behaviour.
+
+        Parameters
+        ----------
+        only_dead
+            If :obj:`True` only records the end of those which are no longer alive.
         """
 
         for opt_id, pack in self._optimizer_packs.items():
@@ -1448,6 +1453,9 @@ class GloMPOManager:
                     self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                     self.opt_log.put_metadata(opt_id, "end_cond", f"Error termination (exitcode {-exitcode}).")
 
+            if only_dead:
+                continue
+
             # Find hanging processes
             if pack.process.is_alive() and \
                     time() - self._last_feedback[opt_id] > self._too_long and \
@@ -1881,7 +1889,9 @@ class GloMPOManager:
                     if pack.signal_pipe.poll(0.1):
                         key, message = pack.signal_pipe.recv()
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
-                        if key == 0:
+                        if key == 0 and opt_id in self._graveyard:
+                            not_chkpt.add(opt_id)  # Killed before it could send this
+                        elif key == 0:
                             self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                             self.opt_log.put_metadata(opt_id, "end_cond", message)
                             self._graveyard.add(opt_id)
@@ -1906,6 +1916,9 @@ class GloMPOManager:
                     living.remove(opt_id)
         self.logger.info("Optimizers paused and synced.")
 
+        # The end of those which are not alive anymore can only be recorded now, they are not part of the checkpoint
+        self._inspect_children(only_dead=True)
+
         # Process outstanding results and hunts
         closed, victims = self._process_results()
         [not_chkpt.add(cld) for cld in closed]
-- 
2.43.0


From e97441248fb4c3a7b438cefa03e780b9fc5a28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 50/64] fix: do not fail when the last optimizer ends while
 slots are filled

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 511d0cb..31cbc32 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1284,7 +1284,7 @@ class GloMPOManager:
                                   'max_jobs': self.max_jobs,
                                   'f': self.f_counter,
                                   'f_best': f_best})
-        elif len(processes) == 0 and self.spawning_opts:
+        elif count == 0 and self.spawning_opts:  # Those alive before may have ended in the meantime
             raise RuntimeError("Not enough worker slots to start any optimizers with the current settings.")
 
     def _start_new_job(self, opt_id: int, optimizer: BaseOptimizer, call_kwargs: Dict[str, Any],
-- 
2.43.0


From a79f4ca399dfdc56585f5b21bac358e53d4e4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 51/64] fix: let errors inside functions which need an optional
 package through

---
 glompo/common/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/common/wrappers.py b/glompo/common/wrappers.py
index 2160fe7..5f23a73 100644
--- a/glompo/common/wrappers.py
+++ b/glompo/common/wrappers.py
@@ -58,10 +58,10 @@ def needs_optional_package(package: str):
         def wrapper(*args, **kwargs):
             try:
                 importlib.import_module(package)
-                return func(*args, **kwargs)
             except (ModuleNotFoundError, ImportError):
                 warnings.warn(f"Unable to construct checkpoint without {package} package installed.", ResourceWarning)
                 return None
+            return func(*args, **kwargs)
 
         return wrapper
 
-- 
2.43.0


From 8988e41b8eaf01407cc170853a2e9f0f5e3ac48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 52/64] fix: include the traceback of the first record in split
 optimizer logs

---
 glompo/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index a413db6..be8a229 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -98,7 +98,7 @@ class SplitOptimizerLogs(logging.Filter):
             if self.fomatter:
                 message = self.fomatter.format(record)
             else:
-                message = record.getMessage()
+                message = logging.Formatter().format(record)  # As later records, e.g. with the traceback
 
             with (self.filepath / f"optimizer_{opt_id}.log").open('w+') as file:
                 file.write(f"{message}\n")
-- 
2.43.0


From 125f0135d220252da3f3de50b3fa0fbe6fd5659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 53/64] fix: accept text other than ASCII in the file log

---
 glompo/core/optimizerlogger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 1a12efc..d1e3241 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -428,8 +428,9 @@ class FileLogger(BaseLogger):
         if self._est_iter_size == 0:
             self._est_iter_size = deepsizeof(iter_res)
 
+        extras = (item.encode() if isinstance(item, str) else item for item in iter_res.extras)  # HDF5 only takes ASCII
         self._writing_chunk[iter_res.opt_id].append(
-            [(self._f_counter, iter_res.x, iter_res.fx, *iter_res.extras)])
+            [(self._f_counter, iter_res.x, iter_res.fx, *extras)])
 
         if self._est_iter_size * sum((len(c) for c in self._writing_chunk.values())) > 100_000_000:  # Flush every 100MB
             self.flush(iter_res.opt_id)
-- 
2.43.0


From 6abb590f9da8fbdc9638b0e8523b9d1634ad7157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 54/64] fix: allow the summary to be written while an
 optimization runs

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 31cbc32..75e5085 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1775,7 +1775,7 @@ class GloMPOManager:
 
             t_total = str(
                 timedelta(seconds=sum([(t - t0).total_seconds() for t0, t in zip(self.dt_starts, self.dt_ends)])))
-            t_session = str(timedelta(seconds=self.t_end - self.t_start)) if self.t_start else None
+            t_session = str(timedelta(seconds=(self.t_end or time()) - self.t_start)) if self.t_start else None
             t_periods = [{"Start": str(t0), "End": str(t)} for t0, t in zip(self.dt_starts, self.dt_ends)]
             data = {
                 "Assignment": {
-- 
2.43.0


From 5b39ab49d6eccc07723faa6e7f00f2359d0f19d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 55/64] fix: tolerate optimizers which close their pipes before
 the manager notices their end

---
 glompo/core/manager.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 75e5085..2d63333 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1224,7 +1224,8 @@ class GloMPOManager:
                 shutil.rmtree(build_dir, ignore_errors=True)
 
             if self.converged:
-                [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+                [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items()
+                 if pack.process.is_alive()]
             self._toggle_optimizers(1)
 
     def write_summary_file(self, dump_dir: Optional[Path] = None):
@@ -1407,12 +1408,22 @@ class GloMPOManager:
                     if self.visualisation:
                         self.scope.update_crash_terminate(opt_id)
                 found_signal = True
-            except EOFError:
+            except (EOFError, ConnectionResetError):
                 self.logger.error("Opt%d pipe closed. Opt%d should be in graveyard", opt_id, opt_id)
         else:
             self.logger.debug("No signals from %d.", opt_id)
         return found_signal
 
+    def _send_signal(self, opt_id: int, message: Any):
+        """ Sends :obj:`message` to optimizer :obj:`opt_id`. Optimizers close their pipes when they end, which may
+        happen before the manager notices it, and do not need any instructions thereafter.
+        """
+
+        try:
+            self._optimizer_packs[opt_id].signal_pipe.send(message)
+        except (BrokenPipeError, ConnectionResetError):
+            self.logger.debug("Signal not sent to %d. Pipe closed.", opt_id)
+
     def _inspect_children(self, only_dead: bool = False):
         """ Loops through all children processes and checks their status.
         Tidies up and gracefully deals with any strange behaviour such as crashes or non-responsive behaviour.
@@ -1643,7 +1654,7 @@ class GloMPOManager:
         if self.aggressive_kill and self.proc_backend:
             self._optimizer_packs[opt_id].process.terminate()
         else:
-            self._optimizer_packs[opt_id].signal_pipe.send(1)
+            self._send_signal(opt_id, 1)
             self.logger.debug("Termination signal sent to %d", opt_id)
 
         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
@@ -1664,7 +1675,7 @@ class GloMPOManager:
         if self.incumbent_sharing and best_iter['fx'] < previous_fx:
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
-                    pack.signal_pipe.send((4, best_iter['x'], best_iter['fx']))
+                    self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
 
         best_origin = {"opt_id": best_iter['opt_id'],
                        "type": best_iter['type']}
@@ -1683,7 +1694,8 @@ class GloMPOManager:
         # Attempt to send shutdown signals
         try:
             message = (1, "GloMPO Crash") if crash_reason else 1
-            [pack.signal_pipe.send(message) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(opt_id, message) for opt_id, pack in self._optimizer_packs.items()
+             if pack.process.is_alive()]
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
@@ -1863,7 +1875,7 @@ class GloMPOManager:
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
             if pack.process.is_alive():
-                pack.signal_pipe.send(2)
+                self._send_signal(opt_id, 2)
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
@@ -1887,7 +1899,11 @@ class GloMPOManager:
                 pack = self._optimizer_packs[opt_id]
                 if pack.process.is_alive():
                     if pack.signal_pipe.poll(0.1):
-                        key, message = pack.signal_pipe.recv()
+                        try:
+                            key, message = pack.signal_pipe.recv()
+                        except (EOFError, ConnectionResetError):
+                            pack.process.join(0.1)  # Has closed its pipe and is about to end
+                            continue
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
                         if key == 0 and opt_id in self._graveyard:
                             not_chkpt.add(opt_id)  # Killed before it could send this
@@ -1939,10 +1955,10 @@ class GloMPOManager:
                 if opt_id not in not_chkpt:
                     if self.visualisation:
                         self.scope.update_checkpoint(opt_id)
-                    pack.signal_pipe.send((0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
+                    self._send_signal(opt_id, (0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
                     self.logger.debug('Checkpoint save sent to Optimizer %d', opt_id)
                 else:
-                    pack.signal_pipe.send(3)  # Causes waiting optimizers will pass and not checkpoint
+                    self._send_signal(opt_id, 3)  # Causes waiting optimizers will pass and not checkpoint
 
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
-- 
2.43.0


From ba7507d0e6c43c19959d699f0eb6aa13d5c86094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 56/64] fix: make manual checkpoints in the working directory
 if no control was set up

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 2d63333..d78447f 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1637,7 +1637,7 @@ class GloMPOManager:
             if not has_controls:
                 self.logger.warning("Manual checkpoint requested but checkpointing control not setup during "
                                     "initialisation, constructing with defaults.")
-                self.checkpoint_control = CheckpointingControl()
+                self.checkpoint_control = CheckpointingControl(checkpointing_dir=self.working_dir / 'checkpoints')
 
             self.logger.info("Manual checkpoint requested")
             self.checkpoint()
-- 
2.43.0


From d18dd391f0ea20e68ea4d74b742c867a0ff89bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 57/64] fix: restore the print streams at the end of a session
 with threads

---
 glompo/core/_backends.py | 9 +++++----
 glompo/core/manager.py   | 4 ++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 0aa9cc8..47d6eb1 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -25,12 +25,13 @@ class CustomThread(threading.Thread):
         self.working_directory = working_directory
 
     def run(self):
+        streams = sys.stdout, sys.stderr  # May have been replaced by the time the thread ends
         try:
             if self.redirect:
                 try:
                     opt_id = int(self.name.replace("Opt", ""))
-                    sys.stdout.register(opt_id, self.working_directory, 'out')
-                    sys.stderr.register(opt_id, self.working_directory, 'err')
+                    streams[0].register(opt_id, self.working_directory, 'out')
+                    streams[1].register(opt_id, self.working_directory, 'err')
                 except AttributeError:
                     warnings.warn("Prinstream redirect failed. Print stream will only redirect if ThreadPrintRedirect "
                                   "is setup beforehand.", RuntimeWarning)
@@ -42,8 +43,8 @@ class CustomThread(threading.Thread):
         finally:
             if self.redirect:
                 try:
-                    sys.stdout.close(threading.currentThread().ident)
-                    sys.stderr.close(threading.currentThread().ident)
+                    streams[0].close(threading.currentThread().ident)
+                    streams[1].close(threading.currentThread().ident)
                 except Exception as e:
                     warnings.warn(f"Closing printstream files failed. Caught exception: {e}", RuntimeWarning)
 
diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index d78447f..c20ef6d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -980,6 +980,7 @@ class GloMPOManager:
         if self.visualisation and self.scope.record_movie:
             self.scope.setup_moviemaker(self.working_dir)
 
+        streams = sys.stdout, sys.stderr
         if self.split_printstreams:
             (self.working_dir / "glompo_optimizer_printstreams").mkdir(exist_ok=True)
             if not self.proc_backend:
@@ -1118,6 +1119,9 @@ class GloMPOManager:
 
             self.opt_log.close()
 
+            if self.split_printstreams and not self.proc_backend:
+                sys.stdout, sys.stderr = streams
+
             self.logger.info("GloMPO Optimization Routine Done")
 
             return self.result
-- 
2.43.0


From e6b5f47b39198e5847573733713709ca59fb9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 58/64] fix: give redirected print streams the other methods
 and attributes of streams

---
 glompo/core/_backends.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 47d6eb1..d42c6de 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -79,16 +79,24 @@ class ThreadPrintRedirect:
         path = working_directory / "glompo_optimizer_printstreams" / f"printstream_{opt_id:04}.{ext}"
         self.threads[thread_id] = path.open("w+")
 
+    def __getattr__(self, item):
+        """ Print streams are also expected to have other methods and attributes e.g. `isatty` and `encoding`. """
+        if item in ('stdout', 'threads'):
+            raise AttributeError(item)
+        return getattr(self._stream(), item)
+
+    def _stream(self):
+        """ Returns the stream of the current thread. """
+        file = self.threads.get(threading.currentThread().ident)
+        return file if file is not None and not file.closed else self.stdout
+
     def write(self, message):
         """ Sends message to the appropriate handler. """
-        ident = threading.currentThread().ident
-        if ident in self.threads and not self.threads[ident].closed:
-            self.threads[ident].write(message)
-        else:
-            self.stdout.write(message)
+        return self._stream().write(message)
 
     def flush(self):
-        """ Required for Python 3 compatibility. """
+        """ Flushes the stream of the current thread. """
+        self._stream().flush()
 
     def close(self, thread_id: int = None):
         """ Closes all open files to which messages are being sent. """
-- 
2.43.0


From 797ce7d7141eead43f522156e51f3a9878f34fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 59/64] fix: close the figure of a scope when it is replaced by
 a loaded one

---
 glompo/core/scope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 8d0b4a6..39fa43c 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -452,6 +452,8 @@ class GloMPOScope:
         with Path(path, 'scope').open('rb') as file:
             data = dill.load(file)
 
+        plt.close(self.fig)  # Replaced by the loaded one
+
         for var, val in data.items():
             setattr(self, var, val)
 
-- 
2.43.0


From aa52eeca9404d80c605f7f1336b03d50dbb93ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 60/64] fix: plot the best value of optimizers with elitism
 also after invalid, truncated and non-positive values

---
 glompo/core/scope.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 39fa43c..c8610a4 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -119,6 +119,7 @@ class GloMPOScope:
 
         self.logger = logging.getLogger('glompo.scope')
         self._dead_streams: Set[int] = set()
+        self._best_vals: Dict[int, float] = {}
         self.n_streams = 0
         self.x_max = 0
         self.log_scale = log_scale
@@ -325,11 +326,11 @@ class GloMPOScope:
         """ Given `pt` is used to update the `opt_id` optimizer plot."""
         x, y = pt
         if self.elitism:
-            y_vals = self.opt_streams[opt_id].get_ydata()
-            if len(y_vals) > 0:
-                last = 10 ** y_vals[-1] if self.log_scale else y_vals[-1]
-                if last < y:
-                    y = last
+            # Values in the plot may have been truncated or may not be representable on its scale
+            last = self._best_vals.get(opt_id, float('nan'))
+            if not (y < last or np.isnan(last)):
+                y = last
+            self._best_vals[opt_id] = y
 
         self._update_point(opt_id, 'all_opt', (x, y))
         self._redraw_graph()
-- 
2.43.0


From 2b0af13f587dca43ad419c96a5bd9b11edfc1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 61/64] fix: show the convergence of optimizers which end
 during a checkpoint in the scope

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c20ef6d..a786a8a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1916,6 +1916,8 @@ class GloMPOManager:
                             self.opt_log.put_metadata(opt_id, "end_cond", message)
                             self._graveyard.add(opt_id)
                             self.conv_counter += 1
+                            if self.visualisation:
+                                self.scope.update_norm_terminate(opt_id)
                             not_chkpt.add(opt_id)
                         elif key == 1:
                             if self.visualisation:
-- 
2.43.0


From 3653bfd4e63670547bc2b14300b681a0f55da8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 62/64] fix: discard the marks of earlier points with an
 integer x_range as well

---
 glompo/core/scope.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index c8610a4..01026b3 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -250,6 +250,13 @@ class GloMPOScope:
                             self._dead_streams.add(opt_id)
                             self.logger.debug("Opt%d identified as out of scope.", opt_id)
 
+                for line in self.gen_streams.values():
+                    x_vals = np.array(line.get_xdata())
+                    y_vals = np.array(line.get_ydata())
+                    bool_arr = x_vals >= self.x_max - self.truncated
+                    line.set_xdata(x_vals[bool_arr])
+                    line.set_ydata(y_vals[bool_arr])
+
             self.ax.relim()
             self.ax.autoscale_view()
             self.fig.canvas.draw()
-- 
2.43.0


From 59c3f18add5285c644b64cce9eded0dbc7e5a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 63/64] fix: leave the movie settings given by the user
 unchanged

---
 glompo/core/scope.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 01026b3..921c356 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -203,8 +203,7 @@ class GloMPOScope:
             self._writer_kwargs = writer_kwargs
             self._new_writer()
 
-            if not movie_kwargs:
-                movie_kwargs = {}
+            movie_kwargs = dict(movie_kwargs) if movie_kwargs else {}
             if 'outfile' not in movie_kwargs:
                 movie_kwargs['outfile'] = Path('glomporecording.mp4')
                 self.logger.info("Saving scope recording as glomporecording.mp4")
-- 
2.43.0


From 90c149981a3aff0d0b7e050b761d10150c4a509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 64/64] fix: accept the path of the movie as a string

---
 glompo/core/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 921c356..282dad5 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -384,7 +384,7 @@ class GloMPOScope:
             return
 
         if path:
-            path = (path / self._movie_kwargs['outfile']).with_suffix('.mp4')
+            path = Path(path, self._movie_kwargs['outfile']).with_suffix('.mp4')
             self._movie_kwargs['outfile'] = path
 
         try:
-- 
2.43.0

