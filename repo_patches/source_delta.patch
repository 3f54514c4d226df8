From cd7ec337984356a930b342e01db0065c3081f8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:19 +0000
Subject: [PATCH 01/50] fix: concurrent first starts race on creating the
 QuOCS_Results folder

---
 src/quocslib/communication/AllInOneCommunication.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index d92a6fc..4f3e044 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -71,8 +71,7 @@ class AllInOneCommunication:
         ###
         # Optimization folder
         optimization_folder = "QuOCS_Results"
-        if not os.path.isdir(os.path.join(os.getcwd(), optimization_folder)):
-            os.makedirs(os.path.join(os.getcwd(), optimization_folder))
+        os.makedirs(os.path.join(os.getcwd(), optimization_folder), exist_ok=True)
         # Create the folder for logging and results
         self.results_path = os.path.join(os.getcwd(), optimization_folder, self.client_job_name)
         # # check if folder already exists
-- 
2.43.0


From a84f80288629c6a498887c76b1e801d0812a3e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:19 +0000
Subject: [PATCH 02/50] fix: optimization dictionary with callables or numpy
 scalars is written truncated

---
 src/quocslib/utils/inputoutput.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/utils/inputoutput.py b/src/quocslib/utils/inputoutput.py
index a3c41a4..2670a4d 100644
--- a/src/quocslib/utils/inputoutput.py
+++ b/src/quocslib/utils/inputoutput.py
@@ -43,7 +43,7 @@ def readjson(filename: str) -> dict:
 class ObjectEncoder(json.JSONEncoder):
     """
     Class to encode objects into json format.
-    Converts a numpy array to a list. Converts to None if the object is callable or a class.
+    Converts a numpy array to a list and a numpy scalar to a number. Converts to None if the object is callable or a class.
     """
     def default(self, obj):
         """
@@ -51,9 +51,9 @@ class ObjectEncoder(json.JSONEncoder):
         """
         if isinstance(obj, np.ndarray):
             return obj.tolist()
-        if obj is callable:
-            return None
-        if inspect.isclass(obj):
+        if isinstance(obj, np.generic):
+            return obj.item()
+        if callable(obj) or inspect.isclass(obj):
             return None
         return json.JSONEncoder.default(self, obj)
 
-- 
2.43.0


From 73f76ba122ccb125557e30b395f14e6d6f8c57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:19 +0000
Subject: [PATCH 03/50] fix: json dumps fail on numpy scalars other than
 float64

---
 src/quocslib/utils/BestDump.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 2d1b59d..d2e61b1 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -32,6 +32,8 @@ class NumpyEncoder(json.JSONEncoder):
             # for some reason float128 can lead to the error:
             # TypeError: Object of type float128 is not JSON serializable
             return np.float64(obj)
+        elif isinstance(obj, np.generic):
+            return obj.item()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From bc9bfe5340105c256ed2c5f5516d9521e47969cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 04/50] fix: a crash while saving a new record destroys the
 previous best controls file

---
 src/quocslib/utils/BestDump.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index d2e61b1..6ba2559 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -117,7 +117,10 @@ class BestDump(AbstractDump):
             self.dump_dict("best_controls", full_dict)
         else:
             controls_path = os.path.join(self.results_path, self.date_time + "_best_controls.npz")
-            np.savez(controls_path, **full_dict)
+            # Write aside and rename, so that the previous record is never lost or seen half written
+            with open(controls_path + ".tmp", "wb") as controls_file:
+                np.savez(controls_file, **full_dict)
+            os.replace(controls_path + ".tmp", controls_path)
 
         # if "iteration_number" in full_dict:
         #     iteration_path = os.path.join(self.results_path, self.date_time + "_funct_eval_of_best_controls.txt")
@@ -146,6 +149,8 @@ class BestDump(AbstractDump):
         if data_dict is None:
             data_dict = {}
         data_dict_path = os.path.join(self.results_path, self.date_time + "_" + data_file_name+'.json')
-        with open(data_dict_path, 'w') as convert_file:
+        # Write aside and rename, so that the previous content is never lost or seen half written
+        with open(data_dict_path + ".tmp", 'w') as convert_file:
             convert_file.write(json.dumps(data_dict, indent=4, cls=NumpyEncoder))
+        os.replace(data_dict_path + ".tmp", data_dict_path)
 
-- 
2.43.0


From 48fa084cb9354d80dd29bb2ff6f9599b3cddfc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 05/50] fix: the dictionary returned by the user's figure of
 merit is modified in place

---
 src/quocslib/communication/AllInOneCommunication.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 4f3e044..05a5ea5 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -156,9 +156,10 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
-        FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
+        # work on a copy: the dictionary and its content belong to the user
+        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
         # multiply by -1 if the optimization is a maximization
-        FoM_dict["FoM"] *= self.FoM_factor
+        FoM_dict["FoM"] = FoM_dict["FoM"] * self.FoM_factor
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # if the user passes a different status code than zero, stop the optimization
-- 
2.43.0


From 81d35d1538f760b8b07494a1aed3c8518e4a25eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 06/50] fix: a failed evaluation without a figure of merit
 crashes the optimization

---
 src/quocslib/communication/AllInOneCommunication.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 05a5ea5..60d92a6 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -158,6 +158,9 @@ class AllInOneCommunication:
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
         # work on a copy: the dictionary and its content belong to the user
         FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
+        # a failed evaluation may come without a figure of merit: use the worst value
+        if FoM_dict.get("status_code", 0) != 0 and FoM_dict.get("FoM") is None:
+            FoM_dict["FoM"] = 10**10 * self.FoM_factor
         # multiply by -1 if the optimization is a maximization
         FoM_dict["FoM"] = FoM_dict["FoM"] * self.FoM_factor
         # set the status of the FoM to 0 if it does not exist already
-- 
2.43.0


From c34ce7646fb303abe59afbb081eacbae01beff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 07/50] fix: FilesUpdateFoM gives up after half of the maximum
 waiting time

---
 src/quocslib/utils/FilesUpdateFom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index da90269..a68a7df 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -90,7 +90,7 @@ class FilesUpdateFoM(AbstractFoM):
         time_counter_max = self.max_time
         # Check if figure of merit file exists
         while not os.path.exists(self.FoM_path):
-            time_counter += 1
+            time_counter += 0.5
             time.sleep(0.5)
             if time_counter >= time_counter_max:
                 return {"FoM": FoM, "status_code": -2}
-- 
2.43.0


From e6c6a83734f7d99717a8c09c0a9b3e453389d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:45 +0000
Subject: [PATCH 08/50] fix: the value of a failed evaluation (nonzero status
 code) becomes the best figure of merit

---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py           | 2 +-
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 2 +-
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py        | 2 +-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 6be52c4..574cfc4 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -203,7 +203,7 @@ class ADAlgorithm(OptimizationAlgorithm):
         """ Return a dictionary with the response for the client """
         FoM = self.FoM_dict["FoM"]
         status_code = self.FoM_dict.setdefault("status_code", 0)
-        if self.get_is_record(FoM):
+        if status_code == 0 and self.get_is_record(FoM):
             message = "New record achieved. Previous FoM: {FoM}, new best FoM : {best_FoM}".format(FoM=self.FoM_factor*self.best_FoM,
                                                                                                    best_FoM=self.FoM_factor*FoM)
             self.comm_obj.print_logger(message=message, level=20)
diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index e7194db..9785624 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -261,7 +261,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         status_code = self.FoM_dict.setdefault("status_code", 0)
         # If re-evaluation steps is not used check for current best figure of merit
         if self.re_evaluation_steps is None:
-            if self.get_is_record(FoM):
+            if status_code == 0 and self.get_is_record(FoM):
                 message = "New record achieved. Previous FoM: {FoM}, new best FoM : {best_FoM}".format(
                     FoM=self.FoM_factor*self.best_FoM, best_FoM=self.FoM_factor*FoM)
                 self.comm_obj.print_logger(message=message, level=20)
diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 598fe38..aca076d 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -113,7 +113,7 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         """
         FoM = self.FoM_dict["FoM"]
         status_code = self.FoM_dict.setdefault("status_code", 0)
-        if self.get_is_record(FoM):
+        if status_code == 0 and self.get_is_record(FoM):
             message = "New record achieved. Previous FoM: {FoM}, new best FoM : {best_FoM}".format(FoM=self.FoM_factor*self.best_FoM,
                                                                                                    best_FoM=self.FoM_factor*FoM)
             self.comm_obj.print_logger(message=message, level=20)
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 05e2725..4887f09 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -153,7 +153,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         status_code = self.FoM_dict.setdefault("status_code", 0)
         # If re-evaluation steps is not used check for current best figure of merit
         if self.re_evaluation_steps is None:
-            if self.get_is_record(FoM):
+            if status_code == 0 and self.get_is_record(FoM):
                 message = "New record achieved. Previous FoM: {FoM}, new best FoM : {best_FoM}".format(
                     FoM=self.FoM_factor*self.best_FoM, best_FoM=self.FoM_factor*FoM)
                 self.comm_obj.print_logger(message=message, level=20)
-- 
2.43.0


From f4fb8945fedbfa577694a422baa5fecd568c254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 09/50] fix: a periodic drift compensation interrupted by a
 stop corrupts the best figure of merit

---
 .../gradientfreemethods/NelderMead.py         | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 61b4c15..c7bbd6d 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -180,16 +180,19 @@ class NelderMead(DirectSearchMethod):
                     # new_FoM = fsim[0]
 
                     ###new_2
-                    for i in range(len(sim)):
-                        if i == 0:
-                            curr_best_fom = 0
-                            for j in range(drift_comp_num_average):
-                                curr_best_fom += func(sim[i], iterations)
-                            fsim[i] = curr_best_fom/drift_comp_num_average
-                        else:
-                            # here we only shift the rest of the entries by
-                            # the same constant change as the current best!
-                            fsim[i] = fsim[i] + (fsim[0] - prev_FoM)
+                    curr_best_fom = 0
+                    for j in range(drift_comp_num_average):
+                        curr_best_fom += func(sim[0], iterations)
+                        # the search was stopped: the values measured so far are not meaningful
+                        if self.callback is not None and not self.callback():
+                            break
+                    else:
+                        # here we only shift the rest of the entries by
+                        # the same constant change as the current best!
+                        fsim[0] = curr_best_fom/drift_comp_num_average
+                        fsim[1:] += fsim[0] - prev_FoM
+                        # let the OptimizationAlgorithm know we have a new FoM due to drift compensation
+                        func(sim[0], iterations, fsim[0])
                     new_FoM = fsim[0]
 
                     self.last_drift_compensation_time = datetime.now()
@@ -199,9 +202,6 @@ class NelderMead(DirectSearchMethod):
                     logger = logging.getLogger("oc_logger")
                     logger.info(message)
 
-                    # let the OptimizationAlgorithm know we have a new FoM due to drift compensation
-                    func(sim[0], iterations, fsim[0])
-
             # Increase the NM iteration
             iterations += 1
             # Update function evaluations number
-- 
2.43.0


From f690f62ac0403d6cd518ab071343490c1fbd07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 10/50] fix: a drift compensation after an SI interrupted by a
 stop corrupts the best figure of merit

---
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 4887f09..cee06c8 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -228,11 +228,19 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         # Get the current best control optimization vector
         x0 = self.controls.get_mean_value()
         # Evaluate the FoM with the standard routine call and set the FoM as the current record
-        iteration, self.is_record, self.step_number = 0, True, 0
+        iteration, self.step_number = 0, 0
         new_FoM = 0
         for _ in range(self.compensate_drift_num_average):
+            self.is_record = False
             new_FoM += self._routine_call(x0, iteration)
+            # the optimization was stopped: the values measured so far are not meaningful
+            if not self.is_optimization_running():
+                return
         self.best_FoM = new_FoM / self.compensate_drift_num_average
+        self.comm_obj.update_controls(is_record=True,
+                                      FoM=self.best_FoM,
+                                      super_it=self.super_it,
+                                      iteration_number=self.iteration_number)
         # Info message
         message = f"Previous best FoM: {self.FoM_factor*previous_best_FoM}, Current best FoM after drift " \
                   f"compensation ({mode}): {self.FoM_factor*self.best_FoM}"
-- 
2.43.0


From 4849df025fcff122907d631a92df640248e42dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 11/50] fix: a re-evaluation interrupted by a stop pollutes the
 averaged figure of merit

---
 .../optimizationalgorithms/DirectSearchAlgorithm.py        | 7 ++++++-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 9785624..fe2d99f 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -158,7 +158,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                 self.sigma_test = 0.0 * self.sigma_test
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
-                # TODO: Check if optimization_is_running is necessary here
+                # The optimization was stopped: the value may not be a measurement
+                if not self.is_optimization_running():
+                    return FoM
                 # Get the standard deviation
                 self.sigma_test[0] = float(self.FoM_dict.setdefault("std", 1.0))
                 # Increase step number after function evaluation
@@ -175,6 +177,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                         return mu_1
                     # else: go on with further re-evaluations
                     self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    # The optimization was stopped: the value may not be a measurement
+                    if not self.is_optimization_running():
+                        return mu_1
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index cee06c8..4822120 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -339,7 +339,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 self.sigma_test = 0.0 * self.sigma_test
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
-                # TODO: Check if optimization_is_running is necessary here
+                # The optimization was stopped: the value may not be a measurement
+                if not self.is_optimization_running():
+                    return FoM
                 # Get the standard deviation
                 self.sigma_test[0] = float(self.FoM_dict.setdefault("std", 1.0))
                 # Increase step number after function evaluation
@@ -356,6 +358,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                         return mu_1
                     # else: go on with further re-evaluations
                     self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    # The optimization was stopped: the value may not be a measurement
+                    if not self.is_optimization_running():
+                        return mu_1
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
-- 
2.43.0


From 30235805e25e8bf1713c0c03babfdebe0b6bd2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 12/50] fix: the running average shown during re-evaluation has
 wrong weights

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 5 +++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index fe2d99f..118263d 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -222,8 +222,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            return mu_sum / (step_number + 1), sigma_sum / (step_number + 1)
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 4822120..6be1827 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -403,8 +403,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            return mu_sum / (step_number + 1), sigma_sum / (step_number + 1)
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
-- 
2.43.0


From ca1515e0af47504f13ce786bcbd2c930491cdd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 13/50] fix: wrong terminate reason when the search is left
 early by a stop

---
 src/quocslib/gradientfreemethods/NelderMead.py    | 4 ++++
 src/quocslib/stoppingcriteria/StoppingCriteria.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index c7bbd6d..32ae471 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -215,6 +215,10 @@ class NelderMead(DirectSearchMethod):
             # Check stopping criteria
             self.sc_obj.check_stopping_criteria(sim, fsim, calls_number[0])
         # END of while loop
+        # The search may have been left early due to a stop
+        if self.callback is not None and not self.callback():
+            self.sc_obj.terminate_reason = "User stopped the optimization or higher order " \
+                                           "stopping criterion has been reached"
         # Fix the iteration number
         iterations = iterations - 1
         # Optimal parameters and value
diff --git a/src/quocslib/stoppingcriteria/StoppingCriteria.py b/src/quocslib/stoppingcriteria/StoppingCriteria.py
index 662f17a..4ba632e 100644
--- a/src/quocslib/stoppingcriteria/StoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/StoppingCriteria.py
@@ -145,7 +145,6 @@ class StoppingCriteria:
         """
         Check the change-based stopping criterion
         """
-        self.terminate_reason = "Change-based stopping criterion reached."
         cbs_funct_evals = self.change_based_stop["cbs_funct_evals"]
         cbs_change = self.change_based_stop["cbs_change"]
         if len(self.curr_FoM_track) >= cbs_funct_evals:
@@ -154,6 +153,7 @@ class StoppingCriteria:
             current_change = abs(m * cbs_funct_evals)
             # check if the trend of changes is smaller than defined
             if current_change < cbs_change:
+                self.terminate_reason = "Change-based stopping criterion reached."
                 self.is_converged = True
 
     def check_advanced_stopping_criteria(self) -> None:
-- 
2.43.0


From 41ad101088de9468d3aa242ca48986725b9a9d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 14/50] fix: sign of the figure of merit in the saved best
 controls and the plot signal is inverted in maximization

---
 src/quocslib/communication/AllInOneCommunication.py       | 2 +-
 src/quocslib/optimizationalgorithms/ADAlgorithm.py        | 2 +-
 .../optimizationalgorithms/DirectSearchAlgorithm.py       | 6 +++---
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py     | 2 +-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py     | 8 ++++----
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 60d92a6..ccac888 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -194,7 +194,7 @@ class AllInOneCommunication:
     def _print_general_log(self, iteration_number: int, FoM: float):
         """Print the general log at each function evaluation"""
         if self.print_general_log:
-            self.logger.info("Function evaluation number: {0}, FoM: {1}".format(iteration_number, self.FoM_factor*FoM))
+            self.logger.info("Function evaluation number: {0}, FoM: {1}".format(iteration_number, FoM))
 
     def update_controls(self, **response_for_client) -> None:
         """External call to update the controls"""
diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 574cfc4..ecfa413 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -212,7 +212,7 @@ class ADAlgorithm(OptimizationAlgorithm):
             self.is_record = True
         response_dict = {
             "is_record": self.is_record,
-            "FoM": FoM,
+            "FoM": self.FoM_factor*FoM,
             "iteration_number": self.iteration_number,
             "status_code": status_code
         }
diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 118263d..f33c20e 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -126,7 +126,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
             self.comm_obj.print_logger(message, level=20)
             self.best_xx = self.xx.copy()
             self.comm_obj.update_controls(is_record=True,
-                                          FoM=self.best_FoM,
+                                          FoM=self.FoM_factor*self.best_FoM,
                                           # super_it=self.super_it,
                                           iteration_number=self.iteration_number)
         else:
@@ -198,7 +198,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                     self.comm_obj.print_logger(message, level=20)
                     self.best_xx = self.xx.copy()
                     self.comm_obj.update_controls(is_record=True,
-                                                  FoM=self.best_FoM,
+                                                  FoM=self.FoM_factor*self.best_FoM,
                                                   sigma=self.best_sigma,
                                                   # super_it=self.super_it,
                                                   iteration_number=self.iteration_number)
@@ -276,7 +276,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                 self.is_record = True
         response_dict = {
             "is_record": self.is_record,
-            "FoM": FoM,
+            "FoM": self.FoM_factor*FoM,
             "iteration_number": self.iteration_number,
             "status_code": status_code
         }
diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index aca076d..1768a7e 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -122,7 +122,7 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
             self.is_record = True
         response_dict = {
             "is_record": self.is_record,
-            "FoM": FoM,
+            "FoM": self.FoM_factor*FoM,
             "iteration_number": self.iteration_number,
             "status_code": status_code
         }
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 6be1827..4eddfcc 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -162,7 +162,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 self.is_record = True
         response_dict = {
             "is_record": self.is_record,
-            "FoM": FoM,
+            "FoM": self.FoM_factor*FoM,
             "iteration_number": self.iteration_number,
             "super_it": self.super_it,
             "status_code": status_code
@@ -238,7 +238,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 return
         self.best_FoM = new_FoM / self.compensate_drift_num_average
         self.comm_obj.update_controls(is_record=True,
-                                      FoM=self.best_FoM,
+                                      FoM=self.FoM_factor*self.best_FoM,
                                       super_it=self.super_it,
                                       iteration_number=self.iteration_number)
         # Info message
@@ -302,7 +302,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
             self.comm_obj.print_logger(message, level=20)
             self.best_xx = self.xx.copy()
             self.comm_obj.update_controls(is_record=True,
-                                          FoM=self.best_FoM,
+                                          FoM=self.FoM_factor*self.best_FoM,
                                           super_it=self.super_it,
                                           iteration_number=self.iteration_number)
         else:
@@ -379,7 +379,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     self.comm_obj.print_logger(message, level=20)
                     self.best_xx = self.xx.copy()
                     self.comm_obj.update_controls(is_record=True,
-                                                  FoM=self.best_FoM,
+                                                  FoM=self.FoM_factor*self.best_FoM,
                                                   sigma=self.best_sigma,
                                                   super_it=self.super_it,
                                                   iteration_number=self.iteration_number)
-- 
2.43.0


From 08ce30fd9fa233da648b5baf751cbd76b5da8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 15/50] fix: figures of merit above 1e10 never become a record

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index e877651..71fc1bb 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -82,7 +82,9 @@ class OptimizationAlgorithm:
                       "only, but {0} is provided".format(self.optimization_direction)
             self.comm_obj.print_logger(message=message, level=40)
             raise TypeError
-        self.best_FoM = self.FoM_maximum = INITIAL_FOM
+        self.FoM_maximum = INITIAL_FOM
+        # Any value measured is better than the one before the first measurement
+        self.best_FoM = float("inf")
         message = "The optimization direction is {0}".format(self.optimization_direction)
         # Goal FoM
         self.FoM_goal = alg_parameters.setdefault("FoM_goal", None)
-- 
2.43.0


From f91ba15c940cb2ec048b91b2252fa342162b0650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 16/50] fix: ctrl+c crashes the algorithms without a direct
 search method

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 71fc1bb..17ba620 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -118,7 +118,9 @@ class OptimizationAlgorithm:
         :return:
         """
         self.higher_order_terminate_reason = "User stopped the optimization"
-        self.dsm_obj.sc_obj.is_converged = True
+        # check if self.dsm_obj exits
+        if hasattr(self, "dsm_obj"):
+            self.dsm_obj.sc_obj.is_converged = True
         self.stop_optimization()
 
     def begin(self) -> None:
-- 
2.43.0


From b6ae7c18e33582318c54d8be2cc7688eeed69826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 17/50] fix: ctrl+c stops the last created optimizer instead of
 the running one

---
 .../optimizationalgorithms/OptimizationAlgorithm.py  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 17ba620..7c0fc9a 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -93,10 +93,7 @@ class OptimizationAlgorithm:
         # FoM dictionary
         self.FoM_dict = {"FoM": INITIAL_FOM, "std": 0.1}
         self.comm_obj.print_logger(message=message, level=20)
-        # listener for ctrl + c cancellation
-        if threading.current_thread() is threading.main_thread():
-            signal.signal(signal.SIGINT, self.handle_user_cancellation)
-        # signal.signal(signal.SIGINT, self.handle_user_cancellation)
+        self._listen_to_user_cancellation()
 
         if "algorithm_settings" in self.optimization_dict:
             temp_dict = self.optimization_dict["algorithm_settings"]
@@ -110,6 +107,11 @@ class OptimizationAlgorithm:
                                                    '(https://github.com/Quantum-OCS/QuOCS/blob/develop/Documentation/'
                                                    'Settings_in_Optimization_Dict.md)', 30)
 
+    def _listen_to_user_cancellation(self):
+        """Listener for ctrl + c cancellation"""
+        if threading.current_thread() is threading.main_thread():
+            signal.signal(signal.SIGINT, self.handle_user_cancellation)
+
     def handle_user_cancellation(self, sig, frame):
         """
         Handle the user cancellation of the optimization
@@ -127,6 +129,8 @@ class OptimizationAlgorithm:
         """
         Initialize the communication with the client
         """
+        # Another optimizer may have been created in the meanwhile
+        self._listen_to_user_cancellation()
         # Open the log with the QuOCS version number
         self.comm_obj.print_logger("QuOCS version number: {0}".format(QUOCSLIB_VERSION))
         # Send starting message to the interface
-- 
2.43.0


From 886fce08fb9633d269a277fa8e4ea83fab38039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 18/50] fix: the direct search reports the last evaluated
 parameters instead of the best ones

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index f33c20e..ea7b09b 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -298,6 +298,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         # Direct search method
         self._dsm_build()
+        # Update the controls with the best ones found so far
+        self.controls.update_base_controls(self.best_xx)
 
     def _dsm_build(self):
         """
@@ -339,7 +341,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         final_dict = {
             "Figure of merit": self.FoM_factor * self.best_FoM,
-            "parameters": self.xx,
+            "parameters": self.controls.get_mean_value(),
             "terminate_reason": self.terminate_reason
         }
         return final_dict
-- 
2.43.0


From 4a007143301a2a966618b9ea3b69af12f5f82587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 19/50] fix: the direct search time limit counts from the
 construction of the optimizer

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index ea7b09b..338647f 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -296,6 +296,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         Runs the optimization algorithm
         """
+        # The time limit of the direct search starts now
+        self.dsm_obj.sc_obj.reset_direct_search_start_time()
         # Direct search method
         self._dsm_build()
         # Update the controls with the best ones found so far
-- 
2.43.0


From 7f22114ce15b5a30ec2c4aaf2966249268d9603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 20/50] fix: AD adds the best update of a previous SI again and
 GRAPE/AD crash without a successful evaluation

---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py    | 5 +++++
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index ecfa413..4a2b34c 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -132,6 +132,9 @@ class ADAlgorithm(OptimizationAlgorithm):
     def run(self):
         """ Main loop for the optimization algorithm. It runs the super iterations and the inner iterations. """
         for super_it in range(1, self.max_num_si + 1):
+            # Check if the optimization was stopped by the user
+            if not self.is_optimization_running():
+                return
             # Set super iteration number
             self.super_it = super_it
             # Initialize the random super_parameters
@@ -149,6 +152,8 @@ class ADAlgorithm(OptimizationAlgorithm):
         initial_variation = random_variation * self.controls.get_sigma_variation()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
+        # Best vector if no evaluation of this SI is a record: keep the controls found so far
+        self.best_xx = self.controls.get_mean_value()
 
         def get_gradient(x):
             return np.array(jax.jit(jax.grad(self.get_gradient))(x))
diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 1768a7e..77ec331 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -200,6 +200,8 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         initial_variation = random_variation * self.controls.get_sigma_variation()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
+        # Best vector if no evaluation succeeds
+        self.best_xx = self.controls.get_mean_value()
         # Optimization with L-BFGS-B
         results = scipy.optimize.minimize(self.inner_routine_call,
                                           init_xx,
-- 
2.43.0


From 865753abb932fc5b81d76b9d4fac7a461dba681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 21/50] fix: CMA-ES ignores the seed of the random number
 generator

---
 src/quocslib/gradientfreemethods/CMAES.py             |  6 +++++-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py |  3 ++-
 src/quocslib/tools/randomgenerator.py                 | 11 +++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 8e3f380..ca89932 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -52,6 +52,7 @@ class CMAES(DirectSearchMethod):
                 initial_simplex=None,
                 drift_comp_minutes=0.0,
                 drift_comp_num_average=1,
+                rng=None,
                 **kwargs) -> dict:
         """
         Function to run the direct search method
@@ -62,6 +63,7 @@ class CMAES(DirectSearchMethod):
         :param np.array initial_simplex: Starting population for CMA-ES
         :param float drift_comp_minutes: Compensate for drift after this number of minutes
         :param int drift_comp_num_average: Number of times the measurement for drift compensation is repeated
+        :param RandomNumberGenerator rng: Random number generator (optional)
         :return dict: A dictionary with information about the search run
         """
 
@@ -72,6 +74,8 @@ class CMAES(DirectSearchMethod):
         self.sc_obj.is_converged = False
 
         N = len(x0)
+        # Source of the standard normal samples
+        randn = np.random.randn if rng is None else rng.get_normal_random_numbers
 
         xmean = x0
         # Sigma
@@ -139,7 +143,7 @@ class CMAES(DirectSearchMethod):
                 # TR 2020_04_15: Hansen (2016) here also has arz: arz[:,k] = randn(N,)  standard normally
                 # distributed vector TR 2020_04_15: here we should make sigma dependent on the reasonable amplitude
                 # variation, right?
-                arx[:, k] = xmean + sigma * B.dot(D * np.random.randn(N, ))
+                arx[:, k] = xmean + sigma * B.dot(D * randn(N, ))
                 # Starting point at the beginning of the SI
                 if counteval == 0:
                     arx[:, k] = xmean
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 4eddfcc..32b9d36 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -271,7 +271,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                                         initial_simplex=start_simplex,
                                         sigma_v=self.controls.get_sigma_variation(),
                                         drift_comp_minutes=self.compensate_drift_after_minutes,
-                                        drift_comp_num_average=self.compensate_drift_num_average)
+                                        drift_comp_num_average=self.compensate_drift_num_average,
+                                        rng=self.rng)
         # Update the results
         [FoM, xx, self.terminate_reason, NfunevalsUsed
          ] = [result_l["F_min_val"], result_l["X_opti_vec"], result_l["terminate_reason"], result_l["NfunevalsUsed"]]
diff --git a/src/quocslib/tools/randomgenerator.py b/src/quocslib/tools/randomgenerator.py
index 0f02e2c..dbb137e 100644
--- a/src/quocslib/tools/randomgenerator.py
+++ b/src/quocslib/tools/randomgenerator.py
@@ -74,6 +74,17 @@ class RandomNumberGenerator:
             else:
                 return self.rng.random_sample(n)
 
+    def get_normal_random_numbers(self, n: int):
+        """
+        Return an array of random numbers from the standard normal distribution
+
+        :param n: Number of random numbers to generate
+        :return: Array of random numbers
+        """
+        if self.rng is None:
+            return np.random.randn(n)
+        return self.rng.standard_normal(n)
+
 
 # def get_random_numbers(n: int, rng: np.random.Generator = None):
 #     """ Return an array of random numbers between 0 and 1 based on the random generator """
-- 
2.43.0


From 11a08166b9904cce8a08f879eb8335cbfbd824b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 22/50] fix: the direct search ignores the seed of the random
 number generator

---
 .../DirectSearchAlgorithm.py                  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 338647f..0c35aeb 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -19,6 +19,7 @@ from quocslib.Controls import Controls
 from quocslib.gradientfreemethods.NelderMead import NelderMead
 from quocslib.utils.dynamicimport import dynamic_import
 from quocslib.tools.linearalgebra import simplex_creation
+from quocslib.tools.randomgenerator import RandomNumberGenerator
 import numpy as np
 from scipy.stats import norm
 
@@ -94,6 +95,17 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
             self.sigma_test = np.zeros_like(self.FoM_test)
         else:
             self.re_evaluation_steps = None
+        # Seed for the random number generator
+        if "random_number_generator" in alg_parameters:
+            try:
+                seed_number = alg_parameters["random_number_generator"]["seed_number"]
+                self.rng = RandomNumberGenerator(seed_number=seed_number)
+            except (TypeError, KeyError):
+                default_seed_number = 2022
+                message = "Seed number must be an integer value. Set {0} as a seed number for this optimization".format(
+                    default_seed_number)
+                self.rng = RandomNumberGenerator(seed_number=default_seed_number)
+                self.comm_obj.print_logger(message, level=30)
 
         ###########################################################################################
         # Optimal algorithm variables ###########################################################
@@ -307,7 +319,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         Runs the direct search
         """
-        start_simplex = simplex_creation(self.controls.get_mean_value(), self.controls.get_sigma_variation())
+        start_simplex = simplex_creation(self.controls.get_mean_value(),
+                                         self.controls.get_sigma_variation(),
+                                         rng=self.rng)
         # Initial point for the Start Simplex
         x0 = self.controls.get_mean_value()
         # Initialize the best xx vector for this SI
@@ -318,7 +332,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                                         initial_simplex=start_simplex,
                                         sigma_v=self.controls.get_sigma_variation(),
                                         drift_comp_minutes=self.compensate_drift_after_minutes,
-                                        drift_comp_num_average=self.compensate_drift_num_average)
+                                        drift_comp_num_average=self.compensate_drift_num_average,
+                                        rng=self.rng)
         # Update the results
         [FoM, xx,
          self.terminate_reason] = [result_l["F_min_val"], result_l["X_opti_vec"], result_l["terminate_reason"]]
-- 
2.43.0


From 2a1f98611e6b2e900d92d57cdf843585a191adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 23/50] fix: the best bare pulses do not contain the optimized
 update

---
 src/quocslib/Controls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/Controls.py b/src/quocslib/Controls.py
index 8e8481d..025cd4e 100644
--- a/src/quocslib/Controls.py
+++ b/src/quocslib/Controls.py
@@ -333,8 +333,9 @@ class Controls:
         # Get the bare pulses and the timegrids
         for pulse in self.pulse_objs_list:
             time_name = pulse.time_name
+            # The updates of the previous SIs are stored in the base pulse
             bare_OC_pulses_list.append(
-                pulse.get_bare_pulse(optimized_parameters_vector[pulse.control_parameters_list],
+                pulse.base_pulse + pulse.get_bare_pulse(optimized_parameters_vector[pulse.control_parameters_list],
                                      final_time=self.times_obj_dictionary[time_name].get_time()))
 
         return bare_OC_pulses_list
-- 
2.43.0


From 8148aeac4b74142e598e423db5d6ab4ccadfe3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 24/50] fix: the user's program can read half written controls
 during the file exchange

---
 src/quocslib/utils/FilesUpdateFom.py | 4 +++-
 src/quocslib/utils/inputoutput.py    | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index a68a7df..d9ea210 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -132,12 +132,14 @@ class FilesUpdateFoM(AbstractFoM):
         :param list time_grids_list: List of np.arrays. One numpy array for each time grid
         :param list parameters_list: List of floats. One float for each parameter
         """
-        with open(self.controls_path, "wb") as controls_file:
+        # Write aside and rename: the user's program must never see the file half written
+        with open(self.controls_path + ".tmp", "wb") as controls_file:
             for pulse, time_grid in zip(pulses_list, time_grids_list):
                 np.savetxt(controls_file, [pulse], fmt="%f")
                 np.savetxt(controls_file, [time_grid], fmt="%f")
 
             np.savetxt(controls_file, parameters_list, fmt="%f")
+        os.replace(self.controls_path + ".tmp", self.controls_path)
 
     def _put_controls_json(self, pulses_list: list, time_grids_list: list, parameters_list: list):
         """
diff --git a/src/quocslib/utils/inputoutput.py b/src/quocslib/utils/inputoutput.py
index 2670a4d..75dcc96 100644
--- a/src/quocslib/utils/inputoutput.py
+++ b/src/quocslib/utils/inputoutput.py
@@ -15,6 +15,7 @@
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
 import json
+import os
 import numpy as np
 import inspect
 
@@ -68,8 +69,11 @@ def writejsonfile(json_file: str, kwargs_bib: dict) -> int:
     """
     err_stat = 0
     try:
-        with open(json_file, "w") as fp:
+        # Write aside and rename: a reader polling the file must never see it half written
+        temporary_file = os.fspath(json_file) + ".tmp"
+        with open(temporary_file, "w") as fp:
             json.dump(kwargs_bib, fp, indent=4, cls=ObjectEncoder)
+        os.replace(temporary_file, json_file)
     except Exception as ex:
         print("It is not possible to write the json file")
         err_stat = 1
-- 
2.43.0


From 3e66b1867a78d06a91efafcd4298e9dd5b55a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 25/50] fix: the best controls of the automatic differentiation
 cannot be saved as json

---
 src/quocslib/utils/BestDump.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 6ba2559..afe3b72 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -34,6 +34,12 @@ class NumpyEncoder(json.JSONEncoder):
             return np.float64(obj)
         elif isinstance(obj, np.generic):
             return obj.item()
+        elif hasattr(obj, "__array__"):
+            # arrays of other libraries, e.g. the (real valued) complex controls of the automatic differentiation
+            array = np.asarray(obj)
+            if np.iscomplexobj(array) and not np.any(array.imag):
+                array = array.real
+            return array.tolist()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From a2c4446addc36f896bd890be281b1e897f594fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:28 +0000
Subject: [PATCH 26/50] fix: controls overwrite each other in the best controls
 file if their names collide

---
 src/quocslib/utils/BestDump.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index afe3b72..7c81985 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -93,9 +93,8 @@ class BestDump(AbstractDump):
         #     time_names = ["time_grid_{}".format(index + 1) for index in range(len(timegrids))]
 
         for pulse, time_grid in zip(pulses, timegrids):
-            pulse_name = pulse_names[pulse_index]
-            if pulse_name in controls_dict:
-                pulse_name = pulse_name + str(pulse_index + 1)
+            pulse_name = self._get_free_name(pulse_names[pulse_index], pulse_index, controls_dict, kwargs,
+                                             "time_grid_for_")
             time_name = "time_grid_for_" + pulse_name
             controls_dict[pulse_name] = pulse
             controls_dict[time_name] = time_grid
@@ -109,9 +108,7 @@ class BestDump(AbstractDump):
             parameter_names = ["parameter_{}".format(index+1) for index in range(len(parameters))]
 
         for parameter in parameters:
-            param_name = parameter_names[parameter_index]
-            if param_name in controls_dict:
-                param_name = param_name + str(parameter_index + 1)
+            param_name = self._get_free_name(parameter_names[parameter_index], parameter_index, controls_dict, kwargs)
             controls_dict[param_name] = parameter
             parameter_index += 1
 
@@ -133,6 +130,29 @@ class BestDump(AbstractDump):
         #     with open(iteration_path, 'w') as f:
         #         f.write(str(full_dict["iteration_number"]))
 
+    @staticmethod
+    def _get_free_name(name: str, index: int, controls_dict: dict, info_dict: dict, prefix: str = None) -> str:
+        """
+        Returns the name under which a control is saved. The number of the control is added to the name if this is
+        already used by another control or needed for the other saved quantities.
+
+        :param str name: name of the control given by the user
+        :param int index: index of the control
+        :param dict controls_dict: the controls already named
+        :param dict info_dict: the other quantities in the file
+        :param str prefix: prefix for the name of the second array of the control, if any
+        :return str: the name to be used in the file
+        """
+        def is_used(key):
+            # the last ones are arguments of the numpy function which writes the file
+            return key in controls_dict or key in info_dict or key in ("file", "allow_pickle")
+
+        free_name = name
+        while is_used(free_name) or (prefix is not None and is_used(prefix + free_name)):
+            index += 1
+            free_name = name + str(index)
+        return free_name
+
     def other_dumps(self, filename: str = "test.txt", data: np.array = np.array([0.0])):
         """
         Saves other results into a txt numpy file.
-- 
2.43.0


From 08564039f95303fc640601df851a38e4c9e2a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 27/50] fix: GRAPE and AD keep calling the user's functions for
 gradients after a stop

---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py    | 3 +++
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 4a2b34c..4b46e20 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -156,6 +156,9 @@ class ADAlgorithm(OptimizationAlgorithm):
         self.best_xx = self.controls.get_mean_value()
 
         def get_gradient(x):
+            # The optimization was stopped: the user's function is not called any more
+            if not self.is_optimization_running():
+                return np.zeros_like(x)
             return np.array(jax.jit(jax.grad(self.get_gradient))(x))
 
         def f_call(x):
diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 77ec331..9e65f07 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -186,6 +186,9 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
     def inner_routine_call(self, optimized_control_parameters: np.array):
         """Function evaluation call for the L-BFGS-B algorithm"""
         self.is_record = False
+        # The optimization was stopped: the user's functions are not called any more
+        if not self.is_optimization_running():
+            return self.FoM_maximum, np.zeros_like(optimized_control_parameters)
         grads = self.get_gradient(optimized_control_parameters=optimized_control_parameters)
         FoM = self._routine_call(optimized_control_parameters=optimized_control_parameters, iterations=0)
         return FoM, grads
-- 
2.43.0


From 704604204a778658feca6a729ca90cb2aad29819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 28/50] fix: an evaluation that is skipped due to a stop is
 counted

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 7c0fc9a..2def077 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -207,6 +207,8 @@ class OptimizationAlgorithm:
         # Check if the optimization is still running
         is_running = self.comm_obj.get_user_running()
         if not is_running:
+            # This evaluation is not made
+            self.iteration_number -= 1
             return self.FoM_maximum
         # Get the figure of merit and update it to the main algorithm
         self.FoM_dict = self.comm_obj.get_data()["FoM_values"]
-- 
2.43.0


From 2ff514281311bd94d8a59f8e2d57cfc96e7b87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 29/50] fix: the default start simplex of Nelder-Mead does not
 contain the start point

---
 src/quocslib/gradientfreemethods/GradientFreeTemplate.py | 1 +
 src/quocslib/gradientfreemethods/NelderMead.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/quocslib/gradientfreemethods/GradientFreeTemplate.py b/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
index e589f0a..dbb66c9 100644
--- a/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
+++ b/src/quocslib/gradientfreemethods/GradientFreeTemplate.py
@@ -80,6 +80,7 @@ class GradientFreeTemplate(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 32ae471..3cc1cf6 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -81,6 +81,7 @@ class NelderMead(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
-- 
2.43.0


From 57465e1611dbc5e5f5501e819602a410710bd14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:32 +0000
Subject: [PATCH 30/50] fix: FilesUpdateFoM ignores an answer that arrives in
 the last half second of the waiting time

---
 src/quocslib/utils/FilesUpdateFom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index d9ea210..eb95fab 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -90,10 +90,10 @@ class FilesUpdateFoM(AbstractFoM):
         time_counter_max = self.max_time
         # Check if figure of merit file exists
         while not os.path.exists(self.FoM_path):
-            time_counter += 0.5
-            time.sleep(0.5)
             if time_counter >= time_counter_max:
                 return {"FoM": FoM, "status_code": -2}
+            time_counter += 0.5
+            time.sleep(0.5)
         # Sleep to be sure the file is correctly close
         time.sleep(0.01)
         try:
-- 
2.43.0


From b90426e04904545a7a8c55c626904b5174a8c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:37 +0000
Subject: [PATCH 31/50] fix: controls exchanged as txt file are cut to six
 decimals

---
 src/quocslib/utils/FilesUpdateFom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index eb95fab..66363b5 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -135,10 +135,10 @@ class FilesUpdateFoM(AbstractFoM):
         # Write aside and rename: the user's program must never see the file half written
         with open(self.controls_path + ".tmp", "wb") as controls_file:
             for pulse, time_grid in zip(pulses_list, time_grids_list):
-                np.savetxt(controls_file, [pulse], fmt="%f")
-                np.savetxt(controls_file, [time_grid], fmt="%f")
+                np.savetxt(controls_file, [pulse])
+                np.savetxt(controls_file, [time_grid])
 
-            np.savetxt(controls_file, parameters_list, fmt="%f")
+            np.savetxt(controls_file, parameters_list)
         os.replace(self.controls_path + ".tmp", self.controls_path)
 
     def _put_controls_json(self, pulses_list: list, time_grids_list: list, parameters_list: list):
-- 
2.43.0


From fe7f736f4709010df5289cb70136b4ea8007cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 32/50] fix: settings with long double numbers are not saved

---
 src/quocslib/utils/inputoutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/utils/inputoutput.py b/src/quocslib/utils/inputoutput.py
index 75dcc96..eae9c9a 100644
--- a/src/quocslib/utils/inputoutput.py
+++ b/src/quocslib/utils/inputoutput.py
@@ -52,6 +52,9 @@ class ObjectEncoder(json.JSONEncoder):
         """
         if isinstance(obj, np.ndarray):
             return obj.tolist()
+        if isinstance(obj, np.longdouble):
+            # there is no python scalar for it
+            return float(obj)
         if isinstance(obj, np.generic):
             return obj.item()
         if callable(obj) or inspect.isclass(obj):
-- 
2.43.0


From 0f5c0b0d3d7f3910f0e124d983d4df4c51041f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:14 +0000
Subject: [PATCH 33/50] fix: integer figures of merit overflow when they are
 maximized

---
 src/quocslib/communication/AllInOneCommunication.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index ccac888..30f291d 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -103,9 +103,9 @@ class AllInOneCommunication:
         # Initialize the controls names dictionary
         self.controls_names_dict = {}
         # multiply by -1 if the optimization is a maximization
-        self.FoM_factor = 1
+        self.FoM_factor = 1.0
         if optimization_direction == "maximization":
-            self.FoM_factor = -1
+            self.FoM_factor = -1.0
 
     def print_logger(self, message: str = "", level: int = 20):
         """Print a message in the log"""
-- 
2.43.0


From 1f96e58b92af8922aba7e654411dd0c6f6751dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 34/50] fix: controls without a name crash instead of using the
 documented default name

---
 src/quocslib/Controls.py                                    | 2 +-
 .../optimizationalgorithms/OptimizationAlgorithm.py         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/Controls.py b/src/quocslib/Controls.py
index 025cd4e..d335d5d 100644
--- a/src/quocslib/Controls.py
+++ b/src/quocslib/Controls.py
@@ -76,7 +76,7 @@ class Controls:
         ###############################################
         self.times_number = len(times_list)
         for time in times_list:
-            self.times_obj_dictionary[time["time_name"]] = TimeParameter(**time)
+            self.times_obj_dictionary[time.get("time_name", "time")] = TimeParameter(**time)
             # TODO Implement the time optimization here
 
         # Custom get control functions for AD
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 2def077..645a1ba 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -316,13 +316,13 @@ class OptimizationAlgorithm:
         """Return the names of the pulses, parameters and times"""
         pulse_name_list = []
         for pulse_dict in self.optimization_dict["pulses"]:
-            pulse_name_list.append(pulse_dict["pulse_name"])
+            pulse_name_list.append(pulse_dict.get("pulse_name", "pulse"))
         parameter_name_list = []
         for param_dict in self.optimization_dict["parameters"]:
-            parameter_name_list.append(param_dict["parameter_name"])
+            parameter_name_list.append(param_dict.get("parameter_name", "parameter"))
         time_name_list = []
         for time_dict in self.optimization_dict["times"]:
-            time_name_list.append(time_dict["time_name"])
+            time_name_list.append(time_dict.get("time_name", "time"))
         return {"pulse_names": pulse_name_list, "parameter_names": parameter_name_list, "time_names": time_name_list}
 
     def end(self) -> None:
-- 
2.43.0


From 15002814a8b3c1caaabab628387d27477a240ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:24 +0000
Subject: [PATCH 35/50] fix: pw_evolution_AD returns the storage without the
 computed propagators

---
 src/quocslib/timeevolution/piecewise_integrator_AD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/timeevolution/piecewise_integrator_AD.py b/src/quocslib/timeevolution/piecewise_integrator_AD.py
index 41728d0..2d91ec9 100644
--- a/src/quocslib/timeevolution/piecewise_integrator_AD.py
+++ b/src/quocslib/timeevolution/piecewise_integrator_AD.py
@@ -58,7 +58,7 @@ def pw_evolution_AD(U_store, drive, A, B, n_slices, dt):
         H = A
         for k in range(K):
             H = H + drive[k, i] * B[k]
-        U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
+        U_store = U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
     return U_store
 
 
-- 
2.43.0


From 8ad01d5c939a6ebda39202be22ce982c04e4687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 36/50] fix: square root of a density matrix is NaN when a zero
 eigenvalue is rounded to a negative number

---
 src/quocslib/tools/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/tools/operations.py b/src/quocslib/tools/operations.py
index fb8777a..02a5109 100644
--- a/src/quocslib/tools/operations.py
+++ b/src/quocslib/tools/operations.py
@@ -26,7 +26,8 @@ def state_to_dm(state: jnp.array):
 def _sqrtm(a):
     eig_vals, V = jnp.linalg.eigh(a)
     # eig_vals = jnp.linalg.eigvals(a)
-    sqrt_eig_vals = jnp.sqrt(eig_vals)
+    # Eigenvalues of a positive semidefinite matrix are only negative due to rounding
+    sqrt_eig_vals = jnp.sqrt(jnp.where(eig_vals > 0.0, eig_vals, 0.0))
     V_inv = jnp.linalg.inv(V)
     return jnp.matmul(jnp.matmul(V, jnp.diag(sqrt_eig_vals)), V_inv)
 
-- 
2.43.0


From 140f0413cc8cad3661c75e3dcacbb7f3895d1bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 37/50] fix: partial trace over all subsystems crashes

---
 src/quocslib/tools/partial_trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/tools/partial_trace.py b/src/quocslib/tools/partial_trace.py
index 59b5906..f4aa585 100644
--- a/src/quocslib/tools/partial_trace.py
+++ b/src/quocslib/tools/partial_trace.py
@@ -46,7 +46,8 @@ def jax_partial_trace_transform(subsystem_dims, trace_over_positions):
     mask = create_mask(trace_over_positions, num_subsystems)
 
     # Final reshape
-    remaining_dims = jnp.array([subsystem_dims[i] for i in range(num_subsystems) if i not in trace_over_positions])
+    remaining_dims = jnp.array([subsystem_dims[i] for i in range(num_subsystems) if i not in trace_over_positions],
+                               dtype=int)
     remaining_dim = jnp.prod(remaining_dims)
     @jax.jit
     def partial_trace(state: jnp.ndarray):
-- 
2.43.0


From bfe21a7e07adb48a2e9f3f405bcaf2fcf5e3b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 38/50] fix: noise realizations lose their last slice when T /
 dt is rounded down

---
 src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py b/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py
index 349ac43..4f917c2 100644
--- a/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py
+++ b/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py
@@ -18,7 +18,7 @@ class OrnsteinUhlenbeck:
         :param T: total time of the noise realization
         :return: a single noise realization
         """
-        n_slices = int(np.floor(T / self.dt))
+        n_slices = int(np.floor(T / self.dt + 1e-9))
         output = np.zeros(n_slices)
         output[0] = self.x0
         mu = np.exp(-(1 / self.tau) * self.dt)
@@ -36,7 +36,7 @@ class OrnsteinUhlenbeck:
         :param kwargs:
         :return: an ensemble of noise realizations
         """
-        n_slices = int(np.floor(T / self.dt))
+        n_slices = int(np.floor(T / self.dt + 1e-9))
 
         # now if x0 is a function then we sample from it
         # if x0 is an array we just use it
-- 
2.43.0


From 542a2c6b40b3d1422e7ec7d5bacecc0be0a848c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 39/50] fix: the Ising model never uses the propagators of
 other controls

---
 .../optimalcontrolproblems/IsingModelProblem.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimalcontrolproblems/IsingModelProblem.py b/src/quocslib/optimalcontrolproblems/IsingModelProblem.py
index 7d25513..e5e95e6 100644
--- a/src/quocslib/optimalcontrolproblems/IsingModelProblem.py
+++ b/src/quocslib/optimalcontrolproblems/IsingModelProblem.py
@@ -163,6 +163,8 @@ class IsingModel(AbstractFoM):
         self.prop_store = [np.zeros_like(self.H_drift) for _ in range(self.n_slices)]
         # Check if the propagators are already computed
         self.propagators_are_computed = False
+        # Controls the computed propagators belong to
+        self.propagators_controls = (None, None)
 
     def get_control_Hamiltonians(self):
         return self.H_control
@@ -194,6 +196,7 @@ class IsingModel(AbstractFoM):
         # Compute the time evolution
         self.prop_store = pw_evolution(self.prop_store, drive, self.H_drift, [self.H_control], n_slices, dt)
         self.propagators_are_computed = True
+        self.propagators_controls = (np.array(drive[0]), dt)
         return self.prop_store
 
     def get_FoM(self, pulses: list = [], parameters: list = [], timegrids: list = []) -> dict:
@@ -204,8 +207,11 @@ class IsingModel(AbstractFoM):
         :param timegrids: List of time grids
         :return dict: Figure of merit in a dictionary
         """
-        # Check if the propagator list is computed before compute the final propagator
-        if not self.propagators_are_computed:
+        # Check if the propagator list is computed before compute the final propagator. The ones of other controls,
+        # e.g. of an evaluation that was not made because the optimization was stopped, cannot be used
+        computed_drive, computed_dt = self.propagators_controls
+        if not (self.propagators_are_computed and computed_dt == timegrids[0][-1] / len(timegrids[0])
+                and np.array_equal(computed_drive, pulses[0])):
             self.get_propagator(pulses_list=pulses, time_grids_list=timegrids, parameters_list=parameters)
         self.propagators_are_computed = False
         # Compute the final propagator
-- 
2.43.0


From 13dab6045cdaa0b6d64973216c606b69441c569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 40/50] fix: the Rosenbrock problem can be created without
 arguments

---
 src/quocslib/optimalcontrolproblems/RosenbrockProblem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py b/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
index 84ae653..c2a116a 100644
--- a/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
+++ b/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
@@ -29,6 +29,9 @@ class Rosenbrock(AbstractFoM):
         Initialize useful arguments
         :param args_dict: dictionary of arguments
         """
+        if args_dict is None:
+            args_dict = {}
+
         # Noise in the figure of merit
         self.is_noisy = args_dict.setdefault("is_noisy", False)
         self.noise_factor = args_dict.setdefault("noise_factor", 0.05)
-- 
2.43.0


From 2ac02022aedf4db8619a86bd0c056daa915d92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 41/50] fix: every optimization writes into its own log file

---
 .../communication/AllInOneCommunication.py     |  6 +++++-
 .../OptimizationAlgorithm.py                   |  1 +
 src/quocslib/tools/logger.py                   | 18 +++++++++++++++---
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 30f291d..1ecb66b 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -22,7 +22,7 @@ from typing import List
 from quocslib.utils.AbstractFoM import AbstractFoM
 from quocslib.utils.DummyDump import DummyDump
 from quocslib.handleexit.AbstractHandleExit import AbstractHandleExit
-from quocslib.tools.logger import create_logger
+from quocslib.tools.logger import activate_logger, create_logger
 from quocslib.utils.inputoutput import writejsonfile
 from quocslib import __VERSION__ as quocslib_version
 
@@ -118,6 +118,10 @@ class AllInOneCommunication:
         else:
             self.logger.error(message)
 
+    def activate_logger(self):
+        """Write the messages of the modules which do not belong to a single optimization into the log of this one"""
+        activate_logger(self.logger)
+
     def send_message(self, message):
         """Send a message to the interface"""
         if self.message_signal is not None:
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 645a1ba..f18ff46 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -131,6 +131,7 @@ class OptimizationAlgorithm:
         """
         # Another optimizer may have been created in the meanwhile
         self._listen_to_user_cancellation()
+        self.comm_obj.activate_logger()
         # Open the log with the QuOCS version number
         self.comm_obj.print_logger("QuOCS version number: {0}".format(QUOCSLIB_VERSION))
         # Send starting message to the interface
diff --git a/src/quocslib/tools/logger.py b/src/quocslib/tools/logger.py
index ff8deb4..db03cd4 100644
--- a/src/quocslib/tools/logger.py
+++ b/src/quocslib/tools/logger.py
@@ -38,9 +38,9 @@ def create_logger(results_path, date_time, create_logfile=True, console_info=Tru
     log_filename = os.path.join(results_path, date_time + "_logging.log")
     log_debug_filename = os.path.join(results_path, date_time + "_logging_debug.log")
 
-    logger = logging.getLogger("oc_logger")
-    # Remove previous handlers if any
-    logger.handlers = []
+    # Every optimization has its own logger, otherwise it would write into the log file of the one created last
+    logger = logging.Logger("oc_logger")
+    logger.parent = logging.getLogger()
     # Default level for logger
     logger.setLevel(logging.INFO)
     # Console handler
@@ -70,4 +70,16 @@ def create_logger(results_path, date_time, create_logfile=True, console_info=Tru
         debug_file_handler.setFormatter(logging.Formatter(log_format, date_format))
         #
         logger.addHandler(debug_file_handler)
+    activate_logger(logger)
     return logger
+
+
+def activate_logger(logger):
+    """
+    Let the messages of the modules which do not belong to a single optimization go where this logger writes
+
+    :param logger: The logger of an optimization
+    """
+    shared_logger = logging.getLogger("oc_logger")
+    shared_logger.setLevel(logger.level)
+    shared_logger.handlers = list(logger.handlers)
-- 
2.43.0


From 17756e734b2d7bda471e644dd0a77f008c53b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:10 +0000
Subject: [PATCH 42/50] fix: an infinite or NaN measurement spoils all later
 averages of the re-evaluation

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 ++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 0c35aeb..d77e999 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -166,8 +166,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                 # number of steps
                 max_steps_number = re_evaluation_steps.shape[0]
                 # Initialize to zero the FoM_test and the sigma_test arrays
-                self.FoM_test = 0.0 * self.FoM_test
-                self.sigma_test = 0.0 * self.sigma_test
+                self.FoM_test = np.zeros_like(self.FoM_test)
+                self.sigma_test = np.zeros_like(self.sigma_test)
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
                 # The optimization was stopped: the value may not be a measurement
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 32b9d36..f4b0c6d 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -336,8 +336,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 # number of steps
                 max_steps_number = re_evaluation_steps.shape[0]
                 # Initialize to zero the FoM_test and the sigma_test arrays
-                self.FoM_test = 0.0 * self.FoM_test
-                self.sigma_test = 0.0 * self.sigma_test
+                self.FoM_test = np.zeros_like(self.FoM_test)
+                self.sigma_test = np.zeros_like(self.sigma_test)
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
                 # The optimization was stopped: the value may not be a measurement
-- 
2.43.0


From 8c8205ef858e0f48dd3dc7f5d4b66615193f66aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:10 +0000
Subject: [PATCH 43/50] fix: a NaN measurement passes every probability
 threshold of the re-evaluation

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 2 +-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index d77e999..570304f 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -185,7 +185,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                     mu_2, sigma_2 = self.best_FoM, self.best_sigma
                     probability = self._probabnormx1betterx2(mu_1, sigma_1, mu_2, sigma_2)
                     # If probability is lower than the probability in the list return the
-                    if probability < p_level:
+                    if not probability >= p_level:
                         return mu_1
                     # else: go on with further re-evaluations
                     self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index f4b0c6d..9a9b80d 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -355,7 +355,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     mu_2, sigma_2 = self.best_FoM, self.best_sigma
                     probability = self._probabnormx1betterx2(mu_1, sigma_1, mu_2, sigma_2)
                     # If probability is lower than the probability in the list return the
-                    if probability < p_level:
+                    if not probability >= p_level:
                         return mu_1
                     # else: go on with further re-evaluations
                     self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
-- 
2.43.0


From 9773932ec2bab98b5fff76522e92c34c1e3ff629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:10 +0000
Subject: [PATCH 44/50] fix: a drift compensation with a NaN average replaces
 the best figure of merit

---
 src/quocslib/gradientfreemethods/NelderMead.py     | 14 ++++++++------
 .../optimizationalgorithms/dCRABAlgorithm.py       |  4 ++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 3cc1cf6..f261b22 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -188,12 +188,14 @@ class NelderMead(DirectSearchMethod):
                         if self.callback is not None and not self.callback():
                             break
                     else:
-                        # here we only shift the rest of the entries by
-                        # the same constant change as the current best!
-                        fsim[0] = curr_best_fom/drift_comp_num_average
-                        fsim[1:] += fsim[0] - prev_FoM
-                        # let the OptimizationAlgorithm know we have a new FoM due to drift compensation
-                        func(sim[0], iterations, fsim[0])
+                        # a value which is not a number tells nothing about the drift
+                        if not np.isnan(curr_best_fom):
+                            # here we only shift the rest of the entries by
+                            # the same constant change as the current best!
+                            fsim[0] = curr_best_fom/drift_comp_num_average
+                            fsim[1:] += fsim[0] - prev_FoM
+                            # let the OptimizationAlgorithm know we have a new FoM due to drift compensation
+                            func(sim[0], iterations, fsim[0])
                     new_FoM = fsim[0]
 
                     self.last_drift_compensation_time = datetime.now()
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 9a9b80d..6207f33 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -236,6 +236,10 @@ class dCRABAlgorithm(OptimizationAlgorithm):
             # the optimization was stopped: the values measured so far are not meaningful
             if not self.is_optimization_running():
                 return
+        # A value which is not a number tells nothing about the drift
+        if np.isnan(new_FoM):
+            self.comm_obj.print_logger("The best controls have no valid figure of merit. No drift compensation.", level=30)
+            return
         self.best_FoM = new_FoM / self.compensate_drift_num_average
         self.comm_obj.update_controls(is_record=True,
                                       FoM=self.FoM_factor*self.best_FoM,
-- 
2.43.0


From 3139ea20036c1a418bbb35abaac1bf7bcd4ef32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 45/50] fix: keep the time grid of a pulse when the user's
 guess or scaling function works in place

---
 src/quocslib/pulses/BasePulse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 733d1aa..066035a 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -409,7 +409,7 @@ class BasePulse:
     def _get_scaling_function(self) -> np.ndarray:
         """ Get the array scaling function """
         if isinstance(self.scaling_function, Callable):
-            scaling_function_t = self.scaling_function(self.time_grid)
+            scaling_function_t = self.scaling_function(self.time_grid.copy())
         elif isinstance(self.scaling_function, self.array_type):
             scaling_function_t = self.scaling_function
         else:
@@ -425,7 +425,7 @@ class BasePulse:
         :return np.ndarray: The initial guess pulse
         """
         if isinstance(self.initial_guess_pulse, Callable):
-            initial_guess_t = self.initial_guess_pulse(self.time_grid)
+            initial_guess_t = self.initial_guess_pulse(self.time_grid.copy())
         elif isinstance(self.initial_guess_pulse, self.array_type):
             initial_guess_t = self.initial_guess_pulse
         else:
@@ -471,7 +471,7 @@ class BasePulse:
         if isinstance(self.scaling_function, Callable):
             sig = signature(self.scaling_function)
             if len(sig.parameters) == 2:
-                return self.scaling_function(self.time_grid, pulse)
+                return self.scaling_function(self.time_grid.copy(), pulse)
             else:
                 return self._get_scaling_function() * pulse
         else:
-- 
2.43.0


From 6b7812e2a26a057a736166caab31d81964522e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 46/50] fix: keep the GRAPE time step when the user's
 propagator function changes its arguments

---
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 9e65f07..6d884ea 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -13,6 +13,8 @@
 #  See the License for the specific language governing permissions and
 #  limitations under the License.
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
+import copy
+
 import numpy as np
 from scipy.optimize import minimize
 import scipy
@@ -141,8 +143,9 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         """
         # Calculate the controls
         [pulses, timegrids, parameters] = self.controls.get_controls_lists(optimized_control_parameters)
-        # Pass the controls to the get propagator function
-        U_store = self.propagator_func(pulses_list=pulses, time_grids_list=timegrids, parameters_list=parameters)
+        # Pass copies of the controls to the get propagator function
+        U_store = self.propagator_func(pulses_list=copy.deepcopy(pulses), time_grids_list=copy.deepcopy(timegrids),
+                                       parameters_list=copy.deepcopy(parameters))
         n_slices = self.n_slices
         sys_type = self.sys_type
         rho_store = self.rho_storage
-- 
2.43.0


From 6794ee933db99f40f47e969429598382ed8817e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 47/50] fix: save the evaluated controls when the figure of
 merit or the interface changes its arguments in place

---
 src/quocslib/communication/AllInOneCommunication.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 1ecb66b..33b399e 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -14,6 +14,7 @@
 #  limitations under the License.
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
+import copy
 import os
 import time
 import datetime
@@ -146,6 +147,8 @@ class AllInOneCommunication:
         """Set the controls for FoM calculation and notify the gui"""
         self.controls_dict = controls_dict
         if self.controls_update_signal is not None:
+            # the interface gets its own controls
+            controls_dict = copy.deepcopy(controls_dict)
             self.controls_update_signal.emit(controls_dict["pulses"], controls_dict["timegrids"],
                                              controls_dict["parameters"])
 
@@ -160,8 +163,8 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
-        # work on a copy: the dictionary and its content belong to the user
-        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
+        # work on copies: the dictionary and its content belong to the user, the controls to the optimization
+        FoM_dict = dict(self.FoM_obj.get_FoM(**copy.deepcopy(self.controls_dict)))
         # a failed evaluation may come without a figure of merit: use the worst value
         if FoM_dict.get("status_code", 0) != 0 and FoM_dict.get("FoM") is None:
             FoM_dict["FoM"] = 10**10 * self.FoM_factor
-- 
2.43.0


From 7dc25b5cd4057b10d403321ca62d9ed5d0ec2bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:07 +0000
Subject: [PATCH 48/50] fix: copy arrays given in the settings (guess, scaling,
 re-evaluation steps), they belong to the user

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 2 +-
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 2 +-
 src/quocslib/pulses/BasePulse.py                             | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 570304f..dfe2f6d 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -83,7 +83,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         if "re_evaluation" in alg_parameters:
             re_evaluation_parameters = alg_parameters["re_evaluation"]
             if "re_evaluation_steps" in re_evaluation_parameters:
-                self.re_evaluation_steps = np.asarray(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
+                self.re_evaluation_steps = np.array(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
             else:
                 self.re_evaluation_steps = np.asarray([0.3, 0.5, 0.501], dtype=float)
                 message = "Steps not found. The default will be used in the optimization: {0}".format(
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 6207f33..4c29cad 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -93,7 +93,7 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         if "re_evaluation" in alg_parameters:
             re_evaluation_parameters = alg_parameters["re_evaluation"]
             if "re_evaluation_steps" in re_evaluation_parameters:
-                self.re_evaluation_steps = np.asarray(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
+                self.re_evaluation_steps = np.array(re_evaluation_parameters["re_evaluation_steps"], dtype=float)
             else:
                 self.re_evaluation_steps = np.asarray([0.3, 0.5, 0.501], dtype=float)
                 message = "Steps not found. The default will be used in the optimization: {0}".format(
diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 066035a..e36d303 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -118,7 +118,7 @@ class BasePulse:
         if function_type == "lambda_function":
             initial_guess_pulse = eval(initial_guess["lambda_function"])
         elif function_type == "list_function":
-            initial_guess_pulse = np.asarray(initial_guess["list_function"])
+            initial_guess_pulse = np.array(initial_guess["list_function"])
         elif function_type == "python_file":
             guess_file_path = initial_guess.setdefault("file_path", "")
             # check if filename ends with .py and if not, add it
@@ -154,7 +154,7 @@ class BasePulse:
         if function_type == "lambda_function":
             scaling_function = eval(scaling_function["lambda_function"])
         elif function_type == "list_function":
-            scaling_function = np.asarray(scaling_function["list_function"])
+            scaling_function = np.array(scaling_function["list_function"])
         elif function_type == "python_file":
             scaling_file_path = scaling_function.setdefault("file_path", "")
             # check if filename ends with .py and if not, add it
-- 
2.43.0


From c18f3852f9db14abb2857a0d68425ea123bddfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:16 +0000
Subject: [PATCH 49/50] fix: do not leave the offset derived from sigma in the
 user's settings, where it outlives a new sigma

---
 src/quocslib/pulses/basis/SigmoidAllParas.py | 2 +-
 src/quocslib/pulses/basis/SigmoidSigmas.py   | 2 +-
 src/quocslib/pulses/basis/SigmoidTimeDep.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/pulses/basis/SigmoidAllParas.py b/src/quocslib/pulses/basis/SigmoidAllParas.py
index 3b20070..507621e 100644
--- a/src/quocslib/pulses/basis/SigmoidAllParas.py
+++ b/src/quocslib/pulses/basis/SigmoidAllParas.py
@@ -43,7 +43,7 @@ class SigmoidAllParas(ChoppedBasis):
 
         # define offset from side and sigma
         self.sigma = basis_dict.setdefault("sigma", 10**(-10))
-        self.offset = basis_dict.setdefault("offset", -10*self.sigma)
+        self.offset = basis_dict.get("offset", -10*self.sigma)
         # tau initial variation
         self.tau_var = basis_dict.setdefault("tau_variation", 10**(-20))
         # sigma initial variation
diff --git a/src/quocslib/pulses/basis/SigmoidSigmas.py b/src/quocslib/pulses/basis/SigmoidSigmas.py
index e9eaa6b..a602b4b 100644
--- a/src/quocslib/pulses/basis/SigmoidSigmas.py
+++ b/src/quocslib/pulses/basis/SigmoidSigmas.py
@@ -42,7 +42,7 @@ class SigmoidSigmas(ChoppedBasis):
 
         # define offset from side and sigma
         self.sigma = basis_dict.setdefault("sigma", 10**(-10))
-        self.offset = basis_dict.setdefault("offset", -10*self.sigma)
+        self.offset = basis_dict.get("offset", -10*self.sigma)
         # sigma initial variation
         self.sigma_var = basis_dict.setdefault("sigma_variation", 1.0)
 
diff --git a/src/quocslib/pulses/basis/SigmoidTimeDep.py b/src/quocslib/pulses/basis/SigmoidTimeDep.py
index 9f0950a..1bbb6eb 100644
--- a/src/quocslib/pulses/basis/SigmoidTimeDep.py
+++ b/src/quocslib/pulses/basis/SigmoidTimeDep.py
@@ -45,7 +45,7 @@ class SigmoidTimeDep(ChoppedBasis):
 
         # define offset from side and sigma
         self.sigma = basis_dict.setdefault("sigma", 10**(-10))
-        self.offset = basis_dict.setdefault("offset", -10*self.sigma)
+        self.offset = basis_dict.get("offset", -10*self.sigma)
         # tau initial variation
         self.tau_var = basis_dict.setdefault("tau_variation", 0.1)
 
-- 
2.43.0


From 35f93492dfc937bfeba2712101d8792982bdfc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:16 +0000
Subject: [PATCH 50/50] fix: keep the change based stop of a run when the
 settings are changed after its creation

---
 src/quocslib/stoppingcriteria/StoppingCriteria.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/stoppingcriteria/StoppingCriteria.py b/src/quocslib/stoppingcriteria/StoppingCriteria.py
index 4ba632e..9d6807a 100644
--- a/src/quocslib/stoppingcriteria/StoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/StoppingCriteria.py
@@ -41,10 +41,11 @@ class StoppingCriteria:
         self.max_eval = stopping_criteria.setdefault("max_eval", 10**10)
         self.time_lim = stopping_criteria.setdefault("time_lim", 10**10)
         self.direct_search_start_time = datetime.now()
-        self.change_based_stop = stopping_criteria.setdefault("change_based_stop", {
+        # a copy, the dictionary belongs to the user
+        self.change_based_stop = dict(stopping_criteria.setdefault("change_based_stop", {
             "cbs_funct_evals": 1,
             "cbs_change": 0
-        })
+        }))
         # if "cbs_funct_evals" not in self.change_based_stop:
         #     self.change_based_stop["cbs_funct_evals"] = 1
         self.curr_FoM_track: list = []
-- 
2.43.0

