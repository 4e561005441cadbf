From 661b368ede1f844a87061b5c3f55819696d4534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 01/34] fix: propagate initial samples only to the time they
 belong to

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 69e17ad..422d616 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -437,7 +437,7 @@ class Propagator():
         for src, mic in self.arrays.mic_src_combos():
             propagated_signal = self.path_filters[src.name][mic.name].process(
                     self.sig[src.name][:, end_sample - num_samples:end_sample])
-            self.sig[mic.name][:,:self.sim_info.sim_buffer] += propagated_signal
+            self.sig[mic.name][:,end_sample - num_samples:end_sample] += propagated_signal
             if self.sim_info.save_source_contributions:
                 self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal
         self.sig.idx = self.sim_info.sim_buffer
-- 
2.43.0


From 5d6136d09be4a616d59f487de56b82c490c6d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 02/34] fix: compare every audio parameter a stored path
 depends on before reusing a session

---
 src/aspsim/configutil.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 4218ae3..5cafe8f 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -63,7 +63,11 @@ def equal_audio(info1, info2, path_types):
     same_audio =  info1.samplerate == info2.samplerate and \
                 info1.c == info2.c and \
                 info1.spatial_dims == info2.spatial_dims and \
-                info1.reverb == info2.reverb
+                info1.reverb == info2.reverb and \
+                info1.highpass_cutoff == info2.highpass_cutoff
+
+    if any("random" in src_path_types.values() for src_path_types in path_types.values()):
+        same_audio = same_audio and info1.max_room_ir_length == info2.max_room_ir_length
     
     if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
         same_audio = same_audio and \
@@ -72,7 +76,6 @@ def equal_audio(info1, info2, path_types):
             info1.rt60 == info2.rt60 and \
             info1.max_room_ir_length == info2.max_room_ir_length and \
             info1.randomized_ism == info2.randomized_ism and \
-            info1.extra_delay == info2.extra_delay and \
-            info1.highpass_cutoff == info2.highpass_cutoff
+            info1.extra_delay == info2.extra_delay
     return same_audio
 
-- 
2.43.0


From 33b31ac150d697e1a93b37e2c30415c7c11e39d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 03/34] fix: accept the documented reverb option "random" when
 a config is loaded

---
 src/aspsim/configutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 5cafe8f..1f5859e 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -37,7 +37,7 @@ class SimulatorInfo:
         assert len(self.room_size) == self.spatial_dims
         assert len(self.room_center) == self.spatial_dims
 
-        assert self.reverb in ("none", "direct", "ism")
+        assert self.reverb in ("none", "direct", "random", "ism")
 
 
     def save_to_file(self, path):
-- 
2.43.0


From 961dc8ecd37aabe17cc94a641109622624faa4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 04/34] fix: give each simulator its own copy of the config

---
 src/aspsim/simulator.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 422d616..e66f7eb 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -181,27 +181,28 @@ class SimulatorSetup:
         create similar simulations with different parameters.
         """
         assert not self.arrays.empty()
+        sim_info = copy.deepcopy(self.sim_info)
         finished_arrays = copy.deepcopy(self.arrays)
-        finished_arrays.set_default_path_type(self.sim_info.reverb)
+        finished_arrays.set_default_path_type(sim_info.reverb)
         
         folder_path = self._create_fig_folder(self.base_fig_path)
         print(f"Figure folder: {folder_path}")
 
-        if self.sim_info.auto_save_load and self.session_folder is not None:
+        if sim_info.auto_save_load and self.session_folder is not None:
             try:
-                finished_arrays = sess.load_session(self.session_folder, folder_path, self.sim_info, finished_arrays)
+                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays)
             except sess.MatchingSessionNotFoundError:
                 print("No matching session found")
-                ir_metadata = finished_arrays.setup_ir(self.sim_info)
-                sess.save_session(self.session_folder, self.sim_info, finished_arrays, sim_metadata=ir_metadata)   
+                ir_metadata = finished_arrays.setup_ir(sim_info)
+                sess.save_session(self.session_folder, sim_info, finished_arrays, sim_metadata=ir_metadata)   
         else:
-            finished_arrays.setup_ir(self.sim_info)
+            finished_arrays.setup_ir(sim_info)
 
         # LOGGING AND DIAGNOSTICS
-        self.sim_info.save_to_file(folder_path)
-        finished_arrays.plot(self.sim_info, folder_path, self.sim_info.plot_output)
+        sim_info.save_to_file(folder_path)
+        finished_arrays.plot(sim_info, folder_path, sim_info.plot_output)
         finished_arrays.save_metadata(folder_path)
-        return Simulator(self.sim_info, finished_arrays, folder_path, rng=self.rng)
+        return Simulator(sim_info, finished_arrays, folder_path, rng=self.rng)
 
     def _create_fig_folder(self, folder_for_plots, gen_subfolder=True, safe_naming=False):
         if self.sim_info.plot_output == "none" or folder_for_plots is None:
-- 
2.43.0


From c70bb849f8b263cbbe88377cfa030923c18b203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 05/34] fix: use the loaded session only for its paths, not for
 the current arrays and config

---
 src/aspsim/array.py           | 32 ++++++++++++++++++++++++++++++--
 src/aspsim/saveloadsession.py |  6 ++----
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2245b3f..0cbfaa8 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -242,8 +242,7 @@ class ArrayCollection():
             The simulation info object
         """
         metadata = {}
-        self.sim_info = sim_info
-        self.path_generator = rir.PathGenerator(self.sim_info, self)
+        self.set_path_generator(sim_info)
 
         for src, mic in self.mic_src_combos():
             self.path_info[f"{src.name}->{mic.name}"] = {}
@@ -261,6 +260,35 @@ class ArrayCollection():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
         
 
+    def set_path_generator(self, sim_info):
+        """Prepares the collection for generating paths according to the config
+        
+        Parameters
+        ----------
+        sim_info : SimInfo
+            The simulation info object
+        """
+        self.sim_info = sim_info
+        self.path_generator = rir.PathGenerator(self.sim_info, self)
+
+    def use_paths_from(self, initialized, sim_info):
+        """Takes the paths from an initialized collection instead of generating them
+
+        Paths that were set by the user are kept as they are. 
+
+        Parameters
+        ----------
+        initialized : ArrayCollection
+            The collection to take the paths from, for which prototype_equals is True
+        sim_info : SimInfo
+            The simulation info object
+        """
+        self.set_path_generator(sim_info)
+        for src, mic in self.mic_src_combos():
+            if self.path_type[src.name][mic.name] != "modified":
+                self.paths[src.name][mic.name] = initialized.paths[src.name][mic.name]
+        self.path_info = initialized.path_info
+
     def update_path(self, src, mic):
         """Updates the path between a source and a microphone array
         
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 9457d54..84ac625 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -24,10 +24,8 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     print("Loaded Session: ", str(session_to_load))
     loaded_arrays = ar.load_arrays(session_to_load)
 
-    for fs_array in chosen_arrays.free_sources():
-        loaded_arrays[fs_array.name].source = fs_array.source
-
-    return loaded_arrays
+    chosen_arrays.use_paths_from(loaded_arrays, chosen_sim_info)
+    return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
-- 
2.43.0


From 1567d4cf14c1bcae765dc17a096a790a8d4c2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 06/34] fix: compare directivity and path shape before reusing
 a session

---
 src/aspsim/array.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 0cbfaa8..261383f 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -474,10 +474,18 @@ def prototype_equals(prototype, initialized):
             return False
         if not np.allclose(ar.pos,initialized[ar_name].pos):
             return False
+        if list(ar.directivity_type) != list(initialized[ar_name].directivity_type):
+            return False
+        if not np.array_equal(ar.directivity_dir, initialized[ar_name].directivity_dir):
+            return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
         if prototype.path_type[src.name][mic.name] == "modified":
+            if mic.name not in initialized.paths[src.name]:
+                return False
+            if prototype.paths[src.name][mic.name].shape != initialized.paths[src.name][mic.name].shape:
+                return False
             if not np.allclose(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
                 return False
         if prototype.path_type[src.name][mic.name] != initialized.path_type[src.name][mic.name]:
-- 
2.43.0


From f520b76550f9e55b0864e63b09390df93278087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 07/34] fix: write the path metadata of a saved session

---
 src/aspsim/array.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 261383f..669afa4 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -241,7 +241,6 @@ class ArrayCollection():
         sim_info : SimInfo
             The simulation info object
         """
-        metadata = {}
         self.set_path_generator(sim_info)
 
         for src, mic in self.mic_src_combos():
@@ -258,7 +257,7 @@ class ArrayCollection():
                 self.paths[src.name][mic.name], path_info = self.path_generator.create_path(src, mic, reverb, sim_info, True, True)
                 for key, val in path_info.items():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
-        
+        return self.path_info
 
     def set_path_generator(self, sim_info):
         """Prepares the collection for generating paths according to the config
-- 
2.43.0


From 20c6a84282ef84d1ee65bf3e4164e72bce218d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 08/34] fix: forward export_at and save_frequency of StatePower
 in the right order

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bdfdb82..7fbb78e 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -211,7 +211,7 @@ class StatePower(diacore.StateDiagnostic):
                         export_at=None,
                         save_frequency=None, 
                         **kwargs):
-        super().__init__(sim_info, save_frequency, export_at, **kwargs)
+        super().__init__(sim_info, export_at, save_frequency, **kwargs)
         
         self.power = np.full((self.save_at.num_values), np.nan)
         self.time_indices = np.full((self.save_at.num_values), np.nan, dtype=int)
-- 
2.43.0


From aa543170864f86407c7803a3c9070df87a375a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 09/34] fix: let SoundfieldPower record simulations without a
 processor

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 7fbb78e..29a5ef2 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -351,7 +351,7 @@ class SoundfieldPower(diacore.Diagnostic):
         #src_sig = {src_name : np.zeros((arrays[src_name].num)) for src_name in source_names}
 
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power[:] += np.sum(np.abs(processor.sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
+        self.power[:] += np.sum(np.abs(sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
 
     def get_output(self):
         return self.power
-- 
2.43.0


From 0013cd127fde15d23719d3fe5120e0d0ff9aba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 10/34] fix: return no values when all selected times are after
 the export index

---
 src/aspsim/diagnostics/core.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index e2c4c5d..f8dc66e 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -527,11 +527,7 @@ def get_values_from_selection(signal, time_indices, max_idx):
         assert signal.shape[-1] == 0
         return signal, time_indices
 
-    above_max_idx = np.argmax(time_indices >= max_idx)
-    if above_max_idx == 0:
-        if np.logical_not(above_max_idx).all():
-            above_max_idx = len(time_indices)
-
-    time_indices = time_indices[:above_max_idx]
-    signal = signal[:,:above_max_idx]
+    below_max_idx = time_indices < max_idx
+    time_indices = time_indices[below_max_idx]
+    signal = signal[:,below_max_idx]
     return signal, time_indices
-- 
2.43.0


From 99b41efb176dd8321c0835dd241b67549bd2288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 11/34] fix: record matrix-valued states at the right time
 index

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 29a5ef2..409a067 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -143,7 +143,7 @@ class RecordState(diacore.StateDiagnostic):
 
     def save(self, processor, sig, chunkInterval, globInterval):
         assert globInterval[1] - globInterval[0] == 1
-        self.state_values[:, self.diag_idx] = self.get_prop(processor)
+        self.state_values[..., self.diag_idx] = self.get_prop(processor)
         self.time_indices[self.diag_idx] = globInterval[0]
 
         self.diag_idx += 1
-- 
2.43.0


From 9bd6c4736fe23e29d99a1c21dd7898052fa32d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 12/34] fix: keep the smoothing state of SignalPowerRatio
 between chunks

---
 src/aspsim/diagnostics/diagnostics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 409a067..2484d80 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -190,13 +190,13 @@ class SignalPowerRatio(diacore.SignalDiagnostic):
 
         self.numerator_channels = numerator_channels
         self.denom_channels = denom_channels
+
+        self.smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
+        self.smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-        smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-
-        num = smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
-        denom = smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        denom = self.smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
 
         self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
-- 
2.43.0


From 9703b2fbf594d8668448d35352efe228290f36ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 13/34] fix: combine the membership of the parts of a combined
 region

---
 src/aspsim/room/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 277f53a..95e0536 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -48,7 +48,7 @@ class CombinedRegion(Region):
         return False
 
     def is_in_region(self, coordinate):
-        return np.logical_or([reg.is_in_region(coordinate) for reg in self.regions])
+        return np.any([reg.is_in_region(coordinate) for reg in self.regions], axis=0)
 
     def equally_spaced_points(self):
         return np.concatenate([reg.equally_spaced_points() for reg in self.regions], axis=0)
-- 
2.43.0


From aac72ff0b3990aa615bc6df74453d0be0c241289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 14/34] fix: sample each part of a combined region in
 proportion to its volume

---
 src/aspsim/room/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 95e0536..84436ff 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -57,8 +57,8 @@ class CombinedRegion(Region):
         vol_ratio = self.volumes / self.volume
         sample_limit = np.cumsum(vol_ratio)
         test_val = self.rng.uniform(0,1,num_points)
-        sample_result = test_val[None,:] < sample_limit[:,None]
-        reg_idx = np.sum(sample_result, axis=0) - 1
+        sample_result = test_val[None,:] >= sample_limit[:-1,None]
+        reg_idx = np.sum(sample_result, axis=0)
         unique, counts = np.unique(reg_idx, return_counts=True)
         sampled_points = np.concatenate([self.regions[idx].sample_points(num) 
                         for idx, num in zip(unique, counts)])
-- 
2.43.0


From d3905f74fb82e292c73215d314980ed0e3f74719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 15/34] fix: decide the membership of planar regions for each
 point separately

---
 src/aspsim/room/region.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 84436ff..86a3c0f 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -200,13 +200,11 @@ class Rectangle(Region):
         is_in : boolan np.ndarray of shape (N,)
             True if the coordinate is within the region, False otherwise.
         """
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         is_in_coord_wise = np.logical_and(coordinates[:,:2] >= self.low_lim[None,:]-padding,
                                         coordinates[:,:2] <= self.high_lim[None,:]+padding)
         is_in = np.logical_and(is_in_coord_wise[:,0], is_in_coord_wise[:,1])
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
@@ -270,13 +268,11 @@ class Disc(Region):
         self.volume = self.radius**2 * np.pi
 
     def is_in_region(self, coordinates):
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         centered_coords = coordinates[:,:2] - self.center[None,:2]
         norm_coords = np.sqrt(np.sum(np.square(centered_coords), axis=-1))
         is_in = norm_coords <= self.radius
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
-- 
2.43.0


From a1640ddc600442c5b86b66a74b9e2739d300c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 16/34] fix: traverse every segment of a constant_time linear
 trajectory

---
 src/aspsim/room/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index af684ab..81c4493 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -113,7 +113,7 @@ class LinearTrajectory(Trajectory):
         return pos_func
     
     def _constant_time_pos_func(self, points, period, samplerate):
-        num_segments = points.shape[0]
+        num_segments = points.shape[0] - 1
         time_per_segment = period / num_segments
         self.samples_per_segment = time_per_segment * samplerate
         segment_distance = np.sqrt(np.sum((points[:-1,:] - points[1:,:])**2, axis=-1))
@@ -121,7 +121,7 @@ class LinearTrajectory(Trajectory):
         distance_per_time = segment_distance / time_per_segment
         distance_per_sample = distance_per_time / samplerate
 
-        self.cumulative_samples = np.arange(num_segments) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
+        self.cumulative_samples = np.arange(num_segments + 1) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
 
         def pos_func(n):
             period_samples = n % (period * samplerate)
-- 
2.43.0


From 63907b11a1210452ba7661f09138515123332a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 17/34] fix: end the last finite phase of a PhaseCounter

---
 src/aspsim/counter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index a0905cf..cb1a506 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -59,6 +59,9 @@ class PhaseCounter:
 
         self._phase_names = [phase_name for phase_name, phase_len in self.phase_lengths.items() if phase_len > 0]
         self._start_idxs = [start_idx for start_idx, phase_len in zip(self.start_idxs.values(), self.phase_lengths.values()) if phase_len > 0]
+        if None in self.start_idxs:
+            self._phase_names.append(None)
+            self._start_idxs.append(self.start_idxs[None])
 
         self.idx = 0
         self.next_phase()
-- 
2.43.0


From e76473e8380fd449ced2080aae09b5160ce16e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 18/34] fix: let a sequence with end_mode raise be played to
 its end, with its amplitude

---
 src/aspsim/signal/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1c77539..2903691 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -82,12 +82,11 @@ class Sequence(Source):
         elif self.end_mode == "zeros":
             raise NotImplementedError
         elif self.end_mode == "raise":
-            if self.current_sample + num_samples >= self.tot_samples:
+            if self.current_sample + num_samples > self.tot_samples:
                 raise StopIteration("End of audio signal")
 
             sig = self.audio[:,self.current_sample:self.current_sample+num_samples]
             self.current_sample += num_samples
-            return sig
         else:
             raise ValueError("Invalid end mode")
         return sig * self.amp_factor
-- 
2.43.0


From 95918e7e25c524b11b0773497acd85d5ea361745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 19/34] fix: make the noise of multi-channel sources
 independent of the block size

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 2903691..e5f59d8 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -231,7 +231,7 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
-        noise = self.amplitude * self.rng.normal(size=(self.num_channels, num_samples))
+        noise = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
         return filtNoise
 
@@ -380,7 +380,7 @@ class AutocorrSource(Source):
             self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
-        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power)[:,None], size=(self.num_channels, num_samples)))
+        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
 
 
 
-- 
2.43.0


From cfd9faa1724a0677f891e6218ce456efcdd6bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 20/34] fix: return the samples of Counter and MLS with a
 channel axis

---
 src/aspsim/signal/sources.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index e5f59d8..c87b696 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -160,7 +160,7 @@ class Counter(Source):
         self.metadata["start number"] = start_number 
 
     def get_samples(self, num_samples):
-        values = np.arange(self.current_number, self.current_number+num_samples)
+        values = np.arange(self.current_number, self.current_number+num_samples)[None,:]
         self.current_number += num_samples
         return values
 
@@ -411,7 +411,7 @@ class MLS(Source):
         seq, self.state = spsig.max_len_seq(
             self.order, state=self.state, length=num_samples, taps=self.poly
         )
-        return seq * 2 - 1
+        return (seq * 2 - 1)[None,:]
 
 
 class GoldSequenceSource(Source):
@@ -443,12 +443,12 @@ class GoldSequenceSource(Source):
         if 5 <= order <= 11:
             mls1 = MLS(1, order, self.preferredSequences[order][0])
             mls2 = MLS(1, order, self.preferredSequences[order][1])
-            seq1 = mls1.get_samples(2 ** order - 1)
-            seq2 = mls2.get_samples(2 ** order - 1)
+            seq1 = mls1.get_samples(2 ** order - 1)[0,:]
+            seq2 = mls2.get_samples(2 ** order - 1)[0,:]
         elif order > 11:
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
-            seq1 = mls1.get_samples(2**order - 1)
+            seq1 = mls1.get_samples(2**order - 1)[0,:]
             k = util.getSmallestCoprime(order)
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
-- 
2.43.0


From c032a192204fe7bd85097db79dcb33729bd2fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 21/34] fix: start MLS from the supplied state

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index c87b696..0c1e636 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -401,7 +401,7 @@ class MLS(Source):
             raise NotImplementedError
         self.order = order
         self.poly = polynomial
-        self.state = None
+        self.state = state
 
         self.metadata["order"] = self.order
         self.metadata["polynomial"] = self.poly
-- 
2.43.0


From 7bfc2932dbcd1d44869ff78e2b8888d05226ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 22/34] fix: find the smallest coprime for long gold sequences

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 0c1e636..18317b6 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -449,7 +449,7 @@ class GoldSequenceSource(Source):
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
             seq1 = mls1.get_samples(2**order - 1)[0,:]
-            k = util.getSmallestCoprime(order)
+            k = coreutil.get_smallest_coprime(order)
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
             seq2 = np.copy(seq1[decimatedIndices])
-- 
2.43.0


From e16117d53e284b6e208a2b3954b31c9a7c6fb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 23/34] fix: do not lose samples at the buffer end when the
 buffer is short

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index e66f7eb..4f61564 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -287,7 +287,7 @@ class Simulator:
 
         # the else value (which happens when there is no processor) can be changed to just about anything. Could be set to 1, or 
         # set to a high value that can be used to speed up. 
-        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else self.sim_info.sim_buffer // 4  
+        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else max(1, self.sim_info.sim_buffer // 4)
 
         print("SIM START")
         self.n_tot = 0
-- 
2.43.0


From 2fd92155e22e60b7133c6fdf46ddb273b44d1f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 24/34] fix: do not export files when there is no figure folder

---
 src/aspsim/diagnostics/plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index f3b3f09..72c2542 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -204,6 +204,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
     """Keeps only the latest save.
     Assumes that the data in previous
     saves is present in the current data"""
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -219,6 +221,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def txt(name, diags, time_idx, folder, preprocess, print_method="pdf"):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -316,6 +320,8 @@ def matshow(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=None):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes the signal even if time indices are provided
-- 
2.43.0


From e2ecfd3447636320777d0911b2104ed458ea1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 25/34] fix: make the summary diagnostics usable with the
 current diagnostic interface

---
 src/aspsim/diagnostics/diagnosticsummary.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnosticsummary.py b/src/aspsim/diagnostics/diagnosticsummary.py
index 084364e..ceaa56c 100644
--- a/src/aspsim/diagnostics/diagnosticsummary.py
+++ b/src/aspsim/diagnostics/diagnosticsummary.py
@@ -66,7 +66,7 @@ class SummaryDiagnostic(diacore.Diagnostic):
             export_at = [save_at[1]]
             save_at = diacore.IntervalCounter(((save_at[0], save_at[1]),))
 
-        super().__init__(sim_info, block_size, export_at, save_at, export_func, keep_only_last_export, export_kwargs, preprocess)
+        super().__init__(sim_info, export_at, save_at, export_func, keep_only_last_export, export_kwargs, preprocess)
 
 
 
@@ -98,8 +98,8 @@ class SignalPowerRatioSummary(SummaryDiagnostic):
         self.plot_data["title"] = f"Ratio of power: {self.numerator_name} / {self.denom_name}. Samples: {self.save_range}"
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.num_power += np.sum(np.mean(np.abs(processor.sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
-        self.denom_power += np.sum(np.mean(np.abs(processor.sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0)) / self.num_samples
+        self.num_power += np.sum(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
+        self.denom_power += np.sum(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0)) / self.num_samples
 
         #self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
@@ -130,7 +130,7 @@ class SignalPowerSummary(SummaryDiagnostic):
         #self.plot_data["title"] = f"Power of {self.sig_name}. Samples: {self.save_range}"
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power += np.sum(np.mean(np.abs(processor.sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
+        self.power += np.sum(np.mean(np.abs(sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2, axis=0)) / self.num_samples
 
         #self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
@@ -169,7 +169,7 @@ class SignalPowerSpectrum(SummaryDiagnostic):
         
     def save(self, processor, sig, chunkInterval, globInterval):
         num_samples = chunkInterval[1] - chunkInterval[0]
-        self.power[:,self.sample_counter:self.sample_counter+num_samples] = np.abs(processor.sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2
+        self.power[:,self.sample_counter:self.sample_counter+num_samples] = np.abs(sig[self.sig_name][self.sig_channels, chunkInterval[0]:chunkInterval[1]])**2
 
         self.sample_counter += num_samples
         #self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
-- 
2.43.0


From 8b3e2d5085f528d51faaa22a576defd11005b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 26/34] fix: allow empty arrays when the shortest distance is
 calculated

---
 src/aspsim/room/roomimpulseresponse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index ea93a1e..cae52c6 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -89,6 +89,8 @@ class PathGenerator:
 
         shortest_distance = np.inf
         for src, mic in self.arrays.mic_src_combos():
+            if src.num == 0 or mic.num == 0:
+                continue
             shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
-- 
2.43.0


From e670edd3a1624d059e906f37f6f23bafce80b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 27/34] fix: allow moving microphones in a simulation without
 sources

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 669afa4..178c4fe 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -333,7 +333,8 @@ class ArrayCollection():
                 for src in self.sources():
                     if not src.name in already_updated:
                         self.update_path(src, self.arrays[ar_name])
-                self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
+                if self.names_src:
+                    self._rir_dynamic_all.append(self.paths[self.names_src[-1]][ar_name]) # for debugging only
             elif self.arrays[ar_name].is_source:
                 for mic in self.mics():
                     if not mic.name in already_updated:
-- 
2.43.0


From ff48c78ff74de92809a3984951305625ef6b0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 28/34] fix: draw random paths from the rng given to the setup

---
 src/aspsim/array.py                    | 12 ++++++------
 src/aspsim/room/roomimpulseresponse.py |  9 +++++++--
 src/aspsim/saveloadsession.py          |  4 ++--
 src/aspsim/simulator.py                |  6 +++---
 4 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 178c4fe..3db7155 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -231,7 +231,7 @@ class ArrayCollection():
 #     """
 #     rir.setup_ir(self, sim_info)
 
-    def setup_ir(self, sim_info):
+    def setup_ir(self, sim_info, rng=None):
         """Generates the impulse responses between all sources and microphones
 
         The method uses the path_type attribute to determine the type of propagation
@@ -241,7 +241,7 @@ class ArrayCollection():
         sim_info : SimInfo
             The simulation info object
         """
-        self.set_path_generator(sim_info)
+        self.set_path_generator(sim_info, rng)
 
         for src, mic in self.mic_src_combos():
             self.path_info[f"{src.name}->{mic.name}"] = {}
@@ -259,7 +259,7 @@ class ArrayCollection():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
         return self.path_info
 
-    def set_path_generator(self, sim_info):
+    def set_path_generator(self, sim_info, rng=None):
         """Prepares the collection for generating paths according to the config
         
         Parameters
@@ -268,9 +268,9 @@ class ArrayCollection():
             The simulation info object
         """
         self.sim_info = sim_info
-        self.path_generator = rir.PathGenerator(self.sim_info, self)
+        self.path_generator = rir.PathGenerator(self.sim_info, self, rng)
 
-    def use_paths_from(self, initialized, sim_info):
+    def use_paths_from(self, initialized, sim_info, rng=None):
         """Takes the paths from an initialized collection instead of generating them
 
         Paths that were set by the user are kept as they are. 
@@ -282,7 +282,7 @@ class ArrayCollection():
         sim_info : SimInfo
             The simulation info object
         """
-        self.set_path_generator(sim_info)
+        self.set_path_generator(sim_info, rng)
         for src, mic in self.mic_src_combos():
             if self.path_type[src.name][mic.name] != "modified":
                 self.paths[src.name][mic.name] = initialized.paths[src.name][mic.name]
diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index cae52c6..fb87ec6 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -36,7 +36,7 @@ import aspsim.room.generatepoints as gp
 #                 self.path_info[f"{src.name}->{mic.name}"][key] = val
 
 class PathGenerator:
-    def __init__(self, sim_info, arrays):
+    def __init__(self, sim_info, arrays, rng=None):
         """A class in charge of generating the impulse response between sources and microphones
 
         Parameters
@@ -45,6 +45,8 @@ class PathGenerator:
             The simulation info object
         arrays : ArrayCollection
             The array collection object
+        rng : numpy Generator object, optional
+            Used to generate the random paths
         
         Notes
         -----
@@ -54,6 +56,9 @@ class PathGenerator:
         """
         self.sim_info = sim_info
         self.arrays = arrays
+        if rng is None:
+            rng = np.random.default_rng()
+        self.rng = rng
 
         #self.filter_below = 50
         #self.filt_ir = spsig.firwin(2*int(0.05 * sim_info.samplerate) + 1, cutoff=self.filter_below, pass_zero="highpass", fs=sim_info.samplerate)
@@ -130,7 +135,7 @@ class PathGenerator:
             assert src.num == mic.num
             path = np.eye(src.num, mic.num)[...,None]
         elif reverb == "random":
-            path = np.random.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
+            path = self.rng.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
             if sim_info.spatial_dims == 3:
                 path = ir_room_image_source_3d(
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 84ac625..05752db 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -16,7 +16,7 @@ def save_session(session_folder, sim_info, arrays, sim_metadata=None, extraprefi
     if sim_metadata is not None:
         add_to_sim_metadata(session_path, sim_metadata)
 
-def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays):
+def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays, rng=None):
     """sessionsPath refers to the folder where all sessions reside 
         This function will load a session matching the chosenConfig 
         and chosenArrays if it exists"""
@@ -24,7 +24,7 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     print("Loaded Session: ", str(session_to_load))
     loaded_arrays = ar.load_arrays(session_to_load)
 
-    chosen_arrays.use_paths_from(loaded_arrays, chosen_sim_info)
+    chosen_arrays.use_paths_from(loaded_arrays, chosen_sim_info, rng)
     return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 4f61564..eb5d92d 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -190,13 +190,13 @@ class SimulatorSetup:
 
         if sim_info.auto_save_load and self.session_folder is not None:
             try:
-                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays)
+                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays, self.rng)
             except sess.MatchingSessionNotFoundError:
                 print("No matching session found")
-                ir_metadata = finished_arrays.setup_ir(sim_info)
+                ir_metadata = finished_arrays.setup_ir(sim_info, self.rng)
                 sess.save_session(self.session_folder, sim_info, finished_arrays, sim_metadata=ir_metadata)   
         else:
-            finished_arrays.setup_ir(sim_info)
+            finished_arrays.setup_ir(sim_info, self.rng)
 
         # LOGGING AND DIAGNOSTICS
         sim_info.save_to_file(folder_path)
-- 
2.43.0


From 267248bcc2ed1a127da5718c35f4cc99b0897b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 29/34] fix: describe the current source in the array metadata

---
 src/aspsim/array.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 3db7155..0df1c77 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -691,8 +691,6 @@ class FreeSourceArray(Array):
     def __init__(self, name, pos, source, **kwargs):
         super().__init__(name, pos, **kwargs)
         self.set_source(source)
-
-        self.metadata["source info"] = self.source.metadata
     
     def reset_state(self):
         self.source = copy.deepcopy(self.source)
@@ -704,6 +702,7 @@ class FreeSourceArray(Array):
     def set_source(self, source):
         assert source.num_channels == self.num
         self.source = source
+        self.metadata["source info"] = self.source.metadata
 
 
 
-- 
2.43.0


From a816494f04f17340b306a9156cb78fbbe48a21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 30/34] fix: describe the current groups in the array metadata

---
 src/aspsim/array.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 0df1c77..8aa9afd 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -584,6 +584,7 @@ class Array(ABC):
         """
         self.num_groups = len(group_idxs)
         self.group_idxs = group_idxs
+        self.metadata["number of groups"] = self.num_groups
 
     def plot(self, ax, sim_info):
         if self.dynamic:
-- 
2.43.0


From 4eb0c74bc1c9816bfa004e872cdc25c70ecb8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 31/34] fix: plot arrays in soundfield images

---
 src/aspsim/diagnostics/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 72c2542..799c18c 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -255,7 +255,7 @@ def soundfield(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
         if diag.plot_arrays is not None:
             for plot_ar in diag.plot_arrays:
-                plot_ar.plot(ax)
+                plot_ar.plot(ax, diag.sim_info)
         legend_without_duplicates(ax, "upper right")
 
     output_plot(print_method, folder, f"{name}_{time_idx}")
-- 
2.43.0


From 2728a5334c374a6deee728e6b6cb1d61cffa4389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 32/34] fix: load audio files without resampling or with all
 channels

---
 src/aspsim/signal/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 18317b6..abefc89 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -293,19 +293,19 @@ def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=Fal
     if num_channels is not None:
         audio = audio[:num_channels, :]
 
-    if desired_sr != audio_sr:
+    if desired_sr is not None and desired_sr != audio_sr:
         assert audio_sr > desired_sr
         if audio_sr % desired_sr == 0:
             down_factor = audio_sr // desired_sr
             up_factor = 1
         else:
             up_factor, down_factor = coreutil.simplify_ratio(desired_sr, audio_sr)
-        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(num_channels)]
+        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(audio.shape[0])]
         audio = np.stack(audio_downsampled, axis=0)
         # srAudio = srAudio // downsamplingFactor
         if verbose:
             print(f"AudioFileSource downsampled audio file from \
-                    {audio_sr} to {audio_sr // down_factor} Hz")
+                    {audio_sr} to {desired_sr} Hz")
 
     return audio
 
-- 
2.43.0


From fd44568c7b7cdcffa3a745b3862ec5a53f12d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 33/34] fix: plot circular trajectories with short periods

---
 src/aspsim/room/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index 81c4493..dbf9683 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -252,7 +252,7 @@ class CircularTrajectory(Trajectory):
         
         approx_num_points = 1000
         max_samples = self.samplerate*max(self.radial_period, self.angle_period)
-        samples_per_point = max_samples // approx_num_points
+        samples_per_point = max(max_samples // approx_num_points, 1)
         t = np.arange(0, max_samples, samples_per_point)
         num_points = t.shape[0]
 
-- 
2.43.0


From 04cb187eae2d0a491f52c380b69bfa1aca8c7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 34/34] fix: use a simulator's own acoustic constants for its
 impulse responses

---
 src/aspsim/room/roomimpulseresponse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index fb87ec6..addac91 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -102,6 +102,7 @@ class PathGenerator:
         self.min_dly = 0
         frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
         pra.constants.set("frac_delay_length",frac_dly_len)
+        self.frac_dly_len = frac_dly_len
         #if verbose:
         if frac_dly_len < 20:
             print("WARNING: fractional delay length: ",frac_dly_len)
@@ -138,6 +139,10 @@ class PathGenerator:
             path = self.rng.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
             if sim_info.spatial_dims == 3:
+                # The constants are shared by everything using pyroomacoustics, and could have been
+                # changed by the PathGenerator of another simulation
+                pra.constants.set("c", sim_info.c)
+                pra.constants.set("frac_delay_length", self.frac_dly_len)
                 path = ir_room_image_source_3d(
                         src.pos, 
                         mic.pos, 
-- 
2.43.0

