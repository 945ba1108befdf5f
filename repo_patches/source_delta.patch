From 74c55f1c2846d596e30d773715ca077db873f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:56 +0000
Subject: [PATCH 01/52] fix: take_snapshot/trajectories_in_frame work again
 (np.int64_ gone, live keys view, float frame index)

---
 flowtracks/trajectory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 0d1499c..a06d265 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -264,7 +264,7 @@ def trajectories_in_frame(trajects, frame_num,
     
     if len(cand_nums) > 0:
         # Filter candidates with overlapping particles.
-        frm_ixs = frame_num - start_times[cands]
+        frm_ixs = (frame_num - start_times[cands]).astype(np.int64)
         pos = np.array([trajects[trix].pos()[frm] \
             for trix, frm in zip(cand_nums, frm_ixs)])
         
@@ -300,13 +300,13 @@ def take_snapshot(trajects, frame, schema):
         dtype=trajects[0].__dict__['_' + k].dtype)) \
         for k, v in schema.items())
 
-    copy_keys = kwds.keys()
-    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64_)
+    copy_keys = list(kwds.keys())
+    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
-        first_frame = traj.time()[0]
+        frame_ix = int(frame - traj.time()[0])
         for prop in copy_keys:
-            kwds[prop][trix] = traj.__dict__[prop](frame - first_frame)
+            kwds[prop][trix] = traj.__dict__[prop](frame_ix)
 
         kwds['trajid'][trix] = traj.trajid()
     
-- 
2.43.0


From 75bbad1c59c5dd07e366ccec07e8bfff0b47f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:18 +0000
Subject: [PATCH 02/52] fix: one-component columns in HDF tables are scalar
 again with current NumPy

(name, type, 1) used to mean a scalar field; NumPy 2 makes it a (1,)-shaped
one, which broke saving particle tables, saving frames and analysis.
---
 flowtracks/analysis.py   |  5 +++--
 flowtracks/io.py         |  8 ++++----
 flowtracks/trajectory.py | 15 +++++++++++++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 604b77c..edc67ac 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -14,6 +14,7 @@ fluid velocity around a particle from its surrounding tracers.
 """
 
 import numpy as np, tables
+from .trajectory import record_dtype
 
 def companion_indices(trids, companions):
     """
@@ -117,7 +118,7 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
     descr = [('trajid', int, 1), ('time', int, 1)]
     for analyser in analysers:
         descr.extend(analyser.descr())
-    descr = np.dtype(descr)
+    descr = record_dtype(descr)
     
     outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
     table = outfile.create_table('/', 'analysis', descr)
@@ -135,7 +136,7 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
             this_descr = analyser.descr()
             
             for res, desc in zip(analysis, this_descr):
-                arr[desc[0]] = res
+                arr[desc[0]] = np.reshape(res, arr[desc[0]].shape)
         
         table.append(arr)
     
diff --git a/flowtracks/io.py b/flowtracks/io.py
index e5d2183..1cd80df 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -25,7 +25,7 @@ import tables
 
 from .scene import Scene
 from .particle import Particle
-from .trajectory import Trajectory, mark_unique_rows, \
+from .trajectory import Trajectory, mark_unique_rows, record_dtype, \
     Frame, take_snapshot, trajectories_in_frame
 
 
@@ -708,7 +708,7 @@ def save_particles_table(filename, trajects, trim=None):
             # Format of records in a trajectory array :
             fields = [('trajid', int, 1)] + [(field,) + desc \
                 for field, desc in traj.ext_schema().items()]
-            dtype = np.dtype(fields)
+            dtype = record_dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
 
         arr = np.empty(len(traj) - trim_len, dtype=dtype)
@@ -757,7 +757,7 @@ def save_frames_hdf(filename, frames):
             # Format of records in a frame array:
             fields = [('time', int, 1)] + [(field,) + desc \
                 for field, desc in frame.ext_schema().items()]
-            dtype = np.dtype(fields)
+            dtype = record_dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
         
         min_pos = np.min(np.vstack((min_pos, frame.pos())), axis=0)
@@ -788,7 +788,7 @@ def save_frames_hdf(filename, frames):
     table.cols.time.create_index()          
     
     bounds_tab = outfile.create_table('/', 'bounds', 
-        np.dtype([('trajid', int, 1), ('first', int, 1), ('last', int, 1)]))
+        np.dtype([('trajid', int), ('first', int), ('last', int)]))
     for trid, bounds in ongoing_trajects.items():
         bounds_tab.append([(trid, bounds[0], bounds[1])])
     bounds_tab.cols.trajid.create_index()
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index a06d265..aff2471 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -217,6 +217,21 @@ class ParticleSnapshot(ParticleSet):
         return self._t
 
 
+def record_dtype(fields):
+    """
+    Build the record type of a table of particles.
+    
+    Arguments:
+    fields - a list of tuples (name, type, row length), as formed from the 
+        items of :meth:`~.ParticleSet.ext_schema`. Items of length 1 are 
+        scalar columns.
+    
+    Returns:
+    the corresponding NumPy dtype object.
+    """
+    return np.dtype([(name, tp) if length == 1 else (name, tp, length) \
+        for name, tp, length in fields])
+
 def mark_unique_rows(all_rows):
     """
     Filter out rows whose position columns represent a particle that already
-- 
2.43.0


From 3c2b92576a445027f0906ac94f00c1b1ff603738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:18 +0000
Subject: [PATCH 03/52] fix: save_particles_table accepts trim=0

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 1cd80df..e29ee63 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -715,7 +715,7 @@ def save_particles_table(filename, trajects, trim=None):
         arr['trajid'] = traj.trajid()
         
         for k, v in traj.as_dict().items():
-            if trim is None:
+            if trim_len == 0:
                 arr[k] = v
             else:
                 arr[k] = v[trim:-trim]
-- 
2.43.0


From 15ee1b20b46eaf6388ac42a47e81e3059ec12945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:18 +0000
Subject: [PATCH 04/52] fix: Scene.collect accepts a selection when no frame
 range is set

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 755af63..e6855f3 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -313,7 +313,7 @@ class Scene(object):
         a list of arrays, in the order of ``keys``.
         """
         # Compose query to PyTables engine:
-        conds = [self._frame_limit]
+        conds = [] if self._frame_limit == '' else [self._frame_limit]
         if where is not None:
             for key, rng in where.items():
                 conds.append(gen_query_string(key, rng))
-- 
2.43.0


From bd10d52f1dd24937d2e7055694ca7480b8bbc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:18 +0000
Subject: [PATCH 05/52] fix: selection bounds keep full precision in query
 strings

%g rounded the bounds to 6 significant digits, so that rows near the bound
(e.g. frame numbers above a million) were wrongly selected.
---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index e6855f3..0769704 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,7 +59,7 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %g) %s (%s %s %g))" % \
+    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
         (key, cop1, smin, lop, key, cop2, smax)
     
     return cond_string
-- 
2.43.0


From 9e02cda41ac4def093e7f49246a0b75ff964495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:18 +0000
Subject: [PATCH 06/52] fix: AnalysedScene.collect works on Python 3 and with
 conditions on particle properties

---
 flowtracks/an_scene.py | 4 ++--
 flowtracks/scene.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 7d198ee..8f288fa 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-import tables, itertools as it, numpy as np
+import tables, numpy as np
 from .scene import read_dual_scene, gen_query_string
 from .trajectory import Trajectory
 
@@ -108,7 +108,7 @@ class AnalysedScene(object):
         # divided conditions.
         res = dict((k, []) for k in keys)
         
-        dframe_it = it.izip(
+        dframe_it = zip(
             self._scene.get_particles()._iter_frame_arrays(part_cond),
             self._iter_frame_arrays(an_cond))
             
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 0769704..81fad7a 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -230,7 +230,7 @@ class Scene(object):
         """
         query_string = '(time == t)'
         if cond is not None:
-            query_string = '&'.join(query_string, cond)
+            query_string = '&'.join([query_string, cond])
             
         for t in range(self._first, self._last):
             yield t, self._table.read_where(query_string)
-- 
2.43.0


From 52ff40b5b36cabefdd34b43c6755f9a4d5527c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:34 +0000
Subject: [PATCH 07/52] fix: iter_segments gives the same particle in the same
 row of both frames

Tables saved frame by frame may list particles in a different order in each
frame, in which case the two snapshots of a segment did not correspond.
---
 flowtracks/scene.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 81fad7a..e341126 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -285,6 +285,11 @@ class Scene(object):
             if len(in_next_arr) > 0:
                 next_arr = next_arr[in_next_arr]
             
+            # The row order may change between frames, follow the first one's.
+            next_rows = dict((tr, row) \
+                for row, tr in enumerate(next_arr['trajid']))
+            next_arr = next_arr[[next_rows[tr] for tr in arr['trajid']]]
+            
             # format as ParticleSnapshot.
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'time')
-- 
2.43.0


From d6e3069ae260a1e7d97427c6f884fdc8e9fd0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:50 +0000
Subject: [PATCH 08/52] fix: DualScene restores its frame range when an
 iteration is abandoned

---
 flowtracks/scene.py | 57 ++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index e341126..2d466c5 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -428,17 +428,18 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for particles, tracers in zip(
-            self._particles.iter_frames(), self._tracers.iter_frames()):
-            frame = Frame()
-            frame.tracers = tracers
-            frame.particles = particles
-            yield frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for particles, tracers in zip(
+                self._particles.iter_frames(), self._tracers.iter_frames()):
+                frame = Frame()
+                frame.tracers = tracers
+                frame.particles = particles
+                yield frame
+        finally:
+            # restore original frame range, also if iteration is abandoned.
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
     
     def iter_segments(self, frame_range=-1):
         """
@@ -460,22 +461,24 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for part_frames, tracer_frames in zip(
-            self._particles.iter_segments(), self._tracers.iter_segments()):
-            frame = Frame()
-            frame.tracers = tracer_frames[0]
-            frame.particles = part_frames[0]
-            
-            next_frame = Frame()
-            next_frame.tracers = tracer_frames[1]
-            next_frame.particles = part_frames[1]
-            
-            yield frame, next_frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for part_frames, tracer_frames in zip(
+                self._particles.iter_segments(), 
+                self._tracers.iter_segments()):
+                frame = Frame()
+                frame.tracers = tracer_frames[0]
+                frame.particles = part_frames[0]
+                
+                next_frame = Frame()
+                next_frame.tracers = tracer_frames[1]
+                next_frame.particles = part_frames[1]
+                
+                yield frame, next_frame
+        finally:
+            # restore original frame range, also if iteration is abandoned.
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
 
 def read_dual_scene(conf_fname):
     """
-- 
2.43.0


From 50319ea2fe6c0c3adb0a901caa26e3bbd59ff718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 09/52] fix: Sequence iterates on Python 3, and a subrange ends
 with its iteration

The iterator protocol method was named next(); the tracers' schema was missing
if tracer_trajectories() had been called before iterating; and abandoning a
subrange iteration made later full iterations use the subrange.
---
 flowtracks/sequence.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index dde3457..e584bf7 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -5,6 +5,7 @@ from .io import trajectories, infer_format
 from .particle import Particle
 from .trajectory import take_snapshot, trajectories_in_frame, Frame
 from configparser import ConfigParser
+import copy
 import numpy as np
 
 class Sequence(object):
@@ -168,8 +169,6 @@ class Sequence(object):
         # Make sure the particle trajectory cache is populated.
         self.particle_trajectories()
         self.__schema = self.__ptraj[0].schema()
-        if not (self.__ttraj is None):
-            return self
         
         # Make sure the tracers cache is populated:
         self.tracer_trajectories()
@@ -190,10 +189,16 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        self._act_rng = (first, last)
-        return self
+        # Make sure the caches are populated, so they are shared.
+        self.particle_trajectories()
+        self.tracer_trajectories()
+        
+        # The subrange must not outlive its iteration, even if abandoned.
+        sub = copy.copy(self)
+        sub._act_rng = (first, last)
+        return sub
     
-    def next(self):
+    def __next__(self):
         if self._frame == self._act_rng[1]:
             del self._act_rng
             raise StopIteration
@@ -220,6 +225,8 @@ class Sequence(object):
         
         return frame, next_frame
     
+    next = __next__
+    
     def map_trajectories(self, func, subrange=None, history=False, args=()):
         """
         Iterate over frames, for each frame call a function that generates a
-- 
2.43.0


From bda9ee678414a1064407c42dae37b749ef19bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 10/52] fix: read_sequence reads back the default trajectory
 length limit it saved

The default limit is saved as '0.0', which getint() does not accept.
---
 flowtracks/sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index e584bf7..b3c881d 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -354,7 +354,8 @@ def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     # Same goes for traj_min_len
     if parser.has_option("Scene", "trajectory minimal length"):
         if traj_min_len is None:
-            traj_min_len = parser.getint("Scene", "trajectory minimal length")
+            traj_min_len = int(parser.getfloat("Scene", 
+                "trajectory minimal length"))
     else:
         if traj_min_len is None:
             traj_min_len = 0
-- 
2.43.0


From 463ff7db68126b14fc6740eda6f30bf26be39bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 11/52] fix: an interpolant's saved configuration can be read
 back

An unset radius was saved as 'None', and the parameter of 'corrfun', a file
name, was read as a number.
---
 flowtracks/interpolation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2f843fd..e8079ad 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -595,9 +595,13 @@ class GeneralInterpolant(object):
         """
         if not cfg.has_section("Interpolant"):
             cfg.add_section("Interpolant")
-        cfg.set('Interpolant', 'radius', str(self.radius()))
+        if self.radius() is None:
+            cfg.remove_option('Interpolant', 'radius')
+        else:
+            cfg.set('Interpolant', 'radius', str(self.radius()))
         cfg.set('Interpolant', 'num_neighbs', str(self.num_neighbs()))
-        cfg.set('Interpolant', 'param', str(self._par))
+        # File names may contain ConfigParser's 'magic variables' sign.
+        cfg.set('Interpolant', 'param', str(self._par).replace('%', '%%'))
         cfg.set('Interpolant', 'method', self._method)
 
 class InverseDistanceWeighter(GeneralInterpolant):
@@ -793,7 +797,10 @@ def read_interpolant(conf_fname):
         kwds['num_neighbs'] = parser.getint('Interpolant', 'num_neighbs')
     if parser.has_option('Interpolant', 'radius'):
         kwds['radius'] = parser.getfloat('Interpolant', 'radius')
+    method = parser.get('Interpolant', 'method')
     if parser.has_option('Interpolant', 'param'):
-        kwds['param'] = parser.getfloat('Interpolant', 'param')
+        # For 'corrfun' it is a file name.
+        read_param = parser.get if method == 'corrfun' else parser.getfloat
+        kwds['param'] = read_param('Interpolant', 'param')
     
-    return interpolant(parser.get('Interpolant', 'method'), **kwds)
+    return interpolant(method, **kwds)
-- 
2.43.0


From e719ec717e85a5accc01fa18fb49c093091452f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:08 +0000
Subject: [PATCH 12/52] fix: analyse_fhdf.py passes --param as the method's
 parameter, not as radius

---
 scripts/analyse_fhdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/analyse_fhdf.py b/scripts/analyse_fhdf.py
index 3567302..a8b7fed 100644
--- a/scripts/analyse_fhdf.py
+++ b/scripts/analyse_fhdf.py
@@ -27,7 +27,10 @@ if __name__ == "__main__":
         "parameter. Inverse power for inv, epsilon for RBF, filename for corrfun")
     args = parser.parse_args()
     
-    interp = interpolant(args.method, args.neighbs, args.param)
+    param = args.param
+    if param is not None and args.method != 'corrfun':
+        param = float(param)
+    interp = interpolant(args.method, args.neighbs, param=param)
     scene = read_dual_scene(args.config)
     analysers = [ FluidVelocitiesAnalyser(interp) ]
     analysis(scene, args.output, args.config, analysers)
-- 
2.43.0


From 1b275a321b13561af461d09b8069f9196fc9411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:16 +0000
Subject: [PATCH 13/52] fix: an interpolant's cached weights and matched data
 follow scene changes

After changing the field positions, the inverse-distance weights of the old
positions were still used; after changing the data, the Jacobian was computed
from the old data; trimming points left some caches (and the companions) at
their old length.
---
 flowtracks/interpolation.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index e8079ad..928cf13 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -320,6 +320,7 @@ class GeneralInterpolant(object):
             else:
                 data = data[None, :]
         self.__data = data
+        self.__matched_data = None
     
     def trim_points(self, which):
         """
@@ -334,6 +335,12 @@ class GeneralInterpolant(object):
         if self.__dists is not None:
             self.__dists = self.__dists[keep]
             self.__active_neighbs = self.__active_neighbs[keep]
+            self.__has_data = self.__has_data[keep]
+            self.__rel_pos = self.__rel_pos[keep]
+        if self.__matched_data is not None:
+            self.__matched_data = self.__matched_data[keep]
+        if self.__comp is not None:
+            self.__comp = self.__comp[keep]
     
     def _select_neighbs(self, interp_pts, comp=None):
         """
@@ -667,6 +674,17 @@ class InverseDistanceWeighter(GeneralInterpolant):
             return
         
         self._forego_laziness()
+    
+    def _drop_neighbours_cache(self):
+        GeneralInterpolant._drop_neighbours_cache(self)
+        self.__weights = None
+    
+    def _forego_laziness(self):
+        """
+        Adds to the base class the calculation of weights, so that they always
+        belong to the recorded neighbours.
+        """
+        GeneralInterpolant._forego_laziness(self)
         self.__weights = self.weights(self.current_dists(), 
             self.current_active_neighbs())
     
@@ -679,7 +697,8 @@ class InverseDistanceWeighter(GeneralInterpolant):
             (as given in set_scene), True to trim a point, False to keep.
         """
         GeneralInterpolant.trim_points(self, which)
-        self.__weights = self.__weights[~which]
+        if self.__weights is not None:
+            self.__weights = self.__weights[~which]
         
     def _apply_weights(self, weights, data):
         """
-- 
2.43.0


From 7f59a99cc5ccdf7c9cc1c464ad993b57677855cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:16 +0000
Subject: [PATCH 14/52] fix: missing neighbours do not bring uninitialised
 memory into interpolation

Their weight is 0, but 0 times a garbage NaN or infinity is NaN. Also, the
Jacobian's matched data has the dimension of the data, not of space.
---
 flowtracks/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 928cf13..8165355 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -382,7 +382,7 @@ class GeneralInterpolant(object):
             self.__interp_pts, self.__comp)
         
         self.__has_data = self.__active_neighbs < self.__tracers.shape[0]
-        matched_pos = np.empty(
+        matched_pos = np.zeros(
             self.__active_neighbs.shape + (self.__tracers.shape[1],))
         matched_pos[self.__has_data] = \
             self.__tracers[self.__active_neighbs[self.__has_data]]
@@ -420,8 +420,8 @@ class GeneralInterpolant(object):
         Calculate or retrieve cache of data in (m,k,d) structure.
         """
         if self.__matched_data is None:
-            self.__matched_data = np.empty(
-                self.__active_neighbs.shape + (self.__tracers.shape[1],))
+            self.__matched_data = np.zeros(
+                self.__active_neighbs.shape + (self.__data.shape[1],))
             self.__matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
         return self.__matched_data
@@ -753,7 +753,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             matched_data = self._ensure_matched_data()
         else:
             data = self.current_data()
-            matched_data = np.empty(act_neighbs.shape + (data.shape[1],))
+            matched_data = np.zeros(act_neighbs.shape + (data.shape[1],))
             has_data = act_neighbs < data.shape[0]
             matched_data[has_data] = data[act_neighbs[has_data]]
         
-- 
2.43.0


From d60242a320fc7759e8d03ab6daf37f918f3d8138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 15/52] fix: neighbour search when a point has both a
 coincident tracer and a companion

Removing both left too few neighbours for the point, so that the search failed
or neighbours were attributed to other points.
---
 flowtracks/interpolation.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 8165355..91f67c2 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -358,16 +358,24 @@ class GeneralInterpolant(object):
         use_part - (m,k) array, the respective indices. Missing neighbours are
             represented by the total number of data points.
         """
+        # Take two more neighbours because two may be removed, one for being in
+        # the same position as the interp point and one for being its companion
+        # (otherwise, the extra farthest neighbours are removed).
         dists, active_neighbs = self.__field_tree.query(
-            interp_pts, self._neighbs + 1, distance_upper_bound=self._upb)
+            interp_pts, self._neighbs + 2, distance_upper_bound=self._upb)
         keep = dists > 0.
         
         if comp is not None:
             keep &= active_neighbs != comp[:, None]
         
-        keep[np.all(keep, axis=1), -1] = False
-        dists = dists[keep].reshape(-1, self._neighbs)
-        active_neighbs = active_neighbs[keep].reshape(-1, self._neighbs)
+        # Removed neighbours go last, the others remain ordered by distance.
+        order = np.argsort(~keep, axis=1, kind='stable')[:, :self._neighbs]
+        keep = np.take_along_axis(keep, order, axis=1)
+        dists = np.where(keep, 
+            np.take_along_axis(dists, order, axis=1), np.inf)
+        active_neighbs = np.where(keep, 
+            np.take_along_axis(active_neighbs, order, axis=1),
+            self.__tracers.shape[0])
         
         return dists, active_neighbs
         
@@ -375,9 +383,6 @@ class GeneralInterpolant(object):
         """
         Populate the neighbours cache.
         """
-        # Take one more neighbour because one will be removed, either for 
-        # being in the same position as the interp points or being its 
-        # companion (worst case, the extra farthest neighbour is removed).
         self.__dists, self.__active_neighbs = self._select_neighbs(
             self.__interp_pts, self.__comp)
         
-- 
2.43.0


From c19504b8990ad15a396c9b95d8d8a9c0ac69f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 16/52] fix: select_neighbs never selects a companion or
 coincident tracer

With no more tracers than requested neighbours, the excluded ones were selected
anyway, at zero distance.
---
 flowtracks/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 91f67c2..6a4dac5 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -69,6 +69,7 @@ def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
         use_parts[
             np.repeat(np.arange(interp_points.shape[0]), eff_num_neighbs),
             dist_sort[:, :num_neighbs].flatten()] = True
+        use_parts &= ~np.isinf(dists)
 
     else:
         use_parts = dists < radius
@@ -592,7 +593,8 @@ class GeneralInterpolant(object):
         
         for pt in range(interp_points.shape[0]):
             # allow assignment of less than the desired number of neighbours.
-            ndists[pt] = dists[pt, use_parts[pt]]
+            pt_dists = dists[pt, use_parts[pt]]
+            ndists[pt, :len(pt_dists)] = pt_dists
         
         return ndists
     
-- 
2.43.0


From 86ddac8e8da87153d930d35681036eb1e988bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 17/52] fix: rbf and corrfun interpolation over a recorded
 scene use the right tracers

The neighbours' indices were taken for a mask, so that the data and kernel of
the first tracers were used instead of the neighbours'; companions also zeroed
tracer-to-tracer distances.
---
 flowtracks/interpolation.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 6a4dac5..f07ef0b 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -396,8 +396,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             self.__tracer_dists, _ = select_neighbs(
-                self.__tracers, self.__tracers, self._radius, self._neighbs,
-                self.__comp)
+                self.__tracers, self.__tracers, self._radius, self._neighbs)
                 
     def current_relative_positions(self):
         """
@@ -476,12 +475,22 @@ class GeneralInterpolant(object):
             selection is not changed, so ``subset`` is forgotten after the
             call.
         """
+        # The functions below need a relation of points to all tracers. The
+        # extra column collects the missing neighbours.
+        rows = np.arange(act_neighbs.shape[0])[:, None]
+        full_shape = (act_neighbs.shape[0], self.__tracers.shape[0] + 1)
+        use_parts = np.zeros(full_shape, dtype=bool)
+        use_parts[rows, act_neighbs] = True
+        dists = np.zeros(full_shape)
+        dists[rows, act_neighbs] = self.__dists
+        use_parts, dists = use_parts[:, :-1], dists[:, :-1]
+        
         if self._method == 'rbf':
-            return rbf_interp(self.__tracer_dists, self.__dists, act_neighbs,
+            return rbf_interp(self.__tracer_dists, dists, use_parts,
                               self.__data, self._par)
         
         if self._method == 'corrfun':
-            return corrfun_interp(self.__dists, act_neighbs, self.__data, 
+            return corrfun_interp(dists, use_parts, self.__data, 
                                   self._corrs, self._bins)
         
         # This isn't supposed to ever happen. The constructor should fail.
@@ -525,7 +534,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             tracer_dists = select_neighbs(tracer_pos, tracer_pos, 
-                self._radius, self._neighbs, companionship)[0]
+                self._radius, self._neighbs)[0]
             return rbf_interp(tracer_dists, dists, use_parts, data, self._par)
         
         elif self._method == 'corrfun':
-- 
2.43.0


From d08b7438841d4b1091640026a63b31214fd5e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 18/52] fix: corrfun interpolation accepts a one-component
 correlation histogram

---
 flowtracks/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index f07ef0b..dbe757c 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -101,8 +101,9 @@ def corrfun_interp(dists, use_parts, data, corrs_hist, corrs_bins):
         interpolation point, [units of ``data``].
     """
     weights = np.zeros(dists.shape + (data.shape[-1],))
-    weights[use_parts] = corrs_hist[
+    corrs = corrs_hist[
         np.digitize(dists[use_parts].flatten(), corrs_bins) - 1]
+    weights[use_parts] = corrs[:, None] if corrs.ndim < 2 else corrs
     
     vel_avg = (weights * data[None, ...]).sum(axis=1) / \
         weights.sum(axis=1)
-- 
2.43.0


From 71203c869f8f59377be6517938fd13ac015cd5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 19/52] fix: particle_pairs answers in request order and takes
 float start times

---
 flowtracks/pairs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index ff63183..6e79deb 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -68,6 +68,13 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
             axis=2)
         pair_ixs = np.argmin(dists_sq, axis=1)
+        
+        # The snapshot is ordered by trajectory list, not by request order.
+        prim_rows = dict((trid, row) \
+            for row, trid in enumerate(prim_parts.trajid()))
+        pair_ixs = pair_ixs[[prim_rows[trid] \
+            for trid in trajids[coord_locator]]]
+        
         pair_trids[coord_locator] = sec_parts.trajid(pair_ixs)
         pair_time[coord_locator] = frame_num # later transformed.
     
@@ -77,6 +84,6 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
     for traj in secondary_trajects:
         trid = traj.trajid()
         if trid not in unique_sec: continue
-        pair_time[pair_trids == trid] -= traj.time(0)
+        pair_time[pair_trids == trid] -= int(traj.time(0))
         
     return pair_trids, pair_time
-- 
2.43.0


From 4e932da9ffa35f337bb9d75c231c1d6906e60849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:28 +0000
Subject: [PATCH 20/52] fix: xuap files with further columns can be read

---
 flowtracks/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index e29ee63..f4b46a0 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -41,8 +41,10 @@ class FramesIterator(object):
             numbering.
         """
         self._frmix = 0
+        # Some files have further columns, that are not part of the structure.
+        cols = range(sum(int(np.prod(fmt[name].shape)) for name in fmt.names))
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
+            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip, usecols=cols))
         
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
-- 
2.43.0


From e223b64a07c8fc3db3c73b5a72546a0694e48c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 21/52] fix: frame files are matched by their whole name, with
 any template form

---
 flowtracks/io.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index f4b46a0..a863b15 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -29,6 +29,19 @@ from .trajectory import Trajectory, mark_unique_rows, record_dtype, \
     Frame, take_snapshot, trajectories_in_frame
 
 
+def data_file_pattern(basename):
+    """
+    Arguments:
+    basename - template file name without its directory, with exactly one '%d' 
+        representing the frame number (width specification is allowed).
+    
+    Returns:
+    a compiled regular expression matching only whole names that are generated
+    from the template, whose only group is the frame number.
+    """
+    before, after = re.split(r'%\d*d', basename, maxsplit=1)
+    return re.compile(re.escape(before) + r'(\d+)' + re.escape(after) + '$')
+
 class FramesIterator(object):
     def __init__(self, fname_tmpl, fmt, skip, first=None, last=None):
         """
@@ -47,12 +60,12 @@ class FramesIterator(object):
             np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip, usecols=cols))
         
         dirname, basename = os.path.split(fname_tmpl)
-        is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+        is_data_file = data_file_pattern(basename)
 
         # Collect existing frames. This is necessary to ensure that frames are
         # processed in the correct order.
         self._frame_nums = []
-        for name in os.listdir(dirname):
+        for name in os.listdir(dirname or '.'):
             match = is_data_file.match(name)
             if match is None: continue
             frame = int(match.group(1))
-- 
2.43.0


From 335e56b8ce9fe930ed597e8b12c79641e6b93ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:31 +0000
Subject: [PATCH 22/52] fix: single-file ptv_is frames of one particle are not
 dropped

---
 flowtracks/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index a863b15..044207a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -109,7 +109,8 @@ class SingleFileIterator(object):
         """
         self._frmix = 0
         self._f = open(fname, 'r')
-        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt)
+        self._read_frame = lambda str_tbl: np.atleast_1d(
+            np.loadtxt(str_tbl, dtype=fmt))
     
     def __iter__(self):
         return self
@@ -138,7 +139,7 @@ class SingleFileIterator(object):
         self._frmix += 1
         return curframenum, frame
     
-    def __def__(self):
+    def __del__(self):
         self._f.close()
     
 def collect_particles(fname_tmpl, frame, path_seg=False):
-- 
2.43.0


From bbfd8f3bc8dfed2d745b054f610bd11ff0eb023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 23/52] fix: trajectories_acc reads all files of the inclusive
 range, in frame order

---
 flowtracks/io.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 044207a..8c14a9d 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -239,18 +239,22 @@ def trajectories_acc(fname, first=None, last=None):
     """
     trajects = []
     dirname, basename = os.path.split(os.path.expanduser(fname))
-    is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+    is_data_file = data_file_pattern(basename)
     
-    for fname in os.listdir(dirname):
-        match = is_data_file.match(fname)
+    data_files = []
+    for name in os.listdir(dirname or '.'):
+        match = is_data_file.match(name)
         if match is None: continue
         frame = int(match.group(1))
         
         if first is not None and frame < first: continue
-        if last is not None and frame >= last: break
-        
-        table = np.loadtxt(os.path.join(dirname, fname),
-            usecols=(0,1,2,3,4,5,6,7,8,33))
+        if last is not None and frame > last: continue
+        data_files.append((frame, name))
+    
+    # Directory listing is in no particular order.
+    for frame, name in sorted(data_files):
+        table = np.loadtxt(os.path.join(dirname, name),
+            usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
         traj_starts = np.nonzero(table[:,-1] == 0)[0]
         traj_ends = np.r_[traj_starts[1:], table.shape[0]]
         
-- 
2.43.0


From 34d44b5120f1a1020e8bba80643ecfaa0824e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 24/52] fix: collect_particles looks in all earlier files

---
 flowtracks/io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 8c14a9d..3675525 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -167,7 +167,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
     fname_tmpl = os.path.expanduser(fname_tmpl)
     
     while os.path.exists(fname_tmpl % cur_frame):
-        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33))
+        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33),
+            ndmin=2)
         path_age = frame - cur_frame
         
         if path_seg is True:
@@ -178,10 +179,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
         else:
             in_frame = table[table[:,-1] == path_age]
         
-        # When no previous path is long enough to reach ``frame``:
-        if in_frame.shape[0] == 0:
-            break
-        
+        # A file without a path long enough to reach ``frame`` says nothing 
+        # about the files before it.
         selected.append(in_frame)
         cur_frame -= 1
     
-- 
2.43.0


From 55db725ca84c26008781e95219e3bfce84e239e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 25/52] fix: trajectories() from HDF includes the last frame,
 and may be iterated

---
 flowtracks/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 3675525..dde84a0 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -15,7 +15,7 @@ The rest of the content of this module is composed of readers and writers for
 the various formats. They are documented here alongside the main entry points,
 so that users may access them directly if needed.
 """
-import os, os.path, re, itertools as itr
+import os, os.path, re
 from configparser import ConfigParser
 from io import StringIO
 
@@ -521,8 +521,10 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len=traj_min_len)
     
     elif fmt == 'hdf':
-        scene = Scene(fname, (first, last))
-        it = scene.iter_trajectories()
+        # The scene's range excludes its end. Also, it has trajectories that
+        # have no points in the range.
+        scene = Scene(fname, (first, None if last is None else last + 1))
+        it = (tr for tr in scene.iter_trajectories() if len(tr) > 0)
         if iter_allowed:
             traj = it
         else:
@@ -533,7 +535,7 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len = 2
         
         if iter_allowed:
-            traj = itr.ifilter(lambda tr: len(tr) >= traj_min_len, traj)
+            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
         else:
             traj = [tr for tr in traj if len(tr) >= traj_min_len]
     
-- 
2.43.0


From b64fd077c0e5f9ee1ba1528e755fa33c8d90dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 26/52] fix: single-frame trajectories of the first ptv_is
 frame are not lost

---
 flowtracks/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index dde84a0..3b54e87 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -336,10 +336,10 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
     
     # Single-frame trajectories in first frame:
     ending = table['next'] - count_base == -2
-    if ending.any():
-        ending_trids = np.atleast_1d(frame[ending,-1].astype(np.int64))
-        for trid in ending_trids:
-            trajects[trid] = frame[frame[:,-1] == trid]
+    if traj_min_len <= 1:
+        for row in frame[ending]:
+            yield Trajectory(row[None,:3], row[None,3:6], row[None,6],
+                int(row[7]), accel=np.zeros((1, 3)))
     
     frame_buffer_start = 0
     
-- 
2.43.0


From 92da306529a4edaa5d432dc7123758a8e421bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 27/52] fix: xuap files have their integer columns written as
 floats

---
 flowtracks/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 3b54e87..36c1e25 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -55,9 +55,13 @@ class FramesIterator(object):
         """
         self._frmix = 0
         # Some files have further columns, that are not part of the structure.
+        # Also, some have the integers in them written as floats.
+        read_fmt = np.dtype([(name, 'f8', fmt[name].shape) \
+            for name in fmt.names])
         cols = range(sum(int(np.prod(fmt[name].shape)) for name in fmt.names))
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip, usecols=cols))
+            np.loadtxt(fname_tmpl % fix, dtype=read_fmt, skiprows=skip, 
+                usecols=cols)).astype(fmt)
         
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = data_file_pattern(basename)
-- 
2.43.0


From b76740f3fcf24f0e56b9f6d34df7e4208aa0086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:41 +0000
Subject: [PATCH 28/52] fix: savitzky_golay works with current NumPy and with
 low orders

---
 flowtracks/smoothing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index c10086f..893b202 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -64,8 +64,11 @@ def savitzky_golay(trajs, fps, window_size, order):
         'trajid']
     
     # precompute coefficients
-    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
-    m = np.linalg.pinv(b).A
+    b = np.array([[float(k)**i for i in order_range] \
+        for k in range(-half_window, half_window+1)])
+    m = np.linalg.pinv(b)
+    # Derivatives higher than the polynomial order are zero.
+    m = np.vstack((m, np.zeros((max(0, 3 - order), m.shape[1]))))
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From 45f9a7d61fdb6071fa64b1ece4e1710626337e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 29/52] fix: smoothing a smoothed trajectory does not keep the
 old vel_pp

---
 flowtracks/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 893b202..2d7feac 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -60,7 +60,7 @@ def savitzky_golay(trajs, fps, window_size, order):
     
     # Properties that should not be copied from the old trajectory because
     # they are obtained otherwise (or copied elsewhere).
-    smoothed_keys = ['pos', 'velocity', 'accel', 'acc_pp', 'time', 
+    smoothed_keys = ['pos', 'velocity', 'accel', 'acc_pp', 'vel_pp', 'time', 
         'trajid']
     
     # precompute coefficients
-- 
2.43.0


From 8e5115cf4a16a884e93fc5d9867d2650cf6ab1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 30/52] fix: the general Jacobian excludes companions like the
 interpolation does

---
 flowtracks/interpolation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index dbe757c..642c339 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -567,11 +567,14 @@ class GeneralInterpolant(object):
 
         ret = np.empty((self.__interp_pts.shape[0], 3, 3))
         ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data) 
+            self.__interp_pts + np.r_[eps,0,0], self.__data,
+            self.__comp) 
         ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data) 
+            self.__interp_pts + np.r_[0,eps,0], self.__data,
+            self.__comp) 
         ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data)
+            self.__interp_pts + np.r_[0,0,eps], self.__data,
+            self.__comp)
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
-- 
2.43.0


From 72f5b5419d89a77edc8f6b83456930daeab1b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 31/52] fix: particle_pairs takes sets with different
 properties

---
 flowtracks/pairs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 6e79deb..9d414b4 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -62,7 +62,8 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             pair_time[coord_locator] = -1
             continue
             
-        sec_parts = take_snapshot(sec_in_frame, frame_num, schema)
+        sec_parts = take_snapshot(sec_in_frame, frame_num,
+            sec_in_frame[0].schema())
         
         dists_sq = np.sum(
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
-- 
2.43.0


From a717f65a5b4cc0cd946f3861c382fe715d204cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 32/52] fix: marking unique rows of an empty table does not
 crash

---
 flowtracks/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index aff2471..9a6e966 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -247,7 +247,7 @@ def mark_unique_rows(all_rows):
     # Remove duplicates (particles occupying same position):
     srt = np.lexsort(all_rows[:,:3].T)
     diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
-    uniq = np.r_[srt[0], srt[1:][diff]]
+    uniq = np.r_[srt[:1], srt[1:][diff]]
     uniq.sort()
         
     return uniq
-- 
2.43.0


From 00a4e5831cad8108f9789ceaa5913f29524094d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 33/52] fix: Matlab trajectories of one point have a time for
 their point

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 36c1e25..136bfb4 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -221,7 +221,7 @@ def trajectories_mat(fname):
         pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
         vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
         accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
-        t = traj['t'].squeeze()
+        t = np.atleast_1d(traj['t'].squeeze())
         trajid = traj['trajid'][0,0]
         trajects.append(Trajectory(pos, vel, t, trajid, accel=accel))
     
-- 
2.43.0


From 18c1c8a17b6a400dde81bf0a2945550ca87b0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 34/52] fix: Sequence.iter_subrange() returns an iterator that
 is ready for next()

---
 flowtracks/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index b3c881d..542dcec 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -196,7 +196,7 @@ class Sequence(object):
         # The subrange must not outlive its iteration, even if abandoned.
         sub = copy.copy(self)
         sub._act_rng = (first, last)
-        return sub
+        return iter(sub)
     
     def __next__(self):
         if self._frame == self._act_rng[1]:
-- 
2.43.0


From 533d55b5eff58215b68a15cbcd0d289ae43258aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:16 +0000
Subject: [PATCH 35/52] fix: properties named 'id' or 't' overwrote the
 trajectory ID or the frame number

---
 flowtracks/trajectory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 9a6e966..e9a2e78 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -144,12 +144,12 @@ class Trajectory(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._id = trajid
+        self._trajid = trajid
         kwds['time'] = time
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def trajid(self):
-        return self._id    
+        return self._trajid
     
     def __getitem__(self, selector):
         """
@@ -161,7 +161,7 @@ class Trajectory(ParticleSet):
         """
         return np.hstack((self._pos[selector], self._velocity[selector],
             self._time[selector][...,None], 
-            np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))
+            np.ones(self._pos[selector].shape[:-1] + (1,))*self._trajid))
             
     def smoothed(self, err_bound, order):
         """
@@ -209,12 +209,12 @@ class ParticleSnapshot(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._t = time
+        self._time = time
         kwds['trajid'] = trajid
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def time(self):
-        return self._t
+        return self._time
 
 
 def record_dtype(fields):
-- 
2.43.0


From e9472c3ae11292d82e6ccd8eac5a690b74011873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 36/52] fix: logarithmic histograms count the extreme samples

---
 flowtracks/graphics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flowtracks/graphics.py b/flowtracks/graphics.py
index 237b526..600befb 100644
--- a/flowtracks/graphics.py
+++ b/flowtracks/graphics.py
@@ -35,7 +35,13 @@ def pdf_bins(data, num_bins, log_bins=False):
     if log_bins:
         data = data[data > 0] 
         minv = np.min(data)
-        bins = np.logspace(np.log10(minv), np.log10(data.max()), num_bins + 1)
+        maxv = np.max(data)
+        bins = np.logspace(np.log10(minv), np.log10(maxv), num_bins + 1)
+        
+        # Rounding of the edges may not leave the extreme samples out.
+        bins = np.clip(bins, minv, maxv)
+        bins[0] = minv
+        bins[-1] = maxv
     else:
         bins = num_bins
     
-- 
2.43.0


From 595fa8f63334cb17599412cbc67be0d3d10b6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 37/52] fix: docstring conversion keeps the text after a
 section's title

---
 flowtracks/format_docstrings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/format_docstrings.py b/flowtracks/format_docstrings.py
index e0fa83d..15e7e72 100644
--- a/flowtracks/format_docstrings.py
+++ b/flowtracks/format_docstrings.py
@@ -40,6 +40,9 @@ def parse_docstring(app, what, name, obj, options, lines):
             m = section_title.match(line)
             if m is not None:
                 section.extend(['*' + m.group(1) + '*', ''])
+                rest = line[m.end():].strip()
+                if rest:
+                    section.append(rest)
                 continue
         
         m = def_line.match(line)
-- 
2.43.0


From 8618b5f787a2dd8400151c364b6f41b8d6abdd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 38/52] fix: a saved sequence may have several percent signs in
 its file names

---
 flowtracks/sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 542dcec..93f60e6 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -310,8 +310,8 @@ class Sequence(object):
         cfg.set("Scene", "trajectory minimal length", str(self._minlen))
         
         # Need to escape these because of ConfigParser's 'magic variables'.
-        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%', 1))
-        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%', 1))
+        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%'))
+        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%'))
 
 def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     """
-- 
2.43.0


From fcce3713800873e0bda22dcea8df1cdf0ae61989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 39/52] fix: relative positions are there also before anything
 else was asked

---
 flowtracks/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 642c339..b36344f 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -404,6 +404,9 @@ class GeneralInterpolant(object):
         Returns an (m,k,3) array, the distance between interpolation point m
         and each of k nearest neighbours on each axis.
         """
+        if self.__active_neighbs is None:
+            self._forego_laziness()
+        
         return self.__rel_pos
     
     def current_dists(self):
-- 
2.43.0


From 766c15fc6e0682eea06505c2671bfeda6c6a5436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 40/52] fix: spline smoothing of order 1 crashed on the second
 derivative

---
 flowtracks/trajectory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index e9a2e78..b6baaf5 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -184,7 +184,9 @@ class Trajectory(ParticleSet):
         
         new_pos = np.array(interp.splev(eval_prms, spline)).T
         new_vel = np.array(interp.splev(eval_prms, spline, der=1)).T
-        new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
+        # Derivatives higher than the spline order are zero.
+        new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T \
+            if order > 1 else np.zeros_like(new_pos)
         
         return Trajectory(new_pos, new_vel, self.time(), self.trajid(),
             accel=new_accel)
-- 
2.43.0


From 659fe0eb3323b8f57026ba7d1398c51d1ed9fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 41/52] fix: selections with infinite bounds crashed

---
 flowtracks/scene.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 2d466c5..217949f 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,8 +59,13 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
-        (key, cop1, smin, lop, key, cop2, smax)
+    
+    # Queries have no literal for infinity, but read a number too large for a
+    # float as such. The added 0 keeps it away from integer indexes.
+    col1, col2 = (key + ' + 0' if np.isinf(b) else key for b in (smin, smax))
+    smin, smax = (("%.17g" % b).replace('inf', '1e999') for b in (smin, smax))
+    cond_string = "((%s %s %s) %s (%s %s %s))" % \
+        (col1, cop1, smin, lop, col2, cop2, smax)
     
     return cond_string
     
-- 
2.43.0


From fd2eca71b6a055bb6d18335f0f059dbb2fa7e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 42/52] fix: a saving or an analysis that fails half-way
 releases its file

---
 flowtracks/analysis.py | 14 ++++++++++++--
 flowtracks/io.py       | 30 ++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index edc67ac..16b3c4f 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -120,7 +120,18 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         descr.extend(analyser.descr())
     descr = record_dtype(descr)
     
-    outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
+    # The file is released also if something fails on the way, so that the
+    # analysis can be done again.
+    with tables.open_file(analysis_file, "w", title="Analysis results.") \
+            as outfile:
+        _write_analysis(outfile, scene, conf_file, analysers, descr,
+            frame_range)
+
+def _write_analysis(outfile, scene, conf_file, analysers, descr, frame_range):
+    """
+    Private. Does the work of :func:`analysis` on an open file, `descr` being
+    the type of a row.
+    """
     table = outfile.create_table('/', 'analysis', descr)
     table.attrs['config'] = conf_file
     table.attrs['trajects'] = scene.get_particles_path()
@@ -144,4 +155,3 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
     table.cols.trajid.create_index()
     table.cols.time.create_index()
     outfile.flush()
-    outfile.close()
diff --git a/flowtracks/io.py b/flowtracks/io.py
index 136bfb4..e66e956 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -717,10 +717,18 @@ def save_particles_table(filename, trajects, trim=None):
     trim - if None, remove this many time points from each end of each 
         trajectory before saving.
     """
+    # The file is released also if something fails on the way, so that it can
+    # be saved again.
+    with tables.open_file(filename, mode='w') as outfile:
+        _write_particles_table(outfile, trajects, trim)
+
+def _write_particles_table(outfile, trajects, trim):
+    """
+    Private. Does the work of :func:`save_particles_table` on an open file.
+    """
     table = None
     trim_len = 0 if trim is None else trim * 2
     
-    outfile = tables.open_file(filename, mode='w')
     bounds_tab = outfile.create_table('/', 'bounds', 
         np.dtype([('trajid', int), ('first', int), ('last', int)]))
     
@@ -754,7 +762,6 @@ def save_particles_table(filename, trajects, trim=None):
     bounds_tab.cols.trajid.create_index()
     
     outfile.flush()
-    outfile.close()
 
 def save_frames_hdf(filename, frames):
     """
@@ -767,8 +774,15 @@ def save_frames_hdf(filename, frames):
         is recommended so that ``infer_format()`` knows what to do with it.
     frames - an iterable sequence of ParticleSnapshot objects to save.
     """
+    # See save_particles_table().
+    with tables.open_file(filename, mode='w') as outfile:
+        _write_frames_hdf(outfile, frames)
+
+def _write_frames_hdf(outfile, frames):
+    """
+    Private. Does the work of :func:`save_frames_hdf` on an open file.
+    """
     table = None
-    outfile = tables.open_file(filename, mode='w')
     min_pos = np.full(3, np.inf)
     max_pos = np.full(3, -np.inf)
     
@@ -819,7 +833,6 @@ def save_frames_hdf(filename, frames):
     bounds_tab.cols.trajid.create_index()
     
     outfile.flush()
-    outfile.close()
 
 def trajectories_table(fname, first=None, last=None):
     """
@@ -833,7 +846,13 @@ def trajectories_table(fname, first=None, last=None):
     Returns:
     trajects - a list of Trajectory objects, each trimmed to the frame range.
     """
-    outfile = tables.open_file(fname, mode='r')
+    with tables.open_file(fname, mode='r') as outfile:
+        return _read_trajectories_table(outfile, first, last)
+
+def _read_trajectories_table(outfile, first, last):
+    """
+    Private. Does the work of :func:`trajectories_table` on an open file.
+    """
     table = outfile.get_node('/particles')
     
     query_string = ('(trajid == trid)')
@@ -850,7 +869,6 @@ def trajectories_table(fname, first=None, last=None):
         kwds['trajid'] = trid
         trajects.append(Trajectory(**kwds))
     
-    outfile.close()
     return trajects
 
 def load_trajectories(res_dir, first=None, last=None):
-- 
2.43.0


From a95366137f33ba7c9b69a35e3e11590db6913d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 43/52] fix: integer bounds of selections beyond 2**53 were
 rounded

---
 flowtracks/scene.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 217949f..6c36c5d 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -63,7 +63,9 @@ def gen_query_string(key, range_spec):
     # Queries have no literal for infinity, but read a number too large for a
     # float as such. The added 0 keeps it away from integer indexes.
     col1, col2 = (key + ' + 0' if np.isinf(b) else key for b in (smin, smax))
-    smin, smax = (("%.17g" % b).replace('inf', '1e999') for b in (smin, smax))
+    smin, smax = (str(int(b)) if isinstance(b, (int, np.integer)) \
+        and abs(int(b)) < 2**63 else ("%.17g" % b).replace('inf', '1e999') \
+        for b in (smin, smax))
     cond_string = "((%s %s %s) %s (%s %s %s))" % \
         (col1, cop1, smin, lop, col2, cop2, smax)
     
-- 
2.43.0


From 91b57784839ecca2153c382c517cca612292ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 44/52] fix: results of an analysis of part of the range are
 attached to their own points

---
 flowtracks/an_scene.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 8f288fa..a71cc3c 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -156,14 +156,19 @@ class AnalysedScene(object):
         """
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
-        # Trim last point of trajectory to match analysis:
-        kwds = dict((k, v[:-1]) for k, v in traj.as_dict().items())
-        kwds['trajid'] = trid
-        
         # Fetch by foreign key from analysis:
         query_string = '(trajid == trid)'
         arr = self._table.read_where(query_string)
         
+        # Trim trajectory to match analysis, which has not the last point, nor
+        # those outside the analysed frame range:
+        rows = dict((t, row) for row, t in enumerate(arr['time']))
+        matched = np.array([t in rows for t in traj.time()], dtype=bool)
+        arr = arr[np.array([rows[t] for t in traj.time()[matched]], dtype=int)]
+        
+        kwds = dict((k, v[matched]) for k, v in traj.as_dict().items())
+        kwds['trajid'] = trid
+        
         # Update into the Trajectory object:
         for field in arr.dtype.fields:
             if field not in ['trajid', 'time']:
-- 
2.43.0


From a5c553840396bdbd871fcc753727a1020a0e2035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 45/52] fix: iteration over a sequence stays at its end, and
 has none if the range has none

---
 flowtracks/sequence.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 93f60e6..035aa47 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -199,8 +199,7 @@ class Sequence(object):
         return iter(sub)
     
     def __next__(self):
-        if self._frame == self._act_rng[1]:
-            del self._act_rng
+        if self._frame >= self._act_rng[1]:
             raise StopIteration
         
         frame = Frame()
-- 
2.43.0


From 3a6259ec79da5ec48a57775cf4accb9ec935d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 46/52] fix: a key requested twice from an analysed scene
 doubled its columns

---
 flowtracks/an_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index a71cc3c..fbd3551 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -134,7 +134,7 @@ class AnalysedScene(object):
             
             # For each dual frame, add the columns of specified keys to the list
             # of that key's results
-            for k in keys:
+            for k in res:
                 if k in pkeys:
                     res[k].append(p_arr[k])
                 else:
-- 
2.43.0


From 95e5adfaa687e154a31f0d3958899d58957244a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 47/52] fix: a snapshot kept all values in the type of the
 first trajectory's

---
 flowtracks/trajectory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index b6baaf5..244bb8d 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -314,7 +314,8 @@ def take_snapshot(trajects, frame, schema):
 
     kwds = dict((k, np.empty(
         (len(trajects),) + v, 
-        dtype=trajects[0].__dict__['_' + k].dtype)) \
+        dtype=np.result_type(*set(
+            traj.__dict__['_' + k].dtype for traj in trajects)))) \
         for k, v in schema.items())
 
     copy_keys = list(kwds.keys())
-- 
2.43.0


From c358e52c12b1575a4dc88bb80cec716c1303fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 48/52] fix: pairs were cut to the type of the requested time
 indices

---
 flowtracks/pairs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 9d414b4..e7a25a5 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -28,14 +28,14 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
         that of ``trajid``, ``time_points``. For particles without a match, 
         returns -1 as the pair_time value.
     """
-    # Output buffers:
-    pair_trids = np.empty_like(time_points)
-    pair_time = np.empty_like(time_points)
+    # Output buffers, also for numbers that the type of time indices can't hold:
+    pair_trids = np.empty(time_points.shape, dtype=np.int64)
+    pair_time = np.empty_like(pair_trids)
     
     # Filter the primary set to only contain the trajectories actually required
     unique_prim = np.unique(trajids)
     prim_traj = [t for t in primary_trajects if t.trajid() in unique_prim]
-    frames = np.empty_like(time_points)
+    frames = np.empty_like(pair_trids)
     
     # Typify primary/secondary on a per trajectory basis before combining them
     # into a single snapshot.
-- 
2.43.0


From 66a5dfbf54c084dca06d2cdca275de764387b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:09 +0000
Subject: [PATCH 49/52] fix: saved properties were silently cut to the type of
 the first, or left undefined where missing

---
 flowtracks/io.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index e66e956..a811fa7 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -722,6 +722,32 @@ def save_particles_table(filename, trajects, trim=None):
     with tables.open_file(filename, mode='w') as outfile:
         _write_particles_table(outfile, trajects, trim)
 
+def _check_fields(particles, dtype):
+    """
+    Private. Make sure that particles can be kept as they are in a table whose 
+    format was determined by others.
+    
+    Arguments:
+    particles - a ParticleSet object.
+    dtype - the type of a row in the table.
+    """
+    vals = particles.as_dict()
+    missing = set(dtype.names) - set(vals) - set(['trajid', 'time'])
+    if len(missing) > 0:
+        raise ValueError("Some particles do not have all properties: "
+            + ", ".join(sorted(missing)))
+    
+    for k, v in vals.items():
+        if v.shape[1:] != dtype[k].shape:
+            raise ValueError("Shape of %s is not as in other particles" % k)
+        
+        field = dtype[k].base
+        if not np.can_cast(v.dtype, field):
+            kept = v.astype(field)
+            if not np.all((kept == v) | ((kept != kept) & (v != v))):
+                raise ValueError("Values of %s can't be saved as %s" % \
+                    (k, field))
+
 def _write_particles_table(outfile, trajects, trim):
     """
     Private. Does the work of :func:`save_particles_table` on an open file.
@@ -744,6 +770,7 @@ def _write_particles_table(outfile, trajects, trim):
             dtype = record_dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
 
+        _check_fields(traj, dtype)
         arr = np.empty(len(traj) - trim_len, dtype=dtype)
         arr['trajid'] = traj.trajid()
         
@@ -802,6 +829,7 @@ def _write_frames_hdf(outfile, frames):
         min_pos = np.min(np.vstack((min_pos, frame.pos())), axis=0)
         max_pos = np.max(np.vstack((max_pos, frame.pos())), axis=0)
         
+        _check_fields(frame, dtype)
         arr = np.empty(len(frame), dtype=dtype)
         arr['time'] = frame.time()
         
-- 
2.43.0


From b721b8165e941782cfde302cfcdbdb6667b8dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 50/52] fix: look up frames and trajectories also where a
 property is named t or trid

Columns take precedence over local variables in conditions of PyTables, so
the number sought is now passed explicitly, under a name of its own.
---
 flowtracks/an_scene.py |  8 ++++----
 flowtracks/io.py       |  4 ++--
 flowtracks/scene.py    | 16 ++++++++--------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index fbd3551..2d8b417 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -61,12 +61,12 @@ class AnalysedScene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
+        query_string = '(time == _sought_t)'
         if cond is not None:
             query_string = '&'.join([query_string, cond])
             
         for t in range(*self._scene.get_range()):
-            yield t, self._table.read_where(query_string)
+            yield t, self._table.read_where(query_string, {'_sought_t': t})
     
     def collect(self, keys, where=None):
         """
@@ -157,8 +157,8 @@ class AnalysedScene(object):
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
         # Fetch by foreign key from analysis:
-        query_string = '(trajid == trid)'
-        arr = self._table.read_where(query_string)
+        query_string = '(trajid == _sought_trid)'
+        arr = self._table.read_where(query_string, {'_sought_trid': trid})
         
         # Trim trajectory to match analysis, which has not the last point, nor
         # those outside the analysed frame range:
diff --git a/flowtracks/io.py b/flowtracks/io.py
index a811fa7..6c1ac1c 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -883,7 +883,7 @@ def _read_trajectories_table(outfile, first, last):
     """
     table = outfile.get_node('/particles')
     
-    query_string = ('(trajid == trid)')
+    query_string = '(trajid == _sought_trid)'
     if first is not None:
         query_string += " & (time >= %d)" % first
     if last is not None:
@@ -891,7 +891,7 @@ def _read_trajectories_table(outfile, first, last):
                 
     trajects = []
     for trid in np.unique(table.col('trajid')):
-        arr = table.read_where(query_string)
+        arr = table.read_where(query_string, {'_sought_trid': trid})
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'trajid')
         kwds['trajid'] = trid
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 6c36c5d..427bf8f 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -189,11 +189,11 @@ class Scene(object):
         """
         # I just repeat most of the code in iter_trajectories(). It is not the
         # pretties thing but trying to abstract these 5 lines would be uglier.
-        query_string = '(trajid == trid)'
+        query_string = '(trajid == _sought_trid)'
         if self._frame_limit != '':
             query_string += ' & ' + self._frame_limit
         
-        arr = self._table.read_where(query_string)
+        arr = self._table.read_where(query_string, {'_sought_trid': trid})
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'trajid')
         kwds['trajid'] = trid
@@ -205,12 +205,12 @@ class Scene(object):
         trajectory in the file (in no particular order, but the same order 
         every time on the same PyTables version) and yields it.
         """
-        query_string = '(trajid == trid)'
+        query_string = '(trajid == _sought_trid)'
         if self._frame_limit != '':
             query_string += ' & ' + self._frame_limit
         
         for trid in self._trids:
-            arr = self._table.read_where(query_string)
+            arr = self._table.read_where(query_string, {'_sought_trid': trid})
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'trajid')
             kwds['trajid'] = trid
@@ -235,12 +235,12 @@ class Scene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
+        query_string = '(time == _sought_t)'
         if cond is not None:
             query_string = '&'.join([query_string, cond])
             
         for t in range(self._first, self._last):
-            yield t, self._table.read_where(query_string)
+            yield t, self._table.read_where(query_string, {'_sought_t': t})
     
     def frame_by_time(self, t):
         """
@@ -253,8 +253,8 @@ class Scene(object):
         Returns:
         a ParticleSnapshot object.
         """
-        query_string = '(time == t)'
-        arr = self._table.read_where(query_string)
+        query_string = '(time == _sought_t)'
+        arr = self._table.read_where(query_string, {'_sought_t': t})
         
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'time')
-- 
2.43.0


From 527bdcb3b3da40353e0511599e7ef0a8b1671573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 51/52] fix: find companions given in unsigned or narrow types

The indices of the companions were kept in the type of their IDs.
---
 flowtracks/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 16b3c4f..c0e0f20 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -21,7 +21,7 @@ def companion_indices(trids, companions):
     Return an array giving for each companion its respective index in the 
     trajectory ID array, or a negative number if not found.
     """
-    comp = np.full_like(companions, -1)
+    comp = np.full(companions.shape, -1, dtype=int)
     idx = np.nonzero(trids[:,None] == companions)
     comp[idx[1]] = idx[0]
     return comp
-- 
2.43.0


From ee2527f8b89082bfb61b361fbb47d19017921759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:22 +0000
Subject: [PATCH 52/52] fix: frame rates of any integer type in polynomial
 smoothing

---
 flowtracks/smoothing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 2d7feac..c146ba6 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -69,6 +69,8 @@ def savitzky_golay(trajs, fps, window_size, order):
     m = np.linalg.pinv(b)
     # Derivatives higher than the polynomial order are zero.
     m = np.vstack((m, np.zeros((max(0, 3 - order), m.shape[1]))))
+    # Powers of integers may not fit in the type they come in.
+    fps = float(fps)
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0

