From 045f95019e8e0e1276cad4bd0cac4ac569ca0da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:17 +0000
Subject: [PATCH 01/68] fix: read xuap files, whose link columns are formatted
 as floats and are followed by an extra column

---
 flowtracks/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index e5d2183..0f43b1b 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -41,8 +41,15 @@ class FramesIterator(object):
             numbering.
         """
         self._frmix = 0
+        # The files may have more columns than needed, and integer columns may
+        # be formatted as floats (both occur in xuap files).
+        to_int = lambda num: int(float(num))
+        convs = dict((cix, to_int) for cix, name in enumerate(fmt.names) \
+            if fmt[name].kind == 'i')
+        num_cols = sum(int(np.prod(fmt[name].shape)) for name in fmt.names)
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
+            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip, 
+                usecols=range(num_cols), converters=convs))
         
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
-- 
2.43.0


From 9a40c363502f07ee00e1c94374e3770910095f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:38 +0000
Subject: [PATCH 02/68] fix: match frame files by their exact name, also for
 padded templates and in the current directory

---
 flowtracks/io.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 0f43b1b..a8656ac 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -29,6 +29,21 @@ from .trajectory import Trajectory, mark_unique_rows, \
     Frame, take_snapshot, trajectories_in_frame
 
 
+def template_matcher(basename):
+    """
+    Create a regular expression that matches the names of frame files, and
+    nothing else that may be found in their directory (backup files etc.)
+    
+    Arguments:
+    basename - the file name part of a template, with one '%d' (or a 
+        zero-padded variant such as '%05d') representing the frame number.
+    
+    Returns:
+    a compiled regular expression, whose only group is the frame number.
+    """
+    prefix, suffix = re.split(r'%\d*d', basename, maxsplit=1)
+    return re.compile(re.escape(prefix) + r'(\d+)' + re.escape(suffix) + '$')
+
 class FramesIterator(object):
     def __init__(self, fname_tmpl, fmt, skip, first=None, last=None):
         """
@@ -52,15 +67,17 @@ class FramesIterator(object):
                 usecols=range(num_cols), converters=convs))
         
         dirname, basename = os.path.split(fname_tmpl)
-        is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+        is_data_file = template_matcher(basename)
 
         # Collect existing frames. This is necessary to ensure that frames are
         # processed in the correct order.
         self._frame_nums = []
-        for name in os.listdir(dirname):
+        for name in os.listdir(dirname or os.curdir):
             match = is_data_file.match(name)
             if match is None: continue
             frame = int(match.group(1))
+            # Only one spelling of the frame number is the one we'll read.
+            if basename % frame != name: continue
 
             if first is not None and frame < first: continue
             if last is not None and frame > last: continue
@@ -230,12 +247,13 @@ def trajectories_acc(fname, first=None, last=None):
     """
     trajects = []
     dirname, basename = os.path.split(os.path.expanduser(fname))
-    is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+    is_data_file = template_matcher(basename)
     
-    for fname in os.listdir(dirname):
+    for fname in os.listdir(dirname or os.curdir):
         match = is_data_file.match(fname)
         if match is None: continue
         frame = int(match.group(1))
+        if basename % frame != fname: continue
         
         if first is not None and frame < first: continue
         if last is not None and frame >= last: break
-- 
2.43.0


From 04fb2cd696a5e3bee941af5810f5e28c558ff51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:53 +0000
Subject: [PATCH 03/68] fix: trajectories_acc depended on directory listing
 order, dropped the last file in range and failed on single-row files

---
 flowtracks/io.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index a8656ac..3575c3f 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -249,6 +249,8 @@ def trajectories_acc(fname, first=None, last=None):
     dirname, basename = os.path.split(os.path.expanduser(fname))
     is_data_file = template_matcher(basename)
     
+    # Directory listing order is arbitrary, so sort to get repeatable results.
+    frame_files = []
     for fname in os.listdir(dirname or os.curdir):
         match = is_data_file.match(fname)
         if match is None: continue
@@ -256,10 +258,12 @@ def trajectories_acc(fname, first=None, last=None):
         if basename % frame != fname: continue
         
         if first is not None and frame < first: continue
-        if last is not None and frame >= last: break
-        
+        if last is not None and frame > last: continue
+        frame_files.append((frame, fname))
+    
+    for frame, fname in sorted(frame_files):
         table = np.loadtxt(os.path.join(dirname, fname),
-            usecols=(0,1,2,3,4,5,6,7,8,33))
+            usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
         traj_starts = np.nonzero(table[:,-1] == 0)[0]
         traj_ends = np.r_[traj_starts[1:], table.shape[0]]
         
-- 
2.43.0


From db029b56b5224804171c762436ef3e6173d5ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:09 +0000
Subject: [PATCH 04/68] fix: single-file reader lost single-particle frames and
 everything after an empty frame

---
 flowtracks/io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 3575c3f..a1e0a35 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -118,7 +118,8 @@ class SingleFileIterator(object):
         """
         self._frmix = 0
         self._f = open(fname, 'r')
-        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt)
+        self._read_frame = lambda str_tbl: np.atleast_1d(
+            np.loadtxt(str_tbl, dtype=fmt))
     
     def __iter__(self):
         return self
@@ -134,13 +135,15 @@ class SingleFileIterator(object):
         
         # Make the stringio object to be used by read_frame
         lines = []
+        eof = True
         for line in self._f:
+            eof = False # an empty line here only means an empty frame.
             if re.match(r'^\s*$', line):
                 break
             lines.append(line)
         
-        if len(lines) == 0:
-            raise StopIteration # EOF
+        if eof:
+            raise StopIteration
         
         str_tbl = StringIO("".join(lines))
         frame = self._read_frame(str_tbl)
-- 
2.43.0


From 41e8c513bacbc8951120d7b07233a2c04628de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:01 +0000
Subject: [PATCH 05/68] fix: reading an empty range of frames raised
 RuntimeError, no trajectories expected

---
 flowtracks/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index a1e0a35..3c320b6 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -325,7 +325,9 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
         frm_iter = SingleFileIterator(fname, fmt)
     
     # In the first frame, every particle starts a trajectory.
-    frame_num, table = next(frm_iter)    
+    frame_num, table = next(frm_iter, (None, None))
+    if table is None: # No frames in range.
+        return
     
     pos = table['pos']
     if not xuap: pos /=1000.
-- 
2.43.0


From 72db24c2f035017663c720e7c9eea4916b9dae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:03 +0000
Subject: [PATCH 06/68] fix: single-frame trajectories in the first frame were
 never returned, unlike those in other frames

---
 flowtracks/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 3c320b6..0bdc77c 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -351,10 +351,12 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
     
     # Single-frame trajectories in first frame:
     ending = table['next'] - count_base == -2
-    if ending.any():
+    if ending.any() and traj_min_len <= 1:
         ending_trids = np.atleast_1d(frame[ending,-1].astype(np.int64))
         for trid in ending_trids:
-            trajects[trid] = frame[frame[:,-1] == trid]
+            traj = frame[frame[:,-1] == trid]
+            yield Trajectory(traj[:,:3], traj[:,3:6], traj[:,6], int(trid),
+                accel=np.zeros((1,3)))
     
     frame_buffer_start = 0
     
-- 
2.43.0


From f51662f160b585dccadb14c23e038283e85f80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 07/68] fix: trajectories(iter_allowed=True) used
 itertools.ifilter, gone in Python 3

---
 flowtracks/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 0bdc77c..b42e6ef 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -15,7 +15,7 @@ The rest of the content of this module is composed of readers and writers for
 the various formats. They are documented here alongside the main entry points,
 so that users may access them directly if needed.
 """
-import os, os.path, re, itertools as itr
+import os, os.path, re
 from configparser import ConfigParser
 from io import StringIO
 
@@ -550,7 +550,7 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len = 2
         
         if iter_allowed:
-            traj = itr.ifilter(lambda tr: len(tr) >= traj_min_len, traj)
+            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
         else:
             traj = [tr for tr in traj if len(tr) >= traj_min_len]
     
-- 
2.43.0


From a732bbea14f64ff186408881d6138ab5157622b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 08/68] fix: trajectories() on HDF files excluded the last
 frame of the range, documented as inclusive

---
 flowtracks/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index b42e6ef..a9f254e 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -538,7 +538,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len=traj_min_len)
     
     elif fmt == 'hdf':
-        scene = Scene(fname, (first, last))
+        # Scene ranges exclude the last frame, ours include it.
+        scene = Scene(fname, (first, None if last is None else last + 1))
         it = scene.iter_trajectories()
         if iter_allowed:
             traj = it
-- 
2.43.0


From 6c576adf7004d50885785a5ab3cc87c9b576b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:52 +0000
Subject: [PATCH 09/68] fix: writing HDF tables failed because scalar columns
 became (n,1) arrays (particles, frames, analysis)

---
 flowtracks/analysis.py |  2 +-
 flowtracks/io.py       | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 604b77c..1036eb2 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -114,7 +114,7 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         :meth:`DualScene.iter_segments() <flowtracks.scene.DualScene.iter_segments>`
     """
     # Structure the output file:
-    descr = [('trajid', int, 1), ('time', int, 1)]
+    descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
         descr.extend(analyser.descr())
     descr = np.dtype(descr)
diff --git a/flowtracks/io.py b/flowtracks/io.py
index a9f254e..3d3d8b5 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -743,8 +743,8 @@ def save_particles_table(filename, trajects, trim=None):
         # First trajectory creates the table:
         if table is None:
             # Format of records in a trajectory array :
-            fields = [('trajid', int, 1)] + [(field,) + desc \
-                for field, desc in traj.ext_schema().items()]
+            fields = [('trajid', int)] + [(field, v.dtype.type, v.shape[1:]) \
+                for field, v in traj.as_dict().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
 
@@ -792,8 +792,8 @@ def save_frames_hdf(filename, frames):
         # First frame creates the table:
         if table is None:
             # Format of records in a frame array:
-            fields = [('time', int, 1)] + [(field,) + desc \
-                for field, desc in frame.ext_schema().items()]
+            fields = [('time', int)] + [(field, v.dtype.type, v.shape[1:]) \
+                for field, v in frame.as_dict().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
         
@@ -825,7 +825,7 @@ def save_frames_hdf(filename, frames):
     table.cols.time.create_index()          
     
     bounds_tab = outfile.create_table('/', 'bounds', 
-        np.dtype([('trajid', int, 1), ('first', int, 1), ('last', int, 1)]))
+        np.dtype([('trajid', int), ('first', int), ('last', int)]))
     for trid, bounds in ongoing_trajects.items():
         bounds_tab.append([(trid, bounds[0], bounds[1])])
     bounds_tab.cols.trajid.create_index()
-- 
2.43.0


From 50f259417796aae86ef2853522c79dba2ced4fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:52 +0000
Subject: [PATCH 10/68] fix: save_particles_table failed with trim=0

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 3d3d8b5..0fbab65 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -752,7 +752,7 @@ def save_particles_table(filename, trajects, trim=None):
         arr['trajid'] = traj.trajid()
         
         for k, v in traj.as_dict().items():
-            if trim is None:
+            if trim_len == 0:
                 arr[k] = v
             else:
                 arr[k] = v[trim:-trim]
-- 
2.43.0


From 8ad79fca74ab7c470fd6e3a3ebe87682fdc1f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:52 +0000
Subject: [PATCH 11/68] fix: take_snapshot used the nonexistent np.int64_

---
 flowtracks/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 0d1499c..ed1dd70 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -301,7 +301,7 @@ def take_snapshot(trajects, frame, schema):
         for k, v in schema.items())
 
     copy_keys = kwds.keys()
-    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64_)
+    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
-- 
2.43.0


From d3690aa1adef1213fd572a24a9fc8c3a71d65033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:02 +0000
Subject: [PATCH 12/68] fix: snapshots of trajectories with float time failed,
 as did an empty list of trajectories

---
 flowtracks/trajectory.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index ed1dd70..182e7cf 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -254,6 +254,9 @@ def trajectories_in_frame(trajects, frame_num,
     Returns:
     traj_nums = the indices of active trajectories in ``trajects``.
     """
+    if len(trajects) == 0:
+        return np.empty(0, dtype=np.int64)
+    
     if start_times is None or end_times is None:
         start_end = [(tr.time()[0], tr.time()[-1]) for tr in trajects]
         start_times, end_times = map(np.array, zip(*start_end))
@@ -264,7 +267,7 @@ def trajectories_in_frame(trajects, frame_num,
     
     if len(cand_nums) > 0:
         # Filter candidates with overlapping particles.
-        frm_ixs = frame_num - start_times[cands]
+        frm_ixs = (frame_num - start_times[cands]).astype(np.int64)
         pos = np.array([trajects[trix].pos()[frm] \
             for trix, frm in zip(cand_nums, frm_ixs)])
         
@@ -300,13 +303,14 @@ def take_snapshot(trajects, frame, schema):
         dtype=trajects[0].__dict__['_' + k].dtype)) \
         for k, v in schema.items())
 
-    copy_keys = kwds.keys()
+    copy_keys = list(kwds.keys())
     kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
+        frm_ix = int(frame - first_frame) # time may be held as float.
         for prop in copy_keys:
-            kwds[prop][trix] = traj.__dict__[prop](frame - first_frame)
+            kwds[prop][trix] = traj.__dict__[prop](frm_ix)
 
         kwds['trajid'][trix] = traj.trajid()
     
-- 
2.43.0


From 56e5d4b2bdd2f6548266c828e2fa8dc3ff4d149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:22 +0000
Subject: [PATCH 13/68] fix: Scene.collect() with conditions failed when no
 frame range was set

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 755af63..622db7c 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -313,7 +313,7 @@ class Scene(object):
         a list of arrays, in the order of ``keys``.
         """
         # Compose query to PyTables engine:
-        conds = [self._frame_limit]
+        conds = [self._frame_limit] if self._frame_limit != '' else []
         if where is not None:
             for key, rng in where.items():
                 conds.append(gen_query_string(key, rng))
-- 
2.43.0


From db93e2e4b2f5c5e02c8969cee31c04799dab1860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:22 +0000
Subject: [PATCH 14/68] fix: conditioned frame iteration over a Scene raised
 TypeError

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 622db7c..fd07f36 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -230,7 +230,7 @@ class Scene(object):
         """
         query_string = '(time == t)'
         if cond is not None:
-            query_string = '&'.join(query_string, cond)
+            query_string = '&'.join([query_string, cond])
             
         for t in range(self._first, self._last):
             yield t, self._table.read_where(query_string)
-- 
2.43.0


From 702df04d577f6688e1286dd1dc74c613971734b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:22 +0000
Subject: [PATCH 15/68] fix: range queries rounded their limits to 6
 significant digits

---
 flowtracks/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index fd07f36..7638c3b 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,7 +59,8 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %g) %s (%s %s %g))" % \
+    # 17 significant digits are enough for not distorting any limit.
+    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
         (key, cop1, smin, lop, key, cop2, smax)
     
     return cond_string
-- 
2.43.0


From 10f8a2f4ad3db2bd13698f5dfe3de4f1c3b8f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 16/68] fix: DualScene kept the temporary frame range when
 iteration was abandoned or failed

---
 flowtracks/scene.py | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 7638c3b..d27a341 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -403,6 +403,25 @@ class DualScene(object):
         """
         return self._rng
     
+    def _iter_in_range(self, iter_func, frame_range):
+        """
+        Private. Generates what ``iter_func()`` generates, under the given 
+        frame range. The original range is restored however iteration ends, 
+        even if it is abandoned in the middle.
+        """
+        if frame_range != -1:
+            self._particles.set_frame_range(frame_range)
+            self._tracers.set_frame_range(frame_range)
+        
+        try:
+            for item in iter_func():
+                yield item
+        finally:
+            # restore original frame range.
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
+    
     def iter_frames(self, frame_range=-1):
         """
         Iterates over a scene represented by two HDF files (one for inertial 
@@ -420,21 +439,18 @@ class DualScene(object):
         Yields:
         the Frame object for each frame in turn.
         """
-        if frame_range != -1:
-            self._particles.set_frame_range(frame_range)
-            self._tracers.set_frame_range(frame_range)
+        return self._iter_in_range(self._iter_frames, frame_range)
     
+    def _iter_frames(self):
+        """
+        Private. Does what iter_frames() does, on the current frame range.
+        """
         for particles, tracers in zip(
             self._particles.iter_frames(), self._tracers.iter_frames()):
             frame = Frame()
             frame.tracers = tracers
             frame.particles = particles
             yield frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
     
     def iter_segments(self, frame_range=-1):
         """
@@ -452,10 +468,12 @@ class DualScene(object):
         Yields:
         two Frame objects, representing the consecutive selective frames.
         """
-        if frame_range != -1:
-            self._particles.set_frame_range(frame_range)
-            self._tracers.set_frame_range(frame_range)
+        return self._iter_in_range(self._iter_segments, frame_range)
     
+    def _iter_segments(self):
+        """
+        Private. Does what iter_segments() does, on the current frame range.
+        """
         for part_frames, tracer_frames in zip(
             self._particles.iter_segments(), self._tracers.iter_segments()):
             frame = Frame()
@@ -467,11 +485,6 @@ class DualScene(object):
             next_frame.particles = part_frames[1]
             
             yield frame, next_frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
 
 def read_dual_scene(conf_fname):
     """
-- 
2.43.0


From 99a4f4245e7bbd7aad2effc1db0b33186dc30daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 17/68] fix: rows of the two frames in a segment could belong
 to different particles

---
 flowtracks/scene.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index d27a341..8316444 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -286,6 +286,11 @@ class Scene(object):
             if len(in_next_arr) > 0:
                 next_arr = next_arr[in_next_arr]
             
+            # Each frame may hold the particles in a different order.
+            order = np.argsort(next_arr['trajid'])
+            next_arr = next_arr[order[np.searchsorted(
+                next_arr['trajid'], arr['trajid'], sorter=order)]]
+            
             # format as ParticleSnapshot.
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'time')
-- 
2.43.0


From 699868e989162c2b8e7bc0b0c319a280adfcc8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 18/68] fix: AnalysedScene.collect() used itertools.izip, gone
 in Python 3

---
 flowtracks/an_scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 7d198ee..8f288fa 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-import tables, itertools as it, numpy as np
+import tables, numpy as np
 from .scene import read_dual_scene, gen_query_string
 from .trajectory import Trajectory
 
@@ -108,7 +108,7 @@ class AnalysedScene(object):
         # divided conditions.
         res = dict((k, []) for k in keys)
         
-        dframe_it = it.izip(
+        dframe_it = zip(
             self._scene.get_particles()._iter_frame_arrays(part_cond),
             self._iter_frame_arrays(an_cond))
             
-- 
2.43.0


From f940951a22235353bc82b2455b98b3fb80e8de84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:30 +0000
Subject: [PATCH 19/68] fix: AnalysedScene trajectories mismatched their
 analysis if only part of a trajectory was analysed

---
 flowtracks/an_scene.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 8f288fa..6f08bb1 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -156,14 +156,17 @@ class AnalysedScene(object):
         """
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
-        # Trim last point of trajectory to match analysis:
-        kwds = dict((k, v[:-1]) for k, v in traj.as_dict().items())
-        kwds['trajid'] = trid
-        
         # Fetch by foreign key from analysis:
         query_string = '(trajid == trid)'
         arr = self._table.read_where(query_string)
         
+        # Trim the points of trajectory that are not analysed: the last one, 
+        # any that is followed by a hole, and those out of the analysed range.
+        analysed = np.isin(traj.time(), arr['time'])
+        arr = arr[np.isin(arr['time'], traj.time())]
+        kwds = dict((k, v[analysed]) for k, v in traj.as_dict().items())
+        kwds['trajid'] = trid
+        
         # Update into the Trajectory object:
         for field in arr.dtype.fields:
             if field not in ['trajid', 'time']:
-- 
2.43.0


From f79892e1ef286088116da930e75d701d00a0d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 20/68] fix: Sequence could not be iterated in Python 3, and
 kept iteration state that leaked between iterations

---
 flowtracks/sequence.py | 85 ++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 44 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index dde3457..f8cefd2 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -160,23 +160,7 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        if not hasattr(self, '_act_rng'):
-            self._act_rng = self._rng
-        
-        self._frame = self._act_rng[0]
-        
-        # Make sure the particle trajectory cache is populated.
-        self.particle_trajectories()
-        self.__schema = self.__ptraj[0].schema()
-        if not (self.__ttraj is None):
-            return self
-        
-        # Make sure the tracers cache is populated:
-        self.tracer_trajectories()
-        
-        self.__tschem = self.__ttraj[0].schema()
-        
-        return self
+        return self.iter_subrange(*self._rng)
     
     def iter_subrange(self, first, last):
         """
@@ -190,35 +174,48 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        self._act_rng = (first, last)
-        return self
-    
-    def next(self):
-        if self._frame == self._act_rng[1]:
-            del self._act_rng
-            raise StopIteration
-        
-        frame = Frame()
-        tracer_ixs = trajectories_in_frame(self.__ttraj, self._frame, 
-            self.__tstarts, self.__tends, segs=True)
-        tracer_trjs = [self.__ttraj[t] for t in tracer_ixs]
-        frame.tracers = take_snapshot(tracer_trjs, self._frame, self.__tschem)
-        
-        part_ixs = trajectories_in_frame(self.__ptraj, self._frame,
-            self.__pstarts, self.__pends, segs=True)
-        part_trjs = [self.__ptraj[t] for t in part_ixs]
-        frame.particles = take_snapshot(part_trjs, self._frame, self.__schema)
-
-        self._frame += 1
+        # Make sure the trajectory caches are populated. The iterator gets its
+        # own reference to them and keeps its own place, so iterators that are 
+        # abandoned or simultaneously active don't affect each other.
+        self.particle_trajectories()
+        self.tracer_trajectories()
         
-        next_frame = Frame()
-        next_frame.tracers = take_snapshot(tracer_trjs, self._frame,
-            self.__tschem)
-        next_frame.particles = take_snapshot(part_trjs, self._frame,
-            self.__schema)
-        self._next_frame = next_frame
+        return self._iter_frames(first, last, 
+            (self.__ptraj, self.__pstarts, self.__pends),
+            (self.__ttraj, self.__tstarts, self.__tends))
+    
+    def _iter_frames(self, first, last, part_cache, tracer_cache):
+        """
+        Private. Generates the frames for :meth:`iter_subrange`.
         
-        return frame, next_frame
+        Arguments:
+        first, last - see :meth:`iter_subrange`.
+        part_cache, tracer_cache - each a tuple (trajectories, starts, ends).
+        """
+        ptraj, pstarts, pends = part_cache
+        ttraj, tstarts, tends = tracer_cache
+        schema = ptraj[0].schema()
+        tschem = ttraj[0].schema()
+        
+        for frame_num in range(first, last):
+            frame = Frame()
+            tracer_ixs = trajectories_in_frame(ttraj, frame_num, 
+                tstarts, tends, segs=True)
+            tracer_trjs = [ttraj[t] for t in tracer_ixs]
+            frame.tracers = take_snapshot(tracer_trjs, frame_num, tschem)
+            
+            part_ixs = trajectories_in_frame(ptraj, frame_num,
+                pstarts, pends, segs=True)
+            part_trjs = [ptraj[t] for t in part_ixs]
+            frame.particles = take_snapshot(part_trjs, frame_num, schema)
+            
+            next_frame = Frame()
+            next_frame.tracers = take_snapshot(tracer_trjs, frame_num + 1,
+                tschem)
+            next_frame.particles = take_snapshot(part_trjs, frame_num + 1,
+                schema)
+            
+            yield frame, next_frame
     
     def map_trajectories(self, func, subrange=None, history=False, args=()):
         """
-- 
2.43.0


From 4ab0ad69caec76c0133f302ae04def7b8c62ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 21/68] fix: a saved Sequence with the default minimal length,
 or with several % signs in a file name, could not be read back

---
 flowtracks/sequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index f8cefd2..a5cb49c 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -297,11 +297,11 @@ class Sequence(object):
         cfg.set("Scene", "first frame", str(self._rng[0]))
         cfg.set("Scene", "last frame", str(self._rng[1] - 1))
         cfg.set("Scene", "apply smoothing", "yes" if self._smooth else "no")
-        cfg.set("Scene", "trajectory minimal length", str(self._minlen))
+        cfg.set("Scene", "trajectory minimal length", str(int(self._minlen)))
         
         # Need to escape these because of ConfigParser's 'magic variables'.
-        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%', 1))
-        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%', 1))
+        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%'))
+        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%'))
 
 def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     """
-- 
2.43.0


From 1314ea30c3d3887a433a0737d7ecc243944e21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 22/68] fix: a saved interpolant with no radius, or of the
 corrfun method, could not be read back

---
 flowtracks/interpolation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2f843fd..de298d4 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -595,9 +595,12 @@ class GeneralInterpolant(object):
         """
         if not cfg.has_section("Interpolant"):
             cfg.add_section("Interpolant")
-        cfg.set('Interpolant', 'radius', str(self.radius()))
+        # An unset radius is represented by a missing key.
+        cfg.remove_option('Interpolant', 'radius')
+        if self.radius() is not None:
+            cfg.set('Interpolant', 'radius', str(self.radius()))
         cfg.set('Interpolant', 'num_neighbs', str(self.num_neighbs()))
-        cfg.set('Interpolant', 'param', str(self._par))
+        cfg.set('Interpolant', 'param', str(self._par).replace('%', '%%'))
         cfg.set('Interpolant', 'method', self._method)
 
 class InverseDistanceWeighter(GeneralInterpolant):
@@ -793,7 +796,10 @@ def read_interpolant(conf_fname):
         kwds['num_neighbs'] = parser.getint('Interpolant', 'num_neighbs')
     if parser.has_option('Interpolant', 'radius'):
         kwds['radius'] = parser.getfloat('Interpolant', 'radius')
+    method = parser.get('Interpolant', 'method')
     if parser.has_option('Interpolant', 'param'):
-        kwds['param'] = parser.getfloat('Interpolant', 'param')
+        # For the corrfun method this is a file name, otherwise a number.
+        get = parser.get if method == 'corrfun' else parser.getfloat
+        kwds['param'] = get('Interpolant', 'param')
     
-    return interpolant(parser.get('Interpolant', 'method'), **kwds)
+    return interpolant(method, **kwds)
-- 
2.43.0


From a0514a80e928c9bfb22eae492d45d1fba0a28ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 23/68] fix: missing neighbours contributed uninitialised
 memory to interpolation, and Jacobians assumed 3-component data

---
 flowtracks/interpolation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index de298d4..5ce0635 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -375,7 +375,8 @@ class GeneralInterpolant(object):
             self.__interp_pts, self.__comp)
         
         self.__has_data = self.__active_neighbs < self.__tracers.shape[0]
-        matched_pos = np.empty(
+        # Missing neighbours have zero weight, but still need a finite value.
+        matched_pos = np.zeros(
             self.__active_neighbs.shape + (self.__tracers.shape[1],))
         matched_pos[self.__has_data] = \
             self.__tracers[self.__active_neighbs[self.__has_data]]
@@ -413,8 +414,8 @@ class GeneralInterpolant(object):
         Calculate or retrieve cache of data in (m,k,d) structure.
         """
         if self.__matched_data is None:
-            self.__matched_data = np.empty(
-                self.__active_neighbs.shape + (self.__tracers.shape[1],))
+            self.__matched_data = np.zeros(
+                self.__active_neighbs.shape + (self.__data.shape[1],))
             self.__matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
         return self.__matched_data
@@ -733,7 +734,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             matched_data = self._ensure_matched_data()
         else:
             data = self.current_data()
-            matched_data = np.empty(act_neighbs.shape + (data.shape[1],))
+            matched_data = np.zeros(act_neighbs.shape + (data.shape[1],))
             has_data = act_neighbs < data.shape[0]
             matched_data[has_data] = data[act_neighbs[has_data]]
         
-- 
2.43.0


From c7010b9e7f92a26ae3d74161475637a7591067dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 24/68] fix: the Jacobian was calculated from stale data after
 changing the data on the current field

---
 flowtracks/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 5ce0635..f05b74d 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -320,6 +320,7 @@ class GeneralInterpolant(object):
             else:
                 data = data[None, :]
         self.__data = data
+        self.__matched_data = None
     
     def trim_points(self, which):
         """
-- 
2.43.0


From 55e8618672837869f08a1e0537c2e929cc849a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 25/68] fix: trim_points() left companions, relative positions
 and matched data of the trimmed points in place

---
 flowtracks/interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index f05b74d..837ec27 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -332,9 +332,15 @@ class GeneralInterpolant(object):
         """
         keep = ~which
         self.__interp_pts = self.__interp_pts[keep]
+        if self.__comp is not None:
+            self.__comp = self.__comp[keep]
         if self.__dists is not None:
             self.__dists = self.__dists[keep]
             self.__active_neighbs = self.__active_neighbs[keep]
+            self.__has_data = self.__has_data[keep]
+            self.__rel_pos = self.__rel_pos[keep]
+        if self.__matched_data is not None:
+            self.__matched_data = self.__matched_data[keep]
     
     def _select_neighbs(self, interp_pts, comp=None):
         """
-- 
2.43.0


From 60f366d2043e46ad3c2242e305117441b4eeec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 26/68] fix: inverse-distance weights were not updated when
 only the field positions changed

---
 flowtracks/interpolation.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 837ec27..b8a037f 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -399,6 +399,9 @@ class GeneralInterpolant(object):
         Returns an (m,k,3) array, the distance between interpolation point m
         and each of k nearest neighbours on each axis.
         """
+        if self.__active_neighbs is None:
+            self._forego_laziness()
+                
         return self.__rel_pos
     
     def current_dists(self):
@@ -674,6 +677,19 @@ class InverseDistanceWeighter(GeneralInterpolant):
             return
         
         self._forego_laziness()
+    
+    def _drop_neighbours_cache(self):
+        """
+        Adds to the base class only the weights, which depend on neighbours.
+        """
+        GeneralInterpolant._drop_neighbours_cache(self)
+        self.__weights = None
+    
+    def _forego_laziness(self):
+        """
+        Adds to the base class only a precalculation of weights.
+        """
+        GeneralInterpolant._forego_laziness(self)
         self.__weights = self.weights(self.current_dists(), 
             self.current_active_neighbs())
     
@@ -686,7 +702,8 @@ class InverseDistanceWeighter(GeneralInterpolant):
             (as given in set_scene), True to trim a point, False to keep.
         """
         GeneralInterpolant.trim_points(self, which)
-        self.__weights = self.__weights[~which]
+        if self.__weights is not None:
+            self.__weights = self.__weights[~which]
         
     def _apply_weights(self, weights, data):
         """
-- 
2.43.0


From 5b41df357ec978f4b1d7c7486bcce0237b419be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 27/68] fix: neighbour selection failed or mixed up points if
 both a companion and a coincident tracer are excluded

---
 flowtracks/interpolation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index b8a037f..ba1ad97 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -359,15 +359,18 @@ class GeneralInterpolant(object):
             represented by the total number of data points.
         """
         dists, active_neighbs = self.__field_tree.query(
-            interp_pts, self._neighbs + 1, distance_upper_bound=self._upb)
+            interp_pts, self._neighbs + 2, distance_upper_bound=self._upb)
         keep = dists > 0.
         
         if comp is not None:
             keep &= active_neighbs != comp[:, None]
         
-        keep[np.all(keep, axis=1), -1] = False
-        dists = dists[keep].reshape(-1, self._neighbs)
-        active_neighbs = active_neighbs[keep].reshape(-1, self._neighbs)
+        # Move the removed neighbours to the end, as missing ones.
+        dists[~keep] = np.inf
+        active_neighbs[~keep] = self.__tracers.shape[0]
+        order = np.argsort(dists, axis=1, kind='stable')[:, :self._neighbs]
+        dists = np.take_along_axis(dists, order, axis=1)
+        active_neighbs = np.take_along_axis(active_neighbs, order, axis=1)
         
         return dists, active_neighbs
         
@@ -375,9 +378,9 @@ class GeneralInterpolant(object):
         """
         Populate the neighbours cache.
         """
-        # Take one more neighbour because one will be removed, either for 
-        # being in the same position as the interp points or being its 
-        # companion (worst case, the extra farthest neighbour is removed).
+        # Take two more neighbours because up to two will be removed, one for 
+        # being in the same position as the interp points and one for being its
+        # companion (otherwise, the extra farthest neighbours are removed).
         self.__dists, self.__active_neighbs = self._select_neighbs(
             self.__interp_pts, self.__comp)
         
-- 
2.43.0


From c9af33d8c2fbbc0c0055724dc6f97c16f6ce2184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 28/68] fix: RBF interpolation zeroed distances between tracers
 by the companions of unrelated points

---
 flowtracks/interpolation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index ba1ad97..95c4549 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -394,8 +394,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             self.__tracer_dists, _ = select_neighbs(
-                self.__tracers, self.__tracers, self._radius, self._neighbs,
-                self.__comp)
+                self.__tracers, self.__tracers, self._radius, self._neighbs)
                 
     def current_relative_positions(self):
         """
@@ -526,7 +525,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             tracer_dists = select_neighbs(tracer_pos, tracer_pos, 
-                self._radius, self._neighbs, companionship)[0]
+                self._radius, self._neighbs)[0]
             return rbf_interp(tracer_dists, dists, use_parts, data, self._par)
         
         elif self._method == 'corrfun':
-- 
2.43.0


From 6f527617b8f4b9b8335481f7d0af1237fd514ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 29/68] fix: RBF and correlation-function interpolation of a
 recorded scene took neighbour indices for a selection mask

---
 flowtracks/interpolation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 95c4549..494a9ad 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -476,12 +476,21 @@ class GeneralInterpolant(object):
             selection is not changed, so ``subset`` is forgotten after the
             call.
         """
+        # The methods below need, for each interpolation point, the distance to
+        # all tracers and whether each is used, rather than neighbour indices.
+        num_tracers = self.__tracers.shape[0]
+        use_parts = np.zeros((act_neighbs.shape[0], num_tracers), dtype=bool)
+        dists = np.zeros(use_parts.shape)
+        pts, neighbs = np.nonzero(act_neighbs < num_tracers)
+        use_parts[pts, act_neighbs[pts, neighbs]] = True
+        dists[pts, act_neighbs[pts, neighbs]] = self.__dists[pts, neighbs]
+        
         if self._method == 'rbf':
-            return rbf_interp(self.__tracer_dists, self.__dists, act_neighbs,
+            return rbf_interp(self.__tracer_dists, dists, use_parts,
                               self.__data, self._par)
         
         if self._method == 'corrfun':
-            return corrfun_interp(self.__dists, act_neighbs, self.__data, 
+            return corrfun_interp(dists, use_parts, self.__data, 
                                   self._corrs, self._bins)
         
         # This isn't supposed to ever happen. The constructor should fail.
-- 
2.43.0


From 25548aee03b54c5238050501a763f9501ef003d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 30/68] fix: correlation-function interpolation failed on, or
 scrambled the weights of, a scalar correlation function

---
 flowtracks/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 494a9ad..2e321a2 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -100,6 +100,7 @@ def corrfun_interp(dists, use_parts, data, corrs_hist, corrs_bins):
         interpolation point, [units of ``data``].
     """
     weights = np.zeros(dists.shape + (data.shape[-1],))
+    corrs_hist = corrs_hist.reshape(len(corrs_hist), -1) # for all components
     weights[use_parts] = corrs_hist[
         np.digitize(dists[use_parts].flatten(), corrs_bins) - 1]
     
-- 
2.43.0


From 59ddae5d06137e0cd5f6027cbeed9b2bca0214b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 31/68] fix: companion and coincident tracers were selected as
 neighbours when there were not enough other tracers

---
 flowtracks/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2e321a2..318e614 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -69,6 +69,7 @@ def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
         use_parts[
             np.repeat(np.arange(interp_points.shape[0]), eff_num_neighbs),
             dist_sort[:, :num_neighbs].flatten()] = True
+        use_parts &= ~np.isinf(dists)
 
     else:
         use_parts = dists < radius
@@ -603,7 +604,8 @@ class GeneralInterpolant(object):
         
         for pt in range(interp_points.shape[0]):
             # allow assignment of less than the desired number of neighbours.
-            ndists[pt] = dists[pt, use_parts[pt]]
+            neighb_dists = dists[pt, use_parts[pt]]
+            ndists[pt, :len(neighb_dists)] = neighb_dists
         
         return ndists
     
-- 
2.43.0


From 88e30301868c28ca3443b8f7ea6b63f3f402c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 32/68] fix: the numerical Jacobian ignored companions, mixing
 interpolations with and without them

---
 flowtracks/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 318e614..0d75835 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -568,11 +568,11 @@ class GeneralInterpolant(object):
 
         ret = np.empty((self.__interp_pts.shape[0], 3, 3))
         ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data) 
+            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp) 
         ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data) 
+            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp) 
         ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data)
+            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
-- 
2.43.0


From 58f8c173ed76b0183b1551fa0b3aa31ba704dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 33/68] fix: calling an inverse-distance interpolant raised
 NotImplementedError

---
 flowtracks/interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 0d75835..78c717c 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -754,7 +754,10 @@ class InverseDistanceWeighter(GeneralInterpolant):
         vel_interp - an (m,3) array with the interpolated value at the position
             of each particle, [m/s].
         """
-        raise NotImplementedError()
+        off_scene = InverseDistanceWeighter(
+            self._neighbs, self._radius, self._par)
+        off_scene.set_scene(tracer_pos, interp_points, data, companionship)
+        return off_scene.interpolate()
         
     def _meth_interp(self, act_neighbs=None):
         """
-- 
2.43.0


From fc06bad651d2b27d4ea328e7fc3625800da633ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 34/68] fix: a failure while saving HDF tables or running an
 analysis left the file open, so it could not be redone

---
 flowtracks/analysis.py | 13 +++++++++++--
 flowtracks/io.py       | 20 ++++++++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 1036eb2..709b679 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -119,7 +119,17 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         descr.extend(analyser.descr())
     descr = np.dtype(descr)
     
-    outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
+    with tables.open_file(
+            analysis_file, "w", title="Analysis results.") as outfile:
+        _write_analysis(outfile, scene, conf_file, analysers, descr,
+                        frame_range)
+
+def _write_analysis(outfile, scene, conf_file, analysers, descr, frame_range):
+    """
+    The actual work of :func:`analysis`, writing to an open file, with the 
+    table row format in ``descr``. The caller closes ``outfile``, even if this
+    fails midway.
+    """
     table = outfile.create_table('/', 'analysis', descr)
     table.attrs['config'] = conf_file
     table.attrs['trajects'] = scene.get_particles_path()
@@ -143,4 +153,3 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
     table.cols.trajid.create_index()
     table.cols.time.create_index()
     outfile.flush()
-    outfile.close()
diff --git a/flowtracks/io.py b/flowtracks/io.py
index 0fbab65..492b7bb 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -729,10 +729,17 @@ def save_particles_table(filename, trajects, trim=None):
     trim - if None, remove this many time points from each end of each 
         trajectory before saving.
     """
+    with tables.open_file(filename, mode='w') as outfile:
+        _write_particles_table(outfile, trajects, trim)
+
+def _write_particles_table(outfile, trajects, trim):
+    """
+    The actual writing of trajectories for :func:`save_particles_table`. The 
+    caller closes ``outfile``, even if this fails midway.
+    """
     table = None
     trim_len = 0 if trim is None else trim * 2
     
-    outfile = tables.open_file(filename, mode='w')
     bounds_tab = outfile.create_table('/', 'bounds', 
         np.dtype([('trajid', int), ('first', int), ('last', int)]))
     
@@ -766,7 +773,6 @@ def save_particles_table(filename, trajects, trim=None):
     bounds_tab.cols.trajid.create_index()
     
     outfile.flush()
-    outfile.close()
 
 def save_frames_hdf(filename, frames):
     """
@@ -779,8 +785,15 @@ def save_frames_hdf(filename, frames):
         is recommended so that ``infer_format()`` knows what to do with it.
     frames - an iterable sequence of ParticleSnapshot objects to save.
     """
+    with tables.open_file(filename, mode='w') as outfile:
+        _write_frames(outfile, frames)
+
+def _write_frames(outfile, frames):
+    """
+    The actual writing of frames for :func:`save_frames_hdf`. The caller closes
+    ``outfile``, even if this fails midway.
+    """
     table = None
-    outfile = tables.open_file(filename, mode='w')
     min_pos = np.full(3, np.inf)
     max_pos = np.full(3, -np.inf)
     
@@ -831,7 +844,6 @@ def save_frames_hdf(filename, frames):
     bounds_tab.cols.trajid.create_index()
     
     outfile.flush()
-    outfile.close()
 
 def trajectories_table(fname, first=None, last=None):
     """
-- 
2.43.0


From ac070fcf152feea4309989d86ebac36f698f7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 35/68] fix: particle_pairs returned pairs in the order of
 primary trajectories, not of the request

---
 flowtracks/pairs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index ff63183..cd062b7 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -68,6 +68,10 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
             axis=2)
         pair_ixs = np.argmin(dists_sq, axis=1)
+        # A snapshot has each trajectory once, in its own order.
+        prim_order = np.argsort(prim_parts.trajid())
+        pair_ixs = pair_ixs[prim_order[np.searchsorted(
+            prim_parts.trajid(), trajids[coord_locator], sorter=prim_order)]]
         pair_trids[coord_locator] = sec_parts.trajid(pair_ixs)
         pair_time[coord_locator] = frame_num # later transformed.
     
-- 
2.43.0


From 2c3adea693f4e8e02908edd88c5ecce4b2549c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 36/68] fix: particle_pairs failed on trajectories with float
 time or with different properties in the secondary set

---
 flowtracks/pairs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index cd062b7..edc7f05 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -62,7 +62,8 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             pair_time[coord_locator] = -1
             continue
             
-        sec_parts = take_snapshot(sec_in_frame, frame_num, schema)
+        sec_parts = take_snapshot(sec_in_frame, frame_num, 
+            sec_in_frame[0].schema())
         
         dists_sq = np.sum(
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
@@ -81,6 +82,6 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
     for traj in secondary_trajects:
         trid = traj.trajid()
         if trid not in unique_sec: continue
-        pair_time[pair_trids == trid] -= traj.time(0)
+        pair_time[pair_trids == trid] -= int(traj.time(0))
         
     return pair_trids, pair_time
-- 
2.43.0


From 14feff30715e006b37a294f164202948d693e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 37/68] fix: savitzky_golay used np.mat, gone in current NumPy

---
 flowtracks/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index c10086f..00a74cf 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -64,8 +64,8 @@ def savitzky_golay(trajs, fps, window_size, order):
         'trajid']
     
     # precompute coefficients
-    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
-    m = np.linalg.pinv(b).A
+    b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
+    m = np.linalg.pinv(b)
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From 117bb18d04321c866f45cede65919d1e0ac8183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 38/68] fix: savitzky_golay failed with polynomials of order
 less than 3

---
 flowtracks/smoothing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 00a74cf..fc43a75 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -66,6 +66,8 @@ def savitzky_golay(trajs, fps, window_size, order):
     # precompute coefficients
     b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
     m = np.linalg.pinv(b)
+    # Derivatives of a higher degree than the polynomial vanish.
+    m = np.vstack((m, np.zeros((3, window_size))))
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From d7f47bd2c43dd86d352dd7bf192513c043a8c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 39/68] fix: re-smoothing a trajectory kept vel_pp of the
 previous smoothing

---
 flowtracks/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index fc43a75..ff5a376 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -60,7 +60,7 @@ def savitzky_golay(trajs, fps, window_size, order):
     
     # Properties that should not be copied from the old trajectory because
     # they are obtained otherwise (or copied elsewhere).
-    smoothed_keys = ['pos', 'velocity', 'accel', 'acc_pp', 'time', 
+    smoothed_keys = ['pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time', 
         'trajid']
     
     # precompute coefficients
-- 
2.43.0


From b26e232a24ecc4fea3d4bc5a2afc2ee1d8fdeeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 40/68] fix: log-binned PDF could miss the extreme samples due
 to rounding of the edges

---
 flowtracks/graphics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/graphics.py b/flowtracks/graphics.py
index 237b526..ff46844 100644
--- a/flowtracks/graphics.py
+++ b/flowtracks/graphics.py
@@ -36,6 +36,8 @@ def pdf_bins(data, num_bins, log_bins=False):
         data = data[data > 0] 
         minv = np.min(data)
         bins = np.logspace(np.log10(minv), np.log10(data.max()), num_bins + 1)
+        # Rounding of the edges should not exclude the extreme samples.
+        bins[0], bins[-1] = minv, data.max()
     else:
         bins = num_bins
     
-- 
2.43.0


From 48d98766ceb68c920e389c1a95bbda4e9127371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 41/68] fix: analyse_fhdf used the interpolation parameter as a
 radius

---
 scripts/analyse_fhdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/analyse_fhdf.py b/scripts/analyse_fhdf.py
index 3567302..a8b7fed 100644
--- a/scripts/analyse_fhdf.py
+++ b/scripts/analyse_fhdf.py
@@ -27,7 +27,10 @@ if __name__ == "__main__":
         "parameter. Inverse power for inv, epsilon for RBF, filename for corrfun")
     args = parser.parse_args()
     
-    interp = interpolant(args.method, args.neighbs, args.param)
+    param = args.param
+    if param is not None and args.method != 'corrfun':
+        param = float(param)
+    interp = interpolant(args.method, args.neighbs, param=param)
     scene = read_dual_scene(args.config)
     analysers = [ FluidVelocitiesAnalyser(interp) ]
     analysis(scene, args.output, args.config, analysers)
-- 
2.43.0


From 8026ff9368569541e81ca5336c35fdd09111cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 42/68] fix: a single-point trajectory in a Matlab file got a
 scalar time

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 492b7bb..82f9256 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -229,7 +229,7 @@ def trajectories_mat(fname):
         pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
         vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
         accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
-        t = traj['t'].squeeze()
+        t = np.atleast_1d(traj['t'].squeeze())
         trajid = traj['trajid'][0,0]
         trajects.append(Trajectory(pos, vel, t, trajid, accel=accel))
     
-- 
2.43.0


From e3869e93bbf5522cc42a046c22a217dece32ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 43/68] fix: trajectories() of HDF files without minimal length
 returned empty out-of-range trajectories, on which Sequence failed

---
 flowtracks/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 82f9256..aa363af 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -549,6 +549,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
     if filter_needed:
         if traj_min_len is None:
             traj_min_len = 2
+        # A trajectory which has no points in the frame range is not in it.
+        traj_min_len = max(traj_min_len, 1)
         
         if iter_allowed:
             traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
-- 
2.43.0


From 1e376ce62805ca57ecdff228ed586d95355ffe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 44/68] fix: trajectories_table() left the file open if reading
 failed

---
 flowtracks/io.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index aa363af..2c85166 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -859,9 +859,6 @@ def trajectories_table(fname, first=None, last=None):
     Returns:
     trajects - a list of Trajectory objects, each trimmed to the frame range.
     """
-    outfile = tables.open_file(fname, mode='r')
-    table = outfile.get_node('/particles')
-    
     query_string = ('(trajid == trid)')
     if first is not None:
         query_string += " & (time >= %d)" % first
@@ -869,14 +866,15 @@ def trajectories_table(fname, first=None, last=None):
         query_string += " & (time <= %d)" % last
                 
     trajects = []
-    for trid in np.unique(table.col('trajid')):
-        arr = table.read_where(query_string)
-        kwds = dict((field, arr[field]) for field in arr.dtype.fields \
-            if field != 'trajid')
-        kwds['trajid'] = trid
-        trajects.append(Trajectory(**kwds))
+    with tables.open_file(fname, mode='r') as outfile:
+        table = outfile.get_node('/particles')
+        for trid in np.unique(table.col('trajid')):
+            arr = table.read_where(query_string)
+            kwds = dict((field, arr[field]) for field in arr.dtype.fields \
+                if field != 'trajid')
+            kwds['trajid'] = trid
+            trajects.append(Trajectory(**kwds))
     
-    outfile.close()
     return trajects
 
 def load_trajectories(res_dir, first=None, last=None):
-- 
2.43.0


From 9a6432d75014f2edba28427d5730d2b02573bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 45/68] fix: mark_unique_rows() raised IndexError when given no
 rows

---
 flowtracks/trajectory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 182e7cf..bd0cf03 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -229,6 +229,9 @@ def mark_unique_rows(all_rows):
     an array with the indices of rows to take from the input such that in the
     result, the first 3 columns form a unique combination.
     """
+    if len(all_rows) == 0:
+        return np.empty(0, dtype=np.int64)
+    
     # Remove duplicates (particles occupying same position):
     srt = np.lexsort(all_rows[:,:3].T)
     diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
-- 
2.43.0


From 9c5f1f5132f7b4456f3a12560abf237f55374d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 46/68] fix: collect_particles() lost particles behind a file
 with no path reaching the frame, and failed on single-row files

---
 flowtracks/io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2c85166..d8d18b2 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -178,7 +178,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
     fname_tmpl = os.path.expanduser(fname_tmpl)
     
     while os.path.exists(fname_tmpl % cur_frame):
-        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33))
+        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33),
+            ndmin=2)
         path_age = frame - cur_frame
         
         if path_seg is True:
@@ -189,10 +190,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
         else:
             in_frame = table[table[:,-1] == path_age]
         
-        # When no previous path is long enough to reach ``frame``:
-        if in_frame.shape[0] == 0:
-            break
-        
+        # Even if no path in this file is long enough to reach ``frame``, 
+        # earlier files may have longer ones.
         selected.append(in_frame)
         cur_frame -= 1
     
-- 
2.43.0


From 1d51e2ec2e8ebacd032051e4f534f73dc25976ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 47/68] fix: collect_particles_generic() returned two layers of
 7 columns for a frame with no particles, whatever was asked

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index d8d18b2..555e698 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -626,7 +626,7 @@ def collect_particles_generic(trajects, frame, path_seg=False):
         selected.append(sel)
     
     if len(selected) == 0:
-        return np.empty((2,0,7))
+        return np.empty((2,0,8) if path_seg is True else (0,8))
     
     if path_seg is True:
         all_rows = np.concatenate(selected, axis=1)
-- 
2.43.0


From 923e3c69ef571ec0c381f578a9dc77667ce0d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 48/68] fix: documentation lost the text on the same line as a
 section title

---
 flowtracks/format_docstrings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/format_docstrings.py b/flowtracks/format_docstrings.py
index e0fa83d..cc4be6a 100644
--- a/flowtracks/format_docstrings.py
+++ b/flowtracks/format_docstrings.py
@@ -40,6 +40,9 @@ def parse_docstring(app, what, name, obj, options, lines):
             m = section_title.match(line)
             if m is not None:
                 section.extend(['*' + m.group(1) + '*', ''])
+                text = line[m.end():].strip()
+                if text != '':
+                    section.append(text)
                 continue
         
         m = def_line.match(line)
-- 
2.43.0


From d3f77af9ac9fb2dd24dbd700610184b6480d3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 49/68] fix: spline smoothing of order 1 failed for want of a
 second derivative

---
 flowtracks/trajectory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index bd0cf03..310b8e8 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -184,7 +184,10 @@ class Trajectory(ParticleSet):
         
         new_pos = np.array(interp.splev(eval_prms, spline)).T
         new_vel = np.array(interp.splev(eval_prms, spline, der=1)).T
-        new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
+        if order < 2:
+            new_accel = np.zeros_like(new_pos) # piecewise-linear.
+        else:
+            new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
         
         return Trajectory(new_pos, new_vel, self.time(), self.trajid(),
             accel=new_accel)
-- 
2.43.0


From 4b7aa1c189ccdfc9538fdd1e6d2b0ffb6b57d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:00 +0000
Subject: [PATCH 50/68] fix: analysis results with a row length of 1 failed
 when given as numbers, and could not be searched

---
 flowtracks/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 709b679..da492de 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -116,7 +116,8 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
     # Structure the output file:
     descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
-        descr.extend(analyser.descr())
+        # A row length of 1 means a scalar column, like the above.
+        descr.extend(d[:2] if d[2:] == (1,) else d for d in analyser.descr())
     descr = np.dtype(descr)
     
     with tables.open_file(
@@ -145,6 +146,8 @@ def _write_analysis(outfile, scene, conf_file, analysers, descr, frame_range):
             this_descr = analyser.descr()
             
             for res, desc in zip(analysis, this_descr):
+                if arr[desc[0]].ndim == 1:
+                    res = np.reshape(res, length)
                 arr[desc[0]] = res
         
         table.append(arr)
-- 
2.43.0


From 289b3a3f02e59ea0215a9a1674b1df81824bd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 51/68] fix: numerical Jacobian had 3 components for data which
 has less

---
 flowtracks/interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 78c717c..0da235b 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -561,12 +561,13 @@ class GeneralInterpolant(object):
             interpolation of recorded scene data is automatically performed.
         eps - the dx in each direction.
         
-        Returns: (m,3,3) array, for m interpolation points, [i,j] = du_i/dx_j
+        Returns: (m,d,3) array, for m interpolation points and d interpolation
+        dimensions. For each point, [i,j] = du_i/dx_j
         """
         if local_interp is None:
             local_interp = self.interpolate()
 
-        ret = np.empty((self.__interp_pts.shape[0], 3, 3))
+        ret = np.empty(local_interp.shape + (3,))
         ret[:,:,0] = self(self.__tracers,
             self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp) 
         ret[:,:,1] = self(self.__tracers, 
-- 
2.43.0


From d4e02167d4c007ec91edc5a7472bc71bf96fb25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 52/68] fix: off-scene interpolation of 1D data mixed up
 tracers and components

---
 flowtracks/interpolation.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 0da235b..e151999 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -315,15 +315,21 @@ class GeneralInterpolant(object):
             example, in velocity interpolation this would be (n,3), each tracer
             having 3 components of velocity.
         """
-        # Data can be 1d because it needs to be (1,d) or because it's (n,1),
-        if data.ndim < 2:
-            if data.shape[0] == self.__tracers.shape[0]:
-                data = data[:, None]
-            else:
-                data = data[None, :]
-        self.__data = data
+        self.__data = self._as_columns(data, self.__tracers.shape[0])
         self.__matched_data = None
     
+    @staticmethod
+    def _as_columns(data, num_tracers):
+        """
+        Returns the data for ``num_tracers`` as an (n,d) array. Data can be 1d 
+        because it needs to be (1,d) or because it's (n,1).
+        """
+        if data.ndim < 2:
+            if data.shape[0] == num_tracers:
+                return data[:, None]
+            return data[None, :]
+        return data
+    
     def trim_points(self, which):
         """
         Remove interpolation points from the scene.
@@ -529,7 +535,8 @@ class GeneralInterpolant(object):
             warnings.warn("No tracers im frame, interpolation returned zeros.")
             ret_shape = data.shape[-1] if data.ndim > 1 else 1
             return np.zeros((interp_points.shape[0], ret_shape))
-            
+        
+        data = self._as_columns(data, len(tracer_pos))
         dists, use_parts = select_neighbs(tracer_pos, interp_points, 
                                           self._radius, self._neighbs, 
                                           companionship)
-- 
2.43.0


From b6d5ca70f02cc07a3d4a2916a0ee7499dafc5eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 53/68] fix: interpolant kept the neighbours of earlier tracers
 when given none

---
 flowtracks/interpolation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index e151999..4af9911 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -275,10 +275,10 @@ class GeneralInterpolant(object):
         """
         # Keep the original data, for B.C purposes mostly.
         self.__tracers = np.atleast_2d(positions)
-        if len(self.__tracers) == 0:
-            return
-        self.__field_tree = cKDTree(positions)
         self._drop_neighbours_cache()
+        # Without tracers there is nothing to search in.
+        if len(self.__tracers) > 0:
+            self.__field_tree = cKDTree(positions)
     
     def field_positions(self):
         return self.__tracers
@@ -366,6 +366,10 @@ class GeneralInterpolant(object):
         use_part - (m,k) array, the respective indices. Missing neighbours are
             represented by the total number of data points.
         """
+        if len(self.__tracers) == 0:
+            shape = (len(interp_pts), self._neighbs)
+            return np.full(shape, np.inf), np.zeros(shape, dtype=int)
+        
         dists, active_neighbs = self.__field_tree.query(
             interp_pts, self._neighbs + 2, distance_upper_bound=self._upb)
         keep = dists > 0.
@@ -811,6 +815,10 @@ class InverseDistanceWeighter(GeneralInterpolant):
         if local_interp is None:
             local_interp = self.interpolate()
         
+        # Like the interpolation itself.
+        if len(self.field_positions()) == 0:
+            return np.zeros(local_interp.shape + (3,))
+        
         dists = self.current_dists()
         use_parts = self.current_active_neighbs()
         rel_pos = self.current_relative_positions()
-- 
2.43.0


From e1850761ba532698ceee9db4e751dd1e9309de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 54/68] fix: conditions with an infinite limit failed

---
 flowtracks/scene.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 8316444..2337c39 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,9 +59,18 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    # 17 significant digits are enough for not distorting any limit.
-    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
-        (key, cop1, smin, lop, key, cop2, smax)
+    
+    # 17 significant digits are enough for not distorting any limit. Infinity
+    # has no literal, only a number too large to hold; and an index, if the key
+    # has one, can't look it up, so there use an expression instead of the key.
+    conds = []
+    for cop, lim in ((cop1, smin), (cop2, smax)):
+        if abs(lim) == float('inf'):
+            conds.append("(%s + 0) %s %s1e999" % \
+                (key, cop, '-' if lim < 0 else ''))
+        else:
+            conds.append("%s %s %.17g" % (key, cop, lim))
+    cond_string = "((%s) %s (%s))" % (conds[0], lop, conds[1])
     
     return cond_string
     
-- 
2.43.0


From acfba45fb35df0445cf39ce13feff79a1f686092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 55/68] fix: a property named 'id' or 't' displaced a
 trajectory's id or a snapshot's time

---
 flowtracks/trajectory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 310b8e8..3917ea8 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -144,12 +144,12 @@ class Trajectory(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._id = trajid
+        self.__id = trajid
         kwds['time'] = time
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def trajid(self):
-        return self._id    
+        return self.__id    
     
     def __getitem__(self, selector):
         """
@@ -161,7 +161,7 @@ class Trajectory(ParticleSet):
         """
         return np.hstack((self._pos[selector], self._velocity[selector],
             self._time[selector][...,None], 
-            np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))
+            np.ones(self._pos[selector].shape[:-1] + (1,))*self.__id))
             
     def smoothed(self, err_bound, order):
         """
@@ -212,12 +212,12 @@ class ParticleSnapshot(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._t = time
+        self.__t = time
         kwds['trajid'] = trajid
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def time(self):
-        return self._t
+        return self.__t
 
 
 def mark_unique_rows(all_rows):
-- 
2.43.0


From 6c40d432ee179079f44fa8cf4064642d4de963fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 56/68] fix: tables with a property named 't' or 'trid' could
 not be read

---
 flowtracks/an_scene.py |  8 ++++----
 flowtracks/io.py       |  4 ++--
 flowtracks/scene.py    | 16 ++++++++--------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 6f08bb1..5bc7ec4 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -61,12 +61,12 @@ class AnalysedScene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
+        query_string = '(time == _v_t)'
         if cond is not None:
             query_string = '&'.join([query_string, cond])
             
         for t in range(*self._scene.get_range()):
-            yield t, self._table.read_where(query_string)
+            yield t, self._table.read_where(query_string, {'_v_t': t})
     
     def collect(self, keys, where=None):
         """
@@ -157,8 +157,8 @@ class AnalysedScene(object):
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
         # Fetch by foreign key from analysis:
-        query_string = '(trajid == trid)'
-        arr = self._table.read_where(query_string)
+        query_string = '(trajid == _v_trid)'
+        arr = self._table.read_where(query_string, {'_v_trid': trid})
         
         # Trim the points of trajectory that are not analysed: the last one, 
         # any that is followed by a hole, and those out of the analysed range.
diff --git a/flowtracks/io.py b/flowtracks/io.py
index 555e698..2f97519 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -858,7 +858,7 @@ def trajectories_table(fname, first=None, last=None):
     Returns:
     trajects - a list of Trajectory objects, each trimmed to the frame range.
     """
-    query_string = ('(trajid == trid)')
+    query_string = ('(trajid == _v_trid)')
     if first is not None:
         query_string += " & (time >= %d)" % first
     if last is not None:
@@ -868,7 +868,7 @@ def trajectories_table(fname, first=None, last=None):
     with tables.open_file(fname, mode='r') as outfile:
         table = outfile.get_node('/particles')
         for trid in np.unique(table.col('trajid')):
-            arr = table.read_where(query_string)
+            arr = table.read_where(query_string, {'_v_trid': trid})
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'trajid')
             kwds['trajid'] = trid
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 2337c39..b3ad91d 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -192,11 +192,11 @@ class Scene(object):
         """
         # I just repeat most of the code in iter_trajectories(). It is not the
         # pretties thing but trying to abstract these 5 lines would be uglier.
-        query_string = '(trajid == trid)'
+        query_string = '(trajid == _v_trid)'
         if self._frame_limit != '':
             query_string += ' & ' + self._frame_limit
         
-        arr = self._table.read_where(query_string)
+        arr = self._table.read_where(query_string, {'_v_trid': trid})
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'trajid')
         kwds['trajid'] = trid
@@ -208,12 +208,12 @@ class Scene(object):
         trajectory in the file (in no particular order, but the same order 
         every time on the same PyTables version) and yields it.
         """
-        query_string = '(trajid == trid)'
+        query_string = '(trajid == _v_trid)'
         if self._frame_limit != '':
             query_string += ' & ' + self._frame_limit
         
         for trid in self._trids:
-            arr = self._table.read_where(query_string)
+            arr = self._table.read_where(query_string, {'_v_trid': trid})
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'trajid')
             kwds['trajid'] = trid
@@ -238,12 +238,12 @@ class Scene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
+        query_string = '(time == _v_t)'
         if cond is not None:
             query_string = '&'.join([query_string, cond])
             
         for t in range(self._first, self._last):
-            yield t, self._table.read_where(query_string)
+            yield t, self._table.read_where(query_string, {'_v_t': t})
     
     def frame_by_time(self, t):
         """
@@ -256,8 +256,8 @@ class Scene(object):
         Returns:
         a ParticleSnapshot object.
         """
-        query_string = '(time == t)'
-        arr = self._table.read_where(query_string)
+        query_string = '(time == _v_t)'
+        arr = self._table.read_where(query_string, {'_v_t': t})
         
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'time')
-- 
2.43.0


From 55c3599963c22bd33556516515e858fa222a8a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 57/68] fix: properties that a table could not hold together
 were saved distorted, or as garbage if missing

---
 flowtracks/io.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2f97519..5a68437 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -733,6 +733,32 @@ def save_particles_table(filename, trajects, trim=None):
     with tables.open_file(filename, mode='w') as outfile:
         _write_particles_table(outfile, trajects, trim)
 
+def _fill_fields(arr, values):
+    """
+    Fill the fields of a structured array, other than time or id which are 
+    already there, with the properties of a trajectory or a frame. Refuses
+    properties that do not fit the ones for which ``arr`` was made.
+    
+    Arguments:
+    arr - a structured array, changed in place.
+    values - a dictionary, the array to store for each field.
+    """
+    missing = set(arr.dtype.names) - set(values) - set(['trajid', 'time'])
+    if len(missing) > 0:
+        raise ValueError("Missing properties: " + ', '.join(missing))
+    
+    for k, v in values.items():
+        v = np.asarray(v)
+        if arr[k].shape != v.shape:
+            raise ValueError("Property %s has a different shape than in the "
+                "first place it was stored" % k)
+        
+        arr[k] = v
+        # Integers, if that's what there was first, may not be able to hold v.
+        if arr[k].dtype.kind in 'iub' and (arr[k] != v).any():
+            raise ValueError("Property %s has values that don't fit the type "
+                "of the first ones stored" % k)
+
 def _write_particles_table(outfile, trajects, trim):
     """
     The actual writing of trajectories for :func:`save_particles_table`. The 
@@ -759,11 +785,10 @@ def _write_particles_table(outfile, trajects, trim):
         arr = np.empty(len(traj) - trim_len, dtype=dtype)
         arr['trajid'] = traj.trajid()
         
-        for k, v in traj.as_dict().items():
-            if trim_len == 0:
-                arr[k] = v
-            else:
-                arr[k] = v[trim:-trim]
+        values = traj.as_dict()
+        if trim_len > 0:
+            values = dict((k, v[trim:-trim]) for k, v in values.items())
+        _fill_fields(arr, values)
         
         table.append(arr)
         bounds_tab.append([
@@ -817,8 +842,7 @@ def _write_frames(outfile, frames):
         arr = np.empty(len(frame), dtype=dtype)
         arr['time'] = frame.time()
         
-        for k, v in frame.as_dict().items():
-            arr[k] = v
+        _fill_fields(arr, frame.as_dict())
         table.append(arr)
         
         # Keep track of trajectory starts/ends for the bounds table. 
-- 
2.43.0


From 19e4d43e855260118edc62e7cfd6c27b8016fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 58/68] fix: collecting a column twice from an analysed scene
 doubled its rows

---
 flowtracks/an_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 5bc7ec4..69bbcc6 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -134,7 +134,7 @@ class AnalysedScene(object):
             
             # For each dual frame, add the columns of specified keys to the list
             # of that key's results
-            for k in keys:
+            for k in res:
                 if k in pkeys:
                     res[k].append(p_arr[k])
                 else:
-- 
2.43.0


From 14e76bf878ca26e96609a74ed6959e80c928c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 59/68] fix: snapshots cut values to the type of the first
 trajectory in them

---
 flowtracks/trajectory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 3917ea8..daceef4 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -304,9 +304,11 @@ def take_snapshot(trajects, frame, schema):
         kwds['time'] = frame
         return ParticleSnapshot(trajid=np.empty(0), **kwds)
 
+    # The type should be able to hold the data of each trajectory.
     kwds = dict((k, np.empty(
         (len(trajects),) + v, 
-        dtype=trajects[0].__dict__['_' + k].dtype)) \
+        dtype=np.result_type(*set(tr.__dict__['_' + k].dtype \
+            for tr in trajects)))) \
         for k, v in schema.items())
 
     copy_keys = list(kwds.keys())
-- 
2.43.0


From 27624ac8c54804b511d6822d16354f30a7a12a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 60/68] fix: subrange of a sequence could not be used for
 iterating it

---
 flowtracks/sequence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index a5cb49c..cfc7efb 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -81,7 +81,9 @@ class Sequence(object):
             mins[trn] = t.min()
             maxs[trn] = t.max()
         
-        return max(mins.min(), self._rng[0]), min(maxs.max(), self._rng[1])
+        # As integers, good for iter_subrange() too.
+        return int(max(mins.min(), self._rng[0])), \
+            int(min(maxs.max(), self._rng[1]))
     
     def set_particle_selector(self, selector):
         """
-- 
2.43.0


From cb4c1f0c5e8fd4dcfb545e80ad64cc66922d58f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 61/68] fix: particle pairs were cut to the type of the time
 points asked

---
 flowtracks/pairs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index edc7f05..68831ea 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -29,13 +29,13 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
         returns -1 as the pair_time value.
     """
     # Output buffers:
-    pair_trids = np.empty_like(time_points)
-    pair_time = np.empty_like(time_points)
+    pair_trids = np.empty(len(time_points), dtype=np.int64)
+    pair_time = np.empty(len(time_points), dtype=np.int64)
     
     # Filter the primary set to only contain the trajectories actually required
     unique_prim = np.unique(trajids)
     prim_traj = [t for t in primary_trajects if t.trajid() in unique_prim]
-    frames = np.empty_like(time_points)
+    frames = np.empty(len(time_points), dtype=np.int64)
     
     # Typify primary/secondary on a per trajectory basis before combining them
     # into a single snapshot.
-- 
2.43.0


From c45f8dd663c1da42cf794cb036ec5fd601d6c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 62/68] fix: only the first of Matlab trajectories in a row was
 read

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 5a68437..df10c8b 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -220,7 +220,7 @@ def trajectories_mat(fname):
     # Get the workspace variable holding the trajectories:
     data_name = [s for s in data.keys() \
         if (not s.startswith('__')) and (not s == 'directory')][0]
-    raw = data[data_name][:,0]
+    raw = data[data_name].ravel() # may be a row or a column.
     
     trajects = []
     for traj in raw:
-- 
2.43.0


From 929f6914c11d91ff0fb31a6b82f1393096377771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 63/68] fix: saving trajectories to a directory under ~ put
 them where they were not loaded from

---
 flowtracks/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index df10c8b..7347c63 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -701,6 +701,7 @@ def save_trajectories(output_dir, trajects, per_traject_adds, **kwds):
         arrays to save for each trajectory.
     kwds - free arrays to save in the output dir
     """
+    output_dir = os.path.expanduser(output_dir)
     if not os.path.exists(output_dir):
         os.makedirs(output_dir)
     
-- 
2.43.0


From f64ec0885e480700d97b46ca2e0c28d0ab204dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 64/68] fix: results mapped over a sequence shifted in time if
 a particle had none in some frame

---
 flowtracks/sequence.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index cfc7efb..59a96f9 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -239,7 +239,8 @@ class Sequence(object):
         
         Returns:
         a dictionary keyed by trajid, where for each trajectory a time series 
-        of results obtained during the trajectory's lifetime is the value.
+        of results obtained during the trajectory's lifetime is the value. 
+        Frames where no result was obtained hold NaNs.
         """
         if subrange is None:
             subrange = self._rng
@@ -247,9 +248,9 @@ class Sequence(object):
         
         # Allocate result space:
         res = {}
-        frame_counters = {}
+        starts = {}
         
-        # Initialize result buffer and frame counter per trajectory.
+        # Initialize result buffer and its first frame per trajectory.
         for tr in trajects:
             trid = tr.trajid()
             t = tr.time()[:-1]
@@ -262,7 +263,7 @@ class Sequence(object):
                 continue
             
             res[trid] = [None]*len_in_range
-            frame_counters[trid] = 0
+            starts[trid] = int(t[in_range][0])
         
         for frame, next_frame in self.iter_subrange(*subrange):
             if history:
@@ -272,11 +273,14 @@ class Sequence(object):
             frm_res = func(*fargs)
             
             for k, v in frm_res.items():
-                res[k][frame_counters[k]] = v
-                frame_counters[k] += 1
+                res[k][frame.particles.time() - starts[k]] = v
         
         for k in res.keys():
-            res[k] = np.array(res[k])
+            # No result in a frame, e.g. because the particle coincides there 
+            # with another one, is represented by NaNs.
+            shape = np.shape(next((v for v in res[k] if v is not None), None))
+            res[k] = np.array([
+                np.full(shape, np.nan) if v is None else v for v in res[k]])
         return res
     
     def save_config(self, cfg):
-- 
2.43.0


From 79746e3aefd3996c660beeaef1cb7155fd98eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 65/68] fix: frames of trajectories with holes were taken from
 other frames

---
 flowtracks/pairs.py      |  3 ++-
 flowtracks/sequence.py   | 10 ++++++----
 flowtracks/trajectory.py | 38 +++++++++++++++++++++++++++++++++-----
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 68831ea..e10bd30 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -82,6 +82,7 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
     for traj in secondary_trajects:
         trid = traj.trajid()
         if trid not in unique_sec: continue
-        pair_time[pair_trids == trid] -= int(traj.time(0))
+        paired = pair_trids == trid
+        pair_time[paired] = np.searchsorted(traj.time(), pair_time[paired])
         
     return pair_trids, pair_time
diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 59a96f9..63c667b 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -248,9 +248,10 @@ class Sequence(object):
         
         # Allocate result space:
         res = {}
-        starts = {}
+        places = {}
         
-        # Initialize result buffer and its first frame per trajectory.
+        # Initialize result buffer and the place of frames in it, per 
+        # trajectory.
         for tr in trajects:
             trid = tr.trajid()
             t = tr.time()[:-1]
@@ -263,7 +264,8 @@ class Sequence(object):
                 continue
             
             res[trid] = [None]*len_in_range
-            starts[trid] = int(t[in_range][0])
+            places[trid] = dict((int(tp), pix) \
+                for pix, tp in enumerate(t[in_range]))
         
         for frame, next_frame in self.iter_subrange(*subrange):
             if history:
@@ -273,7 +275,7 @@ class Sequence(object):
             frm_res = func(*fargs)
             
             for k, v in frm_res.items():
-                res[k][frame.particles.time() - starts[k]] = v
+                res[k][places[k][frame.particles.time()]] = v
         
         for k in res.keys():
             # No result in a frame, e.g. because the particle coincides there 
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index daceef4..ca80b0a 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -243,6 +243,26 @@ def mark_unique_rows(all_rows):
         
     return uniq
 
+def point_in_frame(traj, frame_num):
+    """
+    Finds the time point of a trajectory that belongs to a given frame.
+    
+    Arguments:
+    traj - a Trajectory object.
+    frame_num - the time value (as found in trajectory.time()) to find.
+    
+    Returns:
+    the index of the time point, or None if the trajectory is not in the frame,
+    because it does not span it or because it has a hole there.
+    """
+    t = traj.time()
+    ix = int(frame_num - t[0])
+    if 0 <= ix < len(t) and t[ix] == frame_num: # no holes until there.
+        return ix
+    
+    found = np.nonzero(t == frame_num)[0]
+    return found[0] if len(found) > 0 else None
+
 def trajectories_in_frame(trajects, frame_num,
     start_times=None, end_times=None, segs=False):
     """
@@ -269,13 +289,18 @@ def trajectories_in_frame(trajects, frame_num,
     
     end_frm = (frame_num + 1) if segs else frame_num
     cands = (frame_num >= start_times) & (end_frm <= end_times)
+    
+    # Those with a hole in either frame are not there.
+    for trix in np.nonzero(cands)[0]:
+        cands[trix] = all(point_in_frame(trajects[trix], frm) is not None \
+            for frm in (frame_num, end_frm))
     cand_nums = np.nonzero(cands)[0]
     
     if len(cand_nums) > 0:
         # Filter candidates with overlapping particles.
-        frm_ixs = (frame_num - start_times[cands]).astype(np.int64)
-        pos = np.array([trajects[trix].pos()[frm] \
-            for trix, frm in zip(cand_nums, frm_ixs)])
+        pos = np.array([
+            trajects[trix].pos()[point_in_frame(trajects[trix], frame_num)] \
+            for trix in cand_nums])
         
         update_cands = np.zeros(pos.shape[0], dtype=np.bool)
         update_cands[mark_unique_rows(pos)] = True
@@ -315,8 +340,11 @@ def take_snapshot(trajects, frame, schema):
     kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
-        first_frame = traj.time()[0]
-        frm_ix = int(frame - first_frame) # time may be held as float.
+        frm_ix = point_in_frame(traj, frame)
+        if frm_ix is None:
+            raise ValueError("Trajectory %s is not in frame %s" \
+                % (traj.trajid(), frame))
+        
         for prop in copy_keys:
             kwds[prop][trix] = traj.__dict__[prop](frm_ix)
 
-- 
2.43.0


From b40108a76ab6a8b1f974cef9ad5b33544ea1f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 66/68] fix: numerical Jacobians at points which coincide with
 a tracer were affected by it

---
 flowtracks/interpolation.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 4af9911..00e838c 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -476,7 +476,7 @@ class GeneralInterpolant(object):
             
         return self._meth_interp(act_neighbs)
     
-    def _meth_interp(self, act_neighbs):
+    def _meth_interp(self, act_neighbs, neighb_dists=None):
         """
         Implement the actual interpolation. Subclass this, not
         :meth:`interpolate`.
@@ -487,7 +487,12 @@ class GeneralInterpolant(object):
             Default value (None) uses the recorded selection. The recorded
             selection is not changed, so ``subset`` is forgotten after the
             call.
+        neighb_dists - same shape, the distance to each of the neighbours. 
+            Default value (None) uses the recorded distances.
         """
+        if neighb_dists is None:
+            neighb_dists = self.__dists
+        
         # The methods below need, for each interpolation point, the distance to
         # all tracers and whether each is used, rather than neighbour indices.
         num_tracers = self.__tracers.shape[0]
@@ -495,7 +500,7 @@ class GeneralInterpolant(object):
         dists = np.zeros(use_parts.shape)
         pts, neighbs = np.nonzero(act_neighbs < num_tracers)
         use_parts[pts, act_neighbs[pts, neighbs]] = True
-        dists[pts, act_neighbs[pts, neighbs]] = self.__dists[pts, neighbs]
+        dists[pts, act_neighbs[pts, neighbs]] = neighb_dists[pts, neighbs]
         
         if self._method == 'rbf':
             return rbf_interp(self.__tracer_dists, dists, use_parts,
@@ -578,13 +583,21 @@ class GeneralInterpolant(object):
         if local_interp is None:
             local_interp = self.interpolate()
 
+        # Like the interpolation itself.
+        if len(self.__tracers) == 0:
+            return np.zeros(local_interp.shape + (3,))
+        
+        # Each displaced point keeps the neighbours of its origin. Especially, 
+        # it is not affected by a tracer that the origin coincides with.
+        neighbs = self.current_active_neighbs()
+        rel_pos = self.current_relative_positions()
+        
         ret = np.empty(local_interp.shape + (3,))
-        ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp) 
-        ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp) 
-        ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
+        for axis in range(3):
+            step = np.zeros(3)
+            step[axis] = eps
+            ret[:,:,axis] = self._meth_interp(
+                neighbs, np.linalg.norm(rel_pos - step, axis=2))
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
-- 
2.43.0


From f49af3e561de5de19e327c1c68df49d874c65e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 67/68] fix: companion indices of any ID type

The index array had the type of the companions' IDs. It overflowed silently
when there were more tracers than a small integer type can count, failed for
unsigned types, and could not be used as indices if they are floats.
---
 flowtracks/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index da492de..bd7ff99 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -20,7 +20,8 @@ def companion_indices(trids, companions):
     Return an array giving for each companion its respective index in the 
     trajectory ID array, or a negative number if not found.
     """
-    comp = np.full_like(companions, -1)
+    # Indices don't necessarily fit the type used for IDs.
+    comp = np.full(np.shape(companions), -1, dtype=np.int64)
     idx = np.nonzero(trids[:,None] == companions)
     comp[idx[1]] = idx[0]
     return comp
-- 
2.43.0


From 0f32d075217c3987b3152a27cac2950736851242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 68/68] fix: points which coincide with several tracers got too
 few neighbours

---
 flowtracks/interpolation.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 00e838c..e493fa5 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -370,12 +370,19 @@ class GeneralInterpolant(object):
             shape = (len(interp_pts), self._neighbs)
             return np.full(shape, np.inf), np.zeros(shape, dtype=int)
         
-        dists, active_neighbs = self.__field_tree.query(
-            interp_pts, self._neighbs + 2, distance_upper_bound=self._upb)
-        keep = dists > 0.
-        
-        if comp is not None:
-            keep &= active_neighbs != comp[:, None]
+        extra = 2
+        while True:
+            dists, active_neighbs = self.__field_tree.query(interp_pts, 
+                self._neighbs + extra, distance_upper_bound=self._upb)
+            keep = dists > 0.
+            
+            if comp is not None:
+                keep &= active_neighbs != comp[:, None]
+            
+            # More than one tracer may be in the position of the same point.
+            if (keep.sum(axis=1) >= self._neighbs).all():
+                break
+            extra *= 2
         
         # Move the removed neighbours to the end, as missing ones.
         dists[~keep] = np.inf
-- 
2.43.0

