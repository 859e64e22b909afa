From 5f8e7e7edef3b670cad16b6cdb68717ffcae6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 01/36] fix: give each Monte Carlo trial its own random stream

Forked workers all start from the parent's generator state, so trials were
repeated once per worker and results depended on scheduling.
---
 src/craterstats/Randomnessanalysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 0a35941..8cfec4f 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -476,6 +476,8 @@ def evaluate_randomness(self_pp, pts, ids, hpd):
     return measure, p2
 
 def run_trial(self_pp, b, n, trial_index):
+    # own random stream for each trial: workers start with copies of the same generator state
+    np.random.seed([42, trial_index, n, np.float32(b).view(np.uint32)])
     pts, ids, hpd = sprinkle_discs_pp(self_pp, n, b)  # Generate points and ids
     m, _ = evaluate_randomness(self_pp, pts, ids, hpd)
     return m
-- 
2.43.0


From 734f29dc23fd9527270a423d596e7fb33db2bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 02/36] fix: randomness analysis on single-processor machines

The worker count was 0 (or undefined) there and the pool refused to start.
---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 8cfec4f..70c8b10 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -30,7 +30,7 @@ class Randomnessanalysis(cst.Spatialcount):
         super().__init__(filename,area_file)
         self.init_Cratercount()
         self.montecarlo = {}
-        self.max_threads = os.cpu_count()-1
+        self.max_threads = max((os.cpu_count() or 1) - 1, 1)
         self.ra_file = (out if out else self.name) + "_ra.txt"
         self.progress_queue = progress_queue
         self.read()
-- 
2.43.0


From 3b8ff7873307cd2b1215105b5c59efb72c290737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 03/36] fix: do not register trials of an unfinished Monte
 Carlo run

After a failed or cancelled run the object claimed to have all trials, so a
retry was skipped.
---
 src/craterstats/Randomnessanalysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 70c8b10..d1fa90e 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -144,7 +144,7 @@ class Randomnessanalysis(cst.Spatialcount):
         match measure:
             case 'sdaa': min_count = 4
             case 'm2cnd': min_count = 3
-        self.montecarlo[measure]['trials'] = {}
+        trials = {}
 
         for b,n in zip(self.cc.binned['d_min'],self.cc.binned['n_event']):
             if n >= min_count:
@@ -157,7 +157,8 @@ class Randomnessanalysis(cst.Spatialcount):
                     m = montecarlo_serial(self_pp, b, n)
                 else: # do parallel monte carlo for random configs
                     m = montecarlo_pp(self_pp, b, n, progress_queue=self.progress_queue)
-                self.montecarlo[measure]['trials'][bin] = m
+                trials[bin] = m
+        self.montecarlo[measure] = {'n_trials':self_pp.trials, 'trials':trials} # record only when complete
 
     def run_montecarlo(self, trials, measure):
         np.random.seed(42)
@@ -165,7 +166,6 @@ class Randomnessanalysis(cst.Spatialcount):
         self_pp = self.self_pp(trials, measure)
 
         if not measure in self.montecarlo or not self.montecarlo[measure]['n_trials'] >= trials: # skip montecarlo if already have data
-            self.montecarlo[measure] = {'n_trials':trials}
             self.montecarlo_split(measure, self_pp)
 
     def calculate_stats(self):
-- 
2.43.0


From 459feafc0e4382df7d9e3cc98deee2818e0b5ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 04/36] fix: replace randomness results file atomically

An interrupted or failed write destroyed the previously recorded trials, or left
a truncated file which was later read as if complete.
---
 src/craterstats/Randomnessanalysis.py     |  2 +-
 src/craterstats/gm/file/write_textfile.py | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index d1fa90e..badbc79 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -433,7 +433,7 @@ class Randomnessanalysis(cst.Spatialcount):
                 + trials
                 + ['}'])
             s += s1
-        gm.write_textfile(self.ra_file,s)
+        gm.write_textfile(self.ra_file,s,atomic=True)
 
     def read(self):
         # allow read from source file location, but write will still be to current dir or -o
diff --git a/src/craterstats/gm/file/write_textfile.py b/src/craterstats/gm/file/write_textfile.py
index e9beb17..dc18c74 100644
--- a/src/craterstats/gm/file/write_textfile.py
+++ b/src/craterstats/gm/file/write_textfile.py
@@ -1,15 +1,28 @@
 #  Copyright (c) 2021-2025, Greg Michael
 #  Licensed under BSD 3-Clause License. See LICENSE.txt for details.
 
-def write_textfile(filename,s,BOM=False,append=False):
+import os
+
+def write_textfile(filename,s,BOM=False,append=False,atomic=False):
     '''
     write string or list of strings to text file
 
     :param filename: filename
     :param s: string or list of strings
+    :param atomic: replace any existing file only once the new content is completely written
     :return: none
     '''
 
+    if atomic:
+        tmp = f'{filename}.{os.getpid()}.tmp'
+        try:
+            write_textfile(tmp, s, BOM=BOM)
+            os.replace(tmp, filename)
+        except BaseException:
+            if os.path.exists(tmp): os.remove(tmp)
+            raise
+        return
+
     filemode = 'a' if append else 'w'
     with open(filename, filemode, encoding='utf-8-sig' if BOM else 'utf-8') as file:
         file.writelines('\n'.join(s) if type(s) is list else s)
\ No newline at end of file
-- 
2.43.0


From 13fa6356f5890e9be3f148832f01c56ced455b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 05/36] fix: respect -measure option

The requested measures were stored under another name and both were always run.
---
 src/craterstats/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6feb4fc..fee0b3a 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -404,8 +404,8 @@ def randomness_analysis(args,cps,progress_queue=None):
     cps.out = gm.filename(ra.ra_file,'pn')
     trials = args.trials if args.trials else cps.trials
     if args.measure:
-        cps.measures = set(args.measure.split(','))
-        diff = cps.measures - {'m2cnd','sdaa'}
+        cps.measure = set(args.measure.split(','))
+        diff = cps.measure - {'m2cnd','sdaa'}
         if diff:
             sys.exit(f"Invalid measure: {diff}")
     for measure in cps.measure:
-- 
2.43.0


From f322ccc14c3b11ae7f96e0feec2f1203f384113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 06/36] fix: randomness analysis with several image formats

The analysis was repeated for each format under a changed output name
(X_ra_ra.txt), so each format went to a different file.
---
 src/craterstats/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index fee0b3a..02b0b0f 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -439,10 +439,12 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         cps.fig.savefig(cps.out + tag + '.' + f, dpi=500, transparent=cps.transparent,
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
+    ra = None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
-                ra = randomness_analysis(args, cps,progress_queue=progress_queue)
+                if ra is None: # do once for all formats: also sets output name
+                    ra = randomness_analysis(args, cps,progress_queue=progress_queue)
                 selection = cst.ra_decode_selection(args.select)
                 for measure in cps.measure:
                     if selection==[0]:
-- 
2.43.0


From aa5c0afb4f442010bbe425548bbb1e5dcb63ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 07/36] fix: uncertainty presentation with several image
 formats

Only the first format got its three plots, any other an empty one.
---
 src/craterstats/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 02b0b0f..e533c77 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -440,6 +440,7 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
     ra = None
+    single_fig = age_area_result is not None # send to single fig output for gui
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
@@ -453,9 +454,10 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                     else:
                         ra.plot_montecarlo_split(cps, measure, selection=selection)
                         savefig(f'-{measure}')
-            elif cps.presentation == 'uncertainty' and age_area_result is None: # send to single fig output for gui
-                cps.calculate_time_axis_params()
-                age_area_result = cps.compute_age_area()
+            elif cps.presentation == 'uncertainty' and not single_fig:
+                if age_area_result is None:
+                    cps.calculate_time_axis_params()
+                    age_area_result = cps.compute_age_area()
                 for plt in ('k', 'err', 'age'):
                     cps.draw()
                     cps.age_area_plot(plt,age_area_result)
-- 
2.43.0


From 9da75ce0c3c4e67089bd88f81018df425af16bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 08/36] fix: NameError when output is an existing directory

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e533c77..e8920b8 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -432,7 +432,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(v + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + gm.filename(default_filename,'n'))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
-- 
2.43.0


From d969363b5e3915b2c28368120ab8c93e4fe4e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 09/36] fix: input command file given by relative path in
 another directory

The relative path was opened after changing into that directory.
---
 src/craterstats/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e8920b8..8c875c1 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -37,6 +37,7 @@ class SpacedString(argparse.Action):
 class LoadFromFile(argparse.Action):
     def __call__ (self, parser, namespace, values, option_string = None):
         if option_string in ('-i','--input'):
+            values = os.path.abspath(values) # still valid after changing directory
             self.work_dir = gm.filename(values,'p')
             if os.path.isdir(self.work_dir):
                 os.chdir(self.work_dir)
-- 
2.43.0


From 077b00c1ddba623c1806286c87f90c7d64cd3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 10/36] fix: missing user functions file or broken setting
 disabled every command

The fallback used an undefined name, and an empty setting raised an IndexError.
The setting is now also replaced atomically.
---
 src/craterstats/miscellaneous.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 31e45be..ef3cf32 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -70,12 +70,13 @@ class Functionslist:
         s = gm.read_textfile(cst.PATH+'config/functions.txt', ignore_hash=True, strip=';', as_string=True)
         self.config = self.user_function_config()
         if self.config:
-            uf = gm.read_textfile(self.config, ignore_hash=True)[0] if gm.file_exists(self.config) else None
-            if uf:
-                try:
+            uf = self.config
+            try:
+                uf = next(iter(gm.read_textfile(self.config, ignore_hash=True)), None) if gm.file_exists(self.config) else None
+                if uf:
                     s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
-                except:
-                    print("Unable to read user functions file: "+functions_user+" - ignoring.")
+            except (OSError, ValueError):
+                print("Unable to read user functions file: "+uf+" - ignoring.")
         self.functions = gm.read_textstructure(s,from_string=True)
 
     def user_function_config(self):
@@ -89,7 +90,7 @@ class Functionslist:
     def set_user_functions_config(self,path):
         if path:
             s = ['#path to functions_user.txt', path]
-            gm.write_textfile(self.config, s)
+            gm.write_textfile(self.config, s, atomic=True)
             print(': '.join(s)[1:])
 
     def print(self):
-- 
2.43.0


From 42ff65145b20b6b96d5f64e2c02bc3b9ab32794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 11/36] fix: unsupported conversions reported as written

---
 src/craterstats/cli.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 8c875c1..9d76c3d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -322,25 +322,22 @@ def convert_format(args, cps, cs_content):
             cc = cst.Cratercount(src)
             out = gm.filename(out, 'p1e', cc.name)
             cc.WriteStatFile(out)
-        case 'scc':
-            if fmt0 == 'shp':
-                scc = cst.Spatialcount(src)
-                out = gm.filename(out, 'p1e', scc.name)
-                scc.writeSCCfile(out)
-        case 'shp':
-            if fmt0 == 'scc':
-                scc = cst.Spatialcount(src)
-                scc.writeSHPfiles(out)
-                out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
-        case 'png'|'svg'|'pdf':
-            if fmt0 in ['shp','scc']:
-                out = re.sub(r'_?CRATER_?', '', out)
-                if not args.input:
-                    out = gm.filename(out, 'pn1e','_map')
-                    gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
-                cps.create_map_plotspace()
-                scc.plot(cps,grid=True)
-                cps.fig.savefig(out, dpi=500, transparent=cps.transparent, bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
+        case 'scc' if fmt0 == 'shp':
+            scc = cst.Spatialcount(src)
+            out = gm.filename(out, 'p1e', scc.name)
+            scc.writeSCCfile(out)
+        case 'shp' if fmt0 == 'scc':
+            scc = cst.Spatialcount(src)
+            scc.writeSHPfiles(out)
+            out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
+        case 'png'|'svg'|'pdf' if fmt0 in ['shp','scc']:
+            out = re.sub(r'_?CRATER_?', '', out)
+            if not args.input:
+                out = gm.filename(out, 'pn1e','_map')
+                gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
+            cps.create_map_plotspace()
+            scc.plot(cps,grid=True)
+            cps.fig.savefig(out, dpi=500, transparent=cps.transparent, bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
         case _:
             print(f"{fmt0} to {fmt1} conversion not supported")
             return
-- 
2.43.0


From 58589587c99cc00a72d030f8491a5f7d95b295b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 12/36] fix: markers shrank on each redraw of a plot

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a9458d5..e959bbd 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -186,6 +186,7 @@ class Craterplotset:
 
 # set up marker size
         f = self.decades[0] * self.print_scale / 7.5
+        self.marker_def = [e[2].copy() for e in cst.MARKERS] # start from base size on each redraw
         for e in self.marker_def:
             e['markersize'] *= 0.8 * f  # * self.print_scale/1.875
             e['markeredgewidth'] = .5 * f  # * self.print_scale/1.875
-- 
2.43.0


From 29e726661cf5800644467db82b75cc1bc19294e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 13/36] fix: order of trial counts in n_sigma label depended on
 hash seed

---
 src/craterstats/Craterplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index c9517cb..2fd0cb4 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -151,7 +151,7 @@ class Craterplot:
             for i,m in enumerate(cps.measure):
                 cps.ax_ra.text(xr[0] - mg*.03, y[i], m, color=cps.palette[0], size=.5 * cps.scaled_pt_size,  va='center', ha='right')
                 cps.ax_ra.plot([xr[0] - mg*.027,xr[0] - mg*.005], [y[i]]*2, color=cps.palette[0], lw=.5 * cps.sz_ratio, linestyle=cst.LINESTYLES[m])
-            cps.ax_ra.text(xr[0] - mg * .005, y[-1], ', '.join(set(self.cratercount.n_trials))+" trials", color=cps.palette[0], size=.5 * cps.scaled_pt_size, va='center', ha='right')
+            cps.ax_ra.text(xr[0] - mg * .005, y[-1], ', '.join(sorted(set(self.cratercount.n_trials),key=int))+" trials", color=cps.palette[0], size=.5 * cps.scaled_pt_size, va='center', ha='right')
 
             xtickv, xtickname, _, xminorv = cst.Hartmann_bins([xr[0],xr[1]+.001])
             cps.ax_ra.spines['top'].set_position(('data', cst.n_sigma_scaling(3)))
-- 
2.43.0


From 30258b2b6748ee78833bf546e4d5fa2cd8dcd25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 14/36] fix: keep error message and status when reading a
 crater count exits

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9c118cc..2245c8c 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -42,7 +42,7 @@ class Cratercount:
             elif filetype == None: pass #just create empty object
             else: bad_filetype = True
         except SystemExit:
-            sys.exit()
+            raise
         except:
             sys.exit("Unable to read file: "+filename)
         if bad_filetype: sys.exit("Unrecognised crater count file type: " + filename)
-- 
2.43.0


From e5769270fc7c16ffecfddd255c2fe48f9d474043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 15/36] fix: few trials over a large area gave a fractional
 HEALPix nside

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index badbc79..91e56bc 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -60,7 +60,7 @@ class Randomnessanalysis(cst.Spatialcount):
         desired_nbins = n/10
         desired_bin_area = self.area / desired_nbins
         desired_n_hpx = area_globe / desired_bin_area
-        nside = 2**round(np.log2(math.sqrt(desired_n_hpx/12)))
+        nside = 2**max(round(np.log2(math.sqrt(desired_n_hpx/12))), 0)
         self.hp = hpx.HEALPix(nside=nside, order='nested')
 
     def oplot_neighbours(self,cps,craters,neighbours,ax=None):
-- 
2.43.0


From 81c422bdc85ac580e5848bafbfe6f5040c4cf93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 16/36] fix: neighbour search could miss craters across HEALPix
 base pixel boundaries

---
 src/craterstats/Randomnessanalysis.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 91e56bc..0ded547 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -547,6 +547,13 @@ def random_points_pp(self ,n):
     x = np.random.uniform(self.xr[0], self.xr[1], n)
     return zip(x ,y)
 
+def cells_within_pp(self, lon, lat, angular_radius):
+    """
+    find HEALPix cells overlapping a cone. Cone search may omit cells across a base pixel boundary: widen it by one cell
+    """
+    r = min(angular_radius + self.hp.pixel_resolution.to_value(u.rad), math.pi)
+    return self.hp.cone_search_lonlat(lon*u.deg, lat*u.deg, r*u.rad)
+
 def sprinkle_discs_pp(self ,n ,diam):
     """
     generate z random points in enclosing area
@@ -568,7 +575,7 @@ def sprinkle_discs_pp(self ,n ,diam):
             if sph.within(pt, self.polygon):
 
                 # erase existing craters closer than diam/2
-                hpx_neighbours = self.hp.cone_search_lonlat(lon*u.deg, lat*u.deg, angular_radius*u.rad)
+                hpx_neighbours = cells_within_pp(self, lon, lat, angular_radius)
                 for id in hpx_neighbours:
                     if id in hpd:
                         len0 = len(hpd[id])
@@ -623,7 +630,7 @@ def kth_nearest_neighbour_pp(self, pts,ids,hpd, k=1):
             debug = 4
 
             # redefine neighbourhood based on known kth closest: if pt near edge, could be over hpx cell boundary
-            hpx_neighbours = self.hp.cone_search_lonlat(sph.get_x(pt) * u.deg, sph.get_y(pt) * u.deg, d0/self.planetary_radius * u.rad)
+            hpx_neighbours = cells_within_pp(self, sph.get_x(pt), sph.get_y(pt), d0/self.planetary_radius)
             d1, pt1 = get_kth(pt, hpx_neighbours)
             debug = 5
             neighbours += [pt1]
-- 
2.43.0


From 729a0a9e1ecfc14afc043b80cb2a2fdf8aa6be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 17/36] fix: progress steps were reported before they were done

---
 src/craterstats/gm/misc/iterator_with_progress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/misc/iterator_with_progress.py b/src/craterstats/gm/misc/iterator_with_progress.py
index 773c178..ea55775 100644
--- a/src/craterstats/gm/misc/iterator_with_progress.py
+++ b/src/craterstats/gm/misc/iterator_with_progress.py
@@ -18,8 +18,8 @@ def iterator_with_progress(enumerated_iterable, total=None, progress_queue=None)
     if progress_queue is not None:
         def generator():
             for i, item in enumerated_iterable:
-                progress_queue.put(("progress",i + 1, total))
                 yield i, item
+                progress_queue.put(("progress",i + 1, total)) # item is done when next is requested
         return generator()
     else:
         from progressbar import progressbar
-- 
2.43.0


From 1a0039c9dc2437fa6bccf2233490bb6a5234c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 18/36] fix: order of measures and formats depended on the hash
 seed

---
 src/craterstats/Craterplot.py | 2 +-
 src/craterstats/cli.py        | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 2fd0cb4..f177127 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -148,7 +148,7 @@ class Craterplot:
                 cps.ax_ra.text(xr[1], cst.n_sigma_scaling(y)+dy, f"{abs(y):>2}", color=cps.palette[0], size=.35 * cps.scaled_pt_size, va='center', ha='left')
 
             y = [((len(cps.measure)) / 2 - i) * cst.n_sigma_scaling(1) * 1.3 for i in range(len(cps.measure)+1)]
-            for i,m in enumerate(cps.measure):
+            for i,m in enumerate(sorted(cps.measure)):
                 cps.ax_ra.text(xr[0] - mg*.03, y[i], m, color=cps.palette[0], size=.5 * cps.scaled_pt_size,  va='center', ha='right')
                 cps.ax_ra.plot([xr[0] - mg*.027,xr[0] - mg*.005], [y[i]]*2, color=cps.palette[0], lw=.5 * cps.sz_ratio, linestyle=cst.LINESTYLES[m])
             cps.ax_ra.text(xr[0] - mg * .005, y[-1], ', '.join(sorted(set(self.cratercount.n_trials),key=int))+" trials", color=cps.palette[0], size=.5 * cps.scaled_pt_size, va='center', ha='right')
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 9d76c3d..d232709 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -406,7 +406,7 @@ def randomness_analysis(args,cps,progress_queue=None):
         diff = cps.measure - {'m2cnd','sdaa'}
         if diff:
             sys.exit(f"Invalid measure: {diff}")
-    for measure in cps.measure:
+    for measure in sorted(cps.measure):
         ra.run_montecarlo(trials, measure)
         # do each loop so as to retain data if interrupted
         ra.calculate_stats()
@@ -439,13 +439,13 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
 
     ra = None
     single_fig = age_area_result is not None # send to single fig output for gui
-    for f in cps.format:
+    for f in sorted(cps.format): # fixed order: sets of strings are ordered differently in each process
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
                 if ra is None: # do once for all formats: also sets output name
                     ra = randomness_analysis(args, cps,progress_queue=progress_queue)
                 selection = cst.ra_decode_selection(args.select)
-                for measure in cps.measure:
+                for measure in sorted(cps.measure):
                     if selection==[0]:
                         ra.plot_n_sigma(cps, measure)
                         savefig(f'-{measure}-n_sigma')
-- 
2.43.0


From c911b02025f6fe9371df078e5f44b63c0b5b22fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 19/36] fix: converted stat and scc files are written under the
 name given with -o

---
 src/craterstats/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index d232709..c963478 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -320,11 +320,11 @@ def convert_format(args, cps, cs_content):
     match fmt1:
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
-            out = gm.filename(out, 'p1e', cc.name)
+            if args.out is None or os.path.isdir(args.out): out = gm.filename(out, 'p1e', cc.name)
             cc.WriteStatFile(out)
         case 'scc' if fmt0 == 'shp':
             scc = cst.Spatialcount(src)
-            out = gm.filename(out, 'p1e', scc.name)
+            if args.out is None or os.path.isdir(args.out): out = gm.filename(out, 'p1e', scc.name)
             scc.writeSCCfile(out)
         case 'shp' if fmt0 == 'scc':
             scc = cst.Spatialcount(src)
-- 
2.43.0


From de414dbaa52ffddee33d60246733f65fc1cb4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 20/36] fix: running a command file with -i does not change the
 working directory of later commands in the same process

---
 src/craterstats/cli.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index c963478..4a8ad95 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -483,6 +483,13 @@ def list_symbols_and_colours():
     print(', '.join([f'{e[2]}' for e in cst.PALETTE]))
 
 def main(args0=None):
+    work_dir = os.getcwd()
+    try:
+        run_command(args0)
+    finally:
+        os.chdir(work_dir) # -i changes directory: restore for any following command
+
+def run_command(args0=None):
     args = get_parser().parse_args(args0)
     if not args0: args0=sys.argv[1:]
 
-- 
2.43.0


From 52bb77f424e350a5867708da7d13013c67158914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 21/36] fix: table row of one age fit depended on the kind of
 the last one

---
 src/craterstats/Craterplotset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index e959bbd..141cd05 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -682,7 +682,7 @@ class Craterplotset:
         table = (('name', '24', '', None),
                  ('area', '8', '.5g', None),
                  ('binning', '>10', '', None),
-                 ('bin_range' if d['type'] in ('c-fit','d-fit') and d['resurf'] != 1 else 'range', '5', '.2g', ('d_min', 'd_max')),
+                 ('range', '5', '.2g', ('d_min', 'd_max')),
                  ('type', '>9', '', ('Method',)),
                  ('resurf', '6', '', None),
                  ('n', '7', '', None),
@@ -711,6 +711,7 @@ class Craterplotset:
             for k,w,f,_ in table:
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
+                if k=='range' and d['type'] in ('c-fit','d-fit') and d['resurf'] != 1: k='bin_range'
                 if k in ('range','bin_range','t','a0'):
                     v = ','.join([f"{e:{f}}" for e in d[k]])
                     if k in ('range','bin_range'):
-- 
2.43.0


From e61b54a593de66e3a7b36b3cf8cf9df5d0046d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 22/36] fix: including settings with -inc changed the output
 name and source directory of -i

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 4a8ad95..58b778d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -47,7 +47,7 @@ class LoadFromFile(argparse.Action):
                 a=f.read()
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
                 parser.parse_args(shlex.split(a), namespace)
-                namespace.input_filename = f.name
+                if self.dest == 'input': namespace.input_filename = f.name # names outputs and locates sources
                 setattr(namespace, self.dest, True)
         except FileNotFoundError:
             raise argparse.ArgumentError(self, f"File not found: {values}")
-- 
2.43.0


From b64768033d252893a53dcd9ee367120e1556bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 23/36] fix: a command file given with -inc was overwritten by
 the saved command of the same name

---
 src/craterstats/cli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 58b778d..3c86683 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -48,6 +48,7 @@ class LoadFromFile(argparse.Action):
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
                 parser.parse_args(shlex.split(a), namespace)
                 if self.dest == 'input': namespace.input_filename = f.name # names outputs and locates sources
+                namespace.command_files = getattr(namespace, 'command_files', []) + [os.path.realpath(values)]
                 setattr(namespace, self.dest, True)
         except FileNotFoundError:
             raise argparse.ArgumentError(self, f"File not found: {values}")
@@ -301,6 +302,10 @@ def construct_plot_dicts(args,plot,cps_dict):
         cpl += [p]
     return cpl
 
+def save_commands(args, filename, cs_content):
+    if os.path.realpath(filename) not in getattr(args, 'command_files', []): # don't overwrite what was given with -inc
+        gm.write_textfile(filename, cs_content)
+
 def convert_format(args, cps, cs_content):
     def outfile(name, out, ext):
         if out != 'out':
@@ -334,7 +339,7 @@ def convert_format(args, cps, cs_content):
             out = re.sub(r'_?CRATER_?', '', out)
             if not args.input:
                 out = gm.filename(out, 'pn1e','_map')
-                gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
+                save_commands(args, gm.filename(out, 'pn1', '.cs'), cs_content)
             cps.create_map_plotspace()
             scc.plot(cps,grid=True)
             cps.fig.savefig(out, dpi=500, transparent=cps.transparent, bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
@@ -554,7 +559,7 @@ def run_command(args0=None):
     write_output_files(args,cps)
 
     if not args.input:
-            gm.write_textfile(cps.out + '.cs', cs_content)
+            save_commands(args, cps.out + '.cs', cs_content)
 
 if __name__ == '__main__': 
     main()
-- 
2.43.0


From 235ac183ca769429e940cc9eb98233af03aceb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 24/36] fix: a saved command file was destroyed by a later
 attempt killed while rewriting it

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 3c86683..45341b7 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -304,7 +304,7 @@ def construct_plot_dicts(args,plot,cps_dict):
 
 def save_commands(args, filename, cs_content):
     if os.path.realpath(filename) not in getattr(args, 'command_files', []): # don't overwrite what was given with -inc
-        gm.write_textfile(filename, cs_content)
+        gm.write_textfile(filename, cs_content, atomic=True)
 
 def convert_format(args, cps, cs_content):
     def outfile(name, out, ext):
-- 
2.43.0


From 7096d18914b26b720321e7cef6e6c9670681229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 25/36] fix: user functions file set by relative path was not
 found from other directories

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index ef3cf32..c675656 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -89,7 +89,7 @@ class Functionslist:
 
     def set_user_functions_config(self,path):
         if path:
-            s = ['#path to functions_user.txt', path]
+            s = ['#path to functions_user.txt', os.path.abspath(path)] # later commands may run in other directories
             gm.write_textfile(self.config, s, atomic=True)
             print(': '.join(s)[1:])
 
-- 
2.43.0


From ee4e7c5509151fdf304dcd5ad81287718d10f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 26/36] fix: saved command file was unusable if an option was
 given as -option=value with spaces or quotes

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 45341b7..84ed83d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -546,7 +546,7 @@ def run_command(args0=None):
     cpl = [cst.Craterplot(d) for d in cp_dicts]
     cps.craterplot=cpl
 
-    cs_content = ''.join(['\n'+e if e[0]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
+    cs_content = ''.join(['\n'+shlex.quote(e) if e[0]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
 
     if args.convert:
         convert_format(args, cps, cs_content)
-- 
2.43.0


From 37530545e25c0842b46bc93f0475628150fcb10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 27/36] fix: saved command file was read in the encoding of the
 locale but written in utf-8

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 84ed83d..243471d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -42,7 +42,7 @@ class LoadFromFile(argparse.Action):
             if os.path.isdir(self.work_dir):
                 os.chdir(self.work_dir)
         try:
-            with open(values) as f:
+            with open(values, encoding='utf-8-sig') as f:
                 # parse arguments in the file and store them in the target namespace
                 a=f.read()
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
-- 
2.43.0


From fe71a28cdfb3341e01baac247a48eba1766e8749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 28/36] fix: command file saved for a map with -o produced the
 map under another name

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 243471d..b028cea 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -337,8 +337,9 @@ def convert_format(args, cps, cs_content):
             out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
         case 'png'|'svg'|'pdf' if fmt0 in ['shp','scc']:
             out = re.sub(r'_?CRATER_?', '', out)
-            if not args.input:
+            if not args.input or not (args.out is None or os.path.isdir(args.out)): # not if named by input file
                 out = gm.filename(out, 'pn1e','_map')
+            if not args.input:
                 save_commands(args, gm.filename(out, 'pn1', '.cs'), cs_content)
             cps.create_map_plotspace()
             scc.plot(cps,grid=True)
-- 
2.43.0


From 16aed4349df3423feec887667d0ca156ebf86439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 29/36] fix: binning with an offset was taken for the standard
 binning by later operations on the same count

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 2245c8c..be9ecc2 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -309,7 +309,7 @@ class Cratercount:
                      'ncum':np.flip(np.cumsum(np.flip(h))),
                      'ncum_event':np.flip(np.cumsum(np.flip(h_event)))
                      }
-        self.binning=binning
+        self.binning=binning if offset==0. else None # offset bins don't serve later requests for standard ones
 
 
     def decode_range(self,range,binning,snap):
-- 
2.43.0


From 89f3faf0d71021237609e9771e736f287e9da48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 30/36] fix: a drawing that was interrupted made the plot set
 undrawable

---
 src/craterstats/Craterplotset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 141cd05..7ce3b7e 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -148,7 +148,7 @@ class Craterplotset:
 
         """
 
-        if self.fig: del self.fig
+        self.fig = None
         self.EstablishFontandScaling()
             
 #set up plot dimensions
@@ -367,7 +367,7 @@ class Craterplotset:
         """
         Set up plotspace with normal/split time axis for sequence, uncertainty plot
         """
-        if self.fig: del self.fig
+        self.fig = None
         self.EstablishFontandScaling()
 
         xsize, ysize, margin, xfrac_linear, t_crossover, log_t_min, minor_div, xtickv, xticklabels = self.calculate_time_axis_params()
@@ -993,7 +993,7 @@ class Craterplotset:
         """
         Set up plotspace for Spatialcount map
         """
-        if self.fig: del self.fig
+        self.fig = None
         self.EstablishFontandScaling()
 
         # set up plot dimensions
-- 
2.43.0


From 4062113ba0a7fe23aa33bdc00cf13d84f83b56b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 31/36] fix: a malformed user functions file no longer disables
 the built-in functions

A definition without a name (e.g. in a truncated file) made every command
fail with a KeyError, including the one which selects another file.
---
 src/craterstats/miscellaneous.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index c675656..e572ecf 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -68,6 +68,7 @@ class Functionslist:
     """
     def __init__(self):
         s = gm.read_textfile(cst.PATH+'config/functions.txt', ignore_hash=True, strip=';', as_string=True)
+        self.functions = gm.read_textstructure(s,from_string=True)
         self.config = self.user_function_config()
         if self.config:
             uf = self.config
@@ -75,9 +76,14 @@ class Functionslist:
                 uf = next(iter(gm.read_textfile(self.config, ignore_hash=True)), None) if gm.file_exists(self.config) else None
                 if uf:
                     s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
-            except (OSError, ValueError):
+                    functions = gm.read_textstructure(s,from_string=True)
+                    for k in self.functions:
+                        valid = [e for e in functions[k] if isinstance(e, dict) and 'name' in e]
+                        if len(valid) < len(functions[k]): print("Invalid "+k+" definition in user functions file: "+uf+" - ignoring.")
+                        functions[k] = valid
+                    self.functions = functions
+            except Exception: # built-in functions should remain usable, whatever the state of the user file
                 print("Unable to read user functions file: "+uf+" - ignoring.")
-        self.functions = gm.read_textstructure(s,from_string=True)
 
     def user_function_config(self):
         if os.environ.get('CONDA_PREFIX'):  # conda environment
-- 
2.43.0


From b8ea48dd4e810515208b17b4577f42012d963fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 32/36] fix: n_sigma and Hartmann axes for a diameter range
 without two labelled ticks

An analysis with a single bin between two powers of two completed all its
trials, then failed with an IndexError when its n_sigma chart was drawn.
---
 src/craterstats/miscellaneous.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index e572ecf..afb74e9 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -224,10 +224,11 @@ def Hartmann_bins(d_range):
     labels = [str(e) for e in
               (1, 2, 4, 8, 16, 31, 63, 125, 250, 500, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)]
     labels[10] = '  ' + labels[10] + "km"
-    xtickv, xtickname = map(list, zip(*[(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]))
-    if xtickv[0] < 0: xtickname[0] += 'm'
-    xminor = (xtickv[1] - xtickv[0]) / 2
-    xminorv = [e+xminor for e in [xtickv[0]-2*xminor]+xtickv if d_range[0] <= e+xminor <= d_range[1]]
+    ticks = [(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]
+    xtickv, xtickname = [e for e,_ in ticks], [e for _,e in ticks]
+    if xtickv and xtickv[0] < 0: xtickname[0] += 'm'
+    xminor = (v[1] - v[0]) / 2 # range may be too short to contain two ticks
+    xminorv = [e+xminor for e in [v[0]-2*xminor]+v if d_range[0] <= e+xminor <= d_range[1]]
     return xtickv,xtickname,xminor,xminorv
 
 
-- 
2.43.0


From 7f6bb6145930926ff677d5fcbc8584a5727e7299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 33/36] fix: close shapefiles after reading them

---
 src/craterstats/Spatialcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 138f648..4489bcc 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -119,8 +119,8 @@ class Spatialcount:
             wkt = gm.read_textfile(prj_file)[0]
             crs = prj.CRS.from_wkt(wkt)
             planetary_radius = crs.ellipsoid.semi_major_metre / 1e3
-            sf = shapefile.Reader(shp)
-            shapes = sf.shapes()
+            with shapefile.Reader(shp) as sf:
+                shapes = sf.shapes()
 
             if not crs.is_geographic:
                 transformer = prj.Transformer.from_crs(crs, crs.geodetic_crs, always_xy=True)
-- 
2.43.0


From 6e75e5a834496d7424976187ba584805a5ad0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:53 +0000
Subject: [PATCH 34/36] fix: a text structure that is never closed no longer
 takes forever to read

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index e57b5ee..4873358 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -70,7 +70,7 @@ def evaluate(s):
     #             ,s+"\nend=")
 
     m=re.search(r"(?ms)^\s*(?P<keyword>[\w\.]*\^?)\s*=\s*"
-                r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
+                r"(\{\s+(?P<struct_value>[^{}]*?(\{[a-zA-Z][^}]*\}[^{}]*?)*?)^\s*\}.*?|"
                 r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
                 r"(?P<value>.*?))"
                 r"^\s*(?P<keyword2>[\w\.]*\^?) *="
-- 
2.43.0


From b1f71608318d2346ad9eed5c424d45fb11fab6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:00 +0000
Subject: [PATCH 35/36] fix: simulate craters over the whole region where its
 edges bulge beyond the vertices' latitudes

---
 src/craterstats/Spatialcount.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 4489bcc..8f75963 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -190,7 +190,15 @@ class Spatialcount:
     def find_enclosing_polygon(self): # could be moved out to ra
         n_pole = sph.create_point(longitude=0, latitude=90)
         s_pole = sph.create_point(longitude=0, latitude=-90)
-        minx, miny, maxx, maxy = shp.from_wkt(sph.to_wkt(self.polygon)).bounds
+        geom = shp.from_wkt(sph.to_wkt(self.polygon))
+        minx, miny, maxx, maxy = geom.bounds
+        for p in shp.get_parts(geom): # edges are great circle arcs: may reach latitudes beyond those of their end points
+            v = np.transpose(self.llr2xyz(*np.transpose(p.exterior.coords), r=1))
+            nx, ny, nz = np.cross(v[:-1], v[1:]).T
+            start, end = [nx * e[:,1] - ny * e[:,0] for e in (v[:-1], v[1:])] # northward component of direction
+            peak = np.degrees(np.arctan2(np.hypot(nx, ny), np.abs(nz)))
+            miny = min([miny, *-peak[(start < 0) & (end > 0)]])
+            maxy = max([maxy, *peak[(start > 0) & (end < 0)]])
         xr , yr = ( (minx,maxx), (miny,maxy) )
         if sph.covers(self.polygon, n_pole):
             yr = (miny, 90)
-- 
2.43.0


From c732f7d81fb3482b9a3965027f3a2b13a6876b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:32 +0000
Subject: [PATCH 36/36] fix: file names containing brackets, quotes or other
 signs were split in the wrong place

---
 src/craterstats/gm/file/filename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/filename.py b/src/craterstats/gm/file/filename.py
index 6b0eaef..a28c771 100644
--- a/src/craterstats/gm/file/filename.py
+++ b/src/craterstats/gm/file/filename.py
@@ -24,7 +24,7 @@ def filename(f,code,insert1=None,insert2=None,max_ext_length=4):
     if type(f) is list:
         return [filename(e,code,insert1=insert1,insert2=insert2) for e in f]
 
-    m = re.search(r'(?P<path>.*?)(?P<name>[\.,= \w-]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
+    m = re.search(r'(?P<path>([A-Za-z]:)?.*?)(?P<name>[^\\/]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
     path=m['path']
     name=m['name']
     ext = m['ext']
-- 
2.43.0

