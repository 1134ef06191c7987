From b5e9b3286eca281a8481f792636f9c7440ec3fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 01/42] fix: return candidate designations in a reproducible
 order

get_designations returned a set of strings, whose iteration order changes
with Python's hash seed, so the order of the ephemeris rows (and hence the
random draws made for them) differed between identical seeded runs.
---
 src/sorcha/ephemeris/pixel_dict.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 157eec8..de29437 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -375,8 +375,10 @@ class PixelDict:
 
         pixels = get_hp_neighbors(ra, dec, ang_fov, nside=self.nside, nested=self.nested)
 
-        desigs = set()
+        # a dict is used as an ordered set, so that the order of the designations
+        # (and hence of the output) is the same on every run
+        desigs = {}
         for pix in pixels:
-            desigs.update(self.pixel_dict[pix])
+            desigs.update(dict.fromkeys(self.pixel_dict[pix]))
 
-        return desigs
+        return list(desigs)
-- 
2.43.0


From 55fd22f901af50e7557ce59f88fab4b2e0fe2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 02/42] fix: keep the traversed pixels themselves in the pixel
 dictionary

compute_pixel_traversed replaced the traversed pixels by their neighbours,
so an object which stays inside a single pixel was not filed under it.
---
 src/sorcha/ephemeris/pixel_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index de29437..41ba58f 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -281,7 +281,8 @@ class PixelDict:
             pixels = list(set(pixels))
 
             # Add the neighboring pixels
-            pixels = set(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            neighbours = hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten()
+            pixels = set(pixels).union(neighbours)
 
             # Add the pixels that the object traverse, and the neighbors, to the pixel_dict
             for pix in pixels:
-- 
2.43.0


From 4af8e7a6e7c58485e94e9128227aeadf90e22d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 03/42] fix: shift the pickets towards the target time

update_pickets shifted later for a target between half an interval and one
interval before the central picket, away from the requested time.
---
 src/sorcha/ephemeris/pixel_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 41ba58f..db6b374 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -302,7 +302,7 @@ class PixelDict:
             if abs(jd_tdb - self.t0) <= 1.5 * self.picket_interval:
                 # Can compute just one new set and shift the others
 
-                if jd_tdb <= self.tm:
+                if jd_tdb < self.t0:
                     # shift earlier
                     self.tp = self.t0
                     self.r_obs_p = self.r_obs_0
-- 
2.43.0


From 133fd1daf66e0027916bb42ada5cf1213f3e0c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 04/42] fix: keep object identifiers as text in the generated
 ephemeris

column_types evaluated to None, so an identifier such as 00123 was read back
as the number 123 and no longer matched its orbit.
---
 src/sorcha/ephemeris/simulation_driver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 4615485..c89dd94 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from collections import defaultdict
 from csv import writer
 from io import StringIO
 
@@ -157,7 +156,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         "Obs_Sun_vz_km_s",
         "phase_deg",
     )
-    column_types = defaultdict(ObjID=str, FieldID=str).setdefault(float)
+    column_types = {"ObjID": str}
     in_memory_csv.writerow(column_names)
 
     # t_picket is the last time at which the sky positions of all the objects
-- 
2.43.0


From 8c2bfa1d41d7f542a65e840653c314383d1e6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 05/42] fix: read object identifiers as text from CSV files

The type pandas guessed for ObjID depended on the rows being read, so the
same identifier could be read differently from one block to the next.
---
 src/sorcha/readers/CSVReader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 9e633a0..d582e46 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -199,6 +199,7 @@ class CSVDataReader(ObjectDataReader):
             res_df = pd.read_csv(
                 self.filename,
                 sep="\\s+",
+                dtype={"ObjID": str},
                 skiprows=skip_rows,
                 nrows=block_size,
             )
@@ -206,6 +207,7 @@ class CSVDataReader(ObjectDataReader):
             res_df = pd.read_csv(
                 self.filename,
                 delimiter=",",
+                dtype={"ObjID": str},
                 skiprows=skip_rows,
                 nrows=block_size,
             )
@@ -221,6 +223,7 @@ class CSVDataReader(ObjectDataReader):
             self.obj_id_table = pd.read_csv(
                 self.filename,
                 sep="\\s+",
+                dtype={"ObjID": str},
                 usecols=["ObjID"],
                 header=self.header_row,
             )
@@ -228,6 +231,7 @@ class CSVDataReader(ObjectDataReader):
             self.obj_id_table = pd.read_csv(
                 self.filename,
                 delimiter=",",
+                dtype={"ObjID": str},
                 usecols=["ObjID"],
                 header=self.header_row,
             )
@@ -263,12 +267,14 @@ class CSVDataReader(ObjectDataReader):
                 res_df = pd.read_csv(
                     self.filename,
                     sep="\\s+",
+                    dtype={"ObjID": str},
                     skiprows=(lambda x: skipped_row[x]),
                 )
             else:
                 res_df = pd.read_csv(
                     self.filename,
                     delimiter=",",
+                    dtype={"ObjID": str},
                     skiprows=(lambda x: skipped_row[x]),
                 )
         except IndexError as current_exc:
-- 
2.43.0


From 20846b72ae46d3e307b447e2e362d156d3c0955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 06/42] fix: leave the combined database itself out of the
 merge

create_results_table was given the inputs folder as the file to exclude, so a
combined database saved (or left by an earlier call) under the results folder
was taken for a results file of its own.
---
 src/sorcha/utilities/createResultsSQLDatabase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7fe2cdb..0c7f768 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -146,7 +146,7 @@ def create_results_database(args):
     else:
         stemname = ""
 
-    create_results_table(cnx_out, args.inputs, args.results, stemname)
+    create_results_table(cnx_out, args.output, args.results, stemname)
 
     create_inputs_table(cnx_out, args.inputs, "params")
     create_inputs_table(cnx_out, args.inputs, "orbits")
-- 
2.43.0


From e8290d67abed0245787193a80e2174fb6bf70127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 07/42] fix: report an empty log as an unsuccessful run

check_all_logs raised IndexError on an empty log file, so the state of every
other run was not reported either.
---
 src/sorcha/utilities/check_output_logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index e9809ff..39b4339 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -53,7 +53,7 @@ def check_all_logs(log_files):
     for log_file in log_files:
         with open(log_file, "r") as f:
             lines = f.read().splitlines()
-            last_line = lines[-1]
+            last_line = lines[-1] if lines else ""
 
             if last_line[-29:] == "Sorcha process is completed. ":
                 good_log.append(True)
-- 
2.43.0


From 1f792385455f48655c2c00d03dcee5f565191198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 08/42] fix: look for the log summary under the name it is
 saved as

check-logs added .csv after it had checked for an existing file, so it could
overwrite an earlier summary without --force.
---
 src/sorcha_cmdline/outputs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 880e2fc..366c670 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -46,6 +46,9 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         args.outpath = os.path.abspath(args.outpath)
         _ = FindDirectoryOrExit(os.path.dirname(args.outpath), "-o, --outpath")
 
+        if args.outpath[-4:] != ".csv":
+            args.outpath = args.outpath + ".csv"
+
         if os.path.exists(args.outpath) and not args.force:
             print(
                 "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
@@ -56,9 +59,6 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-        if args.outpath[-4:] != ".csv":
-            args.outpath = args.outpath + ".csv"
-
     return check_output_logs(args.filepath, args.outpath)
 
 
-- 
2.43.0


From a3f2e6a78826360e0935b8bd505e0c2e126ebbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 09/42] fix: --force removes every existing output file

Only the first match of <stem>.* was removed, so new rows could be appended
to the results of an earlier run.
---
 src/sorcha/utilities/sorchaCommandLineParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 9f476e9..d31d580 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -26,7 +26,8 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
 
     if file_exists and force_remove:
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
-        os.remove(file_exists[0])
+        for existing_file in file_exists:
+            os.remove(existing_file)
     elif file_exists and not force_remove:
         pplogger.error(
             f"ERROR: existing file found at output location {filepath}. Set -f flag to overwrite this file."
-- 
2.43.0


From 2bd0b20ca3c1cb741e3d50321307d2c7722c0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 10/42] fix: find existing output whose path holds glob
 characters

A path or stem with [, ] , * or ? was used as a pattern, so existing results
were not found (and were appended to) and other files could be removed.
---
 src/sorcha/utilities/sorchaCommandLineParser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index d31d580..eab4471 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -86,7 +86,10 @@ def sorchaCommandLineParser(args):
     # if a value was provided, warn the user about overwriting if the file exists
     if cmd_args_dict["output_ephemeris_file"]:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"] + ".*"),
+            os.path.join(
+                glob.escape(cmd_args_dict["outpath"]),
+                glob.escape(cmd_args_dict["output_ephemeris_file"]) + ".*",
+            ),
             args.f,
             pplogger,
         )
@@ -98,7 +101,9 @@ def sorchaCommandLineParser(args):
 
     if cmd_args_dict["stats"] is not None:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger
+            glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv")),
+            args.f,
+            pplogger,
         )
 
     cmd_args_dict["ar_data_path"] = args.ar  # default value for args.ar is `None`.
@@ -106,7 +111,9 @@ def sorchaCommandLineParser(args):
         FindDirectoryOrExit(cmd_args_dict["ar_data_path"], "-ar, --ar_data_path")
 
     warn_or_remove_file(
-        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger
+        os.path.join(glob.escape(cmd_args_dict["outpath"]), glob.escape(cmd_args_dict["outfilestem"]) + ".*"),
+        args.f,
+        pplogger,
     )
 
     # Log all the command line settings to INFO.
-- 
2.43.0


From dc23e09a31aed405e63a4ac44dab02a20feed062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 11/42] fix: report a missing complex parameters file instead
 of a KeyError

The key is only set when --cp is given, so the check for it never got to log
its error.
---
 src/sorcha_cmdline/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 7cbc01f..a14f3bd 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -176,11 +176,11 @@ def execute(args):
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
 
-    if sconfigs.lightcurve.lc_model and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.lightcurve.lc_model and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for light curve model")
         sys.exit("ERROR: No complex physical parameter file provided for light curve model")
 
-    if sconfigs.activity.comet_activity and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.activity.comet_activity and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for comet activity model")
         sys.exit("ERROR: No complex physical parameter file provided for comet activity model")
     if "SORCHA_SEED" in os.environ:
-- 
2.43.0


From bcc7082d43cb5f4842a0ff52eaaa969284d19b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 12/42] fix: round to whole numbers when zero decimals are
 asked for

position_decimals = 0 and magnitude_decimals = 0 were treated as not set.
---
 src/sorcha/modules/PPOutput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index ac7ed6a..c3e34da 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -205,7 +205,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "ERROR: at least one of the columns provided in output_columns does not seem to exist. Check docs and try again."
             )
 
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         for position_col in [
             "fieldRA_deg",
             "fieldDec_deg",
@@ -222,7 +222,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
             except KeyError:
                 continue
 
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         for magnitude_col in [
             "PSFMag",
             "trailedSourceMag",
-- 
2.43.0


From 0b1111a4a8fc8df921cf6adf118cbc5c6f4aaeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 13/42] fix: apply a circle radius or fill factor of zero

Both are accepted by the configuration, but zero was treated as not set and
kept every observation instead of none.
---
 src/sorcha/modules/PPApplyFOVFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index 325f928..e15de35 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -71,10 +71,10 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "circle":
         verboselog("FOV is circular...")
-        if sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             verboselog("Circle radius is set. Applying circular footprint filter...")
             observations = PPCircleFootprint(observations, sconfigs.fov.circle_radius)
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             verboselog("Fill factor is set. Removing random observations to mimic chip gaps.")
             observations = PPSimpleSensorArea(observations, module_rngs, sconfigs.fov.fill_factor)
 
-- 
2.43.0


From 704876f701227189ab35ab03a9f4f463fbe5898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 14/42] fix: log the vignetting configuration errors instead of
 raising TypeError

logging.ERROR is a level, not a function.
---
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index de7ea22..08cf982 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -941,7 +941,7 @@ class expertConfigs:
                 self.trailing_losses_on, "trailing_losses_on", False
             )
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
-                logging.ERROR(
+                logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
                 sys.exit(
@@ -953,7 +953,7 @@ class expertConfigs:
             )
             self.vignetting_on = cast_as_bool_or_set_default(self.vignetting_on, "vignetting_on", False)
             if self.vignetting_on == True:
-                logging.ERROR("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
+                logging.error("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
                 sys.exit("ERROR: fov camera model 'visits_footprint does not support vignetting.")
 
 
-- 
2.43.0


From c5cd6152d9f57e6762792626b90196313f1444ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 15/42] fix: use the cleaned column names when reading orbits

The table with whitespace stripped from its headings was thrown away, so an
orbit file with padded headings was rejected.
---
 src/sorcha/readers/OrbitAuxReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/readers/OrbitAuxReader.py b/src/sorcha/readers/OrbitAuxReader.py
index 05a1b43..06e804a 100755
--- a/src/sorcha/readers/OrbitAuxReader.py
+++ b/src/sorcha/readers/OrbitAuxReader.py
@@ -64,7 +64,7 @@ class OrbitAuxReader(CSVDataReader):
 
         """
         # Do standard CSV file processing
-        super()._process_and_validate_input_table(input_table, **kwargs)
+        input_table = super()._process_and_validate_input_table(input_table, **kwargs)
 
         if len(input_table) == 0:
             return input_table
-- 
2.43.0


From 532ad2cf966a43d44ce7a0bd52a170ffe9f916bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 16/42] fix: name the delimiter in the header error without a
 NameError

---
 src/sorcha/readers/CSVReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index d582e46..7226bad 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -113,8 +113,8 @@ class CSVDataReader(ObjectDataReader):
         elif self.sep == "whitespace":
             column_names = header_line.split()
         else:
-            pplogger.error(f"ERROR: Unrecognized delimiter ({sep})")
-            sys.exit(f"ERROR: Unrecognized delimiter ({sep})")
+            pplogger.error(f"ERROR: Unrecognized delimiter ({self.sep})")
+            sys.exit(f"ERROR: Unrecognized delimiter ({self.sep})")
 
         if len(column_names) < 2:
             error_str = (
-- 
2.43.0


From a0f53bfb31ddf51b5c3920cb82470585ec3437d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 17/42] fix: report table errors for readers without a filename
 attribute

DatabaseReader and CombinedDataReader-style readers have no self.filename, so
the error report itself raised AttributeError.
---
 src/sorcha/readers/ObjectDataReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/ObjectDataReader.py b/src/sorcha/readers/ObjectDataReader.py
index 19247fd..1239f4c 100755
--- a/src/sorcha/readers/ObjectDataReader.py
+++ b/src/sorcha/readers/ObjectDataReader.py
@@ -190,7 +190,7 @@ class ObjectDataReader(abc.ABC):
         # Check that the table has more than one column.
         if len(input_table.columns) <= 1:
             outstr = (
-                f"ERROR: While reading table {self.filename}. Only one column found. "
+                f"ERROR: While reading table {self.get_reader_info()}. Only one column found. "
                 "Check that you specified the correct format."
             )
             pplogger.error(outstr)
@@ -204,7 +204,7 @@ class ObjectDataReader(abc.ABC):
             if input_table.isnull().values.any():
                 pdt = input_table[input_table.isna().any(axis=1)]
                 inds = str(pdt["ObjID"].values)
-                outstr = f"ERROR: While reading table {self.filename} found uninitialised values ObjID: {str(inds)}."
+                outstr = f"ERROR: While reading table {self.get_reader_info()} found uninitialised values ObjID: {str(inds)}."
                 pplogger.error(outstr)
                 sys.exit(outstr)
         return input_table
-- 
2.43.0


From 8ea41872af38c211ee1bd74bcfa2d2bf20377562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 18/42] fix: cull faint objects when a requested filter has no
 pointings

The limiting magnitude of such a filter was looked up with a KeyError.
---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index b1fdb61..d02b789 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -91,7 +91,7 @@ def PPFaintObjectCullingFilter(
             )
 
         # 2 is a fairly arbitrary value added to give a threshold
-        drop_df[filt] = app_mag > max_five_sigma[filt] + 2
+        drop_df[filt] = app_mag > max_five_sigma.get(filt, -np.inf) + 2
 
     # if the object's apparent magnitude fulfils the condition in the above loop for all filters, drop it
     objects_to_drop = drop_df.loc[drop_df[observing_filters].all(axis=1), "ObjID"].tolist()
-- 
2.43.0


From 4adc9bb8f505c156a062f4419fa3c2525cd983a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 19/42] fix: log activity model exceptions

Exceptions have no value attribute, so reporting one raised AttributeError.
---
 src/sorcha/activity/base_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/activity/base_activity.py b/src/sorcha/activity/base_activity.py
index 8db3bbf..de0e510 100644
--- a/src/sorcha/activity/base_activity.py
+++ b/src/sorcha/activity/base_activity.py
@@ -57,7 +57,7 @@ class AbstractCometaryActivity(ABC):
         exception : Exception
             The exception with a value string to appended to the error log
         """
-        self._log_error_message(str(exception.value))
+        self._log_error_message(str(exception))
 
     def _log_error_message(self, error_msg: str) -> None:
         """Log a specific error string to the error log file
-- 
2.43.0


From d3121d9f9a38f8b6103836ad9a6877f8bcac7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 20/42] fix: reject a chunk size of zero or less

The processing loop never advances with such a chunk size.
---
 src/sorcha/utilities/sorchaConfigs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 08cf982..22574ff 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -56,6 +56,9 @@ class inputConfigs:
         check_value_in_list(self.eph_format, ["csv", "whitespace", "hdf5"], "eph_format")
         check_value_in_list(self.aux_format, ["comma", "whitespace", "csv"], "aux_format")
         self.size_serial_chunk = cast_as_int(self.size_serial_chunk, "size_serial_chunk")
+        if self.size_serial_chunk < 1:
+            logging.error("ERROR: size_serial_chunk is zero or negative.")
+            sys.exit("ERROR: size_serial_chunk is zero or negative.")
 
 
 @dataclass
-- 
2.43.0


From f64227765056f6090ba1fb99c25b9fab0b276397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 21/42] fix: do not download the default file under a custom
 auxiliary file name

The url table was built before the validation which clears the default url of
a file whose name was changed, so it still held the default url.
---
 src/sorcha/utilities/sorchaConfigs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 22574ff..ddafa7e 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1072,8 +1072,8 @@ class auxiliaryConfigs:
 
     def __post_init__(self):
         """Automagically validates the auxiliary configs after initialisation."""
-        self._create_lists_auxiliary_configs()
         self._validate_auxiliary_configs()
+        self._create_lists_auxiliary_configs()
 
     def _validate_auxiliary_configs(self):
         """
-- 
2.43.0


From 84bdb4963016bb3b5d31c67780d8b9bf2bbe1123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 22/42] fix: accept external ephemerides without a SIMULATION
 section

The ephemerides type was passed on only if the section was there, so leaving
out a section whose every key is forbidden was reported as a missing key.
---
 src/sorcha/utilities/sorchaConfigs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index ddafa7e..46d017d 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1276,11 +1276,11 @@ class sorchaConfigs(basesorchaConfigs):
             ):
                 extra_args["survey_name"] = self.survey_name
 
-            if config_object.has_section(section):
-                if section == "SIMULATION":
-                    extra_args["_ephemerides_type"] = self.input.ephemerides_type
+            if section == "SIMULATION":
+                extra_args["_ephemerides_type"] = self.input.ephemerides_type
 
-                elif section == "SATURATION":
+            if config_object.has_section(section):
+                if section == "SATURATION":
                     extra_args["_observing_filters"] = self.filters.observing_filters
 
                 if section == "EXPERT":
-- 
2.43.0


From d22416d2d10a0a77c8039333f59ea4aa59e4f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 23/42] fix: turn vignetting off by default for the
 visits_footprint camera model

The default was set to on before the camera model was looked at, so such a run
stopped with an error, or (without an EXPERT section) applied vignetting.
---
 src/sorcha/utilities/sorchaConfigs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 46d017d..7bfdffd 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -927,7 +927,10 @@ class expertConfigs:
             self.randomization_on = cast_as_bool_or_set_default(
                 self.randomization_on, "randomization_on", True
             )
-            self.vignetting_on = cast_as_bool_or_set_default(self.vignetting_on, "vignetting_on", True)
+            # the visits_footprint camera model does not support vignetting
+            self.vignetting_on = cast_as_bool_or_set_default(
+                self.vignetting_on, "vignetting_on", self.camera_model != "visits_footprint"
+            )
             self.trailing_losses_on = cast_as_bool_or_set_default(
                 self.trailing_losses_on, "trailing_losses_on", True
             )
@@ -1278,14 +1281,15 @@ class sorchaConfigs(basesorchaConfigs):
 
             if section == "SIMULATION":
                 extra_args["_ephemerides_type"] = self.input.ephemerides_type
+            elif section == "EXPERT" and (
+                config_object.has_section(section) or self.fov.camera_model == "visits_footprint"
+            ):
+                extra_args["camera_model"] = self.fov.camera_model
 
             if config_object.has_section(section):
                 if section == "SATURATION":
                     extra_args["_observing_filters"] = self.filters.observing_filters
 
-                if section == "EXPERT":
-                    extra_args["camera_model"] = self.fov.camera_model
-
                 section_dict = dict(config_object[section])
                 config_instance = config_section(**section_dict, **extra_args)
 
-- 
2.43.0


From 2119f64b93b2f40539bd829c3e11e00812fcf1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 24/42] fix: allow external ephemerides with the
 visits_footprint camera model

The search radius is not set for external ephemerides, and adding it up raised
TypeError.
---
 src/sorcha/modules/PPApplyFOVFilter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index e15de35..c83ca00 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -57,11 +57,14 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "visits_footprint":
         verboselog("Applying sensor footprint filter...")
+        # external ephemerides come without a search radius: the default buffer is used for them
+        buffer_args = {}
+        if sconfigs.simulation.ar_ang_fov is not None:
+            buffer_args["ephermers_buffer"] = (
+                sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer
+            )
         onSensor, detectorIDs, lim_mag = PPVisitsFootprint(
-            observations,
-            sconfigs.fov.visits_query,
-            visits,
-            ephermers_buffer=sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer,
+            observations, sconfigs.fov.visits_query, visits, **buffer_args
         )
 
         observations = observations.iloc[onSensor].copy()
-- 
2.43.0


From c77ccb257811ec115b786866a9a127e9d4ea9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 25/42] fix: name the DES transient efficiency key as the code
 reads it

The shipped DES configuration stopped with an unexpected keyword argument.
---
 src/sorcha/data/survey_setups/DES_config_file.ini | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/data/survey_setups/DES_config_file.ini b/src/sorcha/data/survey_setups/DES_config_file.ini
index e321bc9..06e0b21 100644
--- a/src/sorcha/data/survey_setups/DES_config_file.ini
+++ b/src/sorcha/data/survey_setups/DES_config_file.ini
@@ -99,7 +99,7 @@ fading_function_on = True
 
 # overall transient efficiency for moving object detection. 0.95529 in Bernardinelli et al (2022).
 # if not specifed will default to 1 and be neglible 
-self.des_transient_efficency = 0.95529
+des_transient_efficency = 0.95529
 
 
 [LINKINGFILTER]
-- 
2.43.0


From f3ef4e3c6ca58639dbaf2dc4af3006fcc09f89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 26/42] fix: accept the arguments Sorcha passes to the identity
 activity model

compute took only the dataframe, so choosing the model raised TypeError.
---
 src/sorcha/activity/identity_activity.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/activity/identity_activity.py b/src/sorcha/activity/identity_activity.py
index 70ed0de..9e89708 100644
--- a/src/sorcha/activity/identity_activity.py
+++ b/src/sorcha/activity/identity_activity.py
@@ -20,7 +20,9 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
     def __init__(self) -> None:
         super().__init__()
 
-    def compute(self, df: pd.DataFrame) -> pd.DataFrame:
+    def compute(
+        self, df: pd.DataFrame, observing_filters=None, rho=None, delta=None, alpha=None
+    ) -> pd.DataFrame:
         """Returns numpy array of 0's with shape equal to the input dataframe
         time column.
 
@@ -29,6 +31,10 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
         df : pd.DataFrame
             The ``observations`` dataframe provided by ``Sorcha``.
 
+        observing_filters, rho, delta, alpha : optional
+            The filters, heliocentric and geocentric distances and phase angles
+            which ``Sorcha`` passes to every activity model. Not used here.
+
         Returns
         -------
         pd.DataFrame
-- 
2.43.0


From bb9d1ef90d2d8c99dec87927bcb00e81cfae6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 27/42] fix: return an empty table when nothing is observed
 with return_only

pd.concat raised ValueError for an empty list of results.
---
 src/sorcha/des.py    | 4 ++--
 src/sorcha/sorcha.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index eab6369..c1ede87 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -400,8 +400,8 @@ def runDESSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index b8a32de..9415155 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -402,8 +402,8 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
-- 
2.43.0


From 9d5d45c29795fdb2f53d0a35cff3bf7f5ee3f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 28/42] fix: accept observatory coordinates which are zero

A longitude of 0 (Greenwich) was treated as missing.
---
 src/sorcha/ephemeris/simulation_parsing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 7407a63..ac1a4bb 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -339,9 +339,9 @@ class Observatory:
         """
         returned_tuple = (None, None, None)
         if (
-            obs_location.get("Longitude", False)
-            and obs_location.get("cos", False)
-            and obs_location.get("sin", False)
+            obs_location.get("Longitude") is not None
+            and obs_location.get("cos") is not None
+            and obs_location.get("sin") is not None
         ):
             longitude = obs_location["Longitude"] * np.pi / 180.0
             x = obs_location["cos"] * np.cos(longitude)
-- 
2.43.0


From 81f340425f4bdcf86c928a4ae285e8214b498b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 29/42] fix: give the identity models the maxBrightness used by
 the faint object cut

Choosing either of them with brute_force = False raised AttributeError.
---
 src/sorcha/activity/identity_activity.py      | 21 +++++++++++++++++++
 src/sorcha/lightcurves/identity_lightcurve.py | 17 +++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/sorcha/activity/identity_activity.py b/src/sorcha/activity/identity_activity.py
index 9e89708..8427b73 100644
--- a/src/sorcha/activity/identity_activity.py
+++ b/src/sorcha/activity/identity_activity.py
@@ -45,6 +45,27 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
 
         return df
 
+    def maxBrightness(self, df: pd.DataFrame, observing_filters=None, rho=None, delta=None, alpha=None):
+        """Returns the brightest magnitude the objects can reach, which this
+        model leaves as it is.
+
+        Parameters
+        ----------
+        df : pd.DataFrame
+            The dataframe of objects provided by ``Sorcha``, with their magnitude
+            in ``trailedSourceMagTrue``.
+
+        observing_filters, rho, delta, alpha : optional
+            Not used here.
+
+        Returns
+        -------
+        pd.Series
+            The magnitudes, unchanged.
+        """
+
+        return df["trailedSourceMagTrue"]
+
     @staticmethod
     def name_id() -> str:
         """Returns the string identifier for this cometary activity method. It
diff --git a/src/sorcha/lightcurves/identity_lightcurve.py b/src/sorcha/lightcurves/identity_lightcurve.py
index ecd9be5..5db7bd0 100644
--- a/src/sorcha/lightcurves/identity_lightcurve.py
+++ b/src/sorcha/lightcurves/identity_lightcurve.py
@@ -40,6 +40,23 @@ class IdentityLightCurve(AbstractLightCurve):
 
         return np.zeros_like(df["fieldMJD_TAI"])
 
+    def maxBrightness(self, df: pd.DataFrame) -> float:
+        """Returns the largest change in magnitude towards brighter values which
+        this light curve can make: none.
+
+        Parameters
+        ----------
+        df : Pandas dataframe
+            The dataframe of objects provided by ``Sorcha``.
+
+        Returns
+        -------
+        float
+            0, as this light curve does not change the magnitude.
+        """
+
+        return 0.0
+
     @staticmethod
     def name_id() -> str:
         """Returns the string identifier for this light curve method. It must be
-- 
2.43.0


From 43f773221aae5aa25b129791dec752f5e7f49669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 30/42] fix: HDF5DataReader.read_objects selects rows by
 position, index labels may repeat

---
 src/sorcha/readers/HDF5Reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/readers/HDF5Reader.py b/src/sorcha/readers/HDF5Reader.py
index 4d51a87..3ff55d3 100755
--- a/src/sorcha/readers/HDF5Reader.py
+++ b/src/sorcha/readers/HDF5Reader.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from sorcha.readers.ObjectDataReader import ObjectDataReader
@@ -93,9 +94,11 @@ class HDF5DataReader(ObjectDataReader):
             The dataframe for the object data.
         """
         self._build_id_map()
-        row_match = self.obj_id_table["ObjID"].isin(obj_ids)
-        match_inds = self.obj_id_table[row_match].index
-        res_df = pd.read_hdf(self.filename, where="index=match_inds")  # noqa: F841
+        # Select by row position: index labels may repeat (e.g. in files that were written in chunks).
+        match_rows = np.flatnonzero(self.obj_id_table["ObjID"].isin(obj_ids))
+        if len(match_rows) == 0:
+            return pd.read_hdf(self.filename, stop=0)
+        res_df = pd.read_hdf(self.filename, where=match_rows)
         return res_df
 
     def _process_and_validate_input_table(self, input_table, **kwargs):
-- 
2.43.0


From 2ef86b64b1bae6b86cfc1d924daa48831b72f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 31/42] fix: an observation on overlapping detectors is kept
 once

---
 src/sorcha/modules/PPFootprintFilter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index a61ba3d..d77d3b2 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -704,4 +704,10 @@ class Footprint:
             detectorId.append([i] * len(stuff))
             i += 1
 
-        return np.concatenate(detected), np.concatenate(detectorId)
+        detected, detectorId = np.concatenate(detected), np.concatenate(detectorId)
+
+        # a position on overlapping detectors counts once, for the first of them
+        _, first = np.unique(detected, return_index=True)
+        first.sort()
+
+        return detected[first], detectorId[first]
-- 
2.43.0


From 66c4c4cb51ec2846d53009d86cfea8240f2e264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 32/42] fix: sorcha outputs check-logs ends with an error when
 its output file exists

It printed a message and returned, so the command ended with a success status.
---
 src/sorcha_cmdline/outputs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 366c670..199eb8d 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -38,6 +38,7 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
     from sorcha.utilities.check_output_logs import check_output_logs
     from sorcha.utilities.fileAccessUtils import FindDirectoryOrExit
     import os
+    import sys
 
     args.filepath = os.path.abspath(args.filepath)
     _ = FindDirectoryOrExit(args.filepath, "-f, --filepath")
@@ -50,12 +51,11 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
             args.outpath = args.outpath + ".csv"
 
         if os.path.exists(args.outpath) and not args.force:
-            print(
+            sys.exit(
                 "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
                     args.outpath
                 )
             )
-            return
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-- 
2.43.0


From 6cec0417add517254bde23567c1b78d22ca6e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 33/42] fix: sorcha init and demo prepare check every target
 before copying any

With an existing file later in the list, the files before it had already been copied (and
overwritten nothing, but changed the directory) when the command stopped with an error.
---
 src/sorcha/utilities/sorcha_copy_configs.py    | 1 +
 src/sorcha/utilities/sorcha_copy_demo_files.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sorcha/utilities/sorcha_copy_configs.py b/src/sorcha/utilities/sorcha_copy_configs.py
index 1a2f1ed..ced88d4 100644
--- a/src/sorcha/utilities/sorcha_copy_configs.py
+++ b/src/sorcha/utilities/sorcha_copy_configs.py
@@ -57,6 +57,7 @@ def copy_demo_configs(copy_location, which_configs, force_overwrite):
                 "Identically named file exists at location. Re-run with -f or --force to force overwrite."
             )
 
+    for fn in config_locations:
         config_path = config_data_root.joinpath(fn)
         shutil.copy(config_path, copy_location)
 
diff --git a/src/sorcha/utilities/sorcha_copy_demo_files.py b/src/sorcha/utilities/sorcha_copy_demo_files.py
index 3504711..758844b 100644
--- a/src/sorcha/utilities/sorcha_copy_demo_files.py
+++ b/src/sorcha/utilities/sorcha_copy_demo_files.py
@@ -44,6 +44,7 @@ def copy_demo_files(copy_location, force_overwrite):
                 "Identically named file exists at location. Re-run with -f or --force to force overwrite."
             )
 
+    for fn in demo_files:
         demo_path = demo_data_root.joinpath(fn)
         shutil.copy(demo_path, copy_location)
 
-- 
2.43.0


From f6a9a9b6076c84e242a7c570329bfc37908f33a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 34/42] fix: universal_cometary handles vectors along one axis
 (apsides, nodes on an axis)

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 02db9cb..6c821e0 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -424,7 +424,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     incl = np.arccos(h_vec[2] / h)
 
-    if h_vec[0] != 0.0 and h_vec[1] != 0.0:
+    if h_vec[0] != 0.0 or h_vec[1] != 0.0:
         longnode = np.arctan2(h_vec[0], -h_vec[1])
     else:
         longnode = 0.0
@@ -435,7 +435,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     q = p / (1 + e)
 
-    if esintrueanom != 0.0 and ecostrueanom != 0.0:
+    if esintrueanom != 0.0 or ecostrueanom != 0.0:
         trueanom = np.arctan2(esintrueanom, ecostrueanom)
     else:
         trueanom = 0.0
@@ -447,7 +447,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
     rcosu = pos[0] * cosnode + pos[1] * sinnode
     rsinu = (pos[1] * cosnode - pos[0] * sinnode) / np.cos(incl)  # should check zero
 
-    if rsinu != 0.0 and rcosu != 0.0:
+    if rsinu != 0.0 or rcosu != 0.0:
         u = np.arctan2(rsinu, rcosu)
     else:
         u = 0.0
-- 
2.43.0


From 925f489a84b69f224225982f437e30a1b833ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 35/42] fix: ephemeris candidate search uses the buffered field
 radius

---
 src/sorcha/ephemeris/simulation_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index c89dd94..8db8600 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -188,7 +188,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         # compute a new set
 
         desigs = pixdict.get_designations(
-            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov
+            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov_buffer
         )
         unit_vectors = pixdict.interpolate_unit_vectors(desigs, pointing["fieldJD_TDB"])
         visit_vector = get_vec(pointing, "visit_vector")
-- 
2.43.0


From facc5d8ceade1ea96943305be431c782f51969d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 36/42] fix: bootstrap --force deletes the cached files that
 exist instead of fetching them first

---
 src/sorcha/utilities/retrieve_ephemeris_data_files.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/retrieve_ephemeris_data_files.py b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
index 0f2377a..b4fdee0 100644
--- a/src/sorcha/utilities/retrieve_ephemeris_data_files.py
+++ b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
@@ -46,9 +46,10 @@ def _remove_files(auxconfigs, retriever: pooch.Pooch) -> None:  # pragma: no cov
     """
 
     for file_name in auxconfigs.data_file_list:
-        file_path = retriever.fetch(file_name)
-        print(f"Deleting file: {file_path}")
-        os.remove(file_path)
+        file_path = os.path.join(retriever.abspath, file_name)
+        if os.path.exists(file_path):
+            print(f"Deleting file: {file_path}")
+            os.remove(file_path)
 
 
 def _check_for_existing_files(retriever: pooch.Pooch, file_list: list[str]) -> bool:  # pragma: no cover
-- 
2.43.0


From 63b11307de1d38b34bcaf5cdb4ed9dc451e201a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 37/42] fix: a failed auxiliary file download ends bootstrap
 with its error

---
 src/sorcha_cmdline/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha_cmdline/bootstrap.py b/src/sorcha_cmdline/bootstrap.py
index 0a56614..3351a4b 100644
--- a/src/sorcha_cmdline/bootstrap.py
+++ b/src/sorcha_cmdline/bootstrap.py
@@ -71,7 +71,7 @@ def execute(args):
 
         # download the data files in parallel
         with concurrent.futures.ThreadPoolExecutor() as executor:
-            executor.map(fetch_partial, default_files.data_files_to_download)
+            list(executor.map(fetch_partial, default_files.data_files_to_download))
 
         # build the meta_kernel.txt file
         build_meta_kernel_file(default_files, retriever)
-- 
2.43.0


From ee3816f0f9488c20ea622e5c14f495ffb26138e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 38/42] fix: --force never deletes one of the run's own input
 files

---
 src/sorcha/utilities/sorchaCommandLineParser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index eab4471..28be9e3 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -5,7 +5,7 @@ import glob
 from sorcha.utilities.fileAccessUtils import FindFileOrExit, FindDirectoryOrExit
 
 
-def warn_or_remove_file(filepath, force_remove, pplogger):
+def warn_or_remove_file(filepath, force_remove, pplogger, inputs=()):
     """Given a path to a file(s), first determine if the file exists. If it does not
     exist, pass through.
 
@@ -21,10 +21,17 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
         Whether to remove the file if it exists.
     pplogger : Logger
         Used to log the output.
+    inputs : sequence of strings
+        The paths of this run's input files, which are never deleted. Entries
+        that are not set are skipped.
     """
     file_exists = glob.glob(filepath)
 
     if file_exists and force_remove:
+        for existing_file in file_exists:
+            if any(i and os.path.realpath(i) == os.path.realpath(existing_file) for i in inputs):
+                pplogger.error(f"ERROR: input file {existing_file} is in the way of output {filepath}.")
+                sys.exit(f"ERROR: input file {existing_file} is in the way of output {filepath}.")
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
         for existing_file in file_exists:
             os.remove(existing_file)
@@ -58,6 +65,7 @@ def sorchaCommandLineParser(args):
     pplogger = logging.getLogger(__name__)
 
     cmd_args_dict = {}
+    inputs = [args.p, args.ob, args.c, args.pd, args.cp, args.er, args.vd]
 
     cmd_args_dict["paramsinput"] = FindFileOrExit(args.p, "-p, --params")
     cmd_args_dict["orbinfile"] = FindFileOrExit(args.ob, "-ob, --orbit")
@@ -92,6 +100,7 @@ def sorchaCommandLineParser(args):
             ),
             args.f,
             pplogger,
+            inputs,
         )
 
     cmd_args_dict["surveyname"] = args.s
@@ -104,6 +113,7 @@ def sorchaCommandLineParser(args):
             glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv")),
             args.f,
             pplogger,
+            inputs,
         )
 
     cmd_args_dict["ar_data_path"] = args.ar  # default value for args.ar is `None`.
@@ -114,6 +124,7 @@ def sorchaCommandLineParser(args):
         os.path.join(glob.escape(cmd_args_dict["outpath"]), glob.escape(cmd_args_dict["outfilestem"]) + ".*"),
         args.f,
         pplogger,
+        inputs,
     )
 
     # Log all the command line settings to INFO.
-- 
2.43.0


From 650ca1b5e928e85c01a81986758747ade49475a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 39/42] fix: create-sqlite ends with an error when its output
 exists and is not forced

---
 src/sorcha_cmdline/outputs.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 199eb8d..be30089 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -18,6 +18,7 @@ def cmd_outputs_create_sqlite(args):  # pragma: no cover
     from sorcha.utilities.createResultsSQLDatabase import create_results_database
     from sorcha.utilities.fileAccessUtils import FindDirectoryOrExit
     import os
+    import sys
 
     args.output = os.path.abspath(args.output)
     args.inputs = os.path.abspath(args.inputs)
@@ -26,6 +27,15 @@ def cmd_outputs_create_sqlite(args):  # pragma: no cover
     _ = FindDirectoryOrExit(args.inputs, "-i, --inputs")
     _ = FindDirectoryOrExit(args.results, "-r, --results")
 
+    if os.path.exists(args.output) and not args.force:
+        sys.exit(
+            "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
+                args.output
+            )
+        )
+    elif os.path.exists(args.output) and args.force:
+        os.remove(args.output)
+
     return create_results_database(args)
 
 
@@ -114,6 +124,12 @@ def main():
         action="store_true",
         help="Toggle whether to look for complex physical parameters files. Default False.",
     )
+    outputs_create_sqlite_parser.add_argument(
+        "--force",
+        default=False,
+        action="store_true",
+        help="Force overwrite existing output file. Default is False.",
+    )
 
     # Add the `check-logs` subcommand
     outputs_create_checklog_parser = subparsers.add_parser(
-- 
2.43.0


From 23a6ff0500405a7cbdd03a61258ad81208be0276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 40/42] fix: create-sqlite takes its folder names literally,
 not as patterns

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 0c7f768..5d95cd0 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -42,7 +42,7 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     """
 
-    output_list = glob.glob(os.path.join(output_path, "**", output_stem + "*.db"), recursive=True)
+    output_list = glob.glob(os.path.join(glob.escape(output_path), "**", output_stem + "*.db"), recursive=True)
 
     if filename in output_list:
         output_list.remove(filename)
@@ -104,7 +104,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
 
     """
 
-    input_list = glob.glob(input_path + "/" + table_type + "*", recursive=True)
+    input_list = glob.glob(glob.escape(input_path) + "/" + table_type + "*", recursive=True)
 
     if not input_list:
         sys.exit("Could not find any " + table_type + " files in given inputs folder.")
-- 
2.43.0


From aa13a271490fbbc3935d62d56bc0b02748603611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 41/42] fix: open the visits database for reading only

---
 src/sorcha/modules/PPVisitsFootprintFilter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index b7bdd44..0840bd0 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -1,4 +1,5 @@
 import logging
+from pathlib import Path
 
 from shapely.geometry import Point, Polygon
 import sqlite3
@@ -52,8 +53,8 @@ def PPVisitsFootprint(
     detector_for_index = {}
     lim_mag_list = {}
 
-    # open visits database file
-    with sqlite3.connect(visits_filename) as conn:
+    # open visits database file, for reading only
+    with sqlite3.connect(Path(visits_filename).resolve().as_uri() + "?mode=ro", uri=True) as conn:
         conn.row_factory = sqlite3.Row
         cursor = conn.cursor()
 
-- 
2.43.0


From 78d7d95cb61a36521d8632106b97dc0384a51322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:40 +0000
Subject: [PATCH 42/42] fix: reject nan as a configuration value

---
 src/sorcha/utilities/sorchaConfigs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 7bfdffd..38fc136 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1404,7 +1404,8 @@ def cast_as_float(value, key):
     """
 
     try:
-        float(value)
+        if np.isnan(float(value)):
+            raise ValueError("not a number")
     except ValueError:
         logging.error(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
         sys.exit(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
-- 
2.43.0

