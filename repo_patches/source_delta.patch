From 66e339f9afaaa5fcee3a4e1beeefc1fbbfd21d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 01/57] fix: a GPS outlier that trips the break search must not
 discard the whole block

_find_breaks' result is only used as debug output, but any exception in it (e.g. a
GPS outlier near the end of the block) raised CorruptRawFile and convert() then
silently skipped every file of the block.
---
 gemlog/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index f1aad87..2262964 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1251,8 +1251,10 @@ def _assign_times(L):
     G = _reformat_GPS(L['gps'])
     try:
         breaks = _find_breaks(L)
-    except:
-        raise CorruptRawFile('Problem between ' + fnList[0] + '-' + fnList[-1] + '; stopping before this interval. Break between recording periods? Corrupt files?')
+    except KeyboardInterrupt:
+        raise
+    except Exception: # breaks are debug output only; sample times come from each file's own fit
+        breaks = None
     piecewiseTimeFit = L['header']
     L['metadata']['t'] = _apply_segments(L['metadata']['millis'], piecewiseTimeFit)
     header = L['header']
-- 
2.43.0


From c19d43c53a0efb8ecbc4b423090f388ed7bdb16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 02/57] fix: use the format's own rollover when a 0.8/0.85 file
 starts behind its predecessor

These formats roll over at 2**16; adding 2**13 left the file's millis overlapping the
previous file's, so samples were lost or timed with the wrong file's fit.
---
 gemlog/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2262964..8174279 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1052,9 +1052,10 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 raise CorruptRawFile('Invalid raw file format version: ' + str(version))
             ## make sure the first millis is > startMillis
             if(L['data'][0,0] < startMillis):
-                L['metadata'].millis += 2**13
-                L['gps'].msPPS += 2**13
-                L['data'][:,0] += 2**13
+                rollover = 2**16 if str(version) in ['0.8', '0.85'] else 2**13
+                L['metadata'].millis += rollover
+                L['gps'].msPPS += rollover
+                L['data'][:,0] += rollover
             ## if the millis series is discontinuous, reject the file
             dMillis = np.diff(L['data'][:,0])
             if any(dMillis < 0) or any(dMillis > 1000):
-- 
2.43.0


From 1aee4f2ca445ee48c083a0a5ce8e53cffc44c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 03/57] fix: ignore a last line that was cut off while being
 written

A card that lost power usually ends in half a line.  Its truncated number was taken for a
sample (or gave NaN, which made the interpolation silently drop the whole continuous
stretch the file belongs to).
---
 gemlog/core.py     | 16 +++++++++++-----
 gemlog/parsers.pyx |  5 ++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 8174279..d129839 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -2,7 +2,7 @@ import pdb
 import warnings
 import numpy as np
 from numpy import nan, inf
-import os, glob, csv, time, scipy
+import os, glob, csv, io, time, scipy
 import pandas as pd
 with warnings.catch_warnings():
     warnings.simplefilter("ignore")
@@ -717,16 +717,22 @@ def _read_with_cython(filename, require_gps = True):
     return df
 
 
+def _complete_lines(filename):
+    ## if power failed while the last line was being written, that line is cut off and can't be trusted
+    with open(filename, 'rb') as file:
+        contents = file.read()
+    return io.BytesIO(contents[:(contents.rfind(b'\n') + 1)])
+
 def _read_0_8_pd(filename, require_gps = True):
     ## This procedure is different enough from read_with_pandas that they are not interchangeable.
     # skiprows is important so that the header doesn't force dtype=='object'
     # the C engine for pd.read_csv is fast but crashes sometimes. Use the python engine as a backup.
     try:
         # read 15 columns for 'R,2' lines
-        df = pd.read_csv(filename, names=range(15), low_memory=False, skiprows=6, encoding_errors='ignore')
+        df = pd.read_csv(_complete_lines(filename), names=range(15), low_memory=False, skiprows=6, encoding_errors='ignore')
     except Exception:
         try:
-            df = pd.read_csv(filename, names=range(15), engine='python', skiprows=6,
+            df = pd.read_csv(_complete_lines(filename), names=range(15), engine='python', skiprows=6,
                              on_bad_lines = 'skip', # replacement for error/warn_bad_lines, available since pandas 1.3.0
                              encoding_errors='ignore')
         except Exception as exception_message:
@@ -757,11 +763,11 @@ def _read_with_pandas(filename, require_gps = True):
     # skiprows is important so that the header doesn't force dtype=='object'
     # the C engine for pd.read_csv is fast but crashes sometimes. Use the python engine as a backup.
     try:
-        df = pd.read_csv(filename, names=range(13), low_memory=False, skiprows=6,
+        df = pd.read_csv(_complete_lines(filename), names=range(13), low_memory=False, skiprows=6,
                          encoding_errors='ignore') # consider lineterminator = '\n' for encoding problems
     except Exception:
         try:
-            df = pd.read_csv(filename, names=range(13), engine='python', skiprows=6,
+            df = pd.read_csv(_complete_lines(filename), names=range(13), engine='python', skiprows=6,
                              on_bad_lines = 'skip', encoding_errors='ignore')
         except:
             raise CorruptRawFile(filename)
diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 030908f..59ef488 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -3,7 +3,7 @@ Cython-based file parsers.
 """
 
 import numpy as np
-from libc.stdio cimport fopen, fclose, fgets, FILE, sscanf
+from libc.stdio cimport feof, fopen, fclose, fgets, FILE, sscanf
 
 
 def parse_gemfile(filename, n_row = 1560000):
@@ -76,6 +76,9 @@ def parse_gemfile(filename, n_row = 1560000):
         if read == NULL:
             # EOF
             break
+        if feof(cfile):
+            # the last line has no newline: it was cut off while being written
+            break
 
         line_type = line[0]
         if (line_type >= 97) and (line_type <= 122): # ord('a'), ord('z')
-- 
2.43.0


From 8c0d728144e3731bf6faf01db3c52d0b23744b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 04/57] fix: reject a file with unreadable or repeated sample
 times instead of losing its neighbors

Interpolation raises on such samples and the whole continuous stretch, including
undamaged files, was silently skipped.
---
 gemlog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index d129839..5615fcf 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1064,7 +1064,9 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 L['data'][:,0] += rollover
             ## if the millis series is discontinuous, reject the file
             dMillis = np.diff(L['data'][:,0])
-            if any(dMillis < 0) or any(dMillis > 1000):
+            if not np.all(np.isfinite(L['data'])): # one bad sample would break interpolation for its neighbors too
+                raise CorruptRawFile(f'{fn} has unreadable samples, skipping this file')
+            if any(dMillis <= 0) or any(dMillis > 1000):
                 raise CorruptRawFile(f'{fn} sample times are discontinuous, skipping this file')
 
             header_info = _calculate_drift(L, fn, require_gps)
-- 
2.43.0


From f72ba9b3cffb0e1e3be062868bd9008a2ba427a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 05/57] fix: one file with an unreadable format version must
 not abort the whole logger

read_gem already drops files whose header can't be read and tries the next one, but an
unrecognised version string (damaged first line) raised a generic Exception out of convert().
---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 5615fcf..4252ac0 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -501,6 +501,8 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
             raise CorruptRawFile(str(path) + ': ' + str(nums))
         try:
             version = _read_format_version(fnList[0])
+            if version not in _time_corrections:
+                raise CorruptRawFile(fnList[0] + ': Invalid or missing data format')
             config = _read_config(fnList[0])
         except: # if we can't read the config for the first file here, drop it and try the next one
             fnList = fnList[1:] # 
-- 
2.43.0


From cdf6e7e9588ed8127fa2193328acac542fac21d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 06/57] fix: report every raw file that conversion skips

Files with an unreadable header, and all files of a block in which none was usable, were
left out of the converted data without being named in convert()'s list of problems.
---
 gemlog/core.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 4252ac0..2672140 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -155,14 +155,18 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     
     ## filter out raw files whose serial numbers don't match SN
     fn_new = []
+    problem_files = [] # list of tuples: file number, message
     corrupt_files_flag = False
     for file in fn:
         try:
-            if _read_SN(file) == SN:
+            file_SN = _read_SN(file)
+            if file_SN == SN:
                 fn_new.append(file)
-        except:
-            corrupt_files_flag = True
-            pass # if we can't read the file's SN, it's corrupt and should be skipped
+            elif file[-3:] == SN:
+                problem_files.append((int(file[-8:-4]), f'Serial number "{file_SN}" in {file} does not match, skipping this file'))
+        except Exception as exception_message:
+            corrupt_files_flag = True # if we can't read the file's SN, it's corrupt and should be skipped
+            problem_files.append((int(file[-8:-4]), f'Corrupt raw file {exception_message}, skipping this file'))
     fn = fn_new
     
     ## narrow the list of raw files if nums is provided, or calculate nums if not
@@ -170,6 +174,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if((len(nums) == 0) or np.isnan(nums[0])):
         nums = nums_from_fn
     else: # find the intersection between the available nums and the user-defined nums
+        problem_files = [i for i in problem_files if i[0] in nums]
         w = np.where([(i in nums) for i in nums_from_fn])[0]
         fn = [fn[i] for i in w]
         nums = nums_from_fn[w]
@@ -187,6 +192,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
   
     ## read the first set of up to (24*blockdays) files
     L = _new_gem_var()
+    problems = [message for (num, message) in sorted(problem_files)]
     while((L['data'].count() == 0) & (n1 <= max(nums))): ## read sets of files until we get one that isn't empty
         nums_block = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))] # files are 2 hours, so 12 files is 24 hours
         n1 = n1 + (12*blockdays) # increment file number counter
@@ -194,7 +200,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             L = read_gem(path = rawpath, nums = nums_block, SN = SN, network = network, station = station, location = location)
         except MissingRawFiles: # if the block has no files, keep searching
             continue
-        except CorruptRawFile: # if the block has no files, keep searching
+        except CorruptRawFile as e: # if the block has no files, keep searching
+            problems += getattr(e, 'problems', [str(e)])
             continue
         except: # if there's any other problem, raise it
             raise
@@ -257,7 +264,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## start metadata and gps files
     metadata = L['metadata']   
     gps = L['gps']
-    problems = L['problems']
+    problems += L['problems']
     metadata.to_csv(metadatafile, index=False) ## change to metadata format. need to make ScanMnetadata compatible with both
 
     wgps = (gps['t'] > (t1 - 1)) 
@@ -280,7 +287,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
                 continue
-            except CorruptRawFile: # if the block has no files, keep searching
+            except CorruptRawFile as e: # if the block has no files, keep searching
+                problems += getattr(e, 'problems', [str(e)])
                 continue
             except: # especially for KeyboardInterrupt!
                 raise
@@ -496,15 +504,19 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     ## at this point, if we don't have any files, raise a missing file exception
     if len(fnList) == 0:
         raise MissingRawFiles(str(path) + ': ' + str(nums))
+    problems = []
     while True:
         if len(fnList) == 0: # at this point, if we have no files, they're all corrupt. 
-            raise CorruptRawFile(str(path) + ': ' + str(nums))
+            exception = CorruptRawFile(str(path) + ': ' + str(nums))
+            exception.problems = problems
+            raise exception
         try:
             version = _read_format_version(fnList[0])
             if version not in _time_corrections:
                 raise CorruptRawFile(fnList[0] + ': Invalid or missing data format')
             config = _read_config(fnList[0])
-        except: # if we can't read the config for the first file here, drop it and try the next one
+        except Exception as exception_message: # if we can't read the config for the first file here, drop it and try the next one
+            problems.append(f'Failed to read header of {fnList[0]}, skipping this file: {exception_message}')
             fnList = fnList[1:] # 
         else:
             break
@@ -515,9 +527,13 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     else:
         raise Exception(fnList[0] + ': Invalid or missing data format')
 
+    L['problems'] = problems + L['problems']
+
     ## stop early if we don't have data to process
     if len(L['data']) == 0:
-        raise CorruptRawFileInadequateGPS('Inadequate GPS information in data files ' + str(nums) + ' for SN "' + SN + '" in raw directory ' + str(path))
+        exception = CorruptRawFileInadequateGPS('Inadequate GPS information in data files ' + str(nums) + ' for SN "' + SN + '" in raw directory ' + str(path))
+        exception.problems = L['problems']
+        raise exception
 
     if L['gps'].shape[0] == 0:
         for key in L['gps'].keys():
-- 
2.43.0


From 26a07561d203016026d8575a57bd07eb1ec3bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 07/57] fix: two data segments starting in the same second must
 not overwrite each other

File names have one-second resolution, so a short segment followed by a gap of less than
a second was lost.  Only the later segment's name gets hundredths of a second added.
---
 gemlog/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2672140..8add8c3 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -351,9 +351,13 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
     # Ideally, this would write mseed files with data gaps (masked arrays) if the stream here has
     # a gap. Unfortunately, those fail to write, so we have to write multiple files instead.
     pp = pp.split() 
+    filenames = []
     for tr in pp:
         tr.stats.calib = bitweight
         fn = _make_filename_converted(tr, output_format)
+        if fn in filenames: # an earlier segment started in the same second; don't overwrite it
+            fn = fn.replace('.', f'_{tr.stats.starttime.microsecond // 10000:02}.', 1)
+        filenames.append(fn)
         if(len(tr) > 0):
             print(tr)
             if(output_format.lower() == 'wav'):
-- 
2.43.0


From afd3b685daafdef728198b3a11118cb3d47355a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 08/57] fix: a raw file with a blank serial number must be
 reported, not silently skipped

---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 8add8c3..c194ef7 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -604,6 +604,8 @@ def _read_SN(fn):
     try:
         SN_lines = pd.read_csv(fn, delimiter = ',', skiprows = 3, nrows=4, dtype = 'str', names=['linetype', 'SN'], encoding_errors='ignore', comment = '#', on_bad_lines = 'skip')
         SN = SN_lines['SN'][SN_lines['linetype'] == 'S'][0]
+        if type(SN) is not str: # blank serial number
+            raise CorruptRawFile(fn)
     except:
         raise CorruptRawFile(fn + ': missing serial number')
     return SN
-- 
2.43.0


From 04db52d01a4eaf4807e178970494adfca869e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 09/57] fix: overlapping times between raw files must not drop
 a whole stretch of samples

---
 gemlog/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index c194ef7..614e798 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1320,17 +1320,23 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     t1 = t_in[t_in >= (t1 - 0.01 - eps)][0]
     t2 = t_in[t_in <= (t2 + .01 + eps)][-1] # add a sample because t2 is 1 sample before the hour
     breaks_raw = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
-    breaks = breaks_raw[(t_in[breaks_raw] > t1) & (t_in[breaks_raw+1] < t2)]
+    breaks = breaks_raw[(t_in[breaks_raw] >= t1) & (t_in[breaks_raw+1] <= t2)]
+    index = np.arange(len(t_in))
+    firsts = np.hstack([0, breaks+1]) # first sample of each continuous chunk
+    lasts = np.hstack([breaks, len(t_in)-1])
     starts = np.hstack([t1, t_in[breaks+1]]) # start times of continuous chunks
     ends = np.hstack([t_in[breaks], t2]) # end times of continuous chunks
     w_same = (starts != ends)
     starts = starts[w_same]
     ends = ends[w_same]
+    firsts = firsts[w_same]
+    lasts = lasts[w_same]
     ## make an output time vector excluding data gaps, rounded to the nearest samples
     #t_interp = np.zeros(0)
     output = obspy.Stream()
     for i in range(len(starts)):
         w = (t_in >= (starts[i] - 0.01 - eps)) & (t_in <= (ends[i] + 0.01 - eps))
+        w = w & (index >= firsts[i]) & (index <= lasts[i]) # times of another chunk may overlap
         try:
             f = scipy.interpolate.CubicSpline(t_in[w], p_in[w])
         except:
-- 
2.43.0


From 39b76855999c85f7c259aa4510fa09566e7f8168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 10/57] fix: honor t1 and t2 in convert (float or UTCDateTime,
 any block), and survive an empty remainder

---
 gemlog/core.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 614e798..148d96f 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -224,9 +224,11 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         p = _merge_gaps(p)
         t1 = p[0].stats.starttime
         t1 = obspy.core.UTCDateTime(np.ceil(float(t1)))
+    t1 = obspy.core.UTCDateTime(t1) # may be given as float
 
     if(np.isinf(float(t2))):
         t2 = obspy.core.UTCDateTime.strptime('9999-12-31 23:59:59', '%Y-%m-%d %H:%M:%S') # timekeeping apocalypse
+    t2 = obspy.core.UTCDateTime(t2)
   
     wsn = 0
     while(len(SN) < 3): # take the first non-NA SN. This is important because there can be blank files in there.
@@ -282,7 +284,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             break # already converted the requested data
         ## load new data if necessary
         tt2 = min(t2, _trunc_UTCDateTime(t1, 86400*blockdays) + 86400*blockdays)
-        while((p[-1].stats.endtime < tt2) & (n1 <= max(nums))):
+        while(((len(p) == 0) or (p[-1].stats.endtime < tt2)) and (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
@@ -318,24 +320,25 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 gps.to_csv(gpsfile, index=False, mode='a', header=False)
             problems += L['problems']
         ## run the conversion and write new converted files
-        while((hour_to_write + file_length_sec) <= p[-1].stats.endtime):
+        p = _trim_stream(p, hour_to_write, t2)
+        while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
             hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            p.trim(hour_to_write, t2)
-            p = p.split()
+            p = _trim_stream(p, hour_to_write, t2)
             if(len(p) > 0):
                 hour_to_write = p[0].stats.starttime
             else:
                 break
             
         ## update start time to convert
-        p.trim(hour_to_write, t2)
-        t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
+        if(tt2 >= t2):
+            break # already converted the requested data
+        t1 = _trunc_UTCDateTime(tt2 + 1, 86400*blockdays)
     ## done reading new files. write what's left and end.
-    while((hour_to_write <= p[-1].stats.endtime) & (len(p) > 0)):
+    p = _trim_stream(p, hour_to_write, t2)
+    while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
         hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-        p.trim(hour_to_write, t2)
-        p = p.split()
+        p = _trim_stream(p, hour_to_write, t2)
         if(len(p) > 0):
             hour_to_write = p[0].stats.starttime
         else:
@@ -343,6 +346,12 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     return problems
 ####################################
 
+def _trim_stream(p, t1, t2):
+    ## cut a stream to t1 <= time <= t2; the result may be empty
+    if t1 > t2:
+        return p[:0]
+    return p.trim(t1, t2, nearest_sample = False).split()
+
 def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed'):
     eps = 1e-6
     if(np.isnan(hour_end)):
-- 
2.43.0


From 04deebbef6cf3747290b29869f341f3b1939bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:15 +0000
Subject: [PATCH 11/57] fix: output boundaries and read-block joins must not
 depend on float rounding

---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 148d96f..a1c226c 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -125,7 +125,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     All sample times involving the Gem (and most other passive 
     seismic/acoustic data) are in UTC; time zones are not supported.
     """
-    file_length_sec = 3600 * float(file_length_hour)
+    file_length_sec = round(3600 * float(file_length_hour), 6) # e.g., 3600 * (95/3600.) is not exactly 95
     ## bitweight: leave blank to use default (considering Gem version, config, and units). This is preferred when using a standard Gem (R_g = 470 ohms)
     ## make sure the raw directory exists and has real data
     if not os.path.isdir(rawpath):
@@ -308,7 +308,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 for i in w:
                     print('Problem with files, skipping: ' + L['header'].file[i])
 
-            p = _merge_gaps(p + L['data'])
+            p = _merge_gaps(p + L["data"], max_gap = 0.041) # interpolation can drop the last samples of a block
                 
             ## start metadata and gps files
             metadata = L['metadata']   
-- 
2.43.0


From a345f633dac9bf6f817e8a55626735f403e5a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 12/57] fix: joining two traces must not mask the samples of an
 earlier overlap

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index a1c226c..37cc3e4 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -588,7 +588,7 @@ def _merge_gaps(st, max_gap=0.031):
         if(gap <= max_gap):
             st_tmp = obspy.Stream([tr1, tr2])
             st_tmp.merge(fill_value = 'interpolate')
-            output_st += st_tmp
+            output_st = output_st[:-1] + st_tmp # st_tmp includes tr1
         else:
             output_st += tr2
     output_st.merge()
-- 
2.43.0


From f198f0386f6992f405ad04d1ec426e756c9e65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 13/57] fix: where damaged timing makes files overlap, keep the
 later file's own samples

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 37cc3e4..9620cd9 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -587,7 +587,7 @@ def _merge_gaps(st, max_gap=0.031):
         gap = (tr2.stats.starttime - tr1.stats.endtime)
         if(gap <= max_gap):
             st_tmp = obspy.Stream([tr1, tr2])
-            st_tmp.merge(fill_value = 'interpolate')
+            st_tmp.merge(method = 1, fill_value = 'interpolate') # where they overlap, keep tr2
             output_st = output_st[:-1] + st_tmp # st_tmp includes tr1
         else:
             output_st += tr2
-- 
2.43.0


From e3eda1e4aba9110890320b6c6ebec39eeae384f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 14/57] fix: a perfect GPS fit must not be rejected because of
 float rounding

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 9620cd9..23cb52d 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1238,7 +1238,7 @@ def _robust_regress(x, y, degree = 3, MAD = 0.01, z = 4, recursive_depth = np.in
     resid = y - np.polynomial.Polynomial(reg)(x)
 
     ## If any are found to be outliers, remove them and recalculate recursively.
-    outliers = np.abs(resid) > (z*np.std(resid))
+    outliers = np.abs(resid - np.mean(resid)) > (z*np.std(resid)) # rounding can offset perfect fits
     if not any(outliers):
         outliers = np.abs(resid) > MAD
     if any(outliers) and (recursive_depth > 0):
-- 
2.43.0


From 533726e3563c666d2f5bd841ea0d4de7713b05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 15/57] fix: output times of a stretch starting half way
 between two samples

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 23cb52d..9f91cfc 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1355,7 +1355,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##    raise(Exception('_interp_time failed between ' +str(obspy.UTCDateTime(starts[i])) +\
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
-        t_interp = np.round(starts[i] + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
+        t_interp = np.round(np.round(starts[i], 2) + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
         tr = obspy.Trace(p_interp)
         tr.stats.starttime = t_interp[0]
-- 
2.43.0


From 4a8acf1ea4bf75069dc33ce337126baed7a6b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 16/57] fix: withhold a file when most of its GPS fixes
 disagree with the fit

---
 gemlog/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 9f91cfc..9def0f6 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1168,6 +1168,7 @@ def _calculate_drift(L, fn, require_gps):
             ## ensure that the regression was successful
             if ((0.001024*(L['data'][-1,0] - L['data'][0,0]) / (xx.iloc[-1] - xx.iloc[0])) > 2) \
                or (num_gps_nonoutliers < 10) \
+               or (num_gps_nonoutliers < 0.5 * len(L['gps'].t)) \
                or MAD_nonoutliers > 0.01:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
         except:
-- 
2.43.0


From dc5c5e836ae8caee174014bd1d71df83c9e87fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:44 +0000
Subject: [PATCH 17/57] fix: parallel conversions racing to create the same
 folder must not fail

---
 gemlog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 9def0f6..072cb1e 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -239,7 +239,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if(len(gpsfile) == 0):
         if(not os.path.isdir(gpspath)):
             try:
-                os.makedirs(gpspath) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
+                os.makedirs(gpspath, exist_ok = True) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
             except:
                 print('Failed to make directory ' + gpspath)
                 sys.exit(2)
@@ -249,7 +249,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if(len(metadatafile) == 0):
         if(not os.path.isdir(metadatapath)):
             try:
-                os.makedirs(metadatapath)
+                os.makedirs(metadatapath, exist_ok = True)
             except:
                 print('Failed to make directory ' + metadatapath)
                 sys.exit(2)
@@ -258,7 +258,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## if the converted directory does not exist, make it
     if(not os.path.isdir(convertedpath)):
         try:
-            os.makedirs(convertedpath)
+            os.makedirs(convertedpath, exist_ok = True)
         except:
             print('Failed to make directory ' + convertedpath)
             sys.exit(2)
-- 
2.43.0


From 4175377b20bec48d8127f2cbc8c1e704722bcd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:44 +0000
Subject: [PATCH 18/57] fix: gemconvert must log every logger whose conversion
 did not finish

---
 gemlog/gemconvert.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 32e9573..e329a11 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -35,7 +35,7 @@ def convert_single_SN(arg_list):
         logging.info('Interrupted by user')
         print('Interrupted')
         sys.exit()
-    except Exception as e:
+    except (Exception, SystemExit) as e: # gemlog.convert exits if it can't create a folder
         print(e)
         ####logging.info(traceback.format_exc(e.__traceback__))
         logging.exception(parse_error(e), exc_info = gemlog._debug)
@@ -140,7 +140,8 @@ def main(argv = None):
     ## check that data files can be found, and see which serial numbers are present
     try:
         file_list = os.listdir(inputdir)
-    except:
+    except Exception as e:
+        logging.error(f'Problem opening input data folder {inputdir}: {e!r}')
         print("Problem opening input data folder " + inputdir + ". Did you give the right folder name after -i?")
         print("")
         print_call()
@@ -164,7 +165,8 @@ def main(argv = None):
     if codesfile is not None:
         try:
             station_info = gemlog.gem_network._get_station_info(codesfile)
-        except:
+        except Exception as e:
+            logging.error(f'Problem opening codes file {codesfile}: {e!r}')
             print(f"Problem opening codes file {codesfile}")
             print("")
             print_call()
@@ -223,7 +225,23 @@ def main(argv = None):
             args_list = [[inputdir, SN, outputdir, output_format, output_length, network, station,
                           location] for i, (SN, network, station, location) in
                          enumerate(zip(SN_list, network_list, station_list, location_list))]
-            res = pool.map(convert_single_SN, args_list)
+            futures = []
+            for args in args_list:
+                try:
+                    futures.append(pool.submit(convert_single_SN, args))
+                except Exception as e: # e.g., the pool is already broken
+                    futures.append(None)
+                    logging.error(f'Fatal error in {args[1]}: conversion could not start: {e!r}')
+            ## a process that was killed or failed to write its files couldn't log its failure, so do it here
+            for args, future in zip(args_list, futures):
+                try:
+                    if future is not None:
+                        future.result()
+                except KeyboardInterrupt:
+                    raise
+                except BaseException as e:
+                    print(f'Fatal error in {args[1]}: {e!r}')
+                    logging.error(f'Fatal error in {args[1]}: conversion did not finish: {e!r}')
 
 if __name__ == "__main__":
    main(sys.argv[1:])
-- 
2.43.0


From 1dd0634ebd24b204e2f8ddea7b7d59edf53debb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:44 +0000
Subject: [PATCH 19/57] fix: a file extension that isn't a serial number must
 not abort gemconvert when a codes file is used

---
 gemlog/gemconvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index e329a11..1b7a0aa 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -182,7 +182,7 @@ def main(argv = None):
         new_SN_list = []
         skip_SN = []
         for SN in SN_list:
-            if any(station_info.SN.astype(int) == int(SN)):
+            if SN.isdigit() and any(station_info.SN.astype(int) == int(SN)): # e.g., 'TXT' is not a serial number
                 i = np.where(station_info.SN.astype(int) == int(SN))[0][0]
                 station_list.append(station_info.loc[i,'station'])
                 network_list.append(station_info.loc[i,'network'])
-- 
2.43.0


From 163ff030b5528579662e0b5cdb98c9e65179d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 20/57] fix: an input error while reading a raw file must not
 be taken for the end of the file

---
 gemlog/core.py     |  4 +++-
 gemlog/parsers.pyx | 14 ++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 072cb1e..bdf62bd 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -736,6 +736,8 @@ def _read_with_cython(filename, require_gps = True):
     # use cythonized reader file instead of pd.read_csv and slow string ops
     try:
         values, types, millis = parse_gemfile(str(filename).encode('utf-8'))
+    except OSError: # the file can't be read
+        raise
     except:
         values, types, millis = parse_gemfile(str(filename).encode('utf-8'), n_row = 1560000 * 6*7) # in case we're processing a long file, try again with a buffer big enough for 1 week
     if values.shape[0] == 0:
@@ -861,7 +863,7 @@ def _read_single(filename, offset=0, require_gps = True, version = '0.9'):
             df = reader(filename, require_gps)
             
             output = _process_gemlog_data(df, offset, version = version, require_gps = require_gps)
-        except (EmptyRawFile, FileNotFoundError, CorruptRawFileNoGPS, KeyboardInterrupt):
+        except (EmptyRawFile, OSError, CorruptRawFileNoGPS, KeyboardInterrupt):
             # If the file is definitely not going to work, exit early and
             # re-raise the exception that caused the problem.
             # CorruptRawFile might work with a different reader so don't exit early.
diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 59ef488..fae5def 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -2,8 +2,10 @@
 Cython-based file parsers.
 """
 
+import os
 import numpy as np
-from libc.stdio cimport feof, fopen, fclose, fgets, FILE, sscanf
+from libc.errno cimport errno
+from libc.stdio cimport feof, ferror, fopen, fclose, fgets, FILE, sscanf
 
 
 def parse_gemfile(filename, n_row = 1560000):
@@ -32,8 +34,7 @@ def parse_gemfile(filename, n_row = 1560000):
     cdef FILE* cfile
     cfile = fopen(fname, "rb")
     if cfile == NULL:
-        msg = "No such file or directory: '{}'".format(filename)
-        raise FileNotFoundError(2, msg)
+        raise OSError(errno, os.strerror(errno), filename) # FileNotFoundError, PermissionError, etc.
 
     cdef char line[256]
     cdef char* read
@@ -70,11 +71,14 @@ def parse_gemfile(filename, n_row = 1560000):
     cdef double[:] millis_view = result_millis
 
     cdef Py_ssize_t line_number = 0
+    cdef int read_errno = 0
     # were this python 3.8 we could maybe use the walrus operator.  alas
     while True:
         read = fgets(line, sizeof(line), cfile);
         if read == NULL:
-            # EOF
+            # EOF, or failure to read the rest of the file
+            if ferror(cfile):
+                read_errno = errno
             break
         if feof(cfile):
             # the last line has no newline: it was cut off while being written
@@ -150,6 +154,8 @@ def parse_gemfile(filename, n_row = 1560000):
         line_number += 1
 
     fclose(cfile)
+    if read_errno != 0:
+        raise OSError(read_errno, os.strerror(read_errno), filename)
 
     return (
         result_array[:line_number, :],
-- 
2.43.0


From 3aba43850a1f2a328f3240456da00a20745d6f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 21/57] fix: a raw folder or file that can't be read must be
 reported, not taken for missing or default

---
 gemlog/core.py | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index bdf62bd..e5c3072 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -2,7 +2,7 @@ import pdb
 import warnings
 import numpy as np
 from numpy import nan, inf
-import os, glob, csv, io, time, scipy
+import os, fnmatch, csv, io, time, scipy
 import pandas as pd
 with warnings.catch_warnings():
     warnings.simplefilter("ignore")
@@ -130,7 +130,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## make sure the raw directory exists and has real data
     if not os.path.isdir(rawpath):
         raise MissingRawFiles('Raw directory ' + rawpath + ' does not exist')
-    if len(glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.???')) == 0:
+    raw_files = _list_raw_files(rawpath)
+    if len(raw_files) == 0:
         raise MissingRawFiles('No data files found in directory ' + rawpath)
     try:
         SN = str(SN)
@@ -148,10 +149,9 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     
     ## find a list of possibly eligible raw files 
     if (type(SN) is not str) or (len(SN) != 3): # check that SN is appropriately formatted...this should always happen
-        fn = glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.???')
+        fn = raw_files
     else:
-        fn = glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.' + SN) + \
-            glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.TXT')
+        fn = [x for x in raw_files if x[-3:] in (SN, 'TXT')]
     
     ## filter out raw files whose serial numbers don't match SN
     fn_new = []
@@ -198,7 +198,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         n1 = n1 + (12*blockdays) # increment file number counter
         try:
             L = read_gem(path = rawpath, nums = nums_block, SN = SN, network = network, station = station, location = location)
-        except MissingRawFiles: # if the block has no files, keep searching
+        except MissingRawFiles as e: # if the block has no files, keep searching
+            problems += getattr(e, 'problems', [])
             continue
         except CorruptRawFile as e: # if the block has no files, keep searching
             problems += getattr(e, 'problems', [str(e)])
@@ -287,7 +288,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         while(((len(p) == 0) or (p[-1].stats.endtime < tt2)) and (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
-            except MissingRawFiles: # this can happen if a block of empty files is encountered
+            except MissingRawFiles as e: # this can happen if a block of empty files is encountered
+                problems += getattr(e, 'problems', [])
                 continue
             except CorruptRawFile as e: # if the block has no files, keep searching
                 problems += getattr(e, 'problems', [str(e)])
@@ -512,12 +514,14 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
         nums = np.array([nums])
     if(len(station) == 0):
         station = SN
-    fnList = _find_nonmissing_files(path, SN, nums)
+    problems = []
+    fnList = _find_nonmissing_files(path, SN, nums, problems)
 
     ## at this point, if we don't have any files, raise a missing file exception
     if len(fnList) == 0:
-        raise MissingRawFiles(str(path) + ': ' + str(nums))
-    problems = []
+        exception = MissingRawFiles(str(path) + ': ' + str(nums))
+        exception.problems = problems
+        raise exception
     while True:
         if len(fnList) == 0: # at this point, if we have no files, they're all corrupt. 
             exception = CorruptRawFile(str(path) + ': ' + str(nums))
@@ -615,6 +619,8 @@ def _read_SN(fn):
         SN = SN_lines['SN'][SN_lines['linetype'] == 'S'][0]
         if type(SN) is not str: # blank serial number
             raise CorruptRawFile(fn)
+    except OSError as e: # the file can't be read
+        raise OSError(e.errno, e.strerror, fn)
     except:
         raise CorruptRawFile(fn + ': missing serial number')
     return SN
@@ -646,15 +652,25 @@ def _read_config(fn):
             if line.iloc[0,0] == 'C':
                 config = {key:int(line.loc[0,key]) for key in list(line.keys())[1:]}
                 break
+        except OSError: # the file can't be read; don't assume the default config
+            raise
         except:
             pass
     return config
 
 
-def _find_nonmissing_files(path, SN, nums):
+def _list_raw_files(path):
+    ## unlike glob.glob, this raises an exception if the folder can't be read
+    path = str(path)
+    try:
+        file_list = os.listdir(path)
+    except FileNotFoundError:
+        return []
+    return [path + '/' + fn for fn in fnmatch.filter(file_list, 'FILE[0-9][0-9][0-9][0-9].???')]
+
+def _find_nonmissing_files(path, SN, nums, problems = None):
     ## list all Gem files in the path
-    #fnList = glob.glob(path + '/' + 'FILE[0-9][0-9][0-9][0-9].[0-9][0-9][0-9]')
-    fnList = glob.glob(path + '/' + 'FILE[0-9][0-9][0-9][0-9].???')
+    fnList = _list_raw_files(path)
     fnList.sort()
     fnList = np.array(fnList)
     
@@ -664,6 +680,9 @@ def _find_nonmissing_files(path, SN, nums):
         if ext[i] == 'TXT':
             try:
                 ext[i] = _read_SN(fnList[i])
+            except OSError as e:
+                if (problems is not None) and (int(fnList[i][-8:-4]) in nums):
+                    problems.append(f'Failed to read {fnList[i]}, skipping this file: {e}')
             except: # if we're here, it's a corrupt/empty file
                 pass # do nothing--it won't make it into goodFnList
             ## check the files for SN and num
-- 
2.43.0


From 64eb78738eb0d775c7a0d1ababc2c1487c967cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 22/57] fix: disk errors while writing mseed files must not be
 ignored

---
 gemlog/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index e5c3072..647e91b 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -373,6 +373,12 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
             print(tr)
             if(output_format.lower() == 'wav'):
                 write_wav(tr, filename = fn, path = convertedpath)
+            elif(output_format.lower() == 'mseed'):
+                # write to memory first; obspy ignores disk errors when writing mseed
+                buffer = io.BytesIO()
+                tr.write(buffer, format = output_format, encoding=10)
+                with open(convertedpath +'/'+ fn, 'wb') as file:
+                    file.write(buffer.getvalue())
             else:
                 tr.write(convertedpath +'/'+ fn, format = output_format, encoding=10) # encoding 10 is Steim 1
     hour_to_write = hour_end
-- 
2.43.0


From 6bcf430cc7ea1a1e8c888b4ab82f2c2914662105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 23/57] fix: number a new GPS or metadata log after the last
 one, and never overwrite one

---
 gemlog/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 647e91b..44eed34 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -423,12 +423,11 @@ def _trunc_UTCDateTime(x, n=86400):
     return obspy.core.UTCDateTime(int(float(x)/n)*n)#, origin='1970-01-01')
 
 def _make_filename(dir, SN, dirtype):
-    n = 0
-    fn = dir + '/' + SN + dirtype + '_'+ f'{n:03}' + '.txt'
-    while(os.path.exists(fn)):
-        n = n + 1
-        fn = dir + '/' + SN + dirtype + '_' + f'{n:03}' + '.txt'
-    return fn
+    ## number the file after the last one, so the highest number is always the most recent
+    prefix = SN + dirtype + '_'
+    existing = [fn[len(prefix):-4] for fn in os.listdir(dir) if fn.startswith(prefix) and fn.endswith('.txt')]
+    n = max([int(x) + 1 for x in existing if x.isdigit()], default = 0)
+    return dir + '/' + prefix + f'{n:03}' + '.txt'
 
 
 def _make_filename_converted(pp, output_format):
-- 
2.43.0


From 894f3900f4f4eabfcef630306f4862ff9890b767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 24/57] fix: an interrupt must stop the conversion, not make it
 skip the file being read

---
 gemlog/core.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 44eed34..30c0189 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -626,7 +626,7 @@ def _read_SN(fn):
             raise CorruptRawFile(fn)
     except OSError as e: # the file can't be read
         raise OSError(e.errno, e.strerror, fn)
-    except:
+    except Exception:
         raise CorruptRawFile(fn + ': missing serial number')
     return SN
 
@@ -659,7 +659,7 @@ def _read_config(fn):
                 break
         except OSError: # the file can't be read; don't assume the default config
             raise
-        except:
+        except Exception:
             pass
     return config
 
@@ -688,7 +688,7 @@ def _find_nonmissing_files(path, SN, nums, problems = None):
             except OSError as e:
                 if (problems is not None) and (int(fnList[i][-8:-4]) in nums):
                     problems.append(f'Failed to read {fnList[i]}, skipping this file: {e}')
-            except: # if we're here, it's a corrupt/empty file
+            except Exception: # if we're here, it's a corrupt/empty file
                 pass # do nothing--it won't make it into goodFnList
             ## check the files for SN and num
     goodFnList = []
@@ -728,7 +728,7 @@ def _make_gps_time(line):
         
         line = np.array(line) # warning is possible if 'line' is pd.Series
         return obspy.UTCDateTime(int(line[2]), int(line[3]), int(line[4]), int(line[5]), int(line[6]), int(line[7]))
-    except:
+    except Exception:
         return np.nan
 
 def _read_with_cython(filename, require_gps = True):
@@ -762,7 +762,7 @@ def _read_with_cython(filename, require_gps = True):
         values, types, millis = parse_gemfile(str(filename).encode('utf-8'))
     except OSError: # the file can't be read
         raise
-    except:
+    except Exception:
         values, types, millis = parse_gemfile(str(filename).encode('utf-8'), n_row = 1560000 * 6*7) # in case we're processing a long file, try again with a buffer big enough for 1 week
     if values.shape[0] == 0:
         raise EmptyRawFile(filename)
@@ -828,14 +828,14 @@ def _read_with_pandas(filename, require_gps = True):
         try:
             df = pd.read_csv(_complete_lines(filename), names=range(13), engine='python', skiprows=6,
                              on_bad_lines = 'skip', encoding_errors='ignore')
-        except:
+        except Exception:
             raise CorruptRawFile(filename)
     if df.shape[0] == 0:
         raise EmptyRawFile(filename)
 
     try:
         df['linetype'] = [value[0] for value in df[0]] # exception if any 'value' is not a string
-    except:
+    except Exception:
         raise CorruptRawFile(filename)
     if ('G' not in set(df.loc[:,'linetype'])) and require_gps:
         raise CorruptRawFileNoGPS(filename)
@@ -986,7 +986,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
         G['t'] = G.apply(_make_gps_time, axis=1)
         G = G.loc[~G['t'].isna(),:]
         G = G.reset_index().astype('float')
-    except:
+    except Exception:
         if require_gps:
             raise CorruptRawFileNoGPS()
         else:
@@ -1197,7 +1197,7 @@ def _calculate_drift(L, fn, require_gps):
                or (num_gps_nonoutliers < 0.5 * len(L['gps'].t)) \
                or MAD_nonoutliers > 0.01:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
-        except:
+        except Exception:
             if require_gps:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
         else: # if regression was successful, no need to try the zero-drift methods
@@ -1375,7 +1375,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
         w = w & (index >= firsts[i]) & (index <= lasts[i]) # times of another chunk may overlap
         try:
             f = scipy.interpolate.CubicSpline(t_in[w], p_in[w])
-        except:
+        except Exception:
             _breakpoint()
             continue
             ##if not _debug: # so pdb doesn't end immediately with this exception
-- 
2.43.0


From fb3db47073a52426e31617afe8398f073361fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:31 +0000
Subject: [PATCH 25/57] fix: a restarted logger whose counter equals its last
 value must not lose the file

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 30c0189..14a2fa8 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1116,7 +1116,7 @@ def _read_several(fnList, version = 0.9, require_gps = True):
             else:
                 raise CorruptRawFile('Invalid raw file format version: ' + str(version))
             ## make sure the first millis is > startMillis
-            if(L['data'][0,0] < startMillis):
+            if (L['data'][0,0] < startMillis) or (D.shape[0] > 0 and L['data'][0,0] == startMillis):
                 rollover = 2**16 if str(version) in ['0.8', '0.85'] else 2**13
                 L['metadata'].millis += rollover
                 L['gps'].msPPS += rollover
-- 
2.43.0


From 9e0a6188a379bfec4b498b4e551175c15b62d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:43 +0000
Subject: [PATCH 26/57] fix: give every status line a time, even just before or
 after a file's samples

---
 gemlog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 14a2fa8..b07c683 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1137,6 +1137,8 @@ def _read_several(fnList, version = 0.9, require_gps = True):
             header.loc[i, 'num_data_pts'] = L['data'].shape[0]
             header.loc[i, 'SN'] = _read_SN(fn)
 
+            ## use the file's own fit even for lines logged just before its first or after its last sample
+            L['metadata']['t'] = _apply_fit(L['metadata']['millis'], header_info)
             M = pd.concat((M, L['metadata']))
             G = pd.concat((G, L['gps']))
             D = np.vstack((D, L['data']))
@@ -1325,7 +1327,6 @@ def _assign_times(L):
     except Exception: # breaks are debug output only; sample times come from each file's own fit
         breaks = None
     piecewiseTimeFit = L['header']
-    L['metadata']['t'] = _apply_segments(L['metadata']['millis'], piecewiseTimeFit)
     header = L['header']
     header['t1'] = _apply_segments(header.start_ms, piecewiseTimeFit)
     header['t2'] = _apply_segments(header.end_ms, piecewiseTimeFit)
-- 
2.43.0


From abe2aa9024f7d0fae8a4be110fddd2a16c629a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:43 +0000
Subject: [PATCH 27/57] fix: a GPS fix one second before the first full second
 must not be left out of the log

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index b07c683..a9f1c9a 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -270,7 +270,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     problems += L['problems']
     metadata.to_csv(metadatafile, index=False) ## change to metadata format. need to make ScanMnetadata compatible with both
 
-    wgps = (gps['t'] > (t1 - 1)) 
+    wgps = (gps['t'] >= (t1 - 1)) # t1 may be rounded up by one second
     if(len(wgps) > 0):
         gps[wgps].to_csv(gpsfile, index=False)
 
-- 
2.43.0


From f8b4c4feffc377e46a25a0915df0bb4d77264752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 28/57] fix: files of format 0.91 could not be merged (their
 version was not recognized)

---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index a9f1c9a..0ade17b 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -907,7 +907,7 @@ def _read_single(filename, offset=0, require_gps = True, version = '0.9'):
 
 def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     ## figure out what settings to used according to the raw file format version
-    if version in ['1.10', '0.9', '0.85C']:
+    if version in ['1.10', '0.91', '0.9', '0.85C']:
         rollover = 2**13
         M_cols = ['millis', 'batt', 'temp', 'A2', 'A3',
                   'maxWriteTime', 'minFifoFree', 'maxFifoUsed',
@@ -969,7 +969,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
 
 
     # process data (version-dependent)
-    if version in ['1.10', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
+    if version in ['1.10', '0.91', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
         D['ADC'] = D['ADC'].astype(float).cumsum()
 
     ## gps stuff
-- 
2.43.0


From 176c8c737b187ef4ccc985730225514ac60285ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 29/57] fix: a last line cut off by a power failure must not
 damage the first line of the next merged file

---
 gemlog/gem_cat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index a6f96d5..fef4eee 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -115,6 +115,11 @@ def AppendFile(infile, outfile, prev_infile):
     if not os.path.exists(outpath):
         os.makedirs(outpath)
         
+    # if power failed while the previous file's last line was being written, drop the part of that
+    # line that was written (otherwise, the first line appended would be attached to it)
+    with open(outfile, 'rb+') as OF:
+        OF.truncate(OF.read().rfind(b'\n') + 1)
+
     format = _read_format_version(infile)
     if format in ['0.85C', '0.9', '0.91', '1.10']:
         ## find the pressure at the end of the previous file
-- 
2.43.0


From f731c49c5133e37193e96894d458507b7c325214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 30/57] fix: GPS logs could not be read with the current pandas

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b032b28..6bee446 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -426,7 +426,7 @@ def read_gps(gps_dir_pattern, SN):
                 fnList = []
         if len(fnList) > 0: # if any gps files matching SN are found, read and append the last
             gpsTable = pd.concat([gpsTable,
-                                  pd.read_csv(fnList[-1], parse_dates = ['t'], date_parser = obspy.UTCDateTime)], ignore_index=True)
+                                  pd.read_csv(fnList[-1], converters = {'t': obspy.UTCDateTime})], ignore_index=True)
     return gpsTable
 ReadLoggerGPS = read_gps # alias; v1.0.0
 
-- 
2.43.0


From d74dd2075b77fd688e2af310d3723ffbe3fa2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 31/57] fix: the newest GPS log is the one with the highest
 number, and other files are not GPS logs

---
 gemlog/gem_network.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 6bee446..893dada 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -391,6 +391,13 @@ def _remove_outliers(x, N = 5):
     else:
         return(x)
 
+def _gps_file_num(fn):
+    ## conversion number of a gps file (e.g., 12 for 077gps_012.txt); numbers over 999 don't sort by name
+    try:
+        return int(pathlib.Path(fn).stem.split('_')[-1])
+    except ValueError:
+        return -1
+
 def read_gps(gps_dir_pattern, SN):
     """
     Read the most up-to-date GPS file for a given serial number.
@@ -417,7 +424,7 @@ def read_gps(gps_dir_pattern, SN):
     gpsTable = pd.DataFrame(columns=['year', 'date', 'lat', 'lon', 't'])
     for gpsDir in gpsDirList:
         if os.path.isdir(gpsDir):
-            fnList = sorted(glob.glob(gpsDir + '/' + SN + '*'))
+            fnList = sorted(glob.glob(glob.escape(gpsDir) + '/' + SN + 'gps_*.txt'), key = _gps_file_num)
         else:
             # in case the user provides the gps filename directly. requires that the filename start with SN.
             if pathlib.Path(gpsDir).name[:3] == SN:
-- 
2.43.0


From daa8adb6a82f0180d82c7653b914fe453eefcf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 32/57] fix: GPS data outside the requested times must not
 decide which fixes are outliers

---
 gemlog/gem_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 893dada..e589a59 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -526,8 +526,8 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
     seFun = lambda x: np.std(x)/np.sqrt(len(x))
     for i, SN in enumerate(snList):
         print(str(i+1) + ' of ' + str(len(snList)) + ': ' + SN)
-        gpsTable = _remove_outliers(read_gps(gps_dir_pattern, SN))
-        gpsTable = gpsTable.iloc[np.where((gpsTable.t >= t1) & (gpsTable.t <= t2))[0], :]
+        gpsTable = read_gps(gps_dir_pattern, SN)
+        gpsTable = _remove_outliers(gpsTable.iloc[np.where((gpsTable.t >= t1) & (gpsTable.t <= t2))[0], :])
         if gpsTable.shape[0] > 0:
             coords = pd.concat([
                 coords,
@@ -537,7 +537,7 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
                 ], ignore_index = True)
                                
         else:
-            print('No non-outliers remaining for gem {SN}')
+            print(f'No non-outliers remaining for gem {SN}')
     if station_info is not None:
         station_info = _get_station_info(station_info)
         network = []
-- 
2.43.0


From 2333934f63a9b25eda650632af7eaddef6b6946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 33/57] fix: a network without any located station must not
 abort the inventory

---
 gemlog/gem_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index e589a59..ec7e12c 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -272,7 +272,9 @@ def make_gem_inventory(station_info, coords, response = 'default'):
             station.start_date = np.min([channel.start_date for channel in station.channels])
             station.end_date = np.max([channel.end_date for channel in station.channels])
             network.stations.append(station)
-        ## append the current network to the inventory
+        ## append the current network to the inventory, unless it's empty
+        if len(network.stations) == 0:
+            continue
         network.start_date = np.min([station.start_date for station in network.stations])
         network.end_date = np.max([station.end_date for station in network.stations])
         inventory.networks.append(network)
-- 
2.43.0


From 6af5d377e712e637080bd5e4e6ac57b367fcb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 34/57] fix: station tables without a header line could not be
 read

---
 gemlog/gem_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index ec7e12c..470b9b2 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -154,7 +154,7 @@ def _get_station_info(station_info):
     required_keys = ['sn', 'network', 'station', 'location']
     if type(station_info) == str:
         print('Reading file %s' % station_info)
-        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False)
+        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False, dtype = 'str', keep_default_na = False)
         header_list = [header_df[key][0] for key in header_df.keys()]
         if all([i.lower() in (required_keys + ['elevation']) for i in header_list]): # file has header line
             print('File has valid header, using that for column names')
@@ -162,10 +162,10 @@ def _get_station_info(station_info):
         else:
             if len(header_list) == 4:
                 print('File does not have a valid header, using default columns [SN, network, station, location]')
-                station_info = pd.read_csv(station_info, names = required_keys, dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys, dtype = 'str', keep_default_na = False, index_col = False)
             elif len(header_list) == 5:
                 print('File does not have a valid header, using default columns [SN, network, station, location, elevation]')
-                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = 'str', keep_default_na = False, index_col = False)
             else:
                 raise Exception('invalid station_info file; must have 4 or 5 columns or valid header')
         ## if any keys are capitalized or abbreviated wrong, correct them
-- 
2.43.0


From caa2d1f1f053ab4cee3d639ccc9303d849a9487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 35/57] fix: accept every documented station table (optional
 columns missing or blank, or a table already read)

---
 gemlog/gem_network.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 470b9b2..f879002 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -173,16 +173,21 @@ def _get_station_info(station_info):
     elif (type(station_info) is not pd.DataFrame):
         raise Exception('invalid station_info input')
     else:
-        #station_info = _fix_station_info_keys(station_info)
-        if any([key not in station_info.keys() for key in required_keys]):
-            raise Exception('invalid station_info input')
+        station_info = station_info.copy() # leave the user's table alone
+        if 'SN' not in station_info.keys():
+            station_info = _fix_station_info_keys(station_info)
+    if any([key not in station_info.keys() for key in ['SN', 'station']]):
+        raise Exception('invalid station_info input')
+    # network and location columns are optional
+    for key in ['network', 'location']:
+        if key not in station_info.keys():
+            station_info[key] = ''
     # if location and network fields are blank in file, they are interpreted as nan and must be
     # turned back into blank
     if 'elevation' not in station_info.keys():
         station_info['elevation'] = np.zeros(station_info.shape[0]) - 9999
         
-    if station_info['elevation'].dtype == 'str':
-        station_info['elevation'] = station_info['elevation'].astype('float')
+    station_info['elevation'] = pd.to_numeric(station_info['elevation'].replace('', np.nan)) # may be blank
         
     station_info.loc[station_info.location.isna(), 'location'] = ''
     station_info.loc[station_info.network.isna(), 'network'] = ''
-- 
2.43.0


From e2ab1474794b95ddbc0769373a8ee024321108ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 36/57] fix: a GPS log cut off by an interrupted conversion
 must not abort the summary of every logger

---
 gemlog/gem_network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index f879002..f76adbd 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -1,6 +1,6 @@
 import numpy as np
 import pandas as pd
-import glob, obspy, os, warnings, gemlog, sys, argparse, pathlib
+import glob, io, obspy, os, warnings, gemlog, sys, argparse, pathlib
 #from obspy.clients.nrl import NRL
 #from contextlib import contextmanager,redirect_stderr,redirect_stdout
 #from os import devnull
@@ -439,8 +439,12 @@ def read_gps(gps_dir_pattern, SN):
             else:
                 fnList = []
         if len(fnList) > 0: # if any gps files matching SN are found, read and append the last
-            gpsTable = pd.concat([gpsTable,
-                                  pd.read_csv(fnList[-1], converters = {'t': obspy.UTCDateTime})], ignore_index=True)
+            with open(fnList[-1]) as gpsFile:
+                text = gpsFile.read()
+            text = text[:(text.rfind('\n')+1)] # a last line cut off by an interrupted conversion isn't data
+            if len(text) > 0:
+                gpsTable = pd.concat([gpsTable,
+                                      pd.read_csv(io.StringIO(text), converters = {'t': obspy.UTCDateTime})], ignore_index=True)
     return gpsTable
 ReadLoggerGPS = read_gps # alias; v1.0.0
 
-- 
2.43.0


From faa8b442a980f3ed9cc9be9cdf9faea2796474d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 37/57] fix: a station table with its own row labels got the
 wrong codes or failed

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index f76adbd..281c34b 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -173,7 +173,7 @@ def _get_station_info(station_info):
     elif (type(station_info) is not pd.DataFrame):
         raise Exception('invalid station_info input')
     else:
-        station_info = station_info.copy() # leave the user's table alone
+        station_info = station_info.reset_index(drop = True) # copy; leave the user's table alone
         if 'SN' not in station_info.keys():
             station_info = _fix_station_info_keys(station_info)
     if any([key not in station_info.keys() for key in ['SN', 'station']]):
-- 
2.43.0


From ba62d22f5399aa25816b5a55598cb0e020211635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 38/57] fix: merging by day must read exactly the files of that
 day and channel

---
 gemlog/gem_network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 281c34b..3f52065 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -357,6 +357,7 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
     ## find unique year, month, day lists for all files
     cuts = [infile.split('/')[-1].split('.')[0].split('T')[0] + ',' + '.'.join(infile.split('/')[-1].split('.')[1:])
             for infile in infiles]
+    file_cuts = cuts
     cuts = _unique(cuts)
     days = [cut.split(',')[0] for cut in cuts]
     suffixes = [cut.split(',')[1] for cut in cuts]
@@ -364,7 +365,10 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
     ## for each item, read all the files and 
     for day, suffix in zip(days, suffixes):
         print(day + ' ' + suffix)
-        x = obspy.read(infile_path + '/' + day + '*' + suffix)
+        x = obspy.Stream()
+        for infile, cut in zip(infiles, file_cuts):
+            if cut == day + ',' + suffix: # read exactly the files of this day and channel
+                x += obspy.read(pathlib.Path(infile))
         x.merge(fill_value = 'latest', method = 1)
         x.write(outfile_dir + '/' + day + 'T00_00_00.' + suffix)
     return
-- 
2.43.0


From 28a06decde098f60df69cc02e09c0e78eb78d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 39/57] fix: disk errors while writing renamed or merged mseed
 files must not be ignored

---
 gemlog/gem_network.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 3f52065..916b477 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -285,6 +285,16 @@ def make_gem_inventory(station_info, coords, response = 'default'):
         inventory.networks.append(network)
     return inventory
     
+def _write_stream(st, filename, format):
+    if format.lower() == 'mseed':
+        # write to memory first; obspy ignores disk errors when writing mseed
+        buffer = io.BytesIO()
+        st.write(buffer, format = 'MSEED')
+        with open(filename, 'wb') as file:
+            file.write(buffer.getvalue())
+    else:
+        st.write(filename, format = format)
+
 def rename_files(infile_pattern, station_info, output_dir, output_format = 'mseed', outfile_pattern =
                  '{year}-{mon}-{day}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}'):
     """
@@ -345,7 +355,7 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
                            'loc':location, 'chan':'HDF', 'fmt':output_format}
         outfile_pattern = _fix_file_name_digits(outfile_pattern)
         output_file = outfile_pattern.format(**trace_info_dict)
-        st.write(output_dir + '/' + output_file, format = output_format)
+        _write_stream(st, output_dir + '/' + output_file, format = output_format)
         print(str(i+1) + ' of ' + str(len(infiles)) + ': ' + infile + ', ' + output_file)
     return station_info
 
@@ -370,7 +380,7 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
             if cut == day + ',' + suffix: # read exactly the files of this day and channel
                 x += obspy.read(pathlib.Path(infile))
         x.merge(fill_value = 'latest', method = 1)
-        x.write(outfile_dir + '/' + day + 'T00_00_00.' + suffix)
+        _write_stream(x, outfile_dir + '/' + day + 'T00_00_00.' + suffix, format = suffix.split('.')[-1])
     return
 
 def _fix_file_name_digits(fn):
-- 
2.43.0


From b7c4c3f73f132b9b9bcaee80e381de3834c4fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 40/57] fix: renaming two segments that start in the same
 second must not overwrite one of them

---
 gemlog/gem_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 916b477..fb61ce3 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -330,6 +330,7 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
     infiles = glob.glob(infile_pattern)
     infiles.sort()
     assert len(infiles) > 0, 'No input files provided'
+    output_files = []
     for i, infile in enumerate(infiles):
         st = obspy.read(infile)
         fileParts = infile.split('/')[-1].split('.')
@@ -355,6 +356,9 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
                            'loc':location, 'chan':'HDF', 'fmt':output_format}
         outfile_pattern = _fix_file_name_digits(outfile_pattern)
         output_file = outfile_pattern.format(**trace_info_dict)
+        if output_file in output_files: # an earlier segment started in the same second; don't overwrite it
+            output_file = outfile_pattern.replace('{sec:02d}', '{sec:02d}' + f'_{t1.microsecond // 10000:02}').format(**trace_info_dict)
+        output_files.append(output_file)
         _write_stream(st, output_dir + '/' + output_file, format = output_format)
         print(str(i+1) + ' of ' + str(len(infiles)) + ': ' + infile + ', ' + output_file)
     return station_info
-- 
2.43.0


From 35ac66b8701ef41faa45f4ffbb181e05395c4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 41/57] fix: single-file conversion refused every file of raw
 formats 0.8 and 0.85

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 0ade17b..2364460 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1607,7 +1607,7 @@ def _convert_one_file(input_filename, output_filename = None, require_gps = True
     try:
         if not os.path.exists(input_filename):
             raise MissingRawFiles(f'File "{input_filename}" not found')
-        L = _read_several([input_filename], require_gps = require_gps)
+        L = _read_several([input_filename], version = _read_format_version(input_filename), require_gps = require_gps)
         piecewiseTimeFit = L['header'].iloc[0,:]
     
         L['metadata']['t'] = _apply_fit(L['metadata']['millis'], piecewiseTimeFit)
-- 
2.43.0


From ec6c6f43a732f175b4a355cf3a638c40267d9e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 42/57] fix: disk errors while writing a singly converted mseed
 file must not be ignored

---
 gemlog/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2364460..7081f2e 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1636,5 +1636,12 @@ def _convert_one_file(input_filename, output_filename = None, require_gps = True
             
     if output_filename is None:
         output_filename = os.path.split(input_filename)[-1] + '.mseed'
-    L['data'].write(output_filename)
+    if os.fspath(output_filename).lower().endswith('.mseed'):
+        # write to memory first; obspy ignores disk errors when writing mseed
+        buffer = io.BytesIO()
+        L['data'].write(buffer, format = 'MSEED')
+        with open(output_filename, 'wb') as file:
+            file.write(buffer.getvalue())
+    else:
+        L['data'].write(output_filename)
     
-- 
2.43.0


From 89780ddeee67d643d6e898af29611d8ae95e85f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 43/57] fix: windows after midnight must not be processed twice
 when the data start partway through a day

---
 gemlog/xcorr.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 82bedc5..2a9b063 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -231,17 +231,8 @@ def loop_through_days(function, filenames, t1 = '1970-01-01', t2 = '9999-12-31',
             break
     day_starts = np.array(day_starts)
 
-    day_ends = [day_starts[0]+86400] # bug here; causes problems with part-day files. Only run full-day files.
-    #day_ends = [day_starts[0].replace(hour=0, minute=0, second=0, microsecond=0)] # this fix didn't work
-
-    while True:
-        new_time = (day_ends[-1]+86400+2).replace(hour=0, minute=0, second=0) # add 24 hours + 2 sec, then round down
-        if new_time < t2:
-            day_ends.append(new_time)
-        else:
-            day_ends.append(t2)
-            break
-    day_ends = np.array(day_ends)
+    ## each day ends where the next one starts, so that nothing is processed twice
+    day_ends = np.append(day_starts[1:], t2)
 
     files_read = []
     output_list = []
-- 
2.43.0


From 34f4f6b9f8c60d76aaf4240cb58413b66dd76110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 44/57] fix: a station recording for only part of a window must
 not get a lag there

---
 gemlog/xcorr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 2a9b063..3ba2cad 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -333,6 +333,9 @@ def xcorr_function(st, args):
         quiet = False
     #if not quiet:
     #    print(st)
+    ## a trace that covers only part of the window doesn't line up with the others, so leave it out
+    npts = max([tr.stats.npts for tr in st])
+    st = obspy.Stream([tr for tr in st if tr.stats.npts == npts])
     dt = st[0].stats.delta
     st.detrend('linear')
     st.taper(0.05, 'hann') # Hann window, default taper for SAC
-- 
2.43.0


From 71b591dd97a17f4462c052ebc6660fec61324d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 45/57] fix: directions could not be calculated if a station
 started recording after the others

---
 gemlog/xcorr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 3ba2cad..1263472 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -142,6 +142,9 @@ def invert_for_slowness(xcorr_df, locations):
     locations = locations.iloc[keep_indices, :]
     locations = locations.sort_values('ID', ignore_index = True)
 
+    ## lags are between neighbors in this order, whatever order the stations started recording in
+    data_short_IDs = sorted(data_short_IDs, key = lambda ID: ID.split('.'))
+
     ## solve linear system G . s = t: G is x/y distances, s is slowness, and t is observed time lags
     G = []
     lag_keys = []
@@ -167,7 +170,7 @@ def invert_for_slowness(xcorr_df, locations):
     backazimuth = np.zeros(n_windows)
     slowness = np.zeros(n_windows)
     for i in range(n_windows):
-        lags = np.array([xcorr_df[lag_key][i] for lag_key in lag_keys[:-1]])
+        lags = np.array([xcorr_df[lag_key][i] if lag_key in xcorr_df.keys() else np.nan for lag_key in lag_keys[:-1]])
         slowness_vector = H @ lags
         backazimuth[i] = np.arctan2(-slowness_vector[0], -slowness_vector[1]) * 180/np.pi
         slowness[i] = np.sqrt(np.sum(slowness_vector**2))
-- 
2.43.0


From 233470f0f21080bb3e46ed91c8632d35e3ff05e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 46/57] fix: the consistency flag allowed as many samples of
 error per cross-correlation as there are stations

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 1263472..79d53ad 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -359,7 +359,7 @@ def xcorr_function(st, args):
         consistency += shift/len(st)
         output_dict['mean_coef'] += value/len(st)
     ## consistency: allow up to one sample error per cross-correlation
-    output_dict['consistency'] = np.abs(consistency) <= len(st)
+    output_dict['consistency'] = np.abs(consistency) < 1 + 1e-6 # 'consistency' is the mean shift, in samples
     return output_dict
 
 
-- 
2.43.0


From b1c3e063056ae309a2a546245d6925a6f145d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 47/57] fix: data exactly one window long must be processed
 instead of raising a division by zero

---
 gemlog/xcorr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 79d53ad..a19cbef 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -399,9 +399,11 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
     t2 = st[0].stats.endtime
     data_length_sec = t2 - t1
     num_windows = 1 + int(np.ceil((data_length_sec - win_length_sec) / (win_length_sec * (1 - overlap)) - eps))
+    if data_length_sec + st[0].stats.delta < win_length_sec - eps:
+        raise Exception(f'{data_length_sec} seconds of data are not enough for one window')
     output_dict = {'t_mid':[]}
     for i in range(num_windows):
-        win_start = t1 + i*(data_length_sec - win_length_sec) / (num_windows-1)
+        win_start = t1 + i*(data_length_sec - win_length_sec) / max(num_windows-1, 1)
         st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
         win_dict = f(st_tmp, args)
         #if i == 0:
-- 
2.43.0


From 2ece2b97978b02d63d58621f86d9b7da042cc72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 48/57] fix: check_lags imported a function that obspy does not
 have any more

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index bf94719..4325453 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -32,7 +32,7 @@ def check_discontinuity(files):
 def check_lags(DB, winlength = 1000, fl = 0.5, fh = 20, maxshift = 10, verbose = False):
     stations = DB.station.unique()
     nsta = len(stations)
-    from obspy.signal.cross_correlation import xcorr, correlate, xcorr_max
+    from obspy.signal.cross_correlation import correlate, xcorr_max
     st = obspy.Stream()
     st.filter('bandpass', freqmin=fl, freqmax = fh)
     for fn in DB.filename:
-- 
2.43.0


From edce37039e79779b53441a5d8d661535ad04e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 49/57] fix: make_db only looked at the first trace of each
 file, and one file without samples made it fail

---
 gemlog/gemlog_aux.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 4325453..6860a8f 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -128,16 +128,20 @@ def make_db(path, pattern = '*', savefile = None, verbose = False):
     count = 0
     for file in files:
         try:
-            tr = obspy.read(file)[0]
-        except:
+            st = obspy.read(file)
+            ## a file can include several traces, if its data have gaps
+            maxVal = max([tr.data.max() for tr in st])
+            minVal = min([tr.data.min() for tr in st])
+            t1 = min([tr.stats.starttime for tr in st])
+            t2 = max([tr.stats.endtime for tr in st])
+            tr = st[0]
+            st.detrend('linear')
+            st.filter('highpass', freq=0.5)
+            amp_HP = np.concatenate([tr.data for tr in st]).std()
+        except Exception:
             print('failed to read ' + file + ', skipping')
             continue
-        maxVal = tr.data.max()
-        minVal = tr.data.min()
-        tr.detrend('linear')
-        tr.filter('highpass', freq=0.5)
-        amp_HP = tr.std()
-        row = pd.DataFrame([[file, tr.stats.station, tr.stats.location, amp_HP, maxVal, minVal, tr.stats.starttime, tr.stats.endtime]], columns = ['filename', 'station', 'location', 'amp_HP', 'max', 'min', 't1', 't2'])
+        row = pd.DataFrame([[file, tr.stats.station, tr.stats.location, amp_HP, maxVal, minVal, t1, t2]], columns = ['filename', 'station', 'location', 'amp_HP', 'max', 'min', 't1', 't2'])
         DB.append(row)
         if((count % 100) == 0 and verbose):
             print(str(count) + ' of ' + str(len(files)))
-- 
2.43.0


From 74f6754e64ed166cf34aa8935f72752e62200e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 50/57] fix: make_db failed on a folder without data files or
 with brackets in its name

---
 gemlog/gemlog_aux.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 6860a8f..1a4e07d 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -122,7 +122,7 @@ def make_db(path, pattern = '*', savefile = None, verbose = False):
     """
     #path = 'mseed'
     #pattern = '*'
-    files = glob.glob(path + '/' + pattern)
+    files = glob.glob(glob.escape(path) + '/' + pattern)
     files.sort()
     DB = []
     count = 0
@@ -146,7 +146,10 @@ def make_db(path, pattern = '*', savefile = None, verbose = False):
         if((count % 100) == 0 and verbose):
             print(str(count) + ' of ' + str(len(files)))
         count = count + 1
-    DB = pd.concat(DB)
+    if len(DB) > 0:
+        DB = pd.concat(DB, ignore_index = True)
+    else:
+        DB = pd.DataFrame(columns = ['filename', 'station', 'location', 'amp_HP', 'max', 'min', 't1', 't2'])
     if savefile is not None:
         DB.to_csv(savefile)
     return(DB)
-- 
2.43.0


From 5d2e8a7915ff4dc7c24e77482474a3b62dfa31ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 51/57] fix: calc_channel_stats always failed, and took every
 file for one hour of data

---
 gemlog/gemlog_aux.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 1a4e07d..c273914 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -190,23 +190,23 @@ def calc_channel_stats(DB, t1, t2):
     #t2 = '2020-04-24T20:00:00'
     t1 = obspy.core.UTCDateTime(t1)
     t2 = obspy.core.UTCDateTime(t2)
-    numHour = (t2 - t1)/3600.0
-    DB.t1 = DB.t1.apply(T)
-    DB.t2 = DB.t2.apply(T)
-    DB.goodData = (DB.amp_HP > 0.5) & (DB.amp_HP < 2e4) & ((DB.t2 - DB.t1) > 3598) & ((DB.t2 - DB.t1) < 3602)
-    DB.anyData = (DB.amp_HP > 0) 
+    DB_t1 = [T(t) for t in DB.t1]
+    DB_t2 = [T(t) for t in DB.t2]
+    duration = np.array([b - a for a, b in zip(DB_t1, DB_t2)])
+    goodData = (DB.amp_HP > 0.5) & (DB.amp_HP < 2e4) & (duration > 3598) & (duration < 3602)
+    anyData = (DB.amp_HP > 0)
+    ## how much of the time window each file covers
+    proportion = np.array([max(min(b, t2) - max(a, t1), 0) for a, b in zip(DB_t1, DB_t2)]) / (t2 - t1)
     out = []
     for sta in DB.station.unique():
-        w = np.where((DB.station == sta) & (DB.t1 > t1) & (DB.t2 < t2))[0]
+        w = np.where((DB.station == sta) & (proportion > 0))[0]
         if(len(w) == 0):
             continue
         else:
             q1 = np.quantile(np.array(DB.amp_HP)[w], 0.25)
             q3 = np.quantile(np.array(DB.amp_HP)[w], 0.75)
-            out = pd.concat([out,
-                             pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3'])])
-    out = pd.concat(out)
-    return(out)
+            out.append([sta, np.sum((goodData * proportion).iloc[w]), np.sum((anyData * proportion).iloc[w]), q1, q3])
+    return(pd.DataFrame(out, columns = ['station', 'goodData', 'anyData', 'q1', 'q3']))
 
 _noise_path = os.path.join(os.path.dirname(__file__), "data", "noise")
 
-- 
2.43.0


From 796bfd9220c796976481b469c508be0c95bbbcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 52/57] fix: convert ignored its time_adjustment argument

---
 gemlog/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 7081f2e..afcdb02 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -198,6 +198,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         n1 = n1 + (12*blockdays) # increment file number counter
         try:
             L = read_gem(path = rawpath, nums = nums_block, SN = SN, network = network, station = station, location = location)
+            _adjust_times(L['data'], time_adjustment)
         except MissingRawFiles as e: # if the block has no files, keep searching
             problems += getattr(e, 'problems', [])
             continue
@@ -270,7 +271,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     problems += L['problems']
     metadata.to_csv(metadatafile, index=False) ## change to metadata format. need to make ScanMnetadata compatible with both
 
-    wgps = (gps['t'] >= (t1 - 1)) # t1 may be rounded up by one second
+    wgps = (gps['t'] + time_adjustment >= (t1 - 1)) # t1 may be rounded up by one second
     if(len(wgps) > 0):
         gps[wgps].to_csv(gpsfile, index=False)
 
@@ -288,6 +289,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         while(((len(p) == 0) or (p[-1].stats.endtime < tt2)) and (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
+                _adjust_times(L['data'], time_adjustment)
             except MissingRawFiles as e: # this can happen if a block of empty files is encountered
                 problems += getattr(e, 'problems', [])
                 continue
@@ -348,6 +350,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     return problems
 ####################################
 
+def _adjust_times(st, time_adjustment):
+    for tr in st:
+        tr.stats.starttime += time_adjustment
+
 def _trim_stream(p, t1, t2):
     ## cut a stream to t1 <= time <= t2; the result may be empty
     if t1 > t2:
-- 
2.43.0


From 382955417c8e010073deb7134927bc11d0cd6782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 53/57] fix: when no raw file can be converted, the error must
 name the files and say what is wrong with them

---
 gemlog/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index afcdb02..dfd07dc 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -181,10 +181,11 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
 
     ## Catch if rawpath doesn't contain any files from SN. This won't catch files ending in TXT.
     if len(nums) == 0:
+        problem_messages = ''.join('; ' + message for (num, message) in sorted(problem_files))
         if corrupt_files_flag:
-            raise CorruptRawFile('No non-corrupt data files for SN "' + SN + '" found in raw directory ' + rawpath)
+            raise CorruptRawFile('No non-corrupt data files for SN "' + SN + '" found in raw directory ' + rawpath + problem_messages)
         else:
-            raise MissingRawFiles('No data files for SN "' + SN + '" found in raw directory ' + rawpath)
+            raise MissingRawFiles('No data files for SN "' + SN + '" found in raw directory ' + rawpath + problem_messages)
 
     ## start at the first file in 'nums'
     nums.sort()
@@ -208,7 +209,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         except: # if there's any other problem, raise it
             raise
     if L['data'].count() == 0:
-        raise MissingRawFiles(f'No non-corrupt raw files found in folder "{rawpath}"')
+        raise MissingRawFiles('; '.join([f'No non-corrupt raw files found in folder "{rawpath}"'] + problems))
     p = L['data']
     
     ## if bitweight isn't set, use the default bitweight for the logger version, config, and units
-- 
2.43.0


From 05496714773f5ed0733ca9f7b09f7953f986f0b1 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 54/57] fix: reading files without GPS along with others tried
 to fill the time between 1970 and the recording

---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index dfd07dc..ac8079c 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1361,10 +1361,10 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     p_in = data[w_nonnan,1]
     _breakpoint()
     #t1 = np.trunc(t_in[t_in >= t1][0]+1-0.01) ## added on 2019-09-11. 2021-07-11: this line is responsible for losing samples before the start of a second
+    breaks_raw = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
+    breaks = breaks_raw[(t_in[breaks_raw] >= t1) & (t_in[breaks_raw+1] <= t2)] # time may step back to before the first sample
     t1 = t_in[t_in >= (t1 - 0.01 - eps)][0]
     t2 = t_in[t_in <= (t2 + .01 + eps)][-1] # add a sample because t2 is 1 sample before the hour
-    breaks_raw = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
-    breaks = breaks_raw[(t_in[breaks_raw] >= t1) & (t_in[breaks_raw+1] <= t2)]
     index = np.arange(len(t_in))
     firsts = np.hstack([0, breaks+1]) # first sample of each continuous chunk
     lasts = np.hstack([breaks, len(t_in)-1])
-- 
2.43.0


From 378c98ddf5c13a5662b6788dbb98f77eef3fa9fa Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 55/57] fix: conversion failed for data recorded after
 2038-01-19, where floats resolve only 0.5 us

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index ac8079c..0b94759 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1393,7 +1393,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
         t_interp = np.round(np.round(starts[i], 2) + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
         tr = obspy.Trace(p_interp)
-        tr.stats.starttime = t_interp[0]
+        tr.stats.starttime = obspy.UTCDateTime(ns = int(np.round(t_interp[0] * 100)) * 10**7) # floats resolve only 0.5 us after January 2038
         tr.stats.delta = 0.01
         tr.stats.channel = 'HDF'
         output += tr
-- 
2.43.0


From 504f0cb6af674057b5bbfdb0ee2511397cb0c81c Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 56/57] fix: a first file cut off before its configuration line
 gave all other files the default gain

---
 gemlog/core.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 0b94759..2f9262d 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -543,12 +543,21 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
             version = _read_format_version(fnList[0])
             if version not in _time_corrections:
                 raise CorruptRawFile(fnList[0] + ': Invalid or missing data format')
-            config = _read_config(fnList[0])
+            config = _read_config(fnList[0], default = None)
         except Exception as exception_message: # if we can't read the config for the first file here, drop it and try the next one
             problems.append(f'Failed to read header of {fnList[0]}, skipping this file: {exception_message}')
             fnList = fnList[1:] # 
         else:
             break
+    for fn in fnList[1:]: # if the first file is cut off before its config line, use the next file that has one
+        if config is not None:
+            break
+        try:
+            config = _read_config(fn, default = None)
+        except OSError: # this file's problem is reported when its data are read
+            pass
+    if config is None:
+        config = _default_config
     if version in ['0.85C', '0.9', '0.91', '1.10']:
         L = _read_several(fnList, require_gps = require_gps)# same function works for all
     elif (version == '0.85') | (version == '0.8') :
@@ -649,13 +658,15 @@ def _read_format_version(fn):
     version = versionLine['s'][0][7:]
     return version
     
-def _read_config(fn):
-    config = pd.Series({'gps_mode': 1,
+_default_config = pd.Series({'gps_mode': 1,
                     'gps_cycle' : 15,
                     'gps_quota' : 20,
                     'adc_range' : 0,
                     'led_shutoff' : 0,
                     'serial_output' : 0}) ## default config: it's fairly safe to use this as the default because any other configuration would require ...
+
+def _read_config(fn, default = _default_config):
+    config = default
     ## this is ugly but functional. pd.read_csv raises an exception when the number of columns is
     ## wrong, and the number of columns will be wrong for all rows except the C rows
     for j in range(10):
-- 
2.43.0


From 42f81f75e8f1db7bba9aa94e242c016cb33f264a Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 57/57] fix: get_gem_response gave the normal gain's response
 for gain='low'

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index fb61ce3..b6e583f 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -116,7 +116,7 @@ def get_gem_response(gain = 'high', sensor_file = '', logger_file = ''):
         if gain.lower() == 'high':
             logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
         elif gain.lower() == 'low':
-            logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
+            logger_file = 'RESP.XX.GM001..HHZ.GEMINFRAV1.1.100'
         else:
             raise ValueError(f'invalid gain: {gain}')
     response = _read_response(os.path.join(response_path, 'datalogger', logger_file))
-- 
2.43.0

