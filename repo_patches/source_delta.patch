From f3a163564446ca5a218917e0d22d33477f2544ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 01/33] fix: sp3: mark values absent from the file as NaN, not
 uninitialized memory

---
 src/georinex/sp3.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 6408077..21bb223 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -63,9 +63,10 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecefs = []
         clocks = []
         vels = []
-        ecef = np.empty((Nsv, 3))
-        clock = np.empty((Nsv, 2))
-        vel = np.empty((Nsv, 3))
+        # NaN: satellites, clock rates and velocities are not always given
+        ecef = np.full((Nsv, 3), np.nan)
+        clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
+        vel = np.full((Nsv, 3), np.nan)
         i = 0
 
         times = [sp3dt(ln)]
@@ -77,11 +78,9 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 clocks.append(clock)
                 vels.append(vel)
 
-                ecef = np.empty((Nsv, 3))
-                clock = np.empty((Nsv, 2))  # clock and clock rate-of-change
-
-                vel = np.empty((Nsv, 3))
-                vel.fill(np.nan)  # may not always have velocity
+                ecef = np.full((Nsv, 3), np.nan)
+                clock = np.full((Nsv, 2), np.nan)
+                vel = np.full((Nsv, 3), np.nan)
 
                 i = 0
                 continue
-- 
2.43.0


From a3121d104550a17806376cccf4f3af8ff6c2b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 02/33] fix: obs2: strict mode with interval labels data with
 the epochs kept, not the first epochs in file

---
 src/georinex/obs2.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 292db34..c06dfeb 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -169,13 +169,13 @@ def rinexsystem2(
             if verbose:
                 print(time_epoch, end="\r")
 
-            if fast:
-                try:
-                    times[j] = time_epoch
-                except IndexError as e:
-                    raise IndexError(
-                        f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
-                    )
+            # strict mode too: decimation keeps fewer epochs than are in the file
+            try:
+                times[j] = time_epoch
+            except IndexError as e:
+                raise IndexError(
+                    f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
+                )
             # %% Does anyone need this?
             #            try:
             #                toffset = ln[68:80]
@@ -252,6 +252,7 @@ def rinexsystem2(
                 else:
                     data[i, j, isv] = darr[:, k]
     # %% output gathering
+    times = times[: j + 1].astype("datetime64[us]")
     data = data[:, : times.size, :]  # trims down for unneeded preallocated
 
     fields = []
-- 
2.43.0


From cdddb32685368b6f5b178011ab1e95523c441925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 03/33] fix: output must not depend on set iteration order
 (hash seed)

---
 src/georinex/nav3.py |  2 +-
 src/georinex/obs2.py | 21 +++++++++++++--------
 src/georinex/obs3.py |  2 +-
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index aa936f8..c34027b 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -84,7 +84,7 @@ def rinexnav3(
     t = np.array([np.datetime64(t, "ns") for t in times])
     nav = xarray.Dataset({}, coords={"time": [], "sv": []})
 
-    for sv in set(svs):
+    for sv in sorted(set(svs)):  # set order varies from run to run
         svi = np.array([i for i, s in enumerate(svs) if s == sv])
 
         check = np.array([True] * t[svi].size)
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index c06dfeb..8f71f41 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -41,7 +41,7 @@ def rinexobs2(
         {}, coords={"time": np.array([], dtype="datetime64[ns]"), "sv": np.array([], dtype="<U3")}
     )
     attrs: dict[T.Hashable, T.Any] = {}
-    for u in use:
+    for u in sorted(use):  # set order varies from run to run
         o = rinexsystem2(
             fn,
             system=u,
@@ -58,6 +58,9 @@ def rinexobs2(
             obs = xarray.merge((obs, o))
 
     obs.attrs = attrs
+    # interval derived from all systems' times, unless given in header
+    if attrs and "interval" not in obsheader2(fn):
+        obs.attrs["interval"] = _median_interval(obs)
 
     return obs
 
@@ -288,14 +291,8 @@ def rinexsystem2(
     # Get interval from header or derive it from the data
     if "interval" in hdr.keys():
         obs.attrs["interval"] = hdr["interval"]
-    elif "time" in obs.coords.keys():
-        # median is robust against gaps
-        try:
-            obs.attrs["interval"] = np.median(np.diff(obs.time) / np.timedelta64(1, "s"))
-        except TypeError:
-            pass
     else:
-        obs.attrs["interval"] = np.nan
+        obs.attrs["interval"] = _median_interval(obs)
 
     obs.attrs["rinextype"] = "obs"
     obs.attrs["fast_processing"] = int(fast)  # bool is not allowed in NetCDF4
@@ -313,6 +310,14 @@ def rinexsystem2(
     return obs
 
 
+def _median_interval(obs: xarray.Dataset) -> float:
+    """derive interval from the data; median is robust against gaps"""
+    if obs.time.size < 2:
+        return np.nan
+
+    return np.median(np.diff(obs.time) / np.timedelta64(1, "s"))
+
+
 def _num_times(
     fn: T.TextIO | Path, Nextra: int, tlim: tuple[datetime, datetime] | None, verbose: bool
 ):
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index a68dc21..3ece7fd 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -351,7 +351,7 @@ def obsheader3(
         if not set(fields.keys()).intersection(use):
             raise KeyError(f"system type {use} not found in RINEX file")
 
-        fields = {k: fields[k] for k in use if k in fields}
+        fields = {k: v for k, v in fields.items() if k in use}
 
     # perhaps this could be done more efficiently, but it's probably low impact on overall program.
     # simple set and frozenset operations do NOT preserve order, which would completely mess up reading!
-- 
2.43.0


From 3ea07e6ff538ed3cbc68d1173a4cd203e47a68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 04/33] fix: decode compressed files as plain files are:
 non-ASCII bytes ignored, universal newlines

---
 src/georinex/rio.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index cae2bde..9477869 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -50,7 +50,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         suffix = fn.suffix.lower()
 
         if suffix == ".gz" or magic.startswith(b"\x1f\x8b"):
-            with gzip.open(fn, "rt") as f:
+            with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -66,7 +66,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
             """
             plain bzip2 files, NOT tar.bz2, which requires f.seek(512)
             """
-            with bz2.open(fn, "rt") as f:
+            with bz2.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -90,7 +90,10 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 raise ImportError("ncompress unlzw not available")
 
             with fn.open("rb") as zu:
-                with io.StringIO(unlzw(zu.read()).decode("ascii")) as f:
+                # newline=None: universal newlines, as for the other file types
+                with io.StringIO(
+                    unlzw(zu.read()).decode("ascii", errors="ignore"), newline=None
+                ) as f:
                     _, is_crinex = rinex_version(first_nonblank_line(f))
                     f.seek(0)
 
-- 
2.43.0


From 0192b3f374b29b418a95be94d32a95c485618b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 05/33] fix: zip: read CRINEX members, ignore directory
 entries, refuse several members cleanly

---
 src/georinex/rio.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 9477869..71a3135 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -78,13 +78,24 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 yield f
         elif suffix == ".zip" or magic.startswith(b"\x50\x4b"):
             with zipfile.ZipFile(fn, "r") as z:
-                flist = z.namelist()
-                for rinexfn in flist:
-                    with z.open(rinexfn, "r") as bf:
-                        f = io.StringIO(
-                            io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
-                        )
-                        yield f
+                flist = [n for n in z.namelist() if not n.endswith("/")]
+                if len(flist) != 1:
+                    raise ValueError(f"expected one RINEX file in {fn}, found {flist}")
+
+                with z.open(flist[0], "r") as bf:
+                    f = io.StringIO(
+                        io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
+                    )
+
+                _, is_crinex = rinex_version(first_nonblank_line(f))
+                f.seek(0)
+
+                if is_crinex and not header:
+                    """
+                    zip compressed CRINEX
+                    """
+                    f = io.StringIO(crx2rnx(f.read()))
+                yield f
         elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
             if unlzw is None:
                 raise ImportError("ncompress unlzw not available")
@@ -136,7 +147,7 @@ def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
             break
 
     if _i is None or _i == max_lines - 1 or not line:
-        raise ValueError(f"could not find first valid header line in {f.name}")
+        raise ValueError(f"could not find first valid header line in {getattr(f, 'name', f)}")
 
     return line
 
-- 
2.43.0


From c43bd046574f11200f761de065bde324cd54d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 06/33] fix: fractional seconds of epochs lost up to 1
 microsecond (1 ms in strict mode) to floating point

---
 src/georinex/common.py | 10 ++++++++++
 src/georinex/nav2.py   |  4 ++--
 src/georinex/obs2.py   | 12 +++++++++---
 src/georinex/obs3.py   | 11 ++++++++---
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 97bc0af..98ab62f 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -27,6 +27,16 @@ def rinex_string_to_float(s: str) -> float:
     return float(s.replace("D", "E"))
 
 
+def fractional_usec(s: str) -> int:
+    """
+    microseconds in the fractional part of seconds "s"
+
+    round at the 0.1 microsecond resolution of RINEX, then truncate,
+    so that binary floating point doesn't make .999 into .998999
+    """
+    return min(round(float(s) % 1 * 1e7) // 10, 999999)
+
+
 def check_ram(memneed: int, fn: T.TextIO | Path):
     if psutil is None:
         return
diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index de985d8..4b0c453 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -7,7 +7,7 @@ import numpy as np
 import logging
 
 from .rio import opener, rinexinfo
-from .common import rinex_string_to_float
+from .common import rinex_string_to_float, fractional_usec
 
 #
 STARTCOL2 = 3  # column where numerical data starts for RINEX 2
@@ -246,7 +246,7 @@ def _timenav(ln: str) -> datetime:
         hour=int(ln[12:14]),
         minute=int(ln[15:17]),
         second=int(float(ln[17:20])),
-        microsecond=int(float(ln[17:22]) % 1 * 1000000),
+        microsecond=fractional_usec(ln[17:22]),
     )
 
 
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 8f71f41..52000ad 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -15,7 +15,13 @@ except ImportError:
     ecef2geodetic = None
 
 from .rio import opener, rinexinfo
-from .common import determine_time_system, check_ram, check_time_interval, check_unique_times
+from .common import (
+    determine_time_system,
+    check_ram,
+    check_time_interval,
+    check_unique_times,
+    fractional_usec,
+)
 
 __all__ = ["rinexobs2", "rinexsystem2", "obsheader2", "obstime2"]
 
@@ -557,7 +563,7 @@ def _timehdr(ln: str) -> datetime:
         second = 0
 
     try:
-        usec = int(float(ln[30:43]) % 1 * 1000000)
+        usec = fractional_usec(ln[30:43])
     except ValueError:
         usec = 0
 
@@ -583,7 +589,7 @@ def _timeobs(ln: str) -> datetime:
         year += 1900
 
     try:
-        usec = int(float(ln[16:26]) % 1 * 1000000)
+        usec = fractional_usec(ln[16:26])
     except ValueError:
         usec = 0
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 3ece7fd..281d375 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -13,7 +13,12 @@ except ImportError:
     ecef2geodetic = None
 #
 from .rio import opener, rinexinfo
-from .common import determine_time_system, check_time_interval, check_unique_times
+from .common import (
+    determine_time_system,
+    check_time_interval,
+    check_unique_times,
+    fractional_usec,
+)
 
 """https://github.com/mvglasow/satstat/wiki/NMEA-IDs"""
 
@@ -179,7 +184,7 @@ def _timeobs(ln: str) -> datetime:
         hour=int(ln[13:15]),
         minute=int(ln[16:18]),
         second=int(ln[19:21]),
-        microsecond=int(float(ln[19:29]) % 1 * 1000000),
+        microsecond=fractional_usec(ln[19:29]),
     )
 
 
@@ -337,7 +342,7 @@ def obsheader3(
             hour=int(t0s[18:24]),
             minute=int(t0s[24:30]),
             second=int(float(t0s[30:36])),
-            microsecond=int(float(t0s[30:43]) % 1 * 1000000),
+            microsecond=fractional_usec(t0s[30:43]),
         )
     except (KeyError, ValueError):
         pass
-- 
2.43.0


From b99c8bebd20d523a98781536443142e5328b5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 07/33] fix: read NetCDF file holding both OBS and NAV groups

---
 src/georinex/rio.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 71a3135..93e6592 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -159,14 +159,16 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         fn = Path(f).expanduser()
 
         if fn.suffix == ".nc":
-            attrs: dict[T.Hashable, T.Any] = {"rinextype": []}
+            attrs: dict[T.Hashable, T.Any] = {}
+            rinextype = []
             for g in ("OBS", "NAV"):
                 try:
-                    dat = xarray.open_dataset(fn, group=g)
-                    attrs["rinextype"].append(g.lower())
+                    with xarray.open_dataset(fn, group=g) as dat:
+                        attrs.update(dat.attrs)
                 except OSError:
                     continue
-                attrs.update(dat.attrs)
+                rinextype.append(g.lower())
+            attrs["rinextype"] = rinextype[0] if len(rinextype) == 1 else rinextype
             return attrs
 
         with opener(fn, header=True) as f:
-- 
2.43.0


From c1ea394ccb6e1a510972f3bdd06ce5471b96e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 08/33] fix: obs3: satellite without observations and without
 trailing blanks shifted data of the following satellites

---
 src/georinex/obs3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 281d375..1326f36 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -106,7 +106,8 @@ def rinexobs3(
             for _ in range(int(ln[33:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
-                raw += ln[3:]
+                # pad, as genfromtxt would drop the line of an SV without data
+                raw += ln[3:].rstrip("\r\n").ljust(16) + "\n"
 
             if tlim is not None:
                 if time < tlim[0]:
-- 
2.43.0


From a4764216424d2bb67fcb143c8c92796cac66835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 09/33] fix: obs3: event records are not satellites, and do not
 end the file

---
 src/georinex/obs3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 1326f36..ec1e602 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -89,6 +89,11 @@ def rinexobs3(
             if not ln.startswith(">"):  # end of file
                 break
 
+            if ln[31:32] in {"2", "3", "4", "5", "6"}:  # event, not observations. pg. A13
+                for _ in range(int(ln[32:35].strip() or 0)):
+                    f.readline()
+                continue
+
             try:
                 time = _timeobs(ln)
             except ValueError:  # garbage between header and RINEX data
@@ -198,7 +203,7 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
 
     with opener(fn) as f:
         for ln in f:
-            if ln.startswith("> "):
+            if ln.startswith("> ") and ln[31:32] not in {"2", "3", "4", "5", "6"}:
                 try:
                     times.append(_timeobs(ln))
                 except (ValueError, IndexError):
-- 
2.43.0


From a4fa45ad72e97138ed7496116102b7c7f170bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 10/33] fix: obs3: epochs with 100 or more satellites

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index ec1e602..3c4e108 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -108,7 +108,7 @@ def rinexobs3(
             sv = []
             raw = ""
             # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[33:35])):
+            for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
                 # pad, as genfromtxt would drop the line of an SV without data
-- 
2.43.0


From 3f5d81b0182885b9d3b2055b4592ddc2c6f592d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 11/33] fix: obs2: SBAS and BeiDou satellites numbered above 36

---
 src/georinex/obs2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 52000ad..44d189b 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -113,10 +113,11 @@ def rinexsystem2(
     Nsvsys may need updating as GNSS systems grow.
     Let us know if you needed to change them.
 
-    Beidou is 35 max
+    Beidou is 63 max
+    SBAS is 58 max (PRN 158)
     Galileo is 36 max
     """
-    Nsvsys = 36
+    Nsvsys = {"C": 63, "S": 58}.get(system, 36)
 
     hdr = obsheader2(fn, useindicators, meas)
 
-- 
2.43.0


From c2f0b8783ebd9595696c0ac871a0c1bcf45cc0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 12/33] fix: nav3: record cut short by the end of file gave
 zeros for its absent values

---
 src/georinex/nav3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index c34027b..089ab4d 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -58,6 +58,11 @@ def rinexnav3(
                 _skip(f, Nl[sv[0]])
                 continue
 
+            data_lines = [ln for _, ln in zip(range(Nl[sv[0]]), f)]
+            if len(data_lines) < Nl[sv[0]]:  # absent values would be read as zero
+                logging.warning(f"{fn}: file ends within a record of {sv}, skipping the record")
+                break
+
             times.append(time)
             # %% SV types
             if len(svtypes) == 0:
@@ -74,7 +79,7 @@ def rinexnav3(
             # %% get the data as one big long string per SV, unknown # of lines per SV
             raw = line[23:80]  # NOTE: 80, files put data in the last column!
 
-            for _, ln in zip(range(Nl[sv[0]]), f):
+            for ln in data_lines:
                 raw += ln[STARTCOL3:80]
             # one line per SV
             raws.append(raw.replace("D", "E").replace("\n", ""))
-- 
2.43.0


From 57b43f9f5792b253ab21c5ce1c005b2caadb6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 13/33] fix: a failed or interrupted conversion damaged or left
 unreadable the NetCDF output file

---
 src/georinex/base.py   |  9 ++++++---
 src/georinex/common.py | 27 +++++++++++++++++++++++++++
 src/georinex/sp3.py    |  4 +++-
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 60f079a..1dc693d 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -12,6 +12,7 @@ from .nav2 import rinexnav2
 from .nav3 import rinexnav3
 from .sp3 import load_sp3
 from .utils import _tlim
+from .common import atomic_output
 
 # for NetCDF compression. too high slows down with little space savings.
 ENC = {"zlib": True, "complevel": 1, "fletcher32": True}
@@ -173,7 +174,8 @@ def rinexnav(
         wmode = _groupexists(outfn, group, overwrite)
 
         enc = {k: ENC for k in nav.data_vars}
-        nav.to_netcdf(outfn, group=group, mode=wmode, encoding=enc, format="NETCDF4")
+        with atomic_output(outfn, keep=wmode == "a") as tmp:
+            nav.to_netcdf(tmp, group=group, mode=wmode, encoding=enc, format="NETCDF4")
 
     return nav
 
@@ -246,7 +248,8 @@ def rinexobs(
         # Pandas >= 0.25.0 requires this, regardless of xarray version
         if obs.time.dtype != "datetime64[ns]":
             obs["time"] = obs.time.astype("datetime64[ns]")
-        obs.to_netcdf(outfn, group=group, mode=wmode, encoding=enc, format="NETCDF4")
+        with atomic_output(outfn, keep=wmode == "a") as tmp:
+            obs.to_netcdf(tmp, group=group, mode=wmode, encoding=enc, format="NETCDF4")
 
     return obs
 
@@ -258,7 +261,7 @@ def _groupexists(fn: Path, group: str, overwrite: bool) -> str:
 
     # be sure there isn't already NAV in it
     try:
-        xarray.open_dataset(fn, group=group)
+        xarray.open_dataset(fn, group=group).close()
         raise ValueError(f"{group} already in {fn}")
     except OSError:
         pass
diff --git a/src/georinex/common.py b/src/georinex/common.py
index 98ab62f..5428e68 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -1,7 +1,11 @@
 from __future__ import annotations
 import typing as T
 from pathlib import Path
+from contextlib import contextmanager
 from datetime import timedelta
+import os
+import shutil
+import uuid
 import numpy as np
 import logging
 
@@ -97,3 +101,26 @@ def check_time_interval(interval: float | int | timedelta | None) -> timedelta |
         raise TypeError("expect time interval in seconds (float,int) or datetime.timedelta")
 
     return interval
+
+
+@contextmanager
+def atomic_output(fn: Path, keep: bool = False) -> T.Iterator[Path]:
+    """
+    yields path of temporary file to write, which replaces "fn" only once completely written.
+    A failed or interrupted write leaves "fn" as it was.
+
+    keep: start from a copy of "fn", to append to it
+    """
+    fn = fn.resolve()  # don't replace a symlink
+    tmp = fn.with_name(f".{fn.name}.{uuid.uuid4().hex}.tmp")
+    try:
+        if keep:
+            shutil.copyfile(fn, tmp)
+        yield tmp
+        if fn.is_file():
+            shutil.copymode(fn, tmp)
+        with tmp.open("r+b") as f:
+            os.fsync(f.fileno())
+        os.replace(tmp, fn)
+    finally:
+        tmp.unlink(missing_ok=True)
diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 21bb223..6448809 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -12,6 +12,7 @@ from pathlib import Path
 from datetime import datetime, timedelta
 
 from .rio import first_nonblank_line, opener
+from .common import atomic_output
 
 # for NetCDF compression. too high slows down with little space savings.
 ENC = {"zlib": True, "complevel": 1, "fletcher32": True}
@@ -126,7 +127,8 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
     if outfn:
         outfn = Path(outfn).expanduser()
         enc = {k: ENC for k in ds.data_vars}
-        ds.to_netcdf(outfn, mode="w", encoding=enc, format="NETCDF4")
+        with atomic_output(outfn) as tmp:
+            ds.to_netcdf(tmp, mode="w", encoding=enc, format="NETCDF4")
 
     return ds
 
-- 
2.43.0


From b593bbb18604b389c85c75b43e62dbd158422223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 14/33] fix: batch conversion stopped at the first truncated,
 corrupt or unsupported file

---
 src/georinex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 1dc693d..b480871 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -134,8 +134,8 @@ def batch_convert(
                 verbose=verbose,
                 fast=fast,
             )
-        except ValueError as e:
-            logging.error(f"{fn.name}: {e}")
+        except Exception as e:  # whatever is wrong with one file, convert the others
+            logging.error(f"{fn.name}: {type(e).__name__}: {e}")
 
 
 def rinexnav(
-- 
2.43.0


From f810cb38f702ca8361ce3aadc5ab36b776b83347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 15/33] fix: survey of a directory stopped at the first
 truncated, corrupt or unsupported file

---
 src/georinex/geo.py           | 16 +++++++++-------
 src/georinex/time/__main__.py |  4 ++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index 4691ab6..9ccb596 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import logging
 import pandas
 import io
 import xarray
@@ -28,14 +29,15 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
 
     hdr: dict[T.Hashable, T.Any]
     for file in files:
-        if isinstance(file, Path) and file.suffix == ".nc":
-            dat = xarray.open_dataset(file, group="OBS")
-            hdr = dat.attrs
-        else:
-            try:
+        try:
+            if isinstance(file, Path) and file.suffix == ".nc":
+                with xarray.open_dataset(file, group="OBS") as dat:
+                    hdr = dat.attrs
+            else:
                 hdr = rinexheader(file)
-            except ValueError:
-                continue
+        except Exception as e:  # whatever is wrong with one file, locate the others
+            logging.error(f"{file}: {type(e).__name__}: {e}")
+            continue
 
         if isinstance(file, Path):
             key = file.name
diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index b1b1917..eb8c933 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -50,8 +50,8 @@ if filename.is_dir():
     for f in flist:
         try:
             eachfile(f)
-        except ValueError as err:
-            logging.error(f"{f.name}: {err}")
+        except Exception as err:  # whatever is wrong with one file, report the others
+            logging.error(f"{f.name}: {type(err).__name__}: {err}")
 elif filename.is_file():
     eachfile(filename)
 else:
-- 
2.43.0


From 91097168a9f1252b7952f8698f0e775bd195140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 16/33] fix: Hatanaka compressed text stream gave wrong times
 and no data

---
 src/georinex/rio.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 93e6592..f45af81 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -32,7 +32,14 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
 
     if isinstance(fn, io.StringIO):
         fn.seek(0)
-        yield fn
+        if fn.read(81)[20:40] == "COMPACT RINEX FORMAT" and not header:
+            fn.seek(0)
+            crx = fn.read()
+            fn.seek(0)
+            yield io.StringIO(crx2rnx(crx))
+        else:
+            fn.seek(0)
+            yield fn
     elif isinstance(fn, Path):
         # need to have this check for Windows
         if not fn.is_file():
-- 
2.43.0


From 20bcaa996c4c3f508e1d921671da51f786634f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 17/33] fix: obs2: version of data from Hatanaka compressed
 file was the CRINEX version

---
 src/georinex/obs2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 44d189b..fb8c0b7 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -294,6 +294,8 @@ def rinexsystem2(
     obs = obs.dropna(dim="time", how="all")  # when tlim specified
     # %% attributes
     obs.attrs["version"] = hdr["version"]
+    if "RINEX VERSION / TYPE" in hdr:  # CRINEX: the first line of header gives CRINEX version
+        obs.attrs["version"] = float(hdr["RINEX VERSION / TYPE"][:9])
 
     # Get interval from header or derive it from the data
     if "interval" in hdr.keys():
-- 
2.43.0


From 2245748e9c7d915e3fd2c447654ea76ad0734fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 18/33] fix: nav2: value left blank, with trailing spaces,
 refused the whole file

---
 src/georinex/nav2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 4b0c453..48f16bc 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -174,7 +174,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             It assumes the blank is always in the last measurement for now.
             """
             dvec = [
-                float(raws[i][k * Lf : (k + 1) * Lf])
+                float(raws[i][k * Lf : (k + 1) * Lf].strip() or "nan")
                 for k in range(min(len(fields), len(raws[i]) // Lf))
             ]
             data[: len(dvec), it, j] = dvec
-- 
2.43.0


From 37d58ffec6ca741f3e8047aeede6e01ab8bcc9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 19/33] fix: get_locations mixed up receivers of same-named
 files and of several streams

---
 src/georinex/geo.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index 9ccb596..2510399 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -19,7 +19,9 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
         files = [files]
 
     if isinstance(files[0], io.StringIO):
-        locs = pandas.DataFrame(index=["0"], columns=["lat", "lon", "interval"])
+        locs = pandas.DataFrame(
+            index=[str(i) for i in range(len(files))], columns=["lat", "lon", "interval"]
+        )
     elif isinstance(files[0], Path):
         locs = pandas.DataFrame(
             index=[file.name for file in files], columns=["lat", "lon", "interval"]
@@ -28,7 +30,7 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
         raise TypeError("Expecting pathlib.Path")
 
     hdr: dict[T.Hashable, T.Any]
-    for file in files:
+    for i, file in enumerate(files):
         try:
             if isinstance(file, Path) and file.suffix == ".nc":
                 with xarray.open_dataset(file, group="OBS") as dat:
@@ -39,18 +41,14 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
             logging.error(f"{file}: {type(e).__name__}: {e}")
             continue
 
-        if isinstance(file, Path):
-            key = file.name
-        else:
-            key = "0"
-
         if "position_geodetic" not in hdr:
             continue
 
-        locs.loc[key, "lat"] = hdr["position_geodetic"][0]
-        locs.loc[key, "lon"] = hdr["position_geodetic"][1]
+        # by row, as files of different directories can have the same name
+        locs.iloc[i, 0] = hdr["position_geodetic"][0]
+        locs.iloc[i, 1] = hdr["position_geodetic"][1]
         if "interval" in hdr and hdr["interval"] is not None:
-            locs.loc[key, "interval"] = hdr["interval"]
+            locs.iloc[i, 2] = hdr["interval"]
 
     locs = locs.loc[locs.loc[:, ["lat", "lon"]].notna().all(axis=1), :]
 
-- 
2.43.0


From bb4d24e1ab2338773a30bb755bce01e3cba45342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 20/33] fix: header of RINEX 3 CRINEX file gave a blank
 satellite system

---
 src/georinex/obs3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 3c4e108..75060d6 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -327,6 +327,10 @@ def obsheader3(
         else:  # concatenate to the existing string
             hdr[hd.strip()] += " " + c
 
+    try:  # CRINEX: the first line of header doesn't tell the system
+        hdr["systems"] = hdr["RINEX VERSION / TYPE"][40]
+    except KeyError:
+        pass
     # %% list with x,y,z cartesian (OPTIONAL)
     # Rinex 3.03, pg. A6, Table A2
     try:
-- 
2.43.0


From 1384189bdac546d2639e203384303ef4f4e3d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 21/33] fix: loading a NetCDF output again while an earlier
 load of it is open crashed in HDF5

---
 src/georinex/rio.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index f45af81..124c2f6 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -4,7 +4,7 @@ import gzip
 import bz2
 import zipfile
 from pathlib import Path
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 import io
 import logging
 
@@ -168,13 +168,14 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         if fn.suffix == ".nc":
             attrs: dict[T.Hashable, T.Any] = {}
             rinextype = []
-            for g in ("OBS", "NAV"):
-                try:
-                    with xarray.open_dataset(fn, group=g) as dat:
-                        attrs.update(dat.attrs)
-                except OSError:
-                    continue
-                rinextype.append(g.lower())
+            with ExitStack() as stack:
+                for g in ("OBS", "NAV"):
+                    try:
+                        dat = stack.enter_context(xarray.open_dataset(fn, group=g))
+                    except OSError:
+                        continue
+                    attrs.update(dat.attrs)
+                    rinextype.append(g.lower())
             attrs["rinextype"] = rinextype[0] if len(rinextype) == 1 else rinextype
             return attrs
 
-- 
2.43.0


From 559231376e64a6f1470e95f78a554420e826222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:49 +0000
Subject: [PATCH 22/33] fix: obs2: strict mode truncated epochs to the
 millisecond, and failed with a time window starting within it

---
 src/georinex/obs2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index fb8c0b7..721dbdd 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -358,9 +358,10 @@ def _num_times(
         """
         t = obstime2(fn, verbose=verbose)  # < 10 ms for 24 hour 15 second cadence
         if tlim is not None:
-            times = t[(tlim[0] <= t) & (t <= tlim[1])]
-        else:
-            times = t
+            # epochs are listed truncated to the millisecond
+            t = t[(tlim[0] - timedelta(milliseconds=1) < t) & (t <= tlim[1])]
+
+        times = t.astype("datetime64[us]")
 
     return times
 
-- 
2.43.0


From 0568e3472ac3b930aa3e0b54fb831d0736301cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 23/33] fix: NetCDF file that could not be read was taken as
 lacking the data: overwritten without permission, or loaded in part

---
 src/georinex/base.py   | 11 ++++++++---
 src/georinex/common.py |  8 ++++++++
 src/georinex/rio.py    |  6 +++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index b480871..f6ebd61 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -12,7 +12,7 @@ from .nav2 import rinexnav2
 from .nav3 import rinexnav3
 from .sp3 import load_sp3
 from .utils import _tlim
-from .common import atomic_output
+from .common import atomic_output, group_absent
 
 # for NetCDF compression. too high slows down with little space savings.
 ENC = {"zlib": True, "complevel": 1, "fletcher32": True}
@@ -156,6 +156,8 @@ def rinexnav(
             try:
                 return xarray.open_dataset(fn, group=group)
             except OSError as e:
+                if not group_absent(e):
+                    raise
                 raise LookupError(f"Group {group} not found in {fn}    {e}")
 
     tlim = _tlim(tlim)
@@ -208,6 +210,8 @@ def rinexobs(
             try:
                 return xarray.open_dataset(fn, group=group)
             except OSError as e:
+                if not group_absent(e):
+                    raise
                 raise LookupError(f"Group {group} not found in {fn}   {e}")
 
     tlim = _tlim(tlim)
@@ -263,7 +267,8 @@ def _groupexists(fn: Path, group: str, overwrite: bool) -> str:
     try:
         xarray.open_dataset(fn, group=group).close()
         raise ValueError(f"{group} already in {fn}")
-    except OSError:
-        pass
+    except OSError as e:
+        if not group_absent(e):
+            raise
 
     return "a"
diff --git a/src/georinex/common.py b/src/georinex/common.py
index 5428e68..5eb50b2 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -103,6 +103,14 @@ def check_time_interval(interval: float | int | timedelta | None) -> timedelta |
     return interval
 
 
+def group_absent(e: OSError) -> bool:
+    """
+    xarray.open_dataset() raises OSError both if the file lacks the group
+    and if the file could not be opened or read
+    """
+    return "group not found" in str(e)
+
+
 @contextmanager
 def atomic_output(fn: Path, keep: bool = False) -> T.Iterator[Path]:
     """
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 124c2f6..da84f9b 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -10,6 +10,8 @@ import logging
 
 import xarray
 
+from .common import group_absent
+
 try:
     from hatanaka import crx2rnx
 except ImportError:
@@ -172,7 +174,9 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
                 for g in ("OBS", "NAV"):
                     try:
                         dat = stack.enter_context(xarray.open_dataset(fn, group=g))
-                    except OSError:
+                    except OSError as e:
+                        if not group_absent(e):
+                            raise
                         continue
                     attrs.update(dat.attrs)
                     rinextype.append(g.lower())
-- 
2.43.0


From bf6fb2d34bd64b53214817a3b3c44de4c0e7b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 24/33] fix: load() compared time limits given as text before
 parsing them

---
 src/georinex/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index f6ebd61..b177687 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -57,6 +57,7 @@ def load(
     if tlim is not None:
         if len(tlim) != 2:
             raise ValueError("time bounds are specified as start stop")
+        tlim = _tlim(tlim)  # text doesn't compare like time
         if tlim[1] < tlim[0]:
             raise ValueError("stop time must be after start time")
 
-- 
2.43.0


From 545bdb64385251212823bd551ad0c43b74527570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 25/33] fix: NAV3 records of one SV may have differing layouts

---
 src/georinex/nav3.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 089ab4d..4656cde 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -107,11 +107,15 @@ def rinexnav3(
             darr.fill(np.nan)
 
             for j, i in enumerate(svi):
+                # files merged from several writers have records of one SV with differing layouts
+                index = _record_index(full_fields, sv[0], raws[i], compact_index)
                 try:
-                    darr[j, compact_index] = [
+                    values = [
                         float(raws[i][LF * k : LF * (k + 1)].strip() or 0)
-                        for k in range(len(compact_index))
+                        for k in range(len(index))
                     ]
+                    darr[j, compact_index] = 0  # blank fields are zero
+                    darr[j, index] = values
                 except ValueError:
                     logging.info(f"malformed line for {sv}")
 
@@ -176,6 +180,19 @@ def _num_fields(raw: str) -> int:
     return math.ceil(len(raw.rstrip()) / LF)
 
 
+def _record_index(full_fields: list[str], sys: str, raw: str, default: list[int]) -> list[int]:
+    """
+    Return which of full_fields the values of this record are.
+    """
+
+    try:
+        own = _sparefields(full_fields, sys=sys, N=_num_fields(raw))
+    except ValueError:  # no known layout, e.g. last values blank or record cut short
+        return default
+
+    return [i for i, c in enumerate(full_fields) if c in own]
+
+
 def _skip(f: T.TextIO, Nl: int):
     for _, _ in zip(range(Nl), f):
         pass
-- 
2.43.0


From eb2b956d25011aed7ae38f18c1f4ef459b50c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 26/33] fix: NAV3 blank fields trimmed at the end of a line
 shifted the fields after them

---
 src/georinex/nav3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 4656cde..ece3c10 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -77,10 +77,12 @@ def rinexnav3(
             # patch SV names in case of "G 7" => "G07"
 
             # %% get the data as one big long string per SV, unknown # of lines per SV
-            raw = line[23:80]  # NOTE: 80, files put data in the last column!
+            # trailing blank fields of a line may be trimmed. Line 5 of C, E tells by its length which
+            # spares it has: see _sparefields()
+            raw = line[23:80].rstrip("\n").ljust(3 * LF)  # NOTE: 80, data in the last column!
 
-            for ln in data_lines:
-                raw += ln[STARTCOL3:80]
+            for k, ln in enumerate(data_lines, 1):
+                raw += ln[STARTCOL3:80].rstrip("\n").ljust(0 if k == 5 and sv[0] in "CE" else 4 * LF)
             # one line per SV
             raws.append(raw.replace("D", "E").replace("\n", ""))
 
-- 
2.43.0


From 44fc816ac23f82bbdefd1a9de0ade41c203af4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 27/33] fix: NAV2 blank fields at the end of a line shifted the
 fields after them

---
 src/georinex/nav2.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 48f16bc..98da7f6 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -141,10 +141,14 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
 
             times.append(time)
             # %% read the data as one big long string per SV
-            raw = ln[22:79]
+            raw = _pad(ln[22:79], 3 * Lf)
             # NOTE: MUST be 79, not 80 due to some files that put \n a character early!
-            for _ in range(Nl[header["systems"]]):
-                raw += f.readline()[STARTCOL2:79]
+            for k in range(Nl[header["systems"]]):
+                ln = f.readline()[STARTCOL2:79]
+                if svtype == "E" and k == 4:  # the fourth field is a spare
+                    raw += _pad(ln, 4 * Lf)[: 3 * Lf]
+                else:
+                    raw += _pad(ln, 4 * Lf)
             # one line per SV
             # Sebastijan also added .replace('  ', ' ').replace(' -', '-') here,
             # I didn't add that yet because I don't know if it's generally needed.
@@ -230,6 +234,17 @@ def navheader2(f: T.TextIO) -> dict[T.Hashable, T.Any]:
     return hdr
 
 
+def _pad(ln: str, width: int) -> str:
+    """
+    Restore the trailing blank fields that a line may leave out
+    """
+
+    if len(ln) < width and not ln.endswith("\n"):  # file ends within this line
+        return ln
+
+    return ln.rstrip("\n").ljust(width)
+
+
 def _timenav(ln: str) -> datetime:
     year = int(ln[3:5])
     if 80 <= year <= 99:
-- 
2.43.0


From 3bfd90cc1f2dbe6878853da004bc7f2c51604b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 28/33] fix: LLI of phases other than L1, L2 (and RINEX 2 L5)
 was dropped

---
 src/georinex/obs2.py | 4 ++--
 src/georinex/obs3.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 721dbdd..5e3c064 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -269,8 +269,8 @@ def rinexsystem2(
     for field in hdr["fields"]:
         fields.append(field)
         if useindicators:
-            if field not in {"S1", "S2", "S5"}:
-                if field in {"L1", "L2", "L5"}:
+            if not field.startswith("S"):
+                if field.startswith("L"):
                     fields.append(f"{field}lli")
                 else:
                     fields.append(None)
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 75060d6..4c46501 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -271,7 +271,7 @@ def _indicators(d: dict, k: str, arr: np.ndarray) -> dict[str, tuple]:
     """
     handle LLI (loss of lock) and SSI (signal strength)
     """
-    if k.startswith(("L1", "L2")):
+    if k.startswith("L"):
         d[k + "lli"] = (("time", "sv"), np.atleast_2d(arr[:, 0]))
 
     d[k + "ssi"] = (("time", "sv"), np.atleast_2d(arr[:, 1]))
-- 
2.43.0


From 1a1a6fea37914677905a8100f0018e3a64846955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 29/33] fix: RINEX 2 cycle slip records were read as
 observations

---
 src/georinex/obs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 5e3c064..9255da3 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -608,7 +608,7 @@ def _timeobs(ln: str) -> datetime:
     )
     # %% check if valid time
     eflag = int(ln[28])
-    if eflag not in {0, 1, 5, 6}:  # EPOCH FLAG
+    if eflag not in {0, 1}:  # EPOCH FLAG; others are events, 6: cycle slips, not observations
         raise ValueError(f"{t}: epoch flag {eflag}")
 
     return t
-- 
2.43.0


From 415b123b8d20a2e893bf1f4b5f7a0f877e8790ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 30/33] fix: time_offset attribute held offsets of epochs not
 selected

---
 src/georinex/obs3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 4c46501..8fefe6f 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -100,10 +100,7 @@ def rinexobs3(
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                 continue
 
-            try:
-                time_offset.append(float(ln[41:56]))
-            except ValueError:
-                pass
+            offset = ln[41:56]
             # %% get SV indices
             sv = []
             raw = ""
@@ -129,6 +126,11 @@ def rinexobs3(
                     else:
                         last_epoch += interval
 
+            try:
+                time_offset.append(float(offset))
+            except ValueError:
+                pass
+
             if verbose:
                 print(time, end="\r")
 
-- 
2.43.0


From 4e2657c90970bd9b1ae6989a42cfa34156f82c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 31/33] fix: time system stated in the header overrides the
 default of the file type, SBAS files

---
 src/georinex/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 5eb50b2..36c91be 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -61,12 +61,17 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
     """Determine which time system is used in an observation file."""
     # Current implementation is quite inconsistent in terms what is put into
     # header.
+    # The time system of the file type is only the default of the one in TIME OF FIRST OBS
+    ts = header.get("TIME OF FIRST OBS", "")[48:51]
+    if ts in {"GPS", "GLO", "GAL", "QZS", "BDT", "IRN"}:
+        return ts
+
     try:
         file_type = header["RINEX VERSION / TYPE"][40]
     except KeyError:
         file_type = header["systems"]
 
-    if file_type == "G":
+    if file_type in {"G", "S"}:  # SBAS uses GPS time
         ts = "GPS"
     elif file_type == "R":
         ts = "GLO"
-- 
2.43.0


From 4f157be62a58631394a267dc77f7ffd8c2a09966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 32/33] fix: SP3 values were given to satellites by their
 order, not their identifier

---
 src/georinex/sp3.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 6448809..efdf6a3 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -68,7 +68,6 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecef = np.full((Nsv, 3), np.nan)
         clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
         vel = np.full((Nsv, 3), np.nan)
-        i = 0
 
         times = [sp3dt(ln)]
 
@@ -83,16 +82,17 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 clock = np.full((Nsv, 2), np.nan)
                 vel = np.full((Nsv, 3), np.nan)
 
-                i = 0
                 continue
 
+            if ln[0] in {"P", "V"}:  # not every SV is at every epoch
+                i = svs.index(ln[1:4].replace(" ", ""))
+
             if ln[0] == "P":
                 ecef[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                 clock[i, 0] = float(ln[46:60])
-                i += 1
             elif ln[0] == "V":
-                vel[i - 1, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
-                clock[i - 1, 1] = float(ln[46:60])
+                vel[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
+                clock[i, 1] = float(ln[46:60])
             elif ln.startswith(("EP", "EV")):
                 # let us know if you want these data types
                 pass
-- 
2.43.0


From 0f52d6e2a7243d4daf79046e3acbbe91810e4b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 33/33] fix: selection of satellite systems was ignored for
 RINEX 2 NAV

---
 src/georinex/base.py | 2 +-
 src/georinex/nav2.py | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index b177687..d711008 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -165,7 +165,7 @@ def rinexnav(
 
     info = rinexinfo(fn)
     if int(info["version"]) == 2:
-        nav = rinexnav2(fn, tlim=tlim)
+        nav = rinexnav2(fn, tlim=tlim, use=use)
     elif int(info["version"]) == 3:
         nav = rinexnav3(fn, use=use, tlim=tlim)
     else:
diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 98da7f6..cc6010c 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -16,7 +16,11 @@ Nl = {"G": 7, "R": 3, "E": 7}  # number of additional SV lines
 __all__ = ["rinexnav2", "navheader2", "navtime2"]
 
 
-def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None):
+def rinexnav2(
+    fn: T.TextIO | Path,
+    tlim: tuple[datetime, datetime] | None = None,
+    use: set[str] | None = None,
+):
     """
     Reads RINEX 2.x NAV files
     Michael Hirsch, Ph.D.
@@ -123,7 +127,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
         else:
             raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["sys"]}  {fn}')
         # %% loop over times
-        for ln in f:
+        for ln in f if not use or svtype in use else ():  # a file has a single system
             # %% read Epoch / ToC (Time of Clock)
             try:
                 time = _timenav(ln)
-- 
2.43.0

