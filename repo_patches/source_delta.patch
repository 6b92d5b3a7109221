From 4bff0c3579949ce046fa005bd497531b6022bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 01/38] fix: nav clock times lose the scale of fractional
 seconds

The fraction was scaled by 1e4 whatever its number of digits, so .50 was
read as .05 and three-digit fractions raised ValueError.
---
 shipgrav/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 4d16fab..48dfb89 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -166,9 +166,9 @@ def _clock_time(allnav, talker):
             post = post[1:]
         hour[i] = int(post[0][:2])   # hour
         mint[i] = int(post[0][2:4])  # min
-        sec0 = float(post[0][4:])  # sec.msec
-        msec[i] = int(int(str(sec0).split('.')[-1])*1e4)  # msec
-        sec[i] = int(str(sec0).split('.')[0])  # sec
+        sec0, _, frac = post[0][4:].partition('.')  # sec.msec
+        msec[i] = int(frac[:6].ljust(6, '0'))  # fraction -> microseconds
+        sec[i] = int(sec0)  # sec
 
     return hour, mint, sec, msec
 
-- 
2.43.0


From 5f14f9038aaa50e08cfb09851b071fe42ce3ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 02/38] fix: read_nav raises ValueError when the talker is not
 in a file

Only the Ride/Sikuliaq reader reported the absent talker with -999.
---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 48dfb89..d287d6d 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -108,8 +108,8 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
                     'R/V %s not yet supported for nav read; must supply read function' % ship)
                 return -999
 
-        if type(timest) is int and timest == -999:
-            return timest  # eg looking for a talker that is not in a file
+        if (type(timest) is int and timest == -999) or len(timest) == 0:
+            return -999  # eg looking for a talker that is not in a file
 
         # posix, seconds, for interpolation
         sec_time = np.array([d.timestamp() for d in timest])
-- 
2.43.0


From 98ab8c51a9649c13646ed3ee937680c4f0374a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 03/38] fix: tracks across 180 degrees cannot be read
 (read-only array)

DataFrame.values is a read-only view with pandas copy-on-write, so the
in-place longitude fix raised ValueError.
---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index d287d6d..1b49b6c 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -355,7 +355,7 @@ def _clean_180cross(gps_nav):
     lpos = gps_nav['lon'].values > 0
     lneg = gps_nav['lon'].values < 0
 
-    newlon = gps_nav['lon'].values
+    newlon = gps_nav['lon'].to_numpy(copy=True)
 
     if sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
@@ -371,7 +371,7 @@ def _clean_180cross(gps_nav):
             # ad hoc duplication, not great
             newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-    gps_nav = gps_nav.replace({'lon': newlon})
+    gps_nav['lon'] = newlon
 
     return gps_nav
 
-- 
2.43.0


From 6ec0db3ada9a2b3c9c9da8d10a39116e9f722b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 04/38] fix: data gaps are treated as longitude wrap-around in
 read_nav

A gap of more than a degree moved valid fixes half way across the gap and
split tracks that cross the prime meridian; a dropout at the 180 degree
crossing hid the crossing.
---
 shipgrav/io.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 1b49b6c..677244c 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -139,7 +139,7 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
                                  dtype=datetime)
 
     # check if we have probable longitude jumps, try to fix them
-    ilocs = np.where(abs(np.diff(gps_nav['lon'])) > 1)[0]
+    ilocs = np.where(abs(np.diff(gps_nav['lon'].dropna())) > 1)[0]
     if len(ilocs) > 0:
         # try to get rid of +- jumps (NBP, often)
         gps_nav = _clean_180cross(gps_nav)
@@ -357,7 +357,9 @@ def _clean_180cross(gps_nav):
 
     newlon = gps_nav['lon'].to_numpy(copy=True)
 
-    if sum(lpos) > sum(lneg):
+    if not np.any(abs(np.diff(newlon[~np.isnan(newlon)])) > 180):
+        pass  # only gaps or outliers, nothing wraps around
+    elif sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
     else:
         newlon[lpos] = -180 + newlon[lpos] % -180
@@ -367,7 +369,9 @@ def _clean_180cross(gps_nav):
     if len(ilocs) % 2 != 0:  # these are not paired, so one must be an end?
         pass
     else:  # pairs of indices for jump out and back
-        for i in ilocs[::2]:  # assume nice pairwise
+        for i, j in zip(ilocs[::2], ilocs[1::2]):  # assume nice pairwise
+            if j != i+1 or abs(newlon[i+2] - newlon[i]) > 1:
+                continue  # gaps in the track, not one point out and back
             # ad hoc duplication, not great
             newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-- 
2.43.0


From 91b317db1fccd3c0392c9105c426d8a9fd84ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 05/38] fix: read_other_stuff skips the last line of the data
 file

---
 shipgrav/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 677244c..038189e 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -826,12 +826,11 @@ def read_other_stuff(yaml_file, data_file, tag):
     # checks done, read in all the lines for this feed
     lines = []
     s.seek(0)
-    # get line, bytes->string, strip \r\n from end
-    ln = s.readline().decode('ascii').rstrip()
-    while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
+    for raw in iter(s.readline, b''):  # until we get to the end of the file
+        # bytes->string, strip \r\n from end
+        ln = raw.decode('ascii').rstrip()
         if tag in ln:
             lines.append(ln)
-        ln = s.readline().decode('ascii').rstrip()  # next!
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-- 
2.43.0


From c147ddd8f4f7a76c697b4e4b7825afff820d4ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 06/38] fix: read_other_stuff shifts columns when the first
 field is empty

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 038189e..e402001 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -836,7 +836,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     # split into pre-tag (might be '') and post-tag
     tagsplit = [e.split(dtag) for e in lines]
     # tagjoin = [','.join(tagsplit[i][0].strip(),tagsplit[i][1].strip(',')) for i in range(len(tagsplit))]
-    named_fields = [tagsplit[i][1].strip(',').split(
+    named_fields = [tagsplit[i][1].removeprefix(',').rstrip(',').split(
         ',') for i in range(len(tagsplit))]
 
     # make a dataframe, using yaml and including any timestamp-like info that might be before the tag
-- 
2.43.0


From eed18ab3c05cb9ba0c009d72d35784edeff81296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 07/38] fix: tide prediction uses the local hour of timestamps
 not in UTC

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 7cc7ec9..5a36789 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -31,6 +31,7 @@ def _convert_datetime_tidetime(timestamp):
     """
     origin_time = datetime(1899, 12, 31, 12, 0, 0, tzinfo=timezone.utc)
     dt = timestamp - origin_time
+    timestamp = timestamp.astimezone(timezone.utc)
     days = dt.days + dt.seconds/3600./24.
     julian_century = days/36525
     julian_hour = (timestamp.hour + timestamp.minute /
-- 
2.43.0


From 4c99273b6cc21f4541115bb213ab98b6dff81497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 08/38] fix: data after the last gap is left out of the
 cross-coupling fit

---
 shipgrav/grav.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 5a36789..78923d9 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -372,7 +372,8 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
         tdiff = np.diff(times)
         if np.any(tdiff > 5*samplerate):
             # 5 sec gap doesn't matter much I hope???
-            end_inds = np.where(tdiff > 5*samplerate)[0]
+            end_inds = np.append(
+                np.where(tdiff > 5*samplerate)[0], len(faa_in))
 
     end_inds = np.append(-1, end_inds)  # add starting point
 
-- 
2.43.0


From 95feecaa66264b6309e25b5202ab3a8ddc4c59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 09/38] fix: 1D Parker series is not referenced to the level
 continued from

The powers of topography were taken of absolute elevations while the
upward continuation starts at the mean elevation, so the continuation was
applied twice (grav2d_folding removes the mean).
---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 78923d9..9705aa1 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -656,6 +656,7 @@ def grav1d_padded(xtopo, topo, zlev, rho):
 
     # extend or mirror the profile
     padtopo = np.append(topo[0]*wing, np.append(topo, topo[-1]*wing))
+    padtopo = padtopo - baselev  # Parker's sum is about the level continued from
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
     nxt = len(padtopo)
-- 
2.43.0


From 6934119fde61c9c44eeee8719300696cc4d4df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 10/38] fix: wrong negative wavenumbers for odd-length profiles
 in grav1d_padded

---
 shipgrav/grav.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 9705aa1..7234684 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -660,14 +660,8 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
     nxt = len(padtopo)
-    mfx = (nxt/2.) + 1
 
-    k = (2*np.pi)/(nxt*dx)  # calculate wavenumbers
-    k2 = k**2
-    xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[-2:0:-1])
-    xxk = (xi-1)*(xi-1)*k2
-    kwn1 = np.sqrt(xxk[:nxt])
+    kwn1 = 2*np.pi*np.abs(np.fft.fftfreq(nxt, dx))  # calculate wavenumbers
 
     Ftopo = np.fft.fft(padtopo)  # Fourier transform the topography
     Ftopo[0] = 0
-- 
2.43.0


From 737f650157f849c0d0ad1d0e154d7e935f95fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 11/38] fix: grav2d_folding fails for odd grid sizes without
 folding

Also state the orientation of Z that the code expects.
---
 shipgrav/grav.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 7234684..31eea39 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -696,7 +696,7 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
     :param Y: vector of M Y coordinates
     :type Y: ndarray
     :param Z: matrix of Z coordinates
-    :type Z: ndarray, NxM
+    :type Z: ndarray, MxN (rows are y)
     :param dx: x grid spacing, for wavenumbers [km]
     :type dx: float
     :param dy: y grid spacing, for wavenumbers [km]
@@ -750,10 +750,6 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
     kx2 = kint1*kint1
     ky2 = kint2*kint2
 
-    # folding frequency:
-    mfx = int(nxt/2 + 1)
-    mfy = int(nyt/2 + 1)
-
     # the important part:
     # (1) compute wavenumbers
     # (2) transform topography with fft
@@ -762,13 +758,11 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
     #     by constants
 
     # wavenumbers:
-    yj1 = np.arange(1, mfy+1)
-    yj = np.append(yj1, yj1[mfy-2:0:-1])
-    yyk = (yj-1)*(yj-1)*ky2
+    yj = np.fft.fftfreq(nyt, 1/nyt)
+    yyk = yj*yj*ky2
 
-    xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[mfx-2:0:-1])
-    xxk = (xi-1)*(xi-1)*kx2
+    xi = np.fft.fftfreq(nxt, 1/nxt)
+    xxk = xi*xi*kx2
 
     kwn1 = np.zeros((nxt, nyt))
     for j in range(nyt):
-- 
2.43.0


From 67dc5de9576272bd16cd4498d53e8d5dce913bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 12/38] fix: crustal_thickness_2D wavenumbers are off by one

The one-based index arithmetic gave the mean a nonzero wavenumber and the
first harmonic a zero one, and made the result complex.
---
 shipgrav/grav.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 31eea39..af5ccac 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1179,8 +1179,8 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     kcut1 = 2*np.pi/wlarge
     kcut2 = 2*np.pi/wsmall
     dkcut = kcut2 - kcut1
-    mfx = nx/2 + 1
-    mfy = ny/2 + 1
+    mfx = nx/2
+    mfy = ny/2
 
     prod = 1./(nx*ny)  # dimension correction factor
 
@@ -1198,13 +1198,13 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
         yj = j
         if j > mfy:
             yj = mfy*2 - j
-        yyk = kint2**2 * (yj-1)**2
+        yyk = kint2**2 * yj**2
 
         for i in range(nx):
             xi = i
             if i > mfx:
                 xi = mfx*2 - i
-            xxk = kint1**2 * (xi-1)**2
+            xxk = kint1**2 * xi**2
 
             kwn1[i, j] = np.sqrt(xxk + yyk)
 
-- 
2.43.0


From 9da90bf872ef4268ab02f4da4c90829fe87a8c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 13/38] fix: crustal_thickness_2D returns the profile reversed
 without back

Two forward transforms reverse the order of the samples; only the
back=True branch turned them round.
---
 shipgrav/grav.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index af5ccac..b956d67 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1229,6 +1229,9 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     # inverse Fourier transform
     ur_arr_2 = np.fft.fft2(ur_arr_ft)
 
+    if not back:  # the second forward transform reverses both axes, undo that
+        ur_arr_2 = np.roll(ur_arr_2[::-1, ::-1], 1, axis=(0, 1))
+
     # back to vector, correct for dimensions, convert to km
     ur_arr_2 = ur_arr_2.reshape(-1, 1)
     ur_arr_2 = ur_arr_2*prod/1e5
-- 
2.43.0


From dae8eb561c9b64032455faf9d289a7f43a434760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 14/38] fix: line picker takes clicks outside its axis and
 fails on empty undo

A click on the map was read as a time and picked an unrelated sample.
---
 shipgrav/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 46b5322..d0c7fff 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -261,6 +261,8 @@ class _SnappingCursor:
             self.ax1.figure.canvas.draw()
 
     def on_mouse_click(self, event):
+        if not event.inaxes == self.ax1:
+            return  # only the time series axis has times to pick
         if event.button == 1:
             x, y = event.xdata, event.ydata
             ind_x = np.argmin(abs(x - self.data['tsec']))
@@ -269,7 +271,7 @@ class _SnappingCursor:
             self.i_seg.append(ind_x)
             self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})
 
-        if event.button == 3:  # pop the last element of the lists
+        if event.button == 3 and self.i_seg:  # pop the last element of the lists
             self.x_seg.pop()
             self.y_seg.pop()
             self.i_seg.pop()
-- 
2.43.0


From aa75f0efd0666fd0e04a2d2901baf66e3b1345e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 15/38] fix: clean_ini_to_toml loses text after a second = and
 breaks on backslashes

---
 shipgrav/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index d0c7fff..f414789 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -146,7 +146,7 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
 
-        val = ln.split('=')[1]  # get value from key=value pair
+        val = ln.split('=', 1)[1]  # get value from key=value pair
         extra_comm = ''
         if '#' in val:
             val = val.split('#')[0]
@@ -164,6 +164,7 @@ def clean_ini_to_toml(ini_file):
         try:
             float(val)
         except:
+            val = val.replace('\\', '\\\\').replace('"', '\\"')
             val = "\"" + val + "\""
             ln = '= '.join((ln.split('=')[0], val))
             if extra_comm != '':
-- 
2.43.0


From 5a3fab93ab9b1bcf9c7e07691c1cdbcfb5b0662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 16/38] fix: nav fixes around midnight are dated a day off

The date comes from the logger and the time from the talker; when the two
clocks straddle midnight the combination is 24 hours out.
---
 shipgrav/io.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index e402001..d348914 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -1,7 +1,7 @@
 import mmap
 import os
 import re
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 
 import numpy as np
 import pandas as pd
@@ -173,6 +173,21 @@ def _clock_time(allnav, talker):
     return hour, mint, sec, msec
 
 
+def _fix_rollover(timest, loghour):
+    """Correct the date when a clock time and its logger date straddle midnight.
+
+    :param timest: datetime made from the logger date and the talker clock time
+    :param loghour: logger hour of day ('' if the logger did not record it)
+    """
+    if loghour == '':
+        return timest
+    if timest.hour - int(loghour) > 12:  # logged just after midnight
+        return timest - timedelta(days=1)
+    if int(loghour) - timest.hour > 12:  # logged just before midnight
+        return timest + timedelta(days=1)
+    return timest
+
+
 def _navdate_Atlantis(allnav, talker):
     """Extract datetime info from Atlantis nav files (at*.GPS).
     """
@@ -186,12 +201,13 @@ def _navdate_Atlantis(allnav, talker):
 
     for i in range(N):
         pre = subnav[i].split(talker)[0]
-        date = re.findall(r'NAV (\d{4})/(\d{2})/(\d{2})', pre)[0]
+        date = re.findall(r'NAV (\d{4})/(\d{2})/(\d{2})(?: (\d{2}):)?', pre)[0]
         year = int(date[0])  # year
         mon = int(date[1])  # month
         day = int(date[2])  # day
         timest[i] = datetime(year, mon, day, hour[i], mint[i],
                              sec[i], msec[i], tzinfo=timezone.utc)
+        timest[i] = _fix_rollover(timest[i], date[3])
     return timest
 
 
@@ -208,7 +224,7 @@ def _navdate_NBP(allnav, talker):
 
     for i in range(N):
         pre = subnav[i].split(talker)[0]
-        date = re.findall(r'(\d{2})\+(\d{2,3}):.*', pre)[0]
+        date = re.findall(r'(\d{2})\+(\d{2,3}):(\d{2})?.*', pre)[0]
         # year (NBP didn't exist before 2000 so this is ok)
         year = '20' + date[0]
         doy = date[1]  # doy
@@ -217,6 +233,7 @@ def _navdate_NBP(allnav, talker):
                                        mint[i], sec[i], msec[i]),
                                       '%Y-%j-%H:%M:%S:%f')
         timest[i] = timest[i].replace(tzinfo=timezone.utc)
+        timest[i] = _fix_rollover(timest[i], date[2])
     return timest
 
 
@@ -233,12 +250,13 @@ def _navdate_Thompson(allnav, talker):
 
     for i in range(N):
         pre = subnav[i].split(talker)[0]
-        date = re.findall(r'(\d{2})/(\d{2})/(\d{4}),*', pre)[0]
+        date = re.findall(r'(\d{2})/(\d{2})/(\d{4}),*(\d{2})?', pre)[0]
         year = int(date[2])
         mon = int(date[0])
         day = int(date[1])
         timest[i] = datetime(year, mon, day, hour[i],
                              mint[i], sec[i], tzinfo=timezone.utc)
+        timest[i] = _fix_rollover(timest[i], date[3])
     return timest
 
 
@@ -265,12 +283,13 @@ def _navdate_Revelle(allnav, talker):
             before = allnav[k]
             # date is at the start of this line
             if re.match(r'(\d{4})-(\d{2})-(\d{2})T*', before):
-                date = re.findall(r'(\d{4})-(\d{2})-(\d{2})T*', before)[0]
+                date = re.findall(r'(\d{4})-(\d{2})-(\d{2})T*(\d{2})?', before)[0]
                 year = int(date[0])
                 mon = int(date[1])
                 day = int(date[2])
                 timest[i] = datetime(
                     year, mon, day, hour[i], mint[i], sec[i], msec[i], tzinfo=timezone.utc)
+                timest[i] = _fix_rollover(timest[i], date[3])
                 break  # skip the rest of the stepping backwards once date is found
     return timest
 
-- 
2.43.0


From fdaef15df87c7a9611e41616b4c19eb8304b31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 17/38] fix: clean_ini_to_toml turns // inside quoted strings
 into #

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index f414789..74e0052 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -122,7 +122,7 @@ def clean_ini_to_toml(ini_file):
         text = file.read()  # just read the whole thing
 
     # fix comments (// to #)
-    text = re.sub('//', '#', text)
+    text = re.sub(r'("[^"\n]*")|//', lambda m: m.group(1) or '#', text)
 
     # clean out tabs
     text = re.sub('\t', '  ', text)
-- 
2.43.0


From 973bf4d72a0a9de675a8011615580a39345669a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 18/38] fix: clean_ini_to_toml fails on indented comments and
 blank lines with spaces

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 74e0052..d11b5a6 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -141,7 +141,7 @@ def clean_ini_to_toml(ini_file):
         if ln.startswith('$'):
             ln = re.sub(r'\$', '', ln)  # clean out $ for talkers
 
-        if ln.startswith('[') or ln.startswith('#') or ln == '':
+        if ln.lstrip().startswith(('[', '#')) or ln.strip() == '':
             fo.write(ln)
             fo.write('\n')
             continue
-- 
2.43.0


From e750e324c5d65b6678913c4e4e6e30c7bda74d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 19/38] fix: center_diff aligns pandas series instead of
 differencing

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index b956d67..66889ba 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -468,6 +468,7 @@ def center_diff(y, n, samp):
 
     :return: 1st or 2nd order derivative of **y**
     """
+    y = np.asarray(y)  # by position: slices of a pandas series would be aligned
     if n == 1:
         return (y[2:] - y[:-2])*(samp/2)
     elif n == 2:
-- 
2.43.0


From 77a32ad8efeb33b96d6769ee9b3f1626974f3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 20/38] fix: crustal_thickness_2D is NaN for finely sampled
 residuals (exp overflows)

---
 shipgrav/grav.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 66889ba..d4002e0 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1224,8 +1224,9 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
                 t = (kwn1[i, j]-kcut1)/dkcut*np.pi
                 wgt = (np.cos(t)+1)/2
 
+            # nothing passes above kcut2: stop there so that exp cannot overflow
             ur_arr_ft[i, j] = ur_arr_ft[i, j] * \
-                np.exp(kwn1[i, j]*zdown)*topo1*wgt
+                np.exp(min(kwn1[i, j], kcut2)*zdown)*topo1*wgt
 
     # inverse Fourier transform
     ur_arr_2 = np.fft.fft2(ur_arr_ft)
-- 
2.43.0


From a8d1daae374ae80f382e6108aea2f5f412fd125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 21/38] fix: read_other_stuff takes only lines of the requested
 feed, not feeds whose name contains the tag

---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index d348914..dac73e1 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -839,7 +839,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     # check to make sure tag appears in the data file
     with open(data_file, 'rb') as file:
         s = mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ)
-        result = s.find(bytes(tag, 'ascii'))
+        result = s.find(bytes(dtag + ',', 'ascii'))
     assert result != -1, '%s not in data file %s' % (tag, data_file)
 
     # checks done, read in all the lines for this feed
@@ -848,7 +848,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     for raw in iter(s.readline, b''):  # until we get to the end of the file
         # bytes->string, strip \r\n from end
         ln = raw.decode('ascii').rstrip()
-        if tag in ln:
+        if dtag + ',' in ln:  # not feeds whose names only contain this tag
             lines.append(ln)
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
-- 
2.43.0


From a939cba2b06e4db777580a45a58623652a0524e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 22/38] fix: free-air correction of heights held as small
 integers (the square overflowed)

---
 shipgrav/grav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index d4002e0..0bd0195 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -314,9 +314,9 @@ def free_air_second_order(lat, ht, free_water=False):
     s2lat = np.sin(np.deg2rad(lat))**2
 
     if not free_water:
-        return -((0.3087691 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)
+        return -((0.3087691 - 0.0004398*s2lat)*ht) + 7.2125e-8*ht*ht
     else:
-        return -((0.22242 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)
+        return -((0.22242 - 0.0004398*s2lat)*ht) + 7.2125e-8*ht*ht
 
 
 def wgs_grav(lat):
-- 
2.43.0


From d6d469a9b039072443d998883faf39d12198dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 23/38] fix: central differences of unsigned and small integers
 (they wrapped around)

---
 shipgrav/grav.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 0bd0195..b026ba4 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -468,7 +468,9 @@ def center_diff(y, n, samp):
 
     :return: 1st or 2nd order derivative of **y**
     """
-    y = np.asarray(y)  # by position: slices of a pandas series would be aligned
+    # by position: slices of a pandas series would be aligned
+    # as floats: differences of small or unsigned integers would wrap around
+    y = np.asarray(y, dtype=float)
     if n == 1:
         return (y[2:] - y[:-2])*(samp/2)
     elif n == 2:
-- 
2.43.0


From d1b8a1e0955fab31e978524856a4230051087c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 24/38] fix: take heights of the free-air correction as floats
 before squaring them

---
 shipgrav/grav.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index b026ba4..bc203ad 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -312,11 +312,12 @@ def free_air_second_order(lat, ht, free_water=False):
     :return: free-air correction, mGal
     """
     s2lat = np.sin(np.deg2rad(lat))**2
+    ht = ht*1.0  # as floats: squares of small integers would overflow
 
     if not free_water:
-        return -((0.3087691 - 0.0004398*s2lat)*ht) + 7.2125e-8*ht*ht
+        return -((0.3087691 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)
     else:
-        return -((0.22242 - 0.0004398*s2lat)*ht) + 7.2125e-8*ht*ht
+        return -((0.22242 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)
 
 
 def wgs_grav(lat):
-- 
2.43.0


From c90f6b9ef88eb2ac01171a32cc99dcc5790f6d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 25/38] fix: keep the other fields of a Sikuliaq raw record in
 which one is empty

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index dac73e1..68621fb 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -787,7 +787,7 @@ def _dgs_raw_Sikuliaq(path):
 
     # Extract relevant fields
     parts = dat['raw'].str.extract(
-        r'^\$AT1M_[^,]*,([-\d.]+),([-\d.]+),([-\d.]+),[^,]*,[^,]*,[^,]*,[^,]*,([-\d.]+),([-\d.]+),([-\d.]+),([-\d.]+),[^,]*,[^,]*,([-\d.]+),([-\d.]+)'
+        r'^\$AT1M_[^,]*,([-\d.]*),([-\d.]*),([-\d.]*),[^,]*,[^,]*,[^,]*,[^,]*,([-\d.]*),([-\d.]*),([-\d.]*),([-\d.]*),[^,]*,[^,]*,([-\d.]*),([-\d.]*)'
     )
     parts.columns = ['rgrav', 'long_a', 'crss_a', 'vcc', 've', 'al', 'ax', 'lat', 'lon']
 
-- 
2.43.0


From 6460371d300e8f4eb88746774da6326451804183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 26/38] fix: smooth series and find isotherms by position, not
 by label

gaussian_filter indexed a pandas series by its labels: a reversed or
re-ordered series came out in another order, and a selection of rows
raised KeyError. The same for the isotherms given to therm_Z_plate.
---
 shipgrav/grav.py  | 1 +
 shipgrav/utils.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index bc203ad..a6e9c71 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1115,6 +1115,7 @@ def therm_Z_plate(x, T, u=0.01, zL0=100.e3, Tm=1350, time=False,
     Tp, _ = therm_plate(x, z, u=u, zL0=zL0, Tm=Tm, time=time, rhom=rhom, rhow=rhow,
                         a=a, k=k)  # calculate the whole temperature field
 
+    T = np.asarray(T)  # by position: a pandas series would be indexed by label
     ziso = np.zeros((len(T), len(x)))
     for i in range(len(T)):  # loop isotherms, find depths
         for j in range(len(x)):
diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index d11b5a6..27c1962 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -21,6 +21,7 @@ def gaussian_filter(x, fl):
     :return: **xfilt** (*ndarray*) - filtered time series x
     """
 
+    x = np.asarray(x)  # by position: a pandas series would be indexed by label
     assert len(x) > fl, 'raw data is shorter than gaussian filter'
 
     coeffs = _gaussian_coeffs(fl)
-- 
2.43.0


From 38a3ce8a5e6bcbf389113e15ba1aff1614ffaefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 27/38] fix: accept lists where array_like is documented

longman_tide_prediction, free_air_second_order and the half-space models
raised TypeError for lists and tuples.
---
 shipgrav/grav.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index a6e9c71..149c671 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -101,10 +101,10 @@ def longman_tide_prediction(lon, lat, times, alt=0, return_components=False):
     # Inclination of the Earth's equator to the ecliptic 23.452 degrees
     omega = np.radians(23.452)
     lamb = np.radians(lat)  # (lambda) Latitude of point
-    H = alt * 100.  # (H) Altitude above sea-level of point P in cm
+    H = np.multiply(alt, 100.)  # (H) Altitude above sea-level of point P in cm
 
     # Longman convention has W+/E- for unknown reasons
-    L = -lon
+    L = np.negative(lon)
 
     # Lunar gravity effects (Shureman 1941 coeffs)
     # mean longitude of the moon in its orbit, reckoned from the referred equinox
@@ -312,7 +312,7 @@ def free_air_second_order(lat, ht, free_water=False):
     :return: free-air correction, mGal
     """
     s2lat = np.sin(np.deg2rad(lat))**2
-    ht = ht*1.0  # as floats: squares of small integers would overflow
+    ht = np.multiply(ht, 1.0)  # as floats: squares of small integers would overflow
 
     if not free_water:
         return -((0.3087691 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)
@@ -924,9 +924,9 @@ def therm_halfspace(x, z, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000,
     secyr = 365.25*24*3600  # seconds per year
 
     if time:
-        x = x*1e6*secyr  # convert Myr to sec
+        x = np.multiply(x, 1e6)*secyr  # convert Myr to sec
     elif not time:
-        x = abs(x)/(u/secyr)  # convert m to sec
+        x = np.abs(x)/(u/secyr)  # convert m to sec
 
     X, Z = np.meshgrid(x, z)  # grid up x,z pairs
 
@@ -974,9 +974,9 @@ def therm_Z_halfspace(x, T, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000,
     secyr = 365.25*24*3600  # seconds per year
 
     if time:
-        x = x*1e6*secyr  # convert Myr to sec
+        x = np.multiply(x, 1e6)*secyr  # convert Myr to sec
     elif not time:
-        x = abs(x)/(u/secyr)  # convert m to sec
+        x = np.abs(x)/(u/secyr)  # convert m to sec
 
     Z = 2*np.sqrt((k*x))*erfcinv((T-Tm)/(To-Tm))
 
-- 
2.43.0


From 7e84404fbd7350b31e52c778567e854e5625b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 28/38] fix: accept pandas series in the profile and crustal
 thickness models

grav1d_padded looked for a label -1, crustal_thickness_2D for a reshape
method that series do not have; both document array_like.
---
 shipgrav/grav.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 149c671..2b0fb7c 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -650,6 +650,8 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     """
     G = 6.673*1e-8
     grav = 2*np.pi*G*rho
+    # by position: a pandas series would be indexed by label
+    xtopo, topo = np.asarray(xtopo), np.asarray(topo)
     baselev = np.mean(topo)  # mean topography for baseline
 
     # spacing of coordinates, must be constant
@@ -1166,6 +1168,7 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     """
     assert wlarge > wsmall, 'wlarge must be larger than wsmall'
 
+    ur = np.asarray(ur)
     ave = np.mean(ur)
 
     # shift to a new reference and convert milligal to gal
-- 
2.43.0


From df197ca754c53de080952913b216d4dda1f84edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 29/38] fix: tide prediction for longitudes of unsigned
 integers

Negating them wrapped around to large positive numbers.
---
 shipgrav/grav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 2b0fb7c..c6014ce 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -104,7 +104,7 @@ def longman_tide_prediction(lon, lat, times, alt=0, return_components=False):
     H = np.multiply(alt, 100.)  # (H) Altitude above sea-level of point P in cm
 
     # Longman convention has W+/E- for unknown reasons
-    L = np.negative(lon)
+    L = np.multiply(lon, -1.0)
 
     # Lunar gravity effects (Shureman 1941 coeffs)
     # mean longitude of the moon in its orbit, reckoned from the referred equinox
-- 
2.43.0


From 0b7589ffdf9a278df71b135b20daa5e13d5b9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 30/38] fix: read navigation logs with bytes that are not text

One garbled byte anywhere in a log, in a line of another talker or in
serial noise, made read_nav fail with UnicodeDecodeError.
---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 68621fb..350d55d 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -76,7 +76,7 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
     latlat = np.array([])
 
     for fpath in tqdm(pathlist,desc='reading nav',disable=not progressbar):  # loop nav files (may be a lot of them)
-        with open(fpath, 'r') as f:
+        with open(fpath, 'r', errors='replace') as f:  # serial noise may not be text
             allnav = np.array(f.readlines())  # read the entire file
 
         if ship_function:  # use a user-supplied function to get all the things
-- 
2.43.0


From 425786a18a90b599fedd729983749b94eb55f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 31/38] fix: read feeds from logs with bytes that are not ascii

One garbled byte anywhere in a log, even in the line of another feed,
made read_other_stuff fail with UnicodeDecodeError.
---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 350d55d..836989a 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -846,8 +846,8 @@ def read_other_stuff(yaml_file, data_file, tag):
     lines = []
     s.seek(0)
     for raw in iter(s.readline, b''):  # until we get to the end of the file
-        # bytes->string, strip \r\n from end
-        ln = raw.decode('ascii').rstrip()
+        # bytes->string, strip \r\n from end; noise in other feeds may not be text
+        ln = raw.decode('ascii', errors='replace').rstrip()
         if dtag + ',' in ln:  # not feeds whose names only contain this tag
             lines.append(ln)
 
-- 
2.43.0


From f489308349809db162022b98626900d2632ccbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 32/38] fix: longitudes jumped on tracks that cross both 180
 degrees and Greenwich

---
 shipgrav/io.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 836989a..352449e 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -370,18 +370,13 @@ def _clean_180cross(gps_nav):
     """Fix instances where a trackline crosses +/- 180* longitude.
     """
 
-    # which side of the line has more points?
-    lpos = gps_nav['lon'].values > 0
-    lneg = gps_nav['lon'].values < 0
-
     newlon = gps_nav['lon'].to_numpy(copy=True)
 
-    if not np.any(abs(np.diff(newlon[~np.isnan(newlon)])) > 180):
-        pass  # only gaps or outliers, nothing wraps around
-    elif sum(lpos) > sum(lneg):
-        newlon[lneg] = 180 + newlon[lneg] % 180
-    else:
-        newlon[lpos] = -180 + newlon[lpos] % -180
+    # count turns past +/-180 along the track, keep the turn with the most points as it is
+    valid = np.where(~np.isnan(newlon))[0]
+    turns = np.append(0, np.cumsum(np.round(np.diff(newlon[valid])/360)))
+    sides, counts = np.unique(turns, return_counts=True)
+    newlon[valid] = newlon[valid] - 360*(turns - sides[np.argmax(counts)])
 
     # check if there are still some jumpy points (from between +/- reversals)
     ilocs = np.where(abs(np.diff(newlon)) > 1)[0]  # should not jump a degree
-- 
2.43.0


From f912596d1d44b8e75fd32abf99017f6d4e03171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 33/38] fix: clean_ini_to_toml rewrote TRUE and FALSE inside
 names and strings

---
 shipgrav/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 27c1962..11dd50b 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -128,9 +128,9 @@ def clean_ini_to_toml(ini_file):
     # clean out tabs
     text = re.sub('\t', '  ', text)
 
-    # fix TRUE and FALSE
-    text = re.sub('TRUE', 'true', text)
-    text = re.sub('FALSE', 'false', text)
+    # fix TRUE and FALSE, where they are values (not in names or strings)
+    text = re.sub(r'^([^=\n]*=[ ]*)(TRUE|FALSE)(?=[ ]*(?:#|$))',
+                  lambda m: m.group(1) + m.group(2).lower(), text, flags=re.M)
 
     text = re.sub('$', '', text)
 
-- 
2.43.0


From 197cdb5b2346f7b1c97d1d59581256f0fcb5ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 34/38] fix: clean_ini_to_toml left backslashes in quoted
 strings as toml escapes

---
 shipgrav/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 11dd50b..32cfe7f 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -159,6 +159,9 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
         if val.startswith("\""):  # skip strings already quoted
+            # in ini strings a backslash is only a backslash
+            ln = re.sub(r'^([^=]*=\s*)("[^"]*")(?=\s*(?:#|$))',
+                        lambda m: m.group(1) + m.group(2).replace('\\', '\\\\'), ln)
             fo.write(ln)
             fo.write('\n')
             continue
-- 
2.43.0


From 2d967be7d37d3f3c9c939aee7b08500b5d743945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 35/38] fix: clean_ini_to_toml removed dollar signs from the
 values of talker lines

---
 shipgrav/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 32cfe7f..5a8881b 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -140,7 +140,8 @@ def clean_ini_to_toml(ini_file):
     lines = text.split('\n')
     for ln in lines:
         if ln.startswith('$'):
-            ln = re.sub(r'\$', '', ln)  # clean out $ for talkers
+            name, eq, val = ln.partition('=')
+            ln = re.sub(r'\$', '', name) + eq + val  # clean out $ for talkers
 
         if ln.lstrip().startswith(('[', '#')) or ln.strip() == '':
             fo.write(ln)
-- 
2.43.0


From dc597b1480d40e7c23e6bbc2a83f221f3f3f18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 36/38] fix: clean_ini_to_toml wrote numerals such as .5, 5.
 and 007 that are not valid toml

---
 shipgrav/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 5a8881b..5ac015c 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -174,6 +174,12 @@ def clean_ini_to_toml(ini_file):
             ln = '= '.join((ln.split('=')[0], val))
             if extra_comm != '':
                 ln = '   #'.join((ln, extra_comm))
+        else:
+            if not re.fullmatch(r'[-+]?(0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?', val):
+                # numerals that toml does not know: 007, .5, 5.
+                num = repr(int(val)) if re.fullmatch(r'[-+]?\d+', val) else repr(float(val))
+                name, eq, rest = ln.partition('=')
+                ln = name + eq + rest.replace(val, num, 1)
         fo.write(ln)
         fo.write('\n')
 
-- 
2.43.0


From 374c88e4ff4770402e3147959bb18a03a398a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 37/38] fix: read feed descriptions as UTF-8 in any locale

yaml detects the encoding of a byte stream; the locale's encoding does not matter
---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 352449e..58935b7 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -825,7 +825,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     dtag = '$' + tag
 
     # read yaml, check that tag specs are in this file
-    with open(yaml_file, 'r') as f:
+    with open(yaml_file, 'rb') as f:
         ym = yaml.safe_load(f)
     ym = ym[list(ym.keys())[0]]  # skip out of the top level key
     assert tag in ym['format'].keys(
-- 
2.43.0


From 9e6ccf0ff81b05e8d1228b4599c1ac542312f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 38/38] fix: convert ini files to TOML as UTF-8 in any locale

TOML is always UTF-8, and the conversion failed on text that is not ASCII where the locale is not UTF-8
---
 shipgrav/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 5ac015c..c679f01 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -119,7 +119,7 @@ def clean_ini_to_toml(ini_file):
     :return: **opath** (*string*) - path to output toml file
     """
 
-    with open(ini_file, 'r') as file:
+    with open(ini_file, 'r', encoding='utf-8') as file:
         text = file.read()  # just read the whole thing
 
     # fix comments (// to #)
@@ -136,7 +136,7 @@ def clean_ini_to_toml(ini_file):
 
     # fix unquoted strings and write
     opath = ini_file.rstrip('ini')+'toml'
-    fo = open(opath, 'w')
+    fo = open(opath, 'w', encoding='utf-8')
     lines = text.split('\n')
     for ln in lines:
         if ln.startswith('$'):
-- 
2.43.0

