From ac5c1410785f7349f354a609cf3594f3f5b499a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 01/74] fix: randomness analysis misses neighbouring cells
 clipped by search cone

---
 src/craterstats/Randomnessanalysis.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 0a35941..0411f99 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -545,6 +545,14 @@ def random_points_pp(self ,n):
     x = np.random.uniform(self.xr[0], self.xr[1], n)
     return zip(x ,y)
 
+def cells_within_radius(hp, lon, lat, angular_radius):
+    """
+    HEALPix cells which may contain points within angular_radius (radians) of lon, lat (degrees)
+
+    cone_search_lonlat() can omit a cell which is only just clipped by the cone, so search one cell further
+    """
+    return hp.cone_search_lonlat(lon * u.deg, lat * u.deg, angular_radius * u.rad + hp.pixel_resolution)
+
 def sprinkle_discs_pp(self ,n ,diam):
     """
     generate z random points in enclosing area
@@ -566,8 +574,7 @@ def sprinkle_discs_pp(self ,n ,diam):
             if sph.within(pt, self.polygon):
 
                 # erase existing craters closer than diam/2
-                hpx_neighbours = self.hp.cone_search_lonlat(lon*u.deg, lat*u.deg, angular_radius*u.rad)
-                for id in hpx_neighbours:
+                for id in cells_within_radius(self.hp, lon, lat, angular_radius):
                     if id in hpd:
                         len0 = len(hpd[id])
                         hpd[id] = [e for e in hpd[id] if sph.distance(pt, e, radius = self.planetary_radius) > diam/2]
@@ -621,7 +628,7 @@ def kth_nearest_neighbour_pp(self, pts,ids,hpd, k=1):
             debug = 4
 
             # redefine neighbourhood based on known kth closest: if pt near edge, could be over hpx cell boundary
-            hpx_neighbours = self.hp.cone_search_lonlat(sph.get_x(pt) * u.deg, sph.get_y(pt) * u.deg, d0/self.planetary_radius * u.rad)
+            hpx_neighbours = cells_within_radius(self.hp, sph.get_x(pt), sph.get_y(pt), d0/self.planetary_radius)
             d1, pt1 = get_kth(pt, hpx_neighbours)
             debug = 5
             neighbours += [pt1]
-- 
2.43.0


From 434be5ceac468aad45879661ec61f7c00e21b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 02/74] fix: Monte Carlo trials duplicated between worker
 processes

---
 src/craterstats/Randomnessanalysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 0411f99..f3364b2 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -476,6 +476,8 @@ def evaluate_randomness(self_pp, pts, ids, hpd):
     return measure, p2
 
 def run_trial(self_pp, b, n, trial_index):
+    # worker processes inherit identical generator states: seed each trial separately (repeatable for any no of workers)
+    np.random.seed([42, np.uint32(round(2 * np.log2(b)) % 2**32), trial_index])
     pts, ids, hpd = sprinkle_discs_pp(self_pp, n, b)  # Generate points and ids
     m, _ = evaluate_randomness(self_pp, pts, ids, hpd)
     return m
-- 
2.43.0


From 4897b47dc8ef8673dbe01747783e56acd857fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 03/74] fix: randomness analysis fails for few trials on a
 large area

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index f3364b2..53d5a35 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -60,7 +60,7 @@ class Randomnessanalysis(cst.Spatialcount):
         desired_nbins = n/10
         desired_bin_area = self.area / desired_nbins
         desired_n_hpx = area_globe / desired_bin_area
-        nside = 2**round(np.log2(math.sqrt(desired_n_hpx/12)))
+        nside = 2**max(round(np.log2(math.sqrt(desired_n_hpx/12))), 0)
         self.hp = hpx.HEALPix(nside=nside, order='nested')
 
     def oplot_neighbours(self,cps,craters,neighbours,ax=None):
-- 
2.43.0


From c273fa8e7e1710f5bb05922e20944ffaa5ec58ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 04/74] fix: bounds of area crossing 180 meridian, enclosing
 pole or with bulging edges

---
 src/craterstats/Spatialcount.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 138f648..5c37e0a 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -190,18 +190,33 @@ class Spatialcount:
     def find_enclosing_polygon(self): # could be moved out to ra
         n_pole = sph.create_point(longitude=0, latitude=90)
         s_pole = sph.create_point(longitude=0, latitude=-90)
-        minx, miny, maxx, maxy = shp.from_wkt(sph.to_wkt(self.polygon)).bounds
-        xr , yr = ( (minx,maxx), (miny,maxy) )
+        lon0 = sph.get_x(sph.centroid(self.polygon))
+        lons, lats, all_lon = [], [], False
+        boundary = shp.from_wkb(sph.to_wkb(sph.boundary(self.polygon)))
+        for ring in getattr(boundary, 'geoms', [boundary]):
+            lon, lat = np.array(ring.coords)[:, :2].T
+            lon = lon0 + (lon - lon0 + 180) % 360 - 180   # about centre, in case of crossing the 180 meridian
+            all_lon |= bool(np.any(np.abs(np.diff(lon)) > 180))
+            lons += [min(lon), max(lon)]
+            # great circle edges may reach beyond latitude range of vertices
+            v = np.array(self.llr2xyz(lon, lat, 1.))
+            edge_pts = np.array([v[:, :-1] * (1 - f) + v[:, 1:] * f for f in np.linspace(0, 1, 101)])
+            edge_lat = np.degrees(np.arcsin(edge_pts[:, 2] / np.linalg.norm(edge_pts, axis=1)))
+            margin = (np.max(edge_lat) - np.min(edge_lat)) * 1e-3
+            lats += [max(np.min(edge_lat) - margin, -90), min(np.max(edge_lat) + margin, 90)]
+        xr, yr = gm.range(lons), gm.range(lats)
         if sph.covers(self.polygon, n_pole):
-            yr = (miny, 90)
-            xr = (-180,180)
+            yr = (yr[0], 90)
+            all_lon = True
         if sph.covers(self.polygon, s_pole):
-            yr = (-90, maxy)
+            yr = (-90, yr[1])
+            all_lon = True
+        if all_lon:
             xr = (-180, 180)
         self.xr=xr
         self.yr=yr
-        enclosing_polygon = sph.create_polygon(shell=[(xr[0],yr[0]),(xr[0],yr[1]),(xr[1],yr[1]),(xr[1],yr[0])])
-        self.enclosing_area = sph.area(enclosing_polygon, radius=self.planetary_radius)
+        self.enclosing_area = (self.planetary_radius ** 2 * np.radians(xr[1] - xr[0])
+                               * (np.sin(np.radians(yr[1])) - np.sin(np.radians(yr[0]))))
         print(f"Range: {xr[0]:.2f}:{xr[1]:.2f} {yr[0]:.2f}:{yr[1]:.2f}, area: {self.area:.2f} km2, perimeter: {self.perimeter:.2f} km (planetary radius: {self.planetary_radius:0g} km)")
 
 
-- 
2.43.0


From ef1edd193a157d564e868bb1d26a9f3930eb9332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 05/74] fix: holes and nested areas lost or rejected when
 reading scc boundary

---
 src/craterstats/Spatialcount.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 5c37e0a..70ed128 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -92,14 +92,14 @@ class Spatialcount:
                 xr = (min(xr1[0], xr[0]), max(xr1[1], xr[1]))
                 yr = (min(yr1[0], yr[0]), max(yr1[1], yr[1]))
 
-        p=[]
-        for i, internal in z:
-            if not internal:
-                holes=[]
-                for j, internal1 in z[i:]:
-                    if sph.within(d[j][1],d[i][1]):
-                        holes += [d[j][0]]
-                p += [sph.create_polygon(shell=d[i][0], holes=holes)]
+        ext = [i for i, internal in z if not internal]
+        holes = {i: [] for i in ext}
+        for j, internal in z: # assign each internal boundary to the smallest area containing it
+            if internal:
+                parents = [i for i in ext if sph.within(d[j][1], d[i][1])]
+                if parents:
+                    holes[min(parents, key=lambda i: sph.area(d[i][1]))] += [d[j][0]]
+        p = [sph.create_polygon(shell=d[i][0], holes=holes[i]) for i in ext]
 
         p = sph.create_multipolygon(p) #merge if multiple
 
-- 
2.43.0


From e682cdc728c8b7f83b71aee98aa2ca84cb61459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 06/74] fix: scc boundary with sub-areas not numbered from 1
 unreadable

---
 src/craterstats/Spatialcount.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 70ed128..f91618c 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -83,14 +83,6 @@ class Spatialcount:
             pts = [pt for pt, _ in groupby(pts)] # remove consecutive duplicates
             p = sph.create_polygon(shell=pts)
             d[i] = (pts, p) #, xyz(pts)) # xyz needs to be moved out
-            xr1 = gm.range([x for x,y in pts])
-            yr1 = gm.range([y for x, y in pts])
-            if i == 1:
-                xr=xr1
-                yr=yr1
-            else:
-                xr = (min(xr1[0], xr[0]), max(xr1[1], xr[1]))
-                yr = (min(yr1[0], yr[0]), max(yr1[1], yr[1]))
 
         ext = [i for i, internal in z if not internal]
         holes = {i: [] for i in ext}
-- 
2.43.0


From 558a3f6e67b68c911818fa9e0cc168438b3dd862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 07/74] fix: crater fractions ignored when reading spatial scc
 file

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index f91618c..b54ad1e 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -62,7 +62,7 @@ class Spatialcount:
 
         crater=c['crater']
         diam=[float(e) for e in crater['diam']]
-        frac=[float(e) for e in crater['fraction']] if 'fraction' in c else [1. for e in diam]
+        frac=[float(e) for e in crater['fraction']] if 'fraction' in crater else [1. for e in diam]
         lon=[float(e) for e in crater['lon']]
         lat = [float(e) for e in crater['lat']]
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
-- 
2.43.0


From 606381ccc99970275db3ab69ee125f5777dd78d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 08/74] fix: shapefile conversion fails for multiple areas

---
 src/craterstats/Spatialcount.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index b54ad1e..4898281 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -329,12 +329,10 @@ class Spatialcount:
         for p in p0 if isinstance(p0, list) else [p0]:
             z = sph.to_wkb(p)
             y = shp.from_wkb(z)
-            x = shp.get_exterior_ring(y)
-            rings = [list(x.coords)]
-            for j in range(shp.get_num_interior_rings(y)):
-                x = shp.get_interior_ring(y,j)
-                rings.append(list(x.coords))  # Append holes
-            decomposed += [rings]
+            for poly in y.geoms if isinstance(y, shp.MultiPolygon) else [y]:
+                rings = [list(poly.exterior.coords)]
+                rings += [list(x.coords) for x in poly.interiors]  # Append holes
+                decomposed += [rings]
         return decomposed
 
 
-- 
2.43.0


From de5983018c1f7c2dac664b3680d8cca018955956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 09/74] fix: scc area or perimeter in exponential notation
 truncated

---
 src/craterstats/Cratercount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9c118cc..fdf988e 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -174,11 +174,11 @@ class Cratercount:
 
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
 
-        self.area=float(re.findall(r'\s*[\d\.]*',s['Total_area'])[0])
+        self.area=float(re.match(r'\s*[\d\.]*(?:[eE][+-]?\d+)?',s['Total_area'])[0])
         if 'Perimeter' in s.keys():
             self.perimeter = float(s['Perimeter'].split()[0])
         if 'Total_perimeter' in s.keys(): #for Thomas Heyer's OpenCraterTool
-            self.perimeter = float(re.findall(r'\s*[\d\.]*',s['Total_perimeter'])[0])
+            self.perimeter = float(re.match(r'\s*[\d\.]*(?:[eE][+-]?\d+)?',s['Total_perimeter'])[0])
         self.diam=[diam[e] for e in q]
         self.fraction=[frac[e] for e in q]
         self.prebinned=0
-- 
2.43.0


From f78bcd0b830fe76409467d57dfd2c072aba0e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 10/74] fix: bin widths and event counts wrong when reading
 exported stat file with empty bins

---
 src/craterstats/Cratercount.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index fdf988e..cc5d2cf 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -118,7 +118,18 @@ class Cratercount:
         }
         self.prebinned = True
         self.binning = 'pseudo-log'
-        self.MakeBinGeometricMean()
+        if nc == 7:
+            self.MakeBinGeometricMean()
+        else: # empty bins may be omitted: take bin widths from differential density (unless merely rounding of next bin boundary)
+            self.binned['ncum_event'] = np.flip(np.cumsum(np.flip(self.binned['n_event'])))
+            d_next = np.append(diam[1:], np.inf)
+            n_diff = np.array([float(e[8]) for e in t])
+            with np.errstate(divide='ignore', invalid='ignore'):
+                d_max = np.where(n_diff > 0, diam + n / (n_diff * self.area), d_next)
+            d_max = np.where(d_max > d_next * .99, d_next, d_max)
+            self.binned.update({'d_mean': np.sqrt(diam * d_max),
+                                'bin_width': d_max - diam,
+                                'd_max': d_max})
 
     def ReadDiamFile(self):
         s= gm.read_textstructure(self.filename)
-- 
2.43.0


From f37108e046c45c096ea6f5834c8931501d478501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 11/74] fix: invalid fractions or undefined area in crater list
 not reported

---
 src/craterstats/Cratercount.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index cc5d2cf..928d5be 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -42,7 +42,7 @@ class Cratercount:
             elif filetype == None: pass #just create empty object
             else: bad_filetype = True
         except SystemExit:
-            sys.exit()
+            raise
         except:
             sys.exit("Unable to read file: "+filename)
         if bad_filetype: sys.exit("Unrecognised crater count file type: " + filename)
@@ -146,9 +146,9 @@ class Cratercount:
             frac=[float(e) for e in c['fraction']] if 'fraction' in c else [1.]*len(diam)
 
         if (min(frac)<0 or max(frac)>1) and self.buffered==0:
-            self.errormsg="Crater list in "+self.filename+" has invalid crater fractions."
+            sys.exit("Crater list in "+self.filename+" has invalid crater fractions.")
         if area==0:
-            self.errormsg="Crater list in "+self.filename+" has undefined area."
+            sys.exit("Crater list in "+self.filename+" has undefined area.")
 
 
         diam,frac=zip(*sorted(zip(diam,frac),reverse=True))
-- 
2.43.0


From 7bed9304bd8b2a96e0eddf6005031d75f4f8210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 12/74] fix: summary table diameter range taken according to
 method of last row

---
 src/craterstats/Craterplotset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a9458d5..095ea60 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -681,7 +681,7 @@ class Craterplotset:
         table = (('name', '24', '', None),
                  ('area', '8', '.5g', None),
                  ('binning', '>10', '', None),
-                 ('bin_range' if d['type'] in ('c-fit','d-fit') and d['resurf'] != 1 else 'range', '5', '.2g', ('d_min', 'd_max')),
+                 ('range', '5', '.2g', ('d_min', 'd_max')),
                  ('type', '>9', '', ('Method',)),
                  ('resurf', '6', '', None),
                  ('n', '7', '', None),
@@ -710,6 +710,8 @@ class Craterplotset:
             for k,w,f,_ in table:
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
+                if k=='range' and d['type'] in ('c-fit','d-fit') and d['resurf'] != 1:
+                    k='bin_range'
                 if k in ('range','bin_range','t','a0'):
                     v = ','.join([f"{e:{f}}" for e in d[k]])
                     if k in ('range','bin_range'):
-- 
2.43.0


From d8416c5ffe101335aefe7603eee4e6d6e4f65fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 13/74] fix: N(d_ref) values in table and legend ignore
 reference diameter

---
 src/craterstats/Craterplot.py    | 3 ++-
 src/craterstats/Craterplotset.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index c9517cb..ec317ca 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -258,7 +258,8 @@ class Craterplot:
                     r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
-                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(10**self.a0[0],10**self.a0[2],10**self.a0[1], unit='km-2')]
+                n_d = [cps.pf.evaluate("cumulative", cps.ref_diameter, e) for e in self.a0]
+                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(n_d[0],n_d[2],n_d[1], unit='km-2')]
 
 
         if self.type=='data':
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 095ea60..7867982 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -707,6 +707,7 @@ class Craterplotset:
 
         for d in s:
             ln=[]
+            n_d = [self.pf.evaluate("cumulative", self.ref_diameter, e) for e in d['a0']]
             for k,w,f,_ in table:
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
@@ -717,12 +718,11 @@ class Craterplotset:
                     if k in ('range','bin_range'):
                         txt_range=gm.diameter_range(d[k])
                 elif k=='n_d':
-                    v = ','.join([f"{10**e:{f}}" for e in d['a0']])
+                    v = ','.join([f"{e:{f}}" for e in n_d])
                 elif k in ('Latex','MathML'):
                     t = d['t']
                     v0 = cst.str_age(t[0], t[2] - t[0], t[0] - t[1], mu=self.mu, MathML = k=='MathML')
-                    a0 = d['a0']
-                    v1 = gm.scientific_notation(10**a0[0],10**a0[2],10**a0[1], unit='km-2', MathML = k=='MathML')
+                    v1 = gm.scientific_notation(n_d[0],n_d[2],n_d[1], unit='km-2', MathML = k=='MathML')
                     v=v0+','+v1
                 elif k==' ':v=' '
                 elif k == 'Range':
-- 
2.43.0


From c59e6ebae18ffcc10864c4aa08ebf15cc2d4a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 14/74] fix: production function ignores a0 of zero

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 4156b54..e8f220b 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -80,7 +80,7 @@ class Productionfn:
         :param a0: a0
         :return: y-values
         '''
-        if not a0:
+        if a0 is None:
             a0 = self.a[0] if hasattr(self,'a') else 0.
         if presentation=='cumulative':
             return self.C(d,a0)
-- 
2.43.0


From adac90837f389ae52e3308d6f5a35df5369dce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 15/74] fix: output to directory fails

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6feb4fc..c67c3b5 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -432,7 +432,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(v + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + gm.filename(default_filename,'n'))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
-- 
2.43.0


From b2db9d88077662c8784d696a670331bbf38e9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 16/74] fix: saved commands fail for empty argument or for
 unquoted argument starting with a dash

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index c67c3b5..19235c9 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -532,7 +532,7 @@ def main(args0=None):
     cpl = [cst.Craterplot(d) for d in cp_dicts]
     cps.craterplot=cpl
 
-    cs_content = ''.join(['\n'+e if e[0]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
+    cs_content = ''.join([('\n' if e.startswith('-') and not (e+' ')[1].isdigit() else ' ')+shlex.quote(e) for e in args0])[1:]
 
     if args.convert:
         convert_format(args, cps, cs_content)
-- 
2.43.0


From 5a440d49b8de7ddc2f31dd120bc556fcc41aa2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 17/74] fix: -i fails for relative path with directory

---
 src/craterstats/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 19235c9..bed0c4c 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -38,6 +38,7 @@ class LoadFromFile(argparse.Action):
     def __call__ (self, parser, namespace, values, option_string = None):
         if option_string in ('-i','--input'):
             self.work_dir = gm.filename(values,'p')
+            values = os.path.abspath(values)
             if os.path.isdir(self.work_dir):
                 os.chdir(self.work_dir)
         try:
-- 
2.43.0


From 1ee3974c7af9f6eb58586bd1965a0d370b82e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 18/74] fix: -measure option ignored

---
 src/craterstats/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index bed0c4c..e9a364a 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -206,7 +206,7 @@ def construct_cps_dict(args,c,f):
                     if ext: c['format'].add(ext)
             elif k in 'format':
                 c[k]=set(v)
-            elif k in 'measures':
+            elif k == 'measure':
                 c[k]=set(v.split(','))
 
 
@@ -405,8 +405,8 @@ def randomness_analysis(args,cps,progress_queue=None):
     cps.out = gm.filename(ra.ra_file,'pn')
     trials = args.trials if args.trials else cps.trials
     if args.measure:
-        cps.measures = set(args.measure.split(','))
-        diff = cps.measures - {'m2cnd','sdaa'}
+        cps.measure = set(args.measure.split(','))
+        diff = cps.measure - {'m2cnd','sdaa'}
         if diff:
             sys.exit(f"Invalid measure: {diff}")
     for measure in cps.measure:
-- 
2.43.0


From 4359824c8bf3c48ed15b23f162fa95bf8567d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 19/74] fix: sequence table fails with numpy 2 and omits
 buffered counts

---
 src/craterstats/Craterplotset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 7867982..eb07d7d 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -754,7 +754,7 @@ class Craterplotset:
 
         # calculate sequence table
         show_self_comparison = False
-        cpl = [e for e in self.craterplot if e.type in ['poisson','buffered-poisson'] and not e.hide]
+        cpl = [e for e in self.craterplot if e.type in ['poisson','b-poisson'] and not e.hide]
         n = len(cpl)
         if n<2: return
         s=[['' for i in range(n+1)] for j in range(n+1)]
@@ -787,10 +787,10 @@ class Craterplotset:
         # combined pdf
 
         pdf3 = copy.deepcopy(pdf2[0])
-        pdf3.pdf = np.product([e.pdf for e in pdf2],0)
+        pdf3.pdf = np.prod([e.pdf for e in pdf2],0)
 
         rel_probs =  [e.relative_probability(t0) for e,t0 in zip(pdf2,t)]
-        compound_prob = np.product(rel_probs)
+        compound_prob = np.prod(rel_probs)
 
         worse = np.where(pdf3.pdf < compound_prob, pdf3.dt * pdf3.pdf, 0)
         prob_worse = sum(worse)/sum(pdf3.dt * pdf3.pdf)
-- 
2.43.0


From abd335556c95cb100e19323b34d8e1a7e2f23317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 20/74] fix: -st option generates no sequence table

---
 src/craterstats/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e9a364a..08ec2b0 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -468,6 +468,9 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         if f in {'csv'} and not cps.presentation == 'uncertainty':
             cps.create_summary_table(f_out=cps.out + '.' + f)
 
+    if args.sequence_table:
+        cps.create_sequence_table(cps.out + '_sequence.csv')
+
 def print_with_highlights(s):
     for line in s:
         if line != '' and line[0] == '*':
-- 
2.43.0


From 1db96676eb5b64501442996ae0e6036d3311e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 21/74] fix: sequence table fails for given lambda array

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 92ca520..a619176 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -48,7 +48,7 @@ class Craterpdf:
             q = np.where((b['d_min'] >= d_range[0]) & (b['d_max'] <= d_range[1]))
             self.k = np.sum(b['n_event'][q])
 
-        if not lam:
+        if lam is None:
             if bcc: #buffered count
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
-- 
2.43.0


From 0d734723730d4e6a159df18f2c96db0ec59423e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 22/74] fix: merge fails for files without perimeter

---
 src/craterstats/miscellaneous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 31e45be..95bdc86 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -141,13 +141,13 @@ def merge_cratercounts(args,equal_weight=False):
         d += cc.diam
         frac += fraction
         a += area
-        p += cc.perimeter
+        p = p + cc.perimeter if p is not None and cc.perimeter is not None else None # only if all known
 
     s = (['# Merged crater diameter file', '#----------------------------', '#']
            + ['# ' + gm.filename(f, "ne") for f in fs]
            + ['#']
            + [f"area = {a}"]
-           + [f"perimeter = {p}"]
+           + ([f"perimeter = {p}"] if p is not None else [])
            + ['#',"crater = {diameter, fraction"]
            + [f"{a:<12g}  {b:g}" for a,b in zip(d,frac)]
            + ['}']
-- 
2.43.0


From 0fd83209578025e997cf5502787a83f86638445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 23/74] fix: perimeter of merged crater count not read

---
 src/craterstats/Cratercount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 928d5be..a1d3fee 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -154,6 +154,8 @@ class Cratercount:
         diam,frac=zip(*sorted(zip(diam,frac),reverse=True))
 
         self.area=area
+        if 'perimeter' in s: # from merged files
+            self.perimeter=float(s['perimeter'])
         self.diam=diam
         self.fraction=frac
         self.prebinned=0
-- 
2.43.0


From a221a5cf88b9550fb16b7dba2cceee3e29d068df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 24/74] fix: file names truncated at brackets and other
 punctuation

---
 src/craterstats/gm/file/filename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/filename.py b/src/craterstats/gm/file/filename.py
index 6b0eaef..10c6869 100644
--- a/src/craterstats/gm/file/filename.py
+++ b/src/craterstats/gm/file/filename.py
@@ -24,7 +24,7 @@ def filename(f,code,insert1=None,insert2=None,max_ext_length=4):
     if type(f) is list:
         return [filename(e,code,insert1=insert1,insert2=insert2) for e in f]
 
-    m = re.search(r'(?P<path>.*?)(?P<name>[\.,= \w-]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
+    m = re.search(r'(?P<path>(.*[\\/:])?)(?P<name>[^\\/:]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
     path=m['path']
     name=m['name']
     ext = m['ext']
-- 
2.43.0


From 09f3bb9184bd5b009c523fa660a688bd77437c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 25/74] fix: table with blank or comment line unreadable

---
 src/craterstats/gm/file/read_textstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index e57b5ee..038463d 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -30,6 +30,7 @@ def simple_value(s):
         r={t:[] for t in tag}
         for row in w[1:]:
             v=quoted_split(row)
+            if not v: continue # blank or comment line
             if v[0]=='}': break
             for t in tag:
                 r[t].append(v.pop(0) if len(v)>0 else '')
-- 
2.43.0


From 5cfe30abaea8d5f569508eaeb6cb620cd2f236ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 26/74] fix: conversion ignores output name or directory and
 %sample% in source

---
 src/craterstats/cli.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 08ec2b0..bd2833f 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -303,29 +303,30 @@ def construct_plot_dicts(args,plot,cps_dict):
 
 def convert_format(args, cps, cs_content):
     def outfile(name, out, ext):
-        if out != 'out':
-            if os.path.isdir(out):
-                outfile = out + name + ext
-            else:
-                outfile = gm.filename(out, 'pn') + ext
+        if specified_name:
+            outfile = gm.filename(out, 'pn') + ext
+        elif args.out:
+            outfile = os.path.normpath(args.out) + '/' + name + ext
         else:
             outfile = name + ext
         return outfile
 
     fmt, src = args.convert
-    scc = cst.Spatialcount(src.replace('%sample%/', cst.PATH + 'sample/'))
+    src = cs_source(src)
+    specified_name = cps.out != 'out' and not (args.out and os.path.isdir(args.out))
+    scc = cst.Spatialcount(src)
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
     out = outfile(gm.filename(src, 'n'), cps.out, '.'+fmt1)
     match fmt1:
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
-            out = gm.filename(out, 'p1e', cc.name)
+            if not (args.out and specified_name): out = gm.filename(out, 'p1e', cc.name)
             cc.WriteStatFile(out)
         case 'scc':
             if fmt0 == 'shp':
                 scc = cst.Spatialcount(src)
-                out = gm.filename(out, 'p1e', scc.name)
+                if not (args.out and specified_name): out = gm.filename(out, 'p1e', scc.name)
                 scc.writeSCCfile(out)
         case 'shp':
             if fmt0 == 'scc':
-- 
2.43.0


From f540055109ed3b81e5477d9db7e1a41ba201e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 27/74] fix: data on Hartmann plot too high by fourth root of 2
 relative to isochrons

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index a1d3fee..d0f7e60 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -418,7 +418,7 @@ class Cratercount:
 
         elif presentation=='Hartmann':
             d=self.binned['d_mean'][q]
-            y=self.binned['n'][q]/self.binned['bin_width'][q]/self.area*d*(np.sqrt(2.)-1.)
+            y=self.binned['n'][q]/self.binned['bin_width'][q]/self.area*d*(2**.25-2**-.25) # as Productionfn
             err=y/np.sqrt(self.binned['n_event'][q])
 
         elif presentation=='differential':
-- 
2.43.0


From ffb6bc91a98016d1d74d976b3b28ff706b5d5f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 28/74] fix: buffered poisson expectation inaccurate for wide
 diameter range

---
 src/craterstats/Craterpdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index a619176..d9fedfb 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -53,10 +53,10 @@ class Craterpdf:
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
                 ns=500 #samples of PF for integration
-                d=np.linspace(d_range[0], d_range[1], ns)
+                d=np.geomspace(d_range[0], d_range[1], ns)
                 F=pf.F(d,a0)
                 y=(cc.area+d*cc.perimeter/2.+np.pi*d**2/4.)*F
-                I1=simpson(y,d)
+                I1=simpson(y*d,np.log(d)) # log steps, since F varies steeply
                 lam = 10 ** (np.log10(I1) + x)   # lambda for each of self.ts
             else: #standard count
                 Ncum10=np.log10(pf.evaluate("cumulative",d_range,a0))
-- 
2.43.0


From 0c52afd4ed90d08e18f353bc75732a56c5aff406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 29/74] fix: crash of age calculation for count beyond maximum
 age

---
 src/craterstats/Craterpdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index d9fedfb..63fdf97 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -64,8 +64,8 @@ class Craterpdf:
 
         pdf0 = gm.poisson(self.k, lam) * cf.phi(self.ts) # include dC/dt factor
         pdf0 = pdf0.astype(float)
-        if np.sum(pdf0)<1e-30: #force line peak if under-resolved
-            pdf0[np.searchsorted(lam, self.k)] = 1.
+        if np.sum(pdf0*self.dt)<1e-50: #force line peak if under-resolved, or beyond maximum age
+            pdf0[min(np.searchsorted(lam, self.k), np.searchsorted(self.ts, self.ts[-1]))] = 1.
         self.lam = lam
         self.pdf = pdf0/np.sum(pdf0*self.dt)
         self.cdf = np.cumsum(self.pdf*self.dt)
-- 
2.43.0


From dc3b55c2099312e234dc72a71f44a54245a99bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 30/74] fix: tabular production function not plottable without
 a0

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index e8f220b..6b7a5cf 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -222,7 +222,7 @@ class Productionfn:
         :return: dict with series of values for plotting
         '''
         ns=400
-        if a0 is None: a0 = self.a[0]
+        if a0 is None: a0 = self.a[0] if hasattr(self,'a') else 0.
         if range is None: range=self.range
         range=np.clip(range,self.range[0],self.range[1])
         log_d=np.linspace(np.log10(range[0]),np.log10(range[1]),ns)
-- 
2.43.0


From 0e336a5f2fd1a1d2254969a4300954420416468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 31/74] fix: crash instead of message if user functions file
 missing

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 95bdc86..14cb22e 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -75,7 +75,7 @@ class Functionslist:
                 try:
                     s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
                 except:
-                    print("Unable to read user functions file: "+functions_user+" - ignoring.")
+                    print("Unable to read user functions file: "+uf+" - ignoring.")
         self.functions = gm.read_textstructure(s,from_string=True)
 
     def user_function_config(self):
-- 
2.43.0


From 49f3cc1df5f9a7b3f20043766cd5ae12546b5691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 32/74] fix: resurfacing correction not converged for low
 crater density

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index d0f7e60..c8b5466 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -377,7 +377,7 @@ class Cratercount:
                 a0=pf.fit(p)
                 ncum_adj=pf.evaluate("cumulative",p['d'][n-1],a0[0])-p0['y'][n-1]
                 count+=1
-                if abs(ncum_adj0-ncum_adj) < .0001 or count > 20:
+                if abs(ncum_adj0-ncum_adj) <= 1e-6*abs(ncum_adj) or count > 20:
                     break
         return ncum_adj
 
-- 
2.43.0


From 6f4841a848874bebb039689d62e73928b2ec4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 33/74] fix: punctuation in abbreviation interpreted as regular
 expression

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index bd2833f..fcbf1e3 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -147,7 +147,7 @@ def decode_abbreviation(s,v,one_based=False,allow_ambiguous=False,allow_invalid=
 
     #perhaps add back index selection requiring # prefix?
 
-    regex = '(?i)' + '.*'.join(v)
+    regex = '(?i)' + '.*'.join(re.escape(e) for e in v)
     res = [(i,e) for i,e in enumerate(s) if re.search(regex, e) is not None]
     res.sort(key=lambda x: len(x[1]))
     if len(res) == 0:
-- 
2.43.0


From 79c786f73ec62f95f0bb5b1d174b34d1d8cc545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 34/74] fix: poisson age limited to 4.4 Ga for steep chronology

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 63fdf97..cf48aa7 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -32,8 +32,8 @@ class Craterpdf:
         :param n_samples: number of samples for likelihood curve
         """
 
-        x=np.linspace(-10, 5, n_samples) #additive change to a0 (equidistant in fitting space)
         a0=cf.a0(1.)
+        x=np.linspace(-10, max(5, cf.a0(cf.ts[-1])-a0), n_samples) #additive change to a0 (equidistant in fitting space), up to maximum age
         self.ts = cf.t(a0=a0+x)
         self.dt = self.ts - np.roll(self.ts, 1)
         self.dt[0] = self.dt[1]
-- 
2.43.0


From adc95a53c8a5045c8c2becc5b192f78a1438e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 35/74] fix: axis title rounds reference diameter

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index eb07d7d..992102e 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -200,8 +200,8 @@ class Craterplotset:
             'differential': 'Differential crater density, km$^{-3}$',
             'R-plot': 'Relative crater density (R)',
             'Hartmann':     'Craters per $√$2-bin'+(' (equivalent)' if nonroot2 else '')+', km$^{-2}$',
-            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$',
-            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$ Ga$^{-1}$',
+            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$',
+            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$ Ga$^{-1}$',
             }[self.presentation]
         
         title = ('\n'.join(self.title.split('|')) if self.title else None)
-- 
2.43.0


From fc6119550b562307f77d39b22c5bee4fe9f9f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 36/74] fix: plot symbols change size each time plot space is
 created

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 992102e..290ef10 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -186,8 +186,8 @@ class Craterplotset:
 
 # set up marker size
         f = self.decades[0] * self.print_scale / 7.5
-        for e in self.marker_def:
-            e['markersize'] *= 0.8 * f  # * self.print_scale/1.875
+        for e,m in zip(self.marker_def, cst.MARKERS):
+            e['markersize'] = m[2]['markersize'] * 0.8 * f  # * self.print_scale/1.875
             e['markeredgewidth'] = .5 * f  # * self.print_scale/1.875
 
 # set up titles, tick marks, and tick labels
-- 
2.43.0


From 56aaf07c6316597c2b1a9bab926790c1feca9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 37/74] fix: names containing commas shift columns of tables

---
 src/craterstats/Craterplotset.py       | 5 +++--
 src/craterstats/gm/string/__init__.py  | 1 +
 src/craterstats/gm/string/quote_csv.py | 9 +++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)
 create mode 100644 src/craterstats/gm/string/quote_csv.py

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 290ef10..dbbadd2 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -729,6 +729,7 @@ class Craterplotset:
                     v=txt_range
                 else:
                     v = f"{d[k]:{f}}"
+                    if k in ('name','source'): v = gm.quote_csv(v)
                 ln+=[v]
             st += '\n'+','.join(ln)+'," "'
 
@@ -761,7 +762,7 @@ class Craterplotset:
 
         for i in range(n):
             cpl[i].calculate_age(self)
-            s[i][0]=cpl[i].name
+            s[i][0]=gm.quote_csv(cpl[i].name)
 
         for i in range(n):
             for j in range(i if show_self_comparison else i+1,n):
@@ -769,7 +770,7 @@ class Craterplotset:
                 s[i][j+1] = gm.sigfigs(1.-P,2)
                 s[j][i+1] = gm.sigfigs(P,2)
 
-        st='Table of probability that t(x)>t(y)\n'+'\n'.join([','+','.join([cpl[i].name for i in range(n)])]+[','.join(e) for e in s])
+        st='Table of probability that t(x)>t(y)\n'+'\n'.join([','+','.join([gm.quote_csv(cpl[i].name) for i in range(n)])]+[','.join(e) for e in s])
 
         # calculate probability of simultaneous formation vs median time formation
 
diff --git a/src/craterstats/gm/string/__init__.py b/src/craterstats/gm/string/__init__.py
index 7f60b16..318a6f5 100644
--- a/src/craterstats/gm/string/__init__.py
+++ b/src/craterstats/gm/string/__init__.py
@@ -5,6 +5,7 @@ from .bright import bright
 #from .decode_abbreviation import decode_abbreviation
 from .diameter_range import diameter_range
 from .percentile_sigfigs import percentile_sigfigs
+from .quote_csv import quote_csv
 from .quoted_split import quoted_split
 from .scientific_notation import scientific_notation
 from .sigfigs import sigfigs
diff --git a/src/craterstats/gm/string/quote_csv.py b/src/craterstats/gm/string/quote_csv.py
new file mode 100644
index 0000000..b5e2ba9
--- /dev/null
+++ b/src/craterstats/gm/string/quote_csv.py
@@ -0,0 +1,9 @@
+#  Copyright (c) 2025, Greg Michael
+#  Licensed under BSD 3-Clause License. See LICENSE.txt for details.
+
+from .strip_quotes import strip_quotes
+
+def quote_csv(s):
+    '''quote string containing commas for csv output (unless already quoted)'''
+
+    return '"' + s.replace('"','""') + '"' if ',' in s and strip_quotes(s) == s else s
-- 
2.43.0


From 27b09f86fc04ab7c50395d944dbe46675a5f5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 38/74] fix: invalid diameters or area of crater list not
 reported

---
 src/craterstats/Cratercount.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index c8b5466..a39d106 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -46,11 +46,19 @@ class Cratercount:
         except:
             sys.exit("Unable to read file: "+filename)
         if bad_filetype: sys.exit("Unrecognised crater count file type: " + filename)
+        if filetype: self.check_values()
 
 
     def __str__(self):
         return self.filename
 
+    def check_values(self):
+        diam = self.binned['d_min'] if self.prebinned else self.diam
+        if not all(0 < e < np.inf for e in diam):
+            sys.exit("Crater list in "+self.filename+" has invalid crater diameters.")
+        if not 0 < self.area < np.inf:
+            sys.exit("Crater list in "+self.filename+" has undefined area.")
+
     def read_ra_file(self):
         possible_locations = (self.name + '_ra.txt',gm.filename(self.filename,'p')+self.name+'_ra.txt')
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
-- 
2.43.0


From 3f45dc831ec819f2b7da5825afacc15ee15d2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 39/74] fix: range with other than two limits accepted

---
 src/craterstats/Cratercount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index a39d106..9eed2c4 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -340,6 +340,7 @@ class Cratercount:
 
         r1 = [0.,0.]
         snap1 = [snap,snap]
+        if len(range) != 2: sys.exit('Range limit error: ' + ','.join(str(r) for r in range))
         q = np.where(self.binned['n'] > 0)
         for i,r in enumerate(range):
             try:
-- 
2.43.0


From 2b88d82bbbc94e9a878f1df91927f9f944bd000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 40/74] fix: reading text structure with unbalanced brace does
 not end

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index 038463d..8005282 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -71,7 +71,7 @@ def evaluate(s):
     #             ,s+"\nend=")
 
     m=re.search(r"(?ms)^\s*(?P<keyword>[\w\.]*\^?)\s*=\s*"
-                r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
+                r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}])*?)^\s*\}.*?|"
                 r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
                 r"(?P<value>.*?))"
                 r"^\s*(?P<keyword2>[\w\.]*\^?) *="
-- 
2.43.0


From 7c13f8c0a2698b9bbd5dbca53357af35e7508caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 41/74] fix: legend range of fit without limits fails

---
 src/craterstats/Craterplot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index ec317ca..c0ab90b 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -255,7 +255,10 @@ class Craterplot:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
                     r=self.range
                 else:
-                    r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
+                    b=self.cratercount.binned
+                    r=[self.range[0] if self.range[0]>0 else b['d_min'][0],
+                       self.range[1] if self.range[1]<np.inf else b['d_max'][-1]]
+                    r=gm.range(self.cratercount.generate_bins(self.binning,r,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
                 n_d = [cps.pf.evaluate("cumulative", cps.ref_diameter, e) for e in self.a0]
-- 
2.43.0


From 5c01368344dd8a8a0332d2bed5215ad58add322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 42/74] fix: legend entry following a fit lost

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index dbbadd2..ab1acc9 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -538,8 +538,8 @@ class Craterplotset:
                 skip=False
                 continue
             if e=='fit':
-                skip = True
-                if set(self.legend) & set('crN') != set():
+                if set(self.legend) & set('crN') != set(): # otherwise data points of fit have no entry
+                    skip = True
                     h1.append((h[i],h[i+1]))
                     b1.append(b[i+1])
             else:
-- 
2.43.0


From fec974273087365730bb52862befab0de53e0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 43/74] fix: crash if isochron lies wholly above equilibrium

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index ab1acc9..c205ee8 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -570,6 +570,7 @@ class Craterplotset:
         for t,hide,above,small in isochrons:
             a0 = self.cf.a0(t)
             iso = self.pf.getisochron(self.presentation, a0, self.ef)
+            if len(iso['d']) == 0: continue # nowhere below equilibrium
             d10 = np.log10(iso['d'])
             self.ax.plot(d10, iso['y'], color=self.grey[0], lw=.5*self.sz_ratio)
             y_factor = self.data_aspect
-- 
2.43.0


From fded8b1847d8560ce6199f31f56cee78ca007c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 44/74] fix: -text_halo 0 ignored

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index fcbf1e3..ec04da9 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -232,7 +232,7 @@ def construct_cps_dict(args,c,f):
         else:
             c['xrange'] = cst.DEFAULT_XRANGE['Hartmann']
             c['yrange'] = cst.DEFAULT_YRANGE['Hartmann']
-    if not c['text_halo']:
+    if c['text_halo'] is None:
         c['text_halo'] = 0 if c['presentation'] in ('uncertainty','sequence','chronology','rate') else 1
 
     return c
-- 
2.43.0


From 980bb36fb5dd86ab1ae42adf02c42e3086b7cabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 45/74] fix: randomness analysis repeated under another name
 for second figure format

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index ec04da9..461b93c 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -441,10 +441,11 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         cps.fig.savefig(cps.out + tag + '.' + f, dpi=500, transparent=cps.transparent,
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
+    ra = None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
-                ra = randomness_analysis(args, cps,progress_queue=progress_queue)
+                if ra is None: ra = randomness_analysis(args, cps,progress_queue=progress_queue)
                 selection = cst.ra_decode_selection(args.select)
                 for measure in cps.measure:
                     if selection==[0]:
-- 
2.43.0


From c2503ee2731e2d2e8b9ba50e07f100b969efbb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 46/74] fix: uncertainty plots written in first figure format
 only

---
 src/craterstats/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 461b93c..2e137f6 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -442,6 +442,7 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
     ra = None
+    single_fig = age_area_result is not None # send to single fig output for gui
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
@@ -454,9 +455,10 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                     else:
                         ra.plot_montecarlo_split(cps, measure, selection=selection)
                         savefig(f'-{measure}')
-            elif cps.presentation == 'uncertainty' and age_area_result is None: # send to single fig output for gui
-                cps.calculate_time_axis_params()
-                age_area_result = cps.compute_age_area()
+            elif cps.presentation == 'uncertainty' and not single_fig:
+                if age_area_result is None:
+                    cps.calculate_time_axis_params()
+                    age_area_result = cps.compute_age_area()
                 for plt in ('k', 'err', 'age'):
                     cps.draw()
                     cps.age_area_plot(plt,age_area_result)
-- 
2.43.0


From b8d2f4d28b28d9f05909c406ac54da72a68185c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 47/74] fix: range wholly outside the data selected its first
 or last bin

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9eed2c4..280a62a 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -360,7 +360,7 @@ class Cratercount:
 
         if r1[1] < r1[0]: r1[1]=r1[0]
 
-        if self.binning != 'none':
+        if self.binning != 'none' and r1[0] < self.binned['d_max'][-1] and r1[1] > self.binned['d_min'][0]: # don't snap if wholly outside data
             if snap1[0] and r1[0]>0:
                 r1[0] = self.binned['d_min'][max(np.searchsorted(self.binned['d_min'],r1[0]*(1.0000001))-1,0)]
             if snap1[1] and r1[1] <= self.binned['d_max'][-1]-1e-7:
-- 
2.43.0


From 5725a5fedc8d21136840ed858a0a7e86ca910a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 48/74] fix: crash and misplaced age distribution in narrow
 plots (plot width taken for right edge)

---
 src/craterstats/Craterplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index c0ab90b..857123c 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -210,7 +210,7 @@ class Craterplot:
                 if self.type in ['poisson','b-poisson']:
                     text_extent = TextPath((0, 0), st, size=cps.scaled_pt_size*1.2).get_extents()
                     h,w=text_extent.height,text_extent.width
-                    f = 1 / (cps.cm2inch * (cps.position[2] - cps.position[0]) * 100) #conversion for axes coord
+                    f = 1 / (cps.cm2inch * cps.position[2] * 72) #conversion for axes coord (position: left, bottom, width, height in cm)
                     offset = self.pdf.offset(self.age_left)          # normalised units of mini-plot width in +x direction
                     box = np.array([.12, .05])*cps.sz_ratio          # dimensions of plot box
 
-- 
2.43.0


From 5d54a8603baf9f1676827cb8588be092c53b4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 49/74] fix: automatic axis range failed or defaulted if any
 overplot had nothing to show

---
 src/craterstats/Craterplotset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index c205ee8..834baad 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -607,10 +607,11 @@ class Craterplotset:
         ranges = []
         for cp in self.craterplot:
             try:
-                ranges.append(cp.get_data_range(self))
+                r = cp.get_data_range(self)
+                if np.all(np.isfinite(r)): ranges.append(r) # skip if nothing in range, or undefined
             except Exception: # non-cml, binning=none. This is ugly - better to test and skip these (and hidden plots)
                 pass
-        x0, x1, y0, y1 = zip(*ranges) if ranges else  (*cst.DEFAULT_XRANGE[self.presentation], *cst.DEFAULT_YRANGE[self.presentation])
+        x0, x1, y0, y1 = zip(*ranges) if ranges else [(np.nan,)]*4 # default range below
 
         mx = (.3, .8) # minimum empty margin
         my = [e * (2 if self.presentation=='differential' else 1) for e in [.3,.3]] # minimum empty margin
-- 
2.43.0


From 69f555fdd94add7720c20390ca6b35e937171526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 50/74] fix: -bins crash with nothing to show

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 834baad..19d61d8 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -634,8 +634,8 @@ class Craterplotset:
         #optimal padding should consider margins mx, my as well
         dx,dy= gm.mag(xr), gm.mag(yr)
         if np.isnan(dx) or np.isnan(dy): # dx - empty crater files; dy - non-cml, binning=none
-            xr = cst.DEFAULT_XRANGE[self.presentation]
-            yr = cst.DEFAULT_YRANGE[self.presentation]
+            xr = np.array(cst.DEFAULT_XRANGE[self.presentation],dtype=float)
+            yr = np.array(cst.DEFAULT_YRANGE[self.presentation],dtype=float)
         elif self.presentation == 'differential':
             if int(dy) % 2 == 1: # odd
                 yr += [0, 1] if big_bottom else [-1, 0]
-- 
2.43.0


From 1a5c5f5217b600751275b117cbc12d92b7a059a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 51/74] fix: -inc after -i redirected sources and default
 output to the included file's folder

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 2e137f6..aa77489 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -47,7 +47,7 @@ class LoadFromFile(argparse.Action):
                 a=f.read()
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
                 parser.parse_args(shlex.split(a), namespace)
-                namespace.input_filename = f.name
+                if self.dest == 'input': namespace.input_filename = f.name
                 setattr(namespace, self.dest, True)
         except FileNotFoundError:
             raise argparse.ArgumentError(self, f"File not found: {values}")
-- 
2.43.0


From 98fc046820853b74f63275e0e6c9db623c43fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 52/74] fix: default file name with a dot was truncated when
 output given as directory

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index aa77489..ae1fec9 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -434,7 +434,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + os.path.basename(default_filename))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
-- 
2.43.0


From cf93f2e3a92ccaff0085c6739a8c56f437274986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 53/74] fix: parts or holes of projected shapefile crossing 180
 meridian confused

---
 src/craterstats/Spatialcount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 4898281..609b358 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -119,6 +119,8 @@ class Spatialcount:
                 for shape in shapes:
                     xy = list(zip(*shape.points))
                     lons, lats = transformer.transform(xy[0], xy[1])
+                    if max(lons) - min(lons) > 180: # keep continuous across 180 meridian: ring orientation distinguishes holes
+                        lons = [lon % 360 for lon in lons]
                     shape.points = [(lon, lat) for lon, lat in zip(lons, lats)]
 
             return shapes, planetary_radius, mtime
-- 
2.43.0


From f86cb654dbb9d0a0d7a7e38e214073dfec8873a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 54/74] fix: map and randomness plots of area enclosing pole
 fail

---
 src/craterstats/Randomnessanalysis.py | 4 ++--
 src/craterstats/Spatialcount.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 53d5a35..5034493 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -84,7 +84,7 @@ class Randomnessanalysis(cst.Spatialcount):
         sz_ratio = ax.get_position().width/cps.ax.get_position().width
 
         # start from sph_polygons output (p2) from sdaa calc.
-        shp_polygons0 = [shp.from_wkb(sph.to_wkb(p)) for p in p2]
+        shp_polygons0 = [shp.from_wkb(sph.to_wkb(p), on_invalid="fix") for p in p2]
         # flatten any multipolygons (disjoint areas or holes should also be outlined)
         shp_polygons = [polygon for shape in shp_polygons0 for polygon in (shape.geoms if isinstance(shape, shp.MultiPolygon) else [shape])]
 
@@ -261,7 +261,7 @@ class Randomnessanalysis(cst.Spatialcount):
 
             # do area
             z = sph.to_wkb(self.polygon)
-            multipolygon = shp.from_wkb(z)
+            multipolygon = shp.from_wkb(z, on_invalid="fix")
             p = []
 
             if not isinstance(multipolygon, shp.MultiPolygon):
diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 609b358..53f01db 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -355,7 +355,7 @@ class Spatialcount:
 
         # do area
         z = sph.to_wkb(self.polygon)
-        multipolygon = shp.from_wkb(z)
+        multipolygon = shp.from_wkb(z, on_invalid="fix")
 
         if not isinstance(multipolygon, shp.MultiPolygon):
             multipolygon = shp.MultiPolygon([multipolygon])
-- 
2.43.0


From e4c21d4058e8e7e489ab62e1f076229ba8318e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 55/74] fix: randomness chart of single bin fails

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 14cb22e..3228b4b 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -219,7 +219,7 @@ def Hartmann_bins(d_range):
     labels[10] = '  ' + labels[10] + "km"
     xtickv, xtickname = map(list, zip(*[(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]))
     if xtickv[0] < 0: xtickname[0] += 'm'
-    xminor = (xtickv[1] - xtickv[0]) / 2
+    xminor = (v[1] - v[0]) / 2
     xminorv = [e+xminor for e in [xtickv[0]-2*xminor]+xtickv if d_range[0] <= e+xminor <= d_range[1]]
     return xtickv,xtickname,xminor,xminorv
 
-- 
2.43.0


From c59196adfc7e56d1d7094d2f7f7c18e080d8717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 56/74] fix: further parts of one area shapefile record became
 holes in .scc conversion

---
 src/craterstats/Spatialcount.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 53f01db..60c00fe 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -218,13 +218,14 @@ class Spatialcount:
         sub_area, tag, pts = [],[],[]
         i = 1
         for shape in self.sa: # might be better to use technique from write_SHP, i.e. dismantle self.polygon
-            parts = list(shape.parts) + [len(shape.points)]
-            pts += shape.points
-            for j in range(len(shape.parts)):
-                n = parts[j + 1] - parts[j]
-                tag += ['ext' if j==0 else 'int'] * n
-                sub_area += [i] * n
-                i += 1
+            geom = shp.geometry.shape(shape.__geo_interface__)
+            for poly in getattr(geom, 'geoms', [geom]): # one record may have several parts
+                for j, ring in enumerate([poly.exterior] + list(poly.interiors)):
+                    n = len(ring.coords)
+                    pts += list(ring.coords)
+                    tag += ['ext' if j==0 else 'int'] * n
+                    sub_area += [i] * n
+                    i += 1
         boundary_table = [f"{i:<5}\t{a:<5}\t{b:<4}\t{c[0]:23.15f}\t{c[1]:23.15f}"
                           for i, (a, b, c) in enumerate(zip(sub_area, tag, pts), start=1)]
 
-- 
2.43.0


From 7cbe4923093c426883289a42adb506bdff390341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 57/74] fix: shapefile conversion wrote rings with direction
 reversed (outer rings as holes)

---
 src/craterstats/Spatialcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 60c00fe..0edb4f5 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -275,7 +275,7 @@ class Spatialcount:
         rims,wkt = self.find_rims()
         for d, x, y, r in zip(self.diam, self.lon, self.lat, rims):
             c.record(Diam_km=d, x_coord=x, y_coord=y, tag='standard')
-            c.poly([list(zip(*r))])
+            c.poly([list(zip(*r))[::-1]]) # shapefile outer rings run clockwise, holes anticlockwise
         c.close()
         gm.write_textfile(gm.filename(fc,'pn1','.prj'),wkt)
         shutil.copy(cst.PATH + 'config/_CRATER.qml', gm.filename(fc,'pn1','.qml'))
@@ -287,7 +287,7 @@ class Spatialcount:
         a.field('area_name', 'C', 30)
         decomposed = self.polygon_to_pts()
         for i, p in enumerate(decomposed):
-            a.poly(p)
+            a.poly([ring[::-1] for ring in p])
             a.record(None, f'Area_{i + 1}')
         a.close()
         gm.write_textfile(gm.filename(fa, 'pn1', '.prj'), wkt)
-- 
2.43.0


From fe6bcf8681b12182bcc6059302e72e2855c85d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 58/74] fix: loss of precision in diameters of small craters
 from shapefile

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 0edb4f5..4bc7340 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -157,7 +157,7 @@ class Spatialcount:
             c_area = sph.area(c, radius=rc)
             # diam1 = math.sqrt(4*c_area/math.pi)  # flat diameter from area: better behaviour if noisy vertex positions
             # diam2 = sph.perimeter(c,radius = rc)/math.pi # flat diameter from perimeter: greater error if noisy vertex positions
-            diam3 = 2 * rc * math.acos(1 - c_area / (2 * math.pi * rc ** 2))  # spherical diameter from area
+            diam3 = 4 * rc * math.asin(math.sqrt(c_area / (4 * math.pi * rc ** 2)))  # spherical diameter from area
 
             pt = sph.centroid(c)
             x, y = (sph.get_x(pt), sph.get_y(pt))
-- 
2.43.0


From 48361a02a29b6fa4aaaf7ebbf2d9107565cd3399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 59/74] fix: inexactly closed crater rims in shapefile
 conversion could not be read

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 4bc7340..5d17ce8 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -299,7 +299,7 @@ class Spatialcount:
         """
         lon,lat,diam = (craters.lon,craters.lat,craters.diam) if craters else (self.lon,self.lat,self.diam)
 
-        theta = [2 * math.pi * i / ns for i in range(ns + 1)]
+        theta = [2 * math.pi * (i % ns) / ns for i in range(ns + 1)] # closing point identical to first
         cx, cy = np.array([(math.cos(e), math.sin(e)) for e in theta]).T
         rs = f'{self.planetary_radius * 1e3:0.0f}'
         wkt = f'GEOGCS["Spherical_GCS_{rs}", DATUM["Sphere_{rs}", SPHEROID["Sphere_{rs}", {rs}, 0]], PRIMEM["Greenwich", 0], UNIT["Degree", 0.0174532925199433]]'
-- 
2.43.0


From 1889454a1ea9849092a32b314a81697acc80a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 60/74] fix: randomness analysis with too few craters for a
 measure fails

---
 src/craterstats/Randomnessanalysis.py | 10 ++++++----
 src/craterstats/cli.py                |  3 +++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 5034493..0829f0f 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -402,26 +402,28 @@ class Randomnessanalysis(cst.Spatialcount):
 
 
     def write(self):
+        measures = [m for m in self.montecarlo if self.montecarlo[m]['stats']] # omit any without results (too few craters in every bin)
+        if not measures: return
         s = ['# Randomness analysis',
               f'version = {cst.__version__}',
               f'source = "{self.filename}"',
               ]
 
         table = []
-        bins = sorted({k for m in self.montecarlo for k in self.montecarlo[m]['stats'].keys()}, key=float) # get bins from all measures
+        bins = sorted({k for m in measures for k in self.montecarlo[m]['stats'].keys()}, key=float) # get bins from all measures
         for bin in bins:
             row = f"{bin:<12}"
-            for measure in self.montecarlo:
+            for measure in measures:
                 if bin in self.montecarlo[measure]['stats']:
                     row += f"\t{self.montecarlo[measure]['stats'][bin].n_sigma:9.4g}"
                 else:
                     row += f"\t{'-':>9}"
             table.append(row)
-        n_sigma = (['#','n_sigma = {bin' + ''.join([f', {measure}' for measure in self.montecarlo])]
+        n_sigma = (['#','n_sigma = {bin' + ''.join([f', {measure}' for measure in measures])]
                    + table + ['}'])
         s += n_sigma
 
-        for measure in self.montecarlo:
+        for measure in measures:
             trials = (
                 ['trials  = {index, ' + ", ".join([b for b in self.montecarlo[measure]['trials']])]
                 + ["\t".join([f"{t:<12}"] + [f"{v[t]:<12.7g}" for bin,v in self.montecarlo[measure]['trials'].items()])
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index ae1fec9..5511f5d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -449,6 +449,9 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                 if ra is None: ra = randomness_analysis(args, cps,progress_queue=progress_queue)
                 selection = cst.ra_decode_selection(args.select)
                 for measure in cps.measure:
+                    if not ra.montecarlo[measure]['stats']:
+                        print(f"{measure}: no bin with enough craters")
+                        continue
                     if selection==[0]:
                         ra.plot_n_sigma(cps, measure)
                         savefig(f'-{measure}-n_sigma')
-- 
2.43.0


From aae7c391633f44ba6c36f4c53a23bf7fad2ac026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 61/74] fix: map grid of area crossing 180 meridian lacks
 meridians

---
 src/craterstats/Spatialcount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 5d17ce8..1e7519b 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -395,6 +395,7 @@ class Spatialcount:
         # do gridlines - this probably needs improving for poles
         if grid:
             lonr, latr = ortho_proj(xr0, yr0, inverse=True)
+            lonr = [cenlon + (lon - cenlon + 180) % 360 - 180 for lon in lonr]   # about centre, in case of crossing the 180 meridian
 
             xtickv = gm.ticks(lonr, 6)
             ytickv = gm.ticks(latr, 6)
-- 
2.43.0


From 4e8006e4bb5725aa561ff5482365a51845c54e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 62/74] fix: adjacent-area measure fails for few craters in a
 small area (almost coplanar points)

---
 src/craterstats/Randomnessanalysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 0829f0f..227c9c4 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -656,7 +656,8 @@ def sdaa(self, pts, ids, hpd):
 
     center = np.array([0, 0, 0])
     radius = 1.0
-    sv = SphericalVoronoi(xyz, radius, center, threshold=1e-9)
+    # nearby points are almost coplanar: limit is the precision of the unit vectors
+    sv = SphericalVoronoi(xyz, radius, center, threshold=1e-14)
     sv.sort_vertices_of_regions()
 
     xyz_polygons = [[sv.vertices[id] for id in region] for region in sv.regions]
-- 
2.43.0


From 66ba3eb5270c0f2679208b5015f0b783dc7058ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 63/74] fix: differential fit starting from single-crater bin
 gives no lower age limit and fails to plot

---
 src/craterstats/Productionfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 6b7a5cf..536d621 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -208,7 +208,8 @@ class Productionfn:
                 func, sigma = self.F10, 1 / np.sqrt(err)
 
         popt, pcov = sc.curve_fit(func, np.log10(d), np.log10(y),sigma=sigma)
-        a0=popt[0]-[0,np.log10(y[0])-np.log10(y[0]-.98*err[0]),np.log10(y[0])-np.log10(y[0]+.98*err[0])]
+        y_min=max(y[0]-.98*err[0],.02*y[0]) # bias-corrected value of single crater may be less than its error
+        a0=popt[0]-[0,np.log10(y[0])-np.log10(y_min),np.log10(y[0])-np.log10(y[0]+.98*err[0])]
         return a0
 
 
-- 
2.43.0


From 03b2e74c6903391ca90a88cdc08f885934fae483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 64/74] fix: user functions file given by relative path ignored
 from other directories

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 3228b4b..c0732bd 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -88,7 +88,7 @@ class Functionslist:
 
     def set_user_functions_config(self,path):
         if path:
-            s = ['#path to functions_user.txt', path]
+            s = ['#path to functions_user.txt', os.path.abspath(path)] # persistent: should not depend on current directory
             gm.write_textfile(self.config, s)
             print(': '.join(s)[1:])
 
-- 
2.43.0


From 2265b884be670ab055fa44d0e10eb28dbafdca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 65/74] fix: simulated crater log ends with an event after the
 modelled interval

---
 scripts/generate_simulated_crater_log.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/generate_simulated_crater_log.py b/scripts/generate_simulated_crater_log.py
index 65b34f6..4f9a92b 100644
--- a/scripts/generate_simulated_crater_log.py
+++ b/scripts/generate_simulated_crater_log.py
@@ -69,6 +69,7 @@ def main():
             dt = 1. / lam #mean interval
 
         t += dt
+        if t>t_interval[1]: break # event falls after end of interval
         i += 1
         print(f"{i:6d} {t:10.6f} {d:10.4f}")
 
-- 
2.43.0


From 0574c193d516268b9884a8b486f75087a8d4df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 66/74] fix: simulated crater log evaluates impact rate at
 negative age

---
 scripts/generate_simulated_crater_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_simulated_crater_log.py b/scripts/generate_simulated_crater_log.py
index 4f9a92b..cd662da 100644
--- a/scripts/generate_simulated_crater_log.py
+++ b/scripts/generate_simulated_crater_log.py
@@ -60,7 +60,7 @@ def main():
         d = pf_inverse(pf, y)
 
         #time interval
-        phi = cf.phi(t)
+        phi = cf.phi(-t) # chronology function is in terms of age
         lam = phi * N1_ratio * area
         if poisson_intervals:
             u = rng.uniform(0, 1)
-- 
2.43.0


From 6a56a65da7fb75f5e71bdc0d67607dd684aec64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 67/74] fix: randomness analysis of craters smaller than the
 labelled diameters fails to plot

---
 src/craterstats/miscellaneous.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index c0732bd..39529f7 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -217,9 +217,11 @@ def Hartmann_bins(d_range):
     labels = [str(e) for e in
               (1, 2, 4, 8, 16, 31, 63, 125, 250, 500, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)]
     labels[10] = '  ' + labels[10] + "km"
-    xtickv, xtickname = map(list, zip(*[(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]))
-    if xtickv[0] < 0: xtickname[0] += 'm'
+    in_range = [(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]
     xminor = (v[1] - v[0]) / 2
+    if not in_range: return [],[],xminor,[] # wholly outside labelled diameters
+    xtickv, xtickname = map(list, zip(*in_range))
+    if xtickv[0] < 0: xtickname[0] += 'm'
     xminorv = [e+xminor for e in [xtickv[0]-2*xminor]+xtickv if d_range[0] <= e+xminor <= d_range[1]]
     return xtickv,xtickname,xminor,xminorv
 
-- 
2.43.0


From f51f0a8139a4b4484b8f0863fd465a10217fdc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 68/74] fix: let a conversion be written to a file named out

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 5511f5d..ff4ede8 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -313,7 +313,7 @@ def convert_format(args, cps, cs_content):
 
     fmt, src = args.convert
     src = cs_source(src)
-    specified_name = cps.out != 'out' and not (args.out and os.path.isdir(args.out))
+    specified_name = (args.out or args.input) and not (args.out and os.path.isdir(args.out))
     scc = cst.Spatialcount(src)
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
-- 
2.43.0


From b7eb5dd2caaf9c88e12f01e17de760506d221cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 69/74] fix: name the results of a randomness analysis as asked
 and alike when repeated from its script

---
 src/craterstats/cli.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index ff4ede8..6db252d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -401,8 +401,17 @@ def cs_source(v):
 
 
 def randomness_analysis(args,cps,progress_queue=None):
-    out = '' if cps.out=='out' or cps.out is None else gm.filename(cps.out,'pn')
-    ra = cst.Randomnessanalysis(cs_source(args.randomness_analysis), out=out,progress_queue=progress_queue)
+    src = cs_source(args.randomness_analysis)
+    specified_name = args.out and not os.path.isdir(args.out)
+    if specified_name:
+        out = gm.filename(cps.out,'pn')
+    elif args.input:
+        out = re.sub(r'_ra$', '', gm.filename(cps.out,'pn')) # suffix is added again
+    elif args.out:
+        out = os.path.normpath(args.out + '/' + re.sub(r'_?CRATER_?', '', gm.filename(src, 'n')))
+    else:
+        out = ''
+    ra = cst.Randomnessanalysis(src, out=out,progress_queue=progress_queue)
     cps.out = gm.filename(ra.ra_file,'pn')
     trials = args.trials if args.trials else cps.trials
     if args.measure:
-- 
2.43.0


From 4812283c0cc844a9082ab127dd6f38bcda7dbc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 70/74] fix: repeat a map of given name from its script under
 the same name

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6db252d..76ef185 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -336,8 +336,9 @@ def convert_format(args, cps, cs_content):
         case 'png'|'svg'|'pdf':
             if fmt0 in ['shp','scc']:
                 out = re.sub(r'_?CRATER_?', '', out)
-                if not args.input:
+                if args.out or not args.input: # otherwise already named after script
                     out = gm.filename(out, 'pn1e','_map')
+                if not args.input:
                     gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
                 cps.create_map_plotspace()
                 scc.plot(cps,grid=True)
-- 
2.43.0


From 3f8ecc7f77f428c62e5411e2e59577731182b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:45 +0000
Subject: [PATCH 71/74] fix: order of randomness measures in results and chart
 legend varied between runs

---
 src/craterstats/Craterplot.py | 4 ++--
 src/craterstats/cli.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 857123c..b650ec1 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -148,10 +148,10 @@ class Craterplot:
                 cps.ax_ra.text(xr[1], cst.n_sigma_scaling(y)+dy, f"{abs(y):>2}", color=cps.palette[0], size=.35 * cps.scaled_pt_size, va='center', ha='left')
 
             y = [((len(cps.measure)) / 2 - i) * cst.n_sigma_scaling(1) * 1.3 for i in range(len(cps.measure)+1)]
-            for i,m in enumerate(cps.measure):
+            for i,m in enumerate(sorted(cps.measure)):
                 cps.ax_ra.text(xr[0] - mg*.03, y[i], m, color=cps.palette[0], size=.5 * cps.scaled_pt_size,  va='center', ha='right')
                 cps.ax_ra.plot([xr[0] - mg*.027,xr[0] - mg*.005], [y[i]]*2, color=cps.palette[0], lw=.5 * cps.sz_ratio, linestyle=cst.LINESTYLES[m])
-            cps.ax_ra.text(xr[0] - mg * .005, y[-1], ', '.join(set(self.cratercount.n_trials))+" trials", color=cps.palette[0], size=.5 * cps.scaled_pt_size, va='center', ha='right')
+            cps.ax_ra.text(xr[0] - mg * .005, y[-1], ', '.join(dict.fromkeys(self.cratercount.n_trials))+" trials", color=cps.palette[0], size=.5 * cps.scaled_pt_size, va='center', ha='right')
 
             xtickv, xtickname, _, xminorv = cst.Hartmann_bins([xr[0],xr[1]+.001])
             cps.ax_ra.spines['top'].set_position(('data', cst.n_sigma_scaling(3)))
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 76ef185..0171558 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -420,7 +420,7 @@ def randomness_analysis(args,cps,progress_queue=None):
         diff = cps.measure - {'m2cnd','sdaa'}
         if diff:
             sys.exit(f"Invalid measure: {diff}")
-    for measure in cps.measure:
+    for measure in sorted(cps.measure): # order of a set may vary
         ra.run_montecarlo(trials, measure)
         # do each loop so as to retain data if interrupted
         ra.calculate_stats()
-- 
2.43.0


From 4b52bb730fd637cc5a05ef0714a2ab1cd5d399f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:24 +0000
Subject: [PATCH 72/74] fix: find randomness results of shapefile sources under
 the name they are written with

---
 src/craterstats/Cratercount.py        | 3 ++-
 src/craterstats/Randomnessanalysis.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 280a62a..df72487 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -60,7 +60,8 @@ class Cratercount:
             sys.exit("Crater list in "+self.filename+" has undefined area.")
 
     def read_ra_file(self):
-        possible_locations = (self.name + '_ra.txt',gm.filename(self.filename,'p')+self.name+'_ra.txt')
+        name = re.sub(r'_?CRATER_?', '', self.name) if gm.filename(self.filename, 'e') == '.shp' else self.name # as Spatialcount
+        possible_locations = (name + '_ra.txt',gm.filename(self.filename,'p')+name+'_ra.txt')
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 227c9c4..4b02e13 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -439,7 +439,7 @@ class Randomnessanalysis(cst.Spatialcount):
 
     def read(self):
         # allow read from source file location, but write will still be to current dir or -o
-        possible_locations = (self.ra_file, gm.filename(self.filename, 'pn1','_ra.txt'))
+        possible_locations = (self.ra_file, gm.filename(self.filename, 'p') + self.name + '_ra.txt')
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
-- 
2.43.0


From bf35abddf0b2ecfa10c7c7a221b0e22928d78997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 73/74] fix: colour the craters of uncertainty plots in classes
 matching the colour bar whatever their range

---
 src/craterstats/Craterplotset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 19d61d8..49d7ce8 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -955,7 +955,8 @@ class Craterplotset:
 
         if plt == 'k':
             im = np.flip(np.transpose(np.clip(kk, 0, 8)), 1)
-            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', extent=[0, 1, 0, 1])
+            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto',
+                                 vmin=0, vmax=8, extent=[0, 1, 0, 1])
             cbar = self.fig.colorbar(imo, self.ax_cbar, ticks=[0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5])
             cbar.ax.set_yticklabels(['0', '1', '2', '3', '4', '5', '6', '7+'])
             cbar.set_label('$k$' + diameter_text, rotation=90)
-- 
2.43.0


From a6253156ca0a8f095432018ea2369d379053fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:25 +0000
Subject: [PATCH 74/74] fix: invalid size, point size, axis range or reference
 diameter refused only after part of the output was written

---
 src/craterstats/cli.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 0171558..76ad9a9 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -56,6 +56,20 @@ class LoadFromFile(argparse.Action):
         except Exception as e:
             raise argparse.ArgumentError(self, e)
 
+def positive(v):
+    x = float(v)
+    if not 0 < x < float('inf'): raise argparse.ArgumentTypeError(f"should be positive: '{v}'")
+    return x
+
+def finite(v):
+    if not abs(float(v)) < float('inf'): raise argparse.ArgumentTypeError(f"should be finite: '{v}'")
+    return v
+
+def print_dimensions(v):
+    x = [float(e) for e in v.split('x')]
+    if len(x) > 2 or not all(abs(e) < float('inf') for e in x): raise argparse.ArgumentTypeError(f"should be value or AxB: '{v}'")
+    return v
+
 def get_parser():
     parser = argparse.ArgumentParser(description='Craterstats: a tool to analyse and plot crater count data for planetary surface dating.')
 
@@ -83,8 +97,8 @@ def get_parser():
 
     parser.add_argument("-title", help="plot title", nargs='+', action=SpacedString)
     parser.add_argument("-pr", "--presentation", help="data presentation: " + (', ').join(cst.PRESENTATIONS))#, action=SpacedString)
-    parser.add_argument("-xrange", help="x-axis range, log(min) log(max)", nargs=2)
-    parser.add_argument("-yrange", help="y-axis range, log(min) log(max)", nargs=2)
+    parser.add_argument("-xrange", help="x-axis range, log(min) log(max)", nargs=2, type=finite)
+    parser.add_argument("-yrange", help="y-axis range, log(min) log(max)", nargs=2, type=finite)
     parser.add_argument("-isochrons", help="comma-separated isochron list in Ga, e.g. 1,3,3.7a,4a (optional combined suffix to modify label: h - hide; a - above; s - small)")
     parser.add_argument("-legend", help="0 - suppress; or any combination of: n - name, a - area, p - perimeter, c - number of craters, r - range, N - N(d_ref) value, A - age (sequence plot)")
     parser.add_argument("-style", choices=['natural', 'root-2'], help="diameter axis style")
@@ -95,15 +109,15 @@ def get_parser():
     parser.add_argument("-transparent", nargs='?', choices=[0,1], type=int, const=1, help="set transparent background [1|0]")
     parser.add_argument("-tight", nargs='?', choices=[0, 1], type=int, const=1, help="make tight framing [1|0]")
 
-    parser.add_argument("-pd", "--print_dimensions", help="print dimensions: either single value (cm/decade) or enclosing box in cm (AxB), e.g. 2 or 8x8")
-    parser.add_argument("-pt_size", type=float, help="point size for figure text")
+    parser.add_argument("-pd", "--print_dimensions", type=print_dimensions, help="print dimensions: either single value (cm/decade) or enclosing box in cm (AxB), e.g. 2 or 8x8")
+    parser.add_argument("-pt_size", type=positive, help="point size for figure text")
 
-    parser.add_argument("-ref_diameter", type=float, help="reference diameter for displayed N(d_ref) values")
+    parser.add_argument("-ref_diameter", type=positive, help="reference diameter for displayed N(d_ref) values")
     parser.add_argument("-sf","--sig_figs", type=int, choices=[2,3], help="number of significant figures for displayed ages")
     parser.add_argument("--font", help=argparse.SUPPRESS, nargs='+', action=SpacedString)
     parser.add_argument("-st","--sequence_table", help="generate sequence probability table", action='store_true')
 
-    parser.add_argument("-d_min","--min_diameter", type=float, help="minimum diameter for uncertainty plot")
+    parser.add_argument("-d_min","--min_diameter", type=positive, help="minimum diameter for uncertainty plot")
     parser.add_argument("-ns", "--n_samples", type=int, help="number of samples for uncertainty plot")
 
     parser.add_argument("-p", "--plot", nargs='+', action=AppendPlotDict, metavar="KEY=VAL,",
-- 
2.43.0

