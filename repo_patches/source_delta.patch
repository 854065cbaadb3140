From 1bed6f7461d4bc982c51217c746185e5d22e94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 1/7] fix: DegreeToRal was 30 degrees or more off for negative
 angles

Go's % truncates towards zero, so the angsa of a negative angle came out
negative while the rasi was floored: -0.5 became (-1, -1, 30), i.e. -30.5.
Every lunar day before the solar New Year got a wrong mean Sun, and with it
a wrong true Sun and Moon.
---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index f4f2f7a..740e71a 100644
--- a/helpers.go
+++ b/helpers.go
@@ -13,7 +13,7 @@ func DegreeToRal(degree float64) (x, y, z int) {
 	x = int(math.Floor(degree / 30))
 
 	// the remainder degrees
-	y = int(math.Floor(degree)) % 30
+	y = int(math.Floor(degree)) - 30*x
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
-- 
2.43.0


From 566ca4c9cb61dcc023b0261807eb0f96287c3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 2/7] fix: keep the Moon's position within one revolution

NormalizeDegree left negative angles alone, and the correction from mean to
true Moon was not reduced again, so the true Moon could lie below 0 or above
360 degrees and the raek outside the 27 mansions (e.g. 0.63 or 28.37).
---
 helpers.go    | 2 +-
 suriya_day.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index 740e71a..f4cf889 100644
--- a/helpers.go
+++ b/helpers.go
@@ -35,7 +35,7 @@ func RalToDegree(x, y, z int) float64 {
 
 // Keep it within 360 deg
 func NormalizeDegree(deg float64) float64 {
-	if deg <= 360 {
+	if deg >= 0 && deg <= 360 {
 		return deg
 	}
 	return deg - math.Floor(deg/360)*360
diff --git a/suriya_day.go b/suriya_day.go
index 9918355..64a0b5f 100644
--- a/suriya_day.go
+++ b/suriya_day.go
@@ -183,7 +183,7 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 
 	// step 17.
 
-	suDay.TrueMoon = math.Floor((suDay.MeanMoon-b)*10000) / 10000
+	suDay.TrueMoon = math.Floor(NormalizeDegree(suDay.MeanMoon-b)*10000) / 10000
 	// True Moon = 8; 7 : 43
 	// True Moon = 247.716666
 
-- 
2.43.0


From 0ce9cbe3d8e2b32d2b2d18b32401a2aa55a6baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 3/7] fix: cycle positions ran backwards before the anchor year

The absolute value counted up again for years before 1414 (57 year cycle)
and 1794 (19 year cycle).
---
 suriya_year.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/suriya_year.go b/suriya_year.go
index 13ea5bb..447d969 100644
--- a/suriya_year.go
+++ b/suriya_year.go
@@ -134,12 +134,12 @@ func (su SuriyaYear) Has_Carried_Adhikavara() bool {
 
 // Determine the position in the 57 year cycle. Assume 1984 = 1, 2040 = 57, 2041 = 1.
 func (su SuriyaYear) AdhikavaraCyclePos() int {
-	return int(math.Abs(float64(1984-57*10-su.Year)))%57 + 1
+	return ((su.Year-1984)%57+57)%57 + 1
 }
 
 // Determine the position in the 19 year cycle.
 func (su SuriyaYear) AdhikamasaCyclePos() int {
-	return int(math.Abs(float64(1984-19*10-su.Year)))%19 + 1
+	return ((su.Year-1984)%19+19)%19 + 1
 }
 
 // Years since last adhikamāsa.
-- 
2.43.0


From 59d8c04a920443737505cff0a65dd0f3a336d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 4/7] fix: a year without moon data hid the moons of all later
 years

GetAstroMoons returned at the first year with no data file, so a range that
starts before 1900 had no astronomical moons at all.
---
 astro_moon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro_moon.go b/astro_moon.go
index dc1b363..fd09567 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -58,7 +58,7 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 			if verbose {
 				log.Printf("%v, %s\n", err, filepath)
 			}
-			return moons
+			continue
 		}
 
 		var resp AerisResp
-- 
2.43.0


From 690119b629e9ef60f81cd9570b7fd206b51789bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:47 +0000
Subject: [PATCH 5/7] fix: a file's name depended on how its path was spelled
 when first opened

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 0306da8..4b8418e 100644
--- a/data.go
+++ b/data.go
@@ -52,7 +52,7 @@ func (_escStaticFS) prepare(name string) (*_escFile, error) {
 	}
 	var err error
 	f.once.Do(func() {
-		f.name = path.Base(name)
+		f.name = path.Base(path.Clean(name))
 		if f.size == 0 {
 			return
 		}
-- 
2.43.0


From ed91a9a015a278163ad15ab18a224621974ad8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:47 +0000
Subject: [PATCH 6/7] fix: FSByte left the local file open

---
 data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data.go b/data.go
index 4b8418e..f7ee3b4 100644
--- a/data.go
+++ b/data.go
@@ -155,6 +155,7 @@ func FSByte(useLocal bool, name string) ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer f.Close()
 		return ioutil.ReadAll(f)
 	}
 	f, err := _escStatic.prepare(name)
-- 
2.43.0


From 476455fc8d6da9f61652335a2c70432744b88c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:47 +0000
Subject: [PATCH 7/7] fix: local directories were looked up at the root of the
 disk

---
 data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/data.go b/data.go
index f7ee3b4..e322bb6 100644
--- a/data.go
+++ b/data.go
@@ -3510,16 +3510,16 @@ AAAA
 
 	"/": {
 		isDir: true,
-		local: "/",
+		local: ".",
 	},
 
 	"/data": {
 		isDir: true,
-		local: "/data",
+		local: "data",
 	},
 
 	"/data/astro": {
 		isDir: true,
-		local: "/data/astro",
+		local: "data/astro",
 	},
 }
-- 
2.43.0

