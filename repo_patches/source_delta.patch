From 24bd8780840af0b7d5c1aa9707172d1f088d8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 01/14] fix: DegreeToRal split negative degrees 30 degrees off

For a negative angle the rasi was floored but the angsa truncated, so
that x and y did not add up to the angle: the mean sun of the days
before New Year was 30 degrees off.
---
 helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index f4f2f7a..462999d 100644
--- a/helpers.go
+++ b/helpers.go
@@ -12,8 +12,8 @@ func DegreeToRal(degree float64) (x, y, z int) {
 	// how many times 30 degrees
 	x = int(math.Floor(degree / 30))
 
-	// the remainder degrees
-	y = int(math.Floor(degree)) % 30
+	// the remainder degrees, 0-29 also when degree is negative
+	y = int(math.Floor(degree)) - 30*x
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
-- 
2.43.0


From 79430f056da56ab61a15b7cd145c5851a28f60a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 02/14] fix: NormalizeDegree left negative angles and 360 as
 they were

---
 helpers.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/helpers.go b/helpers.go
index 462999d..4ce5f9b 100644
--- a/helpers.go
+++ b/helpers.go
@@ -33,12 +33,17 @@ func RalToDegree(x, y, z int) float64 {
 	return math.Floor(float64(30*x+y)*10000+float64(z*10000)/60) / 10000
 }
 
-// Keep it within 360 deg
+// Keep it within 360 deg, 0 <= deg < 360
 func NormalizeDegree(deg float64) float64 {
-	if deg <= 360 {
-		return deg
+	deg = math.Mod(deg, 360)
+	if deg < 0 {
+		deg += 360
 	}
-	return deg - math.Floor(deg/360)*360
+	// adding 360 to a tiny negative number rounds to 360
+	if deg >= 360 {
+		deg = 0
+	}
+	return deg
 }
 
 func HorakhunToDate(horakhun int64) time.Time {
-- 
2.43.0


From 788e4ac35261f3f2d7f06311755b01154b24ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:00 +0000
Subject: [PATCH 03/14] fix: SuriyaDay positions ran out of 0-360 degrees

The true moon fell below 0 or above 360 whenever its equation crossed the
start of the circle (with a raek outside 1-27), and the sun exceeded 360
at the end of the lunar year and was negative before New Year.
---
 suriya_day.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/suriya_day.go b/suriya_day.go
index 9918355..9e4fe5b 100644
--- a/suriya_day.go
+++ b/suriya_day.go
@@ -187,6 +187,12 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 	// True Moon = 8; 7 : 43
 	// True Moon = 247.716666
 
+	// Before New Year and after a full circle the positions above run out of
+	// 0-360 degrees. The steps need them so, the results don't.
+	suDay.MeanSun = normalizePosition(suDay.MeanSun)
+	suDay.TrueSun = normalizePosition(suDay.TrueSun)
+	suDay.TrueMoon = normalizePosition(suDay.TrueMoon)
+
 	// (0; 13:20) = 13.33 degree is one raek, i.e. 360 deg / 27 mansions
 	a = RalToDegree(0, 13, 20)
 	// Raek aka Mula
@@ -195,3 +201,8 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 	// Raek = 19.5771
 
 }
+
+// Keep a position within 360 deg, at four decimal places
+func normalizePosition(deg float64) float64 {
+	return math.Floor(NormalizeDegree(deg)*10000+0.5) / 10000
+}
-- 
2.43.0


From 1ff01de34209b7b17d9998a34b0e0dfccb65ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:00 +0000
Subject: [PATCH 04/14] fix: cycle positions ran backwards before CE 1414 (57
 years) and 1794 (19 years)

---
 suriya_year.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/suriya_year.go b/suriya_year.go
index 13ea5bb..447d969 100644
--- a/suriya_year.go
+++ b/suriya_year.go
@@ -134,12 +134,12 @@ func (su SuriyaYear) Has_Carried_Adhikavara() bool {
 
 // Determine the position in the 57 year cycle. Assume 1984 = 1, 2040 = 57, 2041 = 1.
 func (su SuriyaYear) AdhikavaraCyclePos() int {
-	return int(math.Abs(float64(1984-57*10-su.Year)))%57 + 1
+	return ((su.Year-1984)%57+57)%57 + 1
 }
 
 // Determine the position in the 19 year cycle.
 func (su SuriyaYear) AdhikamasaCyclePos() int {
-	return int(math.Abs(float64(1984-19*10-su.Year)))%19 + 1
+	return ((su.Year-1984)%19+19)%19 + 1
 }
 
 // Years since last adhikamāsa.
-- 
2.43.0


From 3ff9a1aa68d418d764d1bdf37531afd9da4b5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 05/14] fix: GetAstroMoons dropped all moons after a year
 without a data file

A window starting before 1900 returned no moons at all.
---
 astro_moon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro_moon.go b/astro_moon.go
index dc1b363..fd09567 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -58,7 +58,7 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 			if verbose {
 				log.Printf("%v, %s\n", err, filepath)
 			}
-			return moons
+			continue
 		}
 
 		var resp AerisResp
-- 
2.43.0


From cb74ea30b50357ab57a9e06c35469268372b9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 06/14] fix: windows in other time zones missed days at the
 turn of the year

The years to look at were taken from the local dates of the window, the
moons and events are in UTC.
---
 astro_moon.go | 2 +-
 cal_day.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/astro_moon.go b/astro_moon.go
index fd09567..38fcc6b 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -45,7 +45,7 @@ func (m AstroMoon) IcalEvent() ical.VEvent {
 func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 	var err error
 
-	for year := fromDate.Year(); year <= toDate.Year(); year++ {
+	for year := fromDate.UTC().Year(); year <= toDate.UTC().Year(); year++ {
 
 		// filenames are astro-YYYY.json
 
diff --git a/cal_day.go b/cal_day.go
index 2315290..ac33f77 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -164,7 +164,7 @@ func GetCalDays(fromDate time.Time, toDate time.Time) []CalDay {
 		cal_days = mergeIntoCalDays(cal_days, d)
 	}
 
-	for year := fromDate.Year(); year <= toDate.Year(); year++ {
+	for year := fromDate.UTC().Year(); year <= toDate.UTC().Year(); year++ {
 		for _, d := range GenerateSolarYear(year) {
 			if d.GetDate().Before(fromDate) || d.GetDate().After(toDate) {
 				continue
-- 
2.43.0


From 7f3c5412c9e6ed9fe4543d678a2b79c1e049a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:02 +0000
Subject: [PATCH 07/14] fix: utils/years-csv.go did not compile, SuriyaYear has
 BE_Year

---
 utils/years-csv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index d59d8b8..57c8b86 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -39,7 +39,7 @@ func yearsCsvSimple(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%s\n",
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.AdhikamasaCyclePos(),
 			dM,
 			su.AdhikavaraCyclePos(),
@@ -159,7 +159,7 @@ func yearsCsv(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf(fmtStr,
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.Kammacubala,
 			su.Avoman,
 			su.Tithi,
-- 
2.43.0


From f96cd6cee05e2e1050af8da16182c12cfed71295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 08/14] fix: Magha Puja doubled or missing when month 3 begins
 before January

NextUposatha decided whether the lunar year has an extra month by the calendar
year of the previous observance day. In some years up to CE 1289 the new moon
of month 3 falls in late December: an extra-month year then had two Magha Pujas
(e.g. 1042), and a year after an extra-month year had none (129 years).
---
 uposatha_moon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uposatha_moon.go b/uposatha_moon.go
index cbfa0af..09d159d 100644
--- a/uposatha_moon.go
+++ b/uposatha_moon.go
@@ -30,8 +30,15 @@ func (last_uposatha UposathaMoon) NextUposatha() UposathaMoon {
 	lu := last_uposatha
 	var nu UposathaMoon // next uposatha
 
+	// The first months of the lunar year may fall before January, they are
+	// already of the next year.
+	year := lu.Date.Year()
+	if lu.LunarMonth <= 4 && lu.Date.Month() >= time.October {
+		year++
+	}
+
 	var su_year SuriyaYear
-	su_year.Init(lu.Date.Year())
+	su_year.Init(year)
 
 	is_adhikamasa_year := su_year.Is_Adhikamasa()
 	is_adhikavara_year := su_year.Is_Adhikavara()
-- 
2.43.0


From 19ccc15d6c41bf8043852b539cea64d020857410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 09/14] fix: close the local file after FSByte has read it

---
 data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data.go b/data.go
index 0306da8..a8fb5be 100644
--- a/data.go
+++ b/data.go
@@ -155,6 +155,7 @@ func FSByte(useLocal bool, name string) ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer f.Close()
 		return ioutil.ReadAll(f)
 	}
 	f, err := _escStatic.prepare(name)
-- 
2.43.0


From ed01ef46e9101144ce227e0f10a44dd3f7d617a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:59 +0000
Subject: [PATCH 10/14] fix: caldays and ical exited 0 when standard output
 could not be written

---
 suriya/suriya.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/suriya/suriya.go b/suriya/suriya.go
index 72196fa..64f0d6a 100644
--- a/suriya/suriya.go
+++ b/suriya/suriya.go
@@ -79,8 +79,9 @@ func actionCalDays(c *cli.Context) error {
 			log.Printf("%v\n", err)
 			os.Exit(1)
 		}
-	} else {
-		fmt.Printf("%s\n", str)
+	} else if _, err = fmt.Printf("%s\n", str); err != nil {
+		log.Printf("%v\n", err)
+		os.Exit(1)
 	}
 
 	return nil
@@ -182,8 +183,9 @@ func actionIcal(c *cli.Context) error {
 			log.Printf("%v\n", err)
 			os.Exit(1)
 		}
-	} else {
-		fmt.Printf("%s", str)
+	} else if _, err := fmt.Printf("%s", str); err != nil {
+		log.Printf("%v\n", err)
+		os.Exit(1)
 	}
 
 	return nil
-- 
2.43.0


From 3ed82e986fc19cd555b3f383505b8ed7602d15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 11/14] fix: utils/years-csv.go exited 0 when the table could
 not be written

---
 utils/years-csv.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index 57c8b86..009ec49 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -192,6 +192,7 @@ func main() {
 	n, err := io.WriteString(file, yearsCsv(1970, 2041))
 	if err != nil {
 		fmt.Println(n, err)
+		os.Exit(1)
 	}
 
 }
-- 
2.43.0


From ffde3f6282efffaaf99fe831c68989b8215bc925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:13 +0000
Subject: [PATCH 12/14] fix: get-astromoons.sh asked eleven times a minute
 where the service allows ten

---
 utils/get-astromoons.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index 5fd2a5a..a6952fd 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -28,7 +28,7 @@ while [ $year -le $to_year ]; do
     echo -n "$year ... "
 
     # Stay under 10 requests per minute
-    if [ $reqPerMin -gt 10 ]; then
+    if [ $reqPerMin -ge 10 ]; then
         d=$(expr `date +%s` - $lastBatchStart)
         # +1s for error
         while [ $d -lt 61 ]; do
-- 
2.43.0


From c9e2cd296ce8c4cc73b27de343ac8c2b2bd782a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:13 +0000
Subject: [PATCH 13/14] fix: get-astromoons.sh said OK to a download that
 failed

---
 utils/get-astromoons.sh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index a6952fd..a76507e 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -40,7 +40,10 @@ while [ $year -le $to_year ]; do
         reqPerMin=0
     fi
 
-    curl -s "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json
+    if ! curl -s "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json; then
+        echo "failed"
+        exit 1
+    fi
     ((year += 1))
     ((reqPerMin += 1))
 
-- 
2.43.0


From 15376a4a7ab3121e31c402e1f4d18854ac206d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:20 +0000
Subject: [PATCH 14/14] fix: name an embedded file by its cleaned path, not by
 the spelling of its first access

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index a8fb5be..f7ee3b4 100644
--- a/data.go
+++ b/data.go
@@ -52,7 +52,7 @@ func (_escStaticFS) prepare(name string) (*_escFile, error) {
 	}
 	var err error
 	f.once.Do(func() {
-		f.name = path.Base(name)
+		f.name = path.Base(path.Clean(name))
 		if f.size == 0 {
 			return
 		}
-- 
2.43.0

