From d98ba1c97153effe9bf2d3823f86e6f7513bafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 01/95] fix: read nan in numerical features as missing

---
 densenumfeature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 7294078..41847ec 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -21,7 +21,7 @@ type DenseNumFeature struct {
 //during data parseing.
 func (f *DenseNumFeature) Append(v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.NumData = append(f.NumData, 0.0)
 		f.Missing = append(f.Missing, true)
 		f.HasMissing = true
@@ -39,7 +39,7 @@ func (f *DenseNumFeature) Less(i int, j int) bool {
 //PutStr parses a string and puts it in the i'th position
 func (f *DenseNumFeature) PutStr(i int, v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.Missing[i] = true
 		f.HasMissing = true
 		return
-- 
2.43.0


From b26d0731bd7b6bd884771bc7197685769051d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 02/95] fix: ParseLibSVM reads a last line without a new line
 and skips blank lines

---
 libsvm.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 06e1c11..2d156c3 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -20,17 +20,21 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 	i := 0
 	ncases := 0
 	for {
-		ncases++
-
-		line, err := reader.ReadString('\n')
-		if err == io.EOF {
-			break
-		} else if err != nil {
-			log.Print("Error:", err)
+		line, rerr := reader.ReadString('\n')
+		if rerr != nil && rerr != io.EOF {
+			log.Print("Error:", rerr)
 			return nil
 		}
 
 		vals := strings.Fields(line)
+		if len(vals) == 0 {
+			//blank line or nothing after the last new line
+			if rerr == io.EOF {
+				break
+			}
+			continue
+		}
+		ncases++
 
 		if i == 0 {
 			name := "0"
@@ -88,6 +92,10 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 		labels = append(labels, label)
 		i++
 
+		if rerr == io.EOF {
+			break
+		}
+
 	}
 
 	fm := &FeatureMatrix{data, lookup, labels}
-- 
2.43.0


From af04d739639580217e0ad1c6c84b43afd49a53df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 03/95] fix: write whole numbered numerical libsvm targets so
 they read back as numerical

---
 libsvm.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 2d156c3..9bc93ac 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -104,6 +104,19 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 
 }
 
+//libSvmTargetStr formats a numerical target value so that it always contains a "." and is
+//recognized as numerical by ParseLibSVM.
+func libSvmTargetStr(target NumFeature, i int) string {
+	if target.IsMissing(i) {
+		return target.GetStr(i)
+	}
+	s := strconv.FormatFloat(target.Get(i), 'f', -1, 64)
+	if !strings.Contains(s, ".") {
+		s += ".0"
+	}
+	return s
+}
+
 func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 	targeti, ok := data.Map[targetn]
 	if !ok {
@@ -133,7 +146,7 @@ func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 		entries := make([]string, 0, 10)
 		switch target.(type) {
 		case NumFeature:
-			entries = append(entries, target.GetStr(i))
+			entries = append(entries, libSvmTargetStr(target.(NumFeature), i))
 		case CatFeature:
 			entries = append(entries, fmt.Sprintf("%v", target.(CatFeature).Geti(i)))
 		}
@@ -190,7 +203,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 		entries := make([]string, 0, 10)
 		switch target.(type) {
 		case NumFeature:
-			entries = append(entries, fmt.Sprintf("%g", target.(NumFeature).Get(i)))
+			entries = append(entries, libSvmTargetStr(target.(NumFeature), i))
 		case CatFeature:
 			entries = append(entries, fmt.Sprintf("%v", target.(CatFeature).Geti(i)))
 		}
-- 
2.43.0


From 3486c2e65f11fcdb8a6e28bb93379ef78e2be021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 04/95] fix: WriteLibSvmCases imputes copies instead of the
 data being written

---
 libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index 9bc93ac..3422a7a 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -184,7 +184,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-			noTargetFm.Data = append(noTargetFm.Data, f)
+			noTargetFm.Data = append(noTargetFm.Data, f.Copy())
 
 		}
 	}
-- 
2.43.0


From d0108f51499284f2289809cc2a2eb500d5feb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 05/95] fix: copies of numerical features keep the missing
 values flag

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 41847ec..96ef4d9 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -644,7 +644,7 @@ func (f *DenseNumFeature) Copy() Feature {
 		nil,
 		make([]bool, capacity),
 		f.Name,
-		false}
+		f.HasMissing}
 
 	copy(fake.Missing, f.Missing)
 
-- 
2.43.0


From a1521ff2f2a3030e91b4b274077e99d19173b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 06/95] fix: DenseCatFeature.PutStr of a missing marker leaves
 the case missing

---
 densecatfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index bdd806b..1d2db96 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -147,6 +147,7 @@ func (f *DenseCatFeature) PutStr(i int, v string) {
 	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {
 		f.Missing[i] = true
 		f.HasMissing = true
+		return
 	}
 	vi := f.CatToNum(v)
 	f.CatData[i] = vi
-- 
2.43.0


From 96f76b766ebbb09fe9a86a4e02c2704f2f4e852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 07/95] fix: copies of categorical features get their own
 category map

---
 densecatfeature.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 1d2db96..cdd779b 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1194,9 +1194,15 @@ func (f *DenseCatFeature) ShuffledCopy() Feature {
 /*Copy returns a copy of f.*/
 func (f *DenseCatFeature) Copy() Feature {
 	capacity := len(f.Missing)
+	catmap := &CatMap{make(map[string]int, len(f.Map)),
+		make([]string, len(f.Back))}
+	for k, v := range f.Map {
+		catmap.Map[k] = v
+	}
+	copy(catmap.Back, f.Back)
+
 	fake := &DenseCatFeature{
-		&CatMap{f.Map,
-			f.Back},
+		catmap,
 		nil,
 		make([]bool, capacity),
 		f.Name,
-- 
2.43.0


From c9073707a2f82a805f535375df20b9fb5f9f8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 08/95] fix: CopyInTo copies the missing values flag with the
 missing state

---
 densecatfeature.go | 1 +
 densenumfeature.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index cdd779b..1fd2b05 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1223,6 +1223,7 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 
 	copy(copyf.(*DenseCatFeature).Missing, f.Missing)
 	copy(copyf.(*DenseCatFeature).CatData, f.CatData)
+	copyf.(*DenseCatFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
diff --git a/densenumfeature.go b/densenumfeature.go
index 96ef4d9..c5426f2 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -658,6 +658,7 @@ func (f *DenseNumFeature) Copy() Feature {
 func (f *DenseNumFeature) CopyInTo(copyf Feature) {
 	copy(copyf.(*DenseNumFeature).Missing, f.Missing)
 	copy(copyf.(*DenseNumFeature).NumData, f.NumData)
+	copyf.(*DenseNumFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
-- 
2.43.0


From f4b5b3f0bc003c1d0be99d755c25503468ee6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 09/95] fix: encoded features do not share missing state with
 the original

---
 densecatfeature.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 1fd2b05..958ea0e 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -30,7 +30,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	if f.NCats() <= 2 {
 		fn := &DenseNumFeature{
 			make([]float64, l, l),
-			f.Missing,
+			append([]bool(nil), f.Missing...),
 			f.Name,
 			f.HasMissing}
 		for i, v := range f.CatData {
@@ -42,7 +42,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 		for j, sv := range f.Back {
 			fn := &DenseNumFeature{
 				make([]float64, l, l),
-				f.Missing,
+				append([]bool(nil), f.Missing...),
 				f.Name + "==" + sv,
 				f.HasMissing}
 			for i, v := range f.CatData {
@@ -65,7 +65,7 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 				&CatMap{map[string]int{"false": 0, "true": 1},
 					[]string{"false", "true"}},
 				make([]int, l, l),
-				f.Missing,
+				append([]bool(nil), f.Missing...),
 				f.Name + "==" + sv,
 				f.RandomSearch,
 				f.HasMissing}
-- 
2.43.0


From deabacd57875c546fe338b3817848a47167fd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 10/95] fix: OneHot keeps features with two or fewer categories

---
 densecatfeature.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index 958ea0e..39e9798 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -77,6 +77,8 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 			}
 			fs = append(fs, fn)
 		}
+	} else {
+		fs = []Feature{f.Copy()}
 	}
 	return
 }
-- 
2.43.0


From e715ce5c76ff10267e23aa2e400f9019a9b8e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 11/95] fix: StripStrings maps each category label to its own
 number

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 282b651..65f6ec8 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -51,7 +51,7 @@ func (fm *FeatureMatrix) StripStrings(target string) {
 			for j, v := range f.(*DenseCatFeature).Back {
 				v = fmt.Sprintf("%v", j)
 				f.(*DenseCatFeature).Back[j] = v
-				f.(*DenseCatFeature).Map[v] = i
+				f.(*DenseCatFeature).Map[v] = j
 
 			}
 
-- 
2.43.0


From 02d6207cdf864eba1147900aa97db58d7a669af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 12/95] fix: DEntropyTarget.Impurity applies the costs as the
 incremental update does

---
 dentropytarget.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index ace7e78..d292d28 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -117,18 +117,8 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 //is the number of cases with the j'th category over the total number of cases.
 func (target *DEntropyTarget) Impurity(cases *[]int, counts *[]int) (e float64) {
 
-	total := len(*cases)
 	target.CountPerCat(cases, counts)
-
-	p := 0.0
-	for _, i := range *counts {
-		if i > 0 {
-			p = float64(i) / float64(total)
-			e -= p * math.Log(p)
-		}
-
-	}
-
+	e = target.ImpFromCounts(len(*cases), counts)
 	return
 
 }
-- 
2.43.0


From 6b26f5bf9fc9208d86f9b787bb5090b2eacef8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 13/95] fix: DenseNumFeature.Span measures the span instead of
 always returning zero

---
 densenumfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index c5426f2..3710f8c 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -560,6 +560,7 @@ func (f *DenseNumFeature) Span(cases *[]int, counter *[]int) (span float64) {
 			if first {
 				min = val
 				max = val
+				first = false
 				continue
 			}
 			switch {
-- 
2.43.0


From 440a5bd9044ba93fd6b2347479f84785f5acac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 14/95] fix: BestNumSplit considers splits leaving exactly the
 leaf size on the right

---
 densenumfeature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 3710f8c..992d3e4 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -304,7 +304,8 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 		lastsplit := 0
 		var innerimp float64
-		stop := (ncases - leafSize)
+		//the last split to consider leaves exactly leafSize cases on the right
+		stop := (ncases - leafSize) + 1
 		constant = (sortedData[0] + constant_cutoff) >= sortedData[ncases-1]
 		if constant {
 			impurityDecrease = minImp
-- 
2.43.0


From 49f7aa12ba2428516c58deab95c2003921d7d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 15/95] fix: missing values do not distort the gain of targets
 that score splits directly

---
 densecatfeature.go | 7 ++++++-
 densenumfeature.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 39e9798..3a7dae7 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -222,7 +222,12 @@ func (f *DenseCatFeature) BestSplit(target Target,
 	}
 
 	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
-		impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
+		if parentImp < 0 {
+			//the target scores splits directly and there are no impurities to correct
+			impurityDecrease *= float64(nonmissing) / float64(total)
+		} else {
+			impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
+		}
 	}
 	return
 
diff --git a/densenumfeature.go b/densenumfeature.go
index 992d3e4..af0ed4b 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -264,7 +264,12 @@ func (f *DenseNumFeature) BestSplit(target Target,
 	codedSplit, impurityDecrease, constant = f.BestNumSplit(target, tosplit, nonmissingparentImp, leafSize, randomSplit, allocs)
 
 	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
-		impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
+		if parentImp < 0 {
+			//the target scores splits directly and there are no impurities to correct
+			impurityDecrease *= float64(nonmissing) / float64(total)
+		} else {
+			impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
+		}
 	}
 	return
 
-- 
2.43.0


From 280c02021a8000542c581dfac00eedb8acca5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 16/95] fix: balanced samplers do not fail on classes or
 combinations without cases

---
 sampeling.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sampeling.go b/sampeling.go
index de4afbb..1bf1553 100644
--- a/sampeling.go
+++ b/sampeling.go
@@ -28,9 +28,21 @@ func NewBalancedSampler(catf *DenseCatFeature) (s *BalancedSampler) {
 			s.Cases[v] = append(s.Cases[v], i)
 		}
 	}
+	s.Cases = nonEmpty(s.Cases)
 	return
 }
 
+//nonEmpty returns the classes that have cases to draw, in order.
+func nonEmpty(classes [][]int) [][]int {
+	kept := classes[0:0]
+	for _, cases := range classes {
+		if len(cases) > 0 {
+			kept = append(kept, cases)
+		}
+	}
+	return kept
+}
+
 //Sample samples n integers in a balnced-with-replacment fashion into the provided array.
 func (s *BalancedSampler) Sample(samples *[]int, n int) {
 	(*samples) = (*samples)[0:0]
@@ -73,6 +85,9 @@ func NewSecondaryBalancedSampler(target *DenseCatFeature, balanceby *DenseCatFea
 			s.Samplers[balanceCat][targetCat] = append(s.Samplers[balanceCat][targetCat], i)
 		}
 	}
+	for i := range s.Samplers {
+		s.Samplers[i] = nonEmpty(s.Samplers[i])
+	}
 	return
 
 }
-- 
2.43.0


From 8c6b50d35d9dd505c43769f5873d3d45f3b7563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 17/95] fix: MeanAndVar keeps its precision when values are far
 from zero

---
 stats/stats.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 240c39d..3e55211 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -12,11 +12,14 @@ import (
 func MeanAndVar(X *[]float64) (m, v, n float64) {
 	for _, x := range *X {
 		m += x
-		v += x * x
 	}
 	n = float64(len(*X))
 	m /= n
-	v -= n * m * m
+	//sum the squared deviations in a second pass, the difference of sums looses all
+	//precision when the mean is large compared to the spread.
+	for _, x := range *X {
+		v += (x - m) * (x - m)
+	}
 	v /= (n - 1.0)
 	return
 }
-- 
2.43.0


From 91037b1a1e3ecbe6d3c557b3e1e320298ce1d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 18/95] fix: NewBestSplitAllocs accepts targets that are not
 features

---
 splitallocations.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/splitallocations.go b/splitallocations.go
index 337567b..b7d9dad 100644
--- a/splitallocations.go
+++ b/splitallocations.go
@@ -42,6 +42,11 @@ func NewBestSplitAllocs(nTotalCases int, target Target) (bsa *BestSplitAllocs) {
 	counter := make([]int, target.NCats())
 	lcounter := make([]int, target.NCats())
 	rcounter := make([]int, target.NCats())
+	//targets that aren't features, like DensityTarget, have no values to permute
+	var contrast Target
+	if feature, ok := target.(Feature); ok {
+		contrast = feature.Copy().(Target)
+	}
 	bsa = &BestSplitAllocs{make([]int, 0, nTotalCases),
 		make([]int, 0, nTotalCases),
 		make([]int, 0, nTotalCases),
@@ -66,7 +71,7 @@ func NewBestSplitAllocs(nTotalCases int, target Target) (bsa *BestSplitAllocs) {
 		make([]float64, nTotalCases, nTotalCases),
 		&SortableFeature{make([]float64, nTotalCases, nTotalCases),
 			nil},
-		target.(Feature).Copy().(Target),
+		contrast,
 		rand.New(rand.NewSource(rand.Int63())),
 	}
 	return
-- 
2.43.0


From 89ded5fc4c72e78f177cab33e146d5be7722f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 19/95] fix: Ttest p values are right for many degrees of
 freedom

---
 stats/stats.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 3e55211..b82132d 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -52,11 +52,14 @@ func Ttest(A, B *[]float64) (p, t, v, am float64) {
 	integral := 0.0
 
 	// Comment from rf-ace:
-	// When ttrans > 0.9, we need to recast the integration in order to retain
+	// When ttrans is large, we need to recast the integration in order to retain
 	// accuracy. In other words we make use of the following identity:
 	//
 	// I(x,a,b) = 1 - I(1-x,b,a)
-	if ttrans > 0.9 {
+	//
+	// The continued fraction converges quickly for x < (a+1)/(a+b+2) only, a fixed threshold
+	// gives p values outside of [0,1] for large t and many degrees of freedom.
+	if ttrans > (v/2+1)/(v/2+2.5) {
 		// Calculate I(x,a,b) as 1 - I(1-x,b,a)
 		integral = 1 - regularizedIncompleteBeta(1-ttrans, 0.5, v/2)
 
-- 
2.43.0


From 4a3738632b64a46f057f1f0c7718d3cfc47fb57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 20/95] fix: ForestWriter writes the missing branch instead of
 a copy of the right branch

---
 forestwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestwriter.go b/forestwriter.go
index 8009459..59a8ebd 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -68,7 +68,7 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 		fw.WriteNodeAndChildren(n.Right, path+"R")
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"M")
+		fw.WriteNodeAndChildren(n.Missing, path+"M")
 	}
 
 }
-- 
2.43.0


From 682233cc78ffa4870522ba219e046d21d844993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 21/95] fix: names and labels with commas, equals signs and
 blanks survive saving to .sf

---
 forestreader.go | 40 +++++++++++++++++++---------------------
 forestwriter.go |  8 ++++++--
 2 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index a28025a..89d09fb 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -162,37 +162,35 @@ and returns a map[string]string of the key value pairs.
 */
 func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 	clauses := make([]string, 0)
-	insidequotes := make([]string, 0)
-	terms := strings.Split(strings.TrimSpace(line), ",")
-	for _, term := range terms {
-		term = strings.TrimSpace(term)
-		quotes := strings.Count(term, "\"")
-		//if quotes have been opend join terms
-		if quotes == 1 || len(insidequotes) > 0 {
-			insidequotes = append(insidequotes, term)
-		} else {
-			//If the term doesn't have an = in it join it to the last term
-			if strings.Count(term, "=") == 0 {
-				clauses[len(clauses)-1] += "," + term
-			} else {
-				clauses = append(clauses, term)
-			}
+	line = strings.TrimSpace(line)
+	insidequotes := false
+	start := 0
+	for i := 0; i <= len(line); i++ {
+		if i < len(line) && line[i] == '"' {
+			insidequotes = !insidequotes
 		}
-		//quotes were closed
-		if quotes == 1 && len(insidequotes) > 1 {
-			clauses = append(clauses, strings.Join(insidequotes, ","))
-			insidequotes = make([]string, 0)
+		//terms end at the commas outside of quotes and at the end of the line
+		if i < len(line) && (line[i] != ',' || insidequotes) {
+			continue
+		}
+		term := strings.TrimSpace(line[start:i])
+		start = i + 1
+		//If the term doesn't have an = in it join it to the last term
+		if !strings.Contains(term, "=") && len(clauses) > 0 {
+			clauses[len(clauses)-1] += "," + term
+		} else {
+			clauses = append(clauses, term)
 		}
-
 	}
 	parsed := make(map[string]string, 0)
 	for _, clause := range clauses {
-		vs := strings.Split(clause, "=")
+		vs := strings.SplitN(clause, "=", 2)
 		for i, v := range vs {
 			vs[i] = strings.Trim(strings.TrimSpace(v), "\"")
 		}
 		if len(vs) != 2 {
 			fmt.Println("Parser Choked on : \"", line, "\"")
+			continue
 		}
 		parsed[vs[0]] = vs[1]
 	}
diff --git a/forestwriter.go b/forestwriter.go
index 59a8ebd..5ce261a 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -79,11 +79,15 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 func (fw *ForestWriter) WriteNode(n *Node, path string) {
 	node := fmt.Sprintf("NODE=%v", path)
 	if n.Pred != "" {
-		node += fmt.Sprintf(",PRED=%v", n.Pred)
+		pred := n.Pred
+		if strings.ContainsAny(pred, ",=") {
+			pred = "\"" + pred + "\""
+		}
+		node += fmt.Sprintf(",PRED=%v", pred)
 	}
 
 	if n.Splitter != nil {
-		node += fmt.Sprintf(",SPLITTER=%v", n.Splitter.Feature)
+		node += fmt.Sprintf(",SPLITTER=\"%v\"", n.Splitter.Feature)
 		switch n.Splitter.Numerical {
 		case true:
 			node += fmt.Sprintf(",SPLITTERTYPE=NUMERICAL,LVALUES=%v,RVALUES=%v", n.Splitter.Value, n.Splitter.Value)
-- 
2.43.0


From 7f1a36e9eca65ffa239d39f75ab23e54c84e8835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 22/95] fix: ForestReader reads a last line without a new line

---
 forestreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index 89d09fb..147f0f5 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -83,7 +83,8 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 		}
 
 		line, err = fr.br.ReadString('\n')
-		if err != nil {
+		//the last line may not end with a new line
+		if err != nil && line == "" {
 			return
 		}
 		parsed := fr.ParseRfAcePredictorLine(line)
-- 
2.43.0


From 08b2efbdf41467ace525434dc921f2e801196216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 23/95] fix: growing into a used tree does not leave old
 branches below new leaves

---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index c01f024..fac0e3d 100644
--- a/tree.go
+++ b/tree.go
@@ -156,6 +156,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 					n.Left = new(Node)
 					n.Right = new(Node)
 				}
+				n.Missing = nil
 				if splitmissing {
 					n.Missing = new(Node)
 				}
@@ -169,6 +170,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 		split = nil
 		n.CodedSplit = nil
 		n.Splitter = nil
+		n.Left, n.Right, n.Missing = nil, nil, nil
 		n.Pred = target.FindPredicted(*innercases)
 		return
 
@@ -246,6 +248,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					n.Right = new(Node)
 					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
 
+					n.Missing = nil
 					if splitmissing {
 						n.Missing = new(Node)
 						if li != ri {
@@ -262,6 +265,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			split = nil
 			n.CodedSplit = nil
 			n.Splitter = nil
+			n.Left, n.Right, n.Missing = nil, nil, nil
 			n.Pred = target.FindPredicted(innercases)
 			continue
 
-- 
2.43.0


From 4c7b9f57ea36c7c3e99971f8fe0992419be90daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 24/95] fix: trees grown by GrowRandomForest know their target
 so it is saved with them

---
 forrest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forrest.go b/forrest.go
index fd6aab9..1965d53 100644
--- a/forrest.go
+++ b/forrest.go
@@ -58,6 +58,7 @@ func GrowRandomForest(fm *FeatureMatrix,
 		cases := SampleWithReplacment(nSamples, nCases)
 
 		f.Trees = append(f.Trees, NewTree())
+		f.Trees[i].Target = f.Target
 		f.Trees[i].Grow(fm, target, cases, candidates, nil, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
 		switch target.(type) {
 		case BoostingTarget:
-- 
2.43.0


From 062eb042d03a038257c5ae7d468e6b3a571bbb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 25/95] fix: CatBallotBox.TallyError averages over the classes
 that have cases

---
 catballotbox.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index ad15fa1..f644dc7 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -107,11 +107,16 @@ func (bb *CatBallotBox) TallyError(feature Feature) (e float64) {
 		}
 	}
 
+	//categories without known cases have no error rate
+	present := 0
 	for i, ncorrect := range correct {
-		e += float64(ncorrect) / float64(total[i])
+		if total[i] > 0 {
+			e += float64(ncorrect) / float64(total[i])
+			present++
+		}
 	}
 
-	e /= float64(ncats)
+	e /= float64(present)
 	e = 1.0 - e
 
 	return
-- 
2.43.0


From f3a32e3ff188b0e275bf193cebbf4ffc82d61202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 26/95] fix: tied categorical votes are tallied the same way
 every time

---
 catballotbox.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/catballotbox.go b/catballotbox.go
index f644dc7..d46fe49 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -56,7 +56,8 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	votes := 0.0
 	bb.Box[i].Mutex.Lock()
 	for k, v := range bb.Box[i].Map {
-		if v > votes {
+		//ties go to the category voted for first instead of depending on map order
+		if v > votes || (v == votes && k < predictedn) {
 			predictedn = k
 			votes = v
 
-- 
2.43.0


From 7636ef0ce8ad57df8c92ad486dfc8f3ed3c3ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 27/95] fix: cases without votes are not counted as predicted
 to be zero

---
 numballotbox.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numballotbox.go b/numballotbox.go
index c0b5583..c3a5d11 100644
--- a/numballotbox.go
+++ b/numballotbox.go
@@ -63,8 +63,8 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	d := 0.0
 	c := 0
 	for i := 0; i < feature.Length(); i++ {
-		predicted := bb.TallyNum(i)
-		if !feature.IsMissing(i) && !math.IsNaN(predicted) {
+		predicted, votes := bb.box[i].Read()
+		if !feature.IsMissing(i) && votes > 0 && !math.IsNaN(predicted) {
 			value := feature.(NumFeature).Get(i)
 
 			d = float64(value) - predicted
-- 
2.43.0


From 4f50d63f1b46887ae061088f673d54e7ba024614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 28/95] fix: RunningMean is not turned into NaN by a zero
 weight

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 14a59ff..d67ba45 100644
--- a/utils.go
+++ b/utils.go
@@ -31,7 +31,7 @@ func (rm *RunningMean) Add(val float64) {
 
 //WeightedAdd add's the specified value to the running mean in a thread safe way.
 func (rm *RunningMean) WeightedAdd(val float64, weight float64) {
-	if !math.IsNaN(val) && !math.IsNaN(weight) {
+	if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0.0 {
 		rm.mutex.Lock()
 		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
 		rm.Count += weight
-- 
2.43.0


From 74a18d987cf526e01a1e66b3b326a538e9a6a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 29/95] fix: ReadForest reports the error that ends reading
 early

---
 forestreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index 147f0f5..06a5795 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -62,7 +62,7 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 			return forest, nil
 		}
 		if e != nil {
-			return
+			return forest, e
 		}
 
 	}
-- 
2.43.0


From cc14038dbc9eef094192f8311012653d1e0f0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 30/95] fix: no missing branch without a prediction is grown
 when no case is missing

---
 tree.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tree.go b/tree.go
index fac0e3d..c9d98d8 100644
--- a/tree.go
+++ b/tree.go
@@ -158,7 +158,13 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 				}
 				n.Missing = nil
 				if splitmissing {
-					n.Missing = new(Node)
+					//without missing cases there is nothing to learn a prediction for a branch from
+					for _, c := range *innercases {
+						if fm.Data[fi].IsMissing(c) {
+							n.Missing = new(Node)
+							break
+						}
+					}
 				}
 				return
 			}
@@ -249,11 +255,9 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
 
 					n.Missing = nil
-					if splitmissing {
+					if splitmissing && li != ri {
 						n.Missing = new(Node)
-						if li != ri {
-							nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
-						}
+						nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
 					}
 
 					continue
-- 
2.43.0


From b46ee3ac4e8f947c459c90439c27f113ef3cd9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 31/95] fix: adaptive boosting targets satisfy BoostingTarget

---
 adaboosttarget.go       | 2 +-
 adacosttarget.go        | 2 +-
 numadaboostingtarget.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 8877fa6..f9ab1f4 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -112,7 +112,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index 606fede..bbac780 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -128,7 +128,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaCostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index ed5be91..150aede 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -77,7 +77,7 @@ func (target *NumAdaBoostTarget) Impurity(cases *[]int, counter *[]int) (e float
 //
 //These functions are chosen to provide a rough analog to catagorical adaptive boosting for
 //numerical data with unbounded error.
-func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	if len(*leaves) == 0 {
 		return 0.0
 	}
-- 
2.43.0


From 89ddd98a65b0f65353ad6ea00c2d30241f99be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 32/95] fix: adaptive boosting weights stay finite for perfect
 trees and large errors

---
 adaboosttarget.go       |  7 +++++++
 adacosttarget.go        |  3 +++
 numadaboostingtarget.go | 24 +++++++++++++++++++++++-
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index f9ab1f4..ec8b80f 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -4,6 +4,10 @@ import (
 	"math"
 )
 
+//minBoostError is the smallest error used to calculate the weight of a tree so that trees that
+//make no errors get a large but finite weight.
+const minBoostError = 1e-16
+
 /*
 AdaBoostTarget wraps a numerical feature as a target for us in Adaptive Boosting (AdaBoost)
 
@@ -121,6 +125,9 @@ func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64
 	if weight >= .5 {
 		return 0.0
 	}
+	if weight < minBoostError {
+		weight = minBoostError
+	}
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index bbac780..e37bb23 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -137,6 +137,9 @@ func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64)
 	if weight >= .5 {
 		return 0.0
 	}
+	if weight < minBoostError {
+		weight = minBoostError
+	}
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for _, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index 150aede..79dfef6 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -91,19 +91,41 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 	if imp > norm {
 		return 0.0
 	}
+	if norm == 0 {
+		//all values are the same so every tree is right
+		return 1.0
+	}
+	if imp < minBoostError*norm {
+		imp = minBoostError * norm
+	}
 
 	weight = math.Log(norm / imp)
 
+	exponents := make([]float64, len(t.Weights))
 	for _, cases := range *leaves {
 		m := t.Predicted(&cases)
 		for _, c := range cases {
 			if t.IsMissing(c) == false {
-				t.Weights[c] = t.Weights[c] * math.Exp(weight*(t.Norm(c, m)-imp))
+				exponents[c] = weight * (t.Norm(c, m) - imp)
 			}
 
 		}
 	}
 
+	//The weights are normalized below so only differences between the exponents matter and
+	//subtracting the largest one keeps the weights finite.
+	max := math.Inf(-1)
+	for i, v := range exponents {
+		if v > max && t.Weights[i] > 0 {
+			max = v
+		}
+	}
+	for i, v := range exponents {
+		if t.Weights[i] > 0 {
+			t.Weights[i] = t.Weights[i] * math.Exp(v-max)
+		}
+	}
+
 	normfactor := 0.0
 	for _, v := range t.Weights {
 		normfactor += v
-- 
2.43.0


From b7345a3466db92e4b485118a7e6b7b76c4cc678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 33/95] fix: cases with a missing target are not counted as
 boosting errors

---
 adaboosttarget.go | 16 ++++++++++++++++
 adacosttarget.go  |  1 +
 2 files changed, 17 insertions(+)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index ec8b80f..dd40219 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -8,6 +8,21 @@ import (
 //make no errors get a large but finite weight.
 const minBoostError = 1e-16
 
+//knownCases returns the leaves without the cases for which the target is missing.
+func knownCases(leaves *[][]int, target CatFeature) *[][]int {
+	known := make([][]int, 0, len(*leaves))
+	for _, cases := range *leaves {
+		leaf := make([]int, 0, len(cases))
+		for _, c := range cases {
+			if !target.IsMissing(c) {
+				leaf = append(leaf, c)
+			}
+		}
+		known = append(known, leaf)
+	}
+	return &known
+}
+
 /*
 AdaBoostTarget wraps a numerical feature as a target for us in Adaptive Boosting (AdaBoost)
 
@@ -118,6 +133,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 //returns the weight that tree that generated the partition should be given.
 func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
+	leaves = knownCases(leaves, t)
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
 		weight += t.Impurity(&cases, &counter)
diff --git a/adacosttarget.go b/adacosttarget.go
index e37bb23..681511c 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -130,6 +130,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 //returns the weight that tree that generated the partition should be given.
 func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
+	leaves = knownCases(leaves, t)
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
 		weight += t.Impurity(&cases, &counter)
-- 
2.43.0


From 44f46e95261a5067fb81f7ccff79606aa2af6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 34/95] fix: gradient boosting leaves missing target values
 missing

---
 gradboostclasstarget.go | 24 +++++++++++++++++-------
 gradboosttarget.go      | 14 ++++++++++----
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index 64833be..e0ed0e7 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -40,7 +40,9 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	pred := actual.Copy().(*DenseNumFeature)
 	// Make sure the encoding has the positive class as 1
 	for i := 0; i < f.Length(); i++ {
-		if f.GetStr(i) == pos_class {
+		if f.IsMissing(i) {
+			actual.PutMissing(i)
+		} else if f.GetStr(i) == pos_class {
 			actual.Put(i, 1.0)
 		} else {
 			actual.Put(i, 0.0)
@@ -51,17 +53,23 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	res := &GradBoostTarget{actual.Copy().(*DenseNumFeature), learnrate, 0.0}
 
 	pos := 0.0
+	known := 0.0
 	for i := 0; i < actual.Length(); i++ {
-		pos += actual.Get(i)
+		if !actual.IsMissing(i) {
+			pos += actual.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := math.Log(pos / (float64(res.Length()) - pos))
+	prior := math.Log(pos / (known - pos))
 
 	for i := 0; i < res.Length(); i++ {
 		pred.Put(i, prior)
-		v := actual.Get(i) - Expit(prior)
-		res.Put(i, v)
+		if !actual.IsMissing(i) {
+			v := actual.Get(i) - Expit(prior)
+			res.Put(i, v)
+		}
 	}
 
 	//fmt.Println(res.Copy().(*DenseNumFeature).NumData)
@@ -113,8 +121,10 @@ func (f *GradBoostClassTarget) Update(cases *[]int, predicted float64) {
 		pred := f.Pred.Get(i) + f.LearnRate*predicted
 		f.Pred.Put(i, pred)
 
-		g := f.Actual.Get(i) - Expit(pred)
-		f.Put(i, g)
+		if !f.IsMissing(i) {
+			g := f.Actual.Get(i) - Expit(pred)
+			f.Put(i, g)
+		}
 
 	}
 }
diff --git a/gradboosttarget.go b/gradboosttarget.go
index 98cfee6..3554808 100644
--- a/gradboosttarget.go
+++ b/gradboosttarget.go
@@ -17,16 +17,22 @@ func NewGradBoostTarget(f NumFeature, learnrate float64) (gbc *GradBoostTarget)
 
 	//res := NumFeature.(*DenseNumFeature).Copy().(*DenseNumFeature)
 	sum := 0.0
+	known := 0
 	for i := 0; i < f.Length(); i++ {
-		sum += f.Get(i)
+		if !f.IsMissing(i) {
+			sum += f.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := sum / float64(f.Length())
+	prior := sum / float64(known)
 
 	for i := 0; i < f.Length(); i++ {
-		v := f.Get(i) - prior
-		f.Put(i, v)
+		if !f.IsMissing(i) {
+			v := f.Get(i) - prior
+			f.Put(i, v)
+		}
 	}
 
 	//fmt.Println(res.Copy().(*DenseNumFeature).NumData)
-- 
2.43.0


From 62d3cba029a8d6c9a537e8ee4501a51581121c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 35/95] fix: GrowRandomForest does not learn from cases with a
 missing target

---
 forrest.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/forrest.go b/forrest.go
index 1965d53..495324c 100644
--- a/forrest.go
+++ b/forrest.go
@@ -53,9 +53,20 @@ func GrowRandomForest(fm *FeatureMatrix,
 	//Slices for reuse during search for best splitter.
 	allocs := NewBestSplitAllocs(nSamples, target)
 
+	//Cases with a missing target can't be learned from.
+	known := make([]int, 0, fm.Data[0].Length())
+	feature, isfeature := target.(Feature)
+	for i := 0; i < fm.Data[0].Length(); i++ {
+		if !isfeature || !feature.IsMissing(i) {
+			known = append(known, i)
+		}
+	}
+
 	for i := 0; i < nTrees; i++ {
-		nCases := fm.Data[0].Length()
-		cases := SampleWithReplacment(nSamples, nCases)
+		cases := SampleWithReplacment(nSamples, len(known))
+		for j, c := range cases {
+			cases[j] = known[c]
+		}
 
 		f.Trees = append(f.Trees, NewTree())
 		f.Trees[i].Target = f.Target
-- 
2.43.0


From 35cc80f0969f6e2351b688f1e70d42166f314bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 36/95] fix: minimal depth counts features split at the root

A depth of 0 was taken for not used, so splits at the root were
overwritten by deeper ones or left out of the tree used count.
---
 growforest/growforest.go | 7 +++++--
 tree.go                  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 4f3ae28..81001b0 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -613,6 +613,9 @@ func main() {
 				var depthUsed *[]int
 				if mmdpnt != nil {
 					du := make([]int, len(data.Data))
+					for i := range du {
+						du[i] = -1
+					}
 					depthUsed = &du
 				}
 
@@ -669,9 +672,9 @@ func main() {
 					}
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
-							if v != 0 {
+							if v >= 0 {
 								(*mmdpnt)[i].Add(float64(v))
-								(*depthUsed)[i] = 0
+								(*depthUsed)[i] = -1
 							}
 
 						}
diff --git a/tree.go b/tree.go
index c9d98d8..db7400c 100644
--- a/tree.go
+++ b/tree.go
@@ -92,6 +92,9 @@ leafSize specifies the minimum number of cases at a leafNode.
 splitmissing indicates if missing values should be split onto a third branch
 
 vet indicates if splits should be penalized against a randomized version of them selves
+
+depthUsed records the depth of the shallowest split on each feature. Its entries should be negative
+for features that haven't been used yet.
 */
 func (t *Tree) Grow(fm *FeatureMatrix,
 	target Target,
@@ -142,7 +145,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 				if importance != nil {
 					(*importance)[fi].Add(impDec)
 				}
-				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
+				if depthUsed != nil && ((*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]) {
 					(*depthUsed)[fi] = depth
 				}
 				//not a leaf node so define the splitter and left and right nodes
@@ -233,7 +236,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					if importance != nil {
 						(*importance)[fi].Add(impDec)
 					}
-					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
+					if depthUsed != nil && ((*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]) {
 						(*depthUsed)[fi] = depth
 					}
 
-- 
2.43.0


From 196c7051ca6902eda30da64f15e2680cb9af7bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 37/95] fix: with -selftest or -test the last tree overwrote
 the second to last one

---
 growforest/growforest.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 81001b0..c3e51cf 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -716,11 +716,9 @@ func main() {
 					if dotest && foresti == nForest-1 {
 						trees = append(trees, tree)
 
-						if treesStarted < nTrees-1 {
-							//newtree := new(CloudForest.Tree)
-							tree = CloudForest.NewTree()
-							tree.Target = *targetname
-						}
+						//don't grow the next tree into one that has been kept
+						tree = CloudForest.NewTree()
+						tree.Target = *targetname
 					}
 					if progress {
 						treesFinished++
-- 
2.43.0


From 763c2202601245ee860fdea4c6750dfa848ff818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 38/95] fix: growing with more cores than trees grew a tree per
 core

---
 growforest/growforest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index c3e51cf..11fa499 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -205,6 +205,11 @@ func main() {
 		nCores = 1
 	}
 
+	//every core grows at least one tree
+	if nCores > nTrees {
+		nCores = nTrees
+	}
+
 	if nCores > 1 {
 
 		runtime.GOMAXPROCS(nCores)
-- 
2.43.0


From 2a09f71b0dbdead416e02cf73157486680a5d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 39/95] fix: testing panicked when a predicted label is not in
 the testing data

---
 growforest/growforest.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 11fa499..b4e4532 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -948,6 +948,13 @@ func main() {
 					nas++
 				} else {
 					predi := testtarget.(*CloudForest.DenseCatFeature).CatToNum(pred)
+					if predi == len(predtotals) {
+						//the training data had a label that the testing data don't
+						falsesbypred = append(falsesbypred, 0)
+						predtotals = append(predtotals, 0)
+						truebytrue = append(truebytrue, 0)
+						truetotals = append(truetotals, 0)
+					}
 					predtotals[predi]++
 					if pred == testtarget.GetStr(i) {
 						correct++
-- 
2.43.0


From 5b253508a0f4e99b29df58988752e8422427628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 40/95] fix: testing counted cases without a known label as the
 first category

---
 growforest/growforest.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index b4e4532..fa8fa66 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -939,8 +939,12 @@ func main() {
 
 			correct := 0
 			nas := 0
-			length := testtarget.Length()
-			for i := 0; i < length; i++ {
+			length := 0
+			for i := 0; i < testtarget.Length(); i++ {
+				if testtarget.IsMissing(i) {
+					continue
+				}
+				length++
 				truei := testtarget.(*CloudForest.DenseCatFeature).Geti(i)
 				truetotals[truei]++
 				pred := bb.Tally(i)
-- 
2.43.0


From 7ad4515889477f207c3a74acee3f0882a0a6f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 41/95] fix: -nobag skipped cases at the end of data with
 missing target values

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index fa8fa66..1ad8d58 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -608,7 +608,7 @@ func main() {
 				oobcases := make([]int, 0, nNonMissing)
 
 				if nobag {
-					for i := 0; i < nNonMissing; i++ {
+					for i := 0; i < targetf.Length(); i++ {
 						if !targetf.IsMissing(i) {
 							cases = append(cases, i)
 						}
-- 
2.43.0


From 482a37210edd162bf458e5686fb9a9f77703c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 42/95] fix: -vet with -evaloob panicked when the samples are
 smaller than the out of bag set

---
 growforest/growforest.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 1ad8d58..04c29fa 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -624,7 +624,12 @@ func main() {
 					depthUsed = &du
 				}
 
-				allocs := CloudForest.NewBestSplitAllocs(nSamples, targetf)
+				//vet with evaloob searches the out of bag cases too
+				nAlloc := nSamples
+				if nAlloc < targetf.Length() {
+					nAlloc = targetf.Length()
+				}
+				allocs := CloudForest.NewBestSplitAllocs(nAlloc, targetf)
 				for {
 					nCases := data.Data[0].Length()
 					//sample nCases case with replacement
-- 
2.43.0


From 03104235a12633d1b4bd416e4222c791e88709f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 43/95] fix: boosting on fewer than three cases inferred a leaf
 size of zero

---
 growforest/growforest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 04c29fa..af96954 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -372,6 +372,9 @@ func main() {
 	if leafSize <= 0 {
 		if boost {
 			leafSize = nNonMissing / 3
+			if leafSize < 1 {
+				leafSize = 1
+			}
 		} else if targetf.NCats() == 0 {
 			//regression
 			leafSize = 4
-- 
2.43.0


From 8b9154b7afd11f99f395625ef39bb60e55dccd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 44/95] fix: -balanceby an unknown feature silently balanced by
 the first one

---
 growforest/growforest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index af96954..337520a 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -352,6 +352,9 @@ func main() {
 	}
 
 	if balanceby != "" {
+		if _, ok := data.Map[balanceby]; !ok {
+			log.Fatal("Feature to balance by not found in data.")
+		}
 		bSampler = CloudForest.NewSecondaryBalancedSampler(targetf.(*CloudForest.DenseCatFeature), data.Data[data.Map[balanceby]].(*CloudForest.DenseCatFeature))
 		balance = true
 
-- 
2.43.0


From 7d8dddb3c0ee6c5beffbdd945edca1b7e4f0f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 45/95] fix: a blacklisted target was counted twice in the
 number of features

---
 growforest/growforest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 337520a..03f34dd 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -310,6 +310,9 @@ func main() {
 	}
 
 	nFeatures := len(data.Data) - blacklisted - 1
+	if blacklistis[targeti] {
+		nFeatures++
+	}
 	fmt.Printf("Non Target Features : %v\n", nFeatures)
 
 	mTry := CloudForest.ParseAsIntOrFractionOfTotal(StringmTry, nFeatures)
-- 
2.43.0


From 0052848383239b658e8dec4e459197d1da2da2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 46/95] fix: -evaloob evaluated splits on cases without a known
 target

---
 growforest/growforest.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 03f34dd..fb8d6a7 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -615,6 +615,7 @@ func main() {
 				tree.Target = *targetname
 				cases := make([]int, 0, nNonMissing)
 				oobcases := make([]int, 0, nNonMissing)
+				evalcases := make([]int, 0, nNonMissing)
 
 				if nobag {
 					for i := 0; i < targetf.Length(); i++ {
@@ -681,13 +682,20 @@ func main() {
 								oobcases = append(oobcases, i)
 							}
 						}
+						//cases without a target value get votes but can't be learned from
+						evalcases = evalcases[0:0]
+						for _, i := range oobcases {
+							if !targetf.IsMissing(i) {
+								evalcases = append(evalcases, i)
+							}
+						}
 					}
 
 					if jungle {
-						tree.GrowJungle(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
+						tree.GrowJungle(data, target, cases, canidates, evalcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
 
 					} else {
-						tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
+						tree.Grow(data, target, cases, canidates, evalcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
 					}
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
-- 
2.43.0


From 163838ae18cbaf127632b7ad7260356c6298a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 47/95] fix: trying more features than there are candidates
 panicked

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 65f6ec8..07e1596 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -190,7 +190,7 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 	for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {
 
 		//Break early if there aren't any more nonconstant features
-		if nConstants >= lcans {
+		if lastSample+nConstants >= lcans {
 			return
 		}
 
-- 
2.43.0


From baed4061f6d61216dd0db76b49913f9c9d27a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 48/95] fix: splits on features absent from the data were made
 on the first feature

---
 splitter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/splitter.go b/splitter.go
index bffa051..68d5f81 100644
--- a/splitter.go
+++ b/splitter.go
@@ -28,7 +28,12 @@ func (s *Splitter) Split(fm *FeatureMatrix, cases []int) (l []int, r []int, m []
 	lastright := length
 	swaper := 0
 
-	f := fm.Data[fm.Map[s.Feature]]
+	fi, ok := fm.Map[s.Feature]
+	if !ok {
+		//nothing is known about a feature the data don't have
+		return cases[:0], cases[length:], cases
+	}
+	f := fm.Data[fi]
 
 	//Move left cases to the start and right cases to the end so that missing cases end up
 	//in between.
-- 
2.43.0


From b3746857cbe027dbd86e0826b33954b6b2a8318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 49/95] fix: splits on features absent from the data were
 counted for the first feature

---
 tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index db7400c..e30e293 100644
--- a/tree.go
+++ b/tree.go
@@ -361,8 +361,10 @@ func (t *Tree) GetLeaves(fm *FeatureMatrix, fbycase *SparseCounter) []Leaf {
 			leaves = append(leaves, Leaf{cases, n.Pred})
 		}
 		if fbycase != nil && n.Splitter != nil { //I'm not in a leaf node?
-			for _, c := range cases {
-				fbycase.Add(c, fm.Map[n.Splitter.Feature], 1)
+			if fi, ok := fm.Map[n.Splitter.Feature]; ok {
+				for _, c := range cases {
+					fbycase.Add(c, fi, 1)
+				}
 			}
 		}
 
-- 
2.43.0


From c44f431318fc727c71345e7a4d5ecc53deb38e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 50/95] fix: voting concurrently for labels that a ballot box
 hasn't seen raced

---
 catballotbox.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index d46fe49..9481d2d 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -21,15 +21,16 @@ func NewCatBallot() (cb *CatBallot) {
 //CatBallotBox keeps track of votes by trees in a thread safe manner.
 type CatBallotBox struct {
 	*CatMap
-	Box []*CatBallot
+	Box      []*CatBallot
+	catMutex sync.Mutex //guards CatMap, which grows as labels are first voted for
 }
 
 //NewCatBallotBox builds a new ballot box for the number of cases specified by "size".
 func NewCatBallotBox(size int) *CatBallotBox {
 	bb := CatBallotBox{
-		&CatMap{make(map[string]int),
+		CatMap: &CatMap{make(map[string]int),
 			make([]string, 0, 0)},
-		make([]*CatBallot, 0, size)}
+		Box: make([]*CatBallot, 0, size)}
 	for i := 0; i < size; i++ {
 		bb.Box = append(bb.Box, NewCatBallot())
 	}
@@ -39,7 +40,9 @@ func NewCatBallotBox(size int) *CatBallotBox {
 //Vote registers a vote that case "casei" should be predicted to be the
 //category "pred".
 func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
+	bb.catMutex.Lock()
 	predn := bb.CatToNum(pred)
+	bb.catMutex.Unlock()
 	bb.Box[casei].Mutex.Lock()
 	if _, ok := bb.Box[casei].Map[predn]; !ok {
 		bb.Box[casei].Map[predn] = 0
@@ -66,7 +69,9 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	}
 	bb.Box[i].Mutex.Unlock()
 	if votes > 0 {
+		bb.catMutex.Lock()
 		predicted = bb.Back[predictedn]
+		bb.catMutex.Unlock()
 	} else {
 		predicted = "NA"
 	}
-- 
2.43.0


From 8bffb143a3f756a90c16dcab3b976538a5c41245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 51/95] fix: numerical voting was chosen by the first letter of
 the target's name

---
 applyforest/applyforest.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 24689d2..5162583 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -55,12 +55,20 @@ func main() {
 		defer predfile.Close()
 	}
 
+	targeti, hasTarget := data.Map[forest.Target]
+
+	//names only have a type prefix in annotated feature matrixes
+	numTarget := strings.HasPrefix(forest.Target, "N:")
+	if hasTarget {
+		_, numTarget = data.Data[targeti].(CloudForest.NumFeature)
+	}
+
 	var bb CloudForest.VoteTallyer
 	switch {
 	case sum:
 		bb = CloudForest.NewSumBallotBox(data.Data[0].Length())
 
-	case !cat && (num || strings.HasPrefix(forest.Target, "N")):
+	case !cat && (num || numTarget):
 		bb = CloudForest.NewNumBallotBox(data.Data[0].Length())
 
 	default:
@@ -71,7 +79,6 @@ func main() {
 		tree.Vote(data, bb)
 	}
 
-	targeti, hasTarget := data.Map[forest.Target]
 	if hasTarget {
 		fmt.Printf("Target is %v in feature %v\n", forest.Target, targeti)
 		er := bb.TallyError(data.Data[targeti])
-- 
2.43.0


From 15b2c9720c461da4b07d9f56f1e07dacacaabfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 52/95] fix: forcing the kind of voting panicked for targets of
 the other kind and forests with an intercept

---
 applyforest/applyforest.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 5162583..b599fb2 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -81,8 +81,12 @@ func main() {
 
 	if hasTarget {
 		fmt.Printf("Target is %v in feature %v\n", forest.Target, targeti)
-		er := bb.TallyError(data.Data[targeti])
-		fmt.Printf("Error: %v\n", er)
+		//modes have no error on a numerical target or means on a categorical one
+		_, modes := bb.(*CloudForest.CatBallotBox)
+		if modes != numTarget {
+			er := bb.TallyError(data.Data[targeti])
+			fmt.Printf("Error: %v\n", er)
+		}
 	}
 	if *predfn != "" {
 		fmt.Printf("Outputting label predicted actual tsv to %v\n", *predfn)
@@ -94,7 +98,7 @@ func main() {
 
 			result := ""
 
-			if sum || forest.Intercept != 0.0 {
+			if _, modes := bb.(*CloudForest.CatBallotBox); !modes && (sum || forest.Intercept != 0.0) {
 				numresult := 0.0
 				if sum {
 					numresult = bb.(*CloudForest.SumBallotBox).TallyNum(i) + forest.Intercept
-- 
2.43.0


From 9ea2d7858f361bea94f676dc037aeda43b289f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 53/95] fix: applying a numerical forest to unlabeled cases
 exited before writing predictions

---
 numballotbox.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numballotbox.go b/numballotbox.go
index c3a5d11..b22e834 100644
--- a/numballotbox.go
+++ b/numballotbox.go
@@ -72,8 +72,9 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 			c += 1
 		}
 	}
-	if c == 0.0 {
-		log.Fatal("TallyError with 0 count!")
+	if c == 0 {
+		log.Print("TallyError with 0 count!")
+		return math.NaN()
 	}
 	e = e / float64(c)
 
-- 
2.43.0


From aae3bb884364010eb15bc80d9999c5ced26c439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 54/95] fix: nfold -onehot wrote the features unencoded

---
 utils/nfold/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index e775ed6..db1f28c 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -147,7 +147,7 @@ func main() {
 
 	if onehot {
 		fmt.Println("OneHot encoding.")
-		data.OneHot()
+		data = data.OneHot()
 	}
 
 	if num {
-- 
2.43.0


From e967705742e7582ac68511ed1d168e33e254dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 55/95] fix: nfold left the cases that don't divide evenly out
 of every fold

---
 utils/nfold/main.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index db1f28c..593f7bd 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -188,10 +188,8 @@ func main() {
 			cases[i] = i
 		}
 		CloudForest.SampleFirstN(&cases, nil, len(cases), 0)
-		for j := 0; j < folds; j++ {
-			for k := j * foldsize; k < (j+1)*foldsize; k++ {
-				foldis[j] = append(foldis[j], cases[k])
-			}
+		for k, c := range cases {
+			foldis[k%folds] = append(foldis[k%folds], c)
 		}
 
 	} else {
@@ -201,16 +199,15 @@ func main() {
 
 		fmt.Printf("Stratifying by %v classes.\n", len(bSampler.Cases))
 		var samples []int
+		placed := 0
 		for i := 0; i < len(bSampler.Cases); i++ {
 			fmt.Printf("%v cases in class %v.\n", len(bSampler.Cases[i]), i)
 			//shuffle in place
 			CloudForest.SampleFirstN(&bSampler.Cases[i], &samples, len(bSampler.Cases[i]), 0)
-			stratFoldSize := len(bSampler.Cases[i]) / folds
-			for j := 0; j < folds; j++ {
-				for k := j * stratFoldSize; k < (j+1)*stratFoldSize; k++ {
-					foldis[j] = append(foldis[j], bSampler.Cases[i][k])
-
-				}
+			//carry on with the fold after the last one used so that fold sizes stay even
+			for _, c := range bSampler.Cases[i] {
+				foldis[placed%folds] = append(foldis[placed%folds], c)
+				placed++
 			}
 
 		}
-- 
2.43.0


From 0859e9a69ab378afb4827337ec0a3819a2e93dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 56/95] fix: nfold encoded the target before writing libsvm,
 which left files of targets with many classes empty

---
 utils/nfold/main.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index 593f7bd..b70d7b7 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -212,19 +212,6 @@ func main() {
 
 		}
 	}
-	encode := false
-
-	for _, f := range data.Data {
-		if f.NCats() > 0 {
-			encode = true
-		}
-	}
-
-	encoded := data
-	if encode && (writelibsvm || writeall) {
-		encoded = data.EncodeToNum()
-	}
-
 	trainis := make([]int, 0, foldsize*(folds-1))
 	//Write training and testing matrixes
 	for i := 0; i < folds; i++ {
@@ -253,8 +240,14 @@ func main() {
 
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
-			CloudForest.WriteLibSvmCases(encoded, foldis[i], *targetname, testW)
-			CloudForest.WriteLibSvmCases(encoded, trainis, *targetname, trainW)
+			err = CloudForest.WriteLibSvmCases(data, foldis[i], *targetname, testW)
+			if err != nil {
+				log.Fatal(err)
+			}
+			err = CloudForest.WriteLibSvmCases(data, trainis, *targetname, trainW)
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		fmt.Printf("Wrote fold %v. %v testing cases and %v training cases.\n", i, len(foldis[i]), len(trainis))
-- 
2.43.0


From 8585e628e90192d64af75139365015d04994fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 57/95] fix: leafcount recorded splits from several threads
 without locking

---
 leafcount/leafcount.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index b32a58f..8c4666a 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 func main() {
@@ -23,6 +24,7 @@ func main() {
 	flag.Parse()
 
 	splits := make(map[string][]string)
+	var splitsMutex sync.Mutex
 
 	//Parse Data
 	data, err := CloudForest.LoadAFM(*fm)
@@ -83,6 +85,7 @@ func main() {
 					}
 
 					if *soutf != "" {
+						splitsMutex.Lock()
 						forest.Trees[i].Root.Climb(func(n *CloudForest.Node) {
 							if n.Splitter != nil {
 								name := n.Splitter.Feature
@@ -104,6 +107,7 @@ func main() {
 								splits[name] = append(splits[name], split)
 							}
 						})
+						splitsMutex.Unlock()
 					}
 
 				}
-- 
2.43.0


From 42613c9b65242f121bebb591338d36ec0a4d54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 58/95] fix: imputing a column without known values filled it
 with NaN or an unknown category

---
 densecatfeature.go | 10 ++++++++--
 densenumfeature.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 3a7dae7..039b3ee 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1236,8 +1236,14 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
 func (f *DenseCatFeature) ImputeMissing() {
 	cases := make([]int, 0, len(f.Missing))
-	for i := range f.Missing {
-		cases = append(cases, i)
+	for i, m := range f.Missing {
+		if !m {
+			cases = append(cases, i)
+		}
+	}
+	//without a known value there is nothing to impute
+	if len(cases) == 0 {
+		return
 	}
 
 	mode := f.Modei(&cases)
diff --git a/densenumfeature.go b/densenumfeature.go
index af0ed4b..b2371bc 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -671,8 +671,14 @@ func (f *DenseNumFeature) CopyInTo(copyf Feature) {
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
 func (f *DenseNumFeature) ImputeMissing() {
 	cases := make([]int, 0, len(f.Missing))
-	for i, _ := range f.Missing {
-		cases = append(cases, i)
+	for i, m := range f.Missing {
+		if !m {
+			cases = append(cases, i)
+		}
+	}
+	//without a known value there is nothing to impute
+	if len(cases) == 0 {
+		return
 	}
 	mean := 0.0
 
-- 
2.43.0


From afa87607a34293bab3e1a991833e2318a3f94632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 59/95] fix: WriteLibSvmCases panicked on a categorical column
 without known values

---
 libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index 3422a7a..e6bf4c3 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -180,7 +180,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 	encode := false
 	for i, f := range data.Data {
 		if i != targeti {
-			if data.Data[i].NCats() > 0 {
+			if _, numerical := f.(NumFeature); !numerical {
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-- 
2.43.0


From 271878cbbe4c60592e908de9f53bf43e31758447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 60/95] fix: features of ARFF and libsvm files were written to
 AFM files without their type

---
 featurematrix.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 07e1596..8c526b3 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -118,7 +118,7 @@ func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 
 	for i := 0; i < len(fm.Data); i++ {
 		vals = vals[0:0]
-		vals = append(vals, fm.Data[i].GetName())
+		vals = append(vals, afmName(fm.Data[i]))
 		for j := 0; j < len(cases); j++ {
 			vals = append(vals, fm.Data[i].GetStr(cases[j]))
 		}
@@ -134,6 +134,24 @@ func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 
 }
 
+//afmName returns the name of a feature as it is written in an AFM file, where the start of the
+//name tells the type of the feature. Features loaded from other formats may need a prefix.
+func afmName(f Feature) string {
+	name := f.GetName()
+	isnum := strings.HasPrefix(name, "N:")
+	switch f.(type) {
+	case NumFeature:
+		if !isnum {
+			return "N:" + name
+		}
+	default:
+		if isnum || len(name) < 2 {
+			return "C:" + name
+		}
+	}
+	return name
+}
+
 /*
 BestSplitter finds the best splitter from a number of candidate features to slit on by looping over
 all features and calling BestSplit.
-- 
2.43.0


From be9abb9ea516278587e6e63a9ea0d3c7066e7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 61/95] fix: jungles no longer mistake other candidates for the
 constant ones

GrowJungle visits nodes breadth first while the constant candidates a node
inherits are only known to be at the end of the candidates depth first.
---
 tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index e30e293..8d5c94e 100644
--- a/tree.go
+++ b/tree.go
@@ -226,7 +226,9 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			start = node.start
 			end = node.end
 			innercases = cases[node.start:node.end]
-			nconstants = node.nconstants
+			//nodes of one level reorder the same candidates so constants found for the parent
+			//aren't at their end any more
+			nconstants = 0
 
 			if (depth < maxDepth || maxDepth <= 0) && (2*leafSize) <= len(innercases) {
 
-- 
2.43.0


From 947a2e757a7c011f28a8a4a4fd02481bd89933d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 62/95] fix: combined nodes of a jungle keep the cases and
 parents of both

The cases of the absorbed node were left out of the combined node and only
one of several parents was redirected.
---
 tree.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tree.go b/tree.go
index 8d5c94e..e72961c 100644
--- a/tree.go
+++ b/tree.go
@@ -323,15 +323,19 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					madeChanges = true
 					nodes[combine].dead = true
 					nj := nodes[combine]
-					nodei.end = nj.end
-					parent := nj.parent
-					switch nj.n {
-					case parent.Left:
-						parent.Left = nodei.n
-					case parent.Right:
-						parent.Right = nodei.n
-					case parent.Missing:
-						parent.Missing = nodei.n
+					nodes[i].end = nj.end
+					//the absorbed node may have absorbed others and have several parents
+					for _, nc := range nodes[firstThisLevel:lastThisLevel] {
+						parent := nc.n
+						if parent.Left == nj.n {
+							parent.Left = nodei.n
+						}
+						if parent.Right == nj.n {
+							parent.Right = nodei.n
+						}
+						if parent.Missing == nj.n {
+							parent.Missing = nodei.n
+						}
 					}
 
 				}
-- 
2.43.0


From 213c51d6488e6d36668895ec43bc94beba067866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 63/95] fix: jungles combined all nodes for targets that score
 splits directly

The impurity of such targets is negative so every combination looked like
a gain, splitting and combining the same cases level after level.
---
 tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index e72961c..8406ca9 100644
--- a/tree.go
+++ b/tree.go
@@ -309,9 +309,11 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 						impDec = target.SplitImpurity(&innercases, &innercases2, nil, allocs)
 
 						innercases = cases[nodei.start:nodej.end]
-						impDec -= target.Impurity(&innercases, allocs.Counter)
+						jointImp := target.Impurity(&innercases, allocs.Counter)
+						impDec -= jointImp
 
-						if impDec > maxImpDec {
+						//targets that score splits directly have no impurity to compare
+						if jointImp >= 0 && impDec > maxImpDec {
 							maxImpDec = impDec
 							combine = j
 						}
-- 
2.43.0


From 5667c37a77b4eefe9479ee74b5d6c387643f4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 64/95] fix: growforest -noseed is reproducible with recent
 versions of Go

---
 growforest/growforest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index fb8d6a7..53391e2 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -190,6 +190,9 @@ func main() {
 
 	if !noseed {
 		rand.Seed(time.Now().UTC().UnixNano())
+	} else {
+		//recent versions of go seed the generator randomly unless told otherwise
+		rand.Seed(1)
 	}
 
 	if testfm != "" {
-- 
2.43.0


From 8a1ab785055e256b16ba94145943f52418d9e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 65/95] fix: thresholds of very large or nearly equal values
 didn't separate the cases as evaluated

---
 densenumfeature.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index b2371bc..22e3538 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -361,9 +361,13 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 			if innerimp > impurityDecrease {
 				impurityDecrease = innerimp
-				splitf = sortedData[lasti]
+				splitf = sortedData[i-1]
 				splitf += sortedData[i]
 				splitf /= 2.0
+				//very large neighbouring values may not have a number in between to split at
+				if !(splitf >= sortedData[i-1] && splitf < sortedData[i]) {
+					splitf = sortedData[i-1]
+				}
 				//fmt.Println(len(sorter.Cases), sorter.Vals, allocs.LM, allocs.RM, codedSplit, impurityDecrease)
 
 			}
-- 
2.43.0


From 280daa52c863560b801a0012ffba40b77039f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 66/95] fix: vetting measured the shuffled target's split
 against the impurity of other cases

---
 featurematrix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 8c526b3..8c9c099 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -253,7 +253,8 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 			}
 
 			allocs.ContrastTarget.(Feature).ShuffleCases(casept, allocs)
-			_, vetImp, _ = f.BestSplit(allocs.ContrastTarget, casept, parentImp, leafSize, extraRandom, allocs)
+			contrastImp := allocs.ContrastTarget.Impurity(casept, allocs.Counter)
+			_, vetImp, _ = f.BestSplit(allocs.ContrastTarget, casept, contrastImp, leafSize, extraRandom, allocs)
 			inerImp = inerImp - vetImp
 		}
 
-- 
2.43.0


From b8c74a2e838644a174ea7f5967092fccd4f65ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 67/95] fix: -ace exported the trees of every forest as
 scikit-learn trees, not just the last forest's

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 53391e2..73deed7 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -737,7 +737,7 @@ func main() {
 						forestwriter.WriteTree(tree, treesFinished)
 					}
 
-					if scikitforest != "" {
+					if scikitforest != "" && foresti == nForest-1 {
 						skt := CloudForest.NewScikitTree(nFeatures)
 						CloudForest.BuildScikitTree(0, tree.Root, skt)
 						scikikittrees = append(scikikittrees, *skt)
-- 
2.43.0


From fec0ae8f717c7667601696d0726bac86baa3d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 68/95] fix: WriteLibSvm: write infinite target values so that
 they read back

---
 libsvm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index e6bf4c3..1c75be8 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -111,7 +112,7 @@ func libSvmTargetStr(target NumFeature, i int) string {
 		return target.GetStr(i)
 	}
 	s := strconv.FormatFloat(target.Get(i), 'f', -1, 64)
-	if !strings.Contains(s, ".") {
+	if !strings.Contains(s, ".") && !math.IsInf(target.Get(i), 0) {
 		s += ".0"
 	}
 	return s
-- 
2.43.0


From 1746c705bcc29ca99799884ebc327b8bf0ebba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 69/95] fix: ParseARFF: read values that follow a comma and
 blanks

---
 arff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arff.go b/arff.go
index 8c1b841..33629c2 100644
--- a/arff.go
+++ b/arff.go
@@ -65,6 +65,8 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 
 	csvdata := csv.NewReader(reader)
 	csvdata.Comment = '%'
+	//blanks after the commas aren't part of the values
+	csvdata.TrimLeadingSpace = true
 	//csvdata.Comma = ','
 
 	fm.LoadCases(csvdata, false)
-- 
2.43.0


From d1fd236b3970a848e920ea591f5ae6bc17e5a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 70/95] fix: feature names of less than two characters made
 reading a table panic

---
 featurematrix.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 8c9c099..0d60162 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -383,7 +383,7 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			//features in cols
 
 			for i, label := range headers {
-				if label[:2] == "N:" {
+				if strings.HasPrefix(label, "N:") {
 					data = append(data, &DenseNumFeature{
 						make([]float64, 0, 0),
 						make([]bool, 0, 0),
@@ -465,8 +465,8 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 //"N:"" indicating numerical, anything else (usually "C:" and "B:") for categorical
 func ParseFeature(record []string) Feature {
 	capacity := len(record)
-	switch record[0][0:2] {
-	case "N:":
+	switch {
+	case strings.HasPrefix(record[0], "N:"):
 		f := &DenseNumFeature{
 			nil,
 			make([]bool, 0, capacity),
-- 
2.43.0


From 9bb2c05e42bb1c6de4a083ea20c8e383b360ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 71/95] fix: LoadAFM passed the readable part of a damaged
 table for all of it

---
 arff.go          | 16 ++++++++++++----
 featurematrix.go | 45 +++++++++++++++++++++++++++++----------------
 libsvm.go        | 14 +++++++++++---
 3 files changed, 52 insertions(+), 23 deletions(-)

diff --git a/arff.go b/arff.go
index 33629c2..0b37b10 100644
--- a/arff.go
+++ b/arff.go
@@ -13,6 +13,15 @@ import (
 //http://www.cs.waikato.ac.nz/ml/weka/arff.html
 //The relation is ignored and only catagorical and numerical variables are supported
 func ParseARFF(input io.Reader) *FeatureMatrix {
+	fm, err := parseARFF(input)
+	if err != nil {
+		log.Print("Error:", err)
+	}
+	return fm
+}
+
+//parseARFF is ParseARFF but also returns the error that kept it from reading all of the input.
+func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 
 	reader := bufio.NewReader(input)
 
@@ -25,8 +34,7 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 
 		line, err := reader.ReadString('\n')
 		if err != nil {
-			log.Print("Error:", err)
-			return nil
+			return nil, err
 		}
 		norm := strings.ToLower(line)
 
@@ -69,8 +77,8 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 	csvdata.TrimLeadingSpace = true
 	//csvdata.Comma = ','
 
-	fm.LoadCases(csvdata, false)
-	return fm
+	err := fm.loadCases(csvdata, false)
+	return fm, err
 
 }
 
diff --git a/featurematrix.go b/featurematrix.go
index 0d60162..acf8abd 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -333,14 +333,20 @@ func (fm *FeatureMatrix) ImputeMissing() {
 //features. It is a lower level method generally called after inital setup to parse
 //a fm, arff, csv etc.
 func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
+	if err := fm.loadCases(data, rowlabels); err != nil {
+		log.Print("Error:", err)
+	}
+}
+
+//loadCases is LoadCases but returns the error that kept it from reading all of the cases.
+func (fm *FeatureMatrix) loadCases(data *csv.Reader, rowlabels bool) error {
 	count := 0
 	for {
 		record, err := data.Read()
 		if err == io.EOF {
-			break
+			return nil
 		} else if err != nil {
-			log.Print("Error:", err)
-			break
+			return err
 		}
 
 		caselabel := fmt.Sprintf("%v", count)
@@ -364,20 +370,28 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 //N: indicating numerical, C: indicating categorical or B: indicating boolean
 //For this parser features without N: are assumed to be categorical
 func ParseAFM(input io.Reader) *FeatureMatrix {
+	fm, err := parseAFM(input)
+	if err != nil {
+		log.Print("Error:", err)
+	}
+	return fm
+}
+
+//parseAFM is ParseAFM but also returns the error that kept it from reading all of the input.
+func parseAFM(input io.Reader) (*FeatureMatrix, error) {
 	data := make([]Feature, 0, 100)
 	lookup := make(map[string]int, 0)
 	tsv := csv.NewReader(input)
 	tsv.Comma = '\t'
 	headers, err := tsv.Read()
 	if err == io.EOF {
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, nil}, io.ErrUnexpectedEOF
 	} else if err != nil {
-		log.Print("Error:", err)
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, nil}, err
 	}
 	headers = headers[1:]
 
-	if len(headers[0]) > 1 {
+	if len(headers) > 0 && len(headers[0]) > 1 {
 		sniff := headers[0][:2]
 		if sniff == "N:" || sniff == "C:" || sniff == "B:" {
 			//features in cols
@@ -404,8 +418,8 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			}
 
 			fm := &FeatureMatrix{data, lookup, make([]string, 0, 0)}
-			fm.LoadCases(tsv, true)
-			return fm
+			err = fm.loadCases(tsv, true)
+			return fm, err
 		}
 	}
 
@@ -416,14 +430,13 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 		if err == io.EOF {
 			break
 		} else if err != nil {
-			log.Print("Error:", err)
-			break
+			return &FeatureMatrix{data, lookup, headers}, err
 		}
 		data = append(data, ParseFeature(record))
 		lookup[record[0]] = count
 		count++
 	}
-	return &FeatureMatrix{data, lookup, headers}
+	return &FeatureMatrix{data, lookup, headers}, nil
 }
 
 //LoadAFM loads a, possible zipped, FeatureMatrix specified by filename
@@ -433,7 +446,7 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 	if err == nil {
 		rc, err := r.File[0].Open()
 		if err == nil {
-			fm = ParseAFM(rc)
+			fm, err = parseAFM(rc)
 			rc.Close()
 			return fm, err
 		}
@@ -446,11 +459,11 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 
 	switch {
 	case strings.HasSuffix(filename, ".arff"):
-		fm = ParseARFF(datafile)
+		fm, err = parseARFF(datafile)
 	case strings.HasSuffix(filename, ".libsvm"):
-		fm = ParseLibSVM(datafile)
+		fm, err = parseLibSVM(datafile)
 	default:
-		fm = ParseAFM(datafile)
+		fm, err = parseAFM(datafile)
 	}
 
 	datafile.Close()
diff --git a/libsvm.go b/libsvm.go
index 1c75be8..217063c 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -12,6 +12,15 @@ import (
 )
 
 func ParseLibSVM(input io.Reader) *FeatureMatrix {
+	fm, err := parseLibSVM(input)
+	if err != nil {
+		log.Print("Error:", err)
+	}
+	return fm
+}
+
+//parseLibSVM is ParseLibSVM but also returns the error that kept it from reading all of the input.
+func parseLibSVM(input io.Reader) (*FeatureMatrix, error) {
 	reader := bufio.NewReader(input)
 
 	data := make([]Feature, 0, 100)
@@ -23,8 +32,7 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 	for {
 		line, rerr := reader.ReadString('\n')
 		if rerr != nil && rerr != io.EOF {
-			log.Print("Error:", rerr)
-			return nil
+			return nil, rerr
 		}
 
 		vals := strings.Fields(line)
@@ -101,7 +109,7 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 
 	fm := &FeatureMatrix{data, lookup, labels}
 
-	return fm
+	return fm, nil
 
 }
 
-- 
2.43.0


From 31824d9a6f6f36357c3e60ade7737d703b6a8316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 72/95] fix: a libsvm entry without a feature number replaced
 the target value or panicked

---
 libsvm.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 217063c..2fbc153 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -79,8 +79,9 @@ func parseLibSVM(input io.Reader) (*FeatureMatrix, error) {
 		for _, v := range vals[1:] {
 			parts := strings.Split(v, ":")
 			xi, err := strconv.Atoi(parts[0])
-			if err != nil {
-				log.Print("Atoi error: ", err, " Line ", i, " Parsing: ", v)
+			if err != nil || xi < 1 || len(parts) != 2 {
+				//the target is at 0
+				return nil, fmt.Errorf("Not a libsvm entry on line %v: %v", i+1, v)
 			}
 			//pad out the data to include this feature
 			for xi >= len(data) {
@@ -108,6 +109,9 @@ func parseLibSVM(input io.Reader) (*FeatureMatrix, error) {
 	}
 
 	fm := &FeatureMatrix{data, lookup, labels}
+	if len(data) == 0 {
+		return fm, io.ErrUnexpectedEOF
+	}
 
 	return fm, nil
 
-- 
2.43.0


From c7c1dde6b294620fe18270aafa0d2d3db0e19ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 73/95] fix: writing ARFF and libsvm files ignored write errors

---
 arff.go   | 2 +-
 libsvm.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arff.go b/arff.go
index 0b37b10..81356f8 100644
--- a/arff.go
+++ b/arff.go
@@ -125,5 +125,5 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
diff --git a/libsvm.go b/libsvm.go
index 2fbc153..c82b06f 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -178,7 +178,7 @@ func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
 
 func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile io.Writer) error {
@@ -235,5 +235,5 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
-- 
2.43.0


From 341b6a43a9635c913771e591119158c75d75757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 74/95] fix: nfold ignored errors writing annotated feature
 matrixes and ARFF files

---
 utils/nfold/main.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index b70d7b7..4f62e89 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -228,14 +228,26 @@ func main() {
 
 		if writearff || writeall {
 			trainW, testW := openfiles(trainfn+".arff", testfn+".arff")
-			CloudForest.WriteArffCases(data, foldis[i], *targetname, testW)
-			CloudForest.WriteArffCases(data, trainis, *targetname, trainW)
+			err = CloudForest.WriteArffCases(data, foldis[i], *targetname, testW)
+			if err != nil {
+				log.Fatal(err)
+			}
+			err = CloudForest.WriteArffCases(data, trainis, *targetname, trainW)
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		if ((!writelibsvm) && (!writearff)) || writeall {
 			trainW, testW := openfiles(trainfn, testfn)
-			data.WriteCases(testW, foldis[i])
-			data.WriteCases(trainW, trainis)
+			err = data.WriteCases(testW, foldis[i])
+			if err != nil {
+				log.Fatal(err)
+			}
+			err = data.WriteCases(trainW, trainis)
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		if writelibsvm || writeall {
-- 
2.43.0


From b7ea33e9e81ece8b10a2b1743512e8d5e36c8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 75/95] fix: applyforest ignored errors writing predictions and
 votes

---
 applyforest/applyforest.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index b599fb2..ad705d2 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"github.com/ryanbressler/CloudForest"
@@ -90,6 +91,7 @@ func main() {
 	}
 	if *predfn != "" {
 		fmt.Printf("Outputting label predicted actual tsv to %v\n", *predfn)
+		predw := bufio.NewWriter(predfile)
 		for i, l := range data.CaseLabels {
 			actual := "NA"
 			if hasTarget {
@@ -113,7 +115,11 @@ func main() {
 			} else {
 				result = bb.Tally(i)
 			}
-			fmt.Fprintf(predfile, "%v\t%v\t%v\n", l, result, actual)
+			fmt.Fprintf(predw, "%v\t%v\t%v\n", l, result, actual)
+		}
+		err = predw.Flush()
+		if err != nil {
+			log.Fatal(err)
 		}
 	}
 
@@ -126,25 +132,30 @@ func main() {
 			log.Fatal(err)
 		}
 		defer votefile.Close()
-		fmt.Fprintf(votefile, ".")
+		votew := bufio.NewWriter(votefile)
+		fmt.Fprintf(votew, ".")
 
 		for _, lable := range cbb.CatMap.Back {
-			fmt.Fprintf(votefile, "\t%v", lable)
+			fmt.Fprintf(votew, "\t%v", lable)
 		}
-		fmt.Fprintf(votefile, "\n")
+		fmt.Fprintf(votew, "\n")
 
 		for i, box := range cbb.Box {
-			fmt.Fprintf(votefile, "%v", data.CaseLabels[i])
+			fmt.Fprintf(votew, "%v", data.CaseLabels[i])
 
 			for j, _ := range cbb.CatMap.Back {
 				total := 0.0
 				total = box.Map[j]
 
-				fmt.Fprintf(votefile, "\t%v", total)
+				fmt.Fprintf(votew, "\t%v", total)
 
 			}
-			fmt.Fprintf(votefile, "\n")
+			fmt.Fprintf(votew, "\n")
 
 		}
+		err = votew.Flush()
+		if err != nil {
+			log.Fatal(err)
+		}
 	}
 }
-- 
2.43.0


From 02d1552277de4560b9989e3117f6d50e65c850af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 76/95] fix: leafcount ignored errors writing the splits

---
 leafcount/leafcount.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index 8c4666a..9d003e2 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -146,6 +146,9 @@ func main() {
 		}
 		defer soutfile.Close()
 		encoder := json.NewEncoder(soutfile)
-		encoder.Encode(splits)
+		err = encoder.Encode(splits)
+		if err != nil {
+			log.Fatal(err)
+		}
 	}
 }
-- 
2.43.0


From af0043ae673dbc75b508e95d467500579fed163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 77/95] fix: growforest ignored errors writing the forest

---
 forestwriter.go          | 23 +++++++++++++++++++++--
 growforest/growforest.go |  3 +++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 5ce261a..f48ff63 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -14,12 +14,31 @@ full format details.
 It won't include fields that are not use by CloudForest.
 */
 type ForestWriter struct {
-	w io.Writer
+	w *errWriter
+}
+
+//errWriter remembers the first error of the writer it wraps.
+type errWriter struct {
+	io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (n int, err error) {
+	n, err = ew.Writer.Write(p)
+	if ew.err == nil {
+		ew.err = err
+	}
+	return
 }
 
 /*NewForestWriter returns a pointer to a new ForestWriter. */
 func NewForestWriter(w io.Writer) *ForestWriter {
-	return &ForestWriter{w}
+	return &ForestWriter{&errWriter{w, nil}}
+}
+
+//Err returns the first error encountered while writing or nil if everything was written.
+func (fw *ForestWriter) Err() error {
+	return fw.w.err
 }
 
 //WriteForest writes an entire forest including all headers.
diff --git a/growforest/growforest.go b/growforest/growforest.go
index 73deed7..239deaa 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -735,6 +735,9 @@ func main() {
 
 					if forestwriter != nil && foresti == nForest-1 {
 						forestwriter.WriteTree(tree, treesFinished)
+						if err := forestwriter.Err(); err != nil {
+							log.Fatal(err)
+						}
 					}
 
 					if scikitforest != "" && foresti == nForest-1 {
-- 
2.43.0


From 1f4dca08257cf2d6b5b07fd021108dc8a2dd8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 78/95] fix: growforest ignored errors writing the importance
 file

---
 growforest/growforest.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 239deaa..02b0170 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bufio"
 	"encoding/csv"
 	"encoding/json"
 	"flag"
@@ -900,13 +901,14 @@ func main() {
 			log.Fatal(err)
 		}
 		defer impfile.Close()
+		impw := bufio.NewWriter(impfile)
 		if ace > 0 {
 
 			for i := 0; i < firstace; i++ {
 
 				p, _, _, m := stats.Ttest(&aceImps[i], &aceImps[i+firstace])
 
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m)
+				fmt.Fprintf(impw, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m)
 
 			}
 		} else {
@@ -914,10 +916,14 @@ func main() {
 			for i, v := range *imppnt {
 				mean, count := v.Read()
 				meanMinDepth, treeCount := (*mmdpnt)[i].Read()
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth)
+				fmt.Fprintf(impw, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth)
 
 			}
 		}
+		err = impw.Flush()
+		if err != nil {
+			log.Fatal(err)
+		}
 	}
 
 	if dotest {
-- 
2.43.0


From 9b8badd1deda0f46490dd46133d94d32dd3b7ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 79/95] fix: a node added before the nodes above it became its
 own child

---
 tree.go | 49 +++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/tree.go b/tree.go
index 8406ca9..9a9ef4a 100644
--- a/tree.go
+++ b/tree.go
@@ -30,34 +30,35 @@ func NewTree() *Tree {
 //the path specifies a node whose parent does not already exist in the tree is
 //not handled well.
 func (t *Tree) AddNode(path string, pred string, splitter *Splitter) {
-	n := new(Node)
-	n.Pred = pred
-	n.Splitter = splitter
 	if t.Root == nil {
-		t.Root = n
-	} else {
-		loc := t.Root
-		for i := 0; i < len(path); i++ {
-			switch path[i : i+1] {
-			case "L":
-				if loc.Left == nil {
-					loc.Left = n
-				}
-				loc = loc.Left
-			case "R":
-				if loc.Right == nil {
-					loc.Right = n
-				}
-				loc = loc.Right
-
-			case "M":
-				if loc.Missing == nil {
-					loc.Missing = n
-				}
-				loc = loc.Missing
+		t.Root = new(Node)
+	}
+	loc := t.Root
+	//nodes on the way that haven't been added yet are left blank for now
+	for i := 0; i < len(path); i++ {
+		switch path[i : i+1] {
+		case "L":
+			if loc.Left == nil {
+				loc.Left = new(Node)
 			}
+			loc = loc.Left
+		case "R":
+			if loc.Right == nil {
+				loc.Right = new(Node)
+			}
+			loc = loc.Right
 
+		case "M":
+			if loc.Missing == nil {
+				loc.Missing = new(Node)
+			}
+			loc = loc.Missing
 		}
+
+	}
+	if loc.Pred == "" && loc.Splitter == nil {
+		loc.Pred = pred
+		loc.Splitter = splitter
 	}
 
 }
-- 
2.43.0


From 2c52964070c6f4a8cf225776f58683d740af06fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 80/95] fix: trees with nodes missing from a forest file were
 read as if complete and panicked when used

---
 forestreader.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/forestreader.go b/forestreader.go
index 06a5795..0c4203a 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -79,6 +79,9 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 		peek, err = fr.br.Peek(1)
 		//If their is no next line or it starts a new Tree or Forest return
 		if err != nil || (intree && (peek[0] == 'T' || peek[0] == 'F')) {
+			if intree && (err == nil || err == io.EOF) && !complete(tree) {
+				err = errors.New("Poorly formed .sf file. Nodes missing from tree.")
+			}
 			return
 		}
 
@@ -157,6 +160,23 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 
 }
 
+//complete checks that the nodes of a tree, and only those, that have a splitter have a left and a
+//right child.
+func complete(tree *Tree) bool {
+	if tree.Root == nil {
+		return false
+	}
+	ok := true
+	tree.Root.Climb(func(n *Node) {
+		if n.Splitter != nil {
+			ok = ok && n.Left != nil && n.Right != nil
+		} else {
+			ok = ok && n.Left == nil && n.Right == nil && n.Missing == nil
+		}
+	})
+	return ok
+}
+
 /*
 ParseRfAcePredictorLine parses a single line of an rf-ace sf "stochastic forest"
 and returns a map[string]string of the key value pairs.
-- 
2.43.0


From 53e41de5a2da0f45b75423ea318d277dfd994cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 81/95] fix: malformed numbers in a forest file were read as
 zero

---
 forestreader.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index 0c4203a..4297f0d 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"log"
 	"strconv"
 	"strings"
 )
@@ -97,11 +96,10 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 			forest.Target = parsed["TARGET"]
 			i, ok := parsed["INTERCEPT"]
 			if ok {
-				intercept, err := strconv.ParseFloat(i, 64)
+				forest.Intercept, err = strconv.ParseFloat(i, 64)
 				if err != nil {
-					log.Print("Error parsing forest intercept value ", err)
+					return
 				}
-				forest.Intercept = intercept
 			}
 
 		case strings.HasPrefix(line, "TREE"):
@@ -110,11 +108,10 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 			tree.Target = parsed["TARGET"]
 			weights, ok := parsed["WEIGHT"]
 			if ok {
-				weight, err := strconv.ParseFloat(weights, 64)
+				tree.Weight, err = strconv.ParseFloat(weights, 64)
 				if err != nil {
-					log.Print("Error parsing weight value ", err)
+					return
 				}
-				tree.Weight = weight
 			} else {
 				tree.Weight = -1.0
 			}
@@ -145,11 +142,10 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 
 				case "NUMERICAL":
 					splitter.Numerical = true
-					lvalue, err := strconv.ParseFloat(parsed["LVALUES"], 64)
+					splitter.Value, err = strconv.ParseFloat(parsed["LVALUES"], 64)
 					if err != nil {
-						log.Print("Error parsing lvalues value ", err)
+						return
 					}
-					splitter.Value = float64(lvalue)
 				}
 			}
 
-- 
2.43.0


From b8bd9729899ef8b63272ad75afe3a79b6b2e3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 82/95] fix: ARFF rows with more or fewer values than
 attributes panicked or were read as ragged columns

---
 arff.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arff.go b/arff.go
index 81356f8..dee4a73 100644
--- a/arff.go
+++ b/arff.go
@@ -44,6 +44,9 @@ func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 
 		if strings.HasPrefix(norm, "@attribute") {
 			vals := strings.Fields(line)
+			if len(vals) < 3 {
+				return nil, fmt.Errorf("Not an attribute declaration: %v", line)
+			}
 
 			if strings.ToLower(vals[2]) == "numeric" || strings.ToLower(vals[2]) == "real" {
 				data = append(data, &DenseNumFeature{
@@ -76,6 +79,8 @@ func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 	//blanks after the commas aren't part of the values
 	csvdata.TrimLeadingSpace = true
 	//csvdata.Comma = ','
+	//every case has a value for every attribute
+	csvdata.FieldsPerRecord = len(data)
 
 	err := fm.loadCases(csvdata, false)
 	return fm, err
-- 
2.43.0


From e8ab0a66b262458db88f6a66fbe1588613b1fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 83/95] fix: errors writing the header of an ARFF file were
 ignored

---
 arff.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/arff.go b/arff.go
index dee4a73..f000bdf 100644
--- a/arff.go
+++ b/arff.go
@@ -94,7 +94,10 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 	  @ATTRIBUTE sepallength  NUMERIC
 	  @ATTRIBUTE class        {Iris-setosa,Iris-versicolor,Iris-virginica}*/
 
-	fmt.Fprintf(outfile, "@RELATION %v\n\n", relation)
+	_, err := fmt.Fprintf(outfile, "@RELATION %v\n\n", relation)
+	if err != nil {
+		return err
+	}
 
 	for _, f := range data.Data {
 		ftype := "NUMERIC"
@@ -103,10 +106,16 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 			ftype = fmt.Sprintf("{%v}", strings.Join(f.(*DenseCatFeature).Back, ","))
 		}
 
-		fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype)
+		_, err = fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype)
+		if err != nil {
+			return err
+		}
 	}
 
-	fmt.Fprint(outfile, "\n@DATA\n")
+	_, err = fmt.Fprint(outfile, "\n@DATA\n")
+	if err != nil {
+		return err
+	}
 
 	oucsv := csv.NewWriter(outfile)
 	oucsv.Comma = ','
-- 
2.43.0


From 9e8a3fdd42553655a05fcdbbbc3518602d8c5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 84/95] fix: features with one character names were written
 with a longer name

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index acf8abd..bff7cec 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -145,7 +145,7 @@ func afmName(f Feature) string {
 			return "N:" + name
 		}
 	default:
-		if isnum || len(name) < 2 {
+		if isnum {
 			return "C:" + name
 		}
 	}
-- 
2.43.0


From 5f25a8567c042b033ad66fde612b8524eb7c7410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 85/95] fix: reading a file without a forest that starts with a
 T or F gave neither a forest nor an error

---
 forestreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forestreader.go b/forestreader.go
index 4297f0d..d76f1a1 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -57,6 +57,9 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 			}
 			forest.Trees = append(forest.Trees, t)
 		}
+		if e == io.EOF && forest == nil {
+			return nil, errors.New("Forest Header Not Found.")
+		}
 		if e == io.EOF {
 			return forest, nil
 		}
-- 
2.43.0


From 722aca7c69429ab814f9858721e7dbd895d1af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 86/95] fix: ARFF data without attributes panicked

---
 arff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arff.go b/arff.go
index f000bdf..f7b8f81 100644
--- a/arff.go
+++ b/arff.go
@@ -72,6 +72,10 @@ func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 
 	}
 
+	if len(data) == 0 {
+		return nil, fmt.Errorf("No attributes in the ARFF header.")
+	}
+
 	fm := &FeatureMatrix{data, lookup, make([]string, 0, 0)}
 
 	csvdata := csv.NewReader(reader)
-- 
2.43.0


From 3200624174a7f1492872ff3c87445fc8f33aeb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 87/95] fix: numerical targets with large values compared to
 their spread had impurities of rounding errors, below zero too, so that even
 pure nodes were split

---
 densenumfeature.go  | 33 ++++++++++++++++++++++++++++-----
 splitallocations.go |  2 ++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 22e3538..4868f4d 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -407,6 +407,7 @@ func (target *DenseNumFeature) SplitImpurity(l *[]int, r *[]int, m *[]int, alloc
 	// sum((xi-x_mean)^2)
 	//= sum(xi^2) - n * x_mean^2
 	//= sum(xi^2) - sum(xi)^2/n
+	//where xi can be the distance from any value
 
 	nl := float64(len(*l))
 	nr := float64(len(*r))
@@ -415,14 +416,20 @@ func (target *DenseNumFeature) SplitImpurity(l *[]int, r *[]int, m *[]int, alloc
 	sum := 0.0
 	sum_sqr := 0.0
 
+	if len(*l) > 0 {
+		allocs.Center = target.NumData[(*l)[0]]
+	} else if len(*r) > 0 {
+		allocs.Center = target.NumData[(*r)[0]]
+	}
+
 	//Left impurity
-	sum, sum_sqr = target.SumAndSumSquares(l)
+	sum, sum_sqr = target.sumsAround(l, allocs.Center)
 	impurityDecrease = nl * (sum_sqr - sum*sum/nl)
 	allocs.Lsum = sum
 	allocs.Lsum_sqr = sum_sqr
 
 	//Right Impurity
-	sum, sum_sqr = target.SumAndSumSquares(r)
+	sum, sum_sqr = target.sumsAround(r, allocs.Center)
 	impurityDecrease += nr * (sum_sqr - sum*sum/nr)
 	allocs.Rsum = sum
 	allocs.Rsum_sqr = sum_sqr
@@ -430,7 +437,7 @@ func (target *DenseNumFeature) SplitImpurity(l *[]int, r *[]int, m *[]int, alloc
 	//Missing Impurity
 	if m != nil && len(*m) > 0 {
 		nm = float64(len(*m))
-		sum, sum_sqr = target.SumAndSumSquares(m)
+		sum, sum_sqr = target.sumsAround(m, allocs.Center)
 		impurityDecrease += nm * (sum_sqr - sum*sum/nm)
 		allocs.Msum = sum
 		allocs.Msum_sqr = sum_sqr
@@ -449,7 +456,7 @@ func (target *DenseNumFeature) UpdateSImpFromAllocs(l *[]int, r *[]int, m *[]int
 	//= sum(xi^2) - sum(xi)^2/n
 	//it moves the sum and sum_sqr R to L in th allocs and recalculates impurities
 
-	MVsum, MVsum_sqr := target.SumAndSumSquares(movedRtoL)
+	MVsum, MVsum_sqr := target.sumsAround(movedRtoL, allocs.Center)
 
 	allocs.Lsum += MVsum
 	allocs.Rsum -= MVsum
@@ -486,6 +493,18 @@ func (target *DenseNumFeature) SumAndSumSquares(cases *[]int) (sum float64, sum_
 	return
 }
 
+//sumsAround returns the sums of the distances from center and of their squares. Sums around one of the
+//values keep the precision that is lost in the difference of the sums when the values are large compared
+//to their spread, and are zero when they are all the same.
+func (target *DenseNumFeature) sumsAround(cases *[]int, center float64) (sum float64, sum_sqr float64) {
+	for _, i := range *cases {
+		x := target.NumData[i] - center
+		sum += x
+		sum_sqr += x * x
+	}
+	return
+}
+
 //Impurity returns Gini impurity or mean squared error vs the mean for a set of cases
 //depending on weather the feature is categorical or numerical
 func (target *DenseNumFeature) Impurity(cases *[]int, counter *[]int) (e float64) {
@@ -497,7 +516,11 @@ func (target *DenseNumFeature) Impurity(cases *[]int, counter *[]int) (e float64
 	// m := target.Mean(cases)
 	// e = target.Error(cases, m)
 
-	sum, sum_sqr := target.SumAndSumSquares(cases)
+	center := 0.0
+	if len(*cases) > 0 {
+		center = target.NumData[(*cases)[0]]
+	}
+	sum, sum_sqr := target.sumsAround(cases, center)
 	e = sum_sqr - sum*sum/float64(len(*cases))
 
 	return
diff --git a/splitallocations.go b/splitallocations.go
index b7d9dad..c1db204 100644
--- a/splitallocations.go
+++ b/splitallocations.go
@@ -19,6 +19,7 @@ type BestSplitAllocs struct {
 	Counter        *[]int  //class counter for counting classes in splits used alone of for missing
 	LCounter       *[]int  //left class counter sumarizing (mean) splits
 	RCounter       *[]int  //right class counter sumarizing (mean) splits
+	Center         float64 //value the sums are taken around
 	Lsum           float64 //left value for sumarizing splits
 	Rsum           float64 //right value for sumarizing  splits
 	Msum           float64 //missing value for sumarizing splits
@@ -67,6 +68,7 @@ func NewBestSplitAllocs(nTotalCases int, target Target) (bsa *BestSplitAllocs) {
 		0.0,
 		0.0,
 		0.0,
+		0.0,
 		make([]int, nTotalCases, nTotalCases),
 		make([]float64, nTotalCases, nTotalCases),
 		&SortableFeature{make([]float64, nTotalCases, nTotalCases),
-- 
2.43.0


From 881f1193d36ebd85db712fe3d0114a176e63a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 88/95] fix: growforest reports that the out of bag predictions
 can't be written

---
 growforest/growforest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 02b0170..b5555ad 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -890,7 +890,10 @@ func main() {
 		}
 		defer caseoobfile.Close()
 		for i := 0; i < unboostedTarget.Length(); i++ {
-			fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))
+			_, err = fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 
-- 
2.43.0


From 38b9ee2072ce68813ec85f1e5ebf64e3b00dcc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:50 +0000
Subject: [PATCH 89/95] fix: with evaloob candidates whose decrease in bag was
 below the best decrease out of bag so far were not evaluated

---
 featurematrix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index bff7cec..168613a 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -240,7 +240,8 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 			lastSample++
 		}
 
-		if evaloob && inerImp > impurityDecrease {
+		//the decrease in bag doesn't limit the one out of bag
+		if evaloob && inerImp > minImp {
 			//spliter := f.DecodeSplit(split)
 			l, r, m := f.Split(split, *oob) //spliter.Split(fm, *oob)
 			inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)
-- 
2.43.0


From 1bc25f4cb327a9ab1c045e21e321491a51f65243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:50 +0000
Subject: [PATCH 90/95] fix: with evaloob targets that score splits directly,
 as in gradient boosting, never split

---
 featurematrix.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 168613a..ac925d6 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -244,7 +244,13 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 		if evaloob && inerImp > minImp {
 			//spliter := f.DecodeSplit(split)
 			l, r, m := f.Split(split, *oob) //spliter.Split(fm, *oob)
-			inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)
+			if parentImp < 0 {
+				//the target scores splits directly
+				inerImp = target.SplitImpurity(&l, &r, &m, allocs)
+				inerImp *= float64(len(l)+len(r)) / float64(len(*oob))
+			} else {
+				inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)
+			}
 		}
 
 		if vet && inerImp > impurityDecrease {
-- 
2.43.0


From 5affa589ad56c28452514f9c439894b325090228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:50 +0000
Subject: [PATCH 91/95] fix: with evaloob splits with all out of bag cases that
 have a value on one side had no impurity and were not considered

---
 featurematrix.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index ac925d6..846c492 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -249,7 +249,7 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 				inerImp = target.SplitImpurity(&l, &r, &m, allocs)
 				inerImp *= float64(len(l)+len(r)) / float64(len(*oob))
 			} else {
-				inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)
+				inerImp = target.Impurity(oob, allocs.Counter) - groupsImpurity(target, allocs, &l, &r, &m)
 			}
 		}
 
@@ -281,6 +281,26 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 	return
 }
 
+//groupsImpurity is the impurity of a split that may leave some of its groups empty. Empty groups have no
+//impurity and are left out.
+func groupsImpurity(target Target, allocs *BestSplitAllocs, groups ...*[]int) float64 {
+	filled := make([]*[]int, 0, len(groups))
+	for _, g := range groups {
+		if len(*g) > 0 {
+			filled = append(filled, g)
+		}
+	}
+	switch len(filled) {
+	case 3:
+		return target.SplitImpurity(filled[0], filled[1], filled[2], allocs)
+	case 2:
+		return target.SplitImpurity(filled[0], filled[1], nil, allocs)
+	case 1:
+		return target.Impurity(filled[0], allocs.Counter)
+	}
+	return 0
+}
+
 /*
 AddContrasts appends n artificial contrast features to a feature matrix. These features
 are generated by randomly selecting (with replacement) an existing feature and
-- 
2.43.0


From 0bc7ff4562052736aa6d82146587d9c844ae94be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:54 +0000
Subject: [PATCH 92/95] fix: GrowRandomForest with evaloob evaluated splits on
 no cases so that trees were never split

---
 forrest.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/forrest.go b/forrest.go
index 495324c..a7f8913 100644
--- a/forrest.go
+++ b/forrest.go
@@ -50,8 +50,12 @@ func GrowRandomForest(fm *FeatureMatrix,
 		f.Intercept = target.(TargetWithIntercept).Intercept()
 	}
 
-	//Slices for reuse during search for best splitter.
-	allocs := NewBestSplitAllocs(nSamples, target)
+	//Slices for reuse during search for best splitter. Vetting with evaloob searches the out of bag cases too.
+	nAlloc := nSamples
+	if nAlloc < fm.Data[0].Length() {
+		nAlloc = fm.Data[0].Length()
+	}
+	allocs := NewBestSplitAllocs(nAlloc, target)
 
 	//Cases with a missing target can't be learned from.
 	known := make([]int, 0, fm.Data[0].Length())
@@ -68,9 +72,22 @@ func GrowRandomForest(fm *FeatureMatrix,
 			cases[j] = known[c]
 		}
 
+		var oob []int
+		if evaloob {
+			inbag := make(map[int]bool, nSamples)
+			for _, c := range cases {
+				inbag[c] = true
+			}
+			for _, c := range known {
+				if !inbag[c] {
+					oob = append(oob, c)
+				}
+			}
+		}
+
 		f.Trees = append(f.Trees, NewTree())
 		f.Trees[i].Target = f.Target
-		f.Trees[i].Grow(fm, target, cases, candidates, nil, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
+		f.Trees[i].Grow(fm, target, cases, candidates, oob, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
 		switch target.(type) {
 		case BoostingTarget:
 			ls, ps := f.Trees[i].Partition(fm)
-- 
2.43.0


From 11d4b9b9a8b5b41edf1da5eaab7a8c992e2ff2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:20 +0000
Subject: [PATCH 93/95] fix: quote predictions that start or end with a space
 so they are read back unchanged

---
 forestwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestwriter.go b/forestwriter.go
index f48ff63..8b633ea 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -99,7 +99,7 @@ func (fw *ForestWriter) WriteNode(n *Node, path string) {
 	node := fmt.Sprintf("NODE=%v", path)
 	if n.Pred != "" {
 		pred := n.Pred
-		if strings.ContainsAny(pred, ",=") {
+		if strings.ContainsAny(pred, ",=") || strings.TrimSpace(pred) != pred {
 			pred = "\"" + pred + "\""
 		}
 		node += fmt.Sprintf(",PRED=%v", pred)
-- 
2.43.0


From f03fa68038f854adf572c0b651dfcbfb908c62bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:14 +0000
Subject: [PATCH 94/95] fix: quote values with tabs or quotes in them when
 writing feature matrixes

---
 featurematrix.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 846c492..5974bf4 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -105,13 +105,16 @@ func (fm *FeatureMatrix) OneHot() *FeatureMatrix {
 //WriteCases writes a new feature matrix with the specified cases to the the provided writer.
 func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 	vals := make([]string, 0, len(cases)+1)
+	//values with tabs or quotes in them are quoted
+	tsv := csv.NewWriter(w)
+	tsv.Comma = '\t'
 
 	//print header
 	vals = append(vals, ".")
 	for i := 0; i < len(cases); i++ {
 		vals = append(vals, fm.CaseLabels[cases[i]])
 	}
-	_, err = fmt.Fprintln(w, strings.Join(vals, "\t"))
+	err = tsv.Write(vals)
 	if err != nil {
 		return
 	}
@@ -123,14 +126,15 @@ func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 			vals = append(vals, fm.Data[i].GetStr(cases[j]))
 		}
 
-		_, err = fmt.Fprintln(w, strings.Join(vals, "\t"))
+		err = tsv.Write(vals)
 		if err != nil {
 			return
 		}
 
 	}
 
-	return
+	tsv.Flush()
+	return tsv.Error()
 
 }
 
-- 
2.43.0


From 5a4b1964a35b465d25e536f14bbe0bbd884d0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:14 +0000
Subject: [PATCH 95/95] fix: quote the first value of an ARFF row that would be
 read as a comment

---
 arff.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/arff.go b/arff.go
index f7b8f81..584fbf7 100644
--- a/arff.go
+++ b/arff.go
@@ -135,6 +135,23 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 			entries = append(entries, v)
 
 		}
+		//a row mustn't start like a comment
+		if strings.HasPrefix(entries[0], "%") {
+			oucsv.Flush()
+			_, err := fmt.Fprintf(outfile, "\"%v\"", strings.Replace(entries[0], "\"", "\"\"", -1))
+			if err != nil {
+				return err
+			}
+			//the rest of the row follows a comma
+			entries[0] = ""
+			if len(entries) == 1 {
+				_, err = fmt.Fprintln(outfile)
+				if err != nil {
+					return err
+				}
+				continue
+			}
+		}
 		//fmt.Println(entries)
 		err := oucsv.Write(entries)
 		if err != nil {
-- 
2.43.0

