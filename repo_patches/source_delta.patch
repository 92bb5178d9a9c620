From ae2552149ab8cc4dafe5a10791ef44915f9307c5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 01/21] fix: copy the point counts in Delaunay.Set

---
 triangulation/incrdelaunay/delaunay.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index e40f55f..5d5051b 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -301,6 +301,9 @@ func (d *Delaunay) Set(other *Delaunay) {
 
 	d.grid.Set(&other.grid)
 	d.pointMap.Set(&other.pointMap)
+
+	d.numPoints = other.numPoints
+	d.uniquePoints = other.uniquePoints
 }
 
 // HasPoint returns whether the triangulation contains point p.
-- 
2.43.0


From 15d81e39b0b4ab8bc15e31e742682d3a3d847ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 02/21] fix: add every image corner inside a Voronoi cell to
 its polygon

---
 triangulation/incrdelaunay/voronoi.go | 48 +++++++++------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 913dac7..8cc1828 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -162,8 +162,6 @@ func (v *IVoronoi) processPoint(point Point) {
 	if clip {
 		v.newPolygon = v.newPolygon[:0]
 
-		intersections := [4]int{-1, -1, -1, -1}
-
 		for i := 0; i < len(v.points); i++ {
 			a := v.points[i]
 			b := v.points[(i+1)%len(v.points)]
@@ -174,7 +172,7 @@ func (v *IVoronoi) processPoint(point Point) {
 				v.newPolygon = append(v.newPolygon, a)
 			}
 
-			for j, e := range edges {
+			for _, e := range edges {
 				e0 := FloatPoint{
 					X: e[0].X * float64(v.w),
 					Y: e[0].Y * float64(v.h),
@@ -203,24 +201,18 @@ func (v *IVoronoi) processPoint(point Point) {
 					if new != e0 && new != e1 {
 						v.newPolygon = append(v.newPolygon, new)
 					}
-					intersections[j] += 1
 				}
 			}
 
 		}
 
-		for j, e := range edges {
-			i0 := intersections[j]
-			i1 := intersections[(j+1)%len(edges)]
-
-			if i0 != -1 && i1 != -1 {
-				corner := FloatPoint{
-					X: e[1].X * float64(v.w),
-					Y: e[1].Y * float64(v.h),
-				}
-				if polygonPointIntersect(v.points, corner) {
-					v.newPolygon = append(v.newPolygon, corner)
-				}
+		for _, e := range edges {
+			corner := FloatPoint{
+				X: e[1].X * float64(v.w),
+				Y: e[1].Y * float64(v.h),
+			}
+			if polygonPointIntersect(v.points, corner) {
+				v.newPolygon = append(v.newPolygon, corner)
 			}
 		}
 
@@ -378,8 +370,6 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		if clip {
 			newPolygon = newPolygon[:0]
 
-			intersections := [4]int{-1, -1, -1, -1}
-
 			for i := 0; i < len(points); i++ {
 				a := points[i]
 				b := points[(i+1)%len(points)]
@@ -390,7 +380,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 					newPolygon = append(newPolygon, a)
 				}
 
-				for j, e := range edges {
+				for _, e := range edges {
 					e0 := FloatPoint{
 						X: e[0].X * float64(w),
 						Y: e[0].Y * float64(h),
@@ -419,24 +409,18 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 						if new != e0 && new != e1 {
 							newPolygon = append(newPolygon, new)
 						}
-						intersections[j] += 1
 					}
 				}
 
 			}
 
-			for j, e := range edges {
-				i0 := intersections[j]
-				i1 := intersections[(j+1)%len(edges)]
-
-				if i0 != -1 && i1 != -1 {
-					corner := FloatPoint{
-						X: e[1].X * float64(w),
-						Y: e[1].Y * float64(h),
-					}
-					if polygonPointIntersect(points, corner) {
-						newPolygon = append(newPolygon, corner)
-					}
+			for _, e := range edges {
+				corner := FloatPoint{
+					X: e[1].X * float64(w),
+					Y: e[1].Y * float64(h),
+				}
+				if polygonPointIntersect(points, corner) {
+					newPolygon = append(newPolygon, corner)
 				}
 			}
 
-- 
2.43.0


From bb18acd57093a1baa42081ee0aaaf33a3b7674da Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 03/21] fix: keep the points of a 1x1 image strictly inside the
 super triangle

---
 triangulation/incrdelaunay/geom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triangulation/incrdelaunay/geom.go b/triangulation/incrdelaunay/geom.go
index ec7a321..4fed920 100644
--- a/triangulation/incrdelaunay/geom.go
+++ b/triangulation/incrdelaunay/geom.go
@@ -34,6 +34,10 @@ func NewSuperTriangle(w, h int) Triangle {
 	if h > w {
 		max = int16(h)
 	}
+	if max < 2 {
+		// The triangle of a 1x1 image would have points of the image on its edges
+		max = 2
+	}
 	a := Point{hW - 2*max, hH - max}
 	b := Point{hW, hH + 2*max}
 	c := Point{hW + 2*max, hH - max}
-- 
2.43.0


From e6d4adab28c7b701fdc167dcec609bd217360356 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 04/21] fix: keep block colour sums of large blocks from
 overflowing

---
 fitness/pixels.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index 8a6360d..bdbefcd 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -61,7 +61,7 @@ type pixelDataN struct {
 
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
-	r, g, b uint16
+	r, g, b uint32
 	sq      uint32
 }
 
@@ -89,9 +89,9 @@ func fromImageN(image image.Data, n int) pixelDataN {
 			for i := 0; i < n; i++ {
 				for j := 0; j < n; j++ {
 					rgb := image.RGBAt(x+i, y+j)
-					col.r += uint16(rgb.R * 255)
-					col.g += uint16(rgb.G * 255)
-					col.b += uint16(rgb.B * 255)
+					col.r += uint32(rgb.R * 255)
+					col.g += uint32(rgb.G * 255)
+					col.b += uint32(rgb.B * 255)
 					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
-- 
2.43.0


From 96156f6f20f493bc3b35e39bf17297f87d432e59 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 05/21] fix: accept images smaller than a block

---
 fitness/pixels.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index bdbefcd..afd80da 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -68,6 +68,10 @@ type pixelN struct {
 // newPixelDataN creates a new pixelDataN given a width and height.
 func newPixelDataN(w, h, n int) pixelDataN {
 	data := pixelDataN{}
+	if w < n || h < n {
+		// No block fits in the image
+		return data
+	}
 	data.pixels = make([][]pixelN, h-n+1)
 
 	for i := range data.pixels {
-- 
2.43.0


From 892c37c4f54207e1c39198e87998407ee042e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 06/21] fix: never let an unevaluated member survive

---
 algorithm/modifiedgenetic.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/algorithm/modifiedgenetic.go b/algorithm/modifiedgenetic.go
index 7d9d165..18989e1 100644
--- a/algorithm/modifiedgenetic.go
+++ b/algorithm/modifiedgenetic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/RH12503/Triangula/mutation"
 	"github.com/RH12503/Triangula/normgeom"
 	"github.com/panjf2000/ants/v2"
+	"math"
 	"sort"
 	"time"
 )
@@ -199,8 +200,8 @@ func (g *modifiedGenetic) combineMutations() {
 			g.evaluator.Update(i)
 		} else {
 			// If there aren't any beneficial mutations, leave the member out of the next generation by setting
-			// its fitness to 0
-			g.fitnesses[i].Fitness = 0
+			// its fitness lower than that of any other member
+			g.fitnesses[i].Fitness = math.Inf(-1)
 		}
 	}
 }
@@ -262,6 +263,11 @@ func NewModifiedGenetic(newPointGroup func() normgeom.NormPointGroup, size int,
 
 	algo.fitnesses = make([]FitnessData, len(algo.population))
 
+	// The members reserved for combined mutations aren't evaluated at the start, so they mustn't become bases
+	for i := size - cutoff; i < size; i++ {
+		algo.fitnesses[i].Fitness = math.Inf(-1)
+	}
+
 	algo.mutations = make([][]mutation.Mutation, len(algo.population))
 	algo.beneficialMutations = make([]MutationsData, cutoff)
 
-- 
2.43.0


From caf7d129464b95fa0599871d58cc80261ba8d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 07/21] fix: let the initial cache fit a shared cache of any
 size

---
 fitness/polygons.go  | 2 +-
 fitness/triangles.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index a82df75..5bb4ea4 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -181,7 +181,7 @@ func PolygonsImageFunctions(target image.Data, blockSize, n int) []CacheFunction
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 648c7e8..3dd2a41 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -187,7 +187,7 @@ func TrianglesImageFunctions(target image.Data, blockSize, n int) []CacheFunctio
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
@@ -204,6 +204,6 @@ func NewTrianglesImageFunction(target image.Data, blockSize int) CacheFunction {
 		targetN:       fromImageN(target, blockSize),
 		blockSize:     blockSize,
 		maxDifference: float64(maxPixelDifference * w * h),
-		TriangleCache: make([]CacheData, 2),
+		TriangleCache: make([]CacheData, 1),
 	}
 }
-- 
2.43.0


From 451a3a8cae6f95543337597cd6040cd4c73d58b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 08/21] fix: honour the origin of an image's bounds in ToData

---
 image/rgbdata.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image/rgbdata.go b/image/rgbdata.go
index f422e87..ba44f6b 100644
--- a/image/rgbdata.go
+++ b/image/rgbdata.go
@@ -37,12 +37,13 @@ func NewData(w, h int) RGBData {
 
 // ToData converts an image.Image to a RGBData.
 func ToData(image image.Image) RGBData {
-	data := NewData(image.Bounds().Max.X, image.Bounds().Max.Y)
+	bounds := image.Bounds()
+	data := NewData(bounds.Dx(), bounds.Dy())
 
 	for y := range data.pixels {
 		for x := range data.pixels[y] {
 			col := &data.pixels[y][x]
-			r, g, b, _ := image.At(x, y).RGBA()
+			r, g, b, _ := image.At(bounds.Min.X+x, bounds.Min.Y+y).RGBA()
 
 			col.R = convertColor(r)
 			col.G = convertColor(g)
-- 
2.43.0


From b3bfa013d8e7b057805a24d4ee50e12ad3eb0fef Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 09/21] fix: return no triangles for points on a line

---
 triangulation/triangulator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triangulation/triangulator.go b/triangulation/triangulator.go
index 5110910..babab1a 100644
--- a/triangulation/triangulator.go
+++ b/triangulation/triangulator.go
@@ -21,7 +21,11 @@ func Triangulate(points normgeom.NormPointGroup, w, h int) []geom.Triangle {
 		group[i] = newPoint
 	}
 
-	triangulation, _ := delaunay.Triangulate(group)
+	triangulation, err := delaunay.Triangulate(group)
+	if err != nil {
+		// There are no triangles if all points lie on a line
+		return []geom.Triangle{}
+	}
 
 	triangles := triangulation.Triangles
 
-- 
2.43.0


From 400b9736c2fe080516650378052371d19aa85b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 10/21] fix: write the end of a generated trace

---
 utils/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/trace.go b/utils/trace.go
index 4631437..3a39716 100644
--- a/utils/trace.go
+++ b/utils/trace.go
@@ -21,5 +21,6 @@ func GenerateTrace(outputFile string, algo algorithm.Algorithm) {
 		algo.Step()
 	}
 	trace.Stop()
+	writer.Flush()
 	dataFile.Close()
 }
-- 
2.43.0


From 2438807bdbf38d248fb946ed289be8b8b2d1d580 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 11/21] fix: keep Float32 below one

---
 random/random.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/random/random.go b/random/random.go
index a11ce8f..ea28116 100644
--- a/random/random.go
+++ b/random/random.go
@@ -15,9 +15,14 @@ func Intn(n int) int {
 	return int(pcg.Bound(uint32(n)))
 }
 
-// Float32 returns a random float32.
+// Float32 returns a random float32 in [0, 1).
 func Float32() float32 {
-	return pcg.Float32()
+	for {
+		// The largest values of the source are rounded up to 1.
+		if f := pcg.Float32(); f < 1 {
+			return f
+		}
+	}
 }
 
 // Int63 returns a random int64.
-- 
2.43.0


From f337f1453e635380813c28062cf8002fb7b3684f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 12/21] fix: never return an infinite normal deviate

---
 random/random.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random/random.go b/random/random.go
index ea28116..927ccc2 100644
--- a/random/random.go
+++ b/random/random.go
@@ -68,7 +68,8 @@ func NormFloat64() float64 {
 			for {
 				x = -math.Log(float64(pcg.Float32())) * (1.0 / rn)
 				y := -math.Log(float64(pcg.Float32()))
-				if y+y >= x*x {
+				// x is infinite if its random number was 0.
+				if y+y >= x*x && !math.IsInf(x, 1) {
 					break
 				}
 			}
-- 
2.43.0


From 2a1fc6ba205c58c0cc14117d8545c13e3f2fe8ce Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 13/21] fix: keep spaced points from landing on one another

---
 generator/spaced.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/generator/spaced.go b/generator/spaced.go
index 8d857e6..ba04044 100644
--- a/generator/spaced.go
+++ b/generator/spaced.go
@@ -29,13 +29,13 @@ func (s spacedGenerator) Generate(n int) normgeom.NormPointGroup {
 		p := points[ran]
 		point := &points[ran]
 
-		_, currDist := closestTo(p, points)
+		_, currDist := closestTo(p, points, ran)
 		p.X += (rand.Float64() - 0.5) * temp
 		p.Y += (rand.Float64() - 0.5) * temp
 
 		p.Constrain()
 
-		_, newDist := closestTo(p, points)
+		_, newDist := closestTo(p, points, ran)
 
 		if newDist > currDist {
 			point.X = p.X
@@ -47,12 +47,13 @@ func (s spacedGenerator) Generate(n int) normgeom.NormPointGroup {
 	return points
 }
 
-func closestTo(point normgeom.NormPoint, group normgeom.NormPointGroup) (normgeom.NormPoint, float64) {
+// closestTo returns the point of a group closest to a point, leaving out the point at index skip.
+func closestTo(point normgeom.NormPoint, group normgeom.NormPointGroup, skip int) (normgeom.NormPoint, float64) {
 	closest := group[0]
 	dist := -1.
 
-	for _, p := range group {
-		if p == point {
+	for i, p := range group {
+		if i == skip {
 			continue
 		}
 
-- 
2.43.0


From 062f56de9d8ad8af61441048b610a939e03b64af Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 14/21] fix: let the spaced generator return no points

---
 generator/spaced.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/spaced.go b/generator/spaced.go
index ba04044..58f36cd 100644
--- a/generator/spaced.go
+++ b/generator/spaced.go
@@ -17,6 +17,10 @@ type spacedGenerator struct {
 func (s spacedGenerator) Generate(n int) normgeom.NormPointGroup {
 	points := randomPoints(n)
 
+	if n == 0 {
+		return points
+	}
+
 	/*points = append(points, normgeom.NormPoint{0, 0})
 	points = append(points, normgeom.NormPoint{0, 1})
 	points = append(points, normgeom.NormPoint{1, 1})
-- 
2.43.0


From 3b3e48a4352ffee97d5baba20452504af483e171 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 15/21] fix: index triangles with 32 bits, for triangulations
 of more than 32766 points

---
 triangulation/incrdelaunay/delaunay.go | 12 ++++++------
 triangulation/incrdelaunay/grid.go     | 20 ++++++++++----------
 triangulation/incrdelaunay/voronoi.go  |  8 ++++----
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index 5d5051b..78775ee 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -15,7 +15,7 @@ type Delaunay struct {
 
 	pointMap pointMap
 
-	freeTriangles []uint16 // A list of free indexes in the triangles slice.
+	freeTriangles []uint32 // A list of free indexes in the triangles slice.
 
 	superTriangle Triangle // A triangle that contains all points added.
 
@@ -57,7 +57,7 @@ func (d *Delaunay) Insert(p Point) bool {
 	d.resetEdges()
 
 	// Iterate through all the triangles with circumcircles that contain the point
-	d.grid.RemoveCircumcirclesThatContain(p, d.triangles, func(i uint16) {
+	d.grid.RemoveCircumcirclesThatContain(p, d.triangles, func(i uint32) {
 		t := d.triangles[i]
 
 		d.addEdge(NewEdge(t.A, t.B))
@@ -110,7 +110,7 @@ func (d *Delaunay) Remove(p Point) {
 	}
 
 	// Iterates through all the triangles that have a connection to point p
-	d.grid.RemoveThatHasVertex(p, d.triangles, func(i uint16) {
+	d.grid.RemoveThatHasVertex(p, d.triangles, func(i uint32) {
 		t := d.triangles[i]
 
 		addPoint(t.A)
@@ -243,14 +243,14 @@ func (d *Delaunay) addTriangle(t Triangle) {
 		return
 	}
 
-	d.grid.AddTriangle(t, uint16(len(d.triangles))) // Update the grid
+	d.grid.AddTriangle(t, uint32(len(d.triangles))) // Update the grid
 
 	d.triangles = append(d.triangles, t)
 }
 
 // markFreeTriangle marks a triangle in the triangles slice as no longer being needed,
 // essentially removing the triangle from the triangulation.
-func (d *Delaunay) markFreeTriangle(i uint16) {
+func (d *Delaunay) markFreeTriangle(i uint32) {
 	d.triangles[i].A.X = -1 // Marks the triangle as invalid
 	d.freeTriangles = append(d.freeTriangles, i)
 }
@@ -292,7 +292,7 @@ func (d *Delaunay) Set(other *Delaunay) {
 	if len(d.freeTriangles) > len(other.freeTriangles) {
 		d.freeTriangles = d.freeTriangles[:len(other.freeTriangles)]
 	} else if len(d.freeTriangles) < len(other.freeTriangles) {
-		d.freeTriangles = make([]uint16, len(other.freeTriangles))
+		d.freeTriangles = make([]uint32, len(other.freeTriangles))
 	}
 
 	copy(d.freeTriangles, other.freeTriangles)
diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 82eeab9..81ff0ee 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -7,7 +7,7 @@ import (
 // CircumcircleGrid is a data structure that uses spatial partitioning to allowed fast operations
 // involving multiple Triangle's and their Circumcircle's.
 type CircumcircleGrid struct {
-	triangles            [][][]uint16 // The grid used to store triangles
+	triangles            [][][]uint32 // The grid used to store triangles
 	cols, rows           int
 	rowPixels, colPixels float64 // The number of pixels per row and column
 }
@@ -20,15 +20,15 @@ func NewCircumcircleGrid(cols, rows, w, h int) CircumcircleGrid {
 	c.colPixels = float64(w) / float64(cols)
 	c.rowPixels = float64(h) / float64(rows)
 
-	c.triangles = make([][][]uint16, c.rows)
+	c.triangles = make([][][]uint32, c.rows)
 	for i := range c.triangles {
-		c.triangles[i] = make([][]uint16, c.cols)
+		c.triangles[i] = make([][]uint32, c.cols)
 	}
 	return c
 }
 
 // AddTriangle adds a Triangle with an index to the grid.
-func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
+func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
 	radius := t.Circumcircle.Radius + 0.001
 	topLeftX := int(float64(t.Circumcircle.cX-radius) / c.colPixels)
@@ -61,7 +61,7 @@ func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
 }
 
 // RemoveTriangle removes a triangle from the grid.
-func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint16) {
+func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
 	radius := tri.Circumcircle.Radius + 0.001
 	topLeftX := int(float64(tri.Circumcircle.cX-radius) / c.colPixels)
@@ -133,7 +133,7 @@ func (c CircumcircleGrid) HasPoint(p Point, triangles []Triangle) bool {
 }
 
 // RemoveCircumcirclesThatContain removes all triangles whose circumcircle contain a point.
-func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -166,7 +166,7 @@ func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Tr
 	}
 }
 
-func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -196,7 +196,7 @@ func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Tria
 }
 
 // RemoveThatHasVertex removes all triangles that have a vertex.
-func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -226,7 +226,7 @@ func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, con
 	}
 }
 
-func (c CircumcircleGrid) IterThatHasVertex(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) IterThatHasVertex(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -260,7 +260,7 @@ func (c *CircumcircleGrid) Set(other *CircumcircleGrid) {
 			if len(c.triangles[x][y]) > len(other.triangles[x][y]) {
 				c.triangles[x][y] = c.triangles[x][y][:len(other.triangles[x][y])]
 			} else if len(c.triangles[x][y]) < len(other.triangles[x][y]) {
-				c.triangles[x][y] = make([]uint16, len(other.triangles[x][y]))
+				c.triangles[x][y] = make([]uint32, len(other.triangles[x][y]))
 			}
 
 			copy(c.triangles[x][y], other.triangles[x][y])
diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 8cc1828..da12c15 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -35,7 +35,7 @@ func (v *IVoronoi) Insert(point Point) {
 	v.pointsToUpdate = v.pointsToUpdate[:0]
 	triangles := v.delaunay.triangles
 
-	v.delaunay.grid.IterCircumcirclesThatContain(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterCircumcirclesThatContain(point, triangles, func(i uint32) {
 		t := triangles[i]
 		v.addPointToUpdate(t.A)
 		v.addPointToUpdate(t.B)
@@ -65,7 +65,7 @@ func (v *IVoronoi) Remove(point Point) {
 	v.pointsToUpdate = v.pointsToUpdate[:0]
 	triangles := v.delaunay.triangles
 
-	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 		t := triangles[i]
 
 		v.addPointToUpdate(t.A)
@@ -102,7 +102,7 @@ func (v *IVoronoi) processPoint(point Point) {
 	v.points = v.points[:0]
 	clip := false
 
-	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 		circ := triangles[i].Circumcircle
 
 		new := FloatPoint{
@@ -310,7 +310,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		points = points[:0]
 		clip := false
 
-		delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+		delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 			circ := triangles[i].Circumcircle
 
 			new := FloatPoint{
-- 
2.43.0


From 064fc354ef3408e55282bbd7c5aa78044f2076db Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 16/21] fix: count the copies of a point with 32 bits

---
 triangulation/incrdelaunay/pointmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulation/incrdelaunay/pointmap.go b/triangulation/incrdelaunay/pointmap.go
index da8210a..e8004c9 100644
--- a/triangulation/incrdelaunay/pointmap.go
+++ b/triangulation/incrdelaunay/pointmap.go
@@ -13,7 +13,7 @@ func newPointMap(size int) pointMap {
 }
 
 // AddPoint adds a point to the pointMap, accounting for duplicates.
-func (pm *pointMap) AddPoint(point Point) uint16 {
+func (pm *pointMap) AddPoint(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -36,7 +36,7 @@ func (pm *pointMap) AddPoint(point Point) uint16 {
 
 // RemovePoint removes a point from the pointMap, accounting for duplicates,
 // and returning the number of the same point left.
-func (pm *pointMap) RemovePoint(point Point) uint16 {
+func (pm *pointMap) RemovePoint(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -58,7 +58,7 @@ func (pm *pointMap) RemovePoint(point Point) uint16 {
 	panic("point doesn't exist")
 }
 
-func (pm *pointMap) CopiesOf(point Point) uint16 {
+func (pm *pointMap) CopiesOf(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -109,5 +109,5 @@ func (pm pointMap) IterPoints(point func(Point)) {
 // pointEntry is used to keep track of a point and how many copies of a point there are.
 type pointEntry struct {
 	x, y  uint16
-	count uint16 // the number of a point the hash table contains.
+	count uint32 // the number of a point the hash table contains.
 }
-- 
2.43.0


From 3161a567f400d1a092ad5a77a9954d2348ea682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 17/21] fix: keep the squared colour sums of large shapes from
 overflowing

---
 fitness/polygons.go  | 4 +++-
 fitness/triangles.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index 5bb4ea4..d045f8d 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -131,7 +131,9 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				// The squares of the sums of large shapes don't fit into integers
+				r, g, b := float64(sR0), float64(sG0), float64(sB0)
+				diff = float64(sSq) - (r*r+g*g+b*b)/float64(n)
 			}
 			difference += diff
 			polyData.fitness = diff
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 3dd2a41..f22caed 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -135,7 +135,9 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				// The squares of the sums of large shapes don't fit into integers
+				r, g, b := float64(sR0), float64(sG0), float64(sB0)
+				diff = float64(sSq) - (r*r+g*g+b*b)/float64(n)
 			}
 			difference += diff
 			triData.fitness = diff
-- 
2.43.0


From 211d23ef188919d207af66680672e02edef80413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 18/21] fix: keep the sums of squares of large blocks from
 overflowing

---
 fitness/pixels.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index afd80da..76c4537 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -62,7 +62,7 @@ type pixelDataN struct {
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
 	r, g, b uint32
-	sq      uint32
+	sq      uint64
 }
 
 // newPixelDataN creates a new pixelDataN given a width and height.
@@ -96,7 +96,7 @@ func fromImageN(image image.Data, n int) pixelDataN {
 					col.r += uint32(rgb.R * 255)
 					col.g += uint32(rgb.G * 255)
 					col.b += uint32(rgb.B * 255)
-					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
+					col.sq += uint64(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
 		}
-- 
2.43.0


From 04df0551973068a3537df51c1c1dbcdfdcfcb3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 19/21] fix: handle circumcenters in the same direction from a
 point of a Voronoi diagram

---
 triangulation/incrdelaunay/voronoi.go | 65 +++++++++++----------------
 1 file changed, 26 insertions(+), 39 deletions(-)

diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index da12c15..dab1f78 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -19,6 +19,7 @@ type IVoronoi struct {
 	delaunay   *Delaunay
 	w, h       int
 	points     []FloatPoint
+	neighbors  []Point
 	newPolygon []FloatPoint
 	polygonMap polygonMap
 
@@ -100,9 +101,11 @@ func (v *IVoronoi) processPoint(point Point) {
 	triangles := v.delaunay.triangles
 
 	v.points = v.points[:0]
+	v.neighbors = v.neighbors[:0]
 	clip := false
 
 	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
+		v.neighbors = appendNeighbors(v.neighbors, triangles[i], v.delaunay.superTriangle)
 		circ := triangles[i].Circumcircle
 
 		new := FloatPoint{
@@ -156,7 +159,7 @@ func (v *IVoronoi) processPoint(point Point) {
 			return false
 		}
 
-		panic("...")
+		return false // In the same direction
 	})
 
 	if clip {
@@ -211,7 +214,7 @@ func (v *IVoronoi) processPoint(point Point) {
 				X: e[1].X * float64(v.w),
 				Y: e[1].Y * float64(v.h),
 			}
-			if polygonPointIntersect(v.points, corner) {
+			if isClosest(corner, point, v.neighbors) {
 				v.newPolygon = append(v.newPolygon, corner)
 			}
 		}
@@ -303,14 +306,17 @@ var edges = [4][2]FloatPoint{
 func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 	triangles := delaunay.triangles
 	points := make([]FloatPoint, 0, 8)
+	neighbors := make([]Point, 0, 8)
 
 	newPolygon := make([]FloatPoint, 0, 8)
 
 	delaunay.pointMap.IterPoints(func(point Point) {
 		points = points[:0]
+		neighbors = neighbors[:0]
 		clip := false
 
 		delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
+			neighbors = appendNeighbors(neighbors, triangles[i], delaunay.superTriangle)
 			circ := triangles[i].Circumcircle
 
 			new := FloatPoint{
@@ -364,7 +370,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 				return false
 			}
 
-			panic("...")
+			return false // In the same direction
 		})
 
 		if clip {
@@ -419,7 +425,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 					X: e[1].X * float64(w),
 					Y: e[1].Y * float64(h),
 				}
-				if polygonPointIntersect(points, corner) {
+				if isClosest(corner, point, neighbors) {
 					newPolygon = append(newPolygon, corner)
 				}
 			}
@@ -502,46 +508,27 @@ func outside(p FloatPoint, w, h int) bool {
 	return p.X < -epsilon || p.Y < -epsilon || p.X > float64(w)+epsilon || p.Y > float64(h)+epsilon
 }
 
-func polygonPointIntersect(polygon []FloatPoint, point FloatPoint) bool {
-	//n>2 Keep track of cross product sign changes
-	pos := 0
-	neg := 0
-
-	for i := 0; i < len(polygon); i++ {
-		//If point is in the polygon
-		if polygon[i] == point {
-			return true
+// appendNeighbors appends the vertices of a triangle which aren't vertices of the super triangle.
+func appendNeighbors(neighbors []Point, t, super Triangle) []Point {
+	for _, p := range [3]Point{t.A, t.B, t.C} {
+		if !super.HasVertex(p) {
+			neighbors = append(neighbors, p)
 		}
+	}
+	return neighbors
+}
 
-		//Form a segment between the i'th point
-		var x1 = polygon[i].X
-		var y1 = polygon[i].Y
-
-		//And the i+1'th, or if i is the last, with the first point
-		var i2 = (i + 1) % len(polygon)
-
-		var x2 = polygon[i2].X
-		var y2 = polygon[i2].Y
-
-		var x = point.X
-		var y = point.Y
-
-		//Compute the cross product
-		var d = (x-x1)*(y2-y1) - (y-y1)*(x2-x1)
-
-		if d > 0 {
-			pos++
-		}
-		if d < 0 {
-			neg++
-		}
+// isClosest returns if no neighbor of site is closer to p than site is.
+func isClosest(p FloatPoint, site Point, neighbors []Point) bool {
+	distSq := func(o Point) float64 {
+		x, y := p.X-float64(o.X), p.Y-float64(o.Y)
+		return x*x + y*y
+	}
 
-		//If the sign changes, then point is outside
-		if pos > 0 && neg > 0 {
+	for _, n := range neighbors {
+		if distSq(n) < distSq(site) {
 			return false
 		}
 	}
-
-	//If no change in direction, then on same side of all segments, and thus inside
 	return true
 }
-- 
2.43.0


From ef1383002ca658273c9f5caf477d6541c1b2db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:07 +0000
Subject: [PATCH 20/21] fix: evaluate after an evaluation without triangles, or
 with an empty cache

---
 fitness/polygons.go  | 4 ++++
 fitness/triangles.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index d045f8d..f2c8944 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -65,6 +65,10 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 
 	var difference float64
 
+	if len(g.TriangleCache) == 0 {
+		g.TriangleCache = make([]CacheData, 1)
+	}
+
 	cacheMask := uint64(len(g.TriangleCache)) - 1
 
 	tris := g.TriangleCache
diff --git a/fitness/triangles.go b/fitness/triangles.go
index f22caed..392e824 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -73,6 +73,10 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 
 	var difference float64
 
+	if len(t.TriangleCache) == 0 {
+		t.TriangleCache = make([]CacheData, 1)
+	}
+
 	cacheMask := uint64(len(t.TriangleCache)) - 1
 
 	tris := t.TriangleCache
-- 
2.43.0


From 0a7cef39f759a514eeddc031a2ffe608f5b575cf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:50:08 +0000
Subject: [PATCH 21/21] fix: find the triangles with the largest circumcircles
 in the grid

The circumcircle of a triangle is rounded to 32 bits, which loses the margin
of 0.001 once the radius exceeds 32768. On images over 7700 px a triangle that
only touches the lower edge of the image was then left out of the grid: it
stayed behind when its point was removed, and was missing from Voronoi cells.
---
 triangulation/incrdelaunay/grid.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 81ff0ee..a4fad98 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -30,11 +30,12 @@ func NewCircumcircleGrid(cols, rows, w, h int) CircumcircleGrid {
 // AddTriangle adds a Triangle with an index to the grid.
 func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
-	radius := t.Circumcircle.Radius + 0.001
-	topLeftX := int(float64(t.Circumcircle.cX-radius) / c.colPixels)
-	topLeftY := int(float64(t.Circumcircle.cY-radius) / c.rowPixels)
-	bottomRightX := int(math.Ceil(float64(t.Circumcircle.cX+radius) / c.colPixels))
-	bottomRightY := int(math.Ceil(float64(t.Circumcircle.cY+radius) / c.rowPixels))
+	// (The margin is larger than the rounding error of the circumcircles of the largest images)
+	radius := float64(t.Circumcircle.Radius) + 0.01
+	topLeftX := int((float64(t.Circumcircle.cX) - radius) / c.colPixels)
+	topLeftY := int((float64(t.Circumcircle.cY) - radius) / c.rowPixels)
+	bottomRightX := int(math.Ceil((float64(t.Circumcircle.cX) + radius) / c.colPixels))
+	bottomRightY := int(math.Ceil((float64(t.Circumcircle.cY) + radius) / c.rowPixels))
 
 	if topLeftX < 0 {
 		topLeftX = 0
@@ -63,11 +64,12 @@ func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 // RemoveTriangle removes a triangle from the grid.
 func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
-	radius := tri.Circumcircle.Radius + 0.001
-	topLeftX := int(float64(tri.Circumcircle.cX-radius) / c.colPixels)
-	topLeftY := int(float64(tri.Circumcircle.cY-radius) / c.rowPixels)
-	bottomRightX := int(math.Ceil(float64(tri.Circumcircle.cX+radius) / c.colPixels))
-	bottomRightY := int(math.Ceil(float64(tri.Circumcircle.cY+radius) / c.rowPixels))
+	// (The margin is larger than the rounding error of the circumcircles of the largest images)
+	radius := float64(tri.Circumcircle.Radius) + 0.01
+	topLeftX := int((float64(tri.Circumcircle.cX) - radius) / c.colPixels)
+	topLeftY := int((float64(tri.Circumcircle.cY) - radius) / c.rowPixels)
+	bottomRightX := int(math.Ceil((float64(tri.Circumcircle.cX) + radius) / c.colPixels))
+	bottomRightY := int(math.Ceil((float64(tri.Circumcircle.cY) + radius) / c.rowPixels))
 
 	if topLeftX < 0 {
 		topLeftX = 0
-- 
2.43.0

