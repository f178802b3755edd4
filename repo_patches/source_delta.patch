From 4e44c735be63945f3b290a5354aae38e9e732a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 01/11] fix: r3: in-place Normalize of the zero vector yields
 the zero vector, not NaN

---
 r3/vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/r3/vector.go b/r3/vector.go
index a509944..90a17e7 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -31,6 +31,7 @@ func (v *Vector) Normalize() *Vector {
 	n2 := v.Norm2()
 	if n2 == 0 {
 		v.X, v.Y, v.Z = 0, 0, 0
+		return v
 	}
 	v.Scale(1 / math.Sqrt(n2))
 	return v
-- 
2.43.0


From 28219b5ddf04b39f68040d193e00add1daca78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 02/11] fix: r3: the distance to a plane uses the plane's own
 distance term

---
 r3/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r3/vector.go b/r3/vector.go
index 90a17e7..22505a8 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -110,7 +110,7 @@ func Cross(v Vector, ov Vector) Vector {
 }
 
 // CalculateDistanceToPlane returns the distance from vector v to plane p
-func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Normal.Norm2() }
+func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Distance }
 
 func det2D(a, b Vector) float64 {
 	return a.X*b.Y - a.Y*b.X
-- 
2.43.0


From c2ddd19d247a8dc1b4fd2e262f9bca1fad991631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 03/11] fix: r3: decide parallelism on the direction itself,
 not on its rounded normalisation

---
 r3/line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r3/line.go b/r3/line.go
index 9d4f847..5b0560d 100644
--- a/r3/line.go
+++ b/r3/line.go
@@ -11,7 +11,7 @@ type Plane3D struct {
 }
 
 func (line Line) IntersectPlane(plane Plane3D) Vector {
-	if Dot(plane.Normal, Normalize(line.Direction)) == 0 {
+	if Dot(plane.Normal, line.Direction) == 0 {
 		panic("plane and line are parallel. Therefore, no intersection")
 	}
 
-- 
2.43.0


From 54730b04a2051e57313d1e7e71f06d7d94ca8c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 04/11] fix: triangulate3: start the extents beyond every
 float64, not every float32

---
 triangulate3/englober.go | 4 ++--
 triangulate3/gdel3d.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 9fe66d5..e87aafc 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -58,8 +58,8 @@ func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 }
 
 func computeBoundingBoxForVectors(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
+	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 3dae706..0ad2771 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -44,8 +44,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 }
 
 func computeExtremitiesForAxeX(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.Inf(1), math.Inf(1), math.Inf(1)}
+	maxExtremity := r3.Vector{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
-- 
2.43.0


From fc487afa7bd2ad058866c0a87c36d4567305500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 05/11] fix: triangulate3: the furthest point from a plane may
 lie on either side of it

---
 triangulate3/gdel3d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 0ad2771..4f80396 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -34,8 +34,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 	max := 0.0
 	var furthestVector r3.Vector
 	for _, Vector := range Vectors {
-		dist := Get3Ddist(a, b, c, Vector)
-		if max > dist {
+		dist := math.Abs(Get3Ddist(a, b, c, Vector))
+		if max < dist {
 			furthestVector = Vector
 			max = dist
 		}
-- 
2.43.0


From a6997a5ddcb5831dbd91b067e9311edf1afae822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 06/11] fix: triangulate3: place the enclosing tetrahedron
 around the box, whatever its position

The apex was at twice the largest y, which is inside the box or below it for
points with a large or negative y, and the base triangle left out the corner
under the apex.
---
 triangulate3/englober.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index e87aafc..8dbef01 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -19,21 +19,21 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 	lowerPlane := r3.Plane3D{Normal: normal, Vector: minExtremity}
 	top := getTopVectorOfTetrahedron(minExtremity, maxExtremity)
 	//Line 1
-	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, 2*maxExtremity.Z - minExtremity.Z}
 	Direct1 := r3.Sub(top, upperVector1)
 	line1 := r3.Line{Vector: upperVector1, Direction: Direct1}
 	// first bottom Intersection Vector
 	tetraPoint1 := line1.IntersectPlane(lowerPlane)
 
 	//Line 2
-	upperVector2 := r3.Vector{maxExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector2 := r3.Vector{2*maxExtremity.X - minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct2 := r3.Sub(top, upperVector2)
 	line2 := r3.Line{Vector: upperVector2, Direction: Direct2}
 	// second bottom Intersection Vector
 	tetraPoint2 := line2.IntersectPlane(lowerPlane)
 
 	//Line 3
-	upperVector3 := r3.Vector{maxExtremity.X, maxExtremity.Y, minExtremity.Z}
+	upperVector3 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct3 := r3.Sub(top, upperVector3)
 	line3 := r3.Line{Vector: upperVector3, Direction: Direct3}
 	// third bottom Intersection Vector
@@ -51,7 +51,7 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 }
 func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 	x := minExtremity.X
-	y := 2 * maxExtremity.Y
+	y := 2*maxExtremity.Y - minExtremity.Y
 	z := minExtremity.Z
 
 	return r3.Vector{x, y, z}
-- 
2.43.0


From 2dcaf54948aba7e8923a402ef0b20b56749e3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 07/11] fix: circle and ellipse triangles index a vertex past
 the end

---
 shape/circle.go  | 2 +-
 shape/ellipse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape/circle.go b/shape/circle.go
index 1bc55dd..4c9f9e4 100644
--- a/shape/circle.go
+++ b/shape/circle.go
@@ -44,7 +44,7 @@ func (c Circle) generateVertices(circle *Mesh) {
 
 func (c Circle) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
diff --git a/shape/ellipse.go b/shape/ellipse.go
index a55589d..0cf44dc 100644
--- a/shape/ellipse.go
+++ b/shape/ellipse.go
@@ -46,7 +46,7 @@ func (e Ellipse) generateVertices(circle *Mesh) {
 
 func (e Ellipse) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
-- 
2.43.0


From 30c6107160b1396917b2653c98079c8ace2447cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 08/11] fix: sphere and torus ignore the requested center

---
 shape/sphere.go | 1 +
 shape/torus.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/shape/sphere.go b/shape/sphere.go
index 255cf9c..3c36c5c 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -54,6 +54,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			y = xy * math.Sin(sectorAngle) // r * cos(u) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(sd.center)
 			sphere.Vertices = append(sphere.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
diff --git a/shape/torus.go b/shape/torus.go
index 1c26206..12f1f28 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -54,6 +54,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 			y = xy * math.Sin(sectorAngle) // (R + r * cos(u)) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(td.center)
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-- 
2.43.0


From b0274c3695788fb728e54b76a8ee244793a451e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 09/11] fix: texture coordinates are truncated to integers

---
 shape/sphere.go | 4 ++--
 shape/torus.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 3c36c5c..0f535bf 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -66,8 +66,8 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			sphere.Normals = append(sphere.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / sd.sectorCount)
-			t = float64(i / sd.stackCount)
+			s = float64(j) / float64(sd.sectorCount)
+			t = float64(i) / float64(sd.stackCount)
 
 			texCoord := [2]float64{s, t}
 			sphere.TexCoords = append(sphere.TexCoords, texCoord)
diff --git a/shape/torus.go b/shape/torus.go
index 12f1f28..e480e35 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -66,8 +66,8 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Normals = append(torus.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / td.sectorCount)
-			t = float64(i / td.stackCount)
+			s = float64(j) / float64(td.sectorCount)
+			t = float64(i) / float64(td.stackCount)
 
 			texCoord := [2]float64{s, t}
 			torus.TexCoords = append(torus.TexCoords, texCoord)
-- 
2.43.0


From ab61dd64253b5d15d6c364f62ed75153988e251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 10/11] fix: torus normals are not unit normals of the tube

---
 shape/torus.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index e480e35..b316e89 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -35,7 +35,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 	sectorStep := 2 * math.Pi / float64(td.sectorCount)
 	stackStep := 2 * math.Pi / float64(td.stackCount)
 
-	lengthInv = 1.0 / float64(td.radius)
+	lengthInv = 1.0 / float64(td.tubeRadius)
 
 	for i := 0; i < td.stackCount; i++ {
 
@@ -58,8 +58,8 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-			nx = x * lengthInv
-			ny = y * lengthInv
+			nx = (x - td.radius*math.Cos(sectorAngle)) * lengthInv
+			ny = (y - td.radius*math.Sin(sectorAngle)) * lengthInv
 			nz = z * lengthInv
 
 			normal := [3]float64{nx, ny, nz}
-- 
2.43.0


From b944b3ad143b3dbb50d194e6dca271a67ad1134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 11/11] fix: basis function derivatives start from a zero table
 and read wrong knot differences

---
 nurbs/basis.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 370d9ff..0855063 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -90,10 +90,11 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 
 	left := make([]float64, p+1)
 	right := make([]float64, p+1)
+	ndu[0][0] = 1.
 	/* ------------------------------------ */
 	for j := 1; j <= p; j++ {
 		left[j] = float64(u - U[i+1-j])
-		right[j] = float64(U[i+1] - u)
+		right[j] = float64(U[i+j] - u)
 		saved := 0.
 		for r := 0; r < j; r++ {
 			/* lower triangle */
@@ -141,7 +142,7 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 			}
 			for j := j1; j <= j2; j++ {
 				a[s2][j] = (a[s1][j] - a[s1][j-1]) / ndu[pk+1][rk+j]
-				d += a[s2][j] * ndu[r][pk]
+				d += a[s2][j] * ndu[rk+j][pk]
 			}
 			if r <= pk {
 				a[s2][k] = -a[s1][k-1] / ndu[pk+1][r]
-- 
2.43.0

