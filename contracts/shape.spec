// Contracts of package shape: primitive meshes.
package "geGoMetry/shape"

pure sameV(a []r3.Vector, b []r3.Vector, n int) bool = forall i int :: 0 <= i && i < n ==> a[i] == b[i]

pure onCircle(v r3.Vector, c r3.Vector, r real) bool = v.Z == c.Z && (v.X-c.X)*(v.X-c.X) + (v.Y-c.Y)*(v.Y-c.Y) == r*r
pure onEllipse(v r3.Vector, c r3.Vector, a real, b real) bool =
  v.Z == c.Z && b*b*(v.X-c.X)*(v.X-c.X) + a*a*(v.Y-c.Y)*(v.Y-c.Y) == a*a*b*b

// index i of a fan of triangles around vertex 0 over n vertices, each triangle in both windings
pure fan(i int, n int) int =
  i % 6 == 0 || i % 6 == 5 ? 0 : i % 6 == 1 || i % 6 == 4 ? div(i, 6) + 1 : div(i, 6) + 2 < n ? div(i, 6) + 2 : 1

// ---- circle ----

func (c Circle) generateVertices(circle)
  requires circle != nil && c.sectorCount >= 1
  modifies *circle, spare(circle.Vertices)
  ensures [C11] "the centre and one vertex per sector" len(circle.Vertices) == old(len(circle.Vertices)) + c.sectorCount + 1
  ensures [C12] "the centre comes first" circle.Vertices[old(len(circle.Vertices))] == c.center
  ensures [C12] "the rim vertices are on the circle" forall i int :: old(len(circle.Vertices)) < i && i < len(circle.Vertices) ==> onCircle(circle.Vertices[i], c.center, c.radius)
  ensures [C11] "nothing else is touched" sameV(circle.Vertices, old(circle.Vertices), old(len(circle.Vertices))) && circle.Indices == old(circle.Indices)
  invariant [k phi int] len(circle.Vertices) == old(len(circle.Vertices)) + 1 + k
  invariant circle.Vertices[old(len(circle.Vertices))] == c.center
  invariant forall i int :: old(len(circle.Vertices)) < i && i < len(circle.Vertices) ==> onCircle(circle.Vertices[i], c.center, c.radius)

func (c Circle) generateIndices(circle)
  requires circle != nil && 2 <= len(circle.Vertices) && len(circle.Vertices) < 2147483648 && len(circle.Indices) == 0
  modifies *circle, spare(circle.Indices)
  ensures [C11, C12] "two triangles per sector" len(circle.Indices) == 6*(len(circle.Vertices)-1)
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(circle.Indices) ==> circle.Indices[i] < len(circle.Vertices)
  ensures [C12] "the centre with two neighbouring rim vertices, in both windings" forall i int :: 0 <= i && i < len(circle.Indices) ==> circle.Indices[i] == fan(i, len(circle.Vertices))
  ensures [C11] "the vertices are kept" circle.Vertices == old(circle.Vertices)
  invariant [k phi int] len(circle.Indices) == 6*(k-1)
  invariant forall i int :: 0 <= i && i < len(circle.Indices) ==> circle.Indices[i] == fan(i, len(circle.Vertices))

func (c Circle) Construct() (m)
  requires c.sectorCount >= 1 && c.sectorCount < 2147483647
  ensures [C11] "the centre and one vertex per sector" len(m.Vertices) == c.sectorCount + 1
  ensures [C11] "whole triangles" len(m.Indices) % 3 == 0
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] < len(m.Vertices)
  ensures [C12] "the centre comes first" m.Vertices[0] == c.center
  ensures [C12] "the rim vertices are on the circle" forall i int :: 0 < i && i < len(m.Vertices) ==> onCircle(m.Vertices[i], c.center, c.radius)
  ensures [C12] "one triangle per sector and winding" len(m.Indices) == 6*c.sectorCount
  ensures [C12] "the centre with two neighbouring rim vertices, in both windings" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] == fan(i, len(m.Vertices))

func ConstructCircle(center, radius) (m)
  ensures [C11] "the centre and one vertex per sector" len(m.Vertices) == 101
  ensures [C11] "whole triangles" len(m.Indices) % 3 == 0
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] < len(m.Vertices)
  ensures [C12] "the centre comes first" m.Vertices[0] == center
  ensures [C12] "the rim vertices are on the circle" forall i int :: 0 < i && i < len(m.Vertices) ==> onCircle(m.Vertices[i], center, radius)
  ensures [C12] "one triangle per sector and winding" len(m.Indices) == 600
  ensures [C12] "the centre with two neighbouring rim vertices, in both windings" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] == fan(i, len(m.Vertices))

// ---- ellipse ----

func (e Ellipse) generateVertices(circle)
  requires circle != nil && e.sectorCount >= 1
  modifies *circle, spare(circle.Vertices)
  ensures [C11] "the centre and one vertex per sector" len(circle.Vertices) == old(len(circle.Vertices)) + e.sectorCount + 1
  ensures [C12] "the centre comes first" circle.Vertices[old(len(circle.Vertices))] == e.center
  ensures [C12] "the rim vertices are on the ellipse" forall i int :: old(len(circle.Vertices)) < i && i < len(circle.Vertices) ==> onEllipse(circle.Vertices[i], e.center, e.semiAxis1, e.semiAxis2)
  ensures [C11] "nothing else is touched" sameV(circle.Vertices, old(circle.Vertices), old(len(circle.Vertices))) && circle.Indices == old(circle.Indices)
  invariant [k phi int] len(circle.Vertices) == old(len(circle.Vertices)) + 1 + k
  invariant circle.Vertices[old(len(circle.Vertices))] == e.center
  invariant forall i int :: old(len(circle.Vertices)) < i && i < len(circle.Vertices) ==> onEllipse(circle.Vertices[i], e.center, e.semiAxis1, e.semiAxis2)

func (e Ellipse) generateIndices(circle)
  requires circle != nil && 2 <= len(circle.Vertices) && len(circle.Vertices) < 2147483648 && len(circle.Indices) == 0
  modifies *circle, spare(circle.Indices)
  ensures [C11, C12] "two triangles per sector" len(circle.Indices) == 6*(len(circle.Vertices)-1)
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(circle.Indices) ==> circle.Indices[i] < len(circle.Vertices)
  ensures [C12] "the centre with two neighbouring rim vertices, in both windings" forall i int :: 0 <= i && i < len(circle.Indices) ==> circle.Indices[i] == fan(i, len(circle.Vertices))
  ensures [C11] "the vertices are kept" circle.Vertices == old(circle.Vertices)
  invariant [k phi int] len(circle.Indices) == 6*(k-1)
  invariant forall i int :: 0 <= i && i < len(circle.Indices) ==> circle.Indices[i] == fan(i, len(circle.Vertices))

func (e Ellipse) Construct() (m)
  requires e.sectorCount >= 1 && e.sectorCount < 2147483647
  ensures [C11] "the centre and one vertex per sector" len(m.Vertices) == e.sectorCount + 1
  ensures [C11] "whole triangles" len(m.Indices) % 3 == 0
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] < len(m.Vertices)
  ensures [C12] "the centre comes first" m.Vertices[0] == e.center
  ensures [C12] "the rim vertices are on the ellipse" forall i int :: 0 < i && i < len(m.Vertices) ==> onEllipse(m.Vertices[i], e.center, e.semiAxis1, e.semiAxis2)
  ensures [C12] "one triangle per sector and winding" len(m.Indices) == 6*e.sectorCount
  ensures [C12] "the centre with two neighbouring rim vertices, in both windings" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] == fan(i, len(m.Vertices))

func ConstructEllipse(center, semiAxis1, semiAxis2) (m)
  ensures [C11] "the centre and one vertex per sector" len(m.Vertices) == 101
  ensures [C11] "whole triangles" len(m.Indices) % 3 == 0
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] < len(m.Vertices)
  ensures [C12] "the centre comes first" m.Vertices[0] == center
  ensures [C12] "the rim vertices are on the ellipse" forall i int :: 0 < i && i < len(m.Vertices) ==> onEllipse(m.Vertices[i], center, semiAxis1, semiAxis2)
  ensures [C12] "one triangle per sector and winding" len(m.Indices) == 600
  ensures [C12] "the centre with two neighbouring rim vertices, in both windings" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] == fan(i, len(m.Vertices))

// ---- sphere and torus ----

// the texture coordinates run through the sectors of each stack
pure texAt(a [2]float64, sector real, stack real, sectors real, stacks real) bool = a[0] == sector/sectors && a[1] == stack/stacks
pure texNext(a [2]float64, b [2]float64, sectors real, stacks real) bool =
  a[0] < 1 && b[0] == a[0] + 1/sectors && b[1] == a[1] ||
  a[0] == 1 && b[0] == 0 && b[1] == a[1] + 1/stacks
pure unit01(a [2]float64) bool = 0 <= a[0] && a[0] <= 1 && 0 <= a[1] && a[1] <= 1
pure unitLen(n [3]float64) bool = n[0]*n[0] + n[1]*n[1] + n[2]*n[2] == 1

// a vertex of a sphere is the radius away from the centre along its normal
pure ball(v r3.Vector, n [3]float64, c r3.Vector, r real) bool =
  v.X == c.X + r*n[0] && v.Y == c.Y + r*n[1] && v.Z == c.Z + r*n[2]

// a vertex of a torus is the tube radius away, along its normal, from a point of the centre
// circle, and the normal is at right angles to the circle there
pure ring(v r3.Vector, n [3]float64, c r3.Vector, big real, r real) bool =
  v.Z == c.Z + r*n[2] &&
  (v.X - c.X - r*n[0])*(v.X - c.X - r*n[0]) + (v.Y - c.Y - r*n[1])*(v.Y - c.Y - r*n[1]) == big*big &&
  n[0]*(v.Y - c.Y - r*n[1]) == n[1]*(v.X - c.X - r*n[0])

func (sd Sphere) generateVertices(sphere)
  requires sphere != nil && sd.sectorCount >= 1 && sd.stackCount >= 1 && sd.radius > 0
  requires len(sphere.Vertices) == 0 && len(sphere.Normals) == 0 && len(sphere.TexCoords) == 0
  modifies *sphere, spare(sphere.Vertices), spare(sphere.Normals), spare(sphere.TexCoords)
  ensures [C11] "a vertex per stack and sector, and one more to close each stack" len(sphere.Vertices) == sd.stackCount*(sd.sectorCount+1)
  ensures [C11] "a normal and a texture coordinate per vertex" len(sphere.Normals) == len(sphere.Vertices) && len(sphere.TexCoords) == len(sphere.Vertices)
  ensures [C13] "unit normals" forall i int :: 0 <= i && i < len(sphere.Normals) ==> unitLen(sphere.Normals[i])
  ensures [C13] "the radius from the centre, along the normal" forall i int :: 0 <= i && i < len(sphere.Vertices) ==> ball(sphere.Vertices[i], sphere.Normals[i], sd.center, sd.radius)
  ensures [C13] "texture coordinates within bounds" forall i int :: 0 <= i && i < len(sphere.TexCoords) ==> unit01(sphere.TexCoords[i])
  ensures [C13] "texture coordinates start at zero" sphere.TexCoords[0][0] == 0 && sphere.TexCoords[0][1] == 0
  ensures [C13] "texture coordinates follow sectors and stacks" forall i int :: 0 < i && i < len(sphere.TexCoords) ==> texNext(sphere.TexCoords[i-1], sphere.TexCoords[i], real(sd.sectorCount), real(sd.stackCount))
  ensures [C11] "the indices are kept" sphere.Indices == old(sphere.Indices)
  invariant [k phi int] len(sphere.Vertices) == k*(sd.sectorCount+1)
  invariant [k phi int, i outer int] len(sphere.Vertices) == i*(sd.sectorCount+1) + k
  invariant len(sphere.Normals) == len(sphere.Vertices)
  invariant len(sphere.TexCoords) == len(sphere.Vertices)
  invariant forall i int :: 0 <= i && i < len(sphere.Normals) ==> unitLen(sphere.Normals[i])
  invariant forall i int :: 0 <= i && i < len(sphere.Vertices) ==> ball(sphere.Vertices[i], sphere.Normals[i], sd.center, sd.radius)
  invariant forall i int :: 0 <= i && i < len(sphere.TexCoords) ==> unit01(sphere.TexCoords[i])
  invariant len(sphere.TexCoords) > 0 ==> sphere.TexCoords[0][0] == 0 && sphere.TexCoords[0][1] == 0
  invariant forall i int :: 0 < i && i < len(sphere.TexCoords) ==> texNext(sphere.TexCoords[i-1], sphere.TexCoords[i], real(sd.sectorCount), real(sd.stackCount))
  invariant [k phi int] k > 0 ==> texAt(sphere.TexCoords[len(sphere.TexCoords)-1], real(sd.sectorCount), real(k-1), real(sd.sectorCount), real(sd.stackCount))
  invariant [k phi int, i outer int] k > 0 ==> texAt(sphere.TexCoords[len(sphere.TexCoords)-1], real(k-1), real(i), real(sd.sectorCount), real(sd.stackCount))
  invariant [k phi int, i outer int] k == 0 && i > 0 ==> texAt(sphere.TexCoords[len(sphere.TexCoords)-1], real(sd.sectorCount), real(i-1), real(sd.sectorCount), real(sd.stackCount))

func (sd Sphere) generateIndices(sphere)
  requires sphere != nil && sd.sectorCount >= 1 && sd.stackCount >= 2 && len(sphere.Indices) == 0
  requires sd.stackCount*(sd.sectorCount+1) < 2147483648
  modifies *sphere, spare(sphere.Indices)
  ensures [C11] "a triangle per sector at the top and two per sector of the inner stacks" len(sphere.Indices) == 3*sd.sectorCount + 6*sd.sectorCount*(sd.stackCount-2)
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(sphere.Indices) ==> sphere.Indices[i] < sd.stackCount*(sd.sectorCount+1)
  ensures [C11] "the vertices are kept" sphere.Vertices == old(sphere.Vertices) && sphere.Normals == old(sphere.Normals) && sphere.TexCoords == old(sphere.TexCoords)
  invariant [k phi int, a phi uint32] a == k
  invariant [k phi int, a phi uint32] a == k + sd.sectorCount + 1
  invariant [k phi int] len(sphere.Indices) == 3*k
  invariant [k phi int] len(sphere.Indices) == 3*sd.sectorCount + 6*sd.sectorCount*(k-1)
  invariant [k phi int, i outer int] len(sphere.Indices) == 3*sd.sectorCount + 6*sd.sectorCount*(i-1) + 6*k
  invariant [k phi int, i outer int, a phi uint32] a == i*(sd.sectorCount+1) + k
  invariant [k phi int, i outer int, a phi uint32] a == (i+1)*(sd.sectorCount+1) + k
  invariant forall i int :: 0 <= i && i < len(sphere.Indices) ==> sphere.Indices[i] < sd.stackCount*(sd.sectorCount+1)

func (sd Sphere) Construct() (m)
  requires sd.sectorCount >= 1 && sd.stackCount >= 2 && sd.radius > 0
  requires sd.stackCount*(sd.sectorCount+1) < 2147483648
  ensures [C11] "a vertex per stack and sector, and one more to close each stack" len(m.Vertices) == sd.stackCount*(sd.sectorCount+1)
  ensures [C11] "a normal and a texture coordinate per vertex" len(m.Normals) == len(m.Vertices) && len(m.TexCoords) == len(m.Vertices)
  ensures [C13] "unit normals" forall i int :: 0 <= i && i < len(m.Normals) ==> unitLen(m.Normals[i])
  ensures [C13] "the radius from the centre, along the normal" forall i int :: 0 <= i && i < len(m.Vertices) ==> ball(m.Vertices[i], m.Normals[i], sd.center, sd.radius)
  ensures [C13] "texture coordinates within bounds" forall i int :: 0 <= i && i < len(m.TexCoords) ==> unit01(m.TexCoords[i])
  ensures [C13] "texture coordinates start at zero" m.TexCoords[0][0] == 0 && m.TexCoords[0][1] == 0
  ensures [C13] "texture coordinates follow sectors and stacks" forall i int :: 0 < i && i < len(m.TexCoords) ==> texNext(m.TexCoords[i-1], m.TexCoords[i], real(sd.sectorCount), real(sd.stackCount))
  ensures [C11] "a triangle per sector at the top and two per sector of the inner stacks" len(m.Indices) == 3*sd.sectorCount + 6*sd.sectorCount*(sd.stackCount-2)
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] < sd.stackCount*(sd.sectorCount+1)

func ConstructSphere(center, radius) (m)
  requires radius > 0
  ensures [C11] "a vertex per stack and sector, and one more to close each stack" len(m.Vertices) == 300*(300+1)
  ensures [C11] "a normal and a texture coordinate per vertex" len(m.Normals) == len(m.Vertices) && len(m.TexCoords) == len(m.Vertices)
  ensures [C13] "unit normals" forall i int :: 0 <= i && i < len(m.Normals) ==> unitLen(m.Normals[i])
  ensures [C13] "the radius from the centre, along the normal" forall i int :: 0 <= i && i < len(m.Vertices) ==> ball(m.Vertices[i], m.Normals[i], center, radius)
  ensures [C13] "texture coordinates within bounds" forall i int :: 0 <= i && i < len(m.TexCoords) ==> unit01(m.TexCoords[i])
  ensures [C13] "texture coordinates start at zero" m.TexCoords[0][0] == 0 && m.TexCoords[0][1] == 0
  ensures [C13] "texture coordinates follow sectors and stacks" forall i int :: 0 < i && i < len(m.TexCoords) ==> texNext(m.TexCoords[i-1], m.TexCoords[i], real(300), real(300))
  ensures [C11] "a triangle per sector at the top and two per sector of the inner stacks" len(m.Indices) == 3*300 + 6*300*(300-2)
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] < 300*(300+1)

func (td Torus) generateVertices(torus)
  requires torus != nil && td.sectorCount >= 1 && td.stackCount >= 1 && td.tubeRadius > 0
  requires len(torus.Vertices) == 0 && len(torus.Normals) == 0 && len(torus.TexCoords) == 0
  modifies *torus, spare(torus.Vertices), spare(torus.Normals), spare(torus.TexCoords)
  ensures [C11] "a vertex per stack and sector, and one more to close each stack" len(torus.Vertices) == td.stackCount*(td.sectorCount+1)
  ensures [C11] "a normal and a texture coordinate per vertex" len(torus.Normals) == len(torus.Vertices) && len(torus.TexCoords) == len(torus.Vertices)
  ensures [C13] "unit normals" forall i int :: 0 <= i && i < len(torus.Normals) ==> unitLen(torus.Normals[i])
  ensures [C13] "the tube radius from the centre circle, along the normal" forall i int :: 0 <= i && i < len(torus.Vertices) ==> ring(torus.Vertices[i], torus.Normals[i], td.center, td.radius, td.tubeRadius)
  ensures [C13] "texture coordinates within bounds" forall i int :: 0 <= i && i < len(torus.TexCoords) ==> unit01(torus.TexCoords[i])
  ensures [C13] "texture coordinates start at zero" torus.TexCoords[0][0] == 0 && torus.TexCoords[0][1] == 0
  ensures [C13] "texture coordinates follow sectors and stacks" forall i int :: 0 < i && i < len(torus.TexCoords) ==> texNext(torus.TexCoords[i-1], torus.TexCoords[i], real(td.sectorCount), real(td.stackCount))
  ensures [C11] "the indices are kept" torus.Indices == old(torus.Indices)
  invariant [k phi int] len(torus.Vertices) == k*(td.sectorCount+1)
  invariant [k phi int, i outer int] len(torus.Vertices) == i*(td.sectorCount+1) + k
  invariant len(torus.Normals) == len(torus.Vertices)
  invariant len(torus.TexCoords) == len(torus.Vertices)
  invariant forall i int :: 0 <= i && i < len(torus.Normals) ==> unitLen(torus.Normals[i])
  invariant forall i int :: 0 <= i && i < len(torus.Vertices) ==> ring(torus.Vertices[i], torus.Normals[i], td.center, td.radius, td.tubeRadius)
  invariant forall i int :: 0 <= i && i < len(torus.TexCoords) ==> unit01(torus.TexCoords[i])
  invariant len(torus.TexCoords) > 0 ==> torus.TexCoords[0][0] == 0 && torus.TexCoords[0][1] == 0
  invariant forall i int :: 0 < i && i < len(torus.TexCoords) ==> texNext(torus.TexCoords[i-1], torus.TexCoords[i], real(td.sectorCount), real(td.stackCount))
  invariant [k phi int] k > 0 ==> texAt(torus.TexCoords[len(torus.TexCoords)-1], real(td.sectorCount), real(k-1), real(td.sectorCount), real(td.stackCount))
  invariant [k phi int, i outer int] k > 0 ==> texAt(torus.TexCoords[len(torus.TexCoords)-1], real(k-1), real(i), real(td.sectorCount), real(td.stackCount))
  invariant [k phi int, i outer int] k == 0 && i > 0 ==> texAt(torus.TexCoords[len(torus.TexCoords)-1], real(td.sectorCount), real(i-1), real(td.sectorCount), real(td.stackCount))

func (td Torus) generateIndices(torus)
  requires torus != nil && td.sectorCount >= 1 && td.stackCount >= 2 && len(torus.Indices) == 0
  requires td.stackCount*(td.sectorCount+1) < 2147483648
  modifies *torus, spare(torus.Indices)
  ensures [C11] "a triangle per sector at the top and two per sector of the inner stacks" len(torus.Indices) == 3*td.sectorCount + 6*td.sectorCount*(td.stackCount-2)
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(torus.Indices) ==> torus.Indices[i] < td.stackCount*(td.sectorCount+1)
  ensures [C11] "the vertices are kept" torus.Vertices == old(torus.Vertices) && torus.Normals == old(torus.Normals) && torus.TexCoords == old(torus.TexCoords)
  invariant [k phi int, a phi uint32] a == k
  invariant [k phi int, a phi uint32] a == k + td.sectorCount + 1
  invariant [k phi int] len(torus.Indices) == 3*k
  invariant [k phi int] len(torus.Indices) == 3*td.sectorCount + 6*td.sectorCount*(k-1)
  invariant [k phi int, i outer int] len(torus.Indices) == 3*td.sectorCount + 6*td.sectorCount*(i-1) + 6*k
  invariant [k phi int, i outer int, a phi uint32] a == i*(td.sectorCount+1) + k
  invariant [k phi int, i outer int, a phi uint32] a == (i+1)*(td.sectorCount+1) + k
  invariant forall i int :: 0 <= i && i < len(torus.Indices) ==> torus.Indices[i] < td.stackCount*(td.sectorCount+1)

func (td Torus) Construct() (m)
  requires td.sectorCount >= 1 && td.stackCount >= 2 && td.tubeRadius > 0
  requires td.stackCount*(td.sectorCount+1) < 2147483648
  ensures [C11] "a vertex per stack and sector, and one more to close each stack" len(m.Vertices) == td.stackCount*(td.sectorCount+1)
  ensures [C11] "a normal and a texture coordinate per vertex" len(m.Normals) == len(m.Vertices) && len(m.TexCoords) == len(m.Vertices)
  ensures [C13] "unit normals" forall i int :: 0 <= i && i < len(m.Normals) ==> unitLen(m.Normals[i])
  ensures [C13] "the tube radius from the centre circle, along the normal" forall i int :: 0 <= i && i < len(m.Vertices) ==> ring(m.Vertices[i], m.Normals[i], td.center, td.radius, td.tubeRadius)
  ensures [C13] "texture coordinates within bounds" forall i int :: 0 <= i && i < len(m.TexCoords) ==> unit01(m.TexCoords[i])
  ensures [C13] "texture coordinates start at zero" m.TexCoords[0][0] == 0 && m.TexCoords[0][1] == 0
  ensures [C13] "texture coordinates follow sectors and stacks" forall i int :: 0 < i && i < len(m.TexCoords) ==> texNext(m.TexCoords[i-1], m.TexCoords[i], real(td.sectorCount), real(td.stackCount))
  ensures [C11] "a triangle per sector at the top and two per sector of the inner stacks" len(m.Indices) == 3*td.sectorCount + 6*td.sectorCount*(td.stackCount-2)
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] < td.stackCount*(td.sectorCount+1)

func ConstructTorus(center, radius, tubeRadius) (m)
  requires tubeRadius > 0
  ensures [C11] "a vertex per stack and sector, and one more to close each stack" len(m.Vertices) == 100*(100+1)
  ensures [C11] "a normal and a texture coordinate per vertex" len(m.Normals) == len(m.Vertices) && len(m.TexCoords) == len(m.Vertices)
  ensures [C13] "unit normals" forall i int :: 0 <= i && i < len(m.Normals) ==> unitLen(m.Normals[i])
  ensures [C13] "the tube radius from the centre circle, along the normal" forall i int :: 0 <= i && i < len(m.Vertices) ==> ring(m.Vertices[i], m.Normals[i], center, radius, tubeRadius)
  ensures [C13] "texture coordinates within bounds" forall i int :: 0 <= i && i < len(m.TexCoords) ==> unit01(m.TexCoords[i])
  ensures [C13] "texture coordinates start at zero" m.TexCoords[0][0] == 0 && m.TexCoords[0][1] == 0
  ensures [C13] "texture coordinates follow sectors and stacks" forall i int :: 0 < i && i < len(m.TexCoords) ==> texNext(m.TexCoords[i-1], m.TexCoords[i], real(100), real(100))
  ensures [C11] "a triangle per sector at the top and two per sector of the inner stacks" len(m.Indices) == 3*100 + 6*100*(100-2)
  ensures [C11] "only existing vertices" forall i int :: 0 <= i && i < len(m.Indices) ==> m.Indices[i] < 100*(100+1)
