// Contracts of package mesh (directory meshing): 3D tessellation.
package "geGoMetry/meshing"

// ---- extents ----

func (h *helper) findExtremas(points)
  requires h != nil && finAll(points)
  modifies *h
  ensures [C06] "every point is inside" boxHolds(h.min, h.max, points)
  ensures [C06] "every bound is attained" len(points) > 0 ==> boxTight(h.min, h.max, points)
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x <= points[i].X
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x >= points[i].X
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x <= points[i].Y
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x >= points[i].Y
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x <= points[i].Z
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x >= points[i].Z
  invariant [x real] x == MaxFloat64 || exists i int :: 0 <= i && i < len(points) && points[i].X == x
  invariant [x real] x == -MaxFloat64 || exists i int :: 0 <= i && i < len(points) && points[i].X == x
  invariant [x real] x == MaxFloat64 || exists i int :: 0 <= i && i < len(points) && points[i].Y == x
  invariant [x real] x == -MaxFloat64 || exists i int :: 0 <= i && i < len(points) && points[i].Y == x
  invariant [x real] x == MaxFloat64 || exists i int :: 0 <= i && i < len(points) && points[i].Z == x
  invariant [x real] x == -MaxFloat64 || exists i int :: 0 <= i && i < len(points) && points[i].Z == x

// ---- enclosing tetrahedron ----

// p is d plus non-negative multiples, of sum at most 1, of the edges from d
pure weight(lo real, hi real, x real) real = hi == lo ? 0 : (x - lo) / (hi - lo)
pure inCorner(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) bool =
  let u = weight(a.X, b.X, p.X) in let v = weight(a.Y, c.Y, p.Y) in let w = weight(a.Z, d.Z, p.Z) in
  u >= 0 && v >= 0 && w >= 0 && u + v + w <= 1 && comb4(a, b, c, d, p, 1 - u - v - w, u, v, w)

func (h helper) computerInitialTetraPoints() (a, b, c, d)
  option callers "inline"
  ensures [C07] "contains the box" forall p r3.Vector :: inBox(h.min, h.max, p) ==> inCorner(a, b, c, d, p)

func englobe(points) (r)
  requires points != nil && finAll(*points)
  modifies *points
  ensures [C07] "four corners come before the points" len(*points) == old(len(*points)) + 4
  ensures [C07] "the points follow in order" forall i int :: 0 <= i && i < old(len(*points)) ==> (*points)[i+4] == old((*points)[i])
  ensures [C07] "every point is inside" forall i int :: 0 <= i && i < old(len(*points)) ==> inCorner((*points)[0], (*points)[1], (*points)[2], (*points)[3], old((*points)[i]))
  ensures [C07,C10] "its corners" r.ia == 0 && r.ib == 1 && r.ic == 2 && r.id == 3
  ensures [C07,C10] "its faces" len(r.faces) == 4 && (forall i int :: 0 <= i && i < 4 ==> 0 <= r.faces[i].pa && r.faces[i].pa < 4 && 0 <= r.faces[i].pb && r.faces[i].pb < 4 && 0 <= r.faces[i].pc && r.faces[i].pc < 4)

// ---- point in tetrahedron ----

func sameSide(v1, v2, v3, v4, p) (r)
  ensures [C08] "p is on v4's side of the plane v1 v2 v3, or on it" r == (orient(v1,v2,v3,p)*orient(v1,v2,v3,v4) >= 0)

func vectorInTetrahedron(v1, v2, v3, v4, p) (r)
  ensures [C08] "accepts exactly the points whose four weights have the right sign" r == inTet(v1,v2,v3,v4,p)
  ensures [C08] "accepts the convex combinations" forall w0 real, w1 real, w2 real, w3 real ::
     w0 >= 0 && w1 >= 0 && w2 >= 0 && w3 >= 0 && w0+w1+w2+w3 == 1 && comb4(v1,v2,v3,v4,p,w0,w1,w2,w3) ==> r

func findCentroid(a, b, c, d) (r)
  ensures [C08,C09] "the mean of the corners" r.X == (a.X+b.X+c.X+d.X)/4 && r.Y == (a.Y+b.Y+c.Y+d.Y)/4 && r.Z == (a.Z+b.Z+c.Z+d.Z)/4

// ---- nearest point ----

func getNearestPoint(vs, q) (r)
  requires len(vs) > 0
  requires forall i int :: 0 <= i && i < len(vs) ==> dist(vs[i], q) <= MaxFloat64
  ensures [C09] "is a member" member(r, vs)
  ensures [C09] "no member is closer" forall i int :: 0 <= i && i < len(vs) ==> dist(r, q) <= dist(vs[i], q)
  invariant [k phi int, x phi real] forall i int :: 0 <= i && i < k ==> x <= dist(vs[i], q)
  invariant [x phi real, v phi r3.Vector, k phi int] k == 0 && x == MaxFloat64 || x == dist(v, q) && exists i int :: 0 <= i && i < len(vs) && vs[i] == v
  invariant [x phi real, v phi r3.Vector] x == MaxFloat64 || x == dist(v, q) && exists i int :: 0 <= i && i < len(vs) && vs[i] == v

func (t tetra) getNearestPointToCentroid(vs) (r)
  requires 0 <= t.ia && t.ia < len(vs) && 0 <= t.ib && t.ib < len(vs) && 0 <= t.ic && t.ic < len(vs) && 0 <= t.id && t.id < len(vs)
  requires forall i int, c r3.Vector :: 0 <= i && i < len(vs) && c.X == (vs[t.ia].X+vs[t.ib].X+vs[t.ic].X+vs[t.id].X)/4 && c.Y == (vs[t.ia].Y+vs[t.ib].Y+vs[t.ic].Y+vs[t.id].Y)/4 && c.Z == (vs[t.ia].Z+vs[t.ib].Z+vs[t.ic].Z+vs[t.id].Z)/4 ==> dist(vs[i], c) <= MaxFloat64
  ensures [C09] "is a member" member(r, vs)
  ensures [C09] "no member is closer to the centroid" forall i int, c r3.Vector :: 0 <= i && i < len(vs) && c.X == (vs[t.ia].X+vs[t.ib].X+vs[t.ic].X+vs[t.id].X)/4 && c.Y == (vs[t.ia].Y+vs[t.ib].Y+vs[t.ic].Y+vs[t.id].Y)/4 && c.Z == (vs[t.ia].Z+vs[t.ib].Z+vs[t.ic].Z+vs[t.id].Z)/4 ==> dist(r, c) <= dist(vs[i], c)

// ---- insertion of a point ----

func duplicateInReverse(indices)
  requires indices != nil
  modifies *indices, spare(*indices)
  ensures [C29] "twice as long" len(*indices) == 2*old(len(*indices))
  ensures [C29] "the original part is kept" forall i int :: 0 <= i && i < old(len(*indices)) ==> (*indices)[i] == old((*indices)[i])
  ensures [C29] "followed by its reverse" forall i int :: 0 <= i && i < old(len(*indices)) ==> (*indices)[old(len(*indices)) + i] == old((*indices)[len(*indices) - 1 - i])
  invariant [k phi int] len(*indices) + k == 2*old(len(*indices)) - 1
  invariant [k phi int] len(*indices) == old(len(*indices)) + k
  invariant forall i int :: 0 <= i && i < old(len(*indices)) ==> (*indices)[i] == old((*indices)[i])
  invariant forall i int :: 0 <= i && old(len(*indices)) + i < len(*indices) ==> (*indices)[old(len(*indices)) + i] == old((*indices)[len(*indices) - 1 - i])

// face f of the list: three different vertices, all different from the omitted one
pure face3(s []uint32, at int, p int, q int, r int) bool =
  s[at] == p && s[at+1] == q && s[at+2] == r || s[at] == p && s[at+1] == r && s[at+2] == q ||
  s[at] == q && s[at+1] == p && s[at+2] == r || s[at] == q && s[at+1] == r && s[at+2] == p ||
  s[at] == r && s[at+1] == p && s[at+2] == q || s[at] == r && s[at+1] == q && s[at+2] == p
// the twelve indices from at on are the four faces of the tetrahedron a b c d, in some order
pure faces4(s []uint32, at int, a int, b int, c int, d int) bool =
  (exists i int :: 0 <= i && i < 4 && face3(s, at+3*i, a, b, c)) && (exists i int :: 0 <= i && i < 4 && face3(s, at+3*i, b, c, d)) &&
  (exists i int :: 0 <= i && i < 4 && face3(s, at+3*i, c, d, a)) && (exists i int :: 0 <= i && i < 4 && face3(s, at+3*i, d, a, b))
pure mirrored(s []uint32, at int) bool = forall i int :: 0 <= i && i < 12 ==> s[at+12+i] == s[at+11-i]
pure block(s []uint32, a int, b int, c int, d int) bool = exists k int :: 0 <= k && k < 4 && faces4(s, 24*k, a, b, c, d)

func (t *Meshing) flip14(p)
  requires t != nil
  modifies *t, spare(t.vertices)
  ensures [C29] "the point is appended" len(t.vertices) == old(len(t.vertices)) + 1 && t.vertices[old(len(t.vertices))] == p
  ensures [C29] "the other vertices are kept" forall i int :: 0 <= i && i < old(len(t.vertices)) ==> t.vertices[i] == old(t.vertices[i])
  ensures [C29] "four tetrahedra of four faces in both windings" len(t.indices) == 96
  ensures [C29] "only the five vertices" forall i int :: 0 <= i && i < 96 ==> t.indices[i] < 5
  ensures [C29] "each tetrahedron's faces once more in reverse" forall k int :: 0 <= k && k < 4 ==> mirrored(t.indices, 24*k)
  ensures [C29] "the faces of the four new tetrahedra" block(t.indices, 0, 1, 2, 4) && block(t.indices, 0, 1, 3, 4) && block(t.indices, 1, 2, 3, 4) && block(t.indices, 0, 2, 3, 4)
  ensures [C29] "the triangulation map is kept" t.triangulationMap == old(t.triangulationMap)

// ---- keys ----

pure same3(a face, b face) bool =
  (a.pa == b.pa && (a.pb == b.pb && a.pc == b.pc || a.pb == b.pc && a.pc == b.pb)) ||
  (a.pa == b.pb && (a.pb == b.pa && a.pc == b.pc || a.pb == b.pc && a.pc == b.pa)) ||
  (a.pa == b.pc && (a.pb == b.pa && a.pc == b.pb || a.pb == b.pb && a.pc == b.pa))

// two strings with one separator that does not occur after its last place
lemma [C30] last_separator(x string, y string, x2 string, y2 string, s string)
  requires nrunes(s) == 1
  requires forall i int :: 0 <= i && i < nrunes(y) ==> y[i] != s[0]
  requires forall i int :: 0 <= i && i < nrunes(y2) ==> y2[i] != s[0]
  requires x + s + y == x2 + s + y2
  ensures x == x2 && y == y2
  trigger x + s + y, x2 + s + y2

func (f face) hash() (r)
  use last_separator
  twice (f2) (r2) [C30] "same key exactly for the same three vertices" (r == r2) == same3(f, f2)

func tetraHash(t) (r)
  use last_separator
  twice (t2) (r2) [C30] "same key exactly for the same four vertices in order" (r == r2) == (t.ia == t2.ia && t.ib == t2.ib && t.ic == t2.ic && t.id == t2.id)

func (e edge) isEqual(e1) (r)
  ensures [C30] "equal exactly when both ends are" r == (e.start == e1.start && e.end == e1.end)

// ---- tessellation ----

pure faceIn(f face, n int) bool = 0 <= f.pa && f.pa < n && 0 <= f.pb && f.pb < n && 0 <= f.pc && f.pc < n
pure tetIn(t tetra, n int) bool = 0 <= t.ia && t.ia < n && 0 <= t.ib && t.ib < n && 0 <= t.ic && t.ic < n && 0 <= t.id && t.id < n &&
  (forall i int :: 0 <= i && i < len(t.faces) ==> faceIn(t.faces[i], n))

func (f face) isPartOfMesh() (r)
  ensures [C10] "no corner of the enclosing tetrahedron" r == !(0 <= f.pa && f.pa <= 3 || 0 <= f.pb && f.pb <= 3 || 0 <= f.pc && f.pc <= 3)

func addFace(m, f) (r)
  modifies spare(m)
  ensures [C10] "three more" len(r) == len(m) + 3
  ensures [C10] "the others are kept" forall i int :: 0 <= i && i < len(m) ==> r[i] == m[i]
  ensures [C10] "as indices into the caller's points" r[len(m)] == f.pa - 4 && r[len(m)+1] == f.pb - 4 && r[len(m)+2] == f.pc - 4

func connect(f, k) (r)
  ensures [C10] "uses the face and the point" forall n int :: faceIn(f, n) && 0 <= k && k < n ==> tetIn(r, n)
