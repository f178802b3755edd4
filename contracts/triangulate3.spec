// Contracts of package triangulate3: extents, seed tetrahedron, enclosing tetrahedron.
package "geGoMetry/triangulate3"

pure fin3(v r3.Vector) bool = abs(v.X) <= MaxFloat64 && abs(v.Y) <= MaxFloat64 && abs(v.Z) <= MaxFloat64
pure finAll(vs []r3.Vector) bool = forall i int :: 0 <= i && i < len(vs) ==> fin3(vs[i])
pure inBox(lo r3.Vector, hi r3.Vector, p r3.Vector) bool = lo.X <= p.X && p.X <= hi.X && lo.Y <= p.Y && p.Y <= hi.Y && lo.Z <= p.Z && p.Z <= hi.Z
pure boxHolds(lo r3.Vector, hi r3.Vector, vs []r3.Vector) bool = forall i int :: 0 <= i && i < len(vs) ==> inBox(lo, hi, vs[i])
pure boxTight(lo r3.Vector, hi r3.Vector, vs []r3.Vector) bool =
  (exists i int :: 0 <= i && i < len(vs) && vs[i].X == lo.X) && (exists i int :: 0 <= i && i < len(vs) && vs[i].X == hi.X) &&
  (exists i int :: 0 <= i && i < len(vs) && vs[i].Y == lo.Y) && (exists i int :: 0 <= i && i < len(vs) && vs[i].Y == hi.Y) &&
  (exists i int :: 0 <= i && i < len(vs) && vs[i].Z == lo.Z) && (exists i int :: 0 <= i && i < len(vs) && vs[i].Z == hi.Z)

func computeBoundingBoxForVectors(vs) (lo, hi)
  requires len(vs) > 0 && finAll(vs)
  ensures [C06] "every point is inside" boxHolds(lo, hi, vs)
  ensures [C06] "every bound is attained" boxTight(lo, hi, vs)
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x <= vs[i].X
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x >= vs[i].X
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x <= vs[i].Y
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x >= vs[i].Y
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x <= vs[i].Z
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x >= vs[i].Z
  invariant [x real] x == MaxFloat64 || exists i int :: 0 <= i && i < len(vs) && vs[i].X == x
  invariant [x real] x == -MaxFloat64 || exists i int :: 0 <= i && i < len(vs) && vs[i].X == x
  invariant [x real] x == MaxFloat64 || exists i int :: 0 <= i && i < len(vs) && vs[i].Y == x
  invariant [x real] x == -MaxFloat64 || exists i int :: 0 <= i && i < len(vs) && vs[i].Y == x
  invariant [x real] x == MaxFloat64 || exists i int :: 0 <= i && i < len(vs) && vs[i].Z == x
  invariant [x real] x == -MaxFloat64 || exists i int :: 0 <= i && i < len(vs) && vs[i].Z == x

func computeExtremitiesForAxeX(vs) (lo, hi)
  requires len(vs) > 0 && finAll(vs)
  ensures [C06] "every point is between them along x" forall i int :: 0 <= i && i < len(vs) ==> lo.X <= vs[i].X && vs[i].X <= hi.X
  ensures [C06,C09] "both are points of the list" (exists i int :: 0 <= i && i < len(vs) && vs[i] == lo) && (exists i int :: 0 <= i && i < len(vs) && vs[i] == hi)
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x <= vs[i].X
  invariant [k phi int, x real] forall i int :: 0 <= i && i < k ==> x >= vs[i].X
  invariant [v r3.Vector] v.X > MaxFloat64 || exists i int :: 0 <= i && i < len(vs) && vs[i] == v
  invariant [v r3.Vector] v.X < -MaxFloat64 || exists i int :: 0 <= i && i < len(vs) && vs[i] == v

// ---- point in tetrahedron ----

// barycentric numerators: p replaces one corner
pure bary0(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) real = orient(p, b, c, d)
pure bary1(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) real = orient(a, p, c, d)
pure bary2(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) real = orient(a, b, p, d)
pure bary3(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) real = orient(a, b, c, p)

pure inTet(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) bool =
  let D = orient(a,b,c,d) in bary0(a,b,c,d,p)*D >= 0 && bary1(a,b,c,d,p)*D >= 0 && bary2(a,b,c,d,p)*D >= 0 && bary3(a,b,c,d,p)*D >= 0

pure comb4(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector, w0 real, w1 real, w2 real, w3 real) bool =
  p.X == w0*a.X+w1*b.X+w2*c.X+w3*d.X && p.Y == w0*a.Y+w1*b.Y+w2*c.Y+w3*d.Y && p.Z == w0*a.Z+w1*b.Z+w2*c.Z+w3*d.Z

// the numerators over the determinant are the weights: inTet is "convex combination" for non-degenerate corners
lemma [C07,C08] bary_weights(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector)
  requires orient(a,b,c,d) != 0
  ensures let D = orient(a,b,c,d) in comb4(a,b,c,d,p, bary0(a,b,c,d,p)/D, bary1(a,b,c,d,p)/D, bary2(a,b,c,d,p)/D, bary3(a,b,c,d,p)/D)
lemma [C07,C08] bary_sum(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector)
  ensures bary0(a,b,c,d,p) + bary1(a,b,c,d,p) + bary2(a,b,c,d,p) + bary3(a,b,c,d,p) == orient(a,b,c,d)
lemma [C07,C08] bary_of_comb0(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector, w0 real, w1 real, w2 real, w3 real)
  requires w0+w1+w2+w3 == 1 && comb4(a,b,c,d,p,w0,w1,w2,w3)
  ensures bary0(a,b,c,d,p) == w0*orient(a,b,c,d) && bary1(a,b,c,d,p) == w1*orient(a,b,c,d) && bary2(a,b,c,d,p) == w2*orient(a,b,c,d) && bary3(a,b,c,d,p) == w3*orient(a,b,c,d)

func SameSide(v1, v2, v3, v4, p) (r)
  ensures [C08] "p is on v4's side of the plane v1 v2 v3, or on it" r == (orient(v1,v2,v3,p)*orient(v1,v2,v3,v4) >= 0)

func VectorInTetrahedron(v1, v2, v3, v4, p) (r)
  ensures [C08] "accepts exactly the points whose four weights have the right sign" r == inTet(v1,v2,v3,v4,p)
  ensures [C08] "accepts the convex combinations" forall w0 real, w1 real, w2 real, w3 real ::
     w0 >= 0 && w1 >= 0 && w2 >= 0 && w3 >= 0 && w0+w1+w2+w3 == 1 && comb4(v1,v2,v3,v4,p,w0,w1,w2,w3) ==> r

func findCentroid(a, b, c, d) (r)
  ensures [C08] "the mean of the corners" r.X == (a.X+b.X+c.X+d.X)/4 && r.Y == (a.Y+b.Y+c.Y+d.Y)/4 && r.Z == (a.Z+b.Z+c.Z+d.Z)/4

// ---- extreme-point searches ----

// squared area spanned by a segment and a point, up to a factor
sealed area2(a r3.Vector, b r3.Vector, p r3.Vector) real =
  let x = (b.Y-a.Y)*(p.Z-a.Z) - (b.Z-a.Z)*(p.Y-a.Y) in let y = (b.Z-a.Z)*(p.X-a.X) - (b.X-a.X)*(p.Z-a.Z) in let z = (b.X-a.X)*(p.Y-a.Y) - (b.Y-a.Y)*(p.X-a.X) in
  x*x + y*y + z*z

func Get2Ddist(a, b, c) (r)
  reveal area2
  ensures [C09] "squared double area" r == area2(a, b, c)
// absolute six-fold volume
sealed vol(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector) real = abs(orient(a, b, c, d))

func Get3Ddist(a, b, c, d) (r)
  reveal vol
  ensures [C09] "six-fold volume, up to sign" abs(r) == vol(a, b, c, d)

func getFurthestFromTwoVectors(vs, a, b) (r)
  ensures [C09] "no member spans a larger area" (exists i int :: 0 <= i && i < len(vs) && area2(a,b,vs[i]) > 0) ==> (forall i int :: 0 <= i && i < len(vs) ==> area2(a,b,vs[i]) <= area2(a,b,r))
  ensures [C09] "is a member" (exists i int :: 0 <= i && i < len(vs) && area2(a,b,vs[i]) > 0) ==> (exists i int :: 0 <= i && i < len(vs) && vs[i] == r)
  invariant [k phi int, x phi real] x >= 0 && forall i int :: 0 <= i && i < k ==> area2(a,b,vs[i]) <= x
  invariant [x phi real, v r3.Vector] x == 0 || x == area2(a,b,v) && exists i int :: 0 <= i && i < len(vs) && vs[i] == v

func getFurthestFromthreeVectors(vs, a, b, c) (r)
  ensures [C09] "no member spans a larger volume" (exists i int :: 0 <= i && i < len(vs) && vol(a,b,c,vs[i]) > 0) ==> (forall i int :: 0 <= i && i < len(vs) ==> vol(a,b,c,vs[i]) <= vol(a,b,c,r))
  ensures [C09] "is a member" (exists i int :: 0 <= i && i < len(vs) && vol(a,b,c,vs[i]) > 0) ==> (exists i int :: 0 <= i && i < len(vs) && vs[i] == r)
  invariant [k phi int, x phi real] x >= 0 && forall i int :: 0 <= i && i < k ==> vol(a,b,c,vs[i]) <= x
  invariant [x phi real, v r3.Vector] x == 0 || x == vol(a,b,c,v) && exists i int :: 0 <= i && i < len(vs) && vs[i] == v

pure member(v r3.Vector, vs []r3.Vector) bool = exists i int :: 0 <= i && i < len(vs) && vs[i] == v

func createInitialTetra(vs) (r)
  requires len(vs) > 0 && finAll(vs)
  ensures [C09] "four corners, spanning the x range" len(r) == 4 && (forall i int :: 0 <= i && i < len(vs) ==> r[0].X <= vs[i].X && vs[i].X <= r[1].X)
  ensures [C09] "first two are members" member(r[0], vs) && member(r[1], vs)
  ensures [C09] "third is a member" (exists i int :: 0 <= i && i < len(vs) && area2(r[0],r[1],vs[i]) > 0) ==> member(r[2], vs)
  ensures [C09] "fourth is a member" (exists i int :: 0 <= i && i < len(vs) && vol(r[0],r[1],r[2],vs[i]) > 0) ==> member(r[3], vs)

// ---- enclosing tetrahedron ----

func constructEnglobingTetra(vs) (m)
  hint let a = m.Vertices[0] in let b = m.Vertices[1] in let c = m.Vertices[2] in let d = m.Vertices[3] in
    a.X == d.X && a.Z == d.Z && b.X == d.X && b.Y == d.Y && c.Y == d.Y && c.Z == d.Z && a.Y > d.Y && b.Z > d.Z && c.X > d.X
  hint let a = m.Vertices[0] in let b = m.Vertices[1] in let c = m.Vertices[2] in let d = m.Vertices[3] in
    forall i int :: 0 <= i && i < len(vs) ==> d.X <= vs[i].X && 4*(vs[i].X - d.X) <= c.X - d.X && d.Y <= vs[i].Y && 2*(vs[i].Y - d.Y) <= a.Y - d.Y && d.Z <= vs[i].Z && 4*(vs[i].Z - d.Z) <= b.Z - d.Z
  requires len(vs) > 0 && finAll(vs)
  ensures [C07] "four corners" len(m.Vertices) == 4
  ensures [C07] "not degenerate" orient(m.Vertices[0], m.Vertices[1], m.Vertices[2], m.Vertices[3]) != 0
  ensures [C07] "every point is inside" forall i int :: 0 <= i && i < len(vs) ==> inTet(m.Vertices[0], m.Vertices[1], m.Vertices[2], m.Vertices[3], vs[i])
  ensures [C07] "its four faces" len(m.Indices) == 12 && (forall i int :: 0 <= i && i < 12 ==> 0 <= m.Indices[i] && m.Indices[i] < 4)
