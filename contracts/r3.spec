// Contracts of package r3: vectors, planes, lines.
package "geGoMetry/r3"

pure dot3(a Vector, b Vector) real = a.X*b.X + a.Y*b.Y + a.Z*b.Z
pure eq3(a Vector, x real, y real, z real) bool = a.X == x && a.Y == y && a.Z == z

func createVector(a, b) (r)
  ensures [C01,C03] "component-wise difference" eq3(r, a.X-b.X, a.Y-b.Y, a.Z-b.Z)

func (v Vector) Norm() (r)
  ensures [C02] "non-negative root of the squared length" r >= 0 && r*r == dot3(v,v)

func (v Vector) Norm2() (r)
  ensures [C01] "squared length" r == dot3(v,v)

func (v *Vector) Normalize() (r)
  requires v != nil
  modifies *v
  ensures [C02] "zero stays zero" dot3(old(*v),old(*v)) == 0 ==> eq3(*v, 0, 0, 0)
  ensures [C02] "unit length" dot3(old(*v),old(*v)) != 0 ==> dot3(*v,*v) == 1
  ensures [C02] "positive multiple" dot3(old(*v),old(*v)) != 0 ==> (let n = sqrt(dot3(old(*v),old(*v))) in n > 0 && v.X*n == old(v.X) && v.Y*n == old(v.Y) && v.Z*n == old(v.Z))
  ensures [C02] "returns its receiver" r == v

func Normalize(v) (r)
  ensures [C02] "zero stays zero" dot3(v,v) == 0 ==> eq3(r, 0, 0, 0)
  ensures [C02] "unit length" dot3(v,v) != 0 ==> dot3(r,r) == 1
  ensures [C02] "positive multiple" dot3(v,v) != 0 ==> (let n = sqrt(dot3(v,v)) in n > 0 && r.X*n == v.X && r.Y*n == v.Y && r.Z*n == v.Z)

func (v Vector) IsUnit() (r)
  ensures [C02] "approximately unit" r == (abs(dot3(v,v) - 1) <= 5e-14)

func (v *Vector) Abs()
  requires v != nil
  modifies *v
  ensures [C01] "in-place absolute value" eq3(*v, abs(old(v.X)), abs(old(v.Y)), abs(old(v.Z)))

func Abs(v) (r)
  ensures [C01] "absolute value" eq3(r, abs(v.X), abs(v.Y), abs(v.Z))

func (v *Vector) Scale(f) (r)
  requires v != nil
  modifies *v
  ensures [C01] "in-place scaling" eq3(*v, f*old(v.X), f*old(v.Y), f*old(v.Z))
  ensures [C01] "returns its receiver" r == v

func (v Vector) Scaled(f) (r)
  ensures [C01] "scaling" eq3(r, f*v.X, f*v.Y, f*v.Z)

func (v *Vector) Add(ov)
  requires v != nil
  modifies *v
  ensures [C01] "in-place sum" eq3(*v, old(v.X)+ov.X, old(v.Y)+ov.Y, old(v.Z)+ov.Z)

func Add(v, ov) (r)
  ensures [C01] "sum" eq3(r, v.X+ov.X, v.Y+ov.Y, v.Z+ov.Z)

func (v *Vector) Sub(ov)
  requires v != nil
  modifies *v
  ensures [C01] "in-place difference" eq3(*v, old(v.X)-ov.X, old(v.Y)-ov.Y, old(v.Z)-ov.Z)

func Sub(v, ov) (r)
  ensures [C01] "difference" eq3(r, v.X-ov.X, v.Y-ov.Y, v.Z-ov.Z)

func Dot(v, ov) (r)
  ensures [C01] "dot product" r == dot3(v, ov)

func Cross(v, ov) (r)
  ensures [C01] "cross product" eq3(r, v.Y*ov.Z - v.Z*ov.Y, v.Z*ov.X - v.X*ov.Z, v.X*ov.Y - v.Y*ov.X)

func (v Vector) CalculateDistanceToPlane(p) (r)
  ensures [C03] "normal component plus the plane's distance term" r == dot3(p.Normal, v) + p.Distance

func det2D(a, b) (r)
  ensures [C01] "planar cross product" r == a.X*b.Y - a.Y*b.X

func (v Vector) GetInterpolationVector(b, d) (r)
  ensures [C04] "weights d and 1-d" eq3(r, d*v.X + (1-d)*b.X, d*v.Y + (1-d)*b.Y, d*v.Z + (1-d)*b.Z)

func (v Vector) Magnitude() (r)
  ensures [C02] "non-negative root of the squared length" r >= 0 && r*r == dot3(v,v)

func (v Vector) SquaredMagnitude() (r)
  ensures [C01] "squared length" r == dot3(v,v)

// the Euclidean distance, as one quantity
sealed dist(a Vector, b Vector) real = sqrt((a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y) + (a.Z-b.Z)*(a.Z-b.Z))

func Distance(v, ov) (r)
  reveal dist
  ensures [C02,C09] "Euclidean distance" r == dist(v, ov)
  ensures [C02] "non-negative root of the squared distance" r >= 0 && r*r == (v.X-ov.X)*(v.X-ov.X) + (v.Y-ov.Y)*(v.Y-ov.Y) + (v.Z-ov.Z)*(v.Z-ov.Z)

func SquaredDistance(v, ov) (r)
  ensures [C01] "squared distance" r == (v.X-ov.X)*(v.X-ov.X) + (v.Y-ov.Y)*(v.Y-ov.Y) + (v.Z-ov.Z)*(v.Z-ov.Z)

func Interpolate(a, b, t) (r)
  requires a != nil && b != nil
  ensures [C04] "affine combination" eq3(r, (1-t)*a.X + t*b.X, (1-t)*a.Y + t*b.Y, (1-t)*a.Z + t*b.Z)

func newPlane(normal, origin) (r)
  ensures [C03] "plane through the origin point" r.Normal == normal && r.Distance == -dot3(normal, origin)

func (p Plane) calculateNormal(a, b, c) (r)
  ensures [C03] "cross product of the edges" eq3(r, (b.Y-a.Y)*(c.Z-a.Z)-(b.Z-a.Z)*(c.Y-a.Y), (b.Z-a.Z)*(c.X-a.X)-(b.X-a.X)*(c.Z-a.Z), (b.X-a.X)*(c.Y-a.Y)-(b.Y-a.Y)*(c.X-a.X))

func (line Line) IntersectPlane(plane) (r)
  // directions whose normalisation is exact, or far from parallel: rounding cannot decide
  gen `
	v := func() Vector { return Vector{zzgovc.Float(r), zzgovc.Float(r), zzgovc.Float(r)} }
	l := Line{v(), v()}
	p := Plane3D{v(), v()}
	if r.Intn(2) == 0 {
		l.Direction = []Vector{{1, 0, 0}, {0, 2, 0}, {0, 0, -4}, {0, 0, 0}, {3, 4, 0}, {0, -8, 0}}[r.Intn(6)]
	} else {
		l.Direction = Vector{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}
		p.Normal = Vector{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}
	}
	return []interface{}{l, p}`
  panics dot3(plane.Normal, line.Direction) == 0
  ensures [C03] "on the plane" dot3(plane.Normal, r) == dot3(plane.Normal, plane.Vector)
  // the direction is not zero here, so a vanishing cross product means collinear
  ensures [C03] "on the line, x" (r.Y - line.Vector.Y)*line.Direction.Z == (r.Z - line.Vector.Z)*line.Direction.Y
  ensures [C03] "on the line, y" (r.Z - line.Vector.Z)*line.Direction.X == (r.X - line.Vector.X)*line.Direction.Z
  ensures [C03] "on the line, z" (r.X - line.Vector.X)*line.Direction.Y == (r.Y - line.Vector.Y)*line.Direction.X
