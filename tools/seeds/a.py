R3T='''package r3

import (
	"math"
	"testing"
)

'''
seed('normalize-tiny','C02','r3',[('r3/vector.go','''	n2 := v.Norm2()
	if n2 == 0 {
		return Vector{0, 0, 0}''','''	n2 := v.Norm2()
	if n2 < 1e-24 {
		return Vector{0, 0, 0}''')],R3T+'''
func TestDemo(t *testing.T) {
	for _, s := range []float64{1, 1e-3, 1e-12, 1e-40} {
		n := Normalize(Vector{3 * s, 0, -4 * s})
		if math.Abs(n.Norm()-1) > 1e-9 || n.X <= 0 || n.Z >= 0 {
			t.Fatalf("scale %g: %v", s, n)
		}
	}
}
''','a vector shorter than 1e-12','normalising a very short vector by value returns the zero vector',hide=[])
seed('scale-by-zero','C01','r3',[('r3/vector.go','''func (v *Vector) Scale(f float64) *Vector {
	v.X''','''func (v *Vector) Scale(f float64) *Vector {
	if f == 0 {
		return v
	}
	v.X''')],R3T+'''
func TestDemo(t *testing.T) {
	for _, f := range []float64{2, -1, 0, 0.5} {
		v := Vector{1, math.Pi, -3}
		w := v.Scaled(f)
		v.Scale(f)
		if v != w {
			t.Fatalf("%g: %v %v", f, v, w)
		}
	}
}
''','a scale factor of exactly zero','scaling in place by zero leaves the vector as it was')
seed('line-step','C03','r3',[('r3/line.go','''Normalize(line.Direction).Scaled(t))''','''line.Direction.Scaled(t))''')],R3T+'''
func TestDemo(t *testing.T) {
	for _, d := range []Vector{{0, 0, 1}, {3, 0, 4}, {1, 1, 1}} {
		p := Plane3D{Normal: Vector{0, 0, 2}, Vector: Vector{5, 5, 7}}
		x := Line{Vector: Vector{1, 2, 3}, Direction: d}.IntersectPlane(p)
		if math.Abs(x.Z-7) > 1e-9 {
			t.Fatalf("%v: %v", d, x)
		}
	}
}
''','a line direction that is not of length one','the step along the line is scaled by the length of its direction')
M='''package mesh

import (
	"geGoMetry/r3"
	"testing"
)

'''
seed('extents-else','C06','meshing',[('meshing/helper.go','''		if h.max.X < point.X {
			h.max.X = point.X
		}
''','''		if h.max.X < point.X {
			h.max.X = point.X
		} else if h.min.X > point.X {
			h.min.X = point.X
		}
'''),('meshing/helper.go','''		if h.min.X > point.X {
			h.min.X = point.X
		}
		if h.min.Y''','''		if h.min.Y''')],M+'''
func TestDemo(t *testing.T) {
	for _, ps := range [][]r3.Vector{{{X: 2}, {X: 1}, {X: 3}}, {{X: 1}, {X: 2}, {X: 3}}} {
		h := helper{}
		h.findExtremas(ps...)
		if h.min.X != 1 || h.max.X != 3 {
			t.Fatal(ps, h)
		}
	}
}
''','a list whose x coordinates only increase','the lower x bound is never set when every point raises the upper one')
seed('nearest-previous','C09','meshing',[('meshing/helper.go','''			minDistance = distance
			nearestPoint = vertex
		}''','''			nearestPoint = vertex
		}
		minDistance = distance''')],M+'''
func TestDemo(t *testing.T) {
	for _, xs := range [][]float64{{3, 2, 1}, {1, 5, 3}, {4, 1, 7, 6}} {
		ps, best := []r3.Vector{}, 1e9
		for _, x := range xs {
			ps = append(ps, r3.Vector{X: x})
			if x < best {
				best = x
			}
		}
		if n := getNearestPoint(ps, r3.Vector{}); n.X != best {
			t.Fatal(xs, n)
		}
	}
}
''','distances that rise and then fall, without falling below the minimum','each point is compared with the one before it instead of the nearest so far')
seed('flip14-face','C29','meshing',[('meshing/flip.go','''		3, 4, 1,
		4, 1, 2,''','''		3, 4, 2,
		4, 1, 2,''')],M+'''
func TestDemo(t *testing.T) {
	m := Meshing{vertices: make([]r3.Vector, 4)}
	m.flip14(r3.Vector{X: 1})
	want := map[[3]bool]bool{}
	_ = want
	for b := 0; b < 4; b++ {
		faces := map[int]int{}
		for f := 0; f < 8; f++ {
			k := 0
			for j := 0; j < 3; j++ {
				k |= 1 << m.indices[24*b+3*f+j]
			}
			faces[k]++
		}
		if len(faces) != 4 {
			t.Fatal(b, faces)
		}
	}
}
''','the third of the four new tetrahedra','one face of a new tetrahedron is repeated and another missing')
seed('face-key','C30','meshing',[('meshing/mesh.go','''strings.Join(hashList, ".")''','''strings.Join(hashList, "")''')],'''package mesh

import "testing"

func TestDemo(t *testing.T) {
	seen := map[string]face{}
	for a := 0; a < 30; a++ {
		for b := a + 1; b < 60; b++ {
			for c := b + 1; c < 140; c++ {
				f := face{c, a, b}
				if g, ok := seen[f.hash()]; ok {
					t.Fatal(f, g)
				}
				seen[f.hash()] = f
			}
		}
	}
}
''','indices of different numbers of digits','different faces get the same key')
seed('side-slack','C08','meshing',[('meshing/util.go','''	if dotV4 <= 0 && dotP <= 0 {''','''	if dotV4 <= 0 && dotP <= 1e-6 {''')],M+'''
func TestDemo(t *testing.T) {
	z, x, y, w := r3.Vector{}, r3.Vector{X: 1}, r3.Vector{Y: 1}, r3.Vector{Z: 1}
	for _, eps := range []float64{0.1, 1e-3, 1e-9} {
		for i, p := range []r3.Vector{{X: -eps, Y: .2, Z: .2}, {X: .2, Y: -eps, Z: .2}, {X: .2, Y: .2, Z: -eps}} {
			if vectorInTetrahedron(z, x, y, w, p) || vectorInTetrahedron(x, z, y, w, p) {
				t.Fatal(eps, i)
			}
		}
	}
}
''','a point a tiny distance outside one face','points just outside are accepted')
seed('tetra-size','C07','meshing',[('meshing/helper.go','''ztetra := zmin + 3*(zmax-zmin)''','''ztetra := zmin + 2*(zmax-zmin)''')],M+'''
func TestDemo(t *testing.T) {
	ps := []r3.Vector{{}, {X: 1, Y: 1, Z: 1}, {X: .5, Y: .2, Z: .1}}
	e := englobe(&ps)
	for _, p := range ps[4:] {
		if !vectorInTetrahedron(ps[e.ia], ps[e.ib], ps[e.ic], ps[e.id], p) {
			t.Fatal(p)
		}
	}
}
''','a point at the far corner of the bounding box','the far corner of the box is outside the enclosing tetrahedron')
seed('insphere-sign','C05','predicates',[('predicates/insphere.go','''	cda := cez*da + dez*ac + aez*cd
	dab := dez*ab + aez*bd + bez*da

	alift := aex*aex + aey*aey + aez*aez
	blift := bex*bex + bey*bey + bez*bez
	clift := cex*cex + cey*cey + cez*cez
	dlift := dex*dex + dey*dey + dez*dez

	return''','''	cda := cez*da + dez*ac + bez*cd
	dab := dez*ab + aez*bd + bez*da

	alift := aex*aex + aey*aey + aez*aez
	blift := bex*bex + bey*bey + bez*bez
	clift := cex*cex + cey*cey + cez*cez
	dlift := dex*dex + dey*dey + dez*dez

	return''')],'''package predicates

import (
	"geGoMetry/r3"
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		f := func(k int) float64 { return float64((i*i*7+i*k*k*5+k*k*k*11+k*3)%17) - 8 }
		v := func(k int) r3.Vector { return r3.Vector{X: f(k), Y: f(k + 1), Z: f(k + 2)} }
		a, b, c, d, e := v(0), v(4), v(9), v(15), v(22)
		if x, y := InSphereFast(a, b, c, d, e), InSphereFast(b, a, c, d, e); math.Abs(x+y) > 1e-6 {
			t.Fatal(i, x, y)
		}
	}
}
''','two of the sphere points of different height','one cofactor uses the height of the wrong point')
