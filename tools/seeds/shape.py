S='''package shape

import (
	"geGoMetry/r3"
	"math"
	"testing"
)

var _ = math.Pi
var _ r3.Vector

'''
seed('torus-last-stack','C11','shape',[('shape/torus.go','''	for i := 1; i < td.stackCount-1; i++ {''','''	for i := 1; i < td.stackCount-1 || i == 1; i++ {''')],S+'''
func TestDemo(t *testing.T) {
	for _, n := range []int{3, 4, 2, 5} {
		m := Torus{r3.Vector{}, 3, 1, n + 2, n}.Construct()
		for _, i := range m.Indices {
			if int(i) >= len(m.Vertices) {
				t.Fatal(n, i, len(m.Vertices))
			}
		}
	}
}
''','a torus of two stacks','a torus of two stacks indexes a row of vertices that does not exist')
seed('ellipse-major-axis','C12','shape',[('shape/ellipse.go','''	circle.Vertices = append(circle.Vertices, e.center)

	for''','''	circle.Vertices = append(circle.Vertices, e.center)

	if e.semiAxis1 < e.semiAxis2 {
		e.semiAxis1, e.semiAxis2 = e.semiAxis2, e.semiAxis1
	}
	for''')],S+'''
func TestDemo(t *testing.T) {
	for _, ax := range [][2]float64{{3, 2}, {2, 2}, {1, 4}} {
		m := ConstructEllipse(r3.Vector{X: 1, Y: 2, Z: 3}, ax[0], ax[1])
		for _, v := range m.Vertices[1:] {
			x, y := (v.X-1)/ax[0], (v.Y-2)/ax[1]
			if math.Abs(x*x+y*y-1) > 1e-9 {
				t.Fatal(ax, v)
			}
		}
	}
}
''','a second semi-axis longer than the first','the two semi-axes are exchanged when the second is the longer one')
seed('circle-closing','C12','shape',[('shape/circle.go','''uint32(lenVertices-1), 1)
	circle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)''','''uint32(lenVertices-1), 1)
	circle.Indices = append(circle.Indices, 1, 0, uint32(lenVertices-1))''')],S+'''
func TestDemo(t *testing.T) {
	m := ConstructCircle(r3.Vector{X: 1}, 2)
	seen := map[[3]uint32]bool{}
	for i := 0; i+2 < len(m.Indices); i += 3 {
		k := [3]uint32{m.Indices[i], m.Indices[i+1], m.Indices[i+2]}
		for k[0] != 0 {
			k = [3]uint32{k[1], k[2], k[0]}
		}
		if seen[k] {
			t.Fatal("twice in the same winding:", k)
		}
		seen[k] = true
	}
}
''','the triangle that closes the fan','the closing triangle appears twice in one winding and never in the other')
seed('sphere-normal-centre','C13','shape',[('shape/sphere.go','''			Vector := r3.Vector{x, y, z}
			Vector.Add(sd.center)
''','''			x += sd.center.X
			Vector := r3.Vector{x, y + sd.center.Y, z + sd.center.Z}
''')],S+'''
func TestDemo(t *testing.T) {
	for _, c := range []r3.Vector{{}, {Y: 3, Z: -4}, {X: 2}} {
		m := ConstructSphere(c, 2)
		for i, n := range m.Normals {
			v := m.Vertices[i]
			if math.Abs(v.X-c.X-2*n[0]) > 1e-9 || math.Abs(v.Y-c.Y-2*n[1]) > 1e-9 || math.Abs(v.Z-c.Z-2*n[2]) > 1e-9 {
				t.Fatal(c, v, n)
			}
		}
	}
}
''','a sphere whose centre is off the origin in x','the normals of a sphere include the x coordinate of its centre')
