NT='''package nurbs

import (
	"math"
	"testing"

	"github.com/ungerik/go3d/float64/vec3"
)

var _ = math.Abs
var _ vec3.T

'''
seed('span-at-knot','C19','nurbs',[('nurbs/basis.go','''	for u < float64(U[mid]) || u >= float64(U[mid+1]) {''','''	for u < float64(U[mid]) || u > float64(U[mid+1]) {''')],NT+'''
func TestDemo(t *testing.T) {
	U := []int{0, 0, 0, 1, 2, 3, 4, 4, 5, 5, 5}
	for _, u := range []float64{0, 0.5, 1, 1.5, 2, 3, 3.5, 4, 4.5, 5} {
		s := findSpan(7, 2, u, U)
		if u == 5 && s != 7 || u != 5 && !(float64(U[s]) <= u && u < float64(U[s+1])) {
			t.Fatalf("u %g: span %d", u, s)
		}
	}
}
''','a parameter equal to an interior knot that the bisection meets as an upper end','the span before a knot is returned for a parameter on the knot')
seed('basis-left-right','C20','nurbs',[('nurbs/basis.go','''			N[r] = saved + right[r+1]*temp
			saved = left[j-r] * temp''','''			N[r] = saved + right[r+1]*temp
			saved = N[j-1] - right[r+1]*temp
			if r < j-1 {
				saved = left[j-r] * temp
			}''')],NT+'''
func TestDemo(t *testing.T) {
	U := []int{0, 0, 0, 1, 3, 6, 7, 9, 9, 9}
	for _, u := range []float64{1, 1.5, 2.5, 3} {
		s := findSpan(6, 2, u, U)
		N := basisFuns(s, u, 2, U)
		sum := 0.
		for _, v := range N {
			if v < -1e-9 {
				t.Fatalf("u %g: %v", u, N)
			}
			sum += v
		}
		if math.Abs(sum-1) > 1e-9 {
			t.Fatalf("u %g: sum of %v is %g", u, N, sum)
		}
	}
}
''','a degree of at least two, or a parameter that is not at the start of its span','the last basis function is computed from an entry that was already overwritten')
seed('curve-zero-weight','C21','nurbs',[('nurbs/curve.go','''	for i := 0; i <= p; i++ {
''','''	for i := 0; i <= p; i++ {
		if N[i] == 0 {
			break
		}
''')],NT+'''
func TestDemo(t *testing.T) {
	U := []int{0, 0, 0, 1, 2, 3, 3, 3}
	P := []vec3.T{{0, 0, 0}, {1, 2, 0}, {2, -1, 1}, {3, 5, 0}, {7, 7, 7}}
	if c := curvePoint(4, 2, U, P, 0.5); c[0] <= 0 {
		t.Fatal(c)
	}
	if c := curvePoint(4, 2, U, P, 3); c != P[4] {
		t.Fatalf("end of a clamped curve: %v", c)
	}
}
''','a parameter where the first governing basis functions vanish: the end of the domain','the end point of the curve is the origin')
