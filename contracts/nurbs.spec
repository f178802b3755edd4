// Contracts of module nurbs (directory nurbs): B-spline basis functions and curve points.
package "nurbs" "nurbs"

gocode `
import "github.com/ungerik/go3d/float64/vec3"
var _ vec3.T
`

pure sorted(U []int) bool = forall a int, b int :: 0 <= a && a <= b && a < len(U) && b < len(U) ==> U[a] <= U[b]
// s is the span of u: its knots enclose u, and the end of the domain belongs to the last span
pure isSpan(U []int, p int, n int, u real, s int) bool =
  p <= s && s <= n && (u == U[n+1] ? s == n : U[s] <= u && u < U[s+1])

func findSpan(n, p, u, U) (r)
  gen `
	n := 1 + r.Intn(5)
	p := r.Intn(n + 1)
	U := make([]int, n+p+2+r.Intn(2))
	for i := 1; i < len(U); i++ {
		U[i] = U[i-1] + r.Intn(3)
	}
	if n+2 <= len(U)-1 && U[n] == U[n+1] {
		for i := n + 1; i < len(U); i++ {
			U[i]++
		}
	}
	u := float64(U[p]) + float64(r.Intn(33))/32*float64(U[n+1]-U[p])
	return []interface{}{n, p, u, U}`
  requires 0 <= p && p <= n && n+1 < len(U) && sorted(U) && U[p] <= u && u <= U[n+1]
  ensures [C19] "the span encloses the parameter" isSpan(U, p, n, u, r)
  ensures [C19,C21] "no other span does" forall s int :: p <= s && s <= n && isSpan(U, p, n, u, s) ==> s == r
  terminates
  invariant [low named phi int, high named phi int] p <= low && low < high && high <= n + 1 && U[low] <= u && u < U[high]
  invariant [low named phi int, high named phi int, mid named phi int] mid == div(low + high, 2)
  decreases [low named phi int, high named phi int] high - low

// ---- basis functions ----

pure ratio(a real, b real) real = b == 0 ? 0 : a / b
// the Cox-de Boor recursion for basis function j of degree d, for a parameter u of span s; 0/0 counts as 0
rec piece(U []int, s int, j int, d int, u real) real =
  d <= 0 ? (j == s ? 1 : 0)
  : j < s - d || j > s ? 0
  : ratio(u - U[j], U[j+d] - U[j]) * piece(U, s, j, d-1, u) + ratio(U[j+d+1] - u, U[j+d+1] - U[j+1]) * piece(U, s, j+1, d-1, u)

// sum of N[a..b)
rec psum(N []real, a int, b int) real = b <= a ? 0 : psum(N, a, b-1) + N[b-1]

lemma [C20] psumFrame(A []real, B []real, a int, b int)
  requires forall k int :: a <= k && k < b ==> A[k] == B[k]
  ensures psum(A, a, b) == psum(B, a, b)
  induction b := a
  trigger psum(A, a, b), psum(B, a, b)

lemma [C20] psumLeft(A []real, a int, b int)
  requires a < b
  ensures psum(A, a, b) == A[a] + psum(A, a+1, b)
  induction b := a + 1
  trigger psum(A, a, b)

pure enclosed(U []int, s int, u real) bool = U[s] < U[s+1] && U[s] <= u && u <= U[s+1]

func basisFuns(i, u, p, U) (r)
  gen `
	n := 1 + r.Intn(5)
	p := r.Intn(n + 1)
	U := make([]int, n+p+2+r.Intn(2))
	for i := 1; i < len(U); i++ {
		U[i] = U[i-1] + r.Intn(3)
	}
	if n+2 <= len(U)-1 && U[n] == U[n+1] {
		for i := n + 1; i < len(U); i++ {
			U[i]++
		}
	}
	u := float64(U[p]) + float64(r.Intn(33))/32*float64(U[n+1]-U[p])
	s := n
	for s > p && !(float64(U[s]) <= u && u < float64(U[s+1])) {
		s--
	}
	return []interface{}{s, u, p, U}`
  requires 0 <= p && p <= i && i + p < len(U) && i + 1 < len(U) && sorted(U) && enclosed(U, i, u)
  ensures [C20] "one value per non-vanishing function" len(r) == p + 1
  ensures [C20] "the Cox-de Boor values" forall k int :: 0 <= k && k <= p ==> r[k] == piece(U, i, i-p+k, p, u)
  ensures [C20] "no negative value" forall k int :: 0 <= k && k <= p ==> r[k] >= 0
  ensures [C20] "the values sum to one" psum(r, 0, p+1) == 1
  terminates
  use psumFrame, psumLeft
  invariant [left named []real, j named phi int] forall k int :: 1 <= k && k < j ==> left[k] == u - U[i+1-k]
  invariant [right named []real, j named phi int] forall k int :: 1 <= k && k < j ==> right[k] == U[i+k] - u
  invariant [left named []real, j named int, r named phi int] forall k int :: 1 <= k && k <= j ==> left[k] == u - U[i+1-k]
  invariant [right named []real, j named int, r named phi int] forall k int :: 1 <= k && k <= j ==> right[k] == U[i+k] - u
  invariant [N named []real, j named phi int] forall k int :: 0 <= k && k < j ==> N[k] == piece(U, i, i-(j-1)+k, j-1, u) && N[k] >= 0
  invariant [N named []real, j named phi int] psum(N, 0, j) == 1
  invariant [N named []real, j named int, r named phi int, saved named real] forall k int :: 0 <= k && k < r ==> N[k] == piece(U, i, i-j+k, j, u) && N[k] >= 0
  invariant [N named []real, j named int, r named phi int, saved named real] forall k int :: r <= k && k < j ==> N[k] == piece(U, i, i-(j-1)+k, j-1, u) && N[k] >= 0
  invariant [j named int, r named phi int, saved named real] saved >= 0 && saved == (r == 0 ? 0 : ratio(u - U[i-j+r], U[i+r] - U[i-j+r]) * piece(U, i, i-j+r, j-1, u))
  invariant [N named []real, j named int, r named phi int, saved named real] psum(N, 0, r) + saved + psum(N, r, j) == 1

// ---- curve points ----

// coordinate c of the sum of the first k governing control points, weighted with the basis functions of span s
rec csum(U []int, P []vec3.T, c int, s int, p int, u real, k int) real =
  k <= 0 ? 0 : csum(U, P, c, s, p, u, k-1) + coord(P[s-p+k-1], c) * piece(U, s, s-p+k-1, p, u)
pure coord(v vec3.T, c int) real = c == 0 ? v[0] : c == 1 ? v[1] : v[2]

// least and greatest coordinate c of the k points from P[a] on
rec lowest(P []vec3.T, c int, a int, k int) real = k <= 1 ? coord(P[a], c) : min(lowest(P, c, a, k-1), coord(P[a+k-1], c))
rec highest(P []vec3.T, c int, a int, k int) real = k <= 1 ? coord(P[a], c) : max(highest(P, c, a, k-1), coord(P[a+k-1], c))

// with non-negative weights N the weighted sum is between the least and the greatest point times the sum of the weights
lemma [C21] hull(U []int, P []vec3.T, N []real, c int, s int, p int, u real, k int)
  requires forall m int :: 0 <= m && m < k ==> N[m] == piece(U, s, s-p+m, p, u) && N[m] >= 0
  ensures psum(N, 0, k) >= 0 && lowest(P, c, s-p, k) * psum(N, 0, k) <= csum(U, P, c, s, p, u, k) && csum(U, P, c, s, p, u, k) <= highest(P, c, s-p, k) * psum(N, 0, k)
  induction k := 0
  trigger csum(U, P, c, s, p, u, k), psum(N, 0, k)

func curvePoint(n, p, U, P, u) (r)
  gen `
	n := 1 + r.Intn(5)
	p := r.Intn(n + 1)
	U := make([]int, n+p+2+r.Intn(2))
	for i := 1; i < len(U); i++ {
		U[i] = U[i-1] + r.Intn(3)
	}
	if n+2 <= len(U)-1 && U[n] == U[n+1] {
		for i := n + 1; i < len(U); i++ {
			U[i]++
		}
	}
	u := float64(U[p]) + float64(r.Intn(33))/32*float64(U[n+1]-U[p])
	P := make([]vec3.T, n+1)
	for i := range P {
		P[i] = vec3.T{float64(r.Intn(9) - 4), float64(r.Intn(9) - 4), float64(r.Intn(9) - 4)}
	}
	return []interface{}{n, p, U, P, u}`
  requires 0 <= p && p <= n && n+p+1 < len(U) && n < len(P) && sorted(U) && U[p] <= u && u <= U[n+1] && U[n] < U[n+1]
  ensures [C21] "the weighted sum of the governing control points" forall s int, c int :: p <= s && s <= n && 0 <= c && c < 3 && isSpan(U, p, n, u, s) ==> coord(r, c) == csum(U, P, c, s, p, u, p+1)
  ensures [C21] "within the bounds of the governing control points" forall s int, c int :: p <= s && s <= n && 0 <= c && c < 3 && isSpan(U, p, n, u, s) ==>
    (let w = csum(U, P, c, s, p, u, p+1) in coord(r, c) == w && lowest(P, c, s-p, p+1) <= w && w <= highest(P, c, s-p, p+1))
  terminates
  use hull
  invariant [C named vec3.T, i named phi int, span named int] coord(C, 0) == csum(U, P, 0, span, p, u, i) && coord(C, 1) == csum(U, P, 1, span, p, u, i) && coord(C, 2) == csum(U, P, 2, span, p, u, i)
