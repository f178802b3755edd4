// Contracts of package predicates: orientation and in-sphere determinants.
package "geGoMetry/predicates"

pure det33(a1 real, a2 real, a3 real, b1 real, b2 real, b3 real, c1 real, c2 real, c3 real) real =
  a1*(b2*c3 - b3*c2) - a2*(b1*c3 - b3*c1) + a3*(b1*c2 - b2*c1)

// determinant of the three edge vectors from d
pure orient(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector) real =
  det33(a.X-d.X, a.Y-d.Y, a.Z-d.Z, b.X-d.X, b.Y-d.Y, b.Z-d.Z, c.X-d.X, c.Y-d.Y, c.Z-d.Z)

// determinant of the rows (lift, x, y, z), expanded along the lifts
pure lifted(ax real, ay real, az real, bx real, by real, bz real, cx real, cy real, cz real, dx real, dy real, dz real) real =
  (ax*ax+ay*ay+az*az)*det33(bx,by,bz, cx,cy,cz, dx,dy,dz) - (bx*bx+by*by+bz*bz)*det33(ax,ay,az, cx,cy,cz, dx,dy,dz)
  + (cx*cx+cy*cy+cz*cz)*det33(ax,ay,az, bx,by,bz, dx,dy,dz) - (dx*dx+dy*dy+dz*dz)*det33(ax,ay,az, bx,by,bz, cx,cy,cz)

pure sphere15(ax real, ay real, az real, bx real, by real, bz real, cx real, cy real, cz real, dx real, dy real, dz real, ex real, ey real, ez real) real =
  lifted(ax-ex, ay-ey, az-ez, bx-ex, by-ey, bz-ez, cx-ex, cy-ey, cz-ez, dx-ex, dy-ey, dz-ez)

// sum of the absolute values of the products in a 3x3 minor and in the lifted determinant
pure absdet33(a1 real, a2 real, a3 real, b1 real, b2 real, b3 real, c1 real, c2 real, c3 real) real =
  (abs(b1*c2) + abs(b2*c1))*abs(a3) + (abs(c1*a2) + abs(c2*a1))*abs(b3) + (abs(a1*b2) + abs(a2*b1))*abs(c3)

pure perm12(ax real, ay real, az real, bx real, by real, bz real, cx real, cy real, cz real, dx real, dy real, dz real) real =
  (ax*ax+ay*ay+az*az)*absdet33(bx,by,bz, cx,cy,cz, dx,dy,dz) + (bx*bx+by*by+bz*bz)*absdet33(ax,ay,az, cx,cy,cz, dx,dy,dz)
  + (cx*cx+cy*cy+cz*cz)*absdet33(ax,ay,az, bx,by,bz, dx,dy,dz) + (dx*dx+dy*dy+dz*dz)*absdet33(ax,ay,az, bx,by,bz, cx,cy,cz)

pure insph(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) real =
  sphere15(a.X,a.Y,a.Z, b.X,b.Y,b.Z, c.X,c.Y,c.Z, d.X,d.Y,d.Z, p.X,p.Y,p.Z)

func orient3dfast(a, b, c, d) (r)
  ensures [C05] "determinant of the edge vectors" r == orient(a, b, c, d)

func InSphereFast(pa, pb, pc, pd, pe) (r)
  ensures [C05] "lifted determinant" r == insph(pa, pb, pc, pd, pe)

func inSphere(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez) (r)
  ensures [C05] "the determinant, or zero within the error bound"
    let d = sphere15(ax,ay,az, bx,by,bz, cx,cy,cz, dx,dy,dz, ex,ey,ez) in
    r == d || r == 0 && abs(d) <= (16 + 224*1.1102230246251565e-16)*1.1102230246251565e-16 * perm12(ax-ex, ay-ey, az-ez, bx-ex, by-ey, bz-ez, cx-ex, cy-ey, cz-ez, dx-ex, dy-ey, dz-ez)

lemma [C05] orient_swap_ab(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector) ensures orient(a,b,c,d) == -orient(b,a,c,d)
lemma [C05] orient_swap_bc(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector) ensures orient(a,b,c,d) == -orient(a,c,b,d)
lemma [C05] orient_swap_cd(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector) ensures orient(a,b,c,d) == -orient(a,b,d,c)
lemma [C05] orient_coplanar(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, s real, t real)
  requires d.X == a.X + s*(b.X-a.X) + t*(c.X-a.X) && d.Y == a.Y + s*(b.Y-a.Y) + t*(c.Y-a.Y) && d.Z == a.Z + s*(b.Z-a.Z) + t*(c.Z-a.Z)
  ensures orient(a, b, c, d) == 0
lemma [C05] insphere_swap_ab(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) ensures insph(a,b,c,d,p) == -insph(b,a,c,d,p)
lemma [C05] insphere_swap_bc(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) ensures insph(a,b,c,d,p) == -insph(a,c,b,d,p)
lemma [C05] insphere_swap_cd(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector, p r3.Vector) ensures insph(a,b,c,d,p) == -insph(a,b,d,c,p)
lemma [C05] insphere_on_a(a r3.Vector, b r3.Vector, c r3.Vector, d r3.Vector) ensures insph(a,b,c,d,a) == 0
