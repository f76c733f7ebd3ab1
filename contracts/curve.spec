# Source groups. Points are Jacobian: (x,y,z) stands for (x/z^2, y/z^3), z == 0 for infinity.
package bn256
property P08

# representation invariant: the only z divisible by P is 0; the point satisfies the curve equation
define okz(z) = 0 <= z && implies(cong(P, z, 0), z == 0)
# the curve y^2 = x^3 + 3; with z == 0 the equation says nothing and is not required
define onc(c) = cong(P, c.y*c.y, c.x*c.x*c.x + 3*c.z*c.z*c.z*c.z*c.z*c.z)
define okpt(c) = okz(c.z) && (c.z == 0 || onc(c))
define U1(a,b) = a.x*b.z*b.z
define S1(a,b) = a.y*b.z*b.z*b.z
define samex(a,b) = cong(P, U1(a,b), U1(b,a))
define samey(a,b) = cong(P, S1(a,b), S1(b,a))
define HH(a,b) = U1(b,a) - U1(a,b)
define NN(a,b) = S1(b,a) - S1(a,b)
define X3(a,b) = NN(a,b)*NN(a,b) - HH(a,b)*HH(a,b)*(U1(a,b)+U1(b,a))
define Y3(a,b) = NN(a,b)*(U1(a,b)*HH(a,b)*HH(a,b) - X3(a,b)) - S1(a,b)*HH(a,b)*HH(a,b)*HH(a,b)
define Z3(a,b) = HH(a,b)*a.z*b.z
# c is a projective representative (up to scaling of (x,y,z)) of the point (X:Y:Z)
define sameproj(c,x,y,z) = cong(P, c.x*z*z, x*c.z*c.z) && cong(P, c.y*z*z*z, y*c.z*c.z*c.z)
define chord(c,a,b) = sameproj(c, X3(a,b), Y3(a,b), Z3(a,b))
define DX(a) = 9*a.x*a.x*a.x*a.x - 8*a.x*a.y*a.y
define DY(a) = 3*a.x*a.x*(4*a.x*a.y*a.y - DX(a)) - 8*a.y*a.y*a.y*a.y
define dblrel(c,a) = sameproj(c, DX(a), DY(a), 2*a.y*a.z) && iff(c.z == 0, cong(P, a.y*a.z, 0))

func curvePoint.Set c a
  modifies c
  ensures eqleaf(c, old(a))
func curvePoint.SetInfinity c
  modifies c
  ensures c.z == 0
  yields grp(c) == 0
func curvePoint.IsInfinity c
  ensures iff(result, c.z == 0)

func curvePoint.Double c a pool
  modifies c
  requires okpt(a)
  ensures okpt(c)
  ensures implies(old(a.z) == 0, c.z == 0)
  ensures dblrel(c, old(a))
  yields grp(c) == 2*old(grp(a))

func curvePoint.Add c a b pool
  modifies c
  requires okpt(a) && okpt(b)
  ensures okpt(c)
  ensures implies(old(a.z) == 0, eqleaf(c, old(b)))
  ensures implies(old(b.z) == 0 && old(a.z) != 0, eqleaf(c, old(a)))
  # different x coordinates: chord
  ensures implies(old(a.z) != 0 && old(b.z) != 0 && !old(samex(a,b)), chord(c, old(a), old(b)) && c.z != 0)
  # same point: tangent
  ensures implies(old(a.z) != 0 && old(b.z) != 0 && old(samex(a,b)) && old(samey(a,b)), dblrel(c, old(a)))
  # opposite points
  ensures implies(old(a.z) != 0 && old(b.z) != 0 && old(samex(a,b)) && !old(samey(a,b)), c.z == 0)
  yields grp(c) == old(grp(a)) + old(grp(b))

func curvePoint.Mul c a scalar pool
  modifies c
  returns c
  requires okpt(a) && scalar >= 0
  ensures okpt(c)
  ensures grp(c) == scalar*old(grp(a))
  loop 1
    invariant -1 <= i && i <= bitlen(scalar)
    invariant okpt(sum)
    invariant grp(sum) == shr(scalar, i+1)*grp(a)

func curvePoint.MakeAffine c pool
  modifies c
  returns c
  requires okpt(c)
  ensures okpt(c)
  ensures implies(old(c.z) == 0, c.z == 0 && c.x == 0 && c.y == 1)
  ensures implies(old(c.z) != 0, c.z == 1 && samex(c, old(c)) && samey(c, old(c)))
  yields grp(c) == old(grp(c))

func curvePoint.Negative c a
  modifies c
  requires okpt(a)
  ensures okpt(c)
  ensures c.x == old(a.x) && c.z == old(a.z) && c.y == 0 - old(a.y)
  yields grp(c) == 0 - old(grp(a))

func curvePoint.IsOnCurve c

  ensures iff(result, cong(P, c.y*c.y, c.x*c.x*c.x + 3))

func G1.ScalarMult e a k
  modifies e
  nilfield e.p
  returns e
  requires !isnil(a.p)
  requires okpt(a.p) && k >= 0
  ensures okpt(e.p)
  ensures grp(e.p) == k*old(grp(a.p))
func G1.ScalarBaseMult e k
  modifies e
  nilfield e.p
  returns e
  requires k >= 0
  ensures okpt(e.p)
  ensures grp(e.p) == k*grp(curveGen)
func G1.Add e a b
  modifies e
  nilfield e.p
  returns e
  requires !isnil(a.p) && !isnil(b.p)
  requires okpt(a.p) && okpt(b.p)
  ensures okpt(e.p)
  ensures grp(e.p) == old(grp(a.p)) + old(grp(b.p))
func G1.Neg e a
  modifies e
  nilfield e.p
  returns e
  requires !isnil(a.p)
  requires okpt(a.p)
  ensures okpt(e.p)
  ensures grp(e.p) == 0 - old(grp(a.p))
