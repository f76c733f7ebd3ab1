# G2: points over gfP2; ring(e) is the element of Fp[i]/(i^2+1)
package bn256
property P08
define okz2(z) = 0 <= z.y && iff(zeroall(z), cong(P, ring(z), 0))
define tB() = named(B, I*twistB.x + twistB.y)
define onc2(c) = cong(P, ring(c.y)*ring(c.y), ring(c.x)*ring(c.x)*ring(c.x) + tB()*ring(c.z)*ring(c.z)*ring(c.z)*ring(c.z)*ring(c.z)*ring(c.z))
define okpt2(c) = okz2(c.z) && (zeroall(c.z) || onc2(c))
define dblrel2(c,a) = sameproj(c, DX(a), DY(a), 2*a.y*a.z) && iff(zeroall(c.z), cong(P, a.y*a.z, 0))
func twistPoint.Set c a
  ringatoms
  modifies c
  ensures eqleaf(c, old(a))
func twistPoint.SetInfinity c
  ringatoms
  modifies c
  ensures zeroall(c.z)
  yields grp(c) == 0
func twistPoint.IsInfinity c
  ensures iff(result, zeroall(c.z))

func twistPoint.Double c a pool
  ringresult
  ringatoms
  modifies c
  requires okpt2(a)
  ensures okpt2(c)
  ensures implies(zeroall(old(a.z)), zeroall(c.z))
  ensures dblrel2(c, old(a))
  yields grp(c) == 2*old(grp(a))

func twistPoint.Add c a b pool
  ringresult
  ringatoms
  modifies c
  requires okpt2(a) && okpt2(b)
  ensures okpt2(c)
  ensures implies(zeroall(old(a.z)), eqleaf(c, old(b)))
  ensures implies(zeroall(old(b.z)) && !zeroall(old(a.z)), eqleaf(c, old(a)))
  # different x coordinates: chord
  ensures implies(!zeroall(old(a.z)) && !zeroall(old(b.z)) && !old(samex(a,b)), chord(c, old(a), old(b)))
  ensures implies(!zeroall(old(a.z)) && !zeroall(old(b.z)) && !old(samex(a,b)), !zeroall(c.z))
  # same point: tangent
  ensures implies(!zeroall(old(a.z)) && !zeroall(old(b.z)) && old(samex(a,b)) && old(samey(a,b)), dblrel2(c, old(a)))
  # opposite points
  ensures implies(!zeroall(old(a.z)) && !zeroall(old(b.z)) && old(samex(a,b)) && !old(samey(a,b)), zeroall(c.z))
  yields grp(c) == old(grp(a)) + old(grp(b))

func twistPoint.Mul c a scalar pool
  ringresult
  ringatoms
  modifies c
  returns c
  requires okpt2(a) && scalar >= 0
  ensures okpt2(c)
  ensures grp(c) == scalar*old(grp(a))
  yields implies(scalar == Order, iff(zeroall(c.z), old(killed(a))))
  loop 1
    invariant -1 <= i && i <= bitlen(scalar)
    invariant okpt2(sum)
    invariant grp(sum) == shr(scalar, i+1)*grp(a)

func twistPoint.MakeAffine c pool
  ringresult
  ringatoms
  modifies c
  returns c
  requires okpt2(c)
  ensures okpt2(c)
  ensures implies(zeroall(old(c.z)), zeroall(c.z) && zeroall(c.t))
  ensures implies(!zeroall(old(c.z)), c.z.x == 0 && c.z.y == 1 && c.t.x == 0 && c.t.y == 1 && samex(c, old(c)) && samey(c, old(c)))
  yields grp(c) == old(grp(c))

func twistPoint.Negative c a pool
  ringatoms
  modifies c
  requires okpt2(a)
  ensures okpt2(c)
  ensures eqleaf(c.x, old(a.x)) && eqleaf(c.z, old(a.z)) && cong(P, ring(c.y), 0 - old(ring(a.y)))
  yields grp(c) == 0 - old(grp(a))


# affine points only: on the twist, and annihilated by the group order
func twistPoint.IsOnCurve c
  requires c.z.x == 0 && c.z.y == 1
  ensures iff(result, cong(P, ring(c.y)*ring(c.y), ring(c.x)*ring(c.x)*ring(c.x) + I*twistB.x + twistB.y) && killed(c))

func G2.ScalarMult e a k
  modifies e
  nilfield e.p
  returns e
  requires !isnil(a.p)
  requires okpt2(a.p) && k >= 0
  ensures okpt2(e.p)
  ensures grp(e.p) == k*old(grp(a.p))
func G2.ScalarBaseMult e k
  modifies e
  nilfield e.p
  returns e
  requires k >= 0
  ensures okpt2(e.p)
  ensures grp(e.p) == k*grp(twistGen)
func G2.Add e a b
  modifies e
  nilfield e.p
  returns e
  requires !isnil(a.p) && !isnil(b.p)
  requires okpt2(a.p) && okpt2(b.p)
  ensures okpt2(e.p)
  ensures grp(e.p) == old(grp(a.p)) + old(grp(b.p))

func GT.ScalarMult e a k
  modifies e
  nilfield e.p
  returns e
  requires !isnil(a.p) && k >= 0
  ensures cong(P, ring(e.p), pow(old(ring(a.p)), k))
func GT.Add e a b
  modifies e
  nilfield e.p
  returns e
  requires !isnil(a.p) && !isnil(b.p)
  ensures cong(P, ring(e.p), old(ring(a.p))*old(ring(b.p)))
func GT.Neg e a
  modifies e
  nilfield e.p
  returns e
  requires !isnil(a.p)
  requires !cong(P, ring(a.p), 0)
  ensures cong(P, ring(e.p)*old(ring(a.p)), 1)
