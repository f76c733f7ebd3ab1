package bn256
property P09

# encodings: 32-byte big-endian affine coordinates
func G1.Marshal e
  fresh
  modifies e
  requires !isnil(e.p) && okpt(e.p)
  ensures len(result) == 64
  ensures okpt(e.p) && iff(e.p.z == 0, old(e.p.z) == 0)
  ensures implies(old(e.p.z) == 0, bytes(result,0,32) == 0 && bytes(result,32,32) == 0)
  ensures implies(old(e.p.z) != 0, e.p.z == 1 && samex(e.p, old(e.p)) && samey(e.p, old(e.p)))
  ensures implies(old(e.p.z) != 0, bytes(result,0,32) == mod(e.p.x, P) && bytes(result,32,32) == mod(e.p.y, P))
func G1.Unmarshal e m
  modifies e
  nilfield e.p
  ensures iff(isnil(result1), len(m) == 64 && bytes(m,0,32) < P && bytes(m,32,32) < P && (bytes(m,0,32) == 0 && bytes(m,32,32) == 0 || cong(P, bytes(m,32,32)*bytes(m,32,32), bytes(m,0,32)*bytes(m,0,32)*bytes(m,0,32)+3)))
  ensures implies(isnil(result1), okpt(e.p) && len(result0) == 0)
  ensures implies(isnil(result1) && bytes(m,0,32) == 0 && bytes(m,32,32) == 0, e.p.z == 0)
  ensures implies(isnil(result1) && !(bytes(m,0,32) == 0 && bytes(m,32,32) == 0), e.p.z == 1 && e.p.x == bytes(m,0,32) && e.p.y == bytes(m,32,32))
func G2.Marshal n
  fresh
  modifies n
  requires !isnil(n.p) && okpt2(n.p)
  ensures len(result) == 128
  ensures okpt2(n.p) && iff(zeroall(n.p.z), old(zeroall(n.p.z)))
  ensures implies(old(zeroall(n.p.z)), bytes(result,0,32) == 0 && bytes(result,32,32) == 0 && bytes(result,64,32) == 0 && bytes(result,96,32) == 0)
  ensures implies(!old(zeroall(n.p.z)), n.p.z.x == 0 && n.p.z.y == 1 && samex(n.p, old(n.p)) && samey(n.p, old(n.p)))
  ensures implies(!old(zeroall(n.p.z)), bytes(result,0,32) == mod(n.p.x.x, P) && bytes(result,32,32) == mod(n.p.x.y, P) && bytes(result,64,32) == mod(n.p.y.x, P) && bytes(result,96,32) == mod(n.p.y.y, P))
  yields implies(!old(zeroall(n.p.z)), iff(killed(bytes(result,0,32), bytes(result,32,32), bytes(result,64,32), bytes(result,96,32)), old(killed(n.p))))
define MX(m) = I*bytes(m,0,32) + bytes(m,32,32)
define MY(m) = I*bytes(m,64,32) + bytes(m,96,32)
define minf(m) = bytes(m,0,32) == 0 && bytes(m,32,32) == 0 && bytes(m,64,32) == 0 && bytes(m,96,32) == 0
func G2.Unmarshal e m
  modifies e
  nilfield e.p
  ensures implies(isnil(result1), len(m) == 128 && bytes(m,0,32) < P && bytes(m,32,32) < P && bytes(m,64,32) < P && bytes(m,96,32) < P)
  ensures implies(isnil(result1) && minf(m), zeroall(e.p.z))
  ensures implies(isnil(result1) && !minf(m), okpt2(e.p) && killed(e.p) && e.p.x.x == bytes(m,0,32) && e.p.x.y == bytes(m,32,32) && e.p.y.x == bytes(m,64,32) && e.p.y.y == bytes(m,96,32) && e.p.z.x == 0 && e.p.z.y == 1)
  ensures implies(len(m) == 128 && bytes(m,0,32) < P && bytes(m,32,32) < P && bytes(m,64,32) < P && bytes(m,96,32) < P && !isnil(result1), !minf(m) && !(cong(P, MY(m)*MY(m), MX(m)*MX(m)*MX(m) + I*twistB.x + twistB.y) && killed(e.p)) && e.p.x.x == bytes(m,0,32) && e.p.x.y == bytes(m,32,32) && e.p.y.x == bytes(m,64,32) && e.p.y.y == bytes(m,96,32) && e.p.z.x == 0 && e.p.z.y == 1)
func GT.Marshal n
  fresh
  modifies n
  requires !isnil(n.p)
  ensures len(result) == 384
  ensures cong(P, ring(n.p), old(ring(n.p))) && red(P, n.p)
  ensures bytes(result,0,32) == n.p.x.x.x && bytes(result,32,32) == n.p.x.x.y && bytes(result,64,32) == n.p.x.y.x && bytes(result,96,32) == n.p.x.y.y && bytes(result,128,32) == n.p.x.z.x && bytes(result,160,32) == n.p.x.z.y
  ensures bytes(result,192,32) == n.p.y.x.x && bytes(result,224,32) == n.p.y.x.y && bytes(result,256,32) == n.p.y.y.x && bytes(result,288,32) == n.p.y.y.y && bytes(result,320,32) == n.p.y.z.x && bytes(result,352,32) == n.p.y.z.y
func GT.Unmarshal e m
  modifies e
  nilfield e.p
  ensures iff(result1, len(m) == 384)
  returns e
  nil 0 when len(m) != 384
  ensures implies(result1, e.p.x.x.x == bytes(m,0,32) && e.p.x.x.y == bytes(m,32,32) && e.p.x.y.x == bytes(m,64,32) && e.p.x.y.y == bytes(m,96,32) && e.p.x.z.x == bytes(m,128,32) && e.p.x.z.y == bytes(m,160,32))
  ensures implies(result1, e.p.y.x.x == bytes(m,192,32) && e.p.y.x.y == bytes(m,224,32) && e.p.y.y.x == bytes(m,256,32) && e.p.y.y.y == bytes(m,288,32) && e.p.y.z.x == bytes(m,320,32) && e.p.y.z.y == bytes(m,352,32))
func G1.X e
  modifies e
  requires !isnil(e.p) && okpt(e.p)
  ensures implies(old(e.p.z) == 0, result == 0 && e.p.z == 0)
  ensures implies(old(e.p.z) != 0, e.p.z == 1 && samex(e.p, old(e.p)) && samey(e.p, old(e.p)) && result == mod(e.p.x, P))

# client lemmas (contracts/clients/pairing): decoding an encoding gives the element back
func lemmaRoundTripG1 e d
  modifies e
  modifies d
  nilfield d.p
  requires !isnil(e.p) && okpt(e.p)
  ensures isnil(result)
  ensures okpt(d.p) && iff(d.p.z == 0, old(e.p.z) == 0)
  ensures implies(old(e.p.z) != 0, samex(d.p, old(e.p)) && samey(d.p, old(e.p)))
func lemmaRoundTripG2 e d
  modifies e
  modifies d
  nilfield d.p
  requires !isnil(e.p) && okpt2(e.p) && (zeroall(e.p.z) || killed(e.p))
  ensures isnil(result)
  ensures iff(zeroall(d.p.z), old(zeroall(e.p.z)))
  ensures implies(!old(zeroall(e.p.z)), okpt2(d.p) && samex(d.p, old(e.p)) && samey(d.p, old(e.p)))
func lemmaRoundTripGT e d
  modifies e
  modifies d
  nilfield d.p
  requires !isnil(e.p)
  ensures result
  ensures cong(P, ring(d.p), old(ring(e.p)))
func lemmaEqualEncodingsG1 a b
  noalias a b
  modifies a
  modifies b
  requires !isnil(a.p) && okpt(a.p) && !isnil(b.p) && okpt(b.p) && iff(a.p.z == 0, b.p.z == 0) && samex(a.p, b.p) && samey(a.p, b.p)
  ensures len(result0) == 64 && len(result1) == 64
  ensures bytes(result0,0,32) == bytes(result1,0,32)
  ensures bytes(result0,32,32) == bytes(result1,32,32)
func lemmaEqualEncodingsGT a b
  noalias a b
  modifies a
  modifies b
  requires !isnil(a.p) && !isnil(b.p) && cong(P, ring(a.p), ring(b.p))
  ensures len(result0) == 384 && len(result1) == 384
  ensures bytes(result0,0,32) == bytes(result1,0,32)
  ensures bytes(result0,32,32) == bytes(result1,32,32)
  ensures bytes(result0,64,32) == bytes(result1,64,32)
  ensures bytes(result0,96,32) == bytes(result1,96,32)
  ensures bytes(result0,128,32) == bytes(result1,128,32)
  ensures bytes(result0,160,32) == bytes(result1,160,32)
  ensures bytes(result0,192,32) == bytes(result1,192,32)
  ensures bytes(result0,224,32) == bytes(result1,224,32)
  ensures bytes(result0,256,32) == bytes(result1,256,32)
  ensures bytes(result0,288,32) == bytes(result1,288,32)
  ensures bytes(result0,320,32) == bytes(result1,320,32)
  ensures bytes(result0,352,32) == bytes(result1,352,32)
