From 6593c21a244e9a8c5d8046dc649c630aa1b716f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 01/27] fix: Fq.Exp must not reduce the exponent modulo the
 field order

---
 utils/finiteField.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 67bb2ae..54d1247 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -141,7 +141,7 @@ func (fq Fq) Square(a *big.Int) *big.Int {
 // Exp performs the exponential over Fq
 func (fq Fq) Exp(base *big.Int, e *big.Int) *big.Int {
 	res := fq.One()
-	rem := fq.Copy(e)
+	rem := new(big.Int).Set(e)
 	exp := base
 
 	for !bytes.Equal(rem.Bytes(), bigZero.Bytes()) {
-- 
2.43.0


From ac5813bd381129989e410aecd6d051f0eeda6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 02/27] fix: MulSparseScalar and Combine must not change the
 tree they are traversing

---
 utils/sparsePolynomial.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 6fe136f..2a46333 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -21,7 +21,7 @@ func (fq Fq) MulSparse(a, b *AvlTree) *AvlTree {
 // Mul multiplies a sparse polynomail with a scalar over the Finite Field
 func (fq Fq) MulSparseScalar(a *AvlTree, scalar *big.Int) *AvlTree {
 	a = a.Clone()
-	for L := range a.ChannelNodes(true) {
+	for _, L := range a.DecendingNodes() {
 		a.Put(L.Key, scalar, fq.Mul)
 	}
 	return a
@@ -187,7 +187,7 @@ func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 }
 
 func (f Fq) Combine(a *AvlTree, w []*big.Int) (scaledPolynomial *AvlTree) {
-	for v := range a.ChannelNodes(true) {
+	for _, v := range a.DecendingNodes() {
 		a.Put(v.Key, w[v.Key], f.Mul)
 	}
 	return a
-- 
2.43.0


From 76f10b8a382bee824546fe14949396c3deffc3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 03/27] fix: SparseScalarProduct must return a canonical field
 element

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 2a46333..10866ac 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -181,7 +181,7 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 	res = big.NewInt(0)
 	for v := range a.ChannelNodes(true) {
-		res = res.Add(res, f.Mul(v.Value, b[v.Key]))
+		res = f.Add(res, f.Mul(v.Value, b[v.Key]))
 	}
 	return
 }
-- 
2.43.0


From d38a1a0428b6037903aeb8bf3d2c293dcdc0b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 04/27] fix: DivideSparse must stop when the remainder is zero

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 10866ac..d636f65 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -37,7 +37,7 @@ func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
 	result = NewAvlTree()
 	rem = a.Clone()
 	maxA, maxB := rem.MaxNode(), b.MaxNode()
-	for ; maxA != nil && maxB != nil && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
+	for ; rem.Size() > 0 && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
 		l := fq.Div(maxA.Value(), maxB.Value())
 		pos := maxA.Key() - maxB.Key()
 		aux := NewAvlTree()
-- 
2.43.0


From 647d1b334e83636c6851f3f74e9848d04e3b8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 05/27] fix: removing an absent key must not rotate the tree
 and lose entries

---
 utils/avl.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index bcf8bc9..f228b6a 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -468,9 +468,6 @@ func (self *AvlNode) Remove(key uint) (_ *AvlNode, value *big.Int, err error) {
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	if err != nil {
-		return self.balance(), value, err
-	}
 	return self, value, err
 }
 
-- 
2.43.0


From 50778d269ce6fdec493f997d3fdb36b7ae89d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 06/27] fix: EvalSparsePoly must accept points outside the
 canonical range

---
 utils/sparsePolynomial.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index d636f65..cc62d9e 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -80,6 +80,7 @@ func (fq Fq) EvalSparsePoly(poly *AvlTree, at *big.Int) (result *big.Int) {
 	if nBits < poly.Size() {
 		//fmt.Println("WARN, ur polynomial is not very sparse. a casual array type polynomial becomes more efficient at some point. not necessarily in this case however.")
 	}
+	at = new(big.Int).Mod(at, fq.Q)
 	if at.Cmp(bigZero) == 0 {
 		if v, b := poly.Get(0); b == nil {
 			return new(big.Int).Set(v)
-- 
2.43.0


From a579f8b54ed9afc34431a379dd0291e34c5d6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 07/27] fix: curvePoint.Double and twistPoint.Double computed a
 wrong z when the receiver is the operand

---
 pairing/curve.go | 9 +++++----
 pairing/twist.go | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 819cb81..790159c 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -200,6 +200,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	f := pool.Get().Mul(e, e)
 	f.Mod(f, P)
 
+	// c may be a: the last use of a comes before the first write to c.x and c.y.
+	t.Mul(a.y, a.z)
+	t.Mod(t, P)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -211,10 +216,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	t2.Mod(t2, P)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z)
-	t.Mod(t, P)
-	c.z.Add(t, t)
-
 	pool.Put(A)
 	pool.Put(B)
 	pool.Put(C_)
diff --git a/pairing/twist.go b/pairing/twist.go
index 43364ff..b1b2698 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -182,6 +182,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	e := newGFp2(pool).Add(t, A)
 	f := newGFp2(pool).Square(e, pool)
 
+	// c may be a: the last use of a comes before the first write to c.x and c.y.
+	t.Mul(a.y, a.z, pool)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -192,9 +196,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t2.Mul(e, c.y, pool)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z, pool)
-	c.z.Add(t, t)
-
 	A.Put(pool)
 	B.Put(pool)
 	C_.Put(pool)
-- 
2.43.0


From e2d9215685345347b64e2418477ce49db3252357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 08/27] fix: twistPoint.Negative returned zero y when the
 receiver is the operand

---
 pairing/twist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pairing/twist.go b/pairing/twist.go
index b1b2698..9843ae6 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -257,8 +257,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
 	c.x.Set(a.x)
-	c.y.SetZero()
-	c.y.Sub(c.y, a.y)
+	c.y.Negative(a.y)
 	c.z.Set(a.z)
 	c.t.SetZero()
 }
-- 
2.43.0


From be481f61da7a51bd6351ce553bd230667ae61565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 09/27] fix: negateFactors must not negate a shared coefficient
 in place

---
 circuitcompiler/factorHandling.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index a8f0caa..3e2a459 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -239,7 +239,8 @@ func addFactors(leftFactors, rightFactors factors) factors {
 func negateFactors(leftFactors factors) factors {
 	for i := range leftFactors {
 		//leftFactors[i].multiplicative = field.Neg(leftFactors[i].multiplicative)
-		leftFactors[i].multiplicative = leftFactors[i].multiplicative.Neg(leftFactors[i].multiplicative)
+		//the old value may be shared with other factors, constants or variables, so it is not changed in place
+		leftFactors[i].multiplicative = new(big.Int).Neg(leftFactors[i].multiplicative)
 		if leftFactors[i].typ.Type == NumberToken {
 			leftFactors[i].typ.Identifier = leftFactors[i].multiplicative.String()
 		}
-- 
2.43.0


From 6378cf26767376964e7cf9bee5c395bf0fd2ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 10/27] fix: extractGCD divided by zero when all coefficients
 are zero

---
 circuitcompiler/factorHandling.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 3e2a459..fc1f9c0 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -61,6 +61,10 @@ func extractGCD(f factors) (factors, *big.Int) {
 	for i := 1; i < len(f); i++ {
 		gcd = new(big.Int).GCD(nil, nil, f[i].multiplicative, gcd)
 	}
+	//all coefficients are zero, there is nothing to extract
+	if gcd.Sign() == 0 {
+		return f, new(big.Int).Set(bigOne)
+	}
 	for i := 0; i < len(f); i++ {
 		f[i].multiplicative = new(big.Int).Div(f[i].multiplicative, gcd)
 
-- 
2.43.0


From b85d9938fa402323f7fd06ede67586fee7d2a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 11/27] fix: scalarMultiplyFactors dropped its result

---
 circuitcompiler/factorHandling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index fc1f9c0..6f211e6 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -109,8 +109,8 @@ func factorSignature(facs factors) (gcd *big.Int, extractedRightFactors factors)
 }
 
 func (fact factors) scalarMultiplyFactors(x *big.Int) (result factors) {
-	for _, left := range fact {
-		left.multiplicative = field.Mul(left.multiplicative, x)
+	for i := range fact {
+		fact[i].multiplicative = field.Mul(fact[i].multiplicative, x)
 	}
 	return fact
 }
-- 
2.43.0


From 7ee5de80ff5fcdb62061047b3d5ce79c2cc056d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 12/27] fix: addGateConstraint must not factor out coefficients
 of its two addends

---
 circuitcompiler/Programm.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 202117e..29701c2 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -431,11 +431,10 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			rightClone := currentConstraint.Inputs[1].clone()
 			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
 			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
-			commonExtracted, extractedLeft, extractedRight := extractConstant(leftFactors, rightFactors)
 
 			rootGate := &Gate{
 				gateType: additionGate,
-				leftIns:  addFactors(extractedLeft, extractedRight),
+				leftIns:  addFactors(leftFactors, rightFactors),
 			}
 
 			nTok := Token{
@@ -449,7 +448,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}}
 			fres := factor{
 				typ:            nTok,
-				multiplicative: commonExtracted,
+				multiplicative: bigOne,
 			}
 			return factors{fres}, false, function{}
 		case "scalarBaseMultiply":
-- 
2.43.0


From 0193c7bc7575ae0d5bc695ee010d315e45d04481 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 13/27] fix: gates of different kinds over the same operands
 get different identifiers

---
 circuitcompiler/gate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 32c858d..4dae656 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -54,7 +54,8 @@ func (gate *Gate) setAndGetID() (id string) {
 	sort.Sort(gate.expoIns)
 	sort.Sort(gate.outIns)
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
-	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
+	//the kind is part of the id, since gates of different kinds over the same operands must not be merged
+	gate.identifier = fmt.Sprintf("%d:%s", gate.gateType, new(big.Int).Xor(lr, eo).String()[:16])
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From a5a97d127f31f37deaf319055da415c850182585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 14/27] fix: removeTrailingBreaks removed leading line breaks
 after the first trailing one

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 9609b68..d444b74 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -572,7 +572,7 @@ func removeTrailingBreaks(in []Token) (out []Token) {
 		return
 	}
 	if in[len(in)-1].Identifier == "\n" {
-		return removeLeadingBreaks(in[:len(in)-1])
+		return removeTrailingBreaks(in[:len(in)-1])
 	}
 	return in
 }
-- 
2.43.0


From dba701f2a4b7a9488db7045ae0c99154af7b3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 15/27] fix: SplitAtFirstTokenType repeated the separator in
 the right part

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index d444b74..73b406b 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -750,7 +750,7 @@ func SplitAtFirstTokenType(in []Token, splitAt TokenType) (cutLeft []Token, tok
 			if i == len(in)-1 {
 				return in[:i], in[i], cutRight
 			}
-			return in[:i], in[i], in[i:]
+			return in[:i], in[i], in[i+1:]
 		}
 	}
 	return nil, Token{}, nil
-- 
2.43.0


From a77f8d9e50d11efccc4d230d175ae95a31b40dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 16/27] fix: isSurroundedByBrackets accepted lists without an
 opening bracket

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 73b406b..eb1be66 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -764,7 +764,7 @@ func stripOfBrackets(in []Token) []Token {
 }
 
 func isSurroundedByBrackets(in []Token) bool {
-	if len(in) == 0 {
+	if len(in) == 0 || in[0].Identifier != "(" {
 		return false
 	}
 	_, r, b := splitAtClosingBrackets(in)
-- 
2.43.0


From 7cb7d7a5b1eeef0bbd1a92474c202f28cb6bd234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 17/27] fix: a bit found while collecting a row's knowns
 replaced the row's coefficient

---
 circuitcompiler/ER1CS.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 6f8bc28..4ea2a07 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -194,7 +194,7 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 						bit := big.NewInt(int64(witness[bitPosAndFather[1]].Bit(int(bitPosAndFather[0]))))
 						setWitness(j, bit)
 						set[j] = true
-						knowns[j] = bit
+						knowns[j] = val
 						continue
 					}
 					unknownsAtIndices = append(unknownsAtIndices, j)
@@ -344,7 +344,7 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 					bit := big.NewInt(int64(witness[bitPosAndFather[1]].Bit(int(bitPosAndFather[0]))))
 					witness[val.Key] = bit
 					set[val.Key] = true
-					knowns.Insert(val.Key, bit)
+					knowns.Insert(val.Key, val.Value)
 					continue
 				}
 				unknownsAtIndices = append(unknownsAtIndices, val.Key)
-- 
2.43.0


From b45231ea8f0068a6c93c7fb865fb656e35c6d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 18/27] fix: an input that is no variable of the system
 overwrote the constant one

---
 circuitcompiler/ER1CS.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 4ea2a07..07b329e 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -162,8 +162,12 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 	}
 
 	for _, v := range input {
-		setWitness(r1cs.indexMap[v.identifier], v.value)
-		set[r1cs.indexMap[v.identifier]] = true
+		index, exists := r1cs.indexMap[v.identifier]
+		if !exists {
+			return nil, errors.New(fmt.Sprintf("unknown input %v", v.identifier))
+		}
+		setWitness(index, v.value)
+		set[index] = true
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
@@ -314,8 +318,12 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 	}
 
 	for _, v := range input {
-		witness[r1cs.indexMap[v.identifier]] = v.value
-		set[r1cs.indexMap[v.identifier]] = true
+		index, exists := r1cs.indexMap[v.identifier]
+		if !exists {
+			return nil, errors.New(fmt.Sprintf("unknown input %v", v.identifier))
+		}
+		witness[index] = v.value
+		set[index] = true
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
-- 
2.43.0


From 4ef6193eac668c7f56e64e39616ea5b2c0bd5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 19/27] fix: sparse rows put a constant that is named like a
 variable at the variable's column

---
 circuitcompiler/Programm.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 29701c2..6b2c1b6 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -871,14 +871,16 @@ func (p *Program) GatesToSparseR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS
 	}
 
 	insertValue := func(val factor, arr *utils.AvlTree) {
+		//the index is 0 if its a constant, whatever its name is
+		index := 0
 		if val.typ.Type != NumberToken {
-			if _, ex := indexMap[val.typ.Identifier]; !ex {
+			var ex bool
+			if index, ex = indexMap[val.typ.Identifier]; !ex {
 				panic(fmt.Sprintf("%v index not found!!!", val))
 			}
 		}
 		value := val.multiplicative
-		//not that index is 0 if its a constant, since 0 is the map default if no entry was found
-		arr.Put(uint(indexMap[val.typ.Identifier]), value, utils.Field.ArithmeticField.Add)
+		arr.Put(uint(index), value, utils.Field.ArithmeticField.Add)
 	}
 
 	for _, g := range mGates {
-- 
2.43.0


From 7cd63e336ef6931d5f7e6c8a2a7a7f7ced2c6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 20/27] fix: dense rows kept only the last of several
 coefficients of one variable

---
 circuitcompiler/Programm.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 6b2c1b6..f18eb20 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -660,16 +660,14 @@ func (p *Program) GatesToR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS) {
 
 	insertValue := func(val factor, arr []*big.Int) {
 		if val.typ.Type == NumberToken {
-			arr[0] = val.multiplicative
+			arr[0] = utils.Field.ArithmeticField.Add(arr[0], val.multiplicative)
 			return
 		}
 		index, ex := indexMap[val.typ.Identifier]
 		if !ex {
 			panic(fmt.Sprintf("%v index not found!!!", val))
 		}
-		arr[index] = val.multiplicative
-		//arr[indexMap[val.typ.Identifier]] = utils.Field.ArithmeticField.Add(arr[indexMap[val.typ.Identifier]], value)
-		fmt.Print("")
+		arr[index] = utils.Field.ArithmeticField.Add(arr[index], val.multiplicative)
 	}
 	size := len(indexMap)
 	for _, g := range mGates {
-- 
2.43.0


From e49313a64a94716884c240f383f6950fa7eef749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 21/27] fix: expressions were grouped at their first operator,
 whatever binds stronger

---
 circuitcompiler/parser.go | 44 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index eb1be66..7d6eed6 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -452,7 +452,7 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		p.error("Variable or number expected, got %v ", stack[0])
 	}
 
-	l, binOperation, r := splitAtFirstHighestTokenType(stack, Operator)
+	l, binOperation, r := splitAtWeakestOperator(stack)
 	l, r = stripOfBrackets(l), stripOfBrackets(r)
 
 	// exp Operator exp
@@ -742,6 +742,48 @@ func splitAtFirstHighestTokenType(in []Token, splitAt TokenType) (cutLeft []Toke
 	return nil, Token{}, nil
 }
 
+//operatorPrecedence is how strong an operator binds, as in Go
+func operatorPrecedence(op Token) int {
+	switch op.Type {
+	case ArithmeticOperatorToken:
+		if op.Identifier == "*" || op.Identifier == "/" {
+			return 5
+		}
+		return 4
+	case BitOperatorToken:
+		return 5
+	case BinaryComperatorToken:
+		return 3
+	case BooleanOperatorToken:
+		if op.Identifier == "&&" {
+			return 2
+		}
+		return 1
+	}
+	return 0
+}
+
+//splitAtWeakestOperator splits at the operator outside of all brackets which is applied last, that is at the
+//rightmost one among those that bind the weakest: a-b*c-d -> ( a-b*c , - , d )
+func splitAtWeakestOperator(in []Token) (cutLeft []Token, tok Token, cutRight []Token) {
+	depth, at := 0, -1
+	for i := 0; i < len(in); i++ {
+		if in[i].Identifier == "(" || in[i].Identifier == "[" {
+			depth++
+		}
+		if in[i].Identifier == ")" || in[i].Identifier == "]" {
+			depth--
+		}
+		if in[i].Type&Operator != 0 && depth == 0 && (at < 0 || operatorPrecedence(in[i]) <= operatorPrecedence(in[at])) {
+			at = i
+		}
+	}
+	if at < 0 {
+		return nil, Token{}, nil
+	}
+	return in[:at], in[at], in[at+1:]
+}
+
 //splitTokensAtFirstString takes takes a string S and a token array and splits st: abScd -> ( ab , Scd )
 //if S does not occur it returns ( in , []Tokens{} )
 func SplitAtFirstTokenType(in []Token, splitAt TokenType) (cutLeft []Token, tok Token, cutRight []Token) {
-- 
2.43.0


From 21318e0cb2725d27bf781d3d3fc6dae5628598ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 22/27] fix: the lexer ran forever on an unterminated string

---
 circuitcompiler/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 72bff75..bba2197 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -408,7 +408,10 @@ func IdentState(l *Lexer) StateFunc {
 		l.Next()
 		l.Ignore()
 		for l.Peek() != '"' { // we read everything inside " ", used for import
-			l.Next()
+			if l.Next() == EOFRune {
+				l.Error("closing \" missing")
+				return nil
+			}
 		}
 		l.Emit(IDENTIFIER_VARIABLE)
 		l.Next()
-- 
2.43.0


From b9733c4405b4a3e3b005cf7263b4345194a97e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 23/27] fix: the lexer ran forever on a character that starts
 no token, and made up an empty identifier at the end

---
 circuitcompiler/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index bba2197..85cf18e 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -442,6 +442,14 @@ func IdentState(l *Lexer) StateFunc {
 	//read the next word and push it on stack
 	readIdent(l)
 
+	//no identifier starts here
+	if l.position == l.start {
+		if r := l.Peek(); r != EOFRune {
+			l.Error(fmt.Sprintf("unexpected token %q", r))
+		}
+		return nil
+	}
+
 	if val, ex := keyWordMap[l.Current()]; ex {
 		l.Emit(val)
 		return ProbablyWhitespaceState
-- 
2.43.0


From 2842606d6f875516d70751e4d84bbddc07f74f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 24/27] fix: GenerateProofs failed on systems with a single
 gate

---
 zkSNARK/wol19.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index e9d5d29..423949a 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -384,9 +384,10 @@ func GenerateProofs(publicInputs int, provingKey *Pk, witnessTrace []*big.Int, P
 		panic("remainder supposed to be 0")
 	}
 
-	var QxDx_div_delta = new(bn256.G1).ScalarMult(provingKey.G1.PowersX_Domain_Delta[0], Qx[0])
+	//a system with a single gate has the zero quotient without any coefficient
+	var QxDx_div_delta = g1ScalarBaseMultiply(big.NewInt(0))
 
-	for i := 1; i < len(Qx); i++ {
+	for i := 0; i < len(Qx); i++ {
 		tmp := new(bn256.G1).ScalarMult(provingKey.G1.PowersX_Domain_Delta[i], Qx[i])
 		QxDx_div_delta.Add(QxDx_div_delta, tmp)
 	}
-- 
2.43.0


From 4218ecceba9e13746264daeb32d2ca1653a3de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 25/27] fix: sparse rows were interpolated over as many points
 as there are variables instead of gates

---
 circuitcompiler/ER1CS.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 07b329e..5d1b80a 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -127,13 +127,13 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	eT := er1cs.E
 	oT := er1cs.O
 	for i := 0; i < len(lT); i++ {
-		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.WitnessLength))
+		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.NumberOfGates))
 
-		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.WitnessLength))
+		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.NumberOfGates))
 
-		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.WitnessLength))
+		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.NumberOfGates))
 
-		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.WitnessLength))
+		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.NumberOfGates))
 	}
 	return
 }
-- 
2.43.0


From 239ea6c2bd5d6d7d8109c63cfe5648920823bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 26/27] fix: an input named twice in the public block made two
 variables share a column

---
 circuitcompiler/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 7d6eed6..2222134 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -82,7 +82,14 @@ out:
 			//fmt.Println(constraint)
 			if constraint.Output.Type == PUBLIC {
 				a := p.GetMainCircuit().resolveArrayName(constraint)
-				p.PublicInputs = append(p.PublicInputs, a)
+				//naming an input twice makes it public once
+				known := false
+				for _, b := range p.PublicInputs {
+					known = known || a == b
+				}
+				if !known {
+					p.PublicInputs = append(p.PublicInputs, a)
+				}
 			}
 			if checkSemantics {
 				constraintStack = append(constraintStack, constraint)
-- 
2.43.0


From 493c22a01c0e904fbcd5492ac28a79fa6e53ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:46 +0000
Subject: [PATCH 27/27] fix: the pairing used a stale square of z for an affine
 twist point

---
 pairing/twist.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairing/twist.go b/pairing/twist.go
index 9843ae6..ede0254 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -230,6 +230,7 @@ func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoi
 // c to 0 : 1 : 0.
 func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 	if c.z.IsOne() {
+		c.t.SetOne()
 		return c
 	}
 	if c.IsInfinity() {
-- 
2.43.0

