# Grouping of expressions: the operator applied last is the rightmost of the weakest outside all brackets.
package circuitcompiler
property P19
define prec(t) = ite(t.Type == ArithmeticOperatorToken, ite(t.Identifier == "*" || t.Identifier == "/", 5, 4), ite(t.Type == BitOperatorToken, 5, ite(t.Type == BinaryComperatorToken, 3, ite(t.Type == BooleanOperatorToken, ite(t.Identifier == "&&", 2, 1), 0))))
define outerop(f,k) = bitand(f[k].Type,Operator) != 0 && depth2(f,k+1) == 0

func operatorPrecedence op
  ensures result == prec(op)
func splitAtWeakestOperator f
  ensures implies(result1.Type != 0, cutat(f,result0,len(result0),result2) && sametok(result1,f[len(result0)]) && outerop(f,len(result0)))
  ensures implies(result1.Type != 0, forall(k,0,len(f),implies(outerop(f,k), prec(f[k]) >= prec(f[len(result0)]))))
  ensures implies(result1.Type != 0, forall(k,len(result0)+1,len(f),implies(outerop(f,k), prec(f[k]) > prec(f[len(result0)]))))
  ensures implies(result1.Type == 0, isnil(result0) && isnil(result2) && forall(k,0,len(f),!outerop(f,k)))
  loop 1
    invariant 0 <= i && i <= len(f)
    invariant depth == depth2(f,i)
    invariant -1 <= at && at < i
    invariant implies(at < 0, forall(k,0,i,!outerop(f,k)))
    invariant implies(at >= 0, outerop(f,at))
    invariant implies(at >= 0, forall(k,0,i,implies(outerop(f,k), prec(f[k]) >= prec(f[at]))))
    invariant implies(at >= 0, forall(k,at+1,i,implies(outerop(f,k), prec(f[k]) > prec(f[at]))))
