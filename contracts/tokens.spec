# Token-list splitting and bracket matching. up(t,o,c) is the change of nesting depth at a token,
# dp(f,n,o,c) the depth after n tokens.
package circuitcompiler
property P18 P19
define sametok(a,b) = a.Type == b.Type && a.Identifier == b.Identifier
define up(t,o,c) = ite(t.Identifier == o, 1, 0) - ite(t.Identifier == c, 1, 0)
define dp(f,n,o,c) = sum(k,0,n,ite(f[k].Identifier == o, 1, 0) - ite(f[k].Identifier == c, 1, 0))
define depth2(f,n) = sum(k,0,n,ite(f[k].Identifier == "(" || f[k].Identifier == "[", 1, 0) - ite(f[k].Identifier == ")" || f[k].Identifier == "]", 1, 0))
# r is the part of f that starts at position s
define tpart(r,f,s) = forall(k,0,len(r),sametok(r[k],f[s+k]))
# f is cut at position p: l before it, r after it
define cutat(f,l,p,r) = len(l) == p && len(r) == len(f) - p - 1 && tpart(l,f,0) && tpart(r,f,p+1)

func splitTokensAtFirstString f s
  ensures len(result0) + len(result1) == len(f) && tpart(result0,f,0) && tpart(result1,f,len(result0))
  ensures forall(k,0,len(result0),result0[k].Identifier != s)
  ensures implies(len(result1) > 0, result1[0].Identifier == s)
  ensures implies(isnil(result1), forall(k,0,len(f),f[k].Identifier != s))
  loop 1
    invariant 0 <= i && i <= len(f)
    invariant forall(k,0,i,f[k].Identifier != s)

func splitAtFirstHighestStringType f s
  ensures implies(len(result0) == len(f), isnil(result1) && tpart(result0,f,0) && forall(k,0,len(f),!(f[k].Identifier == s && depth2(f,k+1) == 0)))
  ensures implies(len(result0) != len(f), cutat(f,result0,len(result0),result1) && f[len(result0)].Identifier == s && depth2(f,len(result0)+1) == 0)
  ensures forall(k,0,len(result0),!(f[k].Identifier == s && depth2(f,k+1) == 0))
  ensures iff(isnil(result1), len(result0) >= len(f) - 1)
  loop 1
    invariant 0 <= i && i <= len(f)
    invariant depth == depth2(f,i)
    invariant forall(k,0,i,!(f[k].Identifier == s && depth2(f,k+1) == 0))

define topop(f,k,t) = bitand(f[k].Type,t) != 0 && dp(f,k+1,"(",")") == 0 && dp(f,k+1,"[","]") == 0
func splitAtFirstHighestTokenType f t
  ensures implies(forall(k,0,len(f),!topop(f,k,t)), len(result0) == 0 && len(result2) == 0 && result1.Type == 0)
  ensures implies(result1.Type != 0, cutat(f,result0,len(result0),result2) && sametok(result1,f[len(result0)]) && topop(f,len(result0),t))
  ensures implies(result1.Type == 0, len(result0) == 0 && len(result2) == 0 && forall(k,0,len(f),!topop(f,k,t)))
  ensures forall(k,0,len(result0),!topop(f,k,t))
  loop 1
    invariant 0 <= i && i <= len(f)
    invariant ctr1 == dp(f,i,"(",")") && ctr2 == dp(f,i,"[","]")
    invariant forall(k,0,i,!topop(f,k,t))

func SplitAtFirstTokenType f t
  requires t != 0
  ensures implies(result1.Type != 0, cutat(f,result0,len(result0),result2) && sametok(result1,f[len(result0)]) && result1.Type == t)
  ensures implies(result1.Type == 0, len(result0) == 0 && len(result2) == 0 && forall(k,0,len(f),f[k].Type != t))
  ensures forall(k,0,len(result0),f[k].Type != t)
  loop 1
    invariant 0 <= i && i <= len(f)
    invariant forall(k,0,i,f[k].Type != t)

func splitAtClosingStringBrackets f o c
  requires len(f) >= 1 && o != c
  ensures implies(result2 && f[0].Identifier == o, f[len(result0)+1].Identifier == c && dp(f,len(result0)+2,o,c) == 0 && forall(k,1,len(result0)+2,dp(f,k,o,c) > 0) && len(result0) + 2 + len(result1) == len(f) && tpart(result0,f,1) && tpart(result1,f,len(result0)+2))
  ensures implies(result2 && f[0].Identifier != o, f[len(result0)].Identifier == c && dp(f,len(result0)+1,o,c) == 0-1 && forall(k,0,len(result0)+1,dp(f,k,o,c) >= 0) && len(result0) + 1 + len(result1) == len(f) && tpart(result0,f,0) && tpart(result1,f,len(result0)+1))
  ensures implies(!result2, isnil(result0) && isnil(result1))
  ensures implies(!result2 && f[0].Identifier == o, forall(k,1,len(f)+1,dp(f,k,o,c) > 0))
  ensures implies(!result2 && f[0].Identifier != o, forall(k,0,len(f)+1,dp(f,k,o,c) >= 0))
  loop 1
    invariant 0 <= i && i <= len(f)
    invariant ctr == dp(f,i,o,c) + 1 - start
    invariant start == ite(f[0].Identifier == o, 1, 0)
    invariant forall(k,start,i+1,dp(f,k,o,c) + 1 - start > 0)

define closed(f) = len(f) >= 2 && f[0].Identifier == "(" && f[len(f)-1].Identifier == ")" && dp(f,len(f),"(",")") == 0 && forall(k,1,len(f),dp(f,k,"(",")") > 0)
func isSurroundedByBrackets f
  ensures iff(result, closed(f))
func stripOfBrackets f
  ensures len(result) <= len(f) && mod(len(f)-len(result),2) == 0
  ensures forall(d,0,len(f),implies(2*d == len(f)-len(result), tpart(result,f,d)))
  ensures forall(k,0,len(f)-len(result),implies(2*k < len(f)-len(result), f[k].Identifier == "("))
  ensures forall(k,0,len(f),implies(2*(len(f)-k) <= len(f)-len(result), f[k].Identifier == ")"))
  ensures !closed(result)
func removeLeadingBreaks f
  ensures len(result) <= len(f) && tpart(result,f,len(f)-len(result))
  ensures forall(k,0,len(f)-len(result),f[k].Identifier == "\n")
  ensures implies(len(result) > 0, result[0].Identifier != "\n")
func removeTrailingBreaks f
  ensures len(result) <= len(f) && tpart(result,f,0)
  ensures forall(k,len(result),len(f),f[k].Identifier == "\n")
  ensures implies(len(result) > 0, result[len(result)-1].Identifier != "\n")
func removeLeadingAndTrailingBreaks f
  ensures implies(len(result) > 0, result[0].Identifier != "\n" && result[len(result)-1].Identifier != "\n")
