# Contracts that do not hold (names ZOk… hold): the engine has to reject every function but those.
package utils
property P05
func ZT.ZSetX t b
  modifies t
  ensures t.x == b
func ZT.ZSetL t l
  modifies t
  ensures len(t.l) == len(l) && forall(k,0,len(l),t.l[k] == l[k])
func ZSwap a b
  modifies a
  modifies b
  ensures a.x == old(b).x && b.x == old(a).x
func ZId l
  fresh
  ensures len(result) == len(l) && forall(k,0,len(l),result[k] == l[k])
func ZOkElem l
  requires len(l) > 1
  ensures result == l[0]
func ZOkPick a b
  ensures result == a
func ZOkWrap a
  ensures len(result) == 1 && result[0] == a
func ZOkStore l a
  requires len(l) > 0
  modifies l
  ensures l[0] == a
func ZOkRow m r
  requires len(m) > 0
  modifies m
  ensures len(m[0]) == len(r) && forall(k,0,len(r),m[0][k] == r[k])
func ZOkRows r
  ensures len(result) == 1 && len(result[0]) == len(r) && forall(k,0,len(r),result[0][k] == r[k])
func ZElemUse l
  requires len(l) > 1
  ensures result == old(l)[0]
func ZPickUse x
  ensures result == x
func ZWrapUse x
  ensures result[0] == x
func ZStoreUse x
  ensures result[0] == x
func ZRowUse x
  ensures result[0][0] == x
func ZRowsUse x
  ensures result[0][0] == x
func ZAppend l
  requires len(l) > 1
  ensures len(result) == 2
func ZShare l
  requires len(l) > 2
  ensures result[1] == l[1]
func ZAliasRows m
  ensures result == 0
func ZDefer a
  ensures result == a
func ZShadow a
  ensures implies(a > 0, result == 2)
func ZClos a
  ensures result == a
func ZLab n
  ensures result == n
  loop 1
    invariant c >= 0
  loop 2
    invariant c >= 0
func ZMap k
  ensures result == 5
func ZByte a
  ensures result == a+1
func ZI32 a
  ensures result == a
func ZSub a b
  ensures result == a-b
func ZDiv a
  ensures 2*result <= a
func ZInts a
  ensures result == a
func ZIntAlias a
  ensures result == a
func ZLoopPtr l
  ensures result == 0
  loop 1
    invariant i >= 0
func ZLoopStore n
  requires n > 1
  ensures len(result) == n && result[0] == 0
  loop 1
    invariant 0 <= i && i <= n && len(l) == n
    invariant forall(k,0,i,l[k] == k)
func ZRangePtr l
  ensures result == 0
  loop 1
    invariant forall(k,0,idx,r[k] == 0)
func ZStructCopy x
  ensures result == 7
func ZStructPtr
  ensures result == 1
func ZVar n
  requires n >= 0
  ensures result == n
  loop 1
    invariant c >= 0
func ZRecur n
  ensures result == n
func ZVariadic a
  ensures result >= 0
func ZOOB l i
  ensures result == l[i]
func ZEarly l
  ensures result == 0
  loop 1
    invariant idx >= 0
func ZTMut t
  requires wf(t)
  ensures all(k,tv(result,k) == tv(t,k))
  loop 1
    invariant idx >= 0
func ZTStored x
  ensures tv(result,3) == x
func ZTPut x
  requires x != 0
  ensures tv(result,3) == x
func ZTAlias t
  ensures tv(result,3) == 0
func ZTTwice t
  ensures tv(result,3) == 4
func ZTArg t
  requires wf(t)
  ensures result == 0
func ZTSlice l
  ensures tv(result,1) == 0
func ZTIter t
  requires wf(t)
  modifies t
  aliasresult
  ensures all(k,tv(result,k) == 0)
  loop 1
    invariant idx >= 0
func ZTCopy t
  requires wf(t)
  aliasresult
  ensures wf(result)
func ZSC l
  ensures result == 1
func ZRowW n
  ensures result == 1
  loop 1
    invariant idx >= 0
func ZLive l
  ensures result == 0
func ZRowApp x
  ensures result == 1
func ZClosSl x
  ensures result == x
func ZMapSl
  ensures result == 1
func ZMapAlias
  ensures result == 2
func ZMapRange m
  ensures result == 0
  loop 1
    invariant s >= 0
func ZPtrPtr
  ensures result == 2
func ZPtrLoop n
  ensures result == 2
  loop 1
    invariant i >= 0
func ZNest n
  ensures result == n
  loop 1
    invariant c >= 0
  loop 2
    invariant c >= 0
func ZCopyOv
  ensures result == 1
func ZSlWin
  ensures result == 2
func ZSlWin2 l k
  requires 0 <= k && k < len(l)
  ensures result == l[k]
func ZTern x
  ensures result == x
func ZSwapIdx l
  ensures result == 1
func ZMulti l
  ensures result == 0
func ZAddSelf x
  ensures result == x*x+x
func ZNeg x
  ensures result == 0
func ZMethodVal x
  ensures result == x
