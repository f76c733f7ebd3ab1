# Transposition of constraint matrices.
package utils
property P12
func Transpose matrix
  requires len(matrix) >= 1
  requires forall(y,0,len(matrix),len(matrix[y]) == len(matrix[0]))
  requires forall(y,0,len(matrix),forall(x,0,len(matrix[0]),nonnil(matrix[y][x])))
  ensures len(result) == len(matrix[0])
  ensures forall(x,0,len(matrix[0]),len(result[x]) == len(matrix))
  ensures forall(x,0,len(matrix[0]),forall(y,0,len(matrix),result[x][y] == matrix[y][x]))
  loop 1
    invariant len(r) == len(matrix[0])
    invariant forall(x,0,idx,len(r[x]) == len(matrix))
  loop 2
    invariant len(r) == len(matrix[0])
    invariant forall(x,0,len(matrix[0]),len(r[x]) == len(matrix))
    invariant forall(x,0,len(matrix[0]),forall(y,0,idx,r[x][y] == matrix[y][x]))
  loop 3
    invariant len(r) == len(matrix[0])
    invariant forall(x,0,len(matrix[0]),len(r[x]) == len(matrix))
    invariant forall(x,0,len(matrix[0]),forall(j,0,idx2,r[x][j] == matrix[j][x]))
    invariant forall(x,0,idx,r[x][idx2] == matrix[idx2][x])
