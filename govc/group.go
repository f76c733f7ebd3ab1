package main

import "go/ast"

// grp(c) is the group element a Jacobian point stands for, as an abstract value of an additive
// group. Only linear facts about it are ever stated, so reasoning about it as an integer is sound.
func init() {
	// named(NAME, expr): expr, as an unspecified constant of the quadratic field where ring values are opaque
	specFns["named"] = func(v *Env, a []ast.Expr) Val {
		if v.e.curContract != nil && v.e.curContract.ringatoms {
			r := RingVar("const " + a[0].(*ast.Ident).Name)
			atomLevel[r] = 2
			return r
		}
		return v.node(a[1])
	}
	// killed(c): the group order times the point is infinity
	// killed(c): the group order times the point is infinity; killed(xi,xr,yi,yr): of an affine twist point
	specFns["killed"] = func(v *Env, a []ast.Expr) Val {
		if len(a) == 4 {
			return Fn("killed6", SBool, v.node(a[0]), v.node(a[1]), v.node(a[2]), v.node(a[3]), NumI(0), NumI(1))
		}
		l := v.leaves(v.eval(a[0]))
		l = l[:len(l)/4*3]
		return Fn("killed"+itoa(len(l)), SBool, l...)
	}
	// mill(q,p): the value of the Miller function of the points q (twist) and p (curve), an element of the top field
	specFns["mill"] = func(v *Env, a []ast.Expr) Val {
		l, m := v.leaves(v.eval(a[0])), v.leaves(v.eval(a[1]))
		return Fn("mill", SInt, append(append([]*Node{}, l[:len(l)/4*3]...), m[:len(m)/4*3]...)...)
	}
	specFns["grp"] = func(v *Env, a []ast.Expr) Val {
		r := v.eval(a[0])
		l := v.leaves(r)
		if len(l) != 4 && len(l) != 8 {
			specFail("grp of a value with %d components", len(l))
		}
		l = l[:len(l)/4*3]
		return Fn("grp"+itoa(len(l)), SInt, l...)
	}
}
