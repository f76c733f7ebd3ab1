package main

import (
	"go/ast"
	"go/types"
	"strings"
)

// TreeVal is the contents of a search tree: which keys are present, their values (0 where absent), a
// bound above every key, and the number of entries. A *AvlNode that is the root of a tree is read as
// its contents; the recursive node operations (lookup, insertion, removal, traversal) are modelled,
// the operations of AvlTree on top of them run as written. A node handed out by MaxNode also has a
// key and a value of its own.
type TreeVal struct {
	has, val, bnd, size *Node
	key, value          *Node
}

// EntriesV is a traversal of a tree: every entry once, in order of the keys. Loops over it are read as
// loops over all keys below the bound (from the bound down if desc) that skip the absent ones.
type EntriesV struct {
	t    TreeVal
	desc *Node
	elem types.Type
}

func emptyTree() TreeVal {
	return TreeVal{has: ConstArr(False), val: ConstArr(Zero), bnd: Zero, size: Zero}
}

func asTree(v Val) TreeVal {
	switch x := v.(type) {
	case TreeVal:
		return x
	case Ptr:
		if x.loc == 0 {
			return emptyTree()
		}
	case NilV:
		return emptyTree()
	}
	unsup("tree expected, got %T", v)
	return TreeVal{}
}

// normal assumes what holds of every tree at key k: an absent key has value 0, a present one lies
// between 0 and the bound.
func (e *Engine) normal(st *State, t TreeVal, k *Node) {
	h := Select(t.has, k)
	st.assume(Imp(Not(h), Eq(Select(t.val, k), Zero)))
	st.assume(Imp(h, And(Le(Zero, k), Lt(k, t.bnd), Lt(Zero, t.size))))
}

func (e *Engine) freshTree(st *State, mk func(s string, srt Sort) *Node) TreeVal {
	t := TreeVal{has: mk("th", arrOf(SBool)), val: mk("tv", arrOf(SInt)), bnd: mk("tb", SInt), size: mk("ts", SInt)}
	st.assume(Le(Zero, t.bnd))
	st.assume(Le(Zero, t.size))
	return t
}

func (e *Engine) havocTree(st *State, t TreeVal) TreeVal {
	n := e.freshTree(st, func(s string, srt Sort) *Node { return Fresh("h"+s, srt) })
	if t.key != nil {
		n.key = Fresh("hk", SInt)
		n.value = Fresh("hv", SInt)
	}
	return n
}

func (e *Engine) frozenBig(st *State, n *Node) Val {
	return st.newBig(n, stFrozen, e.bigType())
}

func init() {
	symHooks["AvlNode"] = func(e *Engine, st *State, name string, t types.Type, owned bool) Val {
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			return nil
		}
		return e.freshTree(st, func(s string, srt Sort) *Node { return Var(s+"_"+name, srt) })
	}
	symHooks["RWMutex"] = func(e *Engine, st *State, name string, t types.Type, owned bool) Val { return NilV{} }
	p := "utils.AvlNode."
	callHooks[p+"Get"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		t, key := asTree(recv), args[0].(*Node)
		e.normal(st, t, key)
		h := Select(t.has, key)
		k(st, TupleV{e.frozenBig(st, Select(t.val, key)), IfaceV{isnil: h}})
	}
	callHooks[p+"Has"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		t, key := asTree(recv), args[0].(*Node)
		e.normal(st, t, key)
		k(st, Select(t.has, key))
	}
	callHooks[p+"Size"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		k(st, asTree(recv).size)
	}
	callHooks[p+"Put"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		t, key := asTree(recv), args[0].(*Node)
		e.normal(st, t, key)
		f, ok := args[2].(FuncV)
		if !ok {
			unsup("insertion with an unknown function")
		}
		fin := func(st *State, v Val) {
			p, ok := v.(Ptr)
			if !ok || p.loc == 0 {
				unsup("insertion of nil")
			}
			st.eng.freezeVal(st, v)
			b := st.get(p.loc).(*BigV)
			h := Select(t.has, key)
			n := TreeVal{has: Store(t.has, key, True), val: Store(t.val, key, b.v),
				bnd: Ite(Lt(key, t.bnd), t.bnd, Add(key, One)), size: Add(t.size, Ite(h, Zero, One))}
			k(st, TupleV{n, h})
		}
		old := st.newBig(Select(t.val, key), stFrozen, e.bigType())
		a := []Val{old, args[1]}
		if f.fi != nil {
			e.callInfo(st, f.fi, f.recv, a, nil, fin)
			return
		}
		e.callLit(st, f, f.pkg.info.TypeOf(f.lit).Underlying().(*types.Signature), a, fin)
	}
	callHooks[p+"Remove"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		t, key := asTree(recv), args[0].(*Node)
		e.normal(st, t, key)
		bt := e.bigType()
		e.branch(st, Select(t.has, key), func(st *State) {
			n := TreeVal{has: Store(t.has, key, False), val: Store(t.val, key, Zero), bnd: t.bnd, size: Sub(t.size, One)}
			k(st, TupleV{n, e.frozenBig(st, Select(t.val, key)), IfaceV{isnil: True}})
		}, func(st *State) {
			k(st, TupleV{t, Ptr{loc: 0, elem: bt, field: -1}, IfaceV{isnil: False}})
		})
	}
	extreme := func(max bool) func(e *Engine, st *State, recv Val, args []Val, k EK) {
		return func(e *Engine, st *State, recv Val, args []Val, k EK) {
			t := asTree(recv)
			m := Fresh("extkey", SInt)
			q := BoundVar("q"+itoa(freshN), SInt)
			freshN++
			e.branch(st, Lt(Zero, t.size), func(st *State) {
				st.assume(Select(t.has, m))
				e.normal(st, t, m)
				c := Le(q, m)
				if !max {
					c = Le(m, q)
				}
				st.assume(canonForall(q, Imp(Select(t.has, q), c)))
				k(st, TreeVal{has: t.has, val: t.val, bnd: t.bnd, size: t.size, key: m, value: Select(t.val, m)})
			}, func(st *State) {
				if !max {
					e.fail(st, "minimum of an empty tree")
					panic(abortFn{"minimum of an empty tree"})
				}
				st.assume(canonForall(q, Not(Select(t.has, q))))
				k(st, TreeVal{has: t.has, val: t.val, bnd: t.bnd, size: t.size, key: Zero, value: Zero})
			})
		}
	}
	callHooks[p+"maxNode"] = extreme(true)
	callHooks[p+"minNode"] = extreme(false)
	callHooks[p+"Key"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		t := asTree(recv)
		if t.key == nil {
			unsup("key of a root")
		}
		k(st, t.key)
	}
	callHooks[p+"Value"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		t := asTree(recv)
		if t.key == nil {
			unsup("value of a root")
		}
		k(st, e.frozenBig(st, t.value))
	}
	callHooks[p+"AllNodes"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		t := asTree(recv)
		p := args[0].(Ptr)
		s, ok := st.get(p.loc).(SliceV)
		if !ok || s.ln != Zero || p.field >= 0 {
			unsup("collecting entries in a list that may have some")
		}
		st.set(p.loc, EntriesV{t, True, s.elem})
		k(st, nil)
	}
	callHooks["utils.AvlTree.ChannelNodes"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		s := st.get(recv.(Ptr).loc).(*StructV)
		sig := e.l.findFunc("utils.AvlTree.ChannelNodes").obj.Type().(*types.Signature)
		k(st, EntriesV{asTree(s.f[0]), Not(args[0].(*Node)), sig.Results().At(0).Type().Underlying().(*types.Chan).Elem()})
	}
	for name, h := range callHooks {
		if name == "utils.AvlTree.ChannelNodes" || strings.HasPrefix(name, p) {
			h := h
			callHooks[name] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
				e.assumed["tree nodes (lookup, insertion with rebalancing, removal, traversal in key order) implement a map; each tree owns its nodes; locks and the traversal goroutine are sequential"] = true
				h(e, st, recv, args, k)
			}
		}
	}
	specialShape["AvlNode"] = []Sort{arrOf(SBool), arrOf(SInt), SInt, SInt}
	specialFlatten["AvlNode"] = func(st *State, v Val) []*Node {
		t := asTree(v)
		return []*Node{t.has, t.val, t.bnd, t.size}
	}
	specialUnflatten["AvlNode"] = func(st *State, c []*Node, t types.Type) Val {
		return TreeVal{has: c[0], val: c[1], bnd: c[2], size: c[3]}
	}
	specialShape["RWMutex"] = []Sort{}
	specialFlatten["RWMutex"] = func(st *State, v Val) []*Node { return nil }
	specialUnflatten["RWMutex"] = func(st *State, c []*Node, t types.Type) Val { return NilV{} }
	tree := func(v *Env, x ast.Expr) TreeVal {
		r := v.eval(x)
		for {
			switch y := r.(type) {
			case TreeVal:
				return y
			case Ptr:
				if y.loc == 0 {
					specFail("tree expected, got nil")
				}
				r = v.state().get(y.loc)
				if y.field >= 0 {
					r = r.(*StructV).f[y.field]
				}
				continue
			case *StructV:
				r = y.f[0]
				continue
			}
			specFail("tree expected, got %T", r)
		}
	}
	specFns["th"] = func(v *Env, a []ast.Expr) Val { return Select(tree(v, a[0]).has, v.node(a[1])) }
	specFns["tv"] = func(v *Env, a []ast.Expr) Val { return Select(tree(v, a[0]).val, v.node(a[1])) }
	specFns["tb"] = func(v *Env, a []ast.Expr) Val { return tree(v, a[0]).bnd }
	specFns["ts"] = func(v *Env, a []ast.Expr) Val { return tree(v, a[0]).size }
}

// rangeEntries sets up a loop over the entries of a tree.
func (e *Engine) rangeEntries(st *State, s *ast.RangeStmt, d *loopDesc, en EntriesV) (ln *Node, set func(st *State, i *Node)) {
	st.assume(Le(Zero, en.t.bnd))
	pos := func(i *Node) *Node { return Ite(en.desc, Sub(Sub(en.t.bnd, One), i), i) }
	d.skip = func(st *State) *Node {
		p := pos(st.get(d.idx).(*Node))
		e.normal(st, en.t, p)
		return Not(Select(en.t.has, p))
	}
	target := s.Value
	if _, ok := e.typeOf(st, s.X).Underlying().(*types.Chan); ok {
		target = s.Key
	} else if id, ok := s.Key.(*ast.Ident); s.Key != nil && (!ok || id.Name != "_") {
		unsup("position of an entry")
	}
	return en.t.bnd, func(st *State, i *Node) {
		id, ok := target.(*ast.Ident)
		if !ok || id.Name == "_" {
			return
		}
		p := pos(i)
		u := en.elem.Underlying().(*types.Struct)
		v := &StructV{typ: en.elem}
		for j := 0; j < u.NumFields(); j++ {
			if isBigPtr(u.Field(j).Type()) {
				v.f = append(v.f, e.frozenBig(st, Select(en.t.val, p)))
			} else {
				v.f = append(v.f, p)
			}
		}
		l, _ := e.varLoc(st, e.info(st).ObjectOf(id))
		st.set(l, v)
	}
}

// DeadV marks an object that may no longer be used under this name.
type DeadV struct{}

func isTreePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && namedName(p.Elem()) == "AvlTree"
}

// treeElemCall calls a method on a tree that is an element of a list. If the elements belong to the list
// alone the method may change the tree; the change is written back.
func (e *Engine) treeElemCall(st *State, c *ast.CallExpr, ie *ast.IndexExpr, m *types.Func, k func(st *State, run func(*State, EK))) {
	e.evalLV(st, ie, func(st *State, lv LV) {
		a, ok := st.get(lv.loc).(*ArrV)
		own := ok && lv.kind == 1 && len(lv.path) == 0 && a.uniq && a.st == stOwned
		recv := e.readLV(st, lv).(Ptr)
		if recv.loc == 0 {
			unsup("method of a nil tree")
		}
		e.evalArgs(st, c, m.Type().(*types.Signature), func(st *State, args []Val) {
			k(st, func(st *State, kk EK) {
				if !own {
					e.callMethod(st, m, recv, args, c, kk)
					return
				}
				before := st.get(recv.loc).(*StructV)
				x := *before
				x.frozen, x.elemOf = false, 0
				l := st.alloc(&x)
				e.callMethod(st, m, Ptr{loc: l, elem: recv.elem, field: -1}, args, c, func(st *State, v Val) {
					after, ok := st.get(l).(*StructV)
					if !ok {
						unsup("tree kept by the method")
					}
					if after == &x {
						kk(st, v)
						return
					}
					for o, h := range st.heap {
						if s, ok := h.(*StructV); ok && s.elemOf == lv.loc && o != l {
							st.heap[o] = DeadV{}
						}
					}
					arr := *st.get(lv.loc).(*ArrV)
					if arr.comps == nil || !arr.uniq || arr.st != stOwned {
						unsup("list of trees changed during a method call")
					}
					fl := st.flatten(Ptr{loc: l, elem: recv.elem, field: -1}, lv.typ)
					arr.comps = append([]*Node{}, arr.comps...)
					for i := range fl {
						arr.comps[i] = Store(arr.comps[i], lv.idx, fl[i])
					}
					st.set(lv.loc, &arr)
					st.heap[l] = DeadV{}
					kk(st, v)
				})
			})
		})
	})
}
