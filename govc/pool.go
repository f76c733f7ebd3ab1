package main

// Model of bnPool: Get yields an arbitrary integer owned by the caller, Put takes it back.

func init() {
	callHooks["bn256.bnPool.Get"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		t := e.l.findFunc("bn256.bnPool.Get").obj.Type()
		_ = t
		bt := e.bigType()
		k(st, st.newBig(Fresh("pool", SInt), stOwned, bt))
	}
	callHooks["bn256.bnPool.Put"] = func(e *Engine, st *State, recv Val, args []Val, k EK) {
		p, ok := args[0].(Ptr)
		if !ok || p.loc == 0 {
			e.fail(st, "pool.Put of nil")
			panic(abortFn{"pool.Put nil"})
		}
		b := st.get(p.loc).(*BigV)
		if b.st != stOwned {
			e.fail(st, "pool.Put of a shared or already returned value")
		}
		st.set(p.loc, &BigV{v: b.v, st: stDead})
		k(st, nil)
	}
}
