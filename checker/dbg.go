package main

var dbgN int

func dbgState(st *State) {
	dbgN++
	if dbgN > 3 {
		return
	}
	for _, ev := range st.trace {
		v := "-"
		if ev.Val != nil {
			v = ev.Val.key
		}
		for _, a := range ev.Args {
			v += "," + a.key
		}
		println("  ", ev.Kind, v)
	}
	for f, v := range st.facts {
		println("   fact", f.key, v)
	}
	println("----", len(st.mem))
}
