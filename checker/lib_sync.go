package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dgMethod names the operation of a done group (or wait group) a call performs.
func dgMethod(name string) string {
	for _, p := range []string{"common/util.DoneGroup.", "common/util.WaitGroup.", "common/util.doneGroup.", "common/util.limitDoneGroup.", "sync.WaitGroup."} {
		if strings.HasPrefix(name, p) {
			return name[len(p):]
		}
	}
	return ""
}

// joins: the function, run as a goroutine, counts a group down when it ends.
func (c *Ctx) joins(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	hit := false
	c.calls(fn, func(_ ssa.CallInstruction, n string) {
		if dgMethod(n) == "Done" {
			hit = true
		}
	})
	return hit
}

// dgHooks models done groups: goroutines that are joined run in line, an error that was delivered is what waiting returns.
// extra decides about other goroutines (nil: not run).
func (c *Ctx) dgHooks(r *Rule, extra func(*CallInfo) bool) {
	onCall, after := r.OnCall, r.AfterOpaque
	r.OnGo = func(x *Exec, st *State, ci *CallInfo) bool {
		if ci.Fn != nil && c.joins(ci.Fn) {
			st.Emit(Event{Kind: "go", Call: ci, Val: ci.Sym})
			return true
		}
		return extra != nil && extra(ci)
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch m := dgMethod(ci.Name); m {
		case "":
		case "Error", "Errors":
			st.Emit(Event{Kind: "dg-error", Call: ci, Val: ci.Args[1], Args: []*Term{x.groupOf(st, ci.Args[0])}})
			return ActOpaque
		case "WaitUntilError", "Wait", "WaitError", "WaitDone":
			g := x.groupOf(st, ci.Args[0])
			for i := range st.trace {
				if st.trace[i].Kind == "todo" && st.trace[i].Val == g {
					st.trace = append(append([]Event(nil), st.trace[:i]...), st.trace[i+1:]...)
					break
				}
			}
			return ActOpaque
		case "Todo", "Add":
			st.Emit(Event{Kind: "todo", Val: x.groupOf(st, ci.Args[0])})
			return ActOpaque
		default:
			return ActOpaque
		}
		switch ci.Name {
		case "common/util.NewDoneGroup", "common/util.NewWaitGroup", "common/util.LimitDoneGroup":
			return ActOpaque
		}
		if onCall != nil {
			return onCall(x, st, ci)
		}
		return ActDefault
	}
	r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		if dgMethod(ci.Name) == "WaitUntilError" {
			g := x.groupOf(st, ci.Args[0])
			failed := false
			for i := range st.trace {
				ev := &st.trace[i]
				if ev.Kind == "dg-error" && ev.Args[0] == g && x.nilness(st, ev.Val) != Yes {
					failed = true
				}
			}
			res := x.E.Res(ci, 0)
			x.Assume(st, x.E.T.bin("==", res, x.E.T.Nil(), types.Typ[types.Bool]), !failed)
		}
		if after != nil {
			return after(x, st, ci)
		}
		return nil
	}
}

// groupOf identifies a group: the value behind the interface.
func (x *Exec) groupOf(st *State, t *Term) *Term {
	t = t.strip()
	if t.k == KIface {
		t = t.a[0].strip()
	}
	return t
}
