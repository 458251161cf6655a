package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// answers classifies the functions that answer an HTTP request given a gin context.

const (
	ansNone = iota
	ansOK   // every status set is 2xx (or 3xx)
	ansFail // some status is not known to be one of those
)

func isGinCtx(t types.Type) bool { return typeNameOf(deref(t)) == ginPkg+".Context" }

// statusArg is the index of the status in the arguments (receiver first) of a gin context method that answers; -1: none, -2: does not answer.
func statusArg(name string) int {
	if !strings.HasPrefix(name, ginCtx) {
		return -2
	}
	switch name[len(ginCtx):] {
	case "JSON", "Status", "String", "AbortWithStatus", "AbortWithStatusJSON", "AbortWithError", "Data", "XML", "IndentedJSON", "PureJSON", "Redirect", "HTML", "YAML", "SecureJSON", "AsciiJSON", "JSONP", "ProtoBuf", "DataFromReader":
		return 1
	case "File", "Stream", "FileAttachment":
		return -1
	}
	return -2
}

// responder says how a function of common/response that is given the context (or made from it) answers.
func (c *Ctx) responder(fn *ssa.Function) int {
	if c.resp == nil {
		c.resp = map[*ssa.Function]int{}
	}
	if v, ok := c.resp[fn]; ok {
		return v
	}
	c.resp[fn] = ansNone
	if fn.Blocks == nil || pkgPathOf(fn) != "common/response" {
		return ansNone
	}
	kind := ansNone
	r := &Rule{MaxDepth: 6}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if i := statusArg(ci.Name); i > 0 && i < len(ci.Args) {
			k := ansFail
			if v, ok := x.constOf(st, ci.Args[i]); ok {
				if n, ok := constInt(v); ok && n >= 200 && n < 400 {
					k = ansOK
				}
			}
			if k > kind {
				kind = k
			}
			return ActOpaque
		}
		return ActDefault
	}
	c.Run(fn, r)
	c.resp[fn] = kind
	return kind
}

// onAnswer notes how the request is answered: events "answer-ok" and "answer-fail". It reports whether the call answers.
func (c *Ctx) onAnswer(x *Exec, st *State, ci *CallInfo) bool {
	if cutsOff(ci) {
		st.Emit(Event{Kind: "answer-fail", Call: ci, Pos: ci.Site.Pos()}) // the connection is taken away
		return true
	}
	if i := statusArg(ci.Name); i > -2 {
		kind := "answer-ok"
		if i > 0 && i < len(ci.Args) {
			kind = "answer-fail"
			if v, ok := x.constOf(st, ci.Args[i]); ok {
				if n, ok := constInt(v); ok && n >= 200 && n < 400 {
					kind = "answer-ok"
				}
			}
		}
		st.Emit(Event{Kind: kind, Call: ci, Pos: ci.Site.Pos()})
		return true
	}
	if ci.Fn != nil {
		switch c.responder(ci.Fn) {
		case ansOK:
			st.Emit(Event{Kind: "answer-ok", Call: ci, Pos: ci.Site.Pos()})
			return true
		case ansFail:
			st.Emit(Event{Kind: "answer-fail", Call: ci, Pos: ci.Site.Pos()})
			return true
		}
	}
	return false
}

// succeeded: nothing on the path answered with a failure; a handler that says nothing answers 200.
func succeeded(st *State) bool { return !st.Has("answer-fail") }

// cutsOff: the call takes the connection of the answer away, or lets all its writes fail.
func cutsOff(ci *CallInfo) bool {
	switch ci.Name {
	case "net/http.ResponseController.Hijack", "net/http.Hijacker.Hijack", ginPkg + ".ResponseWriter.Hijack":
		return true
	case "net/http.ResponseController.SetWriteDeadline":
		c := callOf(ci.Args[1].strip())
		if c == nil && ci.Args[1].strip().k == KPure {
			return ci.Args[1].strip().op == "time.Unix" || ci.Args[1].strip().op == "time.Now"
		}
		return c != nil && (c.Name == "time.Unix" || c.Name == "time.Now")
	}
	return false
}
