package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Channels held in a struct field. A contract on `recv T.f(owner) (v)` / `send T.f(owner, v)` is applied at every receive
// and send on that field, as if the operation were a call; the send's precondition and the receive's postcondition are the
// same predicate, which is the invariant of everything in the channel. chanFieldUses rejects a field whose channel can be
// reached another way.

func (v *Verifier) chanOp(dir string, ch ssa.Value) (string, ssa.Value, *Contract) {
	u, ok := ch.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "", nil, nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return "", nil, nil
	}
	n := dir + " " + v.fieldName(fa)
	return n, fa.X, v.specs.Funcs[n]
}

func (v *Verifier) fieldName(fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
	st := pt.Underlying().(*types.Struct)
	return v.shortType(pt) + "." + st.Field(fa.Field).Name()
}

// chanFieldUses: violations of the rule that a channel field under contract is only initialised, sent to, received from
// and measured.
func (v *Verifier) chanFieldUses() (bad []string) {
	fields := map[string]bool{}
	for n := range v.specs.Funcs {
		for _, p := range []string{"recv ", "send "} {
			if strings.HasPrefix(n, p) {
				fields[n[len(p):]] = true
			}
		}
	}
	if len(fields) == 0 {
		return nil
	}
	for _, f := range v.funcs {
		if f.Blocks == nil || f.Pkg == nil || !v.inRepo(f.Pkg.Pkg.Path()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !fields[v.fieldName(fa)] {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.DebugRef, *ssa.Store:
					case *ssa.UnOp:
						for _, q := range *r.Referrers() {
							switch q := q.(type) {
							case *ssa.DebugRef, *ssa.Select, *ssa.Send, *ssa.UnOp:
							case *ssa.Call:
								if bi, ok := q.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" && bi.Name() != "cap" {
									bad = append(bad, v.short(f))
								}
							default:
								bad = append(bad, v.short(f))
							}
						}
					default:
						bad = append(bad, v.short(f))
					}
				}
			}
		}
	}
	return
}

// chanRecv / chanSend apply the contract; ok is false when there is none.
func (x *Exec) chanRecv(st *State, fr *Frame, ch ssa.Value, pos token.Pos, k func(st *State, fr *Frame, v Val)) bool {
	n, own, c := x.V.chanOp("recv", ch)
	if c == nil {
		return false
	}
	et := ch.Type().Underlying().(*types.Chan).Elem()
	res := types.NewTuple(types.NewVar(token.NoPos, nil, "", et))
	x.used[n] = true
	x.applyContract(st, fr, c, n, []Val{x.val(st, fr, own)}, res, pos, func(st *State, fr *Frame, rs []Val) { k(st, fr, rs[0]) })
	return true
}

func (x *Exec) chanSend(st *State, fr *Frame, ch, v ssa.Value, pos token.Pos, k func(st *State, fr *Frame)) bool {
	n, own, c := x.V.chanOp("send", ch)
	if c == nil {
		return false
	}
	x.used[n] = true
	args := []Val{x.val(st, fr, own), x.val(st, fr, v)}
	if !x.atCalls(st, fr, n, args, pos) {
		return true
	}
	x.applyContract(st, fr, c, n, args, types.NewTuple(), pos, func(st *State, fr *Frame, rs []Val) { k(st, fr) })
	return true
}
