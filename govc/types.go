package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// A leaf is one scalar component of a Go value.
type leaf struct {
	key    string // heap key
	sort   Sort
	lo, hi *big.Int
}

var two = big.NewInt(2)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

type intInfo struct {
	signed bool
	bits   uint
}

func basicInt(k types.BasicKind) (intInfo, bool) {
	switch k {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return intInfo{true, 64}, true
	case types.Int8:
		return intInfo{true, 8}, true
	case types.Int16:
		return intInfo{true, 16}, true
	case types.Int32:
		return intInfo{true, 32}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{false, 64}, true
	case types.Uint8:
		return intInfo{false, 8}, true
	case types.Uint16:
		return intInfo{false, 16}, true
	case types.Uint32:
		return intInfo{false, 32}, true
	}
	return intInfo{}, false
}
func (ii intInfo) rng() (*big.Int, *big.Int) {
	if ii.signed {
		h := pow2(ii.bits - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(ii.bits), big.NewInt(1))
}

var lenMax = pow2(40)

func isTime(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		return o.Pkg() != nil && o.Pkg().Path() == "time" && o.Name() == "Time"
	}
	return false
}

// opaqueStruct: structs we never look into.
func opaqueStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return false
		}
		switch o.Pkg().Path() {
		case "sync", "sync/atomic", "reflect", "crypto/rsa", "crypto/x509", "net", "strings", "bytes", "bufio", "math/big", "github.com/gammazero/deque", "container/list":
			return true
		}
	}
	return false
}

const maxArr = 64

func (x *Exec) layout(t types.Type) []leaf {
	if l, ok := x.layouts[t]; ok {
		return l
	}
	l := x.layout0(t)
	x.layouts[t] = l
	return l
}
func (x *Exec) layout0(t types.Type) []leaf {
	if isTime(t) {
		return []leaf{{"time", SInt, nil, nil}}
	}
	if opaqueStruct(t) {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return nil
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if ii, ok := basicInt(u.Kind()); ok {
			lo, hi := ii.rng()
			k := u.Name()
			if u.Kind() == types.UntypedInt || u.Kind() == types.UntypedRune {
				return []leaf{{"math", SInt, nil, nil}}
			}
			if k == "byte" {
				k = "uint8"
			}
			if k == "rune" {
				k = "int32"
			}
			return []leaf{{k, SInt, lo, hi}}
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return []leaf{{"bool", SBool, nil, nil}}
		case types.Float64, types.UntypedFloat:
			return []leaf{{"f64", SF64, nil, nil}}
		case types.Float32:
			return []leaf{{"f32", SF32, nil, nil}}
		case types.String, types.UntypedString:
			return []leaf{{"str", SStr, nil, nil}}
		case types.UnsafePointer:
			return []leaf{{"p.b", SInt, nil, nil}, {"p.i", SInt, nil, nil}}
		case types.UntypedNil:
			return []leaf{{"nil", SInt, nil, nil}}
		case types.Invalid:
			return nil // e.g. ssa "invalid type" in range tuples
		}
	case *types.Pointer:
		return []leaf{{"p.b", SInt, nil, nil}, {"p.i", SInt, nil, nil}}
	case *types.Slice:
		z := big.NewInt(0)
		return []leaf{{"s.b", SInt, nil, nil}, {"s.o", SInt, z, lenMax}, {"s.l", SInt, z, lenMax}, {"s.c", SInt, z, lenMax}}
	case *types.Interface:
		return []leaf{{"i.t", SInt, big.NewInt(0), nil}, {"i.x", SInt, nil, nil}}
	case *types.Map, *types.Chan:
		return []leaf{{"ref", SInt, nil, nil}}
	case *types.Signature:
		return []leaf{{"fn", SInt, nil, nil}}
	case *types.Struct:
		var r []leaf
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, x.layout(u.Field(i).Type())...)
		}
		return r
	case *types.Tuple:
		var r []leaf
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.layout(u.At(i).Type())...)
		}
		return r
	case *types.Array:
		if u.Len() > maxArr {
			return nil
		}
		var r []leaf
		e := x.layout(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, e...)
		}
		return r
	}
	panic(fmt.Sprintf("layout: unsupported type %s (%T)", t, t.Underlying()))
}

// Val is a Go value flattened to its scalar components.
type Val struct {
	T types.Type
	C []*Term
}

func (v Val) one() *Term {
	if len(v.C) != 1 {
		panic(fmt.Sprintf("value of type %v has %d components, want 1", v.T, len(v.C)))
	}
	return v.C[0]
}

func (x *Exec) fieldRange(t types.Type, f int) (int, int, types.Type) {
	st := t.Underlying().(*types.Struct)
	off := 0
	for i := 0; i < f; i++ {
		off += len(x.layout(st.Field(i).Type()))
	}
	ft := st.Field(f).Type()
	return off, off + len(x.layout(ft)), ft
}

func (x *Exec) zeroOf(l leaf) *Term {
	c := x.c
	switch l.sort {
	case SBool:
		return c.False
	case SStr:
		return c.StrLit("")
	case SF64:
		return c.fplit(0, true)
	case SF32:
		return c.fplit(0, false)
	}
	if l.key == "time" {
		return c.Big(zeroTimeNs)
	}
	return c.Int(0)
}

// time.Time is modelled as nanoseconds since the Unix epoch; the zero Time is year 1.
var zeroTimeNs = new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1000000000))

func (x *Exec) zero(t types.Type) Val {
	v := Val{T: t}
	for _, l := range x.layout(t) {
		v.C = append(v.C, x.zeroOf(l))
	}
	return v
}

func typeKey(t types.Type) string {
	return canonType(types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() }))
}

// freshVal creates an arbitrary value of type t.
func (x *Exec) freshVal(st *State, t types.Type, name string) Val {
	v := Val{T: t}
	c := x.c
	ls := x.layout(t)
	for _, l := range ls {
		f := c.Fresh(name+"."+strings.ReplaceAll(l.key, ".", ""), l.sort)
		c.ranged(f, l.lo, l.hi)
		v.C = append(v.C, f)
	}
	x.wellFormed(st, v)
	return v
}

// wellFormed asserts the representation invariants of a symbolic value.
func (x *Exec) wellFormed(st *State, v Val) {
	c := x.c
	x.eachLeafGroup(v.T, v.C, func(t types.Type, cs []*Term) {
		switch t.Underlying().(type) {
		case *types.Slice:
			// 0 <= len <= cap, nil slice has len 0
			c.axiom(cs[2], c.Le(cs[2], cs[3]))
			c.axiom(cs[2], c.Implies(c.Eq(cs[0], c.Int(0)), c.And(c.Eq(cs[3], c.Int(0)), c.Eq(cs[2], c.Int(0)))))
		case *types.Pointer:
			if len(cs) == 2 {
				c.axiom(cs[1], c.Implies(c.Eq(cs[0], c.Int(0)), c.Eq(cs[1], c.Int(0))))
			}
		case *types.Interface:
			c.axiom(cs[1], c.Implies(c.Eq(cs[0], c.Int(0)), c.Eq(cs[1], c.Int(0))))
			c.axiom(cs[0], c.Implies(c.Eq(cs[0], c.Int(0)), c.Eq(cs[1], c.Int(0))))
		}
	})
}

// eachLeafGroup calls f for every non-struct, non-array sub-value.
func (x *Exec) eachLeafGroup(t types.Type, cs []*Term, f func(types.Type, []*Term)) {
	if isTime(t) {
		f(t, cs)
		return
	}
	if len(cs) == 0 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(x.layout(u.Field(i).Type()))
			x.eachLeafGroup(u.Field(i).Type(), cs[o:o+n], f)
			o += n
		}
	case *types.Tuple:
		o := 0
		for i := 0; i < u.Len(); i++ {
			n := len(x.layout(u.At(i).Type()))
			x.eachLeafGroup(u.At(i).Type(), cs[o:o+n], f)
			o += n
		}
	case *types.Array:
		n := len(x.layout(u.Elem()))
		for i := int64(0); i < u.Len(); i++ {
			x.eachLeafGroup(u.Elem(), cs[int(i)*n:int(i+1)*n], f)
		}
	default:
		f(t, cs)
	}
}
