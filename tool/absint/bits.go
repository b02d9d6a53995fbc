package absint

import (
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// prefix returns the leading bits that all numbers in x share.
func (x itv) prefix() int64 {
	if x.lo < 0 || x.hi == posInf {
		return 0
	}
	return x.lo &^ (1<<bits.Len64(uint64(x.lo^x.hi)) - 1)
}

// noPower reports whether x holds positive numbers only, none a power of two.
func (x itv) noPower() bool {
	if x.lo <= 0 || x.hi == posInf {
		return false
	}
	p := int64(1) << (bits.Len64(uint64(x.lo)) - 1)
	return p < x.lo && (p > 1<<61 || x.hi < 2*p)
}

// bitsCall models the counting functions of package math/bits.
func (e *Engine) bitsCall(s *State, fn *ssa.Function, x *ssa.Call, args []Val) bool {
	if len(args) != 1 {
		return false
	}
	a, ok := args[0].(VInt)
	if !ok {
		return false
	}
	v := s.num.itvOf(a.L)
	if v.lo < 0 || v.hi > 1<<62 {
		v = itv{0, posInf}
	}
	one := v.lo == v.hi
	var r itv
	name := strings.TrimRight(fn.Name(), "0123456789")
	switch name {
	case "OnesCount":
		switch {
		case one:
			n := int64(bits.OnesCount64(uint64(v.lo)))
			r = itv{n, n}
		case v.noPower():
			r = itv{2, 64}
		case v.lo > 0:
			r = itv{1, 64}
		default:
			r = itv{0, 64}
		}
	case "Len":
		r = itv{int64(bits.Len64(uint64(v.lo))), 64}
		if v.hi != posInf {
			r.hi = int64(bits.Len64(uint64(v.hi)))
		}
	case "TrailingZeros":
		r = itv{0, 64}
		if one && v.lo > 0 {
			n := int64(bits.TrailingZeros64(uint64(v.lo)))
			r = itv{n, n}
		}
	default:
		return false
	}
	s.top().regs[x] = VInt{e.freshIn(s, x, x.Type(), r)}
	return true
}
