package main

import (
	"math/big"
	"strings"
)

// Dec is the exact value of a JSON number: (-1)^neg * digits * 10^exp, digits without trailing zeros.
// The implementation under test uses big.Rat; the oracle works on scaled decimal integers instead.
type Dec struct {
	neg    bool
	digits *big.Int
	exp    int64
	zero   bool
}

func parseDec(s string) Dec {
	d := Dec{}
	if strings.HasPrefix(s, "-") {
		d.neg = true
		s = s[1:]
	}
	exp := int64(0)
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e := new(big.Int)
		e.SetString(strings.TrimPrefix(s[i+1:], "+"), 10)
		if !e.IsInt64() {
			e.SetInt64(int64(e.Sign()) << 50)
		}
		exp = e.Int64()
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		exp -= int64(len(s) - i - 1)
		s = s[:i] + s[i+1:]
	}
	s = strings.TrimLeft(s, "0")
	t := strings.TrimRight(s, "0")
	exp += int64(len(s) - len(t))
	if t == "" {
		return Dec{zero: true, digits: new(big.Int)}
	}
	d.digits, _ = new(big.Int).SetString(t, 10)
	d.exp = exp
	return d
}

func (d Dec) sign() int {
	if d.zero {
		return 0
	}
	if d.neg {
		return -1
	}
	return 1
}

func (d Dec) isInt() bool { return d.zero || d.exp >= 0 }

func pow10(n int64) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil) }

// align returns both values as integers scaled by the same power of ten
func align(a, b Dec) (*big.Int, *big.Int) {
	if a.zero {
		a.exp = b.exp
	}
	if b.zero {
		b.exp = a.exp
	}
	e := a.exp
	if b.exp < e {
		e = b.exp
	}
	x := new(big.Int).Mul(a.digits, pow10(a.exp-e))
	y := new(big.Int).Mul(b.digits, pow10(b.exp-e))
	if a.neg {
		x.Neg(x)
	}
	if b.neg {
		y.Neg(y)
	}
	return x, y
}

func (d Dec) magnitude() int64 { return int64(len(d.digits.String())) + d.exp }

func (a Dec) cmp(b Dec) int {
	if a.sign() != b.sign() {
		if a.sign() < b.sign() {
			return -1
		}
		return 1
	}
	if a.zero {
		return 0
	}
	if ma, mb := a.magnitude(), b.magnitude(); ma != mb {
		if (ma < mb) == (a.sign() > 0) {
			return -1
		}
		return 1
	}
	x, y := align(a, b)
	return x.Cmp(y)
}

func (a Dec) equal(b Dec) bool {
	if a.zero || b.zero {
		return a.zero == b.zero
	}
	return a.neg == b.neg && a.exp == b.exp && a.digits.Cmp(b.digits) == 0
}

// multipleOf tells whether a is an integer multiple of b (b != 0)
func (a Dec) multipleOf(b Dec) bool {
	if a.zero {
		return true
	}
	if b.exp > a.exp && b.magnitude() > a.magnitude()+1 {
		return false
	}
	x, y := align(a, b)
	return new(big.Int).Rem(x, y).Sign() == 0
}

// float is a value for display-like comparison of limits in error details
func (a Dec) rat() *big.Rat {
	r := new(big.Rat).SetInt(a.digits)
	if a.exp >= 0 {
		r.Mul(r, new(big.Rat).SetInt(pow10(a.exp)))
	} else {
		r.Quo(r, new(big.Rat).SetInt(pow10(-a.exp)))
	}
	if a.neg {
		r.Neg(r)
	}
	return r
}

// text writes the value in plain normal form
func (a Dec) canon() string {
	if a.zero {
		return "0"
	}
	s := a.digits.String() + "e" + big.NewInt(a.exp).String()
	if a.neg {
		s = "-" + s
	}
	return s
}
