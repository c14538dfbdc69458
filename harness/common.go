package featselect

// Intrinsics of the verification harnesses. The symbolic engine replaces every v* function;
// the bodies below are used when a counterexample or a sampled path is replayed on the real code.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

type vSkipT struct{}
type vFailT struct{ msg string }

// vPop returns the next recorded input of the given kinds
var vPop func(kinds ...string) string

var vOut []string

func vParse(s string) (string, string) {
	f := strings.Fields(s)
	if len(f) < 2 {
		panic(vSkipT{})
	}
	return f[0], f[1]
}

func vNextInt() int64 {
	_, v := vParse(vPop("int", "bool"))
	n, _ := strconv.ParseInt(v, 10, 64)
	return n
}

func vNextReal() float64 {
	_, v := vParse(vPop("real", "fp"))
	b, _ := strconv.ParseUint(v, 16, 64)
	return math.Float64frombits(b)
}

// vBool is an arbitrary truth value
func vBool() bool { return vNextInt() == 1 }

// vPick is an integer in [lo,hi], explored case by case
func vPick(lo, hi int) int { return int(vNextInt()) }

// vInt is an arbitrary integer in [lo,hi]
func vInt(lo, hi int) int { return int(vNextInt()) }

// vI64 is an arbitrary 64-bit integer
func vI64() int { return int(vNextInt()) }

// vByte is an arbitrary byte
func vByte() byte { return byte(vNextInt()) }

// vFloat is an arbitrary number in [lo,hi]
func vFloat(lo, hi float64) float64 { return vNextReal() }

// vReal is an arbitrary number of size up to 1e12 (in fp mode an arbitrary finite number)
func vReal() float64 { return vNextReal() }

// vFloatAny is an arbitrary float64 including NaN and infinities
func vFloatAny() float64 { return vNextReal() }

// vNumText is the text of an arbitrary number in [lo,hi]
func vNumText(lo, hi float64) string { return strconv.FormatFloat(vNextReal(), 'g', -1, 64) }

// vNumVal is the number written in a text made by vNumText
func vNumVal(s string) float64 {
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

func vAssume(c bool) {
	if !c {
		panic(vSkipT{})
	}
}

func vAssert(c bool, msg string) {
	if !c {
		panic(vFailT{msg})
	}
}

func vTolOf(a, b float64) float64 { return 1e-6 * (1 + math.Abs(a) + math.Abs(b)) }

// vEq asserts equality over the reals
func vEq(a, b float64, msg string) {
	if math.IsNaN(a) && math.IsNaN(b) || a == b {
		return
	}
	if !(math.Abs(a-b) <= vTolOf(a, b)) {
		panic(vFailT{msg})
	}
}

// vLe asserts a <= b over the reals
func vLe(a, b float64, msg string) {
	if a <= b {
		return
	}
	if !(a-b <= vTolOf(a, b)) {
		panic(vFailT{msg})
	}
}

// vNear asserts |a-b| <= tol
func vNear(a, b, tol float64, msg string) {
	if a == b {
		return
	}
	if !(math.Abs(a-b) <= tol+vTolOf(a, b)) {
		panic(vFailT{msg})
	}
}

// vReach marks that a place was reached
func vReach(label string) { vHits[label] = true }

var vHits = map[string]bool{}

// vObs records values that the replay compares with the symbolic prediction
func vObs(label string, vs ...interface{}) {
	for _, v := range vs {
		vOut = append(vOut, label+" "+vObsText(v))
	}
}

func vObsText(v interface{}) string {
	switch x := v.(type) {
	case bool:
		return fmt.Sprintf("b %v", x)
	case int:
		return fmt.Sprintf("i %d", x)
	case float64:
		return fmt.Sprintf("f %v", x)
	case string:
		return fmt.Sprintf("s %q", x)
	case []float64:
		var ss []string
		for _, e := range x {
			ss = append(ss, vObsText(e))
		}
		return strings.Join(ss, " ")
	case []int:
		var ss []string
		for _, e := range x {
			ss = append(ss, vObsText(e))
		}
		return strings.Join(ss, " ")
	case []bool:
		var ss []string
		for _, e := range x {
			ss = append(ss, vObsText(e))
		}
		return strings.Join(ss, " ")
	}
	return fmt.Sprintf("? %T", v)
}

// vTier is 0 in the quick tier and 1 in the thorough tier
func vTier() int { return vTierValue }

var vTierValue int

// vFileLimit makes every write beyond the n-th byte of a file fail (-1: no limit)
func vFileLimit(n int) { vFileLimitFn(n) }

// vFileDeath lets the process die in the n-th operation on files, counted from 0 (-1: no more)
func vFileDeath(n int) { vFileDeathFn(n) }

var vFileLimitFn, vFileDeathFn func(int)

// vSVD registers an exact thin singular value decomposition of a row-major matrix
func vSVD(m, n, k int, a, u, s, v []float64) {}

// vSqrt is the exact square root
func vSqrt(x float64) float64 { return math.Sqrt(x) }

// vPanics reports whether f panics
func vPanics(f func()) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case vSkipT, vFailT:
				panic(r)
			}
			res = true
		}
	}()
	f()
	return false
}
