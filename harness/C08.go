package featselect

import (
	"math"
	"strconv"
	"strings"
)

func vhC08check(text string, names []string, toks [][]string, target int) {
	nc := len(names)
	ds := ParseCSV(strings.NewReader(text), target)
	t := target
	if t < 0 {
		t += nc
	}
	vAssert(ds.TargetCol == t, "target column counts from the end when negative")
	vAssert(len(ds.Names) == nc, "one name per column")
	for i := range names {
		vAssert(ds.Names[i] == names[i], "the header gives the names")
	}
	r, c := ds.X.Dims()
	vAssert(r == len(toks) && c == nc-1 && len(ds.Y) == len(toks), "dimensions")
	for i, row := range toks {
		k := 0
		for j, s := range row {
			if j == t {
				vEq(ds.Y[i], vNumVal(s), "the target column is Y")
			} else {
				vEq(ds.X.At(i, k), vNumVal(s), "the remaining columns are X in file order")
				k++
			}
		}
	}
	vObs("y", ds.Y)
}

// vhC08Layout: 1..3 rows, 2..4 columns of arbitrary numbers, every target column -cols..cols-1, with and without a final line end, LF or CRLF.
//verif:harness real
func vhC08Layout() {
	nr := vPick(1, 3)
	nc := vPick(2, 4)
	target := vPick(-nc, nc-1)
	eol := "\n"
	if vPick(0, 1) == 1 {
		eol = "\r\n"
	}
	last := vPick(0, 1)
	all := []string{"age", "b 2", "x_3", "D"}
	names := all[:nc]
	var sb strings.Builder
	sb.WriteString(strings.Join(names, ","))
	toks := make([][]string, nr)
	for i := range toks {
		sb.WriteString(eol)
		toks[i] = make([]string, nc)
		for j := range toks[i] {
			toks[i][j] = vNumText(-1e12, 1e12)
			if j > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(toks[i][j])
		}
	}
	if last == 1 {
		sb.WriteString(eol)
	}
	vhC08check(sb.String(), names, toks, target)
	vReach("layout")
}

// vhC08Blanks: 1..2 rows and 2 columns; every number surrounded by 0..2 blanks or tabs on either side, quoted or not.
//verif:harness real
func vhC08Blanks() {
	nr := vPick(1, 1+vTier())
	nc := 2
	target := vPick(0, 1)
	pad := []string{"", " ", "   ", "\t"}
	names := []string{"a", "b"}
	var sb strings.Builder
	sb.WriteString("a,b\n")
	toks := make([][]string, nr)
	for i := range toks {
		toks[i] = make([]string, nc)
		for j := range toks[i] {
			toks[i][j] = vNumText(-1e12, 1e12)
			if j > 0 {
				sb.WriteString(",")
			}
			cell := pad[vPick(0, 3)] + toks[i][j] + pad[vPick(0, 3)]
			if vPick(0, 1) == 1 {
				cell = "\"" + cell + "\""
			}
			sb.WriteString(cell)
		}
		sb.WriteString("\n")
	}
	vhC08check(sb.String(), names, toks, target)
	vReach("blanks")
}

// vhC08Forms: concrete spellings of numbers (integers, signs, exponents, leading zeros, many digits, extreme values) in every column, exact to the last digit.
//verif:harness real
func vhC08Forms() {
	forms := []string{"20", "-3", "+4.5", "1e3", "-2.5E-2", ".5", "007", "1e-300", "-0", "123456789.25", "0.1", "16777217", "-123456.789012345", "9007199254740993", "4.35", "1.7976931348623157e308", "5e-324"}
	vals := []float64{20, -3, 4.5, 1000, -0.025, 0.5, 7, 1e-300, 0, 123456789.25, 0.1, 16777217, -123456.789012345, 9007199254740993, 4.35, math.MaxFloat64, 5e-324}
	i := vPick(0, len(forms)-1)
	j := vPick(0, len(forms)-1)
	target := vPick(-2, 1)
	ds := ParseCSV(strings.NewReader("a,b\n"+forms[i]+","+forms[j]+"\n"), target)
	x, y := vals[i], vals[j]
	if target == 0 || target == -2 {
		x, y = y, x
	}
	vAssert(ds.X.At(0, 0) == x, "number spelling in X, to the last digit")
	vAssert(ds.Y[0] == y, "number spelling in Y, to the last digit")
	vReach("forms")
}

// vhC08Names: one header name of 1..2 (thorough 3) arbitrary printable ASCII characters, written plainly (if it contains neither
// comma nor quote) or quoted, as the first or second of two columns.
//verif:harness real budget=100 budgetT=600
func vhC08Names() {
	n := vPick(1, 2+vTier())
	b := make([]byte, n)
	quoted := vPick(0, 1) == 1
	var cell []byte
	if quoted {
		cell = append(cell, '"')
	}
	for i := range b {
		b[i] = vByte()
		vAssume(b[i] >= 32 && b[i] < 127)
		if quoted {
			if b[i] == '"' {
				cell = append(cell, '"')
			}
		} else {
			vAssume(b[i] != '"' && b[i] != ',')
		}
		cell = append(cell, b[i])
	}
	if quoted {
		cell = append(cell, '"')
	}
	pos := vPick(0, 1)
	names := []string{"other", "other"}
	names[pos] = string(b)
	head := "other," + string(cell)
	if pos == 0 {
		head = string(cell) + ",other"
	}
	toks := [][]string{{vNumText(-1e12, 1e12), vNumText(-1e12, 1e12)}}
	vhC08check(head+"\n"+toks[0][0]+","+toks[0][1]+"\n", names, toks, vPick(-2, 1))
	vReach("names")
}

// vhC08Wide: 150 rows and 12 columns (more text than any read buffer), one arbitrary number at one of 18 places, three target columns.
//verif:harness real
func vhC08Wide() {
	nr, nc := 150, 12
	ar, ac := []int{0, 1, 62, 63, 148, 149}[vPick(0, 5)], []int{0, 5, 11}[vPick(0, 2)]
	target := []int{0, 7, -1}[vPick(0, 2)]
	names := make([]string, nc)
	for j := range names {
		names[j] = "column " + string(rune('a'+j))
	}
	text := vNumText(-1e12, 1e12)
	var sb strings.Builder
	sb.WriteString(strings.Join(names, ",") + "\n")
	val := func(i, j int) float64 { return float64((i*37+j*11+5)%1009)/4 - 120 }
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			if j > 0 {
				sb.WriteString(",")
			}
			if i == ar && j == ac {
				sb.WriteString(text)
			} else {
				sb.WriteString(strconv.FormatFloat(val(i, j), 'f', 3, 64))
			}
		}
		sb.WriteString("\n")
	}
	ds := ParseCSV(strings.NewReader(sb.String()), target)
	t := (target + nc) % nc
	r, c := ds.X.Dims()
	vAssert(r == nr && c == nc-1 && len(ds.Y) == nr && ds.TargetCol == t && len(ds.Names) == nc, "dimensions")
	for j := range names {
		vAssert(ds.Names[j] == names[j], "the header gives the names")
	}
	for i := 0; i < nr; i++ {
		k := 0
		for j := 0; j < nc; j++ {
			v := val(i, j)
			if i == ar && j == ac {
				v = vNumVal(text)
			}
			if j == t {
				vEq(ds.Y[i], v, "the target column is Y")
			} else {
				vEq(ds.X.At(i, k), v, "the remaining columns are X in file order")
				k++
			}
		}
	}
	vReach("wide")
}
