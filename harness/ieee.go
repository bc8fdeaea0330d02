package main

import (
	"fmt"
	"math"

	jp "github.com/bserdar/gojsonpath"
)

// C08: numbers that no literal spells, infinities and NaN among them, compare as they do in Go.

// IEEECase compares two of the numbers in oddNumbers
type IEEECase struct {
	A int `json:"a"`
	B int `json:"b"`
}

var oddNumbers = []any{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0.0, 0, 1, -1, 1.0, -1.0, 5, 5.5, math.MaxFloat64, -math.MaxFloat64,
	math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Copysign(math.NaN(), -1), math.Nextafter(1, 2), math.Nextafter(1, 0), math.MaxInt32, math.MinInt32,
	float64(math.MaxInt32), 1 << 53, float64(1 << 53), -(1 << 53), 9007199254740991.0, math.Pi, 1e16, 0x1p-1022}

func enumIEEE(tier string, yield func(*IEEECase) bool) {
	for a := range oddNumbers {
		for b := range oddNumbers {
			if !yield(&IEEECase{a, b}) {
				return
			}
		}
	}
}

func checkIEEE(c *IEEECase, o *Obs) error {
	av, bv := oddNumbers[c.A%len(oddNumbers)], oddNumbers[c.B%len(oddNumbers)]
	asFloat := func(v any) (f float64, isInt bool) {
		if i, ok := v.(int); ok {
			return float64(i), true
		}
		return v.(float64), false
	}
	a, ai := asFloat(av)
	b, bi := asFloat(bv)
	o.NonTrivial()
	o.LabelIf(math.IsNaN(a) || math.IsNaN(b), "NaN")
	o.LabelIf(math.IsInf(a, 0) || math.IsInf(b, 0), "infinity")
	want := map[string]bool{"==": a == b, "!=": a != b, "===": a == b && ai == bi, "!==": !(a == b && ai == bi), "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}
	doc := jp.MapModel{Doc: map[string]any{"l": []any{av}, "b": bv, "m": []any{bv}}}
	try := func(cond string, want bool) error {
		text := "$.l[?(" + cond + ")]"
		p, err := mustParse(text)
		if err != nil {
			return err
		}
		var n int
		var ferr error
		if err := safely(text, func() {
			r, err := jp.Find(doc, p)
			n, ferr = len(r), err
		}); err != nil {
			return err
		}
		if ferr != nil || (n == 1) != want {
			return fmt.Errorf("with the value %v (%T) at @ and %v (%T) at $.b, the condition %s is %v (%v), expected %v", av, av, bv, bv, cond, n == 1, ferr, want)
		}
		return nil
	}
	for _, op := range cmpOps {
		for _, cond := range []string{"@" + op + "$.b", "(@ " + op + " $.m[0])"} {
			if err := try(cond, want[op]); err != nil {
				return err
			}
		}
		if err := try("!(@"+op+"$.b)", !want[op]); err != nil {
			return err
		}
	}
	for _, cond := range []string{"@ in $.m", "@ in [$.b]", "@ in [\"x\",$.b,null]"} {
		if err := try(cond, a == b); err != nil {
			return err
		}
	}
	return nil
}
