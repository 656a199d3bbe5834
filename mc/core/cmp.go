package core

import "math"

// Same says whether two floats are the same value (NaN equals NaN, 0 equals -0).
func Same(a, b float64) bool { return a == b || (a != a && b != b) }

// Bits says whether two floats are bit-identical.
func Bits(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// Close compares with a relative/absolute tolerance.
func Close(a, b, tol float64) bool { return CloseS(a, b, tol, 1) }

// CloseS compares with a tolerance relative to scale as well.
func CloseS(a, b, tol, scale float64) bool {
	if Same(a, b) {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= tol*math.Max(scale, math.Max(math.Abs(a), math.Abs(b)))
}

func CloseM(a, b [][]float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !Close(a[i][j], b[i][j], tol) {
				return false
			}
		}
	}
	return true
}

func SameM(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !Same(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

func BitsM(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !Bits(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

func CopyM(a [][]float64) [][]float64 {
	o := make([][]float64, len(a))
	for i := range a {
		o[i] = append([]float64(nil), a[i]...)
	}
	return o
}
