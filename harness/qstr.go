package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
)

// QStr is a byte string that survives JSON unchanged (Go escapes, ASCII only).
type QStr string

func (q QStr) MarshalJSON() ([]byte, error) {
	s := strconv.QuoteToASCII(string(q))
	return json.Marshal(s[1 : len(s)-1])
}

func (q *QStr) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return err
	}
	*q = QStr(u)
	return nil
}

func strs(q []QStr) []string {
	r := make([]string, len(q))
	for i, s := range q {
		r[i] = string(s)
	}
	return r
}

func qstrs(q []string) []QStr {
	r := make([]QStr, len(q))
	for i, s := range q {
		r[i] = QStr(s)
	}
	return r
}

// Val is a serialisable Go value handed to the library.
type Val struct {
	K string `json:"k"`
	V QStr   `json:"v,omitempty"`
}

type oddStruct struct{ A int }
type namedInt int
type namedString string

// Go returns the Go value described.
func (v Val) Go() interface{} {
	s := string(v.V)
	pi := func(bits int) int64 {
		n, err := strconv.ParseInt(s, 10, bits)
		if err != nil {
			panic("harness: bad int " + s)
		}
		return n
	}
	pu := func(bits int) uint64 {
		n, err := strconv.ParseUint(s, 10, bits)
		if err != nil {
			panic("harness: bad uint " + s)
		}
		return n
	}
	switch v.K {
	case "int":
		return int(pi(64))
	case "int8":
		return int8(pi(8))
	case "int16":
		return int16(pi(16))
	case "int32":
		return int32(pi(32))
	case "int64":
		return pi(64)
	case "uint":
		return uint(pu(64))
	case "uint8":
		return uint8(pu(8))
	case "uint16":
		return uint16(pu(16))
	case "uint32":
		return uint32(pu(32))
	case "uint64":
		return pu(64)
	case "uintptr":
		return uintptr(pu(64))
	case "float32":
		f, _ := strconv.ParseFloat(s, 32)
		return float32(f)
	case "float64":
		return parseF(s)
	case "string":
		return s
	case "bool":
		return s == "true"
	case "nil":
		return nil
	case "bytes":
		return []byte(s)
	case "struct":
		return oddStruct{1}
	case "ptr":
		n := int32(7)
		return &n
	case "complex":
		return complex(1, 2)
	case "namedint":
		return namedInt(pi(64))
	case "namedstring":
		return namedString(s)
	}
	panic("harness: bad value kind " + v.K)
}

func parseF(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(f, 0) {
		panic("harness: bad float " + s)
	}
	return f
}

func fmtF(f float64) QStr   { return QStr(strconv.FormatFloat(f, 'g', -1, 64)) }
func fmtF32(f float32) QStr { return QStr(strconv.FormatFloat(float64(f), 'g', -1, 32)) }

// sameVal compares two values of the same Go type; floats bitwise except that any NaN equals any NaN.
func sameVal(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || (math.IsNaN(x) && math.IsNaN(y)) || x == y)
	case float32:
		y, ok := b.(float32)
		return ok && (math.Float32bits(x) == math.Float32bits(y) || (x != x && y != y) || x == y)
	}
	return a == b
}

func show(v interface{}) string {
	if s, ok := v.(string); ok {
		if len(s) > 60 {
			return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
		}
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprintf("%v(%T)", v, v)
}
