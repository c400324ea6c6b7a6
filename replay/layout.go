package main

// Oracle for sizes and alignments: the layout rules over a textual description of types.

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/gabivlj/candice/internals/ctypes"
)

// description: i8 u16 f32 * F {fields} <fields> [n]elem
type ltype struct {
	kind  byte
	n     int
	inner *ltype
	fs    []*ltype
}

func (t *ltype) String() string {
	switch t.kind {
	case 'i', 'u', 'f':
		return string(t.kind) + strconv.Itoa(t.n)
	case '[':
		return fmt.Sprintf("[%d]%v", t.n, t.inner)
	case '{', '<':
		var o []string
		for _, f := range t.fs {
			o = append(o, f.String())
		}
		return string(t.kind) + strings.Join(o, " ") + string(t.kind+2)
	}
	return string(t.kind)
}

func parseL(s string, p *int) *ltype {
	for *p < len(s) && s[*p] == ' ' {
		*p++
	}
	c := s[*p]
	*p++
	num := func() int {
		k := *p
		for *p < len(s) && isD(s[*p]) {
			*p++
		}
		n, _ := strconv.Atoi(s[k:*p])
		return n
	}
	t := &ltype{kind: c}
	switch c {
	case 'i', 'u', 'f':
		t.n = num()
	case '[':
		t.n = num()
		*p++
		t.inner = parseL(s, p)
	case '{', '<':
		for {
			for s[*p] == ' ' {
				*p++
			}
			if s[*p] == c+2 {
				*p++
				return t
			}
			t.fs = append(t.fs, parseL(s, p))
		}
	}
	return t
}

func (t *ltype) layout() (size, align int64) {
	up := func(n, a int64) int64 { return (n + a - 1) / a * a }
	switch t.kind {
	case 'i', 'u', 'f':
		b := int64((t.n + 7) / 8)
		return b, b
	case '*', 'F':
		return 8, 8
	case '[':
		s, a := t.inner.layout()
		return s * int64(t.n), a
	case '{':
		align = 1
		for _, f := range t.fs {
			s, a := f.layout()
			size = up(size, a) + s
			align = max64(align, a)
		}
		return up(size, align), align
	}
	align = 1
	for _, f := range t.fs {
		s, a := f.layout()
		size = max64(size, s)
		align = max64(align, a)
	}
	return up(size, align), align
}

func (t *ltype) build() ctypes.Type {
	switch t.kind {
	case 'i':
		return &ctypes.Integer{BitSize: uint(t.n)}
	case 'u':
		return &ctypes.UInteger{BitSize: uint(t.n)}
	case 'f':
		return &ctypes.Float{BitSize: uint(t.n)}
	case '*':
		return &ctypes.Pointer{Inner: &ctypes.Integer{BitSize: 8}}
	case 'F':
		return &ctypes.Function{}
	case '[':
		return &ctypes.Array{Inner: t.inner.build(), Length: int64(t.n)}
	}
	var fs []ctypes.Type
	var ns []string
	for i, f := range t.fs {
		fs = append(fs, f.build())
		ns = append(ns, fmt.Sprint("f", i))
	}
	if t.kind == '{' {
		return &ctypes.Struct{Fields: fs, Names: ns, Name: "s"}
	}
	return &ctypes.Union{Fields: fs, Names: ns, Name: "u"}
}

func checkLayout(g, in string) string {
	p := 0
	t := parseL(in, &p)
	s, a := t.layout()
	c := t.build()
	if gs, ga := c.SizeOf(), c.Alignment(); gs != s || ga != a {
		return fmt.Sprintf("type %s: size %d alignment %d, the layout rules give size %d alignment %d", in, gs, ga, s, a)
	}
	return ""
}

var lscalars = []string{"i1", "i8", "i16", "i32", "i64", "u1", "u8", "u16", "u32", "u64", "f32", "f64", "*", "F"}

func randLayout(r *rand.Rand, d int) *ltype {
	k := r.Intn(10)
	if d <= 0 || k < 4 {
		p := 0
		return parseL(lscalars[r.Intn(len(lscalars))], &p)
	}
	if k < 6 {
		return &ltype{kind: '[', n: r.Intn(6), inner: randLayout(r, d-1)}
	}
	t := &ltype{kind: "{<"[k%2]}
	for i := r.Intn(6); i > 0; i-- {
		t.fs = append(t.fs, randLayout(r, d-1))
	}
	return t
}

func genLayout(r *rand.Rand, deep bool, emit func(g, in string) bool) {
	for n := 1; n <= 130; n++ {
		emit("width", fmt.Sprint("i", n))
		emit("width", fmt.Sprint("u", n))
	}
	small := []string{"i8", "i16", "i32", "i64", "f64", "*", "[0]i64", "[3]i8", "[2]i16", "{}", "<>", "{i8 i32}", "<i64 [9]i8>", "{i64 i8}"}
	all := append(append([]string{}, lscalars...), small[6:]...)
	for _, o := range []string{"{}", "<>"} {
		emit("empty", o)
		for _, a := range all {
			emit("aggr1", o[:1]+a+o[1:])
			emit("arr", "[3]"+a)
			emit("arr", "[0]"+a)
			emit("arr", "[2]"+o[:1]+a+o[1:])
			for _, b := range all {
				emit("aggr2", o[:1]+a+" "+b+o[1:])
				for _, c := range all {
					if !emit("aggr3", o[:1]+a+" "+b+" "+c+o[1:]) {
						return
					}
				}
			}
		}
	}
	for {
		if !emit("random", randLayout(r, 4).String()) {
			return
		}
	}
}

func init() {
	props["C11"] = &Prop{Rule: "every integer width up to 130, every struct and union of up to three fields over 22 field types, arrays of them, then random nestings of depth up to 4; compared with an independent computation of the layout",
		Gen: genLayout, Check: checkLayout, Timeout: 10 * time.Second}
}

func max64(a, b int64) int64 {
	if a < b {
		return b
	}
	return a
}
