package main

import (
	"fmt"
	"os"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// Debugging aid: which globals that are initialised once per worker does a
// path change?
var frozenDebug = os.Getenv("GOSYM_FROZEN") != ""
var frozenSeen = map[*ssa.Global]uint64{}
var frozenSaid = map[*ssa.Global]int{}

func (w *Worker) frozenReport() {
	for g, v := range w.frozen {
		h := &hasher{seen: map[uintptr]uint64{}}
		h.walk(reflect.ValueOf(v), 0)
		if o, ok := frozenSeen[g]; ok && o != h.sum {
			if frozenSaid[g]++; frozenSaid[g] < 3 {
				fmt.Printf("changed: %s\n", g)
			}
		}
		frozenSeen[g] = h.sum
	}
}

type hasher struct {
	sum  uint64
	seen map[uintptr]uint64
	n    int
}

func (h *hasher) mix(x uint64) { h.sum = (h.sum ^ x) * 1099511628211 }

func (h *hasher) walk(v reflect.Value, d int) {
	if !v.IsValid() || h.n > 200000 || d > 5000 {
		return
	}
	h.n++
	h.mix(uint64(v.Kind()))
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if k, ok := h.seen[v.Pointer()]; ok {
			h.mix(k)
			return
		}
		h.seen[v.Pointer()] = uint64(len(h.seen))
		t := v.Type().String()
		if t == "*main.Term" || t[:5] == "*ssa." || t[:7] == "*types." {
			h.mix(uint64(v.Pointer()))
			return
		}
		h.walk(v.Elem(), d+1)
	case reflect.Interface:
		h.walk(v.Elem(), d+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h.walk(v.Field(i), d+1)
		}
	case reflect.Slice, reflect.Array:
		h.mix(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			h.walk(v.Index(i), d+1)
		}
	case reflect.Map:
		h.mix(uint64(v.Len()))
	case reflect.String:
		for _, c := range []byte(v.String()) {
			h.mix(uint64(c))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.mix(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.mix(v.Uint())
	case reflect.Bool:
		if v.Bool() {
			h.mix(7)
		}
	case reflect.Func:
		h.mix(uint64(v.Pointer()))
	}
}
