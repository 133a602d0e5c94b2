package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

// dump writes a tree so that equal trees, and only those, give equal text. Pointers are followed,
// empty lists, absent options and unset fields are left out.
func dump(v any) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(v))
	return b.String()
}

func dumpValue(b *strings.Builder, v reflect.Value) bool {
	if !v.IsValid() {
		return false
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return false
		}
	}
	if m := v.MethodByName("Deconstruct"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 2 {
		out := m.Call(nil)
		if out[1].Kind() == reflect.Bool && !out[1].Bool() {
			return false
		}
		b.WriteString("some ")
		if !dumpValue(b, out[0]) {
			b.WriteString("nothing")
		}
		return true
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		return dumpValue(b, v.Elem())
	case reflect.Struct:
		t := v.Type()
		b.WriteString(t.Name())
		b.WriteByte('{')
		for i := 0; i < t.NumField(); i++ {
			var f strings.Builder
			if dumpValue(&f, v.Field(i)) {
				fmt.Fprintf(b, "%s:%s ", t.Field(i).Name, f.String())
			}
		}
		b.WriteByte('}')
		return true
	case reflect.Slice:
		if v.Len() == 0 {
			return false
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if !dumpValue(b, v.Index(i)) {
				b.WriteString("nothing")
			}
			b.WriteByte(' ')
		}
		b.WriteByte(']')
		return true
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		if math.IsNaN(v.Float()) {
			b.WriteString("nan") // which one is C18's business
			return true
		}
		fmt.Fprintf(b, "%v:%x", v.Kind(), math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	default:
		fmt.Fprintf(b, "%v", v.Kind())
	}
	return true
}
