package main

import (
	"fmt"
	"reflect"
	"strings"
)

// dump writes a tree so that equal trees, and only those, give equal text. Pointers are followed,
// empty lists, absent options and unset fields are left out, and so is the % in front of a name.
func dump(v any) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(v))
	return b.String()
}

func dumpValue(b *strings.Builder, v reflect.Value) bool {
	if !v.IsValid() {
		return false
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return false
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.NumMethod() > 0 {
			if m := v.MethodByName("Deconstruct"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 2 {
				out := m.Call(nil)
				if out[1].Kind() == reflect.Bool && !out[1].Bool() {
					return false
				}
				b.WriteString("some ")
				if !dumpValue(b, out[0]) {
					b.WriteString("nothing")
				}
				return true
			}
		}
		return dumpValue(b, v.Elem())
	case reflect.Struct:
		t := v.Type()
		name := t.Name()
		empty := true
		var in strings.Builder
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if name == "Method" && f.Name == "ID" {
				continue // the name is that of the function
			}
			var x strings.Builder
			if dumpValue(&x, v.Field(i)) {
				empty = false
				fmt.Fprintf(&in, "%s:%s ", f.Name, x.String())
			}
		}
		if empty && (name == "" || name == "ResultList") {
			return false
		}
		if empty && name == "AstItem" {
			b.WriteString("nothing")
			return true
		}
		fmt.Fprintf(b, "%s{%s}", name, in.String())
		return true
	case reflect.Slice:
		if v.Len() == 0 {
			return false
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if !dumpValue(b, v.Index(i)) {
				b.WriteString("nothing")
			}
			b.WriteByte(' ')
		}
		b.WriteByte(']')
		return true
	case reflect.String:
		s := v.String()
		if s == "" {
			return false
		}
		fmt.Fprintf(b, "%q", strings.TrimPrefix(s, "%"))
	case reflect.Uint64:
		fmt.Fprintf(b, "%d", v.Uint())
	default:
		fmt.Fprintf(b, "%v", v)
	}
	return true
}

// difference names the first node that differs.
func difference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i
	for j > 0 && a[j-1] != '{' && a[j-1] != ' ' && a[j-1] != '[' {
		j--
	}
	k := j
	for k < len(a) && (isLower(a[k]) || isUpper(a[k])) {
		k++
	}
	if a[j:k] == "" {
		return "text"
	}
	return a[j:k]
}
