package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// dump writes everything that the exported fields of a value reach. It tells
// two values apart exactly if a user of the package can.
func dump(v interface{}) string {
	var sb strings.Builder
	dumpTo(&sb, reflect.ValueOf(v), 0, nil)
	return sb.String()
}

// dumpSkip is dump without the fields for which skip says so.
func dumpSkip(v interface{}, skip func(t reflect.Type, f reflect.StructField) bool) string {
	var sb strings.Builder
	dumpTo(&sb, reflect.ValueOf(v), 0, skip)
	return sb.String()
}

func dumpTo(sb *strings.Builder, v reflect.Value, depth int, skip func(t reflect.Type, f reflect.StructField) bool) {
	if depth > 200 {
		sb.WriteString("<too deep>")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			sb.WriteString("(" + v.Elem().Type().String() + ")")
		}
		dumpTo(sb, v.Elem(), depth+1, skip)
	case reflect.Struct:
		t := v.Type()
		sb.WriteString("{")
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || (skip != nil && skip(t, f)) {
				continue
			}
			fv := v.Field(i)
			if fv.IsZero() || ((fv.Kind() == reflect.Slice || fv.Kind() == reflect.Map) && fv.Len() == 0) {
				continue
			}
			if skip != nil && fv.Kind() == reflect.Struct {
				var in strings.Builder
				if dumpTo(&in, fv, depth+1, skip); in.String() == "{}" {
					continue
				}
			}
			sb.WriteString("\n" + strings.Repeat(" ", depth) + f.Name + ": ")
			dumpTo(sb, fv, depth+1, skip)
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			sb.WriteString("\n" + strings.Repeat(" ", depth) + "#" + strconv.Itoa(i) + " ")
			dumpTo(sb, v.Index(i), depth+1, skip)
		}
		sb.WriteString("]")
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	default:
		sb.WriteString(fmt.Sprint(v.Interface()))
	}
}

// firstDiff shows where two dumps part.
func firstDiff(a, b string) string {
	if a == b {
		return ""
	}
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; ; i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			ctx := ""
			for j := i - 6; j < i; j++ {
				if j >= 0 {
					ctx += strings.TrimSpace(la[j]) + " | "
				}
			}
			return fmt.Sprintf("at line %d after [%s]: %s  ->  %s", i, short(ctx), short(x), short(y))
		}
	}
}
