// Package show prints values with all they point to.
package show

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Value prints v with what its pointers point to.
func Value(v interface{}) string { return show(reflect.ValueOf(&v)) }

func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return show(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%q", v.Bytes())
		}
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, show(v.Index(i)))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, show(k)+":"+show(v.MapIndex(k)))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, " ") + "}"
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			// unexported fields cannot be read as a time, but their numbers can
			return fmt.Sprint(v.Field(0).Uint(), v.Field(1).Int())
		}
		var l []string
		for i := 0; i < v.NumField(); i++ {
			l = append(l, v.Type().Field(i).Name+":"+show(v.Field(i)))
		}
		return "{" + strings.Join(l, " ") + "}"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Func, reflect.Chan:
		return v.Kind().String()
	}
	return fmt.Sprint(v)
}
