//go:build go1.22 && surroundings

package main

import (
	"encoding/gob"
	"expvar"
	"fmt"
	"io"
	"mime"
	"net"
	"net/http"
	"reflect"
	"strings"
)

func init() {
	more = func(out map[string]string, fresh bool) {
		var names []string
		expvar.Do(func(v expvar.KeyValue) { names = append(names, v.Key) })
		out["the published variables"] = fmt.Sprint(names)
		out["the default handlers"] = fmt.Sprintf("%p %+v", http.DefaultServeMux, http.DefaultServeMux)
		out["the default client"] = fmt.Sprintf("%p %p %v %p %p", http.DefaultClient, http.DefaultTransport, http.DefaultClient.Timeout, net.DefaultResolver, http.NoBody)
		out["the types known to encoding/gob"] = fmt.Sprint(known(met))
		if fresh {
			return
		}
		out["the types of files"] = mime.TypeByExtension(".semnet") + mime.TypeByExtension(".html")
	}
}

// known are the types reached from the values that were registered with
// encoding/gob.
func known(values []interface{}) (out []string) {
	seen := map[reflect.Type]bool{}
	var reach func(v reflect.Value, depth int)
	reach = func(v reflect.Value, depth int) {
		if depth > 30 || !v.IsValid() {
			return
		}
		t := v.Type()
		if k := t.Kind(); k == reflect.Struct || k == reflect.Ptr {
			if seen[t] {
				return
			}
			seen[t] = true
			if !strings.Contains(t.String(), "store.") && strings.Contains(t.String(), ".") {
				err := gob.NewEncoder(io.Discard).Encode(struct{ X interface{} }{reflect.New(t).Elem().Interface()})
				if err == nil || !strings.Contains(err.Error(), "not registered") && !strings.Contains(err.Error(), "nil pointer") {
					out = append(out, t.String())
				}
			}
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			reach(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				reach(v.Field(i), depth+1)
			}
		}
	}
	for _, v := range values {
		reach(reflect.ValueOf(v), 0)
	}
	return
}
