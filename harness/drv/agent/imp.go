package main

import (
	"reflect"

	_ "github.com/scouter-contrib/scouter-agent-golang/scouterx"
)

// fieldsOf lists the exported scalar fields of the configuration.
func fieldsOf(c interface{}) M {
	r := M{}
	v := reflect.ValueOf(c).Elem()
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		switch f.Type.Kind() {
		case reflect.Int, reflect.Int32, reflect.Int64:
			r[f.Name] = v.Field(i).Int()
		case reflect.Bool:
			r[f.Name] = v.Field(i).Bool()
		case reflect.String:
			r[f.Name] = v.Field(i).String()
		}
	}
	return r
}
