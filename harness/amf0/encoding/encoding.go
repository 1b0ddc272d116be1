// Package encoding is the struct (un)marshalling part of the stand-in.
package encoding

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/WatchBeam/amf0"
)

var amfType = reflect.TypeOf((*amf0.AmfType)(nil)).Elem()

// Marshal encodes the fields of the struct v points to, in order, blank
// fields included. A nil pointer is encoded as null.
func Marshal(v interface{}) ([]byte, error) {
	rv := reflect.Indirect(reflect.ValueOf(v))
	if rv.Kind() != reflect.Struct {
		return nil, fmt.Errorf("amf0/encoding: cannot marshal %T", v)
	}
	buf := new(bytes.Buffer)
	for i := 0; i < rv.NumField(); i++ {
		a, err := toAmf(rv.Field(i))
		if err != nil {
			return nil, err
		}
		if _, err := a.Encode(buf); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), nil
}

func toAmf(f reflect.Value) (amf0.AmfType, error) {
	switch f.Kind() {
	case reflect.Ptr, reflect.Interface:
		if f.IsNil() {
			return new(amf0.Null), nil
		}
		if f.Type().Implements(amfType) && f.CanInterface() {
			return f.Interface().(amf0.AmfType), nil
		}
		return toAmf(f.Elem())
	case reflect.String:
		if f.Len() > 0xffff {
			return amf0.NewLongString(f.String()), nil
		}
		return amf0.NewString(f.String()), nil
	case reflect.Float64, reflect.Float32:
		return amf0.NewNumber(f.Float()), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return amf0.NewNumber(float64(f.Int())), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return amf0.NewNumber(float64(f.Uint())), nil
	case reflect.Bool:
		return amf0.NewBool(f.Bool()), nil
	case reflect.Struct:
		if reflect.PtrTo(f.Type()).Implements(amfType) && f.CanInterface() {
			p := reflect.New(f.Type())
			p.Elem().Set(f)
			return p.Interface().(amf0.AmfType), nil
		}
	}
	return nil, fmt.Errorf("amf0/encoding: cannot marshal field of type %v", f.Type())
}

// Unmarshal reads one value per field of the struct dest points to. A null
// leaves a pointer field as it is.
func Unmarshal(r io.Reader, dest interface{}) error {
	rv := reflect.ValueOf(dest)
	if rv.Kind() != reflect.Ptr || rv.Elem().Kind() != reflect.Struct {
		return fmt.Errorf("amf0/encoding: cannot unmarshal into %T", dest)
	}
	rv = rv.Elem()
	for i := 0; i < rv.NumField(); i++ {
		v, err := amf0.Decode(r)
		if err != nil {
			return err
		}
		if err := assign(rv.Field(i), rv.Type().Field(i).Name, v); err != nil {
			return err
		}
	}
	return nil
}

func assign(f reflect.Value, name string, v amf0.AmfType) error {
	if f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface {
		switch v.(type) {
		case *amf0.Null, *amf0.Undefined:
			return nil
		}
	}
	if !f.CanSet() {
		return nil
	}
	rv := reflect.ValueOf(v)
	if rv.Type().AssignableTo(f.Type()) {
		f.Set(rv)
		return nil
	}
	if rv.Elem().Type() == f.Type() {
		f.Set(rv.Elem())
		return nil
	}
	switch v := v.(type) {
	case *amf0.String:
		if f.Kind() == reflect.String {
			f.SetString(string(*v))
			return nil
		}
	case *amf0.LongString:
		if f.Kind() == reflect.String {
			f.SetString(string(*v))
			return nil
		}
	case *amf0.Boolean:
		if f.Kind() == reflect.Bool {
			f.SetBool(bool(*v))
			return nil
		}
	case *amf0.Number:
		switch f.Kind() {
		case reflect.Float64, reflect.Float32:
			f.SetFloat(float64(*v))
			return nil
		}
	}
	return fmt.Errorf("amf0/encoding: cannot assign %T to field %s", v, name)
}
