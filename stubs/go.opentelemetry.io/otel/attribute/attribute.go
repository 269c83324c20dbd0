// Package attribute is a minimal offline stand-in for go.opentelemetry.io/otel/attribute.
package attribute

import "fmt"

type Type int

const (
	INVALID Type = iota
	EMPTY
	BOOL
	INT64
	FLOAT64
	STRING
	BOOLSLICE
	INT64SLICE
	FLOAT64SLICE
	STRINGSLICE
	BYTESLICE
	SLICE
	MAP
)

type Key string

type Value struct {
	vtype Type
	v     any
}

func (v Value) Type() Type                { return v.vtype }
func (v Value) AsInterface() any          { return v.v }
func (v Value) AsString() string          { s, _ := v.v.(string); return s }
func (v Value) AsBool() bool              { s, _ := v.v.(bool); return s }
func (v Value) AsInt64() int64            { s, _ := v.v.(int64); return s }
func (v Value) AsFloat64() float64        { s, _ := v.v.(float64); return s }
func (v Value) AsStringSlice() []string   { s, _ := v.v.([]string); return s }
func (v Value) AsBoolSlice() []bool       { s, _ := v.v.([]bool); return s }
func (v Value) AsInt64Slice() []int64     { s, _ := v.v.([]int64); return s }
func (v Value) AsFloat64Slice() []float64 { s, _ := v.v.([]float64); return s }
func (v Value) AsByteSlice() []byte       { s, _ := v.v.([]byte); return s }
func (v Value) AsSlice() []Value          { s, _ := v.v.([]Value); return s }
func (v Value) AsMap() []KeyValue         { s, _ := v.v.([]KeyValue); return s }
func (v Value) Emit() string              { return fmt.Sprint(v.v) }
func (v Value) String() string            { return fmt.Sprint(v.v) }

func BoolValue(v bool) Value              { return Value{BOOL, v} }
func BoolSliceValue(v []bool) Value       { return Value{BOOLSLICE, v} }
func IntValue(v int) Value                { return Value{INT64, int64(v)} }
func Int64Value(v int64) Value            { return Value{INT64, v} }
func Int64SliceValue(v []int64) Value     { return Value{INT64SLICE, v} }
func Float64Value(v float64) Value        { return Value{FLOAT64, v} }
func Float64SliceValue(v []float64) Value { return Value{FLOAT64SLICE, v} }
func StringValue(v string) Value          { return Value{STRING, v} }
func StringSliceValue(v []string) Value   { return Value{STRINGSLICE, v} }
func ByteSliceValue(v []byte) Value       { return Value{BYTESLICE, v} }
func SliceValue(v ...Value) Value         { return Value{SLICE, v} }
func MapValue(v ...KeyValue) Value        { return Value{MAP, v} }
func IntSliceValue(v []int) Value {
	o := make([]int64, len(v))
	for i := range v {
		o[i] = int64(v[i])
	}
	return Value{INT64SLICE, o}
}

type KeyValue struct {
	Key   Key
	Value Value
}

func (kv KeyValue) Valid() bool { return kv.Key != "" && kv.Value.vtype != INVALID }

func (k Key) Bool(v bool) KeyValue              { return KeyValue{k, BoolValue(v)} }
func (k Key) BoolSlice(v []bool) KeyValue       { return KeyValue{k, BoolSliceValue(v)} }
func (k Key) Int(v int) KeyValue                { return KeyValue{k, IntValue(v)} }
func (k Key) IntSlice(v []int) KeyValue         { return KeyValue{k, IntSliceValue(v)} }
func (k Key) Int64(v int64) KeyValue            { return KeyValue{k, Int64Value(v)} }
func (k Key) Int64Slice(v []int64) KeyValue     { return KeyValue{k, Int64SliceValue(v)} }
func (k Key) Float64(v float64) KeyValue        { return KeyValue{k, Float64Value(v)} }
func (k Key) Float64Slice(v []float64) KeyValue { return KeyValue{k, Float64SliceValue(v)} }
func (k Key) String(v string) KeyValue          { return KeyValue{k, StringValue(v)} }
func (k Key) StringSlice(v []string) KeyValue   { return KeyValue{k, StringSliceValue(v)} }
func (k Key) Defined() bool                     { return k != "" }

func Bool(k string, v bool) KeyValue              { return Key(k).Bool(v) }
func BoolSlice(k string, v []bool) KeyValue       { return Key(k).BoolSlice(v) }
func Int(k string, v int) KeyValue                { return Key(k).Int(v) }
func IntSlice(k string, v []int) KeyValue         { return Key(k).IntSlice(v) }
func Int64(k string, v int64) KeyValue            { return Key(k).Int64(v) }
func Int64Slice(k string, v []int64) KeyValue     { return Key(k).Int64Slice(v) }
func Float64(k string, v float64) KeyValue        { return Key(k).Float64(v) }
func Float64Slice(k string, v []float64) KeyValue { return Key(k).Float64Slice(v) }
func String(k, v string) KeyValue                 { return Key(k).String(v) }
func StringSlice(k string, v []string) KeyValue   { return Key(k).StringSlice(v) }
func Stringer(k string, v fmt.Stringer) KeyValue  { return Key(k).String(v.String()) }

type Distinct struct{ s string }
type Filter func(KeyValue) bool
type Set struct{ kvs []KeyValue }

func EmptySet() *Set             { return &Set{} }
func NewSet(kvs ...KeyValue) Set { return Set{append([]KeyValue(nil), kvs...)} }
func (s *Set) Len() int          { return len(s.kvs) }
func (s *Set) Get(i int) (KeyValue, bool) {
	if i < 0 || i >= len(s.kvs) {
		return KeyValue{}, false
	}
	return s.kvs[i], true
}
func (s *Set) Value(k Key) (Value, bool) {
	for _, kv := range s.kvs {
		if kv.Key == k {
			return kv.Value, true
		}
	}
	return Value{}, false
}
func (s *Set) HasValue(k Key) bool  { _, ok := s.Value(k); return ok }
func (s *Set) ToSlice() []KeyValue  { return s.kvs }
func (s *Set) Iter() Iterator       { return Iterator{s: s, i: -1} }
func (s *Set) Equivalent() Distinct { return Distinct{fmt.Sprint(s.kvs)} }
func (s *Set) Equals(o *Set) bool   { return s.Equivalent() == o.Equivalent() }
func (s *Set) Filter(f Filter) (Set, []KeyValue) {
	var a, b []KeyValue
	for _, kv := range s.kvs {
		if f(kv) {
			a = append(a, kv)
		} else {
			b = append(b, kv)
		}
	}
	return Set{a}, b
}

type Iterator struct {
	s *Set
	i int
}

func (i *Iterator) Next() bool          { i.i++; return i.i < len(i.s.kvs) }
func (i *Iterator) Attribute() KeyValue { return i.s.kvs[i.i] }
func (i *Iterator) Len() int            { return len(i.s.kvs) }

type MergeIterator struct {
	kvs []KeyValue
	i   int
}

func NewMergeIterator(a, b *Set) MergeIterator {
	var out []KeyValue
	if a != nil {
		out = append(out, a.kvs...)
	}
	if b != nil {
		for _, kv := range b.kvs {
			if a == nil || !a.HasValue(kv.Key) {
				out = append(out, kv)
			}
		}
	}
	return MergeIterator{out, -1}
}
func (m *MergeIterator) Next() bool          { m.i++; return m.i < len(m.kvs) }
func (m *MergeIterator) Attribute() KeyValue { return m.kvs[m.i] }
