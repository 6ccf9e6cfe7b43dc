package main

import (
	"bytes"
	"io"
	"reflect"
	ui "uniswap-simulator/uint256"
)

func newReader(b []byte) io.Reader { return bytes.NewReader(b) }

// keeper remembers values and notices when one of them changes.
type keeper struct {
	ptr  []*ui.Int
	copy []ui.Int
}

func (k *keeper) add(x *ui.Int) {
	if x != nil {
		k.ptr = append(k.ptr, x)
		k.copy = append(k.copy, *x)
	}
}
func (k *keeper) trim(n int) {
	if len(k.ptr) > n {
		k.ptr = append([]*ui.Int{}, k.ptr[len(k.ptr)-n:]...)
		k.copy = append([]ui.Int{}, k.copy[len(k.copy)-n:]...)
	}
}
func (k *keeper) kept() bool {
	for i, p := range k.ptr {
		if *p != k.copy[i] {
			return false
		}
	}
	return true
}
func (k *keeper) restore() {
	for i, p := range k.ptr {
		*p = k.copy[i]
	}
}

// field reads a field of a struct by name, nil if there is none of that type.
func intField(s interface{}, name string) *ui.Int {
	v := reflect.ValueOf(s)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	f := v.FieldByName(name)
	if !f.IsValid() || !f.CanInterface() {
		return nil
	}
	x, _ := f.Interface().(*ui.Int)
	return x
}
