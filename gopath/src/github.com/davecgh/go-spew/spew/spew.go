// Package spew is an offline stand-in for github.com/davecgh/go-spew/spew.
// It belongs to the harness.
package spew

import (
	"fmt"
	"io"
	"os"
)

func Fdump(w io.Writer, a ...interface{}) {
	for _, v := range a {
		fmt.Fprintf(w, "(%T) %+v\n", v, v)
	}
}
func Dump(a ...interface{}) { Fdump(os.Stdout, a...) }
func Sdump(a ...interface{}) (s string) {
	for _, v := range a {
		s += fmt.Sprintf("(%T) %+v\n", v, v)
	}
	return s
}
func Printf(f string, a ...interface{}) (int, error) { return fmt.Printf(f, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Println(a...) }
func Sprint(a ...interface{}) string                 { return fmt.Sprint(a...) }
func Sprintf(f string, a ...interface{}) string      { return fmt.Sprintf(f, a...) }
