// Package simioutil replaces io/ioutil.
package simioutil

import (
	"io"
	"io/fs"

	"github.com/Harvey-OS/ninep/sim/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)              { return simos.ReadFile(name) }
func WriteFile(n string, d []byte, m fs.FileMode) error { return simos.WriteFile(n, d, m) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := simos.ReadDir(name)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func TempDir(dir, pattern string) (string, error)       { return simos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
