// Package resource is a stand-in for github.com/anacrolix/missinggo/v2/resource, which is not available here.
package resource

import (
	"io"
	"os"
)

type Provider interface {
	NewInstance(string) (Instance, error)
}

type Instance interface {
	Get() (io.ReadCloser, error)
	Put(io.Reader) error
	Stat() (os.FileInfo, error)
	ReadAt([]byte, int64) (int, error)
	WriteAt([]byte, int64) (int, error)
	Delete() error
}

type DirInstance interface {
	Readdirnames() ([]string, error)
}
