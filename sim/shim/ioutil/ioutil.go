//go:build go1.25

// Package ioutil replaces package io/ioutil (see shim/os).
package ioutil

//shim:base io/ioutil

import (
	"io/fs"
	"sort"

	"github.com/mutecomm/mute/zzverif/shim/os"
)

// ReadFile replaces ioutil.ReadFile.
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

// WriteFile replaces ioutil.WriteFile.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}

// ReadDir replaces ioutil.ReadDir.
func ReadDir(name string) ([]fs.FileInfo, error) {
	d, err := os.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range d {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, fi)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}

// TempFile replaces ioutil.TempFile.
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
