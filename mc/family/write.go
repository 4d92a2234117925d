package family

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

func init() {
	cdf.SetLogLevel(0)
	hdf5.SetLogLevel(0)
}

// Fill makes the writer calls for a content.
func Fill(w api.Writer, g *model.Group) (calls int, err error) {
	if g.Attrs != nil {
		calls++
		if err := w.AddAttributes(model.AttrMap(g.Attrs)); err != nil {
			return calls, fmt.Errorf("AddAttributes: %w", err)
		}
	}
	for _, v := range g.Vars {
		calls++
		if err := w.AddVar(v.Name, v.APIVar()); err != nil {
			return calls, fmt.Errorf("AddVar %q: %w", v.Name, err)
		}
	}
	for _, s := range g.Groups {
		calls++
		sw, err := w.CreateGroup(s.Name)
		if err != nil {
			return calls, fmt.Errorf("CreateGroup %q: %w", s.Name, err)
		}
		n, err := Fill(sw, s)
		calls += n
		if err != nil {
			return calls, err
		}
		if err := sw.Close(); err != nil {
			return calls, fmt.Errorf("group Close: %w", err)
		}
	}
	return calls, nil
}

// Write writes a content with the library's writer; problems are returned as text.
func Write(path string, kind netcdf.FileKind, g *model.Group) (calls int, problem string) {
	var err error
	p := obs.Safe(func() {
		var w api.Writer
		w, err = netcdf.OpenWriter(path, kind)
		if err != nil {
			return
		}
		calls, err = Fill(w, g)
		err2 := w.Close()
		calls += 2
		if err == nil && err2 != nil {
			err = fmt.Errorf("Close: %w", err2)
		}
	})
	if p != "" {
		return calls, p
	}
	if err != nil {
		return calls, err.Error()
	}
	return calls, ""
}

// Bytes writes a content into dir and returns the file's bytes.
func Bytes(dir string, kind netcdf.FileKind, g *model.Group) ([]byte, int, string) {
	path := filepath.Join(dir, "w.nc")
	n, p := Write(path, kind, g)
	if p != "" {
		return nil, n, p
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, n, err.Error()
	}
	return b, n, ""
}
