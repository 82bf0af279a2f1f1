// Package vioutil is io/ioutil on top of vos.
package vioutil

import (
	"os"
	"sort"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vos"
)

func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }

func WriteFile(name string, data []byte, perm os.FileMode) error {
	return vos.WriteFile(name, data, perm)
}

func ReadDir(name string) ([]os.FileInfo, error) {
	es, err := vos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var l []os.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		l = append(l, i)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, nil
}

func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }
