package hotswap

// A small stand-in for plugin files: the content of a plugin file is a key of
// the table below, and the overlay of the standard plugin package calls
// plugin.FakeOpen.

import (
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"plugin"
	"testing"
	"testing/synctest"

	"github.com/edwingeng/hotswap/vault"
)

type demoPlugin struct {
	pinned bool
	rel    func() bool
	exp    func() interface{}
	imp    func() interface{}
	load   func(interface{}) error
	init   func(*vault.Vault) error
	free   func()
	inv    func(string, ...interface{}) (interface{}, error)
	lf     map[string]interface{}
	lt     map[string]func() interface{}
	skip   string
	extra  map[string]interface{}
}

var demoTable = map[string]*demoPlugin{}

var errDemo = errors.New("demo error")

type demo struct {
	*testing.T
	dir string
}

// put writes the file of a plugin; version distinguishes contents
func (d *demo) put(name, version string, p *demoPlugin) {
	c := name + "@" + version
	demoTable[c] = p
	if err := ioutil.WriteFile(filepath.Join(d.dir, name+".so"), []byte(c), 0644); err != nil {
		d.Fatal(err)
	}
}

func (d *demo) del(name string) { _ = os.Remove(filepath.Join(d.dir, name+".so")) }

func demoOpen(path string) (string, map[string]interface{}, error) {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return "", nil, err
	}
	p := demoTable[string(b)]
	if p == nil {
		return "", nil, errors.New("not a plugin: " + path)
	}
	m := map[string]interface{}{
		"OnLoad": func(data interface{}) error {
			if p.load != nil {
				return p.load(data)
			}
			return nil
		},
		"OnInit": func(v *vault.Vault) error {
			if p.init != nil {
				return p.init(v)
			}
			return nil
		},
		"OnFree": func() {
			if p.free != nil {
				p.free()
			}
		},
		"Export": func() interface{} {
			if p.exp != nil {
				return p.exp()
			}
			return nil
		},
		"Import": func() interface{} {
			if p.imp != nil {
				return p.imp()
			}
			return nil
		},
		"InvokeFunc": func(name string, params ...interface{}) (interface{}, error) {
			if p.inv != nil {
				return p.inv(name, params...)
			}
			return nil, nil
		},
		"Reloadable": func() bool {
			if p.rel != nil {
				return p.rel()
			}
			return !p.pinned
		},
		"HotswapLiveFuncs": func() map[string]interface{} {
			if p.lf != nil {
				return p.lf
			}
			return map[string]interface{}{}
		},
		"HotswapLiveTypes": func() map[string]func() interface{} {
			if p.lt != nil {
				return p.lt
			}
			return map[string]func() interface{}{}
		},
	}
	delete(m, p.skip)
	for k, v := range p.extra {
		m[k] = v
	}
	return string(b), m, nil
}

// run in virtual time, in a scratch directory
func runDemo(t *testing.T, f func(d *demo)) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	plugin.FakeOpen = demoOpen
	synctest.Test(t, func(t *testing.T) {
		f(&demo{t, dir})
	})
}

func (d *demo) ok(_ interface{}, err error) {
	d.Helper()
	if err != nil {
		d.Fatal(err)
	}
}

func (d *demo) fails(_ interface{}, err error) {
	d.Helper()
	if err == nil {
		d.Fatal("an error was expected")
	}
}
