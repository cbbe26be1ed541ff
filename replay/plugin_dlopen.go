//go:build (linux && cgo) || (darwin && cgo) || (freebsd && cgo)

package plugin

import "errors"

// FakeOpen stands in for the dynamic linker while contracts are replayed.
var FakeOpen func(path string) (pluginpath string, syms map[string]any, err error)

func open(name string) (*Plugin, error) {
	if FakeOpen == nil {
		return nil, errors.New("no stand-in")
	}
	pp, s, err := FakeOpen(name)
	if err != nil {
		return nil, err
	}
	return &Plugin{pluginpath: pp, syms: s}, nil
}

func lookup(p *Plugin, symName string) (Symbol, error) {
	if s, ok := p.syms[symName]; ok {
		return s, nil
	}
	return nil, errors.New("plugin: symbol " + symName + " not found in plugin " + p.pluginpath)
}
