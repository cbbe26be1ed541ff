"""Planted bugs: what is changed, and a demonstration."""
SEEDS = {}

M, SW, PL, ST = "pluginManager.go", "pluginManagerSwapper.go", "plugin.go", "staticPlugin.go"


def seed(sid, prop, edits, demo, needs, breaks, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw)


seed("counter-empty", "C01", [(SW, "	if err == nil {\n		atomic.AddInt64", "	if err == nil && len(details) > 0 {\n		atomic.AddInt64")], """
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.Reload(nil))
if n := sw.ReloadCounter(); n != 1 {
	d.Fatalf("counter %d", n)
}
""", "a reload that finds no plugin", "the reload counter does not grow although the reload returned no error")

seed("extra-late", "C01", [(SW, "	if err := invokeReloadCallbacks(cbs, newManager, oldManager); err != nil {\n		return nil, err\n	}\n\n	result := make",
     "	if len(cbs) > 1 {\n		sw.current.Store(newManager)\n	}\n	if err := invokeReloadCallbacks(cbs, newManager, oldManager); err != nil {\n		return nil, err\n	}\n\n	result := make")], """
d.put("a", "1", &demoPlugin{})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
old := sw.Current()
d.fails(sw.ReloadWithCallback(nil, func(n, o *PluginManager) error { return errDemo }))
if sw.Current() != old {
	d.Fatal("a rejected manager is current")
}
time.Sleep(time.Hour)
""", "a reload with an extra callback that rejects", "a manager rejected by the extra callback has already been published", imports=["time"])

seed("rethrow", "C02", [(SW, "				if r := recover(); r != nil {\n					err = fmt", "				if r := recover(); r != nil {\n					if _, ok := r.(interface{ RuntimeError() }); ok {\n						panic(r) // a bug of the host, do not hide it\n					}\n					err = fmt")], """
d.put("a", "1", &demoPlugin{})
var m map[string]int
sw := NewPluginManagerSwapper(d.dir, WithReloadCallback(func(n, o *PluginManager) error { m["x"] = 1; return nil }))
defer func() {
	if r := recover(); r != nil {
		d.Fatal("the panic reached the host")
	}
}()
d.fails(sw.LoadPlugins(nil))
""", "a reload callback that panics with a runtime error", "the panic propagates to the host")

seed("load-goon", "C03", [(M, "		if err := invokeImpl(p); err != nil {\n			return err\n		}\n	}\n\n	return nil\n}\n\nfunc (pm *PluginManager) invokeEveryOnInit",
     "		if e := invokeImpl(p); e != nil && err == nil {\n			err = e\n		}\n	}\n\n	return err\n}\n\nfunc (pm *PluginManager) invokeEveryOnInit"),
     (M, "invokeEveryOnLoad(data interface{}) error {", "invokeEveryOnLoad(data interface{}) (err error) {")], """
n := 0
d.put("a", "1", &demoPlugin{load: func(interface{}) error { n++; return errDemo }})
d.put("b", "1", &demoPlugin{load: func(interface{}) error { n++; return errDemo }})
sw := NewPluginManagerSwapper(d.dir)
d.fails(sw.LoadPlugins(nil))
if n != 1 {
	d.Fatalf("OnLoad called %d times", n)
}
""", "OnLoad of a plugin that is not the last fails", "OnLoad of later plugins runs although the load has already failed")

seed("order-last", "C04", [(M, "				if _, ok := m[dep]; ok {\n					counter++\n				} else {\n					break\n				}", "				if _, ok := m[dep]; ok {\n					counter = len(p.Deps)\n				} else {\n					counter = 0\n				}")], """
type imp struct{ B, C interface{} }
type impB struct{ C interface{} }
type impD struct{ A, C interface{} }
_ = imp{}
// d depends on z (which depends on c) and c
d.put("c", "1", &demoPlugin{})
d.put("z", "1", &demoPlugin{imp: func() interface{} { return &impB{} }})
type impZ struct{ Z, C interface{} }
d.put("d", "1", &demoPlugin{imp: func() interface{} { return &impZ{} }})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
s := ""
for _, p := range sw.Current().Plugins() {
	s += p.Name
}
if s != "czd" {
	d.Fatal(s)
}
""", "a plugin with two dependencies of which the last is placed before the first, and a name sorting before the first's", "a plugin stands before one of its dependencies")

seed("shared-leaf", "C05", [(M, "	visited[p] = struct{}{}\n	defer func() {", "	visited[p] = struct{}{}\n	if len(p.Deps) == 0 {\n		return nil\n	}\n	defer func() {")], """
type impB struct{ D interface{} }
type impA struct{ B, C interface{} }
d.put("d", "1", &demoPlugin{})
d.put("b", "1", &demoPlugin{imp: func() interface{} { return &impB{} }})
d.put("c", "1", &demoPlugin{imp: func() interface{} { return &impB{} }})
d.put("a", "1", &demoPlugin{imp: func() interface{} { return &impA{} }})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
""", "a dependency without dependencies that is reachable on two paths from one plugin", "an acyclic graph is rejected as cyclic")

seed("nil-export", "C06", [(M, "				p.Deps = append(p.Deps, dep.Name)\n				continue", "				continue")], """
type imp struct{ Z interface{} }
d.put("z", "1", &demoPlugin{})
d.put("a", "1", &demoPlugin{imp: func() interface{} { return &imp{} }})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
if x := sw.Current().FindPlugin("a").Deps; len(x) != 1 || x[0] != "z" {
	d.Fatal(x)
}
""", "an import from a plugin that exports nothing", "the dependency is not recorded")

seed("first-dep", "C07", [(M, "dep.Name, p.Name)\n				}\n			}\n		}\n	}\n\n	pm.orderPlugins()", "dep.Name, p.Name)\n				} else if dep.Note == \"unchanged\" {\n					break\n				}\n			}\n		}\n	}\n\n	pm.orderPlugins()")], """
type imp struct{ X, Y interface{} }
d.put("x", "1", &demoPlugin{})
d.put("y", "1", &demoPlugin{})
d.put("a", "1", &demoPlugin{imp: func() interface{} { return &imp{} }})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
d.put("y", "2", &demoPlugin{})
d.fails(sw.Reload(nil))
""", "an unchanged plugin with two dependencies, of which only the second was rebuilt", "a carried-over plugin stays bound to a replaced dependency")

seed("same-path", "C08", [(M, "			if info.fileSha1 == oldP.FileSha1 {", "			if info.fileSha1 == oldP.FileSha1 && info.file == oldP.File {")], """
d.put("x", "1", &demoPlugin{})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
dir2, err := ioutil.TempDir("", "demo")
if err != nil {
	d.Fatal(err)
}
defer os.RemoveAll(dir2)
d.dir = dir2
d.put("x", "1", &demoPlugin{})
sw.ResetPluginDir(dir2)
d.ok(sw.Reload(nil))
if n := sw.Current().FindPlugin("x").Note; n != "unchanged" {
	d.Fatalf("%q", n)
}
time.Sleep(time.Hour)
""", "a reload from another directory that holds an identical plugin file", "a plugin with identical content is loaded afresh", imports=["io/ioutil", "os", "time"])

seed("one-ref", "C09", [(M, "	newP.Refs.Inc()\n", "	if !oldP.unchanged {\n		newP.Refs.Inc()\n	}\n")], """
freed := false
d.put("x", "1", &demoPlugin{free: func() { freed = true }})
d.put("y", "1", &demoPlugin{})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
for _, v := range []string{"2", "3", "4"} {
	d.put("y", v, &demoPlugin{})
	d.ok(sw.Reload(nil))
	time.Sleep(time.Hour)
}
if freed {
	d.Fatal("OnFree of a plugin in use")
}
""", "a plugin carried over by two successive reloads whose old managers are released", "OnFree runs while the current manager still contains the plugin", imports=["time"])

seed("early-release", "C10", [(SW, "	if err := invokeReloadCallbacks(cbs, newManager, oldManager); err != nil {\n		return nil, err\n	}\n\n	result := make", "	retired := sw.retire(oldManager)\n	if err := invokeReloadCallbacks(cbs, newManager, oldManager); err != nil {\n		return nil, err\n	}\n	_ = retired\n\n	result := make"),
     (SW, """	if oldManager != nil {
		go func() {
			delay := minFreeDelay
			if minFreeDelay < sw.opts.freeDelay {
				delay = sw.opts.freeDelay
			}
			time.Sleep(delay)
			oldManager.invokeEveryOnFree()
		}()
	}
""", ""),
     (SW, "func invokeReloadCallbacks(", """func (sw *PluginManagerSwapper) retire(oldManager *PluginManager) bool {
	if oldManager == nil {
		return false
	}
	go func() {
		delay := minFreeDelay
		if minFreeDelay < sw.opts.freeDelay {
			delay = sw.opts.freeDelay
		}
		time.Sleep(delay)
		oldManager.invokeEveryOnFree()
	}()
	return true
}

func invokeReloadCallbacks(""")], """
freed := false
d.put("x", "1", &demoPlugin{free: func() { freed = true }})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
d.put("x", "2", &demoPlugin{})
d.fails(sw.ReloadWithCallback(nil, func(n, o *PluginManager) error { return errDemo }))
time.Sleep(time.Hour)
if freed {
	d.Fatal("the current manager was released")
}
""", "a reload rejected by a callback, and the free delay passing", "the manager that stays current is released", imports=["time"])

seed("types-carried", "C11", [(M, "		liveTypes := p.hotswapLiveTypes()\n", "		if p.unchanged && len(p.Deps) > 0 {\n			continue // registered before\n		}\n		liveTypes := p.hotswapLiveTypes()\n")], """
type imp struct{ Z interface{} }
d.put("z", "1", &demoPlugin{})
d.put("y", "1", &demoPlugin{})
d.put("a", "1", &demoPlugin{imp: func() interface{} { return &imp{} }, lt: map[string]func() interface{}{"live_T": func() interface{} { return 1 }}})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
d.put("y", "2", &demoPlugin{})
d.ok(sw.Reload(nil))
if len(sw.Current().LiveTypes) != 1 {
	d.Fatal(sw.Current().LiveTypes)
}
time.Sleep(time.Hour)
""", "a reload that carries over a plugin with dependencies and live types", "its live types are missing from the new vault", imports=["time"])

seed("one-recover", "C12", [(M, """	all := pm.Plugins()
	for i := len(all) - 1; i >= 0; i-- {
		invokeImpl(all[i])
	}
}

type fileInfo struct""", """	all := pm.Plugins()
	defer func() {
		if r := recover(); r != nil {
			pm.Errorf("<hotswap> panic: %+v\\n%s", r, debug.Stack())
		}
	}()
	for i := len(all) - 1; i >= 0; i-- {
		invokeImpl(all[i])
	}
}

type fileInfo struct"""), (M, """func (pm *PluginManager) InvokeEachBackward(name string, params ...interface{}) {
	invokeImpl := func(p *Plugin) {
		defer func() {
			if r := recover(); r != nil {
				pm.Errorf("<hotswap:%s> panic: %+v\\n%s", p.Name, r, debug.Stack())
			}
		}()
""", """func (pm *PluginManager) InvokeEachBackward(name string, params ...interface{}) {
	invokeImpl := func(p *Plugin) {
""")], """
n := 0
f := func(string, ...interface{}) (interface{}, error) { n++; panic(1) }
d.put("a", "1", &demoPlugin{inv: f})
d.put("b", "1", &demoPlugin{inv: f})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
sw.Current().InvokeEachBackward("x")
if n != 2 {
	d.Fatal(n)
}
""", "a plugin other than the first panics during a backward fan-out", "the remaining plugins are not called")

seed("ext-middle", "C13", [(SW, "strings.HasSuffix(fi.Name(), hutils.FileNameExt)", "strings.Contains(fi.Name(), hutils.FileNameExt)")], """
d.put("a", "1", &demoPlugin{})
if err := os.WriteFile(d.dir+"/a.so.bak", []byte("x"), 0644); err != nil {
	d.Fatal(err)
}
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
""", "a file with the extension inside its name", "a file without the plugin extension is loaded", imports=["os"])

seed("ptr-first", "C14", [(PL, """	case symTyp.AssignableTo(eleTyp):
		ele.Set(symVal)
		return nil
	case symTyp.Kind() == reflect.Ptr && symTyp.Elem().AssignableTo(eleTyp):
		ele.Set(symVal.Elem())
		return nil
""", """	case symTyp.Kind() == reflect.Ptr && symTyp.Elem().AssignableTo(eleTyp):
		ele.Set(symVal.Elem())
		return nil
	case symTyp.AssignableTo(eleTyp):
		ele.Set(symVal)
		return nil
""")], """
v := 7
d.put("a", "1", &demoPlugin{extra: map[string]interface{}{"V": &v}})
sw := NewPluginManagerSwapper(d.dir)
d.ok(sw.LoadPlugins(nil))
var out interface{}
if err := sw.Current().FindPlugin("a").Lookup("V", &out); err != nil {
	d.Fatal(err)
}
if out != interface{}(&v) {
	d.Fatalf("%T", out)
}
""", "looking up a variable into an interface target", "the variable's value is stored instead of the symbol")

seed("late-missing", "C15", [(M, """	if len(missing) > 0 {
		return fmt.Errorf("missing functions: %s", strings.Join(missing, ", "))
	}

	p.reloadable, err = p.invokeReloadable()
	if err != nil {
		return err
	}
""", """	if p.fReloadable != nil {
		p.reloadable, err = p.invokeReloadable()
		if err != nil {
			return err
		}
	}
	if len(missing) > 0 {
		return fmt.Errorf("missing functions: %s", strings.Join(missing, ", "))
	}
""")], """
called := false
d.put("a", "1", &demoPlugin{skip: "OnFree", rel: func() bool { called = true; return true }})
sw := NewPluginManagerSwapper(d.dir)
d.fails(sw.LoadPlugins(nil))
if called {
	d.Fatal("a function of an incomplete plugin was called")
}
""", "a plugin that lacks a function other than Reloadable", "Reloadable is called before the load is refused")

seed("no-defer", "C16", [(SW, "	sw.mu.Lock()\n	defer sw.mu.Unlock()\n	cbs := []ReloadCallback{sw.opts.reloadCallback}\n	if extra", "	sw.mu.Lock()\n	cbs := []ReloadCallback{sw.opts.reloadCallback}\n	if extra"),
     (SW, "	details, err := sw.loadPluginsImpl(data, cbs)\n	if err == nil {\n", "	details, err := sw.loadPluginsImpl(data, cbs)\n	sw.mu.Unlock()\n	if err == nil {\n")], """
d.put("a", "1", &demoPlugin{})
bad := true
sw := NewPluginManagerSwapper(d.dir, WithExtensionNewer(func() interface{} {
	if bad {
		panic("host")
	}
	return nil
}))
func() {
	defer func() { _ = recover() }()
	_, _ = sw.Reload(nil)
}()
bad = false
d.ok(sw.Reload(nil))
""", "the extension constructor panics during a reload", "every later load blocks forever")

seed("empty-static", "C17", [(SW, "	if sw.staticPlugins != nil {\n		return nil, errors.New", "	if len(sw.staticPlugins) != 0 {\n		return nil, errors.New")], """
d.put("a", "1", &demoPlugin{})
sw := NewPluginManagerSwapper(d.dir, WithStaticPlugins(map[string]*StaticPlugin{}))
d.ok(sw.LoadPlugins(nil))
d.fails(sw.Reload(nil))
""", "an empty, non-nil set of static plugins", "a reload is carried out in static linking mode")
