package github.com/edwingeng/hotswap

// ------------------------------------------------------------------ ghost state
ghost cntRel [*Plugin]int
ghost cntExp [*Plugin]int
ghost cntImp [*Plugin]int
ghost cntOnLoad [*Plugin]int
ghost cntOnInit [*Plugin]int
ghost argOnLoad [*Plugin]any
ghost argOnInit [*Plugin]ref
ghost phase int
ghost hookN int
ghost failed bool
ghost hookPanicked bool
ghost loadPanicked bool
// stages passed by the manager being built: 1 initDeps, 2 OnLoad, 3 vault, 4 OnInit; -1 after a failure or out of turn
ghost step int
ghost cbFailed bool
// where the hook sequence stood at the last publication, and how many publications there were
ghost pubHook int
ghost pubN int
ghost nfiles int
// releases: the manager and the time slept before, by the caller's goroutine and (bg...) by background goroutines
ghost inbg bool
ghost slept int
ghost bgcount int
ghost relN int
ghost relM [int]*PluginManager
ghost relAt [int]int
ghost bgrelN int
ghost bgrelM [int]*PluginManager
ghost bgrelAt [int]int

alloc Plugin: cntRel := 0
alloc Plugin: cntExp := 0
alloc Plugin: cntImp := 0
alloc Plugin: cntOnLoad := 0
alloc Plugin: cntOnInit := 0

pred valid(p *Plugin) = p != nil && p.Refs != nil && p.freeOnce != nil
pred mapOK(pm *PluginManager) = pm != nil && pm.pluginMap != nil &&
  (forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: k in pm.pluginMap ==> valid(pm.pluginMap[k]) && key(pm.pluginMap[k].Name) == k)
pred inMap(pm *PluginManager, p *Plugin) = p != nil && key(p.Name) in pm.pluginMap && pm.pluginMap[key(p.Name)] == p
pred ordIn(pm *PluginManager) = forall i int {pm.ordered[i]} :: 0 <= i < len(pm.ordered) ==> inMap(pm, pm.ordered[i])
pred ordDistinct(pm *PluginManager) = forall i int, j int {pm.ordered[i], pm.ordered[j]} :: 0 <= i < j < len(pm.ordered) ==> pm.ordered[i] != pm.ordered[j]
pred ordComplete(pm *PluginManager) = forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: k in pm.pluginMap ==>
  (exists i int {pm.ordered[i]} :: 0 <= i < len(pm.ordered) && pm.ordered[i] == pm.pluginMap[k])
pred ordDeps(pm *PluginManager) = forall i int, d int {pm.ordered[i].Deps[d]} :: 0 <= i < len(pm.ordered) && 0 <= d < len(pm.ordered[i].Deps) ==>
  (exists j int {pm.ordered[j]} :: 0 <= j < i && pm.ordered[j] == pm.pluginMap[key(pm.ordered[i].Deps[d])])
pred ordOK(pm *PluginManager) = ordIn(pm) && ordDistinct(pm) && ordComplete(pm)
// counters of a plugin
pred cnts(p *Plugin, rel int, exp int, imp int, load int, init int) =
  cntRel[p] == rel && cntExp[p] == exp && cntImp[p] == imp && cntOnLoad[p] == load && cntOnInit[p] == init
// every plugin of the manager is at this stage, carried-over ones untouched
pred stage(pm *PluginManager, rel int, exp int, imp int, load int, init int) =
  forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: k in pm.pluginMap ==>
    ite(pm.pluginMap[k].unchanged, cnts(pm.pluginMap[k], 0, 0, 0, 0, 0), cnts(pm.pluginMap[k], rel, exp, imp, load, init))
// no dependency has been recorded for the newly loaded plugins
pred noDeps(pm *PluginManager) = forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: k in pm.pluginMap && !pm.pluginMap[k].unchanged ==> cap(pm.pluginMap[k].Deps) == 0
pred mapEmpty(m map[string]*Plugin) = forall k string {k in m} :: !(k in m)
// finite sets: n distinct plugins, each the value of some key of a map with n
// entries, are all the values of the map (lemma cover, proofs/Lemmas.lean)
logic sat([int]*Plugin, int, [string]bool, [string]*Plugin) bool
axiom forall A [int]*Plugin, n int, D [string]bool, V [string]*Plugin {sat(A, n, D, V)} ::
  sat(A, n, D, V) && (setcard(D) == n && (forall i int {A[i]} :: 0 <= i < n ==> (exists k string {D[k]} :: D[k] && V[k] == A[i])) &&
   (forall i int, j int {A[i], A[j]} :: 0 <= i < j < n ==> A[i] != A[j]) ==>
   (forall k string {D[k]} {V[k]} :: D[k] ==> (exists i int {A[i]} :: 0 <= i < n && A[i] == V[k])))
pred infosOK(x fileInfoMap) = x.m != nil && (forall k string {k in x.m} {x.m[k]} :: k in x.m ==> x.m[k] != nil && key(x.m[k].name) == k)

// ------------------------------------------------------------------ plugin code
dyn PluginFuncs.fReloadable(self *Plugin) (r bool)
  requires [C03] !failed && phase <= 1 && cntRel[self] == 0 && cntExp[self] == 0
  panics
  update hookN := hookN + 1
  update cntRel[self] := cntRel[self] + 1
  update phase := 1
  onpanic failed := true
  onpanic hookPanicked := true
  onpanic loadPanicked := true

dyn PluginFuncs.fExport(self *Plugin) (r any)
  requires [C03] !failed && phase <= 1 && cntRel[self] == 1 && cntExp[self] == 0
  panics
  update hookN := hookN + 1
  update cntExp[self] := cntExp[self] + 1
  update phase := 1
  onpanic failed := true
  onpanic hookPanicked := true
  onpanic loadPanicked := true

dyn PluginFuncs.fImport(self *Plugin) (r any)
  requires [C03] !failed && phase <= 2 && cntImp[self] == 0
  panics
  update hookN := hookN + 1
  update cntImp[self] := cntImp[self] + 1
  update phase := 2
  onpanic failed := true
  onpanic hookPanicked := true
  onpanic loadPanicked := true

dyn PluginFuncs.fOnLoad(self *Plugin, data any) (err error)
  requires [C03] !failed && phase <= 3 && cntOnLoad[self] == 0
  panics
  update hookN := hookN + 1
  update cntOnLoad[self] := cntOnLoad[self] + 1
  update argOnLoad[self] := data
  update phase := 3
  onpanic failed := true
  onpanic hookPanicked := true
  onpanic loadPanicked := true
  onok failed := failed || err != nil

dyn PluginFuncs.fOnInit(self *Plugin, v *vault.Vault) (err error)
  requires [C03] !failed && phase <= 4 && cntOnInit[self] == 0
  panics
  update hookN := hookN + 1
  update cntOnInit[self] := cntOnInit[self] + 1
  update argOnInit[self] := v
  update phase := 4
  onpanic failed := true
  onpanic hookPanicked := true
  onpanic loadPanicked := true
  onok failed := failed || err != nil

dyn PluginFuncs.fOnFree(self *Plugin) ()
  panics
  update hookN := hookN + 1
  onpanic hookPanicked := true

dyn PluginFuncs.hotswapLiveFuncs(self *Plugin) (r map[string]any)
  panics
  update hookN := hookN + 1
  onpanic failed := true
  onpanic hookPanicked := true
  onpanic loadPanicked := true

dyn PluginFuncs.hotswapLiveTypes(self *Plugin) (r map[string]func())
  panics
  update hookN := hookN + 1
  onpanic failed := true
  onpanic hookPanicked := true
  onpanic loadPanicked := true

dyn PluginManager.cbOpen(p *Plugin, data any) ()
  panics
dyn PluginManager.panicTrigger(data any) ()
  panics

// ------------------------------------------------------------------ generic loop facts
// keys collected from a map while ranging over it
anyloop (keys []string, seen [string]bool): (forall i int {keys[i]} :: 0 <= i < len(keys) ==> seen[keys[i]])
anyloop (keys []string, seen [string]bool): (forall k string {seen[k]} :: seen[k] ==> (exists i int {keys[i]} :: 0 <= i < len(keys) && keys[i] == k))
anyloop (keys []string): (forall i int, j int {keys[i], keys[j]} :: 0 <= i < j < len(keys) ==> keys[i] != keys[j])

// ------------------------------------------------------------------ file infos
pred pinned(o *PluginManager, k string) = k in o.pluginMap && !o.pluginMap[k].reloadable
pred same(o *PluginManager, k string, f *fileInfo) = k in o.pluginMap && o.pluginMap[k].FileSha1 == f.fileSha1

func (x fileInfoMap) removeNotReloadable(oldManager *PluginManager) (r map[string]*fileInfo)
  requires infosOK(x)
  requires oldManager != nil ==> mapOK(oldManager)
  ensures infosOK(x)
  ensures oldManager == nil ==> r == nil && (forall k string {k in x.m} :: k in x.m <==> old(k in x.m))
  ensures oldManager != nil ==> (forall k string {k in r} {k in x.m} :: (k in r <==> old(k in x.m) && pinned(oldManager, k)) && (k in x.m <==> old(k in x.m) && !pinned(oldManager, k)))
  ensures forall k string {x.m[k]} :: x.m[k] == old(x.m[k])
  loop (r map[string]*fileInfo, seen [string]bool): forall k string {k in r} {seen[k]} :: k in r <==> seen[k] && pinned(oldManager, k)
  loop (seen [string]bool): forall k string {k in x.m} {seen[k]} :: k in x.m <==> old(k in x.m) && !(seen[k] && pinned(oldManager, k))
  loop: forall k string {x.m[k]} :: x.m[k] == old(x.m[k])

func (x fileInfoMap) removeUnchanged(oldManager *PluginManager) (r map[string]*fileInfo)
  requires infosOK(x)
  requires oldManager != nil ==> mapOK(oldManager)
  ensures infosOK(x)
  ensures oldManager == nil ==> r == nil && (forall k string {k in x.m} :: k in x.m <==> old(k in x.m))
  ensures oldManager != nil ==> (forall k string {k in r} {k in x.m} :: (k in r <==> old(k in x.m) && same(oldManager, k, x.m[k])) && (k in x.m <==> old(k in x.m) && !same(oldManager, k, x.m[k])))
  ensures forall k string {x.m[k]} :: x.m[k] == old(x.m[k])
  loop (r map[string]*fileInfo, seen [string]bool): forall k string {k in r} {seen[k]} :: k in r <==> seen[k] && same(oldManager, k, x.m[k])
  loop (seen [string]bool): forall k string {k in x.m} {seen[k]} :: k in x.m <==> old(k in x.m) && !(seen[k] && same(oldManager, k, x.m[k]))
  loop: forall k string {x.m[k]} :: x.m[k] == old(x.m[k])

func (x fileInfoMap) names() (r []string)
  requires infosOK(x)
  ensures forall i int {r[i]} :: 0 <= i < len(r) ==> key(r[i]) in x.m && x.m[key(r[i])].name == r[i]
  ensures forall i int, j int {r[i], r[j]} :: 0 <= i < j < len(r) ==> r[i] != r[j]
  ensures forall k string {k in x.m} :: k in x.m ==> (exists i int {r[i]} :: 0 <= i < len(r) && r[i] == x.m[k].name)
  ensures len(r) == 0 || fresh(arr(r))
  loop (a []string, seen [string]bool): forall i int {a[i]} :: 0 <= i < len(a) ==> seen[key(a[i])] && x.m[key(a[i])].name == a[i]
  loop (a []string, seen [string]bool): forall k string {seen[k]} :: seen[k] ==> (exists i int {a[i]} :: 0 <= i < len(a) && a[i] == x.m[k].name)
  loop (a []string): forall i int, j int {a[i], a[j]} :: 0 <= i < j < len(a) ==> a[i] != a[j]

func buildFileInfoMap(files []string) (x fileInfoMap, err error)
  ensures x.m != nil && fresh(x.m)
  ensures infosOK(x)
  ensures forall k string {k in x.m} :: k in x.m ==> fresh(x.m[k])
  loop (x fileInfoMap): infosOK(x)
  loop (x fileInfoMap): forall k string {k in x.m} :: k in x.m ==> fresh(x.m[k])

// ------------------------------------------------------------------ loading one plugin
extern "(*plugin.Plugin).Lookup" (p ref, name string) (sym any, err error)
  pure
  ensures err == nil ==> sym != nil && !isnil(sym)

func (pm *PluginManager) loadPlugin(info *fileInfo, data any) (err error)
  requires [C02] !loadPanicked
  ensures [C02] err == nil ==> !loadPanicked
  loop [C02]: !loadPanicked
  requires pm != nil && info != nil && pm.pluginMap != nil
  requires [C03] !failed && phase <= 1
  ensures err == nil ==> (forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: (k in pm.pluginMap <==> old(k in pm.pluginMap) || k == key(info.name)) && (k != key(info.name) ==> pm.pluginMap[k] == old(pm.pluginMap[k])))
  ensures err == nil ==> (let p = pm.pluginMap[key(info.name)] :: fresh(p) && valid(p) && p.Name == info.name && p.Note == "" && !p.unchanged && cap(p.Deps) == 0)
  ensures err != nil ==> (forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: (k in pm.pluginMap <==> old(k in pm.pluginMap)) && pm.pluginMap[k] == old(pm.pluginMap[k]))
  ensures_panic forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: (k in pm.pluginMap <==> old(k in pm.pluginMap)) && pm.pluginMap[k] == old(pm.pluginMap[k])
  ensures [C03] err == nil ==> !failed && phase <= 1 && cnts(pm.pluginMap[key(info.name)], 1, 1, 0, 0, 0)
  ensures [C03] forall p *Plugin {cntRel[p]} :: !fresh(p) ==> cntRel[p] == old(cntRel[p])
  ensures [C03] forall p *Plugin {cntExp[p]} :: !fresh(p) ==> cntExp[p] == old(cntExp[p])

// ------------------------------------------------------------------ dependencies and order
func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited map[*Plugin]struct{}) (r []*Plugin)
  requires mapOK(pm) && visited != nil

func (pm *PluginManager) orderPlugins() ()
  requires mapOK(pm)
  ensures ordIn(pm)
  ensures ordDistinct(pm)
  ensures sat(elems(pm.ordered), len(pm.ordered), dom(pm.pluginMap), vals(pm.pluginMap)) && ordComplete(pm)
  ensures [C04] ordDeps(pm)
  ensures_panic pm.ordered == old(pm.ordered)
  loop (a []*Plugin): forall i int {a[i]} :: 0 <= i < len(a) ==> inMap(pm, a[i])
  loop (a []*Plugin): forall i int, j int {a[i], a[j]} :: 0 <= i < j < len(a) ==> a[i] != a[j]
  loop (a []*Plugin, m map[*Plugin]struct{}): forall i int {a[i]} :: 0 <= i < len(a) ==> a[i] in m
  loop (a []*Plugin, m map[*Plugin]struct{}): forall p *Plugin {p in m} :: p in m ==> (exists i int {a[i]} :: 0 <= i < len(a) && a[i] == p)
  loop (m map[*Plugin]struct{}): !(nil in m)
  loop (a []*Plugin, seen [string]bool): forall i int {a[i]} :: 0 <= i < len(a) ==> seen[key(a[i].Name)]
  loop [C04] (a []*Plugin): forall i int, d int {a[i].Deps[d]} :: 0 <= i < len(a) && 0 <= d < len(a[i].Deps) ==>
      (exists j int {a[j]} :: 0 <= j < i && a[j] == pm.pluginMap[key(a[i].Deps[d])])
  loop [C04] (c int, m map[*Plugin]struct{}, p *Plugin): forall d int {p.Deps[d]} :: 0 <= d < c ==> pm.pluginMap[key(p.Deps[d])] in m
  loop (c int, i int): c == i
  loop (keys []string): forall i int {keys[i]} :: 0 <= i < len(keys) ==> keys[i] in pm.pluginMap

func (pm *PluginManager) initDeps() (err error)
  requires [C02] !loadPanicked
  ensures [C02] err == nil ==> !loadPanicked
  loop [C02]: !loadPanicked
  onok step := ite(step == 0 && err == nil, 1, 0 - 1)
  onpanic step := 0 - 1
  requires mapOK(pm) && noDeps(pm)
  requires [C03] !failed && phase <= 2 && stage(pm, 1, 1, 0, 0, 0)
  ensures mapOK(pm)
  ensures forall p *Plugin {arr(p.Deps)} {len(p.Deps)} :: !(inMap(pm, p) && !p.unchanged) ==> p.Deps == old(p.Deps)
  ensures err == nil ==> ordOK(pm)
  ensures err != nil ==> pm.ordered == old(pm.ordered)
  ensures_panic pm.ordered == old(pm.ordered)
  loop: forall p *Plugin {arr(p.Deps)} {len(p.Deps)} :: !(inMap(pm, p) && !p.unchanged) ==> p.Deps == old(p.Deps)
  loop (p *Plugin): cap(p.Deps) == 0 || fresh(arr(p.Deps))
  loop (p *Plugin): cap(p.Deps) == 0 || freshloop(arr(p.Deps))
  loop (p *Plugin): cap(p.Deps) == 0 || (forall q *Plugin {arr(q.Deps)} :: q != p ==> arr(q.Deps) != arr(p.Deps))
  loop (p *Plugin, keys []string): cap(p.Deps) == 0 || arr(p.Deps) != arr(keys)
  loop (keys []string, i int): forall j int {keys[j]} :: i <= j < len(keys) && !pm.pluginMap[keys[j]].unchanged ==> cap(pm.pluginMap[keys[j]].Deps) == 0
  ensures [C04] err == nil ==> ordDeps(pm)
  ensures [C03] err == nil ==> !failed && phase <= 2 && stage(pm, 1, 1, 1, 0, 0)
  ensures [C03] forall p *Plugin {cntImp[p]} :: !inMap(pm, p) ==> cntImp[p] == old(cntImp[p])
  loop (keys []string): forall i int {keys[i]} :: 0 <= i < len(keys) ==> keys[i] in pm.pluginMap
  loop [C03] (keys []string, i int): forall j int {keys[j]} :: 0 <= j < i ==> cntImp[pm.pluginMap[keys[j]]] == ite(pm.pluginMap[keys[j]].unchanged, 0, 1)
  loop [C03] (keys []string, i int): forall j int {keys[j]} :: i <= j < len(keys) ==> cntImp[pm.pluginMap[keys[j]]] == 0
  loop [C03]: !failed && phase <= 2
  loop [C03]: forall p *Plugin {cntImp[p]} :: !inMap(pm, p) ==> cntImp[p] == old(cntImp[p])
// ------------------------------------------------------------------ phases
func (pm *PluginManager) invokeEveryOnLoad(data any) (err error)
  requires [C02] !loadPanicked
  ensures [C02] err == nil ==> !loadPanicked
  loop [C02]: !loadPanicked
  onok step := ite(step == 1 && err == nil, 2, 0 - 1)
  onpanic step := 0 - 1
  requires pm != nil
  requires forall i int :: 0 <= i < len(pm.ordered) ==> pm.ordered[i] != nil
  requires [C03] !failed && phase <= 3
  requires [C03] forall i int :: 0 <= i < len(pm.ordered) ==> cntOnLoad[pm.ordered[i]] == 0
  requires [C03] forall i int, j int :: 0 <= i < j < len(pm.ordered) ==> pm.ordered[i] != pm.ordered[j]
  ensures [C03] err == nil ==> !failed && phase <= 3
  ensures [C03] err == nil ==> (forall i int :: 0 <= i < len(pm.ordered) ==> cntOnLoad[pm.ordered[i]] == ite(pm.ordered[i].unchanged, 0, 1) && (!pm.ordered[i].unchanged ==> argOnLoad[pm.ordered[i]] == data))
  ensures [C03] forall p *Plugin {cntOnLoad[p]} :: (forall i int :: 0 <= i < len(pm.ordered) ==> pm.ordered[i] != p) ==> cntOnLoad[p] == old(cntOnLoad[p])
  loop [C03] (i int): forall j int :: 0 <= j < i ==> cntOnLoad[pm.ordered[j]] == ite(pm.ordered[j].unchanged, 0, 1)
  loop [C03] (i int): forall j int :: 0 <= j < i && !pm.ordered[j].unchanged ==> argOnLoad[pm.ordered[j]] == data
  loop [C03] (i int): forall j int :: i <= j < len(pm.ordered) ==> cntOnLoad[pm.ordered[j]] == 0
  loop [C03]: forall p *Plugin {cntOnLoad[p]} :: (forall i int :: 0 <= i < len(pm.ordered) ==> pm.ordered[i] != p) ==> cntOnLoad[p] == old(cntOnLoad[p])
  loop [C03]: !failed && phase <= 3

func (pm *PluginManager) invokeEveryOnInit() (err error)
  requires [C02] !loadPanicked
  ensures [C02] err == nil ==> !loadPanicked
  loop [C02]: !loadPanicked
  onok step := ite(step == 3 && err == nil, 4, 0 - 1)
  onpanic step := 0 - 1
  requires pm != nil
  requires forall i int :: 0 <= i < len(pm.ordered) ==> pm.ordered[i] != nil
  requires [C03] !failed && phase <= 4
  requires [C03] forall i int :: 0 <= i < len(pm.ordered) ==> cntOnInit[pm.ordered[i]] == 0
  requires [C03] ordDistinct(pm)
  ensures [C03] err == nil ==> !failed && phase <= 4
  ensures [C03] err == nil ==> (forall i int :: 0 <= i < len(pm.ordered) ==> cntOnInit[pm.ordered[i]] == ite(pm.ordered[i].unchanged, 0, 1) && (!pm.ordered[i].unchanged ==> argOnInit[pm.ordered[i]] == pm))
  ensures [C03] forall p *Plugin {cntOnInit[p]} :: (forall i int :: 0 <= i < len(pm.ordered) ==> pm.ordered[i] != p) ==> cntOnInit[p] == old(cntOnInit[p])
  loop [C03] (i int): forall j int :: 0 <= j < i ==> cntOnInit[pm.ordered[j]] == ite(pm.ordered[j].unchanged, 0, 1)
  loop [C03] (i int): forall j int :: 0 <= j < i && !pm.ordered[j].unchanged ==> argOnInit[pm.ordered[j]] == pm
  loop [C03] (i int): forall j int :: i <= j < len(pm.ordered) ==> cntOnInit[pm.ordered[j]] == 0
  loop [C03]: forall p *Plugin {cntOnInit[p]} :: (forall i int :: 0 <= i < len(pm.ordered) ==> pm.ordered[i] != p) ==> cntOnInit[p] == old(cntOnInit[p])
  loop [C03]: !failed && phase <= 4

// ------------------------------------------------------------------ fan-out
ghost invN int
ghost invP [int]*Plugin
ghost invName [int]string
ghost invArr [int]ref
ghost invLen [int]int

dyn PluginFuncs.InvokeFunc(self *Plugin, name string, params []any) (r any, err error)
  panics
  update hookN := hookN + 1
  update invP[invN] := self
  update invName[invN] := name
  update invArr[invN] := arr(params)
  update invLen[invN] := len(params)
  update invN := invN + 1

pred invoked(a int, b int, name string, params []any) = forall i int {invName[i]} :: a <= i < b ==> invName[i] == name && invArr[i] == arr(params) && invLen[i] == len(params)

func (pm *PluginManager) InvokeEach(name string, params []any) ()
  requires pm != nil
  requires forall i int :: 0 <= i < len(pm.ordered) ==> pm.ordered[i] != nil && pm.ordered[i].InvokeFunc != nil
  nopanic [C12,C02]
  ensures [C12,C02] invN == old(invN) + len(pm.ordered)
  ensures [C12,C02] forall i int :: 0 <= i < len(pm.ordered) ==> invP[old(invN) + i] == pm.ordered[i]
  ensures [C12] invoked(old(invN), invN, name, params)
  loop [C12,C02]: forall j int {invP[j]} :: old(invN) <= j < invN ==> invP[j] == pm.ordered[j - old(invN)]
  loop [C12,C02]: invoked(old(invN), invN, name, params)
  loop [C12,C02] (i int): invN == old(invN) + i
  loop [C12,C02] (i int): invN == old(invN) + i + 1

func (pm *PluginManager) InvokeEachBackward(name string, params []any) ()
  requires pm != nil
  requires forall i int :: 0 <= i < len(pm.ordered) ==> pm.ordered[i] != nil && pm.ordered[i].InvokeFunc != nil
  nopanic [C12,C02]
  ensures [C12,C02] invN == old(invN) + len(pm.ordered)
  ensures [C12,C02] forall i int :: 0 <= i < len(pm.ordered) ==> invP[old(invN) + i] == pm.ordered[len(pm.ordered) - 1 - i]
  ensures [C12] invoked(old(invN), invN, name, params)
  loop [C12,C02]: forall j int {invP[j]} :: old(invN) <= j < invN ==> invP[j] == pm.ordered[len(pm.ordered) - 1 - (j - old(invN))]
  loop [C12,C02]: invoked(old(invN), invN, name, params)
  loop [C12,C02] (i int): invN == old(invN) + len(pm.ordered) - 1 - i
  loop [C12,C02] (i int): invN == old(invN) + len(pm.ordered) - i
  loop [C12,C02] (i int): invN == old(invN) + i
  loop [C12,C02] (i int): invN == old(invN) + i + 1

// ------------------------------------------------------------------ release
func (pm *PluginManager) invokeEveryOnFree() ()
  update relM[relN] := pm
  update relAt[relN] := slept
  update relN := relN + 1
  requires mapOK(pm)
  requires forall i int {pm.ordered[i]} :: 0 <= i < len(pm.ordered) ==> valid(pm.ordered[i])
  nopanic [base]

// ------------------------------------------------------------------ vault
func (pm *PluginManager) setupVault() (err error)
  requires [C02] !loadPanicked
  ensures [C02] err == nil ==> !loadPanicked
  loop [C02]: !loadPanicked
  onok step := ite(step == 2 && err == nil, 3, 0 - 1)
  onpanic step := 0 - 1
  requires pm != nil && pm.LiveFuncs != nil && pm.LiveTypes != nil
  requires forall i int {pm.ordered[i]} :: 0 <= i < len(pm.ordered) ==> valid(pm.ordered[i])
  ensures [C03] err == nil ==> (old(!failed) ==> !failed) && phase == old(phase)
  loop [C03]: (old(!failed) ==> !failed) && phase == old(phase)

// ------------------------------------------------------------------ loading a set of plugins
pred freshManager(pm *PluginManager) = pm != nil && pm.pluginMap != nil && mapEmpty(pm.pluginMap) && len(pm.ordered) == 0 &&
  pm.LiveFuncs != nil && pm.LiveTypes != nil && pm.cbOpen != nil && pm.panicTrigger != nil

func (pm *PluginManager) loadPlugins(files []string, oldManager *PluginManager, data any) (errRet error)
  ensures [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount) && (errRet == nil ==> relN == old(relN))
  loop [C10]: relN == old(relN)
  requires [C02] !loadPanicked
  ensures [C02] loadPanicked ==> errRet != nil
  loop [C02]: !loadPanicked
  requires [C01] step == 0
  ensures [C01] errRet == nil ==> step == 4
  loop [C01]: step == 0
  requires freshManager(pm)
  requires oldManager != nil ==> oldManager != pm && mapOK(oldManager) && oldManager.pluginMap != pm.pluginMap
  requires [C03] !failed && phase <= 1
  nopanic [base]
  ensures errRet == nil ==> mapOK(pm) && ordOK(pm)
  ensures [C04] errRet == nil ==> ordDeps(pm)
  ensures [C03] errRet == nil ==> !failed && stage(pm, 1, 1, 1, 1, 1)
  loop: mapOK(pm)
  loop: forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: k in pm.pluginMap ==> fresh(pm.pluginMap[k])
  loop: noDeps(pm)
  loop (x fileInfoMap): infosOK(x)
  loop: oldManager != nil ==> mapOK(oldManager)
  loop [C03]: !failed && phase <= 1
  loop [C03]: stage(pm, 1, 1, 0, 0, 0)

// ------------------------------------------------------------------ static plugins
func (pm *PluginManager) loadStaticPlugin(sp *StaticPlugin) (err error)
  requires [C02] !loadPanicked
  ensures [C02] err == nil ==> !loadPanicked
  loop [C02]: !loadPanicked
  ensures [C17] err == nil ==> sameFuncs(pm.pluginMap[key(sp.Name)], sp)
  ensures [C17] fsN == old(fsN)
  requires pm != nil && pm.pluginMap != nil
  requires [C03] !failed && phase <= 1
  ensures err == nil ==> sp != nil && (forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: (k in pm.pluginMap <==> old(k in pm.pluginMap) || k == key(sp.Name)) && (k != key(sp.Name) ==> pm.pluginMap[k] == old(pm.pluginMap[k])))
  ensures err == nil ==> (let p = pm.pluginMap[key(sp.Name)] :: fresh(p) && valid(p) && p.Name == sp.Name && !p.unchanged && cap(p.Deps) == 0)
  ensures err != nil ==> (forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: (k in pm.pluginMap <==> old(k in pm.pluginMap)) && pm.pluginMap[k] == old(pm.pluginMap[k]))
  ensures_panic forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: (k in pm.pluginMap <==> old(k in pm.pluginMap)) && pm.pluginMap[k] == old(pm.pluginMap[k])
  ensures [C03] err == nil ==> !failed && phase <= 1 && cnts(pm.pluginMap[key(sp.Name)], 1, 1, 0, 0, 0)
  ensures [C03] forall p *Plugin {cntRel[p]} :: !fresh(p) ==> cntRel[p] == old(cntRel[p])
  ensures [C03] forall p *Plugin {cntExp[p]} :: !fresh(p) ==> cntExp[p] == old(cntExp[p])

func (pm *PluginManager) loadStaticPlugins(staticPlugins map[string]*StaticPlugin, data any) (errRet error)
  ensures [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount) && (errRet == nil ==> relN == old(relN))
  loop [C10]: relN == old(relN)
  requires [C02] !loadPanicked
  ensures [C02] loadPanicked ==> errRet != nil
  loop [C02]: !loadPanicked
  requires [C01] step == 0
  ensures [C01] errRet == nil ==> step == 4
  loop [C01]: step == 0
  requires freshManager(pm)
  update considered := true
  ensures [C13] errRet == nil ==> (forall k string {k in staticPlugins} :: k in staticPlugins ==> key(staticPlugins[k].Name) in pm.pluginMap)
  ensures [C13] errRet == nil ==> (forall n string {n in pm.pluginMap} :: n in pm.pluginMap ==> (exists k string {k in staticPlugins} :: k in staticPlugins && key(staticPlugins[k].Name) == n))
  ensures [C17] errRet == nil ==> (forall n string {pm.pluginMap[n]} {n in pm.pluginMap} :: n in pm.pluginMap ==> (exists k string {k in staticPlugins} :: k in staticPlugins && sameFuncs(pm.pluginMap[n], staticPlugins[k])))
  ensures [C17] fsN == old(fsN)
  loop [C13] (a []string, c int): forall j int {a[j]} :: 0 <= j <= c ==> key(staticPlugins[a[j]].Name) in pm.pluginMap
  loop [C13] (a []string, c int): forall j int {a[j]} :: 0 <= j < c ==> key(staticPlugins[a[j]].Name) in pm.pluginMap
  loop [C13]: forall n string {n in pm.pluginMap} :: n in pm.pluginMap ==> (exists k string {k in staticPlugins} :: k in staticPlugins && key(staticPlugins[k].Name) == n)
  loop [C17]: forall n string {pm.pluginMap[n]} {n in pm.pluginMap} :: n in pm.pluginMap ==> (exists k string {k in staticPlugins} :: k in staticPlugins && sameFuncs(pm.pluginMap[n], staticPlugins[k]))
  requires [C03] !failed && phase <= 1
  nopanic [base]
  ensures errRet == nil ==> mapOK(pm) && ordOK(pm)
  ensures [C04] errRet == nil ==> ordDeps(pm)
  ensures [C03] errRet == nil ==> !failed && stage(pm, 1, 1, 1, 1, 1)
  ensures errRet == nil ==> (forall k string {pm.pluginMap[k]} {k in pm.pluginMap} :: k in pm.pluginMap ==> fresh(pm.pluginMap[k]) && !pm.pluginMap[k].unchanged)
  loop: mapOK(pm)
  loop: forall k string {k in pm.pluginMap} {pm.pluginMap[k]} :: k in pm.pluginMap ==> fresh(pm.pluginMap[k]) && !pm.pluginMap[k].unchanged
  loop: noDeps(pm)
  loop [C03]: !failed && phase <= 1
  loop [C03]: stage(pm, 1, 1, 0, 0, 0)

// ------------------------------------------------------------------ the swapper
ghost held [ref]bool
ghost considered bool
ghost dirOK bool
ghost fsN int
ghost dirPath string
ghost dirEnt [int]any
ghost dirLen int
ghost cbN int
ghost cbFn [int]fn
ghost cbNew [int]*PluginManager
ghost cbOld [int]*PluginManager
ghost cbErr [int]bool

dyn "func() interface{}" () (r any)
  panics

dyn ReloadCallback(newManager *PluginManager, oldManager *PluginManager) (err error)
  requires [C01] !cbFailed
  panics
  onok cbFailed := err != nil
  onpanic cbFailed := true
  update hookN := hookN + 1
  update cbFn[cbN] := $fn
  update cbNew[cbN] := newManager
  update cbOld[cbN] := oldManager
  update cbErr[cbN] := true
  update cbN := cbN + 1
  onok cbErr[cbN - 1] := err != nil
  onpanic hookPanicked := true
  onpanic loadPanicked := true

extern "io/ioutil.ReadDir" (dirname string) (list []os.FileInfo, err error)
  update fsN := fsN + 1
  update dirPath := dirname
  onok dirOK := dirOK && err == nil
  onok dirEnt := elems(list)
  onok dirLen := len(list)
  ensures len(list) >= 0
  ensures forall i int {list[i]} :: 0 <= i < len(list) ==> list[i] != nil
  ensures [C13] forall i int, j int {list[i], list[j]} :: 0 <= i < j < len(list) ==> entname(list[i]) != entname(list[j])

extern "path/filepath.Abs" (p string) (r string, err error)
  pure
  onok dirOK := dirOK && err == nil

extern "os.Stat" (name string) (fi os.FileInfo, err error)
  update fsN := fsN + 1
  onok dirOK := dirOK && err == nil && isdir(fi)
  ensures err == nil ==> fi != nil

extern "io/ioutil.ReadFile" (name string) (data []byte, err error)
  update fsN := fsN + 1

extern "os.MkdirAll" (path string, perm any) (err error)
  update fsN := fsN + 1

extern "io/ioutil.WriteFile" (path string, data []byte, perm any) (err error)
  update fsN := fsN + 1

func newPluginManager(log any, newExt fn) (pm *PluginManager)
  ensures fresh(pm) && freshManager(pm) && fresh(pm.pluginMap) && fresh(pm.LiveFuncs) && fresh(pm.LiveTypes)

// the manager published by the swapper is well formed
pred swOK(sw *PluginManagerSwapper) = sw != nil && allocated(cur(sw)) && (cur(sw) != nil ==> mapOK(cur(sw)) && ordOK(cur(sw)))
// the path of a selected entry of the plugin directory
pred listed(sw *PluginManagerSwapper, n string) = exists j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) && sw.opts.whitelist[j] == n
pred plain(i int) = 0 <= i < dirLen && !isdir(dirEnt[i]) && hassuffix(entname(dirEnt[i]), ".so")
pred plugname(i int, n string) = trimsuffix(basename(entname(dirEnt[i])), ".so") == n
pred selected(sw *PluginManagerSwapper, i int) = plain(i) && (len(sw.opts.whitelist) == 0 || listed(sw, trimsuffix(basename(entname(dirEnt[i])), ".so")))
pred sameFuncs(p *Plugin, s *StaticPlugin) = s != nil && p.fOnLoad == s.fOnLoad && p.fOnInit == s.fOnInit && p.fOnFree == s.fOnFree && p.fExport == s.fExport &&
  p.fImport == s.fImport && p.InvokeFunc == s.InvokeFunc && p.fReloadable == s.fReloadable && p.hotswapLiveFuncs == s.hotswapLiveFuncs && p.hotswapLiveTypes == s.hotswapLiveTypes
pred entpath(sw *PluginManagerSwapper, i int, f string) = f == join2(abspath(sw.opts.pluginDir), entname(dirEnt[i]))
pred blank(d string) = trimsp(d) == ""
pred present(n string) = exists i int {dirEnt[i]} :: plain(i) && plugname(i, n)
axiom [C13] forall d string, a string, b string {join2(d, a), join2(d, b)} :: join2(d, a) == join2(d, b) ==> a == b

// how many of the first n callbacks are there
logic nn([int]fn, int) int
axiom [C01] forall A [int]fn, n int {nn(A, n)} :: n <= 0 ==> nn(A, n) == 0
axiom [C01] forall A [int]fn, n int {nn(A, n + 1)} :: n >= 0 ==> nn(A, n + 1) == nn(A, n) + ite(A[n] != nil, 1, 0)
axiom [C01] forall A [int]fn, n int {nn(A, n), A[n]} :: n >= 0 ==> nn(A, n + 1) == nn(A, n) + ite(A[n] != nil, 1, 0)
pred called(base int, cbs []ReloadCallback, n int, newM *PluginManager, oldM *PluginManager) =
  cbN == base + nn(elems(cbs), n) && (forall j int {cbs[j]} {nn(elems(cbs), j)} :: 0 <= j < n && cbs[j] != nil ==>
    nn(elems(cbs), j) < nn(elems(cbs), n) && nn(elems(cbs), j) >= 0 && cbFn[base + nn(elems(cbs), j)] == cbs[j] && cbNew[base + nn(elems(cbs), j)] == newM && cbOld[base + nn(elems(cbs), j)] == oldM)

func invokeReloadCallbacks(cbs []ReloadCallback, newManager *PluginManager, oldManager *PluginManager) (err error)
  ensures [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount) && (err == nil ==> relN == old(relN))
  loop [C10]: relN == old(relN)
  requires [C02] !loadPanicked
  ensures [C02] loadPanicked ==> err != nil
  loop [C02]: !loadPanicked
  requires [C01] !cbFailed
  ensures [C01] err == nil ==> !cbFailed && called(old(cbN), cbs, len(cbs), newManager, oldManager)
  ensures [C01] step == old(step)
  loop [C01] (c int): c >= 0 ==> called(old(cbN), cbs, c, newManager, oldManager)
  loop [C01] (c int): called(old(cbN), cbs, c + 1, newManager, oldManager)
  loop [C01]: !cbFailed && step == old(step)
  requires mapOK(newManager) && ordOK(newManager)
  nopanic [base]

func (sw *PluginManagerSwapper) Current() (pm *PluginManager)
  requires [C01,C16] sw != nil
  nopanic [C01,C16]
  ensures [C01,C16] pm == cur(sw)

func (sw *PluginManagerSwapper) loadPluginFiles(files []string, data any, cbs []ReloadCallback) (r Details, err error)
  ensures [C10] err == nil && len(files) > 0 && old(cur(sw)) != nil ==> bgrelN == old(bgrelN) + 1 && bgrelM[old(bgrelN)] == old(cur(sw)) && bgrelAt[old(bgrelN)] >= minFreeDelay && bgrelAt[old(bgrelN)] >= sw.opts.freeDelay && relN == old(relN)
  ensures [C10] err != nil || len(files) == 0 || old(cur(sw)) == nil ==> bgrelN == old(bgrelN) && bgcount == old(bgcount)
  ensures_panic [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount)
  requires [C02] !loadPanicked
  ensures [C02] loadPanicked ==> err != nil
  ensures_panic [C02] !loadPanicked
  loop [C02]: !loadPanicked
  requires [C01] step == 0 && !cbFailed && allocated(arr(cbs))
  ensures [C01] err != nil || len(files) == 0 ==> cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] err == nil && len(files) > 0 ==> cur(sw) != nil && fresh(cur(sw)) && step == 4 && pubN == old(pubN) + 1 && pubHook == hookN && !cbFailed && called(old(cbN), cbs, len(cbs), cur(sw), old(cur(sw)))
  ensures_panic [C01] cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] sw.reloadCounter == old(sw.reloadCounter)
  ensures_panic [C01] sw.reloadCounter == old(sw.reloadCounter)
  update nfiles := len(files)
  requires swOK(sw)
  requires [C13] dirPath == abspath(sw.opts.pluginDir)
  requires [C13] forall j int {files[j]} :: 0 <= j < len(files) ==> (exists i int {dirEnt[i]} :: selected(sw, i) && entpath(sw, i, files[j]))
  requires [C13] forall i int {dirEnt[i]} :: selected(sw, i) ==> (exists j int {files[j]} :: 0 <= j < len(files) && entpath(sw, i, files[j]))
  requires [C13] forall i int, j int {files[i], files[j]} :: 0 <= i < j < len(files) ==> files[i] != files[j]
  update considered := true
  requires [C16] held[lockof(sw)]
  ensures swOK(sw)
  ensures_panic swOK(sw)
  ensures [C16] held == old(held)
  ensures_panic [C16] held == old(held)

func (sw *PluginManagerSwapper) loadPluginsImpl(data any, cbs []ReloadCallback) (r Details, err error)
  ensures [C10] err == nil && nfiles > 0 && old(cur(sw)) != nil ==> bgrelN == old(bgrelN) + 1 && bgrelM[old(bgrelN)] == old(cur(sw)) && bgrelAt[old(bgrelN)] >= minFreeDelay && bgrelAt[old(bgrelN)] >= sw.opts.freeDelay && relN == old(relN)
  ensures [C10] err != nil || nfiles == 0 || old(cur(sw)) == nil ==> bgrelN == old(bgrelN) && bgcount == old(bgcount)
  ensures_panic [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount)
  requires [C02] !loadPanicked
  ensures [C02] loadPanicked ==> err != nil
  ensures_panic [C02] !loadPanicked
  loop [C02]: !loadPanicked
  requires [C01] step == 0 && !cbFailed && allocated(arr(cbs))
  ensures [C01] err != nil || nfiles == 0 ==> cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] err == nil && nfiles > 0 ==> cur(sw) != nil && fresh(cur(sw)) && step == 4 && pubN == old(pubN) + 1 && pubHook == hookN && !cbFailed && called(old(cbN), cbs, len(cbs), cur(sw), old(cur(sw)))
  ensures [C01] err == nil ==> nfiles >= 0
  ensures_panic [C01] cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] sw.reloadCounter == old(sw.reloadCounter)
  ensures_panic [C01] sw.reloadCounter == old(sw.reloadCounter)
  requires swOK(sw)
  requires [C13] dirOK && !considered
  ensures [C13] dirOK && (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> present(sw.opts.whitelist[j])) && !blank(sw.opts.pluginDir) ==> considered
  ensures [C13] err == nil ==> considered && (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> present(sw.opts.whitelist[j]))
  loop [C13] (files []string): forall j int {files[j]} :: 0 <= j < len(files) ==> (exists i int {dirEnt[i]} :: selected(sw, i) && entpath(sw, i, files[j]))
  loop [C13] (files []string, c int): forall j int {files[j]} :: 0 <= j < len(files) ==> (exists i int {dirEnt[i]} :: i < c && selected(sw, i) && entpath(sw, i, files[j]))
  loop [C13] (files []string, c int): forall i int {dirEnt[i]} :: i < c && selected(sw, i) ==> (exists j int {files[j]} :: 0 <= j < len(files) && entpath(sw, i, files[j]))
  loop [C13] (files []string, c int): forall j int {files[j]} :: 0 <= j < len(files) ==> (exists i int {dirEnt[i]} :: i <= c && selected(sw, i) && entpath(sw, i, files[j]))
  loop [C13] (files []string, c int): forall i int {dirEnt[i]} :: i <= c && selected(sw, i) ==> (exists j int {files[j]} :: 0 <= j < len(files) && entpath(sw, i, files[j]))
  loop [C13] (files []string): forall i int, j int {files[i], files[j]} :: 0 <= i < j < len(files) ==> files[i] != files[j]
  loop [C13] (found map[string]struct{}): forall n string {n in found} :: n in found ==> present(n)
  loop [C13] (found map[string]struct{}): forall n string {n in found} :: n in found ==> listed(sw, n)
  loop [C13] (found map[string]struct{}, c int): len(sw.opts.whitelist) > 0 ==> (forall i int {dirEnt[i]} :: i <= c && selected(sw, i) ==> trimsuffix(basename(entname(dirEnt[i])), ".so") in found)
  loop [C13] (found map[string]struct{}, c int): len(sw.opts.whitelist) > 0 ==> (forall i int {dirEnt[i]} :: i < c && selected(sw, i) ==> trimsuffix(basename(entname(dirEnt[i])), ".so") in found)
  loop [C13] (missing []string, c int): len(missing) == 0 ==> (forall j int {sw.opts.whitelist[j]} :: 0 <= j <= c ==> present(sw.opts.whitelist[j]))
  loop [C13] (missing []string, c int): len(missing) == 0 ==> (forall j int {sw.opts.whitelist[j]} :: 0 <= j < c ==> present(sw.opts.whitelist[j]))
  loop [C13] (missing []string): len(missing) > 0 ==> !(forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> present(sw.opts.whitelist[j]))
  requires [C16] held[lockof(sw)]
  ensures swOK(sw)
  ensures_panic swOK(sw)
  ensures [C16] held == old(held)
  ensures_panic [C16] held == old(held)

func (sw *PluginManagerSwapper) loadStaticPlugins(data any, cbs []ReloadCallback) (r Details, err error)
  ensures [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount)
  ensures_panic [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount)
  requires [C02] !loadPanicked
  ensures [C02] loadPanicked ==> err != nil
  ensures_panic [C02] !loadPanicked
  loop [C02]: !loadPanicked
  requires [C01] step == 0 && !cbFailed && allocated(arr(cbs))
  ensures [C01] err != nil ==> cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] err == nil ==> cur(sw) != nil && fresh(cur(sw)) && step == 4 && pubN == old(pubN) + 1 && pubHook == hookN && !cbFailed && called(old(cbN), cbs, len(cbs), cur(sw), nil)
  ensures_panic [C01] cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] sw.reloadCounter == old(sw.reloadCounter)
  ensures_panic [C01] sw.reloadCounter == old(sw.reloadCounter)
  requires swOK(sw)
  requires [C13] !considered
  ensures [C13] (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> sw.opts.whitelist[j] in sw.staticPlugins) ==> considered
  ensures [C13] err == nil ==> considered && (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> sw.opts.whitelist[j] in sw.staticPlugins)
  ensures [C13] err == nil ==> (forall k string {k in r} {k in sw.staticPlugins} :: k in r <==> k in sw.staticPlugins && (len(sw.opts.whitelist) == 0 || listed(sw, k)))
  ensures [C13] err == nil ==> (forall k string {k in r} :: k in r ==> key(sw.staticPlugins[k].Name) in cur(sw).pluginMap)
  ensures [C13] err == nil ==> (forall n string {n in cur(sw).pluginMap} :: n in cur(sw).pluginMap ==> (exists k string {k in r} :: k in r && key(sw.staticPlugins[k].Name) == n))
  ensures [C17] err == nil ==> (forall k string {r[k]} {k in r} :: k in r ==> r[k] == "ok")
  ensures [C17] err == nil ==> (forall k string {k in r} {k in sw.staticPlugins} :: k in r <==> k in sw.staticPlugins && (len(sw.opts.whitelist) == 0 || listed(sw, k)))
  ensures [C17] err == nil ==> (let pm = cur(sw) :: fresh(pm) && (forall n string {pm.pluginMap[n]} {n in pm.pluginMap} :: n in pm.pluginMap ==> fresh(pm.pluginMap[n]) &&
     (exists k string {k in r} :: k in r && sameFuncs(pm.pluginMap[n], sw.staticPlugins[k]))))
  ensures [C17] fsN == old(fsN)
  ensures_panic [C17] fsN == old(fsN)
  loop [C13,C17] (m map[string]*StaticPlugin): m != nil && (m == sw.staticPlugins || fresh(m))
  loop [C13,C17] (m map[string]*StaticPlugin): forall k string {k in m} {m[k]} :: k in m ==> k in sw.staticPlugins && m[k] == sw.staticPlugins[k]
  loop [C13,C17] (m map[string]*StaticPlugin): forall k string {k in m} {m[k]} :: k in m ==> listed(sw, k)
  loop [C13,C17] (m map[string]*StaticPlugin, c int): forall j int {sw.opts.whitelist[j]} :: 0 <= j <= c ==> sw.opts.whitelist[j] in m
  loop [C13,C17] (m map[string]*StaticPlugin, c int): forall j int {sw.opts.whitelist[j]} :: 0 <= j < c ==> sw.opts.whitelist[j] in m
  loop [C13,C17] (r map[string]string, seen [string]bool): forall k string {k in r} {seen[k]} :: k in r <==> seen[k]
  loop [C17] (r map[string]string): forall k string {k in r} {r[k]} :: k in r ==> r[k] == "ok"
  requires [C16] held[lockof(sw)]
  ensures swOK(sw)
  ensures_panic swOK(sw)
  ensures [C16] held == old(held)
  ensures_panic [C16] held == old(held)

func (sw *PluginManagerSwapper) LoadPlugins(data any) (r Details, err error)
  ensures [C10] sw.staticPlugins == nil && err == nil && nfiles > 0 && old(cur(sw)) != nil ==> bgrelN == old(bgrelN) + 1 && bgrelM[old(bgrelN)] == old(cur(sw)) && bgrelAt[old(bgrelN)] >= minFreeDelay && bgrelAt[old(bgrelN)] >= sw.opts.freeDelay && relN == old(relN)
  ensures [C10] sw.staticPlugins != nil || err != nil || nfiles == 0 || old(cur(sw)) == nil ==> bgrelN == old(bgrelN) && bgcount == old(bgcount)
  ensures_panic [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount)
  requires [C02] !loadPanicked
  ensures [C02] loadPanicked ==> err != nil
  ensures_panic [C02] !loadPanicked
  loop [C02]: !loadPanicked
  requires [C01] step == 0 && !cbFailed
  ensures [C01] sw.staticPlugins == nil && (err != nil || nfiles == 0) ==> cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] sw.staticPlugins == nil && err == nil && nfiles > 0 ==> cur(sw) != nil && fresh(cur(sw)) && step == 4 && pubN == old(pubN) + 1 && pubHook == hookN && !cbFailed && cbN == old(cbN) + ite(sw.opts.reloadCallback != nil, 1, 0) && (sw.opts.reloadCallback != nil ==> cbFn[old(cbN)] == sw.opts.reloadCallback && cbNew[old(cbN)] == cur(sw) && cbOld[old(cbN)] == old(cur(sw)))
  ensures [C01] sw.staticPlugins != nil && err != nil ==> cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] sw.staticPlugins != nil && err == nil ==> cur(sw) != nil && fresh(cur(sw)) && step == 4 && pubN == old(pubN) + 1 && pubHook == hookN && !cbFailed && cbN == old(cbN) + ite(sw.opts.reloadCallback != nil, 1, 0) && (sw.opts.reloadCallback != nil ==> cbFn[old(cbN)] == sw.opts.reloadCallback && cbNew[old(cbN)] == cur(sw) && cbOld[old(cbN)] == nil)
  ensures_panic [C01] cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] sw.reloadCounter == old(sw.reloadCounter)
  ensures_panic [C01] sw.reloadCounter == old(sw.reloadCounter)
  requires swOK(sw)
  requires [C13] dirOK && !considered
  ensures [C13] sw.staticPlugins == nil && err == nil ==> (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> present(sw.opts.whitelist[j]))
  ensures [C13] sw.staticPlugins == nil && dirOK && (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> present(sw.opts.whitelist[j])) && !blank(sw.opts.pluginDir) ==> considered
  ensures [C13] sw.staticPlugins != nil && err == nil ==> (forall k string {k in r} {k in sw.staticPlugins} :: k in r <==> k in sw.staticPlugins && (len(sw.opts.whitelist) == 0 || listed(sw, k)))
  ensures [C13] sw.staticPlugins != nil && err == nil ==> (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> sw.opts.whitelist[j] in sw.staticPlugins)
  ensures [C13] sw.staticPlugins != nil && (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> sw.opts.whitelist[j] in sw.staticPlugins) ==> considered
  ensures [C17] sw.staticPlugins != nil && err == nil ==> (forall k string {r[k]} {k in r} :: k in r ==> r[k] == "ok")
  ensures [C17] sw.staticPlugins != nil && err == nil ==> (forall k string {k in r} {k in sw.staticPlugins} :: k in r <==> k in sw.staticPlugins && (len(sw.opts.whitelist) == 0 || listed(sw, k)))
  ensures [C17] sw.staticPlugins != nil && err == nil ==> (let pm = cur(sw) :: fresh(pm) && (forall n string {pm.pluginMap[n]} {n in pm.pluginMap} :: n in pm.pluginMap ==> fresh(pm.pluginMap[n]) &&
     (exists k string {k in r} :: k in r && sameFuncs(pm.pluginMap[n], sw.staticPlugins[k]))))
  ensures [C17] sw.staticPlugins != nil ==> fsN == old(fsN)
  requires [C16] !held[lockof(sw)]
  ensures swOK(sw)
  ensures_panic swOK(sw)
  ensures [C16] held == old(held)
  ensures_panic [C16] held == old(held)

func (sw *PluginManagerSwapper) Reload(data any) (r Details, err error)
  ensures [C10] sw.staticPlugins == nil && err == nil && nfiles > 0 && old(cur(sw)) != nil ==> bgrelN == old(bgrelN) + 1 && bgrelM[old(bgrelN)] == old(cur(sw)) && bgrelAt[old(bgrelN)] >= minFreeDelay && bgrelAt[old(bgrelN)] >= sw.opts.freeDelay && relN == old(relN)
  ensures [C10] sw.staticPlugins != nil || err != nil || nfiles == 0 || old(cur(sw)) == nil ==> bgrelN == old(bgrelN) && bgcount == old(bgcount)
  ensures_panic [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount)
  requires [C02] !loadPanicked
  ensures [C02] loadPanicked ==> err != nil
  ensures_panic [C02] !loadPanicked
  loop [C02]: !loadPanicked
  requires [C01] step == 0 && !cbFailed
  ensures [C01] err != nil || nfiles == 0 ==> cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] err == nil && nfiles > 0 ==> cur(sw) != nil && fresh(cur(sw)) && step == 4 && pubN == old(pubN) + 1 && pubHook == hookN && !cbFailed && cbN == old(cbN) + ite(sw.opts.reloadCallback != nil, 1, 0) && (sw.opts.reloadCallback != nil ==> cbFn[old(cbN)] == sw.opts.reloadCallback && cbNew[old(cbN)] == cur(sw) && cbOld[old(cbN)] == old(cur(sw)))
  ensures [C01] err == nil ==> sw.staticPlugins == nil
  ensures_panic [C01] cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] sw.reloadCounter == old(sw.reloadCounter) + ite(err == nil, 1, 0)
  ensures_panic [C01] sw.reloadCounter == old(sw.reloadCounter)
  requires swOK(sw)
  requires [C13] dirOK && !considered
  ensures [C13] sw.staticPlugins == nil && err == nil ==> (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> present(sw.opts.whitelist[j]))
  ensures [C13] sw.staticPlugins == nil && dirOK && (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> present(sw.opts.whitelist[j])) && !blank(sw.opts.pluginDir) ==> considered
  ensures [C17] sw.staticPlugins != nil ==> err != nil && cur(sw) == old(cur(sw)) && sw.reloadCounter == old(sw.reloadCounter) && hookN == old(hookN) && fsN == old(fsN) && $alloc >= 0
  ensures_panic [C17] sw.staticPlugins == nil
  requires [C16] !held[lockof(sw)]
  ensures swOK(sw)
  ensures_panic swOK(sw)
  ensures [C16] held == old(held)
  ensures_panic [C16] held == old(held)

func (sw *PluginManagerSwapper) ReloadWithCallback(data any, extra fn) (r Details, err error)
  ensures [C10] sw.staticPlugins == nil && err == nil && nfiles > 0 && old(cur(sw)) != nil ==> bgrelN == old(bgrelN) + 1 && bgrelM[old(bgrelN)] == old(cur(sw)) && bgrelAt[old(bgrelN)] >= minFreeDelay && bgrelAt[old(bgrelN)] >= sw.opts.freeDelay && relN == old(relN)
  ensures [C10] sw.staticPlugins != nil || err != nil || nfiles == 0 || old(cur(sw)) == nil ==> bgrelN == old(bgrelN) && bgcount == old(bgcount)
  ensures_panic [C10] bgrelN == old(bgrelN) && bgcount == old(bgcount)
  requires [C02] !loadPanicked
  ensures [C02] loadPanicked ==> err != nil
  ensures_panic [C02] !loadPanicked
  loop [C02]: !loadPanicked
  requires [C01] step == 0 && !cbFailed
  ensures [C01] err != nil || nfiles == 0 ==> cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] err == nil && nfiles > 0 ==> cur(sw) != nil && fresh(cur(sw)) && step == 4 && pubN == old(pubN) + 1 && pubHook == hookN && !cbFailed && cbN == old(cbN) + ite(sw.opts.reloadCallback != nil, 1, 0) + ite(extra != nil, 1, 0) && (sw.opts.reloadCallback != nil ==> cbFn[old(cbN)] == sw.opts.reloadCallback && cbNew[old(cbN)] == cur(sw) && cbOld[old(cbN)] == old(cur(sw))) && (extra != nil ==> cbFn[old(cbN) + ite(sw.opts.reloadCallback != nil, 1, 0)] == extra && cbNew[old(cbN) + ite(sw.opts.reloadCallback != nil, 1, 0)] == cur(sw) && cbOld[old(cbN) + ite(sw.opts.reloadCallback != nil, 1, 0)] == old(cur(sw)))
  ensures [C01] err == nil ==> sw.staticPlugins == nil
  ensures_panic [C01] cur(sw) == old(cur(sw)) && pubN == old(pubN)
  ensures [C01] sw.reloadCounter == old(sw.reloadCounter) + ite(err == nil, 1, 0)
  ensures_panic [C01] sw.reloadCounter == old(sw.reloadCounter)
  requires swOK(sw)
  requires [C13] dirOK && !considered
  ensures [C13] sw.staticPlugins == nil && err == nil ==> (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> present(sw.opts.whitelist[j]))
  ensures [C13] sw.staticPlugins == nil && dirOK && (forall j int {sw.opts.whitelist[j]} :: 0 <= j < len(sw.opts.whitelist) ==> present(sw.opts.whitelist[j])) && !blank(sw.opts.pluginDir) ==> considered
  ensures [C17] sw.staticPlugins != nil ==> err != nil && cur(sw) == old(cur(sw)) && sw.reloadCounter == old(sw.reloadCounter) && hookN == old(hookN) && fsN == old(fsN) && $alloc >= 0
  ensures_panic [C17] sw.staticPlugins == nil
  requires [C16] !held[lockof(sw)]
  ensures swOK(sw)
  ensures_panic swOK(sw)
  ensures [C16] held == old(held)
  ensures_panic [C16] held == old(held)
