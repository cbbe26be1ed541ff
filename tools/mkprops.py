#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

PM="pluginManager.go"; SW="pluginManagerSwapper.go"; PL="plugin.go"; SP="staticPlugin.go"
BD="cli/hotswap/cmd/build.go"; HU="internal/hutils/hutils.go"

prop("C01","A load or reload publishes a complete manager or changes nothing",
 "After any load or reload call, the current manager is a new one exactly when the call returned no error and there was at least one plugin to load; on every failure (unreadable file, failing or panicking hook, dependency or name conflict, rejecting or panicking reload callback) the very same manager as before stays current. A published manager has completed every initialisation step and has been accepted by every reload callback, each of which is given the new and the previous manager and runs once, in order, until one fails. The reload counter grows by one for each reload that returns no error and never otherwise.",
 ["inputs","fault_sequences","histories"],
 "Every set of plugins, every point at which a hook or callback fails or panics, every history of earlier loads and reloads.",
 "The tests walk one successful path and a few single faults; they never check that the published manager and the counter are untouched after each possible failure point.",
 [SW,PM,SP],
 [("single publication point after load and callbacks", "pluginManagerSwapper.go:loadPluginFiles, staticPlugin.go:(PluginManagerSwapper).loadStaticPlugins"),("counter increment on err == nil","pluginManagerSwapper.go:ReloadWithCallback"),("callback loop","pluginManagerSwapper.go:invokeReloadCallbacks")],
 [("PluginManagerSwapper.current","the published manager",SW),("PluginManagerSwapper.reloadCounter","successful reloads",SW)],
 ["PluginManagerSwapper.LoadPlugins","Reload","ReloadWithCallback","Current","ReloadCounter"])

prop("C02","Panics in plugin code and callbacks never reach the host",
 "A panic raised by any plugin hook or reload callback during a load, a reload, a fan-out invocation or a release never propagates out of the library call the host made (or out of its background release). In a load or reload it is turned into a returned error; in a fan-out or a release it is logged and the remaining plugins are still processed.",
 ["fault_sequences","inputs"],
 "Every hook of every plugin of every plugin set as the panicking site, with any panic value, in loads, reloads, fan-outs, releases and callbacks.",
 "The tests make one fixed plugin panic in one hook at a time; they cannot cover every site, combination and code path by which control leaves a call.",
 [SW,PM,PL,SP],
 [("recovering wrappers around each hook","plugin.go:invokeExport/invokeImport/invokeReloadable, pluginManager.go:invokeEveryOnLoad/invokeEveryOnInit/invokeEveryOnFree/InvokeEach/InvokeEachBackward"),("recovering defer of the loaders","pluginManager.go:loadPlugins, staticPlugin.go:loadStaticPlugins"),("recovering wrapper around callbacks","pluginManagerSwapper.go:invokeReloadCallbacks")],
 [], ["error returned by LoadPlugins/Reload","host goroutine keeps running"])

prop("C03","Lifecycle hooks run exactly once, in phase order, only for new plugins",
 "In a successful load or reload every newly loaded plugin gets Reloadable, Export, Import, OnLoad and OnInit called exactly once each, in that order, and each phase from Import on starts only after the previous phase has finished for every newly loaded plugin; OnLoad receives the host's data and OnInit the new manager's vault, already filled. Plugins carried over from the previous manager get none of these calls. A hook that reports an error or panics makes the load fail, and no later hook of the load runs after it.",
 ["inputs","fault_sequences","histories"],
 "Every plugin set, dependency graph, mix of new and carried-over plugins, and failing hook.",
 "Tests observe log lines of one fixed example with at most four plugins; order and exactly-once are never checked over all graphs, mixes and faults.",
 [PM,PL,SP],
 [("phase sequence","pluginManager.go:loadPlugins, staticPlugin.go:loadStaticPlugins"),("skip of carried-over plugins","pluginManager.go:invokeEveryOnLoad/invokeEveryOnInit/initDeps")],
 [("Plugin.unchanged","carried over from the previous manager",PL)],
 ["order of hook invocations"])

prop("C04","Plugin order is complete, duplicate-free and dependency-first",
 "In every successfully loaded manager the plugin list contains each loaded plugin exactly once and every plugin stands after all plugins it depends on. OnLoad and OnInit run in exactly that order, and release runs in the reverse of it.",
 ["inputs","histories"],
 "Every acyclic dependency graph over any number of plugins, every map iteration order, with new and carried-over plugins mixed.",
 "Tests check the relative order of three or four fixed plugins; the ordering loop must be right for every graph and every iteration order.",
 [PM],
 [("ordering loop","pluginManager.go:orderPlugins"),("hook loops","pluginManager.go:invokeEveryOnLoad/invokeEveryOnInit/invokeEveryOnFree")],
 [("PluginManager.ordered","plugins in dependency order",PM),("Plugin.Deps","names of direct dependencies",PL)],
 ["PluginManager.Plugins()"])

prop("C05","A dependency cycle is always rejected, and only a real one",
 "A load whose plugins' dependencies contain a cycle (including a plugin that depends on itself) always fails with an error and terminates. A load is never rejected for a cyclic dependency when the dependency graph is acyclic, in particular not for dependencies shared by several plugins.",
 ["inputs"],
 "Every finite dependency graph.",
 "Two fixed cycles of length two and three are tested; neither soundness nor completeness of the detection over all graphs, nor its termination, can be sampled.",
 [PM],
 [("depth-first search with a path set","pluginManager.go:checkCyclicDependency"),("search from every plugin that has dependencies","pluginManager.go:initDeps"),("progress of the ordering loop","pluginManager.go:orderPlugins")],
 [("Plugin.Deps","edges of the graph",PL)],
 ["error returned by LoadPlugins/Reload"])

prop("C06","Imports are wired to the right exports or the load fails",
 "After a successful load, for every newly loaded plugin, each exported field of its import object that is not opted out with the hotswap:\"-\" tag names (ignoring case) a plugin loaded in the same manager, which is recorded as its dependency, and holds that plugin's exported value, or is left as it was if that plugin exports nothing. An unknown name, an embedded field, a value whose type does not fit, or an import object that is not a pointer to a struct makes the load fail. Unexported and opted-out fields are neither looked up nor written.",
 ["inputs","programs"],
 "Every import struct (any number, names, tags, types and kinds of fields) against every set of plugins and exported values.",
 "Tests use a handful of fixed import structs; the field loop has to treat every combination of fields and exports right.",
 [PM,PL],
 [("field loop","pluginManager.go:initDeps"),("nil test of interface values","plugin.go:isNil")],
 [("Plugin.exported","value returned by Export",PL),("Plugin.Deps","recorded dependencies",PL)],
 ["import object of each plugin","Plugin.Deps"])

prop("C07","No plugin stays bound to a replaced dependency",
 "In every successfully loaded manager, a plugin carried over from the previous manager depends only on plugins that were carried over too; otherwise the reload fails. A plugin that is not reloadable never depends on a reloadable one in a successfully loaded manager.",
 ["histories","inputs"],
 "Every sequence of reloads in which any subset of plugins is rebuilt, removed or added, over every dependency graph and reloadability assignment.",
 "One rebuilt-dependency scenario and one non-reloadable scenario are tested.",
 [PM],
 [("rebuilt-dependency check","pluginManager.go:initDeps"),("reloadability check","pluginManager.go:initDeps")],
 [("Plugin.unchanged","carried over",PL),("Plugin.reloadable","answer of Reloadable when the plugin was loaded",PL)],
 ["error returned by Reload","Plugin.Deps of the current manager"])

prop("C08","Each plugin file is reloaded, kept or pinned by one fixed rule and reported",
 "On a reload, a plugin that was loaded before as not reloadable is carried over whatever its file contains; otherwise one whose file content is identical to the loaded version is carried over; every other plugin file is loaded afresh from its current content. The result reports, for exactly one entry per plugin file, \"not reloadable\", \"unchanged\" or \"ok\" accordingly, and the new manager holds exactly the plugins of the given files, found by name ignoring case; two files whose names differ only in case make the load fail.",
 ["inputs","histories"],
 "Every combination of previously loaded plugins and present files, contents and reloadability, every reload history.",
 "Tests see three plugins with one outcome each; the rule must hold for every combination and history, including names that differ in case.",
 [PM,SW],
 [("name conflict check and classification","pluginManager.go:loadPlugins/removeNotReloadable/removeUnchanged/addUnchanged/buildFileInfoMap"),("result map","pluginManagerSwapper.go:loadPluginFiles")],
 [("Plugin.FileSha1","digest of the loaded file",PL),("Plugin.Note","outcome reported for the plugin",PL)],
 ["Details returned by LoadPlugins/Reload","PluginManager.FindPlugin","PluginManager.Plugins"])

prop("C09","OnFree runs once, only after the last manager using the plugin is gone",
 "For each loaded plugin instance OnFree is called at most once, and only when every manager that contains the instance (including those it was carried over into) has been released; releasing the last of them does call it. A failed load or a rejected reload releases every plugin it had newly loaded and leaves the plugins it shares with the current manager in use.",
 ["histories","fault_sequences"],
 "Every history of loads, failed loads, reloads with carried-over plugins, rejected reloads and delayed releases.",
 "Tests check two reference counts and one log line on a single plugin; balance over every history and failure point is out of their reach.",
 [PM,SW,PL],
 [("reference count shared by carried-over copies","pluginManager.go:addUnchanged, plugin.go:newPlugin"),("release loop","pluginManager.go:invokeEveryOnFree"),("release on failure","pluginManager.go:loadPlugins, staticPlugin.go:loadStaticPlugins, pluginManagerSwapper.go:invokeReloadCallbacks")],
 [("Plugin.Refs","managers that hold the instance",PL),("Plugin.freeOnce","OnFree has run",PL)],
 ["calls of OnFree"])

prop("C10","A replaced manager is released once, after the full grace period",
 "When a load or reload replaces a current manager, exactly that replaced manager is released, exactly once, in the background, no sooner than the configured free delay and the built-in minimum delay after the replacement. Nothing is scheduled for release when the call fails, when no plugin was found, or when there was no previous manager.",
 ["histories","schedules","configurations"],
 "Every configured delay (including zero, negative and larger than the minimum), every history of loads and failures.",
 "The only test shortens both delays to one second and looks for one log line.",
 [SW],
 [("background release","pluginManagerSwapper.go:loadPluginFiles")],
 [("opts.freeDelay","configured delay",SW),("minFreeDelay","built-in minimum",SW)],
 ["time of OnFree calls"])

prop("C11","The vault holds every plugin's live functions and types, without collisions",
 "In every successfully loaded manager the vault's live functions are exactly the union of the live functions of all its plugins (newly loaded and carried over), each name bound to the value its plugin registered, and likewise for live types; if two plugins register the same live function name, or the same live type name, the load fails, and it does not fail for that reason otherwise. The vault, its data bag and its extension are fresh for every manager, and the extension comes from one call of the configured constructor.",
 ["inputs","histories"],
 "Every set of plugins with every assignment of live names, every reload history.",
 "Two collision examples and a few lookups are tested; exact union over all sets is not.",
 [PM,"vault/vault.go"],
 [("merge with duplicate test","pluginManager.go:setupVault"),("fresh maps per manager","pluginManager.go:newPluginManager")],
 [("Vault.LiveFuncs","live functions by name","vault/vault.go"),("Vault.LiveTypes","live types by name","vault/vault.go")],
 ["PluginManager.Vault","error returned by LoadPlugins/Reload"])

prop("C12","Fan-out invocation reaches every plugin once, in order, despite failures",
 "Invoking a function on all plugins calls it exactly once on each plugin of the manager, with the name and parameters given, in dependency order (in reverse order for the backward variant), no matter which of the calls return errors or panic.",
 ["inputs","fault_sequences"],
 "Every number of plugins and every combination of failing and panicking calls.",
 "One pair of plugins that either both fail or both panic is tested.",
 [PM],
 [("fan-out loops","pluginManager.go:InvokeEach/InvokeEachBackward")],
 [("PluginManager.ordered","plugins in dependency order",PM)],
 ["calls of InvokeFunc"])

prop("C13","Exactly the selected plugins are loaded",
 "A load considers exactly the non-directory entries of the plugin directory that carry the plugin file extension and, if a whitelist is set, whose plugin name is on it; it fails because of the whitelist exactly when some listed plugin is absent. In static linking mode it considers exactly the registered plugins, restricted to the whitelist if one is set, and fails if a listed one is not registered.",
 ["inputs","configurations"],
 "Every directory content (files, directories, other extensions), every whitelist including repeated and missing names.",
 "No test sets a whitelist at all.",
 [SW,SP],
 [("directory filter and whitelist check","pluginManagerSwapper.go:loadPluginsImpl"),("static whitelist","staticPlugin.go:(PluginManagerSwapper).loadStaticPlugins"),("membership test","pluginManagerSwapper.go:Contains")],
 [("opts.whitelist","names to load",SW)],
 ["Details","PluginManager.Plugins"])

prop("C14","Symbol lookup assigns exactly when types fit and never panics",
 "Looking up a symbol in a plugin assigns to the target if and only if the symbol exists and its value (or, failing that, the variable it points to) has a type assignable to the target, in which case exactly that value is stored and no error is returned. In every other case, including an empty name and any nil or non-pointer target, it returns an error, does not touch the target and does not panic; a missing symbol is reported with the dedicated not-exist error.",
 ["inputs"],
 "Every symbol name, symbol type and target value of any type.",
 "The test tries a dozen combinations on one plugin.",
 [PL],
 [("lookup","plugin.go:Lookup"),("nil test","plugin.go:isNil")],
 [], ["Plugin.Lookup result and target"])

prop("C15","A plugin is loaded only with all required functions bound to their roles",
 "A plugin, dynamic or static, that lacks any of the required functions makes the load fail with an error that names the missing functions, before any of its functions is called. In a loaded plugin each required function is bound to the role of the same name: dynamically by symbol name, statically by the position the generated code passes it in.",
 ["inputs","programs"],
 "Every subset of missing functions, in dynamic and static mode.",
 "Two subsets are tested in dynamic mode, none in static mode; a swap of two functions of the same type would not be noticed.",
 [PM,SP,BD,"cli/hotswap/cmd/hotswapStaticPluginInit.tpl"],
 [("role table","pluginManager.go:makePluginFuncItemList"),("missing function check","pluginManager.go:loadPlugin, staticPlugin.go:loadStaticPlugin"),("positional constructor","staticPlugin.go:NewPluginFuncs"),("sorted generated arguments","cli/hotswap/cmd/build.go:parseRequiredPluginFuncs")],
 [], ["error returned by LoadPlugins/Reload","which function is called for a hook"])

prop("C16","Loads and reloads are mutually exclusive and always release the lock",
 "At most one load or reload of a swapper is in progress at a time: everything a load does to the swapper's published state happens while it holds the swapper exclusively. Whatever way a load or reload ends (success, error, or panic of host or plugin code), the exclusion is given up, so that later calls can proceed, and reading the current manager never blocks.",
 ["schedules","fault_sequences"],
 "Every interleaving of concurrent loads, reloads and readers, every failure inside them.",
 "No test runs two loads concurrently or loads again after every kind of failure.",
 [SW,SP],
 [("mutex around the public entry points","pluginManagerSwapper.go:LoadPlugins/ReloadWithCallback"),("atomic publication","pluginManagerSwapper.go:Current")],
 [("PluginManagerSwapper.mu","exclusion of loads",SW)],
 ["blocked or overlapping calls"])

prop("C17","Static linking mode never reloads",
 "With statically linked plugins configured, a load initialises fresh plugin instances from the registered functions without touching the plugin directory and reports \"ok\" for each, and every reload request is refused with an error that leaves the current manager, the counter and all plugins untouched.",
 ["histories","configurations"],
 "Every set of static plugins, every history of loads and reload attempts.",
 "One load of three static plugins is tested, no reload.",
 [SW,SP],
 [("refusal of reload","pluginManagerSwapper.go:ReloadWithCallback"),("static load","staticPlugin.go:loadStaticPlugins")],
 [("PluginManagerSwapper.staticPlugins","registered static plugins",SW)],
 ["Details and error of LoadPlugins/Reload"])

prop("C18","The builder takes exactly the plugin's source files into the build",
 "When building a plugin, the build copy contains exactly the regular Go files of the plugin directory tree that are neither tests nor files generated by an earlier static build, plus the other files that match the include pattern and do not match the exclude pattern, at the same relative paths.",
 ["inputs","configurations"],
 "Every directory tree and every pair of include and exclude patterns.",
 "No test looks at which files the builder copies; no test uses the patterns.",
 [BD],
 [("file walk","cli/hotswap/cmd/build.go:collectFiles"),("copy","cli/hotswap/cmd/build.go:copyFiles")],
 [], ["temporary build directory (--leaveTemps)"])

prop("C19","The builder registers every live function and type, and rejects clashes",
 "The builder registers exactly the top-level functions (not methods) and top-level struct types of the plugin's packages whose names start, ignoring case, with the live prefix, each in its own package. A name used twice among them, or a live type that is not a struct, makes the build fail before any code is generated.",
 ["inputs","programs"],
 "Every plugin source tree and every live prefix.",
 "Tests look at the live names of one or two example plugins; no builder error path is tested.",
 [BD],
 [("declaration scan","cli/hotswap/cmd/build.go:completePlugin")],
 [], ["generated registration files","exit status of the builder"])

prop("C20","The builder deletes only what it generated",
 "The builder never deletes the plugin's own source files: the only directory tree it removes, apart from the generated registry package on an explicit clean, is a temporary build directory next to (never equal to or above) the plugin directory, and the only single files it removes are generated files of the plugin being built. Generating static-linking code for one plugin never removes the code generated for another.",
 ["inputs","configurations","crash_points"],
 "Every plugin directory, output directory, flag combination and interruption point.",
 "Tests never look at what the builder deletes.",
 [BD],
 [("temporary directory","cli/hotswap/cmd/build.go:execute/removeTmpDir"),("removal of generated files","cli/hotswap/cmd/build.go:removeStaticFiles/findPluginInitFiles")],
 [], ["file system after a build"])

prop("C21","A plugin directory is resolved to its true import path, always terminating",
 "For every directory, resolving it either fails with an error or yields the import path formed by the module path of the nearest enclosing go.mod and the path from that module's root to the directory, together with the name of the one package in the directory or a valid name derived from the directory name. It always terminates, also outside any module.",
 ["inputs"],
 "Every directory at any depth inside or outside a module.",
 "Tests only build plugins at one depth inside this module.",
 [HU],
 [("walk to the module root","internal/hutils/hutils.go:PackageFromDirectory")],
 [], ["import paths used in generated code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
