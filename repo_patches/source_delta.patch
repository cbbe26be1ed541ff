From b50c78c6a3adf6c89f379c82d6f5b1b4988656bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 1/4] fix: load plugins whose file names contain upper-case
 letters

The file info map is keyed by lower-case names, but loadPlugins looked it up
by the original name and dereferenced nil.
---
 pluginManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pluginManager.go b/pluginManager.go
index 553a68a..872778a 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -133,7 +133,7 @@ func (pm *PluginManager) loadPlugins(files []string, oldManager *PluginManager,
 	pm.outputStats1(infoMap)
 	pm.when = time.Now()
 	for _, name := range infoMap.names() {
-		info := infoMap.m[name]
+		info := infoMap.m[name2key(name)]
 		curFileInfo = info
 		if err = pm.loadPlugin(info, data); err != nil {
 			return fmt.Errorf("failed to load the plugin %s. err: %w", info.name, err)
-- 
2.43.0


From 75f7780ef0a192e277604f5c2bb300320043065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 2/4] fix: accept a whitelist that names a plugin twice

The load failed with an empty list of missing plugins because the number of
found plugins was compared with the length of the whitelist.
---
 pluginManagerSwapper.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index 538608b..aef07c2 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -114,13 +114,13 @@ func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCa
 		}
 	}
 	if len(sw.opts.whitelist) > 0 {
-		if len(found) != len(sw.opts.whitelist) {
-			var missing []string
-			for _, v := range sw.opts.whitelist {
-				if _, ok := found[v]; !ok {
-					missing = append(missing, v)
-				}
+		var missing []string
+		for _, v := range sw.opts.whitelist {
+			if _, ok := found[v]; !ok {
+				missing = append(missing, v)
 			}
+		}
+		if len(missing) > 0 {
 			return nil, errors.New("cannot find the following plugin(s): " + hutils.Join(missing...))
 		}
 	}
-- 
2.43.0


From 55321711adb124a635e2bb56a2eb3cd0f92a873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 3/4] fix: tell exported import fields by the language rule
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The first byte of the field name was taken for its first letter, so that
unexported fields such as "éa" were treated as dependencies and exported
fields such as "Ḁb" were never set.
---
 pluginManager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index 872778a..f660cfa 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -13,7 +13,6 @@ import (
 	"sort"
 	"strings"
 	"time"
-	"unicode"
 
 	"github.com/edwingeng/hotswap/internal/hutils"
 	"github.com/edwingeng/hotswap/vault"
@@ -260,7 +259,7 @@ func (pm *PluginManager) initDeps() error {
 		n := impTyp.Elem().NumField()
 		for i := 0; i < n; i++ {
 			field := impTyp.Elem().Field(i)
-			if ch := field.Name[0]; !unicode.IsUpper(rune(ch)) {
+			if !field.IsExported() {
 				continue
 			}
 			if field.Tag.Get("hotswap") == "-" {
-- 
2.43.0


From 582f6537db3e6c4b02b3ff97d589faf378501694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 4/4] fix: Lookup must not panic on a static plugin

Static plugins have no plugin.Plugin; looking up a symbol dereferenced nil.
---
 plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin.go b/plugin.go
index 0a249f8..04710fe 100644
--- a/plugin.go
+++ b/plugin.go
@@ -82,6 +82,9 @@ func (pl *Plugin) Lookup(symName string, out interface{}) error {
 	if k := outVal.Type().Kind(); k != reflect.Ptr {
 		return fmt.Errorf("out must be a pointer. plugin: %s, symName: %s", pl.Name, symName)
 	}
+	if pl.P == nil {
+		return ErrNotExist // a static plugin has no symbol table
+	}
 	sym, err := pl.P.Lookup(symName)
 	if err != nil {
 		return ErrNotExist
-- 
2.43.0

