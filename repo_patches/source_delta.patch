From 6670f40f904ce6dfcc4e8b2a766434d17764c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 01/27] fix: a failed config load must not block subsequent
 lookups in the same session

The config lock was left locked, and in the shared cache, when the load of the
config panicked. All subsequent lookups would then wait for it forever.
---
 session/invocation.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index e1233b8..ab7edbd 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -94,16 +94,28 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 			// The loaded value is a lock. Wait for new config to be stored in place of
 			// this lock
 			lock.RLock()
-			val, _ := sc.Load(cp)
-			conf = val.(api.Config)
+			val, ok := sc.Load(cp)
 			lock.RUnlock()
+			if !ok {
+				// The load that was waited for failed. Make a new attempt
+				return ic.Config(configPath, moduleName)
+			}
+			conf = val.(api.Config)
 		} else {
 			conf = lv.(api.Config)
 		}
 	} else {
-		conf = config.New(configPath)
-		sc.Store(cp, conf)
-		myLock.Unlock()
+		func() {
+			defer func() {
+				if conf == nil {
+					// Load failed. Don't leave a lock behind that nobody will replace with a config
+					sc.Delete(lc)
+				}
+				myLock.Unlock()
+			}()
+			conf = config.New(configPath)
+			sc.Store(cp, conf)
+		}()
 	}
 	rc := Resolve(ic, conf, moduleName)
 	ic.configs[configPath] = rc
-- 
2.43.0


From 256b4b5775a2fe9fa7d7f31ac955a07d2dbb3672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 02/27] fix: restore invocation scope when DoWithScope exits
 with a panic

---
 session/invocation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index ab7edbd..91bece6 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -295,9 +295,11 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc := ic.scope
+	defer func() {
+		ic.scope = sc
+	}()
 	ic.scope = scope
 	doer()
-	ic.scope = sc
 }
 
 func (ic *ivContext) Scope() dgo.Keyed {
-- 
2.43.0


From 0edc64f70e02846d3ffa75e385b5f189c2672eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 03/27] fix: pass provider context to loaded data_dig functions

The function was called with a frozen array containing the invocation which
always panics since an invocation cannot be frozen.
---
 internal/datadigprovider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datadigprovider.go b/internal/datadigprovider.go
index 9f621d3..3afce37 100644
--- a/internal/datadigprovider.go
+++ b/internal/datadigprovider.go
@@ -44,7 +44,7 @@ func (dh *dataDigProvider) loadFunction(ic api.Invocation) (pf hiera.DataDig) {
 	he := dh.hierarchyEntry
 	if f, ok := ic.LoadFunction(he); ok {
 		return func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
-			return f.(dgo.Function).Call(vf.Values(ic, key))[0]
+			return f.Call(vf.MutableValues(pc, key))[0]
 		}
 	}
 	ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, he.Function().Name()) })
-- 
2.43.0


From c396f821dfbe97875301fe5e048cd7f4edfa2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:01 +0000
Subject: [PATCH 04/27] fix: lookup functions must not panic when called with a
 context that isn't a ServerContext

---
 provider/modulelookupkey.go | 5 ++++-
 provider/muxlookupkey.go    | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 1b9f94a..204fb46 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -23,7 +23,10 @@ const ModulePath = `hiera::lookup::modulepath`
 // If such a path exists and is a directory that in turn contains a hiera.yaml file, then a lookup
 // will be performed in that module.
 func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
-	sc := pc.(api.ServerContext)
+	sc, ok := pc.(api.ServerContext)
+	if !ok {
+		return nil
+	}
 	if ci := strings.Index(key, `::`); ci > 0 {
 		modName := strings.ToLower(key[:ci])
 		var mp dgo.Function
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 02995bf..567acc6 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -20,10 +20,10 @@ const LookupKeyFunctions = `hiera::lookup::providers`
 // requires no configuration files.
 func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc, ok := pc.(api.ServerContext)
-	ic := sc.Invocation()
 	if !ok {
 		return nil
 	}
+	ic := sc.Invocation()
 	var rpv dgo.Array
 	if rpv, ok = ic.SessionOptions().Get(LookupKeyFunctions).(dgo.Array); !ok {
 		return nil
-- 
2.43.0


From a8694deb8510214382d80c310a3768ee5ab557ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 05/27] fix: don't share the backing array for variables
 between concurrent REST requests

---
 hieraserver/rest/rest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index da49da3..3269030 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -133,7 +133,8 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 		opts.Merge = params.Get(`merge`)
 		opts.Type = params.Get(`type`)
-		opts.Variables = append(opts.Variables, params[`var`]...)
+		// Ensure that the slice isn't shared with other requests
+		opts.Variables = append(append([]string{}, cmdOpts.Variables...), params[`var`]...)
 		opts.RenderAs = `json`
 		out := bytes.Buffer{}
 		if hiera.LookupAndRender(ctx, &opts, []string{key}, &out) {
-- 
2.43.0


From 7612965dc28131e33498a874a5e0475746e63922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 06/27] fix: implement HashCode for Key

---
 api/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/key.go b/api/key.go
index 5104384..9399bc8 100644
--- a/api/key.go
+++ b/api/key.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/tf"
+	"github.com/lyraproj/dgo/util"
 	"github.com/lyraproj/dgo/vf"
 )
 
@@ -122,7 +123,7 @@ func (k *key) Equals(value interface{}) bool {
 }
 
 func (k *key) HashCode() int {
-	panic("implement me")
+	return util.StringHash(k.source)
 }
 
 func (k *key) Parts() []interface{} {
-- 
2.43.0


From 729b0a3c83c7e16e20c4e7ef349edb4a21fc7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 07/27] fix: detect endless recursion in lookups and in
 interpolation of scope variables

The guard against endless recursion was never used. A value that refers to itself
therefore exhausted the stack, an error that cannot be recovered.
---
 session/interpolate.go |  7 +++++--
 session/invocation.go  | 25 ++++++++++++++++---------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/session/interpolate.go b/session/interpolate.go
index 565b8c7..e6b73cd 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -161,8 +161,11 @@ func (ic *ivContext) InterpolateString(str string, allowMethods bool) (dgo.Value
 func (ic *ivContext) InterpolateInScope(expr string, allowMethods bool) dgo.Value {
 	key := api.NewKey(expr)
 	if val := ic.Scope().Get(key.Root()); val != nil {
-		val, _ = ic.doInterpolate(val, allowMethods)
-		return key.Dig(ic, val)
+		// Use a name that isn't confused with a lookup of a key with the same name
+		return ic.withName(`%{`+expr+`}`, func() dgo.Value {
+			val, _ = ic.doInterpolate(val, allowMethods)
+			return key.Dig(ic, val)
+		})
 	}
 	return nil
 }
diff --git a/session/invocation.go b/session/invocation.go
index 91bece6..020db7a 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -261,20 +261,27 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 		})
 	}
 
-	v := ic.TopProvider()(ic.ServerContext(options), rootKey)
-	if v != nil {
-		dc := ic.ForData()
-		v = dc.Interpolate(v, true)
-		v = key.Dig(dc, v)
-	}
-	return v
+	return ic.WithKey(key, func() dgo.Value {
+		v := ic.TopProvider()(ic.ServerContext(options), rootKey)
+		if v != nil {
+			dc := ic.ForData()
+			v = dc.Interpolate(v, true)
+			v = key.Dig(dc, v)
+		}
+		return v
+	})
 }
 
 func (ic *ivContext) WithKey(key api.Key, actor dgo.Producer) dgo.Value {
-	if util.ContainsString(ic.nameStack, key.Source()) {
+	return ic.withName(key.Source(), actor)
+}
+
+// withName guards the call to the given actor against endless recursion
+func (ic *ivContext) withName(name string, actor dgo.Producer) dgo.Value {
+	if util.ContainsString(ic.nameStack, name) {
 		panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(ic.nameStack, `, `)))
 	}
-	ic.nameStack = append(ic.nameStack, key.Source())
+	ic.nameStack = append(ic.nameStack, name)
 	defer func() {
 		ic.nameStack = ic.nameStack[:len(ic.nameStack)-1]
 	}()
-- 
2.43.0


From e9caaa4fda3bf4a62df61acef4d66c68ede22dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 08/27] fix: a nested lookup must use its own lookup options
 and merge strategy

A lookup made by an interpolation used the mode and merge strategy of the lookup that
it was nested in, and replaced the strategy of that lookup.
---
 session/invocation.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 020db7a..06e73cf 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -262,7 +262,7 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 	}
 
 	return ic.WithKey(key, func() dgo.Value {
-		v := ic.TopProvider()(ic.ServerContext(options), rootKey)
+		v := ic.TopProvider()(ic.forLookup().ServerContext(options), rootKey)
 		if v != nil {
 			dc := ic.ForData()
 			v = dc.Interpolate(v, true)
@@ -420,6 +420,16 @@ func (ic *ivContext) ForData() api.Invocation {
 	return &lic
 }
 
+// forLookup returns an Invocation that can be used for a new lookup, possibly nested in another lookup, without
+// using or disturbing the lookup options and merge strategy of the receiver.
+func (ic *ivContext) forLookup() api.Invocation {
+	lic := *ic
+	lic.luOpts = nil
+	lic.strategy = nil
+	lic.mode = topLevelMode
+	return &lic
+}
+
 func (ic *ivContext) LookupOptions() dgo.Map {
 	return ic.luOpts
 }
-- 
2.43.0


From 13cbed655bbb2a4042974572d1f766bc0eadb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 09/27] fix: don't reveal values that are converted to
 Sensitive in explanations

The redacted flag was set but never used. It was also not set when the lookup options
stipulated a conversion to a parameterized Sensitive type.
---
 session/invocation.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 06e73cf..8e2c079 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -21,6 +21,9 @@ import (
 const hieraConfigsPrefix = `HieraConfig:`
 const hieraLockPrefix = `HieraLock:`
 
+// redactedText is explained instead of a value that must not be revealed
+const redactedText = `[value redacted]`
+
 type invocationMode byte
 
 const (
@@ -198,7 +201,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 	convertToType, convertToArgs := ic.extractConversion()
 
 	var v dgo.Value
-	if typ.Sensitive.Equals(convertToType) {
+	if convertToType != nil && typ.Sensitive.Assignable(convertToType) {
 		ic.DoRedacted(func() { v = fn() })
 	} else {
 		v = fn()
@@ -332,6 +335,9 @@ func (ic *ivContext) WithInterpolation(expr string, producer dgo.Producer) dgo.V
 		return producer()
 	}
 	defer ic.explainer.Pop()
+	if ic.redacted {
+		expr = redactedText
+	}
 	ic.explainer.PushInterpolation(expr)
 	return producer()
 }
@@ -458,14 +464,22 @@ func (ic *ivContext) ReportLocationNotFound() {
 
 func (ic *ivContext) ReportFound(key interface{}, value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptFound(key, value)
+		ic.explainer.AcceptFound(key, ic.redact(value))
 	}
 }
 
 func (ic *ivContext) ReportMergeResult(value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptMergeResult(value)
+		ic.explainer.AcceptMergeResult(ic.redact(value))
+	}
+}
+
+// redact returns a text that should be revealed instead of the given value if the invocation is redacted
+func (ic *ivContext) redact(value dgo.Value) dgo.Value {
+	if ic.redacted {
+		return vf.String(redactedText)
 	}
+	return value
 }
 
 func (ic *ivContext) ReportMergeSource(source string) {
-- 
2.43.0


From 3eac093b14977ebbcccffe7ac23c95d2763cc513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 10/27] fix: don't fall back to plain HTTP when the TLS
 configuration is incomplete

---
 hieraserver/rest/rest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 3269030..6f759b8 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -166,9 +166,12 @@ func loadCertPool(pemFile string) (*x509.CertPool, error) {
 }
 
 func makeTLSconfig() (*tls.Config, error) {
-	if sslCert == "" || sslKey == "" {
+	if sslCert == "" && sslKey == "" && clientCA == "" && !clientCertVerify {
 		return nil, nil
 	}
+	if sslCert == "" || sslKey == "" {
+		return nil, errors.New("both ssl-cert and ssl-key must be specified when using TLS")
+	}
 	tlsConfig := new(tls.Config)
 
 	cert, err := tls.LoadX509KeyPair(sslCert, sslKey)
-- 
2.43.0


From 8c11dd5bb090b50a81b0ab2ddfa93cf7c1ad8fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 11/27] fix: correct spelling of mapped_paths in schema

---
 schema/hiera_v5.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/hiera_v5.yaml b/schema/hiera_v5.yaml
index 6e20887..44daa1a 100644
--- a/schema/hiera_v5.yaml
+++ b/schema/hiera_v5.yaml
@@ -109,7 +109,7 @@ definitions:
       - required:
           - uris
       - required:
-          - mappded_paths
+          - mapped_paths
       - not:
           anyOf:
             - required:
@@ -125,7 +125,7 @@ definitions:
             - required:
                 - uris
             - required:
-                - mappded_paths
+                - mapped_paths
   providerFunction:
     oneOf:
       - not:
-- 
2.43.0


From aa4562dd70d880da3300fc8aeb2be7678c5b62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 12/27] fix: don't share an unsynchronized map of module
 providers between invocations

The map was cached in the session and thus modified by concurrent lookups.
---
 provider/modulelookupkey.go | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 204fb46..f791525 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -17,6 +17,9 @@ import (
 // value must be a string with paths separated with the OS-specific path separator.
 const ModulePath = `hiera::lookup::modulepath`
 
+// moduleProviderPrefix prefixes the name of a module in the key used when caching the provider for that module.
+const moduleProviderPrefix = `hiera::moduleprovider::`
+
 // ModuleLookupKey is a lookup key function that performs a lookup in modules. The function expects
 // a key with multiple segments separated by a double colon '::'. The first segment is considered
 // the name of a module and that module must be found in the path stored as the ModulePath option.
@@ -30,13 +33,14 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	if ci := strings.Index(key, `::`); ci > 0 {
 		modName := strings.ToLower(key[:ci])
 		var mp dgo.Function
-		mpm := moduleProviders(sc)
-		if f := mpm.Get(modName); f != nil {
+		iv := sc.Invocation()
+		cacheKey := moduleProviderPrefix + modName
+		if f, ok := sc.CachedValue(cacheKey); ok {
 			mp = f.(dgo.Function)
 		} else {
-			mp = loadModuleProvider(sc.Invocation(), mpm, modName)
+			mp = loadModuleProvider(iv, modName)
+			sc.Cache(cacheKey, mp)
 		}
-		iv := sc.Invocation()
 		return iv.WithModule(modName, func() dgo.Value {
 			if mp == notFoundLookupKeyFunc {
 				iv.ReportModuleNotFound()
@@ -48,20 +52,9 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	return nil
 }
 
-func moduleProviders(sc api.ServerContext) dgo.Map {
-	var mp dgo.Map
-	if c, ok := sc.CachedValue(`hiera::moduleproviders`); ok {
-		mp = c.(dgo.Map)
-	} else {
-		mp = vf.MutableMap()
-		sc.Cache(`hiera::moduleproviders`, mp)
-	}
-	return mp
-}
-
 var notFoundLookupKeyFunc = vf.Value(func(pc hiera.ProviderContext, key string) dgo.Value { return nil }).(dgo.Function)
 
-func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.Function {
+func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 	var mp dgo.Function = notFoundLookupKeyFunc
 	if modulePath, ok := ic.SessionOptions().Get(ModulePath).(dgo.String); ok {
 		for _, path := range filepath.SplitList(modulePath.GoString()) {
@@ -71,7 +64,6 @@ func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.F
 			}
 		}
 	}
-	mpm.Put(moduleName, mp)
 	return mp
 }
 
-- 
2.43.0


From 6a7ce65f1bbecd26a7f2e211936f833b9d7f5f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 13/27] fix: release plugin lock when an attempt is made to
 kill a plugin that is already killed

---
 session/pluginloader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 72b724e..22c0bd1 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -206,6 +206,8 @@ func initCmd(opts dgo.Map, path string) *exec.Cmd {
 
 func (p *plugin) kill() {
 	p.lock.Lock()
+	defer p.lock.Unlock()
+
 	process := p.process
 	if process == nil {
 		return
@@ -214,7 +216,6 @@ func (p *plugin) kill() {
 	defer func() {
 		p.wGroup.Wait()
 		p.process = nil
-		p.lock.Unlock()
 	}()
 
 	graceful := true
-- 
2.43.0


From 3254327b4e0b68ac2bfef024bb8c7ee8d12c7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 14/27] fix: ensure that goroutines used by plugins terminate

The producers of the metadata and process wait channels were blocked forever when a
timeout occurred, and the stdout reader was spinning on errors other than EOF.
---
 session/pluginloader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 22c0bd1..9f9a58d 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -98,7 +98,7 @@ func ignoreOut(cmdOut io.Reader, wGroup *sync.WaitGroup) {
 	toss := make([]byte, 0x1000)
 	for {
 		_, err := cmdOut.Read(toss)
-		if err == io.EOF {
+		if err != nil {
 			return
 		}
 	}
@@ -164,7 +164,8 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
-	metaCh := make(chan interface{})
+	// The channel is buffered so that its producer isn't blocked when there's nobody receiving
+	metaCh := make(chan interface{}, 1)
 	p.wGroup.Add(1)
 	go awaitMetaData(metaCh, cmdOut, &p.wGroup)
 
@@ -224,7 +225,8 @@ func (p *plugin) kill() {
 	}
 
 	if graceful {
-		done := make(chan bool)
+		// The channel is buffered so that its producer isn't blocked after a timeout
+		done := make(chan bool, 1)
 		go func() {
 			_, _ = process.Wait()
 			done <- true
-- 
2.43.0


From a839d45550cdb7e91fb333ce57b81d60c862d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 15/27] fix: don't register a plugin that is killed because its
 functions are invalid

---
 session/pluginloader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 9f9a58d..769a46b 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -186,13 +186,15 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	p.wGroup.Add(1)
 	go ignoreOut(cmdOut, &p.wGroup)
 
+	p.initialize(meta)
+	fm := p.functionMap()
+
+	// Register the plugin last so that a plugin that is killed because of an error isn't registered
 	if r.plugins == nil {
 		r.plugins = make(map[string]*plugin)
 	}
-	p.initialize(meta)
 	r.plugins[path] = p
-
-	return p.functionMap()
+	return fm
 }
 
 func initCmd(opts dgo.Map, path string) *exec.Cmd {
-- 
2.43.0


From 157e9e7c7d97d06876b7b26b70cdc9cded07c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 16/27] fix: don't leave zombie processes behind when plugins
 are killed

---
 session/pluginloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 769a46b..9775a08 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -156,6 +156,7 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	defer func() {
 		if r := recover(); r != nil {
 			_ = cmd.Process.Kill()
+			_, _ = cmd.Process.Wait()
 			panic(r)
 		}
 	}()
@@ -241,6 +242,7 @@ func (p *plugin) kill() {
 	} else {
 		// Graceful terminate failed. Just kill it!
 		_ = process.Kill()
+		_, _ = process.Wait()
 	}
 }
 
-- 
2.43.0


From 37e4262a0984284a05039809dee030f1e2c80ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 17/27] fix: yaml2json must convert all maps with keys that
 aren't strings

The conversion panicked on such keys and didn't descend into maps with string keys.
---
 yaml2json/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaml2json/main.go b/yaml2json/main.go
index a8c625e..aa331bf 100644
--- a/yaml2json/main.go
+++ b/yaml2json/main.go
@@ -3,6 +3,7 @@ package main
 
 import (
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"log"
 	"os"
@@ -15,9 +16,13 @@ func stringKeys(x interface{}) interface{} {
 	case map[interface{}]interface{}:
 		m := map[string]interface{}{}
 		for k, v := range x {
-			m[k.(string)] = stringKeys(v)
+			m[fmt.Sprint(k)] = stringKeys(v)
 		}
 		return m
+	case map[string]interface{}:
+		for k, v := range x {
+			x[k] = stringKeys(v)
+		}
 	case []interface{}:
 		for i, v := range x {
 			x[i] = stringKeys(v)
-- 
2.43.0


From 2bd1d85639f57a27e4b77c386d1204303bec2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 18/27] fix: respect the --loglevel option in the CLI and in
 the REST server

---
 cli/hiera.go             | 6 ++++++
 hieraserver/rest/rest.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cli/hiera.go b/cli/hiera.go
index 6c463bb..2c1e87c 100644
--- a/cli/hiera.go
+++ b/cli/hiera.go
@@ -10,6 +10,7 @@ import (
 	"github.com/lyraproj/hiera/hiera"
 	"github.com/lyraproj/hiera/provider"
 	sdk "github.com/lyraproj/hierasdk/hiera"
+	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
 )
 
@@ -120,6 +121,11 @@ func NewCommand() *cobra.Command {
 
 func cmdLookup(cmd *cobra.Command, args []string) error {
 	cmd.SilenceUsage = true
+	level, err := log.ParseLevel(logLevel)
+	if err != nil {
+		return err
+	}
+	log.SetLevel(level)
 	cmdOpts.Default = dflt.StringPointer()
 	cfgOpts := vf.MutableMap()
 	cfgOpts.Put(api.HieraDialect, dialect)
diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 6f759b8..1f81214 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -19,6 +19,7 @@ import (
 	"github.com/lyraproj/hiera/hiera"
 	"github.com/lyraproj/hiera/provider"
 	sdk "github.com/lyraproj/hierasdk/hiera"
+	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
 )
 
@@ -73,6 +74,11 @@ func newCommand() *cobra.Command {
 var keyPattern = regexp.MustCompile(`^/lookup/(.*)$`)
 
 func startServer(_ *cobra.Command, _ []string) {
+	level, err := log.ParseLevel(logLevel)
+	if err != nil {
+		panic(err)
+	}
+	log.SetLevel(level)
 	configOptions := map[string]interface{}{
 		provider.LookupKeyFunctions: []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment},
 		api.HieraConfig:             configPath}
-- 
2.43.0


From 2022465f22b39d99ca4d2b465cd9aa2815572bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:31 +0000
Subject: [PATCH 19/27] fix: don't leak a connection for each call to a plugin

---
 session/pluginloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 9775a08..db241cb 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -343,6 +343,8 @@ func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
 	client := http.Client{
 		Timeout: time.Second * 5,
 		Transport: &http.Transport{
+			// The transport isn't reused so an idle connection would just linger
+			DisableKeepAlives: true,
 			Dial: func(_, _ string) (net.Conn, error) {
 				return net.Dial(p.network, p.addr)
 			},
-- 
2.43.0


From 759ccc6bb6d1d59e3143d56c8fd06c192ef655ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 20/27] fix: don't use environment variables as lookup options

---
 provider/environment.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/provider/environment.go b/provider/environment.go
index 7f02a3a..c7647bd 100644
--- a/provider/environment.go
+++ b/provider/environment.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
+	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
 )
 
@@ -13,7 +14,11 @@ import (
 // "env" in which case all current environment variables will be returned as an OrderedMap, or
 // prefixed with "env::" in which case the rest of the key is interpreted as the environment variable
 // to look for.
-func Environment(_ hiera.ProviderContext, key string) dgo.Value {
+func Environment(pc hiera.ProviderContext, key string) dgo.Value {
+	if sc, ok := pc.(api.ServerContext); ok && sc.Invocation().LookupOptionsMode() {
+		// The environment contains no lookup options
+		return nil
+	}
 	if key == `env` {
 		env := os.Environ()
 		em := vf.MapWithCapacity(len(env))
-- 
2.43.0


From 92051252cf76cf9e6b1dfd25d48fc96fcc3d0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:39 +0000
Subject: [PATCH 21/27] fix: remove duplicates in a unique merge when only one
 source has a value

---
 merge/strategy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge/strategy.go b/merge/strategy.go
index 677184b..0ed25b1 100644
--- a/merge/strategy.go
+++ b/merge/strategy.go
@@ -164,7 +164,7 @@ func (d *unique) mergeSingle(rv reflect.Value, vf func(l interface{}) dgo.Value)
 
 func (d *unique) convertValue(v dgo.Value) dgo.Value {
 	if av, ok := v.(dgo.Array); ok {
-		return av.Flatten()
+		return av.Flatten().Unique()
 	}
 	return vf.Values(v)
 }
-- 
2.43.0


From df15b6fe2b6ea96c1ac35b97e468be17b68f044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:55 +0000
Subject: [PATCH 22/27] fix: don't parse the first segment of a key again

The name passed to a lookup_key function is the first segment of a key. Parsing
it again made a quoted segment such as 'a.b' find the value of a instead.
---
 api/key.go                  | 14 ++++++++++++++
 provider/configlookupkey.go |  2 +-
 provider/muxlookupkey.go    |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/api/key.go b/api/key.go
index 9399bc8..0fa42fd 100644
--- a/api/key.go
+++ b/api/key.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/tf"
@@ -49,6 +50,19 @@ func NewKey(str string) Key {
 	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
 }
 
+// NewRootKey returns a Key that has the given name as its only segment, regardless of what characters it contains
+func NewRootKey(name string) Key {
+	source := name
+	if strings.ContainsAny(name, `.'"`) {
+		q := `'`
+		if strings.Contains(name, q) {
+			q = `"`
+		}
+		source = q + name + q
+	}
+	return &key{source, []interface{}{name}}
+}
+
 var keyType = tf.NewNamed(`hiera.key`,
 	func(v dgo.Value) dgo.Value {
 		return NewKey(v.String())
diff --git a/provider/configlookupkey.go b/provider/configlookupkey.go
index 21139f2..d2abd51 100644
--- a/provider/configlookupkey.go
+++ b/provider/configlookupkey.go
@@ -20,7 +20,7 @@ func ConfigLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 func ConfigLookupKeyAt(sc api.ServerContext, configPath, key, moduleName string) dgo.Value {
 	ic := sc.Invocation()
 	cfg := ic.Config(configPath, moduleName)
-	k := api.NewKey(key)
+	k := api.NewRootKey(key)
 	if ic.LookupOptionsMode() {
 		return cfg.LookupOptions(k)
 	}
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 567acc6..8c287c3 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -43,7 +43,7 @@ func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc = sc.ForData()
 	args.Set(0, sc)
 	ic = sc.Invocation()
-	return ic.WithLookup(api.NewKey(key), func() dgo.Value {
+	return ic.WithLookup(api.NewRootKey(key), func() dgo.Value {
 		ic.SetMergeStrategy(sc.Option(`merge`), luOpts)
 		return ic.LookupAndConvertData(func() dgo.Value {
 			return ic.MergeStrategy().MergeLookup(spv, ic, luFunc)
-- 
2.43.0


From 23caf4f4bced412f7623c8240379c6436e96d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:21 +0000
Subject: [PATCH 23/27] fix: don't make an index of a quoted segment

A quoted numeric segment is a name, but was considered an index unless it was the
last segment of the key.
---
 api/key.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/api/key.go b/api/key.go
index 0fa42fd..b45ae4a 100644
--- a/api/key.go
+++ b/api/key.go
@@ -47,7 +47,7 @@ type (
 // NewKey parses the given string into a Key
 func NewKey(str string) Key {
 	b := bytes.NewBufferString(``)
-	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
+	return &key{str, parseUnquoted(b, str, str, []interface{}{}, false)}
 }
 
 // NewRootKey returns a Key that has the given name as its only segment, regardless of what characters it contains
@@ -160,9 +160,11 @@ func (k *key) String() string {
 	return k.Type().(dgo.NamedType).ValueString(k)
 }
 
-func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []interface{} {
+// parseUnquoted parses the given part. The quoted flag is true when the segment that the part starts with began with a
+// quoted string. Such a segment is a name and never an index.
+func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}, quoted bool) []interface{} {
 	mungedPart := func(ix int, part string) interface{} {
-		if i, err := strconv.ParseInt(part, 10, 32); err == nil {
+		if i, err := strconv.ParseInt(part, 10, 32); err == nil && !quoted {
 			if ix == 0 {
 				panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
 			}
@@ -181,6 +183,7 @@ func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []int
 		case '.':
 			parts = append(parts, mungedPart(len(parts), b.String()))
 			b.Reset()
+			quoted = false
 		default:
 			_, _ = b.WriteRune(c)
 		}
@@ -194,7 +197,7 @@ func parseQuoted(b *bytes.Buffer, q rune, key, part string, parts []interface{})
 			if i == len(part)-1 {
 				return append(parts, b.String())
 			}
-			return parseUnquoted(b, key, part[i+1:], parts)
+			return parseUnquoted(b, key, part[i+1:], parts, true)
 		}
 		_, _ = b.WriteRune(c)
 	}
-- 
2.43.0


From 1b68bea428ba4c1881a98102a087b55ee0e48ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:41 +0000
Subject: [PATCH 24/27] fix: files that match a glob had their priority
 determined by the order on disk

---
 config/glob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/glob.go b/config/glob.go
index 7a5ffe3..e8a20ac 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"github.com/bmatcuk/doublestar"
 	"github.com/lyraproj/dgo/dgo"
@@ -64,6 +65,8 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
 	rp := filepath.Join(dataDir, r.String())
 	matches, _ := doublestar.Glob(rp)
+	// The order found on disk is arbitrary and must not determine the priority of the files
+	sort.Strings(matches)
 	ls := make([]api.Location, len(matches))
 	for i, m := range matches {
 		ls[i] = &path{g.Original(), m, true}
-- 
2.43.0


From d6256eca19125e1d3703efb794a66e640cd49829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:41 +0000
Subject: [PATCH 25/27] fix: the directory of a module was determined by the
 order on disk

---
 provider/modulelookupkey.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index f791525..2777df8 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -1,6 +1,7 @@
 package provider
 
 import (
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -68,7 +69,9 @@ func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 }
 
 func loadModule(path, moduleName string) dgo.Function {
-	f, err := os.Open(path)
+	// Lookup module by finding a directory that matches the moduleName using case insensitive string comparison. The
+	// directories are sorted by name so that the outcome doesn't depend on the order in which they are found on disk.
+	fileInfos, err := ioutil.ReadDir(path)
 	if err != nil {
 		if os.IsNotExist(err) {
 			return nil
@@ -76,13 +79,6 @@ func loadModule(path, moduleName string) dgo.Function {
 		panic(err)
 	}
 
-	// Lookup module by finding a directory that matches the moduleName using case insensitive string comparison
-	fileInfos, err := f.Readdir(-1)
-	_ = f.Close()
-	if err != nil {
-		panic(err)
-	}
-
 	for _, fi := range fileInfos {
 		if !strings.EqualFold(fi.Name(), moduleName) {
 			continue
-- 
2.43.0


From 5d0286d0d4860e99abbef3a03bd1564ec363133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:31 +0000
Subject: [PATCH 26/27] fix: a function was chosen at random when a plugin has
 two with the same name

---
 session/pluginloader.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index db241cb..9f2eee5 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -12,6 +12,7 @@ import (
 	"net/url"
 	"os"
 	"os/exec"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -270,9 +271,16 @@ func (p *plugin) initialize(meta map[string]interface{}) {
 type luDispatch func(string) dgo.Function
 
 func (p *plugin) functionMap() dgo.Value {
+	// Go through the kinds in order. The last one wins if the plugin has functions of different kinds with the same name
+	kinds := make([]string, 0, len(p.functions))
+	for k := range p.functions {
+		kinds = append(kinds, k)
+	}
+	sort.Strings(kinds)
+
 	m := vf.MutableMap()
-	for k, v := range p.functions {
-		names := v.([]interface{})
+	for _, k := range kinds {
+		names := p.functions[k].([]interface{})
 		var df luDispatch
 		switch k {
 		case `data_dig`:
-- 
2.43.0


From 7c4d26d528007dfa2787f242c1085019f25bd36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:36 +0000
Subject: [PATCH 27/27] fix: print the error of the command, not the address of
 its output, and do it on stderr

---
 hieraserver/rest/rest.go | 2 +-
 lookup/lookup.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 1f81214..89bcb85 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -27,7 +27,7 @@ func main() {
 	cmd := newCommand()
 	err := cmd.Execute()
 	if err != nil {
-		fmt.Println(cmd.OutOrStderr(), err)
+		_, _ = fmt.Fprintln(cmd.OutOrStderr(), err)
 		os.Exit(1)
 	}
 }
diff --git a/lookup/lookup.go b/lookup/lookup.go
index 9994774..8b0671c 100644
--- a/lookup/lookup.go
+++ b/lookup/lookup.go
@@ -11,7 +11,7 @@ func main() {
 	cmd := cli.NewCommand()
 	err := cmd.Execute()
 	if err != nil {
-		fmt.Println(cmd.OutOrStderr(), err)
+		_, _ = fmt.Fprintln(cmd.OutOrStderr(), err)
 		os.Exit(1)
 	}
 }
-- 
2.43.0

