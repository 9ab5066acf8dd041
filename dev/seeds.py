"""Planted bugs: see seed.py"""
SEEDS = []


def seed(id, prop, needs, breaks, pkg, edits, test='', flags='', pre='', files=None, demo=None):
    fs = dict(files or {})
    if test:
        fs['demo.go.txt'] = test
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, pkg=pkg, edits=edits, flags=flags, pre=pre, files=fs, demo=demo))


seed('datahash-lock', 'C01', 'a data_hash function that fails with a panic, and a second lookup of the same provider in the same invocation',
     'the lock on the cached hashes is still held after a data_hash function has panicked', 'session', [('internal/datahashprovider.go', '''	defer dh.hashesLock.Unlock()

	if hash, ok = dh.hashes.Get(key).(dgo.Map); ok {
		return hash
	}
	hash = dh.providerFunction(ic)(ic.ServerContext(opts))
	dh.hashes.Put(key, hash)
	return
''', '''	if hash, ok = dh.hashes.Get(key).(dgo.Map); !ok {
		hash = dh.providerFunction(ic)(ic.ServerContext(opts))
		dh.hashes.Put(key, hash)
	}
	dh.hashesLock.Unlock()
	return
''')], '''package session_test

import (
	"context"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	cfg := "version: 5\\nhierarchy:\\n  - name: X\\n    data_hash: flaky\\n"
	if err = ioutil.WriteFile(filepath.Join(dir, "hiera.yaml"), []byte(cfg), 0600); err != nil {
		t.Fatal(err)
	}
	fail := true
	flaky := func(pc sdk.ProviderContext) dgo.Map {
		if fail {
			fail = false
			panic("no contact")
		}
		return vf.Map("a", "value of a")
	}
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir, api.HieraFunctions, map[string]interface{}{"flaky": flaky}), nil)
	iv := s.Invocation(nil, nil)
	e := config.New(filepath.Join(dir, "hiera.yaml")).Hierarchy()[0].Resolve(iv, nil)
	dp := session.CreateProvider(e)
	func() {
		defer func() {
			if recover() == nil {
				t.Error("the first lookup didn't fail")
			}
		}()
		dp.LookupKey(api.NewKey("a"), iv, nil)
	}()
	done := make(chan dgo.Value, 1)
	go func() {
		done <- dp.LookupKey(api.NewKey("a"), iv, nil)
	}()
	select {
	case v := <-done:
		if v == nil || v.String() != "value of a" {
			t.Errorf("unexpected %v", v)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the second lookup is stuck")
	}
}
''')

HEAD = '''package %s

import (
%s
)
'''


def go(pkg, imports, body):
    names = {'api': 'github.com/lyraproj/hiera/api', 'hiera': 'github.com/lyraproj/hiera/hiera', 'session': 'github.com/lyraproj/hiera/session', 'config': 'github.com/lyraproj/hiera/config',
             'explain': 'github.com/lyraproj/hiera/explain', 'provider': 'github.com/lyraproj/hiera/provider', 'merge': 'github.com/lyraproj/hiera/merge', 'dgo': 'github.com/lyraproj/dgo/dgo', 'vf': 'github.com/lyraproj/dgo/vf', 'typ': 'github.com/lyraproj/dgo/typ',
             'util': 'github.com/lyraproj/dgo/util', 'sdk': 'github.com/lyraproj/hierasdk/hiera', 'cli': 'github.com/lyraproj/hiera/cli'}
    ls = []
    for i in imports.split():
        ls.append('\t' + ('sdk ' if i == 'sdk' else '') + '"' + names.get(i, i) + '"')
    return 'package %s\n\nimport (\n%s\n)\n%s' % (pkg, '\n'.join(ls), body)


# writes files below a temporary directory
TREE = '''
func tree(t *testing.T, files map[string]string) string {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	for n, c := range files {
		f := filepath.Join(dir, n)
		if err = os.MkdirAll(filepath.Dir(f), 0700); err == nil {
			err = ioutil.WriteFile(f, []byte(c), 0700)
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	return dir
}
'''
TI = 'testing io/ioutil os path/filepath '

seed('paths-in-place', 'C08', 'two lookups in one session with different scopes and a hierarchy entry with an interpolated glob that matches one file',
     'the paths of the shared configuration are overwritten by those resolved for the first lookup', 'session',
     [('config/entry.go', '		ne := make([]api.Location, 0, len(e.locations))\n', '		// resolving seldom changes the number of locations\n		ne := e.locations[:0]\n')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":       "version: 5\\nhierarchy:\\n  - name: X\\n    glob: '%{who}/*.yaml'\\n  - name: Y\\n    path: common.yaml\\n",
		"data/common.yaml": "a: common\\n", "data/ann/x.yaml": "a: ann\\n", "data/bob/y.yaml": "a: bob\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	for _, n := range []string{"ann", "bob", "common", "ann"} {
		v := hiera.Lookup(s.Invocation(vf.Map("who", n), nil), "a", nil, nil)
		if v == nil || v.String() != n {
			t.Errorf("expected %s, got %v", n, v)
		}
	}
}
'''))

seed('module-memo', 'C10', 'two sessions in one process and a module that is replaced between them',
     'what is known about modules is kept for the whole process so that a new session does not see changes', 'session',
     [('provider/modulelookupkey.go', 'func loadModule(path, moduleName string) dgo.Function {\n', '''var loaded sync.Map

func loadModule(path, moduleName string) dgo.Function {
	// Reading directories is expensive
	mk := path + `:` + moduleName
	if m, ok := loaded.Load(mk); ok {
		return m.(dgo.Function)
	}
'''), ('provider/modulelookupkey.go', '		return loadHieraConfig(configPath, moduleName)\n', '		mp := loadHieraConfig(configPath, moduleName)\n		loaded.Store(mk, mp)\n		return mp\n'),
      ('provider/modulelookupkey.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
     go('session_test', TI + 'context vf api hiera session provider', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"modules/One/hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    path: x.yaml\\n", "modules/One/data/x.yaml": "one::a: first\\n"})
	defer os.RemoveAll(dir)
	look := func() string {
		s := session.New(context.Background(), provider.ModuleLookupKey, vf.Map(api.HieraRoot, dir, provider.ModulePath, filepath.Join(dir, "modules")), nil)
		v := hiera.Lookup(s.Invocation(nil, nil), "one::a", vf.String("nothing"), nil)
		return v.String()
	}
	if v := look(); v != "first" {
		t.Errorf("unexpected %s", v)
	}
	if err := os.Rename(filepath.Join(dir, "modules", "One"), filepath.Join(dir, "modules", "one")); err != nil {
		t.Fatal(err)
	}
	if v := look(); v != "first" {
		t.Errorf("unexpected %s", v)
	}
}
'''))

seed('redaction-nested', 'C21', 'a lookup of a Sensitive value that triggers another redacted lookup before its own value is reported',
     'the end of a nested redacted operation ends the redaction of the outer one', 'session',
     [('session/invocation.go', '''	if ic.redacted {
		doer()
	} else {
		defer func() {
			ic.redacted = false
		}()
		ic.redacted = true
		doer()
	}
''', '''	defer func() {
		ic.redacted = false
	}()
	ic.redacted = true
	doer()
''')],
     go('session_test', 'testing context strings vf api explain session', '''
func TestDemo(t *testing.T) {
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, "testdata"), nil)
	ex := explain.NewExplainer(true, false)
	iv := s.Invocation(nil, ex)
	iv.DoRedacted(func() {
		iv.DoRedacted(func() {})
		iv.WithSegment("pw", func() (v dgoValue) {
			iv.ReportFound("pw", vf.String("hunter2"))
			return nil
		})
	})
	if strings.Contains(ex.String(), "hunter2") {
		t.Error(ex.String())
	}
}
''').replace('func TestDemo', 'type dgoValue = dgo.Value\n\nfunc TestDemo').replace('"github.com/lyraproj/dgo/vf"', '"github.com/lyraproj/dgo/vf"\n\t"github.com/lyraproj/dgo/dgo"'))

seed('name-stays', 'C02', 'a lookup that fails with a panic, followed by another lookup of the same key using the same invocation',
     'the name of a lookup that failed is never forgotten, so that the next lookup is reported as recursive', 'session',
     [('session/invocation.go', '''	defer func() {
		ic.nameStack = ic.nameStack[:len(ic.nameStack)-1]
	}()
	return actor()
''', '''	v := actor()
	ic.nameStack = ic.nameStack[:len(ic.nameStack)-1]
	return v
''')],
     go('session_test', 'testing context dgo vf api hiera session sdk', '''
func TestDemo(t *testing.T) {
	fail := true
	top := func(pc sdk.ProviderContext, key string) dgo.Value {
		if fail {
			fail = false
			panic("no contact")
		}
		return vf.String("v")
	}
	s := session.New(context.Background(), top, vf.Map(api.HieraRoot, "testdata"), nil)
	iv := s.Invocation(nil, nil)
	func() {
		defer func() { _ = recover() }()
		hiera.Lookup(iv, "a", nil, nil)
		t.Error("no failure")
	}()
	defer func() {
		if r := recover(); r != nil {
			t.Error(r)
		}
	}()
	if v := hiera.Lookup(iv, "a", nil, nil); v == nil || v.String() != "v" {
		t.Errorf("unexpected %v", v)
	}
}
'''))

seed('string-panic', 'C25', 'a lookup function that fails with a panic whose value is a string',
     'a lookup that fails that way is not answered with 500: the connection is just closed', 'hieraserver/rest',
     [('hieraserver/rest/rest.go', '''				var err error
				if er, ok := r.(error); ok {
					err = er
				} else if es, ok := r.(string); ok {
					err = errors.New(es)
				} else {
					panic(r)
				}
				http.Error''', '''				err, ok := r.(error)
				if !ok {
					panic(r)
				}
				http.Error''')],
     go('main', 'testing context net/http net/http/httptest dgo vf api session sdk', '''
func TestDemo(t *testing.T) {
	top := func(pc sdk.ProviderContext, key string) dgo.Value {
		panic("no contact with the data base")
	}
	s := session.New(context.Background(), top, vf.Map(api.HieraRoot, "testdata"), nil)
	srv := httptest.NewServer(CreateRouter(s))
	defer srv.Close()
	r, err := http.Get(srv.URL + "/lookup/a")
	if err != nil {
		t.Fatal(err)
	}
	if r.StatusCode != http.StatusInternalServerError {
		t.Error(r.Status)
	}
}
'''))

seed('default-sticks', 'C03', 'a request with a default followed by one without that finds no value',
     'the default of a request is kept in the options that all requests start from', 'hieraserver/rest',
     [('hieraserver/rest/rest.go', '			opts.Default = &dflt[0]\n', '			cmdOpts.Default = &dflt[0]\n			opts.Default = cmdOpts.Default\n')],
     go('main', 'testing context net/http net/http/httptest dgo vf api session sdk', '''
func TestDemo(t *testing.T) {
	top := func(pc sdk.ProviderContext, key string) dgo.Value { return nil }
	s := session.New(context.Background(), top, vf.Map(api.HieraRoot, "testdata"), nil)
	srv := httptest.NewServer(CreateRouter(s))
	defer srv.Close()
	for _, c := range []struct {
		q  string
		st int
	}{{"a?default=x", 200}, {"b", 404}, {"c?default=", 200}, {"a", 404}} {
		r, err := http.Get(srv.URL + "/lookup/" + c.q)
		if err != nil {
			t.Fatal(err)
		}
		if r.StatusCode != c.st {
			t.Error(c.q, r.Status)
		}
	}
}
'''))

PLUGIN = r'''#!/bin/sh
echo $$ > "$(dirname "$0")/pid"
echo '{"version":1,"network":"tcp","address":"%s","functions":{"data_hash":["sleeper"]}}'
exec sleep 100
'''

seed('plugin-outlives', 'C16', 'a plugin that is in use when the function that uses the session panics',
     'plugins are not terminated when the consumer of a session panics', 'session',
     [('hiera/hiera.go', '''	s := session.New(parent, tp, options, nil)
	defer s.KillPlugins()
	consumer(s)
''', '''	s := session.New(parent, tp, options, nil)
	consumer(s)
	s.KillPlugins()
''')],
     go('session_test', TI + 'context strconv strings syscall time vf api hiera', TREE + '''
const plugin = `''' + PLUGIN % '127.0.0.1:1' + '''`

func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    data_hash: sleeper\\n", "plugin/sleeper": plugin})
	defer os.RemoveAll(dir)
	func() {
		defer func() { _ = recover() }()
		hiera.DoWithParent(context.Background(), nil, vf.Map(api.HieraRoot, dir), func(s api.Session) {
			hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
		})
		t.Error("no failure")
	}()
	bs, err := ioutil.ReadFile(filepath.Join(dir, "plugin/pid"))
	if err != nil {
		t.Fatal(err)
	}
	pid, _ := strconv.Atoi(strings.TrimSpace(string(bs)))
	if pid <= 1 {
		t.Fatal(pid)
	}
	time.Sleep(200 * time.Millisecond)
	if syscall.Kill(pid, 0) == nil {
		_ = syscall.Kill(pid, syscall.SIGKILL)
		t.Error("the plugin is still there")
	}
}
'''))

seed('plugin-silent', 'C18', 'a plugin that accepts a connection but never answers',
     'a request to a plugin has no timeout', 'session',
     [('session/pluginloader.go', '''	client := http.Client{
		Timeout: time.Second * 5,
''', '''	client := http.Client{
''')],
     go('session_test', TI + 'context fmt net time vf api hiera', TREE + '''
const plugin = `''' + PLUGIN + '''`

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	dir := tree(t, map[string]string{
		"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    data_hash: sleeper\\n", "plugin/sleeper": fmt.Sprintf(plugin, l.Addr())})
	defer os.RemoveAll(dir)
	hiera.DoWithParent(context.Background(), nil, vf.Map(api.HieraRoot, dir), func(s api.Session) {
		done := make(chan bool, 1)
		go func() {
			defer func() {
				_ = recover()
				done <- true
			}()
			hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			t.Error("the lookup waits forever")
		}
	})
}
'''))

seed('bad-ca', 'C26', 'a file given as certificate authority that contains no certificate',
     'the server starts although the certificate authority cannot be used', 'hieraserver/rest',
     [('hieraserver/rest/rest.go', '''	ok := certPool.AppendCertsFromPEM(data)
	if !ok {
		return nil, fmt.Errorf("failed to load certificate %q", pemFile)
	}
''', '''	if ok := certPool.AppendCertsFromPEM(data); !ok {
		log.Warnf("failed to load certificate %q", pemFile)
	}
'''), ('hieraserver/rest/rest.go', '	"fmt"\n	"io/ioutil"', '	"fmt"\n	"io/ioutil"')],
     go('main', TI + '', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{"ca.pem": "not a certificate"})
	defer os.RemoveAll(dir)
	if _, err := loadCertPool(filepath.Join(dir, "ca.pem")); err == nil {
		t.Error("a useless file was accepted")
	}
}
'''))

seed('empty-default', 'C34', 'a request with an empty default and a merge strategy',
     'an empty default is not taken as a default', 'hieraserver/rest',
     [('hieraserver/rest/rest.go', '		if dflt, ok := params[`default`]; ok && len(dflt) > 0 {\n', '		if dflt := params[`default`]; len(dflt) > 0 && (len(dflt[0]) > 0 || len(params) == 1) {\n')],
     go('main', 'testing context net/http net/http/httptest dgo vf api session sdk', '''
func TestDemo(t *testing.T) {
	top := func(pc sdk.ProviderContext, key string) dgo.Value { return nil }
	s := session.New(context.Background(), top, vf.Map(api.HieraRoot, "testdata"), nil)
	srv := httptest.NewServer(CreateRouter(s))
	defer srv.Close()
	for _, q := range []string{"a?default=", "a?default=&merge=unique", "a?default=&var=x=y"} {
		r, err := http.Get(srv.URL + "/lookup/" + q)
		if err != nil {
			t.Fatal(err)
		}
		if r.StatusCode != 200 {
			t.Error(q, r.Status)
		}
	}
}
'''))

seed('nested-strategy', 'C07', 'a key with a merge strategy in lookup_options whose value is interpolated with a lookup of a key found at two levels',
     'a lookup made by an interpolation uses the merge strategy of the lookup it is nested in', 'session',
     [('session/interpolate.go', 'val := ic.Lookup(api.NewKey(expr), nil)', 'val := ic.Lookup(api.NewKey(expr), ic.LookupOptions())')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":     "version: 5\\nhierarchy:\\n  - name: X\\n    path: x.yaml\\n  - name: Y\\n    path: y.yaml\\n",
		"data/x.yaml": "lookup_options:\\n  a: {merge: deep}\\na: {p: \\"%{alias('b')}\\"}\\nb: {c: 1}\\n",
		"data/y.yaml": "a: {q: 1}\\nb: {d: 1}\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	v := hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
	if !vf.Map("p", vf.Map("c", 1), "q", 1).Equals(v) {
		t.Errorf("unexpected %v", v)
	}
}
'''))

seed('redaction-stays', 'C06', 'a redacted operation that panics followed by further use of the invocation',
     'the invocation is still redacted after the operation', 'session',
     [('session/invocation.go', '''		defer func() {
			ic.redacted = false
		}()
		ic.redacted = true
		doer()
''', '''		ic.redacted = true
		doer()
		ic.redacted = false
''')],
     go('session_test', 'testing context strings dgo vf api explain session', '''
func TestDemo(t *testing.T) {
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, "testdata"), nil)
	ex := explain.NewExplainer(true, false)
	iv := s.Invocation(nil, ex)
	func() {
		defer func() { _ = recover() }()
		iv.DoRedacted(func() { panic("failed") })
	}()
	iv.WithSegment("name", func() (v dgo.Value) {
		iv.ReportFound("name", vf.String("fred"))
		return nil
	})
	if !strings.Contains(ex.String(), "fred") {
		t.Error(ex.String())
	}
}
'''))

seed('explain-data-mode', 'C05', 'lookups through several top-level functions where only some know the lookup options of a key',
     'lookups that are not explained use other merge strategies than those that are', 'session',
     [('session/invocation.go', '''	if ic.DataMode() {
		return ic
	}
	lic := *ic
''', '''	if ic.explainer == nil || ic.DataMode() {
		return ic
	}
	lic := *ic
''')],
     go('session_test', TI + 'context dgo vf api explain hiera provider session sdk', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"a.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n", "data/a.yaml": "lookup_options:\\n  a: {merge: unique}\\na: [1]\\n",
		"b.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    paths: [b.yaml, c.yaml]\\n", "data/b.yaml": "a: [2]\\n", "data/c.yaml": "a: [3]\\n"})
	defer os.RemoveAll(dir)
	at := func(n string) sdk.LookupKey {
		return func(pc sdk.ProviderContext, key string) dgo.Value {
			return provider.ConfigLookupKeyAt(pc.(api.ServerContext), filepath.Join(dir, n), key, "")
		}
	}
	s := session.New(context.Background(), provider.MuxLookupKey, vf.Map(api.HieraRoot, dir, provider.LookupKeyFunctions, []sdk.LookupKey{at("a.yaml"), at("b.yaml")}), nil)
	v := hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
	e := hiera.Lookup(s.Invocation(nil, explain.NewExplainer(true, false)), "a", nil, nil)
	if !v.Equals(e) {
		t.Errorf("%v when explained, %v otherwise", e, v)
	}
}
'''))

seed('pop-skipped', 'C04', 'a merge that fails, with the error handled by the caller, and further explained work',
     'the node of a merge that fails is never closed', 'session',
     [('session/invocation.go', '''	defer ic.explainer.Pop()
	ic.explainer.PushMerge(ms)
	return producer()
''', '''	ic.explainer.PushMerge(ms)
	v := producer()
	ic.explainer.Pop()
	return v
''')],
     go('session_test', 'testing context dgo vf api explain merge session', '''
func TestDemo(t *testing.T) {
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, "testdata"), nil)
	run := func(fail bool) string {
		ex := explain.NewExplainer(true, false)
		iv := s.Invocation(nil, ex)
		iv.WithLookup(api.NewKey("one"), func() (v dgo.Value) {
			defer func() { _ = recover() }()
			return iv.WithMerge(merge.GetStrategy("deep", nil), func() dgo.Value {
				if fail {
					panic("failed")
				}
				return nil
			})
		})
		iv.WithLookup(api.NewKey("two"), func() dgo.Value {
			iv.ReportFound("two", vf.String("fred"))
			return nil
		})
		return ex.String()
	}
	if a, b := run(false), run(true); a != b {
		t.Errorf("%s\\n---\\n%s", a, b)
	}
}
'''))

seed('map-in-place', 'C09', 'a data_hash function that returns a map that is not frozen, and two lookups with different scopes',
     'interpolation changes nested maps that a data function returned', 'session',
     [('session/interpolate.go', '''		cp := vf.MapWithCapacity(h.Len())
''', '''		cp := h
		if h.Frozen() {
			cp = vf.MapWithCapacity(h.Len())
		}
'''), ('session/interpolate.go', '		h.EachEntry(func(e dgo.MapEntry) {\n', '		h.FrozenCopy().(dgo.Map).EachEntry(func(e dgo.MapEntry) {\n'), ('session/interpolate.go', '''			cp.Freeze()
			h = cp
''', '''			h = cp
''')],
     go('session_test', TI + 'context dgo vf api hiera session sdk', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    data_hash: data\\n"})
	defer os.RemoveAll(dir)
	m := vf.MutableMap()
	m.Put("name", "%{who}")
	all := vf.MutableMap()
	all.Put("a", m)
	data := func(pc sdk.ProviderContext) dgo.Map { return all }
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir, api.HieraFunctions, map[string]interface{}{"data": data}), nil)
	for _, n := range []string{"ann", "bob"} {
		v := hiera.Lookup(s.Invocation(vf.Map("who", n), nil), "a.name", nil, nil)
		if v == nil || v.String() != n {
			t.Errorf("expected %s, got %v", n, v)
		}
	}
}
'''))

seed('null-yields', 'C11', 'a deep merge of hashes that have the same key, where the value at the higher level is an explicit null',
     'a value from a lower level replaces a null that a higher level has for the same key', 'session',
     [('merge/deepmerge.go', '''					if m, mh := deep(e.Value(), bv, options); mh {
''', '''					if e.Value() == vf.Nil {
						// there's nothing to merge
						es.Put(e.Key(), bv)
						return
					}
					if m, mh := deep(e.Value(), bv, options); mh {
''')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    paths: [a.yaml, b.yaml]\\n",
		"data/a.yaml": "h:\\n  x: ~\\n  z: 3\\n", "data/b.yaml": "h:\\n  x: 1\\n  y: 2\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	v := hiera.Lookup(s.Invocation(nil, nil), "h", nil, vf.Map("merge", "deep"))
	if !vf.Map("x", nil, "y", 2, "z", 3).Equals(v) {
		t.Errorf("got %v", v)
	}
}
'''))

seed('name-by-name', 'C12', 'a lookup of several names, where the first has an entry in the hash of default values and the second is found',
     'a default value for one name is preferred to the value that another name has', 'session',
     [('hiera/hiera.go', '''		if v := ic.Lookup(api.NewKey(name), options); v != nil {
			return ensureType(valueType, v)
		}
	}
	if v := lookupInMap(names, defaultValuesHash); v != nil {
		return ensureType(valueType, v)
	}
''', '''		v := ic.Lookup(api.NewKey(name), options)
		if v == nil {
			v = lookupInMap([]string{name}, defaultValuesHash)
		}
		if v != nil {
			return ensureType(valueType, v)
		}
	}
''')],
     go('session_test', TI + 'context typ vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n",
		"data/a.yaml": "two: found\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	v := hiera.Lookup2(s.Invocation(nil, nil), []string{"one", "two"}, typ.Any, nil, nil, vf.Map("one", "default"), nil, nil)
	if v == nil || v.String() != "found" {
		t.Errorf("got %v", v)
	}
}
'''))

seed('merge-only', 'C37', 'a lookup with an explicit merge option for a key that has convert_to in lookup_options',
     'lookup_options are ignored when the lookup has an explicit merge option, so that the value is not converted', 'session',
     [('session/invocation.go', '''		ic.ReportMergeSource(`CLI option`)
		opts = cliMergeOption
''', '''		ic.ReportMergeSource(`CLI option`)
		opts = cliMergeOption
		lookupOptions = nil
''')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n",
		"data/a.yaml": "lookup_options:\\n  a: {convert_to: int}\\na: '42'\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	for _, o := range []interface{}{nil, vf.Map("merge", "first")} {
		v := hiera.Lookup(s.Invocation(nil, nil), "a", nil, o)
		if !vf.Integer(42).Equals(v) {
			t.Errorf("got %#v", v)
		}
	}
}
'''))

seed('variable-lookup', 'C13', 'a path in hiera.yaml that uses a variable whose value has a lookup expression',
     'the value of a variable used when the configuration is resolved may look up values', 'session',
     [('session/interpolate.go', '	if val := ic.Scope().Get(key.Root()); val != nil {\n', '	val := ic.Scope().Get(key.Root())\n	if val != nil {\n'),
      ('session/interpolate.go', '			val, _ = ic.doInterpolate(val, allowMethods)\n', '			val = ic.Interpolate(val, true)\n')],
     go('session_test', TI + 'context strings time vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":    "version: 5\\nhierarchy:\\n  - name: X\\n    paths: ['%{file}.yaml', common.yaml]\\n",
		"data/common.yaml": "y: a\\nx: in common\\n", "data/a.yaml": "x: in a\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		v := hiera.Lookup(s.Invocation(vf.Map("file", "%{lookup('y')}"), nil), "x", nil, nil)
		t.Logf("got %v", v)
	}()
	select {
	case r := <-done:
		e, ok := r.(error)
		if !ok || !strings.Contains(e.Error(), "method syntax is not allowed") {
			t.Errorf("got %v", r)
		}
	case <-time.After(20 * time.Second):
		t.Error("stuck")
	}
}
'''.replace('"context"', '"context"')))

seed('last-entry', 'C14', 'a hash with an expression in one entry but not in its last one',
     'a hash is returned without being interpolated when its last entry has no expression', 'session',
     [('session/interpolate.go', '''			if kc || vc {
				changed = true
			}
''', '''			changed = kc || vc
''')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n",
		"data/a.yaml": "h:\\n  first: '%{who}'\\n  last: plain\\nl: ['%{who}', plain]\\n'%{who}': k\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	iv := s.Invocation(vf.Map("who", "me"), nil)
	if v := hiera.Lookup(iv, "h", nil, nil); !vf.Map("first", "me", "last", "plain").Equals(v) {
		t.Errorf("got %v", v)
	}
	if v := hiera.Lookup(iv, "l", nil, nil); !vf.Values("me", "plain").Equals(v) {
		t.Errorf("got %v", v)
	}
}
'''))

seed('same-file-name', 'C24', 'a level with two paths that end with the same file name',
     'the data of one location is used for another location that has the same file name', 'session',
     [('internal/datahashprovider.go', '''		key = location.Resolved()
		opts = optionsWithLocation(opts, key)
''', '''		opts = optionsWithLocation(opts, location.Resolved())
		key = filepath.Base(location.Resolved())
'''), ('internal/datahashprovider.go', '	"fmt"\n', '	"fmt"\n	"path/filepath"\n')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    paths: [a/x.yaml, b/x.yaml, c/y.yaml]\\n",
		"data/a/x.yaml": "a: 1\\n", "data/b/x.yaml": "b: 2\\n", "data/c/y.yaml": "c: 3\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	for k, n := range map[string]int64{"a": 1, "b": 2, "c": 3} {
		if v := hiera.Lookup(s.Invocation(nil, nil), k, nil, nil); !vf.Integer(n).Equals(v) {
			t.Errorf("%s is %v", k, v)
		}
	}
}
'''))

seed('dotted-options', 'C35', 'a key with a segment below lookup_options',
     'values below lookup_options can be looked up', 'session',
     [('session/invocation.go', 'if rootKey == `lookup_options` {', 'if rootKey == `lookup_options` && len(key.Parts()) == 1 {')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n",
		"data/a.yaml": "lookup_options:\\n  a: {merge: deep}\\na: {b: 1}\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	for _, k := range []string{"lookup_options", "lookup_options.a", "lookup_options.a.merge", "'lookup_options'.a"} {
		if v := hiera.Lookup(s.Invocation(nil, nil), k, nil, nil); v != nil {
			t.Errorf("%s is %v", k, v)
		}
	}
	if v := hiera.Lookup(s.Invocation(nil, nil), "a.b", nil, nil); !vf.Integer(1).Equals(v) {
		t.Errorf("a.b is %v", v)
	}
}
'''))

seed('negative-index', 'C36', 'a key with a negative index into a list',
     'a negative index makes the lookup fail instead of finding nothing', 'session',
     [('api/key.go', '''						if ix >= 0 && ix < vc.Len() {
''', '''						if ix < vc.Len() {
''')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n",
		"data/a.yaml": "a: [1, {b: [2]}]\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	for _, k := range []string{"a.-1", "a.2", "a.b", "a.1.b.1", "a.1.b.-1", "a.0.x", "a.0.0"} {
		if v := hiera.Lookup(s.Invocation(nil, nil), k, nil, nil); v != nil {
			t.Errorf("%s is %v", k, v)
		}
	}
	if v := hiera.Lookup(s.Invocation(nil, nil), "a.1.b.0", nil, nil); !vf.Integer(2).Equals(v) {
		t.Errorf("a.1.b.0 is %v", v)
	}
}
'''))

seed('default-dir', 'C33', 'a hierarchy entry with options, without a datadir, and defaults that have a datadir relative to the directory of the configuration',
     'an entry with options doesn\'t use the data directory of the defaults', 'session',
     [('config/entry.go', '''	if e.dataDir == `` {
		if defaults == nil {
''', '''	if e.dataDir == `` {
		if defaults == nil || e.options != nil {
''')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":   "version: 5\\ndefaults:\\n  datadir: other\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n  - name: Y\\n    path: b.yaml\\n    options: {z: 1}\\n",
		"other/a.yaml": "a: 1\\n",
		"other/b.yaml": "b: 2\\n",
		"data/b.yaml":  "b: 3\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	for i, k := range []string{"a", "b"} {
		if v := hiera.Lookup(s.Invocation(nil, nil), k, nil, nil); !vf.Integer(int64(i + 1)).Equals(v) {
			t.Errorf("%s is %v", k, v)
		}
	}
}
'''))

seed('shadowed-name', 'C38', 'a mapped path whose name is also the name of a variable in the scope',
     'the variable in the scope is used in place of the elements', 'session',
     [('config/mappedpaths.go', '''	if s.k.Equals(key) {
		return s.v
	}
	return s.s.Get(key)
''', '''	v := s.s.Get(key)
	if v == nil && s.k.Equals(key) {
		v = s.v
	}
	return v
''')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    mapped_paths: [zones, zone, '%{zone}.yaml']\\n",
		"data/a.yaml": "a: 1\\n",
		"data/b.yaml": "b: 2\\n",
		"data/c.yaml": "a: 3\\nb: 3\\n"})
	defer os.RemoveAll(dir)
	for _, scope := range []map[string]interface{}{{"zones": []string{"a", "b"}}, {"zones": []string{"a", "b"}, "zone": "c"}} {
		s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir, api.HieraScope, scope), nil)
		for i, k := range []string{"a", "b"} {
			if v := hiera.Lookup(s.Invocation(nil, nil), k, nil, nil); !vf.Integer(int64(i + 1)).Equals(v) {
				t.Errorf("%s is %v", k, v)
			}
		}
	}
}
'''))

seed('names-in-a-set', 'C31', 'several names that are looked up at once',
     'the values are listed in a random order', 'session',
     [('hiera/hiera.go', '''	response := vf.MutableMap()
	for _, name := range names {
''', '''	response := vf.MutableMap()
	unique := make(map[string]bool, len(names))
	for _, name := range names {
		unique[name] = true
	}
	for name := range unique {
''')],
     go('session_test', TI + 'context dgo vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	names := []string{}
	yaml := ""
	for _, c := range "qwertyuiopasdfgh" {
		names = append(names, string(c))
		yaml += string(c) + ": 1\\n"
	}
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n",
		"data/a.yaml": yaml})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	v := hiera.LookupAll(s.Invocation(nil, nil), names, nil, nil, nil, nil).(dgo.Map)
	if v.Len() != len(names) || !v.Keys().Equals(vf.Strings(names...)) {
		t.Errorf("%v", v)
	}
}
'''))

seed('empty-vars-file', 'C40', 'an empty file of variables that is followed by another',
     'the variables of the files after an empty one are lost', 'cli',
     [('hiera/hiera.go', '''		if err == nil && len(bs) > 0 {
			var yv dgo.Value
''', '''		if err == nil && len(bs) == 0 {
			return
		}
		if err == nil {
			var yv dgo.Value
''')],
     go('cli_test', TI + 'cli', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n",
		"data/a.yaml": "a: '%{x}-%{y}'\\n",
		"none.yaml": "",
		"x.yaml": "x: 1\\n",
		"y.yaml": "y: 2\\n"})
	defer os.RemoveAll(dir)
	out, err := cli.ExecuteLookup("--config", dir+"/hiera.yaml", "--render-as", "s", "--vars", dir+"/x.yaml", "--vars", dir+"/none.yaml", "--vars", dir+"/y.yaml", "a")
	if err != nil || string(out) != "1-2\\n" {
		t.Errorf("%s %v", out, err)
	}
}
'''))

seed('names-differ-in-case', 'C15', 'two entries whose names differ in the case of a letter only',
     'a valid configuration is rejected', 'session',
     [('config/config.go', '''		if uniqueNames[name] {
			panic(fmt.Errorf(`hierarchy name '%s' defined more than once`, name))
		}
		uniqueNames[name] = true
''', '''		id := strings.ToLower(name)
		if uniqueNames[id] {
			panic(fmt.Errorf(`hierarchy name '%s' defined more than once`, name))
		}
		uniqueNames[id] = true
''')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: Site\\n    path: a.yaml\\n  - name: site\\n    path: b.yaml\\n",
		"data/a.yaml": "a: 1\\n",
		"data/b.yaml": "b: 2\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	if v := hiera.Lookup(s.Invocation(nil, nil), "b", nil, nil); !vf.Integer(2).Equals(v) {
		t.Errorf("%v", v)
	}
}
'''))

seed('unreadable-config', 'C15', 'a configuration file that exists but can not be read as a file',
     'the built in configuration is used in place of the one that can not be read', 'session',
     [('config/config.go', '''		if !os.IsNotExist(err) {
			panic(err)
		}
''', '''		if fi, e := os.Stat(configPath); e == nil && !fi.IsDir() {
			panic(err)
		}
''')],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml/x": "",
		"data.yaml": "a: 1\\n"})
	defer os.RemoveAll(dir)
	defer func() {
		if recover() == nil {
			t.Errorf("no error")
		}
	}()
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	_ = hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
}
'''))

seed('directory-as-data', 'C20', 'a data file that can not be read although it exists',
     'the file counts as empty so that a value of lower priority is found', 'session',
     [('provider/yamldata.go', '''		if os.IsNotExist(err) {
			return vf.Map()
		}
''', '''		if _, ok := err.(*os.PathError); ok {
			return vf.Map()
		}
'''), ],
     go('session_test', TI + 'context vf api hiera session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    paths: [a.yaml, b.yaml]\\n",
		"data/a.yaml/x": "",
		"data/b.yaml": "b: 2\\n"})
	defer os.RemoveAll(dir)
	defer func() {
		if recover() == nil {
			t.Errorf("no error")
		}
	}()
	s := session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	_ = hiera.Lookup(s.Invocation(nil, nil), "b", nil, nil)
}
'''))

seed('env-empty', 'C39', 'an environment variable that is set to the empty string',
     'a variable that is set to the empty string is taken for one that is not set', 'provider',
     [('provider/environment.go', '''		if v, ok := os.LookupEnv(key[5:]); ok {
			return vf.String(v)
		}
''', '''		if v := os.Getenv(key[5:]); v != `` {
			return vf.String(v)
		}
''')],
     go('provider_test', 'os testing context vf hiera session provider', '''
func TestDemo(t *testing.T) {
	_ = os.Setenv("HIERA_DEMO", "")
	s := session.New(context.Background(), provider.Environment, nil, nil)
	dflt := vf.String("dflt")
	if v := hiera.Lookup(s.Invocation(nil, nil), "env::HIERA_DEMO", dflt, nil); !vf.String("").Equals(v) {
		t.Errorf("%v", v)
	}
}
'''))

seed('env-equals', 'C39', 'an environment variable with a value that contains an equal sign, found in the map of all variables',
     'the name and value of a variable are divided at the last equal sign', 'provider',
     [('provider/environment.go', "strings.IndexRune(ev, '=')", "strings.LastIndex(ev, `=`)")],
     go('provider_test', 'os testing context vf hiera session provider', '''
func TestDemo(t *testing.T) {
	_ = os.Setenv("HIERA_DEMO", "a=b")
	s := session.New(context.Background(), provider.Environment, nil, nil)
	if v := hiera.Lookup(s.Invocation(nil, nil), "env.HIERA_DEMO", nil, nil); !vf.String("a=b").Equals(v) {
		t.Errorf("%v", v)
	}
}
'''))

seed('module-elsewhere', 'C28', 'a module path of two directories, of which the first has a directory with the name of the module but without a configuration',
     'the search for a module ends at a directory without a configuration', 'provider',
     [('provider/modulelookupkey.go', '''			if os.IsNotExist(err) {
				break
			}
''', '''			if os.IsNotExist(err) {
				return notFoundLookupKeyFunc
			}
''')],
     go('provider_test', TI + 'context vf hiera session provider', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"a/mod/README": "",
		"b/mod/hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    path: x.yaml\\n",
		"b/mod/data/x.yaml": "mod::a: 1\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), provider.ModuleLookupKey, vf.Map(provider.ModulePath, dir+"/a:"+dir+"/b"), nil)
	if v := hiera.Lookup(s.Invocation(nil, nil), "mod::a", nil, nil); !vf.Integer(1).Equals(v) {
		t.Errorf("%v", v)
	}
}
'''))

seed('module-mixed-case', 'C28', 'two lookups with module names that differ in case, and lookup options of the module',
     'the name of the module is that of the key as it was written, so the lookup options of the module are ignored', 'provider',
     [('provider/modulelookupkey.go', 'modName := strings.ToLower(key[:ci])', 'modName := key[:ci]')],
     go('provider_test', TI + 'context vf hiera session provider', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"a/mod/hiera.yaml":  "version: 5\\nhierarchy:\\n  - name: X\\n    paths: [x.yaml, y.yaml]\\n",
		"a/mod/data/x.yaml": "lookup_options:\\n  mod::a: {merge: unique}\\nmod::a: 1\\n",
		"a/mod/data/y.yaml": "mod::a: 2\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), provider.ModuleLookupKey, vf.Map(provider.ModulePath, dir+"/a"), nil)
	iv := s.Invocation(nil, nil)
	_ = hiera.Lookup(iv, "Mod::b", nil, nil)
	if v := hiera.Lookup(iv, "mod::a", nil, nil); !vf.Values(1, 2).Equals(v) {
		t.Errorf("%v", v)
	}
}
'''))

seed('plugin-status', 'C17', 'a plugin function that answers with an error in the 400 range',
     'the error is taken for a key that is not found', 'session',
     [('session/pluginloader.go', '''	switch resp.StatusCode {
	case http.StatusOK:
''', '''	switch {
	case resp.StatusCode == http.StatusOK:
'''), ('session/pluginloader.go', '	case http.StatusNotFound:\n', '	case resp.StatusCode >= http.StatusBadRequest && resp.StatusCode < http.StatusInternalServerError:\n')],
     go('session_test', TI + 'context fmt net/http net/http/httptest vf api hiera', TREE + '''
const plugin = `''' + PLUGIN.replace('data_hash', 'lookup_key') + '''`

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		http.Error(w, "no such tenant", http.StatusBadRequest)
	}))
	defer srv.Close()
	dir := tree(t, map[string]string{
		"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    lookup_key: sleeper\\n", "plugin/sleeper": fmt.Sprintf(plugin, srv.Listener.Addr())})
	defer os.RemoveAll(dir)
	failed := false
	hiera.DoWithParent(context.Background(), nil, vf.Map(api.HieraRoot, dir), func(s api.Session) {
		defer func() { failed = recover() != nil }()
		hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
	})
	if !failed {
		t.Error("no failure")
	}
}
'''))

seed('plugin-key-space', 'C17', 'a quoted key that ends with a space, and a lookup_key function of a plugin',
     'a plugin is asked for the key without white space around it', 'session',
     [('session/pluginloader.go', '		params.Add(`key`, key)\n', '		params.Add(`key`, strings.TrimSpace(key))\n')],
     go('session_test', TI + 'context fmt net/http net/http/httptest vf api hiera', TREE + '''
const plugin = `''' + PLUGIN.replace('data_hash', 'lookup_key') + '''`

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/lookup_key/sleeper" && r.URL.Query().Get("key") == "a " && r.URL.Query().Get("options") == `{"o":"x"}` {
			_, _ = w.Write([]byte("3"))
			return
		}
		w.WriteHeader(http.StatusNotFound)
	}))
	defer srv.Close()
	dir := tree(t, map[string]string{
		"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    lookup_key: sleeper\\n    options: {o: x}\\n", "plugin/sleeper": fmt.Sprintf(plugin, srv.Listener.Addr())})
	defer os.RemoveAll(dir)
	hiera.DoWithParent(context.Background(), nil, vf.Map(api.HieraRoot, dir), func(s api.Session) {
		if v := hiera.Lookup(s.Invocation(nil, nil), "'a '", nil, nil); !vf.Integer(3).Equals(v) {
			t.Error(v)
		}
	})
}
'''))

seed('plugin-transport', 'C17', 'an option pluginTransport that is neither unix nor tcp',
     'an unknown transport is passed on to the plugin in place of the default', 'session',
     [('session/pluginloader.go', '''		switch s {
		case
			pluginTransportUnix,
			pluginTransportTCP:
			return s
		}
''', '''		if s != `` {
			return s
		}
''')],
     go('session_test', TI + 'context strings vf api hiera', TREE + '''
const plugin = `''' + PLUGIN.replace('echo $$ > "$(dirname "$0")/pid"', 'echo $HIERA_PLUGIN_TRANSPORT > "$(dirname "$0")/transport"') % '127.0.0.1:1' + '''`

func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    data_hash: sleeper\\n", "plugin/sleeper": plugin})
	defer os.RemoveAll(dir)
	hiera.DoWithParent(context.Background(), nil, vf.Map(api.HieraRoot, dir, "pluginTransport", "pipe"), func(s api.Session) {
		defer func() { _ = recover() }()
		hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
	})
	bs, err := ioutil.ReadFile(filepath.Join(dir, "plugin/transport"))
	if err != nil || strings.TrimSpace(string(bs)) != "unix" {
		t.Errorf("%s %v", bs, err)
	}
}
'''))
seed('cache-first', 'C22', 'a lookup function that caches a second value under a name that it has cached before',
     'a value that replaces one in the provider cache is not stored, or the new one is returned', 'session',
     [('session/serverctx.go', '''		// Replace old value
		cache.Store(key, value)
		return old.(dgo.Value)
	}
	return nil''', '''		return old.(dgo.Value)
	}
	return nil''')],
     go('session_test', TI + 'context dgo vf api hiera session sdk', '''
func TestDemo(t *testing.T) {
	n := int64(0)
	tp := func(pc sdk.ProviderContext, key string) dgo.Value {
		sc := pc.(api.ServerContext)
		n++
		old := sc.Cache("counter", vf.Integer(n))
		cur, _ := sc.CachedValue("counter")
		return vf.Values(old, cur)
	}
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), tp, vf.Map(api.HieraConfig, filepath.Join(dir, "hiera.yaml")), nil)
	hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
	m := int64(0)
	for i := 0; i < 3; i++ {
		v := hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil).(dgo.Array)
		if m = n; !vf.Integer(m).Equals(v.Get(1)) || !vf.Integer(m-1).Equals(v.Get(0)) {
			t.Errorf("%v after %d", v, m)
		}
	}
}
'''))
seed('root-wins', 'C23', 'a session with both the location of the configuration and a root directory', 'the given location of the configuration is replaced by one below the root', 'session',
     [('session/session.go', 'if options.Get(api.HieraConfig) == nil {', 'if options.Get(api.HieraConfig) == nil || options.Get(api.HieraRoot) != nil {')],
     go('session_test', TI + 'context dgo vf api hiera provider session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n", "data/a.yaml": "a: wrong\\n",
		"other/my.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n", "other/data/a.yaml": "a: right\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), provider.ConfigLookupKey, vf.Map(api.HieraRoot, dir, api.HieraConfig, filepath.Join(dir, "other", "my.yaml")), nil)
	var v dgo.Value = hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
	if v == nil || v.String() != "right" {
		t.Errorf("got %v", v)
	}
}
'''))
seed('null-hides', 'C23', 'a variable that is null for an invocation and set for the session', 'a variable of the session shows through one of the invocation that is null', 'session',
     [('session/invocation.go', '''	if v := ns.scope.Get(key); v != nil {
		return v
	}''', '''	if v := ns.scope.Get(key); v != nil && !vf.Nil.Equals(v) {
		return v
	}''')],
     go('session_test', TI + 'context dgo vf api hiera provider session', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n", "data/a.yaml": "a: \\"got %{who}\\"\\n"})
	defer os.RemoveAll(dir)
	s := session.New(context.Background(), provider.ConfigLookupKey, vf.Map(api.HieraRoot, dir, api.HieraScope, vf.Map("who", "session", "x", 1)), nil)
	var v dgo.Value = hiera.Lookup(s.Invocation(vf.Map("who", nil), nil), "a", nil, nil)
	if v == nil || v.String() != "got null" {
		t.Errorf("got %v", v)
	}
	v = s.Invocation(vf.Map("who", nil), nil).Scope().Get("who")
	if v == nil || v.String() == "session" {
		t.Errorf("got %v", v)
	}
}
'''))
seed('plugin-subdir', 'C19', 'a plugin file in a subdirectory of the plugin directory', 'the plugin of the same name in the plugin directory itself is started', 'session',
     [('session/session.go', 'path = filepath.Clean(filepath.Join(he.PluginDir(), file))', 'path = filepath.Clean(filepath.Join(he.PluginDir(), filepath.Base(file)))')],
     go('session_test', TI + 'context fmt net/http net/http/httptest vf api hiera', TREE + '''
const plugin = `''' + PLUGIN.replace('data_hash', 'lookup_key') + '''`

func TestDemo(t *testing.T) {
	answer := func(v string) *httptest.Server {
		return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { _, _ = w.Write([]byte(v)) }))
	}
	one, two := answer("1"), answer("2")
	defer one.Close()
	defer two.Close()
	dir := tree(t, map[string]string{
		"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    lookup_key: sleeper\\n    pluginfile: sub/sleeper\\n",
		"plugin/sleeper": fmt.Sprintf(plugin, one.Listener.Addr()), "plugin/sub/sleeper": fmt.Sprintf(plugin, two.Listener.Addr())})
	defer os.RemoveAll(dir)
	hiera.DoWithParent(context.Background(), nil, vf.Map(api.HieraRoot, dir), func(s api.Session) {
		if v := hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil); !vf.Integer(2).Equals(v) {
			t.Errorf("got %v", v)
		}
	})
}
'''))
seed('registered-loses', 'C19', 'an entry with a plugin file and a registered function of the same name', 'the plugin is started instead of calling the registered function', 'session',
     [('session/session.go', '''	if ok {
		return
	}

	file := he''', '''	if ok && he.PluginFile() == `` {
		return
	}

	file := he''')],
     go('session_test', TI + 'context dgo vf api hiera sdk', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    lookup_key: sleeper\\n    pluginfile: other\\n"})
	defer os.RemoveAll(dir)
	var v dgo.Value
	func() {
		defer func() { _ = recover() }()
		hiera.DoWithParent(context.Background(), nil, vf.Map(api.HieraRoot, dir, api.HieraFunctions, vf.Map("sleeper", func(pc sdk.ProviderContext, key string) dgo.Value {
			return vf.Integer(2)
		})), func(s api.Session) {
			v = hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil)
		})
	}()
	if !vf.Integer(2).Equals(v) {
		t.Errorf("got %v", v)
	}
}
'''))
seed('lonely-type', 'C27', 'a convert_to option that is an array with a type and no arguments', 'the value is not converted', 'session',
     [('session/invocation.go', '''		case 1:
			ts = cm.Get(0)
		default''', '''		case 1:
			// Nothing to pass to the type
		default''')],
     go('session_test', TI + 'context vf api hiera', TREE + '''
func TestDemo(t *testing.T) {
	dir := tree(t, map[string]string{
		"hiera.yaml": "version: 5\\nhierarchy:\\n  - name: X\\n    path: a.yaml\\n",
		"data/a.yaml": "lookup_options:\\n  a:\\n    convert_to: [int]\\na: '31'\\n"})
	defer os.RemoveAll(dir)
	hiera.DoWithParent(context.Background(), nil, vf.Map(api.HieraRoot, dir), func(s api.Session) {
		if v := hiera.Lookup(s.Invocation(nil, nil), "a", nil, nil); !vf.Integer(31).Equals(v) {
			t.Errorf("got %v", v)
		}
	})
}
'''))
seed('empty-texts', 'C29', 'an explanation that has a node with a value but without texts, turned into data and created again', 'the event and value of such nodes are lost', 'explain',
     [('explain/explainer.go', '''	if v, ok := ih.Get(`event`).(dgo.String); ok {
		en.setEvent(event(v.GoString()))
	}
	en.setValue(ih.Get(`value`))
''', '''	if v, ok := ih.Get(`event`).(dgo.String); ok && (en.branches() != nil || en.texts() != nil || event(v.GoString()) != result) {
		en.setEvent(event(v.GoString()))
		en.setValue(ih.Get(`value`))
	}
''')],
     go('explain_test', 'testing dgo vf explain', '''
func TestDemo(t *testing.T) {
	ex := explain.NewExplainer(true, false)
	ex.AcceptMergeResult(vf.String("x"))
	nt := ex.Type().(dgo.NamedType)
	d := nt.ExtractInitArg(ex).(dgo.Map)
	d2 := nt.ExtractInitArg(nt.New(d)).(dgo.Map)
	if !d.Equals(d2) {
		t.Errorf("got %v, want %v", d2, d)
	}
}
'''))
seed('late-branch', 'C29', 'an explained lookup with a node that has more than one branch after the first event', 'the branches that follow are not shown', 'explain',
     [('explain/explainer.go', '''func (en *explainTreeNode) appendBranch(branch explainNode) {
	en.bs = append(en.bs, branch)
''', '''func (en *explainTreeNode) appendBranch(branch explainNode) {
	if en.e != `` && len(en.bs) > 0 && en.e != locationNotFound {
		return
	}
	en.bs = append(en.bs, branch)
''')],
     go('explain_test', 'testing strings vf explain', '''
func TestDemo(t *testing.T) {
	ex := explain.NewExplainer(true, false)
	ex.PushModule("m")
	ex.PushInterpolation("one")
	ex.Pop()
	ex.AcceptFound("k", vf.String("v"))
	ex.PushInterpolation("two")
	ex.Pop()
	ex.Pop()
	if s := ex.String(); !strings.Contains(s, "one") || !strings.Contains(s, "two") {
		t.Error(s)
	}
}
'''))
seed('quoted-number', 'C30', 'a key with a quoted number after another quoted part', 'the quoted number is an index', 'api',
     [('api/key.go', '''			if i == len(part)-1 {
				return append(parts, b.String())
			}
			return parseUnquoted(''', '''			if i == len(part)-1 && len(parts) < 2 {
				return append(parts, b.String())
			}
			return parseUnquoted('''), ('api/key.go', '''parseUnquoted(b, key, part[i+1:], parts, true)''', '''parseUnquoted(b, key, part[i+1:], parts, i < len(part)-1)''')],
     go('api_test', 'testing api', '''
func TestDemo(t *testing.T) {
	ps := api.NewKey("a.'1'.'2'").Parts()
	if len(ps) != 3 || ps[2] != "2" {
		t.Errorf("got %T %v", ps[2], ps)
	}
}
'''))
seed('same-template', 'C30', 'two mapped paths with the same variable and template', 'they are equal although their keys differ', 'config',
     [('config/mappedpaths.go', '''		return *m == *om''', '''		return m.sourceVar == om.sourceVar && m.template == om.template''')],
     go('config_test', 'testing config', '''
func TestDemo(t *testing.T) {
	a, b := config.NewMappedPaths("v", "a", "%{a}%{b}"), config.NewMappedPaths("v", "b", "%{a}%{b}")
	if a.Equals(b) {
		t.Error("equal")
	}
}
'''))
seed('list-of-maps', 'C32', 'a document with a list of maps that have keys that are not texts', 'the program fails to convert it', 'yaml2json',
     [('yaml2json/main.go', '''			m[fmt.Sprint(k)] = stringKeys(v)
''', '''			if l, ok := v.([]interface{}); ok && len(m) > 0 {
				m[fmt.Sprint(k)] = l
				continue
			}
			m[fmt.Sprint(k)] = stringKeys(v)
''')],
     go('main', TI + 'os/exec strings', '''
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	exe := filepath.Join(dir, "y")
	if out, err := exec.Command("go", "build", "-o", exe, ".").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	cmd := exec.Command(exe)
	cmd.Stdin = strings.NewReader("1:\\n  - true: x\\n3:\\n  - false: x\\n")
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
}
'''))
seed('every-address', 'C41', '--addr given as a host name', 'the server listens on all addresses', 'hieraserver/rest',
     [('hieraserver/rest/rest.go', '''			Addr:    addr + ":" + strconv.Itoa(port),
''', '''			Addr:    listenAddress(),
'''), ('hieraserver/rest/rest.go', '''	"io/ioutil"
''', '''	"io/ioutil"
	"net"
'''), ('hieraserver/rest/rest.go', '''// CreateRouter creates''', '''// listenAddress returns the address to listen on, also for IPv6 addresses that aren't in brackets
func listenAddress() string {
	host := ""
	if ip := net.ParseIP(addr); ip != nil {
		host = ip.String()
	}
	return net.JoinHostPort(host, strconv.Itoa(port))
}

// CreateRouter creates''')],
     go('main', 'testing net strconv time', '''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	p := l.Addr().(*net.TCPAddr).Port
	_ = l.Close()
	cmd := newCommand()
	cmd.SetArgs([]string{"--addr", "localhost", "--port", strconv.Itoa(p), "--config", "testdata/hiera.yaml"})
	go func() { _ = cmd.Execute() }()
	for i := 0; ; i++ {
		if c, err := net.Dial("tcp", net.JoinHostPort("localhost", strconv.Itoa(p))); err == nil {
			_ = c.Close()
			break
		}
		if i > 200 {
			t.Fatal("not started")
		}
		time.Sleep(50 * time.Millisecond)
	}
	if c, err := net.Dial("tcp", net.JoinHostPort("127.0.0.2", strconv.Itoa(p))); err == nil {
		_ = c.Close()
		t.Error("reachable at another address")
	}
}
'''))
seed('lock-name', 'C42', 'two configurations in one session, the path of one being that of the other with Lock: before it', 'the lock of a configuration is taken for another configuration', 'session',
     [('session/invocation.go', 'const hieraLockPrefix = `HieraLock:`', 'const hieraLockPrefix = hieraConfigsPrefix + `Lock:`')],
     go('session_test', 'testing context io/ioutil os path/filepath session provider vf', '''
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "lockname")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	here, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(here)
	for _, d := range []string{"a", "Lock:a"} {
		if err := os.MkdirAll(d, 0755); err != nil {
			t.Fatal(err)
		}
		if err := ioutil.WriteFile(filepath.Join(d, "hiera.yaml"), []byte("version: 5\\n"), 0644); err != nil {
			t.Fatal(err)
		}
	}
	s := session.New(context.Background(), provider.MuxLookupKey, vf.Map(), nil)
	defer s.KillPlugins()
	for _, d := range []string{"a", "Lock:a"} {
		if c := s.Invocation(nil, nil).Config(d+"/hiera.yaml", ""); c == nil {
			t.Fatal("no configuration for " + d)
		}
	}
}
'''))
