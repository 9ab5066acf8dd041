"""Edits of /repo used to develop the analyser. want: checks that must report it ([] = behaviour preserving, all must be quiet)."""
MUTANTS = []


def bug(name, want, *edits):
    MUTANTS.append(dict(name=name, want=want if isinstance(want, list) else [want], edits=edits))


def ok(name, *edits):
    MUTANTS.append(dict(name=name, want=[], edits=edits))


IV = 'session/invocation.go'
IP = 'session/interpolate.go'

bug('C02-nocheck', 'C02', (IV, '	if util.ContainsString(ic.nameStack, name) {', '	if len(name) == 0 && util.ContainsString(ic.nameStack, name) {'))
bug('C02-nopop', 'C02', (IV, '''	defer func() {
		ic.nameStack = ic.nameStack[:len(ic.nameStack)-1]
	}()
	return actor()''', '''	v := actor()
	ic.nameStack = ic.nameStack[:len(ic.nameStack)-1]
	return v'''))
bug('C02-otherName', 'C02', (IV, 'ic.nameStack = append(ic.nameStack, name)', 'ic.nameStack = append(ic.nameStack, strings.ToLower(name))'))
bug('C02-scope', 'C02', (IP, '''		return ic.withName(`%{`+expr+`}`, func() dgo.Value {
			val, _ = ic.doInterpolate(val, allowMethods)
			return key.Dig(ic, val)
		})''', '''		val, _ = ic.doInterpolate(val, allowMethods)
		return key.Dig(ic, val)'''))
bug('C02-freshdata', 'C02', (IV, '''	lic.mode = dataMode
''', '''	lic.mode = dataMode
	lic.nameStack = []string{}
'''))
bug('C02-lookup', 'C02', (IV, '	return ic.WithKey(key, func() dgo.Value {', '	return ic.WithSubLookup(key, func() dgo.Value {'))
bug('C02-newinv', 'C02', (IP, 'val := ic.Lookup(api.NewKey(expr), nil)', 'val := ic.Session.Invocation(nil, ic.explainer).Lookup(api.NewKey(expr), nil)'))
ok('R02-loop', (IV, '''	if util.ContainsString(ic.nameStack, name) {
		panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(ic.nameStack, `, `)))
	}
''', '''	for _, n := range ic.nameStack {
		if n == name {
			panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(ic.nameStack, `, `)))
		}
	}
'''), (IV, '"github.com/lyraproj/dgo/util"\n', ''))
ok('R02-save', (IV, '''	ic.nameStack = append(ic.nameStack, name)
	defer func() {
		ic.nameStack = ic.nameStack[:len(ic.nameStack)-1]
	}()''', '''	saved := ic.nameStack
	defer func() {
		ic.nameStack = saved
	}()
	ic.nameStack = append(saved, name)'''))
ok('R02-helper', (IV, '''	if util.ContainsString(ic.nameStack, name) {
		panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(ic.nameStack, `, `)))
	}
''', '''	ic.checkName(name)
'''), (IV, '''// withName guards''', '''func (ic *ivContext) checkName(name string) {
	if util.ContainsString(ic.nameStack, name) {
		panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(ic.nameStack, `, `)))
	}
}

// withName guards'''))
MS = 'merge/strategy.go'
DM = 'merge/deepmerge.go'
bug('C09-hash', 'C09', (MS, '			return bh.Merge(ah)', '			bh.PutAll(ah)\n			return bh'))
bug('C09-deep', 'C09', (DM, 'es := vf.MapWithCapacity(a.Len() + hb.Len())', 'es := a\n_ = vf.Map'))
bug('C09-opts', 'C09', ('internal/datahashprovider.go', 'return options.Merge(vf.Map(`path`, loc))', 'if options.Len() == 0 { return vf.Map(`path`, loc) }\noptions.Put(`path`, loc)\nreturn options'))
bug('C09-ipl', 'C09', (IP, '''			if c {
				changed = true
				cp[i] = v
			}''', '''			if c {
				changed = true
				cp[i] = v
				a.Set(i, v)
			}'''))
ok('R09-copy', (DM, 'es := vf.MapWithCapacity(a.Len() + hb.Len())', 'es := a.Copy(false)\n_ = vf.Map'))

# C06
bug('C06-nodefer', 'C06', (IV, '''	defer func() {
		ic.scope = sc
	}()
	ic.scope = scope
	doer()''', '''	ic.scope = scope
	doer()
	ic.scope = sc'''))
bug('C06-redacted', ['C06'], (IV, '''		defer func() {
			ic.redacted = false
		}()
		ic.redacted = true
		doer()''', '''		ic.redacted = true
		doer()
		ic.redacted = false'''))
bug('C06-fordata', 'C06', (IV, '''	lic.mode = dataMode
''', '''	ic.mode = dataMode
	lic.mode = dataMode
'''))
bug('C06-convert', 'C06', (IV, '''	convertToType, convertToArgs := ic.extractConversion()

	var v''', '''	convertToType, convertToArgs := ic.extractConversion()
	if convertToType != nil {
		ic.luOpts = nil
	}

	var v'''))
bug('C06-order', 'C06', (IV, '''	ic.scope = scope
	doer()''', '''	doer()
	ic.scope = scope'''))
ok('R06-helper', (IV, '''	sc := ic.scope
	defer func() {
		ic.scope = sc
	}()
	ic.scope = scope
	doer()''', '''	defer ic.setScope(ic.setScope(scope))
	doer()'''), (IV, 'func (ic *ivContext) Scope() dgo', '''func (ic *ivContext) setScope(s dgo.Keyed) dgo.Keyed {
	old := ic.scope
	ic.scope = s
	return old
}

func (ic *ivContext) Scope() dgo'''))
ok('R06-redacted', (IV, '''	if ic.redacted {
		doer()
	} else {
		defer func() {
			ic.redacted = false
		}()
		ic.redacted = true
		doer()
	}''', '''	was := ic.redacted
	defer func() { ic.redacted = was }()
	ic.redacted = true
	doer()'''))
# C07
bug('C07-opts', 'C07', (IV, '	lic.luOpts = nil\n', ''))
bug('C07-strategy', 'C07', (IV, '	lic.strategy = nil\n', ''))
bug('C07-mode', 'C07', (IV, '	lic.mode = topLevelMode\n', '	if lic.mode == lookupOptionsMode {\n		lic.mode = topLevelMode\n	}\n'))
bug('C07-same', 'C07', (IV, 'ic.forLookup().ServerContext', 'ic.ServerContext'))
bug('C07-options', 'C07', (IV, 'ic.forLookup().ServerContext(options)', 'ic.forLookup().ServerContext(nil)'))
bug('C07-cond', 'C07', (IV, '''func (ic *ivContext) forLookup() api.Invocation {
''', '''func (ic *ivContext) forLookup() api.Invocation {
	if len(ic.nameStack) > 1 && ic.luOpts == nil {
		return ic
	}
'''))
ok('R07-inline', (IV, 'ic.forLookup().ServerContext(options), rootKey)', '(&lic).ServerContext(options), rootKey)'), (IV, '''		v := ic.TopProvider()(''', '''		lic := *ic
		lic.luOpts, lic.strategy, lic.mode = nil, nil, topLevelMode
		v := ic.TopProvider()('''))
ok('R07-literal', (IV, '''	lic := *ic
	lic.luOpts = nil
	lic.strategy = nil
	lic.mode = topLevelMode
	return &lic''', '''	return &ivContext{Session: ic.Session, nameStack: ic.nameStack, scope: ic.scope, configs: ic.configs, explainer: ic.explainer, redacted: ic.redacted}'''))
ok('R07-helper', (IV, '''		v := ic.TopProvider()(ic.forLookup().ServerContext(options), rootKey)
''', '''		v := ic.lookupTop(rootKey, options)
'''), (IV, 'func (ic *ivContext) WithKey(', '''func (ic *ivContext) lookupTop(rootKey string, options dgo.Map) dgo.Value {
	top := ic.TopProvider()
	sc := ic.forLookup().ServerContext(options)
	return top(sc, rootKey)
}

func (ic *ivContext) WithKey('''))
# C21
bug('C21-found', 'C21', (IV, 'AcceptFound(key, ic.redact(value))', 'AcceptFound(key, value)'))
bug('C21-interp', 'C21', (IV, '''	if ic.redacted {
		expr = redactedText
	}
''', ''))
bug('C21-assignable', 'C21', (IV, 'convertToType != nil && typ.Sensitive.Assignable(convertToType)', 'convertToType != nil && len(ic.nameStack) < 2 && typ.Sensitive.Assignable(convertToType)'))
bug('C21-copy', 'C21', (IV, '''	lic.mode = dataMode
''', '''	lic.mode = dataMode
	lic.redacted = false
'''))
bug('C21-args', 'C21', (IV, 'typ.Sensitive.Assignable(convertToType)', 'convertToArgs == nil && typ.Sensitive.Assignable(convertToType)'))
ok('R21-split', (IV, '''	if convertToType != nil && typ.Sensitive.Assignable(convertToType) {
		ic.DoRedacted(func() { v = fn() })
	} else {
		v = fn()
	}
''', '''	sensitive := convertToType != nil && typ.Sensitive.Assignable(convertToType)
	if !sensitive {
		v = fn()
	} else {
		ic.DoRedacted(func() {
			v = fn()
		})
	}
'''))
ok('R21-redact', (IV, 'ic.explainer.AcceptMergeResult(ic.redact(value))', '''if ic.redacted {
			value = vf.String(redactedText)
		}
		ic.explainer.AcceptMergeResult(value)'''))

PL = 'session/pluginloader.go'
HH = 'hiera/hiera.go'
bug('C16-early', 'C16', (PL, '''	p := &plugin{path: path, process: cmd.Process}
''', '''	p := &plugin{path: path, process: cmd.Process}
	if r.plugins == nil {
		r.plugins = make(map[string]*plugin)
	}
	r.plugins[path] = p
'''))
bug('C16-nowait', 'C16', (PL, '''			_ = cmd.Process.Kill()
			_, _ = cmd.Process.Wait()
''', '''			_ = cmd.Process.Kill()
'''))
bug('C16-timeout', 'C16', (PL, '''		panic(fmt.Errorf(`timeout while waiting for plugin %s to start`, path))
''', '''		return nil
'''))
bug('C16-onlyerr', 'C16', (PL, '''		if r := recover(); r != nil {
			_ =''', '''		if r, ok := recover().(error); ok {
			_ ='''))
bug('C16-nokill', 'C16', (PL, '''		case <-time.After(time.Second * 3):
			_ = process.Kill()''', '''		case <-time.After(time.Second * 3):
			log.Printf("timeout")'''))
bug('C16-stop', 'C16', (PL, '''	for _, p := range r.plugins {
		p.kill()
	}''', '''	for _, p := range r.plugins {
		if len(p.functions) > 0 {
			p.kill()
		}
	}'''))
bug('C16-nodefer', 'C16', (HH, '''	defer s.KillPlugins()
	consumer(s)''', '''	consumer(s)
	s.KillPlugins()'''))
bug('C16-errpath', 'C16', (HH, '''		defer s.KillPlugins()
		err := consumer(s)
		if err != nil {
			panic(err)
		}''', '''		err := consumer(s)
		if err != nil {
			panic(err)
		}
		s.KillPlugins()'''))
bug('C16-noreap', 'C16', (PL, '''		_ = process.Kill()
		_, _ = process.Wait()
	}''', '''		_ = process.Kill()
	}'''))
bug('C18-select', 'C18', (PL, '''		select {
		case <-done:
		case <-time.After(time.Second * 3):
			_ = process.Kill()
		}''', '''		<-done'''))
bug('C18-client', 'C18', (PL, '''		Timeout: time.Second * 5,
''', ''))
bug('C18-unbuf', 'C18', (PL, 'make(chan bool, 1)', 'make(chan bool)'))
bug('C18-unbuf2', 'C18', (PL, 'make(chan interface{}, 1)', 'make(chan interface{})'))
bug('C18-eof', 'C18', (PL, '''		_, err := cmdOut.Read(toss)
		if err != nil {''', '''		_, err := cmdOut.Read(toss)
		if err == io.EOF {'''))
bug('C18-done', 'C18', (PL, '''	defer wGroup.Done()
	var meta map[string]interface{}
	dc := json.NewDecoder(cmdOut)
	err := dc.Decode(&meta)
	if err != nil {
		metaCh <- err
	} else {''', '''	var meta map[string]interface{}
	dc := json.NewDecoder(cmdOut)
	err := dc.Decode(&meta)
	if err != nil {
		metaCh <- err
	} else {
		defer wGroup.Done()'''))
bug('C18-add', 'C18', (PL, '''	p.wGroup.Add(1)
	go ignoreOut''', '''	go ignoreOut'''))
bug('C18-syncwait', 'C18', (PL, '''		go func() {
			_, _ = process.Wait()
			done <- true
		}()''', '''		_, _ = process.Wait()
		done <- true'''))
ok('R16-flag', (PL, '''	defer func() {
		if r := recover(); r != nil {
			_ = cmd.Process.Kill()
			_, _ = cmd.Process.Wait()
			panic(r)
		}
	}()
''', '''	started := false
	defer func() {
		if !started {
			_ = cmd.Process.Kill()
			_, _ = cmd.Process.Wait()
		}
	}()
'''), (PL, '''	r.plugins[path] = p
	return fm''', '''	r.plugins[path] = p
	started = true
	return fm'''))
ok('R16-helper', (PL, '''	// Register the plugin last so that a plugin that is killed because of an error isn't registered
	if r.plugins == nil {
		r.plugins = make(map[string]*plugin)
	}
	r.plugins[path] = p
	return fm
}
''', '''	r.register(p)
	return fm
}

func (r *pluginRegistry) register(p *plugin) {
	if r.plugins == nil {
		r.plugins = make(map[string]*plugin)
	}
	r.plugins[p.path] = p
}
'''))
ok('R16-meta', (PL, '''	// Give plugin some time to respond with meta-info
	timeout := time.After(time.Second * 3)
	var meta map[string]interface{}
	select {
	case <-timeout:
		panic(fmt.Errorf(`timeout while waiting for plugin %s to start`, path))
	case mv := <-metaCh:
		if err, ok := mv.(error); ok {
			panic(fmt.Errorf(`error reading meta data of plugin %s: %s`, path, err.Error()))
		}
		meta = mv.(map[string]interface{})
	}
''', '''	meta := receiveMeta(path, metaCh)
'''), (PL, 'func initCmd(', '''func receiveMeta(path string, metaCh <-chan interface{}) map[string]interface{} {
	timer := time.NewTimer(3 * time.Second)
	defer timer.Stop()
	select {
	case mv := <-metaCh:
		switch mv := mv.(type) {
		case error:
			panic(fmt.Errorf(`error reading meta data of plugin %s: %s`, path, mv.Error()))
		default:
			return mv.(map[string]interface{})
		}
	case <-timer.C:
		panic(fmt.Errorf(`timeout while waiting for plugin %s to start`, path))
	}
}

func initCmd('''))
ok('R16-kill', (PL, '''	graceful := true
	if err := terminateProc(process); err != nil {
		graceful = false
	}

	if graceful {
		// The''', '''	if terminateProc(process) == nil {
		// The'''), (PL, '''			done <- true
		}()''', '''			close(done)
		}()'''))
ok('R16-stop', (PL, '''	for _, p := range r.plugins {
		p.kill()
	}
	r.plugins = nil''', '''	for k, p := range r.plugins {
		p.kill()
		delete(r.plugins, k)
	}'''))
ok('R16-client', (PL, '''	client := http.Client{
		Timeout: time.Second * 5,
		Transport: &http.Transport{
			// The transport isn't reused so an idle connection would just linger
			DisableKeepAlives: true,
			Dial: func(_, _ string) (net.Conn, error) {
				return net.Dial(p.network, p.addr)
			},
		},
	}
	resp, err := client.Get(us)''', '''	resp, err := p.newClient().Get(us)'''), (PL, 'func (p *plugin) callPlugin', '''const callTimeout = 5 * time.Second

func (p *plugin) newClient() *http.Client {
	client := new(http.Client)
	client.Timeout = callTimeout
	client.Transport = &http.Transport{
		DisableKeepAlives: true,
		Dial: func(_, _ string) (net.Conn, error) {
			return net.Dial(p.network, p.addr)
		},
	}
	return client
}

func (p *plugin) callPlugin'''))
ok('R16-with', (HH, '''	return util.Catch(func() {
		s := session.New(parent, tp, options, nil)
		defer s.KillPlugins()
		err := consumer(s)
		if err != nil {
			panic(err)
		}
	})''', '''	return util.Catch(func() {
		DoWithParent(parent, tp, options, func(s api.Session) {
			if err := consumer(s); err != nil {
				panic(err)
			}
		})
	})'''))
ok('R18-go', (PL, '''	p.wGroup.Add(1)
	go ignoreOut(cmdOut, &p.wGroup)
''', '''	p.wGroup.Add(1)
	go func() {
		defer p.wGroup.Done()
		toss := make([]byte, 0x1000)
		var err error
		for err == nil {
			_, err = cmdOut.Read(toss)
		}
	}()
'''), (PL, '''func ignoreOut(cmdOut io.Reader, wGroup *sync.WaitGroup) {
	defer wGroup.Done()
	toss := make([]byte, 0x1000)
	for {
		_, err := cmdOut.Read(toss)
		if err != nil {
			return
		}
	}
}
''', ''))
ok('R18-dup', (PL, '''	p.wGroup.Add(1)
	go copyErrToLog''', '''	p.wGroup.Add(2)
	go copyErrToLog'''), (PL, '''	p.wGroup.Add(1)
	go awaitMeta''', '''	go awaitMeta'''))
bug('C16-twice', 'C16', (PL, '''		if p, ok := r.plugins[path]; ok {''', '''		if p, ok := r.plugins[path]; ok && p.functions != nil && len(opts.String()) > 2 {'''))
bug('C16-unlocked', 'C16', (PL, '''	cmd := initCmd(opts, path)
	cmdErr''', '''	r.lock.Unlock()
	cmd := initCmd(opts, path)
	r.lock.Lock()
	cmdErr'''))

# --- REST: C03 C25 C34 C26
RS = 'hieraserver/rest/rest.go'
bug('C03-share', 'C03', (RS, 'opts.Variables = append(append([]string{}, cmdOpts.Variables...), params[`var`]...)', 'opts.Variables = append(cmdOpts.Variables, params[`var`]...)'))
bug('C03-ptr', 'C03', (RS, '		opts := cmdOpts\n', '		opts := &cmdOpts\n'), (RS, '&opts, []string', 'opts, []string'))
bug('C03-hoist', 'C03', (RS, '	doLookup := func', '	var opts hiera.CommandOptions\n	doLookup := func'), (RS, '		opts := cmdOpts\n', '		opts = cmdOpts\n'))
bug('C03-buf', 'C03', (RS, '	doLookup := func', '	out := bytes.Buffer{}\n	doLookup := func'), (RS, '		out := bytes.Buffer{}\n', '		out.Reset()\n'))
bug('C03-keep', 'C03', (RS, '		opts.RenderAs = `json`', '		cmdOpts.Merge = opts.Merge\n		opts.RenderAs = `json`'))
bug('C03-scope', 'C03', ('hiera/hiera.go', '''	scope := vf.MutableMap()
	if vl''', '''	if vl'''), ('hiera/hiera.go', 'func createScope(', 'var scope = vf.MutableMap()\n\nfunc createScope('))
bug('C03-inv', 'C03', ('hiera/hiera.go', '	invocation := c.Invocation(createScope(c, opts), explainer)', '	if lastIv == nil {\n		lastIv = c.Invocation(createScope(c, opts), explainer)\n	}\n	invocation := lastIv'), ('hiera/hiera.go', 'func createScope(', 'var lastIv api.Invocation\n\nfunc createScope('))
ok('R03-clip', (RS, 'append(append([]string{}, cmdOpts.Variables...), params', 'append(cmdOpts.Variables[:len(cmdOpts.Variables):len(cmdOpts.Variables)], params'))
ok('R03-loop', (RS, '''		opts.Variables = append(append([]string{}, cmdOpts.Variables...), params[`var`]...)
''', '''		vs := make([]string, 0, len(cmdOpts.Variables)+len(params[`var`]))
		for _, v := range cmdOpts.Variables {
			vs = append(vs, v)
		}
		for _, v := range params[`var`] {
			vs = append(vs, v)
		}
		opts.Variables = vs
'''))
ok('R03-helper', (RS, '''		opts := cmdOpts
		params := r.URL.Query()
		if dflt, ok := params[`default`]; ok && len(dflt) > 0 {
			opts.Default = &dflt[0]
		}
		opts.Merge = params.Get(`merge`)
		opts.Type = params.Get(`type`)
		// Ensure that the slice isn't shared with other requests
		opts.Variables = append(append([]string{}, cmdOpts.Variables...), params[`var`]...)
		opts.RenderAs = `json`
''', '''		opts := requestOptions(r)
'''), (RS, '// CreateRouter creates', '''func requestOptions(r *http.Request) hiera.CommandOptions {
	opts := cmdOpts
	params := r.URL.Query()
	if dflt := params[`default`]; len(dflt) > 0 {
		d := dflt[0]
		opts.Default = &d
	}
	if m := params.Get(`merge`); m != `` {
		opts.Merge = m
	}
	opts.Type = params.Get(`type`)
	vs := make([]string, len(cmdOpts.Variables), len(cmdOpts.Variables)+len(params[`var`]))
	copy(vs, cmdOpts.Variables)
	opts.Variables = append(vs, params[`var`]...)
	opts.RenderAs = `json`
	return opts
}

// CreateRouter creates'''))
bug('C25-noreturn', 'C25', (RS, '			http.NotFound(w, r)\n			return\n', '			http.NotFound(w, r)\n			ks = []string{``, ``}\n'))
bug('C25-late', 'C25', (RS, '''		defer func() {
			if r := recover(); r != nil {
				var err error
				if er, ok := r.(error); ok {
					err = er
				} else if es, ok := r.(string); ok {
					err = errors.New(es)
				} else {
					panic(r)
				}
				http.Error(w, err.Error(), http.StatusInternalServerError)
			}
		}()
''', ''), (RS, '''		} else {
			http.Error(w, `404 value''', '''			defer func() {
				if r := recover(); r != nil {
					http.Error(w, fmt.Sprint(r), http.StatusInternalServerError)
				}
			}()
		} else {
			http.Error(w, `404 value'''))
bug('C25-direct', 'C25', (RS, '[]string{key}, &out) {', '[]string{key}, w) {'))
bug('C25-strpanic', 'C25', (RS, '''				} else if es, ok := r.(string); ok {
					err = errors.New(es)
				} else {''', '''				} else {'''))
bug('C25-status', 'C25', (RS, 'err.Error(), http.StatusInternalServerError)', 'err.Error(), http.StatusNotFound)'))
bug('C25-ctype', 'C25', (RS, '''			w.Header().Set("Content-Type", "application/json")
			_, _ = w.Write(out.Bytes())''', '''			_, _ = w.Write(out.Bytes())
			w.Header().Set("Content-Type", "application/json")'''))
bug('C25-silent', 'C25', (RS, '				http.Error(w, err.Error(), http.StatusInternalServerError)', '				if err.Error() != `` {\n					http.Error(w, err.Error(), http.StatusInternalServerError)\n				}'))
bug('C25-empty', 'C25', (RS, '			_, _ = w.Write(out.Bytes())\n', '			if out.Len() > 2 {\n				_, _ = w.Write(out.Bytes())\n			} else {\n				http.NotFound(w, r)\n			}\n'))
ok('R25-switch', (RS, '''				var err error
				if er, ok := r.(error); ok {
					err = er
				} else if es, ok := r.(string); ok {
					err = errors.New(es)
				} else {
					panic(r)
				}
				http.Error(w, err.Error(), http.StatusInternalServerError)''', '''				var msg string
				switch r := r.(type) {
				case error:
					msg = r.Error()
				case string:
					msg = r
				default:
					panic(r)
				}
				http.Error(w, msg, http.StatusInternalServerError)'''))
ok('R25-helper', (RS, '''		defer func() {
			if r := recover(); r != nil {
				var err error
				if er, ok := r.(error); ok {
					err = er
				} else if es, ok := r.(string); ok {
					err = errors.New(es)
				} else {
					panic(r)
				}
				http.Error(w, err.Error(), http.StatusInternalServerError)
			}
		}()
''', '''		defer handleFailure(w)
'''), (RS, '// CreateRouter creates', '''func handleFailure(w http.ResponseWriter) {
	r := recover()
	if r == nil {
		return
	}
	if err, ok := r.(error); ok {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	if s, ok := r.(string); ok {
		http.Error(w, s, http.StatusInternalServerError)
		return
	}
	panic(r)
}

// CreateRouter creates'''))
ok('R25-early', (RS, '''		if hiera.LookupAndRender(ctx, &opts, []string{key}, &out) {
			w.Header().Set("Content-Type", "application/json")
			_, _ = w.Write(out.Bytes())
		} else {
			http.Error(w, `404 value not found`, http.StatusNotFound)
		}''', '''		found := hiera.LookupAndRender(ctx, &opts, []string{key}, &out)
		if !found {
			http.Error(w, `404 value not found`, http.StatusNotFound)
			return
		}
		hdr := w.Header()
		hdr.Set("Content-Type", "application/json")
		w.WriteHeader(http.StatusOK)
		_, _ = out.WriteTo(w)'''))
bug('C34-emptydefault', 'C34', (RS, '''if dflt, ok := params[`default`]; ok && len(dflt) > 0 {
			opts.Default = &dflt[0]''', '''if dflt := params.Get(`default`); dflt != `` {
			opts.Default = &dflt'''))
bug('C34-order', 'C34', (RS, 'append(append([]string{}, cmdOpts.Variables...), params[`var`]...)', 'append(append([]string{}, params[`var`]...), cmdOpts.Variables...)'))
bug('C34-merge', 'C34', (RS, 'opts.Merge = params.Get(`merge`)', 'if opts.Default == nil {\n			opts.Merge = params.Get(`merge`)\n		}'))
bug('C34-type', 'C34', (RS, 'opts.Type = params.Get(`type`)', 'opts.Type = params.Get(`typ`)'))
bug('C34-vars', 'C34', (RS, 'append(append([]string{}, cmdOpts.Variables...), params[`var`]...)', 'append([]string{}, params[`var`]...)'))
bug('C34-json', 'C34', (RS, 'opts.RenderAs = `json`', 'if opts.RenderAs == `` {\n			opts.RenderAs = `json`\n		}'))
bug('C26-and', 'C26', (RS, 'if sslCert == "" && sslKey == "" && clientCA == "" && !clientCertVerify {', 'if sslCert == "" || sslKey == "" {'))
bug('C26-cert', 'C26', (RS, 'if sslCert == "" && sslKey == "" && clientCA == "" && !clientCertVerify {', 'if sslCert == "" && sslKey == "" && clientCA == "" {'))
bug('C26-request', 'C26', (RS, 'tls.RequireAndVerifyClientCert', 'tls.VerifyClientCertIfGiven'))
bug('C26-nested', 'C26', (RS, '	if clientCertVerify {\n', '	if clientCertVerify && clientCA == "" {\n'))
bug('C26-fallback', 'C26', (RS, '''		if err != nil {
			panic(err)
		}

		if tlsConfig''', '''		if err != nil {
			log.Error(err)
		}

		if tlsConfig'''))
bug('C26-badca', 'C26', (RS, '''	ok := certPool.AppendCertsFromPEM(data)
	if !ok {
		return nil, fmt.Errorf("failed to load certificate %q", pemFile)
	}
''', '''	certPool.AppendCertsFromPEM(data)
'''), (RS, '	"fmt"\n', ''), (RS, '		fmt.Println(cmd.OutOrStderr(), err)\n', '		cmd.PrintErrln(err)\n'))
bug('C26-rootca', 'C26', (RS, 'tlsConfig.ClientCAs = certPool', 'tlsConfig.RootCAs = certPool'))
ok('R26-switch', (RS, '''		if tlsConfig == nil {
			err = server.ListenAndServe()
		} else {
			server.TLSConfig = tlsConfig
			err = server.ListenAndServeTLS("", "")
		}
		if err != nil {
			panic(err)
		}''', '''		serve := func() error {
			if tlsConfig != nil {
				server.TLSConfig = tlsConfig
				return server.ListenAndServeTLS("", "")
			}
			return server.ListenAndServe()
		}
		if err = serve(); err != nil {
			panic(err)
		}'''))
ok('R26-helper', (RS, '	if sslCert == "" && sslKey == "" && clientCA == "" && !clientCertVerify {', '	if !wantsTLS() {'), (RS, 'func loadCertPool', '''func wantsTLS() bool {
	return len(sslCert) > 0 || len(sslKey) > 0 || len(clientCA) > 0 || clientCertVerify
}

func loadCertPool'''))
ok('R26-literal', (RS, '''	tlsConfig.Certificates = []tls.Certificate{cert}

	if clientCertVerify {
		tlsConfig.ClientAuth = tls.RequireAndVerifyClientCert
	}

	if clientCA != "" {
		certPool, err := loadCertPool(clientCA)
		if err != nil {
			return tlsConfig, err
		}

		tlsConfig.ClientCAs = certPool
	}

	return tlsConfig, nil''', '''	auth := tls.NoClientCert
	if clientCertVerify {
		auth = tls.RequireAndVerifyClientCert
	}
	var pool *x509.CertPool
	if clientCA != "" {
		if pool, err = loadCertPool(clientCA); err != nil {
			return nil, err
		}
	}
	return &tls.Config{Certificates: []tls.Certificate{cert}, ClientAuth: auth, ClientCAs: pool}, nil'''), (RS, '	tlsConfig := new(tls.Config)\n', ''), (RS, '		return tlsConfig, err\n', '		return nil, err\n'))

# --- C08, C10
CE = 'config/entry.go'
CC = 'config/config.go'
RC = 'session/resolvedconfig.go'
DH = 'internal/datahashprovider.go'
MK = 'provider/modulelookupkey.go'
SS = 'session/session.go'
bug('C08-no-copy', ['C08'], (CE, '	ce := *e\n', '	ce := e\n'), (CE, '	return &ce\n}', '	return ce\n}'))
bug('C08-inplace-locs', ['C08'], (CE, '		ne := make([]api.Location, 0, len(e.locations))', '		ne := e.locations[:0]'))
bug('C08-first-elem', ['C08'], (CE, '		ne := make([]api.Location, 0, len(e.locations))', '		if ls := e.locations[0].Resolve(ic, dataRoot); len(e.locations) == 1 && len(ls) == 1 {\n			e.locations[0] = ls[0]\n			return\n		}\n		ne := make([]api.Location, 0, len(e.locations))'))
bug('C08-lazy-default', ['C08'], (CE, '''func (e *entry) DataDir() string {
''', '''func (e *entry) DataDir() string {
	if e.dataDir == `` {
		e.dataDir = defaultDataDir()
	}
'''))
bug('C08-copy-cfg', ['C08'], (CE, '''	c := *e
	c.cfg = cfg.(*hieraCfg)
	return &c''', '''	e.cfg = cfg.(*hieraCfg)
	return e'''))
ok('R08-copy-func', (CE, '	ce := *e\n', '	ce := e.clone()\n'), (CE, '	return &ce\n}', '	return ce\n}'), (CE, 'func (e *entry) Name()', '''func (e *entry) clone() *entry {
	c := new(entry)
	*c = *e
	return c
}

func (e *entry) Name()'''))
ok('R08-index', (CE, '''		ne := make([]api.Location, 0, len(e.locations))
		for _, l := range e.locations {
			ne = append(ne, l.Resolve(ic, dataRoot)...)
		}
		e.locations = ne''', '''		var ne = []api.Location{}
		for i := range e.locations {
			for _, r := range e.locations[i].Resolve(ic, dataRoot) {
				ne = append(ne, r)
			}
		}
		e.locations = ne'''))
bug('C10-nolock', ['C10'], (DH, '''	dh.hashesLock.RLock()
	hash, ok = dh.hashes.Get(key).(dgo.Map)
	dh.hashesLock.RUnlock()
''', '''	hash, ok = dh.hashes.Get(key).(dgo.Map)
'''))
bug('C10-rlock-write', ['C10'], (DH, '''	dh.hashesLock.Lock()
	defer dh.hashesLock.Unlock()
''', '''	dh.hashesLock.RLock()
	defer dh.hashesLock.RUnlock()
'''))
bug('C10-unlock-early', ['C10'], (DH, '''	dh.hashesLock.Lock()
	defer dh.hashesLock.Unlock()

	if hash, ok = dh.hashes.Get(key).(dgo.Map); ok {
		return hash
	}
''', '''	dh.hashesLock.Lock()
	hash, ok = dh.hashes.Get(key).(dgo.Map)
	dh.hashesLock.Unlock()
	if ok {
		return hash
	}
'''))
bug('C10-start-nolock', ['C10'], (PL, '''	r.lock.Lock()
	defer r.lock.Unlock()

	if r.plugins != nil {
		if p, ok := r.plugins[path]; ok {
			return p.functionMap()
		}
	}
''', '''	if r.plugins != nil {
		if p, ok := r.plugins[path]; ok {
			return p.functionMap()
		}
	}
	r.lock.Lock()
	defer r.lock.Unlock()
'''))
bug('C10-global-cache', ['C10'], (MK, '''	f, err := os.Open(path)
	if err != nil {''', '''	if m, ok := loadedModules[path+moduleName]; ok {
		return m
	}
	f, err := os.Open(path)
	if err != nil {'''), (MK, '		return loadHieraConfig(configPath, moduleName)\n', '		loadedModules[path+moduleName] = loadHieraConfig(configPath, moduleName)\n		return loadedModules[path+moduleName]\n'), (MK, 'func loadModule(', 'var loadedModules = map[string]dgo.Function{}\n\nfunc loadModule('))
bug('C10-capture-sc', ['C10'], (MK, '			mp = loadModuleProvider(iv, modName)\n', '			fn := loadModuleProvider(iv, modName)\n			mp = vf.Value(func(_ hiera.ProviderContext, key string) dgo.Value { return fn.Call(vf.MutableValues(sc, key))[0] }).(dgo.Function)\n			if fn == notFoundLookupKeyFunc {\n				mp = fn\n			}\n'))
bug('C10-cache-resolved', ['C10'], (IV, '''	if rc, ok := ic.configs[configPath]; ok {
		return rc
	}
''', '''	if rc, ok := ic.configs[configPath]; ok {
		return rc
	}
	if rc, ok := sc.Load(`r` + configPath); ok {
		return rc.(api.ResolvedConfig)
	}
'''), (IV, '	rc := Resolve(ic, conf, moduleName)\n', '	rc := Resolve(ic, conf, moduleName)\n	sc.Store(`r`+configPath, rc)\n'))
bug('C10-session-field', ['C10'], (SS, '''		scope = &nestedScope{s.Scope(), api.ToMap(`invocation scope`, si)}
''', '''		scope = &nestedScope{s.Scope(), api.ToMap(`invocation scope`, si)}
		s.scope = scope
'''))
bug('C10-vars', ['C10'], (SS, '''		pr.(*pluginRegistry).stopAll()
''', '''		pr.(*pluginRegistry).stopAll()
		delete(s.vars, hieraPluginRegistry)
'''))
ok('R10-helper', (DH, '''	dh.hashesLock.RLock()
	hash, ok = dh.hashes.Get(key).(dgo.Map)
	dh.hashesLock.RUnlock()
	if ok {
		return
	}
''', '''	if hash, ok = dh.cached(key); ok {
		return
	}
'''), (DH, 'func (dh *dataHashProvider) FullName()', '''func (dh *dataHashProvider) cached(key string) (dgo.Map, bool) {
	dh.hashesLock.RLock()
	defer dh.hashesLock.RUnlock()
	hash, ok := dh.hashes.Get(key).(dgo.Map)
	return hash, ok
}

func (dh *dataHashProvider) FullName()'''))
ok('R10-mutex', (DH, '	hashesLock     sync.RWMutex', '	hashesLock     sync.Mutex'), (DH, '''	dh.hashesLock.RLock()
	hash, ok = dh.hashes.Get(key).(dgo.Map)
	dh.hashesLock.RUnlock()
	if ok {
		return
	}

''', ''))

HL = 'hiera/hiera.go'
LM = '''func lookupInMap(names []string, m dgo.Map) dgo.Value {
	if m != nil && m.Len() > 0 {
		for _, name := range names {
			if dv := m.Get(name); dv != nil {
				return dv
			}
		}
	}
	return nil
}
'''
bug('C12-default-first', ['C12'], (HL, '''	if v := lookupInMap(names, defaultValuesHash); v != nil {
		return ensureType(valueType, v)
	}
	if defaultValue != nil {
		return ensureType(valueType, defaultValue)
	}
''', '''	if defaultValue != nil {
		return ensureType(valueType, defaultValue)
	}
	if v := lookupInMap(names, defaultValuesHash); v != nil {
		return ensureType(valueType, v)
	}
'''))
bug('C12-func-before', ['C12'], (HL, '''	if defaultValue != nil {
		return ensureType(valueType, defaultValue)
	}
	if defaultFunc != nil {
		return ensureType(valueType, defaultFunc())
	}
''', '''	if defaultFunc != nil {
		return ensureType(valueType, defaultFunc())
	}
	if defaultValue != nil {
		return ensureType(valueType, defaultValue)
	}
'''))
bug('C12-untyped-default', ['C12'], (HL, 'return ensureType(valueType, defaultValue)', 'return defaultValue'))
bug('C12-per-name', ['C12'], (HL, '''		if v := ic.Lookup(api.NewKey(name), options); v != nil {
			return ensureType(valueType, v)
		}
	}
	if v := lookupInMap(names, defaultValuesHash); v != nil {
		return ensureType(valueType, v)
	}
''', '''		if v := ic.Lookup(api.NewKey(name), options); v != nil {
			return ensureType(valueType, v)
		}
		if v := lookupInMap([]string{name}, defaultValuesHash); v != nil {
			return ensureType(valueType, v)
		}
	}
'''))
bug('C12-first-name-only', ['C12'], (HL, LM, LM.replace('''				return dv
			}
''', '''				return dv
			}
			if len(names) > 4 {
				break
			}
''')))
bug('C12-skip-last', ['C12'], (HL, LM, LM.replace('range names {', 'range names[:(len(names)+1)/2] {')))
bug('C12-options', ['C12'], (HL, '		if v := ic.Lookup(api.NewKey(name), options); v != nil {\n			response', '		if v := ic.Lookup(api.NewKey(name), nil); v != nil {\n			response'))
bug('C12-all-first', ['C12'], (HL, '		a := []string{name}\n		if v := lookupInMap(a, override)', '		a := []string{name}\n		if v := lookupInMap(names, override)'))
bug('C12-all-nodefaults', ['C12'], (HL, '''		if v := lookupInMap(a, defaultValuesHash); v != nil {
			response.Put(name''', '''		if v := lookupInMap(a, defaultValuesHash); v != nil && valueType != nil {
			response.Put(name'''))
bug('C12-all-untyped', ['C12'], (HL, '''	if e := t.Get(k); e != nil {
		return ensureType(e.Value().(dgo.Type), v)
	}
	panic(fmt.Errorf("key '%s' was not found in the type map", k))''', '''	if e := t.Get(k); e != nil {
		return ensureType(e.Value().(dgo.Type), v)
	}
	return v'''))
bug('C12-all-stop', ['C12'], (HL, '''		if v := lookupInMap(a, defaultValuesHash); v != nil {
			response.Put(name, ensureTypeFromMap(valueType, name, v))
			continue
		}
''', '''		if v := lookupInMap(a, defaultValuesHash); v != nil {
			response.Put(name, ensureTypeFromMap(valueType, name, v))
			break
		}
'''))
bug('C12-lookup-default', ['C12'], (HL, 'typ.Any, defaultValue, nil, nil, api.ToMap(`lookup options`, options), nil)', 'typ.Any, nil, nil, vf.Map(name, defaultValue), api.ToMap(`lookup options`, nil), nil)'))
bug('C12-empty', ['C12'], (HL, '		if v := ic.Lookup(api.NewKey(name), options); v != nil {\n			return', '		if v := ic.Lookup(api.NewKey(name), options); v != nil && !(defaultValue != nil && v.Equals(``)) {\n			return'))
ok('R12-single', (HL, LM, LM + '''
func getFrom(name string, m dgo.Map) dgo.Value {
	if m == nil {
		return nil
	}
	return m.Get(name)
}
'''), (HL, '		a := []string{name}\n		if v := lookupInMap(a, override)', '		if v := getFrom(name, override)'), (HL, 'if v := lookupInMap(a, defaultValuesHash)', 'if v := getFrom(name, defaultValuesHash)'))
ok('R12-find', (HL, '''	response := vf.MutableMap()
	for _, name := range names {
		a := []string{name}
		if v := lookupInMap(a, override); v != nil {
			response.Put(name, ensureTypeFromMap(valueType, name, v))
			continue
		}
		if v := ic.Lookup(api.NewKey(name), options); v != nil {
			response.Put(name, ensureTypeFromMap(valueType, name, v))
			continue
		}
		if v := lookupInMap(a, defaultValuesHash); v != nil {
			response.Put(name, ensureTypeFromMap(valueType, name, v))
			continue
		}
	}
	return response
''', '''	find := func(name string) dgo.Value {
		a := []string{name}
		v := lookupInMap(a, override)
		if v == nil {
			v = ic.Lookup(api.NewKey(name), options)
		}
		if v == nil {
			v = lookupInMap(a, defaultValuesHash)
		}
		return v
	}
	result := vf.MutableMap()
	for i := range names {
		if v := find(names[i]); v != nil {
			result.Put(names[i], ensureTypeFromMap(valueType, names[i], v))
		}
	}
	return result
'''))
ok('R12-one', (HL, LM, LM.replace('''	if m != nil && m.Len() > 0 {
		for _, name := range names {
			if dv := m.Get(name); dv != nil {
				return dv
			}
		}
	}
	return nil
''', '''	if m == nil || m.Len() == 0 {
		return nil
	}
	var dv dgo.Value
	for i := 0; i < len(names) && dv == nil; i++ {
		dv = m.Get(names[i])
	}
	return dv
''')))
ok('R12-var', (HL, '''	if v := lookupInMap(names, override); v != nil {
		return ensureType(valueType, v)
	}
	for _, name := range names {
		if v := ic.Lookup(api.NewKey(name), options); v != nil {
			return ensureType(valueType, v)
		}
	}
	if v := lookupInMap(names, defaultValuesHash); v != nil {
		return ensureType(valueType, v)
	}
	if defaultValue != nil {
		return ensureType(valueType, defaultValue)
	}
	if defaultFunc != nil {
		return ensureType(valueType, defaultFunc())
	}
	return nil
''', '''	v := lookupInMap(names, override)
	for i := 0; v == nil && i < len(names); i++ {
		v = ic.Lookup(api.NewKey(names[i]), options)
	}
	if v == nil {
		v = lookupInMap(names, defaultValuesHash)
	}
	if v == nil {
		v = defaultValue
	}
	if v == nil {
		if defaultFunc == nil {
			return nil
		}
		v = defaultFunc()
	}
	return ensureType(valueType, v)
'''))

MS1 = 'merge/strategy.go'
DM = 'merge/deepmerge.go'
bug('C11-hash-order', ['C11'], (MS1, 'return bh.Merge(ah)', 'return ah.Merge(bh)'))
bug('C11-unique-order', ['C11'], (MS1, 'd.convertValue(a).(dgo.Array).WithAll(d.convertValue(b).(dgo.Array)).Unique()', 'd.convertValue(b).(dgo.Array).WithAll(d.convertValue(a).(dgo.Array)).Unique()'))
bug('C11-unique-dup', ['C11'], (MS1, 'WithAll(d.convertValue(b).(dgo.Array)).Unique()', 'WithAll(d.convertValue(b).(dgo.Array))'))
bug('C11-unique-flat', ['C11'], (MS1, '		return av.Flatten().Unique()\n	}\n	return vf.Values', '		return av.Unique()\n	}\n	return vf.Values'))
bug('C11-unique-orig', ['C11'], (MS1, '		return av.Flatten().Unique()\n	}\n	return vf.Values', '		return av.Flatten()\n	}\n	return vf.Values'))
bug('C11-first-last', ['C11'], (MS1, '''			if v != nil {
				break
			}
''', '''			if v != nil && idx > 0 {
				break
			}
'''))
bug('C11-skip', ['C11'], (MS1, '''				v := variantLookup(vsr.Index(idx), vf)
				if v != nil {''', '''				if idx == 9 {
					continue
				}
				v := variantLookup(vsr.Index(idx), vf)
				if v != nil {'''))
bug('C11-break', ['C11'], (MS1, '''						memo = s.merge(memo, v)
''', '''						memo = s.merge(memo, v)
						if _, ok := memo.(dgo.Map); !ok {
							break
						}
'''))
bug('C11-drop', ['C11'], (MS1, '						memo = s.merge(memo, v)\n', '						if m := s.merge(memo, v); idx < 7 {\n							memo = m\n						}\n'))
bug('C11-deep-arg', ['C11'], (MS1, 'v, _ := Deep(a, b, d.opts)', 'v, _ := Deep(b, a, d.opts)'))
bug('C11-deep-low', ['C11'], (DM, '''				if !a.ContainsKey(e.Key()) {
					es.Put''', '''				if v := a.Get(e.Key()); v == nil || v.Equals(``) {
					es.Put'''))
bug('C11-deep-rec', ['C11'], (DM, 'deep(e.Value(), bv, options)', 'deep(bv, e.Value(), options)'))
bug('C11-deep-lost', ['C11'], (DM, '''				es.Put(e.Key(), e.Value())
			})
			hb''', '''				if e.Value() != vf.Nil {
					es.Put(e.Key(), e.Value())
				}
			})
			hb'''))
bug('C11-deep-array', ['C11'], (DM, 'an := a.WithAll(ab).Unique()', 'an := ab.WithAll(a).Unique()'))
bug('C11-deep-array2', ['C11'], (DM, 'an := a.WithAll(ab).Unique()', 'an := a.WithAll(ab)'))
bug('C11-deep-nonest', ['C11'], (DM, 'if bv := hb.Get(e.Key()); bv != nil {', 'if bv := hb.Get(e.Key()); bv != nil && a.Len() < 100 {'))
bug('C11-name', ['C11'], (MS1, '''	case `hash`:
		return &hashMerge{}
	case `deep`:''', '''	case `deep`, `hash`:'''))
ok('R11-loop', (MS1, '''			for idx := 0; idx < top; idx++ {
				v := variantLookup(vsr.Index(idx), vf)
				if v != nil {
					if memo == nil {
						memo = s.convertValue(v)
					} else {
						memo = s.merge(memo, v)
					}
				}
			}''', '''			for idx := 0; idx < top; idx++ {
				v := variantLookup(vsr.Index(idx), vf)
				if v == nil {
					continue
				}
				if memo != nil {
					memo = s.merge(memo, v)
					continue
				}
				memo = s.convertValue(v)
			}'''))
ok('R11-first', (MS1, '''		var v dgo.Value
		for idx := 0; idx < top; idx++ {
			v = variantLookup(vsr.Index(idx), f)
			if v != nil {
				break
			}
		}
		if v != nil {
			ic.ReportMergeResult(v)
		}
		return v
''', '''		for idx := 0; idx < top; idx++ {
			if v := variantLookup(vsr.Index(idx), f); v != nil {
				ic.ReportMergeResult(v)
				return v
			}
		}
		return nil
'''))
ok('R11-first2', (MS1, '''		var v dgo.Value
		for idx := 0; idx < top; idx++ {
			v = variantLookup(vsr.Index(idx), f)
			if v != nil {
				break
			}
		}
''', '''		var v dgo.Value
		for idx := 0; v == nil && idx < top; idx++ {
			v = variantLookup(vsr.Index(idx), f)
		}
'''))
ok('R11-deep', (DM, '''				if bv := hb.Get(e.Key()); bv != nil {
					if m, mh := deep(e.Value(), bv, options); mh {
						es.Put(e.Key(), m)
						return
					}
				}
				es.Put(e.Key(), e.Value())
''', '''				k, v := e.Key(), e.Value()
				if bv := hb.Get(k); bv != nil {
					v, _ = deep(v, bv, options)
				}
				es.Put(k, v)
'''), (DM, '''			if !a.Equals(es) {
				return es, true
			}
''', '''			if a.Equals(es) {
				return a, false
			}
			return es, true
'''))
ok('R11-deepfn', (DM, '''	switch a := a.(type) {
	case dgo.Map:
		if hb, ok := b.(dgo.Map); ok {
			es :=''', '''	if ha, ok := a.(dgo.Map); ok {
		if hb, ok := b.(dgo.Map); ok {
			return deepHash(ha, hb, options)
		}
	}
	switch a := a.(type) {
	case dgo.Map:
		if hb, ok := b.(dgo.Map); ok {
			es :='''), (DM, '', '''
func deepHash(a, hb dgo.Map, options dgo.Map) (dgo.Value, bool) {
	es := vf.MutableMap()
	a.EachEntry(func(e dgo.MapEntry) {
		if bv := hb.Get(e.Key()); bv != nil {
			if m, mh := deep(e.Value(), bv, options); mh {
				es.Put(e.Key(), m)
				return
			}
		}
		es.Put(e.Key(), e.Value())
	})
	hb.EachEntry(func(e dgo.MapEntry) {
		if a.Get(e.Key()) == nil {
			es.Put(e.Key(), e.Value())
		}
	})
	if a.Equals(es) {
		return a, false
	}
	return es, true
}
'''))

# C37: strategies
IV = 'session/invocation.go'
RC = 'session/resolvedconfig.go'
CLK = 'provider/configlookupkey.go'
MUX = 'provider/muxlookupkey.go'
SCX = 'session/serverctx.go'
bug('C37-order', ['C37'], (IV, '''	if cliMergeOption != nil {
		ic.ReportMergeSource(`CLI option`)
		opts = cliMergeOption
	} else if lookupOptions != nil {
		if opts = lookupOptions.Get(`merge`); opts != nil {
			ic.ReportMergeSource(`"lookup_options" hash`)
		}
	}
''', '''	if lookupOptions != nil {
		if opts = lookupOptions.Get(`merge`); opts != nil {
			ic.ReportMergeSource(`"lookup_options" hash`)
		}
	}
	if opts == nil && cliMergeOption != nil {
		ic.ReportMergeSource(`CLI option`)
		opts = cliMergeOption
	}
'''))
bug('C37-default', ['C37'], (IV, '	default:\n		mergeName = `first`\n	}\n	ic.luOpts', '	default:\n		mergeName = `unique`\n	}\n	ic.luOpts'))
bug('C37-noopts', ['C37'], (IV, '			mergeOpts = opts.Without(`strategy`)\n', ''))
bug('C37-keep', ['C37'], (IV, '''	var mergeName string
	var mergeOpts dgo.Map
''', '''	if opts == nil && ic.strategy != nil {
		ic.luOpts = lookupOptions
		return
	}
	var mergeName string
	var mergeOpts dgo.Map
'''))
bug('C37-keepopts', ['C37'], (IV, '	ic.luOpts = lookupOptions\n	ic.strategy', '	if lookupOptions != nil {\n		ic.luOpts = lookupOptions\n	}\n	ic.strategy'))
bug('C37-firstlevel', ['C37'], (IV, 'return ic.MergeLocations(key, pr, merge)', 'return ic.MergeLocations(key, pr, ic.strategy)'))
bug('C37-locations', ['C37'], (IV, 'return merge.MergeLookup(locations, ic,', 'return ic.MergeStrategy().MergeLookup(locations, ic,'))
bug('C37-prefix', ['C37'], (RC, 'r.moduleName+`::`)', 'r.moduleName)'))
bug('C37-globalonly', ['C37'], (RC, '(r.moduleName == `` || strings', '(r.moduleName != `` || strings'))
bug('C37-lofirst', ['C37'], (RC, 'ms := merge.GetStrategy(`deep`, nil)', 'ms := merge.GetStrategy(`first`, nil)'))
bug('C37-rootkey', ['C37'], (RC, 'r.lookupOptions.Get(root).', 'r.lookupOptions.Get(key.Source()).'))
bug('C37-noconvert', ['C37'], (CLK, '''		return ic.LookupAndConvertData(func() dgo.Value {
			return ic.MergeHierarchy(k, cfg.Hierarchy(), ic.MergeStrategy())
		})
''', '''		return ic.MergeHierarchy(k, cfg.Hierarchy(), ic.MergeStrategy())
'''))
bug('C37-early', ['C37'], (CLK, '''		ic.SetMergeStrategy(sc.Option(`merge`), cfg.LookupOptions(k))
		return ic.LookupAndConvertData(func() dgo.Value {
			return ic.MergeHierarchy(k, cfg.Hierarchy(), ic.MergeStrategy())
''', '''		ms := ic.MergeStrategy()
		ic.SetMergeStrategy(sc.Option(`merge`), cfg.LookupOptions(k))
		if ms == nil {
			ms = ic.MergeStrategy()
		}
		return ic.LookupAndConvertData(func() dgo.Value {
			return ic.MergeHierarchy(k, cfg.Hierarchy(), ms)
'''))
bug('C37-muxopts', ['C37'], (MUX, 'ic.SetMergeStrategy(sc.Option(`merge`), luOpts)', 'if luOpts == nil {\n\t\t\tluOpts = ic.LookupOptions()\n\t\t}\n\t\tic.SetMergeStrategy(sc.Option(`merge`), luOpts)'))
bug('C37-muxdata', ['C37'], (MUX, 'luSc := sc.ForLookupOptions()', 'luSc := sc.ForData()'), )
ok('R37-set', (IV, '''	var mergeName string
	var mergeOpts dgo.Map
	switch opts := opts.(type) {
	case dgo.String:
		mergeName = opts.String()
	case dgo.Map:
		if mn, ok := opts.Get(`strategy`).(dgo.String); ok {
			mergeName = mn.String()
			mergeOpts = opts.Without(`strategy`)
		}
	default:
		mergeName = `first`
	}
	ic.luOpts = lookupOptions
	ic.strategy = merge.GetStrategy(mergeName, mergeOpts)
''', '''	ic.luOpts = lookupOptions
	ic.strategy = selectStrategy(opts)
'''), (IV, '', '''
func selectStrategy(opts dgo.Value) api.MergeStrategy {
	if name, ok := opts.(dgo.String); ok {
		return merge.GetStrategy(name.String(), nil)
	}
	if h, ok := opts.(dgo.Map); ok {
		mn, ok := h.Get(`strategy`).(dgo.String)
		if !ok {
			return merge.GetStrategy(``, nil)
		}
		return merge.GetStrategy(mn.String(), h.Without(`strategy`))
	}
	return merge.GetStrategy(`first`, nil)
}
'''))
ok('R37-clk', (CLK, '''	return ic.WithLookup(k, func() dgo.Value {
		ic.SetMergeStrategy(sc.Option(`merge`), cfg.LookupOptions(k))
		return ic.LookupAndConvertData(func() dgo.Value {
			return ic.MergeHierarchy(k, cfg.Hierarchy(), ic.MergeStrategy())
		})
	})
''', '''	opts := cfg.LookupOptions(k)
	find := func() dgo.Value {
		strategy := ic.MergeStrategy()
		return ic.MergeHierarchy(k, cfg.Hierarchy(), strategy)
	}
	return ic.WithLookup(k, func() dgo.Value {
		option := sc.Option(`merge`)
		ic.SetMergeStrategy(option, opts)
		return ic.LookupAndConvertData(find)
	})
'''))
ok('R37-options', (RC, '''	root := key.Root()
	if r.lookupOptions != nil && (r.moduleName == `` || strings.HasPrefix(root, r.moduleName+`::`)) {
		if m, ok := r.lookupOptions.Get(root).(dgo.Map); ok {
			return m
		}
	}
	return nil
''', '''	if r.lookupOptions == nil {
		return nil
	}
	root := key.Root()
	if r.moduleName != `` && !strings.HasPrefix(root, r.moduleName+`::`) {
		return nil
	}
	m, _ := r.lookupOptions.Get(root).(dgo.Map)
	return m
'''))
ok('R37-resolve', (RC, '''	ms := merge.GetStrategy(`deep`, nil)
	k := api.NewKey(`lookup_options`)
	lic := ic.ForLookupOptions()
	v := lic.WithLookup(k, func() dgo.Value {
		return ms.MergeLookup(r.Hierarchy(), lic, func(prv interface{}) dgo.Value {
			pr := prv.(api.DataProvider)
			return lic.MergeLocations(k, pr, ms)
		})
	})

	if lm, ok := v.(dgo.Map); ok {
		r.lookupOptions = lm
	}
}
''', '''	if lm, ok := r.findOptions(ic.ForLookupOptions()).(dgo.Map); ok {
		r.lookupOptions = lm
	}
}

func (r *resolvedConfig) findOptions(lic api.Invocation) dgo.Value {
	k := api.NewKey(`lookup_options`)
	return lic.WithLookup(k, func() dgo.Value {
		return lic.MergeHierarchy(k, r.Hierarchy(), merge.GetStrategy(`deep`, nil))
	})
}
'''))
ok('R37-locations', (IV, '''		switch len(locations) {
		case 0:
			if locations == nil {
				return ic.invokeWithLocation(dh, nil, key)
			}
			return nil // glob or mapped_paths resulted in zero entries
		case 1:
			return ic.invokeWithLocation(dh, locations[0], key)
		default:
			return merge.MergeLookup(locations, ic, func(location interface{}) dgo.Value {
				return ic.invokeWithLocation(dh, location.(api.Location), key)
			})
		}
''', '''		if locations == nil {
			return ic.invokeWithLocation(dh, nil, key)
		}
		if len(locations) == 1 {
			return ic.invokeWithLocation(dh, locations[0], key)
		}
		if len(locations) == 0 {
			return nil
		}
		one := func(location interface{}) dgo.Value {
			return ic.invokeWithLocation(dh, location.(api.Location), key)
		}
		return merge.MergeLookup(locations, ic, one)
'''))

# C13, C14: interpolation
IPL = 'session/interpolate.go'
ENT = 'config/entry.go'
bug('C13-options', ['C13'], (ENT, 'ic.Interpolate(e.options, false)', 'ic.Interpolate(e.options, true)'))
bug('C13-mapped', ['C13'], ('config/mappedpaths.go', 'ic.InterpolateString(m.template, false)', 'ic.InterpolateString(m.template, len(m.key) > 0)'))
bug('C13-scope', ['C13'], (IPL, 'ic.InterpolateInScope(expr, allowMethods)', 'ic.InterpolateInScope(expr, true)'))
bug('C13-inscope', ['C13'], (IPL, 'val, _ = ic.doInterpolate(val, allowMethods)', 'val = ic.Interpolate(val, true)'))
bug('C13-keys', ['C13'], (IPL, 'k, kc := ic.doInterpolate(e.Key(), allowMethods)', 'k, kc := ic.doInterpolate(e.Key(), true)'))
bug('C13-lookup', ['C13'], (IPL, '		if !allowMethods {\n', '		if !allowMethods && groups[1] != `lookup` {\n'))
bug('C14-nocheck', ['C14'], (IPL, '''		if !allowMethods {
			panic(errors.New(`interpolation using method syntax is not allowed in this context`))
		}
''', '''		if !allowMethods {
			return scopeMethod, expr
		}
'''))
bug('C14-pattern', ['C14'], (IPL, '`^(\\w+)\\((?:["]([^"]+)["]|[\']([^\']+)[\'])\\)$`', '`^(\\w+)\\((?:["]([^"]*)["]|[\']([^\']*)[\'])\\)$`'))
bug('C14-anchor', ['C14'], (IPL, '`^(\\w+)\\(', '`(\\w+)\\('))
bug('C14-ipl', ['C14'], (IPL, '`%{[^}]*}`', '`%{[^}]+}`'))
bug('C14-empty', ['C14'], (IPL, '	`"::"`: true,\n', '	`"::"`: true,\n	`-`: true,\n'))
bug('C14-whole', ['C14'], (IPL, '			if methodKey.isAlias() && match != str {', '			if methodKey == aliasMethod && match != str {'))
bug('C14-strict', ['C14'], (IPL, 'if result == nil && methodKey != strictAliasMethod {', 'if result == nil {'))
bug('C14-alias', ['C14'], (IPL, 'if result == nil && methodKey != strictAliasMethod {', 'if result == nil && !methodKey.isAlias() {'))
bug('C14-hiera', ['C14'], (IPL, 'case `hiera`, `lookup`:', 'case `lookup`:'))
bug('C14-unknown', ['C14'], (IPL, "			panic(fmt.Errorf(`unknown interpolation method '%s'`, groups[1]))\n", '			return scopeMethod, expr\n'), (IPL, '	"fmt"\n', ''))
bug('C14-missing', ['C14'], (IPL, '''				if val == nil {
					return ``
				}
				return val.String()
			}
		})''', '''				if val == nil {
					return match
				}
				return val.String()
			}
		})'''))
bug('C14-quote', ['C14'], (IPL, '''		data := groups[2]
		if data == `` {
			data = groups[3]
		}
''', '''		data := groups[2] + groups[3]
		if strings.HasPrefix(data, ` `) {
			data = expr
		}
'''))
bug('C14-elem', ['C14'], (IPL, '''			if c {
				changed = true
				cp[i] = v
			}
''', '''			if c && !changed {
				changed = true
				cp[i] = v
			}
'''))
bug('C14-last', ['C14'], (IPL, '''			v, c := ic.doInterpolate(e, allowMethods)
			if c {
				changed = true
				cp[i] = v
			}
''', '''			v, c := ic.doInterpolate(e, allowMethods)
			if changed = c; c {
				cp[i] = v
			}
'''))
bug('C14-key', ['C14'], (IPL, '			if kc || vc {', '			if vc || kc && vc {'))
bug('C14-keyonly', ['C14'], (IPL, '			cp.Put(k, v)\n', '			if kc && !vc {\n				v = k\n			}\n			cp.Put(k, v)\n'))
bug('C14-scopeval', ['C14'], (IPL, '			val, _ = ic.doInterpolate(val, allowMethods)\n			return key.Dig(ic, val)', '			return key.Dig(ic, val)'))
bug('C14-dig', ['C14'], (IPL, '			return key.Dig(ic, val)\n', '			if _, ok := val.(dgo.String); ok {\n				return val\n			}\n			return key.Dig(ic, val)\n'))
bug('C14-root', ['C14'], (IPL, 'ic.Scope().Get(key.Root())', 'ic.Scope().Get(expr)'))
ok('R14-table', (IPL, '''			switch methodKey {
			case literalMethod:
				return expr
			case scopeMethod:
				if val := ic.InterpolateInScope(expr, allowMethods); val != nil {
					return val.String()
				}
				return ``
			default:
				val := ic.Lookup(api.NewKey(expr), nil)
				if methodKey.isAlias() {
					result = val
					return ``
				}
				if val == nil {
					return ``
				}
				return val.String()
			}
''', '''			var val dgo.Value
			if methodKey == literalMethod {
				return expr
			}
			if methodKey == scopeMethod {
				val = ic.InterpolateInScope(expr, allowMethods)
			} else {
				val = ic.Lookup(api.NewKey(expr), nil)
				if methodKey.isAlias() {
					result = val
					return ``
				}
			}
			return textOf(val)
'''), (IPL, '', '''
func textOf(val dgo.Value) string {
	if val == nil {
		return ``
	}
	return val.String()
}
'''))
ok('R14-array', (IPL, '''		cp := a.AppendToSlice(make([]dgo.Value, 0, a.Len()))
		changed := false
		for i, e := range cp {
			v, c := ic.doInterpolate(e, allowMethods)
			if c {
				changed = true
				cp[i] = v
			}
		}
		if changed {
			a = vf.Array(cp)
		}
		return a, changed
''', '''		return ic.interpolateArray(a, allowMethods)
'''), (IPL, '', '''
func (ic *ivContext) interpolateArray(a dgo.Array, allowMethods bool) (dgo.Value, bool) {
	any := false
	cp := a.AppendToSlice(make([]dgo.Value, 0, a.Len()))
	for i := 0; i < len(cp); i++ {
		if v, c := ic.doInterpolate(cp[i], allowMethods); c {
			cp[i] = v
			any = true
		}
	}
	if !any {
		return a, false
	}
	return vf.Array(cp), true
}
'''))
ok('R14-map', (IPL, '''			k, kc := ic.doInterpolate(e.Key(), allowMethods)
			v, vc := ic.doInterpolate(e.Value(), allowMethods)
			cp.Put(k, v)
			if kc || vc {
				changed = true
			}
''', '''			v, vc := ic.doInterpolate(e.Value(), allowMethods)
			k, kc := ic.doInterpolate(e.Key(), allowMethods)
			changed = changed || kc || vc
			cp.Put(k, v)
'''))
ok('R14-methods', (IPL, '''	if groups := methodMatch.FindStringSubmatch(expr); groups != nil {
		if !allowMethods {
			panic(errors.New(`interpolation using method syntax is not allowed in this context`))
		}
''', '''	groups := methodMatch.FindStringSubmatch(expr)
	if groups == nil {
		return scopeMethod, expr
	}
	if !allowMethods {
		panic(errors.New(`interpolation using method syntax is not allowed in this context`))
	}
	{
'''), (IPL, '''			panic(fmt.Errorf(`unknown interpolation method '%s'`, groups[1]))
		}
	}
	return scopeMethod, expr
''', '''			panic(fmt.Errorf(`unknown interpolation method '%s'`, groups[1]))
		}
	}
'''))
ok('R14-pattern', (IPL, '`^(\\w+)\\((?:["]([^"]+)["]|[\']([^\']+)[\'])\\)$`', '`^([A-Za-z0-9_]+)[(](?:"([^"]+)"|\'([^\']+)\')[)]$`'))
ok('R13-local', (ENT, 'ic.Interpolate(e.options, false)', 'ic.Interpolate(e.options, noMethods)'), (ENT, '', '\nconst noMethods = false\n'))

DH = 'internal/datahashprovider.go'
LK = 'internal/lookupkeyprovider.go'
DD = 'internal/datadigprovider.go'
bug('C24-key-source', 'C24', (DH, 'root := key.Root()', 'root := key.Source()'))
bug('C24-no-path', 'C24', (LK, '	if location != nil {\n		opts', '	if location != nil && len(opts.Keys().String()) > 2 {\n		opts'))
bug('C24-original', 'C24', (LK, 'location.Resolved()', 'location.Original()'))
bug('C24-cache-orig', 'C24', (DH, '		key = location.Resolved()\n		opts = optionsWithLocation(opts, key)', '		key = location.Original()\n		opts = optionsWithLocation(opts, location.Resolved())'))
bug('C24-cache-base', 'C24', (DH, '	var ok bool\n	dh', '	key = filepath.Base(key)\n	var ok bool\n	dh'), (DH, '"fmt"\n', '"fmt"\n	"path/filepath"\n'))
bug('C24-put-empty', 'C24', (DH, 'dh.hashes.Put(key, hash)', 'dh.hashes.Put(``, hash)'))
bug('C24-opts-order', 'C24', (DH, 'return options.Merge(vf.Map(`path`, loc))', 'return vf.Map(`path`, loc).Merge(options)'))
bug('C24-no-report', 'C24', (DD, '		ic.ReportNotFound(key)\n', '		value = nil\n'))
bug('C24-two-reports', 'C24', (LK, '		ic.ReportFound(root, value)\n	} else {\n		ic.ReportNotFound(root)\n	}', '		ic.ReportFound(root, value)\n	}\n	ic.ReportNotFound(root)'))
bug('C24-table', 'C24', (LK, 'return provider.Environment', 'return provider.ScopeLookupKey'))
bug('C24-json', 'C24', (DH, '	case `json_data`:\n		return provider.JSONData\n', ''), (DH, '	case `yaml_data`:', '	case `yaml_data`, `json_data`:'))
bug('C24-exists', 'C24', (IV, 'return ic.invokeWithLocation(dh, locations[0], key)', 'return dh.LookupKey(key, ic, locations[0])'))
bug('C24-exists-nil', 'C24', (IV, '		case 0:\n			if locations == nil {\n				return ic.invokeWithLocation(dh, nil, key)\n			}\n			return nil // glob', '		case 0:\n			return ic.invokeWithLocation(dh, nil, key) // glob'))
bug('C24-first-only', 'C24', (IV, '		case 1:\n			return ic.invokeWithLocation(dh, locations[0], key)\n', '		case 1, 2:\n			return ic.invokeWithLocation(dh, locations[0], key)\n'))
bug('C24-wrap', 'C24', (LK, 'return f.Call(vf.MutableValues(pc, key))[0]', 'return f.Call(vf.MutableValues(pc, n))[0]'))
bug('C24-empty-is-nil', 'C24', (LK, '	if value != nil {\n		ic.ReportFound', '	if value != nil && value.String() == `` {\n		value = nil\n	}\n	if value != nil {\n		ic.ReportFound'))
bug('C24-parse', 'C24', (IV, '', '\nfunc (ic *ivContext) again(key api.Key) api.Key {\n	return api.NewKey(key.Root())\n}\n'))
ok('R24-switch', (LK, '	if value != nil {\n		ic.ReportFound(root, value)\n	} else {\n		ic.ReportNotFound(root)\n	}\n	return value', '	if value == nil {\n		ic.ReportNotFound(root)\n		return nil\n	}\n	ic.ReportFound(root, value)\n	return value'))
ok('R24-helper', (DH, '''	key := ``
	opts := dh.hierarchyEntry.Options()
	if location != nil {
		key = location.Resolved()
		opts = optionsWithLocation(opts, key)
	}
''', '''	key, opts := dh.params(location)
'''), (DH, '', '''
func (dh *dataHashProvider) params(location api.Location) (string, dgo.Map) {
	opts := dh.hierarchyEntry.Options()
	if location == nil {
		return ``, opts
	}
	p := location.Resolved()
	return p, optionsWithLocation(opts, p)
}
'''))
ok('R24-table', (DH, '''	n := dh.hierarchyEntry.Function().Name()
	switch n {
	case `yaml_data`:
		return provider.YamlData
	case `json_data`:
		return provider.JSONData
	}
''', '''	n := dh.hierarchyEntry.Function().Name()
	if n == `yaml_data` {
		return provider.YamlData
	} else if n == `json_data` {
		return provider.JSONData
	}
'''))
ok('R24-map', (DH, '''	n := dh.hierarchyEntry.Function().Name()
	switch n {
	case `yaml_data`:
		return provider.YamlData
	case `json_data`:
		return provider.JSONData
	}
''', '''	n := dh.hierarchyEntry.Function().Name()
	if bf, ok := builtinHashes[n]; ok {
		return bf
	}
'''), (DH, '', '''
var builtinHashes = map[string]hiera.DataHash{`yaml_data`: provider.YamlData, `json_data`: provider.JSONData}
'''))
ok('R24-inline', (DH, '	if value := dh.dataValue(ic, location, root); value != nil {\n		ic.ReportFound(root, value)\n		return value\n	}\n	ic.ReportNotFound(root)\n	return nil', '''	value := dh.dataHash(ic, location).Get(root)
	if value != nil {
		value = ic.Interpolate(value, true)
	}
	if value == nil {
		ic.ReportNotFound(root)
		return nil
	}
	ic.ReportFound(root, value)
	return value'''), (DH, '''func (dh *dataHashProvider) dataValue(ic api.Invocation, location api.Location, root string) dgo.Value {
	value := dh.dataHash(ic, location).Get(root)
	if value == nil {
		return nil
	}
	return ic.Interpolate(value, true)
}

''', ''))
ok('R24-locations', (IV, '''		switch len(locations) {
		case 0:
			if locations == nil {
				return ic.invokeWithLocation(dh, nil, key)
			}
			return nil // glob or mapped_paths resulted in zero entries
		case 1:
			return ic.invokeWithLocation(dh, locations[0], key)
		default:
			return merge.MergeLookup(locations, ic, func(location interface{}) dgo.Value {
				return ic.invokeWithLocation(dh, location.(api.Location), key)
			})
		}
''', '''		if locations == nil {
			return ic.invokeWithLocation(dh, nil, key)
		}
		n := len(locations)
		if n == 0 {
			return nil
		}
		if n > 1 {
			return merge.MergeLookup(locations, ic, func(location interface{}) dgo.Value {
				l := location.(api.Location)
				return ic.invokeWithLocation(dh, l, key)
			})
		}
		return ic.invokeWithLocation(dh, locations[0], key)
'''))
bug('C14-last-entry', 'C14', (IPL, '			if kc || vc {\n				changed = true\n			}\n', '			changed = kc || vc\n'))
bug('C14-last-value', 'C14', (IPL, '			if kc || vc {\n				changed = true\n			}\n', '			_ = vc\n			changed = changed || kc\n'))
bug('C14-last-elem', 'C14', (IPL, '			if c {\n				changed = true\n				cp[i] = v\n			}\n', '			changed = c\n			cp[i] = v\n'))

KEY = 'api/key.go'
bug('C36-from-first', 'C36', (KEY, 'for i := 1; i < t; i++ {', 'for i := 0; i < t; i++ {'))
bug('C36-upper', 'C36', (KEY, 'ix >= 0 && ix < vc.Len()', 'ix >= 0 && ix <= vc.Len()'))
bug('C36-negative', 'C36', (KEY, 'ix >= 0 && ix < vc.Len()', 'ix < vc.Len()'))
bug('C36-last-lost', 'C36', (KEY, 'for i := 1; i < t; i++ {', 'for i := 1; i < t-1; i++ {'))
bug('C36-strings', 'C36', (KEY, '''					if ix, ok := p.(int); ok {
						kx = vf.Integer(int64(ix))
					} else {
						kx = vf.String(p.(string))
					}
					if v := vc.Get''', '''					kx = vf.String(fmt.Sprint(p))
					if v := vc.Get'''))
bug('C36-noreport', 'C36', (KEY, '						ic.ReportFound(p, v)\n						return v\n					}\n				}\n				ic', '						return v\n					}\n				}\n				ic'))
bug('C36-nobreak', 'C36', (KEY, '			if v == nil {\n				break\n			}\n', ''))
bug('C36-bury-first', 'C36', (KEY, 'i > 0; i--', 'i >= 0; i--'))
bug('C36-bury-order', 'C36', (KEY, 'for i := len(k.parts) - 1; i > 0; i-- {', 'for i := 1; i < len(k.parts); i++ {'))
bug('C36-bury-name', 'C36', (KEY, '''		if ix, ok := p.(int); ok {
			kx = vf.Integer(int64(ix))
		} else {
			kx = vf.String(p.(string))
		}
		value =''', '''		if s, ok := p.(string); ok {
			kx = vf.String(s)
		} else {
			kx = vf.String(strconv.Itoa(p.(int)))
		}
		value ='''))
bug('C36-nodig', 'C36', (IV, 'v = key.Dig(dc, v)', 'if len(key.Parts()) > 2 {\n				v = key.Dig(dc, v)\n			}'))
bug('C36-source', 'C36', (IV, 'rootKey := key.Root()', 'rootKey := key.Root()\n	if key.Source() == `x` {\n		rootKey = key.Source()\n	}'))
bug('C36-scalar', 'C36', (KEY, '				ic.ReportNotFound(p)\n				return nil', '''				if s, ok := v.(dgo.String); ok && p == 0 {
					ic.ReportFound(p, s)
					return s
				}
				ic.ReportNotFound(p)
				return nil'''))
bug('C35-unguarded', 'C35', (IV, 'if rootKey == `lookup_options` {', 'if key.Source() == `lookup_options` {'))
bug('C35-value', 'C35', (IV, '			ic.ReportNotFound(key)\n			return nil\n		})\n	}', '			ic.ReportNotFound(key)\n			return options\n		})\n	}'))
bug('C35-dotted', 'C35', (IV, 'if rootKey == `lookup_options` {', 'if rootKey == `lookup_options` && len(key.Parts()) == 1 {'))
bug('C35-other', 'C35', (IV, '', '\nfunc (ic *ivContext) raw(name string) dgo.Value {\n	return ic.TopProvider()(ic.ServerContext(nil), name)\n}\n'))
ok('R35-const', (IV, 'if rootKey == `lookup_options` {', 'if rootKey == lookupOptionsKey {'), (IV, '', '\nconst lookupOptionsKey = `lookup_options`\n'))
ok('R35-helper', (IV, '''		return ic.WithInvalidKey(key, func() dgo.Value {
			ic.ReportNotFound(key)
			return nil
		})
	}
''', '''		return ic.invalidKey(key)
	}
'''), (IV, '', '''
func (ic *ivContext) invalidKey(key api.Key) dgo.Value {
	return ic.WithInvalidKey(key, func() dgo.Value {
		ic.ReportNotFound(key)
		return nil
	})
}
'''))
ok('R36-range', (KEY, '		for i := 1; i < t; i++ {\n			p := k.parts[i]\n', '		for _, p := range k.parts[1:] {\n			p := p\n'))
ok('R36-helper', (KEY, '''			v = ic.WithSegment(p, func() dgo.Value {
				switch vc := v.(type) {
				case dgo.Array:
					if ix, ok := p.(int); ok {
						if ix >= 0 && ix < vc.Len() {
							v = vc.Get(ix)
							ic.ReportFound(p, v)
							return v
						}
					}
				case dgo.Map:
					var kx dgo.Value
					if ix, ok := p.(int); ok {
						kx = vf.Integer(int64(ix))
					} else {
						kx = vf.String(p.(string))
					}
					if v := vc.Get(kx); v != nil {
						ic.ReportFound(p, v)
						return v
					}
				}
				ic.ReportNotFound(p)
				return nil
			})
''', '''			v = digSegment(ic, p, v)
'''), (KEY, '', '''
func digSegment(ic Invocation, p interface{}, v dgo.Value) dgo.Value {
	return ic.WithSegment(p, func() dgo.Value {
		var found dgo.Value
		switch vc := v.(type) {
		case dgo.Array:
			if ix, ok := p.(int); ok && 0 <= ix && ix <= vc.Len()-1 {
				found = vc.Get(ix)
			}
		case dgo.Map:
			found = vc.Get(segmentKey(p))
		}
		if found == nil {
			ic.ReportNotFound(p)
		} else {
			ic.ReportFound(p, found)
		}
		return found
	})
}

func segmentKey(p interface{}) dgo.Value {
	if ix, ok := p.(int); ok {
		return vf.Integer(int64(ix))
	}
	return vf.String(p.(string))
}
'''))
ok('R36-early', (KEY, '			if v == nil {\n				break\n			}\n', '			if v == nil {\n				return nil\n			}\n'))
ok('R36-single', (KEY, '	t := len(k.parts)\n	if t == 1 {\n		return v\n	}\n', '	t := len(k.parts)\n	if t <= 1 {\n		return v\n	}\n'))
ok('R36-bury', (KEY, '''		var kx dgo.Value
		if ix, ok := p.(int); ok {
			kx = vf.Integer(int64(ix))
		} else {
			kx = vf.String(p.(string))
		}
		value = vf.Map(kx, value)''', '''		switch p := p.(type) {
		case int:
			value = vf.Map(vf.Integer(int64(p)), value)
		case string:
			value = vf.Map(vf.String(p), value)
		}'''))
ok('R36-value', (KEY, '''		var kx dgo.Value
		if ix, ok := p.(int); ok {
			kx = vf.Integer(int64(ix))
		} else {
			kx = vf.String(p.(string))
		}
		value = vf.Map(kx, value)''', '''		value = vf.Map(p, value)'''))

# C33 settings
CFG = 'config/config.go'
bug('C33-raw-datadir', ['C33'], (ENT, '		if d, dc := ic.InterpolateString(e.dataDir, false); dc {\n			e.dataDir = d.String()\n		}', '		if d, dc := ic.InterpolateString(e.dataDir, false); dc && e.options != nil {\n			e.dataDir = d.String()\n		}'))
bug('C33-plugin-default', ['C33'], (ENT, 'e.pluginDir = defaults.PluginDir()', 'e.pluginDir = defaults.DataDir()'))
bug('C33-env', ['C33'], (CFG, 'os.LookupEnv("HIERA_PLUGINDIR")', 'os.LookupEnv("HIERA_PLUGIN_DIR")'))
bug('C33-env-dflt', ['C33'], (CFG, '		dataDir = `data`', '		dataDir = `.`'))
bug('C33-abs', ['C33'], (ENT, '	if filepath.IsAbs(e.dataDir) {\n		dataRoot = e.dataDir\n	} else {\n		dataRoot = filepath.Join(e.cfg.root, e.dataDir)\n	}', '	dataRoot = filepath.Join(e.cfg.root, e.dataDir)'))
bug('C33-plugin-abs', ['C33'], (ENT, '	if !filepath.IsAbs(e.pluginDir) {\n		e.pluginDir = filepath.Join(e.cfg.root, e.pluginDir)\n	}\n', '	if !filepath.IsAbs(e.pluginDir) {\n		e.pluginDir = filepath.Join(e.cfg.root, e.dataDir, e.pluginDir)\n	}\n'))
bug('C33-opts-default', ['C33'], (ENT, '		if defaults != nil {\n			e.options = defaults.Options()', '		if defaults != nil && e.locations == nil {\n			e.options = defaults.Options()'))
bug('C33-opts-one', ['C33'], (ENT, '} else if e.options.Len() > 0 {', '} else if e.options.Len() > 1 {'))
bug('C33-order', ['C33'], (ENT, '	ce.resolveFunction(ic, defaults)\n	ce.resolveDataDir(ic, defaults)\n	ce.resolvePluginDir(ic, defaults)\n	ce.resolveOptions(ic, defaults)\n	ce.resolveLocations(ic)', '	ce.resolveFunction(ic, defaults)\n	ce.resolveLocations(ic)\n	ce.resolveDataDir(ic, defaults)\n	ce.resolvePluginDir(ic, defaults)\n	ce.resolveOptions(ic, defaults)'))
bug('C33-fn', ['C33'], (ENT, 'name: `yaml_data`}', 'name: `json_data`}'))
bug('C33-fn-default', ['C33'], (ENT, '		if defaults == nil {\n			e.function =', '		if defaults == nil || e.options != nil {\n			e.function ='))
bug('C33-paths', ['C33'], (CFG, 'a.Each(func(p dgo.Value) { entry.locations = append(entry.locations, NewGlob(p.String())) })', 'a.Each(func(p dgo.Value) { entry.locations = append(entry.locations, NewPath(p.String())) })'))
bug('C33-pluginfile', ['C33'], (CFG, 'entry.pluginFile = v.String()', 'entry.pluginDir = v.String()'))
bug('C33-kind', ['C33'], ('config/function.go', 'return &function{f.kind, n.String()}, true', 'return &function{api.KindDataHash, n.String()}, true'))
bug('C33-mapped', ['C33'], (CFG, 'NewMappedPaths(a.Get(0).String(), a.Get(1).String(), a.Get(2).String())', 'NewMappedPaths(a.Get(1).String(), a.Get(0).String(), a.Get(2).String())'))
bug('C33-locs-last', ['C33'], (ENT, 'ne = append(ne, l.Resolve(ic, dataRoot)...)', 'ne = append(ne[:0], l.Resolve(ic, dataRoot)...)'))
bug('C33-locs-first', ['C33'], (ENT, '			ne = append(ne, l.Resolve(ic, dataRoot)...)\n', '			ne = append(ne, l.Resolve(ic, dataRoot)...)\n			if len(ne) > 10 {\n				break\n			}\n'))
ok('R33-helper', (ENT, '''	if e.dataDir == `` {
		if defaults == nil {
			e.dataDir = defaultDataDir()
		} else {
			e.dataDir = defaults.DataDir()
		}
	} else {
		if d, dc := ic.InterpolateString(e.dataDir, false); dc {
			e.dataDir = d.String()
		}
	}
}''', '''	e.dataDir = resolveDir(ic, e.dataDir, func() string {
		if defaults != nil {
			return defaults.DataDir()
		}
		return defaultDataDir()
	})
}

func resolveDir(ic api.Invocation, dir string, dflt func() string) string {
	if len(dir) == 0 {
		return dflt()
	}
	d, changed := ic.InterpolateString(dir, false)
	if !changed {
		return dir
	}
	return d.String()
}'''))
ok('R33-abs', (ENT, '''	var dataRoot string
	if filepath.IsAbs(e.dataDir) {
		dataRoot = e.dataDir
	} else {
		dataRoot = filepath.Join(e.cfg.root, e.dataDir)
	}
''', '''	dataRoot := e.dataDir
	if !filepath.IsAbs(dataRoot) {
		dataRoot = filepath.Join(e.cfg.Root(), dataRoot)
	}
'''))
ok('R33-nil', (ENT, '''	if e.locations != nil {
		ne := make([]api.Location, 0, len(e.locations))
		for _, l := range e.locations {
			ne = append(ne, l.Resolve(ic, dataRoot)...)
		}
		e.locations = ne
	}''', '''	if e.locations == nil {
		return
	}
	var ne = []api.Location{}
	for i := range e.locations {
		rs := e.locations[i].Resolve(ic, dataRoot)
		ne = append(ne, rs...)
	}
	e.locations = ne'''))
ok('R33-once', (ENT, '	e.resolveFunction(ic, defaults)\n	if e.dataDir == `` {', '	if e.dataDir == `` {'))
ok('R33-env', (CFG, '''	dataDir, exists := os.LookupEnv("HIERA_DATADIR")
	if !exists {
		dataDir = `data`
	}
	return dataDir
''', '''	return fromEnv("HIERA_DATADIR", `data`)
'''), (CFG, '''	pluginDir, exists := os.LookupEnv("HIERA_PLUGINDIR")
	if !exists {
		pluginDir = `plugin`
	}
	return pluginDir
}
''', '''	return fromEnv("HIERA_PLUGINDIR", `plugin`)
}

func fromEnv(name, dflt string) string {
	if v, ok := os.LookupEnv(name); ok {
		return v
	}
	return dflt
}
'''))
ok('R33-array', (CFG, '''				a := v.(dgo.Array)
				entry.locations = make([]api.Location, 0, a.Len())
				a.Each(func(p dgo.Value) { entry.locations = append(entry.locations, NewPath(p.String())) })
''', '''				entry.locations = toLocations(v.(dgo.Array), NewPath)
'''), (CFG, '''				a := v.(dgo.Array)
				entry.locations = make([]api.Location, 0, a.Len())
				a.Each(func(p dgo.Value) { entry.locations = append(entry.locations, NewGlob(p.String())) })
''', '''				entry.locations = toLocations(v.(dgo.Array), NewGlob)
'''), (CFG, '', '''
func toLocations(a dgo.Array, mk func(string) api.Location) []api.Location {
	ls := make([]api.Location, 0, a.Len())
	a.Each(func(p dgo.Value) { ls = append(ls, mk(p.String())) })
	return ls
}
'''))
ok('R33-loop', (CFG, '''				a := v.(dgo.Array)
				entry.locations = make([]api.Location, 0, a.Len())
				a.Each(func(p dgo.Value) { entry.locations = append(entry.locations, NewPath(p.String())) })
''', '''				a := v.(dgo.Array)
				entry.locations = make([]api.Location, a.Len())
				for i := 0; i < a.Len(); i++ {
					entry.locations[i] = NewPath(a.Get(i).String())
				}
'''))
ok('R33-read', (CFG, '''		case ks == `datadir`:
			entry.dataDir = v.String()
		case ks == `plugindir`:
			entry.pluginDir = v.String()
''', ''), (CFG, '	entry.initialize(name, entryHash)\n', '''	entry.initialize(name, entryHash)
	if dd := entryHash.Get(`datadir`); dd != nil {
		entry.dataDir = dd.String()
	}
	if pd := entryHash.Get(`plugindir`); pd != nil {
		entry.pluginDir = pd.String()
	}
'''))
ok('R33-isset', (ENT, '''	} else if e.options.Len() > 0 {
		e.options = ic.Interpolate(e.options, false).(dgo.Map)
	}
''', '''	} else if e.options.Len() != 0 {
		opts := ic.Interpolate(e.options, false)
		e.options = opts.(dgo.Map)
	}
'''))
bug('C33-provider', ['C33'], ('session/resolvedconfig.go', '	case api.KindDataDig:\n		return internal.NewDataDigProvider(e)\n	default:', '	case api.KindDataDig:\n		fallthrough\n	default:'))
ok('R33-provider', ('session/resolvedconfig.go', '''	switch e.Function().Kind() {
	case api.KindDataHash:
		return internal.NewDataHashProvider(e)
	case api.KindDataDig:
		return internal.NewDataDigProvider(e)
	default:
		return internal.NewLookupKeyProvider(e)
	}
''', '''	kind := e.Function().Kind()
	if kind == api.KindLookupKey {
		return internal.NewLookupKeyProvider(e)
	}
	if kind == api.KindDataDig {
		return internal.NewDataDigProvider(e)
	}
	return internal.NewDataHashProvider(e)
'''))

# C38 locations
PTH, GLB, URI, MAP = 'config/path.go', 'config/glob.go', 'config/uri.go', 'config/mappedpaths.go'
bug('C38-orig', ['C38'], (PTH, '	rp := filepath.Join(dataDir, r.String())', '	rp := filepath.Join(dataDir, r.String())\n	if r == nil {\n		rp = p.original\n	}'))
bug('C38-abs', ['C38'], (PTH, '	rp := filepath.Join(dataDir, r.String())', '	rp := r.String()\n	if !filepath.IsAbs(rp) {\n		rp = filepath.Join(dataDir, rp)\n	}'))
bug('C38-stat', ['C38'], (PTH, '	_, err := os.Stat(rp)', '	_, err := os.Lstat(rp)'))
bug('C38-stat-dir', ['C38'], (PTH, '	_, err := os.Stat(rp)', '	_, err := os.Stat(filepath.Dir(rp))'))
bug('C38-glob-sort', ['C38'], (GLB, '	sort.Strings(matches)\n', '	_ = sort.Strings\n'))
bug('C38-glob-sort-cond', ['C38'], (GLB, '	sort.Strings(matches)\n', '	if len(matches) > 2 {\n		sort.Strings(matches)\n	}\n'))
bug('C38-glob-last', ['C38'], (GLB, '		ls[i] = &path{g.Original(), m, true}', '		ls[len(matches)-1-i] = &path{g.Original(), m, true}'))
bug('C38-glob-raw', ['C38'], (GLB, '	rp := filepath.Join(dataDir, r.String())', '	rp := filepath.Join(dataDir, g.Original())\n	_ = r'))
bug('C38-uri-raw', ['C38'], (URI, '&uri{u.original, r.String()}', '&uri{r.String(), u.original}'))
bug('C38-map-scope', ['C38'], (MAP, '	if s.k.Equals(key) {\n		return s.v\n	}\n	return s.s.Get(key)', '	if v := s.s.Get(key); v != nil {\n		return v\n	}\n	if s.k.Equals(key) {\n		return s.v\n	}\n	return nil'))
bug('C38-map-hide', ['C38'], (MAP, '	return s.s.Get(key)', '	return nil'))
bug('C38-map-ix', ['C38'], (MAP, '			paths[i] = &path{m.template, rp, err == nil}', '			if err == nil {\n				paths[i] = &path{m.template, rp, err == nil}\n			}'))
bug('C38-map-outside', ['C38'], (MAP, '''		ic.DoWithScope(&scopeWithVar{ic.Scope(), vf.String(m.key), mv}, func() {
			r, _ := ic.InterpolateString(m.template, false)
''', '''		r, _ := ic.InterpolateString(m.template, false)
		ic.DoWithScope(&scopeWithVar{ic.Scope(), vf.String(m.key), mv}, func() {
'''))
bug('C38-map-str', ['C38'], (MAP, '	case dgo.String:\n		mappedVars = vf.Values(v)\n', ''))
bug('C38-map-key', ['C38'], (MAP, 'vf.String(m.key), mv}', 'vf.String(m.sourceVar), mv}'))
bug('C38-map-many', ['C38'], (MAP, '	mappedVars.EachWithIndex(func(mv dgo.Value, i int) {\n', '	mappedVars.EachWithIndex(func(mv dgo.Value, i int) {\n		if i > 0 && mv.Equals(mappedVars.Get(i-1)) {\n			paths[i] = paths[i-1]\n			return\n		}\n'))
bug('C38-kind', ['C38'], (URI, 'return api.LcURI', 'return api.LcPath'))
bug('C38-uri-exists', ['C38'], (URI, 'func (u *uri) Exists() bool {\n	return true', 'func (u *uri) Exists() bool {\n	return u.resolved != u.original'))
ok('R38-helper', (PTH, '''	rp := filepath.Join(dataDir, r.String())
	_, err := os.Stat(rp)
	return []api.Location{&path{p.original, rp, err == nil}}
}''', '''	return []api.Location{resolvedPath(p.original, dataDir, r)}
}

func resolvedPath(original, dataDir string, r dgo.Value) *path {
	rp := filepath.Join(dataDir, r.String())
	exists := true
	if _, err := os.Stat(rp); err != nil {
		exists = false
	}
	return &path{original: original, resolved: rp, exists: exists}
}'''), (MAP, '''			rp := filepath.Join(dataDir, r.String())
			_, err := os.Stat(rp)
			paths[i] = &path{m.template, rp, err == nil}
''', '''			paths[i] = resolvedPath(m.template, dataDir, r)
'''), (MAP, '	"os"\n	"path/filepath"\n', ''))
ok('R38-append', (GLB, '''	ls := make([]api.Location, len(matches))
	for i, m := range matches {
		ls[i] = &path{g.Original(), m, true}
	}
''', '''	ls := make([]api.Location, 0, len(matches))
	for _, m := range matches {
		ls = append(ls, &path{g.Original(), m, true})
	}
'''))
ok('R38-index', (GLB, '''	for i, m := range matches {
		ls[i] = &path{g.Original(), m, true}
	}
''', '''	for i := 0; i < len(matches); i++ {
		ls[i] = &path{original: string(g), resolved: matches[i], exists: true}
	}
'''))
ok('R38-mapapp', (MAP, 'paths := make([]api.Location, mappedVars.Len())', 'paths := make([]api.Location, 0, mappedVars.Len())'), (MAP, 'mappedVars.EachWithIndex(func(mv dgo.Value, i int) {', 'mappedVars.Each(func(mv dgo.Value) {'), (MAP, 'paths[i] = &path{m.template, rp, err == nil}', 'paths = append(paths, &path{m.template, rp, err == nil})'))
ok('R38-mapfor', (MAP, '	mappedVars.EachWithIndex(func(mv dgo.Value, i int) {\n', '	for i := 0; i < mappedVars.Len(); i++ {\n		mv := mappedVars.Get(i)\n'), (MAP, '''		})
	})
	return paths''', '''		})
	}
	return paths'''))
ok('R38-mapif', (MAP, '''	switch v := v.(type) {
	case dgo.String:
		mappedVars = vf.Values(v)
	case dgo.Array:
		mappedVars = v
	default:
		return []api.Location{}
	}
''', '''	if a, ok := v.(dgo.Array); ok {
		mappedVars = a
	} else if s, ok := v.(dgo.String); ok {
		mappedVars = vf.Values(s)
	} else {
		return nil
	}
'''))
ok('R38-mapctx', (MAP, '''			r, _ := ic.InterpolateString(m.template, false)
			rp := filepath.Join(dataDir, r.String())
			_, err := os.Stat(rp)
			paths[i] = &path{m.template, rp, err == nil}
		})
''', '''			paths[i] = m.pathFor(ic, dataDir)
		})
'''), (MAP, '', '''
func (m *mappedPaths) pathFor(ic api.Invocation, dataDir string) *path {
	r, _ := ic.InterpolateString(m.template, false)
	rp := filepath.Join(dataDir, r.String())
	_, err := os.Stat(rp)
	return &path{m.template, rp, err == nil}
}
'''))
ok('R38-scope', (MAP, '	if s.k.Equals(key) {\n		return s.v\n	}\n	return s.s.Get(key)', '	if !s.k.Equals(key) {\n		return s.s.Get(key)\n	}\n	return s.v'))

# C31 order
PLG, MOD = 'session/pluginloader.go', 'provider/modulelookupkey.go'
bug('C31-kinds', ['C31'], (PLG, '	sort.Strings(kinds)\n', '	_ = sort.Strings\n'))
bug('C31-readdir', ['C31'], (MOD, '	fileInfos, err := ioutil.ReadDir(path)\n', '	d, err := os.Open(path)\n	var fileInfos []os.FileInfo\n	if err == nil {\n		fileInfos, err = d.Readdir(-1)\n		_ = d.Close()\n	}\n'), (MOD, '	"io/ioutil"\n', ''))
bug('C31-direct', ['C31'], (PLG, '	for _, k := range kinds {\n		names := p.functions[k].([]interface{})\n', '	for k, v := range p.functions {\n		names := v.([]interface{})\n'))
bug('C31-glob', ['C31', 'C38'], ('config/glob.go', '	sort.Strings(matches)\n', '	_ = sort.Strings\n'))
bug('C31-ttl', ['C31'], ('internal/datahashprovider.go', '	if hash, ok = dh.hashes.Get(key).(dgo.Map); ok {', '	if hash, ok = dh.hashes.Get(key).(dgo.Map); ok && time.Since(dh.read) < time.Minute {'), ('internal/datahashprovider.go', '	dh.hashes.Put(key, hash)\n', '	dh.hashes.Put(key, hash)\n	dh.read = time.Now()\n'), ('internal/datahashprovider.go', 'import (\n', 'import (\n	"time"\n'), ('internal/datahashprovider.go', 'type dataHashProvider struct {\n', 'type dataHashProvider struct {\n	read time.Time\n'))
ok('R31-sortslice', (MOD, '	fileInfos, err := ioutil.ReadDir(path)\n', '	d, err := os.Open(path)\n	var fileInfos []os.FileInfo\n	if err == nil {\n		fileInfos, err = d.Readdir(-1)\n		_ = d.Close()\n	}\n'), (MOD, '	for _, fi := range fileInfos {', '	sort.Slice(fileInfos, func(i, j int) bool { return fileInfos[i].Name() < fileInfos[j].Name() })\n	for _, fi := range fileInfos {'), (MOD, '	"io/ioutil"\n', '	"sort"\n'))
ok('R31-helper', (PLG, '''	kinds := make([]string, 0, len(p.functions))
	for k := range p.functions {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
''', '''	kinds := sortedKeys(p.functions)
'''), (PLG, '', '''
func sortedKeys(m map[string]interface{}) []string {
	ks := make([]string, len(m))
	i := 0
	for k := range m {
		ks[i] = k
		i++
	}
	sort.Strings(ks)
	return ks
}
'''))
ok('R31-count', (PLG, '	for _, p := range r.plugins {\n		p.kill()\n', '	n := 0\n	for _, p := range r.plugins {\n		n++\n		p.kill()\n'), (PLG, '	r.plugins = nil\n}', '	r.plugins = nil\n	log.Debugf("stopped %d plugins", n)\n}'))
ok('R31-time', (PLG, '	for _, p := range r.plugins {\n		p.kill()\n', '	t := time.Now()\n	for _, p := range r.plugins {\n		p.kill()\n'), (PLG, '	r.plugins = nil\n}', '	r.plugins = nil\n	log.Debugf("stopped in %s", time.Since(t))\n}'))

# C40 command line
CLI, HR, RND = 'cli/hiera.go', 'hiera/hiera.go', 'hiera/render.go'
bug('C40-swap-flags', ['C40'], (CLI, 'flags.BoolVar(&cmdOpts.ExplainData, `explain`, false,', 'flags.BoolVar(&cmdOpts.ExplainOptions, `explain`, false,'), (CLI, 'flags.BoolVar(&cmdOpts.ExplainOptions, `explain-options`, false,', 'flags.BoolVar(&cmdOpts.ExplainData, `explain-options`, false,'))
bug('C40-facts-as-vars', ['C40'], (CLI, '&cmdOpts.FactPaths', '&cmdOpts.VarPaths'))
bug('C40-default-dropped', ['C40'], (CLI, '	cmdOpts.Default = dflt.StringPointer()\n', '	if cmdOpts.Default == nil {\n		cmdOpts.Default = dflt.StringPointer()\n	}\n'))
bug('C40-default-empty', ['C40'], (CLI, '	return s.value\n}', '	if s.value == nil || *s.value == `` {\n		return nil\n	}\n	return s.value\n}'))
bug('C40-config-dialect', ['C40'], (CLI, '	if configPath != `` {\n		cfgOpts', '	if configPath != `` && dialect == `pcore` {\n		cfgOpts'))
bug('C40-level-fixed', ['C40'], (CLI, 'log.ParseLevel(logLevel)', 'log.ParseLevel(`error`)'))
bug('C40-error-lost', ['C40'], (CLI, '	return hiera.TryWithParent(', '	if err = hiera.TryWithParent('), (CLI, '		return nil\n	})\n', '		return nil\n	}); err != nil && !cmdOpts.LookupAll {\n		return err\n	}\n	return nil\n'))
bug('C40-args', ['C40'], (CLI, '&cmdOpts, args, cmd', '&cmdOpts, args[:1], cmd'))
bug('C40-merge-all', ['C40'], (HR, 'LookupAll(invocation, args, stp, nil, nil, options)', 'LookupAll(invocation, args, stp, nil, nil, nil)'))
bug('C40-type-lost', ['C40'], (HR, 'Lookup2(invocation, args, tp, dv, nil,', 'Lookup2(invocation, args, nil, dv, nil,'))
bug('C40-default-overrides', ['C40'], (HR, 'Lookup2(invocation, args, tp, dv, nil, nil, options, nil)', 'Lookup2(invocation, args, tp, nil, vf.Map(args[0], dv), nil, options, nil)'))
bug('C40-explain-only', ['C40'], (HR, 'opts.ExplainOptions, opts.ExplainOptions && !opts.ExplainData)', 'opts.ExplainOptions, opts.ExplainOptions)'))
bug('C40-explain-options', ['C40'], (HR, 'if opts.ExplainData || opts.ExplainOptions {', 'if opts.ExplainData {'))
bug('C40-explain-format', ['C40'], (HR, '		renderAs := Text\n		if opts.RenderAs != `` {', '		renderAs := Text\n		if opts.RenderAs != `` && found != nil {'))
bug('C40-explain-found', ['C40'], (HR, '		return found != nil\n	}', '		return true\n	}'))
bug('C40-null-found', ['C40'], (HR, '	if found == nil {\n		return false', '	if found == nil || found == vf.Nil {\n		return false'))
bug('C40-scope-nofacts', ['C40'], (HR, 'createScope(c, opts)', 'createScope(c, &CommandOptions{Variables: opts.Variables, VarPaths: opts.VarPaths})'))
bug('C40-facts-not-toplevel', ['C40'], (HR, '		scope.PutAll(facts)\n', ''))
bug('C40-facts-first-only', ['C40'], (HR, 'addVarPaths(opts.FactPaths, facts)', 'addVarPaths(opts.FactPaths[:1], facts)'))
bug('C40-vars-break', ['C40'], (HR, '		if err == nil && len(bs) > 0 {', '		if err == nil && len(bs) == 0 {\n			break\n		}\n		if err == nil && len(bs) > 0 {'))
bug('C40-missing-file', ['C40'], (HR, '		if err != nil {\n			panic(err)\n		}\n	}\n}', '		if err != nil && !os.IsNotExist(err) {\n			panic(err)\n		}\n	}\n}'))
bug('C40-vars-putifabsent', ['C40'], (HR, '					m.PutAll(data)', '					if m.Len() == 0 {\n						m.PutAll(data)\n					}'))
bug('C40-var-skip', ['C40'], (HR, '				panic(fmt.Errorf("unable to parse variable \'%s\'", e))\n', '				break\n'))
bug('C40-var-raw', ['C40'], (HR, 'parseCommandLineValue(c, m[2])', 'parseCommandLineValue(c, m[0])'))
bug('C40-yaml-as-json', ['C40'], (HR, '	renderAs := YAML\n', '	renderAs := JSON\n'))
bug('C40-json-collect', ['C40'], (RND, 'dedupStream(value, streamer.JSON(out))', 'util.WriteString(out, value.String())'))
bug('C40-render-default', ['C40'], (RND, '	default:\n		panic(fmt.Errorf(`unknown rendering \'%s\'`, renderAs))\n', '	default:\n		util.Fprintln(out, value)\n'), (RND, '	"fmt"\n', ''))
bug('C40-dialect', ['C40'], (CLI, 'cfgOpts.Put(api.HieraDialect, dialect)', 'cfgOpts.Put(api.HieraDialect, `pcore`)'))
bug('C40-mux', ['C40'], (CLI, 'context.Background(), provider.MuxLookupKey', 'context.Background(), provider.ConfigLookupKey'))
ok('R40-helper', (CLI, '''	cfgOpts := vf.MutableMap()
	cfgOpts.Put(api.HieraDialect, dialect)
	cfgOpts.Put(
		provider.LookupKeyFunctions, []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment})

	if configPath != `` {
		cfgOpts.Put(api.HieraConfig, configPath)
	}

	return hiera.TryWithParent(context.Background(), provider.MuxLookupKey, cfgOpts, func(c api.Session) error {
		hiera.LookupAndRender(c, &cmdOpts, args, cmd.OutOrStdout())
		return nil
	})
}''', '''	do := func(c api.Session) error {
		out := cmd.OutOrStdout()
		hiera.LookupAndRender(c, &cmdOpts, args, out)
		return nil
	}
	err = hiera.TryWithParent(context.Background(), provider.MuxLookupKey, sessionOptions(), do)
	if err != nil {
		return err
	}
	return nil
}

func sessionOptions() dgo.Map {
	cfgOpts := vf.MutableMap()
	if len(configPath) > 0 {
		cfgOpts.Put(api.HieraConfig, configPath)
	}
	cfgOpts.Put(provider.LookupKeyFunctions, []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment})
	cfgOpts.Put(api.HieraDialect, dialect)
	return cfgOpts
}'''), (CLI, '	"github.com/lyraproj/dgo/vf"\n', '	"github.com/lyraproj/dgo/dgo"\n	"github.com/lyraproj/dgo/vf"\n'))
ok('R40-optsvar', (CLI, '	flags := cmd.Flags()\n', '	opts := &cmdOpts\n	flags := cmd.Flags()\n'), (CLI, 'flags.StringVar(&cmdOpts.Merge', 'flags.StringVar(&opts.Merge'), (CLI, 'flags.StringVar(&cmdOpts.Type', 'flags.StringVar(&opts.Type'))
ok('R40-flaghelper', (CLI, '''	flags.StringVar(&cmdOpts.Type, `type`, ``,
		`assert that the value has the specified type (if using --all this must be a map)`)
''', ''), (CLI, '	cmd.SetHelpTemplate(', '	addTypeFlag(flags)\n	cmd.SetHelpTemplate('), (CLI, '', '''
func addTypeFlag(flags *pflag.FlagSet) {
	flags.StringVar(&cmdOpts.Type, `type`, ``, `assert that the value has the specified type`)
}
'''), (CLI, '	"github.com/spf13/cobra"\n', '	"github.com/spf13/cobra"\n	"github.com/spf13/pflag"\n'))
ok('R40-closure', (CLI, 'RunE:    cmdLookup,', 'RunE: func(cmd *cobra.Command, args []string) error {\n			return cmdLookup(cmd, args)\n		},'))
ok('R40-explain', (HR, '''	if opts.ExplainData || opts.ExplainOptions {
		explainer = explain.NewExplainer(opts.ExplainOptions, opts.ExplainOptions && !opts.ExplainData)
	}
''', '''	switch {
	case opts.ExplainData && opts.ExplainOptions:
		explainer = explain.NewExplainer(true, false)
	case opts.ExplainData:
		explainer = explain.NewExplainer(false, false)
	case opts.ExplainOptions:
		explainer = explain.NewExplainer(true, true)
	}
'''))
ok('R40-render', (HR, '''	if explainer != nil {
		renderAs := Text
		if opts.RenderAs != `` {
			renderAs = RenderName(opts.RenderAs)
		}
		Render(c, renderAs, explainer, out)
		return found != nil
	}

	if found == nil {
		return false
	}

	renderAs := YAML
	if opts.RenderAs != `` {
		renderAs = RenderName(opts.RenderAs)
	}
	Render(c, renderAs, found, out)
	return true
}
''', '''	if explainer != nil {
		Render(c, renderName(opts, Text), explainer, out)
	} else if found != nil {
		Render(c, renderName(opts, YAML), found, out)
	}
	return found != nil
}

func renderName(opts *CommandOptions, dflt RenderName) RenderName {
	if opts.RenderAs == `` {
		return dflt
	}
	return RenderName(opts.RenderAs)
}
'''))
ok('R40-scope', (HR, '''			if m := varSplit.FindStringSubmatch(e); m != nil {
				key := strings.TrimSpace(m[1])
				scope.Put(key, parseCommandLineValue(c, m[2]))
			} else {
				panic(fmt.Errorf("unable to parse variable '%s'", e))
			}
''', '''			k, v := splitVar(e)
			scope.Put(strings.TrimSpace(k), parseCommandLineValue(c, v))
'''), (HR, '', '''
func splitVar(e string) (string, string) {
	m := varSplit.FindStringSubmatch(e)
	if m == nil {
		panic(fmt.Errorf("unable to parse variable '%s'", e))
	}
	return m[1], m[2]
}
'''))
ok('R40-files', (HR, '''		var bs []byte
		var err error
		if vars == `-` {
			bs, err = ioutil.ReadAll(os.Stdin)
		} else {
			bs, err = ioutil.ReadFile(vars)
		}
		if err == nil && len(bs) > 0 {
			var yv dgo.Value
			if yv, err = yaml.Unmarshal(bs); err == nil {
				if data, ok := yv.(dgo.Map); ok {
					m.PutAll(data)
				} else {
					err = fmt.Errorf(`file '%s' does not contain a YAML hash`, vars)
				}
			}
		}
		if err != nil {
			panic(err)
		}
	}
}
''', '''		bs := readVars(vars)
		if len(bs) == 0 {
			continue
		}
		yv, err := yaml.Unmarshal(bs)
		if err != nil {
			panic(err)
		}
		data, ok := yv.(dgo.Map)
		if !ok {
			panic(fmt.Errorf(`file '%s' does not contain a YAML hash`, vars))
		}
		m.PutAll(data)
	}
}

func readVars(path string) []byte {
	var bs []byte
	var err error
	if path == `-` {
		bs, err = ioutil.ReadAll(os.Stdin)
	} else {
		bs, err = ioutil.ReadFile(path)
	}
	if err != nil {
		panic(err)
	}
	return bs
}
'''))
ok('R40-scopefacts', (HR, '''	if len(opts.FactPaths) > 0 {
		facts := vf.MutableMap()
		addVarPaths(opts.FactPaths, facts)
		scope.PutAll(facts)
		scope.Put(`facts`, facts)
	}
	return scope
''', '''	if len(opts.FactPaths) == 0 {
		return scope
	}
	facts := vf.MutableMap()
	addVarPaths(opts.FactPaths, facts)
	scope.PutAll(facts)
	scope.Put(`facts`, facts)
	return scope
'''))
ok('R40-renderif', (RND, '''	case Text:
		util.Fprintln(out, value)
	default:
		panic(fmt.Errorf(`unknown rendering '%s'`, renderAs))
	}
''', '''	default:
		if renderAs != Text {
			panic(fmt.Errorf(`unknown rendering '%s'`, renderAs))
		}
		util.Fprintln(out, value)
	}
'''))
bug('C40-exit', ['C40'], ('lookup/lookup.go', 'os.Exit(1)', 'return'), ('lookup/lookup.go', '	"os"\n', ''))
bug('C40-exit0', ['C40'], ('lookup/lookup.go', 'os.Exit(1)', 'os.Exit(0)'))
bug('C40-print', ['C40'], ('lookup/lookup.go', '_, _ = fmt.Fprintln(cmd.OutOrStderr(), err)', 'fmt.Println(cmd.OutOrStderr(), err)'))
ok('R40-exit', ('lookup/lookup.go', '''	cmd := cli.NewCommand()
	err := cmd.Execute()
	if err != nil {
		_, _ = fmt.Fprintln(cmd.OutOrStderr(), err)
		os.Exit(1)
	}
}''', '''	os.Exit(run())
}

func run() int {
	cmd := cli.NewCommand()
	if err := cmd.Execute(); err != nil {
		_, _ = fmt.Fprintln(cmd.OutOrStderr(), err)
		return 1
	}
	return 0
}'''))

# C15 validity of the configuration
bug('C15-schema-late', ['C15'], (CC, '	if !cfgType.Instance(cfgMap) {', '	if cfgMap.Get(`hierarchy`) == nil && !cfgType.Instance(cfgMap) {'))
bug('C15-schema-version', ['C15'], (CC, '	version:5,', '	version:3..5,'))
bug('C15-schema-version-opt', ['C15'], (CC, '	version:5,', '	version?:5,'))
bug('C15-schema-typo', ['C15'], (CC, '	  mapped_paths?:[3,3]rstring\n', '	  mappedpaths?:[3,3]rstring\n'))
bug('C15-schema-mapped', ['C15'], (CC, '[3,3]rstring', '[2,3]rstring'))
bug('C15-schema-rstring', ['C15'], (CC, 'rstring=string[1],', 'rstring=string,'))
bug('C15-schema-paths', ['C15'], (CC, 'paths?:[1]rstring,\n	  glob', 'paths?:[]rstring,\n	  glob'))
bug('C15-schema-options', ['C15'], (CC, '0-9A-Za-z_-]*[0-9A-Za-z])?\\z/', '0-9A-Za-z_-]*[0-9A-Za-z])?/'))
bug('C15-schema-name', ['C15'], (CC, '	  name:rstring,', '	  name?:rstring,'))
bug('C15-schema-defaults', ['C15'], (CC, '''	  datadir?:rstring,
	  plugindir?:rstring
	},''', '''	  datadir?:rstring
	},'''))
bug('C15-anyerror', ['C15'], (CC, '''		if !os.IsNotExist(err) {
			panic(err)
		}
''', '''		if !os.IsNotExist(err) && !os.IsPermission(err) {
			panic(err)
		}
'''))
bug('C15-yamlerr', ['C15'], (CC, '''	yv, err := yaml.Unmarshal(content)
	if err != nil {
		panic(err)
	}
	cfgMap := yv.(dgo.Map)
''', '''	yv, err := yaml.Unmarshal(content)
	cfgMap, ok := yv.(dgo.Map)
	if !ok && err != nil {
		panic(err)
	}
'''))
bug('C15-unique-lower', ['C15'], (CC, 'uniqueNames[name] = true', 'uniqueNames[strings.ToLower(name)] = true'))
bug('C15-unique-map', ['C15'], (CC, '	uniqueNames := make(map[string]bool, hierarchy.Len())\n	hierarchy.Each(func(hv dgo.Value) {\n', '	hierarchy.Each(func(hv dgo.Value) {\n		uniqueNames := make(map[string]bool, 1)\n'))
bug('C15-unique-false', ['C15'], (CC, 'uniqueNames[name] = true', 'uniqueNames[name] = hh.Len() > 1'))
bug('C15-second-location', ['C15'], (CC, 'if entry.locations != nil {', 'if len(entry.locations) > 1 {'))
bug('C15-second-function', ['C15'], (CE, 'if e.function != nil {', 'if e.function != nil && e.function.Kind() == api.FunctionKind(ks) {'))
bug('C15-reserved', ['C15'], (CE, 'ReservedOptionKeys = []string{string(api.LcPath), string(api.LcURI)}', 'ReservedOptionKeys = []string{string(api.LcPath)}'))
bug('C15-reserved-return', ['C15'], (CE, '''				if util.ContainsString(ReservedOptionKeys, optKey.String()) {
''', '''				if len(name) > 0 && name != `defaults` && util.ContainsString(ReservedOptionKeys, optKey.String()) {
'''))
bug('C15-default-hierarchy', ['C15'], (CC, '''	if hv := hash.Get(`default_hierarchy`); hv != nil {''', '''	if hv := hash.Get(`default_hierarchy`); hv != nil && len(cfg.hierarchy) > 0 {'''))
bug('C15-swapped', ['C15'], (CC, '		cfg.defaultHierarchy = cfg.createHierarchy(hv.(dgo.Array))', '		cfg.defaultHierarchy = cfg.hierarchy'))
bug('C15-builtin', ['C15'], (CC, '''		&entry{cfg: hc, dataDir: `.`, name: `Root`, locations: []api.Location{NewPath(`data.yaml`)}},''', '''		&entry{cfg: hc, name: `Root`, locations: []api.Location{NewPath(`data.yaml`)}},'''))
bug('C15-builtin-order', ['C15'], (CC, '''NewPath(`data.yaml`)''', '''NewPath(`common.yml`)'''))
bug('C15-root', ['C15'], (CC, 'cfg := &hieraCfg{root: filepath.Dir(path), path: path}', 'cfg := &hieraCfg{root: `.`, path: path}'))
ok('R15-inline', (CC, 'const definitions = `{\n', 'var cfgType = makeType()\n\nfunc makeType() dgo.Type {\n	tf.ParseType(definitions)\n	return tf.ParseType(hieraTypeString)\n}\n\nconst definitions = `{\n'), (CC, '''var cfgType dgo.Type

func init() {
	tf.ParseType(definitions)
	cfgType = tf.ParseType(hieraTypeString)
}

''', ''))
ok('R15-order', (CC, '''	  path?:rstring,
	  paths?:[1]rstring,
''', ''), (CC, '''	  uri?:rstring,
''', '''	  uri?:rstring, paths?:[1]string[1],
	  path?:rstring,
'''))
ok('R15-new', (CC, '''	if err != nil {
		if !os.IsNotExist(err) {
			panic(err)
		}
		dc := &hieraCfg{
			root:             filepath.Dir(configPath),
			path:             ``,
			defaultHierarchy: []api.Entry{},
		}
		dc.defaults = dc.makeDefaultConfig()
		dc.hierarchy = dc.makeDefaultHierarchy()
		return dc
	}

	yv, err := yaml.Unmarshal(content)
	if err != nil {
		panic(err)
	}
	cfgMap := yv.(dgo.Map)
	if !cfgType.Instance(cfgMap) {
		panic(tf.IllegalAssignment(cfgType, cfgMap))
	}

	return createConfig(configPath, cfgMap)
}
''', '''	switch {
	case err == nil:
		return createConfig(configPath, parse(content))
	case os.IsNotExist(err):
		return defaultCfg(filepath.Dir(configPath))
	}
	panic(err)
}

func defaultCfg(root string) api.Config {
	dc := &hieraCfg{root: root}
	dc.defaultHierarchy = []api.Entry{}
	dc.defaults = dc.makeDefaultConfig()
	dc.hierarchy = dc.makeDefaultHierarchy()
	return dc
}

func parse(content []byte) dgo.Map {
	yv, err := yaml.Unmarshal(content)
	if err != nil {
		panic(err)
	}
	cfgMap := yv.(dgo.Map)
	if cfgType.Instance(cfgMap) {
		return cfgMap
	}
	panic(tf.IllegalAssignment(cfgType, cfgMap))
}
'''))
ok('R15-hier', (CC, '''	uniqueNames := make(map[string]bool, hierarchy.Len())
	hierarchy.Each(func(hv dgo.Value) {
		hh := hv.(dgo.Map)
		name := ``
		if nv := hh.Get(`name`); nv != nil {
			name = nv.String()
		}
		if uniqueNames[name] {
			panic(fmt.Errorf(`hierarchy name '%s' defined more than once`, name))
		}
		uniqueNames[name] = true
		entries = append(entries, hc.createEntry(name, hh))
	})
	return entries
''', '''	uniqueNames := make(map[string]struct{})
	for i := 0; i < hierarchy.Len(); i++ {
		hh := hierarchy.Get(i).(dgo.Map)
		name := nameOf(hh)
		if _, ok := uniqueNames[name]; ok {
			panic(fmt.Errorf(`hierarchy name '%s' defined more than once`, name))
		}
		uniqueNames[name] = struct{}{}
		entries = append(entries, hc.createEntry(name, hh))
	}
	return entries
'''), (CC, '', '''
func nameOf(hh dgo.Map) string {
	name := ``
	if nv := hh.Get(`name`); nv != nil {
		name = nv.String()
	}
	return name
}
'''))
ok('R15-flag', (CC, '''	entry.initialize(name, entryHash)
	entryHash.EachEntry(''', '''	entry.initialize(name, entryHash)
	hasLocation := false
	entryHash.EachEntry('''), (CC, '''			if entry.locations != nil {''', '''			if hasLocation {'''), (CC, '''			switch ks {
			case `path`:''', '''			hasLocation = true
			switch ks {
			case `path`:'''))
ok('R15-merge', (CC, '	entry.initialize(name, entryHash)\n', ''), (CC, '		case ks == `datadir`:\n', '		case ks == `options`:\n			entry.setOptions(name, v.(dgo.Map))\n		case util.ContainsString(FunctionKeys, ks):\n			entry.setFunction(name, ks, v.String())\n		case ks == `datadir`:\n'),
   (CE, '''func (e *entry) initialize(name string, entryHash dgo.Map) {
	entryHash.EachEntry(func(me dgo.MapEntry) {
		ks := me.Key().String()
		v := me.Value()
		if ks == `options` {
			e.options = v.(dgo.Map)
			e.options.EachKey(func(optKey dgo.Value) {
				if util.ContainsString(ReservedOptionKeys, optKey.String()) {
					panic(
						fmt.Errorf(`option key '%s' used in hierarchy '%s' is reserved by Hiera`, optKey.String(), name))
				}
			})
		} else if util.ContainsString(FunctionKeys, ks) {
			if e.function != nil {
				panic(fmt.Errorf(`only one of %s can be defined in hierarchy '%s'`, strings.Join(FunctionKeys, `, `), name))
			}
			e.function = &function{api.FunctionKind(ks), v.String()}
		}
	})
}
''', '''func (e *entry) setOptions(name string, options dgo.Map) {
	e.options = options
	for _, k := range ReservedOptionKeys {
		if options.Get(k) != nil {
			panic(fmt.Errorf(`option key '%s' used in hierarchy '%s' is reserved by Hiera`, k, name))
		}
	}
}

func (e *entry) setFunction(name, ks, fn string) {
	if e.function != nil {
		panic(fmt.Errorf(`only one of %s can be defined in hierarchy '%s'`, strings.Join(FunctionKeys, `, `), name))
	}
	e.function = &function{api.FunctionKind(ks), fn}
}
'''), (CE, '	"github.com/lyraproj/dgo/util"\n', ''))
ok('R15-locations', (CC, '''			if entry.locations != nil {
				panic(fmt.Errorf(`only one of %s can be defined in hierarchy '%s'`, strings.Join(LocationKeys, `, `), name))
			}
			switch ks {
			case `path`:
				entry.locations = []api.Location{NewPath(v.String())}
			case `paths`:
				a := v.(dgo.Array)
				entry.locations = make([]api.Location, 0, a.Len())
				a.Each(func(p dgo.Value) { entry.locations = append(entry.locations, NewPath(p.String())) })
			case `glob`:
				entry.locations = []api.Location{NewGlob(v.String())}
			case `globs`:
				a := v.(dgo.Array)
				entry.locations = make([]api.Location, 0, a.Len())
				a.Each(func(p dgo.Value) { entry.locations = append(entry.locations, NewGlob(p.String())) })
			case `uri`:
				entry.locations = []api.Location{NewURI(v.String())}
			case `uris`:
				a := v.(dgo.Array)
				entry.locations = make([]api.Location, 0, a.Len())
				a.Each(func(p dgo.Value) { entry.locations = append(entry.locations, NewURI(p.String())) })
			default: // Mapped paths
				a := v.(dgo.Array)
				entry.locations = []api.Location{NewMappedPaths(a.Get(0).String(), a.Get(1).String(), a.Get(2).String())}
			}
''', '''			if len(entry.locations) > 0 {
				panic(fmt.Errorf(`only one of %s can be defined in hierarchy '%s'`, strings.Join(LocationKeys, `, `), name))
			}
			entry.locations = createLocations(ks, v)
'''), (CC, '', '''
func createLocations(ks string, v dgo.Value) []api.Location {
	switch ks {
	case `path`:
		return []api.Location{NewPath(v.String())}
	case `paths`:
		return mapLocations(v, NewPath)
	case `glob`:
		return []api.Location{NewGlob(v.String())}
	case `globs`:
		return mapLocations(v, NewGlob)
	case `uri`:
		return []api.Location{NewURI(v.String())}
	case `uris`:
		return mapLocations(v, NewURI)
	default: // Mapped paths
		a := v.(dgo.Array)
		return []api.Location{NewMappedPaths(a.Get(0).String(), a.Get(1).String(), a.Get(2).String())}
	}
}

func mapLocations(v dgo.Value, f func(string) api.Location) []api.Location {
	a := v.(dgo.Array)
	ls := make([]api.Location, 0, a.Len())
	a.Each(func(p dgo.Value) { ls = append(ls, f(p.String())) })
	return ls
}
'''))
ok('R15-loop', (CE, '''	entryHash.EachEntry(func(me dgo.MapEntry) {
		ks := me.Key().String()
		v := me.Value()
		if ks == `options` {
			e.options = v.(dgo.Map)
			e.options.EachKey(func(optKey dgo.Value) {
				if util.ContainsString(ReservedOptionKeys, optKey.String()) {
					panic(
						fmt.Errorf(`option key '%s' used in hierarchy '%s' is reserved by Hiera`, optKey.String(), name))
				}
			})
		} else if util.ContainsString(FunctionKeys, ks) {
			if e.function != nil {
				panic(fmt.Errorf(`only one of %s can be defined in hierarchy '%s'`, strings.Join(FunctionKeys, `, `), name))
			}
			e.function = &function{api.FunctionKind(ks), v.String()}
		}
	})
''', '''	if v := entryHash.Get(`options`); v != nil {
		e.options = v.(dgo.Map)
		e.options.EachKey(func(optKey dgo.Value) {
			if util.ContainsString(ReservedOptionKeys, optKey.String()) {
				panic(
					fmt.Errorf(`option key '%s' used in hierarchy '%s' is reserved by Hiera`, optKey.String(), name))
			}
		})
	}
	for _, ks := range FunctionKeys {
		if v := entryHash.Get(ks); v != nil {
			if e.function != nil {
				panic(fmt.Errorf(`only one of %s can be defined in hierarchy '%s'`, strings.Join(FunctionKeys, `, `), name))
			}
			e.function = &function{api.FunctionKind(ks), v.String()}
		}
	}
'''))
bug('C15-unique-case', ['C15'], (CC, 'if uniqueNames[name] {', 'if uniqueNames[strings.ToLower(name)] {'), (CC, 'uniqueNames[name] = true', 'uniqueNames[strings.ToLower(name)] = true'))

# C20 errors
YD, JD = 'provider/yamldata.go', 'provider/jsondata.go'
bug('C20-yaml-read', ['C20'], (YD, '		if os.IsNotExist(err) {\n			return vf.Map()\n		}\n		panic(fmt.Errorf("could not read %s: %s", path, err.Error()))', '		return vf.Map()'), (YD, '	"os"\n', ''))
bug('C20-yaml-perm', ['C20'], (YD, 'if os.IsNotExist(err) {', 'if os.IsNotExist(err) || os.IsPermission(err) {'))
bug('C20-yaml-parse', ['C20'], (YD, '	v, err := yaml.Unmarshal(bs)\n	if err != nil {\n		panic(fmt.Errorf("could not unmarshal %s: %s", path, err.Error()))\n	}\n', '	v, _ := yaml.Unmarshal(bs)\n	if v == nil {\n		return vf.Map()\n	}\n'))
bug('C20-json-log', ['C20'], (JD, '		panic(err)\n', '		log.Warn(err.Error())\n		return vf.Map()\n'), (JD, '	"os"\n', '	"os"\n\n	log "github.com/sirupsen/logrus"\n'))
bug('C20-readdir', ['C20'], (MOD, '		if os.IsNotExist(err) {\n			return nil\n		}\n		panic(err)\n	}\n\n	for', '		return nil\n	}\n\n	for'))
bug('C20-lstat', ['C20'], (MOD, '			if os.IsNotExist(err) {\n				break\n			}\n			panic(err)\n', '			break\n'))
bug('C20-plugin-body', ['C20'], (PLG, '		if bts, err = ioutil.ReadAll(resp.Body); err == nil {\n			return streamer.UnmarshalJSON(bts, nil)\n		}\n', '		bts, _ = ioutil.ReadAll(resp.Body)\n		return streamer.UnmarshalJSON(bts, nil)\n'))
bug('C20-plugin-down', ['C20'], (PLG, '	if err != nil {\n		panic(err.Error())\n	}\n', '	if err != nil {\n		log.Errorf("plugin: %s", err.Error())\n		return nil\n	}\n'))
bug('C20-plugin-timeout', ['C20'], (PLG, '	if err != nil {\n		panic(err.Error())\n	}\n', '	if err != nil {\n		if ue, ok := err.(*url.Error); ok && ue.Timeout() {\n			return nil\n		}\n		panic(err.Error())\n	}\n'))
bug('C20-meta', ['C20'], (PLG, '	err := dc.Decode(&meta)\n	if err != nil {\n		metaCh <- err\n	} else {\n		metaCh <- meta\n	}\n', '	_ = dc.Decode(&meta)\n	metaCh <- meta\n'))
bug('C20-recover', ['C20'], (PLG, '			_, _ = cmd.Process.Wait()\n			panic(r)\n', '			_, _ = cmd.Process.Wait()\n			_ = r\n'))
bug('C20-marshal', ['C20'], ('hiera/render.go', '			bs, err := yaml.Marshal(dc.Value())\n			if err != nil {\n				panic(err)\n			}\n', '			bs, _ := yaml.Marshal(dc.Value())\n'))
bug('C20-try', ['C20'], (CLI, '	return hiera.TryWithParent(', '	_ = hiera.TryWithParent('), (CLI, '		return nil\n	})\n', '		return nil\n	})\n	return nil\n'))
bug('C20-vars', ['C20'], (HR, '			if yv, err = yaml.Unmarshal(bs); err == nil {', '			if yv, _ = yaml.Unmarshal(bs); yv != nil {'))
bug('C20-abs', ['C20'], (SS, '		abs, err := filepath.Abs(path)\n		if err != nil {\n			panic(err)\n		}\n		path = abs\n', '		if abs, err := filepath.Abs(path); err == nil {\n			path = abs\n		}\n'))
ok('R20-helper', (YD, '''	bs, err := ioutil.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return vf.Map()
		}
		panic(fmt.Errorf("could not read %s: %s", path, err.Error()))
	}
	v, err := yaml.Unmarshal(bs)
''', '''	bs := readFile(path)
	if bs == nil {
		return vf.Map()
	}
	v, err := yaml.Unmarshal(bs)
'''), (YD, '', '''
func readFile(path string) []byte {
	bs, err := ioutil.ReadFile(path)
	switch {
	case err == nil:
		return bs
	case os.IsNotExist(err):
		return nil
	}
	panic(fmt.Errorf("could not read %s: %s", path, err.Error()))
}
'''))
ok('R20-must', (JD, '		panic(err)\n', '		fail(err)\n'), (JD, '', '\nfunc fail(err error) {\n	panic(err)\n}\n'))
ok('R20-named', (PLG, '''	resp, err := client.Get(us)
	if err != nil {
		panic(err.Error())
	}
''', '''	resp := get(&client, us)
'''), (PLG, '', '''
func get(client *http.Client, us string) *http.Response {
	resp, err := client.Get(us)
	if err != nil {
		panic(err.Error())
	}
	return resp
}
'''))
ok('R20-kill', (PLG, '''	graceful := true
	if err := terminateProc(process); err != nil {
		graceful = false
	}

	if graceful {
''', '''	err := terminateProc(process)
	if err == nil {
'''))

# ---- C39 built in sources
EN, YK, SCK = 'provider/environment.go', 'provider/yamllookupkey.go', 'provider/scopelookupkey.go'
bug('yaml-first-missing', ['C39'], (YD, '''		if os.IsNotExist(err) {
			return vf.Map()
		}
		panic(fmt''', '''		if os.IsNotExist(err) && pv == vf.String(``) {
			return vf.Map()
		}
		panic(fmt'''))
bug('json-ignores-all', ['C39'], (JD, '		if os.IsNotExist(err) {\n', '		if os.IsNotExist(err) || os.IsPermission(err) {\n'))
bug('json-empty-nohash', ['C39'], (JD, '	panic(api.JSONNOtHash(path))\n', '	if v == nil {\n		return vf.Map()\n	}\n	panic(api.JSONNOtHash(path))\n'))
bug('yaml-expand', ['C39'], (YD, 'yaml.Unmarshal(bs)', 'yaml.Unmarshal([]byte(os.ExpandEnv(string(bs))))'))
bug('yaml-trim', ['C39'], (YD, 'path := pv.String()', 'path := strings.TrimSpace(pv.String())'), (YD, '	"os"\n', '	"os"\n	"strings"\n'))
bug('json-sub', ['C39'], (JD, '		return data\n', '		if sub, ok := data.Get(`data`).(dgo.Map); ok {\n			return sub\n		}\n		return data\n'))
bug('env-last', ['C39'], (EN, "strings.IndexRune(ev, '=')", "strings.LastIndex(ev, `=`)"))
bug('env-empty', ['C39'], (EN, "ei > 0 {", "ei > 0 && ei < len(ev)-1 {"))
bug('env-unset', ['C39'], (EN, '''		if v, ok := os.LookupEnv(key[5:]); ok {
			return vf.String(v)
		}
''', '''		return vf.String(os.Getenv(key[5:]))
'''))
bug('env-empty-unset', ['C39'], (EN, '''		if v, ok := os.LookupEnv(key[5:]); ok {
			return vf.String(v)
		}
''', '''		if v, ok := os.LookupEnv(key[5:]); ok && v != "" {
			return vf.String(v)
		}
'''))
bug('env-upper', ['C39'], (EN, 'os.LookupEnv(key[5:])', 'os.LookupEnv(strings.ToUpper(key[5:]))'))
bug('env-mode', ['C39'], (EN, '''	if sc, ok := pc.(api.ServerContext); ok && sc.Invocation().LookupOptionsMode() {
		// The environment contains no lookup options
		return nil
	}
''', ''), (EN, '	"github.com/lyraproj/hiera/api"\n', ''))
bug('env-stop', ['C39'], (EN, '''				em.Put(ev[:ei], ev[ei+1:])
			}
''', '''				em.Put(ev[:ei], ev[ei+1:])
				continue
			}
			break
'''))
bug('scope-lower', ['C39'], (SCK, 'Get(key)', 'Get(strings.ToLower(key))'), (SCK, 'import (\n', 'import (\n	"strings"\n\n'))
bug('scope-force', ['C39'], (SCK, '''	sc, ok := pc.(api.ServerContext)
	if !ok {
		return nil
	}
''', '''	sc := pc.(api.ServerContext)
'''))
bug('yamlkey-nocache', ['C39'], (YK, 'sc.Cache(YamlDataKey, data)', 'sc.Cache(key, data)'))
bug('yamlkey-option', ['C39'], (YK, 'YamlData(iv.ServerContext(vf.Map(`path`, iv.SessionOptions().Get(`path`))))', 'YamlData(pc)'), (YK, '		iv := sc.Invocation()\n', ''), (YK, '	"github.com/lyraproj/dgo/vf"\n', ''))
ok('R39-env', (EN, '''			if ei := strings.IndexRune(ev, '='); ei > 0 {
				em.Put(ev[:ei], ev[ei+1:])
			}
''', '''			ei := strings.Index(ev, "=")
			if ei < 1 {
				continue
			}
			name, value := ev[:ei], ev[ei+1:]
			em.Put(name, vf.String(value))
'''))
ok('R39-splitn', (EN, '''			if ei := strings.IndexRune(ev, '='); ei > 0 {
				em.Put(ev[:ei], ev[ei+1:])
			}
''', '''			if kv := strings.SplitN(ev, "=", 2); len(kv) == 2 && kv[0] != "" {
				em.Put(kv[0], kv[1])
			}
'''))
ok('R39-helpers', (EN, '''		env := os.Environ()
		em := vf.MapWithCapacity(len(env))
		for _, ev := range env {
			if ei := strings.IndexRune(ev, '='); ei > 0 {
				em.Put(ev[:ei], ev[ei+1:])
			}
		}
		return em
''', '''		return allVars()
'''), (EN, '''	if strings.HasPrefix(key, `env::`) {
		// Rest of key is name of environment
		if v, ok := os.LookupEnv(key[5:]); ok {
			return vf.String(v)
		}
	}
	return nil
''', '''	if name := strings.TrimPrefix(key, envPrefix); name != key {
		return oneVar(name)
	}
	return nil
'''), (EN, '', '''
const envPrefix = `env::`

func oneVar(name string) dgo.Value {
	v, ok := os.LookupEnv(name)
	if !ok {
		return nil
	}
	return vf.String(v)
}

func allVars() dgo.Map {
	env := os.Environ()
	em := vf.MutableMap()
	for i := 0; i < len(env); i++ {
		ev := env[i]
		if ei := strings.IndexByte(ev, '='); ei > 0 {
			em.Put(ev[:ei], ev[ei+1:])
		}
	}
	return em
}
'''))
ok('R39-switch', (EN, '''	if key == `env` {
''', '''	switch {
	case key == `env`:
'''), (EN, '''		return em
	}
	if strings.HasPrefix(key, `env::`) {
''', '''		return em
	case strings.HasPrefix(key, `env::`):
'''))
ok('R39-read', (YD, '''	path := pv.String()
	bs, err := ioutil.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return vf.Map()
		}
		panic(fmt.Errorf("could not read %s: %s", path, err.Error()))
	}
''', '''	path := pv.String()
	bs, ok := read(path)
	if !ok {
		return vf.Map()
	}
'''), (YD, '''	v, err := yaml''', '''	var v dgo.Value
	v, err := yaml'''), (YD, '''	var v dgo.Value
''', ''), (YD, '', '''
func read(path string) ([]byte, bool) {
	bs, err := ioutil.ReadFile(path)
	if err == nil {
		return bs, true
	}
	if os.IsNotExist(err) {
		return nil, false
	}
	panic(fmt.Errorf("could not read %s: %s", path, err.Error()))
}
'''), (YD, '	if data, ok := v.(dgo.Map); ok {\n		return data\n	}\n	panic(api.YamlNotHash(path))\n', '	data, ok := v.(dgo.Map)\n	if !ok {\n		panic(api.YamlNotHash(path))\n	}\n	return data\n'))
ok('R39-yk', (YK, '''	data, ok := sc.CachedValue(YamlDataKey)
	if !ok {
		iv := sc.Invocation()
		data = YamlData(iv.ServerContext(vf.Map(`path`, iv.SessionOptions().Get(`path`))))
		sc.Cache(YamlDataKey, data)
	}
	hash, _ := data.(dgo.Map)
	return hash.Get(key)
''', '''	return yamlData(sc).Get(key)
'''), (YK, '', '''
func yamlData(sc api.ServerContext) dgo.Map {
	if data, ok := sc.CachedValue(YamlDataKey); ok {
		hash, _ := data.(dgo.Map)
		return hash
	}
	iv := sc.Invocation()
	data := YamlData(iv.ServerContext(vf.Map(`path`, iv.SessionOptions().Get(`path`))))
	sc.Cache(YamlDataKey, data)
	return data
}
'''))
ok('R39-scope', (SCK, '''	sc, ok := pc.(api.ServerContext)
	if !ok {
		return nil
	}
	return sc.Invocation().Scope().Get(key)
''', '''	if sc, ok := pc.(api.ServerContext); ok {
		scope := sc.Invocation().Scope()
		return scope.Get(key)
	}
	return nil
'''))

# ---- C28 modules
bug('module-case', ['C28'], (MK, 'strings.ToLower(key[:ci])', 'key[:ci]'))
bug('module-last-sep', ['C28'], (MK, 'strings.Index(key, `::`)', 'strings.LastIndex(key, `::`)'))
bug('module-exact', ['C28'], (MK, '!strings.EqualFold(fi.Name(), moduleName)', 'fi.Name() != moduleName'))
bug('module-last-wins', ['C28'], (MK, '				mp = loaded\n				break\n', '				mp = loaded\n'))
bug('module-first-dir', ['C28'], (MK, '''				mp = loaded
				break
			}
''', '''				mp = loaded
			}
			break
'''))
bug('module-no-config-fails', ['C28'], (MK, '''			if os.IsNotExist(err) {
				break
			}
			panic(err)
		}
		if cf''', '''			panic(err)
		}
		if cf'''))
bug('module-missing-dir-fails', ['C28'], (MK, '''		if os.IsNotExist(err) {
			return nil
		}
		panic(err)
''', '''		panic(err)
'''))
bug('module-unreadable-ignored', ['C28'], (MK, '''		if os.IsNotExist(err) {
			return nil
		}
		panic(err)
''', '''		return nil
'''))
bug('module-path-name', ['C28'], (MK, 'filepath.Join(path, fi.Name(), config.FileName)', 'filepath.Join(path, moduleName, config.FileName)'))
bug('module-unreported', ['C28'], (MK, '				iv.ReportModuleNotFound()\n', ''))
bug('module-one-cache', ['C28'], (MK, 'moduleProviderPrefix + modName', 'moduleProviderPrefix'))
bug('module-rest-key', ['C28'], (MK, 'vf.MutableValues(pc, key)', 'vf.MutableValues(pc, key[ci+2:])'))
bug('module-cache-found', ['C28'], (MK, '			sc.Cache(cacheKey, mp)\n', '			if mp == notFoundLookupKeyFunc {\n				sc.Cache(cacheKey, mp)\n			}\n'))
bug('module-config-dir', ['C28'], (MK, '''		if cf.IsDir() {
			break
		}
''', '''		_ = cf
'''))
bug('module-own-name', ['C28'], (MK, 'ConfigLookupKeyAt(sc, configPath, key, moduleName)', 'ConfigLookupKeyAt(sc, configPath, key, ``)'))
bug('module-dir-ignored', ['C28'], (MK, '''		if !fi.IsDir() {
			break
		}
''', ''))
bug('module-second-only', ['C28'], (MK, 'range filepath.SplitList(modulePath.GoString()) {', 'range filepath.SplitList(modulePath.GoString())[:1] {'))
ok('R28-find', (MK, '''	for _, fi := range fileInfos {
		if !strings.EqualFold(fi.Name(), moduleName) {
			continue
		}
		if !fi.IsDir() {
			break
		}
		configPath := filepath.Join(path, fi.Name(), config.FileName)
		cf, err := os.Lstat(configPath)
		if err != nil {
			if os.IsNotExist(err) {
				break
			}
			panic(err)
		}
		if cf.IsDir() {
			break
		}
		return loadHieraConfig(configPath, moduleName)
	}
	return nil
}
''', '''	fi := findDir(fileInfos, moduleName)
	if fi == nil || !fi.IsDir() {
		return nil
	}
	configPath := filepath.Join(path, fi.Name(), config.FileName)
	if !isRegular(configPath) {
		return nil
	}
	return loadHieraConfig(configPath, moduleName)
}

func findDir(fileInfos []os.FileInfo, moduleName string) os.FileInfo {
	for _, fi := range fileInfos {
		if strings.EqualFold(fi.Name(), moduleName) {
			return fi
		}
	}
	return nil
}

func isRegular(configPath string) bool {
	cf, err := os.Lstat(configPath)
	switch {
	case err == nil:
		return !cf.IsDir()
	case os.IsNotExist(err):
		return false
	}
	panic(err)
}
'''))
ok('R28-return', (MK, '''	var mp dgo.Function = notFoundLookupKeyFunc
	if modulePath, ok := ic.SessionOptions().Get(ModulePath).(dgo.String); ok {
		for _, path := range filepath.SplitList(modulePath.GoString()) {
			if loaded := loadModule(path, moduleName); loaded != nil {
				mp = loaded
				break
			}
		}
	}
	return mp
''', '''	modulePath, ok := ic.SessionOptions().Get(ModulePath).(dgo.String)
	if !ok {
		return notFoundLookupKeyFunc
	}
	for _, path := range filepath.SplitList(modulePath.GoString()) {
		if loaded := loadModule(path, moduleName); loaded != nil {
			return loaded
		}
	}
	return notFoundLookupKeyFunc
'''))
ok('R28-split', (MK, '''	if ci := strings.Index(key, `::`); ci > 0 {
		modName := strings.ToLower(key[:ci])
''', '''	if parts := strings.SplitN(key, `::`, 2); len(parts) == 2 && parts[0] != `` {
		modName := strings.ToLower(parts[0])
'''))
ok('R28-early', (MK, '''	if ci := strings.Index(key, `::`); ci > 0 {
		modName := strings.ToLower(key[:ci])
		var mp dgo.Function
		iv := sc.Invocation()
		cacheKey := moduleProviderPrefix + modName
		if f, ok := sc.CachedValue(cacheKey); ok {
			mp = f.(dgo.Function)
		} else {
			mp = loadModuleProvider(iv, modName)
			sc.Cache(cacheKey, mp)
		}
		return iv.WithModule(modName, func() dgo.Value {
			if mp == notFoundLookupKeyFunc {
				iv.ReportModuleNotFound()
				return nil
			}
			return mp.Call(vf.MutableValues(pc, key))[0]
		})
	}
	return nil
}
''', '''	ci := strings.Index(key, `::`)
	if ci <= 0 {
		return nil
	}
	modName := strings.ToLower(key[:ci])
	mp := moduleProvider(sc, modName)
	iv := sc.Invocation()
	return iv.WithModule(modName, func() dgo.Value {
		if mp != notFoundLookupKeyFunc {
			return mp.Call(vf.MutableValues(pc, key))[0]
		}
		iv.ReportModuleNotFound()
		return nil
	})
}

func moduleProvider(sc api.ServerContext, modName string) dgo.Function {
	cacheKey := moduleProviderPrefix + modName
	if f, ok := sc.CachedValue(cacheKey); ok {
		return f.(dgo.Function)
	}
	mp := loadModuleProvider(sc.Invocation(), modName)
	sc.Cache(cacheKey, mp)
	return mp
}
'''))

# ---- C17 plugin protocol
P2 = 'session/pluginloader.go'
bug('proto-cookie', ['C17'], (P2, 'strconv.Itoa(hiera.MagicCookie)', 'strconv.Itoa(hiera.ProtoVersion)'))
bug('proto-environ', ['C17'], (P2, 'cmd.Env = os.Environ()\n	cmd.Env = append(cmd.Env, `HIERA_M', 'cmd.Env = append(cmd.Env, `HIERA_M'))
bug('proto-env-name', ['C17'], (P2, '`HIERA_PLUGIN_TRANSPORT=`', '`HIERA_TRANSPORT=`'))
bug('proto-env-swapped', ['C17'], (P2, '`HIERA_PLUGIN_SOCKET_DIR=`+getUnixSocketDir(opts)', '`HIERA_PLUGIN_SOCKET_DIR=`+getPluginTransport(opts)'))
bug('proto-transport-tcp', ['C17'], (P2, '			pluginTransportUnix,\n			pluginTransportTCP:', '			pluginTransportUnix:'))
bug('proto-transport-any', ['C17'], (P2, '''		switch s {
		case
			pluginTransportUnix,
			pluginTransportTCP:
			return s
		}
''', '''		if s != `` {
			return s
		}
'''))
bug('proto-sockdir', ['C17'], (P2, '''	if v := os.TempDir(); v != "" {
		return v
	}
''', ''))
bug('proto-sockdir-opt', ['C17'], (P2, 'opts.Get("unixSocketDir")', 'opts.Get("socketDir")'))
bug('proto-version-min', ['C17'], (P2, 'int(v) == hiera.ProtoVersion', 'int(v) >= hiera.ProtoVersion'))
bug('proto-version-unchecked', ['C17'], (P2, '!(ok && int(v) == hiera.ProtoVersion)', 'ok && int(v) != hiera.ProtoVersion'))
bug('proto-network', ['C17'], (P2, '		p.network = `tcp`\n', '		p.network = `unix`\n'))
bug('proto-address', ['C17'], (P2, '''	if !ok {
		panic(fmt.Errorf(`plugin %s did not provide a valid address`, p.path))
	}
''', ''))
bug('proto-functions', ['C17'], (P2, '''	if !ok {
		panic(fmt.Errorf(`plugin %s did not provide a valid functions map`, p.path))
	}
''', '	_ = ok\n'))
bug('proto-kind', ['C17'], (P2, '''		case `data_hash`:
			df = p.dataHashDispatch
''', '''		case `data_hash`, `data`:
			df = p.lookupKeyDispatch
'''))
bug('proto-kind-url', ['C17'], (P2, 'p.callPlugin(`data_hash`,', 'p.callPlugin(`lookup_key`,'))
bug('proto-capture', ['C17'], (P2, '''		for _, x := range names {
			n := x.(string)
			m.Put(n, df(n))
		}
''', '''		for _, x := range names {
			n := x.(string)
			m.Put(n, df(names[0].(string)))
		}
'''))
bug('proto-lower', ['C17'], (P2, 'm.Put(n, df(n))', 'm.Put(strings.ToLower(n), df(n))'))
bug('proto-key-json', ['C17'], (P2, 'params.Add(`key`, string(jp))', 'params.Add(`key`, key.String()+string(jp[:0]))'))
bug('proto-nokey', ['C17'], (P2, '		params := makeOptions(pc)\n		params.Add(`key`, key)\n', '		params := makeOptions(pc)\n		if key != `` {\n			params.Add(`key`, strings.TrimPrefix(key, `::`))\n		}\n'))
bug('proto-options', ['C17'], (P2, 'opts.Len() > 0', 'opts.Len() > 1'))
bug('proto-no-options', ['C17'], (P2, 'p.callPlugin(`data_hash`, name, makeOptions(pc))', 'p.callPlugin(`data_hash`, name, url.Values{})'))
bug('proto-404', ['C17'], (P2, '	case http.StatusNotFound:\n		return nil\n', '	case http.StatusNotFound, http.StatusNoContent:\n		return nil\n'))
bug('proto-2xx', ['C17'], (P2, '''	switch resp.StatusCode {
	case http.StatusOK:
''', '''	switch {
	case resp.StatusCode < 300:
'''), (P2, 'case http.StatusNotFound:', 'case resp.StatusCode == http.StatusNotFound:'))
bug('proto-4xx', ['C17'], (P2, '''	switch resp.StatusCode {
	case http.StatusOK:
''', '''	switch {
	case resp.StatusCode == http.StatusOK:
'''), (P2, 'case http.StatusNotFound:', 'case resp.StatusCode < 500:'))
bug('proto-keepalive', ['C17'], (P2, '			// The transport isn\'t reused so an idle connection would just linger\n			DisableKeepAlives: true,\n', ''))
bug('proto-dial', ['C17'], (P2, 'net.Dial(p.network, p.addr)', 'net.Dial(`tcp`, p.addr)'))
bug('proto-query', ['C17'], (P2, 'len(params) > 0', 'len(params) > 1'))
ok('R17-url', (P2, '''	if p.network == pluginTransportUnix {
		ad, err = url.Parse(fmt.Sprintf(`http://%s/%s/%s`, p.network, luType, name))
	} else {
		ad, err = url.Parse(fmt.Sprintf(`http://%s/%s/%s`, p.addr, luType, name))
	}
''', '''	host := p.addr
	if p.network == pluginTransportUnix {
		host = p.network
	}
	ad, err = url.Parse("http://" + host + "/" + luType + "/" + name)
'''))
ok('R17-table', (P2, '''		names := p.functions[k].([]interface{})
		var df luDispatch
		switch k {
		case `data_dig`:
			df = p.dataDigDispatch
		case `data_hash`:
			df = p.dataHashDispatch
		default:
			df = p.lookupKeyDispatch
		}
		for _, x := range names {
			n := x.(string)
			m.Put(n, df(n))
		}
''', '''		p.addFunctions(m, k, p.functions[k].([]interface{}))
'''), (P2, '''type luDispatch func(string) dgo.Function
''', '''func (p *plugin) addFunctions(m dgo.Map, kind string, names []interface{}) {
	for _, x := range names {
		n := x.(string)
		if kind == `data_dig` {
			m.Put(n, p.dataDigDispatch(n))
		} else if kind == `data_hash` {
			m.Put(n, p.dataHashDispatch(n))
		} else {
			m.Put(n, p.lookupKeyDispatch(n))
		}
	}
}
'''))
ok('R17-meta', (P2, '''	v, ok := meta[`version`].(float64)
	if !(ok && int(v) == hiera.ProtoVersion) {
		panic(fmt.Errorf(`plugin %s uses unsupported protocol %v`, p.path, v))
	}
	p.addr, ok = meta[`address`].(string)
	if !ok {
		panic(fmt.Errorf(`plugin %s did not provide a valid address`, p.path))
	}
	p.network, ok = meta[`network`].(string)
	if !ok {
		log.Printf(`plugin %s did not provide a valid network, assuming tcp`, p.path)
		p.network = `tcp`
	}
''', '''	v, ok := meta[`version`].(float64)
	if !ok || int(v) != hiera.ProtoVersion {
		panic(fmt.Errorf(`plugin %s uses unsupported protocol %v`, p.path, v))
	}
	p.addr = p.requiredString(meta, `address`)
	if network, ok := meta[`network`].(string); ok {
		p.network = network
	} else {
		log.Printf(`plugin %s did not provide a valid network, assuming tcp`, p.path)
		p.network = `tcp`
	}
'''), (P2, '', '''
func (p *plugin) requiredString(meta map[string]interface{}, key string) string {
	s, ok := meta[key].(string)
	if !ok {
		panic(fmt.Errorf(`plugin %s did not provide a valid %s`, p.path, key))
	}
	return s
}
'''))
ok('R17-env', (P2, '''	cmd.Env = os.Environ()
	cmd.Env = append(cmd.Env, `HIERA_MAGIC_COOKIE=`+strconv.Itoa(hiera.MagicCookie))
	cmd.Env = append(cmd.Env, `HIERA_PLUGIN_SOCKET_DIR=`+getUnixSocketDir(opts))
	cmd.Env = append(cmd.Env, `HIERA_PLUGIN_TRANSPORT=`+getPluginTransport(opts))
''', '''	cmd.Env = append(os.Environ(),
		fmt.Sprintf(`HIERA_MAGIC_COOKIE=%d`, hiera.MagicCookie),
		`HIERA_PLUGIN_SOCKET_DIR=`+getUnixSocketDir(opts),
		`HIERA_PLUGIN_TRANSPORT=`+getPluginTransport(opts))
'''), (P2, '	"strconv"\n', ''))
ok('R17-transport', (P2, '''		s := v.GoString()
		switch s {
		case
			pluginTransportUnix,
			pluginTransportTCP:
			return s
		}
	}
	return getDef''', '''		if s := v.GoString(); s == pluginTransportUnix || s == pluginTransportTCP {
			return s
		}
	}
	return getDef'''))
ok('R17-client', (P2, '''	client := http.Client{
		Timeout: time.Second * 5,
		Transport: &http.Transport{
			// The transport isn't reused so an idle connection would just linger
			DisableKeepAlives: true,
			Dial: func(_, _ string) (net.Conn, error) {
				return net.Dial(p.network, p.addr)
			},
		},
	}
	resp, err := client.Get(us)
''', '''	client := p.newClient()
	resp, err := client.Get(us)
'''), (P2, '', '''
func (p *plugin) newClient() *http.Client {
	return &http.Client{
		Timeout: time.Second * 5,
		Transport: &http.Transport{
			DisableKeepAlives: true,
			Dial:              p.dial,
		},
	}
}

func (p *plugin) dial(_, _ string) (net.Conn, error) {
	return net.Dial(p.network, p.addr)
}
'''))
ok('R17-status', (P2, '''	switch resp.StatusCode {
	case http.StatusOK:
		var bts []byte
		if bts, err = ioutil.ReadAll(resp.Body); err == nil {
			return streamer.UnmarshalJSON(bts, nil)
		}
	case http.StatusNotFound:
		return nil
	default:
		var bts []byte
		if bts, err = ioutil.ReadAll(resp.Body); err == nil {
			err = fmt.Errorf(`%s %s: %s`, us, resp.Status, string(bts))
		} else {
			err = fmt.Errorf(`%s %s`, us, resp.Status)
		}
	}
	panic(err)
''', '''	if resp.StatusCode == http.StatusNotFound {
		return nil
	}
	bts, err := ioutil.ReadAll(resp.Body)
	if resp.StatusCode != http.StatusOK {
		if err == nil {
			panic(fmt.Errorf(`%s %s: %s`, us, resp.Status, string(bts)))
		}
		panic(fmt.Errorf(`%s %s`, us, resp.Status))
	}
	if err != nil {
		panic(err)
	}
	return streamer.UnmarshalJSON(bts, nil)
'''))
ok('R17-one', (P2, '''	return vf.Value(func(pc hiera.ProviderContext) dgo.Value {
		return p.callPlugin(`data_hash`, name, makeOptions(pc))
	}).(dgo.Function)
''', '''	f := func(pc hiera.ProviderContext) dgo.Value {
		params := makeOptions(pc)
		v := p.callPlugin(`data_hash`, name, params)
		return v
	}
	return vf.Value(f).(dgo.Function)
'''))
bug('R05-text-nil', ['C05'], (IV, '''func (ic *ivContext) ReportText(messageProducer func() string) {
	if ic.explainer != nil {''', '''func (ic *ivContext) ReportText(messageProducer func() string) {
	if ic.explainer == nil {'''))
bug('R05-loc-nil', ['C05'], (IV, '''	if ic.explainer != nil {
		ic.explainer.AcceptLocationNotFound()
	}''', '''	ic.explainer.AcceptLocationNotFound()'''))
ok('R05-helper', (IV, '''	if ic.explainer != nil {
		ic.explainer.AcceptLocationNotFound()
	}''', '''	locationMissing(ic.explainer)'''), (IV, '', '''
func locationMissing(e api.Explainer) {
	if e != nil {
		e.AcceptLocationNotFound()
	}
}
'''))
ok('R05-helper2', (IV, '''	if ic.explainer != nil {
		ic.explainer.AcceptLocationNotFound()
	}''', '''	if ic.ExplainMode() {
		locationMissing(ic.explainer)
	}'''), (IV, '', '''
func locationMissing(e api.Explainer) {
	e.AcceptLocationNotFound()
}
'''))
ok('R05-early', (IV, '''	if ic.explainer != nil {
		ic.explainer.AcceptLocationNotFound()
	}''', '''	e := ic.explainer
	if nil == e {
		return
	}
	e.AcceptLocationNotFound()'''))
bug('R22-cache-inv', ['C22'], (SCX, '; loaded {', '; !loaded {'))
bug('R22-cache-noreplace', ['C22'], (SCX, '''		// Replace old value
		cache.Store(key, value)
''', ''))
bug('R22-cache-new', ['C22'], (SCX, 'return old.(dgo.Value)\n\t}\n\treturn nil', '_ = old\n\t\treturn value\n\t}\n\treturn nil'))
bug('R22-all-key', ['C22'], (SCX, 'cache.Store(e.Key().String(), e.Value())', 'cache.LoadOrStore(e.Key().String(), e.Value())'))
bug('R22-value-key', ['C22'], (SCX, 'cache.Store(e.Key().String(), e.Value())', 'cache.Store(e.Value().String(), e.Value())'))
bug('R22-entries-stop', ['C22'], (SCX, 'consumer(k.(string), v.(dgo.Value))\n\t\treturn true', 'consumer(k.(string), v.(dgo.Value))\n\t\treturn false'))
bug('R22-shared', ['C22'], (SCX, 'func (c *serverCtx) CachedValue(key string) (dgo.Value, bool) {\n\tif v, ok := c.invocation.TopProviderCache()', 'func (c *serverCtx) CachedValue(key string) (dgo.Value, bool) {\n\tif v, ok := c.invocation.SharedCache()'))
bug('R22-explain', ['C22'], (SCX, 'c.invocation.ReportText(messageProducer)', 'c.invocation.ReportText(func() string { return `` })'))
bug('R22-interp', ['C22'], (SCX, 'c.invocation.Interpolate(value, true)', 'c.invocation.Interpolate(value, false)'))
bug('R22-global', ['C22'], (SS, 'hieraTopProviderCacheKey: &sync.Map{},', 'hieraTopProviderCacheKey: globalCache,'), (SS, 'const hieraCacheKey', 'var globalCache = &sync.Map{}\n\nconst hieraCacheKey'))
bug('R22-same', ['C22'], (SS, '''	vars := map[string]interface{}{
		hieraCacheKey:            &sync.Map{},''', '''	shared := &sync.Map{}
	vars := map[string]interface{}{
		hieraCacheKey:            shared,'''), (SS, 'hieraTopProviderCacheKey: &sync.Map{},', 'hieraTopProviderCacheKey: shared,'))
bug('R22-ctx', ['C22'], (IV, 'hiera.ProviderContextFromMap(options), invocation: ic}', 'hiera.ProviderContextFromMap(options), invocation: ic.ForData()}'))
ok('R22-load-store', (SCX, '''	if old, loaded := cache.LoadOrStore(key, value); loaded {
		// Replace old value
		cache.Store(key, value)
		return old.(dgo.Value)
	}
	return nil''', '''	old, found := cache.Load(key)
	cache.Store(key, value)
	if !found {
		return nil
	}
	return old.(dgo.Value)'''))
ok('R22-helper', (SCX, '''	cache := c.invocation.TopProviderCache()
	if old, loaded''', '''	cache := c.cache()
	if old, loaded'''), (SCX, '''	if v, ok := c.invocation.TopProviderCache().Load(key); ok {''', '''	if v, ok := c.cache().Load(key); ok {'''), (SCX, '', '''
func (c *serverCtx) cache() *sync.Map {
	return c.invocation.TopProviderCache()
}
'''), (SCX, 'import (', 'import (\n\t"sync"\n'))
ok('R22-cached', (SCX, '''	if v, ok := c.invocation.TopProviderCache().Load(key); ok {
		return v.(dgo.Value), true
	}
	return nil, false''', '''	v, ok := c.invocation.TopProviderCache().Load(key)
	if !ok {
		return nil, false
	}
	return v.(dgo.Value), ok'''))
ok('R22-fields', (SS, '''	vars := map[string]interface{}{
		hieraCacheKey:            &sync.Map{},
		hieraTopProviderKey:      topProvider,
		hieraTopProviderCacheKey: &sync.Map{},
		hieraSessionOptionsKey:   options,
		hieraPluginRegistry:      &pluginRegistry{}}
''', '''	vars := make(map[string]interface{})
	vars[hieraCacheKey] = new(sync.Map)
	vars[hieraTopProviderKey] = topProvider
	pc := sync.Map{}
	vars[hieraTopProviderCacheKey] = &pc
	vars[hieraSessionOptionsKey] = options
	vars[hieraPluginRegistry] = &pluginRegistry{}
'''))
ok('R22-mk', (SS, '''	vars := map[string]interface{}{
		hieraCacheKey: ''', '''	vars := newVars(topProvider, options)
	s := &session{Context: parent, aliasMap: tf.DefaultAliases(), vars: vars, dialect: dialect, scope: scope}
	s.loader = s.newHieraLoader(ldr)
	return s
}

func newVars(topProvider hiera.LookupKey, options dgo.Map) map[string]interface{} {
	return map[string]interface{}{
		hieraCacheKey: '''), (SS, '''		hieraPluginRegistry:      &pluginRegistry{}}

	s := &session{Context: parent, aliasMap: tf.DefaultAliases(), vars: vars, dialect: dialect, scope: scope}
	s.loader = s.newHieraLoader(ldr)
	return s
}''', '''		hieraPluginRegistry:      &pluginRegistry{}}
}'''))
bug('R23-scope', ['C23'], (SS, 'options.Get(api.HieraScope).(dgo.Keyed); ok {', 'options.Get(api.HieraScope).(dgo.Keyed); ok && false {'))
bug('R23-scope-frozen', ['C23'], (SS, 'sv = f.FrozenCopy().(dgo.Keyed)', 'sv = f.(dgo.Keyed)'))
bug('R23-freeze', ['C23'], (SS, '	options.Freeze()\n', ''))
bug('R23-env', ['C23'], (SS, '''	if r := options.Get(api.HieraConfigFileName); r != nil {
		fileName = r.String()
	} else if configFile, ok := os.LookupEnv("HIERA_CONFIGFILE"); ok {
		fileName = configFile
	} else {''', '''	if configFile, ok := os.LookupEnv("HIERA_CONFIGFILE"); ok {
		fileName = configFile
	} else if r := options.Get(api.HieraConfigFileName); r != nil {
		fileName = r.String()
	} else {'''))
bug('R23-root', ['C23'], (SS, '	if r := options.Get(api.HieraRoot); r != nil {', '	if r := options.Get(api.HieraRoot); r != nil && filepath.IsAbs(r.String()) {'))
bug('R23-config', ['C23'], (SS, 'if options.Get(api.HieraConfig) == nil {', 'if options.Get(api.HieraConfig) == nil || options.Get(api.HieraRoot) != nil {'))
bug('R23-dialect', ['C23'], (SS, 'case "pcore":\n\t\t\tdialect = pcore.Dialect()', 'case "pcore":\n\t\t\tif dialect = pcore.Dialect(); ds.GoString() != `` {\n\t\t\t\tdialect = streamer.DgoDialect()\n\t\t\t}'))
bug('R23-dialect2', ['C23'], (SS, 'panic(fmt.Errorf(`unknown dialect \'%s\'`, ds))', 'fmt.Println(ds)'))
bug('R23-putlate', ['C23'], (SS, '''	if oif != nil {
		options.PutAll(api.ToMap(`session options`, oif))
	}

	if options.Get(api.HieraConfig) == nil {
		addHieraConfig(options)
	}
''', '''	if options.Get(api.HieraConfig) == nil {
		addHieraConfig(options)
	}
	if oif != nil {
		options.PutAll(api.ToMap(`session options`, oif))
	}
'''))
bug('R23-inv', ['C23'], (SS, '&nestedScope{s.Scope(), api.ToMap(`invocation scope`, si)}', '&nestedScope{api.ToMap(`invocation scope`, si), s.Scope()}'))
bug('R23-nested', ['C23'], (IV, '''	if v := ns.scope.Get(key); v != nil {
		return v
	}
	return ns.parentScope.Get(key)''', '''	if v := ns.parentScope.Get(key); v != nil {
		return v
	}
	return ns.scope.Get(key)'''))
bug('R23-expl', ['C23'], (SS, 'return newInvocation(s, scope, explainer)', 'return newInvocation(s, scope, nil)'))
bug('R23-ldr', ['C23'], (SS, 's.newHieraLoader(ldr)', 's.newHieraLoader(nil)'))
bug('R23-fns', ['C23'], (SS, 'loader.New(l, `function`, m, nil, nil)', 'loader.New(l, `function`, vf.Map(m.Keys()), nil, nil)'))
bug('R23-top', ['C23'], (SS, '	if topProvider == nil {', '	if topProvider == nil || oif == nil {'))
ok('R23-getter', (SS, '''	if options.Get(api.HieraConfig) == nil {
		addHieraConfig(options)
	}
''', '''	if given := options.Get(api.HieraConfig); given == nil {
		options.Put(api.HieraConfig, filepath.Join(configDir(options), configFile(options)))
	}
'''), (SS, '''func addHieraConfig(options dgo.Map) {
	var hieraRoot string
	if r := options.Get(api.HieraRoot); r != nil {
		hieraRoot = r.String()
	} else {
		var err error
		if hieraRoot, err = os.Getwd(); err != nil {
			panic(err)
		}
	}

	var fileName string
	if r := options.Get(api.HieraConfigFileName); r != nil {
		fileName = r.String()
	} else if configFile, ok := os.LookupEnv("HIERA_CONFIGFILE"); ok {
		fileName = configFile
	} else {
		fileName = config.FileName
	}
	options.Put(api.HieraConfig, filepath.Join(hieraRoot, fileName))
}''', '''func configDir(options dgo.Map) string {
	if r := options.Get(api.HieraRoot); r != nil {
		return r.String()
	}
	wd, err := os.Getwd()
	if err == nil {
		return wd
	}
	panic(err)
}

func configFile(options dgo.Map) string {
	r := options.Get(api.HieraConfigFileName)
	if r == nil {
		if name, ok := os.LookupEnv("HIERA_CONFIGFILE"); ok {
			return name
		}
		return config.FileName
	}
	return r.String()
}'''))
ok('R23-dialect-fn', (SS, '''	var dialect streamer.Dialect
	if ds, ok := options.Get(api.HieraDialect).(dgo.String); ok {
		switch ds.String() {
		case "dgo":
			dialect = streamer.DgoDialect()
		case "pcore":
			dialect = pcore.Dialect()
		default:
			panic(fmt.Errorf(`unknown dialect '%s'`, ds))
		}
	}
	if dialect == nil {
		dialect = streamer.DgoDialect()
	}
''', '''	dialect := dialectOf(options.Get(api.HieraDialect))
'''), (SS, '', '''
func dialectOf(v dgo.Value) streamer.Dialect {
	ds, ok := v.(dgo.String)
	if !ok || ds.GoString() == "dgo" {
		return streamer.DgoDialect()
	}
	if ds.GoString() != "pcore" {
		panic(fmt.Errorf(`unknown dialect '%s'`, ds))
	}
	return pcore.Dialect()
}
'''))
ok('R23-scope-fn', (SS, '''	var scope dgo.Keyed
	if sv, ok := options.Get(api.HieraScope).(dgo.Keyed); ok {
		// Freeze scope if possible
		if f, ok := sv.(dgo.Freezable); ok {
			sv = f.FrozenCopy().(dgo.Keyed)
		}
		scope = sv
	} else {
		scope = vf.Map()
	}
''', '''	var scope dgo.Keyed = vf.Map()
	if sv, ok := options.Get(api.HieraScope).(dgo.Keyed); ok {
		scope = sv
		if f, ok := sv.(dgo.Freezable); ok {
			scope = f.FrozenCopy().(dgo.Keyed)
		}
	}
'''))
ok('R23-inv-if', (SS, '''	var scope dgo.Keyed
	if si == nil {
		scope = s.Scope()
	} else {
		scope = &nestedScope{s.Scope(), api.ToMap(`invocation scope`, si)}
	}
	return''', '''	scope := s.scope
	if si != nil {
		scope = &nestedScope{parentScope: scope, scope: api.ToMap(`invocation scope`, si)}
	}
	return'''))
ok('R23-fn-loader', (SS, '''	m, ok := s.SessionOptions().Get(api.HieraFunctions).(dgo.Map)
	if !ok {
		m = vf.Map()
	}
	return loader.New(l, `function`, m, nil, nil)''', '''	if m, ok := s.SessionOptions().Get(api.HieraFunctions).(dgo.Map); ok {
		return loader.New(l, `function`, m, nil, nil)
	}
	return loader.New(l, `function`, vf.Map(), nil, nil)'''))
bug('R19-reg-any', ['C19'], (SS, '	if ok {\n		return\n	}\n\n	file :=', '	if ok && he.PluginFile() == `` {\n		return\n	}\n\n	file :='))
bug('R19-name', ['C19'], (SS, 'fn, ok = l.Get(n).(dgo.Function)\n\treturn fn, ok', 'fn, ok = l.Get(file).(dgo.Function)\n\treturn fn, ok'))
bug('R19-abs', ['C19'], (SS, 'if filepath.IsAbs(file) {', 'if filepath.IsAbs(file) && he.PluginDir() == `` {'))
bug('R19-dir', ['C19'], (SS, 'filepath.Join(he.PluginDir(), file)', 'filepath.Join(he.PluginDir(), n)'))
bug('R19-clean', ['C19'], (SS, 'path = filepath.Clean(file)\n', 'path = file\n'))
bug('R19-missing', ['C19'], (SS, '''		if l == nil {
			return nil, false
		}
	}

	fn, ok =''', '''		if l == nil {
			return nil, true
		}
	}

	fn, ok ='''))
bug('R19-skip', ['C19'], (SS, '''		l = l.Namespace(pn)
		if''', '''		if pn == `` {
			continue
		}
		l = l.Namespace(pn)
		if'''))
bug('R19-lastindex', ['C19'], (SS, 'ix := strings.Index(an, `/plugin/`)', 'ix := strings.LastIndex(an, `/plugin/`)'))
bug('R19-seven', ['C19'], (SS, 'path := an[ix+7:]', 'path := an[ix+8:]'))
bug('R19-child', ['C19'], (SS, 'l = p.NewChild(nil, nsCreator)', 'l = p'))
bug('R19-nochild', ['C19'], (SS, 'if p == nil {\n\t\tl = loader', 'if p == nil || s.SessionOptions().Len() > 0 {\n\t\tl = loader'))
bug('R19-ns', ['C19'], (SS, 'return loader.New(l, name, nil, pluginFinder, pluginNamespace)', 'return loader.New(p, name, nil, pluginFinder, pluginNamespace)'))
bug('R19-file-empty', ['C19'], (SS, 'file := he.PluginFile()\n\tif file == `` {', 'file := he.PluginFile()\n\tif file == `` || !filepath.IsAbs(file) {'))
ok('R19-place', (SS, '''	file := he.PluginFile()
	if file == `` {
		file = n
		if runtime.GOOS == `windows` {
			file += `.exe`
		}
	}

	var path string
	if filepath.IsAbs(file) {
		path = filepath.Clean(file)
	} else {
		path = filepath.Clean(filepath.Join(he.PluginDir(), file))
		abs, err := filepath.Abs(path)
		if err != nil {
			panic(err)
		}
		path = abs
	}

	l = l.Namespace(`plugin`)
	for _, pn := range strings.Split(path, string(os.PathSeparator)) {
		l = l.Namespace(pn)
		if l == nil {
			return nil, false
		}
	}

	fn, ok = l.Get(n).(dgo.Function)
	return fn, ok
}
''', '''	ns := l.Namespace(`plugin`)
	parts := strings.Split(pluginPath(he), string(os.PathSeparator))
	for i := 0; i < len(parts); i++ {
		if ns = ns.Namespace(parts[i]); ns == nil {
			return nil, false
		}
	}
	if fn, ok = ns.Get(n).(dgo.Function); !ok {
		return nil, false
	}
	return fn, true
}

// pluginPath returns the absolute path of the executable
func pluginPath(he api.Entry) string {
	file := he.PluginFile()
	if len(file) == 0 {
		file = he.Function().Name()
		if runtime.GOOS == `windows` {
			file += `.exe`
		}
	}
	if filepath.IsAbs(file) {
		return filepath.Clean(file)
	}
	path, err := filepath.Abs(filepath.Join(he.PluginDir(), file))
	if err == nil {
		return path
	}
	panic(err)
}
'''))
ok('R19-named', (SS, '''	fn, ok = l.Namespace(`function`).Get(n).(dgo.Function)
	if ok {
		return
	}
''', '''	if fn, ok = l.Namespace(functionNS).Get(n).(dgo.Function); ok {
		return fn, ok
	}
'''), (SS, '		case `function`:', '		case functionNS:'), (SS, '	return loader.New(l, `function`, m', '	return loader.New(l, functionNS, m'), (SS, 'const hieraCacheKey', 'const functionNS = `function`\n\nconst hieraCacheKey'))
ok('R19-if', (SS, '''		switch name {
		case `plugin`:
			return s.createPluginLoader(l)
		case `function`:
			return s.createFunctionLoader(l)
		default:
			return nil
		}
	}
	var l dgo.Loader
	if p == nil {
		l = loader.New(nil, ``, nil, nil, nsCreator)
	} else {
		l = p.NewChild(nil, nsCreator)
	}
	return l''', '''		if name == `plugin` {
			return s.createPluginLoader(l)
		}
		if name != `function` {
			return nil
		}
		return s.createFunctionLoader(l)
	}
	if p != nil {
		return p.NewChild(nil, nsCreator)
	}
	return loader.New(nil, ``, nil, nil, nsCreator)'''))
bug('C34-group', ['C34'], (RS, 'key := ks[1]', 'key := ks[0]'))
bug('C11-one', ['C11'], (MS, 'return s.mergeSingle(vsr.Index(0), vf)', 'return nil'))
bug('C20-nopanic', ['C20'], (RND, '''		_, err := out.Write(bi.GoBytes())
		if err != nil {''', '''		_, err := out.Write(bi.GoBytes())
		if err == nil {'''))
bug('R27-asarray', ['C27'], (IV, 'if cm, ok := ct.(dgo.Array); ok {', 'if cm, ok := ct.(dgo.Array); ok && false {'))
bug('R27-second', ['C27'], (IV, '''			ts = cm.Get(0)
			convertToArgs = cm''', '''			ts = cm.Get(1)
			convertToArgs = cm'''))
bug('R27-onlyargs', ['C27'], (IV, 'vf.Arguments(vf.Values(v).WithAll(convertToArgs))', 'vf.Arguments(convertToArgs)'))
bug('R27-nil', ['C27'], (IV, 'if v != nil && convertToType != nil {', 'if convertToType != nil {'))
bug('R27-argsfirst', ['C27'], (IV, 'vf.Values(v).WithAll(convertToArgs)', 'convertToArgs.With(v)'))
bug('R27-noargs', ['C27'], (IV, 'cm.Slice(1, cm.Len())', 'cm.Slice(2, cm.Len())'))
bug('R27-empty', ['C27'], (IV, '''		case 0:
			// Obviously bogus
		case 1:''', '''		case 0, 1:'''))
ok('R27-one', (IV, '''		case 1:
			ts = cm.Get(0)
''', ''))
bug('R27-options', ['C27'], (IV, '	ic.luOpts = lookupOptions\n', '	if mergeOpts != nil {\n		ic.luOpts = lookupOptions\n	}\n'))
bug('R27-redacted', ['C27'], (IV, 'ic.DoRedacted(func() { v = fn() })\n', 'ic.DoRedacted(func() { v = fn() })\n		return v\n'))
ok('R27-ok1', (IV, '''		switch cm.Len() {
		case 0:
			// Obviously bogus
		case 1:
			ts = cm.Get(0)
		default:
			ts = cm.Get(0)
			convertToArgs = cm.Slice(1, cm.Len())
		}''', '''		n := cm.Len()
		if n > 0 {
			ts = cm.Get(0)
		}
		if n > 1 {
			convertToArgs = cm.Slice(1, n)
		}'''))
ok('R27-ok2', (IV, '''	if v != nil && convertToType != nil {
		if convertToArgs != nil {
			v = vf.Arguments(vf.Values(v).WithAll(convertToArgs))
		}
		v = vf.New(convertToType, v)
	}
	return v''', '''	if v == nil || convertToType == nil {
		return v
	}
	return convert(v, convertToType, convertToArgs)'''), (IV, 'func (ic *ivContext) LookupAndConvertData(', '''func convert(v dgo.Value, t dgo.Type, args dgo.Array) dgo.Value {
	if args == nil {
		return vf.New(t, v)
	}
	return vf.New(t, vf.Arguments(vf.Values(v).WithAll(args)))
}

func (ic *ivContext) LookupAndConvertData('''))
ok('R27-ok3', (IV, '''	if ts != nil {
		ic.AliasMap().Collect(func(aa dgo.AliasAdder) {
			convertToType = ic.Dialect().ParseType(aa, ts.(dgo.String))
		})
	}
	return
}''', '''	if ts == nil {
		return nil, nil
	}
	d, s := ic.Dialect(), ts.(dgo.String)
	ic.AliasMap().Collect(func(aa dgo.AliasAdder) { convertToType = d.ParseType(aa, s) })
	return convertToType, convertToArgs
}'''))
ok('R27-ok4', (IV, '''	if convertToType != nil && typ.Sensitive.Assignable(convertToType) {
		ic.DoRedacted(func() { v = fn() })
	} else {
		v = fn()
	}
''', '''	get := func() { v = fn() }
	if convertToType == nil {
		get()
		return v
	}
	if typ.Sensitive.Assignable(convertToType) {
		ic.DoRedacted(get)
	} else {
		get()
	}
'''))

# C29
EXP = 'explain/explainer.go'
bug('R29-novalue', ['C29'], (EXP, '''func (en *explainTreeNode) setValue(v dgo.Value) {
	en.v = v''', '''func (en *explainTreeNode) setValue(v dgo.Value) {
	if en.v != nil {
		en.v = v
	}'''))
bug('R29-nobranch', ['C29'], (EXP, '''			bx.setParent(en)
			bs[i] = bx''', '''			bx.setParent(en)'''))
bug('R29-notexts', ['C29'], (EXP, '''			ts[i] = t.String()''', '''			_ = ts[i]'''))
bug('R29-options', ['C29'], (EXP, '''	if ex.onlyOptions {
		m.Put(`onlyOptions`, true)''', '''	if ex.options {
		m.Put(`onlyOptions`, true)'''))
bug('R29-current', ['C29'], (EXP, '''	if ex.current != ex {
		m.Put(`current`''', '''	if ex.current == ex {
		m.Put(`current`'''))
bug('R29-type', ['C29'], (EXP, '''	reflect.TypeOf(&explainMergeSource{}),''', '''	reflect.TypeOf(&explainModule{}),'''))
bug('R29-maker', ['C29'], (EXP, '''return createFunc(value, &explainModule{})''', '''return createFunc(value, &explainMergeSource{})'''))
bug('R29-name', ['C29'], (EXP, '''	`hiera.explainModule`,''', '''	`hiera.explainMergeSource`,'''))
bug('R29-keyname', ['C29'], (EXP, '''ih.Get(`moduleName`)''', '''ih.Get(`module`)'''))
bug('R29-mapped', ['C29'], (MAP, '''m.Get(`key`)''', '''m.Get(`delim`)'''))
bug('R29-exists', ['C29'], (PTH, '''			exists:   m.Get(`exists`).(dgo.Boolean).GoBool()}''', '''			exists:   m.Get(`resolved`) != nil}'''))
bug('R29-defkey', ['C29'], (EXP, '''	ex.current.foundInDefaults(key, value)''', '''	ex.current.foundInDefaults(``, value)'''))
bug('R29-event', ['C29'], (EXP, '''	en.e = foundInOverrides
''', '''	en.e = foundInDefaults
'''))
bug('R29-events', ['C29'], (EXP, '''	moduleNotFound   = `module_not_found`''', '''	moduleNotFound   = `location_not_found`'''))
bug('R29-nokey', ['C29'], (EXP, '''func (en *explainTreeNode) notFound(k interface{}) {
	en.k = keyToString(k)
''', '''func (en *explainTreeNode) notFound(k interface{}) {
	if i, ok := k.(int); !ok || i > 0 {
		en.k = keyToString(k)
	}
'''))
bug('R29-branch', ['C29'], (EXP, '''	ex.current.appendBranch(en)
	ex.current = en
''', '''	if ex.current == ex {
		ex.current.appendBranch(en)
	}
	ex.current = en
'''))
bug('R29-source', ['C29'], (EXP, '''	en.p = ex.current
	ex.current.appendBranch(en)
''', '''	en.p = ex.current
	ex.appendBranch(en)
'''))
bug('R29-pop', ['C29'], (EXP, '''		ex.current = ex.current.parent()
''', '''		ex.current = ex.parent()
'''))
bug('R29-text', ['C29'], (EXP, '''	en.ts = append(en.ts, text)''', '''	en.ts = []string{text}'''))
bug('R29-result', ['C29'], (EXP, '''func (en *explainTreeNode) result(v dgo.Value) {
	en.v = v
''', '''func (en *explainTreeNode) result(v dgo.Value) {
'''))
bug('R29-dump', ['C29'], (EXP, '''	case found, foundInDefaults, foundInOverrides:
		w.NewLine()
		w.Append(`Found key: "`)
		w.Append(en.k)
		w.Append(`" value: `)
		dumpValue(en.v, w)
''', '''	case found, foundInDefaults, foundInOverrides:
		w.NewLine()
		w.Append(`Found key: "`)
		w.Append(en.k)
		w.Append(`" value: `)
		if en.e != foundInOverrides {
			dumpValue(en.v, w)
		}
'''))
bug('R29-dumpbranches', ['C29'], (EXP, '''	for _, b := range en.bs {
		b.AppendTo(w)''', '''	for i, b := range en.bs {
		if i > 0 {
			continue
		}
		b.AppendTo(w)'''))
bug('R29-dumptexts', ['C29'], (EXP, '''	for _, t := range en.ts {
		w.NewLine()
		w.Append(t)''', '''	for _, t := range en.ts[1:] {
		w.NewLine()
		w.Append(t)'''))
bug('R29-dumplookup', ['C29'], (EXP, '''	w.Append(en.key())
	w.AppendRune('"')
	en.dumpBranches(w.Indent())''', '''	w.Append(en.key())
	w.AppendRune('"')
	w.Indent()'''))
bug('R29-dumpsource', ['C29'], (EXP, '''	w.Append(en.mergeSource)
''', ''''''))
ok('R29-okfields', (EXP, '''func (en *explainTreeNode) found(key interface{}, v dgo.Value) {
	en.k = keyToString(key)
	en.v = v
	en.e = found
}

func (en *explainTreeNode) foundInDefaults(key interface{}, v dgo.Value) {
	en.k = keyToString(key)
	en.v = v
	en.e = foundInDefaults
}
''', '''func (en *explainTreeNode) record(e event, key interface{}, v dgo.Value) {
	en.e, en.k, en.v = e, keyToString(key), v
}

func (en *explainTreeNode) found(key interface{}, v dgo.Value) {
	en.record(found, key, v)
}

func (en *explainTreeNode) foundInDefaults(key interface{}, v dgo.Value) {
	en.record(foundInDefaults, key, v)
}
'''))
ok('R29-okindex', (EXP, '''	for _, b := range en.bs {
		b.AppendTo(w)
	}''', '''	for i := 0; i < len(en.bs); i++ {
		en.bs[i].AppendTo(w)
	}'''), (EXP, '''func (en *explainTreeNode) dumpTexts(w dgo.Indenter) {
	for _, t''', '''func (en *explainTreeNode) dumpTexts(w dgo.Indenter) {
	if len(en.ts) == 0 {
		return
	}
	for _, t'''))
ok('R29-okmap', (EXP, '''	m := initMap(en)
	m.Put(`moduleName`, en.moduleName)
	return m
''', '''	m := initMap(en)
	if mn := en.moduleName; len(mn) > 0 {
		m.Put(`moduleName`, mn)
	}
	return m
'''))
ok('R29-okinit', (EXP, '''	en.setValue(ih.Get(`value`))
	if v, ok := ih.Get(`key`).(dgo.String); ok {
		en.setKey(v.GoString())
	}
''', '''	if v, ok := ih.Get(`key`).(dgo.String); ok {
		en.setKey(v.GoString())
	}
	if v := ih.Get(`value`); v != nil {
		en.setValue(v)
	}
'''))
ok('R29-okloop', (EXP, '''		ts := make([]string, ta.Len())
		ta.EachWithIndex(func(t dgo.Value, i int) {
			ts[i] = t.String()
		})
		en.setTexts(ts)
''', '''		var ts []string
		ta.Each(func(t dgo.Value) {
			ts = append(ts, t.String())
		})
		en.setTexts(ts)
'''))
ok('R29-okpush', (EXP, '''	en.setParent(ex.current)
	ex.current.appendBranch(en)
	ex.current = en
''', '''	parent := ex.current
	ex.current = en
	parent.appendBranch(en)
	en.setParent(parent)
'''), (EXP, '''	if ex.current != nil {
		ex.current = ex.current.parent()
	}''', '''	c := ex.current
	if c == nil {
		return
	}
	ex.current = c.parent()'''))
ok('R29-okcfg', (PTH, '''		m := v.(dgo.Map)
		return &path{
			original: m.Get(`original`).(dgo.String).GoString(),
			resolved: m.Get(`resolved`).(dgo.String).GoString(),
			exists:   m.Get(`exists`).(dgo.Boolean).GoBool()}
''', '''		m := v.(dgo.Map)
		p := &path{}
		p.exists = m.Get(`exists`).(dgo.Boolean).GoBool()
		p.original = m.Get(`original`).String()
		p.resolved = m.Get(`resolved`).(dgo.String).GoString()
		return p
'''))
bug('R29-swapevent', ['C29'], (IV, '''		ic.explainer.AcceptMergeResult(ic.redact(value))''', '''		ic.explainer.AcceptFound(``, ic.redact(value))'''))
bug('R29-hidden', ['C29'], (IV, '''	if ic.redacted {
		return vf.String(redactedText)
	}
	return value
''', '''	if ic.redacted || value == nil {
		return vf.String(redactedText)
	}
	return vf.String(redactedText)
'''))
bug('R29-sublookup', ['C29'], (IV, '''	ic.explainer.PushSubLookup(key)''', '''	ic.explainer.PushLookup(key)'''))
bug('R29-found', ['C29'], (IV, '''		ic.explainer.AcceptFound(key, ic.redact(value))''', '''		if value != nil {
			ic.explainer.AcceptFound(key, ic.redact(value))
		}'''))
ok('R29-okreport', (IV, '''func (ic *ivContext) ReportFound(key interface{}, value dgo.Value) {
	if ic.explainer != nil {
		ic.explainer.AcceptFound(key, ic.redact(value))
	}
''', '''func (ic *ivContext) ReportFound(key interface{}, value dgo.Value) {
	ex := ic.explainer
	if ex == nil {
		return
	}
	value = ic.redact(value)
	ex.AcceptFound(key, value)
'''))

# C30
bug('R30-hash', ['C30'], (PTH, '''	return util.StringHash(p.original)''', '''	h := util.StringHash(p.original)
	return h*31 + int(reflect.ValueOf(p).Pointer())'''))
bug('R30-pathequals', ['C30'], (PTH, '''		ok = *p == *op''', '''		ok = p.original == op.original && p.exists == op.exists'''))
bug('R30-keyequals', ['C30'], (KEY, '''		return k.source == ov.source''', '''		return k.parts[0] == ov.parts[0] && len(k.parts) == len(ov.parts)'''))
bug('R30-keyhash', ['C30'], (KEY, '''		return k.source == ov.source''', '''		return reflect.DeepEqual(k.parts, ov.parts)'''))
bug('R30-first', ['C30'], (KEY, '''			if ix == 0 {
				panic''', '''			if ix == 0 && i < 0 {
				panic'''))
bug('R30-quoted', ['C30'], (KEY, '''			return parseUnquoted(b, key, part[i+1:], parts, true)''', '''			return parseUnquoted(b, key, part[i+1:], parts, b.Len() == 0)'''))
bug('R30-empty', ['C30'], (KEY, '''		if part == `` {
			panic''', '''		if part == `` && ix > 0 {
			panic'''))
bug('R30-base', ['C30'], (KEY, '''strconv.ParseInt(part, 10, 32)''', '''strconv.ParseInt(part, 0, 32)'''))
bug('R30-unterminated', ['C30'], (KEY, '''	panic(fmt.Errorf(`unterminated quote in key '%s'`, key))''', '''	if b.Len() > 0 {
		return append(parts, b.String())
	}
	panic(fmt.Errorf(`unterminated quote in key '%s'`, key))'''))
bug('R30-source', ['C30'], (KEY, '''	return &key{str, parseUnquoted(''', '''	return &key{strings.TrimSpace(str), parseUnquoted('''))
bug('R30-root', ['C30'], (KEY, '''	return k.parts[0].(string)''', '''	return k.parts[len(k.parts)-1].(string)'''))
bug('R30-mapped', ['C30'], (MAP, '''		return *m == *om''', '''		return m.sourceVar == om.sourceVar && m.template == om.template'''))
ok('R30-okequal', (PTH, '''	op, ok := value.(*path)
	if ok {
		ok = *p == *op
	}
	return ok''', '''	if op, ok := value.(*path); ok {
		return p.original == op.original && p.resolved == op.resolved && p.exists == op.exists
	}
	return false'''))
ok('R30-okhash', (PTH, '''	return util.StringHash(p.original)''', '''	return util.StringHash(p.original)*31 + util.StringHash(p.resolved)'''))
ok('R30-okparts', (KEY, '''		if i, err := strconv.ParseInt(part, 10, 32); err == nil && !quoted {
			if ix == 0 {
				panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
			}
			return int(i)
		}
''', '''		if !quoted {
			i, err := strconv.ParseInt(part, 10, 32)
			if err == nil {
				if ix < 1 {
					panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
				}
				return int(i)
			}
		}
'''))
ok('R30-okhelper', (KEY, '''	mungedPart := func(ix int, part string) interface{} {
		if''', '''	mungedPart := func(ix int, part string) interface{} { return segment(key, ix, part, quoted) }

	for i, c := range part {
		switch c {
		case '\\'', '"':
			return parseQuoted(b, c, key, part[i+1:], parts)
		case '.':
			parts = append(parts, mungedPart(len(parts), b.String()))
			b.Reset()
			quoted = false
		default:
			_, _ = b.WriteRune(c)
		}
	}
	return append(parts, mungedPart(len(parts), b.String()))
}

func segment(key string, ix int, part string, quoted bool) interface{} {
		if'''), (KEY, '''			return int(i)
		}
		if part == `` {
			panic(fmt.Errorf(`key '%s' contains an empty segment`, key))
		}
		return part
	}

	for i, c := range part {
		switch c {
		case '\\'', '"':
			return parseQuoted(b, c, key, part[i+1:], parts)
		case '.':
			parts = append(parts, mungedPart(len(parts), b.String()))
			b.Reset()
			quoted = false
		default:
			_, _ = b.WriteRune(c)
		}
	}
	return append(parts, mungedPart(len(parts), b.String()))
}
''', '''			return int(i)
		}
		if part == `` {
			panic(fmt.Errorf(`key '%s' contains an empty segment`, key))
		}
		return part
}
'''))
ok('R30-okstate', (KEY, '''	for i, c := range part {
		if c == q {
			if i == len(part)-1 {
				return append(parts, b.String())
			}
			return parseUnquoted(b, key, part[i+1:], parts, true)
		}
		_, _ = b.WriteRune(c)
	}
	panic(fmt.Errorf(`unterminated quote in key '%s'`, key))''', '''	end := strings.IndexRune(part, q)
	if end < 0 {
		panic(fmt.Errorf(`unterminated quote in key '%s'`, key))
	}
	_, _ = b.WriteString(part[:end])
	if rest := part[end+1:]; rest != `` {
		return parseUnquoted(b, key, rest, parts, true)
	}
	return append(parts, b.String())'''))

# C32
Y2J = 'yaml2json/main.go'
bug('R32-nested', ['C32'], (Y2J, '''			m[fmt.Sprint(k)] = stringKeys(v)''', '''			m[fmt.Sprint(k)] = v'''))
bug('R32-list', ['C32'], (Y2J, '''	case []interface{}:
		for i, v := range x {
			x[i] = stringKeys(v)
		}
''', ''))
bug('R32-read', ['C32'], (Y2J, '''	data, err := ioutil.ReadAll(os.Stdin)
	if err == nil {''', '''	data, err := ioutil.ReadAll(os.Stdin)
	if err == nil || len(data) > 0 {'''))
bug('R32-write', ['C32'], (Y2J, '''				if _, err = os.Stdout.Write(bytes); err == nil {
					return
				}''', '''				_, _ = os.Stdout.Write(bytes)
				return'''))
bug('R32-body', ['C32'], (Y2J, 'json.MarshalIndent(stringKeys(body), ``', 'json.MarshalIndent(body, ``'))
bug('R32-key', ['C32'], (Y2J, '''		for k, v := range x {
			x[k] = stringKeys(v)
		}''', '''		for k, v := range x {
			if _, ok := v.(map[string]interface{}); ok {
				x[k] = stringKeys(v)
			}
		}'''))
bug('R32-status', ['C32'], (Y2J, '''	log.Fatal(err.Error())''', '''	log.Print(err.Error())'''))
bug('R32-exit', ['C32'], (Y2J, '''	log.Fatal(err.Error())''', '''	log.Print(err.Error())
	os.Exit(0)'''))
ok('R32-okflat', (Y2J, '''	if err == nil {
		var body interface{}
		if err = yaml.Unmarshal(data, &body); err == nil {
			var bytes []byte
			if bytes, err = json.MarshalIndent(stringKeys(body), ``, ` `); err == nil {
				if _, err = os.Stdout.Write(bytes); err == nil {
					return
				}
			}
		}
	}
	log.Fatal(err.Error())
}''', '''	if err != nil {
		log.Fatal(err)
	}
	var body interface{}
	if err = yaml.Unmarshal(data, &body); err != nil {
		log.Fatal(err)
	}
	write(body)
}

func write(body interface{}) {
	bytes, err := json.MarshalIndent(stringKeys(body), ``, ` `)
	if err == nil {
		_, err = os.Stdout.Write(bytes)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}'''))
ok('R32-okconv', (Y2J, '''		for k, v := range x {
			x[k] = stringKeys(v)
		}
	case []interface{}:
		for i, v := range x {
			x[i] = stringKeys(v)
		}
	}
	return x''', '''		m := make(map[string]interface{}, len(x))
		for k := range x {
			m[k] = stringKeys(x[k])
		}
		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i := range x {
			a[i] = stringKeys(x[i])
		}
		return a
	}
	return x'''))
ok('R32-okappend', (Y2J, '''		for i, v := range x {
			x[i] = stringKeys(v)
		}
	}
	return x''', '''		var a []interface{}
		for _, v := range x {
			a = append(a, stringKeys(v))
		}
		return a
	default:
		return x
	}
	return x'''))
ok('R32-okkey', (Y2J, '''			m[fmt.Sprint(k)] = stringKeys(v)''', '''			s, ok := k.(string)
			if !ok {
				s = fmt.Sprintf("%v", k)
			}
			m[s] = stringKeys(v)'''))
bug('R41-addr-port', ['C41'], (RS, 'Addr:    addr + ":" + strconv.Itoa(port)', 'Addr:    ":" + strconv.Itoa(port)'))
bug('R41-port-fixed', ['C41'], (RS, 'strconv.Itoa(port)', 'strconv.Itoa(8080+port*0)'))
bug('R41-config', ['C41'], (RS, 'api.HieraConfig:             configPath}', 'api.HieraConfigFileName:             configPath}'))
bug('R41-order', ['C41'], (RS, 'provider.ConfigLookupKey, provider.Environment', 'provider.Environment, provider.ConfigLookupKey'))
bug('R41-level', ['C41'], (RS, '	log.SetLevel(level)\n', '	log.SetLevel(log.ErrorLevel)\n	_ = level\n'))
bug('R41-level-unchecked', ['C41'], (RS, '	if err != nil {\n		panic(err)\n	}\n	log.SetLevel(level)', '	if err == nil {\n	log.SetLevel(level)\n}'))
bug('R41-same-var', ['C41'], (RS, 'flags.StringVar(&sslCert, `ssl-cert`', 'flags.StringVar(&sslKey, `ssl-cert`'))
bug('R41-vars', ['C41'], (RS, 'cmdOpts.VarPaths, `vars`', 'cmdOpts.FactPaths, `vars`'))
bug('R41-returns', ['C41'], (RS, '		tlsConfig, err := makeTLSconfig()\n		if err != nil {\n			panic(err)\n		}', '		tlsConfig, err := makeTLSconfig()\n		if err != nil {\n			log.Error(err)\n			return\n		}'))
bug('R41-default', ['C41'], (RS, '`port`, 8080', '`port`, 80'))
ok('R41-join', (RS, 'addr + ":" + strconv.Itoa(port)', 'fmt.Sprintf("%s:%d", addr, port)'), (RS, '	"strconv"\n', ''))
ok('R41-listen', (RS, '			err = server.ListenAndServe()', '			l, lerr := net.Listen("tcp", server.Addr)\n			if lerr != nil {\n				panic(lerr)\n			}\n			err = server.Serve(l)'), (RS, '	"net/http"\n', '	"net"\n	"net/http"\n'))
ok('R41-helpers', (RS, '		router := CreateRouter(hs)\n\n		server := &http.Server{\n			Addr:    addr + ":" + strconv.Itoa(port),\n			Handler: router,\n		}\n', '		server := newServer(hs)\n'), (RS, '', '\nfunc newServer(s api.Session) *http.Server {\n	r := &http.Server{}\n	r.Handler = CreateRouter(s)\n	r.Addr = listenAt()\n	return r\n}\n\nfunc listenAt() string {\n	return addr + ":" + strconv.FormatInt(int64(port), 10)\n}\n'))
ok('R41-level-helper', (RS, '	level, err := log.ParseLevel(logLevel)\n	if err != nil {\n		panic(err)\n	}\n	log.SetLevel(level)\n', '	setLevel()\n'), (RS, '', '\nfunc setLevel() {\n	l, err := log.ParseLevel(logLevel)\n	if err == nil {\n		log.SetLevel(l)\n		return\n	}\n	panic(err)\n}\n'))
ok('R41-dgo-map', (RS, 'hiera.DoWithParent(context.Background(), provider.MuxLookupKey, configOptions, func(hs api.Session) {', 'consumer := func(hs api.Session) {'), (RS, '		if err != nil {\n			panic(err)\n		}\n	})\n}', '		if err != nil {\n			panic(err)\n		}\n	}\n	hiera.DoWithParent(context.Background(), provider.MuxLookupKey, configOptions, consumer)\n}'))
bug('R23-config-path', ['C23'], (IV, '	if configPath == `` {\n		configPath = ic.SessionOptions().Get(api.HieraConfig).String()\n	}\n', ''))
bug('R21-sens-nil', ['C21'], (IV, 'typ.Sensitive.Assignable(convertToType)', 'typ.Sensitive.Assignable(nil)'))
bug('R21-sens-reversed', ['C21'], (IV, 'typ.Sensitive.Assignable(convertToType)', 'convertToType.Assignable(typ.Sensitive)'))
bug('R16-kill-nil', ['C16'], ('session/pluginloader.go', '	if process == nil {\n		return\n	}\n', '	if process == nil {\n		_ = process\n	}\n'))
bug('R34-default-two', ['C34'], (RS, 'ok && len(dflt) > 0', 'ok && len(dflt) > 1'))
bug('R34-no-router', ['C34'], (RS, '	return router\n', '	_ = router\n	return nil\n'))
bug('R34-route', ['C34'], (RS, 'HandleFunc("/lookup/"', 'HandleFunc("/look/"'))
ok('R34-mux', (RS, '	router := http.NewServeMux()\n	router.HandleFunc("/lookup/", doLookup)\n	return router\n', '	return http.HandlerFunc(doLookup)\n'))
ok('R34-handle', (RS, '	router := http.NewServeMux()\n	router.HandleFunc("/lookup/", doLookup)\n	return router\n', '	return route(doLookup)\n'), (RS, '', '\nfunc route(h http.HandlerFunc) http.Handler {\n	m := http.NewServeMux()\n	m.Handle("/lookup/", h)\n	return m\n}\n'))
ok('R34-default-len', (RS, 'if dflt, ok := params[`default`]; ok && len(dflt) > 0 {', 'if dflt := params[`default`]; len(dflt) >= 1 {'))
ok('R34-default-len2', (RS, 'if dflt, ok := params[`default`]; ok && len(dflt) > 0 {', 'if dflt := params[`default`]; len(dflt) != 0 {'))
bug('R41-env', ['C41'], (RS, 'provider.ConfigLookupKey, provider.Environment', 'provider.ConfigLookupKey'))
bug('R20-nil', ['C20'], ('provider/yamldata.go', 'panic(fmt.Errorf("could not unmarshal %s: %s", path, err.Error()))', '_ = fmt.Sprint()\n			panic(nil)'))
bug('R20-nil-maker', ['C20'], ('api/issues.go', "return fmt.Errorf(`missing required provider option '%s'`, option)", "_ = fmt.Errorf(`missing required provider option '%s'`, option)\n	return nil"))
bug('R24-not-found', ['C24'], (DD if False else 'internal/datadigprovider.go', 'ic.ReportNotFound(key)', 'ic.ReportNotFound(nil)'))
bug('R32-unconverted', ['C32'], (Y2J, '		for k, v := range x {\n			x[k] = stringKeys(v)\n		}\n', ''))
bug('R34-negated', ['C34'], (RS, 'if ks == nil {', 'if ks != nil {'))
bug('R37-strategy-neg', ['C37'], (IV, 'if mn, ok := opts.Get(`strategy`).(dgo.String); ok {', 'if mn, ok := opts.Get(`strategy`).(dgo.String); !ok {'))
bug('R37-locations', ['C37'], ('session/resolvedconfig.go', 'MergeLocations(k, pr, ms)', 'MergeLocations(k, pr, merge.GetStrategy(`first`, nil))'))
bug('R27-aliases', ['C27'], (IV, 'ParseType(aa, ts.(dgo.String))', 'ParseType(nil, ts.(dgo.String))'))
bug('R23-coerce', ['C23'], ('api/coerce.go', '		panic(fmt.Errorf(`%s does not represent a map`, argName))\n', '		_ = fmt.Errorf(`%s does not represent a map`, argName)\n'))
bug('R30-root', ['C30'], ('api/key.go', 'source = q + name + q', 'source = name + q'))
ok('R30-root-sprintf', ('api/key.go', 'source = q + name + q', 'source = strings.Join([]string{q, name, q}, ``)') if False else ('api/key.go', '''	source := name
	if strings.ContainsAny(name, `.'"`) {
		q := `'`
		if strings.Contains(name, q) {
			q = `"`
		}
		source = q + name + q
	}
	return &key{source, []interface{}{name}}''', '''	if !strings.ContainsAny(name, `.'"`) {
		return &key{name, []interface{}{name}}
	}
	return &key{quoted(name), []interface{}{name}}'''), ('api/key.go', '', '''
func quoted(name string) string {
	if strings.Contains(name, `'`) {
		return `"` + name + `"`
	}
	return `'` + name + `'`
}
'''))
ok('R23-coerce-switch', ('api/coerce.go', '''	value := vf.Value(vi)
	if vf.Nil != value {
		if m, ok := value.(dgo.Map); ok {
			return m
		}
		panic(fmt.Errorf(`%s does not represent a map`, argName))
	}
	return vf.Map()''', '''	switch value := vf.Value(vi).(type) {
	case dgo.Map:
		return value
	default:
		if value == vf.Nil {
			return vf.Map()
		}
		panic(fmt.Errorf(`%s does not represent a map`, argName))
	}'''))
ok('R23-config-helper', (IV, '	if configPath == `` {\n		configPath = ic.SessionOptions().Get(api.HieraConfig).String()\n	}\n', '	configPath = ic.configOrDefault(configPath)\n'), (IV, '', '''
func (ic *ivContext) configOrDefault(p string) string {
	if len(p) > 0 {
		return p
	}
	return ic.SessionOptions().Get(api.HieraConfig).String()
}
'''))
ok('R16-kill-if', ('session/pluginloader.go', '	process := p.process\n	if process == nil {\n		return\n	}\n', '	process := p.process\n	if nil == process {\n		return\n	}\n'))
ok('R16-kill-helper', ('session/pluginloader.go', '	process := p.process\n	if process == nil {\n		return\n	}\n\n	defer func() {\n		p.wGroup.Wait()\n		p.process = nil\n	}()\n', '	if p.process != nil {\n		p.end(p.process)\n	}\n}\n\nfunc (p *plugin) end(process *os.Process) {\n	defer func() {\n		p.wGroup.Wait()\n		p.process = nil\n	}()\n'))
ok('R21-sens-var', (IV, '	if convertToType != nil && typ.Sensitive.Assignable(convertToType) {\n		ic.DoRedacted(func() { v = fn() })\n	} else {\n		v = fn()\n	}\n', '	lookup := func() { v = fn() }\n	if secret := convertToType != nil && typ.Sensitive.Assignable(convertToType); secret {\n		ic.DoRedacted(lookup)\n	} else {\n		lookup()\n	}\n'))
ok('R21-sens-helper', (IV, 'convertToType != nil && typ.Sensitive.Assignable(convertToType)', 'isSecret(convertToType)'), (IV, '', '\nfunc isSecret(t dgo.Type) bool {\n	if t == nil {\n		return false\n	}\n	return typ.Sensitive.Assignable(t)\n}\n'))
ok('R32-early', (Y2J, '	case map[string]interface{}:\n', '	case map[string]interface{}:\n		if len(x) == 0 {\n			return x\n		}\n'))
ok('R37-strategy-else', (IV, '''		if mn, ok := opts.Get(`strategy`).(dgo.String); ok {
			mergeName = mn.String()
			mergeOpts = opts.Without(`strategy`)
		}
''', '''		mn, ok := opts.Get(`strategy`).(dgo.String)
		if !ok {
			break
		}
		mergeOpts = opts.Without(`strategy`)
		mergeName = mn.GoString()
'''))
bug('R42-lock-prefix', ['C42'], (IV, 'const hieraLockPrefix = `HieraLock:`', 'const hieraLockPrefix = `HieraConfig:lock:`'))
bug('R42-no-prefix', ['C42'], (IV, 'cp := hieraConfigsPrefix + configPath', 'cp := configPath'))
bug('R42-mod', ['C42'], (MOD, 'cacheKey := moduleProviderPrefix + modName', 'cacheKey := modName'))
bug('R42-yaml', ['C42'], ('provider/yamllookupkey.go', 'var YamlDataKey = `yaml::data`', 'var YamlDataKey = moduleProviderPrefix + `data`'))
bug('R42-other', ['C42'], ('provider/yamllookupkey.go', 'data, ok := sc.CachedValue(YamlDataKey)', 'data, ok := sc.CachedValue(YamlDataKey + key)'))
bug('R42-store', ['C42'], (IV, 'sc.Store(cp, conf)', 'sc.Store(lc, conf)'))
ok('R42-helper', (IV, '	cp := hieraConfigsPrefix + configPath\n', '	cp := configKey(configPath)\n'), (IV, '', '\nfunc configKey(p string) string { return fmt.Sprintf("%s%s", hieraConfigsPrefix, p) }\n'))
ok('R42-helper2', (MOD, 'cacheKey := moduleProviderPrefix + modName', 'cacheKey := strings.Join([]string{moduleProviderPrefix, modName}, ``)') if False else (MOD, 'const moduleProviderPrefix = `hiera::moduleprovider::`', 'const moduleProviderPrefix = `hiera::modprovider::`'))
ok('R42-load', (IV, '	if val, ok := sc.Load(cp); ok {\n		rc := Resolve(ic, val.(api.Config), moduleName)', '	if val := loaded(sc, cp); val != nil {\n		rc := Resolve(ic, val, moduleName)'), (IV, '', '\nfunc loaded(m *sync.Map, k string) api.Config {\n	if v, ok := m.Load(k); ok {\n		return v.(api.Config)\n	}\n	return nil\n}\n'))
