# Property catalogue: single source for properties.jsonl, MANIFEST.json and DESIGN.md (run gen.py after editing).
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, design=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, quant=' '.join(quant.split()),
                      why=' '.join(why.split()), files=files, mech=mech, technique=technique,
                      note=' '.join((note or '').split()), design=' '.join((design or '').split()),
                      na=' '.join((na or '').split())))


prop('C01', 'A failed or panicking operation never leaves a lock held',
     '''Every lock taken by a session, a data provider or a plugin is released on every way out of the operation that took it,
     including when loading a configuration, running a data function or killing a plugin ends with a panic. After such a
     failure nothing that other lookups wait for is left behind in the session's shared cache, so a later or concurrent
     lookup in the same session can never be blocked by it.''',
     ['fault_sequences', 'schedules'],
     '''every point at which code run under a lock can fail, and every order in which other goroutines then arrive''',
     '''The tests load well-formed configurations one at a time; a lock left behind is only noticed by the next user after
     a fault inside the critical section.''',
     ['session/invocation.go', 'session/pluginloader.go', 'internal/datahashprovider.go'],
     [('configuration load lock', 'session.Invocation.Config'), ('data hash cache lock', 'data_hash provider'),
      ('plugin registry and process locks', 'session plugin loader')],
     technique='lock typestate over all paths including panic exits (path-sensitive dataflow on SSA)',
     note='''Sound for the lock sites found (all sync mutexes in the repository, helpers and closures inlined), under the
     assumption that arithmetic, sync/time/os calls and plain dgo getters do not panic. Deadlock between different locks or
     by re-entrance through user supplied functions is not decided.''',
     design='''Every function that acquires or releases a sync mutex (resolved callee) is explored path by path, every call that is
     not known to be panic free also ends in a panic. Oracle: no lock held at any exit, no double acquire, no release without
     acquire; a mutex stored as placeholder in a sync.Map is replaced or deleted before it is released on every exit; a value
     loaded from a sync.Map is asserted only when the load succeeded.''')

prop('C04', 'The explanation tree is balanced on every path, also when a lookup fails',
     '''Each step that opens an explanation node closes exactly that node when it ends, whether it ends normally or with a
     panic, and runs the explained work while its node is the current one. A new node is always a child of the node that was
     current when it was opened, and closing it makes that parent current again.''',
     ['inputs', 'fault_sequences'],
     '''every lookup, every hierarchy, every point where a data function can fail''',
     '''The explain tests compare a few rendered trees from successful lookups; a missing or double pop on an error path or in
     an unexercised node kind is invisible to them.''',
     ['session/invocation.go', 'explain/explainer.go'],
     [('push/pop around producers', 'implementation of api.Invocation With… methods'), ('node stack', 'implementation of api.Explainer')],
     technique='push/pop typestate over all paths including panic exits (path-sensitive dataflow on SSA)',
     note='''Covers every function outside the explain package that pushes or pops, and every Push/Pop method of the explainer.
     Correctness of the rendering is not decided.''',
     design='''Pushes and pops (calls of api.Explainer methods) are counted on every path of every function that touches them, with all other calls
     able to panic: the balance is zero at each exit, never negative, and the producer is called only between them. Each Push method
     must create a fresh node, set its parent to the previous current node, append it once to that node and make it current; Pop must
     store the parent of the current node.''')

prop('C05', 'Asking for an explanation never changes the outcome of a lookup',
     '''A lookup gives the same result, the same errors and the same interactions with providers, caches and scope whether or not
     an explanation is requested. Each reporting wrapper runs the work it wraps exactly once and returns its result unchanged.''',
     ['inputs', 'configurations'],
     '''all lookups, with each combination of explain settings''',
     '''Tests run explain and non-explain lookups on different samples and never compare the two.''',
     ['session/invocation.go', 'session/resolvedconfig.go', 'explain/explainer.go'],
     [('wrappers and reports', 'implementation of api.Invocation')],
     technique='non-interference: comparison of the path sets with and without an explainer (SSA path analysis)',
     note='''Compares sequences of calls, stores and results syntactically, after removing explainer calls; functions outside
     the session package that never see the explainer cannot depend on it. LookupAndRender, which renders the explanation
     instead of the value by design, is excluded.''',
     design='''For each function whose control flow depends on an explainer value or on ExplainMode the paths are split into those that
     established that there is no explainer and the others. With explainer calls and explainer fields removed, both sets of
     observable event sequences must be equal. Each producer method must call its function parameter exactly once on each path and
     return its result.''')

prop('C02', 'Recursion in lookups is always detected, never unbounded',
     '''A lookup or an interpolation that, directly or through other lookups, scope variables or data functions, needs its own
     result ends with an error instead of recursing without bound. The names that are being looked up are known to every
     nested lookup and are forgotten again on every way out, so a key is never reported as recursive just because an earlier
     lookup of it failed.''',
     ['inputs', 'configurations', 'histories'],
     '''every chain of keys, interpolations and functions that can call each other''',
     '''A test can only try a few cycles; a recursion path that avoids the guard, or a guard that isn't released on errors, shows
     with particular data only.''',
     ['session/invocation.go', 'session/interpolate.go', 'api/key.go'],
     [('guard on active names', 'session.Invocation.WithKey'), ('scope interpolation', 'session.Invocation.InterpolateInScope')],
     technique='call graph cycle analysis with verified recursion guards (call graph and dataflow on SSA)',
     note='''Sound for recursion through the repository's functions and data functions that call back the interpolate and lookup
     methods they get; recursion inside foreign code and recursion over the depth of a value (finite) are out of scope.''',
     design='''Guards are recognised by what they do: on each path that runs the function parameter, the name was checked against the recorded
     names, the same name was recorded before, and each exit drops it. The call graph, with foreign functions allowed to call any lookup or interpolation method, is cut at
     guarded producers; any remaining cycle through a lookup or interpolation that does not descend into elements of a collection is a violation.
     Copies of an invocation must carry the recorded names; code reachable from a lookup must not create an unrelated invocation.''')

prop('C06', 'Changes to an invocation for the duration of some work are always undone',
     '''An operation on an invocation that temporarily changes its state, like running a function with another scope or with redacted
     explanations, leaves all of that state as it found it on every way out, including when the function it runs ends with a
     panic. While such a function runs, the given scope is the one in effect. Only the operation that sets the merge strategy
     and lookup options changes those two for good.''',
     ['fault_sequences', 'histories'],
     '''every nesting of such operations and every point where the function they run can fail''',
     '''Tests run functions that succeed, once; state that leaks after a failure shows in the next operation that uses the same
     invocation.''',
     ['session/invocation.go'],
     [('scope', 'session.Invocation.DoWithScope'), ('redaction', 'session.Invocation.DoRedacted')],
     technique='save/restore typestate of object fields over all paths including panic exits (path-sensitive dataflow on SSA)',
     note='''Covers every function that stores to a field of an invocation that it did not create itself.''',
     design='''Each function that stores to the fields of an existing invocation is explored path by path with calls able to panic; on each exit the
     field must hold its entry value. Exempt are the fields behind LookupOptions and MergeStrategy in the method that sets them.''')

prop('C07', 'A nested lookup does not inherit options, strategy or mode of its caller',
     '''Each lookup, also one made from an interpolation or a data function while another lookup is in progress, reaches the
     top-level lookup function with an invocation that has no lookup options, no merge strategy and is in neither data nor
     lookup-options mode. It works on its own copy, so that it cannot change the strategy or options of the lookup it is nested in,
     and the options it was given are passed on unchanged.''',
     ['inputs', 'histories'],
     '''every nesting of lookups, whatever lookup options apply to the outer keys''',
     '''Needs an outer key with a merge strategy or conversion whose value interpolates another key; the tests only nest
     lookups of plain keys.''',
     ['session/invocation.go'],
     [('nested lookup', 'session.Invocation.Lookup')],
     technique='provenance and field-value analysis of the invocation handed on (path-sensitive dataflow on SSA)',
     note='''Decides what the top-level function receives. What that function does with it is covered by other properties.''',
     design='''At each call of a value of the lookup function type inside Lookup the invocation found in the context argument must be a fresh copy whose
     LookupOptions and MergeStrategy getters give nil and for which both mode predicates are false (evaluated over the tracked fields).
     No other function may obtain the top-level function.''')

prop('C09', 'Values from providers, configuration and options are never modified',
     '''Maps and arrays that come from a data provider, a cache, a configuration, the scope or the caller's options are never
     modified in place by interpolation, merging, digging or rendering; whatever needs to be different is built as a new
     value. Values shared between lookups hence stay what their provider delivered.''',
     ['inputs', 'histories'],
     '''all values, in every sequence of lookups that share them''',
     '''A test that looks a value up once never sees that the cached original was changed by the first lookup.''',
     ['session/interpolate.go', 'merge/deepmerge.go', 'merge/strategy.go', 'internal/datahashprovider.go'],
     [('mutating calls', 'calls of dgo Map and Array mutators')],
     technique='interprocedural freshness (ownership) analysis of receivers of mutators (origin dataflow on SSA)',
     note='''Sound over the calls of the mutating methods of dgo collections in the repository, assuming the dgo constructors
     return new values. Values modified by foreign code (data functions, plugins) are out of scope.''',
     design='''For each call of a mutating method of a dgo collection the origins of the receiver are computed across function boundaries; each must be
     an allocation or a dgo call that returns a fresh collection, made for that purpose.''')

prop('C21', 'Explanations never reveal a value that is converted to Sensitive',
     '''While an operation runs redacted, no found value, merge result or interpolated string reaches the explanation; a placeholder is
     shown in its place. A lookup whose value is to be converted to a Sensitive type, with or without extra conversion
     arguments, runs redacted, and so does everything nested in it.''',
     ['inputs', 'configurations'],
     '''all values, lookup options and explain settings''',
     '''Leaking a secret needs a particular combination of conversion, explain mode and merge strategy; tests check the rendered
     text of one.''',
     ['session/invocation.go'],
     [('redaction', 'session.Invocation.DoRedacted'), ('conversion', 'session.Invocation.LookupAndConvertData')],
     technique='taint analysis of values reaching the explainer under the redaction flag (path-sensitive dataflow on SSA)',
     note='''Decides what the methods of the invocation hand to the explainer. Text that a data function passes to its own
     explain callback is not covered, nor is the rendering of the looked up value itself.''',
     design='''The flag which DoRedacted sets while its function runs is assumed set; then no value parameter of a reporting method may flow to an explainer call.
     LookupAndConvertData may run its function without the flag only on paths that established that the conversion type is absent or
     not assignable to Sensitive. Copies of an invocation must carry the flag.''')

prop('C16', 'No plugin process is left behind or started twice',
     '''A plugin process that was started is either registered with its session or killed and reaped, on every way out of starting
     it, such as a timeout, unusable metadata or a panic; and a session starts at most one process for a plugin, also when several
     lookups need it at once. When the function that uses a session ends, also by a panic, every plugin of that session is asked to
     terminate, killed if it does not, and waited for.''',
     ['schedules', 'fault_sequences'],
     '''every behaviour of the plugin process and every interleaving of lookups that need the same plugin''',
     '''A leaked process needs a plugin that hangs, lies or dies at one particular point; the tests use one well-behaved
     plugin.''',
     ['session/plugin.go', 'session/session.go', 'provider/lookup.go'],
     [('start', 'session.startPlugin'), ('end of session', 'session.KillPlugins')],
     technique='typestate of started processes and sessions over all paths including panic exits (path-sensitive dataflow on SSA)',
     note='''Only the build for this platform is analysed. Processes that a plugin starts itself are out of scope.''',
     design='''Every call that starts a process is followed on all paths: on each exit the process must be in the registry of the session or have been
     killed and waited for, never both; the registry lookup and insertion must be in one critical section. Each function that creates
     a session must run the terminating function on all exits, and that must signal, kill after a timer and wait for each registered
     plugin.''')

prop('C18', 'Waiting for a plugin always ends',
     '''No lookup waits forever for a plugin: waiting for its metadata and for its termination is bounded by a timer, requests to it
     have a timeout, and a goroutine that serves a plugin is never stuck handing over a result that nobody waits for. Each such
     goroutine is counted before it starts and signs off exactly once, and reading the output of a plugin stops at the first error.''',
     ['schedules', 'fault_sequences'],
     '''every behaviour of the plugin process, including silence, garbage and early death''',
     '''A hang needs a plugin that stops at one particular point; such plugins do not exist in the tests.''',
     ['session/plugin.go'],
     [('start', 'session.startPlugin'), ('goroutines', 'go statements in session')],
     technique='blocking-operation analysis: channel buffering, timers and wait-group balance (path-sensitive dataflow on SSA)',
     note='''Relies on the operating system closing the pipes of a process that ended; a grandchild that holds them open is out of
     scope.''',
     design='''Every blocking operation in the functions that deal with processes is enumerated: receives must have a timer alternative or a sender that
     always comes, sends must go to buffered channels, process waits must follow a kill or be in a goroutine of their own, HTTP clients
     must have a positive timeout, and Add/Done of wait groups must balance on all paths.''')

prop('C03', 'REST requests do not influence each other',
     '''What a REST request asks for (key, variables, default, merge, type) influences only its own response. Serving a request
     changes neither the options given on the server's command line nor any other state that a concurrent or later request
     reads, and each request looks up with a scope and an invocation of its own.''',
     ['schedules', 'histories', 'inputs'],
     '''every sequence and every interleaving of requests''',
     '''Requests in the tests run one after another with few variables; a shared backing array or a variable that survives shows
     only with particular sequences or in a race.''',
     ['hieraserver/rest/rest.go', 'hiera/hiera.go', 'hiera/render.go'],
     [('request handler', 'rest.CreateRouter'), ('lookup', 'hiera.LookupAndRender')],
     technique='ownership analysis of everything that is modified while a request is served (interprocedural origin analysis on SSA)',
     note='''Covers the server and the rendering lookup; what the session shares between lookups is judged by other properties. Explicit
     sharing through foreign code (a data function that keeps state) is out of scope.''',
     design='''In all functions of the server and hiera packages that a handler reaches, each store, map update, mutating call, append and pointer
     passed to foreign code must be to something created while the request was handled; appends are judged path by path on the base slice.''')

prop('C25', 'Each REST request is answered once and with the right status',
     '''A lookup request gets exactly one response: 200 with the rendered value as JSON when the value is found, 404 when it is not,
     500 with the message when the lookup fails, and a 4xx status when the path names no key. A failing lookup never leaves a request
     unanswered and never yields a response that is partly a value.''',
     ['inputs', 'fault_sequences'],
     '''all requests and every point at which the lookup can fail''',
     '''The tests cover a handful of requests; they do not let the lookup fail in the middle of rendering or with unusual errors.''',
     ['hieraserver/rest/rest.go'],
     [('request handler', 'rest.CreateRouter')],
     technique='response typestate over all paths of the request handler including panic exits (path-sensitive dataflow on SSA)',
     note='''Failures that are neither an error nor a string are left to the HTTP server, which closes the connection.''',
     design='''Every function with the signature of a HTTP handler is explored with all calls able to panic. Responding calls are counted per path and
     their status and body compared with the outcome of the lookup call on that path.''')

prop('C33', 'Settings of a hierarchy entry take effect, or else those of the defaults',
     '''Each setting of a hierarchy entry (function, options, data directory, plugin directory, plugin file and locations) means what its name says, with its text interpolated; an entry
     that has no function, options, data directory or plugin directory uses that of the `defaults` entry. With neither, the function is the data_hash `yaml_data`, there are no options, and the directories are
     those in HIERA_DATADIR and HIERA_PLUGINDIR or else `data` and `plugin`. Relative directories are relative to the directory of the configuration, all locations are resolved in order below the data directory, and the kind of
     the function selects the kind of provider.''',
     ['inputs', 'configurations'],
     '''all configurations''',
     '''The tests resolve a few entries; the combinations of settings that an entry and the defaults can have are many.''',
     ['config/config.go', 'config/entry.go', 'config/function.go', 'session/resolvedconfig.go'],
     [('read', 'config.createEntry'), ('resolve', 'config.entry.Resolve'), ('provider', 'session.CreateProvider')],
     technique='settings table extraction and provenance of resolved settings over all paths (path-sensitive dataflow on SSA)',
     note='''What a location yields below its data directory is not judged by this rule, nor how a text is interpolated.''',
     design='''The facts about the key on each path of the code that reads a configuration tell which setting is read; it must be stored, with the value of that key, in the field of its getter. All paths that
     resolve an entry are enumerated: the facts tell which settings the entry and the defaults have, and each field of the result must stem from the interpolated setting of the entry, from the defaults, or from what is built in,
     accordingly. Locations must be resolved one after the other below the resolved data directory and all be kept.''')

prop('C34', 'A REST request is answered for the key and options it names',
     '''The key of a lookup request is the rest of its path, and its merge, type, default and var query parameters take effect in that
     lookup: an empty default is a default, and variables of the request are added to and override those of the server's command
     line. Values are rendered as JSON.''',
     ['inputs'],
     '''all combinations of query parameters''',
     '''Tests try a few parameters one at a time, so that an option that is dropped in combination with another goes unnoticed.''',
     ['hieraserver/rest/rest.go'],
     [('request handler', 'rest.CreateRouter')],
     technique='provenance of lookup arguments from request parts (path-sensitive dataflow on SSA)',
     note='''Decides that each parameter arrives at the lookup. How the path is split into the key is left to the route and the pattern.''',
     design='''At each path to the rendering lookup the fields of its options must derive from the query parameter of that name, or the path must have
     established that the parameter is absent (for default: absent, not merely empty).''')

prop('C26', 'The server never falls back to plain HTTP or unverified clients',
     '''When any of the TLS options of the REST server is given it never serves plain HTTP: it serves with the given certificate or
     fails to start. When client verification is asked for, clients without a valid certificate are refused, and a given
     certificate authority is the one clients are verified against; files that can't be used prevent the start.''',
     ['configurations'],
     '''all combinations of the TLS options and all contents of the files they name''',
     '''The tests never start the server; option combinations are not covered.''',
     ['hieraserver/rest/rest.go'],
     [('start', 'rest.startServer'), ('TLS', 'rest.makeTLSconfig')],
     technique='guard analysis of server starts against the option variables (path-sensitive dataflow on SSA)',
     note='''Relies on net/http and crypto/tls to honour the configuration. Options are identified by the name they are registered with.''',
     design='''For each path to a call that starts a server the facts about the variables bound to --ssl-cert, --ssl-key, --ca and --clientCertVerify are
     compared with the kind of start and the values in the TLS configuration at that moment, and each load must have been checked.''')

prop('C08', 'Lookups do not change the loaded configuration',
     '''Resolving a hierarchy for one lookup changes nothing in the configuration it is resolved from: entries, their locations,
     functions, directories and options, and the lists that hold them, stay as they were loaded. Every later lookup therefore resolves its
     own variables and paths from the original configuration.''',
     ['histories', 'schedules', 'inputs'],
     '''all configurations, all scopes, and every order in which lookups use the same configuration''',
     '''A configuration that is changed by its first use gives correct answers until a second lookup has other variables or other files; tests
     use a fresh session for nearly every lookup.''',
     ['config/entry.go', 'config/config.go', 'config/function.go', 'session/resolvedconfig.go'],
     [('entry', 'config.(*entry).Resolve'), ('resolving', 'session.Resolve')],
     technique='ownership of stores to configuration objects and their lists (origin analysis and path-sensitive dataflow on SSA)',
     note='''Lists of values inside options are covered by C09.''',
     design='''Every store to a field of a type that implements Config, Entry, Location or Function must be to an object whose origins all are
     allocations made by the code (parameters are followed to all callers, exported functions are open). Element stores, appends and copies on lists of such
     objects and sorting them in place must be on lists that do not come from a getter, a field or a parameter, on each path.''')

prop('C10', 'Lookups that run concurrently share no unguarded state',
     '''Lookups may run concurrently in a session, and sessions may run concurrently in a process, without disturbing each other: what they
     share is either never changed after it was created or is accessed only with its lock held. What one lookup leaves in a
     shared cache refers to nothing that belongs to that lookup alone, such as its scope, options or explanation.''',
     ['schedules', 'histories'],
     '''all interleavings of lookups and all sequences of lookups in a session''',
     '''The test suite runs no lookups concurrently, and a race detector only sees the schedules that happen.''',
     ['session/session.go', 'session/invocation.go', 'session/pluginloader.go', 'internal/datahashprovider.go', 'provider/modulelookupkey.go'],
     [('hash cache', 'internal.NewDataHashProvider'), ('plugins', 'session.pluginRegistry'), ('modules', 'provider.ModuleLookupKey')],
     technique='lockset and ownership analysis of state shared between lookups (path-sensitive dataflow and origin analysis on SSA)',
     note='''An invocation, its explainer and its providers belong to one lookup and are not guarded; using one invocation from several goroutines is the
     caller's responsibility. Functions and loaders supplied by the user are theirs to guard. Commands (cli, main) run once per process and are only included as far as a server's handlers reach them.''',
     design='''No function outside package initialization may store to or modify a package variable. A field stored to outside of construction must
     be in an object private to a lookup or be guarded by a lock in the same object; each access to a guarded field must have that lock (exclusively for changes) in the lockset of every path.
     Arguments of Store/LoadOrStore on concurrent maps and of Cache are followed through closures, bindings and conversions and must hold no per-lookup object.''')

prop('C12', 'A typed lookup consults its sources in order and converts',
     '''A lookup of one or several names takes its value from the first of these sources that has one: the override values, a normal lookup, the
     default values hash, the default value, and last the default function; no source is consulted unless all before it had
     nothing for any of the names. A value that is returned is an instance of the requested type, converted to it when it is not,
     and nothing is returned only when no source has a value.''',
     ['inputs'],
     '''all combinations of names, sources that have a value or not, and types''',
     '''The sources form dozens of combinations, of which the tests use a few; an empty or false value from an early source
     being skipped shows only in particular ones.''',
     ['hiera/hiera.go'],
     [('single name', 'hiera.Lookup2'), ('lookup', 'hiera.Lookup')],
     technique='source-order typestate over all paths of the exported lookup functions (path-sensitive dataflow on SSA)',
     note='''What a conversion makes of a value is left to the type system.''',
     design='''All paths of the exported functions that look up by name are enumerated, each loop up to its second iteration. For each
     consultation of a source, the facts must say that the results of the ones before it are nil for all names, each returned value must be the last one consulted,
     known to be there, and be tested for or converted to the type; nil only when all are exhausted.''')

prop('C11', 'Values found at a higher level win when levels are merged',
     '''The first strategy yields the first value that is found and consults no further levels or locations. The unique, hash and deep
     strategies consult all of them from the top, and where two values can't both be kept, the one found first is kept: hash and deep for
     equal keys, unique for order and duplicates. No key that only one of two merged hashes has is lost, and no strategy changes
     the result when just one level has a value, apart from unique which flattens it and removes duplicates.''',
     ['inputs'],
     '''all numbers of levels and locations and all values found in them''',
     '''Tests merge two or three levels of small hashes; mistakes in precedence or in nested levels need particular shapes and
     positions of values.''',
     ['merge/strategy.go', 'merge/deepmerge.go'],
     [('strategies', 'merge.GetStrategy'), ('deep merge', 'merge.Deep')],
     technique='precedence analysis of merge operands over all paths (path-sensitive dataflow on SSA)',
     note='''Relies on the contracts of Map.Merge, Array.WithAll, Flatten and Unique in dgo.''',
     design='''In each strategy the index of each value fetched must start at zero and increase by one, and the loop must continue to the end unless the
     strategy is first, which must stop at the first value known not to be nil. The value merged so far must be the winning operand of the call that combines it
     with the next, also in the value carried round the loop. Every path through the deep merge of an entry must keep it, with the winning value.''')

prop('C37', 'The merge strategy is the one that was asked for',
     '''A lookup uses the merge strategy of its own merge option when it has one, otherwise the one that lookup_options give for the first segment
     of its key, and otherwise the first strategy; the options given with a strategy come along. The levels and the locations of each
     level are merged using that strategy, and the value is converted in accordance with the same lookup options. Lookup options of a module only apply to names that
     start with the name of the module, and lookup_options found at several levels are themselves merged deeply.''',
     ['inputs'],
     '''all merge options, lookup options and keys''',
     '''Combinations of an explicit option, lookup options and modules are hardly tested; a strategy taken from the wrong place
     gives the right answer whenever just one level has a value.''',
     ['session/invocation.go', 'session/resolvedconfig.go', 'provider/configlookupkey.go', 'provider/muxlookupkey.go'],
     [('strategy', 'session.SetMergeStrategy'), ('options', 'session.LookupOptions'), ('lookup', 'provider.ConfigLookupKeyAt')],
     technique='provenance of merge strategies over all paths (path-sensitive dataflow on SSA)',
     note='''What the strategies do with the values is judged by C11. Top level providers supplied by the user are out of scope.''',
     design='''All paths of the function that selects a strategy must end with one whose name and options stem from the explicit option, else from the merge
     entry of the lookup options, else first. Each provider that selects a strategy must do so with the merge option of its context and the lookup options
     of the key, before it merges the levels with it; all merges of levels and locations must use the strategy of the invocation or the one they were given.''')

prop('C13', 'Configuration is resolved without looking up values',
     '''Expressions in the hierarchy configuration (options, data directories, paths, globs, URIs, mapped paths and the like) are resolved from the
     scope only: resolving them never performs a lookup of a value, also not through expressions in the values of variables. An
     expression that uses a method is reported as an error there, so that finding the locations of a level can't depend on the data in them.''',
     ['inputs'],
     '''all configurations and all values of the variables used in them''',
     '''The tests resolve configurations that have plain variables in a few places; a place where methods are let through shows only when
     a configuration uses one there.''',
     ['session/interpolate.go', 'config/entry.go', 'config/location.go', 'session/resolvedconfig.go', 'config/config.go'],
     [('interpolation', 'session.Invocation.InterpolateString'), ('hierarchy entries', 'config.Entry.Resolve'), ('locations', 'config location functions')],
     technique='permission flow: the constant that permits methods is tracked through all interpolation calls (interprocedural dataflow on SSA)',
     note='''Functions and loaders supplied by the user may look up values when they are called; calling them is not part of resolving.''',
     design='''Every call of the interpolation functions in code reached when a configuration is resolved must be given false, or the flag it was
     given itself, for the permission to use methods. On all paths of the functions that interpolate, a lookup may only be reached when the flag is known to be true,
     and nested calls must pass on the flag unchanged.''')

prop('C14', 'Interpolation yields what its method is defined to yield',
     '''A variable expression yields the value of that variable, interpolated and dug into, or else the empty text; lookup and hiera yield the
     found value as text, literal yields its own text, and alias and strict_alias yield the value itself and are only accepted when they are all of the
     string. Unknown methods are errors, the empty expressions are removed, and the values and keys of hashes and the elements of lists are
     interpolated too. Text outside of expressions, and a value without any, comes out unchanged.''',
     ['inputs'],
     '''all values, all expressions in them and all scopes''',
     '''The tests interpolate a few strings; nested values, several expressions in one string and missing values have many combinations.''',
     ['session/interpolate.go'],
     [('strings', 'session.Invocation.InterpolateString'), ('values', 'session.Invocation.Interpolate')],
     technique='method table extraction from the facts on all paths, language equivalence of the expression patterns (automata)',
     note='''One finding is known: what a data_hash function found is interpolated twice. What a lookup finds for an expression is judged by other properties.''',
     design='''The patterns that find expressions and their methods are compared with the defined ones by comparing the automata of their languages. On all paths of
     the functions that interpolate, the facts tell the method; the text that replaces the expression must then be the one in the method table. Each element, key and value of a
     container must be interpolated, kept in place, and a new container be returned when one of them changed. A value must be interpolated once on its way to the caller.''')

prop('C24', 'Each level is asked for what the key names, at its own locations',
     '''The function of a level is called with the options of the level plus the path of the location, and with the first segment of the key, or all
     segments for data_dig; a segment is never parsed as a key again. Every location that exists is consulted and one that doesn't is
     reported and never read; data of one location is never used for another. Each consultation returns what the function found and reports exactly once that it was found
     or not, and the names yaml_data, json_data, environment and scope always select the built in functions.''',
     ['inputs', 'histories'],
     '''all keys, hierarchies and locations, and all lookups made before in the same session''',
     '''The tests have few levels with more than one location, and few keys with special characters.''',
     ['internal/datahashprovider.go', 'internal/lookupkeyprovider.go', 'internal/datadigprovider.go', 'session/invocation.go', 'api/key.go'],
     [('data_hash', 'internal.NewDataHashProvider'), ('lookup_key', 'internal.NewLookupKeyProvider'), ('data_dig', 'internal.NewDataDigProvider'), ('locations', 'session.Invocation.MergeLocations')],
     technique='provenance and report typestate over all paths of data providers (path-sensitive dataflow on SSA), taint of segment names',
     note='''What the built in and the loaded functions return for their arguments is not judged here. When several locations are merged, the order and the
     number that are consulted is judged by C11.''',
     design='''On all paths of each data provider, the arguments of the provider function must stem from the level, the location and the key; the hashes that are kept must
     be stored and found by the path they were obtained for; exactly one report must agree with the value returned. Where levels are consulted, a location must be known to
     exist before it is used. The table of built in functions is extracted from the facts about the name on each path.''')

prop('C35', 'The key lookup_options is reserved',
     '''A lookup of a key whose first segment is lookup_options never finds a value, no matter if it has more segments, is quoted, is one of several names or is
     used in an expression. Nothing is asked for it and it is reported as an invalid key.''',
     ['inputs'],
     '''all keys and all ways to start a lookup''',
     '''A test looks up the plain name; keys with more segments and other entries to the lookup are not covered.''',
     ['session/invocation.go'],
     [('lookup', 'session.Invocation.Lookup')],
     technique='guard analysis of provider calls (path-sensitive dataflow on SSA, call graph)',
     note='''Functions supplied by the user can be given any key by other code of the user.''',
     design='''On all paths of lookups the top provider may only be called when the first segment of the key is known to be another; else nothing must be returned and the key be
     reported as invalid. All uses of the top provider in the repository must be in there.''')

prop('C36', 'A key digs into the value of its first segment, one segment at a time',
     '''The value of a lookup is what the segments after the first one find, one after the other, in the value of the first: an index that is in range finds the
     element of a list, and a segment finds the entry with that very key of a hash. Anything else, such as an index that is negative or too large, a name in a list, or a
     value that is neither, finds nothing and never fails. A key with one segment finds the value itself, and each segment is reported as found or not. Burying a value is the opposite: it yields
     the hashes in which the segments find it.''',
     ['inputs'],
     '''all keys and values''',
     '''The tests dig a few times in small values; the combinations of segments and containers, and boundaries of indexes, are many.''',
     ['api/key.go', 'session/invocation.go'],
     [('dig', 'api.Key.Dig'), ('bury', 'api.Key.Bury'), ('lookup', 'session.Invocation.Lookup')],
     technique='step typestate over all paths of digging and burying (path-sensitive dataflow on SSA)',
     note='''How the text of a key is split into segments is not judged. Segments are indexes (int) or names (string).''',
     design='''All paths of the methods that dig are enumerated, the loop up to its second iteration. The index of the segment must start at one and increase by one; the facts must tell that
     the container is a list and the index in range, or that it is a hash and the key is made of the segment, where an element is fetched, and that there is none where nothing is found. Each step reports
     exactly once. Each hash made by burying must have one entry, with the key made of the segment, counting down to the second.''')

prop('C38', 'A location yields its interpolated path, matches or elements, in order',
     '''A path yields its interpolated text below the data directory, and exists when that file does; a URI yields its interpolated text. A glob yields the files that match the interpolated pattern
     below the data directory, sorted, and a mapped path yields one path for each element of the array (or for the string) that its variable holds, in order, interpolated with the element as the value of the given name
     while all other variables keep their value; it yields none if the variable holds anything else.''',
     ['inputs', 'configurations'],
     '''all locations, scopes and directories''',
     '''The tests use a few files and patterns; the order in which a directory is read, names that shadow variables and missing files vary.''',
     ['config/path.go', 'config/glob.go', 'config/uri.go', 'config/mappedpaths.go'],
     [('path', 'config.path.Resolve'), ('glob', 'config.glob.Resolve'), ('mapped', 'config.mappedPaths.Resolve'), ('scope', 'config.scopeWithVar.Get')],
     technique='provenance of resolved locations over all paths (path-sensitive dataflow on SSA)',
     note='''Which files match a pattern is up to the doublestar module. A pattern that is malformed matches nothing.''',
     design='''The constructors tell which field holds which argument. On each path of a Resolve method each location made must hold the interpolated text joined to the data directory, and exist
     according to os.Stat of that very path. For a glob, all matches must be sorted before the first use, and be used one after the other; for a mapped path, each element is followed from the value of the variable into the
     scope, whose Get method must find it for the name and ask the scope below for all else, and the text must be interpolated inside of it. All locations must be kept in order.''')

prop('C31', 'The outcome of a lookup is the same every time',
     '''What a lookup finds, the order of it, and how it is explained depend on nothing but the configuration, the data, the scope and the arguments. In particular the outcome doesn't depend on the order in which Go iterates
     a map or in which files happen to be stored in a directory, nor on the time, random numbers or the process.''',
     ['histories', 'inputs'],
     '''all runs with the same configuration, data, scope and arguments''',
     '''A test that runs a few times on one machine sees one order of the files and, for small maps, often one order of the entries.''',
     ['config/glob.go', 'provider/modulelookupkey.go', 'session/pluginloader.go', 'yaml2json/main.go'],
     [('maps', 'range over Go maps in all packages'), ('listing', 'provider.loadModule'), ('glob', 'config.glob.Resolve')],
     technique='order-independence analysis of iterations over Go maps and directories, and flow of time and random values (dataflow on SSA)',
     note='''Maps of the dgo module keep the order of insertion. What data functions and plugins do, and the order in which requests are scheduled, are out of scope.''',
     design='''Every iteration over a Go map is found on SSA. What outlives it must be stored under the key of the entry or be sorted before it is used, and what ends it early must be constant; functions that are called are
     included. Every listing of a directory that the library gives in the order of the disk must be sorted before its first use. Values of clocks and random generators are followed; none may be stored, returned or decide a branch
     in the packages that make up a lookup.''')

prop('C40', 'What is asked for on the command line takes effect',
     '''Each flag of the lookup command sets the option that it names, and a lookup is made with the type, default, merge strategy, variables, files, facts, configuration, dialect and log level asked for. The explanation is rendered
     when one is asked for, otherwise the value if there is one, each in the format asked for. The program tells that the command failed by its exit code and with a message, and standard output holds nothing but the result.''',
     ['inputs', 'configurations'],
     '''all combinations of flags, files and keys''',
     '''There are thousands of combinations of the thirteen flags, and the tests use a few dozen.''',
     ['cli/hiera.go', 'hiera/hiera.go', 'hiera/render.go', 'lookup/lookup.go'],
     [('flags', 'cli.NewCommand'), ('command', 'cli.cmdLookup'), ('lookup', 'hiera.LookupAndRender'), ('scope', 'hiera.createScope'), ('render', 'hiera.Render')],
     technique='flag table extraction and provenance of the arguments of a lookup over all paths (path-sensitive dataflow on SSA)',
     note='''How flags are parsed is up to cobra, and what a value looks like in a format is up to the dgo and yaml modules. The merge strategy `first` can not be told from the default.''',
     design='''The calls that bind flags give a table that is compared with the options. From the options, all paths of the function that makes the lookup are followed: the facts about the options
     tell what each argument of the lookup, the explainer, the scope and the format must be. In the function that makes the scope each variable and file that is used must end up in the resulting map, all must be used, and no error may be ignored.
     The exit code of the programs is followed from the result of Execute.''')

prop('C15', 'A configuration is used only when it is valid; all valid ones are accepted',
     '''A configuration file that can not be read or parsed, that has other than the documented keys and types of values, or in which an entry has locations of two kinds, two functions, reserved options or the name of another entry,
     is rejected before anything is looked up. The built in configuration is used when there is no file, and its hierarchy and defaults when the file has none. Everything that is documented as valid is accepted.''',
     ['inputs', 'configurations'],
     '''all configuration files''',
     '''The tests load some ten configurations; how keys combine, and errors other than a missing file, are not tested.''',
     ['config/config.go', 'config/entry.go'],
     [('load', 'config.New'), ('type', 'config.cfgType'), ('hierarchy', 'config.hieraCfg.createHierarchy'), ('entry', 'config.hieraCfg.createEntry')],
     technique='path-sensitive dataflow on SSA, and comparison of the parsed text of the configuration type with the documented one',
     note='''How a type accepts values is up to the dgo module. For two locations and two functions, entries with two keys that follow each other are analysed.''',
     design='''On each path of the load function, the facts about the errors of reading and parsing, and about the instance test, must hold before any use; what is stored in the fields of the result must be made of the value of its key, or be
     built in when the key isn't there. The texts given to ParseType are parsed, aliases are replaced, and the keys, required flags and types are compared with a table. Code that reads an entry is run for 0, 1 and 2 keys: on no returning path may
     both keys be locations, or both functions; no option may be accepted while the facts leave it open if it is reserved. Each entry that is made must be preceded by the fact that its name isn't in a set that it is then added to.''')

prop('C20', 'A failure is never mistaken for success or for an absent value',
     '''An error from the operating system, the network, a plugin, or the parser of a file always ends what is being done with an error: it is not ignored, and it doesn't become an empty or absent value. Only a file or directory that
     doesn't exist may count as absent. A panic that is recovered leads to an error or to another panic.''',
     ['inputs', 'fault_sequences'],
     '''all calls that can fail, and all errors they can return''',
     '''Tests seldom make reads, plugins or the network fail, and each call fails in its own ways.''',
     ['provider/yamldata.go', 'provider/jsondata.go', 'provider/modulelookupkey.go', 'session/pluginloader.go', 'config/config.go', 'hiera/hiera.go', 'hieraserver/rest/rest.go'],
     [('files', 'provider.YamlData'), ('modules', 'provider.loadModule'), ('plugins', 'session.plugin.callPlugin'), ('recover', 'hieraserver/rest')],
     technique='error flow over all paths (path-sensitive dataflow on SSA)',
     note='''Some errors may be ignored, by callee: ending a process that has ended, closing what has been read, writing to a client that is gone, and a malformed glob pattern (which matches nothing). os.Stat tells whether a location
     exists, for any reason. Files that are compiled on Windows only are not analysed.''',
     design='''For each call with an error as its last result, all paths of the function are followed. A path that ends normally must know that the error is nil, or return, send or pass it on; one that knows that the error isn't nil
     must return another error, exit, or know that the error says that a file doesn't exist. Functions that defer one that recovers are followed with a panic at every call: what is recovered must be used or the panic go on.''')

prop('C39', 'Built-in sources yield what they hold, unchanged',
     '''The built-in yaml_data and json_data functions yield the map in the file at their path, an empty map when there is no such file, and an error for anything else. The key env yields all environment variables and env::<name> the
     value of one, also an empty one; the scope yields the variable that a key names. Lookup functions that are used outside of a session don't fail.''',
     ['inputs', 'configurations', 'fault_sequences'],
     '''all keys, files and environments''',
     '''Names, values, files and errors are unbounded; the tests use two variables and a handful of well-formed files.''',
     ['provider/yamldata.go', 'provider/jsondata.go', 'provider/yamllookupkey.go', 'provider/environment.go', 'provider/scopelookupkey.go'],
     [('yaml', 'provider.YamlData'), ('json', 'provider.JSONData'), ('environment', 'provider.Environment'), ('scope', 'provider.ScopeLookupKey'), ('file', 'provider.YamlLookupKey')],
     technique='provenance of the values that built-in functions return, over all paths (path-sensitive dataflow on SSA)',
     note='''What the parsers for YAML and JSON make of the content of a file is up to the dgo modules.''',
     design='''Each exported function of the provider package with the signature of a data function is followed on all paths. The value returned must be the parsed content of the one file that is read, the path of which is the option; the
     facts on the path about the errors and the type of the content must agree with the outcome. Each variable of the environment must be entered under what precedes its first equal sign with what follows it, unless it is
     known to have none, and no element may be skipped. The value of one variable must be returned exactly when it is known to be set.''')

prop('C28', 'A key of a module is looked up in the first such module on the module path',
     '''A key that starts with a name and :: is looked up in the module with that name, in any case: the first directory on the module path, in order, with a directory by that name that has a hiera.yaml. The lookup uses that file, under the
     lowercase name of the module, and the module found is remembered. When there is none that is reported and nothing is found; an unreadable directory is an error.''',
     ['inputs', 'configurations', 'histories'],
     '''all keys, module paths and directories, and all orders of lookups in several modules''',
     '''The tests use one module path with a few modules. Which modules were looked up before, and what other directories there are, must not matter.''',
     ['provider/modulelookupkey.go', 'provider/configlookupkey.go'],
     [('lookup', 'provider.ModuleLookupKey'), ('search', 'provider.loadModule'), ('configuration', 'provider.ConfigLookupKeyAt')],
     technique='provenance of module names, directories and cached functions over all paths (path-sensitive dataflow on SSA)',
     note='''Module directories that are symbolic links are not found, as before.''',
     design='''All paths of the module lookup function, with the search inlined. The name must be the lowercase text before the first ::, and the cache key must contain it. The directories read must be successive elements of the module
     path from the first; each is either unusable for a reason that the facts on the path tell, or exhausted, or has the module, in which case it's the last one. The function made for it must hold exactly the name and the path of the file that
     was tested, and look up the unchanged key with them.''')

prop('C17', 'A plugin is asked for what its functions are named, and answers for them',
     '''A plugin is started with the cookie, transport and socket directory that apply, and is used only if its description is complete and of the supported version. Each of its functions is offered under its own name; calling it sends the key
     and the options of the level to that function of that plugin, by its kind, and yields the value answered, nothing when the plugin answers that there is none, and an error for any other answer. No connection is left open.''',
     ['inputs', 'configurations', 'fault_sequences'],
     '''all descriptions of plugins, keys, options, transports, answers and statuses''',
     '''The tests have one well-behaved plugin. What plugins, options, statuses and transports there may be is unbounded.''',
     ['session/pluginloader.go', 'session/plugintransport.go'],
     [('start', 'session.initCmd'), ('describe', 'session.plugin.initialize'), ('offer', 'session.plugin.functionMap'), ('call', 'session.plugin.callPlugin')],
     technique='provenance of what is exchanged with a plugin, over all paths (path-sensitive dataflow on SSA), with the constants of the plugin SDK',
     note='''The other side of the protocol is implemented by the SDK, which is not part of this repository. The names of functions are assumed not to need escaping in a URL.''',
     design='''The final content of the environment of the command is compared with the facts about the options on each path. Code that reads the four keys of a description is followed: what is stored must come from its own key, with the facts that its type and
     the version are right. In each function that calls a plugin the URL is taken apart into constants and values, the query must be made of exactly the key and the options (in JSON where the protocol has it), and status and result must agree. Where the functions are
     offered, the facts about the kind, the captured name and the name it is stored under must agree. What dials must use the fields that hold network and address.''')

prop('C22', 'The context of a lookup function serves its invocation and caches faithfully',
     '''The context that a lookup function gets interpolates, explains and looks up within the invocation it was created for, with the options of the hierarchy entry. A value that a function caches under a name is from then on the value for
     that name for all lookup functions of the session, and for no other session; the value it replaces is returned. CachedValue, CachedEntries and CacheAll yield and store each value under its own name.''',
     ['histories', 'inputs'],
     '''all sequences of caching operations by all functions of a session, all names and values''',
     '''What a function gets depends on what was cached before by any other; the tests cache one value in one function.''',
     ['session/serverctx.go', 'session/session.go', 'session/invocation.go'],
     [('context', 'implementation of api.ServerContext'), ('caches', 'session.New')],
     technique='provenance of what a context stores, returns and forwards, over all paths (path-sensitive dataflow on SSA)',
     note='''Relies on sync.Map. The value that Cache returns is the one held when it was called; two functions that replace a value at the same time may both get the same old value. ForData and ForLookupOptions are covered by C37.''',
     design='''All paths of each method of the types that implement api.ServerContext. Whatever is stored must be the argument under the name given, on each path, in the cache that the session returns as TopProviderCache; the result must be what that
     cache held, by the fact on the path that tells whether it held anything. Range and EachEntry are executed for no, one and two entries. In the functions that create sessions the values behind SharedCache and TopProviderCache must be two
     objects that the same path allocated.''')

prop('C23', 'A session has the configuration, scope, dialect and functions it was given',
     '''A session uses the configuration at the location given, or else the file named by the options for root directory and file name, the environment variable HIERA_CONFIGFILE, and the defaults, in this order. Its options are
     all of those given, its scope a frozen copy of the one given, its dialect, functions and top function those given or else the defaults; later changes to what was passed have no effect. Variables of an invocation hide those of the session,
     which remain visible otherwise, and an unknown dialect is refused.''',
     ['configurations', 'inputs'],
     '''all combinations of session options, environment and invocation variables''',
     '''The combinations of options, environment and working directory are not enumerated by the tests, which use three or four of them.''',
     ['session/session.go', 'session/invocation.go'],
     [('creation', 'session.New'), ('invocation', 'implementation of api.Session.Invocation'), ('functions', 'implementation of api.Session.LoadFunction')],
     technique='provenance of the parts of a session from its options, over all paths (path-sensitive dataflow on SSA)',
     note='''The copies and the freezing are made by dgo. What the getters return is matched with what the constructor stores by field and key.''',
     design='''The getters of each type that implements api.Session itself are reduced to the place (field, or key of a map in a field) they read. On all paths of the functions that create one, what is stored at these places is compared with what
     the facts of the path about the options imply: location, dialect, scope, top function, loader. A put to the options is allowed for the location alone, after those given were added and before the freeze; a session may only be refused for an
     unknown dialect or working directory.''')

prop('C19', "A hierarchy entry's function is the registered one, or that of its plugin",
     '''The function an entry of the hierarchy names is the one registered with the session under that name; only if there is none, it is the function with that name of the plugin at the entry's plugin file, or at the function's name if none is given,
     below the entry's plugin directory unless the file is absolute. The plugin that is started is the one at exactly that path. If neither has a function of that name, none is found.''',
     ['inputs', 'configurations'],
     '''all entries, registered functions, plugin files and plugin directories''',
     '''The tests register a few functions and start one plugin; which function is found for combinations of names, plugin files, directories and registrations is not settled by them.''',
     ['session/session.go'],
     [('load', 'implementation of api.Session.LoadFunction'), ('namespaces', 'creator of the namespaces of the session loader'), ('finder', 'finder of the plugin namespace')],
     technique='provenance of loaded functions, namespaces and plugin paths over all paths (path-sensitive dataflow on SSA)',
     note='''How dgo's loader delegates to parents, caches and asks its finders is taken from its documentation.''',
     design='''On all paths of LoadFunction, the result is compared with what the facts about the lookup of the registered function and the entry's plugin file imply. The namespaces created by the session loader are followed from the call that creates
     the loader: the function namespace holds the functions of the options, the plugin namespace creates a child per part of the path and asks a finder that strips the namespaces' own names and starts the plugin at the rest, with the session's registry and options.''')

prop('C27', 'A value is converted to the type its lookup options name, and only then',
     '''A value whose lookup options have convert_to is a new instance of the type named there, or named by the first element if it is an array, made from the value and the other elements of the array as arguments. Without a type, or without
     a value, the lookup yields what was found, unchanged. The options consulted are those of the key that is looked up.''',
     ['inputs', 'configurations'],
     '''all values and all convert_to options''',
     '''The tests convert a few values with one or two forms of the option; that an array with any number of arguments, an absent value or absent options is treated right is not settled by them.''',
     ['session/invocation.go'],
     [('conversion', 'implementation of api.Invocation.LookupAndConvertData'), ('options', 'implementation of api.Invocation.SetMergeStrategy')],
     technique='provenance of the converted value, its type and arguments over all paths (path-sensitive dataflow on SSA)',
     note='''What a type makes from a value and its arguments is decided by dgo.''',
     design='''All paths of LookupAndConvertData are enumerated with its helpers inlined and the callbacks run once. The facts of a path about the option (absent, array, number of elements) and the value (nil) imply what the result must be: the value itself, or
     vf.New of the type parsed from the right element and the value, followed by the rest of the array if there is one. SetMergeStrategy must leave the options it was given on all of its paths.''')

prop('C29', 'Explanations and locations show and keep all that they were told',
     '''Each key, value, text and event that a lookup reports is kept where it was reported, told apart from the others, and shown when the explanation is presented, with all nodes below it. An explanation, location or merge strategy that is
     turned into data and created again from it is the same as before.''',
     ['inputs', 'histories'],
     '''all reports in any order, all nodes, all explanations, locations and strategies''',
     '''The tests compare three printed explanations; events, nodes and fields that do not occur in them, such as keys found in data that was never printed, are not settled by them, and nothing tests the way through data.''',
     ['explain/explainer.go', 'session/invocation.go', 'config/path.go', 'config/mappedpaths.go'],
     [('explainer', 'implementation of api.Explainer'), ('reports', 'Report and With methods of api.Invocation'), ('named types', 'calls of tf.NewNamed')],
     technique='symmetry of constructors and extractors, provenance of the parts of an explanation over all paths (path-sensitive dataflow on SSA)',
     note='''How dgo prints what is appended, and how it encodes the data, is taken from dgo. The wording and indentation of a presented explanation are not part of the property.''',
     design='''For each call of tf.NewNamed, all paths of the extractor give the relation of data keys and fields, all paths of the constructor the relation of fields and data keys, and both must agree and cover all fields; a key may be left out only where the facts
     say that the field is empty. Each Accept and Push method of the explainer must store all of its parameters in the current node or a new branch of it and an event of its own; each Report and With method must forward its parameters to the method of
     the same name; each AppendTo must append, for each event its path knows of, the key and value of that event, every branch and every text.''')

prop('C30', 'A key keeps its text and segments; equal values have equal hash codes',
     '''A segment of a key is an index only if it is an unquoted decimal number and not the first one; keys with an unquoted empty segment or a quote that is not closed are refused. The source of a key is the text it was made from, its root the first
     segment. Two keys, locations or explanations are equal only if they are the same in all respects, and then have the same hash code.''',
     ['inputs'],
     '''all texts of keys, all keys, locations and explanations''',
     '''The tests parse some twenty keys; quoted numbers, empty segments and unclosed quotes in other positions, and the hash codes of equal values, are not settled by them.''',
     ['api/key.go', 'config/path.go', 'config/uri.go', 'config/mappedpaths.go', 'config/glob.go'],
     [('parser', 'api.NewKey'), ('equality', 'Equals and HashCode of implementations of dgo.Value')],
     technique='typestate of key segments, field dependence of equality and hash codes (path-sensitive dataflow on SSA)',
     note='''Which characters end up in which segment is not decided: that needs an argument about the contents of strings. Keys are equal when their sources are: their segments follow from it.''',
     design='''All paths of api.NewKey and the functions that return segments are enumerated with their helpers inlined. At each append of a segment, the facts of the path must say that it parses as a number in base 10, that others precede it and that no quote was
     closed since the last one (index), or that one was, or that it is neither a number nor empty (name). A path that returns with a quote that was opened and not closed is a violation. For each type with Equals and HashCode, the set of fields compared on every path
     that can yield true must contain all fields, and those that the hash code reads.''')

prop('C32', 'yaml2json converts a document completely or fails',
     '''yaml2json writes the JSON encoding of the complete document it reads, with all collections at any depth converted and the keys of all maps as texts, and ends normally only if reading, decoding, encoding and writing succeeded. Otherwise it ends
     with a failure.''',
     ['inputs', 'fault_sequences'],
     '''all documents and all failures to read, decode, encode or write''',
     '''The program has no tests; documents with maps whose keys are not texts, nested in each kind of collection, and failures to read or write, are not settled by any.''',
     ['yaml2json/main.go'],
     [('conversion', 'main of yaml2json and its recursive conversion')],
     technique='provenance of the output, handling of errors on all paths, exhaustiveness of the conversion (path-sensitive dataflow on SSA)',
     note='''The collections that the YAML decoder yields (maps with keys of any type, maps with text keys, lists) and which values the JSON encoder accepts are taken from their documentation.''',
     design='''All paths of main are enumerated with the conversion left opaque: what is written must be the encoding of the conversion of the document decoded from standard input, no call on the path to a normal end may have failed or been left unchecked, and every
     other path must end with a failure status. On all paths of the conversion, each kind of collection must have a case that keeps the conversion of each element under the text of its key, or at its index, in the collection that is returned.''')

prop('C41', 'The REST server is started with what its command line asks for',
     '''Each flag of the server sets an option of its own. The server listens at --addr and --port and answers requests with a session whose configuration is the one that --config names, at the log level of --loglevel. If it can't be started, the program
     fails.''',
     ['configurations', 'fault_sequences'],
     '''all combinations of flags, on all paths from the command to the server''',
     '''The tests call the handler that the server would use; no test starts the server, so that what its flags do is not settled by any.''',
     ['hieraserver/rest/rest.go'],
     [('command', 'cobra command of the server'), ('start', 'net/http.Server.ListenAndServe and its relatives')],
     technique='flag table extraction and provenance of the address, handler and session (path-sensitive dataflow on SSA)',
     note='''What cobra and net/http do with flags and addresses is taken from their documentation. TLS is the subject of C26, what requests are given that of C34.''',
     design='''The calls that declare flags yield the variable that each flag sets; no two may be the same, and the defaults must be the documented ones. All paths from the function that the command runs to a call that starts to serve are enumerated, the consumer of the
     session inlined. The address of the server at that point must be made of the values of --addr and --port, its handler must have been made from the session the consumer was given, the options of that session must contain the value of --config and the configured lookup
     first, and the log level must be the parsed one, without an error. A path that ends without having served must end with a failure.''')

prop('C42', 'What is cached for one purpose is never taken for something else',
     '''No two kinds of things that are kept in the same cache, such as configurations, their locks, module functions and data of files, can have the same key, whatever the names and paths that are part of the keys. What a lookup finds in a cache was kept
     there under the same kind of key, and is made of the name that the key holds.''',
     ['inputs', 'histories'],
     '''all names, paths and keys that become part of the key of a cache, in all orders of use''',
     '''The tests use a cache with one kind of key at a time; a name or path that makes two keys the same is in none of them.''',
     ['session/invocation.go', 'session/serverctx.go', 'provider/modulelookupkey.go', 'provider/yamllookupkey.go'],
     [('caches', 'sync.Map operations on the session cache and top provider cache'), ('context cache', 'api.ServerContext Cache and CachedValue')],
     technique='disjointness of the key spaces of each cache, agreement of what is kept and looked up (path-sensitive dataflow on SSA)',
     note='''Keys that a plugin or a provider outside of this repository chooses are not known, and neither are those that users of the exported variable YamlDataKey set.''',
     design='''Every operation on a shared cache is found, with the text of its key on all paths: constant parts, and unknown parts. Operations whose key is chosen by the caller are examined in the caller. Of all texts that are used with the same cache, no two may be
     able to be equal: one of the two must have a constant prefix or suffix that the other can't have. What is kept under a key with a name in it must be made of that name, what is looked up and then kept must have the same name, and each kind of key must
     both be kept and looked up.''')
