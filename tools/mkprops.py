"""Writes ../properties.jsonl (kept as a script so that a statement is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, **kw):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': dict({'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}, **kw)})
ALL = ['src/lib.rs', 'src/resolve.rs', 'src/plugin', 'src/description.rs', 'src/map.rs', 'src/fs.rs', 'src/kind.rs', 'src/parse.rs', 'src/normalize.rs', 'src/tsconfig.rs', 'src/tsconfig_path.rs', 'src/utils.rs', 'src/options.rs', 'src/cache.rs']

p('C01', 'Resolving only reads',
  'Resolving a request or reading side effects never writes, creates, renames or deletes a file, starts a process or thread, opens a network connection, changes the environment or working directory, or prints. Its only effects outside the memory of the resolver are queries about paths and reads of file contents.',
  ['inputs', 'configurations'], 'every call of the public API, on every file tree and with every option',
  'the tests look at returned values; an effect on a path no test takes, or one that leaves the answer unchanged, is invisible to them',
  ALL, [('all file system access', 'src/fs.rs, src/tsconfig.rs, src/description.rs, src/resolve.rs and the plugins, through std::fs and std::path')])
p('C02', 'The answer depends on nothing hidden',
  'An answer is determined by the directory, the request, the options, the cached entries and the file system alone: it does not depend on the clock, the environment, the process, thread or memory addresses, randomness, or state kept in globals. In particular it never depends on the iteration order of a hash map or hash set, such as the path mappings of a tsconfig or the condition names.',
  ['inputs', 'histories', 'configurations'], 'every request, repeated in any process and at any time on the same file tree',
  'hash orders and clocks differ from one process to the next; a test run sees one of them and can pass by luck',
  ALL, [('sorting of tsconfig paths', 'src/tsconfig_path.rs: _resolve_with_tsconfig'), ('ordered maps', 'src/map.rs, src/description.rs: IndexMap')])
p('C03', 'No input makes the resolver panic',
  'No directory, request, option value, package.json or tsconfig content makes a call of the public API panic: there is no reachable failing index, slice, unwrap, arithmetic overflow, assertion or unreachable branch. Malformed input comes back as an error value.',
  ['inputs', 'configurations'], 'every request string, every content of a description file or tsconfig (valid JSON of unexpected shape included), every option value; exhaustion of the stack or memory is left out',
  'tests sample a handful of well formed requests and descriptions; the failing ones are multi-byte boundaries, empty strings, values of an unexpected type',
  ALL, [('slicing and indexing', 'src/map.rs: find_match, walk, check_target; src/plugin/exports_field.rs; src/resolve.rs: resolve_as_modules'), ('unwrap', 'src/description.rs, src/tsconfig.rs, src/map.rs')])
p('C04', 'Every call terminates',
  'Every loop and every recursion of the resolver is bounded: aliases, browser fields, imports fields, main fields, tsconfig extends and parent directories that refer to each other in a cycle end in an answer. A loop either runs through a finite collection or moves strictly forward at each turn, and a recursive step goes to a parent directory, to a part of the value at hand, or counts towards a fixed bound.',
  ['inputs', 'configurations'], 'every alias table, package.json and tsconfig, cyclic ones included',
  'a cyclic configuration hangs the test instead of failing it, and cycles through several steps are not in the fixtures',
  ['src/plugin', 'src/resolve.rs', 'src/description.rs', 'src/map.rs', 'src/tsconfig.rs', 'src/utils.rs'], [('bound on replacements', 'src/parse.rs: Request::depth, MAX_DEPTH'), ('bound on extends', 'src/tsconfig.rs: MAX_EXTENDS_DEPTH'), ('ascending directories', 'src/resolve.rs: resolve_as_modules; src/utils.rs: find_up')])
p('C05', 'A resolved path was seen to be a file',
  'Whenever a call answers with a path, that very path was checked to be an existing regular file during resolution, and nothing of the request is left unconsumed: the remaining target of the answer is empty. This holds for answers through extensions, main files, main fields, aliases, exports, imports and tsconfig mappings alike.',
  ['inputs', 'configurations'], 'every request, option value and file tree',
  'tests only sample existing targets; an unchecked shortcut for one combination of options answers with a path to nothing',
  ['src/resolve.rs', 'src/plugin', 'src/normalize.rs', 'src/lib.rs'], [('is_file before success', 'src/resolve.rs: resolve_as_file; src/plugin/extensions.rs'), ('empty target', 'src/normalize.rs: normalize_result')])
p('C06', 'The symlinks option alone decides the shape of the path',
  'With symlinks on, the answered path is the canonical real path of the file that was found, and a failure to canonicalise is an error; with symlinks off, it is the found path with only "." and ".." removed lexically, and no link is followed. Nothing else rewrites the path of an answer.',
  ['inputs', 'configurations'], 'every found path, both values of the option',
  'fixtures contain few links and few dotted paths',
  ['src/normalize.rs', 'src/lib.rs'], [('normalisation', 'src/normalize.rs: normalize_path, normalize_path_without_link, normalize_result')])
p('C07', 'Query and fragment survive resolution',
  'The query and the fragment of the answer are those of the request, unless an exports, imports or alias replacement supplied its own: no step drops, swaps, duplicates or reorders them. Joining an answer appends the query and then the fragment to its path.',
  ['inputs', 'configurations'], 'every request with a query or fragment, through every combination of steps',
  'tests attach queries to a few steps only; each step rebuilds the request and can lose them',
  ['src/lib.rs', 'src/parse.rs', 'src/plugin', 'src/tsconfig_path.rs', 'src/resolve.rs'], [('request rebuilding', 'src/parse.rs: with_target; src/plugin/*.rs'), ('join', 'src/lib.rs: ResolveInfo::join')])
p('C08', 'Mapped targets stay inside their package',
  'A path chosen by an exports or imports field is only followed when it was checked not to climb out of the package, is an existing file, and is taken relative to the directory of the package.json that holds the field. A mapped target that climbs out, or is absolute, is rejected whatever the conditions or wildcards that produced it. (A target of an imports field that is a bare name is no path: it is looked up as a package from the directory of that package.json.)',
  ['inputs'], 'every exports and imports field, every subpath request including ones with dot segments',
  'the tests call the check directly on nine strings; they do not show that every mapped path goes through it',
  ['src/plugin/exports_field.rs', 'src/plugin/imports_field.rs', 'src/map.rs'], [('containment check', 'src/map.rs: Field::check_target'), ('use of the check', 'src/plugin/exports_field.rs: apply; src/plugin/imports_field.rs: check_target')])
p('C09', 'An exports field encapsulates its package',
  'When the package that a bare request names has an exports field, the request is answered through that field or fails: a subpath that the field does not map, or maps to a missing file, is an error and never falls back to the file layout of the package. An error from the exports or imports field of a package is reported and not replaced by a lookup elsewhere.',
  ['inputs', 'configurations'], 'every exports field and every bare request',
  'tests check a few unmapped subpaths; a fall through shows only when a file of that name exists',
  ['src/plugin/exports_field.rs', 'src/plugin/imports_field.rs', 'src/resolve.rs'], [('no fall through', 'src/plugin/exports_field.rs: apply'), ('error kept', 'src/resolve.rs: resolve_as_modules')])
p('C10', 'A changed package.json is noticed',
  'A cached description is only reused after its file was checked to be still there and not modified since it was read (within the one second resolution of the cache); otherwise it is read again. The modification time that is remembered was taken no later than the content, and a time that goes backwards counts as a change.',
  ['histories', 'schedules', 'inputs'], 'every sequence of resolutions and file changes, on one or several threads',
  'tests resolve on a frozen tree; staleness needs a change between two resolutions, or between two system calls',
  ['src/description.rs', 'src/fs.rs'], [('reuse decision', 'src/description.rs: load_pkg_file; src/fs.rs: need_update'), ('remembered time', 'src/fs.rs: read_to_string')],
  state=[{'name': 'cached_file', 'meaning': 'modification time at the last read, per file', 'where': 'src/fs.rs'}])
p('C11', 'Every cached value is a function of its key',
  'What is stored in a cache under a key is computed only from that key and the file system at that time, is stored under the same key it is looked up with, and comes from the same kind of content. Trees of exports fields and of imports fields never mix, and a parse error is not cached as a value.',
  ['histories', 'inputs'], 'every sequence of resolutions over every set of packages sharing the caches',
  'collisions need two packages with particular contents resolved in a particular order',
  ['src/description.rs', 'src/cache.rs', 'src/fs.rs'], [('cache insertions', 'src/description.rs: parse_description_file, load_pkg_file; src/fs.rs: read_to_string')],
  state=[{'name': 'ResolverCache', 'meaning': 'directory to description, exports/imports content to tree', 'where': 'src/cache.rs'}])
p('C12', 'The resolver can be shared between threads',
  'A resolver and its cache can be used from several threads at once without deadlock or data race: no lock of a cache shard is held while the same cache is used again, directly or through a call, and no type involved gives up thread safety. There is no unsynchronised shared mutable state.',
  ['schedules'], 'every number of threads, every interleaving of resolutions that share a cache',
  'the tests are single threaded; a deadlock needs two keys of one shard and a particular interleaving',
  ['src/description.rs', 'src/cache.rs', 'src/fs.rs', 'src/lib.rs'], [('map guards', 'src/description.rs: load_pkg_file, parse_description_file; src/fs.rs: need_update')])
p('C13', 'Errors are not swallowed',
  'When a description file or tsconfig cannot be read or parsed, or a field in it is malformed, the request that needed it fails with an error about that file or value. The error is not turned into "not found", an empty value or a success. (Malformed: ill typed exports, imports, sideEffects, baseUrl or paths. Where there are alternatives, such as several aliases, main fields or fallback paths, one that fails lets the next be tried.)',
  ['inputs', 'fault_sequences'], 'every malformed or unreadable description file and tsconfig, at every point where one is read',
  'tests contain a few malformed files; a swallowed error shows only as a slightly different answer',
  ['src/description.rs', 'src/tsconfig.rs', 'src/tsconfig_path.rs', 'src/resolve.rs', 'src/lib.rs', 'src/plugin', 'src/map.rs'], [('propagation', 'every use of a fallible helper')])
p('C14', 'A failure names the request and the directory',
  'A request that resolves to nothing fails with a message that quotes the request as given (target, query and fragment) and the directory it was resolved in, and every call ends in an answer or an error. The internal marker for "not found here" never reaches the caller.',
  ['inputs', 'configurations'], 'every failing request, with every combination of aliases and options',
  'tests compare a few messages; the marker leaks only on the paths that forget to translate it',
  ['src/lib.rs', 'src/utils.rs', 'src/resolve.rs', 'src/tsconfig_path.rs'], [('translation of the marker', 'src/lib.rs: _resolve; src/utils.rs: raise_resolve_failed_message')])
p('C15', 'Resolution steps keep their order',
  'Aliases are applied before anything is looked up, then prefer-relative, the imports field, the browser field, and only then files; a path is tried as a file before it is tried as a directory, the exact file name before the configured extensions, and the main fields of a directory before its main files. A step is entered only when the steps before it gave no answer.',
  ['inputs', 'configurations'], 'every request and file tree in which several steps could answer',
  'fixtures rarely contain two candidates for the same request',
  ['src/lib.rs', 'src/resolve.rs', 'src/plugin'], [('pipeline', 'src/lib.rs: _resolve; src/resolve.rs: resolve_as_file, resolve_as_dir, resolve_as_modules')])
p('C16', 'Ordered options are tried in order, independently',
  'Extensions, main files, main fields, aliases and the fallback paths of a tsconfig mapping are tried in the order in which they are configured, and the first one that answers wins; none is skipped while the earlier ones fail. A candidate that fails leaves no trace in the request or directory that the next candidate starts from.',
  ['inputs', 'configurations'], 'every option list and every file tree',
  'tests have one or two candidates; interference needs a failing candidate that changed something',
  ['src/plugin', 'src/tsconfig_path.rs', 'src/lib.rs'], [('loops over options', 'src/plugin/extensions.rs, main_file.rs, main_field.rs, alias.rs; src/tsconfig_path.rs')])
p('C17', 'An option that is off has no effect',
  'With the browser field option off, no browser field is applied; with prefer-relative off, a bare request is not tried as a relative one; with extensions enforced, a file without a configured extension is not accepted by its exact name; without a description file name, no description is read; without a tsconfig, none is read. Extensions are enforced by default exactly when the empty extension is configured.',
  ['configurations', 'inputs'], 'every combination of the options',
  'tests switch options on and compare one answer; the off side is not checked on every path',
  ['src/plugin/alias_field.rs', 'src/plugin/prefer_relative.rs', 'src/resolve.rs', 'src/description.rs', 'src/lib.rs'], [('gates', 'src/plugin/alias_field.rs: apply; src/plugin/prefer_relative.rs: apply; src/resolve.rs: resolve_as_file; src/description.rs: load_pkg_file; src/lib.rs: new, resolve')])
p('C18', 'Ignored means explicitly ignored',
  'A request is answered as ignored only when an alias that matches it, or the browser field entry that matches it (directly or through the entry it points to), is explicitly set to false; and whenever such an entry is reached, the answer is ignored rather than a path. Being ignored is final: no later step turns it into a path or an error.',
  ['inputs', 'configurations'], 'every alias table and browser field',
  'two fixtures use ignored entries',
  ['src/plugin/alias.rs', 'src/plugin/alias_field.rs', 'src/normalize.rs', 'src/lib.rs', 'src/resolve.rs', 'src/description.rs'], [('ignored results', 'src/plugin/alias.rs: apply; src/plugin/alias_field.rs: apply')])
p('C19', 'A request is split without loss',
  'Splitting a request distributes its characters, each exactly once and in order, over target, query and fragment: the query starts at the first question mark, the fragment at the first hash sign that is not the first character, and nothing is split inside the fragment. The kind of a target depends only on its beginning: empty, "." , "..", "./" and "../" are relative, "/" is absolute, "#" is internal, a drive letter is Windows absolute, and everything else is a bare name.',
  ['inputs'], 'every request string, any Unicode',
  'tests list two dozen strings',
  ['src/parse.rs', 'src/kind.rs'], [('state machine', 'src/parse.rs: parse_identifier'), ('kind', 'src/kind.rs: get_target_kind')])
p('C20', 'Paths are not converted through lossy text',
  'A path that is looked up or answered keeps the bytes of the given directory and of the file names: it is never rebuilt from a display or lossy text form of a path, so directories whose names are not valid Unicode work. Text forms of paths are only used in messages and in comparisons with other text.',
  ['inputs'], 'every directory, including names that are not valid UTF-8',
  'all fixtures have ASCII names',
  ['src/lib.rs', 'src/resolve.rs', 'src/plugin', 'src/normalize.rs', 'src/tsconfig_path.rs', 'src/utils.rs', 'src/description.rs'], [('joining and extending paths', 'src/lib.rs: get_path, join; src/resolve.rs: append_ext_for_path; src/tsconfig_path.rs')])
p('C21', 'Conditions are chosen in the order they are written',
  'In a conditional exports or imports value, keys are considered in the order they are written, and a branch is taken only if its key is one of the configured condition names or is "default"; the first such branch that leads to a target wins. When no key matches, the conditional value maps to nothing.',
  ['inputs', 'configurations'], 'every nesting of conditions and every set of condition names',
  'tests sample some nestings; order and default only matter when several keys match',
  ['src/map.rs', 'src/description.rs'], [('selection', 'src/map.rs: conditional_mapping')])
p('C22', 'The nearest package.json is used',
  'The description that applies to a path is the one in that directory, or else in its closest ancestor that contains a description file; no ancestor is skipped and none beyond the first hit is used. Having no description file in any ancestor is not an error.',
  ['inputs', 'histories'], 'every directory tree and every order in which its directories are visited',
  'fixtures nest packages at most twice and visit them in one order',
  ['src/description.rs', 'src/utils.rs'], [('search upwards', 'src/utils.rs: find_up; src/description.rs: load_pkg_file')])
p('C23', 'Description data comes from the right field of the right file',
  'The directory, name, version, side effects, browser aliases, exports and imports that resolution uses for a package are those of the like-named fields of its own package.json; a field that is absent is absent, and one of the wrong type is an error or ignored, never read from another field or file. Asking for side effects returns the path of that same package.json together with its own side effects.',
  ['inputs', 'histories'], 'every description file content, and every order in which packages are loaded',
  'tests read a few fields of well formed fixtures',
  ['src/description.rs', 'src/plugin/main_field.rs'], [('parsing', 'src/description.rs: parse_description_file, load_side_effects')])
p('C24', 'A shared cache is really shared',
  'A resolver configured with an external cache stores and finds package information and field trees in that very cache, and one without an external cache has its own. What one resolver put in a shared cache gives the other the same answers it would have computed itself.',
  ['configurations', 'histories'], 'every pair of resolvers sharing a cache, with equal or different options',
  'one test shares a cache between two resolvers with equal options',
  ['src/lib.rs', 'src/cache.rs', 'src/description.rs'], [('choice of the cache', 'src/lib.rs: Resolver::new'), ('stored values', 'src/description.rs')])
p('C25', 'A tsconfig overrides what it extends',
  'Values of a tsconfig win over those of the config it extends, objects being merged key by key at every depth, and the extended config is found relative to the directory of the extending file. A config that cannot be read or parsed, has an ill typed baseUrl or paths, or extends itself in a cycle, is an error.',
  ['inputs'], 'every chain of tsconfig files',
  'fixtures have two chains with few overlapping keys',
  ['src/tsconfig.rs'], [('merge', 'src/tsconfig.rs: merge, parse_file_to_value')])
p('C26', 'A tsconfig mapping only redirects requests that match it',
  'A path mapping applies to a request only if its pattern equals the request or its text before and after the star are a prefix and a suffix of the request that do not overlap; the part in between replaces the star of each fallback path, below baseUrl next to the tsconfig. When no mapping answers, the request is resolved unchanged.',
  ['inputs', 'configurations'], 'every paths table and every request',
  'fixtures have a few patterns, most of them ending in a star',
  ['src/tsconfig_path.rs'], [('matching', 'src/tsconfig_path.rs: match_star, _resolve_with_tsconfig')])
p('C27', 'An alias replaces the beginning of the request, once',
  'An alias applies only to a request that starts with its key; only that first occurrence is replaced by the alias target, the rest of the request and the directory stay as they were, and the new request goes through the whole resolution again. If the replacement leads nowhere, the next alias and finally the unaliased request are tried.',
  ['inputs', 'configurations'], 'every alias table and request',
  'fixtures alias short names that occur once in the request',
  ['src/plugin/alias.rs'], [('replacement', 'src/plugin/alias.rs: apply')])
p('C28', 'A bare request searches every node_modules on the way up',
  'A bare request is looked up in the node_modules folder of the directory and, only while it finds nothing, of each ancestor in turn up to the root, nearest first, always with the same request. The package it names is the part before the first slash, or before the second slash when it starts with "@".',
  ['inputs'], 'every directory depth and every bare request',
  'fixtures have at most three levels and complete packages',
  ['src/resolve.rs'], [('ascent', 'src/resolve.rs: resolve_as_modules')])
p('C29', 'A key of an exports or imports field matches the requests it spells, the longest first',
  'A key of an exports or imports field applies to a request only if the request is the key itself, or the key ends in a slash and the request continues it, or the key ends in a star and the request begins with the part before that star; a star elsewhere in a key is an ordinary character. Of the keys that apply, one that is equal to the request wins; otherwise the one with the longest such beginning, a star before a slash of the same length. A field without such keys applies to the request of the package itself. A request that no key applies to is mapped to nothing.',
  ['inputs'], 'every field and every request',
  'tests sample a few hundred pairs of a field and a request',
  ['src/map.rs'], [('trie', 'src/map.rs: PathTreeNode, field_process, build_field_path_tree')])
p('C30', 'Resolution agrees with enhanced-resolve',
  'For every file tree and option set, the answer equals that of the reference implementation with the same options.',
  ['inputs', 'configurations'], 'every file tree, option set and request',
  'tests sample the comparison by hand',
  ALL, [('whole crate', 'src')])
p('C31', 'An unchanged package.json is read once',
  'Once a resolver has read and parsed a description file without an error, its later requests (whatever they ask for, and also when it was made by Resolver::default()) are answered from the remembered description: as long as the file is there with the modification time it had, it is neither read nor parsed again.',
  ['histories'], 'every sequence of requests to one resolver, every set of directories and descriptions',
  'that a file is read a second time changes no answer, so no test of answers sees it; one test counts the entries of a cache',
  ['src/description.rs', 'src/fs.rs', 'src/lib.rs'], [('reuse', 'src/description.rs: load_pkg_file'), ('times', 'src/fs.rs: need_update, read_to_string'), ('constructors', 'src/lib.rs: Resolver::new, Default')])
p('C32', 'A mapped target is the written target with the remainder put in literally',
  'The path that an exports or imports field yields is the target as it is written there, with the part of the request that its key left open put in exactly as it was requested: in place of the star for a wildcard target, at the end for a folder target, and nowhere for an exact target. No character of the remainder is interpreted, doubled, dropped or escaped, and a remainder that the target has no place for is an error or no target.',
  ['inputs'], 'every target, every remainder, any Unicode',
  'tests map a few plain names; a character that means something to the substitution is not among them',
  ['src/map.rs'], [('substitution', 'src/map.rs: target_mapping')])
p('C33', 'The options are the ones that were given',
  'A resolver works with exactly the options it was made with: Resolver::new keeps every one of them as it was given, in its order and with all its entries, adds none and exchanges none for another, and uses the external cache if there is one. Only an enforce_extension that was left open is decided: it is whether one of the extensions is the empty text. What is not set is what the documentation of the options says: ResolverOptions::default(), and Resolver::default() with it, have the documented values.',
  ['inputs'], 'every value of every option',
  'each test sets two or three options to usual values; a list that is reordered, trimmed or completed shows only with values that no test has',
  ['src/lib.rs', 'src/options.rs'], [('constructor', 'src/lib.rs: Resolver::new'), ('defaults', 'src/options.rs: Default')])
p('C34', 'An exports field answers for the package that the request names',
  'The exports field that a bare request is mapped by is that of the package the request names: the description in the folder of exactly that name (with its scope, if it has one) below the node_modules folder that is searched, or the enclosing package whose own name is exactly that name. A package whose name merely begins like it, one that merely surrounds the named package, and a description that lies deeper inside the named package have no say; and where the named package has an exports field, a request for it is not resolved past that field.',
  ['inputs'], 'every tree of folders and descriptions, every bare request',
  'the fixtures have one package.json per package, names that are no beginnings of each other, and no packages without a description inside others',
  ['src/resolve.rs', 'src/plugin/exports_field.rs', 'src/plugin/imports_field.rs'], [('which description', 'src/resolve.rs: resolve_as_modules'), ('whose field', 'src/plugin/exports_field.rs: is_in_module, is_resolve_self'), ('from imports', 'src/plugin/imports_field.rs: apply')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
