"""Writes ../known_findings.json: findings (reported as KNOWN-FINDING, keyed by the violation) and repaired defects."""
import json, os, subprocess
H = os.path.dirname(os.path.abspath(__file__))
FIXED = """C34 8bfe0c9 a nested package.json hid the exports field of the requested package; a package whose name begins like the request ("lib" for "lib-utils/x"), or the one around a package without a description, answered through its own exports field
C31 da837bd Resolver::default() read an unchanged package.json again for every request
C03 7eb16b0 resolving a directory without an entry file panicked (unreachable) instead of failing
C03 fb3f011 a scope-only request ("@scope") panicked when the package has an exports field
C03 61adb8a a bare request with multi-byte characters panicked: byte offsets were counted in characters
C03 b95f649 "browser": {"x": true} panicked
C03 8b1a8d2 an exports or imports value of an unexpected JSON type panicked
C03 f7b4b22 "imports": [] panicked
C03 9080314 a second parse of the same description file (after a failure, or on another thread) panicked
C11 90c716a the tree of an imports field was stored in the cache of exports trees
C04 e1ffba1 load_pkg_file looped forever when an ancestor of the path is not a directory
C22 c9a8af8 a path without any existing ancestor failed instead of having no description file
C10 92c8684 the modification time was read after the content: a write in between went unnoticed
C10 1ed2dce a file replaced by an older one was not read again
C15 d944c1e assert/strict was looked up as a package
C10 895b348 the description of a removed package.json was used further
C03 28e1dff tsconfig values of an unexpected type panicked
C03 b6ca00e a tsconfig pattern was sliced inside a multi-byte character
C07 b3a4658 a request mapped by tsconfig paths lost its query and fragment
C02 2557de2 several matching tsconfig paths were tried in hash order
C02 cb62d61 several matching browser field keys were tried in hash order
C04 ffe8e6b a browser field whose entries form a cycle never ended
C04 28ec9c7 aliases that form a cycle never ended
C04 b3ae658 an imports field whose entries form a cycle never ended
C07 6a842f3 a request mapped by the imports field lost its query and fragment
C04 f58f2dd tsconfig files that extend each other never ended
C08 52e9c17 "imports": {"#a": "/etc/passwd"} was followed outside of the package
C20 0e76404 paths that are not valid UTF-8 were rebuilt from a lossy text
C29 f33f981 a wildcard key with multi-byte characters was cut at the wrong character
C29 65b42b2 an exact key in a nested folder substituted a remainder
C29 76283f9 a null target did not exclude a path from the exports
C28 89cfa14 a module folder without an entry file changed the request that the parent folders were searched for
C16 a6ff7b2 a main field or main file that failed changed the directory the next one started from
C04 111f91f main fields that point to each other never ended
C08 e492969 "a//../.." climbed out of the package: an empty segment counted as a folder
C32 0e1d36a a dollar sign of a request was doubled by a wildcard target
C10 5bcbd5d a package.json that can no longer be parsed left its former description in the cache and the next call reused it
C20 c4c74f4 a tsconfig path mapping below a directory whose name is not UTF-8 or contains '*' failed
C16 e2396b4 a main field of "." or "./" ended the search, so that the main fields after it were not tried"""
FINDINGS = json.load(open(H + '/findings.json'))
fixed = []
for l in FIXED.splitlines():
    p, c, w = l.split(' ', 2)
    fixed.append(f'fixed: property={p} {c} {w}')
json.dump({'findings': FINDINGS, 'fixed': fixed}, open(H + '/../known_findings.json', 'w'), indent=1)
