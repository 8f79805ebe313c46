import json, os
out = []
w = out.append
w('''
## 5. Genuine defects of pen-lang/pen

Repaired ones (one commit each in `/repo`, listed under "fixed" in `known-findings.json`; each of them was first shown
by a check of the property named):
''')
k = json.load(open('/verif/known-findings.json'))
w('| property | commit | what failed |\n|---|---|---|')
for f in k['fixed']:
    p, c, t = f.split(' ', 3)[1:4]
    w(f"| {p.split('=')[1]} | {c} | {t.replace('|', chr(92) + '|')} |")
w('''
Recorded ones (not small or safe to repair, or a repair may not be committed):
''')
w('| finding | what | why it is recorded |\n|---|---|---|')
why = {"F-C13-joined": "needs another representation of comments in the formatter's documents", "F-C14-broken-type": "same",
 "F-C22-transient": "the repair (an atomic copy) lies in packages/test/ffi, whose path counts as tests: commits there are not allowed (done in 73e7e2d, reverted)",
 "F-C22-unsynchronized": "same (done in 2f100fa, reverted)", "F-C26-equal-hashes": "needs nodes for collisions in the map's trie, a change of its design",
 "F-C30-if-map-else": "a snapshot test of lib/hir-mir pins the generated code", "F-C31-if-map-else": "same",
 "F-C36-empty-message": "snapshot tests of lib/hir-mir pin the wrappers, and the outcome and the message share one string"}
for f in k['findings']: w(f"| {f['id']} | {f['what'].replace('|', chr(92) + '|')} | {why[f['id']]} |")
w('''
Observations by reading which no property covers: `packages/http/ffi/src/server.rs` shares the handler's closure between
the worker threads of tokio without synchronizing it (its count is not atomic unless the closure has been synchronized
before), so C24 runs handlers in one thread. `ReadLimit` with huge limits allocates them at once (aborts).
The documentation of the language has a slip (`42 != none` is refused by the compiler, rightly).

## 6. False alarms which were corrected

While the checks were built, these alarms turned out to be wrong and the *specification* was corrected:

* C26: which of two equal keys survives a spread of maps — order of spreads was specified the wrong way round.
* C31: operands of string concatenations and of record updates are not evaluated in textual order before anything is
  done with them (the balance of references at that moment was too strict); thunks of closed expressions are lifted to
  globals and evaluated once; elements of map literals are evaluated in an open order; `error` of an error; −0.
* C27: `?` in spread lists was put by the generator where the language does not allow it.
* C33: order in which entries of maps are shown is open.
* C16: empty patterns of split and replace, fractional indices of views; C17: code points of fractions.
* C09/C12: ambiguous `name {id: …}`; C28: names with digits and capitals.
* C19: reading a directory opened as a file, copying a file onto itself: systems differ.

## 7. Planted bugs

Each was written from a property's text and the code, kept whatever the checks said, and confirmed in a scratch run:
compiles, stable tests pass, demonstration fails with it and passes without. `tools/plants/*.py` hold their sources,
`tools/plant.py` repeats the confirmation. Bugs in Pen sources (`seeded-pen/`) do not count for the interface but were
used in the same way.
''')
notes = json.load(open('/verif/tools/plants/notes.json')) if os.path.exists('/verif/tools/plants/notes.json') else {}
w('| bug | property | what it needs | caught by |\n|---|---|---|---|')
for d in ('seeded', 'seeded-pen'):
    for n in sorted(os.listdir('/verif/' + d)):
        m = json.load(open(f'/verif/{d}/{n}/meta.json'))
        w(f"| {'' if d == 'seeded' else '(pen) '}{n} | {m['property']} | {m['needs'].replace('|', chr(92) + '|').strip()} | {notes.get(n, m['property'])} |")
w('''
Checks were strengthened after misses: equal comments are generated on purpose (C13), short lists are enumerated
(C09, C27), records have many fields (C18), refusals are told from internal errors (C30). Later misses are listed here
as they occur:

@MISSES@

## 8. Not applicable

Every listed property is claimed. Outside of the list, because the family or the sandbox cannot reach it:
`lib/mir-fmm` (code generation with the `fmm` crates, which are not available here), the generated machine code and
the linker scripts of packages (`pen-link`, `pen-ffi.sh`).
''')
misses = '/verif/tools/plants/misses.md'
base = open('/verif/DESIGN.md').read().split('\n## 5. ')[0].rstrip() + '\n'
open('/verif/DESIGN.md', 'w').write(base + '\n'.join(out).replace('@MISSES@', open(misses).read().strip() if os.path.exists(misses) else ''))
