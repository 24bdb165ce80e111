#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError: pass
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    allp = dict(PROPS); allp.update(NA)
    for k in sorted(allp):
        p = allp[k]
        f.write(json.dumps(dict(id=k, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']], observe_at=p.get('observe', []), hook_needed=None))) + '\n')
checks, na = [], []
for k in sorted(PROPS):
    p = PROPS[k]
    if not p['built']:
        na.append(dict(property=k, reason='not built yet')); continue
    c = dict(property=k, quick_cmd='python3 check.py %s' % k, thorough_cmd='python3 check.py %s --thorough' % k, evidence_file='evidence/%s.json' % k,
             technique='contract-based deductive verification of mechanically extracted functions (Verus)' + ('' if p['level'] == 'proof' else ' for the kernels; bounded executable contract on the real crate for the rest'),
             level=p['level'], level_note=p['level_note'])
    if p['theorems']: c['theorems'] = p['theorems']
    checks.append(c)
for k in sorted(NA): na.append(dict(property=k, reason=NA[k]['reason']))
json.dump(dict(version=1, setup_cmd='cd harness && cargo build --offline --quiet', checks=checks, not_applicable=na,
   notes='No hooks in /repo: the harness uses the public API, the contracts are applied to functions extracted from /repo/src on every run.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md = design/head.md + one section per property + design/tail.md + table of planted bugs
EX={
'C01':'Specified: `col_name(n)`/`row_name(n)` as recursive functions over integers; every `fmt_*` function appends exactly the specified text; `try_u32_from_colname/rowname` accept exactly the texts of that form and return the index (overflow → error). Quoting of sheet names: a name is written bare only if the parser accepts it bare. Lemmas: column and row names are bijections. Oracle of the bounded part: parse(format(x)) == x, and an independent recogniser for texts that are not references.',
'C02':'Specified: `contains` ⇔ between the corners; `origin_span` covers span rows × cols; constructors reject reversed ranges; `out_looped` moves to the next cell inside; groups: `add_*_group` refuses exactly the partial overlaps and otherwise pushes the group, everything else framed.',
'C03':'Specified: abstract view `cell(sheet, r, c)` with all properties; each setter is `view == old(view).insert((r,c), changed)`; each getter returns the view. Induction over calls gives every history.',
'C04':'Specified: per-index view of the block map (`hdr_at(map, i)`), invariant "blocks do not overlap"; setters change the view at exactly one index and one field.',
'C05':'Specified: `next()` returns the first entry of the remaining sorted list inside the area and leaves the rest; bounds handed to the map are exact; size hints bound the count; `used_grid_size` is the least cover.',
'C06':'Writer: a ghost token log of the XML (elements, attributes, texts) and a ghost *grid reader* that gives each cell element its position by summing the repeat counts; the write functions are proved to produce exactly the grid of the sheet. Reader: `read_table` is proved step by step (one event = one step of the same grid reader), `read_table_cell` and the attribute readers are proved to turn the attribute list into exactly the cell/row/column.',
'C07':'Specified: `covered(p)` ⇔ p lies in the area of a span that is itself not covered, minus the origin; `split_hidden` partitions a run of columns exactly at the borders of the covered areas; `remove_outlived` drops exactly areas that ended; empty fillers mark covered cells only.',
'C08':'Specified: header element open ⇔ row/column in header range, group elements opened/closed exactly at their borders, in nesting order; row and column elements carry the settings of the rows/columns they stand for.',
'C09':'Specified: text of each value as a mathematical string, value of each text; theorems value(text(v)) = v. Nanoseconds of durations by div/mod lemmas.',
'C10':'Specified: serialisation function `ser(tokens)`; `esc`/`unesc` over character sequences with unesc(esc(t)) = t; no quote/markup in an escaped attribute; the stack of the writer rejects unbalanced ends.',
'C11':'Specified: AttrMap2 is a map; each typed setter is `attrs == old(attrs).insert("ns:name", text(value))`. The table of attribute names was generated once from the setters, then reviewed against the ODF attribute names (three defects found this way, fixed), and is now part of the contract text.',
'C12':'Specified: sheet list as a sequence (insert/remove/swap exact), each collection as a map from name to element; a fresh name is not in the map (termination by pigeonhole).',
'C13':'Specified: every `From` yields the constructor with exactly the content; every accessor is a function of the constructor.',
'C14':'Specified: the text of each helper is `[` + text of the reference of C01 + `]` for the requested components.',
'C16':'Specified: the exact text of each constructor as a sequence of characters; `scan` is a specification of how a reader takes a quoted text apart.',
'C19':'Specified: a part is its kind, its attribute map, its position and its content; a builder method is the old part with exactly its attribute inserted; a builder holds the value format by mutable reference, and its contract speaks about the value behind the reference now and after the builder is gone (prophecy), so that `build` is `parts == old(parts).push(part)` on the format itself; each ready-made format is the exact list of its parts.',
'C20':'Specified: an element is its name, its attribute map (proved to be a map in C11) and its sequence of contents; each function gives the new value of exactly the fields it may change and equality of all others; the plain text is a recursive function over the tree.',
'C15':'Writer: every part is proved to be put out as exactly the specified token list. Settings maps: recursive view.',
}

out = [open(os.path.join(HERE, 'tools/design/head.md')).read().rstrip() + '\n']
for k in sorted(PROPS):
    p = PROPS[k]
    out.append('### %s %s' % (k, p['title']))
    out.append('*Quantified over*: %s.  ' % p['qtext']); out.append('*Why tests cannot settle it*: %s  ' % p['why'])
    out.append('*Contracts*: %s Units: %s.  ' % (EX.get(k, ''), ', '.join('`%s`' % u for u in p['units'])))
    out.append('*Reach*: %s  ' % p['level_note'])
    out.append('*Bounded stand-in*: %s (%s).  ' % (p['bounded'], p['rule'].replace('seeded generator over the public API: ', '')))
    if p['theorems']: out.append('*Theorems over the contracts*: %s.  ' % ', '.join('`%s`' % t for t in p['theorems']))
    if p['assumptions'][2:]: out.append('*Assumed*: %s' % ' '.join(a if a.endswith('.') else a + '.' for a in p['assumptions'][2:]))
    out.append('')
if NA:
    out.append('## 3. Properties not claimed\n')
    for k in sorted(NA): out.append('* **%s %s**: %s' % (k, NA[k]['title'], NA[k]['reason']))
    out.append('')
out.append(open(os.path.join(HERE, 'tools/design/tail.md')).read().rstrip() + '\n')
out.append('| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
SD = os.path.join(HERE, 'seeded')
caught = json.load(open(os.path.join(HERE, 'tools/design/caught.json')))
for d in sorted(os.listdir(SD)) if os.path.isdir(SD) else []:
    m = json.load(open(os.path.join(SD, d, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], caught.get(d, 'not run yet')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
