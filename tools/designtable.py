import json,glob,os
s=open('/verif/DESIGN.md').read()
s=s.replace("36 defects were found","38 defects were found")
row="| P30 | metadata after opening, during and after iteration | model | ≤ 100 telescopes, all versions, real files | 12 s |\n"
assert row in s
if '| P31 |' not in s:
    s=s.replace(row,row+"""| P31 | events and warnings of files with objects in unusual places (missing TelescopeData, objects after the event, descriptions again, unknown types) | events of the well formed file, per rule | all rules, inserted at random places | 12 s |
| P32 | `str`/`repr`/`len`/summary of objects in all states, position afterwards | header values, bunch and item counts of the written object | all types, before/after decoding, exhausted | 12 s |
| P33 | bytes read from the input and peak memory while iterating | size of the largest top level object | files to 100 times the largest object; plain, gzip, zstd, pipe | 45 s |
""")
s=s.replace("| P03 | decoded values under random schedules of decode/read/seek/advance |","| P03 | decoded values under random schedules of decode/read/seek/advance and modification of earlier results |")
missed={'archived-showers':'P33: number of shower running on between repetitions','known-lists-only':'P17: other pixel list codes','split-by-object-id':'P12: telescope numbers above 999','monitoring-what-byte':'P14: all bits of the contents','height-below-a-centimetre':'P11: all 16 bits of the height','real-particles-only':'P11: particle ids 0 and 9999','weights-of-filled':'P34: negative contents','diff-of-sorted':'P27: names with blanks around','exception-leaves-open':'P22: readers now stay referenced','large-skip-in-pipe':'P05: payloads to 24 MB','memoized-longitudinal':'P03: values modified by the user'}
rows=["| id | property | what it needs | missed at first |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'));i=os.path.basename(d)
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|','/').replace(chr(10),' ')} | {missed.get(i,'')} |")
i=s.index('## Planted bugs')
s=s[:i]+"""## Planted bugs

`seeded/<id>/` holds changes that compile and pass the tests; `tools/plant.py` confirms one
in a scratch copy.  Every one of them is caught by the quick check of the property it was
written for (last column: checks that missed it at first and were strengthened).

"""+"\n".join(rows)+"\n"
open('/verif/DESIGN.md','w').write(s)
