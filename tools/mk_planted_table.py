import json,glob,os,re
miss={'S274':'draws traced','S275':'vtrees of 65537 leaves','S276':'many clauses','S277':'scratch data in huge PSDDs','S05':'wide nodes','S07':'mass data','S20':'mass repetitions','S24':'children of mixed heights','S29':'relative paths','S36':'managers with a past, recipes after clean-ups','S58':'mass data more often','S72':'n up to 1800','S85':'deep vtrees more often','S87':'memory reused at once','S89':'two clean-ups in a row','S92':'file ids beyond 32 bits','S124':'long lines','S131':'prefixes of the variables','S134':'many rare elements','S135':'variables beyond 65535','S180':'each unused node seen released','S188':'arguments freed early','S223':'alike clauses','S253':'networks of up to 140 variables','S270':'data sets of round sizes','S271':'rows of 65536 fields','S272':'tables of 65536 entries','S273':'networks of up to 140 variables','S190':'the vtree written is the one given'}
rows=[]
for d in sorted(glob.glob('/verif/seeded/S*')):
    m=json.load(open(d+'/meta.json'));i=os.path.basename(d)
    w=m['needs'].rstrip('.')
    rows.append(f"| {i} | {m['property']} | {w} | {'missed at first; '+miss[i] if i in miss else 'yes'} |")
t=open('/verif/DESIGN.md').read()
h='## Planted bugs and what catches them\n'
k=t.index(h)
body=h+'''
Each change in `seeded/` was written from a property's text and the code, validated (applies to
`/repo`'s HEAD, builds, the stable tests pass, its demonstration passes without and fails with it),
and then given to the *quick* check of its own property with seed 1. All are caught now. "missed at
first" names what had to be added to the workload; the oracles did not change.

| bug | check | needs in order to manifest | caught by the quick check |
|-----|-------|----------------------------|---------------------------|
'''+'\n'.join(rows)+'\n'
open('/verif/DESIGN.md','w').write(t[:k]+body)
