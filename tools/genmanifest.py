#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the list of built checks.
import json, subprocess, sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
built=set(sys.argv[1:]) if len(sys.argv)>1 else None
DELAY={'T06','T07','T11','S03','X01'}
RACE={'T05','T06','T07','T11','S03','V10','V11','X01','X08'}
NOTE={
 'T':'Random exploration with fixed seeds: every execution of the real packet code is judged by a monitor that knows, from an independent ISO 13818-1 packet writer, what must come out. Assurance is that of the workload (counts and distinct layouts are in the evidence); trusts the writer, the bitreader dependency and, for races, the Go race detector.',
 'P':'Random exploration: the real PES parser and reader are run on packets of an independent writer, complete, cut and corrupted, and judged field by field and byte by byte. Trusts the writer and the bitreader dependency.',
 'S':'Random exploration: the real program stream code is run on streams of an independent writer, complete, cut and corrupted, and judged value by value and byte by byte. Trusts the writer, the bitreader dependency and, for races, the Go race detector.',
 'V':'Random exploration: the real decoder is run on legal streams made by an independent ISO 13818-2 encoder model and judged sample by sample against an independent reconstruction (floating-point inverse DCT, the decoder\'s own earlier frames as references). Trusts that model and the bitreader and huffman dependencies.',
 'X':'Random exploration of cut, corrupted, repackaged and arbitrary streams under supervisor processes that watch for panics, deadlock, livelock and memory growth. Trusts the generators and the bitreader dependency.',
}
TECH={
 'T':'runtime monitoring of the real transport stream code against an independent packet model',
 'P':'runtime monitoring of the real PES code against an independent packet model',
 'S':'runtime monitoring of the real program stream code against an independent stream model',
 'V':'runtime monitoring of the real decoder with an independent reconstruction oracle',
 'X':'runtime monitoring under fault and mutation workloads with process-level watchdogs',
}
checks=[];na=[]
for p in props:
    i=p['id']
    if built is not None and i not in built:
        na.append({'property':i,'reason':'its check is not built yet'})
        continue
    t=TECH[i[0]]
    if i in RACE: t+=', plus the Go race detector'
    if i in DELAY: t+=' and injected delays'
    if i=='X12': t+=', differential between the routes'
    if i=='X10': t+=', in a 32-bit and a 64-bit build'
    checks.append({'property':i,'quick_cmd':'./check '+i,'thorough_cmd':'VERIF_TIER=thorough ./check '+i,'technique':t,'level':'exploration','level_note':NOTE[i[0]]})
m={'version':1,'setup_cmd':'./check build','checks':checks,'not_applicable':na,
 'notes':'No hooks are needed in /repo: everything is observed through the exported API. ./check PROP builds the monitor against the current tree of /repo and runs it; VERIF_TIER=thorough deepens it. A replay file is run again with ./check replay FILE.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'checks',len(na),'n/a')
