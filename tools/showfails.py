#!/usr/bin/env python3
import json,sys
r=json.load(open(sys.argv[1]))
print({k:r[k] for k in ('cases','vectors','evaluations','skipped')}, len(r['failures']), 'failures')
for f in r['failures'][:int(sys.argv[2]) if len(sys.argv)>2 else 40]:
    print(f['case'],'|',f['vector'][:100],len(f['vector']),'|',f['what'][:200])
