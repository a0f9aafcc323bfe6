"""writes MANIFEST.json: claimed properties are those listed in CLAIMED, the rest are not_applicable with a reason"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(R, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd=f'python3-vt gov/check.py {i}', thorough_cmd=f'python3-vt gov/check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                           technique='contract-based deductive verification: contracts on the real Go functions, VCs generated from go/ssa of the current tree, discharged by z3/cvc5', level='proof', level_note=CLAIMED[i]))
    else: na.append(dict(property=i, reason=NA.get(i, 'not yet under contract')))
m = dict(version=1, setup_cmd='mkdir -p build && cd extract && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../build/extract . && cd .. && python3-vt -c "import z3"', checks=checks, not_applicable=na,
         hooks=dict(guard='verif', enable='no hooks are needed: contracts live in /verif/contracts and are keyed by function; nothing in /repo is built differently', source_commits=[]))
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
