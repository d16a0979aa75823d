"""Runs the quick check of each planted bug's property on a scratch copy of /repo with the bug applied (development tool)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rp = os.path.join(V, 'tools', 'seeded_results.json')
res = json.load(open(rp)) if os.path.exists(rp) else {}
sel = sys.argv[1:]
if sel == ['missed']:
    sel = [k for k, v in res.items() if v == 'missed']
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    if sel and i not in sel:
        continue
    s = os.path.join(V, 'seeded', i)
    prop = json.load(open(s + '/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='seeded.')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + d, shell=True)
        if subprocess.call(['patch', '-s', '-p1', '-d', d, '-i', s + '/patch.diff']):
            print(i, 'PATCH DOES NOT APPLY'); continue
        c = subprocess.run(['bash', V + '/check.sh', prop, 'quick'], env=dict(os.environ, PYMPC_REPO=d), capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION property=' + prop)]
        lay = sorted(set(l.split(']')[0].strip(' [') for l in c.stdout.splitlines() if l.startswith('  [')))
        res[i] = '%s, layer %s' % (prop, ', '.join(lay)) if c.returncode == 1 and v else 'missed'
        print(i, c.returncode, res[i], flush=True)
    finally:
        shutil.rmtree(d)
    json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
