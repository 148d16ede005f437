"""Summarise the violations of the last run of a check (development aid)"""
import json, glob, re, sys, collections
pid = sys.argv[1]
d = collections.OrderedDict()
for f in sorted(glob.glob(f'/verif/out/{pid}/*.json'), key=lambda s: int(re.findall(r'-(\d+)\.', s)[0])):
    j = json.load(open(f))
    w = j['what']
    m = re.search(r'error ([\d.e+-]+|nan|inf), allowed ([\d.e+-]+)', w)
    k = re.split(r': at index|: got|: shape', w)[0]
    k = re.sub(r'[-+]?[\d.]+(e[-+]?\d+)?', '#', k)
    k = re.sub(r'\[.*', '[', k)
    k = j['task'].split('(')[0] + ' ' + ' '.join(k.split()[-5:])
    r = float(m[1]) / max(float(m[2]), 1e-300) if m else -1
    d.setdefault(k, []).append((r, j['task'][:90], w[:230]))
for k, v in list(d.items())[:int(sys.argv[2]) if len(sys.argv) > 2 else 15]:
    v.sort(key=lambda t: -t[0])
    print(len(v), k, 'ratio %.3g' % v[0][0], '|', v[0][1], '|', v[0][2])
print(len(d), 'kinds')
