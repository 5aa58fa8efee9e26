import json,glob,os
out=[]
w=out.append
w(open('/verif/scripts/design/head.md').read())
w("\n## Planted bugs and what catches them\n\nEach was confirmed in a scratch copy: it builds, the stable tests pass with it, its demo.sh tells the two trees apart, and the check named reports it within its quick budget.\n\n| planted bug | caught by | needs |\n|---|---|---|\n")
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    w("| %s | %s | %s |\n"%(i,m['property'],m['needs'].replace('|','/')))
w(open('/verif/scripts/design/tail.md').read())
open('/verif/DESIGN.md','w').write(''.join(out))
