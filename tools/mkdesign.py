import json,glob
seeds=[json.load(open(f))|{'id':f.split('/')[-2]} for f in sorted(glob.glob('/verif/seeded/*/meta.json'))]
s=open('/verif/DESIGN.src.md').read()
s=s.replace('@SEEDS@','\n'.join('| %s | %s | %s |'%(x['id'],x['property'],x['what_it_breaks'].replace('|','/')) for x in seeds))
open('/verif/DESIGN.md','w').write(s)
