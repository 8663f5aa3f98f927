import sys,re
cid,src=sys.argv[1],sys.argv[2]; extra=sys.argv[3] if len(sys.argv)>3 else ''
s=open('/verif/checks.py').read()
a,b=s.split('NOTE = (',1)
ls=a.split('\n')
def ins(lines,new,key):
    idx=[i for i,l in enumerate(lines) if re.match(r'    "C\d\d":',l)]
    pos=next((i for i in idx if lines[i][5:8]>key), idx[-1]+1)
    lines.insert(pos,new)
if f'"{cid}"' not in a:
    ins(ls,f'    "{cid}": chk(["{src}"]{extra}),',cid)
    lb=b.split('\n'); ins(lb,f'    "{cid}": (MODEL, NOTE),',cid)
    open('/verif/checks.py','w').write('\n'.join(ls)+'NOTE = ('+'\n'.join(lb))
