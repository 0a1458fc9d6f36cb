import sys; sys.path.insert(0,'/verif')
from vc import ir
p=ir.extract(sys.argv[1:2],'/tmp/irt')
for k in list(p.functions):
    f=p.fn(k)
    if len(sys.argv)<3 or sys.argv[2] in f['q']: print(f['q'],[x['t'].p for x in f['params']], f.get('body') is not None)
