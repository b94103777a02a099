import sys,time
sys.path.insert(0,'/verif/sa')
from delib import *
from framework import Check
ck=Check('X','quick')
D=ck.D
hl=HL(D,iters='ITER' in __import__('os').environ)
def sh(t,n=160):
    return show(t)[:n]
def pr(evs,ind):
    for ev in evs:
        if ev.kind=='loop':
            print(ind+'LOOP inv=',len(ev.x['inv']),'cells',len(ev.x['cells']))
            for seg,st in ev.x['segs']:
                print(ind+'  seg'); pr(seg,ind+'    ')
        elif ev.kind=='mark': pass
        else:
            x=ev.x or {}
            print(ind+ev.kind,ev.name,'ok' if x.get('ok') else 'ERR' if 'ok' in x else '', {k:sh(v,90) for k,v in x.items() if isinstance(v,T) and k not in('v','err')}, '->',sh(ev.ret,80) if ev.ret is not None else None)
if __name__=='__main__':
    for pat in sys.argv[1:]:
        for r in D.roots:
            if re.search(pat,site_name(D,r)) and str(r['inst']) in D.bodies:
                m=Method(ck,hl,r)
                print('=====',m.site,m.at)
                for o in m.outs:
                    print(' --',o.kind,sh(o.val,400) if o.val is not None else o.why)
                    pr(o.events(),'     ')
