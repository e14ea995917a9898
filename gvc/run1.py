import sys, time
sys.path.insert(0,'/verif')
from gvc.ssaload import Program
from gvc.spec import SpecFile
from gvc.verify import verify_item
prog=Program(sys.argv[1]); sp=SpecFile(sys.argv[2])
only=[a for a in sys.argv[3:] if a!='-v'] 
for it in sp.items:
    if only and not any(o in it.head for o in only): continue
    t=time.time()
    R=verify_item(prog, sp, it)
    bad=[o for o in R.obls if o.status!='proved']
    print("%-60s %d/%d paths=%s q=%s %.1fs %s"%(it.head,len(R.obls)-len(bad),len(R.obls),R.stats.get('paths'),R.stats.get('queries'),time.time()-t,R.error or ('SKIP' if R.skipped else '')),flush=True)
    if R.error and hasattr(R,'trace'): print('\n'.join(R.trace.strip().splitlines()[-7:]))
    for o in bad: print("   ",o.status,o.name,"line",o.line,"%.1fs"%o.time,(o.detail or '')[:600])
    for o in sorted(R.obls,key=lambda o:-o.time)[:4]:
        if o.time>2: print('    slow',o.name,'%.1f'%o.time,o.backend)
    if '-v' in sys.argv:
        for l in R.stats.get('loops',[]): print(l)
