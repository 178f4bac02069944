import json,sys
m=json.load(open('/verif/.cache/a/mir.json'))
T=m['types']
def ty(t): return T[t]['s'][:70]
def pp(k):
    i=m['insts'][k]; b=i['body']
    print('fn',i['inst'],i['span'],'argc',b['argc'])
    for n,l in enumerate(b['locals']): print('  _%d: %s'%(n,ty(l)))
    for n,bb in enumerate(b['bb']):
        print(' bb%d:'%n)
        for s in bb['s']: print('    ',json.dumps(s)[:260])
        print('    ->',json.dumps(bb['t'])[:400])
for k,i in m['insts'].items():
    if 'body' in i and any(a in i['inst'] for a in sys.argv[1:]): pp(k)
