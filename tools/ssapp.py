#!/usr/bin/env python3
import json,sys
d=json.load(open(sys.argv[1])); T=d['types']
def v(x):
    if isinstance(x,dict):
        if x['c']=='const': return 'nil' if x.get('nil') else str(x.get('i',x.get('v',x.get('f'))))
        return x['c'][0]+':'+x['name']
    return str(x)
for n,f in sorted(d['funcs'].items()):
    if not any(p in n for p in sys.argv[2:]): continue
    print('==',n,'(',', '.join(p['n']+':'+T[p['t']]['str'] for p in f['params']),') fv',[x['n'] for x in f['freevars']],f.get('synth',''))
    for i,b in enumerate(f.get('blocks',[])):
        print(' %d: preds %s succs %s  ; %s'%(i,b['preds'],b['succs'],b['comment']))
        for s in b['ins']:
            r={k:(([v(y) for y in w] if isinstance(w,list) else v(w))) for k,w in s.items() if k not in('n','t','op','line','xt','sig','recvt','yt')}
            print('    %s%s %s   %s'%(s['n']+' = ' if 'n' in s else '',s['op'],' '.join('%s=%s'%(k,w) for k,w in r.items()), ':'+T[s['t']]['str'] if 't' in s else ''))
