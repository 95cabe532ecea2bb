import json,sys
sys.path.insert(0,'/verif/analysis')
def pl(p):
    s='_%d'%p['l']
    for e in p['p']:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.'+str(e[2])
        elif e[0]=='v': s='(%s as %s)'%(s,e[2])
        else: s+=str(e)
    return s
def op(o):
    if o['k'] in('copy','move'): return ('' if o['k']=='copy' else 'move ')+pl(o['p'])
    if 'fn' in o: return o['pretty']+((' => '+o['rp']) if 'rp' in o else '')
    return 'const '+str(o.get('v',o.get('str',o.get('raw','zst'))))
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&%s %s'%(r['m'],pl(r['p']))
    if k=='bin': return '%s %s %s'%(op(r['a']),r['op'],op(r['b']))
    if k=='un': return '%s %s'%(r['op'],op(r['a']))
    if k=='cast': return '%s as %s'%(op(r['o']),r['ck'])
    if k=='discr': return 'discr '+pl(r['p'])
    if k=='agg': return '%s(%s)'%(r['a'].get('p',r['a']['k'])+('#%d'%r['a']['v'] if 'v' in r['a'] else ''),', '.join(map(op,r['o'])))
    return str(r)
for c in ['pango_lexer','pango_parser']:
    d=json.load(open(f'/verif/.build/work/dump/{c}.json'))
    for b in d['bodies']:
        if sys.argv[1] in b['path'] or sys.argv[1] in b['pretty']:
            print('==',b['path'],b['pretty'],b['span'])
            for i,bb in enumerate(b['blocks']):
                if bb['cleanup']: continue
                print(' bb%d:'%i)
                for s in bb['s']:
                    if s['k']=='=': print('   %s = %s'%(pl(s['p']),rv(s['r'])))
                    elif s['k']!='dead': print('  ',s)
                t=bb['t']
                if t['k']=='call': print('   %s = %s(%s) -> %s'%(pl(t['d']),op(t['f']),', '.join(map(op,t['a'])),t['t']))
                elif t['k']=='switch': print('   switch %s %s else %s'%(op(t['o']),t['ts'],t['else']))
                else: print('  ',{k:v for k,v in t.items() if k not in('span','p')})
