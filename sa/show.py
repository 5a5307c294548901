import sys, json, glob
from build import CACHE
def pl(p):
    s=f"_{p[0]}"
    for e in p[1:]:
        if e[0]=='*': s=f"(*{s})"
        elif e[0]=='f': s+=f".{e[1]}"
        elif e[0]=='v': s=f"({s} as {e[1]})"
        elif e[0]=='i': s+=f"[_{e[1]}]"
        else: s+=str(e)
    return s
def op(o):
    if o['k'] in('copy','move'): return o['k'][0]+' '+pl(o['p'])
    if 'fn' in o: return 'fn:'+o['fn'].get('rpath',o['fn']['decl'])
    return 'const '+str(o.get('int',o.get('str',o.get('txt',o.get('closure',o.get('promoted'))))))+':'+o['ty']
def rv(r):
    k=r['r']
    if k=='use': return op(r['o'])
    if k=='ref': return ('&mut ' if r['mut'] else '&')+pl(r['p'])
    if k=='bin': return f"{r['op']}({op(r['a'])}, {op(r['b'])})"
    if k=='un': return f"{r['op']}({op(r['o'])})"
    if k=='cast': return f"{op(r['o'])} as {r['ty']} ({r['kind']})"
    if k=='discr': return f"discr({pl(r['p'])})"
    if k=='agg': return f"{r['kind']} {r.get('adt','')}::{r.get('variant','')}{r.get('closure','')}({', '.join(map(op,r['ops']))})"
    return str(r)
def show(f,b=None,title=''):
    b=b or f['body']
    print('fn',f['id'],'=',f['path'],title,f['span'])
    print('  names',{k:pl(v) for k,v in b['names'].items()})
    for i,l in enumerate(b['locals']): print(f"   _{i}: {l['s']}")
    for i,bb in enumerate(b['blocks']):
        if bb['cleanup']: continue
        print(f'  bb{i}:')
        for s in bb['s']:
            if 'dead' in s: continue
            if 'setv' in s: print('     setdiscr',pl(s['d']),s['setv']);continue
            print('    ',pl(s['d']),'=',rv(s['v']))
        t=bb['t']
        if t['t']=='call':
            fn=t.get('fn')
            n=(fn.get('rpath') or fn['decl'])+(' ['+fn['decl']+']' if fn.get('rpath') and fn['rpath']!=fn['decl'] else '') if fn else 'dyn '+op(t['fnop'])
            print('    ',pl(t['dest']),'=',n,'(',', '.join(map(op,t['args'])),') ->',t['to'],'L',t['at'][1])
        elif t['t']=='switch': print('     switch',op(t['o']),t['cases'],'else',t['else'])
        elif t['t']=='drop': print('     drop',pl(t['p']),t['ty']['s'],'->',t['to'])
        elif t['t']=='assert': print('     assert',op(t['o']),t['exp'],t['msg'],'->',t['to'])
        else: print('    ',{k:v for k,v in t.items() if k!='at'})
if __name__=='__main__':
    for fn in glob.glob(CACHE+'/facts/*.json'):
        for f in json.load(open(fn))['fns']:
            if all(x in f['id']+' '+f['path'] for x in sys.argv[1:]): show(f); [show(f,p,'promoted') for p in f['promoted']] if '-p' in sys.argv else 0
