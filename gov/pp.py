import json,sys
def v(x):
    if x is None: return '_'
    k=x['k']
    if k=='r': return x['n']
    if k=='c':
        if x.get('s'): return repr(bytes(x['v']).decode('latin1'))
        return str(x['v'])+':'+x['t']
    return k+':'+x['n']
def ins(i):
    d=dict(i); op=d.pop('op'); r=d.pop('r',None); t=d.pop('t',None); d.pop('line',None)
    s=[]
    for k,x in d.items():
        if isinstance(x,dict) and 'k' in x: s.append(f'{k}={v(x)}')
        elif k=='call':
            c=x
            s.append(('invoke '+v(c['recv'])+'.'+c['invoke'] if 'invoke' in c else v(c['fn']))+'('+', '.join(v(a) for a in c['args'])+')')
        elif isinstance(x,list) and x and isinstance(x[0],dict): s.append(f'{k}=['+', '.join(v(a) if 'k' in a else str(a) for a in x)+']')
        else: s.append(f'{k}={x}')
    return (f'{r}:{t} = ' if r else '')+op+' '+' '.join(s)
if __name__=='__main__':
    D=json.load(open(sys.argv[1]))
    for f in D['functions']:
        if any(a in f['name'] for a in sys.argv[2:]):
            print(f['name'],[p['name']+':'+p['t'] for p in f['params']],f['freevars'],f['results'],'recover',f.get('recover'))
            for b in f['blocks']:
                print(' B%d %s -> %s'%(b['i'],b['c'],b['succs']))
                for i in b['ins']: print('    ',ins(i))
