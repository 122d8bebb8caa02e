import json,glob,sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.'+e[1]
        elif e[0]=='v': s+=' as '+e[1]
        else: s+=str(e)
    return s
def op(o):
    if o['k'] in('copy','move'): return pl(o['p'])
    if o['k']=='fn': return o.get('rname') or o['name']
    return 'const '+str({k:v for k,v in o.items() if k not in('k',)})
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&'+('mut ' if r['m'] else '')+pl(r['p'])
    if k in('adt','tuple','array','closure','agg?'): return k+' '+str(r.get('adt',r.get('id','')))+'::'+str(r.get('v',''))+'('+', '.join(op(o) for o in r['os'])+')'
    if k=='bin': return '%s(%s,%s)'%(r['op'],op(r['a']),op(r['b']))
    if k=='discr': return 'discr(%s)'%pl(r['p'])
    if k=='cast': return '%s as %s [%s]'%(op(r['o']),r['ty'],r['ck'])
    return str(r)[:100]
def show(b):
    for i,(t,h) in enumerate(b['locals']): print('  _%d: %s'%(i,t[:90]))
    for n,p in b['names']: print('  ',n,'=',pl(p))
    for i,bl in enumerate(b['blocks']):
        if bl['c']: continue
        print(' bb%d:'%i)
        for s in bl['s']: print('   ',pl(s['d']),'=',rv(s['r']) if 'r' in s else s)
        t=bl['t']
        if t['k']=='call': print('   ',pl(t['d']),'= CALL',op(t['f']),'(',', '.join(op(a) for a in t['a']),') ->',t['t'],t['sp'])
        elif t['k']=='switch': print('    switch',op(t['o']),t['ts'],t['e'])
        else: print('   ',t)
if __name__=='__main__':
    d,_=build.mir()
    for f in sorted(glob.glob(d+'/*.json')):
        for fn in json.load(open(f))['fns']:
            if sys.argv[1] in fn['name'] or sys.argv[1] in fn['id'][2]:
                print(f[len(d)+1:],fn['name'],fn['id'],fn['span']); show(fn['body'])
                for i,p in enumerate(fn['promoted']): print(' promoted',i); show(p)
