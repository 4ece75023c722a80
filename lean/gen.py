#!/usr/bin/env python3
"""Prints lean/Field.lean followed by every axiom about the field found in specs/*.spec, translated
mechanically from its SMT-LIB text, each proved by the theorem of Field.lean with the same name and number."""
import glob,re,sys
KEYS=['bn_ax','bsum_ax','halve_ax','mul3_ax','field_ax','finv_ax','sum_ax','zsum_ax','lag_ax','interp_ax']
D='/verif/'
def parse(s):
    toks=re.findall(r'[()]|[^\s()]+',s); pos=0
    def go():
        nonlocal pos
        t=toks[pos]; pos+=1
        if t!='(' : return t
        r=[]
        while toks[pos]!=')': r.append(go())
        pos+=1
        return r
    out=[]
    while pos<len(toks): out.append(go())
    return out
def ty(t):
    if t=='Int': return 'ℤ'
    if t==['Array','Int','Int']: return 'Arr'
    raise Exception(t)
R={'P':'P','R':'R'}
def nm(x): return x
def tr(e):
    if isinstance(e,str):
        return f'({e} : ℤ)' if re.match(r'^\d+$',e) else e
    h=e[0]
    if h=='forall':
        b=e[2]
        if isinstance(b,list) and b[0]=='!': b=b[1]
        return '(∀ '+' '.join(f'({v} : {ty(t)})' for v,t in e[1])+', '+tr(b)+')'
    a=[tr(x) for x in e[1:]]
    if h=='=>': return '('+' → '.join(a)+')'
    if h=='and': return '('+' ∧ '.join(a)+')'
    if h=='or': return '('+' ∨ '.join(a)+')'
    if h=='not': return f'(¬ {a[0]})'
    if h=='=': return f'({a[0]} = {a[1]})'
    if h=='<=': return f'({a[0]} ≤ {a[1]})'
    if h=='<': return f'({a[0]} < {a[1]})'
    if h in ('mod','div'): return f"({a[0]} {'%' if h=='mod' else '/'} {a[1]})"
    if h in '+-*' and len(a)==2: return f'({a[0]} {h} {a[1]})'
    if h=='ite': return f'(if {a[0]} then {a[1]} else {a[2]})'
    if h=='select': return f'({a[0]} {a[1]})'
    return '('+h+' '+' '.join(a)+')'
def blocks():
    for f in sorted(glob.glob(D+'specs/*.spec')):
        cur=None
        for l in open(f):
            m=re.match(r'^smt (\w+)(.*)',l)
            if m:
                cur=m.group(1); txt=m.group(2)
                if cur in KEYS: yield cur,txt
            elif cur and l.startswith('  (assert'):
                if cur in KEYS: yield cur,l
            elif not l.startswith(' '): cur=None
out=[open(D+'lean/Field.lean').read(),'\nset_option linter.all false\nnamespace Gen\n']
cnt={}
for k,txt in blocks():
    for a in parse(txt):
        assert a[0]=='assert'
        cnt[k]=cnt.get(k,0)+1
        n=f'{k}_{cnt[k]}'
        out.append(f'theorem {n} : {tr(a[1])} := by\n  intros\n  first\n  | exact _root_.{n} ..\n  | (apply _root_.{n} <;> tauto)\n')
out.append('end Gen\n#print axioms interp_ax_1\n')
assert set(cnt)==set(KEYS),cnt
sys.stdout.write('\n'.join(out))
print('-- '+str(sum(cnt.values()))+' axioms')
