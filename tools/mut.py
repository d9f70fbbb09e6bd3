import ast, os, random, sys, json, subprocess, shutil, concurrent.futures as cf, threading, queue, hashlib
SW_CMP={ast.Lt:['<=','>'],ast.LtE:['<','>='],ast.Gt:['>=','<'],ast.GtE:['>','<='],ast.Eq:['!='],ast.NotEq:['=='],ast.Is:['is not'],ast.IsNot:['is'],ast.In:['not in'],ast.NotIn:['in']}
SW_BIN={ast.Add:['-'],ast.Sub:['+'],ast.Mult:['/'],ast.Div:['*'],ast.Pow:['*'],ast.FloorDiv:['/'],ast.Mod:['//'],ast.BitAnd:['|'],ast.BitOr:['&'],ast.MatMult:['*']}
def mutants(src):
    tree=ast.parse(src)
    lines=src.split('\n')
    offs=[0]
    bl=[l.encode() for l in lines]
    for l in bl: offs.append(offs[-1]+len(l)+1)
    b=src.encode()
    pos=lambda ln,col: offs[ln-1]+col
    span=lambda n:(pos(n.lineno,n.col_offset),pos(n.end_lineno,n.end_col_offset))
    seg=lambda n:b[slice(*span(n))].decode()
    out=[]
    def add(n,s,e,new,kind): out.append((s,e,new,kind,n.lineno))
    def skip_call(n):
        t=ast.unparse(n.func)
        return t.split('.')[0] in('logger','logging','print','warnings','plt') or 'logger' in t or t.endswith('Error') or t.endswith('Exception') or t=='super'
    def visit(n,infn=False):
        if isinstance(n,(ast.FunctionDef,ast.AsyncFunctionDef)):
            for s in n.body: visit(s,True)
            for d in n.args.defaults+[x for x in n.args.kw_defaults if x]: visit(d,True)
            return
        if isinstance(n,ast.ClassDef):
            for s in n.body: visit(s)
            return
        if isinstance(n,(ast.Import,ast.ImportFrom,ast.Raise,ast.Assert)): return
        if isinstance(n,ast.AnnAssign):
            if n.value: visit(n.value,infn)
            return
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): return
        if isinstance(n,ast.If) and 'TYPE_CHECKING' in ast.unparse(n.test): return
        if isinstance(n,ast.Call) and skip_call(n): return
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call):
            if skip_call(n.value): return
            add(n,*span(n),'pass','del-stmt')
        if isinstance(n,(ast.AugAssign,)):
            add(n,*span(n),'pass','del-stmt')
        if isinstance(n,ast.Assign) and infn and not isinstance(n.targets[0],ast.Name) :
            add(n,*span(n),'pass','del-stmt')
        if isinstance(n,(ast.If,ast.IfExp,ast.While)):
            s,e=span(n.test)
            if isinstance(n,(ast.If,ast.IfExp)):
                add(n,s,e,'True','cond'); add(n,s,e,'False','cond')
        if isinstance(n,ast.Compare):
            l=n.left
            for op,r in zip(n.ops,n.comparators):
                s,e=span(l)[1],span(r)[0]
                mid=b[s:e].decode()
                if '(' not in mid and ')' not in mid and '\n' not in mid:
                    for o in SW_CMP.get(type(op),[]): add(n,s,e,f' {o} ','cmp')
                l=r
        if isinstance(n,ast.BinOp):
            s,e=span(n.left)[1],span(n.right)[0]
            mid=b[s:e].decode()
            import re
            m=re.fullmatch(r'([\s)]*)(\*\*|//|[-+*/%&|@])([\s(]*)',mid)
            if m:
                for o in SW_BIN.get(type(n.op),[]): add(n,s,e,m[1]+o+m[3],'bin')
        if isinstance(n,ast.BoolOp):
            for x,y in zip(n.values,n.values[1:]):
                s,e=span(x)[1],span(y)[0]; mid=b[s:e].decode()
                o='or' if isinstance(n.op,ast.And) else 'and'; w='and' if o=='or' else 'or'
                if mid.count(w)==1: add(n,s,e,mid.replace(w,o),'bool')
        if isinstance(n,ast.UnaryOp):
            s,e=span(n); s2,_=span(n.operand)
            add(n,s,e,f'({seg(n.operand)})','unary')
        if isinstance(n,ast.Constant):
            s,e=span(n)
            v=n.value
            if isinstance(v,bool): add(n,s,e,str(not v),'const')
            elif isinstance(v,int): add(n,s,e,str(v+1),'const'); add(n,s,e,f'({v-1})','const')
            elif isinstance(v,float): add(n,s,e,repr(v*1.001 if v else 1e-3),'const'); add(n,s,e,f'({-v!r})','const')
            elif v is None and False: pass
        if isinstance(n,ast.Call):
            f=ast.unparse(n.func)
            a=[x for x in n.args if not isinstance(x,ast.Starred)]
            if f in('abs','np.abs','np.absolute','np.conj','np.sqrt','np.sort','sorted','np.flip','np.real','list','tuple','set') and a: add(n,*span(n),f'({seg(a[0])})','drop-call')
            if isinstance(n.func,ast.Attribute) and n.func.attr in('conj','copy','ravel','strip','lower','upper','T','sort','reverse'):
                add(n,*span(n),seg(n.func.value),'drop-meth')
            if f in ('min','max'): add(n,*span(n.func),{'min':'max','max':'min'}[f],'minmax')
            if len(n.args)>=2 and len(a)==len(n.args):
                for x,y in zip(a,a[1:]):
                    s,e=span(x)[0],span(y)[1]
                    mid=b[span(x)[1]:span(y)[0]].decode()
                    if seg(x)!=seg(y): add(n,s,e,seg(y)+mid+seg(x),'swap-args')
            for i,k in enumerate(n.keywords):
                if k.arg:
                    s,e=span(k)
                    # drop keyword incl. following comma
                    t=e
                    rest=b[e:e+40]
                    m=__import__('re').match(rb'\s*,\s*',rest)
                    if m: add(n,s,e+m.end(),'','drop-kw')
                    else: add(n,s,e,'','drop-kw')
        if isinstance(n,ast.Attribute) and n.attr in('real','imag') and isinstance(n.ctx,ast.Load):
            s,e=span(n); add(n,s,e,seg(n.value)+'.'+('imag' if n.attr=='real' else 'real'),'reim')
        if isinstance(n,ast.Attribute) and n.attr=='T' and isinstance(n.ctx,ast.Load):
            s,e=span(n); add(n,s,e,seg(n.value),'noT')
        if isinstance(n,ast.Slice):
            for x in (n.lower,n.upper):
                if x is not None: add(n,*span(x),'','slice')
        if isinstance(n,ast.JoinedStr): return
        for c in ast.iter_child_nodes(n): visit(c,infn)
    for s in tree.body: visit(s)
    res=[]
    seen=set()
    for s,e,new,kind,ln in out:
        t=(b[:s]+new.encode()+b[e:]).decode()
        if t in seen or t==src: continue
        try: ast.parse(t)
        except SyntaxError: continue
        seen.add(t)
        res.append(dict(line=ln,kind=kind,old=b[s:e].decode(),new=new,text=t))
    return res
if __name__=='__main__':
    for f in sys.argv[1:]:
        m=mutants(open(f).read())
        print(f,len(m))
