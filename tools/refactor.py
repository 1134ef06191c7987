"""behaviour-preserving transformations of whole modules; usage: autoref.py TRANSFORM SRCROOT [relfile[:function] ...]"""
import ast,sys,os,copy
T=sys.argv[1]; root=sys.argv[2]; only=sys.argv[3:]
def names(n,ctx):
    return [x.id for x in ast.walk(n) if isinstance(x,ast.Name) and isinstance(x.ctx,ctx)]
def simple(f):
    return not f.decorator_list and not any(isinstance(x,(ast.FunctionDef,ast.Lambda,ast.ClassDef,ast.Global,ast.Nonlocal,ast.Yield,ast.YieldFrom,ast.Await)) for x in ast.walk(f) if x is not f)
def params(f):
    a=f.args; r=[x.arg for x in a.posonlyargs+a.args+a.kwonlyargs]
    if a.vararg: r.append(a.vararg.arg)
    if a.kwarg: r.append(a.kwarg.arg)
    return r
cnt=[0]
def fresh(p):
    cnt[0]+=1; return "%s_%d"%(p,cnt[0])
class Blocks(ast.NodeTransformer):
    """applies self.block to every statement list"""
    def generic_visit(self,n):
        super().generic_visit(n)
        for f in ("body","orelse","finalbody"):
            b=getattr(n,f,None)
            if isinstance(b,list) and b and isinstance(b[0],ast.stmt) :
                setattr(n,f,self.block(b,n))
        return n
    def block(self,b,n): return b
# ---- per-function transforms
def rename(f):
    if not simple(f): return
    ps=set(params(f)); loc={x for x in names(f,(ast.Store,))}-ps
    comp=set()
    imp={a.asname or a.name.split(".")[0] for x in ast.walk(f) if isinstance(x,(ast.Import,ast.ImportFrom)) for a in x.names}
    exc={x.name for x in ast.walk(f) if isinstance(x,ast.ExceptHandler) and x.name}
    loc-=imp|exc
    for x in ast.walk(f):
        if isinstance(x,ast.Name) and x.id in loc: x.id="my_"+x.id
def dotted(e):
    while isinstance(e,ast.Attribute): e=e.value
    return isinstance(e,ast.Name)
def hoist(f):
    if f.decorator_list: return
    class H(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                c=None
                if isinstance(s,(ast.Assign,ast.Return,ast.Expr)): c=s.value
                if isinstance(c,ast.Call) and dotted(c.func) and not any(isinstance(a,ast.Starred) for a in c.args):
                    for i,a in enumerate(c.args):
                        if isinstance(a,(ast.Call,ast.BinOp,ast.Compare,ast.BoolOp)):
                            v=fresh("tmp"); out.append(ast.Assign([ast.Name(v,ast.Store())],a,lineno=1)); c.args[i]=ast.Name(v,ast.Load())
                    for k in c.keywords:
                        if k.arg and isinstance(k.value,(ast.Call,ast.BinOp,ast.Compare,ast.BoolOp)):
                            v=fresh("tmp"); out.append(ast.Assign([ast.Name(v,ast.Store())],k.value,lineno=1)); k.value=ast.Name(v,ast.Load())
                out.append(s)
            return out
    H().visit(f)
def invert(f):
    if f.decorator_list: return
    class V(ast.NodeTransformer):
        def visit_If(self,n):
            self.generic_visit(n)
            if n.orelse and not (len(n.orelse)==1 and isinstance(n.orelse[0],ast.If)):
                n.test=n.test.operand if isinstance(n.test,ast.UnaryOp) and isinstance(n.test.op,ast.Not) else ast.UnaryOp(ast.Not(),n.test)
                n.body,n.orelse=n.orelse,n.body
            return n
    V().visit(f)
def ends(b):
    return isinstance(b[-1],(ast.Return,ast.Continue,ast.Raise,ast.Break))
def guard(f):
    """if c: ...return ; rest  ->  if c: ... return  else: rest"""
    class V(Blocks):
        def block(self,b,n):
            for i,s in enumerate(b):
                if isinstance(s,ast.If) and not s.orelse and ends(s.body) and i+1<len(b):
                    s.orelse=b[i+1:]; return b[:i+1]
            return b
    V().visit(f)
def unguard(f):
    """if c: ...return else: rest -> flat"""
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for i,s in enumerate(b):
                out.append(s)
                if isinstance(s,ast.If) and s.orelse and ends(s.body):
                    out+=s.orelse; s.orelse=[]
            return out
    V().visit(f)
def ret(f):
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.Return) and s.value is not None and not isinstance(s.value,(ast.Name,ast.Constant)):
                    v=fresh("result"); out.append(ast.Assign([ast.Name(v,ast.Store())],s.value,lineno=1)); s.value=ast.Name(v,ast.Load())
                out.append(s)
            return out
    V().visit(f)
def hoistif(f):
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            if isinstance(n,ast.If) and len(b)==1 and b is n.orelse and isinstance(b[0],ast.If) : pass
            out=[]
            for s in b:
                if isinstance(s,ast.If):
                    v=fresh("cond"); out.append(ast.Assign([ast.Name(v,ast.Store())],s.test,lineno=1)); s.test=ast.Name(v,ast.Load())
                out.append(s)
            return out
    V().visit(f)
def andif(f):
    class V(ast.NodeTransformer):
        def visit_If(self,n):
            self.generic_visit(n)
            if not n.orelse and isinstance(n.test,ast.BoolOp) and isinstance(n.test.op,ast.And):
                vs=n.test.values; inner=n.body
                for v in reversed(vs[1:]): inner=[ast.If(v,inner,[])]
                n.test=vs[0]; n.body=inner
            return n
    V().visit(f)
def flip(f):
    M={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE,ast.Eq:ast.Eq,ast.NotEq:ast.NotEq}
    class V(ast.NodeTransformer):
        def visit_Compare(self,n):
            self.generic_visit(n)
            if len(n.ops)==1 and type(n.ops[0]) in M:
                return ast.Compare(n.comparators[0],[M[type(n.ops[0])]()],[n.left])
            return n
        def visit_BinOp(self,n):
            self.generic_visit(n)
            if isinstance(n.op,ast.Mult): n.left,n.right=n.right,n.left
            return n
    V().visit(f)
def tern(f):
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.If) and len(s.body)==1 and len(s.orelse)==1 and isinstance(s.body[0],ast.Assign) and isinstance(s.orelse[0],ast.Assign) and ast.dump(s.body[0].targets[0])==ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0],ast.Name):
                    out.append(ast.Assign(s.body[0].targets,ast.IfExp(s.test,s.body[0].value,s.orelse[0].value),lineno=1)); continue
                if isinstance(s,ast.Assign) and isinstance(s.value,ast.IfExp):
                    t=s.targets
                    out.append(ast.If(s.value.test,[ast.Assign(t,s.value.body,lineno=1)],[ast.Assign(copy.deepcopy(t),s.value.orelse,lineno=1)])); continue
                out.append(s)
            return out
    V().visit(f)
def comp(f):
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name) and isinstance(s.value,ast.ListComp) and len(s.value.generators)==1:
                    g=s.value.generators[0]; acc=fresh("acc"); m={x:fresh(x) for x in names(g.target,(ast.Store,))}
                    elt=s.value.elt
                    for tree in [g.target,elt]+g.ifs:
                        for x in ast.walk(tree):
                            if isinstance(x,ast.Name) and x.id in m: x.id=m[x.id]
                    app=ast.Expr(ast.Call(ast.Attribute(ast.Name(acc,ast.Load()),"append",ast.Load()),[elt],[]))
                    body=[app]
                    for c in reversed(g.ifs): body=[ast.If(c,body,[])]
                    out+=[ast.Assign([ast.Name(acc,ast.Store())],ast.List([],ast.Load()),lineno=1),ast.For(g.target,g.iter,body,[],lineno=1),ast.Assign(s.targets,ast.Name(acc,ast.Load()),lineno=1)]
                    continue
                out.append(s)
            return out
    V().visit(f)
def uncond(b):
    """names surely assigned by the statements"""
    s=set()
    for x in b:
        if isinstance(x,ast.Assign):
            for t in x.targets: s|={y.id for y in ast.walk(t) if isinstance(y,ast.Name) and isinstance(y.ctx,ast.Store)}
        elif isinstance(x,ast.If) and x.orelse:
            l=[uncond(q) for q in (x.body,x.orelse) if not ends(q)]
            if l: s|=set.intersection(*l)
        elif isinstance(x,ast.With): s|=uncond(x.body)
        elif isinstance(x,(ast.Import,ast.ImportFrom)): s|={a.asname or a.name for a in x.names}
    return s
def extract(f,helpers,lo,hi):
    if not simple(f): return
    doc=1 if f.body and isinstance(f.body[0],ast.Expr) and isinstance(f.body[0].value,ast.Constant) else 0
    body=f.body[doc:]; n=len(body)
    if n<4: return
    a,b=int(n*lo),max(int(n*hi),int(n*lo)+1)
    blk=body[a:b]
    def bad(x):
        return isinstance(x,(ast.Return,ast.Delete,ast.Import,ast.ImportFrom))
    if any(bad(y) for x in blk for y in ast.walk(x)): return
    def looseloop(ss,inl=False):
        for x in ss:
            if isinstance(x,(ast.Break,ast.Continue)) and not inl: return True
            for fld in ("body","orelse","finalbody"):
                q=getattr(x,fld,[])
                if q and isinstance(q,list) and isinstance(q[0],ast.stmt) and looseloop(q,inl or isinstance(x,(ast.For,ast.While))): return True
        return False
    if looseloop(blk): return
    before=set(params(f))|uncond(body[:a])
    allbefore=set(params(f))|{z for x in body[:a] for z in names(x,(ast.Store,))}
    w={z for x in blk for z in names(x,(ast.Store,))}
    r={z for x in blk for z in names(x,(ast.Load,))}
    r|={x2.target.id for x in blk for x2 in ast.walk(x) if isinstance(x2,ast.AugAssign) and isinstance(x2.target,ast.Name)}
    allloc=set(params(f))|{z for z in names(f,(ast.Store,))}
    need=(r&allloc&allbefore)
    sure=uncond(blk)
    after={z for x in body[b:] for z in names(x,(ast.Load,))}|{x2.target.id for x in body[b:] for x2 in ast.walk(x) if isinstance(x2,ast.AugAssign) and isinstance(x2.target,ast.Name)}
    outs=sorted(w&after)
    need|=(set(outs)-sure)&allbefore
    if not need<=before: return
    if not all(o in sure or o in need for o in outs): return
    need=sorted(need); hn="_%s_part"%f.name
    if f.args.vararg or f.args.kwarg: return
    imps=[copy.deepcopy(x) for x in ast.walk(f) if isinstance(x,(ast.Import,ast.ImportFrom))]
    hb=imps+list(blk)
    call=ast.Call(ast.Name(hn,ast.Load()),[ast.Name(x,ast.Load()) for x in need],[])
    if outs:
        rv=ast.Name(outs[0],ast.Load()) if len(outs)==1 else ast.Tuple([ast.Name(x,ast.Load()) for x in outs],ast.Load())
        hb.append(ast.Return(rv))
        tg=ast.Name(outs[0],ast.Store()) if len(outs)==1 else ast.Tuple([ast.Name(x,ast.Store()) for x in outs],ast.Store())
        st=ast.Assign([tg],call,lineno=1)
    else: st=ast.Expr(call)
    helpers.append(ast.FunctionDef(hn,ast.arguments([],[ast.arg(x) for x in need],None,[],[],None,[]),hb,[],lineno=1))
    f.body=f.body[:doc]+body[:a]+[st]+body[b:]
def wrap(f,helpers):
    if f.decorator_list or f.args.vararg or f.args.kwarg or f.args.kwonlyargs: return
    if any(isinstance(x,ast.Name) and x.id==f.name for x in ast.walk(f)): return
    hn="_%s_impl"%f.name
    g=copy.deepcopy(f); g.name=hn; g.args.defaults=[]
    for a in g.args.args: a.annotation=None
    helpers.append(g)
    doc=f.body[:1] if isinstance(f.body[0],ast.Expr) and isinstance(f.body[0].value,ast.Constant) else []
    f.body=doc+[ast.Return(ast.Call(ast.Name(hn,ast.Load()),[ast.Name(a.arg,ast.Load()) for a in f.args.args],[]))]
def swap(f):
    PURE={"np","numpy"}
    def pure(e):
        for x in ast.walk(e):
            if isinstance(x,ast.Call):
                g=x.func
                while isinstance(g,ast.Attribute): g=g.value
                if not(isinstance(g,ast.Name) and g.id in PURE) or "random" in ast.dump(x.func): return False
            if isinstance(x,(ast.NamedExpr,ast.Await,ast.Yield,ast.Lambda)): return False
        return True
    def ok(s): return isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name) and pure(s.value)
    class V(Blocks):
        def block(self,b,n):
            i=0
            while i+1<len(b):
                s,t=b[i],b[i+1]
                if ok(s) and ok(t):
                    ws,wt=s.targets[0].id,t.targets[0].id
                    if ws!=wt and ws not in names(t.value,(ast.Load,)) and wt not in names(s.value,(ast.Load,)):
                        b[i],b[i+1]=t,s; i+=2; continue
                i+=1
            return b
    V().visit(f)
def inline(f):
    """x = e (pure names/attributes/subscripts-free) used exactly once, in the next statement"""
    if not simple(f): return
    class V(Blocks):
        def block(self,b,n):
            out=[]; i=0
            while i<len(b):
                s=b[i]
                if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name) and i+1<len(b):
                    v=s.targets[0].id; nx=b[i+1]
                    tot=sum(1 for x in ast.walk(f) if isinstance(x,ast.Name) and x.id==v)
                    if isinstance(nx,(ast.Assign,ast.Return)) and tot==2 and nx.value is not None and names(nx.value,(ast.Load,)).count(v)==1 and not any(isinstance(x,(ast.ListComp,ast.DictComp,ast.SetComp,ast.GeneratorExp,ast.IfExp,ast.BoolOp,ast.Call)) for x in ast.walk(nx.value)):
                        class R(ast.NodeTransformer):
                            def visit_Name(self,x): return s.value if x.id==v else x
                        nx.value=R().visit(nx.value); i+=1; continue
                out.append(s); i+=1
            return out
    V().visit(f)
def loopelse(f):
    """for x in it: if c: body  -> for x in it: if not c: continue; body"""
    class V(ast.NodeTransformer):
        def visit_For(self,n):
            self.generic_visit(n)
            if len(n.body)==1 and isinstance(n.body[0],ast.If) and not n.body[0].orelse:
                i=n.body[0]
                n.body=[ast.If(ast.UnaryOp(ast.Not(),i.test),[ast.Continue()],[])]+i.body
            return n
    V().visit(f)
def ranges(f):
    """for x in NAME -> for i in range(len(NAME)): x = NAME[i]   (lists only: names assigned from list displays/comprehensions)"""
    lists={s.targets[0].id for s in ast.walk(f) if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name) and isinstance(s.value,(ast.List,ast.ListComp))}
    class V(ast.NodeTransformer):
        def visit_For(self,n):
            self.generic_visit(n)
            if isinstance(n.iter,ast.Name) and n.iter.id in lists:
                i=fresh("pos"); nm=n.iter.id
                n.body=[ast.Assign([n.target],ast.Subscript(ast.Name(nm,ast.Load()),ast.Name(i,ast.Load()),ast.Load()),lineno=1)]+n.body
                n.target=ast.Name(i,ast.Store())
                n.iter=ast.Call(ast.Name("range",ast.Load()),[ast.Call(ast.Name("len",ast.Load()),[ast.Name(nm,ast.Load())],[])],[])
            return n
    V().visit(f)
def column(f):
    """df["x"] = e -> v = e; df["x"] = v"""
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],(ast.Subscript,ast.Attribute)) and not isinstance(s.value,(ast.Name,ast.Constant)) and isinstance(s.targets[0].value,ast.Name):
                    v=fresh("val"); out.append(ast.Assign([ast.Name(v,ast.Store())],s.value,lineno=1)); s.value=ast.Name(v,ast.Load())
                out.append(s)
            return out
    V().visit(f)
def binhoist(f):
    """every binary operation's compound left operand into a variable (top level of an assigned/returned expression), right after"""
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,(ast.Assign,ast.Return)) and isinstance(s.value,ast.BinOp):
                    for side in ("left","right"):
                        e=getattr(s.value,side)
                        if isinstance(e,(ast.BinOp,ast.Call)):
                            v=fresh(side); out.append(ast.Assign([ast.Name(v,ast.Store())],e,lineno=1)); setattr(s.value,side,ast.Name(v,ast.Load()))
                out.append(s)
            return out
    V().visit(f)
SIMPLE=dict(rename=rename,hoist=hoist,invert=invert,guard=guard,unguard=unguard,ret=ret,hoistif=hoistif,andif=andif,flip=flip,tern=tern,comp=comp,swap=swap,inline=inline,loopelse=loopelse,ranges=ranges,column=column,binhoist=binhoist)
# appended to autoref.py: more transforms
def whilefor(f):
    """for x in range(n) (n a name) -> while"""
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.For) and isinstance(s.iter,ast.Call) and isinstance(s.iter.func,ast.Name) and s.iter.func.id=="range" and len(s.iter.args)==1 and isinstance(s.target,ast.Name) and not s.orelse and not any(isinstance(x,ast.Continue) for x in ast.walk(s)) and s.target.id not in [y for z in s.body for y in names(z,(ast.Store,))]:
                    v=s.target.id; e=fresh("end")
                    out+=[ast.Assign([ast.Name(e,ast.Store())],s.iter.args[0],lineno=1),ast.Assign([ast.Name(v,ast.Store())],ast.Constant(0),lineno=1),
                      ast.While(ast.Compare(ast.Name(v,ast.Load()),[ast.Lt()],[ast.Name(e,ast.Load())]),s.body+[ast.AugAssign(ast.Name(v,ast.Store()),ast.Add(),ast.Constant(1))],[])]
                    continue
                out.append(s)
            return out
    V().visit(f)
def aug(f):
    """x += c (numbers) -> x = x + c ; x = x + c -> x += c for constants"""
    class V(ast.NodeTransformer):
        def visit_AugAssign(self,n):
            if isinstance(n.target,ast.Name) and isinstance(n.value,ast.Constant) and isinstance(n.value.value,(int,float)):
                return ast.Assign([n.target],ast.BinOp(ast.Name(n.target.id,ast.Load()),n.op,n.value),lineno=1)
            return n
    V().visit(f)
def drop(f):
    """else after elif chain: nested tests a and b -> b2 = a; ..."""
def demorgan(f):
    class V(ast.NodeTransformer):
        def visit_If(self,n):
            self.generic_visit(n); n.test=dm(n.test); return n
    def dm(t):
        if isinstance(t,ast.BoolOp):
            op=ast.Or() if isinstance(t.op,ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(),ast.BoolOp(op,[ast.UnaryOp(ast.Not(),v) for v in t.values]))
        return t
    V().visit(f)
def swapor(f):
    """commuted and/or of tests made of names, attributes, constants and comparisons only"""
    def pure(e): return not any(isinstance(x,(ast.Call,ast.Subscript,ast.NamedExpr,ast.Attribute)) for x in ast.walk(e))
    class V(ast.NodeTransformer):
        def visit_BoolOp(self,n):
            self.generic_visit(n)
            if all(pure(v) and isinstance(v,ast.Compare) and isinstance(v.ops[0],(ast.Eq,ast.NotEq,ast.Is,ast.IsNot)) for v in n.values): n.values.reverse()
            return n
    V().visit(f)
def earlyelse(f):
    """if c: A else: B (last statement, A and B without returns) -> if c: A; return ; B"""
    if f.decorator_list: return
    b=f.body
    if b and isinstance(b[-1],ast.If) and b[-1].orelse and not any(isinstance(x,(ast.Return,ast.Yield)) for x in ast.walk(b[-1])) and f.name!="__init__":
        s=b[-1]; e=s.orelse; s.orelse=[]; s.body=s.body+[ast.Return(None)]; f.body=b[:-1]+[s]+e
def fstr(f):
    """f-strings -> format calls"""
    class V(ast.NodeTransformer):
        def visit_JoinedStr(self,n):
            self.generic_visit(n)
            t="";a=[]
            for v in n.values:
                if isinstance(v,ast.Constant): t+=v.value.replace("{","{{").replace("}","}}")
                else:
                    if v.conversion!=-1: return n
                    if v.format_spec is not None:
                        if not(len(v.format_spec.values)==1 and isinstance(v.format_spec.values[0],ast.Constant)): return n
                        t+="{:"+v.format_spec.values[0].value+"}"
                    else: t+="{}"
                    a.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(t),"format",ast.Load()),a,[])
        def visit_FormattedValue(self,n): n.value=self.visit(n.value); return n
    V().visit(f)
def concat(f):
    """f-strings made of constants and names -> + str(..)"""
    class V(ast.NodeTransformer):
        def visit_JoinedStr(self,n):
            if any(isinstance(v,ast.FormattedValue) and (v.format_spec is not None or v.conversion!=-1) for v in n.values): return n
            parts=[v if isinstance(v,ast.Constant) else ast.Call(ast.Name("str",ast.Load()),[v.value],[]) for v in n.values]
            if not parts: return n
            e=parts[0]
            for p in parts[1:]: e=ast.BinOp(e,ast.Add(),p)
            return e
    V().visit(f)
def dotcol(f):
    """df["a"].values -> df["a"].to_numpy()"""
    class V(ast.NodeTransformer):
        def visit_Attribute(self,n):
            self.generic_visit(n)
            if n.attr=="values" and isinstance(n.ctx,ast.Load) and isinstance(n.value,ast.Subscript):
                return ast.Call(ast.Attribute(n.value,"to_numpy",ast.Load()),[],[])
            return n
    V().visit(f)
def npsq(f):
    """x**2 -> x*x for names/attributes/subscripts; np.sqrt(x) -> x**0.5 no"""
    class V(ast.NodeTransformer):
        def visit_BinOp(self,n):
            self.generic_visit(n)
            if isinstance(n.op,ast.Pow) and isinstance(n.right,ast.Constant) and n.right.value==2 and isinstance(n.left,(ast.Name,ast.Attribute)):
                return ast.BinOp(n.left,ast.Mult(),copy.deepcopy(n.left))
            if isinstance(n.op,ast.Div) and isinstance(n.right,ast.Constant) and n.right.value==2:
                return ast.BinOp(ast.Constant(.5),ast.Mult(),n.left)
            return n
    V().visit(f)
def arrayfn(f):
    """len(df)==0 <-> df.empty ; `not X.empty` etc left"""
    class V(ast.NodeTransformer):
        def visit_Attribute(self,n):
            self.generic_visit(n)
            if n.attr=="empty" and not(isinstance(n.value,ast.Name) and n.value.id=="np") and isinstance(n.ctx,ast.Load):
                return ast.Compare(ast.Call(ast.Name("len",ast.Load()),[n.value],[]),[ast.Eq()],[ast.Constant(0)])
            return n
    V().visit(f)
def tuples(f):
    """x = a; y = b (consecutive, independent, names) -> x, y = a, b"""
    def ok(s): return isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name)
    class V(Blocks):
        def block(self,b,n):
            out=[];i=0
            while i<len(b):
                if i+1<len(b) and ok(b[i]) and ok(b[i+1]) and b[i].targets[0].id!=b[i+1].targets[0].id and b[i].targets[0].id not in names(b[i+1].value,(ast.Load,)):
                    out.append(ast.Assign([ast.Tuple([b[i].targets[0],b[i+1].targets[0]],ast.Store())],ast.Tuple([b[i].value,b[i+1].value],ast.Load()),lineno=1)); i+=2; continue
                out.append(b[i]); i+=1
            return out
    V().visit(f)
def untuple(f):
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Tuple) and not isinstance(s.value,ast.Tuple) and all(isinstance(e,ast.Name) for e in s.targets[0].elts) and not f.decorator_list:
                    v=fresh("res"); out.append(ast.Assign([ast.Name(v,ast.Store())],s.value,lineno=1))
                    for i,e in enumerate(s.targets[0].elts): out.append(ast.Assign([e],ast.Subscript(ast.Name(v,ast.Load()),ast.Constant(i),ast.Load()),lineno=1))
                    continue
                out.append(s)
            return out
    V().visit(f)
def selfvar(f):
    """self.x read several times -> local"""
    if f.decorator_list or f.name=="__init__" or not f.args.args or f.args.args[0].arg!="self": return
    st={x.attr for x in ast.walk(f) if isinstance(x,ast.Attribute) and not isinstance(x.ctx,ast.Load)}
    called={x.func.attr for x in ast.walk(f) if isinstance(x,ast.Call) and isinstance(x.func,ast.Attribute)}
    if any(isinstance(x,ast.Call) and isinstance(x.func,ast.Attribute) and isinstance(x.func.value,ast.Name) and x.func.value.id=="self" for x in ast.walk(f)) or any(isinstance(x,ast.Call) and isinstance(x.func,ast.Attribute) and isinstance(x.func.value,ast.Call) for x in ast.walk(f)): return
    at={}
    for x in ast.walk(f):
        if isinstance(x,ast.Attribute) and isinstance(x.value,ast.Name) and x.value.id=="self": at[x.attr]=at.get(x.attr,0)+1
    use=[a for a,k in at.items() if k>1 and a not in st and a not in called]
    class V(ast.NodeTransformer):
        def visit_Attribute(self,n):
            self.generic_visit(n)
            if isinstance(n.value,ast.Name) and n.value.id=="self" and n.attr in use: return ast.Name("self_"+n.attr,n.ctx)
            return n
    top=set()
    # only attributes read unconditionally at top level of the body
    for s in f.body:
        if isinstance(s,(ast.Assign,ast.Expr,ast.Return)): top|={x.attr for x in ast.walk(s) if isinstance(x,ast.Attribute) and isinstance(x.value,ast.Name) and x.value.id=="self"}
    use=[a for a in use if a in top]
    if not use: return
    doc=1 if isinstance(f.body[0],ast.Expr) and isinstance(f.body[0].value,ast.Constant) else 0
    V().visit(f)
    f.body=f.body[:doc]+[ast.Assign([ast.Name("self_"+a,ast.Store())],ast.Attribute(ast.Name("self",ast.Load()),a,ast.Load()),lineno=1) for a in use]+f.body[doc:]
SIMPLE.update(whilefor=whilefor,aug=aug,demorgan=demorgan,swapor=swapor,earlyelse=earlyelse,fstr=fstr,concat=concat,dotcol=dotcol,npsq=npsq,arrayfn=arrayfn,tuples=tuples,untuple=untuple,selfvar=selfvar)

def files():
    for d,_,fs in os.walk(root):
        for x in sorted(fs):
            if x.endswith(".py") and "tests" not in d and x!="citation_text.py": yield os.path.join(d,x)
SIGS={}
def sigs():
    if SIGS: return SIGS
    seen={}
    for p in files():
        for s in ast.parse(open(p).read()).body:
            if isinstance(s,ast.FunctionDef): seen.setdefault(s.name,[]).append(s)
    for k,v in seen.items():
        if len(v)==1 and not v[0].args.vararg and not v[0].args.kwarg and not v[0].args.posonlyargs and not v[0].decorator_list: SIGS[k]=v[0]
    return SIGS
def kwize(f):
    S=sigs()
    class V(ast.NodeTransformer):
        def visit_Call(self,n):
            self.generic_visit(n)
            if isinstance(n.func,ast.Name) and n.func.id in S and not any(isinstance(a,ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
                ps=[a.arg for a in S[n.func.id].args.args]
                n.keywords=[ast.keyword(p,a) for p,a in zip(ps,n.args)]+n.keywords; n.args=[]
            return n
    V().visit(f)
def poswise(f):
    S=sigs()
    class V(ast.NodeTransformer):
        def visit_Call(self,n):
            self.generic_visit(n)
            if isinstance(n.func,ast.Name) and n.func.id in S and not any(isinstance(a,ast.Starred) for a in n.args):
                ps=[a.arg for a in S[n.func.id].args.args]
                kw={k.arg:k for k in n.keywords}
                while len(n.args)<len(ps) and ps[len(n.args)] in kw:
                    k=kw.pop(ps[len(n.args)]); n.args.append(k.value); n.keywords.remove(k)
            return n
    V().visit(f)
def explicit(f):
    """defaults of repository functions given explicitly"""
    S=sigs()
    class V(ast.NodeTransformer):
        def visit_Call(self,n):
            self.generic_visit(n)
            if isinstance(n.func,ast.Name) and n.func.id in S and not any(isinstance(a,ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
                g=S[n.func.id]; ps=[a.arg for a in g.args.args]; ds=dict(zip(ps[len(ps)-len(g.args.defaults):],g.args.defaults))
                have=set(ps[:len(n.args)])|{k.arg for k in n.keywords}
                for p,d in ds.items():
                    if p not in have and isinstance(d,ast.Constant): n.keywords.append(ast.keyword(p,d))
            return n
    V().visit(f)
def notin(f):
    class V(ast.NodeTransformer):
        def visit_Compare(self,n):
            self.generic_visit(n)
            if len(n.ops)==1 and isinstance(n.ops[0],ast.NotIn): return ast.UnaryOp(ast.Not(),ast.Compare(n.left,[ast.In()],n.comparators))
            if len(n.ops)==1 and isinstance(n.ops[0],ast.IsNot): return ast.UnaryOp(ast.Not(),ast.Compare(n.left,[ast.Is()],n.comparators))
            return n
    V().visit(f)
def locmask(f):
    class V(ast.NodeTransformer):
        def visit_Subscript(self,n):
            self.generic_visit(n)
            if isinstance(n.ctx,ast.Load) and isinstance(n.value,ast.Name) and isinstance(n.slice,(ast.Compare,)) and n.value.id in [x.id for x in ast.walk(n.slice) if isinstance(x,ast.Name)]:
                n.value=ast.Attribute(n.value,"loc",ast.Load())
            return n
    V().visit(f)
def maskvar(f):
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,(ast.Assign,ast.Return)) and isinstance(s.value,ast.Subscript) and isinstance(s.value.slice,(ast.Compare,ast.BinOp,ast.UnaryOp)) and isinstance(s.value.value,ast.Name):
                    v=fresh("mask"); out.append(ast.Assign([ast.Name(v,ast.Store())],s.value.slice,lineno=1)); s.value.slice=ast.Name(v,ast.Load())
                out.append(s)
            return out
    V().visit(f)
def inpl(f):
    ps=set(params(f))
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.Expr) and isinstance(s.value,ast.Call) and isinstance(s.value.func,ast.Attribute) and isinstance(s.value.func.value,ast.Name) and s.value.func.value.id not in ps and any(k.arg=="inplace" and isinstance(k.value,ast.Constant) and k.value.value is True for k in s.value.keywords):
                    s.value.keywords=[k for k in s.value.keywords if k.arg!="inplace"]
                    s=ast.Assign([ast.Name(s.value.func.value.id,ast.Store())],s.value,lineno=1)
                out.append(s)
            return out
    V().visit(f)
def chain(f):
    """a.b(x).c(y) -> t = a.b(x); t.c(y)"""
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,(ast.Assign,ast.Return,ast.Expr)):
                    e=s.value
                    if isinstance(e,ast.Call) and isinstance(e.func,ast.Attribute) and isinstance(e.func.value,ast.Call):
                        v=fresh("step"); out.append(ast.Assign([ast.Name(v,ast.Store())],e.func.value,lineno=1)); e.func.value=ast.Name(v,ast.Load())
                out.append(s)
            return out
    V().visit(f)
def anyloop(f):
    """x = any/all(gen) in an if -> loop with flag"""
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.If):
                    t=s.test; neg=False
                    if isinstance(t,ast.UnaryOp) and isinstance(t.op,ast.Not): t=t.operand; neg=True
                    if isinstance(t,ast.Call) and isinstance(t.func,ast.Name) and t.func.id in ("any","all") and isinstance(t.args[0],ast.GeneratorExp) and len(t.args[0].generators)==1 and not t.args[0].generators[0].ifs:
                        g=t.args[0].generators[0]; v=fresh("flag"); an=t.func.id=="any"
                        m={x:fresh(x) for x in names(g.target,(ast.Store,))}; elt=t.args[0].elt
                        for tree in [g.target,elt]:
                            for x in ast.walk(tree):
                                if isinstance(x,ast.Name) and x.id in m: x.id=m[x.id]
                        out.append(ast.Assign([ast.Name(v,ast.Store())],ast.Constant(not an),lineno=1))
                        out.append(ast.For(g.target,g.iter,[ast.If(elt if an else ast.UnaryOp(ast.Not(),elt),[ast.Assign([ast.Name(v,ast.Store())],ast.Constant(an),lineno=1),ast.Break()],[])],[],lineno=1))
                        nm=ast.Name(v,ast.Load()); s.test=ast.UnaryOp(ast.Not(),nm) if neg else nm
                out.append(s)
            return out
    V().visit(f)
def dictup(f):
    """dict literal d = {k: v, ...} -> d = {}; d[k] = v"""
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name) and isinstance(s.value,ast.Dict) and s.value.keys and all(k is not None for k in s.value.keys) and s.targets[0].id not in names(s.value,(ast.Load,)):
                    nm=s.targets[0].id; out.append(ast.Assign(s.targets,ast.Dict([],[]),lineno=1))
                    for k,v in zip(s.value.keys,s.value.values): out.append(ast.Assign([ast.Subscript(ast.Name(nm,ast.Load()),k,ast.Store())],v,lineno=1))
                    continue
                out.append(s)
            return out
    V().visit(f)
def listapp(f):
    """x = [a, b, c] -> x = [a]; x.append(b); ..."""
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name) and isinstance(s.value,ast.List) and len(s.value.elts)>1 and not any(isinstance(e,ast.Starred) for e in s.value.elts) and s.targets[0].id not in names(s.value,(ast.Load,)):
                    nm=s.targets[0].id; out.append(ast.Assign(s.targets,ast.List(s.value.elts[:1],ast.Load()),lineno=1))
                    for v in s.value.elts[1:]: out.append(ast.Expr(ast.Call(ast.Attribute(ast.Name(nm,ast.Load()),"append",ast.Load()),[v],[])))
                    continue
                out.append(s)
            return out
    V().visit(f)
def lamdef(f):
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,(ast.Assign,ast.Return,ast.Expr)) and not f.decorator_list:
                    ls=[x for x in ast.walk(s) if isinstance(x,ast.Lambda)]
                    if len(ls)==1:
                        l=ls[0]; nm=fresh("fn"); out.append(ast.FunctionDef(nm,l.args,[ast.Return(l.body)],[],lineno=1))
                        class R(ast.NodeTransformer):
                            def visit_Lambda(self,x): return ast.Name(nm,ast.Load()) if x is l else x
                        s=R().visit(s)
                out.append(s)
            return out
    V().visit(f)
def nested(f):
    """hoists every compound argument of calls nested inside expressions of assignments, innermost last argument first; only in straight expressions"""
    if f.decorator_list: return
    class V(Blocks):
        def block(self,b,n):
            out=[]
            for s in b:
                if isinstance(s,(ast.Assign,ast.Return)) and s.value is not None and not any(isinstance(x,(ast.Lambda,ast.ListComp,ast.GeneratorExp,ast.DictComp,ast.SetComp,ast.IfExp,ast.BoolOp)) for x in ast.walk(s.value)):
                    pre=[]
                    class R(ast.NodeTransformer):
                        def visit_BinOp(self,x):
                            self.generic_visit(x)
                            if x is not s.value:
                                v=fresh("part"); pre.append(ast.Assign([ast.Name(v,ast.Store())],x,lineno=1)); return ast.Name(v,ast.Load())
                            return x
                    if not any(isinstance(x,ast.Call) and not (isinstance(x.func,ast.Attribute) and isinstance(x.func.value,ast.Name) and x.func.value.id=="np") for x in ast.walk(s.value)):
                        s.value=R().visit(s.value); out+=pre
                out.append(s)
            return out
    V().visit(f)
SIMPLE.update(kwize=kwize,poswise=poswise,explicit=explicit,notin=notin,locmask=locmask,maskvar=maskvar,inpl=inpl,chain=chain,anyloop=anyloop,dictup=dictup,listapp=listapp,lamdef=lamdef,nested=nested)
def consts(tree):
    """numbers in functions -> module constants"""
    import itertools
    seen={}
    class V(ast.NodeTransformer):
        def visit_Constant(self,n):
            if isinstance(n.value,float) and n.value not in (0.0,1.0):
                return ast.Name(seen.setdefault(repr(n.value),"_C%d"%len(seen)),ast.Load())
            return n
        def visit_arguments(self,n): return n
    for s in tree.body:
        if isinstance(s,ast.FunctionDef) and not s.decorator_list:
            for i,x in enumerate(s.body): s.body[i]=V().visit(x)
    k=0
    for i,s in enumerate(tree.body):
        if isinstance(s,(ast.Import,ast.ImportFrom)): k=i+1
    tree.body[k:k]=[ast.Assign([ast.Name(v,ast.Store())],ast.parse(r,mode="eval").body,lineno=1) for r,v in seen.items()]
def renpriv(tree):
    for x in ast.walk(tree):
        if isinstance(x,ast.FunctionDef) and x.name.startswith("_") and not x.name.startswith("__"): x.name=x.name+"_renamed"
        if isinstance(x,ast.Name) and x.id in PRIV: x.id+="_renamed"
        if isinstance(x,ast.Attribute) and x.attr in PRIV: x.attr+="_renamed"
        if isinstance(x,ast.ImportFrom):
            for a in x.names:
                if a.name in PRIV: a.asname=None; a.name+="_renamed"
PRIV=set()
def localimp(tree):
    """module imports of repository names -> imports inside the functions that use them"""
    mv={}
    for s in list(tree.body):
        if isinstance(s,ast.ImportFrom) and s.module and s.module.startswith("sorcha") :
            for a in s.names: mv[a.asname or a.name]=(s.module,a)
    top={x.id for s in tree.body if not isinstance(s,(ast.FunctionDef,ast.ImportFrom,ast.Import)) for x in ast.walk(s) if isinstance(x,ast.Name)}
    fs=[s for s in tree.body if isinstance(s,ast.FunctionDef)]
    for s in list(tree.body):
        if isinstance(s,ast.ImportFrom) and s.module and s.module.startswith("sorcha"):
            keep=[a for a in s.names if (a.asname or a.name) in top or not any((a.asname or a.name) in names(f,(ast.Load,)) for f in fs) or any(f.decorator_list for f in fs)]
            gone=[a for a in s.names if a not in keep]
            for f in fs:
                u=[a for a in gone if (a.asname or a.name) in names(f,(ast.Load,))]
                if u: f.body.insert(1 if isinstance(f.body[0],ast.Expr) and isinstance(f.body[0].value,ast.Constant) else 0,ast.ImportFrom(s.module,u,s.level))
            if keep: s.names=keep
            else: tree.body.remove(s)
MOD=dict(consts=consts,renpriv=renpriv,localimp=localimp)
if T=="renpriv":
    for p in files():
        for x in ast.walk(ast.parse(open(p).read())):
            if isinstance(x,ast.FunctionDef) and x.name.startswith("_") and not x.name.startswith("__"): PRIV.add(x.name)
sel=[o.split(":") for o in only]
for p in files():
    rel=os.path.relpath(p,root)
    if sel and not any(o[0]==rel for o in sel): continue
    fn={o[1] for o in sel if o[0]==rel and len(o)>1}
    tree=ast.parse(open(p).read()); before=ast.dump(tree); cnt[0]=0
    if T in MOD: MOD[T](tree)
    elif T=="alias":
        m={"np":"numpy","pd":"pandas"}
        for x in ast.walk(tree):
            if isinstance(x,ast.Import):
                for a in x.names:
                    if a.asname in m and a.name==m[a.asname]: a.asname=None
            if isinstance(x,ast.Name) and x.id in m: x.id=m[x.id]
    else:
        helpers=[]; new=[]
        for s in tree.body:
            fs=[s] if isinstance(s,ast.FunctionDef) else []
            ms=[x for x in ast.walk(s) if isinstance(x,ast.FunctionDef)] if isinstance(s,ast.ClassDef) else []
            for f in fs+ms:
                if fn and f.name not in fn: continue
                if T in SIMPLE: SIMPLE[T](f)
                elif f in fs and T=="wrap": wrap(f,helpers)
                elif T.startswith("extract"):
                    lo,hi={"extract1":(0,.5),"extract2":(.34,.67),"extract3":(.5,.99),"extract4":(.2,.5),"extract5":(.6,.8)}[T]
                    if f in fs: extract(f,helpers,lo,hi)
            new.append(s)
            if helpers:
                new+=helpers; helpers=[]
        tree.body=new
    if ast.dump(tree)!=before:
        ast.fix_missing_locations(tree); src=ast.unparse(tree); compile(src,p,"exec"); open(p,"w").write(src+"\n"); print("changed",rel)
