import ast, os, sys
D='/tmp/w/vc/repo/procmon_parser'
class T(ast.NodeTransformer):
    def __init__(s, fn): s.fn=fn; s.depth=0
    def wrap(s, n, txt):
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name('__vc__',ast.Load()),'rec',ast.Load()),[ast.Constant('%s:%d:%d %s'%(s.fn,n.lineno,n.col_offset,txt)),n],[]),n)
    def visit_FunctionDef(s,n):
        s.depth+=1
        doc = n.body[:1] if ast.get_docstring(n) else []
        body = n.body[len(doc):]
        names=[a.arg for a in n.args.args if a.arg!='self']
        nb=[s.visit(b) for b in body]
        pre=[ast.Expr(s.wrap(ast.copy_location(ast.Name(a,ast.Load()),n),'param '+n.name+'.'+a)) for a in names]
        n.body=doc+pre+nb
        s.depth-=1
        return n
    def gen(s,n):
        if not s.depth: return s.generic_visit(n)
        t=ast.unparse(n)[:70]
        if isinstance(getattr(n,'ctx',None),(ast.Store,ast.Del)): return s.generic_visit(n)
        m=s.generic_visit(n)
        return s.wrap(m,t)
    def visit_Call(s,n):
        if not s.depth: return n
        t=ast.unparse(n)[:70]
        if t.startswith('super'): return n
        n.args=[s.visit(a) for a in n.args]; n.keywords=[s.visit(k) for k in n.keywords]
        return s.wrap(n,t)
    visit_BinOp=visit_Subscript=visit_Compare=visit_BoolOp=gen
    def visit_Name(s,n): return n
    def visit_Attribute(s,n): 
        if not s.depth or not isinstance(n.ctx,ast.Load): return n
        return n
    def visit_For(s,n):
        n.iter=s.visit(n.iter); n.body=[s.visit(b) for b in n.body]; n.orelse=[s.visit(b) for b in n.orelse]; return n
for fn in sorted(os.listdir(D)):
    if not fn.endswith('.py') : continue
    p=os.path.join(D,fn); t=ast.parse(open(p).read())
    t=T(fn[:-3]).visit(t)
    i=0
    while i<len(t.body) and (isinstance(t.body[i],ast.ImportFrom) and t.body[i].module=='__future__' or isinstance(t.body[i],ast.Expr)): i+=1
    t.body[i:i]=ast.parse('import sys as __s; __s.path.append("/tmp/w/vc"); import vcov as __vc__').body
    ast.fix_missing_locations(t)
    open(p,'w').write(ast.unparse(t))
