"""mut.py FILE N SEED OUT [funcs...]: random mutants of a file judged by checks."""
import ast, sys, os, random, shutil, subprocess, json, tempfile, copy
from concurrent.futures import ThreadPoolExecutor
VER=os.environ.get('MUT_VERIF','/verif'); PAR=int(os.environ.get('MUT_PAR','8'))
MAP={('riv','assembleChannel'):'C05 C07 C06 C13 C14','solveFullPreissmann':'C02 C01 C03 C28 C30','solveSteady':'C04 C02 C28','calcBedload':'C08 C30','storeBedload':'C08 C06 C30 C27',
'storeHydraulics':'C06 C13 C30','longShoreTransport':'C09 C13','runup':'C10 C30','overtopping':'C10 C13','coast':'C09 C10',
'mor':'C31 C32 C15 C12 C17 C16 C11 C13 C14','out':'C18 C19 C20 C21 C33 C30','loadmod':'C25 C23 C20 C27 C22 C26 C30','core':'C21 C30 C28 C22 C27 C34 C20 C19','interpolate_at':'C22 C30',
'geom':'C24 C23','synth':'C26 C25 C20','visualise':'C29 C33 C21 C27','animate':'C33','__main__':'C34','WaveDataFromSwanOutput':'C35','riv':'C05 C02 C08 C27','configspec':'C25'}
CMP={ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.Is:ast.IsNot,ast.IsNot:ast.Is,ast.In:ast.NotIn,ast.NotIn:ast.In}
NEG={ast.Lt:ast.GtE,ast.LtE:ast.Gt,ast.Gt:ast.LtE,ast.GtE:ast.Lt}
BIN={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Div,ast.Div:ast.Mult,ast.Pow:ast.Mult}
FN={'minimum':'maximum','maximum':'minimum','min':'max','max':'min','argmin':'argmax','argmax':'argmin','any':'all','all':'any','logical_and':'logical_or','logical_or':'logical_and','nanmin':'nanmax','nanmax':'nanmin','nanmean':'nanmax','zeros':'ones','sin':'cos','cos':'sin','flip':'array','floor':'ceil','ceil':'floor','copy':'view','abs':'positive','isnan':'isfinite'}
def muts(node):
    o=[]
    c=lambda: copy.deepcopy(node)
    if isinstance(node,ast.Compare) and len(node.ops)==1:
        t=type(node.ops[0])
        for m in (CMP,NEG):
            if t in m: x=c(); x.ops=[m[t]()]; o.append(x)
    elif isinstance(node,ast.BinOp) and type(node.op) in BIN:
        x=c(); x.op=BIN[type(node.op)](); o.append(x)
        if isinstance(node.op,(ast.Add,ast.Sub)) : o.append(copy.deepcopy(node.left))
    elif isinstance(node,ast.BoolOp):
        x=c(); x.op=ast.Or() if isinstance(node.op,ast.And) else ast.And(); o.append(x)
        o+= [copy.deepcopy(v) for v in node.values]
    elif isinstance(node,ast.Constant):
        v=node.value
        if v is True or v is False: o.append(ast.Constant(not v))
        elif isinstance(v,int): o+= [ast.Constant(v+1)]+([ast.Constant(v-1)] if v>0 else [])
        elif isinstance(v,float): o+= [ast.Constant(v*1.05+ (0.1 if v==0 else 0))]
    elif isinstance(node,ast.UnaryOp) and isinstance(node.op,(ast.Not,ast.USub,ast.Invert)):
        o.append(copy.deepcopy(node.operand))
    elif isinstance(node,ast.Attribute) and node.attr in FN and isinstance(node.ctx,ast.Load):
        x=c(); x.attr=FN[node.attr]; o.append(x)
    elif isinstance(node,(ast.Assign,ast.AugAssign)):
        tg=node.targets[0] if isinstance(node,ast.Assign) else node.target
        if isinstance(tg,ast.Subscript) or isinstance(node,ast.AugAssign): o.append(ast.Pass())
        if isinstance(node,ast.AugAssign) and type(node.op) in BIN: x=c(); x.op=BIN[type(node.op)](); o.append(x)
    elif isinstance(node,ast.Expr) and isinstance(node.value,ast.Call):
        if not (isinstance(node.value.func,ast.Attribute) and node.value.func.attr in('info','debug','warning')): o.append(ast.Pass())
    elif isinstance(node,(ast.If,)):
        pass
    return o
def collect(path):
    src=open(path,newline='').read().replace('\r\n','\n')
    tree=ast.parse(src); lines=src.split('\n'); off=[0]
    for l in lines: off.append(off[-1]+len(l.encode())+1)
    b=src.encode(); out=[]
    def skip(n): return isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and (n.func.attr in('info','debug','warning','error') or n.func.attr=='add_argument')
    def walk(n,fn):
        if isinstance(n,ast.FunctionDef): fn=n.name
        if skip(n) or isinstance(n,(ast.Raise,ast.Assert)) : return
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): return
        if isinstance(n,ast.JoinedStr): return
        if hasattr(n,'lineno'):
            for m in muts(n):
                s=off[n.lineno-1]+n.col_offset; e=off[n.end_lineno-1]+n.end_col_offset
                t=ast.unparse(m)
                if isinstance(m,ast.expr) and not isinstance(m,(ast.Constant,ast.Name,ast.Attribute,ast.Subscript,ast.Call)): t='('+t+')'
                out.append((fn,n.lineno,b[s:e].decode(),t,s,e))
        for ch in ast.iter_child_nodes(n): walk(ch,fn)
    walk(tree,None)
    return b,out
def judge(a):
    k,rel,b,m=a; fn,ln,o,t,s,e=m
    mod=os.path.basename(rel)[:-3]
    checks=(MAP.get((mod,fn)) or MAP.get(fn) or MAP.get(mod)).split()
    if os.environ.get('MUT_CHECKS'): checks=os.environ['MUT_CHECKS'].split()
    tree=tempfile.mkdtemp(prefix='mt_',dir='/tmp/mut')
    try:
        for d in ('hapuamod','preprocessing','inputs','tests'):
            if os.path.isdir('/repo/'+d): shutil.copytree('/repo/'+d,tree+'/'+d)
        for f in os.listdir('/repo'):
            if os.path.isfile('/repo/'+f): shutil.copy('/repo/'+f,tree)
            elif f not in ('.git','hapuamod','preprocessing','inputs','tests') : 
                shutil.copytree('/repo/'+f,tree+'/'+f,dirs_exist_ok=True)
        open(tree+'/'+rel,'wb').write(b[:s]+t.encode()+b[e:])
        for c in checks:
            r=subprocess.run(['nice','-n','15','timeout','1500','bash',VER+'/check.sh',c,'--no-evidence','--jobs','1'],env=dict(os.environ,HAPUA_REPO=tree),stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            if r.returncode:
                first=[l for l in r.stdout.decode(errors='replace').splitlines() if l.strip()][:1]
                return (k,rel,fn,ln,o,t,'%s rc%d'%(c,r.returncode),first)
        return (k,rel,fn,ln,o,t,'SURVIVED',[])
    finally: shutil.rmtree(tree,ignore_errors=True)
if __name__=='__main__':
    rel,N,seed,outp=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]; fns=sys.argv[5:]
    b,ms=collect('/repo/'+rel)
    ms=[m for m in ms if not fns or m[0] in fns]
    R=random.Random(seed); R.shuffle(ms); 
    skip=int(os.environ.get('MUT_SKIP','0'))
    print(len(ms),'mutants',flush=True)
    with ThreadPoolExecutor(PAR) as ex, open(outp,'a') as f:
        for r in ex.map(judge,[(i,rel,b,m) for i,m in enumerate(ms)][skip:skip+N]):
            f.write(json.dumps(r)+'\n'); f.flush()
