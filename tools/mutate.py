"""AST mutation campaign on scratch copies: which single-point mutants of the repository does no check report?
usage: mutate.py PER_FILE SEED OUT [path fragments…]"""
import ast,sys,os,json,random,subprocess,shutil,glob,concurrent.futures as cf,threading,queue
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE); REPO='/repo'
FILES='''light/PulseBase.py light/DerivedPulses.py light/beam.py light/high_V_waveguide.py interactions/FourWaveMixing/SSFM.py
interactions/ThreeWaveMixing/DFG_integrand.py interactions/ThreeWaveMixing/field_classes.py interactions/ThreeWaveMixing/multi_run_rw.py media/fibers/fiber.py media/fibers/calculators.py
media/fibers/JSONFiberLoader.py media/crystals/CrystalContainer.py media/crystals/XTAL_PPLN.py media/crystals/XTAL_AgGaS.py
media/crystals/XTAL_AgGaSe2.py devices/grating_compressor.py util/ode_solve/steppers.py util/ode_solve/dopr853.py
util/ode_solve/dopr853_controller.py util/pynlo_ffts.py'''.split()
ev={}; cost={}
for f in glob.glob(V+'/evidence/C??.json'):
    d=json.load(open(f)); ev[d['property']]=set(x.split(':')[1] for x in d['coverage'].get('functions',[])); cost[d['property']]=d['wall_s']
SIB={}
for g in ('pump sgnl idlr','AW AT','W_mks W_THz F_THz F_mks','T_ps T_mks','dT_ps dT_mks','dF_THz dF_mks','wl_nm wl_mks','center_wavelength_nm center_wavelength_mks','frep_mks frep_MHz','real imag','cos sin','sum mean','min max','n_p n_s n_i','fftshift ifftshift','fft ifft','zeros ones','pump_beam sgnl_beam'):
    w=g.split()
    for i,x in enumerate(w): SIB[x]=w[(i+1)%len(w)]
def seg(src,lines,n):
    s=lines[n.lineno-1]+n.col_offset; e=lines[n.end_lineno-1]+n.end_col_offset
    return s,e
def mutants(path):
    raw=open(path,encoding='utf8').read(); b=raw.encode(); offs=[0]
    for l in b.split(b'\n'): offs.append(offs[-1]+len(l)+1)
    tree=ast.parse(raw); out=[]
    def add(n,new,kind,fn):
        s,e=seg(b,offs,n); old=b[s:e].decode()
        if old!=new: out.append((s,e,new,kind,fn,n.lineno,old))
    def t(n): s,e=seg(b,offs,n); return b[s:e].decode()
    class Vs(ast.NodeVisitor):
        def __init__(s): s.q=[]; s.loc=[]
        def visit_ClassDef(s,n):
            s.q.append(n.name); s.generic_visit(n); s.q.pop()
        def visit_FunctionDef(s,n):
            s.q.append(n.name); s.loc.append(sorted({a.id for a in ast.walk(n) if isinstance(a,ast.Name) and isinstance(a.ctx,ast.Store)}|{a.arg for a in n.args.args if a.arg!='self'}))
            for d in n.args.defaults: s.visit(d)
            for x in n.body: s.visit(x)
            s.q.pop(); s.loc.pop()
        def fn(s): return '.'.join(s.q)
        def stmt(s,n):
            if s.q: add(n,'pass','del',s.fn())
        def visit_Assign(s,n):
            if not isinstance(n.targets[0],ast.Name): s.stmt(n)
            s.generic_visit(n)
        def visit_AugAssign(s,n):
            s.stmt(n); s.generic_visit(n)
        def visit_Expr(s,n):
            if isinstance(n.value,ast.Constant): return
            if isinstance(n.value,ast.Call) and t(n.value.func)=='print': return
            s.stmt(n); s.generic_visit(n)
        def visit_Raise(s,n): s.stmt(n)
        def visit_Constant(s,n):
            v=n.value
            if isinstance(v,bool): add(n,str(not v),'const',s.fn())
            elif isinstance(v,int): add(n,str(v+1),'const',s.fn())
            elif isinstance(v,float): add(n,repr(v*1.25 if v else 0.5),'const',s.fn())
        def visit_BinOp(s,n):
            l,r=t(n.left),t(n.right); o={ast.Add:'-',ast.Sub:'+',ast.Mult:'/',ast.Div:'*',ast.Pow:'*'}.get(type(n.op))
            if o and not isinstance(n.left,ast.Constant) | isinstance(getattr(n.left,'value',0),str): add(n,'((%s)%s(%s))'%(l,o,r),'binop',s.fn())
            s.generic_visit(n)
        def visit_UnaryOp(s,n):
            if isinstance(n.op,ast.USub): add(n,'(%s)'%t(n.operand),'neg',s.fn())
            elif isinstance(n.op,ast.Not): add(n,'(%s)'%t(n.operand),'not',s.fn())
            s.generic_visit(n)
        def visit_Compare(s,n):
            m={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.Is:'is not',ast.IsNot:'is'}.get(type(n.ops[0]))
            if m and len(n.ops)==1: add(n,'%s %s %s'%(t(n.left),m,t(n.comparators[0])),'cmp',s.fn())
            s.generic_visit(n)
        def visit_If(s,n):
            add(n.test,'not (%s)'%t(n.test),'if',s.fn()); s.generic_visit(n)
        def visit_Attribute(s,n):
            if n.attr in SIB and isinstance(n.ctx,ast.Load): add(n,t(n.value)+'.'+SIB[n.attr],'attr',s.fn())
            s.generic_visit(n)
        def visit_Name(s,n):
            if s.loc and isinstance(n.ctx,ast.Load) and n.id in s.loc[-1]:
                o=[x for x in s.loc[-1] if x!=n.id]
                if o: add(n,random.choice(o),'name',s.fn())
        def visit_Call(s,n):
            f=t(n.func)
            if len(n.args)>=2: 
                a=[t(x) for x in n.args]; rest=[t(k.value) if k.arg is None else k.arg+'='+t(k.value) for k in n.keywords]
                add(n,f+'('+', '.join([a[1],a[0]]+a[2:]+rest)+')','args',s.fn())
            if n.keywords:
                a=[t(x) for x in n.args]; rest=[k.arg+'='+t(k.value) for k in n.keywords if k.arg]
                for i in range(len(rest)): add(n,f+'('+', '.join(a+rest[:i]+rest[i+1:])+')','dropkw',s.fn())
            if f in('np.copy','copy.copy','copy.deepcopy','np.array','np.asarray','np.conj','np.abs','abs','np.real','np.imag','np.sqrt') and n.args: add(n,'(%s)'%t(n.args[0]),'unwrap',s.fn())
            if isinstance(n.func,ast.Attribute) and n.func.attr in('copy','conj','conjugate') and not n.args: add(n,t(n.func.value),'unwrap',s.fn())
            s.generic_visit(n)
    Vs().visit(tree)
    return b,out
lock=threading.Lock()
def run(c,d):
    try: r=subprocess.run([sys.executable,'-B',V+'/run.py',c],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d,VERIF_EVIDENCE=d+'/ev'),timeout=900)
    except subprocess.TimeoutExpired: return 9
    return r.returncode
def tests(d):
    r=subprocess.run("""cd %s && PYTHONPATH=%s/src MPLBACKEND=Agg timeout 120 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=%s -o python_files='*test.py test_*.py' --ignore='src/validation/Old and Partial Tests' --continue-on-collection-errors %s 2>&1 | tail -3"""%(d,d,d,d),shell=True,capture_output=True,text=True)
    return '15 passed' in r.stdout
def main(per,seed,outf,frags):
    random.seed(seed); jobs=[]
    for f in FILES:
        if frags and not any(x in f for x in frags): continue
        b,ms=mutants(os.path.join(REPO,'src/pynlo',f)); random.shuffle(ms)
        print(f,len(ms))
        jobs+=[(f,b,m) for m in ms[:per]]
    random.shuffle(jobs)
    dirs=queue.Queue()
    for i in range(8):
        d='/tmp/mw%d'%i; subprocess.run(['rm','-rf',d]); subprocess.run(['cp','-a','/repo',d]); dirs.put(d)
    out=open(outf,'w')
    def do(job):
        f,b,(s,e,new,kind,fn,ln,old)=job
        nb=b[:s]+new.encode()+b[e:]
        try: compile(nb,'x','exec')
        except Exception: return
        d=dirs.get(); p=os.path.join(d,'src/pynlo',f)
        try:
            open(p,'wb').write(nb)
            last=fn.split('.')[-1]
            cs=sorted((c for c in ev if any(x==fn or x.endswith('.'+fn) or x.split('.')[-1]==last for x in ev[c])),key=lambda c:cost[c])
            hit=None; codes={}
            for c in cs:
                rc=run(c,d)
                if rc: codes[c]=rc
                if rc==1: hit=c; break
            if hit: line='KILLED %s'%hit
            elif not tests(d): line='TESTS'
            else: line='SURVIVED %s'%(codes or '')
            src=b.decode().splitlines()[ln-1].strip()
            with lock:
                out.write('%s | %s:%d %s [%s] %r -> %r | %s | checks %s\n'%(line,f,ln,fn,kind,old[:120],new[:120],src[:140],','.join(cs))); out.flush()
        finally:
            open(p,'wb').write(b); dirs.put(d)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(do,jobs))
    for i in range(8): subprocess.run(['rm','-rf','/tmp/mw%d'%i])
main(int(sys.argv[1]),int(sys.argv[2]),sys.argv[3],sys.argv[4:])
