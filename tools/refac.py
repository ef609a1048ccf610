"""Apply behaviour-preserving edits (tools/refacspecs*.py) to a scratch copy and check that every check stays quiet.
usage: refac.py all | ID...     env SC=/tmp/sc"""
import sys,os,subprocess,collections,concurrent.futures as cf,glob
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
SC=os.environ.get('SC','/tmp/sc')
R=collections.OrderedDict()
def ref(id,*edits):
    assert id not in R,id
    R[id]=edits
P=dict(PB='light/PulseBase.py',DP='light/DerivedPulses.py',SS='interactions/FourWaveMixing/SSFM.py',
 DFG='interactions/ThreeWaveMixing/DFG_integrand.py',FLD='interactions/ThreeWaveMixing/field_classes.py',
 RW='interactions/ThreeWaveMixing/multi_run_rw.py',FIB='media/fibers/fiber.py',CAL='media/fibers/calculators.py',
 JFL='media/fibers/JSONFiberLoader.py',XC='media/crystals/CrystalContainer.py',PPLN='media/crystals/XTAL_PPLN.py',
 AGS='media/crystals/XTAL_AgGaS.py',AGE='media/crystals/XTAL_AgGaSe2.py',BEAM='light/beam.py',HV='light/high_V_waveguide.py',
 TC='devices/grating_compressor.py',ST='util/ode_solve/steppers.py',DO='util/ode_solve/dopr853.py',CT='util/ode_solve/dopr853_controller.py',
 FFT='util/pynlo_ffts.py')
for f in sorted(glob.glob(os.path.join(HERE,'refacspecs*.py'))):
    exec(compile(open(f).read(),f,'exec'),dict(ref=ref,**P))
def reset(): subprocess.run(['git','-C',SC,'checkout','-q','--','.'],check=True)
def tryapply(i,files):
    new={}
    for path,old,nw in R[i]:
        p=os.path.join(SC,'src/pynlo',path)
        t=new.get(p) or files.get(p) or open(p,encoding='utf8').read()
        if t.count(old)!=1: return False
        new[p]=t.replace(old,nw)
    files.update(new); return True
def apply(ids):
    reset(); files={}
    for i in ids: assert tryapply(i,files),i
    for p,t in files.items():
        compile(t,p,'exec'); open(p,'w',encoding='utf8').write(t)
CH=sorted(f[:-3] for f in os.listdir(os.path.join(V,'checks')) if f[0]=='C' and f[1].isdigit())
CH.sort(key=lambda c:c not in('C18','C28','C29'))
def one(c):
    e=dict(os.environ,VERIF_REPO=SC)
    r=subprocess.run([sys.executable,'-B',os.path.join(V,'run.py'),c],capture_output=True,text=True,env=e)
    out=(r.stdout+r.stderr)
    return c,r.returncode,out
def run(checks=None):
    bad=[]
    if not tests()[0].startswith('15 passed'): print('   TESTS',tests())
    with cf.ThreadPoolExecutor(8) as ex:
        for c,rc,out in ex.map(one,checks or CH):
            if rc: bad.append((c,rc,out))
            else:
                import re
                m=re.search(r'(\d+) undecided',out)
                if m and int(m.group(1)): print('   ',c,'undecided',m.group(1),flush=True)
    return bad
def tests():
    r=subprocess.run("""cd %s && PYTHONPATH=%s/src MPLBACKEND=Agg timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=%s -o python_files='*test.py test_*.py' --ignore='src/validation/Old and Partial Tests' --continue-on-collection-errors %s 2>&1 | tail -3"""%(SC,SC,SC,SC),shell=True,capture_output=True,text=True)
    return r.stdout.strip().splitlines()[-1:] 
def main(a):
    ids=list(R) if a==['all'] else [i for x in a for i in R if i==x or (x.endswith('*') and i.startswith(x[:-1]))]
    reset(); batches=[]
    for i in ids:
        for b in batches:
            if len(b[0])<14 and tryapply(i,b[1]): b[0].append(i); break
        else:
            f={}; assert tryapply(i,f),('does not apply',i)
            batches.append([[i],f])
    for b,_ in batches:
        apply(b); print('batch',*b,flush=True)
        bad=run()
        if not bad: continue
        if len(b)==1:
            for c,rc,out in bad: print('FAIL',b[0],c,rc,[l[:260] for l in out.splitlines() if 'VIOL' in l or 'rror' in l][:4],flush=True)
            continue
        cs=[c for c,_,_ in bad]; print('  failing',cs,flush=True)
        for i in b:
            apply([i])
            for c,rc,out in run(cs): print('FAIL',i,c,rc,[l[:260] for l in out.splitlines() if 'VIOL' in l or 'rror' in l][:4],flush=True)
    reset()
if __name__=='__main__': main(sys.argv[1:])
