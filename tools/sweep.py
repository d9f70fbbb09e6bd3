"""Mutation sweep: textual mutants of /repo's Python files (scratch copies under /tmp/mw) against the checks.

usage: sweep.py [-k mutants per file] [-n workers] [-o out.jsonl] [-s seed] FILE... (paths relative to /repo)
"""
import sys,os,json,random,subprocess,shutil,threading,queue,time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mut import mutants
R='/repo'
MAP=[ # (prefix, checks)
('gyre-tools/gyre_eigen_norm',['C16']),('gyre-tools',['C24']),('num-tools/carr_conv',['C24']),('num-tools/num_deriv',['C05']),
('hough-func-tools/cheby',['C07']),('hough-func-tools',['C06','C07','C21']),('py-combinations',['C10','C11']),('util-tools',['C22']),
('histogram_maker',['C08','C09']),
('aesolver/aesolver/frequency_handling',['C12']),('aesolver/aesolver/stationary_solving',['C13']),('aesolver/aesolver/stability_checker',['C14']),
('aesolver/aesolver/pre_checks',['C15']),('aesolver/aesolver/data_handling',['C17','C26']),('aesolver/aesolver/model_handling',['C18']),
('aesolver/aesolver/polytropic',['C19']),('aesolver/aesolver/coupling',['C20','C26']),('aesolver/aesolver/angular',['C21','C20']),
('aesolver/ae_analyzer/library_functions/masking',['C23']),('aesolver/aeplotter/library_functions/masking',['C23']),
('aesolver/ae_analyzer',['C27','C31']),('aesolver/aeplotter',['C27']),('aesolver/aesolver/read_load_info/load_name_plots',['C27']),('aesolver/aesolver/read_load_info',['C22','C26','C29']),('aesolver/aesolver/ad_nad',['C29']),('aesolver/aesolver/solver/quadratic_profile',['C28']),('aesolver/aesolver/solver/profile',['C28']),
('aesolver/aerunners/solve',['C26','C22']),('aesolver/aerunners',['C31','C22']),('aesolver/aesolver/mode_input',['C10','C26']),('aesolver/aesolver/solver/solver_base',['C26']),('aesolver/aesolver/solver/quadratic_grid',['C26']),
('aesolver/aesolver/solver/quadratic_solver',['C26']),('pytest-util-tools',['C25']),
]
def checks(f):
    for p,c in MAP:
        if f.startswith(p): return c
def setup(i):
    d=f'/tmp/mw/{i}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(['cp','-a',R,d+'/repo'],check=True)
    subprocess.run(['rsync','-a','--exclude','.git','--exclude','seeded','/verif/',d+'/verif'],check=False) if shutil.which('rsync') else subprocess.run(f'mkdir {d}/verif && cd /verif && tar c --exclude .git --exclude seeded . | tar x -C {d}/verif',shell=True,check=True)
    return d
def run(d,check,seed=1,tmo=400):
    env=dict(os.environ,VERIF_SEED=str(seed),VERIF_TIER='quick',VH_REPO=d+'/repo',OMP_NUM_THREADS='2',OPENBLAS_NUM_THREADS='1')
    try:
        p=subprocess.run(['bash','run.sh',check,'quick'],cwd=d+'/verif',env=env,capture_output=True,text=True,timeout=tmo)
    except subprocess.TimeoutExpired: return 'timeout',''
    if p.returncode==1 and 'VIOLATION' in p.stdout: return 'killed',p.stdout[-300:]
    if p.returncode==0: return 'survived',''
    return 'error',(p.stdout+p.stderr)[-300:]
def main(fs,k,nw,out,rs=1,only=None):
    rnd=random.Random(rs)
    q=queue.Queue(); n=0
    for f in fs:
        ms=mutants(open(f'{R}/{f}').read())
        rnd.shuffle(ms)
        for m in ms[:k]: q.put((f,m)); n+=1
    print(n,'mutants',flush=True)
    lock=threading.Lock(); o=open(out,'a')
    stat={}
    def work(i):
        d=setup(i)
        while True:
            try: f,m=q.get_nowait()
            except queue.Empty: break
            p=f'{d}/repo/{f}'; orig=open(p).read()
            open(p,'w').write(m['text'])
            res=None
            try:
                for c in checks(f):
                    r,t=run(d,c)
                    if r!='survived': break
                res=(r,c,t)
            finally: open(p,'w').write(orig)
            with lock:
                stat[r]=stat.get(r,0)+1
                o.write(json.dumps(dict(file=f,line=m['line'],kind=m['kind'],old=m['old'],new=m['new'],res=r,check=c,tail=t))+'\n'); o.flush()
        shutil.rmtree(d)
    T=[threading.Thread(target=work,args=(i,)) for i in range(nw)]
    for t in T: t.start()
    for t in T: t.join()
    print(stat)
if __name__=='__main__':
    import glob,argparse
    a=argparse.ArgumentParser(); a.add_argument('-k',type=int,default=20); a.add_argument('-n',type=int,default=7); a.add_argument('-o',default='/tmp/sweep.jsonl'); a.add_argument('-s',type=int,default=1); a.add_argument('files',nargs='+')
    x=a.parse_args()
    main(x.files,x.k,x.n,x.o,x.s)
