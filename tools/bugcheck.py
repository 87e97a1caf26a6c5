"""python3 tools/bugcheck.py [ids]: each planted bug applied to a scratch copy and its property decided there."""
import sys,json,subprocess,shutil,os,io
sys.path.insert(0,'/verif')
from concurrent.futures import ProcessPoolExecutor
def one(i):
    w=f'/tmp/wt/b.{i}'
    subprocess.run(['rm','-rf',w]); subprocess.run(['cp','-a','/repo',w])
    a=subprocess.run(['git','-C',w,'apply',f'/verif/seeded/{i}/patch.diff'],capture_output=True,text=True)
    if a.returncode: return f'{i} APPLYFAIL {a.stderr[:200]}'
    P=json.load(open(f'/verif/seeded/{i}/meta.json'))['property']
    from sa.check import run
    o=io.StringIO()
    try: rc=run(P,'quick',w,o,False)
    except SystemExit as e: rc=e.code
    subprocess.run(['rm','-rf',w])
    L=[l for l in o.getvalue().splitlines() if 'VIOLATION' in l or l.startswith('  ')]
    return f'{i} {P} rc={rc} {L[0][:220] if L else ""}'
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
with ProcessPoolExecutor(6) as ex:
    c={}
    try: c=json.load(open('/verif/tools/caught.json'))
    except OSError: pass
    for r in ex.map(one,ids):
        print(r)
        w=r.split()
        if len(w)>2: c[w[0]]='yes ('+r.split('[',1)[1].split(']')[0]+')' if 'rc=1' in r and '[' in r else 'no'
json.dump(c,open('/verif/tools/caught.json','w'),indent=0,sort_keys=True)
