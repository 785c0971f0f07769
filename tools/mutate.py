"""mutb.py N seed [files regex] : mutate lines of src and headers, run the behaviour properties"""
import sys,os,re,random,subprocess,shutil,json,concurrent.futures as cf
N=int(sys.argv[1]); seed=int(sys.argv[2]); pat=re.compile(sys.argv[3] if len(sys.argv)>3 else r'src/(?!box/|cli)|src/box\.cpp|bitio\.hpp')
props=sys.argv[4].split(',') if len(sys.argv)>4 else ['C05','C07','C10','C11','C12','C14','C16','C17','C18','C22','C23','C26','C28']
random.seed(seed)
files=[]
for root in('src','include'):
    for d,_,fs in os.walk('/repo/'+root):
        for f in fs:
            p=os.path.relpath(os.path.join(d,f),'/repo')
            if pat.search(p) and 'cli' not in p: files.append(p)
def muts(line):
    out=[]
    s=line.strip()
    if s.startswith(('#','//','}')) or not s: return out
    code=re.sub(r'"[^"]*"',lambda m:'"'+'_'*(len(m.group(0))-2)+'"',line)
    def rep(a,b,cnt=1):
        for m in re.finditer(re.escape(a),code):
            out.append(line[:m.start()]+b+line[m.end():]); break
    for a,b in ((' < ',' <= '),(' > ',' >= '),(' <= ',' < '),(' >= ',' > '),(' == ',' != '),(' != ',' == '),(' + ',' - '),(' - ',' + '),(' += ',' -= '),(' += ',' = '),
                (' && ',' || '),(' || ',' && '),('uint32_t','uint16_t'),('uint64_t','uint32_t'),('++',''),(' * ',' / '),(' / ',' * '),('.back()','.front()'),('.front()','.back()'),('true','false'),('false','true'),
                (' & ',' | '),(' | ',' & '),(' << ',' >> '),(' >> ',' << '),('ios_base::beg','ios_base::cur'),('ios_base::end','ios_base::beg'),('break;',';'),('continue;',';'),('if (!','if ('),('!=','=='),('==','!='),('std::min','std::max')):
        if a in code and not(a in(' + ',) and 'fmt' in code): rep(a,b)
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code):
        out.append(line[:m.start(1)]+str(int(m.group(1))+1)+line[m.end(1):])
    if re.match(r'\s*[\w:>.*\-\[\]]+(\(.*\)|\s*[-+]?=\s.*);\s*$',code) and not re.match(r'\s*(const|auto|std::\w+ \w+|return|throw|delete)\b',code): out.append('\n')
    m=re.match(r'(\s*if \()(.*)(\) \{\s*)$',line)
    if m: out.append(m.group(1)+'false'+m.group(3)); 
    m=re.match(r'(\s*return )(.*)(;\s*)$',line)
    if 'm_' in code:
        ms=re.findall(r'\bm_\w+',code)
        for a in ms[:2]:
            for b in VARS.get(a,[])[:2]: out.append(re.sub(r'\b'+a+r'\b',b,line,count=1))
    return [o for o in out if o!=line]
VARS={}
for f in files:
    names=sorted(set(re.findall(r'\bm_\w+',open('/repo/'+f).read())))
    for a in names: VARS[a]=[b for b in names if b!=a][:4]; random.shuffle(VARS[a])
cands=[]
for f in files:
    L=open('/repo/'+f).read().split('\n')
    intop=False; fn=None; depth=0
    for i,l in enumerate(L):
        if 'spdlog::' in l or 'throw' in l or 'fmt::' in l or 'toString' in l: continue
        if re.match(r'^\S.*\b(\w+)\(.*\{\s*$',l): fn=re.match(r'^\S.*?([\w:~]+)\(',l).group(1)
        if l.startswith('}'): fn=None
        if not fn: continue
        if 'toString' in fn or 'operator<<' in fn: continue
        for x in muts(l+'\n'): cands.append((f,i,fn,x.rstrip('\n'),l))
random.shuffle(cands)
print(len(cands),'candidates',len(files),'files')
cands=cands[:N]
W=int(os.environ.get('W','4'))
def worker(job):
    k,chunk=job
    d='/tmp/mut/b%d'%k
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/src',d+'/src'); shutil.copytree('/repo/include',d+'/include')
    code='''
import sys,os,json
ENG=%r
sys.path.insert(0,ENG); sys.setrecursionlimit(20000)
import prog as P
import model as M
M.model()
from rules import behave as B
import check, importlib
from result import Result
B.LIMIT=60
B.compare=lambda todo:[B.one(j) for j in todo]
props=%r
d=%r
P.BUILD=d+'/build'
os.makedirs(P.BUILD,exist_ok=True)
for f in os.listdir('/verif/build'):
    if f.startswith('exporter-') and not os.path.exists(P.BUILD+'/'+f): os.symlink('/verif/build/'+f,P.BUILD+'/'+f)
base=P.Program(d)
for line in sys.stdin:
    f,i,fn,x,l=json.loads(line)
    path=d+'/'+f
    src=open(path).read(); L=src.split('\\n')
    L[i]=x
    open(path,'w').write('\\n'.join(L))
    r={'m':[f,i+1,fn,l.strip(),x.strip()]}
    try:
        p=P.Program(d)
        v=[];u=[]
        for pid in props:
            res=Result(pid,'quick')
            importlib.import_module('rules.'+check.REGISTRY[pid]).run(pid,p,res,'quick')
            v+=[(pid,y['text'][:150]) for y in res.violations]
            u+=[(pid,y[:150]) for y in res.undecided]
            if v: break
        r['v']=v;r['u']=u
    except P.AnalysisBroken as e:
        r['err']=str(e)[-200:]
    open(path,'w').write(src)
    print(json.dumps(r)); sys.stdout.flush()
'''%(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'engine'),props,d)
    open(d+'/w.py','w').write(code)
    p=subprocess.run([sys.executable,d+'/w.py'],input='\n'.join(json.dumps(c) for c in chunk)+'\n',capture_output=True,text=True)
    if p.returncode: print(p.stderr[-1500:])
    shutil.rmtree(d,ignore_errors=True)
    return [json.loads(x) for x in p.stdout.split('\n') if x.startswith('{')]
with cf.ThreadPoolExecutor(W) as ex:
    R=sum(ex.map(worker,[(k,cands[k::W]) for k in range(W)]),[])
n=dict(nocompile=0,caught=0,undec=0,missed=0)
for r in R:
    if 'err' in r: n['nocompile']+=1; continue
    if r['v']: n['caught']+=1
    elif r['u']: n['undec']+=1; print('UNDEC',r['m'],r['u'][:2])
    else: n['missed']+=1; print('MISSED',r['m'])
    if os.environ.get('SHOW') and r['v']: print('CAUGHT',r['m'],r['v'][:1])
print(n)
