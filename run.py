#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--units GLOB] [-v]
Discharges every proof obligation of a property against /repo's current sources and writes evidence/PROPERTY.json."""
import sys,os,re,json,time,subprocess,tempfile,shutil,fnmatch,threading,resource
from concurrent.futures import ThreadPoolExecutor,as_completed
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path[:0]=[HERE,os.path.join(HERE,'replay')]
import vlib,units as U
REPO=vlib.REPO
UNDECIDED=re.compile(r'^(ghost:|harness:)|unwinding assertion|within the modelled contract|called helper is a known function|recursion unwinding')
CBMC=['cbmc','--unwinding-assertions','--slice-formula','--drop-unused-functions','--verbosity','8']
def limits():
    resource.setrlimit(resource.RLIMIT_AS,(7<<30,7<<30)); os.setpgrp()
class Tool(Exception): pass
def sh(cmd,timeout,cwd=None):
    t=time.time()
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,cwd=cwd,preexec_fn=limits)
    try: out,_=p.communicate(timeout=max(1,timeout))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return None,'',time.time()-t
    return p.returncode,out.decode(errors='replace'),time.time()-t
class Run:
    def __init__(s,prop,tier,seed):
        s.prop=prop;s.tier=tier;s.seed=seed;s.t0=time.time()
        s.deadline=s.t0+(800 if tier=='quick' else 3300)
        s.d=tempfile.mkdtemp(prefix='vf_')
        open(s.d+'/helpers.h','w').write(vlib.helpers_h())
        o,s.have=vlib.real_h(); open(s.d+'/real.h','w').write(o)
        open(s.d+'/gen.h','w').write(vlib.gen_h())
    def left(s,n): return min(n,s.deadline-time.time())
    def build(s,u,extra,tag):
        a=os.path.join(s.d,tag+'.a.gb'); b=os.path.join(s.d,tag+'.b.gb')
        cmd=['goto-cc','-DG_NW=%d'%u.get('nw',14)]+['-D'+x for x in u.get('defs',[])+extra]+['-I'+s.d,'-I'+HERE+'/ghost','-I'+HERE+'/ghost/inc','-I'+REPO+'/include','-I'+REPO+'/pwart','-I'+REPO+'/sljit/sljit_src','--function','h_main',os.path.join(HERE,'units',u['src']),'-o',a]
        rc,out,_=sh(cmd,s.left(120))
        if rc!=0: raise Tool('does not compile: '+out[-1500:])
        if u.get('jit',True):
            syms=set(re.findall(r'^(\w+)',subprocess.run(['goto-instrument','--show-symbol-table',a],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL).stdout.decode(errors='replace'),re.M)) if 0 else None
            rep=vlib.replacements(s.have)
            for r in u.get('noreplace',[]):
                rep=[x for i,x in enumerate(rep) if not (x.startswith(r+':') or (i+1<len(rep) and rep[i+1].startswith(r+':')))]
            for r in u.get('replace',[]): rep+=['--replace-calls',r]
            rc,out,_=sh(['goto-instrument']+rep+[a,b],s.left(60))
            if rc!=0: raise Tool('goto-instrument: '+out[-1500:])
        else: b=a
        return b
    def cbmc(s,u,gb,timeout,extra=[]):
        cmd=CBMC[:1]+[gb,'--unwind',str(u.get('unwind',70))]+CBMC[1:]+u.get('cbmc',['--no-standard-checks'])+(['--sat-solver','cadical'] if u.get('cadical') else [])+extra
        rc,out,t=sh(cmd,s.left(timeout))
        if rc is None: return None,t,out,cmd
        res=re.findall(r'^\[([^\]]*)\] (?:file \S+ )?(?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$',out,re.M)
        if rc not in(0,10) or not res: raise Tool('cbmc rc %s: %s'%(rc,out[-800:]))
        return res,t,out,cmd
    def unit(s,u):
        r={'id':u['id'],'unit':u,'status':'undecided','obl':0,'dis':0,'time':0.0,'fails':[],'note':'','mode':'','cmd':''}
        def go(extra,tag,timeout):
            gb=s.build(u,extra,tag)
            res,t,out,cmd=s.cbmc(u,gb,timeout); r['time']+=t; r['cmd']=' '.join(cmd)
            if res is None: r['note']='solver timeout'; return None,gb
            cover=[x for x in res if x[1].startswith('cover:')]
            obl=[x for x in res if not x[1].startswith('cover:')]
            r['obl']=len(obl); r['dis']=sum(x[2]=='SUCCESS' for x in obl)
            r['fails']=[x for x in obl if x[2]!='SUCCESS']
            r['vac']=any(x[2]=='SUCCESS' for x in cover)
            if not cover: r['note']='no cover obligation'
            return (not r['fails']),gb
        try:
            tag=re.sub(r'\W','_',u['id'])
            ok,gb=go([],tag,u.get('timeout',300))
            if ok is None: return r
            und=[x for x in r['fails'] if UNDECIDED.search(x[1])]
            if not ok and u.get('exact') and not und:
                keep=(r['fails'],r['obl'],r['dis'])
                ok2,gb2=go(['G_EXACT'],tag+'_x',u.get('exact_timeout',400))
                if ok2 is None:
                    r['fails'],r['obl'],r['dis']=keep; r['note']='fails with uninterpreted arithmetic, timeout with machine arithmetic'; r['candidate']=True
                    return r
                ok=ok2;gb=gb2;r['mode']='exact'
                und=[x for x in r['fails'] if UNDECIDED.search(x[1])]
            if ok:
                if r.get('vac') or r['obl']==0: r['status']='vacuous'; r['note']='harness end unreachable'
                else: r['status']='ok'
            else:
                real=[x for x in r['fails'] if not UNDECIDED.search(x[1])]
                # a harness limit that was hit makes what lies behind it unknown, not wrong
                r['status']='undecided' if und else 'fail'; r['note']='; '.join(x[1] for x in (und or real))[:400]
                r['gb']=gb
        except Tool as e: r['note']=str(e)
        except Exception as e: r['note']='error: %r'%e
        return r
    def trace(s,r):
        if 'gb' not in r: return ''
        p=[x[0] for x in r['fails'] if not UNDECIDED.search(x[1])][:1]
        cmd=['cbmc',r['gb'],'--unwind',str(r['unit'].get('unwind',70)),'--slice-formula','--drop-unused-functions','--trace']+r['unit'].get('cbmc',['--no-standard-checks'])+sum([['--property',x] for x in p],[])
        rc,out,_=sh(cmd,s.left(120)); return ' '.join(cmd)+'\n'+out[-40000:] if rc is not None else '(no trace: timeout)'
def main():
    a=sys.argv[1:]; prop=a[0]; tier=os.environ.get('VERIF_TIER','quick'); pat='*'; verb='-v' in a
    if '--tier' in a: tier=a[a.index('--tier')+1]
    if '--units' in a: pat=a[a.index('--units')+1]
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    P=U.PROPS[prop]
    us=[u for u in U.UNITS if prop in u['props'] and (tier=='thorough' or not u.get('thorough')) and fnmatch.fnmatch(u['id'],pat)]
    us.sort(key=lambda u:-u.get('cost',10))
    run=Run(prop,tier,seed); res=[]
    try:
        with ThreadPoolExecutor(int(os.environ.get('VJOBS','8'))) as ex:
            for f in as_completed([ex.submit(run.unit,u) for u in us]):
                r=f.result()
                res.append(r)
                if verb or r['status']!='ok': print('%-9s %-28s %3d/%3d %6.1fs %s %s'%(r['status'],r['id'],r['dis'],r['obl'],r['time'],r['mode'],r['note'][:300]),flush=True)
        known=[l.strip() for l in open(HERE+'/known_findings.txt')] if os.path.exists(HERE+'/known_findings.txt') else []
        known=[l for l in known if l.startswith('finding: property=%s '%prop)]
        for l in known: print('KNOWN-FINDING: '+l[len('finding: '):])
        bad=[r for r in res if r['status'] in('fail','vacuous') or r.get('candidate')]
        und=[r for r in res if r['status']=='undecided' and not r.get('candidate')]
        viol=0; bat_note=[]
        if bad or und:
            import battery
            os.makedirs(HERE+'/replays',exist_ok=True)
            seen=[];hit=None
            for r in bad+und:
                b=r['unit'].get('battery') or P.get('battery')
                if not b or b in seen or time.time()>run.deadline+60: continue
                seen.append(b)
                try: m=battery.run(b,seed,run.d)
                except battery.Skip as e: bat_note.append('battery %r: %s'%(b,e)); continue
                except Exception as e: bat_note.append('battery %r: error %r'%(b,e)); continue
                if m: hit=(r,m); break
            hard=[r for r in bad if r['status']=='fail']
            if hit or hard:
                r=hit[0] if hit else hard[0]
                path='%s/replays/%s-%s.txt'%(HERE,prop,re.sub(r'\W','_',r['id']))
                with open(path,'w') as f:
                    f.write('property %s\nunit %s: %s\n'%(prop,r['id'],r['unit'].get('about','')))
                    for x in r['fails']: f.write('failed obligation [%s] %s: %s\n'%x)
                    f.write('%s\nchecker: %s\n'%(r['note'],r['cmd']))
                    for q in bad:
                        if q is not r: f.write('also failed: %s: %s\n'%(q['id'],q['note']))
                    if hit:
                        m=hit[1]; f.write('\nreplayed on the real code: %s\n'%json.dumps(m,indent=1))
                        if m.get('wat') and os.path.exists(m['wat']): f.write('\nmodule:\n'+open(m['wat']).read())
                    else: f.write('\nno failing input was found by the replay battery\n')
                    f.write('\nverifier output:\n'+run.trace(r))
                for q in bad: print('  failed: %s: %s'%(q['id'],q['note'][:200]))
                print('VIOLATION property=%s replay=%s%s'%(prop,path,'' if hit else ' no-failing-input-found')); viol=1
        ok=[r for r in res if r['status']=='ok']
        proofs=[r for r in res if r['unit'].get('kind','proof')=='proof']; bnd=[r for r in res if r['unit'].get('kind','proof')!='proof']
        fns=sorted(set(f for r in res for f in r['unit'].get('fns',[])))
        cov={'obligations':sum(r['obl'] for r in proofs),'discharged':sum(r['dis'] for r in proofs if r['status']=='ok'),
         'checker_cmd':'goto-cc | goto-instrument --replace-calls | cbmc --unwinding-assertions (exact command per unit under units)',
         'trusted_base':U.TRUSTED+P.get('trusted',[]),
         'backend':'CBMC 6.11 bit-level back end (MiniSat, or CaDiCaL where marked)','functions_under_contract':fns,
         'solver_seconds':round(sum(r['time'] for r in res),1),
         'units':[{'id':r['id'],'what':r['unit'].get('about',''),'kind':r['unit'].get('kind','proof'),'bound':r['unit'].get('bound',''),'status':r['status'],'obligations':r['obl'],'discharged':r['dis'],'seconds':round(r['time'],1),'arithmetic':'machine' if r['mode']=='exact' or not r['unit'].get('exact') else 'uninterpreted, shared with the specification','note':r['note']} for r in res],
         'bounded_obligations':sum(r['obl'] for r in bnd),'bounded_discharged':sum(r['dis'] for r in bnd if r['status']=='ok'),
         'undecided_units':[r['id'] for r in res if r['status'] in('undecided','vacuous')],'battery_notes':bat_note}
        ev={'property':prop,'tier':tier,'seed':seed,'level':'proof' if cov['obligations'] else 'other','coverage':cov,'assumptions':U.ASSUME+P.get('assume',[]),'wall_s':round(time.time()-run.t0,1),'violations':viol}
        if not cov['obligations']: cov['explanation']='no unit under proof'
        os.makedirs(HERE+'/evidence',exist_ok=True)
        if pat=='*': json.dump(ev,open(HERE+'/evidence/%s.json'%prop,'w'),indent=1)
        print('%s: %d units, %d/%d obligations discharged, %d bounded, %d undecided, %.0fs'%(prop,len(res),cov['discharged'],cov['obligations'],cov['bounded_discharged'],len(cov['undecided_units']),time.time()-run.t0))
        return 1 if viol else 0
    finally: shutil.rmtree(run.d,ignore_errors=True)
if __name__=='__main__': sys.exit(main())
