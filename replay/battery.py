"""Replay battery: wasm modules that exercise one construct in many operand contexts, run on the real code
(a runner built from /repo's current sources) and compared with the reference interpreter of wabt.  It only
turns a failed proof obligation into a concrete failing input; it decides nothing on the unchanged tree."""
import os,random,subprocess,itertools
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('VREPO','/repo')
class Skip(Exception): pass
def build_runner(d):
    exe=os.path.join(d,'runner')
    if os.path.exists(exe): return exe
    r=subprocess.run(['gcc','-w','-O1','-I',REPO+'/include','-I',REPO+'/sljit/sljit_src',HERE+'/runner.c',REPO+'/pwart/pwart.c',REPO+'/sljit/sljit_src/sljitLir.c','-DSLJIT_CONFIG_AUTO=1','-lm','-lpthread','-ldl','-o',exe],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    if r.returncode: raise Skip('runner does not build: '+r.stdout.decode()[-500:])
    return exe
def compare(wat,names,d,tag,cfgs=(0,1,2,3)):
    """first difference between interpreter and pwart: (cfg,name,expected,got) or None"""
    exe=build_runner(d)
    w=os.path.join(d,tag+'.wat'); b=os.path.join(d,tag+'.wasm'); nf=os.path.join(d,tag+'.names')
    open(w,'w').write(wat)
    r=subprocess.run(['wat2wasm','--enable-tail-call','--enable-multi-memory',w,'-o',b],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    if r.returncode: raise Skip('wat2wasm: '+r.stdout.decode()[:400])
    r=subprocess.run(['wasm-interp','--enable-tail-call','--enable-multi-memory','--run-all-exports',b],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=120)
    exp={}
    for l in r.stdout.decode(errors='replace').splitlines():
        if '() =>' not in l: continue
        if '=> error' in l: break      # a trap: what pwart leaves behind is not specified
        n,v=l.split('() =>',1); v=v.strip()
        if v.startswith('i32:') or v.startswith('i64:'): exp[n]=int(v[4:])
    tn={n:t for n,t in names}
    with open(nf,'w') as f:
        for n in exp:
            if n in tn: f.write('%s %s\n'%(tn[n],n))
    if not exp: raise Skip('reference interpreter gave no results')
    for c in cfgs:
        try: r=subprocess.run([exe,b,str(c),nf],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=120)
        except subprocess.TimeoutExpired: return (c,'(load)','results','timeout')
        got={}
        for l in r.stdout.decode(errors='replace').splitlines():
            if '=' in l: k,v=l.split('=',1); got[k]=v
        for n in exp:
            if n not in tn: continue
            g=got.get(n)
            if g is None: return (c,n,'%x'%exp[n],got.get('LOAD','no result (process ended)'))
            if g!='%x'%exp[n]: return (c,n,'%x'%exp[n],g)
    return None
# ---------------------------------------------------------------- operands in many places
SZ={'i32':4,'f32':4,'i64':8,'f64':8}
CONST={'i32':[0,1,-1,2,7,31,32,33,0x7fffffff,-0x80000000,0x80,0x8000,0xff,0x12345678,-5,0x40000000],
 'i64':[0,1,-1,2,63,64,65,0x7fffffffffffffff,-0x8000000000000000,0x80,0x8000,0x80000000,0xffffffff,0x100000000,0x123456789abcdef0,-5],
 'f32':['0','-0','1','-1','0.5','-0.5','1.5','2.5','inf','-inf','nan','100.7','-100.7','3000000000','0x1p-140','16777217','-3.5','nan:0x200001'],
 'f64':['0','-0','1','-1','0.5','-0.5','1.5','2.5','inf','-inf','nan','100.7','-100.7','3000000000','0x1p-1060','9007199254740993','-3.5','5e18','1e19']}
KINDS=['const','param','local','spill','reg','mem','call','global']
EXTRA={'i32':['memsize','cmp','wrap','reint','fcmp'],'i64':['reint','ext'],'f32':['reint','reintmem'],'f64':['reint']}
class Fn:
    """places operand values: parameters, locals in registers and memory, scratch registers, stack slots, ..."""
    def __init__(s): s.pre=''
def place(t,kind,c,env):
    """wat expression pushing constant c of type t through the given kind of location"""
    k='%s.const %s'%(t,c)
    if kind=='const': return k
    if kind in('param','local','spill'):
        i=env['loc'][(t,kind)][env['n'][(t,kind)]%len(env['loc'][(t,kind)])]; env['n'][(t,kind)]+=1
        env['pre']+=' %s local.set %d\n'%(k,i); return 'local.get %d'%i
    if kind=='reg':
        if t[0]=='i': return '%s %s.const 0 %s.or'%(k,t,t)
        return '%s %s.neg %s.neg'%(k,t,t)
    if kind=='mem': env['off']+=8; env['pre']+=' i32.const %d %s %s.store\n'%(env['off'],k,t); return 'i32.const %d %s.load'%(env['off'],t)
    if kind=='call': return '%s call $id_%s'%(k,t)
    if kind=='global': env['pre']+=' %s global.set $g_%s\n'%(k,t); return 'global.get $g_%s'%t
    if kind=='memsize': return 'memory.size'
    if kind=='cmp': return '%s i32.const 7 i32.eq'%k
    if kind=='fcmp': return 'f64.const 1 f64.const 2 f64.lt'
    if kind=='wrap': return 'i64.const %s i32.wrap_i64'%c
    if kind=='ext': return 'i32.const 77 i64.extend_i32_u'
    if kind=='reintmem': return 'memory.size f32.reinterpret_i32'
    if kind=='reint':
        o={'i32':'f32','f32':'i32','i64':'f64','f64':'i64'}[t]
        return '%s %s.reinterpret_%s %s.reinterpret_%s'%(k,o,t,t,o)
PREL='''(module
 (memory (export "mem") 1)
 (global $g_i32 (mut i32) (i32.const 0)) (global $g_i64 (mut i64) (i64.const 0))
 (global $g_f32 (mut f32) (f32.const 0)) (global $g_f64 (mut f64) (f64.const 0))
 (func $id_i32 (param i32) (result i32) local.get 0) (func $id_i64 (param i64) (result i64) local.get 0)
 (func $id_f32 (param f32) (result f32) local.get 0) (func $id_f64 (param f64) (result f64) local.get 0)
'''
# locals: 4 params (one of each type), then 7 i64, 3 i32 (registers run out), 2 f32, 2 f64
LOCALS='(param i32 i64 f32 f64) (local i64 i32 i32 i64 i64 i64 i64 i32 f32 f32 f64 f64 i32 i64)'
LOCI={('i32','param'):[0],('i64','param'):[1],('f32','param'):[2],('f64','param'):[3],
 ('i64','local'):[4,7],('i32','local'):[5,6],('i64','spill'):[8,9,10,17],('i32','spill'):[11,16],('f32','local'):[12,13],('f32','spill'):[13,12],('f64','local'):[14,15],('f64','spill'):[15,14]}
def kinds(t): return KINDS+EXTRA[t]
def canon(t):
    """keep NaN results comparable: the sign and payload of a produced NaN are not determined"""
    return '' if t[0]=='i' else 'call $canon_%s'%t
CANON='''
 (func $canon_f32 (param f32) (result f32) f32.const nan local.get 0 local.get 0 local.get 0 f32.ne select)
 (func $canon_f64 (param f64) (result f64) f64.const nan local.get 0 local.get 0 local.get 0 f64.ne select)
'''
BODY_ALL=0
def one(name,op,sig,args,ks,depth,rng,bitexact):
    """function: push depth live values, the operands, op; store the result and the live values; return a mix"""
    env={'loc':LOCI,'n':{k:rng.randrange(4) for k in LOCI},'pre':'','off':64}
    live=[]
    for i in range(depth):
        t=rng.choice(['i32','i64','f32','f64']); k=rng.choice(kinds(t)); c=rng.choice(CONST[t])
        if k in('param','local','spill') : k='reg'
        if k=='mem': k='reg'
        live.append((t,place(t,k,c,env)))
    ex=[place(t,k,c,env) for t,k,c in zip(sig[0],ks,args)]
    r=sig[1]; li={'i32':16,'i64':17,'f32':13,'f64':15}[r]
    # result is stored to memory directly from the top of the stack through swapping locals
    b=' (func $%s %s\n%s'%(name,LOCALS,env['pre'])
    for t,e in live: b+='  %s\n'%e
    for e in ex: b+='  %s\n'%e
    b+='  %s\n'%op
    b+='  local.set %d i32.const 0 local.get %d %s %s.store\n'%(li,li,'' if bitexact else canon(r),r)
    o=8
    for t,e in reversed(live):
        lj={'i32':16,'i64':17,'f32':13,'f64':15}[t]
        b+='  local.set %d i32.const %d local.get %d %s.store\n'%(lj,o,lj,t); o+=8
    b+=' )\n (func (export "%s") (result i64) (local i64) i32.const 0 i64.const 0 i64.store\n'%name
    for i in range(8,o,8): b+=' i32.const %d i64.const 0 i64.store\n'%i
    b+='  i32.const 1 i64.const 2 f32.const 3 f64.const 4 call $%s\n i64.const 0\n'%name
    for i in range(0,o,8): b+=' i64.const 1000003 i64.mul i32.const %d i64.load i64.xor\n'%i
    return b+')\n'
BITEXACT={'abs','neg','copysign','reinterpret_i32','reinterpret_i64'}
def numeric(ops,seed,d,tag,per=60):
    """ops: list of (text,(argtypes,result)); returns mismatch dict or None"""
    rng=random.Random(seed)
    for text,sig in ops:
        src=PREL+CANON; names=[]; n=0
        t0=sig[0][0]
        combos=list(itertools.product(*[kinds(t) for t in sig[0]]))
        C=CONST if 'trunc_sat' not in text else {'f32':['0','1','-0','0.5','-0.5','1.5','100.7','65536.5'],'f64':['0','1','-0','0.5','-0.5','1.5','100.7','65536.5']}
        vals=list(itertools.product(*[C[t] for t in sig[0]]))
        rng.shuffle(combos); rng.shuffle(vals)
        jobs=[(combos[i%len(combos)],vals[i%len(vals)]) for i in range(max(len(combos),len(vals)))]
        for ks,vs in jobs:
            nm='t%d'%n; n+=1
            src+=one(nm,text,sig,vs,ks,rng.choice([0,0,1,2,4,9,14]),rng,text.split('.')[1] in BITEXACT); names.append((nm,'l'))
        m=compare(src+')',names,d,tag)
        if m: return {'construct':text,'cfg':m[0],'function':m[1],'expected':m[2],'got':m[3],'wat':os.path.join(d,tag+'.wat')}
    return None
_I='eqz eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'.split()
_A='clz ctz popcnt add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr'.split()
_F='abs neg ceil floor trunc nearest sqrt add sub mul div min max copysign'.split()
OPS={}
for i,n in enumerate(_I): OPS[0x45+i]=('i32.'+n,(['i32']*(1 if i==0 else 2),'i32')); OPS[0x50+i]=('i64.'+n,(['i64']*(1 if i==0 else 2),'i32'))
for i,n in enumerate('eq ne lt gt le ge'.split()): OPS[0x5b+i]=('f32.'+n,(['f32']*2,'i32')); OPS[0x61+i]=('f64.'+n,(['f64']*2,'i32'))
for i,n in enumerate(_A): OPS[0x67+i]=('i32.'+n,(['i32']*(1 if i<3 else 2),'i32')); OPS[0x79+i]=('i64.'+n,(['i64']*(1 if i<3 else 2),'i64'))
for i,n in enumerate(_F): OPS[0x8b+i]=('f32.'+n,(['f32']*(1 if i<7 else 2),'f32')); OPS[0x99+i]=('f64.'+n,(['f64']*(1 if i<7 else 2),'f64'))
for i,(n,a,r) in enumerate([('i32.wrap_i64','i64','i32'),('i32.trunc_f32_s','f32','i32'),('i32.trunc_f32_u','f32','i32'),('i32.trunc_f64_s','f64','i32'),('i32.trunc_f64_u','f64','i32'),
 ('i64.extend_i32_s','i32','i64'),('i64.extend_i32_u','i32','i64'),('i64.trunc_f32_s','f32','i64'),('i64.trunc_f32_u','f32','i64'),('i64.trunc_f64_s','f64','i64'),('i64.trunc_f64_u','f64','i64'),
 ('f32.convert_i32_s','i32','f32'),('f32.convert_i32_u','i32','f32'),('f32.convert_i64_s','i64','f32'),('f32.convert_i64_u','i64','f32'),('f32.demote_f64','f64','f32'),
 ('f64.convert_i32_s','i32','f64'),('f64.convert_i32_u','i32','f64'),('f64.convert_i64_s','i64','f64'),('f64.convert_i64_u','i64','f64'),('f64.promote_f32','f32','f64'),
 ('i32.reinterpret_f32','f32','i32'),('i64.reinterpret_f64','f64','i64'),('f32.reinterpret_i32','i32','f32'),('f64.reinterpret_i64','i64','f64'),
 ('i32.extend8_s','i32','i32'),('i32.extend16_s','i32','i32'),('i64.extend8_s','i64','i64'),('i64.extend16_s','i64','i64'),('i64.extend32_s','i64','i64')]): OPS[0xa7+i]=(n,([a],r))
for i,(n,a,r) in enumerate([('i32.trunc_sat_f32_s','f32','i32'),('i32.trunc_sat_f32_u','f32','i32'),('i32.trunc_sat_f64_s','f64','i32'),('i32.trunc_sat_f64_u','f64','i32'),('i64.trunc_sat_f32_s','f32','i64'),('i64.trunc_sat_f32_u','f32','i64'),('i64.trunc_sat_f64_s','f64','i64'),('i64.trunc_sat_f64_u','f64','i64')]): OPS[0xfc00+i]=(n,([a],r))
def prog(fam,n,d):
    """random programs of one family"""
    import progen
    for seed in range(n):
        src,names=progen.module(seed,fam)
        try: m=compare(src,names,d,'p_%s_%d'%(fam,seed))
        except Skip: continue
        if m: return {'construct':'random program, family %s, seed %d'%(fam,seed),'cfg':m[0],'function':m[1],'expected':m[2],'got':m[3],'wat':os.path.join(d,'p_%s_%d.wat'%(fam,seed))}
    return None
def const(d):
    """constants around every encoding length"""
    src='(module'; names=[]
    vs=sorted(set([0,0x12345678,0x123456789abcdef0]+[s*((1<<k)+e) for k in range(64) for e in(-1,0,1) for s in(1,-1)]))
    for t,w in(('i32',32),('i64',64)):
        for v in vs:
            if not -(1<<(w-1))<=v<(1<<(w-1)): continue
            n='%s_%d'%(t,len(names)); names.append((n,t[0].replace('i','l')))
            src+=' (func (export "%s") (result i64) %s.const %d %s)\n'%(n,t,v,'i64.extend_i32_s' if w==32 else '')
    for t in('f32','f64'):
        for v in CONST[t]:
            n='%s_%d'%(t,len(names)); names.append((n,'l'))
            src+=' (func (export "%s") (result i64) %s.const %s %s)\n'%(n,t,v,'i32.reinterpret_f32 i64.extend_i32_u' if t=='f32' else 'i64.reinterpret_f64')
    # long forms: many locals, globals, functions
    m=compare(src+')',names,d,'const')
    if m: return {'construct':'constants','cfg':m[0],'function':m[1],'expected':m[2],'got':m[3],'wat':os.path.join(d,'const.wat')}
    return prog('mixed',6,d)
BYNAME={v[0]:v for v in OPS.values()}
def run(b,seed,d):
    if b[0]=='numeric': return numeric([BYNAME[b[1]]],seed,d,'bat')
    if b[0]=='prog': return prog(b[1],b[2],d)
    if b[0]=='const': return const(d)
    raise Skip('unknown battery')
if __name__=='__main__':
    import sys,tempfile
    d=tempfile.mkdtemp()
    for o in (sys.argv[1:] or sorted(BYNAME)):
        try: print(o,numeric([BYNAME[o]],1,d,'n'))
        except Skip as e: print(o,'skip',e)
