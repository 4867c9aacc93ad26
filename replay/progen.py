"""Random terminating WebAssembly programs (validated by wat2wasm) for the replay battery."""
import random
T=['i32','i64','f32','f64']
W0=dict(num=10,const=6,local=10,setl=8,tee=4,load=6,store=6,glob=4,setg=4,block=4,ifx=4,br=5,brtab=2,loop=3,call=4,icall=3,tail=1,ret=1,select=3,drop=2,bulk=0,grow=0,table=0,dead=1,cmpbr=4,mm=0,multi=2)
FAM={'mixed':{}, 'memory':dict(load=25,store=25,mm=1,call=2,block=2,loop=1),'locals':dict(local=25,setl=20,tee=15),
 'globals':dict(glob=25,setg=25,call=3),'control':dict(block=14,ifx=12,br=20,brtab=8,loop=6,ret=4,cmpbr=10,dead=4,select=6,load=2,store=3,glob=1,setg=1),
 'calls':dict(call=18,icall=10,tail=4,multi=10,ret=3,load=2,store=2),'bulk':dict(bulk=25,mm=1,load=4,store=10,call=1,loop=1),
 'grow':dict(grow=12,load=10,store=10,mm=1,call=6,glob=1),'tables':dict(table=18,icall=14,call=2,load=1,store=2),'select':dict(select=25,drop=6)}
CI=[0,1,-1,2,3,7,31,255,4096,65535,0x7fffffff,-0x80000000,0x12345678]
CL=CI[:-1]+[0x123456789abcdef0,0x7fffffffffffffff,-0x8000000000000000,0xffffffff]
CF=['0','-0','1','-1','0.5','1.5','-2.25','100','3e5','-7.75']
I2='add sub mul and or xor shl shr_s shr_u rotl rotr'.split(); CMP='eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'.split(); FC='eq ne lt gt le ge'.split()
LD={'i32':['load','load8_s','load8_u','load16_s','load16_u'],'i64':['load','load8_s','load8_u','load16_s','load16_u','load32_s','load32_u'],'f32':['load'],'f64':['load']}
ST={'i32':['store','store8','store16'],'i64':['store','store8','store16','store32'],'f32':['store'],'f64':['store']}
class G:
    def __init__(s,seed,fam):
        s.r=random.Random(seed); s.w=dict(W0); s.w.update(FAM[fam]); s.fam=fam; s.mm=s.w['mm']; s.sigs=[]; s.tab=s.w['table']>0 or s.w['icall']>0
    def pick(s,opts):
        opts=[(k,w) for k,w in opts if w>0]; return s.r.choices([k for k,_ in opts],[w for _,w in opts])[0]
    def const(s,t):
        r=s.r
        return '%s.const %s'%(t,r.choice(CI if t=='i32' else CL if t=='i64' else CF))
    def leaf(s,t):
        ls=[i for i,x in enumerate(s.lt) if x==t]
        k=s.pick([('c',s.w['const']),('l',s.w['local'] if ls else 0),('g',s.w['glob']),('z',(s.w['grow'] if t=='i32' else 0)),('tz',(s.w['table']/3 if t=='i32' else 0))])
        if k=='c': return s.const(t)
        if k=='l': return 'local.get %d'%s.r.choice(ls)
        if k=='z': return 'memory.size %s'%s.mi()
        if k=='tz': return s.r.choice(['table.size $t1','table.size $t0'])
        return 'global.get $g%d_%s'%(s.r.randrange(2),t)
    def mi(s): return s.r.choice(['0','1','2']) if s.mm else ''
    def addr(s,d,h):
        if s.r.random()<.3: return 'i32.const %d'%s.r.randrange(0,4000)
        ls=[i for i,x in enumerate(s.al)]
        if ls and s.r.random()<.4: return 'local.get %d'%s.r.choice(s.al)
        return s.e('i32',d-1,h)+' i32.const %d i32.and'%s.r.choice([0xff,0xfff,0x3c])
    def e(s,t,d,h):
        """expression of type t; h operands below"""
        if d<=0 or h>14: return s.leaf(t)
        r=s.r;w=s.w;isf=t[0]=='f'
        ls=[i for i,x in enumerate(s.lt) if x==t and i not in s.ro]
        k=s.pick([('leaf',8),('num',w['num']),('tee',w['tee'] if ls else 0),('load',w['load']),('block',w['block']),('if',w['ifx']),('call',w['call'] if s.fuel>0 else 0),('icall',w['icall'] if s.fuel>0 else 0),('select',w['select']),('grow',w['grow'] if t=='i32' else 0),('loop',w['loop'] if s.ld<1 else 0)])
        if k=='leaf': return s.leaf(t)
        if k=='num':
            if isf:
                q=r.random()
                if q<.5: return '%s %s %s.%s'%(s.e(t,d-1,h),s.e(t,d-1,h+1),t,r.choice(['add','sub','mul','min','max','copysign']))
                if q<.65: return '%s %s.%s'%(s.e(t,d-1,h),t,r.choice(['neg','abs','ceil','floor']))
                if q<.8: return '%s %s'%(s.e('f64' if t=='f32' else 'f32',d-1,h),'f32.demote_f64' if t=='f32' else 'f64.promote_f32')
                x=r.choice(['i32','i64']); return '%s %s.convert_%s_%s'%(s.e(x,d-1,h),t,x,r.choice('su'))
            q=r.random()
            if t=='i32' and q<.3:
                x=r.choice(T); return '%s %s %s.%s'%(s.e(x,d-1,h),s.e(x,d-1,h+1),x,r.choice(CMP if x[0]=='i' else FC))
            if q<.35 and t=='i32': return s.e('i64',d-1,h)+' i32.wrap_i64'
            if q<.38 and t=='i32': return s.e(r.choice(['i32']),d-1,h)+' i32.eqz'
            if q<.4 and t=='i64': return s.e('i32',d-1,h)+' i64.extend_i32_'+r.choice('su')
            if q<.5: return '%s %s.%s'%(s.e(t,d-1,h),t,r.choice(['clz','ctz','popcnt','extend8_s','extend16_s']))
            if q<.6: return '%s %s %s.const 1 %s.or %s.%s'%(s.e(t,d-1,h),s.e(t,d-1,h+1),t,t,t,r.choice(['div_u','rem_u','rem_s']))
            return '%s %s %s.%s'%(s.e(t,d-1,h),s.e(t,d-1,h+1),t,r.choice(I2))
        if k=='tee': return '%s local.tee %d'%(s.e(t,d-1,h),r.choice(ls))
        if k=='load':
            x='%s %s.%s %s offset=%d'%(s.addr(d,h),t,r.choice(LD[t]),s.mi(),r.choice([0,1,4,16,100,5000]))
            return x+(' call $canon_'+t if isf else '')
        if k=='select': return '%s %s %s select'%(s.e(t,d-1,h),s.e(t,d-1,h+1),s.e('i32',d-1,h+2))
        if k=='grow': return 'i32.const %d memory.grow %s'%(r.choice([0,1,1,2,70000]),s.mi())
        if k=='block': return s.block(t,d,h)
        if k=='if':
            c=s.e('i32',d-1,h); s.lab.append(t); a=s.body(t,d-1,h); b=s.body(t,d-1,h); s.lab.pop()
            return '%s if (result %s)\n%s\nelse\n%s\nend'%(c,t,a,b)
        if k=='loop': return s.loop(t,d,h)
        return s.call(t,d,h,k=='icall')
    def block(s,t,d,h):
        s.lab.append(t); b=s.body(t,d-1,h); s.lab.pop()
        return 'block (result %s)\n%s\nend'%(t,b)
    def loop(s,t,d,h):
        i=s.ctr.pop() if s.ctr else None
        if i is None: return s.leaf(t)
        s.ld+=1; s.lab.append(None); b=s.stmts(d-1,h,2); v=s.e(t,d-1,h); s.lab.pop(); s.ld-=1
        return 'i32.const %d local.set %d loop (result %s)\n%s\n local.get %d i32.const 1 i32.sub local.tee %d br_if 0\n %s\nend'%(s.r.choice([1,2,3]),i,t,b,i,i,v)
    def body(s,t,d,h):
        b=s.stmts(d,h,2)
        if s.r.random()*20<s.w['dead']:
            n=len(s.lab); k=s.r.randrange(n)
            if s.lab[k] is not None: return b+' %s br %d'%(s.e(s.lab[k],d-1,h),n-1-k)+(' '+s.leaf('i32')+' drop' if s.r.random()<.5 else '')+(' drop '+s.leaf(t) if s.r.random()<.5 else '')
        return b+' '+s.e(t,d,h)
    def call(s,t,d,h,ind):
        s.fuel-=1
        c=[i for i,(p,r) in enumerate(s.sigs) if r and r[-1]==t]
        if not c: return s.leaf(t)
        i=s.r.choice(c); p,r=s.sigs[i]
        if len(p)+h>16: return s.leaf(t)
        a=' '.join(s.e(x,d-2,h+j) for j,x in enumerate(p))
        if ind:
            if not s.tab: return s.leaf(t)
            x='%s i32.const %d call_indirect (type $s%d)'%(a,i+2,i) if s.r.random()<.6 else '%s %s i32.const 0 i32.and i32.const %d i32.add call_indirect (type $s%d)'%(a,s.e('i32',d-2,h+len(p)),i+2,i)
        else: x='%s call $f%d'%(a,i)
        if len(r)>1:  # fold the other results into the last
            x+=''.join(' local.set %d'%s.tmp[y] for y in [r[-1]])
            for y in reversed(r[:-1]): x+=' '+s.fold(y)
            x+=' local.get %d'%s.tmp[r[-1]]
        return x
    def fold(s,y):
        return {'i32':'i64.extend_i32_u','i64':'','f32':'call $canon_f32 i32.reinterpret_f32 i64.extend_i32_u','f64':'call $canon_f64 i64.reinterpret_f64'}[y]+' call $mix'
    def stmts(s,d,h,n):
        return '\n'.join(s.st(d,h) for _ in range(s.r.randrange(n+1)))
    def st(s,d,h):
        if d<=0: return ''
        r=s.r;w=s.w;t=r.choice(T)
        ls=[i for i,x in enumerate(s.lt) if x==t and i not in s.ro]
        labs=[(len(s.lab)-1-i,x) for i,x in enumerate(s.lab) if x is not None]
        k=s.pick([('set',w['setl'] if ls else 0),('store',w['store']),('setg',w['setg']),('drop',w['drop']),('brif',w['br'] if labs else 0),('ifbr',w['cmpbr'] if labs else 0),('brtab',w['brtab'] if labs else 0),('ifs',w['ifx']),('blk',w['block']),('bulk',w['bulk']),('table',w['table']),('ret',w['ret']),('mret',0)])
        if k=='set': return ' %s local.set %d'%(s.e(t,d-1,h),r.choice(ls))
        if k=='store': return ' %s %s %s.%s %s offset=%d'%(s.addr(d,h),s.e(t,d-1,h+1),t,r.choice(ST[t]),s.mi(),r.choice([0,2,8,64,300]))
        if k=='setg': return ' %s global.set $g%d_%s'%(s.e(t,d-1,h),r.randrange(2),t)
        if k=='drop': return ' %s drop'%s.e(t,d-1,h)
        if k=='brif': n,x=r.choice(labs); return ' %s %s br_if %d drop'%(s.e(x,d-1,h),s.e('i32',d-1,h+1),n)
        if k=='ifbr': n,x=r.choice(labs); c=s.e('i32',d-1,h); s.lab.append(None); v=s.e(x,d-1,h); s.lab.pop(); return ' %s if %s br %d end'%(c,v,n+1)
        if k=='brtab':
            n,x=r.choice(labs); ns=[a for a,b in labs if b==x]
            c=s.e('i32',d-1,h); s.lab.append(None); v=s.e(x,d-1,h); ix=s.e('i32',d-1,h+1)+(' i32.const 3 i32.and' if r.random()<.7 else ''); s.lab.pop()
            return ' %s if %s %s br_table %s end'%(c,v,ix,' '.join(str(r.choice(ns)+1) for _ in range(r.randrange(1,5))))
        if k=='ifs': s.lab.append(None); a=s.stmts(d-1,h,2); b=s.stmts(d-1,h,2); s.lab.pop(); return ' %s if %s %s end'%(s.e('i32',d-1,h),a,'else '+b if r.random()<.6 else '')
        if k=='blk':
            s.lab.append(None); a=s.stmts(d-1,h,2); c=s.e('i32',d-1,h); s.lab.pop(); return ' block %s %s br_if 0 %s end'%(a,c,'')
        if k=='ret':
            c=s.e('i32',d-1,h); s.lab.append(None); v=' '.join(s.e(x,d-2,h+j) for j,x in enumerate(s.res)); s.lab.pop(); return ' %s if %s return end'%(c,v)
        if k=='bulk':
            m=lambda: ' '+s.mi()
            q=r.random()
            if q<.5: return ' %s %s %s memory.copy%s%s'%(s.addr(d,h),s.addr(d,h),s.n(d,h),*((lambda a:(a,a))(m()) if not s.mm else (m(),m())))
            return ' %s %s %s memory.fill%s'%(s.addr(d,h),s.e('i32',d-1,h+1),s.n(d,h),m())
        if k=='table':
            q=r.random(); ti=lambda: '%s i32.const 3 i32.and'%s.e('i32',d-2,h) if r.random()<.7 else 'i32.const %d'%r.randrange(8)
            rf=r.choice(['ref.null func','ref.func $f0','%s table.get $t1'%ti()])
            if q<.4: return ' %s %s table.set $t1'%(ti(),rf)
            if q<.55: return ' %s %s i32.const %d table.fill $t1'%(ti(),rf,r.randrange(5))
            if q<.75: return ' %s %s i32.const %d table.copy $t1 %s'%(ti(),ti(),r.randrange(3),r.choice(['$t1','$t0']))
            return ' %s table.get $t1 ref.is_null local.set %d'%(ti(),s.tmp['i32'])
    def n(s,d,h): return 'i32.const %d'%s.r.choice([0,1,3,8,33,200]) if s.r.random()<.6 else s.e('i32',d-2,h+2)+' i32.const 127 i32.and'
    def func(s,i):
        r=s.r
        p=[r.choice(T) for _ in range(r.choice([0,1,2,3,4,6,9] if s.w['multi']>5 else [0,1,2,3,4]))]
        res=[r.choice(T) for _ in range(r.choice([1,1,2,3,5]) if s.w['multi']>5 else r.choice([1,1,1,2]))]
        nl=r.choice([0,2,5,9,14]); L=[r.choice(T) for _ in range(nl)]
        s.lt=p+L; s.ctr=[]; s.ro=set(); s.al=[]
        ex=[]
        for _ in range(3): s.ctr.append(len(s.lt)); s.ro.add(len(s.lt)); s.lt.append('i32'); ex.append('i32')
        s.tmp={}
        for t in T: s.tmp[t]=len(s.lt); s.lt.append(t); ex.append(t)
        for _ in range(2): s.al.append(len(s.lt)); s.ro.add(len(s.lt)); s.lt.append('i32'); ex.append('i32')
        s.res=res; s.lab=[res[0]] if len(res)==1 else []; s.fuel=4; s.ld=0
        b=''.join(' i32.const %d local.set %d'%(r.randrange(3000),a) for a in s.al)
        order=r.random()
        d=r.choice([2,3,4])
        b+=s.stmts(d,0,5)+'\n'
        tc=[j for j,(pp,rr) in enumerate(s.sigs) if rr==res] if r.random()*6<s.w['tail'] else []
        if tc:
            j=r.choice(tc); b+=' '.join(s.e(x,2,k) for k,x in enumerate(s.sigs[j][0])); b+=' return_call $f%d'%j if r.random()<.6 or not s.tab else ' i32.const %d return_call_indirect (type $s%d)'%(j+2,j)
        else: b+=' '.join(s.e(x,d,k) for k,x in enumerate(res))
        if r.random()<.3 and not tc and s.w['ret']>0: b+=' return'
        t=' (func $f%d (type $s%d) (param %s) (result %s) (local %s)\n%s\n )\n'%(i,i,' '.join(p),' '.join(res),' '.join(L+ex),b)
        s.sigs.append((p,res)); return t
    def module(s,n=14):
        fs=''
        for i in range(n): fs+=s.func(i)
        ty=''.join(' (type $s%d (func (param %s) (result %s)))\n'%(i,' '.join(p),' '.join(q)) for i,(p,q) in enumerate(s.sigs))
        r=s.r
        o='(module\n'+ty
        o+=' (memory $m0 %s)\n'%r.choice(['1','1 3','2 2']) + (' (memory $m1 1 2) (memory $m2 1)\n' if s.mm else '')
        if s.tab: o+=' (table $t0 %d funcref) (table $t1 10 funcref)\n (elem (table $t0) (i32.const 2) func %s)\n'%(n+3,' '.join('$f%d'%i for i in range(n)))
        for t in T:
            for g in (0,1): o+=' (global $g%d_%s (mut %s) (%s))\n'%(g,t,t,s.const(t))
        o+=' (global $acc (mut i64) (i64.const 0))\n (func $mix (param i64) global.get $acc i64.const 1000003 i64.mul local.get 0 i64.xor global.set $acc)\n'
        o+=' (data (i32.const 64) "%s")\n'%''.join('\\%02x'%r.randrange(256) for _ in range(64))
        o+='''
 (func $canon_f32 (param f32) (result f32) f32.const 7 local.get 0 local.get 0 local.get 0 f32.ne select)
 (func $canon_f64 (param f64) (result f64) f64.const 7 local.get 0 local.get 0 local.get 0 f64.ne select)
'''+fs
        names=[]
        for i,(p,q) in enumerate(s.sigs):
            for j in range(2):
                nm='t%d_%d'%(i,j); names.append((nm,'l'))
                o+=' (func (export "%s") (result i64) (local i32) i64.const %d global.set $acc %s call $f%d %s\n'%(nm,i,' '.join(s.const(x) for x in p),i,' '.join(s.fold(x) for x in reversed(q)))
                for t in T: o+=''.join(' global.get $g%d_%s %s'%(g,t,s.fold(t)) for g in (0,1))
                for m in (['0','1','2'] if s.mm else ['0']):
                    o+=' i32.const 0 local.set 0 loop local.get 0 i64.load %s call $mix local.get 0 i32.const 8 i32.add local.tee 0 i32.const 9600 i32.lt_u br_if 0 end memory.size %s i64.extend_i32_u call $mix'%(m,m)
                if s.w['table']: o+=''.join(' i32.const %d table.get $t1 ref.is_null i64.extend_i32_u call $mix'%k for k in range(10))
                o+=' global.get $acc)\n'
        return o+')\n',names
def module(seed,fam): return G(seed,fam).module()
