"""The proof units: harness, parameters, and the properties whose obligations they generate."""
UNITS=[]
TRUSTED=['CBMC 6.11.0 (goto-cc, goto-instrument, SAT back end)',
 'ghost/ghost.h: the assumed contract of sljit_emit_* on x86-64 (each instruction has the meaning sljit documents), operand encodings, 7 scratch and 6 saved integer registers, 15 scratch float registers',
 'gcc compiles the verified C text with the semantics CBMC gives it (LP64, x86-64, little endian)',
 'vlib.py: mechanical generation of the helper dispatch table and of the renamed copies of pwart_EmitSaveStack and pwart_EmitSaveScratchRegisterAll']
ASSUME=['termination of the generated code and of loops inside sljit is not proved',
 'the frame pointer and the native stack pointer are fixed representatives; the generated code is proved to use them only as base of an address',
 'only the 64-bit code paths (target_ptr_size 64, x86-64) are covered']
def unit(**k): UNITS.append(k)
import battery as B
# ------------------------------------------------------------------ numeric instructions
INTS=list(range(0x45,0x5b))+list(range(0x67,0x8b))+[0xa7,0xac,0xad]+list(range(0xc0,0xc5))
FLOATS=list(range(0x5b,0x67))+list(range(0x8b,0xa7))+[x for x in range(0xa8,0xc0) if x not in(0xac,0xad)]+list(range(0xfc00,0xfc08))
DIV=[0x6d,0x6e,0x6f,0x70,0x7f,0x80,0x81,0x82]
CALL2=[0x77,0x78,0x89,0x8a,0x96,0x97,0x98,0xa4,0xa5,0xa6]
NUMF=['opgen_GenNumOp','opgen_GenMiscOp','opgen_GenMiscOp_FC','opgen_GenI32Op','opgen_GenCompareOp','opgen_GenArithmeticOp','opgen_GenConvertOp','pwart_EmitCallFunc2','pwart_EmitSaveStack','pwart_EmitSaveScratchRegisterAll','pwart_EmitStoreStackValue','pwart_EmitLoadReg','pwart_EmitStackValueLoadReg','stackvalue_Push','stackvalue_FindSvalueUseReg','stackvalue_GetAlignedOffset']
for o in INTS+FLOATS:
    n=B.OPS[o][0]; p='P02' if o in INTS else 'P03'
    slow=o in DIV or o in CALL2
    unit(id='num.'+n,props=[p],src='num.c',defs=['OPC=0x%x'%o,'NWIT=1'],nw=14,cost=70 if slow else 20,timeout=500,exact=True,about='%s from every operand stack state: result value, deeper operand, locals and memory unchanged'%n,fns=NUMF,battery=('numeric',n))
    if B.OPS[o][0].split('.')[1] in('clz','ctz','popcnt','rotl','rotr','ceil','floor','trunc','nearest','sqrt','min','max','copysign') or o in(0xa9,0xab,0xae,0xaf,0xb0,0xb1,0xb3,0xb5,0xb8,0xba) or o>=0xfc00:
        unit(id='helper.'+n,props=[p],src='num.c',defs=['OPC=0x%x'%o,'PART=2'],nw=14,cost=40 if 'popcnt' in n else 4,cadical='popcnt' in n,timeout=300,about='the C helper that the code of %s calls, on an arbitrary frame'%n,fns=['runtime helper of '+n],battery=('numeric',n))
# ------------------------------------------------------------------ immediates
LEBF=['read_LEB','read_LEB_signed','read_LEB_']
for bits,sg in [(7,0),(32,0),(32,1),(33,1),(64,1),(64,0)]:
    unit(id='leb.%s%d'%('su'[1-sg],bits),props=['P01'],src='leb.c',defs=['BITS=%d'%bits,'SGN=%d'%sg],jit=False,cost=3,timeout=200,unwind=20,cbmc=['--no-standard-checks','--bounds-check','--pointer-check'],about='LEB128 decoding of %d-bit %s integers, all valid encodings including redundant ones'%(bits,'signed' if sg else 'unsigned'),fns=LEBF,battery=('const',))
# ------------------------------------------------------------------ memory access
MEMF=['opgen_GenMemOp','opgen_GenLoad','opgen_GenStore','opgen_GenBaseAddressReg','opgen_GenI32Load','opgen_GenI64Load','opgen_GenFloatLoad','stackvalue_EmitSwapTopTwoValue','pwart_EmitStoreStackValue','pwart_EmitStackValueLoadReg','stackvalue_Push','stackvalue_PushStackValueLike','read_LEB']
MODES={0:'memory 0 with its base in a register',1:'memory 1 by explicit index',2:'raw native memory, 64-bit index',3:'memory 0 with its base in the descriptor',4:'memory 1 by explicit index with its base in a register'}
MEMN={0x28:'i32.load',0x29:'i64.load',0x2a:'f32.load',0x2b:'f64.load',0x2c:'i32.load8_s',0x2d:'i32.load8_u',0x2e:'i32.load16_s',0x2f:'i32.load16_u',0x30:'i64.load8_s',0x31:'i64.load8_u',0x32:'i64.load16_s',0x33:'i64.load16_u',0x34:'i64.load32_s',0x35:'i64.load32_u',0x36:'i32.store',0x37:'i64.store',0x38:'f32.store',0x39:'f64.store',0x3a:'i32.store8',0x3b:'i32.store16',0x3c:'i64.store8',0x3d:'i64.store16',0x3e:'i64.store32'}
for o in range(0x28,0x3f):
    for md in range(5):
        th=md>2 or (md>0 and o not in(0x28,0x29,0x2b,0x2e))
        unit(id='mem.%s.%d'%(MEMN[o],md),props=['P06'],src='mem.c',replace=['read_LEB_:g_read_LEB_'],defs=['OPC=0x%x'%o,'MODE=%d'%md],nw=14,cost=(200 if o>=0x36 else 60 if md==1 else 30),timeout=(900 if th else 500),exact=True,thorough=th,about='%s, %s'%(MEMN[o],MODES[md]),fns=MEMF,battery=('prog','memory',8))
unit(id='leb.u32as1',props=['P01'],src='leb.c',defs=['BITS=32','SGN=0','ARG=1'],jit=False,cost=3,timeout=200,unwind=20,cbmc=['--no-standard-checks','--bounds-check','--pointer-check'],about='LEB128 decoding of a table index (requested as 1 bit)',fns=LEBF,battery=('const',))
# ------------------------------------------------------------------ constants, locals, globals
LEBR=['read_LEB_:g_read_LEB_']
TYN={1:'i32',2:'i64',3:'f32',4:'f64',5:'ref'}
for o,t in [(0x41,'i32'),(0x42,'i64'),(0x43,'f32'),(0x44,'f64')]:
    unit(id='const.'+t,props=['P01'],src='const.c',replace=LEBR,defs=['OPC=0x%x'%o],nw=14,cost=20,timeout=300,exact=True,about='%s.const pushes the encoded value'%t,fns=['opgen_GenMemOp','opgen_GenI32Const','opgen_GenI64Const','opgen_GenF32Const','opgen_GenF64Const'],battery=('const',))
for o,nm in [(0x20,'get'),(0x21,'set'),(0x22,'tee')]:
    for ty in TYN:
      for lk in(0,1,2):
        if lk==0 and ty in(3,4): continue
        unit(id='local.%s.%s.%s'%(nm,TYN[ty],['reg','param','frame'][lk]),props=['P05'],thorough=(nm,lk) in((('set',2),('tee',1)) if ty in(2,4,5) else (('set',1),('tee',2)) if ty==3 else ()),src='local.c',replace=LEBR,defs=['OPC=0x%x'%o,'TY=%d'%ty,'LK=%d'%lk,'NWIT=2'],nw=14,cost=20,timeout=400,exact=True,about='local.%s of a %s local in a %s'%(nm,TYN[ty],['register','parameter slot','native frame slot'][lk]),fns=['opgen_GenMemOp','opgen_GenLocalGet','opgen_GenLocalSet','opgen_GenLocalTee','pwart_EmitSaveStack','pwart_EmitStoreStackValue','stackvalue_PushStackValueLike'],battery=('prog','locals',8))
for o,nm in [(0x23,'get'),(0x24,'set')]:
    for ty in TYN:
        unit(id='global.%s.%s'%(nm,TYN[ty]),props=['P07'],src='glob.c',replace=LEBR,defs=['OPC=0x%x'%o,'TY=%d'%ty],nw=14,cost=20,timeout=400,exact=True,about='global.%s of a %s global'%(nm,TYN[ty]),fns=['opgen_GenMemOp','opgen_GenGlobalGet','opgen_GenGlobalSet','pwart_EmitStoreStackValue','pwart_EmitStackValueLoadReg'],battery=('prog','globals',8))
# ------------------------------------------------------------------ control flow
CTLF=['opgen_GenCtlOp','opgen_GenBlock','opgen_GenLoop','opgen_GenIf','opgen_GenElse','opgen_GenEnd','opgen_GenBr','opgen_GenBrIf','opgen_EmitBranch','opgen_EmitBlockResult','opgen_BlockResultOffset','opgen_BranchNeedsMove','opgen_BindBranch','opgen_ParseBlockResultType','opgen_GenReturn','pwart_EmitFuncReturn','pwart_EmitSaveStackAll']
BTN={0:'function',2:'block',3:'loop',4:'if'}
def ctl(id,src,defs,about,cost=30,**k): unit(id='ctl.'+id,props=k.pop('props',['P10']),src=src,replace=LEBR,defs=defs,nw=k.pop('nw',16),cost=cost,timeout=500,exact=True,about=about,fns=CTLF,battery=('prog','control',10),**k)
for t in(0,2,3,4):
    for r in(0,1):
        if t==3 and r: continue
        ctl('br.%s.%d'%(BTN[t],r),'br.c',['OPC=0x0c','TGT=%d'%t,'RT=%d'%r],'br to a %s with%s result'%(BTN[t],'' if r else 'out'),thorough=(t==4 and not r))
        for cm in(0,1): ctl('br_if.%s.%d%s'%(BTN[t],r,'.cmp' if cm else ''),'br.c',['OPC=0x0d','TGT=%d'%t,'RT=%d'%r,'CMPTOP=%d'%cm],'br_if to a %s with%s result, condition %s'%(BTN[t],'' if r else 'out','a pending comparison' if cm else 'any operand'),cost=60,thorough=(t==4))
for n in(0,1,2): ctl('return.%d'%n,'br.c',['OPC=0x0f','TGT=0','RT=1','NRES=%d'%n],'return of %d results'%n,cost=60)
for r in(0,1):
    ctl('block.%d'%r,'blk.c',['OPC=0x02','RT=%d'%r],'block entry'); ctl('loop.%d'%r,'blk.c',['OPC=0x03','RT=%d'%r],'loop entry')
    for cm in(0,1): ctl('if.%d%s'%(r,'.cmp' if cm else ''),'blk.c',['OPC=0x04','RT=%d'%r,'CMPTOP=%d'%cm],'if entry',cost=50)
    ctl('else.%d'%r,'blk.c',['OPC=0x05','RT=%d'%r,'BT=4'],'else'); ctl('else.dead.%d'%r,'blk.c',['OPC=0x05','RT=%d'%r,'BT=4','DEAD=1'],'else after code that does not fall through')
    for t in(2,3,4):
        ctl('end.%s.%d'%(BTN[t],r),'blk.c',['OPC=0x0b','RT=%d'%r,'BT=%d'%t],'end of a %s'%BTN[t])
        if t!=3: ctl('end.%s.dead.%d'%(BTN[t],r),'blk.c',['OPC=0x0b','RT=%d'%r,'BT=%d'%t,'DEAD=1'],'end of a %s whose code does not fall through'%BTN[t])
for o,n in [(0x1b,'select'),(0x1c,'select_t'),(0x11b,'select.cmp'),(0x1a,'drop'),(0x01,'nop'),(0x00,'unreachable')]: ctl(n,'sel.c',['OPC=0x%x'%(o&0xff)]+(['CMPTOP=1'] if 'cmp' in n else []),n,cost=60 if 'select' in n else 5)
# ------------------------------------------------------------------ register allocation and spilling
WRAPS=['pwart_GetFreeReg','pwart_EmitSaveStack','pwart_EmitSaveScratchRegisterAll']
PR=['P04','P02','P03','P05','P06','P07','P10']
for full in(1,0):
    a=['P04'] if full else PR[1:]; sfx='' if full else '.s'; dd=[] if full else ['DEPTH=6']; kw=dict(unwind=40) if full else dict(unwind=17,kind='bounded',bound='at most 5 operands (every depth under P04)')
    txt='on operand stacks of every depth, against the contract of pwart_EmitSaveStack' if full else 'on operand stacks of at most 5 operands, against the contract of pwart_EmitSaveStack'
    for rt in ['RT_INTEGER','RT_FLOAT','RT_BASE']: unit(id='reg.0.'+rt[3:].lower()+sfx,props=a,src='reg.c',defs=['FN=0','RTC='+rt]+dd,nw=4,cost=70 if full else 5,timeout=400,replace=['pwart_EmitSaveStack:g_SaveStackC'],noreplace=WRAPS,about='register allocation (%s) '%rt+txt,fns=['pwart_GetFreeReg','stackvalue_FindSvalueUseReg','stackvalue_AnyRegUsedBySvalue'],battery=('prog','mixed',10),**kw)
    for f,n,d in [(1,'pwart_EmitSaveStackAll','spilling of all operands '),(2,'pwart_EmitSaveScratchRegisterAll','spilling of operands in scratch registers ')]:
        unit(id='reg.%d'%f+sfx,props=a,src='reg.c',defs=['FN=%d'%f]+dd,nw=4,cost=40 if full else 5,timeout=400,replace=['pwart_EmitSaveStack:g_SaveStackC'],noreplace=WRAPS,about=d+txt,fns=[n,'stackvalue_FindSvalueUseReg','stackvalue_AnyRegUsedBySvalue'],battery=('prog','mixed',10),**kw)
unit(id='reg.3',props=PR,src='reg.c',defs=['FN=3'],nw=8,cost=60,timeout=300,noreplace=WRAPS,about='spilling of one operand',fns=['pwart_EmitSaveStack','pwart_EmitStoreStackValue'],battery=('prog','mixed',10))
for o in(0x36,0x37,0x39): unit(id='mem.%s.0.bottom'%MEMN[o],props=['P06'],src='mem.c',replace=['read_LEB_:g_read_LEB_'],defs=['OPC=0x%x'%o,'MODE=0','NWIT=0'],nw=14,cost=60,timeout=500,exact=True,about='%s, %s, address is the bottom operand'%(MEMN[o],MODES[0]),fns=MEMF,battery=('prog','memory',8))
for o in(0x6b,0x76,0x80,0x8a,0xa1,0xa6): unit(id='num.%s.bottom'%B.OPS[o][0],props=['P02' if o in INTS else 'P03'],src='num.c',defs=['OPC=0x%x'%o,'NWIT=0'],nw=14,cost=30,timeout=500,exact=True,about='%s on the only operands'%B.OPS[o][0],fns=NUMF,battery=('numeric',B.OPS[o][0]))
# ------------------------------------------------------------------ tables and references
TABF=['opgen_GenMemOp','opgen_GenMiscOp','opgen_GenMiscOp_FC','opgen_GenTableGet','opgen_GenTableSet','opgen_GenBaseAddressRegForTable','opgen_GenRefNull','opgen_GenIsNull','opgen_GenRefFunc','opgen_GenTableSize','stackvalue_EmitSwapTopTwoValue']
for o,n,tis in [(0x25,'table.get',(0,1)),(0x26,'table.set',(0,1)),(0x10,'table.size',(0,2)),(0x0f,'table.grow',(0,)),(0xd0,'ref.null',(0,)),(0xd1,'ref.is_null',(0,)),(0xd2,'ref.func',(0,))]:
    for ti in tis:
        for vt,vn in ([(0,'.ref'),(1,'.func')] if n=='table.set' else [(2,'')]): unit(id='tab.%s%s%s'%(n,'.%d'%ti if len(tis)>1 else '',vn),props=['P08'],thorough=(vt==1 and ti==1),src='tab.c',replace=LEBR,defs=['OPC=0x%x'%o,'TI=%d'%ti,'VT=%d'%vt],nw=14,cost=150 if vn else 60,timeout=600,exact=True,about='%s, table %d'%(n,ti),fns=TABF,battery=('prog','tables',10))
PROPS={
 'P04':{},
 'P10':{}, 'P08':{},
 'P05':{}, 'P07':{},
 'P01':{},
 'P02':{},
 'P06':{},
 'P03':{'trusted':['libm ceil, floor, trunc, rint, sqrt, copysign and the sljit float instructions compute the IEEE 754 operation of their name (uninterpreted functions shared with the specification)'],'assume':['results of float to integer conversions are specified for in-range inputs']},
}
