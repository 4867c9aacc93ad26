import os,re,subprocess
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('VREPO','/repo')
OPAQUE=re.compile(r'insn_(memory|load_module|unload_module|import|fopen|fread|fwrite|fclose|stdio|host_def|ref_|get_self|native|version|i64_from_ref|table)')
def helpers_h():
    """helpers.h: executes the real body of a runtime helper; generated from the current sources."""
    seen=[];txt=''
    d=os.path.join(REPO,'pwart')
    for f in sorted(os.listdir(d)):
        if f.endswith('.c') and f not in('pwart.c',): txt+=open(os.path.join(d,f)).read()
    for n,t in re.findall(r'\bstatic\s+void\s+(insn_\w+)\s*\(\s*([\w ]+?\s*\*)\s*\w+\s*\)',txt):
        if n not in [x[0] for x in seen]: seen.append((n,t))
    real=[x for x in seen if not OPAQUE.match(x[0])]; opq=[x for x in seen if OPAQUE.match(x[0])]
    o='/* generated */\nstatic _Bool G_OPAQUE_HELPERS(sljit_sw srcw) {\n'
    for n,t in opq: o+='  if ((void *)srcw == (void *)&%s) return 1;\n'%n
    o+='  return 0;\n}\nstatic void g_run_helper(sljit_sw srcw, void *buf) {\n'
    for n,t in real: o+='  if ((void *)srcw == (void *)&%s) { %s((%s)buf); return; }\n'%(n,n,t)
    o+='  __CPROVER_assert(0, "sljit: called helper is a known function");\n}\n'
    return o

def source():
    d=os.path.join(REPO,'pwart')
    return {f:open(os.path.join(d,f)).read() for f in sorted(os.listdir(d)) if f.endswith('.c')}
def extract(name):
    """text of the definition of a function, found by brace matching; None if there is none"""
    for f,t in source().items():
        for mo in re.finditer(r'^[A-Za-z_][\w \t\*]*\b%s\s*\([^;{]*\)\s*\{'%re.escape(name),t,re.M):
            i=mo.end();d=1
            while d and i<len(t):
                d+={'{':1,'}':-1}.get(t[i],0); i+=1
            return t[mo.start():i]
    return None
def copy_as(name,new):
    t=extract(name)
    return None if t is None else re.sub(r'\b%s\b'%re.escape(name),new,t)

WRAP=['pwart_EmitSaveStack','pwart_EmitSaveScratchRegisterAll','stackvalue_AnyRegUsedBySvalue']
def real_h():
    """real.h: mechanical copies (renamed) of the functions that a harness enters through a wrapper"""
    o='';have=[]
    for n in WRAP:
        t=copy_as(n,'real_'+n)
        if t: have.append(n); o+='#define HAVE_%s\n%s\n'%(n,t)
    return o,have
def replacements(have):
    r=[]
    for n in ['pwart_GetFreeReg']+have: r+=['--replace-calls',n+':g_'+n.replace('pwart_','').replace('stackvalue_','')]
    return r
def gen_h():
    """gen.h: defines for what exists in the sources"""
    return ''
