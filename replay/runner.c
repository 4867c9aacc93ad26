/* runner MODULE.wasm CFG NAMES-FILE : loads the module with pwart and calls every listed export (no
 * arguments, one i32 (i) or i64 (l) result); one line "name=hex" each, or "name=signal". */
#include <pwart.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
static sigjmp_buf jb;
static void h(int s) { siglongjmp(jb, s); }
int main(int c, char **v) {
  static char b[1 << 22], alt[1 << 16];
  FILE *f = fopen(v[1], "rb"); if (!f) return 3;
  int n = fread(b, 1, sizeof b, f), cfg = atoi(v[2]); char *err = 0; fclose(f);
  struct pwart_global_compile_config g; pwart_get_global_compile_config(&g);
  g.misc_flags = 2 | (cfg & 1); g.stack_flags = cfg >> 1; pwart_set_global_compile_config(&g);
  stack_t st = {alt, 0, sizeof alt}; sigaltstack(&st, 0);
  int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGTRAP, SIGABRT};
  for (int i = 0; i < 7; i++) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(sg[i], &a, 0); }
  int s = sigsetjmp(jb, 1);
  if (s) { printf("LOAD=signal %d\n", s); return 0; }
  alarm(20);
  pwart_module_state m = pwart_load_module(b, n, &err);
  if (!m) { printf("LOAD=%s\n", err ? err : "(no message)"); return 0; }
  pwart_wasm_function start = pwart_get_start_function(m);
  char *stk = pwart_allocate_stack(1 << 18);
  if (start) { memset(stk, 0xcc, 4096); pwart_call_wasm_function(start, stk); }
  FILE *nf = fopen(v[3], "r"); char name[256]; char t;
  while (fscanf(nf, "%c %255s\n", &t, name) == 2) {
    s = sigsetjmp(jb, 1);
    if (s) { printf("%s=signal %d\n", name, s); continue; }
    alarm(3);
    void *fn = pwart_get_export_function(m, name);
    if (!fn) { printf("%s=missing\n", name); continue; }
    memset(stk, 0xcc, 4096); void *sp = stk;
    pwart_call_wasm_function(fn, stk);
    if (t == 'i') printf("%s=%llx\n", name, (unsigned long long)(unsigned)pwart_rstack_get_i32(&sp));
    else printf("%s=%llx\n", name, (unsigned long long)pwart_rstack_get_i64(&sp));
    fflush(stdout);
  }
  return 0;
}
