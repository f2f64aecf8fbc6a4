/* Simulated numba threading layer.
 *
 * Implements the C entry points numba's parallel backend calls (work division,
 * parallel_for, thread ids, thread counts), but with cooperative coroutines on
 * one OS thread instead of real threads.  Which worker takes which division,
 * in which order, and where a worker is preempted (at instrumented memory
 * accesses: sim_yield) is decided by a seeded PRNG, or by a recorded list of
 * decisions (replay).  Nothing here reads a clock or touches a real thread.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/mman.h>

#define MAXT 64
#define STACK (1<<20)
#define MAXLOG (1<<18)

typedef struct { void *sp; int done; int started; char *stack; } Co;
static Co co[MAXT];
static void *main_sp;
static int cur = -1;             /* running worker, -1: outside parallel region */

/* configuration */
static int cfg_threads = 1, max_threads = 64;
static int cfg_mode = 0;         /* 0 fifo/default, 1 random, 2 replay */
static double cfg_pswitch = 0;   /* preemption probability per yield point */
static int cfg_fulldiv = 0;      /* 0: num_divisions = threads; 1: random division count/boundaries */
static int cfg_perm = 0;         /* 1: random take order of divisions */
static int cfg_burst = 0;        /* after a preemption, switch again quickly */
static uint64_t rng;
static uint64_t cur_chunksize = 0;
static uint64_t max_yields = 0;

static uint64_t nxt(void){ uint64_t z=(rng+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
static double uni(void){ return (nxt()>>11)*(1.0/9007199254740992.0);}
static uint64_t below(uint64_t n){ return n? nxt()%n : 0; }

/* log of decisions: triples kind,a,b */
static int64_t *lg; static int nlg, lgover;
static void logd(int64_t k,int64_t a,int64_t b){ if(!lg) lg=malloc(sizeof(int64_t)*3*MAXLOG); if(nlg<MAXLOG){lg[3*nlg]=k;lg[3*nlg+1]=a;lg[3*nlg+2]=b;nlg++;} else lgover=1; }
/* replay tables */
static int64_t *rp; static int nrp; 
static int rp_pi;               /* cursor over preemptions */

static uint64_t yields, switches, regions, divisions, region_yields, fin_seq, sched_seq;
static uint64_t trace_hash;
static void th(uint64_t v){ trace_hash = (trace_hash ^ v) * 0x100000001b3ull; trace_hash ^= trace_hash>>29; }
static int64_t countdown;

void swap_ctx(void **save, void *to);
__asm__(
".text\n.globl swap_ctx\n.type swap_ctx,@function\nswap_ctx:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" subq $8,%rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
".size swap_ctx,.-swap_ctx\n");

/* region state */
typedef void (*gufunc_t)(char **, intptr_t *, intptr_t *, void *);
static struct { gufunc_t fn; char **args; intptr_t *dims,*steps; void *data; long inner_ndim, array_count; int nt; long ndiv; long next; int *order; } R;

static void run_division(long d){
  /* exactly what the stock backends do: offset the args by step*index */
  char *args[64]; intptr_t dims[64];
  long k;
  for(k=0;k<R.array_count;k++) args[k]=R.args[k]+R.steps[k]*d;
  dims[0]=1; for(k=0;k<R.inner_ndim;k++) dims[k+1]=R.dims[k+1];
  R.fn(args,dims,R.steps,R.data);
}
static int in_fn;
static void pick_countdown(void); void sim_yield(void);
static int runnable(int *out){ int n=0; for(int i=0;i<R.nt;i++) if(!co[i].done) out[n++]=i; return n; }
static void switch_to(int w){
  int old=cur; cur=w; switches++; th(0x1000+w); th(yields);
  void **save = old<0? &main_sp : &co[old].sp;
  swap_ctx(save, co[w].sp);
}
static void co_entry(void){
  for(;;){
    int me=cur;
    while(R.next<R.ndiv){ long d=R.order[R.next++]; divisions++; th(0x2000+d); th(me); run_division(d); 
       /* division boundary is also a scheduling point */
       sim_yield(); }
    co[me].done=1;
    int c[MAXT]; int n=runnable(c);
    fin_seq++;
    if(n==0){ cur=-1; swap_ctx(&co[me].sp, main_sp); }
    else { int w=c[0];
      if(cfg_mode==1){ w=c[below(n)]; logd(4,fin_seq,w);} 
      else if(cfg_mode==2){ for(int i=0;i<nrp;i++) if(rp[3*i]==4&&rp[3*i+1]==(int64_t)fin_seq){ int t=rp[3*i+2]; if(t<R.nt&&!co[t].done) w=t; break; } }
      cur=w; th(0x3000+w); swap_ctx(&co[me].sp, co[w].sp); }
    /* never resumed once done until re-initialised */
  }
}
static void co_init(int i){
  if(!co[i].stack){ co[i].stack=mmap(0,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(co[i].stack==MAP_FAILED){ fprintf(stderr,"nbsim: mmap failed\n"); abort(); } }
  char *top=co[i].stack+STACK; top=(char*)((uintptr_t)top & ~(uintptr_t)63);
  uint64_t *sp=(uint64_t*)top; 
  *--sp=0;                 /* fake return address slot keeps alignment: at entry rsp%16==8 */
  *--sp=(uint64_t)co_entry;
  for(int k=0;k<6;k++) *--sp=0;
  --sp; uint32_t mx; uint16_t cw; __asm__ volatile("stmxcsr %0":"=m"(mx)); __asm__ volatile("fnstcw %0":"=m"(cw));
  ((uint32_t*)sp)[0]=mx; ((uint16_t*)sp)[2]=cw; ((uint16_t*)sp)[3]=0;
  co[i].sp=sp; co[i].done=0;
}
static void pick_countdown(void){
  if(cfg_mode==1){
    double p=cfg_pswitch;
    if(p<=0) countdown=INT64_MAX; 
    else if(p>=1) countdown=1;
    else { /* geometric */ int64_t n=1; 
      if(p>0.2){ while(uni()>p && n<1000) n++; }
      else { double u=uni(); if(u<1e-12)u=1e-12; extern double log(double); n=1+(int64_t)(log(u)/log(1-p)); }
      countdown=n; }
    if(cfg_burst && below(3)==0) countdown=1+below(4);
  } else if(cfg_mode==2){
    while(rp_pi<nrp && (rp[3*rp_pi]!=3 || rp[3*rp_pi+1]<=(int64_t)yields)) rp_pi++;
    countdown = rp_pi<nrp ? rp[3*rp_pi+1]-(int64_t)yields : INT64_MAX;
  } else countdown=INT64_MAX;
}
void sim_yield(void){
  if(cur<0) return;
  yields++;
  if(--countdown>0) return;
  if(max_yields && yields>max_yields){ countdown=INT64_MAX; return; }
  int c[MAXT]; int n=runnable(c); 
  if(cfg_mode==1){
    if(n>1){ int w=c[below(n)]; if(w==cur){ w=c[below(n)]; } 
      pick_countdown();
      if(w!=cur){ logd(3,yields,w); switch_to(w);} }
    else pick_countdown();
  } else if(cfg_mode==2){
    int w=(int)rp[3*rp_pi+2]; rp_pi++; pick_countdown();
    if(w!=cur && w>=0 && w<R.nt && !co[w].done) switch_to(w);
  } else countdown=INT64_MAX;
}
void sim_parallel_for(void *fn, char **args, size_t *dims, size_t *steps, void *data, size_t inner_ndim, size_t array_count, int num_threads){
  if(cur>=0){ /* nested region: run inline on the current worker, like the stock workqueue refuses / tbb nests */
    char *a[64]; intptr_t d[64];
    for(size_t i=0;i<dims[0];i++){ for(size_t k=0;k<array_count;k++) a[k]=args[k]+(intptr_t)steps[k]*(intptr_t)i; d[0]=1; for(size_t k=0;k<inner_ndim;k++) d[k+1]=dims[k+1]; ((gufunc_t)fn)(a,d,(intptr_t*)steps,data);} 
    return; }
  regions++;
  R.fn=(gufunc_t)fn; R.args=args; R.dims=(intptr_t*)dims; R.steps=(intptr_t*)steps; R.data=data; R.inner_ndim=inner_ndim; R.array_count=array_count;
  R.nt=num_threads<1?1:(num_threads>MAXT?MAXT:num_threads); R.ndiv=dims[0]; R.next=0;
  int *ord=malloc(sizeof(int)*(R.ndiv+1)); for(long i=0;i<R.ndiv;i++) ord[i]=i;
  R.order=ord;
  if(cfg_mode==1 && cfg_perm){ for(long i=R.ndiv-1;i>0;i--){ long j=below(i+1); int t=ord[i];ord[i]=ord[j];ord[j]=t; } for(long i=0;i<R.ndiv;i++) logd(2,regions*4096+i,ord[i]); }
  else if(cfg_mode==2){ int ok=0; int *o2=malloc(sizeof(int)*(R.ndiv+1)); char *seen=calloc(R.ndiv+1,1); int cnt=0;
    for(int i=0;i<nrp;i++) if(rp[3*i]==2 && (uint64_t)rp[3*i+1]/4096==regions){ int64_t v=rp[3*i+2]; if(v>=0&&v<R.ndiv&&!seen[v]){ seen[v]=1;o2[cnt++]=v; } }
    for(long v=0;v<R.ndiv;v++) if(!seen[v]) o2[cnt++]=v;
    memcpy(ord,o2,sizeof(int)*R.ndiv); free(o2); free(seen); (void)ok; }
  for(int i=0;i<R.nt;i++) co_init(i);
  pick_countdown();
  int w=0; fin_seq++;
  if(cfg_mode==1){ w=below(R.nt); logd(4,fin_seq,w);} 
  else if(cfg_mode==2){ for(int i=0;i<nrp;i++) if(rp[3*i]==4&&rp[3*i+1]==(int64_t)fin_seq){ int t=rp[3*i+2]; if(t>=0&&t<R.nt) w=t; break; } }
  switch_to(w);
  cur=-1;
  free(ord);
}
int sim_get_num_threads(void){ return cfg_threads; }
void sim_set_num_threads(int n){ cfg_threads=n; }
int sim_get_thread_id(void){ return cur<0?0:cur; }
void sim_launch_threads(int n){ (void)n; }
uint64_t sim_set_chunksize(uint64_t n){ uint64_t o=cur_chunksize; cur_chunksize=n; return o; }
uint64_t sim_get_chunksize(void){ return cur_chunksize; }
uintptr_t *sim_allocate_sched(uintptr_t n){ return malloc(n*sizeof(uintptr_t)); }
void sim_deallocate_sched(uintptr_t *p){ free(p); }
uintptr_t sim_get_sched_size(uintptr_t nt, uintptr_t nd, intptr_t *starts, intptr_t *ends){
  sched_seq++;
  uint64_t total=1; for(uintptr_t i=0;i<nd;i++){ if(ends[i]<starts[i]) {total=0;break;} total*=(uint64_t)(ends[i]-starts[i]+1);} 
  uintptr_t n=nt;
  if(cfg_mode==1 && cfg_fulldiv){ uint64_t r=below(4);
     if(r==0) n=nt; else if(r==1) n=1+below(2*nt+2); else if(r==2) n=1+below(total+2); else n=total?total:1;
     if(n>4000) n=4000;
     logd(5,sched_seq,n); }
  else if(cfg_mode==2){ for(int i=0;i<nrp;i++) if(rp[3*i]==5&&rp[3*i+1]==(int64_t)sched_seq){ n=rp[3*i+2]; break; } }
  if(n<1) n=1;
  return n;
}
static int cmp64(const void*a,const void*b){ int64_t x=*(int64_t*)a,y=*(int64_t*)b; return x<y?-1:x>y; }
void sim_do_scheduling(uintptr_t nd, intptr_t *starts, intptr_t *ends, uintptr_t ndiv, intptr_t *sched, intptr_t debug){
  (void)debug;
  int empty=0; for(uintptr_t i=0;i<nd;i++) if(ends[i]<starts[i]) empty=1;
  for(uintptr_t d=0;d<ndiv;d++) for(uintptr_t i=0;i<nd;i++){ sched[d*2*nd+i]=1; sched[d*2*nd+nd+i]=0; }
  if(empty) return;
  /* split one dimension into ndiv contiguous ranges (possibly empty) */
  uintptr_t dim=0; for(uintptr_t i=1;i<nd;i++) if(ends[i]-starts[i]>ends[dim]-starts[dim]) dim=i;
  int64_t lo=starts[dim], len=ends[dim]-starts[dim]+1;
  int64_t *cut=malloc(sizeof(int64_t)*(ndiv+1)); cut[0]=0; cut[ndiv]=len;
  if(cfg_mode==1 && cfg_fulldiv && below(2)){ for(uintptr_t k=1;k<ndiv;k++) cut[k]=below(len+1); qsort(cut+1,ndiv-1,sizeof(int64_t),cmp64); for(uintptr_t k=1;k<ndiv;k++) logd(1,sched_seq*4096+k,cut[k]); }
  else { for(uintptr_t k=1;k<ndiv;k++) cut[k]=(int64_t)((__int128)len*k/ndiv);
    if(cfg_mode==2){ for(int i=0;i<nrp;i++) if(rp[3*i]==1&&(uint64_t)rp[3*i+1]/4096==sched_seq){ uint64_t k=rp[3*i+1]%4096; if(k>=1&&k<ndiv){ int64_t v=rp[3*i+2]; if(v<0)v=0; if(v>len)v=len; cut[k]=v; } }
      for(uintptr_t k=1;k<=ndiv;k++) if(cut[k]<cut[k-1]) cut[k]=cut[k-1]; } }
  for(uintptr_t d=0;d<ndiv;d++){ if(cut[d+1]<=cut[d]) continue; 
    for(uintptr_t i=0;i<nd;i++){ sched[d*2*nd+i]=starts[i]; sched[d*2*nd+nd+i]=ends[i]; }
    sched[d*2*nd+dim]=lo+cut[d]; sched[d*2*nd+nd+dim]=lo+cut[d+1]-1; th(cut[d]); th(cut[d+1]); }
  free(cut);
}
/* control interface */
void nbsim_config(int threads,int mode,double p,int fulldiv,int perm,int burst,uint64_t seed,uint64_t maxy){
  cfg_threads=threads; cfg_mode=mode; cfg_pswitch=p; cfg_fulldiv=fulldiv; cfg_perm=perm; cfg_burst=burst; rng=seed; max_yields=maxy;
  yields=switches=regions=divisions=fin_seq=sched_seq=0; trace_hash=0xcbf29ce484222325ull; nlg=0; lgover=0; rp_pi=0; nrp=0; cur=-1; cur_chunksize=0; }
void nbsim_replay(int64_t *t,int n){ free(rp); rp=malloc(sizeof(int64_t)*3*(n+1)); memcpy(rp,t,sizeof(int64_t)*3*n); nrp=n; rp_pi=0; }
int nbsim_log(int64_t *out,int max){ int n=nlg<max?nlg:max; memcpy(out,lg,sizeof(int64_t)*3*n); return lgover?-n:n; }
int nbsim_nlog(void){ return nlg; }
void nbsim_stats(uint64_t *o){ o[0]=yields;o[1]=switches;o[2]=regions;o[3]=divisions;o[4]=trace_hash;o[5]=cfg_threads;o[6]=lgover; }
