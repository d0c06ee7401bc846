/* Runs one harness entry natively against the compiled code: either on a concrete
 * pseudo-random tape (--concrete SEED) or on a counterexample (--replay FILE).
 * Prints NOTE <hex> with everything the entry noted; exit 0 = all assertions held,
 * 3 = an assertion failed, 4 = an assumption was not met; a panic aborts (134). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
extern int run_entry(const char*);
static int mode; static uint64_t cseed, cctr, salt;
static uint64_t splitmix(uint64_t *x){ uint64_t z=(*x+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
typedef struct { uint8_t *k; size_t kn; uint64_t pos; uint8_t *v; size_t vn; } Rec;
static Rec *S,*P,*H; static size_t nS,nP,nH,curS; static int fails; static uint64_t nseed;
static uint8_t *note; static size_t nnote,cnote;
static size_t unhex(const char*s,uint8_t**out){ if(!strcmp(s,"-")){*out=malloc(1);return 0;} size_t n=strlen(s)/2; *out=malloc(n+1); for(size_t i=0;i<n;i++){unsigned x; sscanf(s+2*i,"%2x",&x); (*out)[i]=x;} return n; }
static void add(Rec**a,size_t*n,Rec r){ *a=realloc(*a,(*n+1)*sizeof(Rec)); (*a)[(*n)++]=r; }
static void load(const char*f){ FILE*fp=fopen(f,"r"); if(!fp){perror(f);exit(9);} char*line=NULL; size_t cap=0; while(getline(&line,&cap,fp)>0){ char*t=strtok(line," \n"); if(!t)continue; Rec r; memset(&r,0,sizeof r);
  if(!strcmp(t,"S")){ char*h=strtok(NULL," \n"); r.vn=h?unhex(h,&r.v):0; add(&S,&nS,r);}
  else if(!strcmp(t,"P")){ char*h=strtok(NULL," \n"); r.kn=unhex(h,&r.k); r.pos=strtoull(strtok(NULL," \n"),0,10); r.vn=unhex(strtok(NULL," \n"),&r.v); add(&P,&nP,r);}
  else if(!strcmp(t,"H")){ char*h=strtok(NULL," \n"); r.kn=unhex(h,&r.k); r.vn=unhex(strtok(NULL," \n"),&r.v); add(&H,&nH,r);} } fclose(fp); }
void verif_sym(uint8_t*p,size_t n,const char*name){ (void)name; if(n==0) return; if(mode==2){ if(curS<nS){ size_t m=S[curS].vn; for(size_t i=0;i<n;i++) p[i]=i<m?S[curS].v[i]:0; curS++; } else memset(p,0,n); return; }
  for(size_t i=0;i<n;i++){ uint64_t x=cseed^((cctr/8)*0xD1342543DE82EF95ull); uint64_t r=splitmix(&x); p[i]=r>>(8*(cctr%8)); cctr++; } }
static void finish(int code){ printf("NOTE "); for(size_t i=0;i<nnote;i++) printf("%02x",note[i]); printf("\n"); fflush(stdout); exit(code); }
void verif_assume(bool b){ if(!b){ printf("ASSUME\n"); finish(fails?3:4);} }
void verif_assert(bool b,uint32_t id){ if(!b){ printf("ASSERT %u\n",id); fails++; } }
void verif_reach(uint32_t id){ (void)id; }
void verif_note(const uint8_t*p,size_t n){ if(nnote+n>cnote){cnote=2*(nnote+n)+64; note=realloc(note,cnote);} memcpy(note+nnote,p,n); nnote+=n; }
void verif_seed(uint8_t*o){ memset(o,0xA5,32); nseed++; memcpy(o,&nseed,8); }
void verif_prf(const uint8_t*seed,uint64_t pos,uint64_t n,uint32_t*out){ for(uint64_t k=0;k<n;k++){ bool hit=false; for(size_t i=0;i<nP;i++) if(P[i].pos==pos+k&&!memcmp(P[i].k,seed,32)){ memcpy(&out[k],P[i].v,4); hit=true; break; }
  if(hit) continue; uint64_t h=0xcbf29ce484222325ull; for(int j=0;j<32;j++){h^=seed[j];h*=0x100000001b3ull;} uint64_t x=h^((pos+k)*0xD1342543DE82EF95ull)^salt; out[k]=(uint32_t)splitmix(&x);} }
void verif_hash(const uint8_t*b,size_t n,uint8_t*out){ for(size_t i=0;i<nH;i++) if(H[i].kn==n&&!memcmp(H[i].k,b,n)){ memcpy(out,H[i].v,64); return; }
  uint64_t h=0xcbf29ce484222325ull,g=0x9E3779B97F4A7C15ull; for(size_t i=0;i<n;i++){ h^=b[i]; h*=0x100000001b3ull; g=((g<<5)|(g>>59))^((uint64_t)b[i]+h);} uint64_t x=h^((g<<17)|(g>>47))^((uint64_t)n*0xA0761D6478BD642Full),y=g;
  for(int i=0;i<4;i++){ uint64_t a=splitmix(&x); memcpy(out+16*i,&a,8); a=splitmix(&y); memcpy(out+16*i+8,&a,8);} }
void verif_cut(uint32_t k,uint32_t n,uint8_t*a,uint8_t*b,uint8_t*c){(void)k;(void)n;(void)a;(void)b;(void)c;}
uint64_t verif_split(uint64_t v){return v;}
void verif_party(uint32_t id){(void)id;}
void verif_mode(uint32_t id){(void)id;}
uint32_t verif_masked(uint32_t r,uint32_t k,const uint8_t*p,uint32_t n){(void)r;(void)k;(void)p;(void)n;return 1;}
bool verif_symbolic(void){ return false; }
#include <signal.h>
/* from here on a panic is an accepted outcome */
static void aborted(int n){ (void)n; finish(fails?3:0); }
void verif_allow_panic(void){ signal(SIGABRT,aborted); }
int main(int c,char**v){ setvbuf(stdout,0,_IONBF,0); for(int i=2;i+1<c;i+=2){ if(!strcmp(v[i],"--concrete")){mode=1;cseed=strtoull(v[i+1],0,10);} if(!strcmp(v[i],"--replay")){mode=2;load(v[i+1]);} if(!strcmp(v[i],"--salt")) salt=strtoull(v[i+1],0,10); } if(run_entry(v[1])){fprintf(stderr,"no entry\n");return 9;} finish(fails?3:0); }
