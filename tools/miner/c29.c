// cuckaroo lean solver: args: k0 k1 k2 k3 (hex) edgebits ; prints 42 nonces if found
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <omp.h>
#include <sys/mman.h>
static void*hp(size_t n){void*p=aligned_alloc(1<<21,(n+(1<<21)-1)&~((1ul<<21)-1));madvise(p,n,MADV_HUGEPAGE);memset(p,0,n);return p;}
typedef uint64_t u64; typedef uint32_t u32;
typedef u64 v8 __attribute__((vector_size(64)));
static inline v8 rotl(v8 x,int b){return (x<<b)|(x>>(64-b));}
static u64 K[4]; static int EB; static u64 NE,MASK;
// hash 8 consecutive blocks starting at block*64*8
static inline void hash8(u64 base, u64 (*out)[64]){
  v8 v0={},v1={},v2={},v3={};
  v0+=K[0];v1+=K[1];v2+=K[2];v3+=K[3];
  v8 n; for(int l=0;l<8;l++) n[l]=base+64*l;
  v8 st[64];
#define R v0+=v1;v1=rotl(v1,13);v1^=v0;v0=rotl(v0,32);v2+=v3;v3=rotl(v3,16);v3^=v2;v0+=v3;v3=rotl(v3,21);v3^=v0;v2+=v1;v1=rotl(v1,17);v1^=v2;v2=rotl(v2,32);
  for(int i=0;i<64;i++){ v3^=n; R R v0^=n; v2^=0xff; R R R R st[i]=v0^v1^v2^v3; n+=1; }
  v8 last=st[63];
  for(int i=0;i<63;i++) st[i]^=last;
  for(int i=0;i<64;i++) for(int l=0;l<8;l++) out[l][i]=st[i][l];
}
static u64 *alive,*b1,*b2;
static inline void setcnt(u64 x){ u64 w=x>>6,m=1ull<<(x&63); u64 o=__atomic_fetch_or(&b1[w],m,__ATOMIC_RELAXED); if(o&m) __atomic_fetch_or(&b2[w],m,__ATOMIC_RELAXED);}
static inline int two(u64 x){return (b2[x>>6]>>(x&63))&1;}
typedef struct{u32 u,v,n;} E;
static E*L; static u64 nL;
int main(int argc,char**argv){
  for(int i=0;i<4;i++)K[i]=strtoull(argv[1+i],0,16); EB=atoi(argv[5]); NE=1ull<<EB; MASK=NE-1;
  u64 words=NE/64; if(words<8)words=8;
  alive=malloc(words*8);memset(alive,0xff,words*8); b1=hp(words*8);b2=hp(words*8);
  u64 live=NE; int side=0;
  u64 cap=NE/6+1024;
  while(1){
    int collect = 0;
    memset(b1,0,words*8);memset(b2,0,words*8);
    #pragma omp parallel for schedule(dynamic,256)
    for(u64 c=0;c<NE/512;c++){
      int any=0; for(int l=0;l<8;l++) any|=alive[c*8+l]!=0; if(!any)continue;
      u64 o[8][64]; hash8(c*512,o);
      for(int l=0;l<8;l++){u64 w=alive[c*8+l]; while(w){int i=__builtin_ctzll(w);w&=w-1; u64 e=o[l][i]; setcnt((side?(e>>32):e)&MASK);} }
    }
    u64 nl=0;
    #pragma omp parallel for schedule(dynamic,256) reduction(+:nl)
    for(u64 c=0;c<NE/512;c++){
      int any=0; for(int l=0;l<8;l++) any|=alive[c*8+l]!=0; if(!any)continue;
      u64 o[8][64]; hash8(c*512,o);
      for(int l=0;l<8;l++){u64 w=alive[c*8+l],k=w; while(w){int i=__builtin_ctzll(w);w&=w-1; u64 e=o[l][i]; if(!two((side?(e>>32):e)&MASK)) k&=~(1ull<<i);} alive[c*8+l]=k; nl+=__builtin_popcountll(k);}
    }
    live=nl; side^=1;
    if(live<cap) break;
  }
  L=malloc((live+1)*sizeof(E)); nL=0; char*F=malloc(NE/64+1);
  #pragma omp parallel for schedule(dynamic,256)
  for(u64 c=0;c<NE/512;c++){
    int any=0; for(int l=0;l<8;l++) any|=alive[c*8+l]!=0; if(!any)continue;
    u64 o[8][64]; hash8(c*512,o);
    for(int l=0;l<8;l++){u64 w=alive[c*8+l]; int cnt=__builtin_popcountll(w); if(!cnt)continue; u64 p=__atomic_fetch_add(&nL,cnt,__ATOMIC_RELAXED);
      while(w){int i=__builtin_ctzll(w);w&=w-1; u64 e=o[l][i]; L[p].u=e&MASK;L[p].v=(e>>32)&MASK;L[p].n=c*512+l*64+i;p++;}}
  }
  int clean=0; // list rounds
  for(int r=0;r<400;r++){
    u64 before=nL;
    for(side=0;side<2;side++){
      if(!clean){ memset(b1,0,words*8);memset(b2,0,words*8);}
#if 0
{
        _Pragma("omp parallel for") for(u64 i=0;i<nL;i++){ u64 x=(side?L[i].v:L[i].u)>>6; b1[x]=0;b2[x]=0; } }
#endif
      #pragma omp parallel for
      for(u64 i=0;i<nL;i++) setcnt(side?L[i].v:L[i].u);
      clean=0;
      int T=omp_get_max_threads(); u64 off[65]={0};
      #pragma omp parallel num_threads(T)
      { int t=omp_get_thread_num(); u64 a=nL*t/T,b=nL*(t+1)/T,w=a; if(nL<NE/64){ for(u64 i=a;i<b;i++) F[i]=two(side?L[i].v:L[i].u);
        _Pragma("omp barrier")
        for(u64 i=a;i<b;i++){u64 x=(side?L[i].v:L[i].u)>>6; b1[x]=0;b2[x]=0;}
        _Pragma("omp barrier")
        for(u64 i=a;i<b;i++) if(F[i]) L[w++]=L[i]; clean=1; }
        else for(u64 i=a;i<b;i++) if(two(side?L[i].v:L[i].u)) L[w++]=L[i]; off[t]=w-a; }
      u64 w=off[0]; for(int t=1;t<T;t++){u64 a=nL*t/T; memmove(L+w,L+a,off[t]*sizeof(E)); w+=off[t];}
      nL=w;
    }
    if(nL==before) break;
    if(r>150 && nL<200000) break;
  }
  fprintf(stderr,"live %lu\n",nL);
  // cycle finding: union-find style path following (cuckoo table), hash maps
  u64 hs=1; while(hs<nL*8+64) hs<<=1;
  u64 *key=malloc(hs*8); u32 *val=malloc(hs*4); u64*en=malloc(hs*8); memset(key,0xff,hs*8);
  #define H(k) ({u64 h=((k)*0x9E3779B97F4A7C15ull)&(hs-1); while(key[h]!=~0ull&&key[h]!=(k)) h=(h+1)&(hs-1); h;})
  // key: node (u<<1) or (v<<1|1); maps node-> edge idx to next
  static u64 us[100000],vs[100000];
  u64 *nxt=malloc(hs*8);
  for(u64 i=0;i<nL;i++){
    u64 u=((u64)L[i].u<<1), v=((u64)L[i].v<<1)|1;
    int nu=0,nv=0; us[0]=u; vs[0]=v;
    for(u64 x=u;;){u64 h=H(x); if(key[h]==~0ull)break; x=nxt[h]; us[++nu]=x; if(nu>90000)break;}
    for(u64 x=v;;){u64 h=H(x); if(key[h]==~0ull)break; x=nxt[h]; vs[++nv]=x; if(nv>90000)break;}
    if(nu>90000||nv>90000){continue;}
    if(us[nu]==vs[nv]){
      int m=nu<nv?nu:nv; int a=nu-m,b=nv-m; while(us[a]!=vs[b]){a++;b++;}
      int len=a+b+1;
      fprintf(stderr,"%d-cycle\n",len);
      if(len==42){
        // collect nodes edges: pairs
        u64 P[64][2];int np=0; P[np][0]=u;P[np++][1]=v;
        for(int j=0;j<a;j++){P[np][0]=us[j];P[np++][1]=us[j+1];}
        for(int j=0;j<b;j++){P[np][0]=vs[j];P[np++][1]=vs[j+1];}
        u32 N[64];int k=0;
        for(int j=0;j<np;j++){u64 x=P[j][0],y=P[j][1]; if(x&1){u64 t=x;x=y;y=t;}
          u32 best=0xffffffff; for(u64 e=0;e<nL;e++) if(L[e].u==(x>>1)&&L[e].v==(y>>1)){ best=L[e].n; break;}
          N[k++]=best;}
        for(int x=0;x<k;x++)for(int y=x+1;y<k;y++)if(N[y]<N[x]){u32 t=N[x];N[x]=N[y];N[y]=t;}
        for(int x=0;x<k;x++)printf("%u%c",N[x],x==k-1?'\n':' ');
        fflush(stdout); return 0;
      }
      continue; // don't add
    }
    // add edge: reverse shorter path
    if(nu<nv){ for(int j=nu;j>0;j--){u64 h=H(us[j]); key[h]=us[j]; nxt[h]=us[j-1];} u64 h=H(u); key[h]=u; nxt[h]=v; }
    else { for(int j=nv;j>0;j--){u64 h=H(vs[j]); key[h]=vs[j]; nxt[h]=vs[j-1];} u64 h=H(v); key[h]=v; nxt[h]=u; }
  }
  return 1;
}
