// native side of the harness API: replays one model against the really compiled code
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include <fcntl.h>
static std::map<std::string,uint64_t> vals; static std::map<std::string,int> occ; static FILE* out; static uint64_t seedV=1; static int tier=0;
static uint64_t get(const char*n){ std::string s=n; int k=occ[s]++; if(k) s+="#"+std::to_string(k); auto it=vals.find(s); return it==vals.end()?0:it->second; }
extern "C" {
uint64_t sym_bits(const char*n,unsigned b){ uint64_t v=get(n); return b>=64?v:v&((1ull<<b)-1); }
uint64_t sym_choice(const char*n,uint64_t k){ uint64_t v=get(n); return k?v%k:0; }
void sym_assume(bool c){ if(!c){ fprintf(out,"ASSUME-FALSE\n"); fflush(out); _exit(43);} }
void sym_check(bool c,const char*l){ if(!c){ fprintf(out,"CHECK-FAIL %s\n",l); fflush(out); _exit(42);} }
void sym_cover(const char*){} uint64_t sym_concretize(uint64_t v){return v;}
void sym_observe(const char*n,uint64_t v){ fprintf(out,"@%s=%llu\n",n,(unsigned long long)v); fflush(out); }
void sym_drop(){ fprintf(out,"DROP\n"); fflush(out); _exit(43);} int sym_is_symbolic(){return 0;} void sym_path_timeout(unsigned){} uint64_t sym_seed(){return seedV;} int sym_thorough(){return tier;}
void sym_note(const char*t){ fprintf(out,"NOTE %s\n",t); fflush(out);} 
}
int main(int argc,char**argv){ // harness model out seed tier
  FILE*f=fopen(argv[2],"r"); char l[512]; while(f&&fgets(l,512,f)){ char*e=strrchr(l,'='); if(!e||l[0]=='@')continue; *e=0; vals[l]=strtoull(e+1,0,10); } if(f)fclose(f);
  out=fopen(argv[3],"w"); if(argc>4)seedV=strtoull(argv[4],0,10); if(argc>5)tier=atoi(argv[5]); if(!getenv("SYMX_STDOUT")){ int dn=open("/dev/null",O_WRONLY); dup2(dn,1); }
  sym_main(argv[1]); fprintf(out,"DONE\n"); fclose(out); _exit(0); }
