// Runs che on many source texts. usage: cherun CHE WORKDIR CASEFILE SHARD NSHARDS TIMEOUT_MS
// CASEFILE: repeated { uint32 length, bytes }. Prints one line per case of interest:
//   R <index> <class> <rc> <first bytes of stderr, newlines as |>
// class: O ok, E error reported, S silent failure, P panic, K killed by a signal, T timeout
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
extern char **environ;
int main(int c, char **v){
  const char *che=v[1],*dir=v[2]; int sh=atoi(v[4]),ns=atoi(v[5]); long tmo=atol(v[6]); int verbose=c>7;
  FILE *f=fopen(v[3],"rb"); if(!f) return 2;
  struct rlimit rl={2u<<30,2u<<30}; setrlimit(RLIMIT_AS,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
  rl.rlim_cur=rl.rlim_max=64<<20; setrlimit(RLIMIT_FSIZE,&rl);
  char src[512],out[512],err[512]; snprintf(src,512,"%s/m%d.c",dir,sh); snprintf(out,512,"%s/o%d",dir,sh); snprintf(err,512,"%s/e%d",dir,sh); mkdir(out,0777);
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss,SIGCHLD); sigprocmask(SIG_BLOCK,&ss,0); signal(SIGXFSZ,SIG_IGN);
  int efd=open(err,O_RDWR|O_CREAT|O_TRUNC,0666); int nul=open("/dev/null",O_RDWR);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa,efd,2); posix_spawn_file_actions_adddup2(&fa,nul,1); posix_spawn_file_actions_adddup2(&fa,nul,0);
  posix_spawnattr_t at; posix_spawnattr_init(&at); sigset_t em; sigemptyset(&em); posix_spawnattr_setsigmask(&at,&em); posix_spawnattr_setflags(&at,POSIX_SPAWN_SETSIGMASK);
  uint32_t n; long idx=0, done=0; static char b[1<<20];
  while(fread(&n,4,1,f)==1){ if(n>sizeof b) return 3; if(fread(b,1,n,f)!=n) return 4; if(idx++%ns!=sh) continue; done++;
    int sfd=open(src,O_WRONLY|O_CREAT|O_TRUNC,0666); if(write(sfd,b,n)!=(ssize_t)n) return 5; close(sfd);
    if(ftruncate(efd,0)) return 6; lseek(efd,0,SEEK_SET);
    char *av[]={(char*)che,"genc",src,out,0}; pid_t p; if(posix_spawn(&p,che,&fa,&at,av,environ)) return 7;
    int st; struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0); int to=0;
    for(;;){ pid_t r=waitpid(p,&st,WNOHANG); if(r==p) break; struct timespec w={0,100000000}; sigtimedwait(&ss,0,&w);
      clock_gettime(CLOCK_MONOTONIC,&t1); if((t1.tv_sec-t0.tv_sec)*1000+(t1.tv_nsec-t0.tv_nsec)/1000000>tmo){ to=1; kill(p,9); waitpid(p,&st,0); break; } }
    char e[600]; ssize_t m=pread(efd,e,500,0); if(m<0)m=0; e[m]=0; for(char*q=e;*q;q++) if(*q=='\n')*q='|';
    int rc=WIFEXITED(st)?WEXITSTATUS(st):-1; char k;
    if(to) k='T'; else if(WIFSIGNALED(st)) k='K'; else if(rc==0) k='O'; else if(strstr(e,"panicked at")) k='P'; else if(m==0) k='S'; else k='E';
    if(verbose||(k!='O'&&k!='E')) printf("R %ld %c %d %s\n",idx-1,k,rc,e);
  }
  printf("DONE %ld\n",done); return 0; }
