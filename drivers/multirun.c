// Runs many commands. usage: multirun JOBS OUT SHARD NSHARDS TIMEOUT_MS TMPFILE
// JOBS: repeated { uint32 n, bytes }: n bytes of NUL-terminated strings: cwd, argv...
// OUT: repeated { uint32 index, int32 rc (-1 signal, -2 timeout), uint32 outlen, bytes, uint32 errlen, bytes }
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
int main(int c, char **v){
  int sh=atoi(v[3]),ns=atoi(v[4]); long tmo=atol(v[5]);
  FILE *f=fopen(v[1],"rb"),*o=fopen(v[2],"wb"); if(!f||!o) return 2;
  char p1[600],p2[600]; snprintf(p1,600,"%s.o%d",v[6],sh); snprintf(p2,600,"%s.e%d",v[6],sh);
  int of=open(p1,O_RDWR|O_CREAT|O_TRUNC,0666), ef=open(p2,O_RDWR|O_CREAT|O_TRUNC,0666), nul=open("/dev/null",O_RDWR);
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss,SIGCHLD); sigprocmask(SIG_BLOCK,&ss,0);
  uint32_t n, idx=0; static char b[1<<20]; static char buf[1<<20];
  while(fread(&n,4,1,f)==1){ if(n>sizeof b||fread(b,1,n,f)!=n) return 4; uint32_t me=idx++; if(me%ns!=sh) continue;
    char *av[64]; int na=0; char *q=b; char *cwd=q; q+=strlen(q)+1; while(q<b+n&&na<63){ av[na++]=q; q+=strlen(q)+1; } av[na]=0;
    if(ftruncate(of,0)||ftruncate(ef,0)) return 6; lseek(of,0,SEEK_SET); lseek(ef,0,SEEK_SET);
    fflush(o);
    pid_t p=vfork();
    if(p==0){ sigset_t em; sigemptyset(&em); sigprocmask(SIG_SETMASK,&em,0); setsid(); if(*cwd&&chdir(cwd)) _exit(126); dup2(nul,0); dup2(of,1); dup2(ef,2); execvp(av[0],av); _exit(127); }
    int st=0; struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0); int to=0;
    for(;;){ pid_t r=waitpid(p,&st,WNOHANG); if(r==p) break; struct timespec w={0,100000000}; sigtimedwait(&ss,0,&w);
      clock_gettime(CLOCK_MONOTONIC,&t1); if((t1.tv_sec-t0.tv_sec)*1000+(t1.tv_nsec-t0.tv_nsec)/1000000>tmo){ to=1; kill(-p,9); waitpid(p,&st,0); break; } }
    int32_t rc=to?-2:WIFEXITED(st)?WEXITSTATUS(st):-1; fwrite(&me,4,1,o); fwrite(&rc,4,1,o);
    int fds[2]={of,ef}; for(int k=0;k<2;k++){ ssize_t m=pread(fds[k],buf,sizeof buf,0); if(m<0)m=0; uint32_t l=m; fwrite(&l,4,1,o); fwrite(buf,1,m,o); }
  }
  fclose(o); unlink(p1); unlink(p2); return 0; }
