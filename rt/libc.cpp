// C library model (symbolic build only): plain implementations of the ISO C /
// POSIX contracts of the functions the code under test calls.
#define __NO_CTYPE 1
#include "mfs.h"
#include <errno.h>
#include <limits.h>
#include <sys/stat.h>
#include <dirent.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <pwd.h>
#include <stdio.h>

#include <ctype.h>
#undef errno
extern "C" {
char __libc_single_threaded=1; static int the_errno; int* __errno_location(void) throw(){ return &the_errno; }
size_t strlen(const char*s) throw(){ size_t n=0; while(s[n]) n++; return n; }
void* memchr(const void*p,int c,size_t n) throw(); 
void* memchr(const void*p,int c,size_t n) throw(){ const unsigned char*q=(const unsigned char*)p; for(size_t i=0;i<n;i++) if(q[i]==(unsigned char)c) return (void*)(q+i); return 0; }
void* memrchr(const void*p,int c,size_t n) throw(){ const unsigned char*q=(const unsigned char*)p; for(size_t i=n;i-->0;) if(q[i]==(unsigned char)c) return (void*)(q+i); return 0; }
void* rawmemchr(const void*p,int c) throw(){ const unsigned char*q=(const unsigned char*)p; while(*q!=(unsigned char)c) q++; return (void*)q; }
int strcmp(const char*a,const char*b) throw(){ for(;;a++,b++){ unsigned char x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int strncmp(const char*a,const char*b,size_t n) throw(){ for(;n;a++,b++,n--){ unsigned char x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
static int lc(int c){ return c>='A'&&c<='Z'? c+32:c; }
int strcasecmp(const char*a,const char*b) throw(){ for(;;a++,b++){ int x=lc((unsigned char)*a),y=lc((unsigned char)*b); if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int strncasecmp(const char*a,const char*b,size_t n) throw(){ for(;n;a++,b++,n--){ int x=lc((unsigned char)*a),y=lc((unsigned char)*b); if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
int strcoll(const char*a,const char*b) throw(){ return strcmp(a,b); }
char* strcpy(char*d,const char*s) throw(){ char*r=d; while((*d++=*s++)); return r; }
char* stpcpy(char*d,const char*s) throw(){ while((*d=*s)){ d++; s++; } return d; }
char* strncpy(char*d,const char*s,size_t n) throw(){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* strcat(char*d,const char*s) throw(){ strcpy(d+strlen(d),s); return d; }
char* strncat(char*d,const char*s,size_t n) throw(){ char*e=d+strlen(d); while(n--&&*s) *e++=*s++; *e=0; return d; }
char* strchr(const char*s,int c) throw(){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* strrchr(const char*s,int c) throw(){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* strstr(const char*h,const char*n) throw(){ if(!*n) return (char*)h; for(;*h;h++){ size_t i=0; while(n[i]&&h[i]==n[i]) i++; if(!n[i]) return (char*)h; } return 0; }
size_t strspn(const char*s,const char*a) throw(){ size_t n=0; for(;s[n];n++){ const char*p=a; while(*p&&*p!=s[n]) p++; if(!*p) break; } return n; }
size_t strcspn(const char*s,const char*a) throw(){ size_t n=0; for(;s[n];n++){ const char*p=a; while(*p&&*p!=s[n]) p++; if(*p) break; } return n; }
char* strdup(const char*s) throw(); void* malloc(size_t) throw();
char* strdup(const char*s) throw(){ size_t n=strlen(s); char*p=(char*)malloc(n+1); for(size_t i=0;i<=n;i++) p[i]=s[i]; return p; }
size_t strnlen(const char*s,size_t n) throw(){ size_t i=0; while(i<n&&s[i]) i++; return i; }
char* strerror(int) throw(){ return (char*)"error"; }
#undef isspace
int isspace(int c) throw(){ return (c==32)|((unsigned)(c-9)<5u); } int isdigit(int c) throw(){ return (unsigned)(c-48)<10u; } int isupper(int c) throw(){ return c>='A'&&c<='Z'; } int islower(int c) throw(){ return c>='a'&&c<='z'; }
int isalpha(int c) throw(){ return isupper(c)||islower(c); } int isalnum(int c) throw(){ return isalpha(c)||isdigit(c); } int isprint(int c) throw(){ return c>=32&&c<127; } int iscntrl(int c) throw(){ return (c>=0&&c<32)||c==127; } int ispunct(int c) throw(){ return c>32&&c<127&&!isalnum(c); } int isgraph(int c) throw(){ return c>32&&c<127; } int isxdigit(int c) throw(){ return isdigit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); } int isblank(int c) throw(){ return c==' '||c=='\t'; }
int toupper(int c) throw(){ return islower(c)?c-32:c; } int tolower(int c) throw(){ return isupper(c)?c+32:c; }
static unsigned long parse(const char*s,char**end,int base,int*neg,int*ovf){ const char*p=s; *neg=0;*ovf=0; while(isspace((unsigned char)*p)) p++; if(*p=='-'||*p=='+'){ *neg=*p=='-'; p++; }
  if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&isxdigit((unsigned char)p[2])){ base=16; p+=2; } else if(base==0) base= p[0]=='0'?8:10;
  unsigned long v=0; int any=0; for(;;p++){ unsigned char d; unsigned char c=*p; if(c>='0'&&c<='9') d=(unsigned char)(c-'0'); else if(c>='a'&&c<='z') d=c-'a'+10; else if(c>='A'&&c<='Z') d=c-'A'+10; else break; if(d>=base) break; any=1; if(v>ULONG_MAX/base) *ovf=1; v*=base; if(v>ULONG_MAX-d) *ovf=1; v+=d; }
  if(end) *end=(char*)(any?p:s); return v; }
long strtol(const char*s,char**e,int b) throw(){ int n,o; unsigned long v=parse(s,e,b,&n,&o); if(o||(!n&&v>LONG_MAX)||(n&&v>(unsigned long)LONG_MAX+1)){ the_errno=ERANGE; return n?LONG_MIN:LONG_MAX; } return n?-(long)v:(long)v; }
unsigned long strtoul(const char*s,char**e,int b) throw(){ int n,o; unsigned long v=parse(s,e,b,&n,&o); if(o){ the_errno=ERANGE; return ULONG_MAX; } return n?-v:v; }
long long strtoll(const char*s,char**e,int b) throw(){ return strtol(s,e,b); } unsigned long long strtoull(const char*s,char**e,int b) throw(){ return strtoul(s,e,b); }
long __isoc23_strtol(const char*s,char**e,int b) throw(){ return strtol(s,e,b); } unsigned long __isoc23_strtoul(const char*s,char**e,int b) throw(){ return strtoul(s,e,b); } long long __isoc23_strtoll(const char*s,char**e,int b) throw(){ return strtol(s,e,b); } unsigned long long __isoc23_strtoull(const char*s,char**e,int b) throw(){ return strtoul(s,e,b); }
int atoi(const char*s) throw(){ return (int)strtol(s,0,10); } long atol(const char*s) throw(){ return strtol(s,0,10); }
double symx_strtod(const char*,uint64_t*end); float symx_strtof(const char*,uint64_t*end);
double strtod(const char*s,char**e) throw(){ uint64_t n=0; double d=symx_strtod(s,&n); if(e) *e=(char*)s+n; return d; }
float strtof(const char*s,char**e) throw(){ uint64_t n=0; float d=symx_strtof(s,&n); if(e) *e=(char*)s+n; return d; }
double atof(const char*s) throw(){ return strtod(s,0); }
int abs(int x) throw(){ return x<0?-x:x; } long labs(long x) throw(){ return x<0?-x:x; }
// environment
char model_env_name[8][64]; char* model_env_val[8]; int model_env_n;
void model_setenv(const char*n,const char*v,size_t len){ int i=model_env_n++; strcpy(model_env_name[i],n); char*p=(char*)symx_malloc(len+1,200); for(size_t k=0;k<len;k++) p[k]=v[k]; p[len]=0; model_env_val[i]=p; }
char* getenv(const char*n) throw(){ for(int i=0;i<model_env_n;i++) if(!strcmp(n,model_env_name[i])) return model_env_val[i]; return 0; }
time_t time(time_t*t) throw(){ if(t) *t=1700000000; return 1700000000; } clock_t clock(void) throw(){ return 12345; }
static char ctime_buf[32]; char* ctime(const time_t*) throw(){ strcpy(ctime_buf,"Tue Nov 14 22:13:20 2023\n"); return ctime_buf; }
__attribute__((weak)) int gethostname(char*p,size_t n) throw(){ strncpy(p,"modelhost",n); return 0; }
// model file system
static mfs_ent ents[48]; static int nents; char mfs_cwd[256]="/w"; static struct { mfs_ent*e; size_t pos; int r,w,app; } fds[32];
void mfs_norm(const char*path,char*out){ char comp[256]; size_t o=0; if(path[0]!='/'){ strcpy(out,mfs_cwd); o=strlen(out); if(o==1) o=0; } const char*p=path; while(*p){ while(*p=='/') p++; size_t n=0; while(p[n]&&p[n]!='/'){ comp[n]=p[n]; n++; if(n>=255) break; } comp[n]=0; p+=n; if(n==0||(n==1&&comp[0]=='.')) continue; if(n==2&&comp[0]=='.'&&comp[1]=='.'){ while(o>0&&out[o-1]!='/') o--; if(o>0) o--; continue; } if(o+n+2>250){ break; } out[o++]='/'; for(size_t i=0;i<n;i++) out[o++]=comp[i]; } if(o==0) out[o++]='/'; out[o]=0; }
// path resolution: every component but the last must be a directory with search permission; links are followed (the last one if asked).  full receives the absolute name the path stands for ("" if its parent does not exist).
static mfs_ent* byname(const char*b,size_t n){ for(int i=0;i<nents;i++){ if(!ents[i].kind) continue; const char*e=ents[i].name; if(strlen(e)!=n) continue; unsigned d=0; for(size_t k=0;k<n;k++) d|=(unsigned char)(e[k]^b[k]); if(!d) return &ents[i]; } return 0; }
static mfs_ent* walk(const char*path,int follow,char*full,int depth){ char out[256]; size_t o=0; full[0]=0; if(!path[0]){ the_errno=ENOENT; return 0; } if(depth>8){ the_errno=ELOOP; return 0; } if(path[0]!='/'){ strcpy(out,mfs_cwd); o=strlen(out); if(o==1) o=0; } out[o]=0; mfs_ent*cur=o? byname(out,o):byname("/",1); const char*p=path; 
  for(;;){ while(*p=='/'){ if(!(cur->kind&MFS_DIR)){ the_errno=ENOTDIR; return 0; } p++; } if(!*p) break; size_t n=0; char comp[256]; while(p[n]&&p[n]!='/'){ comp[n]=p[n]; n++; if(n>=200){ the_errno=ENAMETOOLONG; return 0; } } p+=n;
    if(!(cur->kind&MFS_DIR)){ the_errno=ENOTDIR; return 0; } if(cur->kind&MFS_NOSEARCH){ the_errno=EACCES; return 0; }
    if(n==1&&comp[0]=='.') continue; if(n==2&&comp[0]=='.'&&comp[1]=='.'){ while(o>0&&out[o-1]!='/') o--; if(o>0) o--; out[o]=0; cur=o? byname(out,o):byname("/",1); continue; }
    if(o+n+2>250){ the_errno=ENAMETOOLONG; return 0; } out[o++]='/'; for(size_t i=0;i<n;i++) out[o++]=comp[i]; out[o]=0;
    mfs_ent*e=byname(out,o); int last=1; for(const char*q=p;*q;q++) if(*q!='/'){ last=0; break; }
    if(!e){ the_errno=ENOENT; if(last&&!(cur->kind&MFS_NOWRITE)) strcpy(full,out); return 0; }
    if((e->kind&MFS_LINK)&&(!last||follow||*p)){ char t[256]; size_t k=0; for(;k<e->len;k++) t[k]=e->data[k]; t[k]=0; char f2[256]; mfs_ent*r; if(t[0]=='/') r=walk(t,1,f2,depth+1); else { char u[256]; size_t z=o; while(z>0&&out[z-1]!='/') z--; for(size_t i=0;i<z;i++) u[i]=out[i]; strcpy(u+z,t); r=walk(u,1,f2,depth+1); } if(!r) return 0; strcpy(out,f2); o=strlen(out); if(o==1) o=0; e=r; }
    cur=e; }
  if(o==0){ out[0]='/'; out[1]=0; } strcpy(full,out); return cur; }
mfs_ent* mfs_lookup(const char*path,int follow,char*full){ return walk(path,follow,full,0); }
mfs_ent* mfs_find(const char*path){ char f[256]; return walk(path,1,f,0); }
mfs_ent* mfs_add(const char*path,int kind,const void*d,size_t n){ char b[256]; mfs_norm(path,b); mfs_ent*e=byname(b,strlen(b)); if(!e){ if(nents>=48) symx_unsupported("model file table full"); e=&ents[nents++]; } strcpy(e->name,b); e->kind=kind; e->cap=n<64?64:n; e->data=(char*)symx_malloc(e->cap,200); e->len=n; for(size_t i=0;i<n;i++) e->data[i]=((const char*)d)[i]; return e; }
static int parentOK(const char*path){ char f[256]; return !walk(path,1,f,0)&&f[0]; }
int mfs_open(const char*path,int r,int w,int trunc,int append){ if(!path[0]){ the_errno=ENOENT; return -1; } mfs_ent*e=mfs_find(path); if(!e){ size_t pl=strlen(path); if(!w||r&&!trunc&&!append||!parentOK(path)||path[pl-1]=='/'){ the_errno=ENOENT; return -1; } e=mfs_add(path,MFS_FILE,"",0); }
  if(e->kind&MFS_FIFO) symx_unsupported("opening a fifo"); if(w&&(e->kind&(MFS_DIR|MFS_NOWRITE))){ the_errno=EACCES; return -1; } if(r&&(e->kind&MFS_NOREAD)){ the_errno=EACCES; return -1; }
  if(trunc) e->len=0; int i=3; while(i<32&&fds[i].e) i++; if(i==32){ the_errno=EMFILE; return -1; } fds[i].e=e; fds[i].pos=0; fds[i].r=r; fds[i].w=w; fds[i].app=append; return i; }
int mfs_close(int fd){ if(fd<0||fd>=32||!fds[fd].e){ the_errno=EBADF; return -1; } fds[fd].e=0; return 0; } int mfs_openfds(void){ int n=0; for(int i=3;i<32;i++) if(fds[i].e) n++; return n; }
mfs_ent* mfs_fdent(int fd){ return fds[fd].e; }
long mfs_read(int fd,void*p,size_t n){ if(fd<0||fd>=32||!fds[fd].e){ the_errno=EBADF; return -1; } mfs_ent*e=fds[fd].e; if(e->kind&MFS_DIR){ the_errno=EISDIR; return -1; } size_t k= fds[fd].pos<e->len? e->len-fds[fd].pos:0; if(k>n) k=n; __builtin_memcpy(p,e->data+fds[fd].pos,k); fds[fd].pos+=k; return k; }
static void wr(mfs_ent*e,size_t pos,const void*p,size_t n){ if(pos+n>e->cap){ size_t c=e->cap*2; while(c<pos+n) c*=2; char*d=(char*)symx_malloc(c,200); __builtin_memcpy(d,e->data,e->len); symx_free(e->data,200); e->data=d; e->cap=c; } while(e->len<pos) e->data[e->len++]=0; __builtin_memcpy(e->data+pos,p,n); if(pos+n>e->len) e->len=pos+n; }
long mfs_write(int fd,const void*p,size_t n){ if(fd<0||fd>=32||!fds[fd].e||!fds[fd].w){ the_errno=EBADF; return -1; } if(fds[fd].app) fds[fd].pos=fds[fd].e->len; wr(fds[fd].e,fds[fd].pos,p,n); fds[fd].pos+=n; return n; }
long mfs_seek(int fd,long off,int wh){ if(fd<0||fd>=32||!fds[fd].e){ the_errno=EBADF; return -1; } long b= wh==0?0:wh==1?(long)fds[fd].pos:(long)fds[fd].e->len; if(b+off<0){ the_errno=EINVAL; return -1; } fds[fd].pos=b+off; return b+off; }
// POSIX on top of it
static int dostat(mfs_ent*e,struct stat*st){ if(!e) return -1; __builtin_memset(st,0,sizeof *st); st->st_mode= e->kind&MFS_DIR? S_IFDIR: e->kind&MFS_FIFO? S_IFIFO: e->kind&MFS_LINK? S_IFLNK: S_IFREG; if(!(e->kind&MFS_NOREAD)) st->st_mode|=0444; if(!(e->kind&MFS_NOWRITE)) st->st_mode|=0222; if(e->kind&MFS_DIR? !(e->kind&MFS_NOSEARCH): !!(e->kind&MFS_EXEC)) st->st_mode|=0111; st->st_size=e->kind&MFS_DIR?4096:e->len; return 0; }
int stat(const char*p,struct stat*st) throw(){ return dostat(mfs_find(p),st); }
int lstat(const char*p,struct stat*st) throw(){ char f[256]; return dostat(walk(p,0,f,0),st); }
int access(const char*p,int m) throw(){ mfs_ent*e=mfs_find(p); if(!e) return -1; if(((m&R_OK)&&(e->kind&MFS_NOREAD))||((m&W_OK)&&(e->kind&MFS_NOWRITE))||((m&X_OK)&&(e->kind&MFS_DIR? (e->kind&MFS_NOSEARCH): !(e->kind&MFS_EXEC)))){ the_errno=EACCES; return -1; } return 0; }
int chdir(const char*p) throw(){ char f[256]; mfs_ent*e=walk(p,1,f,0); if(!e) return -1; if(!(e->kind&MFS_DIR)){ the_errno=ENOTDIR; return -1; } if(e->kind&MFS_NOSEARCH){ the_errno=EACCES; return -1; } strcpy(mfs_cwd,e->name); return 0; }
char* getcwd(char*b,size_t n) throw(){ size_t l=strlen(mfs_cwd); if(l+1>n){ the_errno=ERANGE; return 0; } strcpy(b,mfs_cwd); return b; }
char* realpath(const char*p,char*o) throw(){ mfs_ent*e=mfs_find(p); if(!e){ the_errno=ENOENT; return 0; } if(!o) o=(char*)malloc(4096); strcpy(o,e->name); return o; }
int unlink(const char*p) throw(){ mfs_ent*e=mfs_find(p); if(!e||(e->kind&MFS_DIR)){ the_errno=ENOENT; return -1; } e->kind=0; return 0; } int remove(const char*p) throw(){ return unlink(p); }
int mkdir(const char*p,mode_t) throw(){ if(mfs_find(p)){ the_errno=EEXIST; return -1; } if(!parentOK(p)){ the_errno=ENOENT; return -1; } mfs_add(p,MFS_DIR,"",0); return 0; }
struct mdir { char base[256]; int i; struct dirent d; };
DIR* opendir(const char*p){ mfs_ent*e=mfs_find(p); if(!e){ the_errno=ENOENT; return 0; } if(!(e->kind&MFS_DIR)){ the_errno=ENOTDIR; return 0; } if(e->kind&MFS_NOREAD){ the_errno=EACCES; return 0; } mdir*m=(mdir*)symx_malloc(sizeof(mdir),3); strcpy(m->base,e->name); m->i=-2; return (DIR*)m; }
struct dirent* readdir(DIR*dp){ mdir*m=(mdir*)dp; if(m->i==-2){ m->i++; strcpy(m->d.d_name,"."); return &m->d; } if(m->i==-1){ m->i++; strcpy(m->d.d_name,".."); return &m->d; }
  size_t bl=strlen(m->base); if(bl==1) bl=0; for(;m->i<nents;m->i++){ if(!ents[m->i].kind) continue; const char*n=ents[m->i].name; if(__builtin_memcmp(n,m->base,bl)||n[bl]!='/') continue; const char*r=n+bl+1; if(!*r||strchr(r,'/')) continue; m->i++; strcpy(m->d.d_name,r); return &m->d; } return 0; }
int closedir(DIR*d){ symx_free(d,3); return 0; }
int open(const char*p,int fl,...){ int r=(fl&3)!=O_WRONLY,w=(fl&3)!=O_RDONLY; return mfs_open(p,r,w,!!(fl&O_TRUNC),!!(fl&O_APPEND)); } int close(int fd){ return mfs_close(fd); } ssize_t read(int fd,void*p,size_t n){ return mfs_read(fd,p,n); } ssize_t write(int fd,const void*p,size_t n){ return mfs_write(fd,p,n); }
static void __attribute__((constructor(101))) initfs(){ mfs_add("/w",MFS_DIR,"",0); mfs_add("/",MFS_DIR,"",0); for(int i=0;i<3;i++){ const char*nm[]={"<stdin>","<stdout>","<stderr>"}; fds[i].e=mfs_add(nm[i],MFS_FILE,"",0); strcpy(fds[i].e->name,nm[i]); fds[i].r=i==0; fds[i].w=i>0; fds[i].app=i>0; } }
// stdio, unbuffered; streams 0-2 are the standard ones
struct mFILE { int fd,eof,err,unget; }; static mFILE stds[3]={{0,0,0,-1},{1,0,0,-1},{2,0,0,-1}}; FILE*stdin=(FILE*)&stds[0]; FILE*stdout=(FILE*)&stds[1]; FILE*stderr=(FILE*)&stds[2];
FILE* fopen(const char*p,const char*m){ int plus=0; for(const char*q=m;*q;q++) plus|=*q=='+'; int fd= m[0]=='r'? mfs_open(p,1,plus,0,0): m[0]=='w'? mfs_open(p,plus,1,1,0): m[0]=='a'? mfs_open(p,plus,1,0,1): -1; if(fd<0) return 0; mFILE*f=(mFILE*)symx_malloc(sizeof(mFILE),204); f->fd=fd; f->eof=f->err=0; f->unget=-1; return (FILE*)f; }
int fclose(FILE*F){ mFILE*f=(mFILE*)F; if(f->fd<3) return 0; int r=mfs_close(f->fd); symx_free(f,204); return r; }
size_t fread(void*p,size_t sz,size_t n,FILE*F){ mFILE*f=(mFILE*)F; size_t want=sz*n,got=0; char*c=(char*)p; if(!want) return 0; if(f->unget>=0){ c[got++]=(char)f->unget; f->unget=-1; } while(got<want){ long k=mfs_read(f->fd,c+got,want-got); if(k<0){ f->err=1; break; } if(!k){ f->eof=1; break; } got+=k; } return got/sz; }
size_t fwrite(const void*p,size_t sz,size_t n,FILE*F){ mFILE*f=(mFILE*)F; if(!sz||!n) return 0; long k=mfs_write(f->fd,p,sz*n); if(k<0){ f->err=1; return 0; } return k/sz; }
int fseek(FILE*F,long o,int w){ mFILE*f=(mFILE*)F; f->unget=-1; if(mfs_seek(f->fd,o,w)<0) return -1; f->eof=0; return 0; } long ftell(FILE*F){ mFILE*f=(mFILE*)F; long r=mfs_seek(f->fd,0,1); return f->unget>=0?r-1:r; } void rewind(FILE*F){ fseek(F,0,0); ((mFILE*)F)->err=0; }
#undef feof
#undef ferror
#undef getc
#undef putc
#undef putchar
int feof(FILE*F) throw(){ return ((mFILE*)F)->eof; } int ferror(FILE*F) throw(){ return ((mFILE*)F)->err; } void clearerr(FILE*F) throw(){ ((mFILE*)F)->eof=((mFILE*)F)->err=0; } int fileno(FILE*F) throw(){ return ((mFILE*)F)->fd; } int fflush(FILE*){ return 0; }
int fgetc(FILE*F){ unsigned char c; return fread(&c,1,1,F)==1? c: EOF; } int getc(FILE*F){ return fgetc(F); } int ungetc(int c,FILE*F){ ((mFILE*)F)->unget=c; ((mFILE*)F)->eof=0; return c; }
int fputc(int c,FILE*F){ unsigned char u=c; return fwrite(&u,1,1,F)==1? u: EOF; } int putc(int c,FILE*F){ return fputc(c,F); } int symx_putchar(int c) __asm__("putchar"); int symx_putchar(int c){ return fputc(c,stdout); } int fputs(const char*s,FILE*F){ size_t n=strlen(s); return fwrite(s,1,n,F)==n? 1: EOF; } int puts(const char*s){ return fputs(s,stdout)<0? EOF: fputc('\n',stdout); }
char* fgets(char*s,int n,FILE*F){ int i=0; while(i<n-1){ int c=fgetc(F); if(c==EOF) break; s[i++]=(char)c; if(c=='\n') break; } if(!i) return 0; s[i]=0; return s; }
int fstat(int fd,struct stat*st) throw(){ if(fd<0||fd>=32||!fds[fd].e){ the_errno=EBADF; return -1; } return dostat(fds[fd].e,st); }
char* strpbrk(const char*s,const char*a) throw(){ s+=strcspn(s,a); return *s? (char*)s: 0; } static char*tokAt; char* strtok_r(char*s,const char*d,char**p) throw(){ if(!s) s=*p; s+=strspn(s,d); if(!*s){ *p=s; return 0; } char*e=s+strcspn(s,d); if(*e) *e++=0; *p=e; return s; } char* strtok(char*s,const char*d) throw(){ return strtok_r(s,d,&tokAt); }
void* memmem(const void*h,size_t n,const void*q,size_t m) throw(){ if(!m) return (void*)h; for(size_t i=0;i+m<=n;i++) if(!__builtin_memcmp((const char*)h+i,q,m)) return (char*)h+i; return 0; }
void qsort(void*b,size_t n,size_t sz,int(*cmp)(const void*,const void*)){ char*p=(char*)b; for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&cmp(p+(j-1)*sz,p+j*sz)>0;j--) for(size_t k=0;k<sz;k++){ char t=p[(j-1)*sz+k]; p[(j-1)*sz+k]=p[j*sz+k]; p[j*sz+k]=t; } }
int rmdir(const char*p) throw(){ mfs_ent*e=mfs_find(p); if(!e||!(e->kind&MFS_DIR)){ the_errno=e?ENOTDIR:ENOENT; return -1; } e->kind=0; return 0; }
ssize_t readlink(const char*p,char*b,size_t n) throw(){ char f[256]; mfs_ent*e=walk(p,0,f,0); if(!e||!(e->kind&MFS_LINK)){ if(e) the_errno=EINVAL; return -1; } size_t k=e->len<n?e->len:n; for(size_t i=0;i<k;i++) b[i]=e->data[i]; return k; }
struct passwd* getpwuid(uid_t){ return 0; } uid_t getuid(void) throw(){ return 1000; } pid_t getpid(void) throw(){ return 4242; }
}
