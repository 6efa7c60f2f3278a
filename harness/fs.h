// A small file system for the code under test: the model one in the symbolic
// build, real files in the (scratch) current directory in the native build.
#ifndef HFS_H
#define HFS_H
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
enum { FS_NOREAD=4, FS_NOWRITE=8, FS_EXEC=32, FS_NOSEARCH=64 };
#ifdef SYMX
#include "../rt/mfs.h"
extern "C" void model_setenv(const char*n,const char*v,size_t len);
static inline void fs_file(const char*p,const void*d,size_t n,int fl=0){ mfs_add(p,MFS_FILE|fl,d,n); }
static inline void fs_dir(const char*p,int fl=0){ mfs_add(p,MFS_DIR|fl,"",0); }
static inline void fs_fifo(const char*p){ mfs_add(p,MFS_FIFO,"",0); }
static inline void fs_link(const char*p,const char*to){ mfs_add(p,MFS_LINK,to,strlen(to)); }
static inline void fs_chmod_dir(const char*p,int fl){ mfs_find(p)->kind=MFS_DIR|fl; }
static inline bool fs_read(const char*p,std::string&s){ mfs_ent*e=mfs_find(p); if(!e||(e->kind&MFS_DIR)) return false; s.assign(e->data,e->len); return true; }
static inline void fs_setenv(const char*n,const std::string&v){ model_setenv(n,v.data(),v.size()); }
static inline void fs_capture(){}
static inline bool fs_stdout(std::string&s){ mfs_ent*e=mfs_fdent(1); s.assign(e->data,e->len); return true; }
static inline int fs_openfds(){ return mfs_openfds(); }
#else
#include <dirent.h>
static inline void fs_must(bool b){ if(!b){ perror("scratch"); abort(); } }
static inline void fs_file(const char*p,const void*d,size_t n,int fl=0){ FILE*f=fopen(p,"wb"); fs_must(f); if(n) fs_must(fwrite(d,1,n,f)==n); fclose(f); fs_must(!chmod(p,(fl&FS_NOREAD?0:0444)|(fl&FS_NOWRITE?0:0222)|(fl&FS_EXEC?0111:0))); }
static inline void fs_chmod_dir(const char*p,int fl){ fs_must(!chmod(p,(fl&FS_NOREAD?0:0444)|(fl&FS_NOWRITE?0:0222)|(fl&FS_NOSEARCH?0:0111))); }
static inline void fs_dir(const char*p,int fl=0){ fs_must(!mkdir(p,0777)); fs_chmod_dir(p,fl); }
static inline void fs_fifo(const char*p){ fs_must(!mkfifo(p,0666)); }
static inline void fs_link(const char*p,const char*to){ fs_must(!symlink(to,p)); }
static inline bool fs_read(const char*p,std::string&s){ FILE*f=fopen(p,"rb"); if(!f) return false; s.clear(); int c; while((c=getc(f))!=EOF) s+=(char)c; fclose(f); return true; }
static inline void fs_setenv(const char*n,const std::string&v){ setenv(n,v.c_str(),1); }
static inline void fs_capture(){ fs_must(freopen("<stdout>","w+",stdout)!=0); }
static inline bool fs_stdout(std::string&s){ fflush(stdout); return fs_read("<stdout>",s); }
static inline int fs_openfds(){ int n=0; DIR*d=opendir("/proc/self/fd"); fs_must(d); while(readdir(d)) n++; closedir(d); return n; }
#endif
static inline std::string fs_cwd(){ char b[1000]; return getcwd(b,sizeof b)? b: ""; }
#endif
