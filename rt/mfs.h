// Model file system: a table of named entries.  Used only by the symbolic build;
// the native build of a harness creates real files in a scratch directory.
#ifndef MFS_H
#define MFS_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
void* symx_malloc(size_t n,int how); void symx_free(void*p,int how); void symx_unsupported(const char*); void symx_kill(const char*); void symx_fail(const char*); void symx_throw(void*,void*); void symx_debug(const char*,uint64_t); int symx_is_const(uint64_t);
enum { MFS_FILE=1, MFS_DIR=2, MFS_NOREAD=4, MFS_NOWRITE=8, MFS_SLOWREAD=16, MFS_EXEC=32, MFS_NOSEARCH=64, MFS_FIFO=128, MFS_LINK=256 };
struct mfs_ent { char name[96]; int kind; char*data; size_t len,cap; };
struct mfs_ent* mfs_find(const char*path); struct mfs_ent* mfs_lookup(const char*path,int follow,char*full);
struct mfs_ent* mfs_add(const char*path,int kind,const void*data,size_t n);
int mfs_open(const char*path,int r,int w,int trunc,int append); int mfs_close(int fd); long mfs_read(int fd,void*p,size_t n); long mfs_write(int fd,const void*p,size_t n); long mfs_seek(int fd,long off,int whence); struct mfs_ent* mfs_fdent(int fd); int mfs_openfds(void);
extern char mfs_cwd[256]; void mfs_norm(const char*path,char*out);
}
#endif
