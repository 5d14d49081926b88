// File system seen by the code under symbolic execution; the harness defines these functions.
#pragma once
#include <cstddef>
extern "C" {
enum { VP_FS_REGULAR = 1, VP_FS_DIR, VP_FS_FIFO, VP_FS_SOCKET, VP_FS_CHAR, VP_FS_BLOCK, VP_FS_LINK };
int vp_fs_stat(const char * path, int follow);      // one of the kinds above, or -errno
int vp_fs_open(const char * path);                  // handle, or -errno
long vp_fs_read(int handle, char * buf, size_t n);  // bytes read, or -errno
long vp_fs_size(const char * path);
void vp_fs_close(int handle);
}
