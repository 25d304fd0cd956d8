#pragma once
// The simulator's own calls must not be redirected by the linker's --wrap.
#include <unistd.h>
#include <sys/mman.h>
#include <stdlib.h>
extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int   __real_munmap(void*, size_t);
int   __real_usleep(useconds_t);
void  __real_abort(void) __attribute__((noreturn));
}
#define mmap   __real_mmap
#define munmap __real_munmap
#define usleep __real_usleep
#define abort  __real_abort
