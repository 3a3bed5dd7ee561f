/* Preloaded into the program under test (LD_PRELOAD): faults of the environment.
 *   FAULTS = list of  kind:number  separated by commas
 *     w:n   files can hold n bytes; writing more fails (EFBIG)         k:n  ... writing more kills the process
 *     r:n   reading an input file at or behind offset n fails (EIO)    c:n  a read returns at most n bytes
 *     i:n   every n-th read is interrupted (EINTR)
 *     m:n   the n-th allocation fails (counted from the first open file)
 *     M:n   all allocations from the n-th on fail
 *     t:n   the n-th thread cannot be created (EAGAIN)
 *   FAULT_FILE: suffix of the name of the file that r refers to
 *   FAULT_COUNT: file that receives the number of allocations and threads
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static long fault_r = -1, fault_c = -1, fault_i = -1, fault_m = -1, fault_M = -1, fault_t = -1;
static const char* fault_file;
static long allocations, threads, reads;
static int started;

extern void* __libc_malloc(size_t);

__attribute__((constructor)) static void init(void)
{
   const char* s = getenv("FAULTS");
   fault_file = getenv("FAULT_FILE");
   while ( s && *s )
   {
      const long n = strtol(s + 2, NULL, 10);
      struct rlimit l;
      switch ( s[0] )
      {
         case 'w': signal(SIGXFSZ, SIG_IGN); l.rlim_cur = l.rlim_max = (rlim_t)n; setrlimit(RLIMIT_FSIZE, &l); break;
         case 'k': signal(SIGXFSZ, SIG_DFL); l.rlim_cur = l.rlim_max = (rlim_t)n; setrlimit(RLIMIT_FSIZE, &l); break;
         case 'r': fault_r = n; break;
         case 'c': fault_c = n; break;
         case 'i': fault_i = n; break;
         case 'm': fault_m = n; break;
         case 'M': fault_M = n; break;
         case 't': fault_t = n; break;
      }
      s = strchr(s, ',');
      if ( s ) { ++s; }
   }
}

__attribute__((destructor)) static void fini(void)
{
   const char* p = getenv("FAULT_COUNT");
   if ( p )
   {
      FILE* f = fopen(p, "w");
      if ( f ) { fprintf(f, "%ld %ld\n", allocations, threads); fclose(f); }
   }
}

void* malloc(size_t n)
{
   if ( started )
   {
      const long k = __sync_add_and_fetch(&allocations, 1);
      if ( k == fault_m || (fault_M > 0 && k >= fault_M) ) { errno = ENOMEM; return NULL; }
   }
   return __libc_malloc(n);
}

ssize_t read(int fd, void* buffer, size_t n)
{
   if ( fd > 2 )
   {
      started = 1;
      if ( fault_i > 0 && __sync_add_and_fetch(&reads, 1) % fault_i == 0 ) { errno = EINTR; return -1; }
      if ( fault_c > 0 && n > (size_t)fault_c ) { n = (size_t)fault_c; }
      if ( fault_r >= 0 )
      {
         int match = 1;
         if ( fault_file )
         {
            char link[64], name[4096];
            snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
            const ssize_t k = readlink(link, name, sizeof name - 1);
            const size_t m = strlen(fault_file);
            match = k > 0 && (size_t)k >= m && memcmp(name + k - m, fault_file, m) == 0;
         }
         const off_t at = lseek(fd, 0, SEEK_CUR);
         struct stat st;
         if ( match && at >= 0 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode) )
         {
            if ( at >= fault_r ) { errno = EIO; return -1; }
            if ( (off_t)n > fault_r - at ) { n = (size_t)(fault_r - at); }
         }
      }
   }
   return syscall(SYS_read, fd, buffer, n);
}

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x)
{
   static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
   if ( !real ) { real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create"); }
   if ( __sync_add_and_fetch(&threads, 1) == fault_t ) { return EAGAIN; }
   return real(t, a, f, x);
}
