// Controlled scheduler: linked with objects compiled with -fsanitize=thread INSTEAD of the
// ThreadSanitizer runtime.  Every instrumented memory access, every synchronization operation and
// every write to a stream is a possible preemption point; exactly one thread runs at any time, and
// the environment variable SCHED="seed mode parameter spurious" decides which one.  Deterministic.
//   mode r: at each point switch with probability 1/parameter to a random thread
//   mode p: PCT, i.e. random priorities with `parameter`-distant random priority change points
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

namespace
{
   enum State { Run, Mutex, Cond, Futex, Join, Done };
   struct Thread
   {
      State state = Run;
      const void* on = nullptr;
      int join = -1;
      int go = 0;
      bool signalled = false;
      long priority = 0;
      pthread_t handle{};
      void* (*fn)(void*) = nullptr;
      void* arg = nullptr;
   };
   Thread* threads[4096];
   int n_threads = 0;
   int current = 0;
   bool on = false;
   __thread int self = -1;
   uint64_t rng = 88172645463325252ull;
   char mode = 'r';
   long parameter = 100;
   long spurious = 0;
   long countdown = 1;
   uint64_t steps = 0, switches = 0;
   uint64_t limit = 2000000000ull;
   struct Lock { int owner = -1; int count = 0; };
   std::map<const void*, Lock>& locks()
   {
      static auto* m = new std::map<const void*, Lock>;
      return *m;
   }

   uint64_t random64()
   {
      rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
      return rng * 2685821657736338717ull >> 11;
   }

   long raw_futex(int* addr, int op, int val)
   {
      long r;
      register long r10 __asm__("r10") = 0;
      register long r8 __asm__("r8") = 0;
      register long r9 __asm__("r9") = 0;
      __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(addr), "S"(long(op)), "d"(long(val)), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
      return r;
   }

   void draw()
   {
      if ( mode == 'r' )
      {
         countdown = 1 + static_cast<long>(random64() % static_cast<uint64_t>(2 * parameter));
      }
      else
      {
         countdown = 1 + static_cast<long>(random64() % static_cast<uint64_t>(parameter));
      }
   }

   void say(const char* s)
   {
      (void)!write(2, s, strlen(s));
   }

   void wait_for_token(int id)
   {
      while ( __atomic_load_n(&threads[id]->go, __ATOMIC_ACQUIRE) == 0 )
      {
         raw_futex(&threads[id]->go, FUTEX_WAIT_PRIVATE, 0);
      }
      __atomic_store_n(&threads[id]->go, 0, __ATOMIC_RELAXED);
   }

   int choose()
   {
      int runnable = 0;
      for ( int i = 0; i < n_threads; ++i )
      {
         runnable += threads[i]->state == Run;
      }
      if ( runnable == 0 )
      {
         say("SCHED-DEADLOCK\n");
         _exit(97);
      }
      if ( mode == 'p' )
      {
         int best = -1;
         for ( int i = 0; i < n_threads; ++i )
         {
            if ( threads[i]->state == Run && (best < 0 || threads[i]->priority > threads[best]->priority) )
            {
               best = i;
            }
         }
         return best;
      }
      int k = static_cast<int>(random64() % static_cast<uint64_t>(runnable));
      for ( int i = 0; i < n_threads; ++i )
      {
         if ( threads[i]->state == Run && k-- == 0 )
         {
            return i;
         }
      }
      return -1;
   }

   /// pass the token to a thread that can run; returns when this thread has got it again
   void reschedule(bool finished = false)
   {
      const int next = choose();
      if ( next == current && !finished )
      {
         return;
      }
      ++switches;
      const int me = current;
      current = next;
      __atomic_store_n(&threads[next]->go, 1, __ATOMIC_RELEASE);
      raw_futex(&threads[next]->go, FUTEX_WAKE_PRIVATE, 1);
      if ( !finished )
      {
         wait_for_token(me);
      }
   }

   inline void point()
   {
      if ( self < 0 || !on )
      {
         return;
      }
      if ( ++steps > limit )
      {
         say("SCHED-LIVELOCK\n");
         _exit(98);
      }
      if ( --countdown > 0 )
      {
         return;
      }
      draw();
      if ( mode == 'p' )
      {
         static long low = 0;
         threads[current]->priority = --low;
      }
      reschedule();
   }

   /// points at synchronization operations: switch more often
   void sync_point()
   {
      if ( self < 0 || !on )
      {
         return;
      }
      point();
      if ( mode == 'r' )
      {
         if ( random64() % 2 == 0 )
         {
            reschedule();
         }
      }
      else
      {
         reschedule();
      }
   }

   void block(State s, const void* on_)
   {
      threads[self]->state = s;
      threads[self]->on = on_;
      reschedule();
   }

   void wake(State s, const void* on_)
   {
      for ( int i = 0; i < n_threads; ++i )
      {
         if ( threads[i]->state == s && threads[i]->on == on_ )
         {
            threads[i]->state = Run;
         }
      }
   }

   template <typename F>
   F real(const char* name)
   {
      return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
   }

   long new_priority()
   {
      return 1 + static_cast<long>(random64() % 1000000);
   }

   __attribute__((constructor(101))) void start()
   {
      const char* s = getenv("SCHED");
      if ( s == nullptr )
      {
         return;
      }
      unsigned long long seed = 1;
      sscanf(s, "%llu %c %ld %ld", &seed, &mode, &parameter, &spurious);
      rng = (seed + 1) * 0x9E3779B97F4A7C15ull;
      for ( int i = 0; i < 5; ++i ) random64();
      if ( parameter < 1 ) parameter = 1;
      threads[0] = new Thread;
      n_threads = 1;
      threads[0]->priority = new_priority();
      self = 0;
      current = 0;
      draw();
      on = true;
   }

   void* trampoline(void* p)
   {
      const int id = static_cast<int>(reinterpret_cast<intptr_t>(p));
      self = id;
      wait_for_token(id);
      void* r = threads[id]->fn(threads[id]->arg);
      threads[id]->state = Done;
      for ( int i = 0; i < n_threads; ++i )
      {
         if ( threads[i]->state == Join && threads[i]->join == id )
         {
            threads[i]->state = Run;
         }
      }
      self = -1;
      reschedule(true);
      return r;
   }

   bool recursive(pthread_mutex_t* m)
   {
      return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
   }

   void lock(pthread_mutex_t* m)
   {
      while ( true )
      {
         Lock& l = locks()[m];
         if ( l.owner < 0 )
         {
            l.owner = self;
            l.count = 1;
            return;
         }
         if ( l.owner == self && recursive(m) )
         {
            ++l.count;
            return;
         }
         block(Mutex, m);
      }
   }

   void unlock(pthread_mutex_t* m)
   {
      Lock& l = locks()[m];
      if ( --l.count > 0 )
      {
         return;
      }
      l.owner = -1;
      l.count = 0;
      wake(Mutex, m);
   }

   int wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
   {
      sync_point();
      threads[self]->signalled = false;
      unlock(m);
      const bool wakes = timed || (spurious > 0 && random64() % static_cast<uint64_t>(spurious) == 0);
      if ( wakes )
      {
         if ( mode == 'p' )
         {
            threads[self]->priority = -static_cast<long>(steps) - 1;
         }
         reschedule();
      }
      else
      {
         block(Cond, c);
      }
      lock(m);
      return ( timed && !threads[self]->signalled ) ? ETIMEDOUT : 0;
   }

   void yields()
   {
      if ( self < 0 || !on )
      {
         return;
      }
      if ( ++steps > limit )
      {
         say("SCHED-LIVELOCK\n");
         _exit(98);
      }
      if ( mode == 'p' )
      {
         threads[self]->priority = -static_cast<long>(steps) - 1000000000;
      }
      reschedule();
   }
}

#define PASS(name, type, ...) if ( self < 0 || !on ) { static auto f = real<type>(name); return f(__VA_ARGS__); }

extern "C"
{
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
   if ( self < 0 || !on ) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
   sync_point();
   lock(m);
   return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
   if ( self < 0 || !on ) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
   sync_point();
   Lock& l = locks()[m];
   if ( l.owner >= 0 && !(l.owner == self && recursive(m)) )
   {
      yields();
      return EBUSY;
   }
   lock(m);
   return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
   if ( self < 0 || !on ) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
   unlock(m);
   sync_point();
   return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
   PASS("pthread_cond_wait", int (*)(pthread_cond_t*, pthread_mutex_t*), c, m)
   return wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
   PASS("pthread_cond_timedwait", int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*), c, m, t)
   return wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
   PASS("pthread_cond_clockwait", int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*), c, m, k, t)
   return wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
   PASS("pthread_cond_signal", int (*)(pthread_cond_t*), c)
   sync_point();
   int waiting = 0;
   for ( int i = 0; i < n_threads; ++i )
   {
      waiting += threads[i]->state == Cond && threads[i]->on == c;
   }
   if ( waiting > 0 )
   {
      int k = static_cast<int>(random64() % static_cast<uint64_t>(waiting));
      for ( int i = 0; i < n_threads; ++i )
      {
         if ( threads[i]->state == Cond && threads[i]->on == c && k-- == 0 )
         {
            threads[i]->state = Run;
            threads[i]->signalled = true;
         }
      }
   }
   return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
   PASS("pthread_cond_broadcast", int (*)(pthread_cond_t*), c)
   sync_point();
   for ( int i = 0; i < n_threads; ++i )
   {
      if ( threads[i]->state == Cond && threads[i]->on == c )
      {
         threads[i]->state = Run;
         threads[i]->signalled = true;
      }
   }
   return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
{
   static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
   if ( self < 0 || !on )
   {
      return f(h, a, fn, arg);
   }
   if ( n_threads >= 4096 )
   {
      return EAGAIN;
   }
   const int id = n_threads;
   auto* t = new Thread;
   t->fn = fn;
   t->arg = arg;
   t->priority = new_priority();
   threads[id] = t;
   const int r = f(h, a, trampoline, reinterpret_cast<void*>(static_cast<intptr_t>(id)));
   if ( r != 0 )
   {
      return r;
   }
   t->handle = *h;
   ++n_threads;
   sync_point();
   return 0;
}
int pthread_join(pthread_t h, void** r)
{
   static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
   if ( self < 0 || !on )
   {
      return f(h, r);
   }
   sync_point();
   for ( int i = n_threads - 1; i >= 0; --i )
   {
      if ( pthread_equal(threads[i]->handle, h) && i != 0 )
      {
         while ( threads[i]->state != Done )
         {
            threads[self]->join = i;
            block(Join, nullptr);
         }
         threads[i]->handle = pthread_t{};
         break;
      }
   }
   return f(h, r);
}
int pthread_once(pthread_once_t* c, void (*fn)())
{
   PASS("pthread_once", int (*)(pthread_once_t*, void (*)()), c, fn)
   sync_point();
   static auto* running = new std::map<const void*, int>;
   while ( *c != 2 )
   {
      if ( (*running)[c] == 0 )
      {
         (*running)[c] = 1;
         try
         {
            fn();
         }
         catch ( ... )
         {
            (*running)[c] = 0;
            wake(Futex, c);
            throw;
         }
         (*running)[c] = 0;
         *c = 2;
         wake(Futex, c);
         break;
      }
      block(Futex, c);
   }
   return 0;
}
long syscall(long n, ...) noexcept
{
   va_list ap;
   va_start(ap, n);
   long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), g = va_arg(ap, long);
   va_end(ap);
   static auto f = real<long (*)(long, ...)>("syscall");
   if ( n != SYS_futex || self < 0 || !on )
   {
      return f(n, a, b, c, d, e, g);
   }
   const int op = static_cast<int>(b) & 0x7f;
   if ( op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET )
   {
      sync_point();
      if ( __atomic_load_n(reinterpret_cast<int*>(a), __ATOMIC_SEQ_CST) != static_cast<int>(c) )
      {
         errno = EAGAIN;
         return -1;
      }
      if ( d != 0 )
      {
         yields();
         errno = ETIMEDOUT;
         return -1;
      }
      block(Futex, reinterpret_cast<void*>(a));
      return 0;
   }
   if ( op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET )
   {
      wake(Futex, reinterpret_cast<void*>(a));
      sync_point();
      return 1;
   }
   return f(n, a, b, c, d, e, g);
}
int sched_yield() noexcept
{
   PASS("sched_yield", int (*)())
   yields();
   return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
   PASS("nanosleep", int (*)(const struct timespec*, struct timespec*), a, b)
   yields();
   return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b)
{
   PASS("clock_nanosleep", int (*)(clockid_t, int, const struct timespec*, struct timespec*), k, fl, a, b)
   yields();
   return 0;
}
int usleep(useconds_t u)
{
   PASS("usleep", int (*)(useconds_t), u)
   yields();
   return 0;
}
// streams are written piece by piece: a switch is possible before each piece
size_t fwrite(const void* p, size_t s, size_t n, FILE* f)
{
   static auto r = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
   sync_point();
   return r(p, s, n, f);
}
int putc(int c, FILE* f)
{
   static auto r = real<int (*)(int, FILE*)>("putc");
   sync_point();
   return r(c, f);
}
int fflush(FILE* f)
{
   static auto r = real<int (*)(FILE*)>("fflush");
   sync_point();
   return r(f);
}

// ---- what the instrumentation of the compiler calls
void __tsan_init() {}
void __tsan_func_entry(void*) { point(); }
void __tsan_func_exit() {}
#define ACCESS(n) void __tsan_read##n(void*) { point(); } void __tsan_write##n(void*) { point(); } \
   void __tsan_unaligned_read##n(void*) { point(); } void __tsan_unaligned_write##n(void*) { point(); } void __tsan_read_write##n(void*) { point(); } \
   void __tsan_unaligned_read_write##n(void*) { point(); } void __tsan_volatile_read##n(void*) { point(); } void __tsan_volatile_write##n(void*) { point(); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void*, unsigned long) { point(); }
void __tsan_write_range(void*, unsigned long) { point(); }
void __tsan_vptr_update(void**, void*) { point(); }
void __tsan_vptr_read(void**) { point(); }
void* __tsan_memcpy(void* a, const void* b, unsigned long n) { point(); return memcpy(a, b, n); }
void* __tsan_memmove(void* a, const void* b, unsigned long n) { point(); return memmove(a, b, n); }
void* __tsan_memset(void* a, int b, unsigned long n) { point(); return memset(a, b, n); }
#define ATOMIC(n, T) \
   T __tsan_atomic##n##_load(const volatile T* p, int) { point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
   void __tsan_atomic##n##_store(volatile T* p, T v, int) { point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { point(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { point(); return __atomic_compare_exchange_n(p, e, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { point(); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
}

namespace
{
   struct Report
   {
      ~Report()
      {
         if ( on && getenv("SCHED_STATS") != nullptr )
         {
            fprintf(stderr, "SCHED-STATS %d threads %llu points %llu switches\n", n_threads, (unsigned long long)steps, (unsigned long long)switches);
         }
      }
   } report;
}
