// A stand-in for MPI on one machine that makes use of the freedom the standard gives to implementations.
// MPI_Init forks FAKEMPI_SIZE processes which share a table of messages.  FAKEMPI_SEED chooses
//  - when the data of a nonblocking send are read: at once, or any time until the request is completed,
//  - when a message becomes visible to probing,
//  - how often MPI_Test reports "not yet",
//  - small delays.
// Messages of one sender with one tag never overtake each other.  Everything the standard forbids (receiving into
// a buffer that is too small, messages that are never received, requests that are never completed, invalid ranks)
// is reported with "FAKE-MPI:" on stderr and exit status 78.
#include "mpi.h"

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
   constexpr int max_messages = 1 << 17;
   constexpr std::size_t max_bytes = std::size_t(1) << 28;
   struct Message
   {
      int source, target, tag, bytes;
      std::size_t offset;
      bool ready;             // data are there
      bool received;
      int hidden;             // number of probes that do not see it yet
   };
   struct Shared
   {
      pthread_mutex_t mutex;
      int count;
      int first[64];          // by target: messages before are received
      std::size_t used;
      std::atomic<long> sent, late, hidden, retests;
      Message messages[max_messages];
      char data[max_bytes];
   };
   struct Pending
   {
      int message;
      const void* buffer;
      int tests;              // number of tests that fail
      bool copied;
   };
   Shared* shared = nullptr;
   int rank = 0, size = 1;
   bool initialized = false, finalized = false;
   pid_t children[64];
   std::map<int, Pending> pending; // of this process, guarded by the shared mutex
   int next_request = 1;
   uint64_t state = 1;

   [[noreturn]] void fail(const char* what)
   {
      std::fprintf(stderr, "FAKE-MPI: rank %d: %s\n", rank, what);
      _exit(78);
   }

   struct Lock
   {
      Lock() { if ( !initialized || finalized ) { fail("call outside of MPI_Init ... MPI_Finalize"); } if ( pthread_mutex_lock(&shared->mutex) == EOWNERDEAD ) { fail("another process died"); } }
      ~Lock() { pthread_mutex_unlock(&shared->mutex); }
   };

   unsigned random(const unsigned n) // guarded by the shared mutex
   {
      state ^= state << 13;
      state ^= state >> 7;
      state ^= state << 17;
      return static_cast<unsigned>((state >> 11) % n);
   }

   void copy(Pending& p)
   {
      auto& m = shared->messages[p.message];
      if ( !p.copied )
      {
         if ( m.bytes > 0 )
         {
            std::memcpy(shared->data + m.offset, p.buffer, static_cast<std::size_t>(m.bytes));
         }
         p.copied = true;
         m.ready = true;
      }
   }

   void progress(const bool all)
   {
      for ( auto& p : pending )
      {
         if ( !p.second.copied && (all || random(3) == 0) )
         {
            copy(p.second);
         }
      }
   }

   // first message of that kind that is not received
   Message* find(const int source, const int tag)
   {
      auto& f = shared->first[rank];
      while ( f < shared->count && (shared->messages[f].target != rank || shared->messages[f].received) )
      {
         ++f;
      }
      for ( int i = f; i < shared->count; ++i )
      {
         auto& m = shared->messages[i];
         if ( m.target == rank && !m.received && (source == MPI_ANY_SOURCE || m.source == source) && (tag == MPI_ANY_TAG || m.tag == tag) )
         {
            return &m;
         }
      }
      return nullptr;
   }

   void fill(MPI_Status* status, const Message& m)
   {
      if ( status )
      {
         status->MPI_SOURCE = m.source;
         status->MPI_TAG = m.tag;
         status->MPI_ERROR = MPI_SUCCESS;
         status->count = m.bytes;
      }
   }

   void child_died(int)
   {
      for ( int i = 1; i < size; ++i )
      {
         int s = 0;
         if ( children[i] > 0 && waitpid(children[i], &s, WNOHANG) == children[i] )
         {
            children[i] = 0;
            if ( !WIFEXITED(s) || WEXITSTATUS(s) != 0 )
            {
               static const char t[] = "FAKE-MPI: a process failed\n";
               (void)!write(2, t, sizeof(t) - 1);
               _exit(WIFEXITED(s) && WEXITSTATUS(s) == 78 ? 78 : 77);
            }
         }
      }
   }

   void rest(const int round)
   {
      if ( round % 16 == 15 )
      {
         usleep(50);
      }
      else
      {
         sched_yield();
      }
   }
}

int MPI_Init(int*, char***)
{
   if ( initialized ) { fail("MPI_Init called twice"); }
   const char* n = std::getenv("FAKEMPI_SIZE");
   const char* s = std::getenv("FAKEMPI_SEED");
   size = n ? std::atoi(n) : 1;
   state = 0x9E3779B97F4A7C15ull * (1 + static_cast<uint64_t>(s ? std::atoll(s) : 0)) + 77;
   shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
   if ( shared == MAP_FAILED ) { fail("no memory"); }
   pthread_mutexattr_t a;
   pthread_mutexattr_init(&a);
   pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
   pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
   pthread_mutex_init(&shared->mutex, &a);
   std::fflush(stdout);
   std::fflush(stderr);
   struct sigaction act;
   std::memset(&act, 0, sizeof(act));
   act.sa_handler = child_died;
   act.sa_flags = SA_RESTART | SA_NOCLDSTOP;
   sigaction(SIGCHLD, &act, nullptr);
   const pid_t parent = getpid();
   for ( int i = 1; i < size; ++i )
   {
      const pid_t p = fork();
      if ( p < 0 ) { fail("fork"); }
      if ( p == 0 )
      {
         prctl(PR_SET_PDEATHSIG, SIGKILL);
         if ( getppid() != parent ) { _exit(0); }
         signal(SIGCHLD, SIG_DFL);
         rank = i;
         std::memset(children, 0, sizeof(children));
         state += 0x1234567 * static_cast<uint64_t>(i) + 1;
         break;
      }
      children[i] = p;
   }
   for ( int i = 0; i < 20; ++i ) { random(2); }
   initialized = true;
   if ( rank == 0 ) { child_died(0); }
   return MPI_SUCCESS;
}

int MPI_Finalize()
{
   {
      Lock lock;
      for ( auto& p : pending )
      {
         (void)p;
         fail("a request is not completed before MPI_Finalize");
      }
      if ( find(MPI_ANY_SOURCE, MPI_ANY_TAG) ) { fail("a message is not received before MPI_Finalize"); }
      finalized = true;
   }
   if ( rank == 0 )
   {
      sigset_t set;
      sigemptyset(&set);
      sigaddset(&set, SIGCHLD);
      sigprocmask(SIG_BLOCK, &set, nullptr);
      for ( int i = 1; i < size; ++i )
      {
         int s = 0;
         if ( children[i] > 0 && waitpid(children[i], &s, 0) == children[i] )
         {
            children[i] = 0;
            if ( !WIFEXITED(s) || WEXITSTATUS(s) != 0 )
            {
               std::fprintf(stderr, "FAKE-MPI: a process failed\n");
               _exit(77);
            }
         }
      }
      // messages to processes that ended before
      for ( int i = 0; i < shared->count; ++i )
      {
         if ( !shared->messages[i].received ) { fail("a message is never received"); }
      }
      std::fprintf(stderr, "FAKE-MPI-STATS: %d messages, %ld copied late, %ld hidden, %ld tests failed\n", shared->count, shared->late.load(), shared->hidden.load(), shared->retests.load());
   }
   return MPI_SUCCESS;
}

int MPI_Comm_rank(MPI_Comm, int* r) { *r = rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = size; return MPI_SUCCESS; }

int MPI_Isend(const void* buffer, int bytes, MPI_Datatype type, int target, int tag, MPI_Comm, MPI_Request* request)
{
   Lock lock;
   if ( type != MPI_BYTE || bytes < 0 || target < 0 || target >= size || tag < 0 ) { fail("invalid arguments of MPI_Isend"); }
   if ( shared->count == max_messages || shared->used + static_cast<std::size_t>(bytes) > max_bytes ) { fail("(stand-in) too many messages"); }
   auto& m = shared->messages[shared->count];
   m = Message{rank, target, tag, bytes, shared->used, false, false, random(4) == 0 ? static_cast<int>(random(20)) : 0};
   shared->used += (static_cast<std::size_t>(bytes) + 15) & ~std::size_t(15);
   Pending p{shared->count, buffer, random(3) == 0 ? static_cast<int>(random(6)) : 0, false};
   ++shared->count;
   ++shared->sent;
   if ( random(2) == 0 ) { copy(p); } else { ++shared->late; }
   *request = next_request++;
   pending[*request] = p;
   return MPI_SUCCESS;
}

int MPI_Test(MPI_Request* request, int* flag, MPI_Status* status)
{
   Lock lock;
   *flag = 0;
   if ( *request == MPI_REQUEST_NULL ) { *flag = 1; return MPI_SUCCESS; }
   const auto it = pending.find(*request);
   if ( it == pending.end() ) { fail("MPI_Test of an invalid request"); }
   progress(false);
   if ( it->second.tests-- > 0 )
   {
      ++shared->retests;
      return MPI_SUCCESS;
   }
   copy(it->second);
   fill(status, shared->messages[it->second.message]);
   pending.erase(it);
   *request = MPI_REQUEST_NULL;
   *flag = 1;
   return MPI_SUCCESS;
}

int MPI_Wait(MPI_Request* request, MPI_Status* status)
{
   int flag = 0;
   for ( int i = 0; !flag; ++i )
   {
      MPI_Test(request, &flag, status);
      rest(i);
   }
   return MPI_SUCCESS;
}

int MPI_Send(const void* buffer, int bytes, MPI_Datatype type, int target, int tag, MPI_Comm comm)
{
   MPI_Request request;
   MPI_Isend(buffer, bytes, type, target, tag, comm, &request);
   return MPI_Wait(&request, MPI_STATUS_IGNORE);
}

int MPI_Iprobe(int source, int tag, MPI_Comm, int* flag, MPI_Status* status)
{
   Lock lock;
   progress(false);
   *flag = 0;
   Message* m = find(source, tag);
   if ( m && m->hidden > 0 )
   {
      --m->hidden;
      ++shared->hidden;
      m = nullptr;
   }
   if ( m )
   {
      fill(status, *m);
      *flag = 1;
   }
   return MPI_SUCCESS;
}

int MPI_Probe(int source, int tag, MPI_Comm, MPI_Status* status)
{
   for ( int i = 0; true; ++i )
   {
      {
         Lock lock;
         progress(i > 3);
         Message* m = find(source, tag);
         if ( m ) { fill(status, *m); return MPI_SUCCESS; }
      }
      rest(i);
   }
}

int MPI_Recv(void* buffer, int bytes, MPI_Datatype type, int source, int tag, MPI_Comm, MPI_Status* status)
{
   for ( int i = 0; true; ++i )
   {
      {
         Lock lock;
         if ( type != MPI_BYTE || bytes < 0 || source < MPI_ANY_SOURCE || source >= size ) { fail("invalid arguments of MPI_Recv"); }
         progress(i > 3);
         Message* m = find(source, tag);
         if ( m && m->ready )
         {
            if ( m->bytes > bytes ) { fail("message truncated"); }
            if ( m->bytes > 0 ) { std::memcpy(buffer, shared->data + m->offset, static_cast<std::size_t>(m->bytes)); }
            m->received = true;
            fill(status, *m);
            return MPI_SUCCESS;
         }
      }
      rest(i);
   }
}

int MPI_Get_count(const MPI_Status* status, MPI_Datatype, int* count) { *count = status->count; return MPI_SUCCESS; }
