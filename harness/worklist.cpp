// Drives the shared work list (JobManager / List) with an arbitrary graph instead of a polyhedron.
//   stdin: class(l|j) tag(v|f) threads nodes  names(0|1)  setup(0: initial rows before the threads, 1: before the last thread)
//          initial: k nodes...   asynchronous: k nodes...   for each node: k neighbours... (with repetitions)
// Node n is the row  (n+1, n % 3, -n).  At the end the nodes that each thread got are written to stderr: GOT thread node.
#include <cstdint>
#include <iostream>
#include <list>
#include <string>
#include <thread>
#include <vector>

#include "job_manager.h"
#include "joining_thread.h"
#include "list.h"
#include "tags.h"

using namespace panda;

namespace
{
   int next()
   {
      int v = 0;
      if ( !(std::cin >> v) ) { std::cerr << "HARNESS input\n"; std::exit(9); }
      return v;
   }
   std::vector<int> nodes()
   {
      std::vector<int> r(static_cast<std::size_t>(next()));
      for ( auto& x : r ) { x = next(); }
      return r;
   }
   Row<int> toRow(const int n) { return Row<int>{n + 1, n % 3, -n}; }
   Matrix<int> toMatrix(const std::vector<int>& v)
   {
      Matrix<int> m;
      for ( const auto n : v ) { m.push_back(toRow(n)); }
      return m;
   }

   template <typename Manager>
   void run(Manager& manager, const int threads, const int setup, const std::vector<int>& initial, const std::vector<int>& async, const std::vector<std::vector<int>>& graph)
   {
      std::vector<std::vector<int>> got(static_cast<std::size_t>(threads));
      if ( setup == 0 ) { manager.put(toMatrix(initial)); }
      {
         std::list<JoiningThread> pool;
         const auto work = [&](const int t)
         {
            pool.emplace_front([&, t]()
            {
               while ( true )
               {
                  const auto job = manager.get();
                  if ( job.empty() ) { break; }
                  got[static_cast<std::size_t>(t)].push_back(job[0] - 1);
                  manager.put(toMatrix(graph[static_cast<std::size_t>(job[0] - 1)]));
               }
            });
         };
         int t = 0;
         if ( setup == 1 ) // as in the distributed version: workers for other processes wait before the initial rows are there
         {
            for ( ; t + 1 < threads; ++t ) { work(t); }
            manager.put(toMatrix(initial));
         }
         for ( ; t < threads; ++t ) { work(t); }
         if ( !async.empty() )
         {
            pool.emplace_front([&]() { for ( const auto n : async ) { manager.put(toRow(n)); } });
         }
      }
      std::string s;
      for ( int t = 0; t < threads; ++t )
      {
         for ( const auto n : got[static_cast<std::size_t>(t)] ) { s += "GOT " + std::to_string(t) + " " + std::to_string(n) + "\n"; }
      }
      std::cerr << s << "END\n";
   }

   template <typename Tag>
   void select(const char cls, const Names& names, const int threads, const int setup, const std::vector<int>& initial, const std::vector<int>& async, const std::vector<std::vector<int>>& graph)
   {
      if ( cls == 'j' )
      {
         JobManager<int, Tag> m(names, 1, threads);
         run(m, threads, setup, initial, async, graph);
      }
      else
      {
         List<int, Tag> m(names);
         run(m, threads, setup, initial, async, graph);
      }
   }
}

int main()
{
   char cls = 0, tag = 0;
   std::cin >> cls >> tag;
   const int threads = next();
   const int n = next();
   const Names names = next() ? Names{"a", "b"} : Names{};
   const int setup = next();
   const auto initial = nodes();
   const auto async = nodes();
   std::vector<std::vector<int>> graph;
   for ( int i = 0; i < n; ++i ) { graph.push_back(nodes()); }
   if ( tag == 'f' ) { select<tag::facet>(cls, names, threads, setup, initial, async, graph); }
   else { select<tag::vertex>(cls, names, threads, setup, initial, async, graph); }
}
