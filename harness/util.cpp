// Drives the small helpers.
//   util stream:  stdin: f|s, path or hex text, then operations; prints "result(hex) position" per operation ("throw" for an exception)
//   util scope:   stdin: a program of nested scopes (see props/c28.py); prints the log
#include <atomic>
#include <chrono>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "delayed_action.h"
#include "input_common.h"
#include "input_keywords.h"
#include "istream_peek_line.h"
#include "joining_thread.h"
#include "names.h"
#include "position_guarded_file.h"
#include "range.h"
#include "scope_guard.h"

using namespace panda;

// virtual time
static std::atomic<long long> now_ns(1000000000000000LL);
namespace std
{
   namespace chrono
   {
      inline namespace _V2
      {
         system_clock::time_point system_clock::now() noexcept { return time_point(duration(now_ns.load())); }
         steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(now_ns.load())); }
      }
   }
}

namespace
{
   std::string hex(const std::string& s)
   {
      static const char* d = "0123456789abcdef";
      std::string r = "x";
      for ( const char c : s )
      {
         r += d[(static_cast<unsigned char>(c)) >> 4];
         r += d[(static_cast<unsigned char>(c)) & 15];
      }
      return r;
   }
   std::string unhex(const std::string& s)
   {
      std::string r;
      for ( std::size_t i = 1; i + 1 < s.size(); i += 2 ) { r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)); }
      return r;
   }
   std::string word()
   {
      std::string s;
      std::cin >> s;
      return s;
   }

   int streams()
   {
      const auto kind = word();
      const auto text = word();
      std::ifstream file;
      std::istringstream string;
      if ( kind == "f" ) { file.open(text); }
      else { string.str(unhex(text)); }
      std::istream& s = (kind == "f") ? static_cast<std::istream&>(file) : string;
      for ( std::string op; std::cin >> op; )
      {
         std::string r;
         s.clear();
         try
         {
            if ( op == "isIdentifier" ) { r = input::isIdentifier(s) ? "1" : "0"; }
            else if ( op == "identifier" ) { r = hex(input::identifier(s)); }
            else if ( op == "isRelation" ) { r = input::isRelation(s) ? "1" : "0"; }
            else if ( op == "relationOperator" )
            {
               const auto o = input::relationOperator(s);
               r = (o == input::RelationOperator::GreaterEqual) ? "ge" : (o == input::RelationOperator::LessEqual) ? "le" : (o == input::RelationOperator::Equal) ? "eq" : "?";
            }
            else if ( op == "isEndOfFile" ) { r = input::isEndOfFile(s) ? "1" : "0"; }
            else if ( op == "isEndOfLine" ) { r = input::isEndOfLine(s) ? "1" : "0"; }
            else if ( op == "isWhitespace" ) { r = input::isWhitespace(s) ? "1" : "0"; }
            else if ( op == "skipEndOfLine" ) { input::skipEndOfLine(s); r = "."; }
            else if ( op == "skipWhitespace" ) { input::skipWhitespace(s); r = "."; }
            else if ( op == "peekLine" ) { r = hex(peekLine(s)); }
            else if ( op == "peekWord" ) { r = hex(input::peekWord(s)); }
            else if ( op == "containsNames" )
            {
               Names names;
               for ( int n = std::stoi(word()); n > 0; --n ) { names.push_back(unhex(word())); }
               r = input::containsNames(names, s) ? "1" : "0";
            }
            else if ( op == "next" )
            {
               std::string t;
               const bool ok = static_cast<bool>(input::advanceToNextKeyword(s, t));
               r = ok ? hex(t) : "end";
            }
            else if ( op == "get" ) { r = std::to_string(s.get()); }
            else if ( op == "getline" ) { std::string t; std::getline(s, t); r = hex(t); }
            else if ( op == "seek" ) { s.seekg(std::stol(word())); r = "."; }
            else if ( op == "containsKeywords" ) { r = (kind == "f") ? (input::implementation::containsKeywords(PositionGuardedFile(file)) ? "1" : "0") : "-"; }
            else if ( op == "guarded" )
            {
               const int n = std::stoi(word());
               if ( kind == "f" )
               {
                  PositionGuardedFile outer(file);
                  std::string t;
                  for ( int i = 0; i < n; ++i )
                  {
                     std::getline(outer.file, t);
                     const PositionGuardedFile inner(outer.file);
                     while ( inner.file.get() != std::char_traits<char>::eof() && i % 2 == 0 ) { }
                  }
                  r = n ? hex(t) : "x";
               }
               else { r = "-"; }
            }
            else if ( op == "trim" ) { r = hex(input::trimWhitespace(unhex(word()))); }
            else if ( op == "firstWord" ) { r = hex(input::firstWord(unhex(word()))); }
            else if ( op == "toInt" ) { r = std::to_string(input::toInt(unhex(word()))); }
            else { std::cerr << "HARNESS " << op << "\n"; return 9; }
         }
         catch ( const std::exception& )
         {
            r = "throw";
         }
         s.clear();
         std::cout << r << ' ' << s.tellg() << '\n';
      }
      return 0;
   }

   struct Node
   {
      std::string op;
      long long a = 0, b = 0;
      std::vector<Node> body;
   };
   std::vector<Node> block()
   {
      std::vector<Node> r;
      for ( std::string op = word(); op != "]"; op = word() )
      {
         if ( op.empty() ) { std::exit(9); }
         Node n;
         n.op = op;
         n.a = std::stoll(word());
         n.b = std::stoll(word());
         if ( op == "block" || op == "try" ) { n.body = block(); }
         r.push_back(n);
      }
      return r;
   }

   void log(const std::string& s) { std::cout << s << '\n'; }

   struct Log
   {
      long long k;
      std::shared_ptr<int> live;
      void operator()() const { log("run " + std::to_string(k) + (live && *live == 1 ? "" : " dead")); }
   };
   using Guard = ScopeGuard<Log>;
   using Delay = DelayedAction<Log>;
   struct Entry
   {
      Guard* guard;
      Delay* delay;
   };
   std::vector<Entry> entries;
   struct Boom { long long k; };

   /// true: return
   bool execute(const std::vector<Node>& b, std::size_t i)
   {
      for ( ; i < b.size(); ++i )
      {
         const Node& n = b[i];
         const Log f{n.a, std::make_shared<int>(1)};
         if ( n.op == "log" ) { log("log " + std::to_string(n.a)); }
         else if ( n.op == "wait" ) { now_ns += n.a; }
         else if ( n.op == "throw" ) { throw Boom{n.a}; }
         else if ( n.op == "return" ) { return true; }
         else if ( n.op == "block" ) { const auto mark = entries.size(); const bool r = execute(n.body, 0); entries.resize(mark); if ( r ) { return true; } }
         else if ( n.op == "try" )
         {
            const auto mark = entries.size();
            try { if ( execute(n.body, 0) ) { return true; } }
            catch ( const Boom& e ) { log("caught " + std::to_string(e.k)); }
            entries.resize(mark);
         }
         else if ( n.op == "dismiss" )
         {
            if ( !entries.empty() )
            {
               const auto e = entries[static_cast<std::size_t>(n.a) % entries.size()];
               if ( e.guard ) { e.guard->dismiss(); } else { e.delay->dismiss(); }
            }
         }
         else if ( n.op == "guard" )
         {
            auto g = makeScopeGuard(Log(f));
            entries.push_back({&g, nullptr});
            return execute(b, i + 1);
         }
         else if ( n.op == "delay" || n.op == "delayms" || n.op == "delays" )
         {
            auto g = (n.op == "delay") ? makeDelayedAction(Log(f), std::chrono::nanoseconds(n.b)) : (n.op == "delayms") ? makeDelayedAction(Log(f), std::chrono::milliseconds(n.b)) : makeDelayedAction(Log(f), std::chrono::seconds(n.b));
            entries.push_back({nullptr, &g});
            return execute(b, i + 1);
         }
         else if ( n.op == "move" )
         {
            if ( entries.empty() ) { continue; }
            const auto e = entries[static_cast<std::size_t>(n.a) % entries.size()];
            if ( e.guard )
            {
               Guard g(std::move(*e.guard));
               entries.push_back({&g, nullptr});
               return execute(b, i + 1);
            }
            Delay g(std::move(*e.delay));
            entries.push_back({nullptr, &g});
            return execute(b, i + 1);
         }
         else if ( n.op == "thread" )
         {
            std::atomic<int> done(0);
            bool r = false;
            std::exception_ptr p;
            try
            {
               const int yields = static_cast<int>(n.b);
               JoiningThread t([&done, yields](const int k) { for ( int j = 0; j < yields; ++j ) { std::this_thread::yield(); } done = k; }, static_cast<int>(n.a) + 1);
               JoiningThread u(std::move(t));
               r = execute(b, i + 1);
            }
            catch ( ... ) { p = std::current_exception(); }
            log(std::string(done == static_cast<int>(n.a) + 1 ? "joined " : "not joined ") + std::to_string(n.a));
            if ( p ) { std::rethrow_exception(p); }
            return r;
         }
         else if ( n.op == "reverse" )
         {
            std::vector<int> v;
            std::list<int> l;
            for ( int j = 0; j < n.a; ++j ) { v.push_back(j * static_cast<int>(n.b)); l.push_back(j); }
            std::string s = "reverse";
            for ( auto& x : makeReverseRange(v) ) { s += " " + std::to_string(x); x += 1; }
            for ( auto& x : makeReverseRange(l) ) { s += " " + std::to_string(x); x += 1; }
            for ( const auto x : v ) { s += " " + std::to_string(x); }
            for ( const auto x : l ) { s += " " + std::to_string(x); }
            const auto& cv = v;
            for ( const auto& x : makeReverseRange(cv) ) { s += " " + std::to_string(x); }
            log(s);
         }
         else { std::cerr << "HARNESS " << n.op << "\n"; std::exit(9); }
      }
      return false;
   }
}

int main(int, char** argv)
{
   if ( std::string(argv[1]) == "stream" ) { return streams(); }
   const auto program = block();
   try { log(execute(program, 0) ? "returned" : "end"); }
   catch ( const Boom& e ) { log("caught " + std::to_string(e.k)); }
}
