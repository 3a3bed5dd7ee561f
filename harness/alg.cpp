// Calls single algorithms of the library on data from stdin (whitespace separated), prints results.
//   alg TYPE, then commands:  NAME args...
//   matrix: rows cols entries     row: n entries     maps: n (k (t (index factor)*t)*k)*n
#include <algorithm>
#include <cstdint>
#include <exception>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "algorithm_classes.h"
#include "algorithm_fourier_motzkin_elimination.h"
#include "algorithm_inequality_operations.h"
#include "algorithm_integer_operations.h"
#include "algorithm_map_operations.h"
#include "algorithm_matrix_operations.h"
#include "algorithm_rotation.h"
#include "algorithm_row_operations.h"
#include "big_integer.h"
#include "cast.h"
#include "safe_integer.h"

using namespace panda;

template <typename T>
T number(const long long v)
{
   return T(static_cast<int>(v));
}
template <>
int16_t number<int16_t>(const long long v)
{
   return static_cast<int16_t>(v);
}
template <>
int64_t number<int64_t>(const long long v)
{
   return v;
}

template <typename T>
std::string show(const T& v)
{
   return std::to_string(static_cast<int>(v));
}
template <>
std::string show(const int64_t& v)
{
   return std::to_string(v);
}

long long next()
{
   long long v = 0;
   if ( !(std::cin >> v) )
   {
      throw std::runtime_error("input of the harness");
   }
   return v;
}

template <typename T>
Row<T> row()
{
   const auto n = next();
   Row<T> r;
   for ( long long i = 0; i < n; ++i )
   {
      r.push_back(number<T>(next()));
   }
   return r;
}

template <typename T>
Matrix<T> matrix()
{
   const auto n = next();
   const auto m = next();
   Matrix<T> r(static_cast<std::size_t>(n));
   for ( auto& x : r )
   {
      for ( long long i = 0; i < m; ++i )
      {
         x.push_back(number<T>(next()));
      }
   }
   return r;
}

Maps maps()
{
   Maps r(static_cast<std::size_t>(next()));
   for ( auto& map : r )
   {
      map.resize(static_cast<std::size_t>(next()));
      for ( auto& image : map )
      {
         const auto t = next();
         for ( long long i = 0; i < t; ++i )
         {
            const auto index = static_cast<std::size_t>(next());
            const auto factor = static_cast<int>(next());
            image.push_back(std::make_pair(index, factor));
         }
      }
   }
   return r;
}

template <typename T>
void out(const Row<T>& r)
{
   std::cout << 'r';
   for ( const auto& x : r )
   {
      std::cout << ' ' << show(x);
   }
   std::cout << '\n';
}

template <typename C>
void outAll(const C& c)
{
   std::cout << "m " << c.size() << '\n';
   for ( const auto& r : c )
   {
      out(r);
   }
}

template <typename T>
void scalar(const T& v)
{
   std::cout << "v " << show(v) << '\n';
}

Names names()
{
   Names r;
   const auto n = next();
   for ( long long i = 0; i < n; ++i )
   {
      std::string s;
      std::cin >> s;
      r.push_back(s);
   }
   return r;
}

void text(const std::string& s)
{
   std::cout << "t " << std::count(s.cbegin(), s.cend(), '\n') << '\n' << s << '\n';
}

template <typename T, typename Tag>
bool tagged(const std::string& c, Tag tag)
{
   if ( c == "apply" ) { const auto m = maps(); const auto r = row<T>(); out(algorithm::apply(m[0], r, tag)); }
   else if ( c == "class" ) { const auto m = maps(); const auto r = row<T>(); outAll(algorithm::getClass(r, m, tag)); }
   else if ( c == "rep" ) { const auto m = maps(); const auto r = row<T>(); out(algorithm::classRepresentative(r, m, tag)); }
   else if ( c == "classes" ) { const auto m = maps(); const auto a = matrix<T>(); outAll(algorithm::classes(a, m, tag)); }
   else if ( c == "rotation" ) { const auto m = maps(); const auto a = matrix<T>(); const auto r = row<T>(); outAll(algorithm::rotation(a, r, m, tag)); }
   else { return false; }
   return true;
}

// numbers of up to 64 bits (16, 32: of the type)
template <typename T>
Row<T> wide()
{
   const auto n = next();
   Row<T> r;
   for ( long long i = 0; i < n; ++i )
   {
      r.push_back(T(static_cast<int64_t>(next())));
   }
   return r;
}

// conversions between int and T; 'x' for an exception
template <typename T>
struct Cast
{
   static bool run(const std::string& c)
   {
      try
      {
         if ( c == "castto" ) { const auto r = wide<T>(); out(panda::cast<int>(r)); }
         else if ( c == "casttom" ) { const auto n = next(); Matrix<T> m; for ( long long i = 0; i < n; ++i ) { m.push_back(wide<T>()); } outAll(panda::cast<int>(m)); }
         else if ( c == "castfrom" ) { const auto r = row<int>(); out(panda::cast<T>(r)); }
         else { return false; }
      }
      catch ( const std::exception& e ) { std::cout << "x\n"; }
      return true;
   }
};
template <>
struct Cast<int>
{
   static bool run(const std::string&) { return false; }
};

template <typename Function>
void guarded(const Function& f)
{
   try
   {
      std::ostringstream s;
      f(s);
      text(s.str());
   }
   catch ( const std::exception& e )
   {
      std::cout << "x\n";
   }
}

template <typename T>
void command(const std::string& c)
{
   std::ostringstream s;
   if ( c == "dim" ) { std::cout << "v " << algorithm::dimension(matrix<T>()) << '\n'; }
   else if ( c == "eqs" ) { outAll(algorithm::extractEquations(matrix<T>())); }
   else if ( c == "transpose" ) { outAll(algorithm::transpose(matrix<T>())); }
   else if ( c == "mulv" ) { const auto m = matrix<T>(); const auto r = row<T>(); out(m * r); }
   else if ( c == "add" ) { const auto a = row<T>(); const auto b = row<T>(); out(a + b); auto x = a; x += b; out(x); }
   else if ( c == "sub" ) { const auto a = row<T>(); const auto b = row<T>(); out(a - b); auto x = a; x -= b; out(x); }
   else if ( c == "scale" ) { const auto a = row<T>(); const T f = number<T>(next()); out(a * f); out(f * a); auto x = a; x *= f; out(x); }
   else if ( c == "div" ) { const auto a = row<T>(); const T f = number<T>(next()); out(a / f); auto x = a; x /= f; out(x); }
   else if ( c == "dot" ) { const auto a = row<T>(); const auto b = row<T>(); const T v = a * b; scalar(v); }
   else if ( c == "gcd" ) { scalar(algorithm::gcd(row<T>())); }
   else if ( c == "lcm" ) { scalar(algorithm::lcm(row<T>())); }
   else if ( c == "gcd2" ) { const T a = number<T>(next()); const T b = number<T>(next()); scalar(algorithm::gcd(a, b)); }
   else if ( c == "lcm2" ) { const T a = number<T>(next()); const T b = number<T>(next()); scalar(algorithm::lcm(a, b)); }
   else if ( c == "norm" ) { const auto r = row<T>(); const auto e = matrix<T>(); out(algorithm::normalize(r, e)); }
   else if ( c == "distance" ) { const auto a = row<T>(); const auto b = row<T>(); scalar(algorithm::distance(a, b)); scalar(algorithm::rhs(a)); }
   else if ( c == "extreme" ) { const auto m = matrix<T>(); const auto a = row<T>(); out(algorithm::furthestVertex(m, a)); out(algorithm::nearestVertex(m, a)); }
   else if ( c == "fme" ) { outAll(algorithm::fourierMotzkinElimination(matrix<T>())); }
   else if ( c == "heuristic" ) { outAll(algorithm::fourierMotzkinEliminationHeuristic(matrix<T>())); }
   else if ( c == "print" ) { s << row<T>(); text(s.str()); }
   else if ( c == "printm" ) { s << matrix<T>(); text(s.str()); }
   else if ( c == "pretty" )
   {
      const auto r = row<T>();
      const auto n = names();
      std::string rel;
      std::cin >> rel;
      algorithm::prettyPrint(s, r, n, rel.c_str());
      s << '\n';
      algorithm::prettyPrintln(s, r, n, rel.c_str());
      text(s.str());
   }
   else if ( Cast<T>::run(c) ) {}
   else if ( c == "printw" ) { const auto r = wide<T>(); guarded([&](std::ostream& o) { o << r; }); }
   else if ( c == "fracw" ) { const auto r = wide<T>(); guarded([&](std::ostream& o) { algorithm::printFractional(o, r); }); }
   else if ( c == "prettyw" )
   {
      const auto r = wide<T>();
      const auto n = names();
      std::string rel;
      std::cin >> rel;
      guarded([&](std::ostream& o) { algorithm::prettyPrint(o, r, n, rel.c_str()); o << '\n'; algorithm::prettyPrintln(o, r, n, rel.c_str()); });
   }
   else if ( c == "prettymw" )
   {
      const auto k = next();
      Matrix<T> m;
      for ( long long i = 0; i < k; ++i ) { m.push_back(wide<T>()); }
      const auto n = names();
      std::string rel;
      std::cin >> rel;
      guarded([&](std::ostream& o) { algorithm::prettyPrint(o, m, n, rel.c_str()); });
   }
   else if ( c == "frac" ) { algorithm::printFractional(s, row<T>()); text(s.str()); }
   else if ( c == "normmaps" )
   {
      const auto m = maps();
      const auto e = matrix<T>();
      for ( const auto& map : algorithm::normalize(m, e) )
      {
         std::cout << "p " << map.size();
         for ( const auto& image : map )
         {
            std::cout << ' ' << image.size();
            for ( const auto& term : image )
            {
               std::cout << ' ' << term.first << ' ' << term.second;
            }
         }
         std::cout << '\n';
      }
   }
   else if ( c.size() > 2 && c.substr(c.size() - 2) == ":f" && tagged<T>(c.substr(0, c.size() - 2), tag::facet{}) ) {}
   else if ( c.size() > 2 && c.substr(c.size() - 2) == ":v" && tagged<T>(c.substr(0, c.size() - 2), tag::vertex{}) ) {}
   else { throw std::runtime_error("unknown command " + c); }
}

template <typename T>
int run()
{
   std::string c;
   while ( std::cin >> c )
   {
      command<T>(c);
   }
   std::cout << "end\n";
   return 0;
}

int main(int, char** argv)
try
{
   const std::string type = argv[1];
   if ( type == "16" ) return run<int16_t>();
   if ( type == "32" ) return run<int32_t>();
   if ( type == "64" ) return run<int64_t>();
   if ( type == "safe" ) return run<SafeInteger>();
   return run<BigInteger>();
}
catch ( const std::exception& e )
{
   std::cout << "exception " << e.what() << '\n';
   return 3;
}
