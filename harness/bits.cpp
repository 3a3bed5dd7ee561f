// Register machine over the bitset classes.  stdin: first line TYPE BITS, then commands, one answer line per query
//   z R        R = empty set            s R I     set bit          c R A   copy      v R A  move (A becomes empty)
//   m R A B M  R = A merged with B      e A B M   equals           k A B M contains  n A M  count
//   u A B M    count of the union       w A B C M union contains C
#include <algorithm>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>

#include "bitset_fixed_size.h"
#include "bitset_variable_size.h"
#include "range.h"

using namespace panda;

template <typename B>
int run(const std::size_t bits)
{
   std::vector<B> r(8, B(bits));
   std::string c;
   std::size_t a, b, d, m, i;
   while ( std::cin >> c )
   {
      switch ( c[0] )
      {
         case 'z': std::cin >> a; r[a] = B(bits); break;
         case 's': std::cin >> a >> i; r[a].set(i); break;
         case 'c': { std::cin >> a >> b; B x(r[b]); r[a] = x; break; }
         case 'v': { std::cin >> a >> b; B x(std::move(r[b])); r[b] = B(bits); r[a] = std::move(x); break; }
         case 'm': std::cin >> a >> b >> d >> m; r[a] = r[b].merge(r[d], m); break;
         case 'e': std::cin >> a >> b >> m; std::cout << r[a].equals(r[b], m) << '\n'; break;
         case 'k': std::cin >> a >> b >> m; std::cout << r[a].contains(r[b], m) << '\n'; break;
         case 'n': std::cin >> a >> m; std::cout << r[a].count(m) << '\n'; break;
         case 'u': std::cin >> a >> b >> m; std::cout << B::unionCount(r[a], r[b], m) << '\n'; break;
         case 'w': std::cin >> a >> b >> d >> m; std::cout << B::unionContains(r[a], r[b], r[d], m) << '\n'; break;
         default: return 2;
      }
   }
   std::cout << "end\n";
   return 0;
}

int main()
{
   std::size_t type, bits;
   std::cin >> type >> bits;
   switch ( type )
   {
      case 0: return run<BitsetVariableSize>(bits);
      case 1: return run<BitsetFixedSize<1>>(bits);
      case 2: return run<BitsetFixedSize<2>>(bits);
      case 3: return run<BitsetFixedSize<3>>(bits);
      case 4: return run<BitsetFixedSize<4>>(bits);
      case 6: return run<BitsetFixedSize<6>>(bits);
      case 12: return run<BitsetFixedSize<12>>(bits);
      case 40: return run<BitsetFixedSize<40>>(bits);
   }
   return 2;
}
