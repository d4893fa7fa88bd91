// C10: variants of many alternatives
#include "vf.hpp"
#include <boost/hana.hpp>
#include <boost/mp11/algorithm.hpp>
#include <nbdl/bind_variant.hpp>
#include <nbdl/match.hpp>
#include <nbdl/tags.hpp>
#include <nbdl/variant.hpp>

namespace hana = boost::hana;

// variants with more alternatives than a signed byte can count
namespace t
{
  template <std::size_t i> struct alt { int v = -1; friend bool operator==(alt const&, alt const&) = default; };
  template <typename I> struct many_of;
  template <std::size_t ...i> struct many_of<std::index_sequence<i...>> { using type = nbdl::variant<alt<i>...>; };
  constexpr std::size_t MANY = 130;
  using many = typename many_of<std::make_index_sequence<MANY>>::type;
}
using namespace t;
VF_PROP(many_alternatives, 400, 8000)
{
  many v[2];
  int kind[2] = {0, 0}, val[2] = {0, 0};
  std::size_t steps = 1 + s.size(8);
  s.nontrivial(steps > 1);
  while (steps--)
  {
    std::size_t i = s.choose(2);
    int id = s.chance(30) ? s.pick({0, 1, 126, 127, 128, 129, 254, 130, 131, 132, 255, 256, 257, 32768, 65536, -1, -128}) : static_cast<int>(s.range(1, MANY));
    int x = static_cast<int>(s.upto(2));
    s.note(i, id, x);
    switch (s.choose(3))
    {
      case 0:
      {
        int n = 0;
        nbdl::bind_variant(id, v[i], [&](int given, auto& ...y) { n++; s.equal(given, id, "type id"); ((s.equal(y.v, -1, "a fresh value"), y.v = x), ...); });
        bool in = id >= 0 && id <= static_cast<int>(MANY);
        s.equal(n, int(in), "bind by type id");
        if (in) { kind[i] = id; val[i] = x; }
        break;
      }
      case 1: v[i] = v[1 - i]; kind[i] = kind[1 - i]; val[i] = val[1 - i]; break;
      default:
        if (id >= 1 && id <= static_cast<int>(MANY))
        {
          boost::mp11::mp_with_index<MANY>(static_cast<std::size_t>(id - 1), [&](auto k) { v[i] = alt<decltype(k)::value>{x}; });
          kind[i] = id; val[i] = x;
        }
    }
    for (std::size_t k = 0; k < 2; k++)
    {
      int n = 0;
      s.equal(v[k].get_type_id(), kind[k], "type id");
      nbdl::match(v[k], [&](auto const& y) { n++; if constexpr (requires { y.v; }) s.equal(y.v, val[k], "value"); });
      nbdl::match(v[k], nbdl::match_when<alt<128>>([&](auto const&) { n += 10; }));
      s.equal(n, kind[k] == 129 ? 11 : 1, "visits");
      nbdl::bind_variant(v[k], [&](int got, auto const& ...) { s.equal(got, kind[k], "bound type id"); });
    }
    s.equal(static_cast<bool>(hana::equal(v[0], v[1])), kind[0] == kind[1] && (kind[0] == 0 || val[0] == val[1]), "equality");
  }
}
