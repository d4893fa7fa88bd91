// C23: views of texts that are put together, nested in any way
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/concept/String.hpp>
#include <nbdl/detail/string_concat_view.hpp>
#include <nbdl/string.hpp>
#include <deque>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace hana = boost::hana;
namespace nd = nbdl::detail;

namespace
{
  struct built { nd::string_concat_view view; std::string want; };

  std::string text(vf::Src& s)
  {
    std::string x = s.chance(15) ? std::string() : s.text_of("ab", s.chance(10) ? 70 : 5);
    if (s.chance(10)) x += std::string(1, '\0') + "c";
    return x;
  }

  // the texts live in `kept`, which never moves its elements
  built leaf(vf::Src& s, std::deque<std::string>& kept)
  {
    kept.push_back(text(s));
    std::string const& t = kept.back();
    switch (s.choose(5))
    {
      case 0: return {nd::to_string_concat_view(t), t};
      case 1: return {nd::to_string_concat_view(std::reference_wrapper<std::string const>(t)), t};
      case 2: return {nd::to_string_concat_view(hana::string<'f', 'o', 'o'>{}), "foo"};
      case 3: return {nd::to_string_concat_view(hana::string<>{}), ""};
      default: return {nd::string_concat_view{std::string_view(t)}, t};
    }
  }

  built any(vf::Src& s, std::deque<std::string>& kept, int depth)
  {
    if (depth == 0 || s.chance(25)) return s.chance(10) ? built{} : leaf(s, kept);
    auto sub = [&] { return any(s, kept, depth - 1); };
    built x, y, z, w;
    switch (s.choose(5))
    {
      case 0: return {nd::make_string_concat_view(), ""};
      case 1: x = sub(); return {nd::make_string_concat_view(x.view), x.want};
      case 2: x = sub(); y = sub(); return {nd::make_string_concat_view(x.view, y.view), x.want + y.want};
      case 3:
      {
        x = sub(); kept.push_back(text(s)); std::string const& t = kept.back(); y = sub();
        return {nd::make_string_concat_view(x.view, t, hana::string<'-'>{}, y.view), x.want + t + "-" + y.want};
      }
      default:
        x = sub(); y = sub(); z = sub(); w = sub();
        return {nd::make_string_concat_view(x.view, y.view, z.view, w.view, x.view), x.want + y.want + z.want + w.want + x.want};
    }
  }

  void decide(vf::Src& s, nd::string_concat_view const& v, std::string const& want)
  {
    s.equal(v.length(), want.size(), "length");
    s.equal(v.to_string(), want, "text");
    // copied in between of others
    std::string room = "<" + std::string(want.size(), '?') + ">";
    v.copy(room.begin() + 1);
    s.equal(room, "<" + want + ">", "copied into a text");
    s.check(v.equal(want.begin()), "it is not equal to its text");
    if (!want.empty())
    {
      std::string other = want;
      for (std::size_t i = 0, n = 1 + s.choose(3); i < n; i++) other[s.choose(other.size())] = "abc?"[s.choose(4)];
      s.equal(v.equal(other.begin()), other == want, "equal to ", other);
    }
  }
}

VF_PROP(views, 6000, 200000)
{
  std::deque<std::string> kept;
  built x = any(s, kept, 1 + s.choose(3));
  s.note(x.want);
  decide(s, x.view, x.want);
  // views are values
  built y = any(s, kept, 2);
  nd::string_concat_view copy = x.view;
  decide(s, copy, x.want);
  x.view = y.view;
  decide(s, x.view, y.want);
  decide(s, copy, x.want);
  y.view = std::move(copy);
  decide(s, y.view, x.want);
  decide(s, x.view, y.want);
  // the originals are seen as they are now, if they keep their place
  s.nontrivial(x.want.size() > 1);
}
