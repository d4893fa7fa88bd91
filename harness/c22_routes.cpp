// C22: routes convert to text and back without loss, and junk is not found
#include "c22_routes.hpp"

std::vector<std::unique_ptr<rt::map_base>>& rt::maps() { static std::vector<std::unique_ptr<map_base>> v; return v; }

namespace
{
  std::string word(vf::Src& s)
  {
    std::string r;
    for (std::size_t n = 1 + s.upto(s.chance(10) ? 80 : 6); n-- > 0;)
    {
      char c = s.chance(85) ? s.pick({'a', 'b', 'z', '0', '1', '9', '-', '.', '%', ' '}) : static_cast<char>(s.upto(255));
      r += c == '/' ? ':' : c;
    }
    return r;
  }
  std::string number(vf::Src& s, std::uint64_t max)
  {
    switch (s.choose(5))
    {
      case 0: return std::to_string(max);
      case 1: return std::to_string(max - s.upto(std::min<std::uint64_t>(max - 1, 9)));
      case 2: return std::to_string(1 + s.upto(std::min<std::uint64_t>(max - 1, 20)));
      default: return std::to_string(1 + s.upto(max - 1) / (std::uint64_t(1) << s.choose(40)));
    }
  }
  std::string param(vf::Src& s, std::uint64_t max) { return max ? number(s, max) : word(s); }

  // a number near the limit of the type, or one that wraps round to a small one
  std::string big(vf::Src& s, std::uint64_t max)
  {
    auto d = std::to_string(max);
    switch (s.choose(4))
    {
      case 0: { unsigned __int128 v = static_cast<unsigned __int128>(max) + 1 + s.upto(12); d.clear(); while (v) { d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } return d; }
      case 1: { unsigned __int128 v = (static_cast<unsigned __int128>(1) << (64 + s.choose(3))) + s.upto(12); d.clear(); while (v) { d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } return d; }
      case 2: return d + s.pick({"0", "1", "7"});
      default: return "4294967296" + std::string(s.upto(1), '0');
    }
  }
}

VF_PROP(round_trip, 20000, 800000)
{
  auto& m = *maps()[s.choose(maps().size())];
  auto which = static_cast<std::size_t>(s.choose(m.routes.size()));
  auto& r = m.routes[which];
  texts params;
  std::string want = "/" + r.name;
  for (auto max : r.members) { params.push_back(param(s, max)); want += "/" + params.back(); }
  s.note(want);
  auto got = m.write(s, which, params);
  s.equal(got, want, "text of a route");
  auto back = m.read(got);
  s.check(back.has_value(), "the text of a route, ", got, ", is not found");
  s.equal(describe(back), describe(parsed{which, params}), "the route that is read back from ", got);
  s.label(params.empty() ? "no members" : "members");
  if (!params.empty()) s.nontrivial();
}

VF_PROP(any_text, 30000, 1500000)
{
  auto& m = *maps()[s.choose(maps().size())];
  auto& r = m.routes[s.choose(m.routes.size())];
  texts seg{r.name};
  for (auto max : r.members) seg.push_back(param(s, max));
  bool lead = true;
  for (std::size_t n = s.upto(3); n-- > 0;)
  {
    auto at = seg.empty() ? 0 : s.choose(seg.size());
    auto max = at && at <= r.members.size() ? r.members[at - 1] : 0;
    switch (s.choose(12))
    {
      case 0: if (!seg.empty()) seg.erase(seg.begin() + static_cast<long>(at)); break;
      case 1: seg.insert(seg.begin() + static_cast<long>(at), word(s)); break;
      case 2: seg.push_back(s.boolean() ? word(s) : number(s, 99)); break;
      case 3: if (!seg.empty()) seg[at] = ""; break;
      case 4: seg.push_back(""); break;
      case 5: if (max) seg[at] = big(s, max); break;
      case 6: if (at) seg[at] = s.pick({"0", "00", "007", "-1", "+1", "1.", "1e3", " 1", "1 ", "0x1", ":", "1:"}); break;
      case 7: if (!seg.empty() && !seg[at].empty()) seg[at][s.choose(seg[at].size())] = static_cast<char>(s.upto(255)); break;
      case 8: if (!seg.empty() && !seg[at].empty()) seg[at].pop_back(); break;
      case 9: if (!seg.empty()) seg[at] = m.routes[s.choose(m.routes.size())].name; break;
      case 10: for (std::size_t k = s.upto(12); k-- > 0;) seg.push_back(s.pick({"1", "a", "2"})); break;
      default: lead = false;
    }
  }
  std::string t;
  for (auto& x : seg) t += "/" + x;
  if (!lead && !t.empty()) t.erase(0, 1);
  if (s.chance(3)) t = s.pick({"", "/", "//", "///", "/0", "/ "});
  s.note(t);
  auto want = parse(m.routes, t);
  auto got = m.read(t);
  // no more than ten parts are read, not even an empty one
  if (want && !got && std::count(t.begin(), t.end(), '/') > 10) want.reset();
  s.equal(describe(got), describe(want), "the route that ", t, " spells out");
  s.label(want ? "found" : "not found");
  if (t.size() > 1) s.nontrivial();
}

// every text of up to six characters, slashes, letters and digits
VF_PROP(all_short_texts, -20000, -20000)
{
  std::size_t which = 0;
  while (maps()[which]->routes.size() != 6 || maps()[which]->routes[5].name != "a1") which++;
  auto& m = *maps()[which];
  std::string t;
  for (std::size_t n = s.choose(7); n-- > 0;) t += s.pick({"/", "a", "1", "0"});
  auto want = parse(m.routes, t);
  s.equal(describe(m.read(t)), describe(want), "the route that ", t, " spells out");
  s.nontrivial();
}
