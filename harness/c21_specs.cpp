// C21: UI specs evaluate to the values their paths address
#include "c21_specs.hpp"

std::vector<u::spec_fn>& u::specs() { static std::vector<spec_fn> v; return v; }

namespace
{
  Str word(vf::Src& s) { return s.pick({"k0", "k1", "k2", "k3", "zz", "", "0"}); }
  Int num(vf::Src& s) { return static_cast<int>(s.upto(4)); }
  OptStr opt(vf::Src& s) { return s.boolean() ? OptStr(word(s)) : OptStr(); }
  MapIS grades(vf::Src& s) { MapIS m; for (std::size_t n = s.upto(3); n-- > 0;) m[num(s)] = word(s); return m; }
  Person person(vf::Src& s) { return {word(s), num(s), opt(s), grades(s)}; }
  VarIS var(vf::Src& s) { switch (s.choose(3)) { case 0: return VarIS(num(s)); case 1: return VarIS(word(s)); default: return {}; } }
  void change(vf::Src& s, Root& r, std::uint64_t which)
  {
    switch (which)
    {
      case 0: r[hana::int_c<0>] = word(s); break;
      case 1: r[hana::int_c<1>] = word(s); break;
      case 2: r[hana::int_c<2>] = num(s); break;
      case 3: r[hana::int_c<3>] = num(s); break;
      case 4: { auto& m = r[hana::int_c<4>]; if (s.chance(30)) m.erase(word(s)); else m[word(s)] = num(s); break; }
      case 5: r[hana::int_c<5>] = grades(s); break;
      case 6: r[hana::int_c<6>] = opt(s); break;
      case 7: switch (s.choose(4)) { case 0: r[hana::int_c<7>] = Var(num(s)); break; case 1: r[hana::int_c<7>] = Var(word(s)); break; case 2: r[hana::int_c<7>] = Var(person(s)); break; default: r[hana::int_c<7>] = Var(); } break;
      case 8: { auto& m = r[hana::int_c<8>]; if (s.chance(30)) m.erase(word(s)); else m[word(s)] = person(s); break; }
      case 9: r[hana::int_c<9>] = person(s); break;
      case 10: { auto& m = r[hana::int_c<10>].map; auto k = word(s); switch (s.choose(5)) { case 0: m.erase(k); break; case 1: m[k] = nbdl::unresolved{}; break; case 2: m[k] = nbdl::not_found{}; break; default: m[k] = num(s); } break; }
      case 12: switch (s.choose(5)) { case 0: r[hana::int_c<12>] = Mix(num(s)); break; case 1: r[hana::int_c<12>] = Mix(Big(num(s))); break; case 2: r[hana::int_c<12>] = Mix(word(s)); break; case 3: r[hana::int_c<12>] = Mix(Word(word(s))); break; default: r[hana::int_c<12>] = Mix(); } break;
      case 13: r[hana::int_c<13>] = num(s); break;
      case 14: r[hana::int_c<14>] = Word(word(s)); break;
      default: { auto& m = r[hana::int_c<11>]; if (s.chance(30)) m.erase(word(s)); else m[word(s)] = var(s); }
    }
  }
}

VF_PROP(evaluate, 12000, 400000)
{
  auto root = make_root();
  for (std::uint64_t i = 0; i < 15; i++) for (std::size_t n = s.upto(i == 4 || i == 8 || i == 10 || i == 11 ? 3 : 1); n-- > 0;) change(s, root, i);
  std::size_t steps = 1 + s.upto(3);
  int id = static_cast<int>(s.choose(specs().size()));
  for (std::size_t i = 0; i < steps; i++)
  {
    // the same spec again after a change, or another one
    if (i && s.boolean()) id = static_cast<int>(s.choose(specs().size()));
    if (i) change(s, root, s.choose(15));
    s.note("spec", id);
    run r{s, root, id};
    specs()[static_cast<std::size_t>(id)](r);
  }
}
