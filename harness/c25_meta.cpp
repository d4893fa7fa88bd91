// C25: compile-time collections and tree queries agree with a reference model
#include "c25_meta.hpp"
#include <set>

std::vector<mt::program>& mt::programs() { static std::vector<program> v; return v; }
std::vector<mt::interface>& mt::interfaces() { static std::vector<interface> v; return v; }

// every generated program gives what the same operations on plain data give
VF_PROP(programs, -100000, -100000)
{
  auto& p = programs()[s.choose(programs().size())];
  s.note(p.source);
  s.equal(p.run(), p.want, "result of ", p.source);
  if (p.want.size() > 5) s.nontrivial();
}

// two interfaces have the same signature if and only if they and their format look the same
VF_PROP(signatures, -100000, -100000)
{
  auto& all = interfaces();
  auto& a = all[s.choose(all.size())];
  s.note(a.source);
  s.equal(a.got, a.want, "the structure of ", a.source);
  s.check(a.signature == a.again, "the signature of ", a.source, " differs from one time to the next");
  int others = 0;
  for (auto& b : all)
  {
    bool same = a.want == b.want && a.format == b.format;
    others += !same;
    s.check((a.signature == b.signature) == same, "signatures of ", a.source, " as ", a.format, " and ", b.source, " as ", b.format, same ? " differ" : " are equal");
  }
  if (others > 1) s.nontrivial();
}
