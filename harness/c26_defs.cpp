// C26: a context built from any definition routes by the definition
#include "c26_defs.hpp"

std::vector<cx::definition>& cx::definitions() { static std::vector<definition> v; return v; }

// messages for any access point reach its own producer, store and listeners, and every consumer
VF_PROP(routes, 12000, 300000)
{
  using namespace cx;
  auto& d = definitions()[s.choose(definitions().size())];
  s.note(d.source);
  told.clear();
  d.run(s);
}

// a type of message for exactly the enabled actions, and an actor for every producer and consumer
VF_PROP(messages, -10000, -10000)
{
  auto& d = cx::definitions()[s.choose(cx::definitions().size())];
  s.note(d.source);
  s.equal(cx::join(d.up), cx::join(d.want_up), "types of messages upstream");
  s.equal(cx::join(d.down), cx::join(d.want_down), "types of messages downstream");
  s.equal(cx::join(d.kinds), cx::join(d.want_kinds), "actors");
  if (d.up.size() > 3) s.nontrivial();
}

// every actor is made from the argument given under its name
VF_PROP(arguments, 3000, 30000)
{
  auto& d = cx::definitions()[s.choose(cx::definitions().size())];
  s.note(d.source);
  d.given(s);
}
