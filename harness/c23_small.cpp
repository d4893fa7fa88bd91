// C23: small combinators obey their laws for all arguments
#include "c23_small.hpp"
#include <nbdl/async_enqueue.hpp>
#include <deque>
#include <queue>

std::vector<sm::fn>& sm::cases(int kind) { static std::vector<fn> v[4]; return v[kind]; }

namespace
{
  void any(vf::Src& s, int kind)
  {
    auto& v = cases(kind);
    auto id = s.choose(v.size());
    s.note("case", id);
    run r{s, static_cast<int>(id)};
    v[id](r);
  }

  // ---- queues ----
  struct message
  {
    int n = 0; bool gone = false; int* copies = nullptr;
    message(int n, int* c) : n(n), copies(c) {}
    message(message const& o) : n(o.n), gone(o.gone), copies(o.copies) { ++*copies; }
    message(message&& o) : n(o.n), gone(o.gone), copies(o.copies) { o.gone = true; }
  };
  struct resolver
  {
    int resolved = 0, rejected = 0;
    std::size_t size_then = 0;
    std::queue<message>* q = nullptr;
    void resolve() { resolved++; if (q) size_then = q->size(); }
    template <typename ...X> void reject(X&& ...) { rejected++; }
  };
  // keeps its messages elsewhere and answers later
  struct slow_tag { };
  struct slow_queue { using hana_tag = slow_tag; std::deque<message> kept; std::vector<resolver*> waiting; };
}
namespace nbdl
{
  template <> struct async_enqueue_impl<slow_tag>
  {
    template <typename R, typename Q, typename M> static void apply(R& r, Q& q, M&& m) { q.kept.push_back(std::forward<M>(m)); q.waiting.push_back(&r); }
  };
}

VF_PROP(concatenation, 6000, 200000) { any(s, 0); }
VF_PROP(first_match, 6000, 200000) { any(s, 1); }
VF_PROP(without_empties, 6000, 200000) { any(s, 2); }
VF_PROP(views, 6000, 200000) { any(s, 3); }

VF_PROP(enqueue, 4000, 200000)
{
  std::queue<message> q;
  slow_queue slow;
  std::deque<int> want, kept;
  std::vector<std::unique_ptr<resolver>> waiting;
  int next = 0, copies = 0;
  for (std::size_t n = 1 + s.upto(30); n-- > 0;)
  {
    bool move = s.boolean();
    auto op = s.choose(4);
    s.note(op, move);
    copies = 0;
    message m(next++, &copies);
    if (op < 2)
    {
      resolver r;
      r.q = &q;
      if (move) nbdl::async_enqueue(r, q, std::move(m)); else nbdl::async_enqueue(r, q, m);
      want.push_back(m.n);
      s.equal(r.resolved, 1, "a message that is queued resolves");
      s.equal(r.rejected, 0, "a message that is queued rejects");
      s.equal(r.size_then, want.size(), "messages queued before it resolves");
      s.check(m.gone == move, "the message is ", move ? "not moved" : "moved away");
      s.equal(copies, int(!move), "copies of a message");
    }
    else if (op == 2)
    {
      waiting.push_back(std::make_unique<resolver>());
      auto& r = *waiting.back();
      if (move) nbdl::async_enqueue(r, slow, std::move(m)); else nbdl::async_enqueue(r, slow, m);
      kept.push_back(m.n);
      s.equal(r.resolved + r.rejected, 0, "a queue that answers later has answered");
      s.equal(slow.waiting.size(), kept.size(), "messages passed on to the queue's own code");
      s.check(slow.waiting.back() == &r, "the resolver of a message is another one");
      s.check(m.gone == move, "the message is ", move ? "not moved" : "moved away");
      s.equal(copies, int(!move), "copies of a message");
    }
    else if (!want.empty())
    {
      s.equal(q.front().n, want.front(), "first of the queue");
      s.check(!q.front().gone, "the queued message was moved away");
      q.pop();
      want.pop_front();
    }
    s.equal(q.size(), want.size(), "size of the queue");
    s.equal(slow.kept.size(), kept.size(), "size of the slow queue");
    for (std::size_t i = 0; i < kept.size(); i++) s.equal(slow.kept[i].n, kept[i], "message ", i);
  }
  for (; !q.empty(); q.pop(), want.pop_front()) s.equal(q.front().n, want.front(), "first of the queue");
  if (next > 2) s.nontrivial();
}
