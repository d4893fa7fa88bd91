// C24: the tile game is only ever permuted by legal moves
#include "vf.hpp"
#include <tiles/game.hpp>
#include <array>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>

namespace
{
  namespace message = nbdl::message;
  using board = std::array<unsigned char, 64>;
  std::string show(board const& b, int n) { std::string r; for (int i = 0; i < n; i++) r += std::to_string(b[static_cast<std::size_t>(i)]) + " "; return r; }

  // the rule of the game: the tile that is asked for and the blank swap places if they touch
  bool move(board& b, int w, int h, int i)
  {
    if (i < 0 || i >= w * h) return false;
    int blank = 0;
    while (b[static_cast<std::size_t>(blank)]) blank++;
    int dx = std::abs(blank % w - i % w), dy = std::abs(blank / w - i / w);
    if (dx + dy != 1) return false;
    std::swap(b[static_cast<std::size_t>(blank)], b[static_cast<std::size_t>(i)]);
    return true;
  }
  int pick_move(vf::Src& s, board const& b, int w, int h)
  {
    int n = w * h, blank = 0;
    while (b[static_cast<std::size_t>(blank)]) blank++;
    switch (s.choose(6))
    {
      case 0: return static_cast<int>(s.upto(255));
      case 1: return static_cast<int>(s.choose(static_cast<std::uint64_t>(n)));
      case 2: return std::min(255, n + static_cast<int>(s.upto(3)));
      // around the blank, also across the edges of the board
      default: return (blank + s.pick({1, -1, w, -w, w + 1, w - 1, -w + 1, 2, 0, n - w}) + 2 * n) % n;
    }
  }

  // the first tile of the last row moves to what is below it, which is no longer the board (known finding off-board)
  bool moves_off_the_board()
  {
    std::unique_ptr<tiles::game> g(new tiles::game{2, 2, {0, 1, 2, 3}});
    g->board = {1, 0, 2, 3};
    return tiles::detail::apply_game_move(*g, tiles::game_move{2});
  }
  bool may_move_off(board const& b, int w, int h, int i) { auto c = b; return i == w * (h - 1) && b[static_cast<std::size_t>(i)] && !move(c, w, h, i); }
  void request(vf::Src& s, tiles::game& g, board& want, int i)
  {
    int w = g.width, h = g.height, n = w * h;
    bool off = may_move_off(want, w, h, i);
    // on a full board what is below it is beyond the game, and not to be touched
    if (off && n == 64) s.check_known("off-board", !moves_off_the_board(), "move ", i, " on a full board reads beyond it");
    bool moved = move(want, w, h, i);
    bool did = tiles::detail::apply_game_move(g, tiles::game_move{static_cast<unsigned char>(i)});
    if (off && n < 64) s.check_known("off-board", !did && show(g.board, 64) == show(want, 64), "tile ", i, " moves off a board of ", w, "x", h, ": ", show(g.board, n));
    s.equal(did, moved, "move ", i, " on ", w, "x", h, " is reported");
    s.equal(show(g.board, 64), show(want, 64), "board after move ", i, " on ", w, "x", h);
    s.equal(g.width, w, "width");
    s.equal(g.height, h, "height");
  }

  std::vector<std::string> told;
  struct watcher { };
  struct listener { };
  template <typename Tag, typename Context> struct watching
  {
    using hana_tag = Tag;
    Context context;
    template <typename A> watching(nbdl::actor_initializer<Context, A>&& a) : context(a.context) {}
  };
  int moves_seen = 0;
}
namespace nbdl
{
  template <typename Context> struct actor_type<watcher, Context> { using type = watching<watcher, Context>; };
  template <typename Context> struct actor_type<listener, Context> { using type = watching<listener, Context>; };
  template <> struct notify_state_change_impl<watcher>
  {
    template <typename C, typename P> static void apply(C&& c, P&& p)
    {
      static_assert(std::is_same_v<std::decay_t<P>, tiles::game_path>);
      nbdl::match(c.context, p, [](tiles::game const& g) { told.push_back(show(g.board, 64)); });
    }
  };
  template <> struct send_downstream_message_impl<listener>
  {
    template <typename C, typename M> static void apply(C&&, M&& m)
    {
      static_assert(message::is_downstream<std::decay_t<M>> && message::is_create<std::decay_t<M>>);
      moves_seen++;
    }
  };
}
namespace
{
  struct game_def { static auto make_def() { return tiles::context<nbdl::echo_producer, watcher>::make_def(); } };
  struct heard_def { static auto make_def() { return tiles::context<nbdl::echo_producer, listener>::make_def(); } };
}

VF_PROP(any_board, 30000, 2000000)
{
  int w, h;
  do { w = 1 + static_cast<int>(s.choose(8)); h = 1 + static_cast<int>(s.choose(8)); } while (w * h > 64);
  int n = w * h;
  board b{};
  for (int i = 0; i < n; i++) b[static_cast<std::size_t>(i)] = static_cast<unsigned char>(i);
  for (int i = n - 1; i > 0; i--) std::swap(b[static_cast<std::size_t>(i)], b[s.choose(static_cast<std::uint64_t>(i) + 1)]);
  // what is beyond the board is none of the game's business, but must not be read
  std::unique_ptr<tiles::game> g(new tiles::game{w, h, b});
  auto want = b;
  s.note("board", w, "x", h, show(b, n));
  int done = 0;
  for (std::size_t k = 1 + s.upto(12); k-- > 0;)
  {
    int i = pick_move(s, want, w, h);
    s.note("move", i);
    auto before = want;
    request(s, *g, want, i);
    done += before != want;
  }
  s.label(done ? "moved" : "stuck");
  if (done > 1) s.nontrivial();
}

VF_PROP(played_through_the_context, 4000, 100000)
{
  auto ctx = nbdl::make_context<game_def>(nbdl::actor(BOOST_HANA_STRING("producer"), nbdl::echo_producer{}), nbdl::actor(BOOST_HANA_STRING("consumer"), watcher{}));
  auto heard = nbdl::make_context<heard_def>(nbdl::actor(BOOST_HANA_STRING("producer"), nbdl::echo_producer{}), nbdl::actor(BOOST_HANA_STRING("consumer"), listener{}));
  auto& c = ctx->template actor<1>();
  auto& l = heard->template actor<1>();
  board want{};
  nbdl::match(c.context, tiles::game_path{}, [&](tiles::game const& g) { want = g.board; s.equal(g.width * 10 + g.height, 33, "size of the game"); });
  auto const start = want;
  s.check(std::vector<int>(want.begin() + 9, want.end()) == std::vector<int>(55), "the rest of the board is not empty");
  int done = 0;
  for (std::size_t k = 1 + s.upto(24); k-- > 0;)
  {
    int i = pick_move(s, want, 3, 3);
    s.note(i);
    bool off = may_move_off(want, 3, 3, i);
    bool moved = move(want, 3, 3, i);
    done += moved;
    told.clear();
    moves_seen = 0;
    tiles::create_game_move(c, static_cast<unsigned char>(i));
    if (off) s.check_known("off-board", told.empty(), "tile ", i, " moves off the board of the game");
    s.equal(told.size(), std::size_t(moved), "notifications of a move");
    if (moved) s.equal(told[0], show(want, 64), "the board that is announced");
    nbdl::match(c.context, tiles::game_path{}, [&](tiles::game const& g) { s.equal(show(g.board, 64), show(want, 64), "board"); });
    // whoever takes part hears of every request, and another game is another game
    tiles::create_game_move(l, static_cast<unsigned char>(0));
    s.equal(moves_seen, 1, "messages heard");
    s.check(told.size() == std::size_t(moved), "a move of another game is announced");
  }
  // the game never takes back or loses a tile
  auto sorted = want, first = start;
  std::sort(sorted.begin(), sorted.begin() + 9); std::sort(first.begin(), first.begin() + 9);
  s.check(sorted == first, "tiles were lost");
  if (done > 1) s.nontrivial();
}

// every move from every position of the blank on every board of up to 64 tiles
VF_PROP(every_move, -60000, -60000)
{
  int w = 1 + static_cast<int>(s.choose(8)), h = 1 + static_cast<int>(s.choose(8)), n = w * h;
  int blank = static_cast<int>(s.choose(static_cast<std::uint64_t>(n)));
  int i = static_cast<int>(s.choose(static_cast<std::uint64_t>(n) + 4));
  if (i > n) i = i == n + 1 ? n + 1 : i == n + 2 ? 200 : 255;
  board b{};
  for (int k = 0; k < n; k++) b[static_cast<std::size_t>(k)] = static_cast<unsigned char>(k < blank ? k + 1 : k);
  b[static_cast<std::size_t>(blank)] = 0;
  s.note("move ", i, " with the blank at ", blank, " of ", w, "x", h);
  std::unique_ptr<tiles::game> g(new tiles::game{w, h, b});
  request(s, *g, b, i);
  s.nontrivial();
}
