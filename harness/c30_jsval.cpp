// C30: JavaScript values, functions and promises in the hands of a program
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/js.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/macros/NBDL_JS_PROMISE.hpp>
#include <emscripten/val.h>
#include <memory>
#include <string>
#include <vector>

namespace hana = boost::hana;
using nbdl::js::val;
using ev = emscripten::val;

namespace
{
  // the values there are, by number; the first is undefined
  constexpr char setup_js[] = "vf.pool = [undefined, null, 0, 1, -1, NaN, 0.5, '', '0', 'a', 'a longer text', true, false, {}, {}, [], [1], function() { return 1; }, function() { return 1; }, document.createElement('b'), Infinity];"
    "vf.pool.push({ self: vf.pool }); vf.log = []; vf.pending = []; vf.number = (x) => vf.pool.findIndex((y) => Object.is(x, y)); return vf.pool.length;";
  constexpr char same_js[] = "return Object.is(a, vf.pool[b])";
  int pool = 0;
  void setup()
  {
    static bool once = false;
    if (!once)
    {
      once = true;
      vf::browser::page::get().export_function("__nbdl_webui_detail_event_callback", [](auto const& a) { nbdl::webui::detail::_nbdl_webui_detail_event_callback(reinterpret_cast<void*>(static_cast<std::uintptr_t>(a.at(0).num))); return 0; });
    }
    nbdl::js::init();
    ev::eval("vf.reset()");
    pool = ev::eval(setup_js).as<int>();
  }
  int registered() { return ev::eval("return vf.registered()").as<int>(); }
  void assign(val const& v, int which) { ev::eval("Module.NBDL_DETAIL_JS_SET(a, vf.pool[b])", nbdl::js::get_handle(v), which); }
  int number(ev const& v) { return ev::eval("return vf.number(a)", v).as<int>(); }
  int any(vf::Src& s) { return static_cast<int>(s.choose(static_cast<std::uint64_t>(pool))); }
  val make(int which) { val v; assign(v, which); return v; }
  val by_copy(val v) { return v; }

  struct bag
  {
    vf::Src& s;
    std::vector<std::unique_ptr<val>> vals{};
    std::vector<int> has{};
    std::vector<val> row{};
    std::vector<int> row_has{};
    int before = registered();

    void look(char const* when)
    {
      for (std::size_t i = 0; i < vals.size(); i++)
      {
        s.equal(number(ev(*vals[i])), has[i], when, ": value ", i);
        s.check(ev::eval("return Object.is(Module.NBDL_DETAIL_JS_GET(a), vf.pool[b])", nbdl::js::get_handle(*vals[i]), has[i]).as<bool>(), when, ": the handle of value ", i, " is of another");
      }
      s.equal(row.size(), row_has.size(), when, ": values in the row");
      for (std::size_t i = 0; i < row.size(); i++) s.equal(number(ev(row[i])), row_has[i], when, ": value ", i, " of the row");
      int now = registered() - before;
      s.check(now <= static_cast<int>(vals.size() + row.size()), when, ": ", now, " values are registered for ", vals.size() + row.size());
      if (vals.size() > 1)
      {
        auto i = s.choose(vals.size()), j = s.choose(vals.size());
        bool want = ev::eval("return vf.pool[a] === vf.pool[b]", has[i], has[j]).as<bool>();
        s.equal(static_cast<bool>(hana::equal(*vals[i], *vals[j])), want, when, ": equality of values ", i, " and ", j);
        s.equal(static_cast<bool>(hana::not_equal(*vals[i], *vals[j])), !want, when, ": inequality of values ", i, " and ", j);
      }
    }
  };
}

VF_PROP(values, 8000, 250000)
{
  setup();
  int before = registered();
  {
    bag b{s};
    int moves = 0;
    for (std::size_t steps = 2 + s.upto(10); steps-- > 0;)
    {
      if (b.vals.empty() || s.chance(25))
      {
        int w = any(s);
        if (s.chance(20)) { b.vals.push_back(std::make_unique<val>()); w = 0; }
        else b.vals.push_back(std::make_unique<val>(make(w)));
        b.has.push_back(w);
        s.note("new", w);
        b.look("after a new value");
        continue;
      }
      auto i = s.choose(b.vals.size()), j = s.choose(b.vals.size());
      switch (s.choose(13))
      {
        case 0: s.note("copy", i); b.vals.push_back(std::make_unique<val>(*b.vals[i])); b.has.push_back(b.has[i]); break;
        case 1: s.note("copy const", i); b.vals.push_back(std::make_unique<val>(std::as_const(*b.vals[i]))); b.has.push_back(b.has[i]); break;
        case 2: s.note("move", i); b.vals.push_back(std::make_unique<val>(std::move(*b.vals[i]))); b.has.push_back(b.has[i]); b.has[i] = 0; moves++; break;
        case 3: s.note("assign", i, "to", j); *b.vals[j] = *b.vals[i]; b.has[j] = b.has[i]; break;
        case 4: if (i == j) break; s.note("move", i, "to", j); *b.vals[j] = std::move(*b.vals[i]); b.has[j] = b.has[i]; b.has[i] = 0; moves++; break;
        case 5: s.note("drop", i); b.vals.erase(b.vals.begin() + static_cast<long>(i)); b.has.erase(b.has.begin() + static_cast<long>(i)); break;
        case 6: { int w = any(s); s.note("set", i, w); assign(*b.vals[i], w); b.has[i] = w; break; }
        case 7:
        {
          // what it becomes depends on what it is
          s.note("transform", i);
          NBDL_JS_TRANSFORM(*b.vals[i], function(x) { return vf.pool[(vf.number(x) + 1) % vf.pool.length]; });
          b.has[i] = (b.has[i] + 1) % pool;
          break;
        }
        case 8: s.note("pass", i); *b.vals[i] = by_copy(*b.vals[i]); break;
        case 9: if (i == j) break; s.note("swap", i, j); std::swap(*b.vals[i], *b.vals[j]); std::swap(b.has[i], b.has[j]); moves++; break;
        case 10:
        {
          auto at = s.upto(b.row.size());
          s.note("into the row", i, at);
          if (s.boolean()) b.row.insert(b.row.begin() + static_cast<long>(at), *b.vals[i]);
          else b.row.insert(b.row.begin() + static_cast<long>(at), by_copy(*b.vals[i]));
          b.row_has.insert(b.row_has.begin() + static_cast<long>(at), b.has[i]);
          break;
        }
        case 11:
        {
          if (b.row.empty()) break;
          auto at = s.choose(b.row.size());
          s.note("out of the row", at);
          b.row.erase(b.row.begin() + static_cast<long>(at));
          b.row_has.erase(b.row_has.begin() + static_cast<long>(at));
          break;
        }
        default: if (b.row.empty()) break; s.note("reverse"); std::reverse(b.row.begin(), b.row.end()); std::reverse(b.row_has.begin(), b.row_has.end());
      }
      b.look("after that");
    }
    if (moves && b.vals.size() > 1) s.nontrivial();
  }
  s.equal(registered(), before, "registered values in the end");
}

namespace
{
  struct functions
  {
    vf::Src& s;
    std::vector<std::string> log{};
    int depth = 0;
  };
  // what the functions do when they are called
  inline functions* fns = nullptr;
  void note_call(int id, char const* how, val const& v) { fns->log.push_back(std::to_string(id) + how + std::to_string(number(ev(v)))); }
}

VF_PROP(callbacks, 5000, 150000)
{
  setup();
  int before = registered();
  {
    functions f{s};
    fns = &f;
    using cb = nbdl::js::callback_t;
    std::vector<cb> cbs;
    std::vector<int> ids;
    int next = 0, calls = 0;
    auto kind = [](int id) { return id % 4; };
    auto again = [&](int id, int w)
    {
      // a function that is in use is called again
      for (std::size_t i = 0; i < ids.size(); i++)
        if (ids[i] == id) ev::eval("Module.NBDL_DETAIL_JS_GET(a)(vf.pool[b])", nbdl::js::get_handle(cbs[i]), w);
    };
    for (std::size_t steps = 2 + s.upto(10); steps-- > 0;)
    {
      if (cbs.empty() || s.chance(25))
      {
        int id = next++;
        s.note("new function", id);
        auto state = std::make_unique<int>(id);
        switch (kind(id))
        {
          case 0: cbs.push_back(nbdl::js::callback([id](val v) { note_call(id, " got ", v); })); break;
          case 1: cbs.push_back(nbdl::js::callback([id](auto const& v) { val mine(v); note_call(id, " got ", mine); })); break;
          case 2: { auto named = [id, p = std::make_shared<int>(id)](val const& v) { note_call(*p, " got ", v); }; cbs.push_back(nbdl::js::callback(named)); break; }
          default: cbs.push_back(nbdl::js::callback([id, &again, &f, n = 0](val v) mutable
          {
            n++;
            note_call(id, " got ", v);
            if (f.depth < 2) { f.depth++; again(id, (number(ev(v)) + 1) % pool); f.depth--; note_call(id, " still has ", v); }
            f.log.push_back("call " + std::to_string(n));
          }));
        }
        ids.push_back(id);
        continue;
      }
      auto i = s.choose(cbs.size());
      int id = ids[i], w = any(s);
      auto expect = [&](int v)
      {
        std::vector<std::string> want;
        if (kind(id) != 3) want.push_back(std::to_string(id) + " got " + std::to_string(v));
        return want;
      };
      auto compare = [&](char const* what, std::vector<int> const& vs)
      {
        std::vector<std::string> want;
        for (int v : vs) for (auto& x : expect(v)) want.push_back(x);
        std::vector<std::string> got = f.log;
        if (kind(id) == 3)
        {
          // each call calls itself twice over, and still has its own value afterwards
          for (int v : vs) for (auto t : {0, 1, 2}) want.push_back(std::to_string(id) + " got " + std::to_string((v + t) % pool));
          for (int v : vs) for (auto t : {1, 0}) want.push_back(std::to_string(id) + " still has " + std::to_string((v + t) % pool));
          std::erase_if(got, [](std::string const& x) { return x.starts_with("call"); });
          if (vs.size() != 1) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
        }
        std::string a, b;
        for (auto& x : got) a += x + "; ";
        for (auto& x : want) b += x + "; ";
        s.equal(a, b, what, ": the calls of function ", id);
        f.log.clear();
        calls++;
      };
      switch (s.choose(7))
      {
        case 0: case 1: s.note("call", id, w); ev::eval("Module.NBDL_DETAIL_JS_GET(a)(vf.pool[b])", nbdl::js::get_handle(cbs[i]), w); compare("a call", {w}); break;
        case 2:
        {
          // through values that hold the function
          s.note("call a copy", id, w);
          val v{cbs[i]}, u = v;
          if (s.boolean()) v = std::move(u);
          s.check(static_cast<bool>(hana::equal(v, cbs[i])), "a function differs from its copy");
          ev::eval("a(vf.pool[b])", ev(v), w);
          compare("a call of a copy", {w});
          break;
        }
        case 3: s.note("call twice", id, w); ev::eval("const f = Module.NBDL_DETAIL_JS_GET(a); f(vf.pool[b]); f(vf.pool[0])", nbdl::js::get_handle(cbs[i]), w); compare("two calls", {w, 0}); break;
        case 4:
        {
          s.note("listen", id);
          std::string type = s.pick({"submit", "submit", "click", "keydown", "input"});
          bool submit = type == "submit";
          s.note("event", type);
          ev::eval("const e = vf.pool[19]; const f = Module.NBDL_DETAIL_JS_GET(a); vf.pool.push(null); for (const t of ['submit', 'click', 'keydown']) e.addEventListener(t, f);", nbdl::js::get_handle(cbs[i]));
          bool went_on = ev::eval("const e = vf.pool[19]; const ev = { type: a, preventDefault() { this.defaultPrevented = true; } }; vf.pool[vf.pool.length - 1] = ev; return e.dispatchEvent(ev);", type).as<bool>();
          s.equal(went_on, !submit, "the page goes on by itself");
          if (kind(id) != 3) { if (type != "input") compare("an event", {pool}); else { s.check(f.log.empty(), "another event calls the function"); } }
          f.log.clear();
          ev::eval("const e = vf.pool[19]; for (const t of ['submit', 'click', 'keydown']) e.removeEventListener(t, Module.NBDL_DETAIL_JS_GET(a)); vf.pool.pop();", nbdl::js::get_handle(cbs[i]));
          break;
        }
        case 5: { s.note("move", id); cb t(std::move(cbs[i])); cbs.erase(cbs.begin() + static_cast<long>(i)); ids.erase(ids.begin() + static_cast<long>(i)); cbs.push_back(std::move(t)); ids.push_back(id); break; }
        default: s.note("drop", id); cbs.erase(cbs.begin() + static_cast<long>(i)); ids.erase(ids.begin() + static_cast<long>(i));
      }
    }
    if (calls > 1) s.nontrivial();
  }
  fns = nullptr;
  s.equal(registered(), before, "registered values in the end");
}

namespace
{
  inline std::vector<std::string>* trail = nullptr;
  std::string shown(ev const& v)
  { return ev::eval("const show = (x) => { const n = vf.number(x); if (n >= 0) return String(n); return Array.isArray(x) ? '[' + x.map(show).join(' ') + ']' : '?' + String(x); }; return show(a)", v).as<std::string>(); }

  // settles what was promised, now or later: how is 0 resolve, 1 reject, 2 resolve later, 3 reject later
  void c_two(int resolve, int reject, int a, int b)
  { EM_ASM_({ vf.settle(Module.NBDL_DETAIL_JS_GET($0), Module.NBDL_DETAIL_JS_GET($1), [Module.NBDL_DETAIL_JS_GET($2), Module.NBDL_DETAIL_JS_GET($3)]); }, resolve, reject, a, b); }
  void c_three(int resolve, int reject, int a, int b, int c)
  { EM_ASM_({ vf.settle(Module.NBDL_DETAIL_JS_GET($0), Module.NBDL_DETAIL_JS_GET($1), [Module.NBDL_DETAIL_JS_GET($2), Module.NBDL_DETAIL_JS_GET($3), Module.NBDL_DETAIL_JS_GET($4)]); }, resolve, reject, a, b, c); }
  constexpr char settle_js[] = "vf.hows = []; vf.settle = (resolve, reject, x) => { const how = vf.hows.shift(); const f = how % 2 ? reject : resolve; if (how < 2) f(x); else vf.pending.push(() => f(x)); }";
  void hold_how(int how) { ev::eval("vf.hows.push(a)", how); }
}

VF_PROP(promises, 5000, 150000)
{
  setup();
  ev::eval(settle_js);
  int before = registered();
  std::vector<std::string> log;
  trail = &log;
  auto caught = nbdl::catch_([](auto const& v) { trail->push_back("caught " + shown(ev(val(v)))); });
  auto step = [](val v) { trail->push_back("got " + shown(ev(v))); };
  std::size_t rounds = 1 + s.upto(2), later = 0;
  std::vector<std::string> want;
  std::vector<std::string> open;
  for (std::size_t r = 0; r < rounds; r++)
  {
    std::vector<int> in;
    for (int i = 0; i < 8; i++) in.push_back(any(s));
    int shape = static_cast<int>(s.choose(8)), how = static_cast<int>(s.choose(4));
    s.note("promise", shape, "how", how);
    hold_how(how);
    std::string all;
    auto list = [&](int n) { std::string x = "["; for (int i = 0; i < n; i++) x += (i ? " " : "") + std::to_string(in[static_cast<std::size_t>(i)]); return x + "]"; };
    val i0 = make(in[0]), i1 = make(in[1]), i2 = make(in[2]), i3 = make(in[3]), i4 = make(in[4]), i5 = make(in[5]), i6 = make(in[6]), i7 = make(in[7]);
    auto log_before = log.size();
    switch (shape)
    {
      case 0: all = "2"; nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE(function(resolve, reject) { vf.settle(resolve, reject, 0); }), step, caught)); break;
      case 1: all = list(1); nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { vf.settle(resolve, reject, [i0]); }, i0), step, caught)); break;
      case 2: all = list(2); nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { vf.settle(resolve, reject, [i0, i1]); }, i0, i1), step, caught)); break;
      case 3: all = list(5); nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { vf.settle(resolve, reject, [i0, i1, i2, i3, i4]); }, i0, i1, i2, i3, i4), step, caught)); break;
      case 4: all = list(8); nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { vf.settle(resolve, reject, [i0, i1, i2, i3, i4, i5, i6, i7]); }, i0, i1, i2, i3, i4, i5, i6, i7), step, caught)); break;
      case 5: all = list(2); nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(c_two, i0, i1), step, caught)); break;
      case 6: all = list(3); nbdl::run_async(hana::make_tuple(NBDL_JS_PROMISE_C_FUNC(c_three, i0, i1, i2), step, caught)); break;
      default:
        // a promise after a promise
        all = list(2);
        nbdl::run_async(hana::make_tuple(
          NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { vf.settle(resolve, reject, [i0, i1]); }, i0, i1), step,
          NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { resolve(i2); }, i2), step, caught));
    }
    // what was captured is a copy
    for (auto* v : {&i0, &i1, &i2, &i3, &i4, &i5, &i6, &i7}) assign(*v, 0);
    std::string result = (how % 2 ? "caught " : "got ") + all;
    if (shape == 7 && how % 2 == 0) result += "; got " + std::to_string(in[2]);
    if (how < 2)
    {
      std::string got;
      for (auto i = log_before; i < log.size(); i++) got += (got.empty() ? "" : "; ") + log[i];
      s.equal(got, result, "what the pipeline saw");
    }
    else { s.check(log.size() == log_before, "the pipeline went on before the promise settled"); open.push_back(result); later++; }
  }
  std::size_t n = 0;
  while (!open.empty())
  {
    auto i = s.choose(open.size());
    auto at = log.size();
    ev::eval("const f = vf.pending.splice(a, 1)[0]; f()", static_cast<int>(i));
    std::string got;
    for (; at < log.size(); at++) got += (got.empty() ? "" : "; ") + log[at];
    s.equal(got, open[i], "what the pipeline saw later");
    open.erase(open.begin() + static_cast<long>(i));
    n++;
  }
  if (later) s.nontrivial();
  ev::eval("vf.hows = []; vf.pending = []");
  s.equal(registered(), before, "registered values in the end");
}

VF_PROP(elements, 500, 10000)
{
  using namespace hana::literals;
  setup();
  auto doc = ev::global("document");
  std::vector<std::string> names{"a", "ab", "b c", "\xc3\xa9", ""};
  std::vector<bool> there;
  for (auto& n : names)
  {
    there.push_back(!n.empty() && s.boolean());
    if (there.back()) ev::eval("const e = document.createElement('i'); e.id = a; document.body.appendChild(e)", n);
  }
  auto check = [&](std::size_t i, auto name)
  {
    auto v = nbdl::js::get_element_by_id(name);
    s.check(ev::eval("return a === document.getElementById(b)", ev(v), names[i]).as<bool>(), "the element ", names[i], " is another");
    s.equal(ev(v).isNull(), !there[i], "the element ", names[i], " is missing");
  };
  check(0, "a"_s); check(1, "ab"_s); check(2, "b c"_s); check(3, hana::string_c<'\xc3', '\xa9'>); check(4, ""_s);
  if (there[0] && !there[1]) s.nontrivial();
}
