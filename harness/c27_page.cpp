// C27: a rendered document is what its spec says about the stores it reads
#include "c27_page.hpp"

std::vector<u::page>& u::pages() { static std::vector<page> v; return v; }

namespace
{
  Str word(vf::Src& s) { return s.pick<std::string>({"k0", "x", "", "kk yy", "<&>\"", "0", "longer", "\xc3\xa9\xe2\x82\xac", std::string("n\0u", 3)}); }
  Int num(vf::Src& s) { return static_cast<int>(s.choose(8)) - 2; }
  OptStr opt(vf::Src& s) { return s.boolean() ? OptStr(word(s)) : OptStr(); }
  VecInt ints(vf::Src& s) { VecInt v; for (std::size_t n = s.upto(3); n-- > 0;) v.push_back(num(s)); return v; }
  Big big(vf::Src& s) { return s.boolean() ? num(s) : s.pick({Big(1) << 32, (Big(1) << 32) + 1, -(Big(1) << 40), Big(0x7fffffffffffffff), Big(2147483648)}); }
  Person person(vf::Src& s) { return {word(s), num(s), opt(s), ints(s), big(s), word(s)}; }
  Var var(vf::Src& s) { switch (s.choose(5)) { case 0: return Var(num(s)); case 1: return Var(word(s)); case 2: case 3: return Var(person(s)); default: return Var(); } }
  void change(vf::Src& s, Root& r, std::uint64_t which)
  {
    switch (which)
    {
      case 0: r["a"_s] = word(s); break;
      case 1: r["b"_s] = word(s); break;
      case 2: r["n"_s] = num(s); break;
      case 3: r["m"_s] = num(s); break;
      case 4: r["o"_s] = opt(s); break;
      case 5: r["v"_s] = var(s); break;
      case 6: r["w"_s] = var(s); break;
      case 7: r["p"_s] = person(s); break;
      case 8: { auto& v = r["xs"_s]; if (s.boolean()) v = ints(s); else if (s.boolean() || v.empty()) v.push_back(num(s)); else v.erase(v.begin() + static_cast<long>(s.choose(v.size()))); break; }
      case 9: { auto& v = r["ys"_s]; if (s.chance(70) || v.empty()) v.insert(v.begin() + static_cast<long>(s.upto(v.size())), person(s)); else v.erase(v.begin() + static_cast<long>(s.choose(v.size()))); break; }
      case 10: { auto& v = r["zs"_s]; if (s.chance(60) || v.empty()) v.push_back(var(s)); else if (s.boolean()) v[s.choose(v.size())] = var(s); else v.erase(v.begin() + static_cast<long>(s.choose(v.size()))); break; }
      case 11: r["l"_s] = big(s); break;
      case 12: r["t"_s] = NStr(word(s)); break;
      case 13: r["f"_s] = s.boolean(); break;
      default: { auto& m = r["ms"_s]; if (s.chance(30)) m.erase(word(s)); else m[word(s)] = word(s); }
    }
  }

  std::string esc(std::string const& x)
  {
    std::string o;
    for (char c : x) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; default: o += c; }
    return o;
  }
  void write(std::string& o, tree const& t)
  {
    if (t.tag.empty()) { o += t.raw ? "[" + t.text + "]" : esc(t.text); return; }
    o += "<" + t.tag;
    auto attrs = t.attrs;
    for (auto& c : t.classes) { auto& a = attrs["class"]; a += (a.empty() ? "" : " ") + c; }
    for (auto& [k, v] : attrs) o += " " + k + "=\"" + esc(v) + "\"";
    for (auto& [k, v] : t.props) o += " ." + k + "=\"" + esc(v) + "\"";
    o += ">";
    for (auto& k : t.kids) write(o, k);
    o += "</" + t.tag + ">";
  }
  struct spot { tree const* el; int parent; };
  void flat(std::vector<spot>& out, tree const& t, int parent)
  {
    if (t.tag.empty()) return;
    int me = static_cast<int>(out.size());
    out.push_back({&t, parent});
    for (auto& k : t.kids) flat(out, k, me);
  }
  // the elements below the page's body in document order
  constexpr char fire_js[] = "const all = []; const walk = (n) => { for (const c of n.childNodes) if (c.nodeType === 1) { all.push(c); walk(c); } }; walk(a);"
    "return vf.fire(all[b], c, { detail: d });";
  constexpr char count_js[] = "let n = 0; const walk = (x) => { n += x.listenerCount; x.childNodes.forEach(walk); }; walk(a); return n;";

  struct viewer
  {
    vf::Src& s;
    Root& root;
    page const& pg;
    emscripten::val body;
    live* now = nullptr;

    // what an event at an element sends, and how many listeners hear of it
    struct events
    {
      std::vector<spot> const& els;
      std::vector<std::string> sends{};
      int heard = 0;
      std::set<int> clicking{};
      void fire(int at, std::string const& type, std::string const& detail)
      {
        for (int i = at; i >= 0; i = els[static_cast<std::size_t>(i)].parent)
        {
          auto& el = *els[static_cast<std::size_t>(i)].el;
          for (auto& h : el.hears)
          {
            if (h.type != type) continue;
            heard++;
            if (h.file)
            {
              // a click on what opens the dialog of the input below it
              for (std::size_t k = 0; k < els.size(); k++)
                if (els[k].parent == i && els[k].el->tag == "input" && clicking.insert(static_cast<int>(k)).second)
                {
                  fire(static_cast<int>(k), "click", "0");
                  clicking.erase(static_cast<int>(k));
                }
              continue;
            }
            if (h.dead) continue;
            auto args = h.args;
            for (std::size_t p; (p = args.find('@')) != std::string::npos;) args.replace(p, 1, detail);
            sends.push_back(std::to_string(h.id) + "(" + args + ")");
          }
        }
      }
    };

    void look(char const* when)
    {
      M m;
      pg.model(root, m);
      std::string want;
      for (auto& k : m.root.kids) write(want, k);
      auto got = emscripten::val::eval("return a.innerHTML", body).as<std::string>();
      s.check(got == want, when, ": the document is\n", got, "\nbut should be\n", want);
      std::vector<spot> els;
      for (auto& k : m.root.kids) flat(els, k, -1);
      std::size_t hears = 0;
      for (auto& e : els) hears += e.el->hears.size();
      auto listening = static_cast<std::size_t>(emscripten::val::eval(count_js, body).as<int>());
      s.check(listening == hears, when, ": ", listening, " listeners where there should be ", hears);
      if (hears == 0) return;
      std::vector<int> able;
      for (std::size_t i = 0; i < els.size(); i++) if (!els[i].el->hears.empty()) able.push_back(static_cast<int>(i));
      for (std::size_t n = 1 + s.upto(2); n-- > 0;)
      {
        int at = s.chance(80) ? able[s.choose(able.size())] : static_cast<int>(s.choose(els.size()));
        std::string type = s.pick({"click", "keydown", "keyup", "submit"});
        if (!els[static_cast<std::size_t>(at)].el->hears.empty() && s.chance(80)) type = els[static_cast<std::size_t>(at)].el->hears[s.choose(els[static_cast<std::size_t>(at)].el->hears.size())].type;
        events ev{els};
        int detail = static_cast<int>(s.choose(50));
        ev.fire(at, type, std::to_string(detail));
        auto& expected = ev.sends;
        bool heard = ev.heard;
        sent().clear();
        s.note("fire", type, "at", at);
        // what is sent may change what the page shows before the handler is done
        bool changes = ev.heard == 1 && expected.size() == 1 && s.chance(30);
        if (changes) when_sent() = [this] { auto w = s.choose(15); s.note("then change", w); change(s, root, w); now->update(); };
        bool went_on = emscripten::val::eval(fire_js, body, at, type, detail).as<bool>();
        auto list = [](auto const& v) { std::string o; for (auto& x : v) o += x + " "; return o; };
        s.check(sent() == expected, when, ": ", type, " at element ", at, " sent ", list(sent()), " instead of ", list(expected));
        s.check(went_on == !(heard && type == "submit"), "the page would ", went_on ? "" : "not ", "go on after ", type);
        s.nontrivial();
        if (changes) return look("after an update while a handler ran");
      }
    }
  };
}

VF_PROP(document, 16000, 300000)
{
  static bool once = false;
  auto& bridge = vf::browser::page::get();
  if (!once)
  {
    once = true;
    bridge.export_function("__nbdl_webui_detail_event_callback", [](auto const& a) { nbdl::webui::detail::_nbdl_webui_detail_event_callback(reinterpret_cast<void*>(static_cast<std::uintptr_t>(a.at(0).num))); return 0; });
  }
  nbdl::detail::js_val::init_registry();
  when_sent() = nullptr;
  emscripten::val::eval("vf.reset()");
  auto root = make_root();
  for (std::uint64_t i = 0; i < 15; i++) for (std::size_t n = s.upto(i >= 8 && i != 13 ? 3 : 1); n-- > 0;) change(s, root, i);
  auto id = s.choose(pages().size());
  s.note("page", id);
  int before = emscripten::val::eval("return vf.registered()").as<int>();
  {
    auto body = emscripten::val::global("document")["body"];
    viewer v{s, root, pages()[id], body};
    auto live = v.pg.show(root, body, s.chance(20));
    v.now = live.get();
    v.look("at first");
    std::string had = emscripten::val::eval("return a.innerHTML", body).as<std::string>();
    for (std::size_t n = s.upto(6); n-- > 0;)
    {
      for (std::size_t k = s.chance(20) ? 0 : 1 + s.upto(2); k-- > 0;) { auto w = s.choose(15); s.note("change", w); change(s, root, w); }
      live->update();
      v.look("after an update");
      auto now = emscripten::val::eval("return a.innerHTML", body).as<std::string>();
      if (now != had) s.nontrivial();
      had = now;
    }
    if (s.chance(20) && live->destroy())
    {
      // a page that was told to stop shows no more changes
      change(s, root, s.choose(15));
      live->update();
      auto now = emscripten::val::eval("return a.innerHTML", body).as<std::string>();
      s.check(now == had, "after it was destroyed, the document changed from\n", had, "\nto\n", now);
    }
    live.reset();
    int left = emscripten::val::eval(count_js, body).as<int>();
    s.check(left == 0, left, " listeners are left behind");
  }
  int after = emscripten::val::eval("return vf.registered()").as<int>();
  s.check(after == before, after - before, " values are left registered");
}
