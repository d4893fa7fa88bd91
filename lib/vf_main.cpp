// Driver of the vf engine: runs the registered properties in worker processes,
// shrinks the first failure, writes statistics and replay files.
#include "vf.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(
  void (*malloc_hook)(void const volatile*, std::size_t),
  void (*free_hook)(void const volatile*));
extern "C" void __sanitizer_set_report_path(char const*);
#endif
#endif

extern "C" char const* __asan_default_options()
{ return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=1:symbolize=0:handle_abort=1"; }
extern "C" char const* __ubsan_default_options()
{ return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }

namespace vf
{
  std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }

  static std::atomic<long> g_live{0};
  static std::atomic<bool> g_hook{false};
  long live_allocations() { return g_live.load(); }
}

namespace
{
  using namespace vf;
  using clk = std::chrono::steady_clock;

  void on_malloc(void const volatile*, std::size_t) { g_live++; }
  void on_free(void const volatile* p) { if (p) g_live--; }

  std::uint64_t hash_str(std::string_view s, std::uint64_t h = 1469598103934665603ull)
  {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
  }
  std::uint64_t hash_choices(std::size_t prop, std::vector<Choice> const& c)
  {
    Rng r(prop * 1000003);
    std::uint64_t h = r.next();
    for (auto const& x : c) { h = Rng(h ^ x.value).next(); }
    return h;
  }
  std::string json_str(std::string_view s)
  {
    std::string r = "\"";
    for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
      else if (c >= 32 && c < 127) r += static_cast<char>(c);
      else { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    }
    return r + "\"";
  }

  struct Options
  {
    std::uint64_t seed = 1;
    bool thorough = false;
    double budget_s = 60;
    int workers = 8;
    std::string out, replay_dir, replay, only, from_bytes;
    double scale = 1;
    std::vector<std::string> known;
  } opt;

  enum Outcome { ok, rejected, failed };

  // run one case in this process
  Outcome run_case(std::size_t p, Src& s, std::string& msg)
  {
    s.known_keys = &opt.known;
    s.thorough = opt.thorough;
    try { registry()[p].fn(s); return ok; }
    catch (Reject const&) { return rejected; }
    catch (Fail const& f) { msg = f.msg; return failed; }
    catch (std::exception const& e) { msg = std::string("unexpected exception: ") + e.what(); return failed; }
    catch (...) { msg = "unexpected exception of unknown type"; return failed; }
  }

  Shared* make_shared_mem()
  {
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
    return static_cast<Shared*>(m);
  }

  void set_msg(Shared* sh, std::string const& m)
  {
    std::size_t n = std::min(m.size(), sizeof(sh->msg) - 1);
    std::memcpy(sh->msg, m.data(), n);
    sh->msg_len = static_cast<std::uint32_t>(n);
  }

  void quiet_stdio(std::string const& err)
  {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); close(fd); }
    fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
  }

  std::string read_file(std::string const& p, std::size_t max = 1 << 20)
  {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s.size() > max) s.resize(max);
    return s;
  }

  std::string summarise_stderr(std::string const& path)
  {
    std::string s = read_file(path);
    std::istringstream in(s);
    std::string line, r;
    while (std::getline(in, line))
      if (line.find("runtime error") != line.npos || line.find("ERROR:") != line.npos
          || line.find("SUMMARY") != line.npos || line.find("terminate called") != line.npos
          || line.find("what():") != line.npos || line.find("ssertion") != line.npos
          || line.find("READ of size") != line.npos || line.find("WRITE of size") != line.npos)
      { if (r.size() < 800) { r += line; r += " | "; } }
    return r.empty() ? s.substr(0, 300) : r;
  }

  struct Failure
  {
    bool found = false;
    std::size_t prop = 0;
    std::vector<Choice> choices;
    std::string msg, notes;
    bool hang = false;
  };

  double cpu_of(pid_t pid)
  {
    std::string s = read_file("/proc/" + std::to_string(pid) + "/stat");
    auto e = s.rfind(')');
    if (e == s.npos) return 0;
    std::istringstream in(s.substr(e + 2));
    std::string w; double u = 0, k = 0;
    for (int i = 0; i < 11; i++) in >> w;
    in >> u >> k;
    return (u + k) / sysconf(_SC_CLK_TCK);
  }

  std::string tmpdir;

  // run one case in a child; true when it fails
  bool run_isolated(std::size_t p, std::vector<Choice> const& c, Failure& f, Shared* sh, double limit = 20)
  {
    std::string err = tmpdir + "/iso.err";
    sh->done = 0; sh->msg_len = 0; sh->notes_len = 0; sh->count = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
      quiet_stdio(err);
      std::string msg;
      Src s(c, sh);
      Outcome o = run_case(p, s, msg);
      set_msg(sh, msg);
      sh->done = 1 + o;
      _exit(0);
    }
    auto t0 = clk::now();
    int st = 0;
    bool hang = false;
    for (useconds_t nap = 200;; )
    {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      double el = std::chrono::duration<double>(clk::now() - t0).count();
      if (el > limit && (cpu_of(pid) > limit * 0.5 || el > 4 * limit))
      { hang = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
      usleep(nap);
      if (nap < 5000) nap += 200;
    }
    bool bad = hang || sh->done == 0 || sh->done == 1 + failed;
    if (!bad) return false;
    f.found = true;
    f.prop = p;
    f.hang = hang;
    f.choices.assign(sh->choices, sh->choices + sh->count);
    f.notes.assign(sh->notes, sh->notes_len);
    if (hang) f.msg = "no progress: the case did not finish";
    else if (sh->done == 0)
    {
      f.msg = "process died: " + std::string(WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)));
      f.msg += " " + summarise_stderr(err);
    }
    else f.msg.assign(sh->msg, sh->msg_len);
    return true;
  }

  bool smaller(std::vector<Choice> const& a, std::vector<Choice> const& b)
  {
    if (a.size() != b.size()) return a.size() < b.size();
    for (std::size_t i = 0; i < a.size(); i++)
      if (a[i].value != b[i].value) return a[i].value < b[i].value;
    return false;
  }

  void shrink(Failure& f, Shared* sh, double limit_s)
  {
    auto t0 = clk::now();
    auto left = [&] { return std::chrono::duration<double>(clk::now() - t0).count() < limit_s; };
    if (f.hang) return;
    bool is_known_text = f.msg.rfind("process died", 0) == 0;
    auto attempt = [&](std::vector<Choice> const& c)
    {
      Failure g;
      if (!run_isolated(f.prop, c, g, sh)) return false;
      if (g.hang) return false;
      // do not slip from a logical failure to a crash or back
      if ((g.msg.rfind("process died", 0) == 0) != is_known_text) return false;
      if (!smaller(g.choices, f.choices)) return false;
      f = g;
      return true;
    };
    bool progress = true;
    while (progress && left())
    {
      progress = false;
      // delete chunks
      for (std::size_t n : {64, 32, 16, 8, 4, 3, 2, 1})
        for (std::size_t i = 0; i + n <= f.choices.size() && left(); )
        {
          auto c = f.choices;
          c.erase(c.begin() + i, c.begin() + i + n);
          if (attempt(c)) progress = true; else i += (n > 4 ? n / 2 : 1);
        }
      // zero chunks
      for (std::size_t n : {16, 4, 1})
        for (std::size_t i = 0; i + n <= f.choices.size() && left(); i++)
        {
          auto c = f.choices;
          bool any = false;
          for (std::size_t j = i; j < i + n; j++) { any = any || c[j].value; c[j].value = 0; }
          if (any && attempt(c)) progress = true;
        }
      // reduce values
      for (std::size_t i = 0; i < f.choices.size() && left(); i++)
      {
        std::uint64_t lo = 0, hi = f.choices[i].value;
        int tries = 0;
        while (lo < hi && left() && tries++ < 24)
        {
          std::uint64_t mid = lo + (hi - lo) / 2;
          auto c = f.choices;
          if (i >= c.size()) break;
          c[i].value = mid;
          if (attempt(c)) { progress = true; if (i >= f.choices.size()) break; hi = f.choices[i].value; }
          else lo = mid + 1;
        }
      }
      // drop a list element: decrement an earlier length and delete a later choice
      for (std::size_t i = 0; i < f.choices.size() && left(); i++)
      {
        if (f.choices[i].value == 0 || f.choices[i].bound > 4096) continue;
        for (std::size_t n = 1; n <= 6 && left(); n++)
          for (std::size_t j = i + 1; j + n <= f.choices.size() && j < i + 12 && left(); j++)
          {
            auto c = f.choices;
            c[i].value--;
            c.erase(c.begin() + j, c.begin() + j + n);
            if (attempt(c)) { progress = true; if (i >= f.choices.size() || f.choices[i].value == 0) goto next; }
          }
        next:;
      }
    }
  }

  struct PropStats
  {
    long evals = 0, rejected = 0, nontrivial = 0;
    bool exhausted = false;
    std::map<std::string, long> labels;
    std::map<std::string, long> known;
    std::vector<std::pair<std::string, int>> samples;
  };

  // next choice sequence in lexicographic order
  bool next_sequence(std::vector<Choice>& c)
  {
    while (!c.empty())
    {
      auto& x = c.back();
      if (x.bound != 0 && x.value + 1 < x.bound) { x.value++; return true; }
      c.pop_back();
    }
    return false;
  }

  void worker(int id, int n, Shared* sh, std::string const& file, volatile std::uint32_t* stop)
  {
    quiet_stdio(tmpdir + "/w" + std::to_string(id) + ".err");
    auto t0 = clk::now();
    auto& reg = registry();
    std::vector<PropStats> st(reg.size());
    std::unordered_set<std::uint64_t> seen;
    std::ofstream hashes(file + ".hash", std::ios::binary);

    auto one = [&](std::size_t p, Src& s) -> bool
    {
      std::string msg;
      sh->case_kind = static_cast<std::uint32_t>(p);
      sh->progress = sh->progress + 1;
      Outcome o = run_case(p, s, msg);
      auto& S = st[p];
      for (auto const& k : s.known_hits) S.known[k]++;
      if (o == failed)
      {
        set_msg(sh, msg);
        sh->done = 2;
        *stop = 1;
        return false;
      }
      if (o == rejected) { S.rejected++; return true; }
      S.evals++;
      for (auto& l : s.labels) S.labels[l]++;
      if (s.is_nontrivial)
      {
        auto h = hash_choices(p, s.rec);
        if (seen.insert(h).second)
        {
          hashes.write(reinterpret_cast<char const*>(&h), sizeof h);
          S.nontrivial++;
          if (S.samples.size() < 2 || (S.nontrivial % 97 == 0 && S.samples.size() < 3))
            S.samples.push_back({s.description().substr(0, 400), 0});
        }
      }
      return true;
    };

    // properties are interleaved in slices so that a time cap hits all of them alike
    std::vector<long> next(reg.size(), 0), total(reg.size(), 0);
    std::vector<char> fin(reg.size(), 0);
    double weight_sum = 0;
    for (std::size_t p = 0; p < reg.size(); p++)
    {
      total[p] = static_cast<long>((opt.thorough ? reg[p].thorough : reg[p].quick) * opt.scale);
      weight_sum += 1;
      if (!opt.only.empty() && opt.only != reg[p].name) fin[p] = 1;
    }
    // exhaustive enumerations first, spread over the workers
    for (std::size_t p = 0; p < reg.size(); p++)
    {
      if (fin[p] || total[p] >= 0) continue;
      fin[p] = 1;
      if (static_cast<int>(p % n) != id) continue;
      std::vector<Choice> c;
      long left = -total[p];
      for (;;)
      {
        Src s(c, sh);
        if (!one(p, s)) goto out;
        c = s.rec;
        if (*stop) goto out;
        if (!next_sequence(c)) { st[p].exhausted = true; break; }
        if (--left <= 0 || std::chrono::duration<double>(clk::now() - t0).count() > opt.budget_s) break;
      }
    }
    for (bool any = true; any; )
    {
      any = false;
      for (std::size_t p = 0; p < reg.size(); p++)
      {
        if (fin[p]) continue;
        auto slice_end = clk::now() + std::chrono::milliseconds(300);
        while (!fin[p] && clk::now() < slice_end)
        {
          long k = next[p]++ * n + id;
          if (k >= total[p]) { fin[p] = 1; break; }
          Src s(Rng(hash_str(reg[p].name, opt.seed * 1000003 + 17) + static_cast<std::uint64_t>(k)).next(), sh);
          if (!one(p, s)) goto out;
          if (*stop) goto out;
        }
        if (!fin[p]) any = true;
      }
      if (std::chrono::duration<double>(clk::now() - t0).count() > opt.budget_s) break;
    }
  out:
    hashes.close();
    std::ofstream o(file);
    for (std::size_t p = 0; p < reg.size(); p++)
    {
      auto& S = st[p];
      o << "P " << p << ' ' << S.evals << ' ' << S.rejected << ' ' << S.exhausted << '\n';
      for (auto& [k, v] : S.labels) o << "L " << p << ' ' << v << ' ' << k << '\n';
      for (auto& [k, v] : S.known) o << "K " << p << ' ' << v << ' ' << k << '\n';
      for (auto& x : S.samples)
      {
        std::string t = x.first;
        for (auto& ch : t) if (ch == '\n') ch = ' ';
        o << "S " << p << ' ' << t << '\n';
      }
    }
    o.close();
    if (sh->done != 2) sh->done = 1;
    _exit(0);
  }

  void write_replay(std::string const& path, Failure const& f)
  {
    std::ofstream o(path);
    o << "# vf replay: shrunk choice sequence of one failing case\n";
    o << "prop " << registry()[f.prop].name << "\n";
    std::string m = f.msg, n = f.notes;
    for (auto* t : {&m, &n}) for (auto& c : *t) if (c == '\n') c = ' ';
    o << "what " << m << "\n";
    o << "case " << n << "\n";
    o << "choices";
    for (auto const& c : f.choices) o << ' ' << c.value << '/' << c.bound;
    o << "\n";
  }

  bool load_replay(std::string const& path, std::string& prop, std::vector<Choice>& c)
  {
    std::ifstream in(path);
    std::string line;
    bool got = false;
    while (std::getline(in, line))
    {
      if (line.rfind("prop ", 0) == 0) prop = line.substr(5);
      if (line.rfind("choices", 0) == 0)
      {
        got = true;
        std::istringstream s(line.substr(7));
        std::string w;
        while (s >> w)
        {
          auto k = w.find('/');
          c.push_back({std::stoull(w.substr(0, k)), std::stoull(w.substr(k + 1))});
        }
      }
    }
    return got;
  }

  int find_prop(std::string const& n)
  {
    for (std::size_t i = 0; i < registry().size(); i++)
      if (n == registry()[i].name) return static_cast<int>(i);
    return -1;
  }
}

#ifdef VF_FUZZ
extern "C" int LLVMFuzzerTestOneInput(unsigned char const* data, std::size_t size)
{
  static int p = [] {
    char const* n = std::getenv("VF_FUZZ_PROP");
    int i = n ? find_prop(n) : 0;
    if (i < 0) { std::fprintf(stderr, "no such prop\n"); std::exit(3); }
    return i;
  }();
  Src s(data, size);
  std::string msg;
  if (run_case(static_cast<std::size_t>(p), s, msg) == failed)
  {
    std::fprintf(stderr, "VF-FAIL %s\n", msg.c_str());
    std::abort();
  }
  return 0;
}
#else
int main(int argc, char** argv)
{
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") opt.seed = std::stoull(val());
    else if (a == "--tier") opt.thorough = val() == "thorough";
    else if (a == "--budget") opt.budget_s = std::stod(val());
    else if (a == "--workers") opt.workers = std::stoi(val());
    else if (a == "--out") opt.out = val();
    else if (a == "--replay-dir") opt.replay_dir = val();
    else if (a == "--replay") opt.replay = val();
    else if (a == "--only") opt.only = val();
    else if (a == "--scale") opt.scale = std::stod(val());
    else if (a == "--known") opt.known.push_back(val());
    else if (a == "--from-bytes") opt.from_bytes = val();
    else if (a == "--list") { for (auto& p : registry()) std::cout << p.name << "\n"; return 0; }
    else { std::cerr << "unknown option " << a << "\n"; return 3; }
  }
  char tmpl[] = "/tmp/vf.XXXXXX";
  if (!mkdtemp(tmpl)) { std::perror("mkdtemp"); return 3; }
  tmpdir = tmpl;
#ifdef VF_ASAN
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#else
  (void)on_malloc; (void)on_free;
#endif
  auto t0 = clk::now();
  auto cleanup = [&]
  {
    std::string c;
    for (int w = 0; w < opt.workers; w++)
      for (char const* e : {".err", ".st", ".st.hash"})
        unlink((tmpdir + "/w" + std::to_string(w) + e).c_str());
    unlink((tmpdir + "/iso.err").c_str());
    rmdir(tmpdir.c_str());
  };

  Shared* iso = make_shared_mem();

  if (!opt.replay.empty() || !opt.from_bytes.empty())
  {
    std::string prop = opt.only;
    std::vector<Choice> c;
    if (!opt.replay.empty())
    {
      if (!load_replay(opt.replay, prop, c)) { std::cerr << "bad replay file\n"; cleanup(); return 3; }
    }
    int p = find_prop(prop);
    if (p < 0) { std::cerr << "no property " << prop << "\n"; cleanup(); return 3; }
    if (!opt.from_bytes.empty())
    {
      // find the choices a fuzzer input stands for: run it in a child
      std::string data = read_file(opt.from_bytes);
      pid_t pid = fork();
      if (pid == 0)
      {
        quiet_stdio(tmpdir + "/iso.err");
        Src s(reinterpret_cast<unsigned char const*>(data.data()), data.size());
        s.attach(iso);
        std::string msg;
        run_case(static_cast<std::size_t>(p), s, msg);
        _exit(0);
      }
      int st; waitpid(pid, &st, 0);
      c.assign(iso->choices, iso->choices + iso->count);
    }
    Failure f;
    bool bad = run_isolated(static_cast<std::size_t>(p), c, f, iso);
    if (bad && !opt.from_bytes.empty())
    {
      shrink(f, iso, 30);
      std::string path = opt.replay_dir + "/" + prop + ".replay";
      write_replay(path, f);
      std::cout << "REPLAY " << path << "\n";
    }
    std::cout << (bad ? "FAIL " + f.msg + "\n  case: " + f.notes : std::string("PASS")) << "\n";
    cleanup();
    return bad ? 1 : 0;
  }

  auto* stop = static_cast<std::uint32_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<Shared*> sh;
  std::vector<pid_t> pids;
  std::vector<std::string> files;
  for (int w = 0; w < opt.workers; w++)
  {
    sh.push_back(make_shared_mem());
    files.push_back(tmpdir + "/w" + std::to_string(w) + ".st");
    pid_t pid = fork();
    if (pid == 0) worker(w, opt.workers, sh[w], files[w], stop);
    pids.push_back(pid);
  }

  Failure fail;
  int alive = opt.workers;
  std::vector<std::uint64_t> last(opt.workers, 0);
  std::vector<clk::time_point> when(opt.workers, clk::now());
  std::vector<double> cpu(opt.workers, 0);
  std::vector<char> up(opt.workers, 1);
  while (alive > 0)
  {
    usleep(2000);
    for (int w = 0; w < opt.workers; w++)
    {
      if (!up[w]) continue;
      int st = 0;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool hang = false;
      if (r == 0)
      {
        if (sh[w]->progress != last[w]) { last[w] = sh[w]->progress; when[w] = clk::now(); cpu[w] = -1; continue; }
        double el = std::chrono::duration<double>(clk::now() - when[w]).count();
        if (el < 1) continue;
        if (cpu[w] < 0) cpu[w] = cpu_of(pids[w]);
        if ((el > 40 && cpu_of(pids[w]) - cpu[w] > 25) || el > 150)
        {
          hang = true;
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
        }
        else continue;
      }
      up[w] = 0; alive--;
      bool died = hang || sh[w]->done == 0;
      if (!fail.found && (died || sh[w]->done == 2))
      {
        *stop = 1;
        fail.found = true;
        fail.hang = hang;
        fail.prop = sh[w]->case_kind;
        fail.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->count);
        fail.notes.assign(sh[w]->notes, sh[w]->notes_len);
        if (hang) fail.msg = "no progress: the case did not finish";
        else if (died)
          fail.msg = "process died: " + std::string(WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)))
            + " " + summarise_stderr(tmpdir + "/w" + std::to_string(w) + ".err");
        else fail.msg.assign(sh[w]->msg, sh[w]->msg_len);
      }
    }
  }

  // merge
  auto& reg = registry();
  std::vector<PropStats> st(reg.size());
  std::unordered_set<std::uint64_t> all;
  for (int w = 0; w < opt.workers; w++)
  {
    std::ifstream in(files[w]);
    std::string line;
    while (std::getline(in, line))
    {
      std::istringstream s(line);
      char k; std::size_t p;
      s >> k >> p;
      if (p >= reg.size()) continue;
      if (k == 'P') { long a, b; int e; s >> a >> b >> e; st[p].evals += a; st[p].rejected += b; st[p].exhausted = st[p].exhausted || e; }
      else if (k == 'L' || k == 'K') { long v; s >> v; std::string t; std::getline(s >> std::ws, t); (k == 'L' ? st[p].labels : st[p].known)[t] += v; }
      else if (k == 'S') { std::string t; s.get(); std::getline(s, t); if (st[p].samples.size() < 3) st[p].samples.push_back({t, 0}); }
    }
    std::ifstream h(files[w] + ".hash", std::ios::binary);
    std::uint64_t v;
    while (h.read(reinterpret_cast<char*>(&v), sizeof v)) all.insert(v);
  }

  std::string replay_path;
  bool flaky = false;
  if (fail.found)
  {
    // confirm on the exact choices, then shrink, then confirm thrice
    Failure again;
    if (fail.hang || run_isolated(fail.prop, fail.choices, again, iso, 30))
    {
      if (!fail.hang) fail = again;
      shrink(fail, iso, opt.thorough ? 120 : 45);
      int n = 0;
      if (!fail.hang)
        for (int i = 0; i < 3; i++) { Failure g; n += run_isolated(fail.prop, fail.choices, g, iso); }
      else n = 3;
      if (n != 3) flaky = true;
    }
    else flaky = true;
    replay_path = opt.replay_dir + "/" + reg[fail.prop].name + ".replay";
    write_replay(replay_path, fail);
    std::cerr << "FAILED " << reg[fail.prop].name << ": " << fail.msg << "\n  case: " << fail.notes << "\n  replay: " << replay_path
              << (flaky ? " (did not reproduce every time in isolation)" : "") << "\n";
  }

  if (!opt.out.empty())
  {
    std::ofstream o(opt.out);
    o << "{\"wall_s\": " << std::chrono::duration<double>(clk::now() - t0).count();
    o << ", \"distinct_nontrivial\": " << all.size();
    o << ", \"failed\": " << (fail.found ? "true" : "false") << ", \"flaky\": " << (flaky ? "true" : "false");
    if (fail.found)
      o << ", \"failure\": {\"prop\": " << json_str(reg[fail.prop].name) << ", \"msg\": " << json_str(fail.msg)
        << ", \"case\": " << json_str(fail.notes) << ", \"replay\": " << json_str(replay_path) << "}";
    o << ", \"props\": [";
    for (std::size_t p = 0; p < reg.size(); p++)
    {
      if (p) o << ", ";
      o << "{\"name\": " << json_str(reg[p].name) << ", \"evaluations\": " << st[p].evals
        << ", \"discarded\": " << st[p].rejected << ", \"exhausted\": " << (st[p].exhausted ? "true" : "false") << ", \"labels\": {";
      bool first = true;
      for (auto& [k, v] : st[p].labels) { if (!first) o << ", "; first = false; o << json_str(k) << ": " << v; }
      o << "}, \"known\": {";
      first = true;
      for (auto& [k, v] : st[p].known) { if (!first) o << ", "; first = false; o << json_str(k) << ": " << v; }
      o << "}, \"samples\": [";
      first = true;
      for (auto& x : st[p].samples) { if (!first) o << ", "; first = false; o << json_str(x.first); }
      o << "]}";
    }
    o << "]}\n";
  }
  cleanup();
  return fail.found ? 1 : 0;
}
#endif
