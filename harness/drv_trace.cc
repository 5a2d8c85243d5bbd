// C25: trace collection. C26: the trace document.
// The monitor stamps the clock around every construction and destruction of a traced scope without
// synchronizing the threads with each other, so that ThreadSanitizer still sees the library's own races.
#include <atomic>
#include <chrono>
#include <deque>
#include <memory>
#include <thread>

#include <sched.h>
#include <sys/syscall.h>

#include <nlohmann/json.hpp>

#include "mini_opt/tracing.hpp"
#include "vh.hpp"

using namespace mini_opt;
using json = nlohmann::json;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;
static constexpr size_t LIMIT = 100000;

struct Event {
  std::string name;
  int64_t ts = 0, dur = 0;
  uint32_t pid = 0, tid = 0;
  bool operator==(const Event& o) const { return name == o.name && ts == o.ts && dur == o.dur && pid == o.pid && tid == o.tid; }
};

static bool to_int(const json& j, int64_t& out) {
  if (j.is_number_unsigned()) {
    const uint64_t v = j.get<uint64_t>();
    if (v > 9223372036854775807ull) return false;
    out = static_cast<int64_t>(v);
    return true;
  }
  if (j.is_number_integer()) {
    out = j.get<int64_t>();
    return true;
  }
  if (j.is_number_float()) {
    const double d = std::floor(j.get<double>());
    if (!(std::fabs(d) < 9e18)) return false;
    out = static_cast<int64_t>(d);
    return true;
  }
  return false;
}

// Reads a dump. Returns what is wrong with it, or "".
static std::string read_dump(const std::string& text, std::vector<Event>& out) {
  out.clear();
  const json j = json::parse(text, nullptr, false);
  if (j.is_discarded()) {
    try {
      const json k = json::parse(text);
    } catch (const std::exception& e) {
      return std::string("not JSON: ") + e.what();
    }
    return "not JSON";
  }
  if (!j.is_object() || !j.contains("traceEvents") || !j["traceEvents"].is_array()) return "no array of events";
  if (!j.contains("displayTimeUnit") || j["displayTimeUnit"] != "ns") return "no time unit";
  for (auto& e : j["traceEvents"]) {
    if (!e.is_object()) return "an event is not an object";
    for (auto k : {"name", "ph", "ts", "pid", "tid", "dur"})
      if (!e.contains(k)) return std::string("an event has no ") + k;
    if (e["ph"] != "X") return "not a complete event";
    if (!e["name"].is_string()) return "the name is not a string";
    Event v;
    v.name = e["name"].get<std::string>();
    int64_t pid, tid;
    if (!to_int(e["ts"], v.ts) || !to_int(e["dur"], v.dur) || !to_int(e["pid"], pid) || !to_int(e["tid"], tid)) return "a number is missing";
    v.pid = static_cast<uint32_t>(pid);
    v.tid = static_cast<uint32_t>(tid);
    if (pid != v.pid || tid != v.tid) return "an id is out of range";
    out.push_back(std::move(v));
  }
  return "";
}

// ---------------------------------------------------------------- traced scopes
static int64_t wall_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count(); }
static int64_t mono_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static uint32_t my_tid() { return static_cast<uint32_t>(syscall(SYS_gettid)); }

struct Rec {
  std::string name;
  int64_t ctor0 = 0, ctor1 = 0, dtor0 = 0, dtor1 = 0;      // wall clock
  int64_t mono0 = 0, mono1 = 0;                            // around the destruction
  bool normal = false;
};

struct ThreadLog {
  std::deque<Rec> recs;     // in order of construction, stable addresses
  std::deque<Rec*> ended;   // in order of destruction, those that ended normally
  std::deque<std::string>* names = nullptr;
  long left_by_exception = 0, in_unwinding = 0;
  uint32_t tid = 0;
  Rng rng{1};
  int budget = 0;
  std::string prefix;
};

struct Before {
  Rec& r;
  explicit Before(Rec& rec) : r(rec) { r.ctor0 = wall_ns(); }
  ~Before() {
    r.mono1 = mono_ns();
    r.dtor1 = wall_ns();
    log->recs_ended(r);
  }
  struct Sink {
    ThreadLog& l;
    void recs_ended(Rec& r) {
      if (r.normal) l.ended.push_back(&r);
      else ++l.left_by_exception;
    }
  };
  Sink* log = nullptr;
};
struct Inside {
  Rec& r;
  explicit Inside(Rec& rec) : r(rec) { r.ctor1 = wall_ns(); }
  ~Inside() {
    r.dtor0 = wall_ns();
    r.mono0 = mono_ns();
  }
};

struct Boom {
  int depth;
};

static void program(ThreadLog& log, int depth);

struct TracesWhenDestroyed {
  ThreadLog& log;
  int depth;
  ~TracesWhenDestroyed() {
    if (std::uncaught_exceptions() > 0) ++log.in_unwinding;
    try {
      program(log, depth);
    } catch (const Boom&) {
    }
  }
};

#define SCOPE_BODY(trace)                 \
  Before::Sink sink{log};                 \
  Before before(rec);                     \
  before.log = &sink;                     \
  trace;                                  \
  Inside inside(rec);                     \
  program(log, depth + 1);                \
  if (log.rng.chance(0.08)) throw Boom{depth}; \
  rec.normal = true;

static void traced_function(ThreadLog& log, int depth, Rec& rec) {
  rec.name = __FUNCTION__;
  SCOPE_BODY(MINI_OPT_FUNCTION_TRACE())
}

static void scope(ThreadLog& log, int depth) {
  log.recs.emplace_back();
  Rec& rec = log.recs.back();
  switch (log.rng.irange(0, 7)) {
    case 0: {
      rec.name = "fixed_name";
      SCOPE_BODY(MINI_OPT_SCOPED_TRACE(fixed_name))
      return;
    }
    case 1:
      traced_function(log, depth, rec);
      return;
    case 2: {
      // two scopes next to each other in one block
      log.recs.emplace_back();
      Rec& second = log.recs.back();
      rec.name = "first of two";
      second.name = "second of two";
      Before::Sink sink{log};
      Before b1(rec);
      b1.log = &sink;
      MINI_OPT_SCOPED_TRACE_STR("first of two");
      Inside i1(rec);
      Before b2(second);
      b2.log = &sink;
      MINI_OPT_SCOPED_TRACE_STR("second of two");
      Inside i2(second);
      if (log.rng.chance(0.05)) throw Boom{depth};
      rec.normal = second.normal = true;
      return;
    }
    default: {
      log.names->push_back(log.prefix + std::to_string(log.recs.size()));
      rec.name = log.names->back();
      const std::string_view view = log.names->back();
      SCOPE_BODY(MINI_OPT_SCOPED_TRACE_STR(view))
      return;
    }
  }
}

static void program(ThreadLog& log, int depth) {
  const int n = depth > 12 ? 0 : log.rng.irange(0, depth == 0 ? 6 : 3);
  for (int i = 0; i < n && log.budget > 0; ++i) {
    --log.budget;
    if (log.rng.chance(0.05)) sched_yield();
    if (log.rng.chance(0.01)) std::this_thread::sleep_for(std::chrono::microseconds(log.rng.irange(1, 200)));
    const int kind = log.rng.irange(0, 5);
    if (kind == 0) {
      try {
        scope(log, depth);
      } catch (const Boom&) {
        scope(log, depth + 6);  // inside the handler, with the exception already caught
      }
    } else if (kind == 1) {
      try {
        TracesWhenDestroyed d{log, depth + 5};
        scope(log, depth);
        if (log.rng.chance(0.3)) throw Boom{depth};
      } catch (const Boom&) {
      }
    } else {
      scope(log, depth);
    }
  }
}

static void run_thread(ThreadLog& log) {
  log.tid = my_tid();
  int rounds = 0;
  while (log.budget > 0 && ++rounds < 100000) {
    try {
      program(log, 0);
    } catch (const Boom&) {
    }
    --log.budget;
  }
}

// Everything the global collector held when it was last looked at.
static std::vector<Event> g_held;
static std::deque<std::string> g_names;  // names of events that are never freed

struct Dump {
  int64_t mono0, mono1;
  std::string text;
};

static std::string show(const Event& e) { return strf("{\"%s\" ts=%lld dur=%lld pid=%u tid=%u}", e.name.c_str(), static_cast<long long>(e.ts), static_cast<long long>(e.dur), e.pid, e.tid); }

static void global_case(Rng& rng, int threads, int dumpers, int budget) {
  trace_collector* collector = nullptr;
  std::vector<std::unique_ptr<ThreadLog>> logs;
  std::vector<std::deque<std::string>> names(static_cast<size_t>(threads));
  for (int t = 0; t < threads; ++t) {
    auto log = std::make_unique<ThreadLog>();
    log->rng = Rng(rng.next());
    log->budget = budget;
    log->names = &names[static_cast<size_t>(t)];
    log->prefix = strf("e%ld_%d_", R->case_index(), t);
    logs.push_back(std::move(log));
  }
  std::vector<std::vector<Dump>> dumps(static_cast<size_t>(dumpers));
  if (threads == 1 && dumpers == 0 && rng.chance(0.5)) {
    run_thread(*logs[0]);
  } else {
    std::atomic<int> ready{0}, finished{0};
    const int all = threads + dumpers;
    std::vector<std::thread> pool;
    for (int t = 0; t < threads; ++t)
      pool.emplace_back([&, t] {
        ready.fetch_add(1);
        while (ready.load() < all) sched_yield();
        run_thread(*logs[static_cast<size_t>(t)]);
        // stay alive until everybody is done, so that thread ids are not reused
        finished.fetch_add(1);
        while (finished.load() < threads) std::this_thread::sleep_for(std::chrono::microseconds(50));
      });
    for (int d = 0; d < dumpers; ++d)
      pool.emplace_back([&, d] {
        ready.fetch_add(1);
        while (ready.load() < all) sched_yield();
        for (int k = 0; k < 12; ++k) {
          Dump dump;
          dump.mono0 = mono_ns();
          dump.text = trace_collector::get_instance()->get_trace_json();
          dump.mono1 = mono_ns();
          dumps[static_cast<size_t>(d)].push_back(std::move(dump));
          if (finished.load(std::memory_order_relaxed) == threads) break;
          std::this_thread::sleep_for(std::chrono::microseconds(100));
        }
      });
    for (auto& t : pool) t.join();
  }
  for (auto& n : names)
    for (auto& s : n) (void)s;
  collector = trace_collector::get_instance();
  if (collector == nullptr || collector != trace_collector::get_instance()) {
    R->violation("C25", "instance", "the global collector is not one object");
    return;
  }
  // names must outlive the events: keep them for the rest of the process
  static std::deque<std::vector<std::deque<std::string>>> graveyard;
  graveyard.push_back(std::move(names));

  std::vector<Event> final_events;
  const std::string final_text = collector->get_trace_json();
  std::string problem = read_dump(final_text, final_events);
  if (!problem.empty()) {
    R->violation("C26", "malformed", problem);
    R->violation("C25", "malformed", problem);
    return;
  }
  size_t total = 0;
  for (auto& l : logs) total += l->ended.size();
  // 1. what the collector holds: the newest of what it held before and of this case's events
  const size_t have = std::min(LIMIT, g_held.size() + total);
  const size_t fresh = std::min(total, LIMIT);
  const size_t kept = have - fresh;
  if (final_events.size() != have) {
    R->violation("C25", "count", strf("%zu events are held, %zu were there before, %zu scopes ended normally (%d threads), so %zu should be", final_events.size(), g_held.size(), total, threads, have));
    g_held = final_events;
    return;
  }
  for (size_t i = 0; i < kept; ++i) {
    const Event& want = g_held[g_held.size() - kept + i];
    if (!(final_events[i] == want)) {
      R->violation("C25", "history", strf("event %zu of the dump was ", i) + show(want) + " and is now " + show(final_events[i]));
      break;
    }
  }
  // 2. every thread's events, in the order in which its scopes ended
  std::map<uint32_t, std::vector<size_t>> by_tid;
  for (size_t i = kept; i < final_events.size(); ++i) by_tid[final_events[i].tid].push_back(i);
  std::vector<const Rec*> rec_of(final_events.size(), nullptr);
  const uint32_t pid = static_cast<uint32_t>(getpid());
  bool matched = true;
  for (auto& l : logs) {
    const auto& mine = by_tid[l->tid];
    const size_t skipped = total > LIMIT && l->ended.size() >= mine.size() ? l->ended.size() - mine.size() : 0;
    if (mine.size() + skipped != l->ended.size()) {
      R->violation("C25", "lost", strf("thread %u ended %zu scopes but %zu of its events are held", l->tid, l->ended.size(), mine.size()));
      matched = false;
      continue;
    }
    for (size_t k = 0; k < mine.size(); ++k) {
      const Event& e = final_events[mine[k]];
      const Rec& r = *l->ended[k + skipped];
      rec_of[mine[k]] = &r;
      const std::string what = show(e) + strf(" for scope \"%s\" constructed in [%lld,%lld] destroyed in [%lld,%lld] ns", r.name.c_str(),
                                              static_cast<long long>(r.ctor0), static_cast<long long>(r.ctor1), static_cast<long long>(r.dtor0),
                                              static_cast<long long>(r.dtor1));
      if (e.name != r.name) {
        R->violation("C25", "name", what);
        matched = false;
        break;
      }
      if (e.pid != pid) R->violation("C25", "pid", what);
      const bool clock_ok = r.ctor0 <= r.ctor1 && r.ctor1 <= r.dtor0 && r.dtor0 <= r.dtor1;  // nobody set the clock
      if (clock_ok) {
        if (e.ts < r.ctor0 / 1000 || e.ts > r.ctor1 / 1000) R->violation("C25", "start", what);
        if (e.dur < (r.dtor0 - r.ctor1) / 1000 || e.dur > (r.dtor1 - r.ctor0) / 1000) R->violation("C25", "duration", what);
        if (e.dur < 0) R->violation("C25", "negative-duration", what);
        R->count("scopes-checked");
      }
    }
    R->count("left-by-exception", l->left_by_exception);
    R->count("ended-in-unwinding", l->in_unwinding);
  }
  for (auto& kv : by_tid) {
    bool known = false;
    for (auto& l : logs) known = known || l->tid == kv.first;
    if (!known) R->violation("C25", "thread-id", strf("%zu events carry thread id %u, which no tracing thread has", kv.second.size(), kv.first));
  }
  // 3. submission order across threads
  if (matched) {
    int64_t latest = 0;
    uint64_t sig = 0;
    for (size_t i = kept; i < final_events.size(); ++i) {
      const Rec* r = rec_of[i];
      if (r == nullptr) continue;
      if (r->mono1 < latest) {
        R->violation("C25", "order", strf("event %zu (\"%s\") ended before an event that precedes it in the dump had begun to end", i, r->name.c_str()));
        break;
      }
      latest = std::max(latest, r->mono0);
      size_t who = 0;
      while (who < logs.size() && logs[who]->tid != final_events[i].tid) ++who;
      sig = vh::mix64(sig * 31 + who);
      if (i > kept && final_events[i].tid != final_events[i - 1].tid) R->count("thread-switches");
    }
    R->distinct(vh::mix64(sig ^ total ^ vh::hash_str(kept < final_events.size() ? final_events.back().name : "")), "C25");
  }
  // 4. dumps taken meanwhile are prefixes of the final order, and as long as the clock demands
  for (auto& list : dumps)
    for (auto& d : list) {
      std::vector<Event> held;
      problem = read_dump(d.text, held);
      if (!problem.empty()) {
        R->violation("C25", "torn-dump", "a dump taken while others were tracing is malformed: " + problem);
        R->violation("C26", "malformed", problem);
        continue;
      }
      R->count("concurrent-dumps");
      if (have == LIMIT) continue;  // (the window is not known)
      if (held.size() < kept || held.size() > final_events.size()) {
        R->violation("C25", "dump-size", strf("a concurrent dump holds %zu events, before there were %zu and afterwards %zu", held.size(), kept, final_events.size()));
        continue;
      }
      for (size_t i = 0; i < held.size(); ++i)
        if (!(held[i] == final_events[i])) {
          R->violation("C25", "dump-order", strf("event %zu of a concurrent dump is ", i) + show(held[i]) + " and finally " + show(final_events[i]));
          break;
        }
      if (held.size() > kept && held.size() < final_events.size()) R->count("dumps-in-between");
      if (!matched) continue;
      for (size_t i = kept; i < final_events.size(); ++i) {
        const Rec* r = rec_of[i];
        if (r == nullptr) continue;
        if (r->mono1 < d.mono0 && i >= held.size()) {
          R->violation("C25", "dump-misses", strf("scope \"%s\" had ended before the dump was requested but is not in it", r->name.c_str()));
          break;
        }
        if (r->mono0 > d.mono1 && i < held.size()) {
          R->violation("C25", "dump-early", strf("scope \"%s\" had not ended when the dump returned but is in it", r->name.c_str()));
          break;
        }
      }
    }
  if (collector->get_trace_json() != final_text) R->violation("C25", "dump-changes", "dumping twice gives different documents");
  R->count("traced-events", static_cast<long>(total));
  if (R->case_index() < 12) R->sample(strf("%d tracing and %d dumping threads, %zu events, %zu held", threads, dumpers, total, have));
  g_held = std::move(final_events);
}

// ---------------------------------------------------------------- collectors of our own
static trace_event make_event(const std::string& name, int64_t ts, uint32_t pid, uint32_t tid, int64_t dur) {
  trace_event e{};
  e.name = name;
  e.ts = ts;
  e.pid = pid;
  e.tid = tid;
  e.dur_ns = dur;
  return e;
}

// The collector type can not be destroyed outside of the library, so these are leaked.
static void submit_case(Rng& rng, int threads, long each) {
  auto* a = new trace_collector();
  auto* b = rng.chance(0.5) ? new trace_collector() : nullptr;
  static const std::string name = "event", other = "other";
  std::vector<std::thread> pool;
  std::atomic<int> ready{0};
  std::vector<long> counts(static_cast<size_t>(threads));
  for (int t = 0; t < threads; ++t) {
    const long n = counts[static_cast<size_t>(t)] = each > 1000 ? each : rng.irange(0, static_cast<int>(each));
    const uint64_t seed = rng.next();
    pool.emplace_back([&, t, n, seed] {
      Rng r(seed);
      ready.fetch_add(1);
      while (ready.load() < threads) sched_yield();
      for (long k = 0; k < n; ++k) {
        a->submit_event(make_event(name, k, 7, static_cast<uint32_t>(t), k * 1000 + t));
        if (b) b->submit_event(make_event(other, -k, 8, static_cast<uint32_t>(t), 0));
        if (each <= 1000 && r.chance(0.02)) sched_yield();
      }
    });
  }
  for (auto& t : pool) t.join();
  size_t total = 0;
  for (long c : counts) total += static_cast<size_t>(c);
  std::vector<Event> held;
  uint64_t sig = total;
  for (auto* c : {a, b}) {
    if (c == nullptr) continue;
    const std::string problem = read_dump(c->get_trace_json(), held);
    if (!problem.empty()) {
      R->violation("C26", "malformed", problem);
      R->violation("C25", "malformed", problem);
      return;
    }
    if (held.size() != std::min(LIMIT, total)) {
      R->violation("C25", "count", strf("%zu events are held after %zu were submitted by %d threads", held.size(), total, threads));
      continue;
    }
    std::vector<std::vector<long>> seen(static_cast<size_t>(threads));
    for (auto& e : held) {
      const long k = c == a ? e.ts : -e.ts;
      if (e.tid >= static_cast<uint32_t>(threads) || e.name != (c == a ? name : other) || e.pid != (c == a ? 7u : 8u) || (c == a && e.dur != k)) {
        R->violation("C25", "torn-event", "an event that nobody submitted: " + show(e));
        break;
      }
      seen[e.tid].push_back(k);
      if (c == a) sig = vh::mix64(sig * 3 + e.tid);
    }
    for (int t = 0; t < threads; ++t) {
      const auto& s = seen[static_cast<size_t>(t)];
      const long n = counts[static_cast<size_t>(t)];
      const long missing = n - static_cast<long>(s.size());
      if (missing < 0 || (missing > 0 && total <= LIMIT)) {
        R->violation("C25", "lost", strf("thread %d submitted %ld events, %zu are held", t, n, s.size()));
        continue;
      }
      for (size_t k = 0; k < s.size(); ++k)
        if (s[k] != missing + static_cast<long>(k)) {
          R->violation("C25", "sequence", strf("thread %d: event %ld is held where %ld should be (of %ld)", t, s[k], missing + static_cast<long>(k), n));
          break;
        }
    }
    R->count("submitted-events", static_cast<long>(total));
    R->count(total > LIMIT ? "beyond-limit" : total == LIMIT ? "at-limit" : "below-limit");
  }
  R->distinct(sig, "C25");
  if (R->case_index() < 12) R->sample(strf("%zu events submitted by %d threads", total, threads));
}

static std::string any_name(Rng& rng) {
  std::string s;
  const int n = rng.chance(0.02) ? 5000 : rng.irange(0, 12);
  for (int i = 0; i < n; ++i) {
    switch (rng.irange(0, 7)) {
      case 0:
        s += '"';
        break;
      case 1:
        s += '\\';
        break;
      case 2:
        s += static_cast<char>(rng.irange(0, 31));
        break;
      case 3: {
        const char* v[] = {"\x7f", "\u00e9", "\u2028", "\u20ac", "\U0001F600", "\\u0041", "{}", "{0}", "%s", "</script>", "\\\"", "\\n", "/*"};
        s += v[rng.irange(0, 12)];
        break;
      }
      case 4:
        s += static_cast<char>(rng.irange(32, 126));
        break;
      case 5: {  // any code point
        int c = rng.irange(0, 0x10ffff);
        if (c >= 0xd800 && c < 0xe000) c = 0x80;
        if (c < 0x80) s += static_cast<char>(c);
        else if (c < 0x800) s += static_cast<char>(0xc0 | (c >> 6)), s += static_cast<char>(0x80 | (c & 63));
        else if (c < 0x10000) s += static_cast<char>(0xe0 | (c >> 12)), s += static_cast<char>(0x80 | ((c >> 6) & 63)), s += static_cast<char>(0x80 | (c & 63));
        else s += static_cast<char>(0xf0 | (c >> 18)), s += static_cast<char>(0x80 | ((c >> 12) & 63)), s += static_cast<char>(0x80 | ((c >> 6) & 63)), s += static_cast<char>(0x80 | (c & 63));
        break;
      }
      default:
        s += static_cast<char>('a' + rng.irange(0, 25));
    }
  }
  return s;
}

static void document_case(Rng& rng) {
  auto* c = new trace_collector();
  const int n = rng.chance(0.1) ? 0 : rng.chance(0.1) ? 1 : rng.irange(1, 40);
  std::vector<std::string> names;
  names.reserve(static_cast<size_t>(n));
  std::vector<Event> want;
  std::vector<int64_t> durs;
  uint64_t sig = static_cast<uint64_t>(n);
  std::vector<Event> held;
  auto number = [&](bool negative) -> int64_t {
    switch (rng.irange(0, 4)) {
      case 0:
        return 0;
      case 1:
        return rng.irange(0, 3000);
      case 2:
        return negative && rng.chance(0.3) ? std::numeric_limits<int64_t>::min() : std::numeric_limits<int64_t>::max() - rng.irange(0, 2000);
      case 3:
        return 1700000000000000ll + rng.irange(0, 1000000000);
      default:
        return static_cast<int64_t>(rng.next() >> rng.irange(1, 60)) * (negative && rng.chance(0.3) ? -1 : 1);
    }
  };
  for (int i = 0; i <= n; ++i) {
    const bool dump_now = i == n || rng.chance(0.05);
    if (dump_now) {
      const std::string text = c->get_trace_json();
      const std::string problem = read_dump(text, held);
      if (!problem.empty()) {
        R->violation("C26", "malformed", problem + " in " + text.substr(0, 1500));
        return;
      }
      if (held.size() != want.size()) {
        R->violation("C26", "entries", strf("%zu entries for %zu events", held.size(), want.size()));
        return;
      }
      for (size_t k = 0; k < held.size(); ++k) {
        const Event& w = want[k];
        const Event& h = held[k];
        if (h.name != w.name) R->violation("C26", "name", strf("event %zu: name \"%s\" became \"%s\"", k, w.name.c_str(), h.name.c_str()));
        if (h.ts != w.ts) R->violation("C26", "timestamp", strf("event %zu: %lld became %lld", k, static_cast<long long>(w.ts), static_cast<long long>(h.ts)));
        if (h.pid != w.pid || h.tid != w.tid) R->violation("C26", "ids", "is " + show(h) + " should be " + show(w));
        if (h.dur != w.dur / 1000) R->violation("C26", "duration", strf("event %zu: %lld ns became %lld us", k, static_cast<long long>(w.dur), static_cast<long long>(h.dur)));
        R->count("entries-checked");
      }
      R->count(held.empty() ? "empty-dumps" : "dumps");
      if (i == n) {
        R->distinct(vh::mix64(sig), "C26");
        if (R->case_index() < 12) R->sample(strf("%d events: ", n) + text.substr(0, 400));
        return;
      }
    }
    names.push_back(any_name(rng));
    Event e;
    e.name = names.back();
    e.ts = number(true);
    e.dur = number(false);
    const uint32_t ids[] = {0, 1, 4294967295u, 2147483648u, static_cast<uint32_t>(rng.next())};
    e.pid = ids[rng.irange(0, 4)];
    e.tid = ids[rng.irange(0, 4)];
    c->submit_event(make_event(names.back(), e.ts, e.pid, e.tid, e.dur));
    sig = vh::hash_str(e.name, vh::mix64(sig ^ static_cast<uint64_t>(e.ts)));
    for (unsigned char ch : e.name) {
      if (ch < 32) R->count("control-characters");
      if (ch == '"' || ch == '\\') R->count("quotes-and-backslashes");
    }
    want.push_back(e);
  }
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_trace");
  R = &rep;
  const std::string mode = args.get("mode", "all");
  const double scale = std::stod(args.get("scale", "1"));
  vh::run_cases(rep, [&](long i, uint64_t seed) {
    Rng rng(seed);
    if (mode == "document") return document_case(rng);
    if (mode == "limit") {
      // 0: exactly at, just below and above, and far above the limit
      const long n[] = {99999, 100000, 100001, 100007, 150000, 250003};
      if (i % 4 == 3) return global_case(rng, 4, 1, 40000);
      if (i % 4 == 2) return submit_case(rng, 5, 30011);
      return submit_case(rng, 1, n[(i / 4 * 2 + i % 4) % 6]);
    }
    switch (rng.irange(0, 4)) {
      case 0:
        return global_case(rng, 1, 0, static_cast<int>(rng.irange(1, 600) * scale));
      case 1:
        return global_case(rng, rng.irange(2, 8), 0, static_cast<int>(rng.irange(10, 800) * scale));
      case 2:
        return global_case(rng, rng.irange(1, 6), rng.irange(1, 3), static_cast<int>(rng.irange(10, 800) * scale));
      case 3:
        return submit_case(rng, rng.irange(1, 8), static_cast<int>(rng.irange(1, 900) * scale));
      default:
        return document_case(rng);
    }
  });
  return rep.finish();
}
