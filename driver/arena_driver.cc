// Driver for arena and arena containers. Executes generated operation
// sequences next to a plain model and reports the first difference.
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "bant/util/arena.h"
#include "bant/util/arena-container.h"
#include "driver/wire.h"

using bant::Arena;
using bant::ArenaDeque;
using wire::Msg;

namespace {
struct Rgb { uint8_t v[3]; };
struct Big { uint64_t v[5]; };
template <typename T> T Make(uint64_t x) { return static_cast<T>(x * 2654435761u); }
template <> Rgb Make<Rgb>(uint64_t x) {
  return {{(uint8_t)x, (uint8_t)(x >> 8), (uint8_t)(x ^ 0x5a)}};
}
template <> Big Make<Big>(uint64_t x) { return {{x, x + 1, ~x, x * 7, x << 9}}; }
template <> const char *Make<const char *>(uint64_t x) {
  return reinterpret_cast<const char *>(x * 16 + 1);
}
template <typename T> bool Same(const T &a, const T &b) {
  return memcmp(&a, &b, sizeof(T)) == 0;
}

// Regions handed out, for overlap detection.
struct Regions {
  std::vector<std::pair<const char *, size_t>> all;
  void Add(const void *p, size_t n) {
    if (n) all.emplace_back(static_cast<const char *>(p), n);
  }
  bool Overlap() {
    std::sort(all.begin(), all.end());
    for (size_t i = 1; i < all.size(); ++i) {
      if (all[i - 1].first + all[i - 1].second > all[i].first) return true;
    }
    return false;
  }
};

struct AnyDeque {
  virtual ~AnyDeque() = default;
  virtual std::string Append(uint64_t v, Arena *a) = 0;
  virtual std::string Set(size_t i, uint64_t v) = 0;
  virtual std::string Check() = 0;
  virtual size_t size() const = 0;
  virtual void Report(Regions *r) = 0;
};

template <typename T, typename Deque>
struct DequeOf : public AnyDeque {
  explicit DequeOf(Arena *a) : d(a->New<Deque>()) {}
  std::string Append(uint64_t v, Arena *a) final {
    T &ref = d->Append(Make<T>(v), a);
    model.push_back(Make<T>(v));
    addr.push_back(&ref);
    if (!Same(ref, model.back())) return "Append() returns other value";
    return "";
  }
  std::string Set(size_t i, uint64_t v) final {
    if (model.empty()) return "";
    i %= model.size();
    if (v & 1) {  // by remembered reference
      *addr[i] = Make<T>(v);
    } else {  // by mutable iteration
      auto it = d->begin();
      for (size_t k = 0; k < i; ++k) ++it;
      *it = Make<T>(v);
    }
    model[i] = Make<T>(v);
    return Same((*d)[i], model[i]) ? "" : "modification not visible at index " + std::to_string(i);
  }
  std::string Check() final {
    if (d->size() != model.size()) {
      return "size() " + std::to_string(d->size()) + " expected " + std::to_string(model.size());
    }
    for (size_t i = 0; i < model.size(); ++i) {
      const T &v = (*d)[i];
      if (!Same(v, model[i])) return "[" + std::to_string(i) + "] differs";
      if (&v != addr[i]) return "[" + std::to_string(i) + "] moved";
      if (!Same(*addr[i], model[i])) return "stored " + std::to_string(i) + " differs";
    }
    size_t i = 0;
    for (T &v : *d) {
      if (i >= model.size()) return "iteration too long";
      if (!Same(v, model[i])) return "iteration differs at " + std::to_string(i);
      if (&v != addr[i]) return "iterated element moved " + std::to_string(i);
      ++i;
    }
    if (i != model.size()) {
      return "iteration ends at " + std::to_string(i) + " of " + std::to_string(model.size());
    }
    if ((d->begin() == d->end()) != model.empty()) return "begin()==end()";
    if ((d->begin() != d->end()) == model.empty()) return "begin()!=end()";
    return "";
  }
  size_t size() const final { return model.size(); }
  void Report(Regions *r) final {
    for (T *p : addr) r->Add(p, sizeof(T));
  }
  Deque *d;
  std::vector<T> model;
  std::vector<T *> addr;
};

template <typename T>
std::unique_ptr<AnyDeque> Create(int config, Arena *a) {
  switch (config) {
  case 0: return std::make_unique<DequeOf<T, ArenaDeque<T>>>(a);
  case 1: return std::make_unique<DequeOf<T, ArenaDeque<T, 1, 1>>>(a);
  case 2: return std::make_unique<DequeOf<T, ArenaDeque<T, 1, 2>>>(a);
  case 3: return std::make_unique<DequeOf<T, ArenaDeque<T, 1, 3>>>(a);
  case 4: return std::make_unique<DequeOf<T, ArenaDeque<T, 2, 64>>>(a);
  case 5: return std::make_unique<DequeOf<T, ArenaDeque<T, 3, 10>>>(a);
  case 6: return std::make_unique<DequeOf<T, ArenaDeque<T, 4, 4>>>(a);
  case 7: return std::make_unique<DequeOf<T, ArenaDeque<T, 5, 3>>>(a);
  case 8: return std::make_unique<DequeOf<T, ArenaDeque<T, 8, 64>>>(a);
  case 9: return std::make_unique<DequeOf<T, ArenaDeque<T, 1, 1024>>>(a);
  case 10: return std::make_unique<DequeOf<T, ArenaDeque<T, 7, 100>>>(a);
  case 11: return std::make_unique<DequeOf<T, ArenaDeque<T, 64, 64>>>(a);
  default: return std::make_unique<DequeOf<T, ArenaDeque<T, 100, 300>>>(a);
  }
}
std::unique_ptr<AnyDeque> Create(int type, int config, Arena *a) {
  switch (type) {
  case 0: return Create<uint8_t>(config, a);
  case 1: return Create<int>(config, a);
  case 2: return Create<uint64_t>(config, a);
  case 3: return Create<Rgb>(config, a);
  case 4: return Create<Big>(config, a);
  default: return Create<const char *>(config, a);
  }
}

// arena block_size ops... ; op is "<letter> <a> <b>":
//  d type config  new deque in the arena     a deque count  append
//  s deque index  modify                     r size 0       raw allocation
//  c 0 0          check everything           m 0 0          move the arena
//  n value 0      New<Big>()
Msg Run(const Msg &m) {
  Arena *arena = new Arena(atoi(m[1].c_str()));
  std::vector<std::unique_ptr<AnyDeque>> deques;
  struct Raw { unsigned char *p; size_t n; unsigned char fill; };
  std::vector<Raw> raw;
  std::vector<std::pair<Big *, uint64_t>> objs;
  uint64_t counter = 1;
  std::string err;
  size_t step = 0;
  auto check = [&]() -> std::string {
    for (size_t i = 0; i < deques.size(); ++i) {
      if (std::string e = deques[i]->Check(); !e.empty()) return "deque " + std::to_string(i) + ": " + e;
    }
    for (const Raw &r : raw) {
      for (size_t i = 0; i < r.n; ++i) {
        if (r.p[i] != r.fill) return "raw allocation of " + std::to_string(r.n) + " changed";
      }
    }
    for (auto &[p, v] : objs) {
      if (!Same(*p, Make<Big>(v))) return "object changed";
    }
    Regions all;
    for (auto &d : deques) d->Report(&all);
    for (const Raw &r : raw) all.Add(r.p, r.n);
    for (auto &o : objs) all.Add(o.first, sizeof(Big));
    if (all.Overlap()) return "allocations overlap";
    return "";
  };
  for (size_t i = 2; i < m.size() && err.empty(); ++i) {
    char op;
    unsigned long a, b;
    if (sscanf(m[i].c_str(), "%c %lu %lu", &op, &a, &b) != 3) return {"BAD"};
    step = i - 2;
    switch (op) {
    case 'd': deques.push_back(Create(a, b, arena)); break;
    case 'a':
      if (deques.empty()) break;
      for (size_t k = 0; k < b && err.empty(); ++k) {
        err = deques[a % deques.size()]->Append(counter++, arena);
      }
      break;
    case 's':
      if (!deques.empty()) err = deques[a % deques.size()]->Set(b, counter++);
      break;
    case 'r': {
      auto *p = static_cast<unsigned char *>(arena->Alloc(a));
      if (p == nullptr) { err = "Alloc() gives nullptr"; break; }
      const unsigned char fill = counter++ * 37 + 1;
      memset(p, fill, a);
      raw.push_back({p, a, fill});
      break;
    }
    case 'n':
      objs.emplace_back(arena->New<Big>(Make<Big>(counter)), counter);
      counter++;
      break;
    case 'm': {
      Arena *moved = new Arena(std::move(*arena));
      delete arena;
      arena = moved;
      break;
    }
    case 'c': err = check(); break;
    }
  }
  if (err.empty()) err = check();
  size_t total = 0;
  for (auto &d : deques) total += d->size();
  delete arena;
  if (!err.empty()) return {"op " + std::to_string(step) + ": " + err};
  return {"OK", std::to_string(total)};
}
}  // namespace

int main() { return wire::Serve({{"arena", Run}}); }
