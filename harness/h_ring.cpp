// C12: the ring buffer against a bounded queue model (sequential histories), and against itself over two threads (TSan).
#include <array>
#include <atomic>
#include <deque>
#include <iterator>
#include <list>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
#include "pbt.h"
#include "spsc_ringbuffer.h"

using namespace pbt;

struct Rec
{
  std::uint64_t a{ 0 };
  std::vector<std::uint8_t> payload;
  std::unique_ptr<std::uint64_t> owner;
};
static std::uint64_t g_len(std::uint64_t n) { return mix(n) % 40; }
static Rec make(std::uint64_t n)
{
  Rec r;
  r.a = n;
  r.payload.assign(g_len(n), static_cast<std::uint8_t>(mix(n)));
  r.owner.reset(new std::uint64_t(mix(n)));
  return r;
}
static bool good(const Rec& r, std::uint64_t n)
{
  if (r.a != n || !r.owner || *r.owner != mix(n) || r.payload.size() != g_len(n)) return false;
  for (auto b : r.payload)
    if (b != static_cast<std::uint8_t>(mix(n))) return false;
  return true;
}

// A minimal output iterator, which hands every assigned value to a callback.
template <typename T>
struct Sink
{
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  std::vector<T>* dest;
  Sink& operator*() { return *this; }
  Sink& operator++() { return *this; }
  Sink operator++(int) { return *this; }
  Sink& operator=(T&& v) { dest->push_back(std::move(v)); return *this; }
};

template <typename Container>
void sequential(Case& c, Container&& storage)
{
  const std::size_t n = storage.size();
  c.out() << "sequential storage=" << n << " ops:";
  scalopus::SPSCRingBuffer<Container> ring(std::move(storage));
  std::deque<std::uint64_t> model;
  std::uint64_t next = 1;
  bool wrapped = false, was_full = false, was_empty_again = false;
  const std::size_t steps = 1 + c.size(300);
  for (std::size_t s = 0; s < steps; s++)
  {
    switch (c.draw(6))
    {
      case 0:
      case 1:
      {
        std::size_t k = c.chance(1, 4) ? 1 + c.size(n + 2) : 1;
        c.out() << " push*" << k;
        for (std::size_t i = 0; i < k; i++)
        {
          Rec r = make(next);
          bool ok = ring.push(std::move(r));
          bool expect = model.size() + 1 < n;
          c.check(ok == expect, "push returned " + std::to_string(ok) + " with " + std::to_string(model.size()) + " of " + std::to_string(n) + " slots held");
          if (ok)
            model.push_back(next++);
          else
          {
            was_full = true;
            c.check(good(r, next), "a refused push changed the value");
          }
        }
        break;
      }
      case 2:
      case 3:
      {
        Rec r = make(~0ull);
        bool ok = ring.pop(r);
        c.out() << " pop";
        c.check(ok == !model.empty(), "pop returned " + std::to_string(ok) + " with " + std::to_string(model.size()) + " elements held");
        if (ok)
        {
          c.check(good(r, model.front()), "pop yielded a wrong element, expected number " + std::to_string(model.front()) + " got " + std::to_string(r.a));
          if (model.front() >= n) wrapped = true;
          model.pop_front();
        }
        else
        {
          was_empty_again = true;
          c.check(good(r, ~0ull), "a failed pop changed the destination");
        }
        break;
      }
      case 4:
      {
        static const std::vector<std::size_t> huge = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, std::size_t(1) << 32 };
        std::size_t max = c.chance(1, 4) ? c.pick(huge) : c.size(2 * n + 2);
        c.out() << " pop_into(" << max << ")";
        const std::size_t expect = std::min(max, model.size());
        std::vector<Rec> got;
        std::size_t k;
        switch (c.draw(3))
        {
          case 0:
            k = ring.pop_into(std::back_inserter(got), max);
            break;
          case 1:
            k = ring.pop_into(Sink<Rec>{ &got }, max);
            break;
          default:
          {
            std::vector<Rec> fixed(model.size() + 1);
            fixed.back() = make(77);
            k = ring.pop_into(fixed.begin(), max);
            c.check(k <= model.size(), "pop_into reported more than was held");
            c.check(good(fixed.back(), 77), "pop_into wrote past the elements it reported");
            for (std::size_t i = 0; i < k; i++) got.push_back(std::move(fixed[i]));
          }
        }
        c.check(k == expect, "pop_into returned " + std::to_string(k) + " expected " + std::to_string(expect));
        c.check(got.size() == k, "pop_into wrote " + std::to_string(got.size()) + " elements and returned " + std::to_string(k));
        for (auto& r : got)
        {
          c.check(good(r, model.front()), "pop_into yielded a wrong element");
          if (model.front() >= n) wrapped = true;
          model.pop_front();
        }
        break;
      }
      default:
        break;
    }
    c.check(ring.size() == model.size(), "size is " + std::to_string(ring.size()) + " expected " + std::to_string(model.size()));
    c.check(ring.empty() == model.empty(), "empty() is wrong");
  }
  if (wrapped) c.label("wrapped");
  if (was_full) c.label("refused push");
  if (was_empty_again) c.label("failed pop");
  if (wrapped && was_full) c.nontrivial();
}

// one producer and one consumer
struct Item
{
  std::uint64_t a{ 0 }, b{ 0 }, d{ 0 };
};
static void concurrent(Case& c)
{
  const std::size_t n = 2 + (c.chance(1, 3) ? c.draw(300) : c.draw(6));
  const std::uint64_t total = 200 + c.draw(3000);
  const std::uint64_t ps = c.draw(1000), cs = c.draw(1000);
  const std::uint64_t pstyle = c.draw(3), cstyle = c.draw(4);
  c.out() << "concurrent storage=" << n << " elements=" << total << " producer=" << pstyle << "/" << ps << " consumer=" << cstyle << "/" << cs;
  scalopus::SPSCRingBuffer<std::vector<Item>> ring(std::vector<Item>(n, Item{}));
  std::atomic<bool> go{ false };
  std::atomic<const char*> error{ nullptr };
  std::atomic<std::uint64_t> refused{ 0 }, wraps{ 0 };
  auto fill = [](std::uint64_t i) { return Item{ i, mix(i), ~i }; };
  auto is = [](const Item& r, std::uint64_t i) { return r.a == i && r.b == mix(i) && r.d == ~i; };
  std::thread producer([&] {
    std::uint64_t st = ps;
    while (!go.load()) {}
    for (std::uint64_t i = 1; i <= total && !error.load();)
    {
      st = mix(st);
      if (pstyle == 1 && st % 8 == 0)
      {
        // what the producer sees as free must be available to it
        std::size_t s = ring.size();
        if (s > n - 1) { error = "size exceeds the capacity"; return; }
        for (std::size_t k = s; k + 1 < n && i <= total; k++)
        {
          if (!ring.push(fill(i))) { error = "push refused although the producer saw room"; return; }
          i++;
        }
        continue;
      }
      if (ring.push(fill(i))) i++;
      else
      {
        refused++;
        if (pstyle == 2 && st % 4 == 0) std::this_thread::yield();
      }
      if (pstyle == 2 && st % 64 == 0) std::this_thread::yield();
    }
  });
  std::uint64_t expect = 1;
  {
    std::uint64_t st = cs;
    go = true;
    std::uint64_t idle = 0;
    while (expect <= total && !error.load())
    {
      st = mix(st);
      std::uint64_t before = expect;
      if (cstyle == 0 || (cstyle == 3 && st % 2))
      {
        Item r;
        if (ring.pop(r))
        {
          if (!is(r, expect)) { error = "an element was lost, duplicated, reordered or torn (pop)"; break; }
          expect++;
        }
      }
      else
      {
        std::size_t max = 1 + (st >> 8) % (2 * n);
        std::size_t held = ring.size();
        if (held > n - 1) { error = "size exceeds the capacity"; break; }
        bool has = !ring.empty();
        std::vector<Item> got;
        std::size_t k = ring.pop_into(std::back_inserter(got), max);
        if (k != got.size()) { error = "pop_into returned a wrong count"; break; }
        if (k < std::min(held, max)) { error = "pop_into yielded less than the consumer saw"; break; }
        if (has && k == 0) { error = "not empty, yet nothing to pop"; break; }
        bool bad = false;
        for (auto& r : got)
        {
          if (!is(r, expect)) { bad = true; break; }
          expect++;
        }
        if (bad) { error = "an element was lost, duplicated, reordered or torn (pop_into)"; break; }
      }
      if (expect == before)
      {
        if (++idle % 32 == 0) std::this_thread::yield();
      }
    }
  }
  producer.join();
  if (error.load()) c.fail(error.load());
  c.check(ring.empty() && ring.size() == 0, "elements left after everything was taken");
  c.label("concurrent");
  c.label("concurrent refused pushes", refused.load());
  c.nontrivial();
}

static void prop(Case& c)
{
  if (std::getenv("VERIF_CONCURRENT"))
  {
    concurrent(c);
    return;
  }
  switch (c.draw(8))
  {
    case 0:
    {
      bool thrown = false;
      try { scalopus::SPSCRingBuffer<std::vector<Rec>> ring{ std::vector<Rec>() }; }
      catch (const std::runtime_error&) { thrown = true; }
      c.check(thrown, "a ring buffer without storage was accepted");
      sequential(c, std::vector<Rec>(1 + c.draw(2)));
      break;
    }
    case 1: sequential(c, std::array<Rec, 2>()); break;
    case 2: sequential(c, std::array<Rec, 5>()); break;
    case 3: sequential(c, std::array<Rec, 64>()); break;
    case 4: sequential(c, std::vector<Rec>(1 + c.size(200))); break;
    default: sequential(c, std::vector<Rec>(2 + c.draw(10))); break;
  }
}
PBT_MAIN(prop)
