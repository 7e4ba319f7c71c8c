// C06: the log readers against a list model: a history of fetch, access, discard.
#include "sut.hh"

static void prop(pbt::Src &s, pbt::Ctx &ctx) {
  // now and then a long log, whose events come from one choice
  const bool longLog = s.chance(1, 1500);
  const int total = longLog ? (s.chance(1, 4) ? s.range(65000, 67000) : s.range(300, 9000)) : s.pick({4, 1}) ? s.range(10, 60) : s.range(0, 10);
  const bool binary = s.chance(1, 2);
  uint64_t rnd = longLog ? s.below(1u << 30) * 2654435769u + 1 : 0;
  auto next = [&](uint32_t n) {
    rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
    return uint32_t(rnd >> 33) % n;
  };
  std::vector<std::pair<char, double>> ev;
  std::string text;
  double t = 0;
  for (int k = 0; k < total; k++) {
    if (longLog) {
      char c = char(33 + next(94));
      t += double(1 + next(64)) / 8;
      ev.push_back({c, t});
      text += c;
      char b[64];
      if (binary) {
        memcpy(b, &t, 8);
        text.append(b, 8);
      } else {
        snprintf(b, sizeof b, next(2) ? " %.17g\n" : " %.6f\n", t);
        text += b;
      }
      continue;
    }
    char c = char(binary ? s.range(1, 126) : s.range(33, 126));
    t += double(s.range(1, 64)) / 8;
    ev.push_back({c, t});
    if (binary) {
      text += c;
      char b[8];
      memcpy(b, &t, 8);
      text.append(b, 8);
    } else {
      static const char *ws[] = {"", " ", "\t", "\n", "\r\n", " \n "};
      char b[64];
      switch (s.pick({4, 2, 1, 1})) {
      case 0: snprintf(b, sizeof b, "%.17g", t); break;
      case 1: snprintf(b, sizeof b, "%.6f", t); break;
      case 2: snprintf(b, sizeof b, "%.10e", t); break;
      default: snprintf(b, sizeof b, "+%.17g", t);
      }
      text += ws[s.pick({12, 1, 1, 1, 1, 1})];
      text += c;
      text += s.pick({6, 1, 1}) == 0 ? " " : "\t  ";
      text += b;
      if (k + 1 < total || s.chance(2, 3))
        text += s.pick({8, 1, 1}) == 0 ? "\n" : "\r\n";
    }
  }
  int torn = 0; // the last record of a binary log is cut off: it is no event
  if (binary && s.chance(1, 8)) {
    torn = s.range(1, 8);
    for (int k = 0; k < torn; k++)
      text += char(1 + (k * 37 + total) % 126);
  }
  ctx.desc << total << " events, " << (binary ? "binary" : "ascii");
  if (torn) {
    ctx.desc << ", then " << torn << " bytes";
    ctx.label("torn record at the end");
  }
  std::string mem = text.empty() ? std::string(" ") : text;
  // an empty binary file has no byte at all
  FILE *f = binary && text.empty() ? fopen("/dev/null", "r") : fmemopen(mem.data(), mem.size(), "r");
  auto closer = std::unique_ptr<FILE, int (*)(FILE *)>(f, fclose);
  if (s.chance(1, 5)) { // the vector container reads everything at once
    ctx.desc << ", vector";
    WordVector<std::pair<Alphabet, double>> v(f, binary);
    ctx.check(v.size() == size_t(total), "wrong number of events: " + std::to_string(v.size()));
    for (int k = 0; k < total; k++) {
      ctx.check(v.fetch(size_t(k)), "fetch of an event fails");
      ctx.check(v[size_t(k)].first == ev[size_t(k)].first && v.at(size_t(k)).second == ev[size_t(k)].second, "wrong event " + std::to_string(k));
    }
    ctx.check(!v.fetch(size_t(total)), "fetch beyond the end");
    ctx.nontrivial = total > 0;
    ctx.label("vector");
    return;
  }
  LazyDeque raw(f, binary);
  size_t front = 0, read = 0; // read: number of events consumed from the file
  bool known = false, discarded = false, beyond = false;
  int steps = s.range(1, 40);
  size_t cursor = 0;
  for (int k = 0; k < steps; k++) {
    switch (s.pick({8, 8, 5, 1, 1})) {
    case 0: {
      size_t n = s.pick({6, 2}) == 0 ? cursor + s.below(4) : s.below(uint32_t(total + 6));
      if (longLog && s.chance(1, 2))
        n = cursor + s.below(1200);
      ctx.desc << "; fetch " << n;
      bool got = raw.fetch(n);
      bool want = n >= front && n < size_t(total);
      ctx.check(got == want, got ? "fetch succeeds for an event that is discarded or does not exist" : "fetch fails for an existing event");
      if (want)
        read = std::max(read, n + 1);
      else if (n >= size_t(total)) {
        if (n >= front)
          known = true, read = std::max(read, size_t(total));
      }
      cursor = std::max(cursor, std::min(n, size_t(total)));
      break;
    }
    case 1: {
      size_t n = s.chance(1, 6) ? s.below(uint32_t(total + 4)) : front + s.below(uint32_t(read > front ? read - front : 1));
      bool use_at = s.chance(1, 2);
      ctx.desc << (use_at ? "; at " : "; [] ") << n;
      bool threw = false;
      std::pair<Alphabet, double> e;
      try {
        e = use_at ? raw.at(n) : raw[n];
      } catch (const std::out_of_range &) {
        threw = true;
      }
      bool want = n >= front && n < read && n < size_t(total);
      ctx.check(threw == !want, threw ? "access to a held event throws" : "access to an event that is not held returns something");
      if (want)
        ctx.check(e == ev[n], "wrong event " + std::to_string(n));
      break;
    }
    case 2: {
      size_t n = front + s.below(5);
      if (longLog && s.chance(1, 2))
        n = front + s.below(s.chance(1, 3) ? 3000 : 300);
      if (n > size_t(total) && !s.chance(1, 8))
        n = std::max(front, size_t(total));
      ctx.desc << "; discard before " << n;
      discarded = discarded || n > front;
      beyond = beyond || n > read;
      raw.setFront(n);
      front = n;
      if (n > size_t(total)) // the end was reached while looking for the events to discard
        known = true;
      read = std::max(read, std::min(n, size_t(total)));
      break;
    }
    case 3: {
      if (front == 0)
        break;
      size_t n = s.below(uint32_t(front));
      ctx.desc << "; discard back to " << n;
      bool threw = false;
      try {
        raw.setFront(n);
      } catch (const std::out_of_range &) {
        threw = true;
      }
      ctx.check(threw, "moving the front back is not rejected");
      break;
    }
    default: {
      ctx.desc << "; size";
      size_t sz = raw.size();
      ctx.check(sz == (known ? size_t(total) : std::numeric_limits<size_t>::max()),
                known ? "wrong length: " + std::to_string(sz) : "a length is reported before the end of the log is reached");
    }
    }
    size_t held = static_cast<std::deque<std::pair<Alphabet, double>> &>(raw).size();
    ctx.check(held == (read > front ? read - front : 0), "holds " + std::to_string(held) + " events, expected " + std::to_string(read > front ? read - front : 0));
  }
  // everything that remains is still there, in order
  for (size_t n = std::max(front, read > 0 ? read - 1 : 0); n < size_t(total); n++) {
    if (n < front)
      continue;
    ctx.check(raw.fetch(n), "the remaining events cannot be fetched");
    ctx.check(raw[n] == ev[n], "wrong event " + std::to_string(n) + " at the end");
  }
  ctx.check(!raw.fetch(size_t(total)), "fetch beyond the end");
  ctx.check(raw.size() == size_t(total), "wrong length at the end");
  ctx.nontrivial = total >= 5 && discarded;
  if (binary) ctx.label("binary");
  if (beyond) ctx.label("events discarded unread");
  if (known) ctx.label("end reached early");
  if (longLog) ctx.label("long log");
  if (front > size_t(total)) ctx.label("discarded beyond the end");
}
int main(int argc, char **argv) { return pbt::realMain(argc, argv, prop, 200); }
