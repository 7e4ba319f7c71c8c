// The syntax of expressions: a reader and a writer of texts, written from the documentation.
#pragma once
#include "sut_tre.hh"
namespace tre {
using ora::T;
using ora::Tre;

// ---- reference reader ---------------------------------------------------------
// expr    := item [ ('|' | '&' | nothing) expr ]     (all three nest to the right)
// item    := (letter | '(' expr ')') ('+' | '*' | '%' interval)*
// interval:= ('('|'[') int ',' int (')'|']') | (< <= = >= >) int | '(' interval ')'
struct Tok {
  char k; // the character itself, 'a' letter, '0' number, 'L' <=, 'G' >=, 0 end
  char c = 0;
  int v = 0;
};
struct Bad {};
struct Reader {
  std::vector<Tok> ts;
  size_t p = 0;
  bool afterEnd = false; // something other than blanks follows a line break
  explicit Reader(const std::string &s) {
    size_t i = 0;
    while (i < s.size()) {
      char c = s[i];
      if (c == ' ' || c == '\t') {
        i++;
      } else if (c == '\n') {
        for (; i < s.size(); i++)
          afterEnd = afterEnd || (s[i] != ' ' && s[i] != '\t' && s[i] != '\n');
      } else if (c >= '0' && c <= '9') {
        int64_t v = 0;
        for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++)
          v = std::min<int64_t>(v * 10 + (s[i] - '0'), int64_t(1) << 40);
        if (v > 2147483647)
          throw Bad();
        ts.push_back({'0', 0, int(v)});
      } else if ((c == '<' || c == '>') && i + 1 < s.size() && s[i + 1] == '=') {
        ts.push_back({c == '<' ? 'L' : 'G'});
        i += 2;
      } else if (std::string("|&*+%()[]<>=,").find(c) != std::string::npos) {
        ts.push_back({c});
        i++;
      } else if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '$') {
        ts.push_back({'a', c});
        i++;
      } else
        throw Bad();
    }
    ts.push_back({0});
  }
  char peek(size_t d = 0) const { return p + d < ts.size() ? ts[p + d].k : 0; }
  int number() {
    if (peek() != '0')
      throw Bad();
    return ts[p++].v;
  }
  void need(char k) {
    if (peek() != k)
      throw Bad();
    p++;
  }
  ora::Ival interval() {
    ora::Ival v;
    char k = peek();
    if (k == '(' && peek(1) != '0') {
      p++;
      v = interval();
      need(')');
      return v;
    }
    p++;
    switch (k) {
    case '(':
    case '[':
      v.loC = k == '[';
      v.lo = number();
      need(',');
      v.hi = number();
      if (peek() != ')' && peek() != ']')
        throw Bad();
      v.hiC = ts[p++].k == ']';
      return v;
    case '<': case 'L':
      v.lo = 0, v.loC = true;
      v.hi = number(), v.hiC = k == 'L';
      return v;
    case '=':
      v.lo = v.hi = number();
      v.loC = v.hiC = true;
      return v;
    case '>': case 'G':
      v.lo = number(), v.loC = k == 'G';
      v.hi = -1, v.hiC = false;
      return v;
    }
    throw Bad();
  }
  T item() {
    T e;
    if (peek() == 'a')
      e = ora::atom(ts[p++].c);
    else {
      need('(');
      e = expr();
      need(')');
    }
    for (;;) {
      if (peek() == '+') {
        p++;
        e = ora::mkT(Tre::Plus, e);
      } else if (peek() == '*') {
        p++;
        e = ora::mkT(Tre::Star, e);
      } else if (peek() == '%') {
        p++;
        auto v = interval();
        e = ora::mkT(Tre::Within, e);
        e->iv = v;
      } else
        return e;
    }
  }
  T expr() {
    T l = item();
    switch (peek()) {
    case '|': p++; return ora::mkT(Tre::Or, l, expr());
    case '&': p++; return ora::mkT(Tre::And, l, expr());
    case 'a': case '(': return ora::mkT(Tre::Cat, l, expr());
    }
    return l;
  }
  T all() {
    T e = expr();
    need(0);
    return e;
  }
};

// ---- writer -------------------------------------------------------------------
struct Writer {
  pbt::Src &s;
  int blanks; // one token in `blanks` is followed by white space, 0: none
  std::string o;
  void put(const std::string &t) {
    o += t;
    if (blanks && s.chance(1, uint32_t(blanks)))
      o += s.elem(std::vector<std::string>{" ", "\t", "  "});
  }
  void num(int v) { put((s.chance(1, 12) ? "0" : "") + std::to_string(v)); }
  void interval(const ora::Ival &v) {
    struct One {
      std::string op;
      int v;
    };
    std::vector<One> ones;
    if (v.hi < 0)
      ones.push_back({v.loC ? ">=" : ">", v.lo});
    else {
      if (v.lo == v.hi && v.loC && v.hiC)
        ones.push_back({"=", v.lo});
      if (v.lo == 0 && v.loC)
        ones.push_back({v.hiC ? "<=" : "<", v.hi});
    }
    int extra = s.pick({6, 4, 1});
    if (!ones.empty() && (v.hi < 0 || s.chance(1, 2))) {
      for (int i = 0; i < extra; i++)
        put("(");
      auto &x = s.elem(ones);
      put(x.op);
      num(x.v);
      for (int i = 0; i < extra; i++)
        put(")");
      return;
    }
    extra = s.chance(1, 8) ? 1 : 0;
    if (extra)
      put("(");
    put(v.loC ? "[" : "(");
    num(v.lo);
    put(",");
    num(v.hi);
    put(v.hiC ? "]" : ")");
    if (extra)
      put(")");
  }
  // as an item (operand of a postfix operator, left operand) or a whole expression
  void expr(const T &e, bool item) {
    bool binary = e->k == Tre::Cat || e->k == Tre::Or || e->k == Tre::And;
    bool paren = (binary && item) || s.chance(1, 10);
    if (paren)
      put("(");
    switch (e->k) {
    case Tre::Atom: put(std::string(1, e->c)); break;
    case Tre::Cat: expr(e->l, true), expr(e->r, false); break;
    case Tre::Or: expr(e->l, true), put("|"), expr(e->r, false); break;
    case Tre::And: expr(e->l, true), put("&"), expr(e->r, false); break;
    case Tre::Plus: expr(e->l, true), put("+"); break;
    case Tre::Star: expr(e->l, true), put("*"); break;
    case Tre::Within: expr(e->l, true), put("%"), interval(e->iv); break;
    case Tre::Eps: break;
    }
    if (paren)
      put(")");
  }
};
} // namespace tre
