// DOT text for a model automaton, in the format the documentation shows.
#pragma once
#include "oracle.hh"
namespace dot {
inline std::string text(const ora::TA &a) {
  std::ostringstream o;
  o << "digraph G {\n";
  for (int i = 0; i < a.n; i++)
    o << "  " << i + 1 << " [init=" << int(a.init[size_t(i)]) << ", match=" << int(a.acc[size_t(i)]) << "];\n";
  for (auto &e : a.edges) {
    o << "  " << e.src + 1 << "->" << e.dst + 1 << " [label=\"" << e.c << "\"";
    if (!e.reset.empty()) {
      o << ", reset=\"{";
      for (size_t k = 0; k < e.reset.size(); k++)
        o << (k ? ", " : "") << e.reset[k];
      o << "}\"";
    }
    if (!e.guard.empty()) {
      o << ", guard=\"{";
      for (size_t k = 0; k < e.guard.size(); k++)
        o << (k ? ", " : "") << "x" << e.guard[k].x << " " << ora::opText(e.guard[k].op) << " " << e.guard[k].c;
      o << "}\"";
    }
    o << "];\n";
  }
  o << "}\n";
  return o.str();
}
} // namespace dot
