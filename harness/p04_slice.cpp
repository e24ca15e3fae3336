// Conformance harness for spec/Slice.tla.
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <sleipnir/autodiff/slice.hpp>
using slp::Slice;
using slp::slicing::_;
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string form, sa, sb, sk;
    int len;
    in >> form >> sa >> sb >> sk >> len;
    bool na = sa == "_", nb = sb == "_", nk = sk == "_";
    int a = na ? 0 : (int)std::stol(sa), b = nb ? 0 : (int)std::stol(sb), k = nk ? 0 : (int)std::stol(sk);
    Slice s;
    if (form == "idx") s = Slice{a};
    else if (form == "all") s = Slice{_};
    else if (form == "dflt") s = Slice{};
    else if (form == "2") {
      if (na && nb) s = Slice(_, _);
      else if (na) s = Slice(_, b);
      else if (nb) s = Slice(a, _);
      else s = Slice(a, b);
    } else {
      if (na && nb && nk) s = Slice(_, _, _);
      else if (na && nb) s = Slice(_, _, k);
      else if (na && nk) s = Slice(_, b, _);
      else if (nb && nk) s = Slice(a, _, _);
      else if (na) s = Slice(_, b, k);
      else if (nb) s = Slice(a, _, k);
      else if (nk) s = Slice(a, b, _);
      else s = Slice(a, b, k);
    }
    int n = s.adjust(len);
    std::string out = std::to_string(n) + " :";
    if (n <= 64) {
      for (long i = 0; i < n; ++i) out += " " + std::to_string((long)s.start + i * (long)s.step);
      // walking start..stop visits the same positions
      out += " ;";
      long c = 0;
      for (long i = s.start; s.step > 0 ? i < s.stop : i > s.stop; i += s.step) {
        out += " " + std::to_string(i);
        if (++c > 80) break;
      }
    } else {
      out += " " + std::to_string((long)s.start) + " " + std::to_string((long)s.start + (long)(n - 1) * s.step);
    }
    puts(out.c_str());
  }
}
