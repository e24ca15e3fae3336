// Writes sparsity recordings; file contents are compared by the driver.
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "sleipnir/util/spy.hpp"

static std::string unhex(const std::string& h) {
  std::string o;
  for (size_t i = 1; i + 1 < h.size(); i += 2) o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}

template <typename S>
void go(std::istringstream& s, const std::string& file) {
  std::string a, b, c;
  int rows, cols, nm;
  s >> a >> b >> c >> rows >> cols >> nm;
  std::string t = unhex(a), rl = unhex(b), cl = unhex(c);
  slp::Spy<S> spy{file, t, rl, cl, rows, cols};
  for (int m = 0; m < nm; ++m) {
    int n, mode;
    s >> mode >> n;
    Eigen::SparseMatrix<S> mat(rows, cols);
    std::vector<std::tuple<int, int, S>> es;
    for (int k = 0; k < n; ++k) {
      int r, cc;
      std::string v;
      s >> r >> cc >> v;
      es.emplace_back(r, cc, S(strtod(v.c_str(), nullptr)));
    }
    if (mode == 0) {  // compressed
      std::vector<Eigen::Triplet<S>> ts;
      for (auto& [r, cc, v] : es) ts.emplace_back(r, cc, v);
      mat.setFromTriplets(ts.begin(), ts.end());
      spy.add(mat);
    } else {  // uncompressed, with spare room in every column
      if (cols > 0) mat.reserve(Eigen::VectorXi::Constant(cols, rows < 8 ? rows + 2 : 8));
      for (auto& [r, cc, v] : es) mat.insert(r, cc) = v;
      spy.add(mat);
    }
  }
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string ty, file;
    s >> ty >> file;
    if (ty == "d") go<double>(s, file); else go<float>(s, file);
    FILE* f = fopen(file.c_str(), "rb");
    int ch;
    std::string out;
    char buf[4];
    while ((ch = fgetc(f)) != EOF) {
      snprintf(buf, 4, "%02x", ch);
      out += buf;
    }
    fclose(f);
    puts(out.c_str());
    fflush(stdout);
  }
}
