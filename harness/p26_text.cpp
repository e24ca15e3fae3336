// Formats and prints; everything observable is reported back as hex or text.
#include <fcntl.h>
#include <unistd.h>

#include <cstdio>
#include <format>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>

#include "sleipnir/autodiff/expression_type.hpp"
#include "sleipnir/optimization/ocp/dynamics_type.hpp"
#include "sleipnir/optimization/ocp/timestep_method.hpp"
#include "sleipnir/optimization/ocp/transcription_method.hpp"
#include "sleipnir/optimization/solver/exit_status.hpp"
#include "sleipnir/optimization/solver/util/inertia.hpp"
#include "sleipnir/util/print.hpp"
using namespace slp;

#define V(E, n) {#n, E::n}
static const std::map<std::string, ExitStatus> ES{
    V(ExitStatus, SUCCESS), V(ExitStatus, CALLBACK_REQUESTED_STOP), V(ExitStatus, TOO_FEW_DOFS), V(ExitStatus, LOCALLY_INFEASIBLE),
    V(ExitStatus, GLOBALLY_INFEASIBLE), V(ExitStatus, FACTORIZATION_FAILED), V(ExitStatus, LINE_SEARCH_FAILED),
    V(ExitStatus, FEASIBILITY_RESTORATION_FAILED), V(ExitStatus, NONFINITE_INITIAL_GUESS), V(ExitStatus, DIVERGING_ITERATES),
    V(ExitStatus, MAX_ITERATIONS_EXCEEDED), V(ExitStatus, TIMEOUT)};
static const std::map<std::string, ExpressionType> ET{V(ExpressionType, NONE), V(ExpressionType, CONSTANT), V(ExpressionType, LINEAR),
                                                      V(ExpressionType, QUADRATIC), V(ExpressionType, NONLINEAR)};
static const std::map<std::string, DynamicsType> DT{V(DynamicsType, EXPLICIT_ODE), V(DynamicsType, DISCRETE)};
static const std::map<std::string, TimestepMethod> TM{V(TimestepMethod, FIXED), V(TimestepMethod, VARIABLE), V(TimestepMethod, VARIABLE_SINGLE)};
static const std::map<std::string, TranscriptionMethod> TR{V(TranscriptionMethod, DIRECT_TRANSCRIPTION), V(TranscriptionMethod, DIRECT_COLLOCATION),
                                                           V(TranscriptionMethod, SINGLE_SHOOTING)};

static FILE* rep;

static std::string hex(const std::string& s) {
  std::string o = "x";
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, 4, "%02x", c);
    o += b;
  }
  return o;
}

template <typename T>
std::string fmt(const std::string& mode, const std::string& spec, int w, int p, T t) {
  if (mode == "s") return std::vformat("{:" + spec + "}", std::make_format_args(t));
  if (mode == "m") return std::vformat("[{0:" + spec + "}|{0}|{1:" + spec + "}]", std::make_format_args(t, "q"));
  // width and precision taken from arguments; spec is fill+align only
  if (p < 0) return std::vformat("{:" + spec + "{}}", std::make_format_args(t, w));
  if (w == 0) return std::vformat("{:" + spec + ".{}}", std::make_format_args(t, p));
  return std::vformat("{:" + spec + "{}.{}}", std::make_format_args(t, w, p));
}

// FILE* overloads and standard-output overloads with the same arguments
template <typename... T>
void call(bool toFile, FILE* f, bool ln, std::format_string<T...> fs, T&&... a) {
  if (toFile) {
    if (ln) slp::println(f, fs, std::forward<T>(a)...); else slp::print(f, fs, std::forward<T>(a)...);
  } else {
    if (ln) slp::println(fs, std::forward<T>(a)...); else slp::print(fs, std::forward<T>(a)...);
  }
}

struct MO {
  std::unique_ptr<int> p;
};
template <>
struct std::formatter<MO> : std::formatter<int> {
  template <typename C>
  auto format(const MO& m, C& c) const { return std::formatter<int>::format(*m.p, c); }
};

static void item(const std::string& it, bool tf, FILE* f, bool ln) {
  if (it == "plain") call(tf, f, ln, "plain text");
  else if (it == "braces") call(tf, f, ln, "{{x}} {} }}{{", "{}");
  else if (it == "ints") { int k = 42; call(tf, f, ln, "{} {:#x} {:03} {:.2f}", -1, k, 7L, 1.5); }
  else if (it == "status") call(tf, f, ln, "Exit: {}", ExitStatus::FEASIBILITY_RESTORATION_FAILED);
  else if (it == "type") { const ExpressionType t = ExpressionType::LINEAR; call(tf, f, ln, "[{:>9}]", t); }
  else if (it == "inertia") call(tf, f, ln, "{}", Inertia{3, 1, 0});
  else if (it == "utf8") call(tf, f, ln, "↳ ∇²ₓₓL {} ┃", "é");
  else if (it == "pad") call(tf, f, ln, "|{:>4}|{:<4}|{:^4}|", "ab", std::string{"cd"}, std::string_view{"ef"});
  else if (it == "dyn") call(tf, f, ln, "{:>{}}|{:.{}}", "xyz", 7, ExitStatus::MAX_ITERATIONS_EXCEEDED, 2);
  else if (it == "big") { std::string s; for (int i = 0; i < 1000; ++i) s += "0123456789"; call(tf, f, ln, "{}", s); }
  else if (it == "moveonly") { MO m{std::make_unique<int>(8)}; call(tf, f, ln, "{} {}", MO{std::make_unique<int>(7)}, std::move(m)); }
  else if (it == "empty") call(tf, f, ln, "{}", "");
}

int main(int, char** argv) {
  rep = fdopen(dup(1), "w");
  std::string dir = argv[1], line, kind, how;
  FILE *f = nullptr, *so = stdout;
  std::string path = dir + "/out" + std::to_string(getpid());
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "val") {
      std::string ty, n;
      s >> ty >> n;
      int v = ty == "ExitStatus" ? int(ES.at(n)) : ty == "ExpressionType" ? int(ET.at(n)) : ty == "DynamicsType" ? int(DT.at(n))
              : ty == "TimestepMethod" ? int(TM.at(n)) : int(TR.at(n));
      fprintf(rep, "%d\n", v);
    } else if (op == "fmt") {
      std::string kind, name, mode, spec;
      int w, p;
      s >> kind >> name >> mode >> w >> p >> spec;
      spec = spec.substr(1);
      std::string r;
      try {
        r = hex(kind == "status" ? fmt(mode, spec, w, p, ES.at(name)) : fmt(mode, spec, w, p, ET.at(name)));
      } catch (const std::exception& e) {
        r = std::string("threw ") + e.what();
      }
      fprintf(rep, "%s\n", r.c_str());
    } else if (op == "inertia") {
      int p, n, z;
      s >> p >> n >> z;
      Inertia i{p, n, z};
      fprintf(rep, "%s\n", hex(std::format("{}", i)).c_str());
    } else if (op == "begin") {
      s >> kind >> how;
      f = kind == "full" || kind == "fullb" ? fopen("/dev/full", "w") : nullptr;
      if (!f) {
        f = fopen(path.c_str(), "w");
        if (kind == "ro") { fclose(f); f = fopen(path.c_str(), "r"); }
      }
      if (kind == "filenb" || kind == "full" || kind == "closed") setvbuf(f, nullptr, _IONBF, 0);
      if (kind == "fileline") setvbuf(f, nullptr, _IOLBF, 64);
      if (kind == "closed") close(fileno(f));
      if (how == "s") stdout = f;
      fprintf(rep, "ok\n");
    } else if (op == "p") {
      std::string fn, it;
      s >> fn >> it;
      try {
        item(it, how == "f", f, fn == "println");
        fprintf(rep, "ok\n");
      } catch (const std::exception& e) {
        fprintf(rep, "threw %s\n", e.what());
      }
    } else if (op == "end") {
      stdout = so;
      fflush(f);
      std::string c;
      if (kind != "full" && kind != "fullb") {
        FILE* g = fopen(path.c_str(), "rb");
        int ch;
        while ((ch = fgetc(g)) != EOF) c += char(ch);
        fclose(g);
      }
      if (kind != "closed") fclose(f);   // (closed: the descriptor number may already belong to someone else)
      unlink(path.c_str());
      fprintf(rep, "%s\n", hex(c).c_str());
    }
    fflush(rep);
  }
}
