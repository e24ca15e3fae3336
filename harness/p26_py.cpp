// A Python module with the library's own enum and iteration-info bindings.
#include <nanobind/eigen/dense.h>
#include <nanobind/nanobind.h>

#include <Eigen/SparseCore>
#include <sleipnir/autodiff/expression_type.hpp>
#include <sleipnir/optimization/ocp/dynamics_type.hpp>
#include <sleipnir/optimization/ocp/timestep_method.hpp>
#include <sleipnir/optimization/ocp/transcription_method.hpp>
#include <sleipnir/optimization/solver/exit_status.hpp>
#include <sleipnir/optimization/solver/iteration_info.hpp>

namespace nb = nanobind;
namespace slp {
void bind_expression_type(nb::enum_<ExpressionType>& e);
void bind_exit_status(nb::enum_<ExitStatus>& e);
void bind_iteration_info(nb::class_<IterationInfo<double>>& cls);
void bind_dynamics_type(nb::enum_<DynamicsType>& e);
void bind_timestep_method(nb::enum_<TimestepMethod>& e);
void bind_transcription_method(nb::enum_<TranscriptionMethod>& e);

NB_MODULE(p26_py, m) {
  nb::enum_<ExpressionType> a{m, "ExpressionType"};
  nb::enum_<ExitStatus> b{m, "ExitStatus"};
  nb::enum_<DynamicsType> c{m, "DynamicsType"};
  nb::enum_<TimestepMethod> d{m, "TimestepMethod"};
  nb::enum_<TranscriptionMethod> e{m, "TranscriptionMethod"};
  nb::class_<IterationInfo<double>> f{m, "IterationInfo"};
  bind_expression_type(a);
  bind_exit_status(b);
  bind_dynamics_type(c);
  bind_timestep_method(d);
  bind_transcription_method(e);
  bind_iteration_info(f);
  m.def("value", [](ExpressionType t) { return int(t); });
  m.def("value", [](ExitStatus t) { return int(t); });
  m.def("value", [](DynamicsType t) { return int(t); });
  m.def("value", [](TimestepMethod t) { return int(t); });
  m.def("value", [](TranscriptionMethod t) { return int(t); });
  m.def("to", [](ExitStatus, int v) { return ExitStatus(v); });
  m.def("to", [](ExpressionType, int v) { return ExpressionType(v); });
  // A fake solve: n iterations with recognisable data that is overwritten between iterations.
  m.def("run", [](int n, int rows, int me, int mi, nb::object cb) {
    Eigen::VectorXd x(rows), s(mi), y(me), z(mi);
    Eigen::SparseVector<double> g(rows);
    Eigen::SparseMatrix<double> H(rows, rows), Ae(me, rows), Ai(mi, rows);
    for (int k = 0; k < n; ++k) {
      auto fill = [&](auto& v, double b) { for (int i = 0; i < v.size(); ++i) v[i] = b + i + 1000 * k; };
      fill(x, 1); fill(s, 100); fill(y, 200); fill(z, 300);
      auto sp = [&](auto& M, double b) {
        M.setZero();
        for (int c = 0; c < M.cols(); ++c)
          for (int r = 0; r < M.rows(); ++r)
            if ((r + c + k) % 2 == 0) M.coeffRef(r, c) = b + r + 10 * c + 1000 * k;
        if (k % 2 == 0) M.makeCompressed();
      };
      sp(H, 400); sp(Ae, 500); sp(Ai, 600);
      g.setZero();
      for (int i = 0; i < rows; ++i) if ((i + k) % 2) g.coeffRef(i) = 700 + i + 1000 * k;
      IterationInfo<double> info{k, x, s, y, z, g, H, Ae, Ai};
      cb(nb::cast(info, nb::rv_policy::reference));
    }
  });
}
}  // namespace slp
