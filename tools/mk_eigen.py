#!/usr/bin/env python3
"""Copy the system Eigen 3.4 headers and add the few newer-Eigen features Sleipnir uses.

    mk_eigen.py OUT_DIR

Sleipnir pins an Eigen master snapshot that is not available offline.  The features added are
API only: matrix[r, c], SparseMatrix::setFromSortedTriplets (which also *checks* sortedness),
cwiseGreater, DiagonalMatrix * DiagonalMatrix, and bool comparisons of custom scalars.
"""
import os, re, shutil, sys

SRC = "/usr/include/eigen3"


def sub(path, old, new, count=1, regex=False):
    s = open(path, encoding="utf-8").read()
    n = len(re.findall(old, s)) if regex else s.count(old)
    if n < 1:
        raise SystemExit(f"mk_eigen: pattern not found in {path}: {old!r}")
    s = re.sub(old, new, s) if regex else s.replace(old, new)
    open(path, "w", encoding="utf-8").write(s)


def main(out):
    tmp = f"{out}.tmp{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    shutil.copytree(f"{SRC}/Eigen", f"{tmp}/Eigen")
    C = f"{tmp}/Eigen/src/Core"
    # matrix[r, c]
    f = f"{C}/DenseCoeffsBase.h"
    s = open(f, encoding="utf-8").read()
    ro = re.search(r"EIGEN_DEVICE_FUNC\s+EIGEN_STRONG_INLINE CoeffReturnType\s+operator\[\]\(Index index\) const", s)
    assert ro
    s = s[:ro.start()] + ("EIGEN_DEVICE_FUNC EIGEN_STRONG_INLINE CoeffReturnType operator[](Index row, Index col) const"
                          " { return derived().operator()(row, col); }\n    ") + s[ro.start():]
    rw = re.search(r"EIGEN_DEVICE_FUNC\s+EIGEN_STRONG_INLINE Scalar&\s+operator\[\]\(Index index\)", s)
    assert rw
    s = s[:rw.start()] + ("EIGEN_DEVICE_FUNC EIGEN_STRONG_INLINE Scalar& operator[](Index row, Index col)"
                          " { return derived().operator()(row, col); }\n    ") + s[rw.start():]
    open(f, "w", encoding="utf-8").write(s)
    # comparisons that must be bool for custom scalars
    sub(f"{tmp}/Eigen/src/LU/PartialPivLU.h", "if(biggest_in_corner != Score(0))", "if(!bool(biggest_in_corner == Score(0)))")
    sub(f"{tmp}/Eigen/src/Householder/Householder.h", "else if(tau!=Scalar(0))", "else if(!bool(tau==Scalar(0)))")
    sub(f"{C}/products/TriangularMatrixMatrix.h", r"(lhs_alpha|rhs_alpha)!=(LhsScalar|RhsScalar)\(1\)", r"!bool(\1==\2(1))", regex=True)
    sub(f"{C}/products/TriangularMatrixVector.h", r"(lhs_alpha|rhs_alpha)!=(LhsScalar|RhsScalar)\(1\)", r"!bool(\1==\2(1))", regex=True)
    # SparseMatrix::setFromSortedTriplets, checking its precondition
    f = f"{tmp}/Eigen/src/SparseCore/SparseMatrix.h"
    sub(f, "    template<typename InputIterators>\n    void setFromTriplets(const InputIterators& begin, const InputIterators& end);",
        """    template<typename InputIterators>
    void setFromTriplets(const InputIterators& begin, const InputIterators& end);

    template<typename InputIterators>
    void setFromSortedTriplets(const InputIterators& begin, const InputIterators& end) {
      for (InputIterators it = begin; it != end; ++it) {
        if (it->row() < 0 || it->row() >= rows() || it->col() < 0 || it->col() >= cols())
          throw std::out_of_range("setFromSortedTriplets: triplet out of range");
        if (it != begin) {
          InputIterators pr = it; --pr;
          auto o1 = IsRowMajor ? pr->row() : pr->col(), i1 = IsRowMajor ? pr->col() : pr->row();
          auto o2 = IsRowMajor ? it->row() : it->col(), i2 = IsRowMajor ? it->col() : it->row();
          if (o1 > o2 || (o1 == o2 && i1 > i2))
            throw std::logic_error("setFromSortedTriplets: triplets not sorted");
        }
      }
      setFromTriplets(begin, end);
    }""")
    sub(f"{tmp}/Eigen/Core", "#include <complex>", "#include <complex>\n#include <stdexcept>")
    # cwiseGreater, cwiseSquare
    f = f"{C}/MatrixBase.h"
    sub(f, "#   ifdef EIGEN_MATRIXBASE_PLUGIN",
        """    inline auto cwiseGreater(const Scalar& s) const { return (derived().array() > s).matrix(); }
    inline auto cwiseSquare() const { return derived().cwiseAbs2(); }
#   ifdef EIGEN_MATRIXBASE_PLUGIN""")
    # diagonal * diagonal
    f = f"{C}/DiagonalMatrix.h"
    sub(f, "    typedef DiagonalWrapper<const CwiseUnaryOp<internal::scalar_inverse_op<Scalar>, const DiagonalVectorType> > InverseReturnType;",
        """    template<typename OtherDerived>
    inline PlainObject operator*(const DiagonalBase<OtherDerived>& other) const
    { return PlainObject(diagonal().cwiseProduct(other.diagonal())); }
    typedef DiagonalWrapper<const CwiseUnaryOp<internal::scalar_inverse_op<Scalar>, const DiagonalVectorType> > InverseReturnType;""")
    if os.path.isdir(out):
        shutil.rmtree(tmp)
    else:
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)


main(sys.argv[1])
