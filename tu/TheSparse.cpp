// Sparse matrices: row loops, buffered loops, compressed insertion, conversion to ELLPACK.
#include "numeric/sparse.hpp"
#include "numeric/ellmatrix.hpp"

namespace cpb {
/// Stands for an arbitrary callback
template<class scalar_t> struct Visit { void operator()(idx_t outer, idx_t inner, scalar_t value) const; };
template<class scalar_t> struct VisitRow { void operator()(idx_t inner, scalar_t value) const; };
template<class scalar_t> struct VisitSlice { void operator()(idx_t outer, idx_t inner, scalar_t value, idx_t n) const; };

/// Clients: the loops over a matrix
template<class scalar_t>
void visit_all(SparseMatrixX<scalar_t> const& m, Visit<scalar_t> const& f) { sparse::make_loop(m).for_each(f); }
template<class scalar_t>
void visit_row(SparseMatrixX<scalar_t> const& m, idx_t row, VisitRow<scalar_t> const& f) { sparse::make_loop(m).for_each_in_row(row, f); }
template<class scalar_t>
void visit_slice(SparseMatrixX<scalar_t> const& m, idx_t row, idx_t idx, idx_t size, VisitSlice<scalar_t> const& f) { sparse::make_loop(m).slice_for_each(row, idx, size, f); }

template void visit_all<double>(SparseMatrixX<double> const&, Visit<double> const&);
template void visit_row<double>(SparseMatrixX<double> const&, idx_t, VisitRow<double> const&);
template void visit_slice<double>(SparseMatrixX<double> const&, idx_t, idx_t, idx_t, VisitSlice<double> const&);
template void visit_all<std::complex<double>>(SparseMatrixX<std::complex<double>> const&, Visit<std::complex<double>> const&);
template void visit_row<std::complex<double>>(SparseMatrixX<std::complex<double>> const&, idx_t, VisitRow<std::complex<double>> const&);
template void visit_slice<std::complex<double>>(SparseMatrixX<std::complex<double>> const&, idx_t, idx_t, idx_t, VisitSlice<std::complex<double>> const&);

template idx_t sparse::max_nnz_per_row<double>(SparseMatrixX<double> const&);
template num::EllMatrix<double> num::csr_to_ell<double>(SparseMatrixX<double> const&);
template num::EllMatrix<std::complex<double>> num::csr_to_ell<std::complex<double>>(SparseMatrixX<std::complex<double>> const&);
}

#include "compute/kernel_polynomial.hpp"
namespace cpb {
template<class scalar_t>
void visit_ell(num::EllMatrix<scalar_t> const& m, Visit<scalar_t> const& f) { m.for_each(f); }
template<class scalar_t>
void visit_ell_rows(num::EllMatrix<scalar_t> const& m, idx_t start, idx_t end, Visit<scalar_t> const& f) { m.for_slice(start, end, f); }
template void visit_ell<double>(num::EllMatrix<double> const&, Visit<double> const&);
template void visit_ell_rows<double>(num::EllMatrix<double> const&, idx_t, idx_t, Visit<double> const&);
template void visit_ell<std::complex<double>>(num::EllMatrix<std::complex<double>> const&, Visit<std::complex<double>> const&);
template void visit_ell_rows<std::complex<double>>(num::EllMatrix<std::complex<double>> const&, idx_t, idx_t, Visit<std::complex<double>> const&);

template<class scalar_t>
void csr_product(idx_t start, idx_t end, SparseMatrixX<scalar_t> const& m, VectorX<scalar_t> const& x, VectorX<scalar_t>& y) { compute::kpm_spmv(start, end, m, x, y); }
template<class scalar_t>
void ell_product(idx_t start, idx_t end, num::EllMatrix<scalar_t> const& m, VectorX<scalar_t> const& x, VectorX<scalar_t>& y) { compute::kpm_spmv(start, end, m, x, y); }
template<class scalar_t>
void csr_product_diagonal(idx_t start, idx_t end, SparseMatrixX<scalar_t> const& m, VectorX<scalar_t> const& x, VectorX<scalar_t>& y, scalar_t& m2, scalar_t& m3) { compute::kpm_spmv_diagonal(start, end, m, x, y, m2, m3); }
template<class scalar_t>
void ell_product_diagonal(idx_t start, idx_t end, num::EllMatrix<scalar_t> const& m, VectorX<scalar_t> const& x, VectorX<scalar_t>& y, scalar_t& m2, scalar_t& m3) { compute::kpm_spmv_diagonal(start, end, m, x, y, m2, m3); }
template void csr_product<double>(idx_t, idx_t, SparseMatrixX<double> const&, VectorX<double> const&, VectorX<double>&);
template void ell_product<double>(idx_t, idx_t, num::EllMatrix<double> const&, VectorX<double> const&, VectorX<double>&);
template void csr_product<std::complex<double>>(idx_t, idx_t, SparseMatrixX<std::complex<double>> const&, VectorX<std::complex<double>> const&, VectorX<std::complex<double>>&);
template void ell_product<std::complex<double>>(idx_t, idx_t, num::EllMatrix<std::complex<double>> const&, VectorX<std::complex<double>> const&, VectorX<std::complex<double>>&);
template void csr_product_diagonal<std::complex<double>>(idx_t, idx_t, SparseMatrixX<std::complex<double>> const&, VectorX<std::complex<double>> const&, VectorX<std::complex<double>>&, std::complex<double>&, std::complex<double>&);
template void ell_product_diagonal<std::complex<double>>(idx_t, idx_t, num::EllMatrix<std::complex<double>> const&, VectorX<std::complex<double>> const&, VectorX<std::complex<double>>&, std::complex<double>&, std::complex<double>&);
template void csr_product_diagonal<double>(idx_t, idx_t, SparseMatrixX<double> const&, VectorX<double> const&, VectorX<double>&, double&, double&);
template void ell_product_diagonal<double>(idx_t, idx_t, num::EllMatrix<double> const&, VectorX<double> const&, VectorX<double>&, double&, double&);
}
namespace cpb {
inline int aligned_8(int size) { return num::aligned_size<float, 32>(size); }
inline idx_t aligned_long(idx_t size) { return num::aligned_size<std::complex<double>, 32>(size); }
inline idx_t aligned_one(idx_t size) { return num::aligned_size<double, 8>(size); }
inline idx_t aligned_int(idx_t size) { return num::aligned_size<storage_idx_t, 32>(size); }
template num::CsrConstRef<double> csrref<double>(SparseMatrixX<double> const&);
template num::CsrConstRef<std::complex<double>> csrref<std::complex<double>>(SparseMatrixX<std::complex<double>> const&);
}
