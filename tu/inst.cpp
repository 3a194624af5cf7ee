// Instantiates the public templates so that their bodies are visible to the
// extractor.  Nothing here is ever executed.
#include "linalgcpp.hpp"
#include "partition.hpp"
#include "sparsesolve.hpp"

namespace linalgcpp
{
template class VectorView<double>;
template class VectorView<int>;
template class Vector<double>;
template class Vector<int>;
template class BlockVector<double>;
template class BlockVector<int>;
template class SparseMatrix<double>;
template class SparseMatrix<int>;
template class CooMatrix<double>;
template class CooMatrix<int>;
template class LilMatrix<double>;
template class LilMatrix<int>;
template class BlockMatrix<double>;
}

using namespace linalgcpp;

template <typename T>
void use_vector(Vector<T>& a, const Vector<T>& b, VectorView<T> v, const VectorView<T>& w, T s, std::vector<T>& sv)
{
    VectorView<T> e(sv);
    swap(a, a);
    swap(v, v);
    InnerProduct(v, w);
    L2Norm(v);
    v * w;
    v *= w;
    v /= w;
    v += w;
    v -= w;
    v *= s;
    v /= s;
    v += s;
    v -= s;
    v == w;
    AbsMax(w);
    Max(w);
    Min(w);
    AbsMin(w);
    Sum(w);
    Mean(w);
    std::cout << w << sv;
    Add(s, w, s, w, s, v);
    a * s;
    s * a;
    a / s;
    s / a;
    a + b;
    a - b;
    BlockVector<T> bv, bw;
    swap(bv, bw);
    Randomize(v);
}

void use_vector_double(VectorView<double> v, const VectorView<double>& w)
{
    Add(w, w, v);
    Sub(w, w, v);
    Normalize(v);
    SubAvg(v);
}

template <typename T>
void use_sparse(SparseMatrix<T>& A, const SparseMatrix<T>& B, const VectorView<T>& x, VectorView<T> y,
                std::vector<int>& marker, const VectorView<double>& xd, VectorView<double> yd, T s)
{
    swap(A, A);
    A.Mult(x);
    A.MultAT(x);
    A.Mult(x, y);
    A.MultAT(x, y);
    A.Mult(B);
    A.Mult(B, marker);
    A.Transpose();
    A *= s;
    A /= s;
    A = s;
    A * x;
    A * s;
    s * A;
    A.EliminateRowCol(marker);
    A.EliminateCol(marker);
    A.EliminateCol(marker, xd, yd);
    std::vector<SparseMatrix<T>> ops;
    SumCols(ops);
    SumRows(ops);
}

template <typename T>
void use_coo(CooMatrix<T>& A, LilMatrix<T>& L, const std::vector<int>& r, const std::vector<T>& v, T s)
{
    swap(A, A);
    swap(L, L);
    A.ToSparse();
    L.ToSparse();
    A.Add(r, r, v);
    A.Add(r, r, s, v);
}

template <typename T>
void use_dense(DenseMatrix& D, const VectorView<T>& x, VectorView<T> y, Vector<T>& z, std::vector<T>& s)
{
    D.Mult(x);
    D.MultAT(x);
    D.Mult(x, y);
    D.MultAT(x, y);
    D.GetCol(0, y);
    D.GetRow(0, y);
    D.GetCol<T>(0);
    D.GetRow<T>(0);
    D.SetCol(0, x);
    D.SetRow(0, x);
    D.ScaleRows(s);
    D.ScaleCols(s);
    D.InverseScaleRows(s);
    D.InverseScaleCols(s);
    std::vector<DenseMatrix> ops;
    SumCols(ops);
    SumRows(ops);
}

template <typename T>
void use_parser(const SparseMatrix<T>& A, const std::vector<T>& v, const std::string& f)
{
    ReadText<T>(f);
    WriteText(v, f);
    WriteBinary(v, f);
    ReadBinaryVect<T>(f);
    WriteBinary(A, f);
    ReadBinaryMat<T>(f);
    ReadAdjList<T>(f);
    ReadGraphList<T>(f);
    WriteAdjList(A, f);
    ReadCooList<T>(f);
    ReadTable<T>(f);
    WriteTable(A, f);
    ReadCSR<T>(f);
    WriteCSR(A, f);
    ReadMTX<T>(f);
    ReadMTXList<T>(f);
    WriteMTX(A, f);
}

void use_parser_double(const SparseMatrix<double>& A, const std::string& f)
{
    WriteCooList(A, f);
}

template <typename T>
void use_partition(const SparseMatrix<T>& A, std::vector<int>& p)
{
    MakeAdjacencyInfo<T, idx_t>(A);
    RemoveEmpty(p);
    Duplicate<int, int>(p);
    Partition(A);
}

void use_block(BlockMatrix<double>& A, SparseSolver& s)
{
    swap(A, A);
    swap(s, s);
}

void use_arg(const ArgParser& a, bool& b, int& i, double& d, std::string& s)
{
    a.Parse(b, "");
    a.Parse(i, "");
    a.Parse(d, "");
    a.Parse(s, "");
}

template void use_vector<double>(Vector<double>&, const Vector<double>&, VectorView<double>, const VectorView<double>&, double, std::vector<double>&);
template void use_vector<int>(Vector<int>&, const Vector<int>&, VectorView<int>, const VectorView<int>&, int, std::vector<int>&);
template void use_sparse<double>(SparseMatrix<double>&, const SparseMatrix<double>&, const VectorView<double>&, VectorView<double>, std::vector<int>&, const VectorView<double>&, VectorView<double>, double);
template void use_sparse<int>(SparseMatrix<int>&, const SparseMatrix<int>&, const VectorView<int>&, VectorView<int>, std::vector<int>&, const VectorView<double>&, VectorView<double>, int);
template void use_coo<double>(CooMatrix<double>&, LilMatrix<double>&, const std::vector<int>&, const std::vector<double>&, double);
template void use_coo<int>(CooMatrix<int>&, LilMatrix<int>&, const std::vector<int>&, const std::vector<int>&, int);
template void use_dense<double>(DenseMatrix&, const VectorView<double>&, VectorView<double>, Vector<double>&, std::vector<double>&);
template void use_parser<double>(const SparseMatrix<double>&, const std::vector<double>&, const std::string&);
template void use_parser<int>(const SparseMatrix<int>&, const std::vector<int>&, const std::string&);
template void use_partition<double>(const SparseMatrix<double>&, std::vector<int>&);
