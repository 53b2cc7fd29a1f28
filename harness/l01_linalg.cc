// L01: sparse and dense matrices, tensors and the backends which multiply them
#include <map>
#include <sstream>
#include "eckit/io/MemoryHandle.h"
#include "eckit/linalg/LinearAlgebra.h"
#include "eckit/linalg/LinearAlgebraDense.h"
#include "eckit/linalg/LinearAlgebraSparse.h"
#include "eckit/linalg/Matrix.h"
#include "eckit/linalg/SparseMatrix.h"
#include "eckit/linalg/Tensor.h"
#include "eckit/linalg/Triplet.h"
#include "eckit/linalg/Vector.h"
#include "eckit/linalg/allocator/NonOwningAllocator.h"
#include "eckit/linalg/allocator/StandardContainerAllocator.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/memory/MemoryBuffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/io/Buffer.h"
#include "common.h"

extern "C" void omp_set_num_threads(int);
extern "C" void openblas_set_num_threads(int);

using namespace eckit;
using namespace eckit::linalg;

namespace {
template <class F>
bool fails(F f) {
    try { f(); }
    catch (std::exception&) { return true; }
    return false;
}

// rows of (column, value), in the order stored
struct Ref {
    size_t cols = 0;
    std::vector<std::vector<std::pair<size_t, double>>> rows;
    size_t nnz() const {
        size_t n = 0;
        for (auto& r : rows) n += r.size();
        return n;
    }
    std::string str() const {
        std::ostringstream o;
        o << rows.size() << "x" << cols << ":";
        for (auto& r : rows) {
            for (auto& e : r) o << e.first << "=" << e.second << " ";
            o << "|";
        }
        return o.str();
    }
    bool operator==(const Ref& o) const { return cols == o.cols && rows == o.rows; }
};

Ref transposed(const Ref& a) {
    Ref t;
    t.cols = a.rows.size();
    t.rows.resize(a.cols);
    for (size_t r = 0; r < a.rows.size(); r++)
        for (auto& e : a.rows[r])
            if (e.second != 0) t.rows[e.first].push_back({r, e.second});
    return t;
}

std::vector<Triplet> triplets(const Ref& a) {
    std::vector<Triplet> t;
    for (size_t r = 0; r < a.rows.size(); r++)
        for (auto& e : a.rows[r]) t.emplace_back(r, e.first, e.second);
    return t;
}

const std::vector<std::string>& sparseBackends() {
    static std::vector<std::string> v = []() {
        std::vector<std::string> r;
        for (auto n : {"generic", "openmp", "eigen"})
            if (LinearAlgebraSparse::hasBackend(n)) r.push_back(n);
        return r;
    }();
    return v;
}
const std::vector<std::string>& denseBackends() {
    static std::vector<std::string> v = []() {
        std::vector<std::string> r;
        for (auto n : {"generic", "openmp", "eigen", "lapack"})
            if (LinearAlgebraDense::hasBackend(n)) r.push_back(n);
        return r;
    }();
    return v;
}
void once() {
    static bool done = []() {
        omp_set_num_threads(2);
        openblas_set_num_threads(1);
        return true;
    }();
    (void)done;
}

// what the matrix holds, seen all ways
void same(mc::Ctx& c, SparseMatrix& m, const Ref& a, const std::string& what, bool products = true) {
    std::string w = what + " of " + a.str();
    MC_CHECK(c, m.rows() == a.rows.size() && m.cols() == a.cols && m.nonZeros() == a.nnz(), w, ": shape ", m.rows(), "x", m.cols(), " with ", m.nonZeros());
    const SparseMatrix& k = m;
    Ref got;
    got.cols = m.cols();
    got.rows.resize(m.rows());
    size_t n = 0;
    for (auto i = k.begin(), e = k.end(); i != e; ++i) {
        MC_CHECK(c, n++ < a.nnz() && i.row() < a.rows.size() && bool(i), w, ": too many entries");
        got.rows[i.row()].push_back({i.col(), *i});
    }
    MC_CHECK(c, got == a, w, ": entries in turn give ", got.str());
    Ref byrow;
    byrow.cols = m.cols();
    byrow.rows.resize(m.rows());
    for (size_t r = 0; r < m.rows(); r++) {
        size_t j = 0;
        for (auto i = m.begin(r), e = m.end(r); i != e; i++) {
            MC_CHECK(c, j++ < a.rows[r].size(), w, ": too many entries in row ", r);
            MC_CHECK(c, i.row() == r, w, ": entry of row ", r, " says it is of row ", i.row());
            byrow.rows[r].push_back({i.col(), *i});
        }
    }
    MC_CHECK(c, byrow == a, w, ": entries by row give ", byrow.str());
    std::ostringstream text, expect;
    m.dump(text);
    for (size_t r = 0; r < a.rows.size(); r++) {
        if (a.rows[r].empty()) continue;
        expect << r;
        for (auto& e : a.rows[r]) expect << " " << e.first << " " << e.second;
        expect << "\n";
    }
    MC_CHECK(c, text.str() == expect.str(), w, ": dumped as ", text.str());
    if (!products || m.rows() == 0 || m.cols() == 0) return;
    Vector x(m.cols());
    for (size_t j = 0; j < m.cols(); j++) x[j] = double(1 + j * j);
    Matrix X(m.cols(), 2);
    for (size_t j = 0; j < m.cols(); j++) {
        X(j, 0) = double(3 + j);
        X(j, 1) = double(10 * j) - 1;
    }
    for (auto& b : sparseBackends()) {
        if (b == "eigen" && a.nnz() == 0) continue;
        auto& la = LinearAlgebraSparse::getBackend(b);
        Vector y(m.rows());
        y.fill(77);
        la.spmv(m, x, y);
        Matrix Y(m.rows(), 2);
        Y.fill(77);
        la.spmm(m, X, Y);
        for (size_t r = 0; r < a.rows.size(); r++) {
            double s = 0, s0 = 0, s1 = 0;
            for (auto& e : a.rows[r]) {
                s += e.second * x[e.first];
                s0 += e.second * X(e.first, 0);
                s1 += e.second * X(e.first, 1);
            }
            MC_CHECK(c, y[r] == s, w, ": product with a vector by ", b, " gives ", y[r], " in row ", r, ", not ", s);
            MC_CHECK(c, Y(r, 0) == s0 && Y(r, 1) == s1, w, ": product with a matrix by ", b, " is wrong in row ", r);
        }
    }
}

Ref chooseMatrix(mc::Ctx& c, int maxRows, int maxCols, const std::vector<double>& values, int maxCells) {
    Ref a;
    size_t nr = 1 + c.choose(maxRows), nc = 1 + c.choose(maxCols);
    if (nr * nc > size_t(maxCells)) c.reject();
    a.cols = nc;
    a.rows.resize(nr);
    for (size_t r = 0; r < nr; r++)
        for (size_t j = 0; j < nc; j++) {
            double v = values[c.choose(values.size())];
            if (v != 0) a.rows[r].push_back({j, v});
        }
    return a;
}
}  // namespace

// sequences of operations on a sparse matrix
static void operations(mc::Ctx& c, int maxDim, int cells, int depth) {
    once();
    Ref a = chooseMatrix(c, maxDim, maxDim, {0, 1, 2}, cells);
    if (a.nnz() == 0) c.reject();
    // how the matrix comes to be
    int source = c.choose(4);
    std::vector<Index> ia(1, 0), ja;
    std::vector<Scalar> va;
    for (auto& r : a.rows) {
        for (auto& e : r) {
            ja.push_back(Index(e.first));
            va.push_back(e.second);
        }
        ia.push_back(Index(ja.size()));
    }
    const auto ia0 = ia;
    const auto ja0 = ja;
    const auto va0 = va;
    allocator::StandardContainerAllocator::container_type cont;
    MemoryBuffer dumped(4096);
    std::unique_ptr<SparseMatrix> m;
    if (source == 0) m.reset(new SparseMatrix(a.rows.size(), a.cols, triplets(a)));
    if (source == 1) m.reset(new SparseMatrix(new allocator::NonOwningAllocator(a.rows.size(), a.cols, ja.size(), ia.data(), ja.data(), va.data())));
    if (source == 2) {
        SparseMatrix t(a.rows.size(), a.cols, triplets(a));
        t.dump(dumped);
        m.reset(new SparseMatrix(dumped));
    }
    if (source == 3) {
        for (auto& r : a.rows) {
            cont.emplace_back();
            for (auto& e : r) cont.back()[e.first] = e.second;
        }
        m.reset(new SparseMatrix(new allocator::StandardContainerAllocator(a.rows.size(), a.cols, cont)));
    }
    MC_LOG(c, "from source ", source, " ", a.str());
    same(c, *m, a, "construction", true);
    bool own = source == 0;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(12);
        if (op == 11) break;
        std::string name;
        switch (op) {
            case 0: {
                name = "transposition";
                Ref t = transposed(a);
                bool f = fails([&]() { m->transpose(); });
                MC_CHECK(c, f == (t.nnz() == 0), "transposition of ", a.str(), f ? " fails" : " works");
                if (!f) { a = t; own = true; }
                break;
            }
            case 1:
            case 2: {
                double v = op == 1 ? 0 : 1;
                name = op == 1 ? "removal of zeros" : "removal of ones";
                Ref t = a;
                for (auto& r : t.rows)
                    for (size_t i = 0; i < r.size();)
                        if (r[i].second == v) r.erase(r.begin() + i);
                        else i++;
                bool f = fails([&]() { m->prune(v); });
                MC_CHECK(c, !f || t.nnz() == 0, name, " of ", a.str(), " fails");
                if (!f) { a = t; own = true; }
                break;
            }
            case 3: {
                name = "choice of rows";
                std::vector<size_t> p;
                size_t n = 1 + c.choose(std::min<int>(2, a.rows.size()));
                for (size_t i = 0; i < n; i++) p.push_back(c.choose(a.rows.size()));
                Ref t;
                t.cols = a.cols;
                for (auto r : p) {
                    t.rows.push_back({});
                    for (auto& e : a.rows[r])
                        if (e.second != 0) t.rows.back().push_back(e);
                }
                bool f = fails([&]() { SparseMatrix q = m->rowReduction(p); same(c, q, t, name, false); });
                MC_CHECK(c, f == (t.nnz() == 0), name, " of ", a.str(), f ? " fails" : " works");
                break;
            }
            case 4: {
                name = "copy";
                SparseMatrix q(*m);
                same(c, q, a, name, false);
                *m  = q;
                own = true;
                break;
            }
            case 5: {
                name = "move";
                SparseMatrix q(std::move(*m));
                same(c, q, a, name, false);
                *m = std::move(q);
                break;
            }
            case 6: {
                name = "stream";
                MemoryHandle h(8192);
                Buffer b(8192);
                MemoryStream s(b);
                s << *m;
                MemoryStream t(b);
                SparseMatrix q(t);
                same(c, q, a, name, false);
                m->swap(q);
                own = true;
                break;
            }
            case 7: {
                name = "dump and load";
                size_t need = 6 * 8 + m->nonZeros() * (sizeof(Scalar) + sizeof(Index)) + (m->rows() + 1) * sizeof(Index);
                MemoryBuffer b(need);
                m->dump(b);
                MC_CHECK(c, fails([&]() { MemoryBuffer s(need - 1); m->dump(s); }), "dumped to too small a buffer");
                SparseMatrix q(b);
                same(c, q, a, name, false);
                break;
            }
            case 8: {
                name = "save and load";
                m->save(PathName(c.scratch() + "/m"));
                SparseMatrix q;
                q.load(PathName(c.scratch() + "/m"));
                same(c, q, a, name, false);
                break;
            }
            case 9: {
                name = "product with diagonal matrices";
                Vector x(m->rows()), y(m->cols());
                for (size_t i = 0; i < m->rows(); i++) x[i] = double(i);  // 0 gives zeros which are stored
                for (size_t j = 0; j < m->cols(); j++) y[j] = double(2 * j + 1);
                std::string b = sparseBackends()[c.choose(sparseBackends().size())];
                SparseMatrix q;
                LinearAlgebraSparse::getBackend(b).dsptd(x, *m, y, q);
                for (size_t r = 0; r < a.rows.size(); r++)
                    for (auto& e : a.rows[r]) e.second *= x[r] * y[e.first];
                m->swap(q);
                own = true;
                break;
            }
            case 10: {
                name = "identity";
                if (!own) c.reject();  // the others have a fixed shape
                size_t nr = 1 + c.choose(3), nc = 1 + c.choose(3);
                m->setIdentity(nr, nc);
                a      = Ref();
                a.cols = nc;
                a.rows.resize(nr);
                for (size_t i = 0; i < std::min(nr, nc); i++) a.rows[i].push_back({i, 1.});
                break;
            }
        }
        same(c, *m, a, name, d + 1 == depth);
        c.step();
    }
    MC_CHECK(c, ia == ia0 && ja == ja0 && va == va0, "the arrays of the user changed");
    c.nontrivial();
    c.outcome(std::to_string(a.rows.size()) + "x" + std::to_string(a.cols));
}
MC_SECTION("operations", [](mc::Ctx& c) { operations(c, 3, c.tier() ? 5 : 4, 2); }, opts(4));
MC_SECTION("operations-deep", [](mc::Ctx& c) { operations(c, 2, 4, 3); }, thorough(4));

// every pattern of present entries in matrices with more rows
MC_SECTION("patterns", [](mc::Ctx& c) {
    once();
    size_t nr = 1 + c.choose(c.tier() ? 7 : 6), nc = 1 + c.choose(2);
    Ref a;
    a.cols = nc;
    a.rows.resize(nr);
    bool fromContainer = c.flag();
    allocator::StandardContainerAllocator::container_type cont;
    for (size_t r = 0; r < nr; r++) {
        cont.emplace_back();
        for (size_t j = 0; j < nc; j++)
            if (c.flag()) {
                a.rows[r].push_back({j, double(r * 7 + j + 1)});
                cont.back()[j] = double(r * 7 + j + 1);
            }
    }
    if (fromContainer) {
        SparseMatrix m(new allocator::StandardContainerAllocator(nr, nc, cont));
        same(c, m, a, "construction from rows");
    }
    else {
        if (a.nnz() == 0) {
            SparseMatrix none;
            Ref e;
            same(c, none, e, "empty matrix");
            return;
        }
        SparseMatrix m(nr, nc, triplets(a));
        same(c, m, a, "construction from triplets");
    }
    c.nontrivial();
}, opts(4));

// triplets as they come: zeros, repeats, out of range or order
MC_SECTION("triplets", [](mc::Ctx& c) {
    once();
    size_t nr = 1 + c.choose(3), nc = 1 + c.choose(2);
    std::vector<Triplet> t;
    Ref a;
    a.cols = nc;
    a.rows.resize(nr);
    size_t n = 1 + c.choose(c.tier() ? 3 : 2), last = 0;
    bool bad = false;
    for (size_t i = 0; i < n; i++) {
        size_t r = c.choose(nr + 1), j = c.choose(nc + 1);
        double v = c.choose(2) ? double(i + 1) : 0;
        t.emplace_back(r, j, v);
        if (v == 0) continue;
        if (r < last || r >= nr || j >= nc) bad = true;
        else {
            a.rows[r].push_back({j, v});
            last = r;
        }
    }
    if (a.nnz() > nr * nc) bad = true;
    if (!bad && a.nnz() == 0) c.reject();
    std::unique_ptr<SparseMatrix> m;
    bool f = fails([&]() { m.reset(new SparseMatrix(nr, nc, t)); });
    MC_CHECK(c, f == bad, "triplets ", bad ? "not" : "", " of a matrix ", f ? "refused" : "accepted");
    if (!f) same(c, *m, a, "triplets");
    c.nontrivial();
}, opts(4));

// dumps which were cut or changed
MC_SECTION("dumps", [](mc::Ctx& c) {
    once();
    Ref a;
    a.cols = 2;
    a.rows = {{{0, 1.}, {1, 2.}}, {}, {{1, 3.}}};
    SparseMatrix m(3, 2, triplets(a));
    size_t need = 6 * 8 + 3 * 8 + 4 * 4 + 3 * 4;
    size_t size = c.choose(need + 9);
    MemoryBuffer b(need);
    m.dump(b);
    MemoryBuffer d(size ? size : 1);
    ::memcpy(d.data(), b.data(), std::min(size, need));
    if (size == 0) c.reject();
    int word = c.choose(7);
    static const int64_t values[] = {0, -1, 1000, 1LL << 40, 1LL << 62, INT64_MAX, INT64_MIN};
    int64_t v = 0;
    if (word < 6) {
        if (size < need) c.reject();
        v = values[c.choose(7)];
        ::memcpy(static_cast<char*>(d.data()) + word * 8, &v, 8);
    }
    std::unique_ptr<SparseMatrix> q;
    bool f = fails([&]() { q.reset(new SparseMatrix(d)); });
    if (word == 6) {
        MC_CHECK(c, f == (size < need), "dump of ", need, " bytes cut to ", size, f ? " refused" : " accepted");
        if (!f) same(c, *q, a, "dump");
    }
    else if (word == 2) {  // any number of columns is possible
        MC_CHECK(c, f == (v == 0), "dump with ", v, " columns");
    }
    else MC_CHECK(c, f, "dump accepted with ", v, " in word ", word, " of the header");
    c.nontrivial();
}, opts(2));

// dense products
static void densities(mc::Ctx& c, size_t maxDim, const std::vector<double>& values, size_t maxFree) {
    once();
    size_t ni = 1 + c.choose(maxDim), nk = 1 + c.choose(maxDim), nj = 1 + c.choose(maxDim);
    Matrix A(ni, nk), B(nk, nj);
    size_t free = maxFree;
    for (size_t i = 0; i < ni; i++)
        for (size_t k = 0; k < nk; k++) A(i, k) = free ? (free--, values[c.choose(values.size())]) : double(i * 5 + k);
    for (size_t k = 0; k < nk; k++)
        for (size_t j = 0; j < nj; j++) B(k, j) = double(k * 3) - double(j * j) + 1;
    MC_CHECK(c, &A(ni - 1, nk - 1) == A.end() - 1 && A.size() == ni * nk, "the last entry is not at the end");
    for (auto& b : denseBackends()) {
        auto& la = LinearAlgebraDense::getBackend(b);
        Matrix C(ni, nj);
        C.fill(55);
        la.gemm(A, B, C);
        for (size_t i = 0; i < ni; i++)
            for (size_t j = 0; j < nj; j++) {
                double s = 0;
                for (size_t k = 0; k < nk; k++) s += A(i, k) * B(k, j);
                MC_CHECK(c, C(i, j) == s, b, ": product of ", ni, "x", nk, " and ", nk, "x", nj, " is ", C(i, j), " at ", i, ",", j, ", not ", s);
            }
        Vector x(nk), y(ni);
        for (size_t k = 0; k < nk; k++) x[k] = B(k, 0) + 2;
        y.fill(55);
        la.gemv(A, x, y);
        for (size_t i = 0; i < ni; i++) {
            double s = 0;
            for (size_t k = 0; k < nk; k++) s += A(i, k) * x[k];
            MC_CHECK(c, y[i] == s, b, ": product of ", ni, "x", nk, " and a vector is ", y[i], " at ", i, ", not ", s);
        }
        Vector u(A.data(), A.size()), v(A.size());
        double s = 0;
        for (size_t i = 0; i < u.size(); i++) {
            v[i] = double(i) - 1;
            s += u[i] * v[i];
        }
        MC_CHECK(c, la.dot(u, v) == s, b, ": product of vectors is ", la.dot(u, v), ", not ", s);
        Matrix wrong(ni, nj + 1);
        MC_CHECK(c, fails([&]() { la.gemm(A, B, wrong); }), b, ": product to a matrix of another shape");
        Vector wv(ni + 1);
        MC_CHECK(c, fails([&]() { la.gemv(A, x, wv); }), b, ": product to a vector of another length");
    }
    // copies are of their own, views are not
    {
        Matrix copy(A), view(A.data(), ni, nk), assigned;
        assigned = A;
        double old = A(0, 0);
        A(0, 0)    = old + 1;
        MC_CHECK(c, copy(0, 0) == old && assigned(0, 0) == old && view(0, 0) == old + 1, "copies of matrices");
        view = copy;  // a copy now
        MC_CHECK(c, A(0, 0) == old + 1 && view(0, 0) == old, "assignment to a view of a matrix");
        A(0, 0) = old;
        Buffer buf(4096);
        MemoryStream s(buf);
        Vector vec(A.data(), A.size()), vcopy(vec);
        s << A << vec;
        MemoryStream r(buf);
        Matrix A2(r);
        Vector v2(r);
        MC_CHECK(c, A2.rows() == ni && A2.cols() == nk && std::equal(A2.begin(), A2.end(), A.begin()), "matrix through a stream");
        MC_CHECK(c, v2.size() == vec.size() && std::equal(v2.begin(), v2.end(), vec.begin()) && std::equal(vcopy.begin(), vcopy.end(), vec.begin()), "vector through a stream");
        Matrix R(A);
        R.resize(nk, ni);
        MC_CHECK(c, R.rows() == nk && R.cols() == ni && std::equal(R.begin(), R.end(), A.begin()), "resize to the same size");
        R.resize(nk + 1, ni);
        R.setZero();
        MC_CHECK(c, R.size() == (nk + 1) * ni && std::count(R.begin(), R.end(), 0.) == long(R.size()), "resize to another size");
    }
    c.nontrivial();
}
MC_SECTION("dense", [](mc::Ctx& c) { densities(c, c.tier() ? 5 : 4, {-1, 0, 2}, c.tier() ? 6 : 4); }, opts(3));

// tensors: all shapes and both layouts
MC_SECTION("tensors", [](mc::Ctx& c) {
    using T = Tensor<double>;
    size_t rank = 1 + c.choose(4);
    std::vector<Size> shape;
    for (size_t i = 0; i < rank; i++) shape.push_back(1 + c.choose(3));
    auto layout = c.flag() ? T::Layout::RowMajor : T::Layout::ColMajor;
    T t(shape, layout);
    size_t n = 1;
    for (auto s : shape) n *= s;
    MC_CHECK(c, t.size() == n && T::flatSize(shape) == n, "size");
    auto at = [&](const T& x, const std::vector<size_t>& i) {
        return rank == 1 ? x(i[0]) : rank == 2 ? x(i[0], i[1]) : rank == 3 ? x(i[0], i[1], i[2]) : x(i[0], i[1], i[2], i[3]);
    };
    auto set = [&](T& x, const std::vector<size_t>& i, double v) {
        if (rank == 1) x(i[0]) = v;
        else if (rank == 2) x(i[0], i[1]) = v;
        else if (rank == 3) x(i[0], i[1], i[2]) = v;
        else x(i[0], i[1], i[2], i[3]) = v;
    };
    std::vector<std::vector<size_t>> all;
    for (size_t g = 0; g < n; g++) {
        std::vector<size_t> i(rank);
        size_t k = g;
        for (size_t d = 0; d < rank; d++) {
            i[d] = k % shape[d];
            k /= shape[d];
        }
        all.push_back(i);
    }
    auto val = [](const std::vector<size_t>& i) {
        double v = 1;
        for (auto x : i) v = v * 4 + double(x);
        return v;
    };
    t.fill(-1);
    for (auto& i : all) set(t, i, val(i));
    auto flat = [&](const std::vector<size_t>& i, T::Layout l) {
        size_t p = 0;
        if (l == T::Layout::ColMajor)
            for (size_t d = rank; d-- > 0;) p = p * shape[d] + i[d];
        else
            for (size_t d = 0; d < rank; d++) p = p * shape[d] + i[d];
        return p;
    };
    auto same = [&](const T& x, T::Layout l, const char* what) {
        MC_CHECK(c, x.shape() == shape && x.layout() == l && x.size() == n, what, ": shape");
        for (auto& i : all) {
            MC_CHECK(c, at(x, i) == val(i), what, ": entry by its indices");
            MC_CHECK(c, x.data()[flat(i, l)] == val(i), what, ": entry in storage");
        }
    };
    auto other = layout == T::Layout::ColMajor ? T::Layout::RowMajor : T::Layout::ColMajor;
    same(t, layout, "tensor");
    T o = layout == T::Layout::ColMajor ? t.transformColMajorToRowMajor() : t.transformRowMajorToColMajor();
    same(o, other, "other layout");
    T back = layout == T::Layout::ColMajor ? o.transformRowMajorToColMajor() : o.transformColMajorToRowMajor();
    same(back, layout, "and back");
    int op = c.choose(8);
    if (op == 0) {
        T q(t);
        t.zero();
        same(q, layout, "copy");
    }
    if (op == 1) {
        T q(std::move(t));
        same(q, layout, "move");
        MC_CHECK(c, t.size() == 0 && !t.data(), "moved from");
        t = q;
        same(t, layout, "assignment to a tensor moved from");
    }
    if (op == 2) {
        T q({2, 2}, other);
        q = t;
        same(q, layout, "assignment");
        q = std::move(t);
        same(q, layout, "assignment of a temporary");
    }
    if (op == 3) {
        T q(std::vector<Size>{3, 5}, other);
        q.fill(2);
        q.swap(t);
        same(q, layout, "swap");
        MC_CHECK(c, t.size() == 15 && t(2, 4) == 2 && t.layout() == other, "swapped");
    }
    if (op == 4) {
        Buffer b(8192);
        MemoryStream s(b);
        s << t;
        MemoryStream r(b);
        T q(r);
        same(q, layout, "stream");
    }
    if (op == 5) {  // a view
        std::vector<double> d(t.begin(), t.end());
        T v(d.data(), shape, layout);
        same(v, layout, "view");
        v.zero();
        MC_CHECK(c, d[0] == 0, "view of something else");
        v = t;
        same(v, layout, "assigned view");
        T m(std::move(v));
        same(m, layout, "moved view");
    }
    if (op == 6) {
        std::vector<Size> rs(shape.rbegin(), shape.rend());
        t.resize(rs);
        T fresh(rs, layout);
        for (size_t i = 0; i < n; i++) fresh.data()[i] = double(i);
        for (size_t i = 0; i < n; i++) t.data()[i] = double(i);
        std::vector<size_t> last;
        for (auto s : rs) last.push_back(s - 1);
        for (auto& i : all) {
            std::vector<size_t> j(i.rbegin(), i.rend());
            MC_CHECK(c, at(t, j) == at(fresh, j), "entries after a change of shape");
        }
        t.resize({2, 3, 4});
        t.fill(9);
        MC_CHECK(c, t.size() == 24 && t(1, 2, 3) == 9 && t.end() - t.begin() == 24, "resized");
    }
    if (op == 7) {
        T none;
        T q(t);
        q = none;
        MC_CHECK(c, q.size() == 0 && q.shape().empty(), "assignment of an empty tensor");
        T none2;
        none2 = std::move(q);
        none2 = t;
        same(none2, layout, "assignment to an empty tensor");
    }
    c.nontrivial();
}, opts(5));

MC_SECTION("sizes", [](mc::Ctx& c) {
    // sizes are not limited by those of narrower integers
    Size a = Size(1) << (14 + c.choose(4)), b = Size(1) << (14 + c.choose(4)), d = 1 + c.choose(3);
    MC_CHECK(c, Tensor<double>::flatSize({a, b, d}) == a * b * d, "size of ", a, "x", b, "x", d, " is ", Tensor<double>::flatSize({a, b, d}));
    auto s = Tensor<double>::strides(Tensor<double>::Layout::RowMajor, {d, a, b});
    MC_CHECK(c, s[0] == a * b && s[1] == b && s[2] == 1, "strides by row");
    s = Tensor<double>::strides(Tensor<double>::Layout::ColMajor, {a, b, d});
    MC_CHECK(c, s[0] == 1 && s[1] == a && s[2] == a * b, "strides by column");
    c.nontrivial();
}, opts(2));
