// Integer ambiguity resolution (core/solver/lambda.*)
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include <iostream>
#include "sym.h"
#include <Eigen/Core>
#include <Eigen/LU>
#include "core/solver/lambda.h"
using namespace mc;
using namespace mc::core::solver;
using Eigen::MatrixXd;
using Eigen::VectorXd;

static const double T = 1e-9;
static double bounded(const char* nm, double lo, double hi)
{
    const double v = sym_real(nm);
    sym_assume((v >= lo) & (v <= hi));
    return v;
}
static MatrixXd unitLower(int n, double m)
{
    MatrixXd L = MatrixXd::Identity(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) L(i, j) = bounded("L", -m, m);
    return L;
}
static VectorXd free(const char* nm, int n, double lo, double hi)
{
    VectorXd v(n);
    for (int i = 0; i < n; ++i) v(i) = bounded(nm, lo, hi);
    return v;
}
// LᵀDL, entry by entry
static double quad(const MatrixXd& L, const VectorXd& D, int r, int c)
{
    double v = 0;
    for (int k = r > c ? r : c; k < (int)D.rows(); ++k) v += L(k, r) * D(k) * L(k, c);
    return v;
}
static MatrixXd gram(const MatrixXd& L, const VectorXd& D)
{
    MatrixXd Q(D.rows(), D.rows());
    for (int i = 0; i < (int)D.rows(); ++i)
        for (int j = 0; j < (int)D.rows(); ++j) Q(i, j) = quad(L, D, i, j);
    return Q;
}

// ---------------------------------------------------------------- decomposition
static void ltdl(int n)
{
    const MatrixXd L0 = unitLower(n, 2);
    const VectorXd D0 = free("D", n, 0.25, 4);
    MatrixXd L(n, n);
    VectorXd D(n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) L(i, j) = 7;
    LTDL(gram(L0, D0), L, D);
    for (int i = 0; i < n; ++i)
    {
        sym_assert_eq(D(i), D0(i), T, "diagonal");
        for (int j = 0; j < n; ++j) sym_assert_eq(L(i, j), L0(i, j), T, "factor");
    }
    sym_reach("end");
}
extern "C" void h_ltdl2() { ltdl(2); }
extern "C" void h_ltdl3() { ltdl(3); }

// ---------------------------------------------------------------- elementary steps
extern "C" void h_gauss()
{
    const int n = 3;
    const MatrixXd L0 = unitLower(n, 2.4);
    const VectorXd a0 = free("a", n, -10, 10);
    MatrixXd Z0(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) Z0(i, j) = bounded("Z", -10, 10);
    const int i = sym_choice("i", 1, 2), j = sym_choice("j", 0, i - 1);
    MatrixXd L = L0, Z = Z0;
    VectorXd a = a0;
    integerGaussTransformations(i, j, L, a, Z);
    const double mu = L0(i, j) - L(i, j);
    sym_assert((L(i, j) <= 0.5) & (L(i, j) >= -0.5), "the entry is reduced to at most a half");
    bool whole = false;
    for (int k = -2; k <= 2; ++k) whole = whole | (mu == k);
    sym_assert(whole, "an integer multiple is taken off");
    for (int r = 0; r < n; ++r)
    {
        sym_assert_eq(a(r), r == j ? a0(j) - mu * a0(i) : a0(r), T, "estimate");
        for (int c = 0; c < n; ++c)
        {
            sym_assert_eq(L(r, c), c == j ? L0(r, j) - mu * L0(r, i) : L0(r, c), T, "factor");
            sym_assert_eq(Z(r, c), c == j ? Z0(r, j) - mu * Z0(r, i) : Z0(r, c), T, "transformation");
        }
    }
    sym_reach("end");
}
static void permuteEntry(int n)
{
    const MatrixXd L0 = unitLower(n, 2);
    const VectorXd D0 = free("D", n, 0.25, 4), a0 = free("a", n, -10, 10);
    MatrixXd Z0(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) Z0(i, j) = bounded("Z", -10, 10);
    const int k = sym_choice("k", 0, n - 2);
    MatrixXd L = L0, Z = Z0;
    VectorXd a = a0, D = D0;
    const double delta = D0(k) + L0(k + 1, k) * L0(k + 1, k) * D0(k + 1);
    permute(k, delta, a, L, D, Z);
    auto p = [&](int i) { return i == k ? k + 1 : i == k + 1 ? k : i; };
    for (int i = 0; i < n; ++i)
    {
        sym_assert_eq(a(i), a0(p(i)), T, "estimate");
        for (int j = 0; j < n; ++j)
        {
            sym_assert_eq(Z(i, j), Z0(i, p(j)), T, "transformation");
            sym_assert_eq(quad(L, D, i, j), quad(L0, D0, p(i), p(j)), T, "covariance");
            if (j >= i) sym_assert_eq(L(i, j), i == j ? 1 : 0, T, "unit lower triangular");
        }
    }
    sym_reach("end");
}
extern "C" void h_permute3() { permuteEntry(3); }
extern "C" void h_permute4() { permuteEntry(4); }

// ---------------------------------------------------------------- reduction
static void reduceFrom(int n, const MatrixXd& L0, const VectorXd& D0)
{
    const VectorXd a = free("a", n, -10, 10);
    const MatrixXd Q = gram(L0, D0);
    MatrixXd L(n, n), Z(n, n);
    VectorXd z(n), D(n);
    reduction(Q, a, z, L, D, Z);
    double det = n == 2 ? Z(0, 0) * Z(1, 1) - Z(0, 1) * Z(1, 0)
                        : Z(0, 0) * (Z(1, 1) * Z(2, 2) - Z(1, 2) * Z(2, 1)) - Z(0, 1) * (Z(1, 0) * Z(2, 2) - Z(1, 2) * Z(2, 0)) + Z(0, 2) * (Z(1, 0) * Z(2, 1) - Z(1, 1) * Z(2, 0));
    sym_assert((det == 1) | (det == -1), "the transformation is unimodular");
    for (int i = 0; i < n; ++i)
    {
        double e = 0;
        for (int k = 0; k < n; ++k)
        {
            e += Z(k, i) * a(k);
            sym_assert(Z(k, i) == (double)(int)Z(k, i), "the transformation is whole");
        }
        sym_assert_eq(z(i), e, T, "estimate");
        for (int j = 0; j < n; ++j)
        {
            double q = 0;
            for (int k = 0; k < n; ++k)
                for (int m = 0; m < n; ++m)
                    if (Z(k, i) != 0 && Z(m, j) != 0) q += Z(k, i) * Q(k, m) * Z(m, j);
            sym_assert_eq(quad(L, D, i, j), q, T, "covariance");
            if (j < i) sym_assert((L(i, j) <= 0.5) & (L(i, j) >= -0.5), "reduced");
            else sym_assert_eq(L(i, j), i == j ? 1 : 0, T, "unit lower triangular");
        }
        if (i + 1 < n) sym_assert(D(i) + L(i + 1, i) * L(i + 1, i) * D(i + 1) >= D(i + 1), "ordered");
    }
    sym_reach("end");
}
static void reduceEntry(int n, double l, double d)
{
    const MatrixXd L0 = unitLower(n, l);
    reduceFrom(n, L0, free("D", n, 1, d));
}
static void reduceOne(int r, int c, double m, double d0 = 1, double d1 = 2.25, double d2 = 4)
{
    MatrixXd L0 = MatrixXd::Identity(3, 3);
    L0(1, 0) = 0.375;
    L0(2, 0) = -0.75;
    L0(2, 1) = 1.25;
    L0(r, c) = bounded("L", -m, m);
    VectorXd D0(3);
    D0(0) = d0;
    D0(1) = d1;
    D0(2) = d2;
    reduceFrom(3, L0, D0);
}
extern "C" void h_reduce2() { reduceEntry(2, 1.4, 2); }
extern "C" void h_reduce3() { reduceOne(1, 0, 1.5); }
extern "C" void h_reduce3c() { reduceOne(1, 0, 1.5, 1, 2.25, 1); }
extern "C" void h_reduce3d() { reduceOne(1, 0, 1.5, 4, 1, 2.25); }
extern "C" void h_reduce3b() { reduceOne(2, 0, 0.4); }
extern "C" void h_reduce2w() { reduceEntry(2, 2.4, 4); }

// ---------------------------------------------------------------- search
static double cost(const MatrixXd& L, const VectorXd& D, const VectorXd& a, const double* z)
{
    // (a - z)ᵀ (LᵀDL)⁻¹ (a - z): x = L⁻ᵀ(a - z)
    const int n = a.rows();
    double x[4], s = 0;
    for (int i = n - 1; i >= 0; --i)
    {
        x[i] = a(i) - z[i];
        for (int k = i + 1; k < n; ++k) x[i] -= L(k, i) * x[k];
        s += x[i] * x[i] / D(i);
    }
    return s;
}
static void best(const MatrixXd& L, const VectorXd& D, const VectorXd& a, const double c[4][4], int cands, int R)
{
    const int n = a.rows();
    int w = 2 * R + 1, total = 1;
    for (int i = 0; i < n; ++i) total *= w;
    const double last = cost(L, D, a, c[cands - 1]);
    bool ok = true;
    for (int k = 0; k < total; ++k)
    {
        double z[4];
        bool cand = false;
        for (int i = 0, q = k; i < n; ++i, q /= w) z[i] = q % w - R;
        for (int m = 0; m < cands; ++m)
        {
            bool same = true;
            for (int i = 0; i < n; ++i) same = same & (z[i] == c[m][i]);
            cand = cand | same;
        }
        if (cand) continue;
        ok = ok & (cost(L, D, a, z) >= last);
    }
    sym_assert(ok, "no other integer vector is closer than a candidate");
}
static void problem(int which, int n, MatrixXd& L, VectorXd& D)
{
    static const double l[4][3] = {{0.25, 0.5, -0.375}, {-0.5, 0.125, 0.25}, {0.375, -0.25, 0.5}, {0.5, 0, 0.25}};
    static const double d[4][3] = {{0.25, 1, 0.0625}, {1, 1, 1}, {4, 0.25, 1}, {0x1p-27, 0x1p-28, 0x1p-27}};
    L = MatrixXd::Identity(n, n);
    D = VectorXd(n);
    int c = 0;
    for (int i = 0; i < n; ++i)
    {
        D(i) = d[which][i];
        for (int j = 0; j < i; ++j) L(i, j) = l[which][c++];
    }
}
static void searchEntry(int n, int cands, double box, int which)
{
    MatrixXd L;
    VectorXd D;
    problem(which, n, L, D);
    const VectorXd a = free("a", n, -box, box);
    MatrixXd z(n, cands);
    VectorXd s(cands);
    search(a, L, D, cands, z, s);
    double c[4][4];
    for (int k = 0; k < cands; ++k)
    {
        for (int i = 0; i < n; ++i) c[k][i] = z(i, k);
        sym_assert_eq(s(k), cost(L, D, a, c[k]), T, "squared norm of a candidate");
        if (k) sym_assert(s(k) >= s(k - 1), "candidates are sorted");
        for (int m = 0; m < k; ++m)
        {
            bool same = true;
            for (int i = 0; i < n; ++i) same = same & (c[k][i] == c[m][i]);
            sym_assert(!same, "candidates are distinct");
        }
    }
    best(L, D, a, c, cands, 3);
    sym_reach("end");
}
extern "C" void h_search2() { searchEntry(2, 2, 0.5, 0); }
extern "C" void h_search2b() { searchEntry(2, 3, 0.5, 1); }
extern "C" void h_search2c() { searchEntry(2, 3, 0.9, 2); }
extern "C" void h_search2d() { searchEntry(2, 4, 0.5, 0); }
extern "C" void h_search2e() { searchEntry(2, 2, 0.5, 3); }    // an accurate estimate
extern "C" void h_search3() { searchEntry(3, 2, 0.25, 0); }
extern "C" void h_search3b() { searchEntry(3, 2, 0.5, 1); }

// ---------------------------------------------------------------- the whole method
static void lambdaEntry(int which, double box, int off0 = 0, int off1 = 0)
{
    const int n = 2;
    // a correlated covariance: LᵀDL with entries beyond a half
    MatrixXd L = MatrixXd::Identity(n, n);
    VectorXd D(n);
    static const double l[3] = {1.5, -2.25, 0.25}, d0[3] = {1, 1, 0.75}, d1[3] = {4, 0.25, 4};
    L(1, 0) = l[which];
    D(0) = d0[which];
    D(1) = d1[which];
    VectorXd a(n);
    a(0) = bounded("a", off0 ? off0 : -box, off0 + box);
    a(1) = bounded("a", off1 ? off1 : -box, off1 + box);
    VectorXd fixed(n);
    double ratio;
    lambda(a, gram(L, D), fixed, make_out(ratio));
    double c[2] = {fixed(0), fixed(1)};
    sym_assert((c[0] == (double)(int)c[0]) & (c[1] == (double)(int)c[1]), "the fixed ambiguities are whole");
    const double s0 = cost(L, D, a, c);
    double s1 = 1e18;
    for (int i = -4; i <= 4; ++i)
        for (int j = -4; j <= 4; ++j)
        {
            double z[2] = {(double)(i + off0), (double)(j + off1)};
            if ((z[0] == c[0]) & (z[1] == c[1])) continue;
            const double s = cost(L, D, a, z);
            if (s < s1) s1 = s;
        }
    sym_assert(s1 >= s0, "no integer vector is closer than the fixed one");
    int near = 0;
    for (int i = -4; i <= 4; ++i)
        for (int j = -4; j <= 4; ++j)
        {
            double z[2] = {(double)(i + off0), (double)(j + off1)};
            if ((z[0] == c[0]) & (z[1] == c[1])) continue;
            near += cost(L, D, a, z) < s1 + 1e-3;
        }
    sym_assume(near == 1);
    sym_assert_eq(ratio * s1, s0, T, "the ratio compares the best two");
    sym_reach("end");
}
extern "C" void h_lambda() { lambdaEntry(0, 0.9); }
extern "C" void h_lambda_off() { lambdaEntry(2, 0.9, 3, -5); }
extern "C" void h_lambda_1() { lambdaEntry(1, 0.5); }
extern "C" void h_lambda_1w() { lambdaEntry(1, 0.9); }
extern "C" void h_lambda_2() { lambdaEntry(2, 0.9); }
