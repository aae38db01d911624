// Small dense linear algebra in long double, written independently of the library
#pragma once
#include <cmath>
#include <vector>
namespace la {
typedef long double R;
typedef std::vector<std::vector<R>> M;
inline M zeros(int n, int m) { return M(n, std::vector<R>(m, 0)); }
inline M mul(const M& a, const M& b) {
    int n = a.size(), m = b.empty() ? 0 : b[0].size(), k = b.size();
    M c = zeros(n, m);
    for(int i = 0; i < n; i++) for(int l = 0; l < k; l++) for(int j = 0; j < m; j++) c[i][j] += a[i][l] * b[l][j];
    return c;
}
inline M transpose(const M& a) {
    int n = a.size(), m = a.empty() ? 0 : a[0].size();
    M c = zeros(m, n);
    for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) c[j][i] = a[i][j];
    return c;
}
inline R norm1(const M& a) {
    R best = 0;
    for(size_t j = 0; !a.empty() && j < a[0].size(); j++) { R s = 0; for(size_t i = 0; i < a.size(); i++) s += std::fabs(a[i][j]); best = std::max(best, s); }
    return best;
}
// Gauss-Jordan with partial pivoting; cond is the 1-norm condition number (inf if singular)
inline bool inverse(M a, M& out, R& cond) {
    int n = a.size();
    R na = norm1(a);
    out = zeros(n, n);
    for(int i = 0; i < n; i++) out[i][i] = 1;
    for(int c = 0; c < n; c++) {
        int p = c;
        for(int i = c; i < n; i++) if(std::fabs(a[i][c]) > std::fabs(a[p][c])) p = i;
        if(!(std::fabs(a[p][c]) > 1e-300L)) { cond = INFINITY; return false; }
        std::swap(a[p], a[c]);
        std::swap(out[p], out[c]);
        R d = a[c][c];
        for(int j = 0; j < n; j++) { a[c][j] /= d; out[c][j] /= d; }
        for(int i = 0; i < n; i++) if(i != c) {
            R f = a[i][c];
            if(f == 0) continue;
            for(int j = 0; j < n; j++) { a[i][j] -= f * a[c][j]; out[i][j] -= f * out[c][j]; }
        }
    }
    cond = na * norm1(out);
    return true;
}
// Symmetric square root by cyclic Jacobi rotations
inline M sqrt_sym(M a) {
    int n = a.size();
    M v = zeros(n, n);
    for(int i = 0; i < n; i++) v[i][i] = 1;
    for(int sweep = 0; sweep < 60; sweep++) {
        R off = 0;
        for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(i != j) off += a[i][j] * a[i][j];
        if(off < 1e-32L) break;
        for(int p = 0; p < n; p++) for(int q = p + 1; q < n; q++) {
            if(a[p][q] == 0) continue;
            R th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
            R t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
            R c = 1 / std::sqrt(t * t + 1), s = t * c;
            for(int k = 0; k < n; k++) { R x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
            for(int k = 0; k < n; k++) { R x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
            for(int k = 0; k < n; k++) { R x = v[k][p], y = v[k][q]; v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; }
        }
    }
    M d = zeros(n, n);
    for(int i = 0; i < n; i++) d[i][i] = std::sqrt(std::max<R>(0, a[i][i]));
    return mul(mul(v, d), transpose(v));
}
}
