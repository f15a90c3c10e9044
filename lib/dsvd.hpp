// Double-precision reference for least squares: one-sided Jacobi SVD (independent of the library's Golub-Reinsch routine).
#pragma once
#include <algorithm>
#include <cmath>
#include <vector>
namespace dsvd
{
typedef std::vector<std::vector<double>> Mat; // column vectors
struct Svd
{
    int                 m, n;
    Mat                 u, v; // columns
    std::vector<double> w;
    double              wmax = 0;
    explicit Svd(const Mat &rows)
    {
        m = (int)rows.size();
        n = (int)rows[0].size();
        u.assign(n, std::vector<double>(m));
        v.assign(n, std::vector<double>(n, 0.0));
        for (int j = 0; j < n; j++)
        {
            v[j][j] = 1;
            for (int i = 0; i < m; i++)
                u[j][i] = rows[i][j];
        }
        for (int sweep = 0; sweep < 60; sweep++)
        {
            bool rot = false;
            for (int p = 0; p < n; p++)
                for (int q = p + 1; q < n; q++)
                {
                    double a = 0, b = 0, c = 0;
                    for (int i = 0; i < m; i++)
                    {
                        a += u[p][i] * u[p][i];
                        b += u[q][i] * u[q][i];
                        c += u[p][i] * u[q][i];
                    }
                    if (std::fabs(c) <= 1e-15 * std::sqrt(a * b) || c == 0)
                        continue;
                    rot            = true;
                    const double z = (b - a) / (2 * c), t = (z >= 0 ? 1 : -1) / (std::fabs(z) + std::sqrt(1 + z * z)), cs = 1 / std::sqrt(1 + t * t), sn = cs * t;
                    for (int i = 0; i < m; i++)
                    {
                        const double x = u[p][i], y = u[q][i];
                        u[p][i] = cs * x - sn * y;
                        u[q][i] = sn * x + cs * y;
                    }
                    for (int i = 0; i < n; i++)
                    {
                        const double x = v[p][i], y = v[q][i];
                        v[p][i] = cs * x - sn * y;
                        v[q][i] = sn * x + cs * y;
                    }
                }
            if (!rot)
                break;
        }
        w.resize(n);
        for (int j = 0; j < n; j++)
        {
            double s = 0;
            for (int i = 0; i < m; i++)
                s += u[j][i] * u[j][i];
            w[j] = std::sqrt(s);
            if (w[j] > wmax)
                wmax = w[j];
        }
    }
    // smallest singular value counted as non-zero, and the largest counted as zero (relative to wmax)
    void gap(double cut, double &small, double &zero) const
    {
        small = 1;
        zero  = 0;
        for (int j = 0; j < n; j++)
        {
            const double r = wmax > 0 ? w[j] / wmax : 0;
            if (r > cut)
                small = std::min(small, r);
            else
                zero = std::max(zero, r);
        }
    }
    std::vector<double> solve(const std::vector<double> &b, double cut) const
    {
        std::vector<double> x(n, 0.0);
        for (int j = 0; j < n; j++)
        {
            if (!(w[j] > cut * wmax) || w[j] == 0)
                continue;
            double s = 0;
            for (int i = 0; i < m; i++)
                s += u[j][i] * b[i];
            s /= w[j] * w[j];
            for (int i = 0; i < n; i++)
                x[i] += v[j][i] * s;
        }
        return x;
    }
};
} // namespace dsvd
