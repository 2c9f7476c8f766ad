// Independent reference mathematics in long double, written without the library and without Eigen.
#pragma once
#include <array>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>

namespace ref
{
    using R = long double;
    const R PI = 3.14159265358979323846264338327950288L;

    struct V3
    {
        R v[3] = {0, 0, 0};
        R& operator[](int i) { return v[i]; }
        R operator[](int i) const { return v[i]; }
    };
    struct M3
    {
        R m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    };
    inline V3 vec(R a, R b, R c) { return V3{{a, b, c}}; }
    inline V3 operator+(V3 a, V3 b) { return vec(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
    inline V3 operator-(V3 a, V3 b) { return vec(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
    inline V3 operator*(R s, V3 a) { return vec(s * a[0], s * a[1], s * a[2]); }
    inline R dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
    inline R norm(V3 a) { return std::sqrt(dot(a, a)); }
    inline V3 cross(V3 a, V3 b)
    {
        return vec(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
    }
    inline V3 unit(V3 a) { return (1 / norm(a)) * a; }
    inline V3 operator*(const M3& A, V3 x)
    {
        V3 y;
        for (int i = 0; i < 3; i++) y[i] = A.m[i][0] * x[0] + A.m[i][1] * x[1] + A.m[i][2] * x[2];
        return y;
    }
    inline M3 operator*(const M3& A, const M3& B)
    {
        M3 C;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) C.m[i][j] = A.m[i][0] * B.m[0][j] + A.m[i][1] * B.m[1][j] + A.m[i][2] * B.m[2][j];
        return C;
    }
    inline M3 tr(const M3& A)
    {
        M3 C;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) C.m[i][j] = A.m[j][i];
        return C;
    }

    // Rotation matrix of a rotation vector, by way of the unit quaternion.
    struct Q
    {
        R w = 1, x = 0, y = 0, z = 0;
    };
    inline Q qexp(V3 o)
    {
        R t = norm(o), h = t / 2;
        R k = t < 1e-6L ? 0.5L - t * t / 48 : std::sin(h) / t;
        return Q{std::cos(h), k * o[0], k * o[1], k * o[2]};
    }
    inline M3 qmat(Q q)
    {
        M3 A;
        R w = q.w, x = q.x, y = q.y, z = q.z;
        A.m[0][0] = 1 - 2 * (y * y + z * z);
        A.m[0][1] = 2 * (x * y - w * z);
        A.m[0][2] = 2 * (x * z + w * y);
        A.m[1][0] = 2 * (x * y + w * z);
        A.m[1][1] = 1 - 2 * (x * x + z * z);
        A.m[1][2] = 2 * (y * z - w * x);
        A.m[2][0] = 2 * (x * z - w * y);
        A.m[2][1] = 2 * (y * z + w * x);
        A.m[2][2] = 1 - 2 * (x * x + y * y);
        return A;
    }
    inline M3 exp3(V3 o) { return qmat(qexp(o)); }
    // Rotation vector (norm at most pi) of a rotation matrix, by Shepperd's method.
    inline V3 log3(const M3& A)
    {
        R t = A.m[0][0] + A.m[1][1] + A.m[2][2];
        R c[4] = {t, A.m[0][0], A.m[1][1], A.m[2][2]};
        int b = 0;
        for (int i = 1; i < 4; i++)
            if (c[i] > c[b]) b = i;
        R w, v[3];
        if (b == 0) {
            w = std::sqrt(1 + t) / 2;
            v[0] = (A.m[2][1] - A.m[1][2]) / (4 * w);
            v[1] = (A.m[0][2] - A.m[2][0]) / (4 * w);
            v[2] = (A.m[1][0] - A.m[0][1]) / (4 * w);
        } else {
            int i = b - 1, j = (i + 1) % 3, k = (i + 2) % 3;
            v[i] = std::sqrt(1 + A.m[i][i] - A.m[j][j] - A.m[k][k]) / 2;
            v[j] = (A.m[i][j] + A.m[j][i]) / (4 * v[i]);
            v[k] = (A.m[i][k] + A.m[k][i]) / (4 * v[i]);
            w = (A.m[k][j] - A.m[j][k]) / (4 * v[i]);
        }
        V3 u = vec(v[0], v[1], v[2]);
        if (w < 0) {
            w = -w;
            u = -1.0L * u;
        }
        R n = norm(u);
        if (n == 0) return vec(0, 0, 0);
        R ang = 2 * std::atan2(n, w);
        return (ang / n) * u;
    }
    inline R wrap(R a)
    {
        a = std::remainder(a, 2 * PI);
        return a;
    }
    // Distance between two angles on the circle
    inline R angdist(R a, R b) { return std::fabs(std::remainder(a - b, 2 * PI)); }

    inline R maxdiff(const M3& a, const M3& b)
    {
        R m = 0;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) {
                R d = std::fabs(a.m[i][j] - b.m[i][j]);
                if (!(d <= m)) m = std::isnan(d) ? 1e9L : d;
            }
        return m;
    }
    inline R orthonormality(const M3& a)
    {
        M3 p = tr(a) * a;
        return maxdiff(p, M3());
    }
    inline R det(const M3& A)
    {
        return dot(cross(vec(A.m[0][0], A.m[1][0], A.m[2][0]), vec(A.m[0][1], A.m[1][1], A.m[2][1])),
                   vec(A.m[0][2], A.m[1][2], A.m[2][2]));
    }
    // What double precision allows a logarithm of a rotation by angle t to be off by: trace-based angles lose
    // precision as sin(t) goes to zero near a half turn.
    inline R log_tol(R t)
    {
        R tol = 1e-12L;
        if (t > 1.5L) {
            R s = std::sin(std::min(t, PI));
            tol += 2e-14L / std::max(s * s, 1e-6L);
        }
        return tol;
    }
    inline std::string show3(const V3& v)
    {
        std::ostringstream o;
        o.precision(17);
        o << "[" << v[0] << "," << v[1] << "," << v[2] << "]";
        return o.str();
    }

} // namespace ref
