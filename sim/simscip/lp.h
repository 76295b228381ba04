/* dense bounded-variable primal simplex for the tiny LPs of simscip (Bland's rule, so deterministic and finite) */
#ifndef SIMSCIP_LP_H
#define SIMSCIP_LP_H
#include <vector>
#include <cmath>
#include <cstdint>
namespace simscip {
struct LPRow { std::vector<std::pair<int, double>> coefs; double lhs, rhs; };
struct LP {
    int n = 0, m = 0, N = 0;
    std::vector<double> lo, up, c, x;
    std::vector<std::vector<double>> T;
    std::vector<int> basis, where;      // where[j] = row of basic j or -1
    std::vector<char> atup;
    static constexpr double INF = 1e20, EPS = 1e-9, FEAS = 1e-8;
    enum Res { OPTIMAL, INFEASIBLE, FAIL };
    void build(int nv, const std::vector<double>& l, const std::vector<double>& u, const std::vector<double>& obj, const std::vector<LPRow>& rows) {
        n = nv; m = (int)rows.size(); N = n + m;
        lo = l; up = u; c = obj; lo.resize(N); up.resize(N); c.resize(N, 0.0); x.assign(N, 0.0);
        T.assign(m, std::vector<double>(N, 0.0)); basis.resize(m); where.assign(N, -1); atup.assign(N, 0);
        for (int j = 0; j < n; j++) x[j] = lo[j];
        for (int i = 0; i < m; i++) {
            double act = 0;
            for (auto& p : rows[i].coefs) { T[i][p.first] -= p.second; act += p.second * x[p.first]; }
            T[i][n + i] = 1; lo[n + i] = rows[i].lhs; up[n + i] = rows[i].rhs; basis[i] = n + i; where[n + i] = i; x[n + i] = act;
        }
    }
    void pivot(int r, int j) {
        double p = T[r][j];
        for (double& v : T[r]) v /= p;
        for (int i = 0; i < m; i++) if (i != r) {
            double f = T[i][j];
            if (f != 0.0) { for (int k = 0; k < N; k++) T[i][k] -= f * T[r][k]; T[i][j] = 0.0; }
        }
        where[basis[r]] = -1; basis[r] = j; where[j] = r;
    }
    double infeas() { double s = 0; for (int i = 0; i < m; i++) { int b = basis[i]; if (x[b] < lo[b] - FEAS) s += lo[b] - x[b]; else if (x[b] > up[b] + FEAS) s += x[b] - up[b]; } return s; }
    /* one simplex run; phase 1 minimises the sum of infeasibilities, phase 2 minimises obj; face: only columns allowed[] may enter */
    Res run(bool phase1, const std::vector<double>& obj, const std::vector<char>* allowed) {
        for (int it = 0; it < 20000; it++) {
            std::vector<double> w(m, 0.0);
            if (phase1) {
                bool any = false;
                for (int i = 0; i < m; i++) { int b = basis[i]; if (x[b] < lo[b] - FEAS) { w[i] = -1; any = true; } else if (x[b] > up[b] + FEAS) { w[i] = 1; any = true; } }
                if (!any) return OPTIMAL;
            } else for (int i = 0; i < m; i++) w[i] = obj[basis[i]];
            int ent = -1, dir = 0;
            for (int j = 0; j < N && ent < 0; j++) {
                if (where[j] >= 0 || up[j] - lo[j] < 1e-12) continue;
                if (allowed && !(*allowed)[j]) continue;
                double d = phase1 ? 0.0 : obj[j];
                for (int i = 0; i < m; i++) if (w[i] != 0.0) d -= w[i] * T[i][j];
                if (!atup[j] && d < -1e-8) { ent = j; dir = 1; }
                else if (atup[j] && d > 1e-8) { ent = j; dir = -1; }
            }
            if (ent < 0) return phase1 ? INFEASIBLE : OPTIMAL;
            double best = up[ent] - lo[ent]; int leave = -1; double target = 0; bool toup = false;
            for (int i = 0; i < m; i++) {
                double rate = -T[i][ent] * dir;
                if (std::fabs(rate) < EPS) continue;
                int b = basis[i]; double lim; bool tu;
                bool below = x[b] < lo[b] - FEAS, above = x[b] > up[b] + FEAS;
                if (rate > 0) { if (above) continue; if (below) { lim = lo[b]; tu = false; } else { lim = up[b]; tu = true; } if (lim >= INF) continue; }
                else { if (below) continue; if (above) { lim = up[b]; tu = true; } else { lim = lo[b]; tu = false; } if (lim <= -INF) continue; }
                double t = (lim - x[b]) / rate; if (t < 0) t = 0;
                if (t < best - 1e-12 || (t < best + 1e-12 && leave >= 0 && b < basis[leave])) { best = t < best ? t : best; leave = i; target = lim; toup = tu; }
            }
            if (best >= INF) return FAIL;
            for (int i = 0; i < m; i++) x[basis[i]] -= T[i][ent] * dir * best;
            x[ent] += dir * best;
            if (leave < 0) { atup[ent] = !atup[ent]; x[ent] = atup[ent] ? up[ent] : lo[ent]; continue; }
            int out = basis[leave]; x[out] = target; atup[out] = toup;
            pivot(leave, ent);
        }
        return FAIL;
    }
    Res solve() { Res r = run(true, c, nullptr); if (r != OPTIMAL) return r; if (infeas() > 1e-6) return INFEASIBLE; return run(false, c, nullptr); }
    double objval() { double s = 0; for (int j = 0; j < n; j++) s += c[j] * x[j]; return s; }
    /* move to another vertex of the optimal face, by minimising a pseudo-random secondary objective over it */
    void alternate(uint64_t seed) {
        std::vector<char> ok(N, 0);
        for (int j = 0; j < N; j++) if (where[j] < 0) { double d = c[j]; for (int i = 0; i < m; i++) d -= c[basis[i]] * T[i][j]; ok[j] = std::fabs(d) < 1e-8; } else ok[j] = 1;
        std::vector<double> o(N, 0.0);
        for (int j = 0; j < n; j++) { seed += 0x9E3779B97F4A7C15ULL; uint64_t z = seed; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31; o[j] = (double)(z % 2001) / 1000.0 - 1.0; }
        run(false, o, &ok);
    }
};
}
#endif
