// Exact oracle of the rasterisation of the body (C11), in double precision.
#pragma once
#include "drive.hpp"

namespace mc {

using Poly = std::vector<D3>;

inline D3 add(const D3& a, const D3& b, double k = 1) {
    return {a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]}; }
inline D3 cross3(const D3& a, const D3& b) {
    return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline D3 unit(const D3& a) {
    double n = std::sqrt(a[0]*a[0] + a[1]*a[1] + a[2]*a[2]);
    return {a[0]/n, a[1]/n, a[2]/n}; }

struct Corners { D3 jr, jl, br, bl, tr, tl; };
inline Corners corners(const ss::Body& b, const V3& pos, const V3& ori) {
    D3 j = to_world(pos, ori, d3(b.j_pos_init_));
    D3 bo = to_world(pos, ori, d3(b.b_pos_init_));
    D3 t = to_world(pos, ori, d3(b.t_pos_init_));
    D3 n = unit(cross3(add(bo, j, -1), add(t, j, -1)));
    double w = 0.5 * b.width_;
    return {add(j, n, w), add(j, n, -w), add(bo, n, w), add(bo, n, -w),
            add(t, n, w), add(t, n, -w)};
}
// The documented small increment which moves each vertex toward the others
inline Corners nudge(const Corners& c, double tol) {
    auto m = [&](const D3& v, const D3& a, const D3& b, const D3& d) {
        D3 r = v;
        for (int k = 0; k < 3; k++)
            r[k] += tol * ((a[k] - v[k]) + (b[k] - v[k]) + (d[k] - v[k]));
        return r; };
    Corners o = c;
    // (each vertex sees the vertices already moved: a second order effect)
    o.jr = m(o.jr, o.jl, o.br, o.tr); o.jl = m(o.jl, o.jr, o.bl, o.tl);
    o.br = m(o.br, o.bl, o.jr, o.tr); o.bl = m(o.bl, o.br, o.jl, o.tl);
    o.tr = m(o.tr, o.tl, o.jr, o.br); o.tl = m(o.tl, o.tr, o.jl, o.bl);
    return o;
}
inline std::vector<Poly> faces_of(
    const ss::Bucket& b, const V3& pos, const V3& ori, const WP& p
) {
    Corners c = nudge(corners(b, pos, ori), p.tol);
    return {{c.br, c.bl, c.tl, c.tr}, {c.br, c.bl, c.jl, c.jr},
            {c.jr, c.br, c.tr}, {c.jl, c.bl, c.tl}};
}
inline std::vector<Poly> faces_of(
    const ss::Blade& b, const V3& pos, const V3& ori, const WP& p
) {
    Corners f = corners(b, pos, ori);
    D3 n = unit(cross3(add(f.jl, f.jr, -1), add(f.bl, f.jr, -1)));
    double w = p.cxy;
    Corners k{add(f.jr, n, w), add(f.jl, n, w), add(f.br, n, w),
              add(f.bl, n, w), add(f.tr, n, w), add(f.tl, n, w)};
    f = nudge(f, p.tol); k = nudge(k, p.tol);
    return {{f.br, f.bl, f.jl, f.jr}, {k.br, k.bl, k.jl, k.jr},
            {f.tr, f.tl, f.jl, f.jr}, {k.tr, k.tl, k.jl, k.jr}};
}

inline Poly to_index(const Poly& q, const WP& p) {
    Poly r;
    for (auto& v : q)
        r.push_back({v[0] / double(p.cxy) + p.hx, v[1] / double(p.cxy) + p.hy,
                     v[2] / double(p.cz) + p.hz - 1.0});
    return r;
}
// Heights of the part of a polygon over a cell grown by `g`
inline bool over_cell(const Poly& q, int i, int j, double g, double* lo,
                      double* hi) {
    Poly cur = q;
    auto clip = [&](int axis, double lim, double sg) {
        Poly out;
        for (size_t k = 0; k < cur.size(); k++) {
            const D3& a = cur[k];
            const D3& b = cur[(k + 1) % cur.size()];
            double da = sg * (a[axis] - lim), db = sg * (b[axis] - lim);
            if (da >= 0) out.push_back(a);
            if ((da > 0 && db < 0) || (da < 0 && db > 0)) {
                double t = da / (da - db);
                out.push_back({a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] -
                    a[1]), a[2] + t * (b[2] - a[2])});
            }
        }
        cur = out;
    };
    clip(0, i - 0.5 - g, 1); clip(0, i + 0.5 + g, -1);
    clip(1, j - 0.5 - g, 1); clip(1, j + 0.5 + g, -1);
    if (cur.empty()) return false;
    *lo = 1e18; *hi = -1e18;
    for (auto& v : cur) { *lo = std::min(*lo, v[2]); *hi = std::max(*hi, v[2]); }
    return true;
}

// Is a corner of the cell within `g` of an edge of the polygon (seen from
// above)?  Whether that corner is inside is then a matter of rounding.
inline bool corner_on_edge(const Poly& q, int i, int j, double g) {
    for (double cx : {i - 0.5, i + 0.5})
        for (double cy : {j - 0.5, j + 0.5})
            for (size_t k = 0; k < q.size(); k++) {
                const D3& a = q[k];
                const D3& b = q[(k + 1) % q.size()];
                double ux = b[0] - a[0], uy = b[1] - a[1];
                double n = ux * ux + uy * uy;
                double t = n > 0 ? ((cx - a[0]) * ux + (cy - a[1]) * uy) / n :
                    0;
                t = std::min(1.0, std::max(0.0, t));
                if (std::hypot(a[0] + t * ux - cx, a[1] + t * uy - cy) < g)
                    return true;
            }
    return false;
}

struct Span { int lo, hi; };          // wall bounds in cells, [lo, hi]
// Union of intervals, overlapping or touching ones merged; *separate is set
// when more than two were apart at some point
inline std::vector<Span> unite(std::vector<Span> v) {
    std::sort(v.begin(), v.end(), [](const Span& a, const Span& b) {
        return a.lo < b.lo; });
    std::vector<Span> o;
    for (auto& s : v) {
        if (!o.empty() && s.lo <= o.back().hi)
            o.back().hi = std::max(o.back().hi, s.hi);
        else o.push_back(s);
    }
    return o;
}

// The body must stay at least two cells inside the grid
inline bool inside_grid(const std::vector<Poly>& faces, const WP& p) {
    for (auto& f : faces)
        for (auto& v : to_index(f, p))
            if (v[0] < 2 || v[1] < 2 || v[0] > 2 * p.hx - 2 ||
                v[1] > 2 * p.hy - 2 || v[2] < 1 || v[2] > 2 * p.hz - 1)
                return false;
    return true;
}

struct RasterStats { long exact = 0, ambiguous = 0, crowded = 0, walls = 0; };
inline std::string check_raster(
    const std::vector<Poly>& faces, const WP& p, const ss::SimOut& o,
    RasterStats* rs, int* lo_i = nullptr, int* hi_i = nullptr,
    int* lo_j = nullptr, int* hi_j = nullptr
) {
    St s = snap(o, p.cz);
    if (!s.bad.empty()) return s.bad;
    std::vector<Poly> f;
    double len = 0, far = 0;
    for (auto& q : faces) {
        f.push_back(to_index(q, p));
        auto& r = f.back();
        for (size_t k = 0; k < r.size(); k++) {
            auto& a = r[k]; auto& b = r[(k + 1) % r.size()];
            len = std::max(len, std::hypot(a[0] - b[0], a[1] - b[1]));
            far = std::max(far, std::hypot(len, a[2] - b[2]));
        }
    }
    // (along an edge of many cells the walk adds up rounding)
    const double sum = far > 50 ? 2e-7 * far * far : 0;
    const double g = 4e-5 + 1.3 * p.tol * len + sum, gz = 6e-5 + sum;
    if (lo_i) { *lo_i = s.nx; *hi_i = -1; *lo_j = s.ny; *hi_j = -1; }
    for (int i = 0; i < s.nx; i++)
        for (int j = 0; j < s.ny; j++) {
            std::vector<Span> sure, maybe;
            bool amb = false, crowded = false;
            for (auto& q : f) {
                double a, b, c, d;
                if (!over_cell(q, i, j, g, &a, &b)) continue;
                Span m{(int)std::ceil(a - gz) - p.hz,
                       (int)std::ceil(b + gz) - p.hz + 1};
                maybe.push_back(m);
                if (corner_on_edge(q, i, j, 2 * g)) { amb = true; continue; }
                if (!over_cell(q, i, j, -g, &c, &d)) { amb = true; continue; }
                Span u{(int)std::ceil(c + gz) - p.hz,
                       (int)std::ceil(d - gz) - p.hz + 1};
                if (u.lo != m.lo || u.hi != m.hi) amb = true;
                if (u.lo < u.hi) sure.push_back(u);
                if (unite(maybe).size() > 2) crowded = true;
            }
            std::vector<Span> got;
            const Col& c = s.at(i, j);
            for (int l = 0; l < 4; l += 2)
                if (c.wall(l)) got.push_back({c.b[l], c.b[l + 1]});
            if (!got.empty()) {
                rs->walls++;
                if (lo_i) {
                    *lo_i = std::min(*lo_i, i); *hi_i = std::max(*hi_i, i);
                    *lo_j = std::min(*lo_j, j); *hi_j = std::max(*hi_j, j);
                }
            }
            std::ostringstream e;
            e << " at (" << i << "," << j << "): walls";
            for (auto& w : got) e << " [" << w.lo << "," << w.hi << "]";
            e << " faces";
            for (auto& w : maybe) e << " [" << w.lo << "," << w.hi << "]";
            if (!amb && !crowded) {
                rs->exact++;
                auto want = unite(maybe);
                std::sort(got.begin(), got.end(), [](const Span& x,
                    const Span& y) { return x.lo < y.lo; });
                bool same = want.size() == got.size();
                for (size_t k = 0; same && k < got.size(); k++)
                    same = got[k].lo == want[k].lo && got[k].hi == want[k].hi;
                if (!same) return "walls differ from the faces" + e.str();
                continue;
            }
            (amb ? rs->ambiguous : rs->crowded)++;
            // everything certain is covered, nothing outside the possible
            for (auto& u : sure) {
                bool in = false;
                for (auto& w : unite(got))
                    if (w.lo <= u.lo && w.hi >= u.hi) in = true;
                if (!in) return "a face is not covered by a wall" + e.str();
            }
            if (!got.empty() && maybe.empty())
                return "a wall where no face is" + e.str();
            int lo = INT_MAX, hi = INT_MIN;
            for (auto& m : maybe) { lo = std::min(lo, m.lo);
                hi = std::max(hi, m.hi); }
            for (auto& w : got)
                if (w.lo < lo || w.hi > hi)
                    return "a wall exceeds the faces" + e.str();
        }
    return "";
}

}  // namespace mc
