// Small worlds on which the real simulator is driven, an integer view of
// their state (heights in cells) and the state oracles shared by the checks.
#pragma once
#include <array>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <memory>
#include <numbers>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include "mc.hpp"
#include "soil_simulator/types.hpp"
#include "soil_simulator/soil_dynamics.hpp"
#include "soil_simulator/body_pos.hpp"
#include "soil_simulator/body_soil.hpp"
#include "soil_simulator/intersecting_cells.hpp"
#include "soil_simulator/relax.hpp"
#include "soil_simulator/utils.hpp"

namespace mc {
namespace ss = soil_simulator;
using V3 = std::vector<float>;

// ------------------------------------------------------------- parameters
struct WP {
    float cxy = 0.1f, cz = 0.1f;
    int hx = 3, hy = 3, hz = 12;
    int dh = 1;        // largest stable height difference, in cells
    int maxit = 3;
    int buffer = 2;
    float tol = 1e-5f;
};

inline float repose(const WP& p) {
    return std::atan2(static_cast<double>(p.dh) * p.cz,
                      static_cast<double>(p.cxy));
}
inline ss::Grid make_grid(const WP& p) {
    return ss::Grid(p.hx * p.cxy, p.hy * p.cxy, p.hz * p.cz, p.cxy, p.cz);
}
inline ss::SimParam make_param(const WP& p) {
    return ss::SimParam(repose(p), p.maxit, p.buffer);
}

// ------------------------------------------------------------------- state
// One column, heights in cells.  A wall or soil layer is present when its two
// bounds are not both zero (the convention of the simulator).
struct Col {
    int t = 0;
    std::array<int, 4> b{0, 0, 0, 0};
    std::array<int, 4> s{0, 0, 0, 0};
    bool wall(int l) const { return b[l] != 0 || b[l + 1] != 0; }
    bool soil(int l) const { return s[l] != 0 || s[l + 1] != 0; }
    bool operator==(const Col& o) const {
        return t == o.t && b == o.b && s == o.s; }
    bool operator<(const Col& o) const {
        return std::tie(t, b, s) < std::tie(o.t, o.b, o.s); }
};
struct Ent {            // one entry of body_soil_pos_
    int ind, i, j, h;
    bool operator==(const Ent& o) const {
        return ind == o.ind && i == o.i && j == o.j && h == o.h; }
    bool operator<(const Ent& o) const {
        return std::tie(ind, i, j, h) < std::tie(o.ind, o.i, o.j, o.h); }
};
struct St {
    int nx = 0, ny = 0;
    std::vector<Col> c;
    std::vector<Ent> e;
    Col& at(int i, int j) { return c[i * ny + j]; }
    const Col& at(int i, int j) const { return c[i * ny + j]; }
    bool in(int i, int j) const {
        return i >= 0 && j >= 0 && i < nx && j < ny; }
    std::string bad;    // non empty: the real state is not on the height grid
};

inline std::string col_str(const Col& c) {
    std::ostringstream o;
    o << "t=" << c.t;
    for (int l = 0; l < 4; l += 2) {
        if (c.wall(l)) o << " wall" << l << "=[" << c.b[l] << "," << c.b[l + 1]
            << "]";
        if (c.soil(l)) o << " soil" << l << "=[" << c.s[l] << "," << c.s[l + 1]
            << "]";
    }
    return o.str();
}
inline std::string ent_str(const std::vector<Ent>& es) {
    std::ostringstream o;
    for (auto& e : es)
        o << " (layer " << e.ind << " cell " << e.i << "," << e.j << " h="
          << e.h << ")";
    return o.str();
}
inline std::string st_str(const St& s) {
    std::ostringstream o;
    for (int i = 0; i < s.nx; i++) {
        for (int j = 0; j < s.ny; j++) {
            auto& c = s.at(i, j);
            if (c.t || c.wall(0) || c.wall(2) || c.soil(0) || c.soil(2))
                o << "(" << i << "," << j << "): " << col_str(c) << "; ";
        }
    }
    o << "entries:" << ent_str(s.e);
    return o.str();
}

inline int to_cells(float v, float cz, std::string* bad, const char* what) {
    double q = static_cast<double>(v) / cz;
    double r = std::round(q);
    if (!(std::fabs(q - r) < 0.02) || std::fabs(r) > 1e6) {
        if (bad && bad->empty()) {
            char buf[128];
            std::snprintf(buf, sizeof buf, "%s = %.9g is not a multiple of the "
                          "cell height %.9g", what, v, cz);
            *bad = buf;
        }
        if (!(std::fabs(r) < 1e6)) r = 1e6;
    }
    return static_cast<int>(r);
}

inline St snap(const ss::SimOut& o, float cz) {
    St s;
    s.nx = o.terrain_.size();
    s.ny = o.terrain_[0].size();
    s.c.resize(s.nx * s.ny);
    for (int i = 0; i < s.nx; i++)
        for (int j = 0; j < s.ny; j++) {
            Col& c = s.at(i, j);
            c.t = to_cells(o.terrain_[i][j], cz, &s.bad, "terrain");
            for (int l = 0; l < 4; l++) {
                c.b[l] = to_cells(o.body_[l][i][j], cz, &s.bad, "body");
                c.s[l] = to_cells(
                    o.body_soil_[l][i][j], cz, &s.bad, "body soil");
            }
            // The absence convention is on exact zeros
            for (int l = 0; l < 4; l += 2) {
                bool w = o.body_[l][i][j] != 0.0 || o.body_[l+1][i][j] != 0.0;
                bool q = o.body_soil_[l][i][j] != 0.0 ||
                    o.body_soil_[l+1][i][j] != 0.0;
                if (w != c.wall(l) && s.bad.empty())
                    s.bad = "wall presence differs from its rounded heights";
                // soil without thickness is the same as no soil
                if (c.s[l] == c.s[l + 1] && q) c.s[l] = c.s[l + 1] = 0;
                else if (q != c.soil(l) && s.bad.empty())
                    s.bad = "soil presence differs from its rounded heights";
            }
        }
    for (auto& e : o.body_soil_pos_)
        s.e.push_back({e.ind, e.ii, e.jj,
            to_cells(e.h_soil, cz, &s.bad, "h_soil")});
    return s;
}

// Writes an integer state into a real SimOut (entries get body frame
// positions computed by the reference geometry, see `frame`)
inline void put(const St& s, ss::SimOut* o, float cz, const ss::Grid& g,
                ss::Body* body) {
    for (int i = 0; i < s.nx; i++)
        for (int j = 0; j < s.ny; j++) {
            const Col& c = s.at(i, j);
            o->terrain_[i][j] = c.t * cz;
            for (int l = 0; l < 4; l++) {
                o->body_[l][i][j] = c.b[l] * cz;
                o->body_soil_[l][i][j] = c.s[l] * cz;
            }
        }
    o->body_soil_pos_.clear();
    for (auto& e : s.e) {
        float z = s.at(e.i, e.j).b[e.ind + 1] * cz;
        ss::body_soil b;
        b.ind = e.ind; b.ii = e.i; b.jj = e.j;
        // body frame with the reference pose (identity orientation)
        b.x_b = g.vect_x_[e.i] - body->pos_[0];
        b.y_b = g.vect_y_[e.j] - body->pos_[1];
        b.z_b = z - body->pos_[2];
        b.h_soil = e.h * cz;
        o->body_soil_pos_.push_back(b);
    }
}

inline long volume(const St& s) {
    long v = 0;
    for (auto& c : s.c)
        v += c.t + (c.s[1] - c.s[0]) + (c.s[3] - c.s[2]);
    return v;
}

// Documented conventions of a valid state (independent of CheckSoil)
inline std::string validity(const St& s, bool whole_grid = true) {
    (void)whole_grid;
    std::ostringstream o;
    for (int i = 0; i < s.nx; i++)
        for (int j = 0; j < s.ny; j++) {
            const Col& c = s.at(i, j);
            const char* m = nullptr;
            for (int l = 0; l < 4 && !m; l += 2) {
                int u = 2 - l;
                if (c.wall(l) && c.t > c.b[l]) m = "terrain above a wall";
                else if (c.wall(l) && c.b[l] >= c.b[l + 1])
                    m = "wall upside down or without thickness";
                else if (c.soil(l) && !c.wall(l)) m = "soil without its wall";
                else if (c.soil(l) && c.s[l] != c.b[l + 1])
                    m = "soil not resting on its wall";
                else if (c.soil(l) && c.s[l] > c.s[l + 1])
                    m = "soil upside down";
                else if (c.soil(l) && c.wall(u) && c.b[u + 1] > c.s[l] &&
                         c.s[l + 1] > c.b[u])
                    m = "soil intersects the other wall";
            }
            if (!m && c.wall(0) && c.wall(2) && c.b[1] >= c.b[2] &&
                c.b[3] >= c.b[0])
                m = "the two walls intersect";
            if (m) {
                o << m << " at (" << i << "," << j << "): " << col_str(c);
                return o.str();
            }
        }
    return "";
}

// body_soil_pos_ must list exactly the soil of body_soil_
inline std::string bookkeeping(const St& s) {
    std::vector<std::array<int, 4>> sum(s.c.size(), {0, 0, 0, 0});
    for (auto& e : s.e) {
        if ((e.ind != 0 && e.ind != 2) || !s.in(e.i, e.j))
            return "entry with a bad location:" + ent_str({e});
        if (e.h < 0) return "entry with a negative amount:" + ent_str({e});
        sum[e.i * s.ny + e.j][e.ind] += e.h;
    }
    for (int i = 0; i < s.nx; i++)
        for (int j = 0; j < s.ny; j++)
            for (int l = 0; l < 4; l += 2) {
                const Col& c = s.at(i, j);
                if (sum[i * s.ny + j][l] != c.s[l + 1] - c.s[l]) {
                    std::ostringstream o;
                    o << "entries of layer " << l << " at (" << i << "," << j
                      << ") sum to " << sum[i * s.ny + j][l]
                      << " but the soil there is " << c.s[l + 1] - c.s[l];
                    return o.str();
                }
            }
    return "";
}

inline std::uint64_t hash_st(const St& s, bool entries = true) {
    std::uint64_t h = 1469598103934665603ull;
    for (auto& c : s.c) {
        h = mix(h, c.t + 1000);
        for (int l = 0; l < 4; l++) {
            h = mix(h, c.b[l] + 3000);
            h = mix(h, c.s[l] + 5000);
        }
    }
    if (entries) {
        auto e = s.e;
        std::sort(e.begin(), e.end());
        for (auto& x : e) {
            h = mix(h, x.ind); h = mix(h, x.i);
            h = mix(h, x.j); h = mix(h, x.h + 7000);
        }
    }
    return h;
}

inline void set_area(int a[2][2], int x0, int x1, int y0, int y1) {
    a[0][0] = x0; a[0][1] = x1; a[1][0] = y0; a[1][1] = y1;
}

}  // namespace mc
