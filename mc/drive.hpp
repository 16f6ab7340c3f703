// A real simulation state which can be set to and compared with an integer
// state, under an arbitrary body pose.
#pragma once
#include "world.hpp"
#include "ref.hpp"

namespace mc {

// ------------------------------------------- double precision geometry
using D3 = std::array<double, 3>;
using D4 = std::array<double, 4>;

// v -> q^-1 v q (the convention of the simulator)
inline D3 rot(const D4& q, const D3& v) {
    double n = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3];
    double w = q[0], x = -q[1], y = -q[2], z = -q[3];
    D3 u{x, y, z};
    auto cross = [](const D3& a, const D3& b) {
        return D3{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2],
                  a[0]*b[1]-a[1]*b[0]}; };
    D3 c = cross(u, v);
    double uv = u[0]*v[0] + u[1]*v[1] + u[2]*v[2];
    double uu = u[0]*u[0] + u[1]*u[1] + u[2]*u[2];
    D3 r;
    for (int k = 0; k < 3; k++)
        r[k] = ((w*w - uu) * v[k] + 2 * uv * u[k] + 2 * w * c[k]) / n;
    return r;
}
inline D4 conj(const D4& q) { return {q[0], -q[1], -q[2], -q[3]}; }
inline D4 d4(const V3& v) { return {v[0], v[1], v[2], v[3]}; }
inline D3 d3(const V3& v) { return {v[0], v[1], v[2]}; }

struct Pose { V3 pos, ori; };
// ZYX Euler angles (yaw about Z, pitch about Y, roll about X), degrees
inline V3 euler(double yaw, double pitch, double roll) {
    double d = std::numbers::pi / 360;
    double cy = std::cos(yaw*d), sy = std::sin(yaw*d);
    double cp = std::cos(pitch*d), sp = std::sin(pitch*d);
    double cr = std::cos(roll*d), sr = std::sin(roll*d);
    // quaternion of the rotation which the simulator applies as q^-1 v q
    D4 q{cr*cp*cy + sr*sp*sy, sr*cp*cy - cr*sp*sy,
         cr*sp*cy + sr*cp*sy, cr*cp*sy - sr*sp*cy};
    return {float(q[0]), float(-q[1]), float(-q[2]), float(-q[3])};
}

inline D3 cell_centre(const WP& p, int i, int j, double z) {
    return {(i - p.hx) * double(p.cxy), (j - p.hy) * double(p.cxy), z};
}
inline D3 to_body(const Pose& q, const D3& c) {
    return rot(conj(d4(q.ori)),
               {c[0] - q.pos[0], c[1] - q.pos[1], c[2] - q.pos[2]});
}
inline D3 to_world(const V3& pos, const V3& ori, const D3& b) {
    D3 r = rot(d4(ori), b);
    return {r[0] + pos[0], r[1] + pos[1], r[2] + pos[2]};
}

// ------------------------------------------------------------------ world
struct World {
    WP p;
    ss::Grid grid;
    ss::SimParam par;
    ss::SimOut out;
    ss::Bucket body;
    Pose pose;
    explicit World(const WP& w, Pose ps = {{0, 0, 0}, {1, 0, 0, 0}})
        : p(w), grid(make_grid(w)), par(make_param(w)), out(grid),
          body({0, 0, 0}, {0, 0, 0}, {0, 0, -0.5}, {0.7, 0, -0.5}, 0.5),
          pose(ps) {
        body.pos_ = pose.pos;
        body.ori_ = pose.ori;
    }
    void set_pose(const Pose& q) {
        pose = q; body.pos_ = q.pos; body.ori_ = q.ori;
    }
    int nx() const { return 2 * p.hx + 1; }
    int ny() const { return 2 * p.hy + 1; }
    // uneven ground above `t`
    St rough(int t, int n = 3) const {
        St s = empty(t);
        for (int i = 0; i < s.nx; i++)
            for (int j = 0; j < s.ny; j++) 
                s.at(i, j).t += 1 + (i * 5 + j * 7) % n;
        return s;
    }
    St empty(int t = 0) const {
        St s;
        s.nx = nx(); s.ny = ny();
        Col c; c.t = t;
        s.c.assign(s.nx * s.ny, c);
        return s;
    }
    void load(const St& s) {
        put(s, &out, p.cz, grid, &body);
        for (size_t k = 0; k < s.e.size(); k++) {
            auto& e = s.e[k];
            D3 b = to_body(pose, cell_centre(
                p, e.i, e.j, s.at(e.i, e.j).b[e.ind + 1] * double(p.cz)));
            out.body_soil_pos_[k].x_b = b[0];
            out.body_soil_pos_[k].y_b = b[1];
            out.body_soil_pos_[k].z_b = b[2];
        }
    }
    St read() const { return snap(out, p.cz); }
    // Records of soil landed in this pose hold the place where they landed
    std::string records(size_t from = 0) const {
        for (size_t k = from; k < out.body_soil_pos_.size(); k++) {
            auto& e = out.body_soil_pos_[k];
            if (e.h_soil < 0.5 * p.cz) continue;
            if (e.ind != 0 && e.ind != 2) return "record of an unknown layer";
            if (e.ii < 0 || e.jj < 0 || e.ii >= nx() || e.jj >= ny())
                return "record outside the grid";
            D3 b = to_body(pose, cell_centre(
                p, e.ii, e.jj, out.body_[e.ind + 1][e.ii][e.jj]));
            double near = 1e-3 * p.cz;
            if (!(std::fabs(b[0] - e.x_b) < near &&
                  std::fabs(b[1] - e.y_b) < near &&
                  std::fabs(b[2] - e.z_b) < near)) {
                std::ostringstream o;
                o << "record of layer " << e.ind << " at (" << e.ii << ","
                  << e.jj << ") holds (" << e.x_b << "," << e.y_b << ","
                  << e.z_b << ") in the body frame instead of (" << b[0]
                  << "," << b[1] << "," << b[2] << ")";
                return o.str();
            }
        }
        return "";
    }
};

// Poses used to make the body frame non trivial
inline const std::vector<Pose>& frames() {
    static std::vector<Pose> f = {
        {{0, 0, 0}, {1, 0, 0, 0}},
        {{0.13f, -0.27f, 0.31f}, euler(35, -20, 10)},
        {{-0.4f, 0.05f, -0.12f}, euler(-100, 40, 0)},
    };
    return f;
}

// ----------------------------------------------------------------- columns
// All valid columns with wall bounds in [lo, hi], terrain from tmin, at most
// `soil` cells on the upper (or only) wall and any amount between two walls
inline std::vector<Col> valid_columns(int lo, int hi, int tmin, int soil) {
    std::vector<Col> v;
    for (int t = tmin; t <= hi; t++) { Col c; c.t = t; v.push_back(c); }
    for (int b = lo; b < hi; b++)
        for (int u = b + 1; u <= hi; u++)
            for (int t = tmin; t <= b; t++)
                for (int q = 0; q <= soil; q++)
                    for (int l = 0; l < 4; l += 2) {
                        Col c; c.t = t; c.b[l] = b; c.b[l + 1] = u;
                        if (q) { c.s[l] = u; c.s[l + 1] = u + q; }
                        v.push_back(c);
                    }
    for (int b = lo; b < hi; b++)
        for (int u = b + 1; u <= hi; u++)
            for (int b2 = u + 1; b2 < hi; b2++)
                for (int u2 = b2 + 1; u2 <= hi; u2++)
                    for (int t = tmin; t <= b; t++)
                        for (int q = 0; q <= b2 - u; q++)
                            for (int q2 = 0; q2 <= soil; q2++)
                                for (int l = 0; l < 4; l += 2) {
                                    int m = 2 - l;
                                    Col c; c.t = t;
                                    c.b[l] = b; c.b[l + 1] = u;
                                    c.b[m] = b2; c.b[m + 1] = u2;
                                    if (q) { c.s[l] = u; c.s[l + 1] = u + q; }
                                    if (q2) { c.s[m] = u2;
                                        c.s[m + 1] = u2 + q2; }
                                    v.push_back(c);
                                }
    return v;
}
inline Col col(int t) { Col c; c.t = t; return c; }
inline Col col1(int t, int l, int b, int u, int q = 0) {
    Col c; c.t = t; c.b[l] = b; c.b[l + 1] = u;
    if (q) { c.s[l] = u; c.s[l + 1] = u + q; }
    return c;
}
inline Col col2(int t, int l, int b, int u, int q, int b2, int u2, int q2) {
    Col c = col1(t, l, b, u, q);
    int m = 2 - l;
    c.b[m] = b2; c.b[m + 1] = u2;
    if (q2) { c.s[m] = u2; c.s[m + 1] = u2 + q2; }
    return c;
}
// the same world `k` cells higher
inline void lift(St* s, int k) {
    for (auto& c : s->c) {
        bool w[4], q[4];
        for (int l = 0; l < 4; l++) {
            w[l] = c.wall(l / 2 * 2); q[l] = c.soil(l / 2 * 2); }
        c.t += k;
        for (int l = 0; l < 4; l++) {
            if (w[l]) c.b[l] += k;
            if (q[l]) c.s[l] += k;
        }
    }
}
// Cell sizes for which products and quotients of heights round either way
inline std::vector<WP> height_scales(const WP& a) {
    std::vector<WP> v;
    for (auto [x, z] : {std::pair{0.1f, 0.1f}, {0.2f, 0.05f}, {0.3f, 0.3f},
                        {0.15f, 0.07f}, {0.7f, 0.6f}, {0.11f, 0.03f},
                        {3.0f, 1.7f}, {0.013f, 0.002f}}) {
        WP p = a; p.cxy = x; p.cz = z; p.hz = 40;
        p.tol = a.tol * std::max(1.0f, z);
        v.push_back(p);
    }
    return v;
}
// records matching the soil of a state, one per layer
inline void auto_entries(St* s) {
    for (int i = 0; i < s->nx; i++)
        for (int j = 0; j < s->ny; j++)
            for (int l = 0; l < 4; l += 2)
                if (s->at(i, j).soil(l))
                    s->e.push_back({l, i, j,
                        s->at(i, j).s[l + 1] - s->at(i, j).s[l]});
}

// Only one of the general properties is reported (--monitor C01 C02 C03):
// conservation, validity or bookkeeping after one phase from `a` to `b`
inline std::string one_monitor(const std::string& m, const World& w,
                               const St& a, const St& b, long warned) {
    if (m == "C01") {
        if (!b.bad.empty()) return b.bad;
        long d = volume(b) - volume(a);
        if (d > 0 || (d < 0 && !warned))
            return "the amount of soil changes by " + std::to_string(d) +
                " cells" + (warned ? "" : " without warning");
        return "";
    }
    if (m == "C02") {
        if (!b.bad.empty()) return b.bad;
        return validity(b);
    }
    std::string e = bookkeeping(b);
    return e.empty() ? w.records() : e;
}
inline std::string walls_same(const St& a, const St& b) {
    for (size_t k = 0; k < a.c.size(); k++)
        if (a.c[k].b != b.c[k].b) return "a wall of the body changed";
    return "";
}

}  // namespace mc
