// Histories of the real simulator: scenes (grid, body, terrain, motions), one
// step taken phase by phase, and the exploration of sequences of motions.
#pragma once
#include "follow.hpp"
#include "raster.hpp"

namespace mc {

struct Move { double x, y, z, yaw, pitch, roll; };     // cells (smallest), deg
struct At {                                            // where the body is
    double x = 0, y = 0, z = 0, yaw = 0, pitch = 0, roll = 0;   // m, deg
    V3 pos() const { return {float(x), float(y), float(z)}; }
    V3 ori() const { return euler(yaw, pitch, roll); }
    At go(const Move& m, double u) const {
        At a = *this;
        a.x += m.x * u; a.y += m.y * u; a.z += m.z * u;
        a.yaw += m.yaw; a.pitch += m.pitch; a.roll += m.roll;
        return a;
    }
};

struct Scene {
    std::string name;
    WP p;
    bool blade = false;
    V3 j, b, t;             // in metres
    float width = 0.5f;
    int terrain = 0;
    At start;
    std::vector<Move> script;
};

struct Sim {
    ss::SimOut out;
    ss::Bucket bucket;
    ss::Blade blade;
    bool is_blade;
    Sim(const Scene& s, const ss::Grid& g)
        : out(g), bucket({0, 0, 0}, s.j, s.b, s.t, s.width),
          blade({0, 0, 0}, s.j, s.b, s.t, s.width), is_blade(s.blade) {}
    ss::Body* body() {
        return is_blade ? static_cast<ss::Body*>(&blade) : &bucket; }
    const ss::Body* body() const {
        return is_blade ? static_cast<const ss::Body*>(&blade) : &bucket; }
    void place(const V3& pos, const V3& ori, const ss::Grid& g,
               const ss::SimParam& p, float tol) {
        if (is_blade) ss::CalcBodyPos(&out, pos, ori, g, &blade, p, tol);
        else ss::CalcBodyPos(&out, pos, ori, g, &bucket, p, tol);
    }
    bool step(ss::SoilDynamics* sd, const V3& pos, const V3& ori,
              const ss::Grid& g, const ss::SimParam& p, float tol) {
        if (is_blade) return sd->Step(&out, pos, ori, g, &blade, p, tol);
        return sd->Step(&out, pos, ori, g, &bucket, p, tol);
    }
    std::vector<Poly> faces(const V3& pos, const V3& ori, const WP& p) const {
        return is_blade ? faces_of(blade, pos, ori, p) :
            faces_of(bucket, pos, ori, p);
    }
};

// bit for bit comparison of two simulations
inline std::string same_bits(const Sim& a, const Sim& b) {
    auto eq = [](auto& x, auto& y) {
        for (size_t i = 0; i < x.size(); i++)
            for (size_t j = 0; j < x[i].size(); j++)
                if (std::memcmp(&x[i][j], &y[i][j], sizeof x[i][j])) return
                    false;
        return x.size() == y.size(); };
    if (!eq(a.out.terrain_, b.out.terrain_)) return "terrain differs";
    for (int l = 0; l < 4; l++) {
        if (!eq(a.out.body_[l], b.out.body_[l])) return "walls differ";
        if (!eq(a.out.body_soil_[l], b.out.body_soil_[l]))
            return "carried soil differs";
    }
    auto& u = a.out.body_soil_pos_;
    auto& v = b.out.body_soil_pos_;
    if (u.size() != v.size()) return "number of records differs";
    for (size_t k = 0; k < u.size(); k++)
        if (std::memcmp(&u[k], &v[k], sizeof u[k])) return "records differ";
    if (std::memcmp(a.out.body_area_, b.out.body_area_,
                    sizeof a.out.body_area_)) return "body area differs";
    if (std::memcmp(a.out.relax_area_, b.out.relax_area_,
                    sizeof a.out.relax_area_)) return "relaxation area differs";
    if (std::memcmp(a.out.impact_area_, b.out.impact_area_,
                    sizeof a.out.impact_area_)) return "impact area differs";
    if (a.out.equilibrium_ != b.out.equilibrium_) return "equilibrium differs";
    auto *x = a.body(), *y = b.body();
    if (x->pos_ != y->pos_) return "recorded position differs";
    for (int k = 0; k < 4; k++)
        if (std::memcmp(&x->ori_[k], &y->ori_[k], 4))
            return "recorded orientation differs";
    if (x->j_pos_init_ != y->j_pos_init_ || x->b_pos_init_ != y->b_pos_init_ ||
        x->t_pos_init_ != y->t_pos_init_ || x->width_ != y->width_)
        return "shape of the body differs";
    return "";
}
inline std::uint64_t bits(const Sim& s) {
    std::uint64_t h = 7;
    auto f = [&](float v) { std::uint32_t u; std::memcpy(&u, &v, 4);
        h = mix(h, u); };
    for (auto& r : s.out.terrain_) for (float v : r) f(v);
    for (int l = 0; l < 4; l++) {
        for (auto& r : s.out.body_[l]) for (float v : r) f(v);
        for (auto& r : s.out.body_soil_[l]) for (float v : r) f(v);
    }
    for (auto& e : s.out.body_soil_pos_) {
        h = mix(h, e.ind); h = mix(h, e.ii); h = mix(h, e.jj);
        f(e.x_b); f(e.y_b); f(e.z_b); f(e.h_soil);
    }
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
        h = mix(h, s.out.body_area_[a][b]);
        h = mix(h, s.out.relax_area_[a][b]);
        h = mix(h, s.out.impact_area_[a][b]);
    }
    h = mix(h, s.out.equilibrium_);
    for (float v : s.body()->pos_) f(v);
    for (float v : s.body()->ori_) f(v);
    return h;
}

// Largest displacement of a corner, in cells of the smallest size
inline double corner_move(const ss::Body& b, const V3& pos, const V3& ori,
                          const WP& p) {
    Corners o = corners(b, b.pos_, b.ori_), n = corners(b, pos, ori);
    double m = 0;
    auto d = [&](const D3& x, const D3& y) {
        m = std::max(m, std::sqrt((x[0]-y[0])*(x[0]-y[0]) + (x[1]-y[1])*
            (x[1]-y[1]) + (x[2]-y[2])*(x[2]-y[2]))); };
    d(o.jr, n.jr); d(o.jl, n.jl); d(o.br, n.br); d(o.bl, n.bl);
    d(o.tr, n.tr); d(o.tl, n.tl);
    return m / std::min(p.cxy, p.cz);
}
inline bool oriented(const ss::Body& b) {
    return b.ori_[0] != 0 || b.ori_[1] != 0 || b.ori_[2] != 0 ||
        b.ori_[3] != 0;
}

// Terrain able to slide on one of its neighbours, anywhere in the interior
inline std::vector<std::pair<int, int>> sliding_terrain(
    const St& s, int dh
) {
    std::vector<std::pair<int, int>> u;
    for (int i = 1; i < s.nx - 1; i++)
        for (int j = 1; j < s.ny - 1; j++) {
            int t = s.at(i, j).t;
            for (int d = 0; d < 4; d++) {
                const Col& c = s.at(i + ref::DX[d], j + ref::DY[d]);
                if (!(c.t < t - dh)) continue;
                if (ref::terrain_target(c).top < t - dh) {
                    u.push_back({i, j});
                    break;
                }
            }
        }
    return u;
}
// Carried soil able to slide
inline std::string sliding_soil(const St& s, int dh) {
    for (int i = 1; i < s.nx - 1; i++)
        for (int j = 1; j < s.ny - 1; j++)
            for (int l = 0; l < 4; l += 2) {
                const Col& a = s.at(i, j);
                if (!a.soil(l) || a.s[l + 1] <= a.s[l]) continue;
                for (int d = 0; d < 4; d++) {
                    auto t = ref::body_target(
                        s.at(i + ref::DX[d], j + ref::DY[d]), a.b[l + 1]);
                    if (t.top < a.s[l + 1] - dh && t.room > 0) {
                        std::ostringstream o;
                        o << "carried soil of layer " << l << " at (" << i
                          << "," << j << ") with top " << a.s[l + 1]
                          << " can slide to height " << t.top << " at ("
                          << i + ref::DX[d] << "," << j + ref::DY[d] << ")";
                        return o.str();
                    }
                }
            }
    return "";
}
// Potential energy of the soil (each cell counts its height)
inline long energy(const St& s) {
    long e = 0;
    auto seg = [](long a, long b) { return (b * (b + 1) - a * (a + 1)) / 2; };
    for (auto& c : s.c) {
        e += seg(-1000, c.t);
        for (int l = 0; l < 4; l += 2)
            if (c.soil(l)) e += seg(c.s[l], c.s[l + 1]);
    }
    return e;
}

// ---------------------------------------------------------------- terrains
inline void fill_terrain(Sim* s, const Scene& sc) {
    auto& t = s->out.terrain_;
    int nx = t.size(), ny = t[0].size();
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            int h = 0;
            switch (sc.terrain) {
                case 0: h = 0; break;
                case 1: h = (i * 7 + j * 3 + i * j) % 3 - 1; break;
                case 2: h = i > nx / 2 ? std::min(4, i - nx / 2) : 0; break;
                case 3: h = -((j * 5 + i) % 2); break;
                case 4: h = std::max(0, 3 - std::abs(i - nx / 2 - 2)); break;
                case 5: h = (i + j) % 2 ? 1 : -2; break;
                case 6: h = i == 1 || j == 1 ? 4 : 0; break;
                case 7: h = i == nx - 2 || j == ny - 2 ? 4 : 0; break;
                default: h = sc.terrain - 20; break;
            }
            t[i][j] = h * sc.p.cz;
        }
}

// ------------------------------------------------------------------ scenes
inline std::vector<Scene> scenes(bool th) {
    std::vector<Scene> v;
    auto wp = [](int hx, int hy, int hz, float cxy, float cz, int dh,
                 int maxit, int buf) {
        WP p; p.hx = hx; p.hy = hy; p.hz = hz; p.cxy = cxy; p.cz = cz;
        p.dh = dh; p.maxit = maxit; p.buffer = buf; return p; };
    // a bucket opened to the front which digs, curls, lifts and dumps
    auto dig = [](int n) {
        std::vector<Move> m;
        for (int k = 0; k < 2; k++) m.push_back({0.4, 0, -1, 0, 0, 0});
        for (int k = 0; k < n; k++) m.push_back({1, 0, -0.2, 0, 0, 0});
        for (int k = 0; k < 5; k++) m.push_back({-0.1, 0, 0.3, 0, -8, 0});
        for (int k = 0; k < 3; k++) m.push_back({0, 0.2, 1, 0, -4, 0});
        for (int k = 0; k < 3; k++) m.push_back({-1, 0.7, 0.2, 6, 0, 2});
        for (int k = 0; k < 8; k++) m.push_back({-0.2, 0, 0.1, 0, 9, 0});
        return m;
    };
    auto bucket = [&](std::string n, WP p, double sx, int terr, double yaw,
                      std::vector<Move> m) {
        Scene s; s.name = n; s.p = p; s.terrain = terr;
        float c = p.cxy;
        s.j = {0, 0, 0}; s.b = {0, 0, -3 * c}; s.t = {4 * c, 0, -3.2f * c};
        s.width = 3.1f * c;
        s.start.x = sx * c; s.start.y = 0.13 * c; s.start.z = 3.4 * c;
        s.start.yaw = yaw;
        s.script = std::move(m);
        return s;
    };
    v.push_back(bucket("bucket_dig", wp(9, 8, 14, 0.1f, 0.1f, 1, 4, 2), -5, 0,
                       0, dig(5)));
    v.push_back(bucket("bucket_rough", wp(9, 8, 14, 0.1f, 0.1f, 2, 3, 4), -4.8,
                       1, 20, dig(4)));
    v.push_back(bucket("bucket_fine", wp(8, 8, 24, 0.2f, 0.1f, 2, 5, 3), -4.9,
                       3, 0, dig(7)));
    {   // inclined bucket with little height between base and back
        Scene s = bucket("bucket_shovel", wp(9, 9, 16, 0.015f, 0.015f, 1, 6, 2),
                         -4.6, 4, -30, dig(5));
        float c = s.p.cxy;
        s.j = {-1 * c, 0, 1.5f * c}; s.b = {0, 0, -2 * c};
        s.t = {3.6f * c, 0, -1.1f * c}; s.width = 4.3f * c;
        v.push_back(s);
    }
    {   // shallow: soil resting on the base is caught by the back
        Scene s = bucket("bucket_flat", wp(9, 8, 14, 3.3f, 3.3f, 1, 3, 2), -3, 0,
                         0, dig(4));
        s.p.tol = 3e-5f;
        float c = s.p.cxy;
        s.j = {4 * c, 0, 0.2f * c}; s.b = {0, 0, -1.2f * c};
        s.t = {4 * c, 0, -2.3f * c}; s.width = 3.2f * c;
        s.start.z = 2.4 * c;
        for (auto& m : s.script) m.x *= 0.8;
        s.script = {{0.5, 0, -1, 0, 0, 0}, {1, 0, -0.6, 0, 0, 0},
            {1, 0, -0.3, 0, 0, 0}, {1, 0.1, 0, 0, 0, 0},
            {0, 0.2, 0.6, 0, -10, 0}, {0, 0, 0.6, 0, -10, 0},
            {-0.5, 0, 0.4, 5, -10, 0}, {-0.5, 0, 0.3, 0, 10, 0},
            {-0.5, 0.3, 0.1, 0, 10, 3}, {0, 0, 0.5, 0, 10, 0},
            {0, 0, 0.5, 0, 10, 0}, {0, 0, 0.2, 0, 10, 0}};
        v.push_back(s);
    }
    {   // a blade pushing a heap
        Scene s; s.name = "blade_push"; s.blade = true;
        s.p = wp(9, 8, 14, 0.1f, 0.1f, 1, 4, 2); s.terrain = 1;
        float c = s.p.cxy;
        s.j = {0, 0, 0}; s.b = {0.6f * c, 0, -2.2f * c};
        s.t = {0.4f * c, 0, 2.1f * c}; s.width = 4.2f * c;
        s.start.x = -4 * c; s.start.z = 3.2 * c; s.start.yaw = 0;
        for (int k = 0; k < 2; k++) s.script.push_back({0.3, 0, -1, 0, 0, 0});
        for (int k = 0; k < 6; k++) s.script.push_back({1, 0, 0, 3, 0, 0});
        for (int k = 0; k < 3; k++) s.script.push_back({0, 0.8, 0.2, 0, 6, 0});
        for (int k = 0; k < 4; k++) s.script.push_back({-0.6, 0, 0.4, 0, -14,
            4});
        v.push_back(s);
        s.name = "blade_turn"; s.p = wp(9, 9, 20, 0.15f, 0.1f, 1, 3, 3);
        s.terrain = 2; c = s.p.cxy;
        s.j = {0, 0.1f * c, 0}; s.b = {1.6f * c, 0, -2.4f * c};
        s.t = {1.2f * c, 0.2f * c, 2.3f * c}; s.width = 3.6f * c;
        s.start.x = -3.5 * c; s.start.z = 3.3 * c; s.start.yaw = 40;
        v.push_back(s);
    }
    if (th) {
        Scene s = bucket("bucket_side", wp(9, 9, 16, 0.1f, 0.1f, 3, 2, 4), 1, 5,
                         90, dig(5));
        for (auto& m : s.script) std::swap(m.x, m.y);
        v.push_back(s);
        s = bucket("bucket_back", wp(9, 8, 14, 0.1f, 0.1f, 1, 1, 2), 3.5, 0, 180,
                   dig(5));
        for (auto& m : s.script) m.x = -m.x;
        v.push_back(s);
    }
    return v;
}

// Long work cycles of large bodies on large grids
inline std::vector<Scene> big_scenes(bool th) {
    std::vector<Scene> v;
    auto add = [](std::vector<Move>* m, int n, const Move& k) {
        for (int i = 0; i < n; i++) m->push_back(k);
    };
    auto wp = [](int hx, int hy, int hz, float cxy, float cz, int dh,
                 int maxit, int buf) {
        WP p; p.hx = hx; p.hy = hy; p.hz = hz; p.cxy = cxy; p.cz = cz;
        p.dh = dh; p.maxit = maxit; p.buffer = buf; return p; };
    for (int k = 0; k < (th ? 4 : 2); k++) {
        // dig, curl, lift, swing, dump beside, return; twice at one place
        Scene s; s.name = "big_bucket" + std::to_string(k);
        s.p = k == 0 ? wp(24, 28, 40, 0.1f, 0.1f, 1, 6, 3) :
            k == 1 ? wp(27, 23, 70, 1.6f, 0.8f, 2, 3, 2) :
            k == 2 ? wp(30, 30, 40, 0.125f, 0.125f, 3, 20, 5) :
            wp(24, 28, 40, 0.1f, 0.1f, 1, 1, 2);
        if (k == 1) s.p.tol = 3e-5f;
        s.terrain = k == 1 ? 1 : k == 2 ? 33 : 20;
        float c = s.p.cxy;
        s.j = {0, 0, 0}; s.b = {0, 0, -6 * c}; s.t = {7.7f * c, 0, -6.4f * c};
        s.width = 9.3f * c;
        double top = s.terrain >= 20 ? (s.terrain - 20) * s.p.cz : 0;
        s.start.x = -14 * c; s.start.y = -4.2 * c; s.start.z = 8 * c + top;
        double u = s.p.cxy / std::min(s.p.cxy, s.p.cz);   // 1 or 2
        int f = u > 1.5 ? 2 : 1;                         // motions in units
        auto& m = s.script;
        for (int cycle = 0; cycle < 2; cycle++) {
            add(&m, 4 * f, {0.4, 0, -1, 0, 0, 0});
            add(&m, 10 * f, {1, 0.1, -0.1, 0, 0, 0});
            add(&m, 8 * f, {-0.1, 0, 0.3, 0, -7.0 / f, 0});
            add(&m, 4 * f, {0, 0.2, 1.4, 0, 0, 0});
            add(&m, 8 * f, {-0.3, 0.9, 0, 4.0 / f, 0, 0.5 / f});
            add(&m, 14 * f, {-0.1, 0, 0.1, 0, 8.5 / f, 0});
            add(&m, 9 * f, {0, 0, 0, 0, -7.0 / f, -4.0 / 9 / f});
            add(&m, 12 * f, {-0.33, -0.8, -0.27, -32.0 / 12 / f, 0, 0});
            add(&m, 4 * f, {-0.6, 0.3, -0.8, 0, 0, 0});
        }
        v.push_back(s);
    }
    for (int k = 0; k < (th ? 2 : 1); k++) {
        // a wide blade levels rough ground, goes back and pushes again
        Scene s; s.name = "big_blade" + std::to_string(k); s.blade = true;
        s.p = k ? wp(26, 20, 60, 0.15f, 0.05f, 1, 4, 2) :
            wp(26, 20, 40, 0.1f, 0.1f, 1, 8, 4);
        s.terrain = k ? 5 : 1;
        float c = s.p.cxy;
        s.j = {0, 0, 0}; s.b = {1.2f * c, 0, -4.1f * c};
        s.t = {0.8f * c, 0, 4.2f * c}; s.width = 12.4f * c;
        s.start.x = -15 * c; s.start.z = 6 * c;
        int f = k ? 3 : 1;
        auto& m = s.script;
        for (int cycle = 0; cycle < 2; cycle++) {
            add(&m, 3 * f, {0.2, 0, -1, 0, 0, 0});
            add(&m, 17 * f, {1.1, 0.1, -0.04, 1.0 / f, 0, 0});
            add(&m, 5 * f, {0.2, 0, 0.8, 0, 4.0 / f, 0});
            add(&m, 14 * f, {-1.4, -0.1, 0.2, -17.0 / 14 / f, 0, 0});
            add(&m, 5 * f, {-0.3, 0.3, -0.8, 0, -4.0 / f, 0.3 / f});
        }
        v.push_back(s);
    }
    return v;
}

inline const std::vector<Move>& alphabet() {
    static std::vector<Move> a = {
        {1, 0, 0, 0, 0, 0}, {0, 0, -1, 0, 0, 0}, {0.2, 0, 0.9, 0, 0, 0},
        {0, 1, 0, 0, 0, 0}, {-1, -0.3, 0.1, 0, 0, 0}, {0, 0, 0, 0, 10, 0},
        {0.1, 0, 0, 0, -10, 0}, {0, 0.1, 0, 12, 0, 0}, {0, 0, 0.1, 0, 0, -12},
        {1.3, -0.9, -0.6, 0, 0, 0}};
    return a;
}

// Everything needed to run one scene
struct Stage {
    Scene sc;
    ss::Grid grid;
    ss::SimParam par;
    double unit;
    explicit Stage(const Scene& s)
        : sc(s), grid(make_grid(s.p)), par(make_param(s.p)),
          unit(std::min(s.p.cxy, s.p.cz)) {}
    Sim fresh() const {
        Sim s(sc, grid);
        fill_terrain(&s, sc);
        return s;
    }
    // Is the pose inside the domain of the properties for this simulation?
    bool allowed(const Sim& s, const At& a) const {
        if (!inside_grid(s.faces(a.pos(), a.ori(), sc.p), sc.p)) return false;
        if (!oriented(*s.body())) return true;
        return corner_move(*s.body(), a.pos(), a.ori(), sc.p) <= 2.0;
    }
};

// A settled bucket with a few records, on which Step only shuffles the
// records and looks at them
struct Rest {
    Scene sc;
    std::unique_ptr<Stage> st;
    std::unique_ptr<Sim> s;
    At to;
    explicit Rest(int nrec, int maxit) {
        sc.name = "rest"; sc.p.hx = 7; sc.p.hy = 6; sc.p.hz = 20;
        sc.p.maxit = maxit; sc.p.dh = 1;
        float c = sc.p.cxy;
        sc.j = {-3 * c, 0, 2 * c}; sc.b = {-3 * c, 0, 0};
        sc.t = {3 * c, 0, 0}; sc.width = 6 * c;
        sc.start.z = 4.5 * c;
        st = std::make_unique<Stage>(sc);
        s = std::make_unique<Sim>(st->fresh());
        ss::SoilDynamics sd;
        run_default([&] { s->step(&sd, sc.start.pos(), sc.start.ori(),
                                  st->grid, st->par, sc.p.tol); });
        int at[4][2] = {{7, 6}, {8, 5}, {6, 7}, {8, 7}};
        for (int k = 0; k < nrec; k++) {
            int i = at[k][0], j = at[k][1];
            float z = s->out.body_[1][i][j];
            s->out.body_soil_[0][i][j] = z;
            s->out.body_soil_[1][i][j] = std::lround(z / c + 1) * c;
            D3 b = to_body({sc.start.pos(), sc.start.ori()},
                           cell_centre(sc.p, i, j, z));
            s->out.body_soil_pos_.push_back({0, i, j, float(b[0]),
                float(b[1]), float(b[2]), float(c)});
        }
        to = sc.start.go({0, 0, 0.8, 0, 0, 0}, c);
    }
    void step(Sim* n) const {
        ss::SoilDynamics sd;
        n->step(&sd, to.pos(), to.ori(), st->grid, st->par, sc.p.tol);
    }
};

}  // namespace mc
