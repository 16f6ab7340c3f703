// C11: cells occupied by the body against an exact geometric oracle.
// C12: merge of height intervals into the two wall layers.
#include "raster.hpp"
#include "step.hpp"
using namespace mc;
std::mc_mt19937 soil_simulator::rng;

static Runner* R;
static std::string what;
static std::string text() { return what; }

template <class B> static void pose_str(
    std::ostream& o, const B& b, const V3& pos, const V3& ori
) {
    auto v = [&](const V3& x) {
        o << "(";
        for (size_t k = 0; k < x.size(); k++) o << (k ? "," : "") << x[k];
        o << ")"; };
    o << " j"; v(b.j_pos_init_); o << " b"; v(b.b_pos_init_); o << " t";
    v(b.t_pos_init_); o << " width " << b.width_ << " pos "; v(pos);
    o << " ori "; v(ori);
}

static RasterStats rs;
template <class B> static void one(
    World& w, ss::SimOut* out, B* body, const V3& pos, const V3& ori,
    const char* name
) {
    std::ostringstream o;
    o << name << " cell " << w.p.cxy << "x" << w.p.cz << " grid "
      << w.p.hx << "," << w.p.hy << "," << w.p.hz;
    pose_str(o, *body, pos, ori);
    what = o.str();
    if (!inside_grid(faces_of(*body, pos, ori, w.p), w.p)) {
        R->count("poses_outside_the_grid");
        return;
    }
    ss::CalcBodyPos(out, pos, ori, w.grid, body, w.par, w.p.tol);
    R->count("runs");
    std::string m = check_raster(faces_of(*body, pos, ori, w.p), w.p, *out,
                                 &rs);
    St s = snap(*out, w.p.cz);
    R->distinct("outcomes", hash_st(s, false));
    std::uint64_t h = 0;
    for (float v : pos) h = mix(h, std::hash<float>()(v));
    for (float v : ori) h = mix(h, std::hash<float>()(v));
    h = mix(h, std::hash<std::string>()(name));
    h = mix(h, std::hash<float>()(body->j_pos_init_[2] + 7 * body->width_ +
                                  w.p.cxy));
    R->distinct("poses", h);
    if (!m.empty()) R->fail("raster", m);
    for (size_t k = 0; k < s.c.size(); k++)
        if (s.c[k].t || s.c[k].soil(0) || s.c[k].soil(2)) {
            R->fail("raster", "placing the body changed the soil");
            break;
        }
}

struct Shape { D3 j, b, t; double w; };

static void raster_checks() {
    bool th = R->thorough();
    // in cells of 0.1 m: a bucket-like, a flat, a deep, a small, a thin one
    std::vector<Shape> shapes = {
        {{0, 0, 0}, {0, 0, -0.5}, {0.7, 0, -0.5}, 0.5},
        {{0, 0, 0.3}, {-0.3, 0.02, -0.1}, {0.35, 0, -0.33}, 0.62},
        {{0.1, 0, 0.42}, {0.05, 0, -0.38}, {0.31, 0.1, -0.27}, 0.33},
        {{0.03, 0.01, 0.04}, {0, -0.02, -0.05}, {0.12, 0, -0.03}, 0.08},
        {{0, 0.3, 0}, {0, -0.2, -0.4}, {0.2, 0.5, -0.1}, 0.15},
    };
    std::vector<double> yaw = {0, 90, 180, -90, 30, -67.5, 135, 212};
    std::vector<double> pitch = {0, 20, -35, 60, -90, 90, 150};
    std::vector<double> roll = {0, 15, -50, 90};
    if (th) {
        yaw.insert(yaw.end(), {45, 10, 75, -20, 160, 251, 303, 1});
        pitch.insert(pitch.end(), {45, 5, -12, 110, -140, 1, 180});
        roll.insert(roll.end(), {45, -7, 120, 180, 30});
    }
    std::vector<D3> pos = {{0, 0, 0}, {0.05, 0.05, 0.05}, {0.013, -0.041, 0.02},
        {-0.31, 0.22, -0.15}, {0.1, 0, 0.3}};
    if (th) for (auto q : {D3{0.27, -0.33, 0.11}, {-0.05, 0.1, -0.1},
                           {0.0777, 0.0123, -0.0456}}) pos.push_back(q);
    // the last two: the same bodies much larger and much smaller
    std::vector<WP> wps(5);
    wps[0].hx = 13; wps[0].hy = 12; wps[0].hz = 14;
    wps[1].hx = 9; wps[1].hy = 10; wps[1].hz = 26;
    wps[1].cxy = 0.2f; wps[1].cz = 0.07f;
    wps[2].hx = 10; wps[2].hy = 9; wps[2].hz = 16;
    wps[2].cxy = 0.15f; wps[2].cz = 0.1f; wps[2].buffer = 4;
    wps[3].hx = 13; wps[3].hy = 12; wps[3].hz = 24;
    wps[3].cxy = 4.0f; wps[3].cz = 2.1f; wps[3].tol = 4e-5f;
    wps[4].hx = 12; wps[4].hy = 13; wps[4].hz = 36;
    wps[4].cxy = 0.011f; wps[4].cz = 0.004f;
    auto scale = [](const WP& p) {
        return p.cxy > 1 ? 40.0 : p.cxy < 0.1f ? 0.1 : 1.0; };
    std::vector<std::unique_ptr<World>> ws;
    for (auto& p : wps) ws.push_back(std::make_unique<World>(p));
    auto run = [&](auto* body, const char* name, World& w, double y, double pi,
                   double ro, size_t k) {
        // the pose checked comes after another one on the same state
        ss::SimOut out(w.grid);
        V3 ori = euler(y, pi, ro);
        float sc = w.p.cxy / 0.1f;
        V3 first = {float(-0.2 * (k % 3)), float(0.15 * (k % 2)), 0.1f};
        one(w, &out, body, first, euler(y + 50, -pi, ro + 5), name);
        for (auto& q : pos) {
            V3 at = {float(q[0] * sc), float(q[1] * sc),
                     float(q[2] * w.p.cz / 0.1)};
            one(w, &out, body, at, ori, name);
        }
    };
    auto flush = [&] {
        R->count("cells_exact", rs.exact); R->count("cells_near_a_border",
            rs.ambiguous);
        R->count("cells_with_three_walls", rs.crowded);
        R->count("wall_cells", rs.walls);
        rs = RasterStats();
    };
    auto all = [&](bool bucket) {
        size_t n = 0;
        for (auto& s : shapes) for (double y : yaw) for (double pi : pitch)
        for (double ro : roll) {
            n++;
            if (!R->next()) continue;
            for (size_t w = 0; w < ws.size(); w++) {
                if (!th && (w < 3 ? (n + w) % 3 == 1 : (n + w) % 3 != 1)) continue;
                double k = scale(wps[w]);
                auto f = [&](const D3& d) { return V3{float(d[0] * k),
                    float(d[1] * k), float(d[2] * k)}; };
                if (bucket) {
                    ss::Bucket b({0, 0, 0}, f(s.j), f(s.b), f(s.t), s.w * k);
                    run(&b, "bucket", *ws[w], y, pi, ro, n);
                } else {
                    ss::Blade b({0, 0, 0}, f(s.j), f(s.b), f(s.t), s.w * k);
                    run(&b, "blade", *ws[w], y, pi, ro, n);
                }
            }
            flush();
        }
    };
    if (R->section("bucket")) { R->describe = text; all(true); }
    if (R->section("blade")) { R->describe = text; all(false); }
    if (R->section("sweep")) {
        // a body crossing the grid in sub-cell moves
        R->describe = text;
        for (size_t s = 0; s < shapes.size(); s++)
            for (int a = 0; a < 12; a++) {
                if (!R->next()) continue;
                World& w = *ws[(s + a) % 5];
                double m = scale(w.p);
                auto f = [&](const D3& d) { return V3{float(d[0] * m),
                    float(d[1] * m), float(d[2] * m)}; };
                auto& q = shapes[s];
                ss::Bucket b({0, 0, 0}, f(q.j), f(q.b), f(q.t), q.w * m);
                ss::Blade b2({0, 0, 0}, f(q.j), f(q.b), f(q.t), q.w * m);
                ss::SimOut o1(w.grid), o2(w.grid);
                for (int k = -20; k <= 20; k++) {
                    float t = k * 0.25f * w.p.cxy;
                    float x = t * std::cos(a * 0.55), y = t * std::sin(a *
                        0.55);
                    if (std::fabs(x) > 0.5) x = std::copysign(0.5f, x);
                    if (std::fabs(y) > 0.35) y = std::copysign(0.35f, y);
                    V3 ori = a % 2 ? euler(0, 0, 0) : euler(30 * a, 3 * k, 0);
                    one(w, &o1, &b, {x, y, k * 0.2f * w.p.cz}, ori, "bucket");
                    one(w, &o2, &b2, {x, y, k * 0.2f * w.p.cz}, ori, "blade");
                }
                flush();
            }
    }
}

// work cycles of large bodies: every pose of the path, and turned ones
static void large_bodies() {
    for (auto& s : big_scenes(R->thorough()))
        for (int turn = 0; turn < 6; turn++)
            for (size_t from = 0; from <= s.script.size(); from += 16) {
                if (!R->next()) continue;
                R->describe = text;
                World w(s.p);
                ss::SimOut out(w.grid);
                ss::Bucket bu({0, 0, 0}, s.j, s.b, s.t, s.width);
                ss::Blade bl({0, 0, 0}, s.j, s.b, s.t, s.width);
                Stage st(s);
                At at = s.start;
                for (size_t n = 0; n <= s.script.size(); n++) {
                    if (n) at = at.go(s.script[n - 1], st.unit);
                    if (n < from) continue;
                    if (n >= from + 16) break;
                    At q = at;
                    static const double tw[6][3] = {{0, 0, 0}, {97, 0, 11},
                        {-61, 40, 0}, {181, -35, -50}, {90, 0, 0},
                        {45, 45, 30}};
                    q.yaw += tw[turn][0]; q.pitch += tw[turn][1];
                    q.roll += tw[turn][2];
                    if (turn) { q.x *= 0.3; q.y *= 0.6; }
                    bool blade = s.blade != (turn % 2 == 1);
                    if (blade) one(w, &out, &bl, q.pos(), q.ori(), "blade");
                    else one(w, &out, &bu, q.pos(), q.ori(), "bucket");
                }
                R->sample(what);
                R->count("cells_exact", rs.exact);
                R->count("cells_near_a_border", rs.ambiguous);
                R->count("cells_with_three_walls", rs.crowded);
                R->count("wall_cells", rs.walls);
                rs = RasterStats();
            }
}

// bodies of a hundred and more cells
static void huge_bodies() {
    struct B { D3 j, b, t; double w; };           // in cells
    std::vector<B> bodies = {
        {{0, 0, 0}, {-70, 0, -40}, {75, 0, -38}, 90},      // wide and long
        {{0, 0, 70}, {-5, 0, -70}, {30, 0, -60}, 20},      // high
        {{0, 0, 10}, {-90, 0, -2}, {90, 0, -4}, 3},        // a long edge
        {{0, 0, 3}, {0, 0, -3}, {12, 0, -4}, 190},         // a wide edge
        {{0, 0, 0}, {2, 0, -3}, {5, 0, 4}, 150},
    };
    int n = R->thorough() ? 24 : 6;
    R->describe = text;
    for (size_t q = 0; q < bodies.size(); q++)
        for (int k = 0; k < n; k++) for (int blade = 0; blade < 2; blade++) {
            if (!R->next()) continue;
            WP wp; wp.hx = 112; wp.hy = 118; wp.hz = 125;
            if (k % 3 == 1) { wp.cxy = 0.03f; wp.cz = 0.02f; }
            // (at such lengths the increment has to be a small part of a cell)
            wp.tol = 1e-6f;
            World w(wp);
            ss::SimOut out(w.grid);
            auto f = [&](const D3& d) { return V3{float(d[0] * wp.cxy),
                float(d[1] * wp.cxy), float(d[2] * wp.cz)}; };
            auto& b = bodies[q];
            ss::Bucket bu({0, 0, 0}, f(b.j), f(b.b), f(b.t), float(b.w *
                wp.cxy));
            ss::Blade bl({0, 0, 0}, f(b.j), f(b.b), f(b.t), float(b.w *
                wp.cxy));
            V3 ori = k ? euler(37 * k + 11 * blade, 7 * k - 20,
                               (k % 4) * 6 - 9) : euler(0, 0, 0);
            for (int x = 0; x < 2; x++) {
                V3 at = f({0.21 + x * 3.3, -0.37 - x * 2.4, 0.13 * k + x + 0.37});
                if (blade) one(w, &out, &bl, at, ori, "blade");
                else one(w, &out, &bu, at, ori, "bucket");
            }
            R->sample(what);
            R->count("cells_exact", rs.exact);
            R->count("cells_near_a_border", rs.ambiguous);
            R->count("cells_with_three_walls", rs.crowded);
            R->count("wall_cells", rs.walls);
            rs = RasterStats();
        }
}

// bodies with their corners exactly on the borders and corners of cells, many
// of them balanced about a corner, which the small increments leave in place
static void border_bodies() {
    struct B { D3 j, b, t; double w; };           // in cells
    std::vector<B> bodies = {
        {{0, 0, 0}, {0, 0, -4}, {1, 0, 4}, 6},
        {{0, 0, 0}, {1, 0, -4}, {1, 0, 4}, 5},
        {{0, 0, 0}, {1, 0, -4}, {0.5, 0, 4}, 6},
        {{0, 0, 0}, {-2, 0, -3}, {3, 0, 3}, 8},
        {{0, 0, 0}, {-3, 0, 0}, {3, 0, 1}, 4},
        {{0, 0, 0}, {-3, 0, -1}, {3, 0, -1}, 4},
        {{0, 0, 3}, {0, 0, -3}, {4, 0, -3}, 6},
        {{0, 0, 3}, {-1, 0, 0}, {5, 0, 0}, 7},
        {{0, 0, 0}, {0.5, 0, -4.5}, {0.5, 0, 4.5}, 3},
        {{0, 0, 2}, {0, 0, -2}, {7, 0, -2}, 10},
    };
    std::vector<double> off = {0, 0.5, -0.5, 0.25};
    std::vector<double> turns = {0, 90, 180, -90};
    std::vector<WP> wps(4);
    wps[0].hx = 12; wps[0].hy = 13; wps[0].hz = 10;
    wps[0].cxy = 0.25f; wps[0].cz = 0.25f;
    wps[1].hx = 14; wps[1].hy = 11; wps[1].hz = 16;
    wps[1].cxy = 0.125f; wps[1].cz = 0.0625f;
    wps[2].hx = 12; wps[2].hy = 12; wps[2].hz = 14;
    wps[2].cxy = 4; wps[2].cz = 2; wps[2].tol = 4e-5f;
    wps[3].hx = 11; wps[3].hy = 12; wps[3].hz = 14;
    wps[3].cxy = 0.015625f; wps[3].cz = 0.0078125f;
    if (R->thorough()) {
        off = {0, 0.5, -0.5, 0.25, -0.75};
        turns = {0, 90, 180, -90, 45, 30};
        WP q; q.hx = 13; q.hy = 12; q.hz = 12; q.cxy = 0.1f; q.cz = 0.1f;
        wps.push_back(q);
    }
    R->describe = text;
    for (auto& wp : wps)
        for (auto& q : bodies)
            for (double y : turns) for (double pi : turns) for (int blade = 0;
                 blade < 2; blade++) {
                if (!R->next()) continue;
                World w(wp);
                ss::SimOut out(w.grid);
                auto f = [&](const D3& d) { return V3{float(d[0] * wp.cxy),
                    float(d[1] * wp.cxy), float(d[2] * wp.cz)}; };
                ss::Bucket bu({0, 0, 0}, f(q.j), f(q.b), f(q.t), float(q.w *
                    wp.cxy));
                ss::Blade bl({0, 0, 0}, f(q.j), f(q.b), f(q.t), float(q.w *
                    wp.cxy));
                for (double dx : off) for (double dy : off) for (double dz :
                     {0.0, 0.5, 1.0}) {
                    V3 at = f({dx, dy, dz}), ori = euler(y, pi, 0);
                    if (y == 0 && pi == 0) ori = {1, 0, 0, 0};
                    if (blade) one(w, &out, &bl, at, ori, "blade");
                    else one(w, &out, &bu, at, ori, "bucket");
                }
                R->sample(what);
                R->count("cells_exact", rs.exact);
                R->count("cells_near_a_border", rs.ambiguous);
                R->count("cells_with_three_walls", rs.crowded);
                R->count("wall_cells", rs.walls);
                rs = RasterStats();
            }
}

// ------------------------------------------------------------------- C12
static void interval_checks() {
    bool th = R->thorough();
    int depth = th ? 6 : 4;
    for (int g = 0; g < 5; g++) {
        WP p; p.hx = 2; p.hy = 3; p.hz = 12;
        if (g == 1) { p.cxy = 0.25f; p.cz = 0.2f; }
        if (g == 2) { p.cxy = 0.3f; p.cz = 0.03f; }
        if (g == 3) { p.cxy = 5; p.cz = 3.3f; p.tol = 3e-5f; }
        if (g == 4) { p.cxy = 0.01f; p.cz = 0.003f; }
        World w(p);
        int lo = -4, hi = 5;
        std::vector<Span> iv;
        for (int a = lo; a < hi; a++)
            for (int b = a + 1; b <= hi && b <= a + 5; b++) iv.push_back({a, b});
        if (!R->section("merge" + std::to_string(g))) continue;
        R->describe = text;
        // explicit search over every state reachable by adding intervals
        struct N { std::array<int, 4> b; int depth; };
        std::set<std::array<int, 4>> seen;
        std::vector<N> q{{{0, 0, 0, 0}, 0}};
        seen.insert(q[0].b);
        auto hz = [&](int c) { return w.grid.vect_z_[c + p.hz - 1]; };
        bool mine = R->next();
        for (int extra = 1; extra < R->nshard(); extra++)
            mine = R->next() || mine;
        // every worker explores the state graph, the transitions are shared
        for (size_t k = 0; k < q.size(); k++) {
            N n = q[k];
            for (size_t x = 0; x < iv.size(); x++) {
                Span v = iv[x];
                for (int i = 0; i < w.nx(); i++) for (int j = 0; j < w.ny();
                    j++) for (int l = 0; l < 4; l++)
                        w.out.body_[l][i][j] = 0;
                int ci = k % w.nx(), cj = x % w.ny();
                for (int l = 0; l < 4; l++)
                    w.out.body_[l][ci][cj] = n.b[l] == 0 ? 0.0f : l % 2 ?
                        hz(n.b[l]) : hz(n.b[l] + 1) - p.cz;
                // a wall bound may be exactly zero
                for (int l = 0; l < 4; l += 2)
                    if (n.b[l] == 0 && n.b[l + 1] != 0)
                        w.out.body_[l][ci][cj] = hz(1) - p.cz;
                    else if (n.b[l + 1] == 0 && n.b[l] != 0)
                        w.out.body_[l + 1][ci][cj] = hz(0);
                ss::IncludeNewBodyPos(&w.out, ci, cj, hz(v.lo + 1) - p.cz,
                                      hz(v.hi), p.tol);
                St s = w.read();
                const Col& c = s.at(ci, cj);
                if (seen.size() < 2000000 && n.depth + 1 < depth &&
                    seen.insert(c.b).second)
                    q.push_back({c.b, n.depth + 1});
                if (!mine) continue;
                if ((k + x) % R->nshard() != (size_t)R->shard()) continue;
                R->count("runs");
                R->distinct("outcomes", hash_st(s, false));
                std::vector<Span> had, got;
                for (int l = 0; l < 4; l += 2) {
                    if (n.b[l] || n.b[l + 1]) had.push_back({n.b[l],
                        n.b[l + 1]});
                    if (c.wall(l)) got.push_back({c.b[l], c.b[l + 1]});
                }
                std::ostringstream o;
                o << "walls [" << n.b[0] << "," << n.b[1] << "] [" << n.b[2]
                  << "," << n.b[3] << "] adding [" << v.lo << "," << v.hi
                  << "] gives [" << c.b[0] << "," << c.b[1] << "] [" << c.b[2]
                  << "," << c.b[3] << "], cell height " << p.cz;
                what = o.str();
                std::string m = s.bad;
                for (int i = 0; i < w.nx(); i++) for (int j = 0; j < w.ny();
                    j++) if (!(i == ci && j == cj) && !(s.at(i, j) == Col()))
                        m = "another cell changed";
                auto all = had; all.push_back(v);
                auto want = unite(all);
                std::sort(got.begin(), got.end(), [](const Span& a,
                    const Span& b) { return a.lo < b.lo; });
                auto same = [&](const std::vector<Span>& a,
                                const std::vector<Span>& b) {
                    if (a.size() != b.size()) return false;
                    for (size_t z = 0; z < a.size(); z++)
                        if (a[z].lo != b[z].lo || a[z].hi != b[z].hi)
                            return false;
                    return true; };
                if (m.empty() && want.size() <= 2 && !same(got, want))
                    m = "not the union of the intervals";
                if (m.empty() && want.size() == 3) {
                    // joined with the nearest wall
                    auto gap = [&](const Span& a) {
                        return a.hi < v.lo ? v.lo - a.hi : a.lo - v.hi; };
                    bool ok = false;
                    for (int z = 0; z < 2; z++) {
                        if (gap(had[z]) > gap(had[1 - z])) continue;
                        std::vector<Span> alt = {had[1 - z],
                            {std::min(had[z].lo, v.lo), std::max(had[z].hi,
                             v.hi)}};
                        if (same(got, unite(alt))) ok = true;
                    }
                    if (!ok) m = "a third wall is not joined to the nearest";
                }
                // a wall does not change layer while it grows
                if (m.empty() && had.size() == 1) {
                    int l = n.b[0] || n.b[1] ? 0 : 2;
                    if (!c.wall(l) || c.b[l] > n.b[l] || c.b[l + 1] <
                        n.b[l + 1]) m = "the existing wall left its layer";
                }
                if (!m.empty()) R->fail("merge", m + ": " + what);
            }
        }
        if (mine && R->shard() == 0) R->count("states", q.size());
    }
    // the same through lists of cells: one wall per call, spanning from the
    // lowest to the highest cell of each column
    if (R->section("lists")) {
        R->describe = text;
        WP p; p.hx = 3; p.hy = 3; p.hz = 8;
        World w(p);
        for (int k = 0; k < 4096; k++) {
            if (!R->next()) continue;
            // cells (column, height): every subset of twelve
            std::vector<std::vector<int>> cells;
            std::map<std::pair<int, int>, Span> want;
            for (int b = 0; b < 12; b++)
                if (k >> b & 1) {
                    int i = 2 + b % 2, j = 3 + (b / 2) % 2;
                    int z = 5 + (b / 4) * 2 - b % 3;
                    cells.push_back({i, j, z});
                    Span v{z - p.hz, z - p.hz + 1};
                    auto r = want.emplace(std::pair{i, j}, v);
                    if (!r.second) {
                        r.first->second.lo = std::min(r.first->second.lo, v.lo);
                        r.first->second.hi = std::max(r.first->second.hi, v.hi);
                    }
                }
            if (cells.empty()) continue;
            std::sort(cells.begin(), cells.end());
            ss::SimOut out(w.grid);
            ss::UpdateBody(cells, &out, w.grid, p.tol);
            R->count("runs");
            St s = snap(out, p.cz);
            std::ostringstream o;
            o << "cells";
            for (auto& c : cells) o << " (" << c[0] << "," << c[1] << ","
                << c[2] << ")";
            what = o.str();
            std::string m = s.bad;
            for (int i = 0; i < s.nx; i++) for (int j = 0; j < s.ny; j++) {
                Col e;
                auto q = want.find({i, j});
                if (q != want.end()) { e.b[0] = q->second.lo;
                    e.b[1] = q->second.hi; }
                if (!(s.at(i, j) == e) && m.empty())
                    m = "column " + std::to_string(i) + "," + std::to_string(j)
                        + " holds " + col_str(s.at(i, j)) + " instead of " +
                        col_str(e);
            }
            if (!m.empty()) R->fail("lists", m + ": " + what);
        }
    }
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    if (r.arg("--prop", "C11") == "C11") {
        raster_checks();
        if (r.section("large")) large_bodies();
        if (r.section("borders")) border_bodies();
        if (r.section("huge")) huge_bodies();
    } else interval_checks();
    return r.finish();
}
