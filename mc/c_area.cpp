// C24: the active areas are the padded bounding boxes they stand for.
#include "raster.hpp"
#include "step.hpp"
using namespace mc;
std::mc_mt19937 soil_simulator::rng;

static Runner* R;
static std::string what;
static std::string text() { return what; }
static std::string box(const int a[2][2]) {
    std::ostringstream o;
    o << "[" << a[0][0] << "," << a[0][1] << ")x[" << a[1][0] << "," << a[1][1]
      << ")";
    return o.str();
}

// The limit of a bounding box, padded and limited to the interior; two values
// when it is a matter of rounding
static std::set<int> limit(double v, int pad, bool low, int half) {
    std::set<int> s;
    for (double e : {-1e-3, 0.0, 1e-3}) {
        int k = static_cast<int>(std::floor(v + pad + e + 0.5));
        s.insert(low ? std::max(k, 1) : std::min(k, 2 * half));
    }
    return s;
}

// ---------------------------------------------------------------- the body
template <class B> static void placed(
    World& w, ss::SimOut* o, B* body, const V3& pos, const V3& ori,
    const std::string& name
) {
    auto faces = faces_of(*body, pos, ori, w.p);
    if (!inside_grid(faces, w.p)) { R->count("poses_outside"); return; }
    std::ostringstream t;
    t << name << " cell " << w.p.cxy << "x" << w.p.cz << " grid " << w.p.hx
      << "," << w.p.hy << " buffer " << w.p.buffer << " at " << pos[0] << ","
      << pos[1] << "," << pos[2] << " ori " << ori[0] << "," << ori[1] << ","
      << ori[2] << "," << ori[3];
    what = t.str();
    int relax[2][2], impact[2][2];
    std::memcpy(relax, o->relax_area_, sizeof relax);
    std::memcpy(impact, o->impact_area_, sizeof impact);
    ss::CalcBodyPos(o, pos, ori, w.grid, body, w.par, w.p.tol);
    R->count("runs");
    double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
    for (auto& f : faces) for (auto& v : to_index(f, w.p))
        for (int k = 0; k < 2; k++) {
            lo[k] = std::min(lo[k], v[k]);
            hi[k] = std::max(hi[k], v[k]);
        }
    auto& a = o->body_area_;
    for (int k = 0; k < 2; k++) {
        int half = k ? w.p.hy : w.p.hx;
        if (!limit(lo[k], -w.p.buffer, true, half).count(a[k][0]) ||
            !limit(hi[k], w.p.buffer, false, half).count(a[k][1])) {
            std::ostringstream e;
            e << "body area " << box(a) << " but the body spans " << lo[0]
              << ".." << hi[0] << " x " << lo[1] << ".." << hi[1];
            R->fail("body_area", e.str());
        }
    }
    if (std::memcmp(relax, o->relax_area_, sizeof relax) ||
        std::memcmp(impact, o->impact_area_, sizeof impact))
        R->fail("others", "placing the body changed another area");
    for (int i = 0; i <= 2 * w.p.hx; i++) for (int j = 0; j <= 2 * w.p.hy; j++)
        for (int l = 0; l < 4; l += 2)
            if ((o->body_[l][i][j] != 0 || o->body_[l + 1][i][j] != 0) &&
                !(i >= a[0][0] && i < a[0][1] && j >= a[1][0] && j < a[1][1]))
                R->fail("outside", "wall at (" + std::to_string(i) + "," +
                        std::to_string(j) + ") outside the body area " +
                        box(a));
    std::uint64_t h = 3;
    for (int k = 0; k < 4; k++) h = mix(h, a[k / 2][k % 2]);
    for (float v : pos) h = mix(h, std::hash<float>()(v));
    for (float v : ori) h = mix(h, std::hash<float>()(v));
    R->distinct("outcomes", mix(h, w.p.buffer * 100 + w.p.hx));
}
static void bodies() {
    bool th = R->thorough();
    struct Sh { D3 j, b, t; double w; const char* n; };
    // in cells; each vertex is the extreme one of some pose
    std::vector<Sh> shapes = {
        {{0, 0, 0}, {0, 0, -3}, {3.5, 0, -3.2}, 2.4, "open"},
        {{-2.2, 0.1, 1}, {0.3, 0, -1}, {1.9, 0.4, 0.7}, 1.3, "joint out"},
        {{0.4, 0, 0.5}, {-2.6, 0, -1.2}, {1.1, 0.3, -0.3}, 0.7, "base out"},
        {{0, 1.5, 0.2}, {0.2, -0.7, -0.8}, {0.9, 0.1, 2.9}, 3.1, "tall"},
    };
    std::vector<double> yaw = {0, 90, 180, -90, 33, 137, 222, -61};
    std::vector<double> pitch = {0, 35, -70, 150};
    std::vector<double> roll = {0, 40, -90};
    for (size_t s = 0; s < shapes.size(); s++)
    for (int blade = 0; blade < 2; blade++)
    for (int g = 0; g < 5; g++)
    for (double y : yaw) {
        if (!R->next()) continue;
        R->describe = text;
        WP p; p.hz = 30;
        p.hx = g == 0 ? 9 : g == 1 ? 7 : 8; p.hy = g == 0 ? 7 : g == 1 ? 10 : 8;
        if (g == 1) { p.cxy = 0.2f; p.cz = 0.1f; p.hz = 40; }
        if (g == 2) { p.cxy = 0.15f; p.cz = 0.05f; p.hz = 60; }
        if (g == 3) { p.cxy = 4; p.cz = 3.1f; p.tol = 4e-5f; }
        if (g == 4) { p.cxy = 0.013f; p.cz = 0.004f; p.hz = 80; }
        if (!th && g > 2 && (s + blade) % 2 == size_t(g) % 2) continue;
        float c = p.cxy;
        auto f = [&](const D3& d) { return V3{float(d[0] * c), float(d[1] * c),
            float(d[2] * c)}; };
        auto& q = shapes[s];
        for (int buf : {2, 3, 6}) {
            p.buffer = buf;
            World w(p);
            ss::SimOut o(w.grid);
            set_area(o.relax_area_, 2, 5, 3, 4);
            set_area(o.impact_area_, 3, 4, 2, 6);
            ss::Bucket bu({0, 0, 0}, f(q.j), f(q.b), f(q.t), q.w * c);
            ss::Blade bl({0, 0, 0}, f(q.j), f(q.b), f(q.t), q.w * c);
            for (double pi : pitch) for (double ro : roll) {
                V3 ori = euler(y, pi, ro);
                double st = th ? 0.5 : 1.3;
                for (double x = -p.hx + 0.2; x < p.hx; x += st)
                    for (double yy = -p.hy + 0.1; yy < p.hy; yy += st) {
                        V3 pos = {float(x * c), float(yy * c), 0.02f};
                        if (blade) placed(w, &o, &bl, pos, ori,
                                          std::string("blade ") + q.n);
                        else placed(w, &o, &bu, pos, ori,
                                    std::string("bucket ") + q.n);
                    }
            }
        }
        R->sample(what);
    }
}

// ------------------------------------------------------------- the terrain
static void pass(World& w, const St& s0, const int (*ia)[2],
                 const int (*ra)[2], int pol) {
    w.load(s0);
    std::memcpy(w.out.impact_area_, ia, sizeof w.out.impact_area_);
    std::memcpy(w.out.relax_area_, ra, sizeof w.out.relax_area_);
    set_area(w.out.body_area_, 3, 4, 2, 5);
    auto sl = sliding_terrain(s0, w.p.dh);
    int e[2][2] = {{1000, -1000}, {1000, -1000}};
    bool any = false;
    for (auto& [i, j] : sl) {
        if (i < ia[0][0] || i >= ia[0][1] || j < ia[1][0] || j >= ia[1][1])
            continue;
        any = true;
        int v[2] = {i, j};
        for (int k = 0; k < 2; k++) {
            e[k][0] = std::min(e[k][0], v[k]);
            e[k][1] = std::max(e[k][1], v[k]);
        }
    }
    for (int k = 0; k < 2 && any; k++) {
        e[k][0] = std::max(e[k][0] - w.p.buffer, 1);
        e[k][1] = std::min(e[k][1] + w.p.buffer, 2 * (k ? w.p.hy : w.p.hx));
    }
    if (!any) std::memcpy(e, ra, sizeof e);
    run_default([&] { ss::RelaxTerrain(&w.out, w.grid, &w.body, w.par,
                                       w.p.tol); }, pol);
    R->count("runs");
    St t = w.read();
    R->distinct("outcomes", mix(hash_st(t), mix(w.out.relax_area_[0][0] * 64 +
        w.out.relax_area_[0][1], w.out.relax_area_[1][0] * 64 +
        w.out.relax_area_[1][1])));
    if (std::memcmp(e, w.out.relax_area_, sizeof e))
        R->fail("relax_area", "relaxation area " + box(w.out.relax_area_) +
                " instead of " + box(e) + (any ? "" : " (nothing moved)"));
    int b[2][2] = {{3, 4}, {2, 5}};
    if (std::memcmp(w.out.impact_area_, ia, sizeof b) ||
        std::memcmp(w.out.body_area_, b, sizeof b))
        R->fail("others", "the pass changed another area");
}
static void terrain() {
    bool th = R->thorough();
    for (int g = 0; g < 2; g++) for (int buf : {2, 3, 5}) {
        WP p; p.hx = g ? 3 : 4; p.hy = g ? 5 : 3; p.hz = 30; p.buffer = buf;
        p.dh = 1 + g;
        World w(p);
        int nx = w.nx(), ny = w.ny();
        // two features at every pair of cells, whole interior examined
        for (int a = 0; a < nx * ny; a++) {
            if (!R->next()) continue;
            R->describe = text;
            for (int b = a; b < nx * ny; b++)
                for (auto [ha, hb] : {std::pair{4, 4}, {4, -4}, {-4, -4},
                                      {1, 5}, {0, 0}}) {
                    St s = w.empty(b % 3 - 1);
                    s.c[a].t += ha; s.c[b].t += hb;
                    what = "features of " + std::to_string(ha) + " and " +
                        std::to_string(hb) + " at cells " + std::to_string(a) +
                        " and " + std::to_string(b) + " of " +
                        std::to_string(nx) + "x" + std::to_string(ny) +
                        " buffer " + std::to_string(buf);
                    int all[2][2] = {{1, nx - 1}, {1, ny - 1}};
                    int old[2][2] = {{2, 3}, {1, 4}};
                    int some[2][2] = {{2, nx - 2}, {1, ny - 2}};
                    pass(w, s, all, old, b % 4);
                    if (th || (a + b) % 2) pass(w, s, some, old, a % 4);
                    // a wall takes part: soil slides under it or on it
                    if ((a + b) % 3 == 0 || th) {
                        St q = s;
                        int k = (a * 7 + b * 3) % (nx * ny);
                        q.c[k].b[2] = q.c[k].t + 1 + a % 2;
                        q.c[k].b[3] = q.c[k].b[2] + 1 + b % 2;
                        if (q.c[k].b[2] == 0 && q.c[k].b[3] == 0) continue;
                        pass(w, q, all, old, b % 4);
                    }
                }
            R->sample(what);
        }
    }
}

// ------------------------------------------------- soil falling on terrain
static void fallen() {
    for (int buf : {2, 4}) for (int g = 0; g < 2; g++) {
        WP p; p.hx = g ? 4 : 6; p.hy = g ? 6 : 5; p.hz = 30; p.buffer = buf;
        World w(p);
        int nx = w.nx(), ny = w.ny();
        for (int i = 2; i < nx - 2; i++) for (int j = 2; j < ny - 2; j++) {
            if (!R->next()) continue;
            R->describe = text;
            for (int d = 0; d < 4; d++) for (int area = 0; area < 3; area++)
            for (int wall : {0, 3, 9}) {
                // soil on a wall with one open side, `wall`: height of a
                // wall there
                St s = w.empty();
                s.at(i, j).b[0] = 3; s.at(i, j).b[1] = 4;
                s.at(i, j).s[0] = 4; s.at(i, j).s[1] = 8;
                for (int k = 0; k < 4; k++) {
                    Col& c = s.at(i + ref::DX[k], j + ref::DY[k]);
                    if (k != d) { c.b[0] = 1; c.b[1] = 20; }
                    else if (wall) { c.b[2] = wall; c.b[3] = wall + 1; }
                }
                auto_entries(&s);
                w.load(s);
                int ra[3][2][2] = {{{1, nx - 1}, {1, ny - 1}},
                    {{2, 4}, {3, 4}}, {{nx - 3, nx - 2}, {ny - 4, ny - 2}}};
                std::memcpy(w.out.relax_area_, ra[area], sizeof ra[area]);
                set_area(w.out.impact_area_, 3, 4, 2, 5);
                set_area(w.out.body_area_, i - 1, i + 2, j - 1, j + 2);
                what = "soil at (" + std::to_string(i) + "," +
                    std::to_string(j) + ") side " + std::to_string(d) +
                    " wall there " + std::to_string(wall) + " buffer " +
                    std::to_string(buf) + " area " + box(ra[area]);
                run_default([&] { ss::RelaxBodySoil(&w.out, w.grid, &w.body,
                    w.par, p.tol); }, d % 3);
                R->count("runs");
                St t = w.read();
                auto& n = w.out.relax_area_;
                R->distinct("outcomes", mix(hash_st(t), mix(n[0][0] * 64 +
                    n[0][1], n[1][0] * 64 + n[1][1])));
                bool moved = false;
                for (int x = 0; x < nx; x++) for (int y = 0; y < ny; y++)
                    if (t.at(x, y).t != s.at(x, y).t) {
                        moved = true;
                        if (x >= 1 && y >= 1 && x < nx - 1 && y < ny - 1 &&
                            !(x >= n[0][0] && x < n[0][1] && y >= n[1][0] &&
                              y < n[1][1]))
                            R->fail("fallen", "soil fell on (" +
                                std::to_string(x) + "," + std::to_string(y) +
                                ") outside the relaxation area " + box(n));
                    }
                if (!moved && std::memcmp(n, ra[area], sizeof ra[area]))
                    R->fail("unmoved", "the relaxation area changed although "
                            "no soil fell on the terrain");
                if (n[0][0] > ra[area][0][0] || n[0][1] < ra[area][0][1] ||
                    n[1][0] > ra[area][1][0] || n[1][1] < ra[area][1][1])
                    R->fail("shrunk", "the relaxation area shrank to " +
                            box(n));
                if (n[0][0] < 1 || n[1][0] < 1 || n[0][1] > nx - 1 ||
                    n[1][1] > ny - 1)
                    R->fail("interior", "relaxation area " + box(n));
            }
            R->sample(what);
        }
    }
}

// bodies of up to 30 cells along their work cycles, and turned
static void large() {
    for (auto& s : big_scenes(R->thorough()))
        for (int turn = 0; turn < 6; turn++) {
            if (!R->next()) continue;
            R->describe = text;
            World w(s.p);
            ss::SimOut out(w.grid);
            set_area(out.relax_area_, 2, 5, 3, 4);
            set_area(out.impact_area_, 3, 4, 2, 6);
            ss::Bucket bu({0, 0, 0}, s.j, s.b, s.t, s.width);
            ss::Blade bl({0, 0, 0}, s.j, s.b, s.t, s.width);
            Stage st(s);
            At at = s.start;
            for (size_t n = 0; n <= s.script.size(); n++) {
                if (n) at = at.go(s.script[n - 1], st.unit);
                At q = at;
                static const double tw[6][3] = {{0, 0, 0}, {97, 0, 11},
                    {-61, 40, 0}, {181, -35, -50}, {90, 0, 0}, {45, 45, 30}};
                q.yaw += tw[turn][0]; q.pitch += tw[turn][1];
                q.roll += tw[turn][2];
                if (turn) { q.x *= 0.3; q.y *= 0.6; }
                if (s.blade != (turn % 2 == 1))
                    placed(w, &out, &bl, q.pos(), q.ori(), "large blade");
                else
                    placed(w, &out, &bu, q.pos(), q.ori(), "large bucket");
            }
            R->sample(what);
        }
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    if (r.section("body")) bodies();
    if (r.section("large")) large();
    if (r.section("terrain")) terrain();
    if (r.section("fallen")) fallen();
    return r.finish();
}
