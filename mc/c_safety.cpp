// Memory safety, initialisation and leaks (C20): bodies along every border of
// small grids.  Built with the address and undefined behaviour sanitizers; and
// without them, on heap and stack filled with different patterns, so that a
// value read before it is written shows in the results.
#include "step.hpp"
#include <malloc.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <new>
using namespace mc;
std::mc_mt19937 soil_simulator::rng;

static long live = 0;
static unsigned char fill = 0;
#ifndef __SANITIZE_ADDRESS__
static const bool SAN = false;
void* operator new(std::size_t n) {
    void* p = std::malloc(n);
    if (!p) throw std::bad_alloc();
    std::memset(p, fill, n);
    live++;
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) live--; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
#else
static const bool SAN = true;
#endif
__attribute__((noinline)) static void dirty_stack() {
    volatile unsigned char b[65536];
    for (size_t k = 0; k < sizeof b; k++) b[k] = fill;
}

static Runner* R;
static std::string path;
static std::string text() { return path; }

static std::string finite(const ss::SimOut& o) {
    auto ok = [](const std::vector<std::vector<float>>& v) {
        for (auto& r : v) for (float x : r)
            if (!(std::fabs(x) < 1e4)) return false;
        return true; };
    if (!ok(o.terrain_)) return "terrain";
    for (int l = 0; l < 4; l++) {
        if (!ok(o.body_[l])) return "walls";
        if (!ok(o.body_soil_[l])) return "carried soil";
    }
    for (auto& e : o.body_soil_pos_)
        if (!(std::fabs(e.x_b) < 1e4 && std::fabs(e.y_b) < 1e4 &&
              std::fabs(e.z_b) < 1e4 && std::fabs(e.h_soil) < 1e4))
            return "records";
    return "";
}

// Runs a piece of the simulation under each pattern: same results, and
// nothing left allocated
static void clean(const std::string& key,
                  const std::function<std::uint64_t()>& run) {
    if (SAN) { R->distinct("outcomes", run()); return; }
    std::uint64_t h[4];
    long left[4];
    static const unsigned char pat[4] = {0, 0xff, 0x41, 0};
    for (int k = 0; k < 4; k++) {
        fill = pat[k];
        dirty_stack();
        long before = live;
        h[k] = run();
        left[k] = live - before;
        fill = 0;
    }
    R->distinct("outcomes", h[0]);
    for (int k = 1; k < 4; k++)
        if (h[k] != h[0])
            R->fail(key + ".uninitialised", k == 3 ? "two equal runs differ" :
                    "the results depend on what the memory held before");
    if (left[2] > 0 && left[3] > 0)
        R->fail(key + ".leak", std::to_string(left[3]) +
                " blocks of memory are left allocated");
}

struct Hist { std::vector<At> at; int policy; };
static std::uint64_t follow(const Stage& st, const Hist& h, bool check) {
    Sim s = st.fresh();
    ss::SoilDynamics sd;
    std::uint64_t d = 3;
    ch.policy = h.policy;
    for (auto& a : h.at) {
        ch.prefix.clear();
        ch.reset();
        V3 pos = a.pos(), ori = a.ori();
        dirty_stack();
        bool done = s.step(&sd, pos, ori, st.grid, st.par, st.sc.p.tol);
        R->count("runs");
        if (check) {
            std::string m = finite(s.out);
            if (!m.empty()) R->fail("finite", m + " without a finite value");
        }
        d = mix(d, done);
    }
    ch.policy = 0;
    return mix(d, bits(s));
}

static std::vector<Scene> safety_scenes() {
    std::vector<Scene> v;
    auto add = [&](const char* n, int hx, int hy, int hz, float cxy, float cz,
                   int shape, int terrain, int maxit, int dh) {
        Scene s; s.name = n; s.terrain = terrain;
        s.p.hx = hx; s.p.hy = hy; s.p.hz = hz; s.p.cxy = cxy; s.p.cz = cz;
        s.p.maxit = maxit; s.p.dh = dh;
        float c = cxy;
        if (shape == 0) {
            s.j = {0, 0, 0}; s.b = {0, 0, -2 * c}; s.t = {3 * c, 0, -2.2f * c};
            s.width = 2.1f * c;
        } else if (shape == 1) {
            s.j = {3 * c, 0, 0.4f * c}; s.b = {0, 0, -0.9f * c};
            s.t = {3 * c, 0, -1.9f * c}; s.width = 2.3f * c;
        } else {
            s.blade = true;
            s.j = {0, 0, 0}; s.b = {0.5f * c, 0, -1.6f * c};
            s.t = {0.4f * c, 0, 1.4f * c}; s.width = 3.1f * c;
        }
        v.push_back(s);
    };
    int n = 0;
    for (int shape = 0; shape < 3; shape++)
        for (auto [hx, hy] : {std::pair{5, 7}, {8, 5}})
            for (int maxit : {0, 1, 3}) {
                int k = n++;
                static const int te[4] = {6, 7, 5, 0};
                add(("s" + std::to_string(shape)).c_str(), hx, hy, 12,
                    k % 3 ? 0.2f : 0.1f, k % 3 == 2 ? 0.15f : 0.1f,
                    shape, te[k % 4], maxit, 1 + k % 2);
            }
    return v;
}

static void borders() {
    bool th = R->thorough();
    static const std::vector<Move> al = {
        {1, 0, 0, 0, 0, 0}, {-1, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 0},
        {0, -1, 0, 0, 0, 0}, {0, 0, -1, 0, 0, 0}, {0.3, 0.2, 1, 0, 0, 0},
        {0, 0, 0.2, 0, 14, 0}, {0, 0, 0.2, 0, -14, 0}, {0, 0, 0, 15, 0, 0},
        {0, 0, 0, 0, 0, 14}};
    auto sc = safety_scenes();
    for (size_t q = 0; q < sc.size(); q++) {
        Stage st(sc[q]);
        auto& p = st.sc.p;
        Sim probe = st.fresh();
        for (double yaw : {0.0, 90.0, 180.0, 270.0, 40.0}) {
            auto ok = [&](double x, double y, double z) {
                At a{x * p.cxy, y * p.cxy, z * p.cxy, yaw, 0, 0};
                return st.allowed(probe, a); };
            double S = th ? 0.5 : 1;
            for (double x = -p.hx; x <= p.hx; x += S)
                for (double y = -p.hy; y <= p.hy; y += S)
                    for (double oz : {2.6, -1.3}) {
                        double ox = x + 0.25, oy = y - 0.2;
                        if (!ok(ox, oy, oz)) continue;
                        if (ok(ox + S, oy, oz) && ok(ox - S, oy, oz) &&
                            ok(ox, oy + S, oz) && ok(ox, oy - S, oz))
                            continue;
                        if (!R->next()) continue;
                        At a{ox * p.cxy, oy * p.cxy, oz * p.cxy, yaw, 0, 0};
                        Hist h;
                        h.policy = R->index() % 40;
                        h.at.push_back(a);
                        for (int k = 0; k < 3; k++) {
                            At b = a.go({0.1, 0.05, -0.9, 0, 0, 0}, st.unit);
                            if (!st.allowed(probe, b)) break;
                            h.at.push_back(a = b);
                        }
                        size_t n = al.size(), tot = th ? n * n * n : n * n;
                        for (size_t m = 0; m < tot; m++) {
                            // (a quarter of the sequences each)
                            if (SAN && !th && m % 4 != size_t(R->index() % 4))
                                continue;
                            Hist g = h;
                            At b = a;
                            size_t w = m;
                            bool in = true;
                            for (int k = 0; k < (th ? 3 : 2); k++, w /= n) {
                                b = b.go(al[w % n], st.unit);
                                if (!inside_grid(probe.faces(b.pos(), b.ori(),
                                                             p), p)) {
                                    in = false;
                                    break;
                                }
                                g.at.push_back(b);
                            }
                            if (!in) { R->count("outside_the_domain");
                                continue; }
                            path = st.sc.name + " scene " + std::to_string(q) +
                                " policy " + std::to_string(g.policy) + ":";
                            for (auto& u : g.at) {
                                std::ostringstream o;
                                o << " (" << u.x << "," << u.y << "," << u.z
                                  << "; " << u.yaw << "," << u.pitch << "," <<
                                    u.roll << ")";
                                path += o.str();
                            }
                            R->describe = text;
                            if (SAN || m % 16 != R->index() % 16)
                                R->distinct("outcomes", follow(st, g, true));
                            else
                                clean("history", [&] {
                                    return follow(st, g, false); });
                        }
                        R->sample(path);
                    }
        }
    }
}

// longer digging and dumping cycles
static void cycles() {
    auto all = scenes(R->thorough());
    size_t small = all.size();
    for (auto& s : big_scenes(R->thorough())) all.push_back(s);
    for (size_t q = 0; q < all.size(); q++)
        for (int it : {0, 1, 4})
            for (int pol = 0; pol < (q < small ? 6 : 2); pol++) {
                if (!R->next()) continue;
                Scene s = all[q];
                s.p.maxit = it;
                Stage st(s);
                Sim probe = st.fresh();
                Hist h; h.policy = pol;
                At a = s.start;
                h.at.push_back(a);
                for (auto& m : s.script) {
                    a = a.go(m, st.unit);
                    if (!inside_grid(probe.faces(a.pos(), a.ori(), s.p), s.p))
                        break;
                    h.at.push_back(a);
                }
                path = "scene " + s.name + " limit " + std::to_string(it) +
                    " policy " + std::to_string(pol);
                R->describe = text;
                clean("cycle", [&] { return follow(st, h, false); });
            }
}

// avalanches from and to the outermost cells
static void rim() {
    for (int hx = 1; hx <= 3; hx++) for (int hy = 1; hy <= 4; hy++) {
        WP p; p.hx = hx; p.hy = hy; p.hz = 20; p.cz = hx % 2 ? 0.1f : 0.05f;
        World w(p);
        int nx = 2 * hx + 1, ny = 2 * hy + 1;
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++)
            for (int h : {5, -5, 9}) for (int buf = 2; buf <= 4; buf += 2) {
                if (!R->next()) continue;
                St s = w.empty(h == 9 ? 1 : 0);
                s.at(i, j).t = h;
                w.par.cell_buffer_ = buf;
                path = "terrain " + std::to_string(h) + " at (" +
                    std::to_string(i) + "," + std::to_string(j) + ") of " +
                    std::to_string(nx) + "x" + std::to_string(ny);
                R->describe = text;
                auto run = [&] {
                    w.load(s);
                    set_area(w.out.impact_area_, 1, nx - 1, 1, ny - 1);
                    set_area(w.out.relax_area_, 1, nx - 1, 1, ny - 1);
                    dirty_stack();
                    for (int k = 0; k < 12; k++) {
                        ss::RelaxTerrain(&w.out, w.grid, &w.body, w.par,
                                         p.tol);
                        for (int a = 0; a < 2; a++)
                            for (int b = 0; b < 2; b++)
                                w.out.impact_area_[a][b] =
                                    w.out.relax_area_[a][b];
                    }
                    R->count("runs");
                    return hash_st(w.read());
                };
                clean("rim", [&] { ch.reset(); ch.prefix.clear();
                    return run(); });
                explore(1, 60, [&] { R->distinct("outcomes", run()); });
                ch.prefix.clear();
            }
    }
}

// walls, soil and carried soil two cells away from the border
static void corners_of_grid() {
    for (auto [hx, hy] : {std::pair{3, 5}, {5, 3}, {4, 4}}) {
        WP p; p.hx = hx; p.hy = hy; p.hz = 20;
        World w(p, frames()[hx % 3]);
        int nx = 2 * hx + 1, ny = 2 * hy + 1;
        std::vector<Col> src = {
            col1(2, 0, 0, 1), col1(2, 2, -1, 0, 2), col1(-1, 0, 0, 1, 4),
            col1(-1, 2, 0, 1, 3), col2(3, 0, 0, 1, 3, 2, 3, 0),
            col2(-2, 2, -1, 0, 4, 2, 3, 2), col2(2, 0, 1, 2, 2, 4, 5, 2)};
        for (int i = 2; i < nx - 2; i++) for (int j = 2; j < ny - 2; j++)
            for (size_t c = 0; c < src.size(); c++)
                for (int around = 0; around < 4; around++) {
                    if (i > 3 && i < nx - 4 && j > 3 && j < ny - 4) continue;
                    if (!R->next()) continue;
                    St s = w.empty(0);
                    s.at(i, j) = src[c];
                    // walls around, inside of the margin of two cells
                    for (int d = 0; d < 8 && around; d++) {
                        int x = i + ref::DX[d], y = j + ref::DY[d];
                        if (x < 2 || y < 2 || x >= nx - 2 || y >= ny - 2)
                            continue;
                        s.at(x, y) = around == 1 ? col1(0, 0, 0, 1) :
                            around == 2 ? col1(-1, 2, 0, 2, 1) :
                            col2(-1, 0, -1, 0, 1, 1, 3, 0);
                    }
                    auto_entries(&s);
                    path = st_str(s);
                    R->describe = text;
                    auto run = [&] {
                        w.load(s);
                        for (auto a : {&w.out.impact_area_, &w.out.relax_area_,
                                       &w.out.body_area_})
                            set_area(*a, 1, nx - 1, 1, ny - 1);
                        dirty_stack();
                        ss::MoveIntersectingCells(&w.out, w.grid, &w.body,
                                                  p.tol);
                        ss::RelaxTerrain(&w.out, w.grid, &w.body, w.par,
                                         p.tol);
                        ss::RelaxBodySoil(&w.out, w.grid, &w.body, w.par,
                                          p.tol);
                        R->count("runs");
                        std::uint64_t h = hash_st(w.read());
                        // the body moves one cell along its margin
                        V3 pos = w.body.pos_, ori = w.body.ori_;
                        int dx = i <= hx ? 1 : -1, dy = j <= hy ? 1 : -1;
                        pos[0] += dx * p.cxy; pos[1] += dy * p.cxy;
                        for (int l = 0; l < 4; l++) {
                            auto o = w.out.body_[l];
                            for (auto& r : w.out.body_[l])
                                std::fill(r.begin(), r.end(), 0.0f);
                            for (int x = 2; x < nx - 2; x++)
                                for (int y = 2; y < ny - 2; y++) {
                                    int u = x + dx, v = y + dy;
                                    if (u >= 2 && v >= 2 && u < nx - 2 &&
                                        v < ny - 2)
                                        w.out.body_[l][u][v] = o[x][y];
                                }
                        }
                        ss::UpdateBodySoil(&w.out, pos, ori, w.grid, &w.body,
                                           p.tol);
                        w.body.pos_ = w.pose.pos;
                        return mix(h, hash_st(w.read()));
                    };
                    clean("corner", [&] { ch.reset(); ch.prefix.clear();
                        return run(); });
                    explore(1, 150, [&] { R->distinct("outcomes", run()); });
                    ch.prefix.clear();
                }
    }
}

// construction, noise, checks and outputs
static void interface() {
    namespace fs = std::filesystem;
    fs::path root = fs::absolute(R->arg("--tmp", ".")) /
        ("safety" + std::to_string(R->shard()));
    fs::create_directories(root / "soil_simulator");
    fs::create_directories(root / "results");
    fs::path old = fs::current_path();
    fs::current_path(root);
    int cases = 0;
    for (int hx = 1; hx <= 12; hx++)
        for (int hy : {1, 2, 7, 13})
            for (int pol = 0; pol < 2; pol++) {
                if (!R->next()) continue;
                cases++;
                WP p; p.hx = hx; p.hy = hy; p.hz = 6;
                p.cxy = pol ? 0.25f : 0.1f;
                path = "grid " + std::to_string(hx) + "," + std::to_string(hy);
                R->describe = text;
                clean("interface", [&] {
                    ch.policy = pol + 5; ch.reset(); ch.prefix.clear();
                    dirty_stack();
                    ss::Grid g = make_grid(p);
                    ss::SimOut o(g);
                    ss::SoilDynamics sd;
                    sd.Init(&o, g, 0.4f);
                    float c = p.cxy;
                    ss::Bucket b({0, 0, 0}, {0, 0, 0}, {0, 0, -c},
                                 {2 * c, 0, -c}, c);
                    ss::Blade l({0, 0, 0}, {0, 0, 0}, {0, 0, -c},
                                {c, 0, c}, c);
                    sd.Check(&o, 0, g, p.tol);
                    std::uint64_t h = 1;
                    if (cases <= 2) {
                        sd.WriteOutputs(&o, g, &b);
                        sd.WriteOutputs(&o, g, &l);
                        for (auto& e : fs::directory_iterator("results")) {
                            std::ifstream f(e.path());
                            std::string s((std::istreambuf_iterator<char>(f)),
                                          std::istreambuf_iterator<char>());
                            h ^= std::hash<std::string>()(
                                e.path().filename().string() + s);
                        }
                        for (auto& e : fs::directory_iterator("results"))
                            fs::remove(e.path());
                    }
                    for (auto& r : o.terrain_) for (float v : r)
                        h = mix(h, std::lround(v / p.cz) + 900);
                    for (auto& v : o.body_) for (auto& r : v)
                        for (float x : r) h = mix(h, x != 0);
                    for (auto& v : o.body_soil_) for (auto& r : v)
                        for (float x : r) h = mix(h, x != 0);
                    for (int a = 0; a < 2; a++) for (int k = 0; k < 2; k++) {
                        h = mix(h, o.relax_area_[a][k]);
                        h = mix(h, o.body_area_[a][k]);
                        h = mix(h, o.impact_area_[a][k]);
                    }
                    h = mix(h, o.equilibrium_);
                    for (float v : b.pos_) h = mix(h, std::hash<float>()(v));
                    for (float v : b.ori_) h = mix(h, std::hash<float>()(v));
                    for (float v : l.ori_) h = mix(h, std::hash<float>()(v));
                    R->count("runs");
                    ch.policy = 0;
                    return h; });
            }
    fs::current_path(old);
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    if (R->section("borders")) borders();
    if (R->section("cycles")) cycles();
    if (R->section("rim")) rim();
    if (R->section("corners")) corners_of_grid();
    if (R->section("interface")) interface();
    return r.finish();
}
