// Gating of the updates (C13) and isolation of the simulations (C18).
#include "step.hpp"
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
std::mc_mt19937 soil_simulator::rng;

static Runner* R;
static std::string path;
static std::string text() { return path; }

static V3 quat(double angle, D3 axis) {          // degrees
    double h = angle * std::numbers::pi / 360, n = std::sqrt(
        axis[0]*axis[0] + axis[1]*axis[1] + axis[2]*axis[2]);
    double s = std::sin(h) / n;
    return {float(std::cos(h)), float(axis[0]*s), float(axis[1]*s),
            float(axis[2]*s)};
}
static D4 qmul(const D4& a, const D4& b) {
    return {a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3],
            a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
            a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1],
            a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]};
}
static V3 f4(const D4& q) {
    return {float(q[0]), float(q[1]), float(q[2]), float(q[3])};
}

// ------------------------------------------------------------------- C13
struct Shape { const char* name; V3 j, b, t; float w; };
static std::vector<Shape> shapes() {
    return {
        {"prism", {0, 0, 0}, {0, 0, -0.3f}, {0.4f, 0, -0.32f}, 0.31f},
        {"offset", {-0.5f, 0.1f, 0.2f}, {-0.45f, 0.1f, -0.3f},
         {0.3f, 0.1f, -0.2f}, 0.45f},
        {"joint far", {0.9f, 0, 0.8f}, {0, 0, 0.05f}, {0.2f, 0, 0}, 0.1f},
        {"base far", {0.05f, 0, 0}, {0.1f, 0, -1.1f}, {0.2f, 0, 0}, 0.1f},
        {"teeth far", {0.05f, 0, 0}, {0, 0, 0.1f}, {1.2f, 0, 0.1f}, 0.1f},
        {"wide", {0, 0, 0}, {0, 0, -0.1f}, {0.1f, 0, -0.05f}, 2.0f},
        {"one side", {0, 1, 0}, {0, 1, -0.1f}, {0.1f, 1, -0.05f}, 0.4f},
    };
}
static bool gate(const WP& p, const ss::Grid& g, ss::Body* b, const V3& pos,
                 const V3& ori) {
    double m = corner_move(*b, pos, ori, p);
    if (std::fabs(m - 0.5) < 2e-4 || std::fabs(m - 2) < 1e-3) {
        R->count("at_the_threshold"); return false; }
    long w = n_warning;
    V3 p0 = b->pos_, o0 = b->ori_;
    ch.reset();
    bool r = ss::CheckBodyMovement(pos, ori, g, b);
    w = n_warning - w;
    R->count("runs");
    R->distinct("outcomes", mix(mix(r * 2 + (w > 0), std::uint64_t(m * 1e5)),
                                std::uint64_t(pos[0] * 1e6)));
    std::ostringstream o;
    o << "largest motion of a corner is " << m << " cells";
    if (r != (m >= 0.5)) R->fail("gate", (r ? "update carried out: " :
        "update refused: ") + o.str());
    if ((w > 0) != (m > 2)) R->fail("warning", (w ? "warning: " :
        "no warning: ") + o.str());
    if (b->pos_ != p0 || b->ori_ != o0)
        R->fail("pose", "checking the motion changed the recorded pose");
    if (!ch.taken.empty()) R->fail("draws", "checking the motion draws");
    return true;
}
static void gates() {
    struct G { float cxy, cz; };
    for (G c : {G{0.1f, 0.1f}, G{0.2f, 0.05f}, G{0.05f, 0.04f},
              G{6, 2.5f}, G{0.012f, 0.005f}})
    for (auto& sh : shapes())
    for (int blade = 0; blade < 2; blade++)
    for (int f = 0; f < 4; f++) {
        if (!R->next()) continue;
        WP p; p.cxy = c.cxy; p.cz = c.cz; p.hx = p.hy = 8; p.hz = 20;
        ss::Grid g = make_grid(p);
        // bodies of the size of the cells
        double sc = c.cxy > 1 ? 60 : c.cxy < 0.05f ? 0.1 : 1;
        auto f3 = [&](const V3& v) { return V3{float(v[0] * sc),
            float(v[1] * sc), float(v[2] * sc)}; };
        ss::Bucket bu({0, 0, 0}, f3(sh.j), f3(sh.b), f3(sh.t), sh.w * sc);
        ss::Blade bl({0, 0, 0}, f3(sh.j), f3(sh.b), f3(sh.t), sh.w * sc);
        ss::Body* b = blade ? static_cast<ss::Body*>(&bl) : &bu;
        V3 p0[] = {{0, 0, 0}, {0.2f, -0.13f, 0.4f}, {-0.31f, 0.2f, -0.1f},
                   {0.05f, 0.07f, 0.02f}};
        V3 o0[] = {{1, 0, 0, 0}, euler(30, 0, 0), euler(-70, 25, 10),
                   euler(170, -60, 45)};
        p0[f] = f3(p0[f]);
        b->pos_ = p0[f]; b->ori_ = o0[f];
        R->describe = text;
        auto say = [&](const std::string& w) {
            std::ostringstream o;
            o << (blade ? "blade" : "bucket") << " '" << sh.name << "' cell "
              << c.cxy << "x" << c.cz << " from pose " << f << " " << w;
            path = o.str(); };
        double u = std::min(c.cxy, c.cz);
        // translations in 26 directions
        for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++)
        for (int dz = -1; dz <= 1; dz++) {
            double n = std::sqrt(double(dx*dx + dy*dy + dz*dz));
            for (double d : {0.0, 0.3, 0.49, 0.497, 0.503, 0.51, 0.6, 0.8, 1.0,
                             1.5, 1.99, 2.01, 3.0}) {
                if (n == 0 && d > 0) continue;
                double k = n ? d * u / n : 0;
                V3 q = {float(p0[f][0] + dx * k), float(p0[f][1] + dy * k),
                        float(p0[f][2] + dz * k)};
                say("translation of " + std::to_string(d));
                gate(p, g, b, q, o0[f]);
            }
        }
        // rotations about each corner and the origin, the angle chosen such
        // that the fastest corner is just on either side of the threshold
        Corners cs = corners(*b, b->pos_, b->ori_);
        std::vector<D3> pivots = {cs.jr, cs.jl, cs.br, cs.bl, cs.tr, cs.tl,
                                  d3(p0[f])};
        std::vector<D3> axes = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0},
            {0, 1, 1}, {1, 0, 1}, {1, -1, 0.3}, {1, 1, 1}};
        for (size_t pv = 0; pv < pivots.size(); pv++)
            for (size_t ax = 0; ax < axes.size(); ax++)
                for (double tgt : {0.48, 0.495, 0.505, 0.52, 1.97, 2.03}) {
                    auto pose = [&](double ang, V3* pos, V3* ori) {
                        // world rotation v -> r^-1 v r about the pivot
                        D4 r = d4(quat(ang, axes[ax]));
                        *ori = f4(qmul(d4(o0[f]), r));
                        D3 rel{p0[f][0] - pivots[pv][0], p0[f][1] -
                               pivots[pv][1], p0[f][2] - pivots[pv][2]};
                        D3 m = rot(r, rel);
                        *pos = {float(pivots[pv][0] + m[0]),
                                float(pivots[pv][1] + m[1]),
                                float(pivots[pv][2] + m[2])};
                    };
                    double lo = 0, hi = 90;
                    V3 q, o;
                    for (int it = 0; it < 40; it++) {
                        double mid = 0.5 * (lo + hi);
                        pose(mid, &q, &o);
                        (corner_move(*b, q, o, p) < tgt ? lo : hi) = mid;
                    }
                    pose(hi, &q, &o);
                    say("rotation about pivot " + std::to_string(pv) +
                        " axis " + std::to_string(ax) + " target " +
                        std::to_string(tgt));
                    gate(p, g, b, q, o);
                    for (auto& v : o) v = -v;      // the same orientation
                    gate(p, g, b, q, o);
                }
        R->sample(path);
    }
}

// Sequences of small motions: the recorded pose changes only with a step
// carried out
static const std::vector<Move>& small_moves() {
    static std::vector<Move> a = {
        {0.3, 0, 0, 0, 0, 0}, {-0.3, 0, 0, 0, 0, 0}, {0, 0.35, 0, 0, 0, 0},
        {0, 0, -0.28, 0, 0, 0}, {0, 0, 0.55, 0, 0, 0}, {0, 0, 0, 0, 2.5, 0},
        {0, 0, 0, 0, 0, 0}};
    return a;
}
static void small_search(const Stage& st, const Sim& s, const At& at,
                         int depth) {
    if (!depth) return;
    size_t keep = path.size();
    for (size_t m = 0; m < small_moves().size(); m++) {
        At to = at.go(small_moves()[m], st.unit);
        if (!st.allowed(s, to)) continue;
        path.resize(keep);
        path += " " + std::to_string(m);
        double d = oriented(*s.body()) ?
            corner_move(*s.body(), to.pos(), to.ori(), st.sc.p) : 9;
        if (std::fabs(d - 0.5) < 1e-3) continue;
        Sim n = s;
        ss::SoilDynamics sd;
        bool r = false;
        run_default([&] { r = n.step(&sd, to.pos(), to.ori(), st.grid, st.par,
                                     st.sc.p.tol); }, depth + m);
        R->count("runs");
        R->distinct("outcomes", bits(n));
        if (r != (d >= 0.5))
            R->fail("gate", std::string(r ? "step carried out" :
                "step refused") + " although a corner is " +
                std::to_string(d) + " cells from the last update");
        if (!r) {
            R->count("refused");
            std::string e = same_bits(s, n);
            if (!e.empty()) R->fail("refused", "a refused step changed the "
                                    "state: " + e);
            if (!ch.taken.empty())
                R->fail("draws", "a refused step consumes random draws");
        } else if (n.body()->pos_ != to.pos() || n.body()->ori_ != to.ori()) {
            R->fail("pose", "the pose of the step carried out was not "
                    "recorded exactly");
        }
        small_search(st, n, to, depth - 1);
    }
    path.resize(keep);
}
static void accumulate() {
    auto sc = scenes(false);
    for (auto& s : sc) {
        Stage st(s);
        for (int k : {-1, 1, 4, 7})
            for (size_t m = 0; m < small_moves().size(); m++) {
                if (!R->next()) continue;
                R->describe = text;
                Sim sim = st.fresh();
                At at = s.start;
                ss::SoilDynamics sd;
                path = "scene " + s.name + " script " + std::to_string(k) +
                    " small motions";
                if (k < 0) {
                    // the first update of a body
                    if (m) continue;
                    bool r = false;
                    run_default([&] { r = sim.step(&sd, at.pos(), at.ori(),
                        st.grid, st.par, s.p.tol); });
                    if (!r || sim.body()->pos_ != at.pos())
                        R->fail("first", "the first step was refused");
                }
                for (int n = -1; n < k; n++) {
                    if (n >= 0) at = at.go(s.script[n], st.unit);
                    run_default([&] { sim.step(&sd, at.pos(), at.ori(),
                        st.grid, st.par, s.p.tol); }, k);
                }
                At to = at.go(small_moves()[m], st.unit);
                if (!st.allowed(sim, to)) continue;
                // first motion fixed by the case
                double d = corner_move(*sim.body(), to.pos(), to.ori(), s.p);
                path += " " + std::to_string(m);
                Sim n = sim;
                bool r = false;
                run_default([&] { r = n.step(&sd, to.pos(), to.ori(), st.grid,
                                             st.par, s.p.tol); });
                if (std::fabs(d - 0.5) > 1e-3 && r != (d >= 0.5))
                    R->fail("gate", "first small motion of " +
                            std::to_string(d) + " cells");
                small_search(st, n, to, R->thorough() ? 5 : 3);
                R->sample(path);
            }
    }
}

// ------------------------------------------------------------------- C18
// A simulation driven one step at a time.  Its draws only depend on itself.
struct Driver {
    Stage st;
    Sim s;
    At at;
    int n = -1, from, pol;
    ss::SoilDynamics own;
    Driver(const Scene& sc, int f, int p)
        : st(sc), s(st.fresh()), at(sc.start), from(f), pol(p) {}
    // the next step; the digest of the state after it
    std::uint64_t go(ss::SoilDynamics* sd) {
        auto& sc = st.sc;
        if (n >= 0) at = at.go(sc.script[(from + n) % sc.script.size()],
                               st.unit);
        n++;
        if (!st.allowed(s, at)) return 3;
        bool r = false;
        V3 pos = at.pos(), ori = at.ori();
        run_default([&] { r = s.step(sd, pos, ori, st.grid, st.par,
                                     sc.p.tol); }, pol + n);
        std::uint64_t h = mix(bits(s), r);
        for (int a : ch.arity) h = mix(h, a);
        // the arguments are untouched
        ss::Grid g = make_grid(sc.p);
        ss::SimParam q = make_param(sc.p);
        if (pos != at.pos() || ori != at.ori() || g.vect_x_ != st.grid.vect_x_
            || g.vect_y_ != st.grid.vect_y_ || g.vect_z_ != st.grid.vect_z_ ||
            g.cell_size_z_ != st.grid.cell_size_z_ ||
            g.cell_size_xy_ != st.grid.cell_size_xy_ ||
            g.half_length_x_ != st.grid.half_length_x_ ||
            g.half_length_y_ != st.grid.half_length_y_ ||
            g.half_length_z_ != st.grid.half_length_z_ ||
            q.repose_angle_ != st.par.repose_angle_ ||
            q.max_iterations_ != st.par.max_iterations_ ||
            q.cell_buffer_ != st.par.cell_buffer_) return 1;
        const ss::Body* b = s.body();
        if (b->width_ != sc.width || b->j_pos_init_ != sc.j ||
            b->b_pos_init_ != sc.b || b->t_pos_init_ != sc.t) return 2;
        return h;
    }
};

// Runs `f` in a process where the simulator never ran; returns what it wrote
static std::vector<std::uint64_t> forked(
    const std::function<std::vector<std::uint64_t>()>& f
) {
    int fd[2];
    if (pipe(fd)) return {};
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        auto v = f();
        size_t n = v.size() * sizeof(std::uint64_t), o = 0;
        while (o < n) {
            ssize_t w = write(fd[1], reinterpret_cast<char*>(v.data()) + o,
                              n - o);
            if (w <= 0) break;
            o += w;
        }
        _exit(0);
    }
    close(fd[1]);
    std::vector<std::uint64_t> v;
    std::uint64_t h;
    size_t got = 0;
    char* q = reinterpret_cast<char*>(&h);
    ssize_t r;
    while ((r = read(fd[0], q + got, sizeof h - got)) > 0) {
        got += r;
        if (got == sizeof h) { v.push_back(h); got = 0; }
    }
    close(fd[0]);
    int stt;
    waitpid(p, &stt, 0);
    if (!WIFEXITED(stt) || WEXITSTATUS(stt)) v.push_back(777);
    return v;
}

// A whole use of the simulator: initialisation, gates, steps, checks and
// outputs with parameters of its own.  The digests of everything it gives.
struct Use {
    Scene sc;
    double amp = 0.2;
    int pol = 30;
    std::string name;
};
static std::vector<Use> uses(bool th) {
    std::vector<Use> v;
    auto base = scenes(false);
    auto add = [&](const std::string& n, const Scene& s, double amp = 0.2,
                   int pol = 30) {
        Use u; u.sc = s; u.amp = amp; u.pol = pol; u.name = n;
        v.push_back(u); };
    // the same scene in cells of another size: everything is scaled
    auto scaled = [&](Scene s, float cxy, float cz) {
        float k = cxy / s.p.cxy;
        for (auto* q : {&s.j, &s.b, &s.t}) for (auto& x : *q) x *= k;
        s.width *= k;
        s.start.x *= k; s.start.y *= k; s.start.z *= k;
        if (cz != cxy) s.p.hz = std::lround(s.p.hz * cxy / cz);
        s.p.cxy = cxy; s.p.cz = cz;
        return s; };
    Scene d = base[0];
    add("base", d);
    add("other draws", d, 0.2, 77);
    add("coarse", scaled(d, 0.2f, 0.2f));
    add("fine", scaled(d, 0.05f, 0.05f));
    add("flat cells", scaled(d, 0.1f, 0.05f));
    add("very flat cells", scaled(d, 0.2f, 0.05f));
    add("metres", scaled(d, 3.0f, 2.0f));
    add("millimetres", scaled(d, 0.008f, 0.005f));
    Scene s = d; s.p.hx = 11; add("long grid", s);
    s = d; s.p.hy = 10; add("wide grid", s);
    s = d; s.p.hz = 17; add("high grid", s);
    s = d; s.p.dh = 2; add("steep", s);
    s = d; s.p.maxit = 1; add("one iteration", s);
    s = d; s.p.maxit = 8; add("eight iterations", s);
    s = d; s.p.buffer = 4; add("buffer", s);
    s = d; s.p.tol = 1e-4f; add("tolerance", s);
    s = d; s.width *= 1.5f; add("wide bucket", s);
    s = d; s.t[0] *= 1.2f; add("long bucket", s);
    s = d; s.b[2] *= 0.8f; add("low bucket", s);
    s = d; s.start.yaw = 25; add("turned", s);
    s = d; s.start.x += 0.3 * s.p.cxy; add("shifted", s);
    s = d; s.terrain = 1; add("rough", s, 0.5);
    add("quiet noise", d, 0.0);
    add("negative noise", d, -0.3);
    for (size_t k = 1; k < base.size(); k++) add(base[k].name, base[k]);
    if (th) {
        auto all = scenes(true);
        for (size_t k = base.size(); k < all.size(); k++)
            add(all[k].name, all[k]);
        for (size_t k = 1; k < base.size(); k++) {
            auto c = base[k].p;
            add(base[k].name + " doubled", scaled(base[k], c.cxy * 2,
                                                  c.cz * 2));
        }
    }
    return v;
}
static std::uint64_t contents() {
    namespace fs = std::filesystem;
    std::map<std::string, std::string> f;
    for (auto& e : fs::directory_iterator("results")) {
        std::ifstream i(e.path());
        std::stringstream b;
        b << i.rdbuf();
        f[e.path().filename()] = b.str();
        fs::remove(e.path());
    }
    std::uint64_t h = 1;
    for (auto& [n, t] : f) {
        for (char c : n) h = mix(h, c);
        for (char c : t) h = mix(h, static_cast<unsigned char>(c));
    }
    return h;
}
// `depth` 0: only set up, 1: the first steps, 2: everything
static std::vector<std::uint64_t> play(const Use& u, int depth) {
    std::vector<std::uint64_t> v;
    Scene sc = u.sc;
    Stage st(sc);
    Sim s(sc, st.grid);
    ss::SoilDynamics sd;
    auto draws = [&] { std::uint64_t h = 5;
        for (int a : ch.arity) h = mix(h, a); return h; };
    long w0 = n_warning;
    // terrain, twice
    for (int k = 0; k < 2; k++) {
        run_default([&] { sd.Init(&s.out, st.grid, u.amp); }, u.pol);
        v.push_back(mix(bits(s), draws()));
    }
    fill_terrain(&s, sc);
    int volume = 0;
    for (auto& r : s.out.terrain_) for (float t : r)
        volume += std::lround(t / sc.p.cz);
    At at = sc.start;
    int n = depth == 0 ? 0 : depth == 1 ? 2 : 7;
    for (int k = 0; k < n; k++) {
        if (k) at = at.go(sc.script[k - 1], st.unit);
        // a small motion first, on either side of the threshold of the gate
        for (double e : {0.3, 0.45}) if (k) {
            V3 p = s.body()->pos_;
            p[k % 3] += e * st.unit;
            bool r = false;
            V3 o = s.body()->ori_;
            run_default([&] { r = s.step(&sd, p, o, st.grid, st.par,
                                         sc.p.tol); }, u.pol + k);
            v.push_back(mix(mix(bits(s), draws()), r));
        }
        if (!st.allowed(s, at)) break;
        bool r = false;
        run_default([&] { r = s.step(&sd, at.pos(), at.ori(), st.grid, st.par,
                                     sc.p.tol); }, u.pol + k);
        v.push_back(mix(mix(bits(s), draws()), r));
    }
    if (depth == 0) return v;
    for (int d : {0, 1, 0}) {
        bool a = ss::CheckVolume(&s.out, volume + d, st.grid,
                                 sc.p.tol);
        bool b = ss::CheckSoil(&s.out, sc.p.tol);
        sd.Check(&s.out, volume - d, st.grid, sc.p.tol);
        v.push_back(a * 2 + b);
        v.push_back(n_warning - w0);
    }
    if (depth == 1) return v;
    for (int k = 0; k < 2; k++) {
        if (s.is_blade) sd.WriteOutputs(&s.out, st.grid, &s.blade);
        else sd.WriteOutputs(&s.out, st.grid, &s.bucket);
        v.push_back(bits(s));
    }
    v.push_back(contents());
    // the elementary functions
    auto f = [&](const V3& q) {
        for (float x : q) { std::uint32_t b; std::memcpy(&b, &x, 4);
            v.push_back(b); } };
    auto ori = at.ori();
    f(ss::CalcNormal(sc.j, sc.b, sc.t));
    f(ss::CalcRotationQuaternion(ori, sc.t));
    f(ss::AngleToQuat({float(at.yaw), 0.3f, -0.2f}));
    f(ss::MultiplyQuaternion(ori, s.body()->ori_));
    f(ss::CalcBodyFramePos(3, 4, sc.p.cz, st.grid, s.body()));
    return v;
}
// Every ordered pair of uses (every history of two, in the thorough tier),
// the last one compared with the same use in a pristine process
static void history() {
    namespace fs = std::filesystem;
    fs::path root = fs::absolute(R->arg("--tmp", ".")) /
        ("h" + std::to_string(R->shard()));
    fs::create_directories(root / "soil_simulator");
    fs::create_directories(root / "results");
    if (chdir(root.c_str())) _exit(77);
    auto us = uses(R->thorough());
    const int n = us.size();
    for (int b = 0; b < n; b++) {
        if (!R->next()) continue;
        R->describe = text;
        path = "use '" + us[b].name + "' alone";
        auto want = forked([&] { return play(us[b], 2); });
        if (want.empty() || want.back() == 777)
            R->fail("crash", "the use crashed");
        for (auto h : want) R->distinct("outcomes", h);
        auto check = [&](const std::vector<std::pair<int, int>>& before) {
            path = "use '" + us[b].name + "' after";
            for (auto [a, d] : before)
                path += " '" + us[a].name + "' (" + std::to_string(d) + ")";
            auto got = forked([&] {
                for (auto [a, d] : before) play(us[a], d);
                return play(us[b], 2); });
            R->count("runs", 1 + before.size());
            R->count("histories");
            if (got != want) {
                size_t k = 0;
                while (k < got.size() && k < want.size() && got[k] == want[k])
                    k++;
                R->fail("history", "observation " + std::to_string(k) +
                        " of " + std::to_string(want.size()) +
                        " differs from the one in a pristine process");
            }
        };
        for (int a = 0; a < n; a++)
            for (int d = 0; d < 3; d++) check({{a, d}});
        // longer histories
        for (int a = 0; a < n; a++) for (int c = 0; c < n; c++)
            if (R->thorough() || (a * 5 + c * 3 + b) % 16 == 0)
                check({{a, 1}, {c, 1 + (a + c) % 2}});
        R->sample(path);
    }
    if (chdir("/")) _exit(77);
    fs::remove_all(root);
}

static void isolation() {
    auto sc = scenes(R->thorough());
    const int L = 5;
    // all interleavings of L steps of two simulations
    std::vector<std::vector<int>> inter;
    for (int m = 0; m < 1 << (2 * L); m++)
        if (__builtin_popcount(m) == L) {
            std::vector<int> v;
            for (int k = 0; k < 2 * L; k++) v.push_back(m >> k & 1);
            inter.push_back(v);
        }
    int step = R->thorough() ? 1 : 9;
    for (size_t a = 0; a < sc.size(); a++)
        for (size_t b = 0; b < sc.size(); b++)
            for (int from : {0, 3}) {
                if (!R->next()) continue;
                R->describe = text;
                auto alone = [&](size_t k, int pol) {
                    return forked([&, k, pol] {
                        Driver d(sc[k], from, pol);
                        std::vector<std::uint64_t> v;
                        for (int n = 0; n < L; n++) v.push_back(d.go(&d.own));
                        return v; });
                };
                auto ra = alone(a, 40), rb = alone(b, 90);
                for (auto h : ra) R->distinct("outcomes", h);
                path = "scene " + sc[a].name + " and scene " + sc[b].name +
                    " from " + std::to_string(from);
                for (auto& v : {ra, rb}) for (auto h : v) {
                    if (h == 1) R->fail("arguments", "a step changed its "
                                        "arguments");
                    if (h == 2) R->fail("shape", "a step changed the shape of "
                                        "its body");
                    if (h == 777) R->fail("crash", "a step crashed");
                }
                for (size_t w = (a * 7 + b) % step; w < inter.size(); w += step)
                {
                    auto& il = inter[w];
                    auto both = forked([&] {
                        Driver x(sc[a], from, 40), y(sc[b], from, 90);
                        ss::SoilDynamics shared;
                        std::vector<std::uint64_t> v;
                        for (int k : il) {
                            // one shared object, or the ones of the other
                            Driver& d = k ? y : x;
                            Driver& o = k ? x : y;
                            std::uint64_t other = bits(o.s);
                            v.push_back(d.go(w % 2 ? &shared : &o.own));
                            if (bits(o.s) != other) v.back() = 4;
                        }
                        return v; });
                    R->count("runs", 2 * L);
                    R->count("schedules");
                    std::string sch;
                    for (int k : il) sch += k ? 'B' : 'A';
                    path = "scene A " + sc[a].name + ", scene B " + sc[b].name
                        + " from " + std::to_string(from) + " schedule " + sch;
                    if (both.size() != il.size()) {
                        R->fail("crash", "the interleaved run crashed");
                        continue;
                    }
                    int na = 0, nb = 0;
                    for (size_t k = 0; k < il.size(); k++) {
                        auto want = il[k] ? rb[nb++] : ra[na++];
                        if (both[k] == 4)
                            R->fail("other", "a step changed the state of "
                                    "another simulation");
                        else if (both[k] != want) {
                            R->fail("isolation", "step " + std::to_string(k) +
                                    " of the schedule gives another result "
                                    "than the same step run alone");
                            break;
                        }
                    }
                    // the whole of A once more after everything
                }
                R->sample(path);
            }
    // the same step twice in a row, and again after others
}
static void repeat() {
    auto sc = scenes(R->thorough());
    for (auto& s : sc)
        for (int k = 0; k <= static_cast<int>(s.script.size()); k++) {
            if (!R->next()) continue;
            R->describe = text;
            path = "scene " + s.name + " script " + std::to_string(k) +
                " repeated step";
            Driver d(s, 0, 5);
            bool ok = true;
            for (int n = 0; n < k; n++) if (d.go(&d.own) == 3) ok = false;
            if (!ok) continue;
            for (auto& m : alphabet()) {
                At to = d.at.go(m, d.st.unit);
                if (!d.st.allowed(d.s, to)) continue;
                std::vector<Sim> out;
                std::vector<std::vector<int>> ar;
                for (int rep = 0; rep < 3; rep++) {
                    ss::SoilDynamics sd;
                    out.push_back(d.s);
                    long w = n_warning;
                    run_default([&] { out.back().step(&sd, to.pos(), to.ori(),
                        d.st.grid, d.st.par, s.p.tol); }, 6);
                    ar.push_back(ch.arity);
                    ar.back().push_back(n_warning - w);
                    R->count("runs");
                    R->distinct("outcomes", bits(out.back()));
                    if (rep && (ar[rep] != ar[0]))
                        R->fail("draws", "the same step makes other draws");
                    std::string e = rep ? same_bits(out[0], out[rep]) : "";
                    if (!e.empty()) R->fail("repeat", "the same step gives "
                                            "another result: " + e);
                }
            }
        }
}

// Long lives of a process: each operation again and again from the same state,
// hundreds or thousands of times, always with the result of the first time
static void endurance() {
    namespace fs = std::filesystem;
    auto sc = scenes(false);
    const int N = R->thorough() ? 40000 : 5000;
    struct Op { std::string name; int times;
                std::function<std::uint64_t(Driver&, int)> f; };
    auto draws = [] { std::uint64_t h = 5;
        for (int a : ch.arity) h = mix(h, a); return h; };
    std::vector<Op> ops = {
        {"step", N, [&](Driver& d, int) {
            Sim c = d.s;
            At to = d.at.go(d.st.sc.script[d.n % d.st.sc.script.size()],
                            d.st.unit);
            long w = n_warning;
            bool r = false;
            run_default([&] { r = c.step(&d.own, to.pos(), to.ori(), d.st.grid,
                d.st.par, d.st.sc.p.tol); }, 6);
            return mix(mix(mix(bits(c), draws()), r), n_warning - w); }},
        {"step of new objects", N, [&](Driver& d, int) {
            Sim c = d.s;
            ss::SoilDynamics sd;
            ss::Grid g = make_grid(d.st.sc.p);
            ss::SimParam q = make_param(d.st.sc.p);
            At to = d.at.go(d.st.sc.script[d.n % d.st.sc.script.size()],
                            d.st.unit);
            bool r = false;
            run_default([&] { r = c.step(&sd, to.pos(), to.ori(), g, q,
                d.st.sc.p.tol); }, 9);
            return mix(mix(bits(c), draws()), r); }},
        {"refused step", N, [&](Driver& d, int) {
            Sim c = d.s;
            V3 p = c.body()->pos_, o = c.body()->ori_;
            p[0] += 0.3 * d.st.unit;
            bool r = false;
            run_default([&] { r = c.step(&d.own, p, o, d.st.grid, d.st.par,
                d.st.sc.p.tol); }, 9);
            return mix(mix(bits(c), draws()), r); }},
        {"initialisation", N, [&](Driver& d, int) {
            Sim c = d.s;
            run_default([&] { d.own.Init(&c.out, d.st.grid, 0.3f); }, 31);
            return mix(bits(c), draws()); }},
        {"checks", N, [&](Driver& d, int k) {
            Sim c = d.s;
            int v = 0;
            for (auto& r : c.out.terrain_) for (float t : r)
                v += std::lround(t / d.st.sc.p.cz);
            for (auto& r : c.out.body_soil_pos_)
                v += std::lround(r.h_soil / d.st.sc.p.cz);
            // good and bad states in turn, with the same results every time
            std::uint64_t h = 1;
            for (int e : {0, 1}) {
                long w = n_warning;
                bool a = ss::CheckVolume(&c.out, v + e, d.st.grid,
                                         d.st.sc.p.tol);
                c.out.terrain_[1 + k % 2][2] += e * 0.3f * d.st.sc.p.cz;
                bool b = ss::CheckSoil(&c.out, d.st.sc.p.tol);
                c.out.terrain_[1 + k % 2][2] = d.s.out.terrain_[1 + k % 2][2];
                d.own.Check(&c.out, v + e, d.st.grid, d.st.sc.p.tol);
                h = mix(h, (a * 2 + b) * 100 + (n_warning - w));
            }
            return mix(bits(c), h); }},
        {"outputs", std::min(N, 3000), [&](Driver& d, int) {
            Sim c = d.s;
            if (c.is_blade) d.own.WriteOutputs(&c.out, d.st.grid, &c.blade);
            else d.own.WriteOutputs(&c.out, d.st.grid, &c.bucket);
            return mix(bits(c), contents()); }},
    };
    fs::path root = fs::absolute(R->arg("--tmp", ".")) /
        ("l" + std::to_string(R->shard()));
    fs::create_directories(root / "results");
    if (chdir(root.c_str())) _exit(77);
    for (auto& s : sc) for (int at : {1, 4}) for (auto& op : ops) {
        if (!R->next()) continue;
        R->describe = text;
        path = "scene " + s.name + " after " + std::to_string(at) +
            " steps: " + op.name + " " + std::to_string(op.times) + " times";
        auto got = forked([&] {
            Driver d(s, 0, 5);
            for (int n = 0; n < at; n++) if (d.go(&d.own) == 3) break;
            std::vector<std::uint64_t> v;
            for (int n = 0; n < op.times; n++) {
                v.push_back(op.f(d, n));
                if (v[0] != v.back()) break;
            }
            return v; });
        R->count("runs", got.size());
        R->count("long_lives");
        if (got.empty() || got.back() == 777 || got[0] == 777) {
            R->fail("crash", "a repeated operation crashed");
            continue;
        }
        R->distinct("outcomes", got[0]);
        for (size_t k = 1; k < got.size(); k++) if (got[k] != got[0]) {
            R->fail("long", "the same operation gives another result the " +
                    std::to_string(k + 1) + "-th time");
            break;
        }
        R->sample(path);
    }
    if (chdir("/")) _exit(77);
    fs::remove_all(root);
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    std::string P = r.arg("--prop", "C13");
    if (P == "C13") {
        if (r.section("gates")) gates();
        if (r.section("accumulate")) accumulate();
    }
    if (P == "C18") {
        // first, while this process is still pristine
        if (r.section("history")) history();
        if (r.section("long")) endurance();
        if (r.section("isolation")) isolation();
        if (r.section("repeat")) repeat();
        if (r.section("seed")) {
            for (auto& s : scenes(false)) {
                if (!r.next()) continue;
                r.describe = text;
                path = "scene " + s.name;
                Driver d(s, 0, 3);
                long n = seedings();
                for (int k = 0; k < 6; k++) d.go(&d.own);
                ss::SoilDynamics sd;
                ch.reset();
                sd.Init(&d.s.out, d.st.grid, 1.0f);
                r.count("runs", 7);
                if (seedings() != n)
                    r.fail("seed", "the simulator seeds, copies or creates a "
                           "generator");
            }
        }
    }
    return r.finish();
}
