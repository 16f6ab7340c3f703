// C10: soil carried by the body follows its motion (UpdateBodySoil) on every
// small arrangement of walls around the destination.
#include "follow.hpp"
using namespace mc;
std::mc_mt19937 soil_simulator::rng;

static Runner* R;
static St cur; static WP curp; static Pose cf, ct;
static std::string text() {
    std::ostringstream o;
    auto pose = [&](const Pose& q) {
        o << "(" << q.pos[0] << "," << q.pos[1] << "," << q.pos[2] << ";"
          << q.ori[0] << "," << q.ori[1] << "," << q.ori[2] << ","
          << q.ori[3] << ")"; };
    o << "cell " << curp.cxy << "x" << curp.cz << " pose ";
    pose(cf); o << " -> "; pose(ct); o << " walls " << st_str(cur);
    return o.str();
}
struct Carried { int ind, i, j, top; double h; };   // in the old pose
static int amb = 0;

static void run(World& w, const Pose& from, const Pose& to, const St& walls,
                const std::vector<Carried>& rec, const char* key) {
    cur = walls; curp = w.p; cf = from; ct = to;
    w.set_pose(from);
    St s = walls;
    w.load(s);
    w.set_pose(from);
    for (auto& r : rec) {
        D3 b = to_body(from, cell_centre(w.p, r.i, r.j,
            r.top * double(w.p.cz)));
        ss::body_soil e;
        e.ind = r.ind; e.ii = r.i; e.jj = r.j;
        e.x_b = b[0]; e.y_b = b[1]; e.z_b = b[2];
        e.h_soil = r.h * w.p.cz;
        w.out.body_soil_pos_.push_back(e);
        // soil layers still at the previous place of the body
        w.out.body_soil_[r.ind][r.i][r.j] = r.top * w.p.cz;
        float u = w.out.body_soil_[r.ind + 1][r.i][r.j];
        if (u == 0.0f) u = r.top * w.p.cz;
        w.out.body_soil_[r.ind + 1][r.i][r.j] = u + r.h * w.p.cz;
    }
    auto rec0 = records_of(w.out);
    long nw = n_warning;
    run_default([&] {
        ss::UpdateBodySoil(&w.out, to.pos, to.ori, w.grid, &w.body, w.p.tol);
    });
    R->count("runs");
    int a = 0;
    std::string m = check_follow(w.p, from, to, walls, rec0, w.out, w.body,
                                 n_warning - nw, &a);
    R->count("ambiguous_records", a);
    std::uint64_t h = hash_st(walls);
    for (auto& r : rec) h = mix(h, r.ind * 1000003 + r.i * 1009 + r.j * 31 +
                                (long)(r.h * 100));
    for (float v : to.pos) h = mix(h, std::hash<float>()(v));
    for (float v : to.ori) h = mix(h, std::hash<float>()(v));
    R->distinct("worlds", h);
    R->distinct("outcomes", hash_st(w.read()));
    if (!m.empty()) R->fail(key, m);
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    bool th = r.thorough();
    WP p; p.hx = 6; p.hy = 5; p.hz = 30;
    WP p2 = p; p2.cxy = 0.25f; p2.cz = 0.2f;
    World w1(p), w2(p2);
    // motions in cells (X, Y, Z) of different octants, and rotations
    struct Move { double x, y, z; V3 ori; };
    std::vector<Move> mv;
    for (double z : {0.0, 0.3, -1.0})
        for (auto [x, y] : std::vector<std::pair<double, double>>{
            {1.2, 0.3}, {1.2, -0.3}, {-1.2, 0.3}, {-1.2, -0.3}, {0.3, 1.2},
            {-0.3, 1.2}, {0.3, -1.2}, {-0.3, -1.2}, {0.8, 0.7}, {-0.7, 0.8},
            {2, 0}, {0, -2}, {0.2, 0.1}})
            mv.push_back({x, y, z, {1, 0, 0, 0}});
    for (auto& e : {euler(20, 0, 0), euler(-25, 0, 0), euler(0, 20, 0),
                    euler(0, -15, 5), euler(40, 10, -10)})
        mv.push_back({0.4, 0.2, 0.1, e});
    auto after = [&](const World& w, const Pose& f, const Move& m) {
        Pose t;
        t.pos = {float(f.pos[0] + m.x * w.p.cxy), float(f.pos[1] + m.y *
            w.p.cxy), float(f.pos[2] + m.z * w.p.cz)};
        if (m.ori[0] == 1 && f.ori[0] == 1) t.ori = {1, 0, 0, 0};
        else if (m.ori[0] == 1) t.ori = f.ori;
        else t.ori = m.ori;
        return t;
    };
    // walls around the destination of a record: `k` cells above its base
    struct Wall { int off, l; };
    struct Target { int i, j, z; bool ok; };
    auto dest = [&](const World& w, const Pose& f, const Pose& t, int i, int j,
                    int top) {
        D3 b = to_body(f, cell_centre(w.p, i, j, top * double(w.p.cz)));
        D3 n = to_world(t.pos, t.ori, b);
        Target q;
        q.i = std::lround(n[0] / double(w.p.cxy) + w.p.hx);
        q.j = std::lround(n[1] / double(w.p.cxy) + w.p.hy);
        q.z = std::lround(n[2] / double(w.p.cz));
        q.ok = q.i > 1 && q.j > 1 && q.i < w.nx() - 2 && q.j < w.ny() - 2;
        return q;
    };
    // kinds of columns: one wall with a top `off` from the base, or two walls
    struct Kind { int o1, l1, o2; };   // o2 = 99: one wall only
    std::vector<Kind> kinds;
    for (int o : {0, 1, -1, 2, -2, 3, -4})
        for (int l = 0; l < 4; l += 2) kinds.push_back({o, l, 99});
    for (auto [a, b] : std::vector<std::pair<int, int>>{
        {0, 3}, {-3, 0}, {-1, 1}, {2, 5}, {-4, -2}, {-3, 2}, {-2, 3}})
        for (int l = 0; l < 4; l += 2) kinds.push_back({a, l, b});
    auto place = [&](St* s, int i, int j, int z, const Kind& k) {
        Col c; c.t = s->at(i, j).t;
        auto set = [&](int l, int top) {
            c.b[l] = top - 1; c.b[l + 1] = top;
        };
        set(k.l1, z + k.o1);
        if (k.o2 != 99) set(2 - k.l1, z + k.o2);
        s->at(i, j) = c;
    };
    auto frames0 = frames();
    if (R->section("single")) {
        // one record, one column with a wall at every place
        R->describe = text;
        for (size_t m = 0; m < mv.size(); m++)
            for (size_t f = 0; f < frames0.size(); f++) {
                if (!R->next()) continue;
                for (World* w : {&w1, &w2}) {
                    Pose from = frames0[f];
                    Pose to = after(*w, from, mv[m]);
                    for (int ind = 0; ind < 4; ind += 2) {
                    auto d = dest(*w, from, to, 6, 5, 4);
                    if (!d.ok) continue;
                    run(*w, from, to, w->empty(-20),
                        {{ind, 6, 5, 4, 2}}, "single");      // no wall at all
                    for (int c = 0; c < 9; c++)
                        for (auto& k : kinds) {
                            St s = w->empty(-20);
                            place(&s, d.i + c % 3 - 1, d.j + c / 3 - 1, d.z, k);
                            run(*w, from, to, s, {{ind, 6, 5, 4, 3}},
                                "single");
                        }
                    }
                }
            }
    }
    if (R->section("distant")) {
        // the only walls are far above or below, for all sizes of cells
        R->describe = text;
        WP q[5];
        const float size[5][2] = {{0.1f, 0.1f}, {0.05f, 0.02f}, {1.0f, 0.5f},
            {2.0f, 2.0f}, {8.0f, 4.0f}};
        std::vector<std::unique_ptr<World>> ws;
        for (int k = 0; k < 5; k++) {
            q[k] = p; q[k].cxy = size[k][0]; q[k].cz = size[k][1];
            q[k].tol = p.tol * std::max(1.0f, size[k][1]);
            ws.push_back(std::make_unique<World>(q[k]));
        }
        for (size_t m = 0; m < mv.size(); m++)
            for (int k = 0; k < 5; k++) {
                if (!R->next()) continue;
                World& w = *ws[k];
                Pose from = {{0, 0, 0}, {1, 0, 0, 0}};
                Pose to = after(w, from, mv[m]);
                auto d = dest(w, from, to, 6, 5, 4);
                if (!d.ok) continue;
                for (int c = 0; c < 9; c++)
                    for (int o1 : {-29, -20, -13, -7, 6, 12, 19, 24})
                        for (int o2 : {99, -24, -16, 9, 22}) {
                            St s = w.empty(-28);
                            auto in = [&](int o) {
                                return d.z + o <= 29 && d.z + o >= -26; };
                            if (!in(o1) || (o2 != 99 && !in(o2))) continue;
                            place(&s, d.i + c % 3 - 1, d.j + c / 3 - 1, d.z,
                                  {o1, (c + k) % 2 * 2, 99});
                            if (o2 != 99) {
                                int e = (c + 4) % 9;
                                place(&s, d.i + e % 3 - 1, d.j + e / 3 - 1,
                                      d.z, {o2, c % 2 * 2, 99});
                            }
                            run(w, from, to, s, {{0, 6, 5, 4, 2}}, "distant");
                        }
            }
    }
    if (R->section("pair")) {
        // two columns with walls
        R->describe = text;
        for (size_t m = 0; m < mv.size(); m++)
            for (size_t k1 = 0; k1 < kinds.size(); k1++) {
                if (!R->next()) continue;
                World& w = (m + k1) % 2 ? w2 : w1;
                Pose from = frames0[(m + k1) % frames0.size()];
                Pose to = after(w, from, mv[m]);
                auto d = dest(w, from, to, 6, 5, 4);
                if (!d.ok) continue;
                for (int c = 0; c < 9; c++)
                    for (int c2 = 0; c2 < 9; c2++) {
                        if (c2 == c) continue;
                        for (size_t k2 = 0; k2 < kinds.size(); k2++) {
                            if (!th && (k2 + c + c2) % 3) continue;
                            St s = w.empty(-20);
                            place(&s, d.i + c % 3 - 1, d.j + c / 3 - 1, d.z,
                                  kinds[k1]);
                            place(&s, d.i + c2 % 3 - 1, d.j + c2 / 3 - 1, d.z,
                                  kinds[k2]);
                            run(w, from, to, s, {{k2 % 2 ? 2 : 0, 6, 5, 4, 1}},
                                "pair");
                        }
                    }
            }
    }
    if (R->section("order")) {
        // every subset of the nine cells holds a wall near the base: the
        // order of exploration decides
        R->describe = text;
        for (size_t m = 0; m < mv.size(); m++)
            for (size_t f = 0; f < frames0.size(); f++) {
                if (!R->next()) continue;
                World& w = (m + f) % 2 ? w2 : w1;
                Pose from = frames0[f];
                Pose to = after(w, from, mv[m]);
                auto d = dest(w, from, to, 6, 5, 4);
                if (!d.ok) continue;
                for (int sub = 1; sub < 512; sub++) {
                    for (int far = 0; far < 2; far++) {
                        St s = w.empty(-20);
                        for (int c = 0; c < 9; c++)
                            if (sub >> c & 1)
                                place(&s, d.i + c % 3 - 1, d.j + c / 3 - 1,
                                      d.z, {far ? -2 - (c * 5 + sub) % 7 :
                                      (c % 2 ? 0 : 1) - (sub % 3 == 0),
                                      c % 2 * 2, 99});
                        run(w, from, to, s, {{0, 6, 5, 4, 2}}, "order");
                    }
                }
            }
    }
    if (R->section("amounts")) {
        // several records with any amounts landing on the same walls
        R->describe = text;
        std::vector<double> amt = {0, 0.85, 0.95, 1, 1.05, 1.4, 2, 2.45, 2.6,
            5};
        int n = amt.size();
        for (int q = 0; q < n * n * n; q++) {
            if (!R->next()) continue;
            for (size_t m = 0; m < mv.size(); m += 5) {
                World& w = (q + m) % 2 ? w2 : w1;
                Pose from = frames0[(q + m) % frames0.size()];
                Pose to = after(w, from, mv[m]);
                auto d = dest(w, from, to, 6, 5, 4);
                if (!d.ok) continue;
                St s = w.empty(-20);
                for (int c = 0; c < 9; c++)
                    place(&s, d.i + c % 3 - 1, d.j + c / 3 - 1, d.z,
                          kinds[(c * 5 + q) % kinds.size()]);
                double a = amt[q % n], b = amt[q / n % n], c = amt[q / n / n];
                run(w, from, to, s, {{0, 6, 5, 4, a}, {0, 6, 5, 4, b},
                    {2, 6, 5, 6, c}, {2, 7, 5, 4, a}, {0, 6, 6, 5, c}},
                    "amounts");
            }
        }
    }
    if (R->section("sweep")) {
        // a plate moved rigidly: soil lands on the plate wherever it goes
        R->describe = text;
        for (size_t f = 0; f < frames0.size(); f++)
            for (int x = -4; x <= 4; x++) {
                if (!R->next()) continue;
                for (int y = -4; y <= 4; y++) for (int z = -4; z <= 4; z++)
                for (int ox : {-3, 0, 2}) {
                    World& w = (x + y) % 2 ? w2 : w1;
                    Pose from = frames0[f];
                    Pose to = from;
                    to.pos[0] += x * 0.37f * w.p.cxy;
                    to.pos[1] += y * 0.37f * w.p.cxy;
                    to.pos[2] += z * 0.5f * w.p.cz;
                    St s = w.empty(-20);
                    auto d = dest(w, from, to, 6 + ox, 5, 3);
                    for (int i = 0; i < w.nx(); i++)
                        for (int j = 0; j < w.ny(); j++)
                            place(&s, i, j, d.z, {(i + j) % 3 - 1, 0, 99});
                    run(w, from, to, s, {{0, 6 + ox, 5, 3, 1},
                        {0, 6 + ox, 6, 3, 2}, {0, 5 + ox, 4, 4, 3}}, "sweep");
                }
            }
    }
    return r.finish();
}
