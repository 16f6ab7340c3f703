// Symmetry and fairness.
//   --prop C21 : small worlds and their transformed twins (shifted in the
//                plane and in height, mirrored, transposed, wall layers
//                exchanged) have the same set of possible results; whole
//                histories shifted by whole cells evolve alike
//   --prop C22 : the exact distribution of the results over the complete tree
//                of draws is the one of uniformly distributed orders
#include "step.hpp"
using namespace mc;
std::mc_mt19937 soil_simulator::rng;

static Runner* R;
static St cur; static WP curp;
static std::string text() {
    std::ostringstream o;
    o << "cell " << curp.cxy << "x" << curp.cz << " dh=" << curp.dh << " "
      << st_str(cur);
    return o.str();
}
static const int* DX = ref::DX; static const int* DY = ref::DY;

enum Op { TERRAIN, SOIL, PUSH, PUSH_SOIL };
static const char* op_name[] = {"terrain relaxation", "relaxation of carried "
    "soil", "pushing of terrain", "pushing of carried soil"};

static void apply(Op op, World& w, const St& s, const ref::Area& a) {
    w.load(s);
    set_area(w.out.impact_area_, a.x0, a.x1, a.y0, a.y1);
    set_area(w.out.relax_area_, a.x0, a.x1, a.y0, a.y1);
    set_area(w.out.body_area_, a.x0, a.x1, a.y0, a.y1);
    w.out.equilibrium_ = true;
    switch (op) {
        case TERRAIN: ss::RelaxTerrain(&w.out, w.grid, &w.body, w.par,
                                       w.p.tol); break;
        case SOIL: ss::RelaxBodySoil(&w.out, w.grid, &w.body, w.par, w.p.tol);
            break;
        case PUSH: ss::MoveIntersectingBody(&w.out, w.p.tol); break;
        case PUSH_SOIL: ss::MoveIntersectingBodySoil(&w.out, w.grid, &w.body,
                                                     w.p.tol); break;
    }
    R->count("runs");
}

// ------------------------------------------------------------------- C21
struct Xf {
    std::string name;
    int di = 0, dj = 0, dz = 0;
    bool mx = false, my = false, tr = false, swap = false;
};
static std::pair<int, int> move(const Xf& f, const St& s, int i, int j) {
    i += f.di; j += f.dj;
    if (f.mx) i = s.nx - 1 - i;
    if (f.my) j = s.ny - 1 - j;
    if (f.tr) std::swap(i, j);
    return {i, j};
}
static Col move(const Xf& f, Col c) {
    for (int l = 0; l < 4; l += 2) {
        bool w = c.wall(l), q = c.soil(l);
        for (int k = l; k < l + 2; k++) {
            if (w) c.b[k] += f.dz;
            if (q) c.s[k] += f.dz;
        }
    }
    c.t += f.dz;
    if (f.swap) {
        std::swap(c.b[0], c.b[2]); std::swap(c.b[1], c.b[3]);
        std::swap(c.s[0], c.s[2]); std::swap(c.s[1], c.s[3]);
    }
    return c;
}
// `base` fills the cells which come from outside of the grid
static St move(const Xf& f, const St& s, int base) {
    St o;
    o.nx = f.tr ? s.ny : s.nx; o.ny = f.tr ? s.nx : s.ny;
    Col b; b.t = base + f.dz;
    o.c.assign(s.c.size(), b);
    for (int i = 0; i < s.nx; i++)
        for (int j = 0; j < s.ny; j++) {
            auto [x, y] = move(f, s, i, j);
            if (o.in(x, y)) o.at(x, y) = move(f, s.at(i, j));
        }
    for (auto& e : s.e) {
        auto [x, y] = move(f, s, e.i, e.j);
        o.e.push_back({f.swap ? 2 - e.ind : e.ind, x, y, e.h});
    }
    o.bad = s.bad;
    return o;
}
static ref::Area move(const Xf& f, const St& s, const ref::Area& a) {
    auto [x, y] = move(f, s, a.x0, a.y0);
    auto [u, v] = move(f, s, a.x1 - 1, a.y1 - 1);
    return {std::min(x, u), std::max(x, u) + 1, std::min(y, v),
            std::max(y, v) + 1};
}
static ref::Key result_key(const St& s, bool eq) {
    St t = s;
    t.e.erase(std::remove_if(t.e.begin(), t.e.end(), [](const Ent& e) {
        return e.h == 0; }), t.e.end());
    std::sort(t.e.begin(), t.e.end());
    auto k = ref::cols_key(t);
    ref::add_entries(&k, t);
    k.push_back(eq);
    return k;
}

static std::vector<Xf> transforms() {
    Xf a; a.name = "shifted in the plane"; a.di = 1; a.dj = -1;
    Xf b; b.name = "raised"; b.dz = 3;
    Xf b2; b2.name = "lowered"; b2.dz = -2;
    Xf c; c.name = "mirrored"; c.mx = true;
    Xf d; d.name = "transposed"; d.tr = true;
    Xf e; e.name = "with exchanged wall layers"; e.swap = true;
    Xf f; f.name = "raised, turned and with exchanged layers"; f.dz = 1;
    f.my = true; f.tr = true; f.swap = true; f.di = -1;
    return {a, b, b2, c, d, e, f};
}

struct Twin {        // worlds of a shape and of the transposed shape
    World w, t;
    Twin(const WP& p, const Pose& q) : w(p, q), t(flip(p), q) {}
    static WP flip(WP p) { std::swap(p.hx, p.hy); return p; }
};

static void compare(Op op, Twin& tw, const St& s, const ref::Area& a,
                    int base, const std::vector<Xf>& fs, long cap) {
    cur = s; curp = tw.w.p;
    R->describe = text;
    R->distinct("worlds", hash_st(s));
    auto results = [&](World& w, const St& x, const ref::Area& ar,
                       std::map<ref::Key, St>* o) {
        auto st = explore(-1, cap, [&] {
            apply(op, w, x, ar);
            St r = w.read();
            if (!r.bad.empty()) R->fail("height", r.bad);
            (*o)[result_key(r, op <= SOIL ? w.out.equilibrium_ : true)] = r;
        });
        R->count("choices", st.choices);
        if (st.capped) R->capped("tree");
        return !st.capped;
    };
    std::map<ref::Key, St> o;
    if (!results(tw.w, s, a, &o)) return;
    R->max("results_of_one_world", o.size());
    for (auto& [k, r] : o) R->distinct("outcomes", hash_st(r, false));
    for (auto& f : fs) {
        St x = move(f, s, base);
        std::map<ref::Key, St> y;
        if (!results(f.tr ? tw.t : tw.w, x, move(f, s, a), &y)) return;
        std::set<ref::Key> want;
        const St* miss = nullptr;
        for (auto& [k, r] : o) {
            auto q = result_key(move(f, r, base), k.back());
            want.insert(q);
            if (!y.count(q) && !miss) miss = &r;
        }
        if (miss) {
            R->fail("lost", std::string("a result of the ") + op_name[op] +
                    " is impossible once the scene is " + f.name + ": " +
                    st_str(*miss));
            continue;
        }
        for (auto& [k, r] : y)
            if (!want.count(k)) {
                R->fail("extra", std::string("a result of the ") +
                        op_name[op] + " is only possible once the scene is " +
                        f.name + ": " + st_str(r));
                break;
            }
    }
    std::ostringstream os;
    os << op_name[op] << ": " << o.size() << " results, "
       << fs.size() << " transformed twins; " << text();
    R->sample(os.str());
}

static void symmetry() {
    bool th = R->thorough();
    auto fs = transforms();
    WP p; p.hx = 3; p.hy = 4; p.hz = 40;
    WP p2 = p; p2.cxy = 0.25f; p2.cz = 0.2f; p2.dh = 2;
    Twin t1(p, frames()[1]), t2(p2, frames()[2]);
    const int X = 3, Y = 4;
    if (R->section("terrain")) {
        std::vector<Col> al = {
            col(0), col(-1), col(1), col1(0, 0, 1, 2), col1(0, 2, 0, 1),
            col1(-1, 0, 1, 2, 1), col1(-1, 2, -1, 0, 2),
            col2(0, 0, 0, 1, 0, 2, 3, 0), col2(-1, 2, -1, 0, 1, 2, 3, 1),
            col2(0, 2, 0, 1, 1, 2, 3, 0), col2(0, 0, 1, 2, 1, 4, 5, 2),
            col2(-1, 0, -1, 0, 2, 2, 3, 0), col1(1, 0, 1, 2, 1)};
        int n = al.size();
        for (int h = 2; h <= (th ? 7 : 5); h++)
        for (int d = 0; d < 4; d++) for (int e = 0; e < 4; e++)
        for (int k = 0; k < n * n; k++) {
            if (d == e) continue;
            if (!R->next()) continue;
            Twin& t = (h + k) % 2 ? t1 : t2;
            St s = t.w.empty(0);
            s.at(X, Y).t = h;
            s.at(X + DX[d], Y + DY[d]) = al[k % n];
            s.at(X + DX[e], Y + DY[e]) = al[k / n];
            auto_entries(&s);
            ref::Area a{2, 5, 3, 6};
            if (ref::unstable_cells(s, t.w.p.dh, a).size() > 2) {
                R->count("left_out_more_than_two_unstable");
                continue;
            }
            compare(TERRAIN, t, s, a, 0, th ? fs : std::vector<Xf>{
                fs[k % 7], fs[(k + 3) % 7], fs[(k + 5) % 7]}, 0);
        }
    }
    if (R->section("soil")) {
        std::vector<Col> al = {
            col(0), col(-3), col1(-1, 0, 2, 3), col1(-1, 2, 0, 1),
            col1(-2, 0, -1, 0, 1), col1(-2, 2, 1, 2, 1),
            col2(-3, 0, -1, 0, 1, 1, 2, 0), col2(-3, 2, -1, 0, 1, 3, 4, 1),
            col2(-3, 0, -2, -1, 0, 3, 5, 0), col2(-3, 2, -2, -1, 4, 3, 4, 1),
            col2(-2, 0, 0, 1, 0, 2, 3, 1), col1(-3, 0, -2, -1, 0),
            col2(-3, 2, -2, 0, 0, 1, 2, 0)};
        int n = al.size();
        for (int q = 2; q <= (th ? 6 : 4); q++)
        for (int sp = 0; sp < 2; sp++)
        for (int d = 0; d < 4; d++) for (int e = 0; e < 4; e++)
        for (int k = 0; k < n * n; k++) {
            if (d == e) continue;
            if (!R->next()) continue;
            Twin& t = (q + k) % 2 ? t1 : t2;
            St s = t.w.empty(-3);
            s.at(X + DX[d], Y + DY[d]) = al[k % n];
            s.at(X + DX[e], Y + DY[e]) = al[k / n];
            s.at(X, Y) = k % 3 ? col1(-3, 0, 0, 1, q) :
                col2(-3, 0, 0, 1, q, q + 1, q + 3, 0);
            // only the records of the source: one tree per record
            St bare = s;
            bare.e.clear();
            if (sp) bare.e = {{0, X, Y, 1}, {0, X, Y, q - 1}};
            else bare.e = {{0, X, Y, q}};
            compare(SOIL, t, bare, {2, 5, 3, 6}, -3, th ? fs :
                    std::vector<Xf>{fs[k % 7], fs[(k + 3) % 7],
                    fs[(k + 5) % 7]}, 0);
        }
    }
    std::vector<Col> rep = {
        col(0), col1(-1, 0, 0, 1), col1(0, 2, 0, 1, 1), col1(-3, 2, -1, 1),
        col2(-1, 2, 0, 1, 0, 2, 3, 1), col2(0, 0, 0, 1, 0, 2, 3, 0),
        col2(-4, 0, -2, -1, 0, 0, 1, 0)};
    if (R->section("push")) {
        std::vector<Col> src = {
            col1(2, 0, 0, 1), col1(2, 2, -1, 3), col1(1, 2, -2, 0, 2),
            col2(1, 2, 0, 1, 0, 3, 4, 1), col2(4, 0, 0, 1, 1, 4, 5, 1)};
        for (int k = 0; k < (th ? 480 : 64); k++) {
            if (!R->next()) continue;
            Twin& t = k % 2 ? t1 : t2;
            St s = t.w.empty(0);
            s.at(X, Y) = src[k % src.size()];
            int skip = k / 5 % 8;
            for (int d = 0; d < 8; d++)
                s.at(X + DX[d], Y + DY[d]) =
                    d == skip && k % 3 ? rep[k % 2] :
                    rep[1 + (d * (k + 1) + k / 7) % (rep.size() - 1)];
            auto_entries(&s);
            compare(PUSH, t, s, {2, 5, 3, 6}, 0, {fs[k % 7], fs[(k + 1) % 7],
                    fs[(k + 3) % 7]}, 0);
        }
    }
    if (R->section("push_soil")) {
        std::vector<Col> mid = {
            col(-4), col1(-4, 0, -2, 6), col1(-4, 2, 1, 2),
            col1(-4, 0, -1, 0, 1), col2(-4, 0, -2, -1, 0, 1, 2, 0),
            col2(-4, 2, -1, 0, 1, 2, 3, 1), col2(-4, 0, 0, 1, 0, 3, 4, 0),
            col2(-4, 2, -2, -1, 1, 1, 2, 0), col1(-4, 2, -3, -2, 0)};
        for (int k = 0; k < (th ? 480 : 64); k++) {
            if (!R->next()) continue;
            Twin& t = k % 2 ? t1 : t2;
            St s = t.w.empty(-4);
            int q = 3 + k % 3;
            s.at(X, Y) = col2(-4, 0, -1, 0, q, 2, 3, 0);
            s.e = {{0, X, Y, q}};
            int skip = k / 9 % 8;
            for (int d = 0; d < 8; d++) {
                s.at(X + DX[d], Y + DY[d]) = d == skip ? mid[k % 9] :
                    mid[(d * (k % 7 + 1) + k / 4) % 9];
                if (k % 4 == 0 && d != skip && d % 2)
                    s.at(X + DX[d], Y + DY[d]) = mid[1];
                s.at(X + 2 * DX[d], Y + 2 * DY[d]) =
                    (k + d) % 3 ? mid[1] : mid[(k + d) % 9];
            }
            compare(PUSH_SOIL, t, s, {2, 5, 3, 6}, -4, {fs[k % 7],
                    fs[(k + 1) % 7], fs[(k + 3) % 7]}, 0);
        }
    }
}

// Chains of columns: scenes with a single result, so that one run each is
// enough to compare the twins
static void one_result(Op op, Twin& tw, const St& s, const ref::Area& a,
                       int base, const std::vector<Xf>& fs) {
    cur = s; curp = tw.w.p;
    R->describe = text;
    auto result = [&](World& w, const St& x, const ref::Area& ar, int pol) {
        run_default([&] { apply(op, w, x, ar); }, pol);
        St r = w.read();
        if (!r.bad.empty()) R->fail("height", r.bad);
        return r;
    };
    St o = result(tw.w, s, a, 0);
    R->distinct("outcomes", hash_st(o, false));
    auto check = [&](const Xf* f, const St& r, int pol) {
        St e = f ? move(*f, o, base) : o;
        if (result_key(e, true) == result_key(r, true)) return;
        R->fail("chain", std::string("the ") + op_name[op] + (f ?
                " differs once the scene is " + f->name : std::string(" dep"
                "ends on the draws, policy ") + std::to_string(pol)) + ": " +
                st_str(r) + " instead of " + st_str(e));
    };
    check(nullptr, result(tw.w, s, a, 2), 2);
    int pol = 0;
    for (auto& f : fs)
        check(&f, result(f.tr ? tw.t : tw.w, move(f, s, base), move(f, s, a),
                         ++pol), pol);
}
static void chains() {
    bool th = R->thorough();
    auto fs = transforms();
    WP p; p.hx = 6; p.hy = 7; p.hz = 40;
    WP p2 = p; p2.cxy = 0.25f; p2.cz = 0.2f; p2.dh = 2;
    Twin t1(p, frames()[1]), t2(p2, frames()[2]);
    const int X = 6, Y = 7;
    if (R->section("far_push")) {
        // all blocked but a gap and, farther away, open terrain
        for (int src = 0; src < 4; src++)
        for (int k1 = 0; k1 < 8; k1++) for (int k2 = 0; k2 < 8; k2++) {
            if (!R->next()) continue;
            for (int d1 = 1; d1 <= 5; d1++) for (int d2 = d1; d2 <= 5; d2++)
            for (int gap = 0; gap < 4; gap++) {
                if (d1 == d2 && k1 == k2) continue;
                if (d1 == d2 && gap) continue;
                Twin& t = (k1 + d2) % 2 ? t1 : t2;
                St s = t.w.empty(0);
                for (int i = 1; i < s.nx - 1; i++)
                    for (int j = 1; j < s.ny - 1; j++)
                    s.at(i, j) = src % 2 ? col1(0, 0, -1, 2) : col1(0, 2, 0, 3, 1);
                Col& x = s.at(X, Y);
                x = src < 2 ? col1(3, 0, 0, 4) : col1(3, 2, -1, 2);
                Col& g = s.at(X + d1 * DX[k1], Y + d1 * DY[k1]);
                g = gap == 0 ? col1(0, 2, 1, 2, 1) : gap == 1 ?
                    col1(-1, 0, 0, 2) : gap == 2 ? col2(0, 2, 1, 2, 1, 4, 5, 0)
                    : col2(-1, 0, 1, 2, 0, 3, 4, 0);
                if (d1 == d2) g = col1(0, 0, -1, 2);
                s.at(X + d2 * DX[k2], Y + d2 * DY[k2]) = gap % 2 ?
                    col(-1) : col1(0, 0, 9, 10, 1);
                s.e.clear();
                auto_entries(&s);
                // walls below the terrain here would all be pushed
                for (int i = 0; i < s.nx; i++) for (int j = 0; j < s.ny; j++) {
                    Col& c = s.at(i, j);
                    if (&c == &x) continue;
                    int low = 99;
                    for (int l = 0; l < 4; l += 2)
                        if (c.wall(l)) low = std::min(low, c.b[l]);
                    if (low < c.t) c.t = low;
                }
                one_result(PUSH, t, s, {1, s.nx - 1, 1, s.ny - 1}, 0, th ? fs :
                    std::vector<Xf>{fs[(k1 + gap) % 7], fs[(k1 + k2 + 3) % 7],
                    fs[(k2 + d1 + 5) % 7]});
            }
            R->sample(text());
        }
    }
    if (R->section("chain_soil")) {
        std::vector<Col> mid = {
            col2(-4, 0, -2, -1, 0, 1, 2, 0), col2(-4, 2, -2, -1, 0, 1, 2, 0),
            col2(-4, 0, -1, 0, 2, 2, 3, 0), col2(-4, 2, -1, 0, 2, 2, 3, 1),
            col2(-4, 0, -3, -1, 1, 1, 3, 0), col2(-4, 2, -3, -2, 2, 3, 4, 1),
            col2(-4, 0, 0, 1, 1, 3, 4, 0), col2(-4, 2, 0, 1, 1, 3, 4, 2)};
        std::vector<Col> last = {
            col(-4), col1(-4, 0, -3, -2, 1), col1(-4, 2, 8, 9),
            col1(-4, 2, 0, 1, 0), col1(-4, 0, 9, 11)};
        int n = mid.size();
        for (int dir = 0; dir < 8; dir++)
        for (int len = 0; len <= (th ? 4 : 3); len++)
        for (int k = 0; k < int(std::pow(n, std::max(0, len - 1)) + .5); k++) {
            if (!R->next()) continue;
            for (int m = 0; m < (len ? n : 1); m++)
            for (size_t e = 0; e < last.size(); e++)
            for (int q : {3, 5, 8}) {
                Twin& t = (k + m) % 2 ? t1 : t2;
                St s = t.w.empty(-4);
                for (auto& c : s.c) c = col1(-4, (k + m) % 2 * 2, -4, 20);
                s.at(X, Y) = e % 2 ? col2(-4, 0, -1, 0, q, 2, 3, 0) :
                    col2(-4, 2, -1, 0, q, 2, 3, 1);
                for (int z = 1, v = k * n + m; z <= len; z++, v /= n)
                    s.at(X + z * DX[dir], Y + z * DY[dir]) = mid[v % n];
                s.at(X + (len + 1) * DX[dir], Y + (len + 1) * DY[dir]) =
                    last[e];
                auto_entries(&s);
                one_result(PUSH_SOIL, t, s, {1, s.nx - 1, 1, s.ny - 1}, -4,
                    th ? fs : std::vector<Xf>{fs[(k + m) % 7],
                    fs[(dir + m + 2) % 7], fs[(dir + k + q) % 7]});
            }
            R->sample(text());
        }
    }
}

// whole histories, shifted -------------------------------------------------
static std::string path;
struct Shift { int di, dj, dz; };

static St moved(const St& s, const Shift& d) {
    Xf f; f.di = d.di; f.dj = d.dj; f.dz = d.dz;
    return move(f, s, 0);
}
// difference of the states which stay inside of both grids
static std::string differ(const St& a, const St& b, const Shift& d,
                          bool walls, bool soil) {
    for (int i = 0; i < a.nx; i++)
        for (int j = 0; j < a.ny; j++) {
            int x = i + d.di, y = j + d.dj;
            if (!a.in(x, y)) continue;
            Xf f; f.dz = d.dz;
            Col c = move(f, a.at(i, j)), e = b.at(x, y);
            bool w = c.b == e.b, q = c.t == e.t && c.s == e.s;
            if ((walls && !w) || (soil && !q)) {
                std::ostringstream o;
                o << "(" << i << "," << j << ") is " << col_str(a.at(i, j))
                  << " but its twin is " << col_str(e);
                return o.str();
            }
        }
    if (soil) {
        auto u = moved(a, d).e, v = b.e;
        for (size_t k = 0; k < std::max(u.size(), v.size()); k++)
            if (k >= u.size() || k >= v.size() || !(u[k] == v[k]))
                return "record " + std::to_string(k) + " is" + (k < u.size() ?
                    ent_str({u[k]}) : " missing") + " (moved) but its twin is"
                    + (k < v.size() ? ent_str({v[k]}) : " missing");
    }
    return "";
}
static bool touches(const int a[2][2], const WP& p) {
    return a[0][0] <= 1 || a[1][0] <= 1 || a[0][1] >= 2 * p.hx ||
        a[1][1] >= 2 * p.hy;
}

struct Pair {
    const Stage& st; Shift d; Sim a, b; At at, bt;
    At twin(const At& q) const {
        At r = q;
        r.x += d.di * double(st.sc.p.cxy); r.y += d.dj * double(st.sc.p.cxy);
        r.z += d.dz * double(st.sc.p.cz);
        return r;
    }
    // false: stop here (rounding decides, or the border is reached)
    bool step(const At& to, int policy) {
        auto& p = st.sc.p;
        At tt = twin(to);
        path += " -> (" + std::to_string(to.x) + "," + std::to_string(to.y) +
            "," + std::to_string(to.z) + "; " + std::to_string(to.yaw) + "," +
            std::to_string(to.pitch) + "," + std::to_string(to.roll) + ")";
        if (!st.allowed(a, to) || !st.allowed(b, tt)) {
            R->count("outside_the_domain");
            return false;
        }
        double mv = oriented(*a.body()) ? corner_move(*a.body(), to.pos(),
            to.ori(), p) : 9;
        Sim a0 = a, b0 = b;
        ss::SoilDynamics sd;
        bool ra = false, rb = false;
        run_default([&] { ra = a.step(&sd, to.pos(), to.ori(), st.grid,
                                      st.par, p.tol); }, policy);
        auto ar = ch.arity;
        run_default([&] { rb = b.step(&sd, tt.pos(), tt.ori(), st.grid,
                                      st.par, p.tol); }, policy);
        R->count("runs", 2);
        if (std::fabs(mv - 0.5) < 1e-4) { R->count("rounding"); return false; }
        if (ra != rb) {
            R->fail("gate", "one of the twins is updated, the other is not");
            return false;
        }
        if (!ra) return true;
        // the border limits the active areas of one of them
        bool border = touches(a.out.relax_area_, p) ||
            touches(b.out.relax_area_, p) || touches(a.out.body_area_, p) ||
            touches(b.out.body_area_, p);
        St x = snap(a.out, p.cz), y = snap(b.out, p.cz);
        R->distinct("outcomes", hash_st(x));
        if (border) { R->count("border"); return false; }
        std::string m = !x.bad.empty() ? x.bad : !y.bad.empty() ? y.bad :
            differ(x, y, d, true, true);
        if (m.empty() && ar != ch.arity) m = "the random draws differ";
        if (m.empty())
            for (int k = 0; k < 2; k++)
                for (int q = 0; q < 2; q++) {
                    int o = k ? d.dj : d.di;
                    if (a.out.body_area_[k][q] + o != b.out.body_area_[k][q])
                        m = "body area differs";
                    else if (a.out.relax_area_[k][q] + o !=
                             b.out.relax_area_[k][q])
                        m = "relaxation area differs";
                }
        if (m.empty() && a.out.equilibrium_ != b.out.equilibrium_)
            m = "equilibrium differs";
        if (m.empty()) { R->count("steps_equal"); return true; }
        // a record of no soil, left by a difference of rounding, uses up
        // random draws: what follows may differ
        auto none = [](const St& q) {
            return std::count_if(q.e.begin(), q.e.end(), [](const Ent& e) {
                return e.h == 0; }); };
        if (none(x) != none(y)) { R->count("rounding"); return false; }
        // does rounding decide where a wall or a record is?
        a0.place(to.pos(), to.ori(), st.grid, st.par, p.tol);
        b0.place(tt.pos(), tt.ori(), st.grid, st.par, p.tol);
        St u = snap(a0.out, p.cz), v = snap(b0.out, p.cz);
        RasterStats r1, r2;
        std::string e1 = check_raster(a0.faces(to.pos(), to.ori(), p), p,
                                      a0.out, &r1);
        std::string e2 = check_raster(b0.faces(tt.pos(), tt.ori(), p), p,
                                      b0.out, &r2);
        bool sure = e1.empty() && e2.empty();
        if (differ(u, v, d, true, false) != "" && sure &&
            (r1.ambiguous || r2.ambiguous || r1.crowded || r2.crowded)) {
            R->count("rounding");
            return false;
        }
        Pose fa{a0.body()->pos_, a0.body()->ori_};
        Pose ta{to.pos(), to.ori()};
        for (auto& q : records_of(a0.out))
            if (follow_places(p, fa, ta, q.b, u).size() != 1) {
                R->count("rounding");
                return false;
            }
        // areas are the bounding box of corners: rounding may decide too
        if (m == "body area differs" || m == "relaxation area differs") {
            for (auto& f : a0.faces(to.pos(), to.ori(), p))
                for (auto& c : to_index(f, p))
                    for (int k = 0; k < 2; k++)
                        if (std::fabs(c[k] - std::floor(c[k]) - 0.5) < 1e-3 ||
                            std::fabs(c[k] - std::lround(c[k])) < 1e-3) {
                            R->count("rounding");
                            return false;
                        }
        }
        // the first phase which differs
        auto both = [&](const char* what, const std::function<void(Sim*,
            const At&)>& f) {
            for (int k = 0; k < 2; k++)
                run_default([&] { f(k ? &b0 : &a0, k ? tt : to); }, policy);
            St g = snap(a0.out, p.cz), h = snap(b0.out, p.cz);
            std::string q = differ(g, h, d, true, true);
            if (q.empty() && none(g) != none(h)) q = "records without soil";
            if (!q.empty()) m = std::string("[") + what + "] " + q;
            return q.empty();
        };
        both("carry", [&](Sim* z, const At& t) {
            ss::UpdateBodySoil(&z->out, t.pos(), t.ori(), st.grid, z->body(),
                               p.tol); }) &&
        both("push", [&](Sim* z, const At&) {
            ss::MoveIntersectingCells(&z->out, st.grid, z->body(), p.tol); }) &&
        // (only the random order of what follows may be at stake)
        [&] { if (none(x) || none(y)) m = ""; return true; }();
        if (m.empty()) { R->count("rounding"); return false; }
        R->fail("shift", "a step and the same step " + std::to_string(d.di) +
                "," + std::to_string(d.dj) + "," + std::to_string(d.dz) +
                " cells away differ: " + m);
        return false;
    }
    // the second terrain is the first one moved; as if relaxed: nothing is
    // active at first
    void align(const WP& p) {
        int nx = a.out.terrain_.size(), ny = a.out.terrain_[0].size();
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++)
                b.out.terrain_[i][j] =
                    a.out.terrain_[std::clamp(i - d.di, 0, nx - 1)][
                        std::clamp(j - d.dj, 0, ny - 1)] + d.dz * p.cz;
        for (Sim* z : {&a, &b}) {
            int x = nx / 2 + (z == &b ? d.di : 0);
            int y = ny / 2 + (z == &b ? d.dj : 0);
            set_area(z->out.relax_area_, x, x + 1, y, y + 1);
        }
    }
};

static void histories() {
    bool th = R->thorough();
    std::vector<Shift> ds = {{3, 0, 0}, {0, -2, 0}, {0, 0, 2}, {-2, 3, -1},
                             {1, 2, 3}};
    auto sc = scenes(th);
    for (auto s : sc) {
        s.p.hx += 7; s.p.hy += 7; s.p.hz += 6;
        for (int gentle = 0; gentle < 2; gentle++) {
            if (gentle) { s.terrain = 0; s.name += "_flat"; }
            Stage st(s);
            for (auto& d : ds)
                for (int pol = 0; pol < (th ? 24 : 4); pol++) {
                    if (!R->next()) continue;
                    for (size_t k = 0; k <= s.script.size(); k++) {
                        // the script up to k, then every motion
                        Pair q{st, d, st.fresh(), st.fresh(), {}, {}};
                        q.align(s.p);
                        path = "scene " + s.name + " shift " +
                            std::to_string(d.di) + "," + std::to_string(d.dj)
                            + "," + std::to_string(d.dz) + " policy " +
                            std::to_string(pol);
                        R->describe = [] { return path; };
                        At at = s.start;
                        bool ok = q.step(at, pol);
                        for (size_t n = 0; ok && n < k; n++) {
                            at = at.go(s.script[n], st.unit);
                            ok = q.step(at, pol);
                        }
                        if (!ok) break;
                        if (k % (th ? 1 : 2)) continue;
                        size_t keep = path.size();
                        for (auto& m : alphabet()) {
                            Pair z = q;
                            At to = at.go(m, st.unit);
                            if (z.step(to, pol + 3))
                                z.step(to.go(alphabet()[(k + pol) % 10],
                                             st.unit), pol);
                            path.resize(keep);
                        }
                    }
                }
        }
    }
}

// long work cycles of large bodies, moved as a whole
static void big_histories() {
    bool th = R->thorough();
    std::vector<Shift> ds = {{3, 0, 0}, {0, -4, 0}, {-5, 2, 0}, {4, 5, 1},
                             {0, 0, 1}};
    for (auto s : big_scenes(th)) {
        s.p.hx += 6; s.p.hy += 6; s.p.hz += 3;
        for (int flat = 0; flat < 2; flat++) {
            if (flat) s.terrain = 0, s.name += "_flat";
            Stage st(s);
            for (auto& d : ds) for (int pol = 0; pol < (th ? 12 : 2); pol++) {
                if (!R->next()) continue;
                Pair q{st, d, st.fresh(), st.fresh(), {}, {}};
                q.align(s.p);
                path = "scene " + s.name + " shift " + std::to_string(d.di) +
                    "," + std::to_string(d.dj) + "," + std::to_string(d.dz) +
                    " policy " + std::to_string(pol);
                R->describe = [] { return path; };
                At at = s.start;
                bool ok = q.step(at, pol);
                long n = 0;
                for (auto& m : s.script) {
                    if (!ok) break;
                    at = at.go(m, st.unit);
                    ok = q.step(at, pol);
                    n++;
                }
                R->max("longest_history", n);
                R->count("big_steps", n);
            }
        }
    }
}

// ------------------------------------------------------------------- C22
using Dist = std::map<ref::Key, double>;

static void add_to(Dist* d, const ref::Key& k, double w) { (*d)[k] += w; }

// distribution of the results over the complete tree of (uniform) draws
static Dist real_dist(const std::function<ref::Key()>& run) {
    Dist d;
    long n = 0, seeds = 0;
    auto st = explore(-1, 0, [&] {
        long s = seedings();
        ref::Key k = run();
        seeds += seedings() - s;
        double w = 1;
        for (int a : ch.arity) w /= a;
        add_to(&d, k, w);
        n++;
    });
    R->count("choices", st.choices);
    R->max("draw_sequences_of_one_world", n);
    if (seeds)
        R->fail("engine", "a random engine is created, copied or seeded while "
                "orders are drawn, so its draws are not independent of others");
    return d;
}
static void same_dist(const Dist& want, const Dist& got, const char* what) {
    R->max("orders_told_apart", want.size());
    for (auto& [k, w] : got) {
        std::uint64_t h = 5;
        for (auto v : k) h = mix(h, v + 40000);
        R->distinct("outcomes", h);
        if (!want.count(k))
            R->fail("foreign", std::string(what) + ": a result which no order "
                    "gives");
    }
    for (auto& [k, w] : want) {
        auto it = got.find(k);
        if (it == got.end()) {
            R->fail("impossible", std::string(what) + ": an order can never "
                    "be drawn (" + std::to_string(want.size()) + " results "
                    "expected, " + std::to_string(got.size()) + " found)");
            return;
        }
        if (std::fabs(it->second - w) > 1e-9) {
            std::ostringstream o;
            o << what << ": orders are not equally likely: a result has "
                "probability " << it->second << " instead of " << w;
            R->fail("biased", o.str());
            return;
        }
    }
    R->sample(std::string(what) + ": " + std::to_string(want.size()) +
              " results with the probabilities of uniform orders");
}
static double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }

static Dist every_order(const St& s, int n,
                        const std::function<void(St*, int)>& act,
                        const std::function<ref::Key(const St&)>& key) {
    std::vector<int> o(n);
    for (int k = 0; k < n; k++) o[k] = k;
    Dist d;
    do {
        St t = s;
        for (int k : o) act(&t, k);
        add_to(&d, key(t), 1 / fact(n));
    } while (std::next_permutation(o.begin(), o.end()));
    return d;
}
static Dist product(const Dist& a, const Dist& b) {
    Dist d;
    for (auto& [k, w] : a)
        for (auto& [l, v] : b) {
            ref::Key m = k;
            m.insert(m.end(), l.begin(), l.end());
            add_to(&d, m, w * v);
        }
    return d;
}
// the columns around a cell
static ref::Key around(const St& s, int i, int j) {
    ref::Key k;
    for (int d = 0; d < 4; d++) {
        auto& c = s.at(i + DX[d], j + DY[d]);
        k.push_back(c.t);
        for (int l = 0; l < 4; l++) k.push_back(c.s[l]);
    }
    return k;
}

static void fairness() {
    bool th = R->thorough();
    WP p; p.hx = 4; p.hy = 5; p.hz = 80;
    World w(p, frames()[1]);
    const int X = 4, Y = 5;
    auto set = [&](const St& s) { cur = s; curp = w.p; R->describe = text; };
    if (R->section("terrain_directions")) {
        for (int h = 32; h <= 72; h += 8)
            for (int i = 1; i < 2 * p.hx; i++) {
                if (!R->next()) continue;
                int j = 1 + (i + h / 8) % (2 * p.hy - 1);
                St s = w.empty(0);
                s.at(i, j).t = h;
                set(s);
                auto want = every_order(s, 4, [&](St* t, int d) {
                    ref::terrain_pair(t, i, j, i + DX[d], j + DY[d], p.dh);
                }, [&](const St& t) { return around(t, i, j); });
                same_dist(want, real_dist([&] {
                    apply(TERRAIN, w, s, {1, 2 * p.hx, 1, 2 * p.hy});
                    return around(w.read(), i, j); }),
                    "directions of a sliding column");
            }
    }
    if (R->section("two_columns")) {
        // the orders of two columns are independent
        std::vector<std::array<int, 4>> at = {
            {2, 2, 6, 7}, {2, 5, 6, 5}, {4, 2, 4, 7}, {6, 2, 2, 8}};
        for (auto& q : at) {
            if (!R->next()) continue;
            St s = w.empty(0);
            s.at(q[0], q[1]).t = 40; s.at(q[2], q[3]).t = 48;
            set(s);
            auto one = [&](int k) {
                int i = q[2 * k], j = q[2 * k + 1];
                return every_order(s, 4, [&, i, j](St* t, int d) {
                    ref::terrain_pair(t, i, j, i + DX[d], j + DY[d], p.dh);
                }, [&, i, j](const St& t) { return around(t, i, j); });
            };
            same_dist(product(one(0), one(1)), real_dist([&] {
                apply(TERRAIN, w, s, {1, 2 * p.hx, 1, 2 * p.hy});
                St t = w.read();
                auto k = around(t, q[0], q[1]);
                auto l = around(t, q[2], q[3]);
                k.insert(k.end(), l.begin(), l.end());
                return k; }), "directions of two sliding columns");
        }
    }
    if (R->section("cells")) {
        // columns sliding one after the other in the same hole
        std::vector<ref::Area> ar = {
            {X, X + 1, Y - 1, Y + 2}, {X - 1, X + 2, Y, Y + 1},
            {X, X + 2, Y, Y + 2}, {X - 1, X + 1, Y - 1, Y + 1},
            {X, X + 2, Y - 1, Y + 2}, {X - 1, X + 1, Y - 1, Y + 2},
            {X - 1, X + 2, Y, Y + 2}, {X - 1, X + 2, Y - 1, Y + 1}};
        if (th) ar.push_back({X - 1, X + 2, Y - 1, Y + 2});
        for (auto& a : ar) {
            if (!R->next()) continue;
            St s = w.empty(0);
            s.at(X, Y).t = -64;
            set(s);
            auto u = ref::unstable_cells(s, p.dh, a);
            auto want = every_order(s, u.size(), [&](St* t, int k) {
                ref::terrain_pair(t, u[k].first, u[k].second, X, Y, p.dh);
            }, [&](const St& t) { return around(t, X, Y); });
            same_dist(want, real_dist([&] {
                apply(TERRAIN, w, s, a);
                return around(w.read(), X, Y); }),
                "order of the sliding columns");
        }
        // four columns: every order is possible (few deviations needed)
        if (R->next()) {
            St s = w.empty(0);
            s.at(X, Y).t = -64;
            set(s);
            ref::Area a{X - 1, X + 2, Y - 1, Y + 2};
            std::set<ref::Key> got;
            explore(3, 0, [&] {
                apply(TERRAIN, w, s, a);
                got.insert(around(w.read(), X, Y)); });
            if (got.size() != 24)
                R->fail("impossible", "only " + std::to_string(got.size()) +
                        " of the 24 orders of four sliding columns are found "
                        "by three deviations");
        }
    }
    if (R->section("soil_directions")) {
        // (walls of the body or terrain around a tall column of soil)
        for (int h = 32; h <= 72; h += 8)
            for (int v = 0; v < 6; v++) {
                if (!R->next()) continue;
                St s = w.empty(v % 2 ? -2 : 0);
                int l = v & 2;
                s.at(X, Y) = col1(v % 2 ? -2 : 0, l, 0, 1, h);
                if (v >= 2)
                    for (int d = 0; d < 4; d++)
                        s.at(X + DX[d], Y + DY[d]) =
                            col1(v % 2 ? -2 : 0, v >= 4 ? d % 2 * 2 : l, 0, 1);
                s.e = {{l, X, Y, h}};
                set(s);
                auto want = every_order(s, 4, [&](St* t, int d) {
                    bool mv;
                    ref::body_pair(t, 0, X + DX[d], Y + DY[d], p.dh, &mv);
                }, [&](const St& t) { return around(t, X, Y); });
                same_dist(want, real_dist([&] {
                    apply(SOIL, w, s, {1, 8, 1, 10});
                    return around(w.read(), X, Y); }),
                    "directions of sliding carried soil");
            }
    }
    if (R->section("two_records")) {
        std::vector<std::array<int, 4>> at = {
            {2, 2, 6, 7}, {2, 5, 6, 5}, {4, 2, 4, 7}, {6, 2, 2, 8}};
        for (auto& q : at) {
            if (!R->next()) continue;
            St s = w.empty(0);
            s.at(q[0], q[1]) = col1(0, 0, 0, 1, 40);
            s.at(q[2], q[3]) = col1(0, 2, 1, 2, 48);
            s.e = {{0, q[0], q[1], 40}, {2, q[2], q[3], 48}};
            set(s);
            auto one = [&](int k) {
                int i = q[2 * k], j = q[2 * k + 1];
                return every_order(s, 4, [&, i, j, k](St* t, int d) {
                    bool mv;
                    ref::body_pair(t, k, i + DX[d], j + DY[d], p.dh, &mv);
                }, [&, i, j](const St& t) { return around(t, i, j); });
            };
            same_dist(product(one(0), one(1)), real_dist([&] {
                apply(SOIL, w, s, {1, 8, 1, 10});
                St t = w.read();
                auto k = around(t, q[0], q[1]);
                auto l = around(t, q[2], q[3]);
                k.insert(k.end(), l.begin(), l.end());
                return k; }), "directions of two records");
        }
    }
    // Pushed soil fills rooms of two cells one after the other: the first
    // ones entirely, one by half
    auto rooms = [&](const St& s) {
        ref::Key k;
        for (int d = 0; d < 8; d++)
            for (int r = 1; r <= 2; r++) {
                auto& c = s.at(X + r * DX[d], Y + r * DY[d]);
                k.push_back(c.t);
                for (int l = 0; l < 4; l++) k.push_back(c.s[l]);
            }
        return k;
    };
    if (R->section("push_directions")) {
        for (int ring = 1; ring <= 2; ring++)
        for (int e = 1; e <= 15; e += 2) {
            if (!R->next()) continue;
            St s = w.empty(0);
            for (int d = 0; d < 8; d++)
                for (int r = 1; r <= 2; r++)
                    s.at(X + r * DX[d], Y + r * DY[d]) =
                        col1(r < ring ? 0 : -2, d % 2 * 2, 0, 1);
            s.at(X, Y) = col1(e, 0, 0, 1);
            set(s);
            auto want = every_order(s, 8, [&](St* t, int d) {
                int left = t->at(X, Y).t;
                int q = std::min(left, 2);
                t->at(X, Y).t -= q;
                t->at(X + ring * DX[d], Y + ring * DY[d]).t += q;
            }, rooms);
            same_dist(want, real_dist([&] {
                apply(PUSH, w, s, {X, X + 1, Y, Y + 1});
                return rooms(w.read()); }), "directions of pushed terrain");
        }
    }
    if (R->section("push_soil_directions")) {
        for (int e = 1; e <= 15; e += 2) {
            for (int l = 0; l < 4; l += 2) {
            if (!R->next()) continue;
            St s = w.empty(-4);
            for (int d = 0; d < 8; d++) {
                s.at(X + DX[d], Y + DY[d]) =
                    col2(-4, d % 2 * 2, -1, 0, 0, 2, 3, 0);
                s.at(X + 2 * DX[d], Y + 2 * DY[d]) =
                    col1(-4, d % 2 * 2, -2, 20);
            }
            s.at(X, Y) = col2(-4, l, -1, 0, 2 + e, 2, 3, 0);
            s.e = {{l, X, Y, 2 + e}};
            set(s);
            int left = 0;
            auto want = every_order(s, 8, [&](St* t, int d) {
                Col& c = t->at(X, Y);
                left = c.s[l + 1] - 2;
                int q = std::min(left, 2);
                c.s[l + 1] -= q;
                ref::Target g;
                g.layer = d % 2 * 2;
                ref::land(t, X + DX[d], Y + DY[d], g, q);
            }, rooms);
            same_dist(want, real_dist([&] {
                apply(PUSH_SOIL, w, s, {1, 8, 1, 10});
                return rooms(w.read()); }),
                "directions of pushed carried soil");
            }
        }
    }
    if (R->section("push_pairs")) {
        // The first directions of two sources: every pair is possible
        for (int carried = 0; carried < 2; carried++)
            for (int pol = 0; pol < 3; pol++) {
                if (!R->next()) continue;
                WP q = p; q.hx = 7; q.hy = 5;
                World v(q, frames()[1]);
                St s = v.empty(-4);
                int at[2][2] = {{3, 5}, {11, 4}};
                for (int k = 0; k < 2; k++) {
                    s.at(at[k][0], at[k][1]) = carried ?
                        col2(-4, 2 * k, -1, 0, 3, 2, 3, 0) :
                        col1(-3, 2 * k, -4, 0);
                    if (carried) s.e.push_back({2 * k, at[k][0], at[k][1], 3});
                }
                cur = s; curp = q; R->describe = text;
                std::set<ref::Key> got;
                for (ch.policy = pol; ch.policy < 40; ch.policy += 3)
                explore(2, 0, [&] {
                    apply(carried ? PUSH_SOIL : PUSH, v, s, {1, 14, 1, 10});
                    St t = v.read();
                    ref::Key k;
                    for (auto& a : at)
                        for (int d = 0; d < 8; d++)
                            k.push_back(t.at(a[0] + DX[d], a[1] + DY[d]).t);
                    got.insert(k);
                });
                ch.policy = 0;
                if (got.size() != 64)
                    R->fail("impossible", "only " + std::to_string(got.size())
                            + " of the 64 pairs of directions of two sources "
                            "are found by two deviations");
            }
    }
}

// The order of the records after a step over a body at rest
static void record_order() {
    for (int nrec = 2; nrec <= (R->thorough() ? 4 : 3); nrec++)
        for (int maxit = 1; maxit <= 2; maxit++) {
            if (!R->next()) continue;
            Rest r(nrec, maxit);
            std::string what = std::to_string(nrec) + " records on a bucket "
                "at rest, limit of " + std::to_string(maxit) + " iterations";
            R->describe = [&] { return what; };
            auto key = [&](const Sim& n) {
                ref::Key k;
                for (auto& e : n.out.body_soil_pos_)
                    for (size_t q = 0; q < r.s->out.body_soil_pos_.size(); q++)
                    {
                        auto& o = r.s->out.body_soil_pos_[q];
                        if (o.x_b == e.x_b && o.y_b == e.y_b) k.push_back(q);
                    }
                return k;
            };
            auto want = every_order(St(), nrec, [&](St* t, int k) {
                t->e.push_back({k, 0, 0, 0}); }, [](const St& t) {
                ref::Key k;
                for (auto& e : t.e) k.push_back(e.ind);
                return k; });
            same_dist(want, real_dist([&] {
                Sim n = *r.s;
                r.step(&n);
                R->count("runs");
                return key(n); }), "order of the carried records in a step");
        }
    // more records: each of them can be at each place
    for (int pol = 0; pol < 3; pol++) {
        if (!R->next()) continue;
        Rest r(4, 1);
        R->describe = [&] { return "4 records, policy " + std::to_string(pol);
        };
        std::set<std::pair<int, int>> got;
        for (ch.policy = pol; ch.policy < 20; ch.policy += 3)
        explore(2, 0, [&] {
            Sim n = *r.s;
            r.step(&n);
            R->count("runs");
            for (size_t k = 0; k < n.out.body_soil_pos_.size(); k++)
                for (size_t q = 0; q < 4; q++)
                    if (r.s->out.body_soil_pos_[q].x_b ==
                        n.out.body_soil_pos_[k].x_b &&
                        r.s->out.body_soil_pos_[q].y_b ==
                        n.out.body_soil_pos_[k].y_b)
                        got.insert({k, q});
        });
        ch.policy = 0;
        if (got.size() != 16)
            R->fail("impossible", "only " + std::to_string(got.size()) +
                    " of the 16 places of four records are found by two "
                    "deviations");
    }
}

// ---------------------------------------------------- C22, long lists
// With uniform draws of fixed ranges, orders of k independent lists of n_1,
// n_2 ... elements are equally likely only if n_1! n_2! ... divides the number
// of draw sequences, the product of the ranges.
static void divides(const std::vector<int>& lists,
                    const std::function<void()>& run, const char* what) {
    std::vector<int> first;
    long raw = raw_draws(), seeds = seedings();
    for (int pol = 0; pol < 6; pol++) {
        run_default(run, pol);
        R->count("runs");
        if (pol == 0) first = ch.arity;
        else if (ch.arity != first) {
            R->count("draws_depend_on_earlier_ones"); return; }
    }
    if (raw_draws() != raw) { R->count("draws_of_the_bare_engine"); return; }
    if (seedings() != seeds)
        R->fail("engine", "a random engine is created, copied or seeded while "
                "orders are drawn, so its draws are not independent of others");
    std::map<int, long> have, need;
    auto factor = [](std::map<int, long>* m, int n) {
        for (int q = 2; q <= n; q++)
            while (n % q == 0) { (*m)[q]++; n /= q; }
    };
    for (int a : first) factor(&have, a);
    for (int n : lists) for (int k = 2; k <= n; k++) factor(&need, k);
    R->max("elements_of_a_list", *std::max_element(lists.begin(), lists.end()));
    R->distinct("outcomes", mix(first.size(), lists.size()));
    for (auto& [q, e] : need)
        if (have[q] < e) {
            std::ostringstream o;
            o << what << ": the number of draw sequences is not a multiple of "
                "the number of orders (factor " << q << " " << have[q] <<
                " times instead of " << e << "), so they are not equally likely";
            R->fail("biased", o.str());
            return;
        }
    R->sample(std::string(what) + ": " + std::to_string(lists[0]) +
              " elements, the orders divide the draw sequences");
}
static void many() {
    bool th = R->thorough();
    std::vector<int> ns = {2, 3, 5, 8, 9, 13, 17, 23, 33, 41, 65, 67, 101, 131,
                           263};
    if (th) for (int n : {4, 6, 7, 11, 19, 29, 37, 53, 83, 167, 197, 359})
        ns.push_back(n);
    int n = 0;
    std::string what;
    R->describe = [&] { return what; };
    // columns standing alone: their order, four directions each
    if (R->section("many_cells"))
        for (size_t k = 0; k < ns.size(); k++)
            for (int step = 3; step <= 4; step++) {
                if (!R->next()) continue;
                n = ns[k];
                WP p; p.hx = 30; p.hy = 30; p.hz = 60;
                if (k % 2) { p.hx = 35; p.hy = 27; }
                int row = (2 * p.hy - 3) / step + 1;
                if (((n - 1) / row) * step + 2 > 2 * p.hx - 2) continue;
                World w(p, frames()[k % 2]);
                St s = w.empty(k % 3);
                for (int q = 0; q < n; q++)
                    s.at(2 + q / row * step, 2 + q % row * step).t += 40;
                what = std::to_string(n) + " columns of 40 cells, " +
                    std::to_string(step) + " cells apart, on a grid of half "
                    "lengths " + std::to_string(p.hx) + "," +
                    std::to_string(p.hy);
                std::vector<int> l(n, 4);
                l.insert(l.begin(), n);
                divides(l, [&] { apply(TERRAIN, w, s, {1, 2 * p.hx, 1,
                    2 * p.hy}); }, "order and directions of sliding columns");
            }
    // pushed soil: eight directions for each source
    for (int carried = 0; carried < 2; carried++)
        if (R->section(carried ? "many_caught" : "many_pushed"))
            for (int m : {1, 2, 4, 7, 12, 25, 60}) {
                if (!R->next()) continue;
                n = m;
                WP p; p.hx = 24; p.hy = 24; p.hz = 30;
                World w(p, frames()[m % 2]);
                St s = w.empty(-4);
                for (int q = 0; q < m; q++) {
                    int i = 4 + q / 9 * 5, j = 4 + q % 9 * 5, l = q % 2 * 2;
                    s.at(i, j) = carried ? col2(-4, l, -1, 0, 3, 2, 3, 0) :
                        col1(-3, l, -4, 0);
                    if (carried) s.e.push_back({l, i, j, 3});
                }
                what = std::to_string(m) + (carried ? " columns of carried "
                    "soil reaching a wall" : " walls in the terrain");
                std::vector<int> l(m, 8);
                divides(l, [&] { apply(carried ? PUSH_SOIL : PUSH, w, s,
                    {1, 2 * p.hx, 1, 2 * p.hy}); }, carried ?
                    "directions of caught soil" :
                    "directions of pushed terrain");
            }
    // sliding carried soil: four directions for each record
    if (R->section("many_sliding"))
        for (int m : {1, 2, 5, 13, 34, 81}) {
            if (!R->next()) continue;
            n = m;
            WP p; p.hx = 24; p.hy = 24; p.hz = 60;
            World w(p, frames()[m % 2]);
            St s = w.empty(-2);
            for (int q = 0; q < m; q++) {
                int i = 4 + q / 9 * 5, j = 4 + q % 9 * 5, l = q % 2 * 2;
                s.at(i, j) = col1(-2, l, 0, 1, 40);
                s.e.push_back({l, i, j, 40});
            }
            what = std::to_string(m) + " columns of 40 cells of carried soil";
            std::vector<int> l(m, 4);
            divides(l, [&] { apply(SOIL, w, s, {1, 2 * p.hx, 1, 2 * p.hy}); },
                "directions of sliding carried soil");
        }
    // records on a large bucket at rest: their order in a step
    if (R->section("many_records"))
        for (size_t k = 0; k < ns.size(); k++) {
            if (!R->next()) continue;
            n = ns[k];
            Scene sc; sc.p.hx = 24; sc.p.hy = 23; sc.p.hz = 20;
            sc.p.maxit = 1;
            float c = sc.p.cxy;
            sc.j = {-10 * c, 0, 2 * c}; sc.b = {-10 * c, 0, 0};
            sc.t = {10 * c, 0, 0}; sc.width = 20 * c;
            sc.start.z = 4.5 * c;
            Stage st(sc);
            Sim s0 = st.fresh();
            ss::SoilDynamics sd;
            run_default([&] { s0.step(&sd, sc.start.pos(), sc.start.ori(),
                                      st.grid, st.par, sc.p.tol); });
            for (int q = 0; q < n; q++) {
                // (more than one record in a cell from the 289th on)
                int i = 24 - 8 + q / 17 % 17, j = 23 - 8 + q % 17;
                float z = s0.out.body_[1][i][j];
                if (q < 289) {
                    s0.out.body_soil_[0][i][j] = z;
                    s0.out.body_soil_[1][i][j] = z;
                }
                s0.out.body_soil_[1][i][j] = std::lround(
                    s0.out.body_soil_[1][i][j] / c + 1) * c;
                D3 b = to_body({sc.start.pos(), sc.start.ori()},
                               cell_centre(sc.p, i, j, z));
                s0.out.body_soil_pos_.push_back({0, i, j,
                    float(b[0] + q / 289 * 0.01), float(b[1]), float(b[2]),
                    float(c)});
            }
            At to = sc.start.go({0, 0, 0.8, 0, 0, 0}, c);
            what = std::to_string(n) + " records on a bucket at rest";
            std::vector<size_t> order;
            auto run = [&] {
                Sim s = s0;
                s.step(&sd, to.pos(), to.ori(), st.grid, st.par, sc.p.tol);
                order.clear();
                for (auto& e : s.out.body_soil_pos_)
                    order.push_back(mix(std::hash<float>()(e.x_b),
                                        std::hash<float>()(e.y_b)));
            };
            divides({n}, run, "order of the carried records in a step");
            if (n > (th ? 101 : 41)) continue;
            // As many sequences of the draws which decide the order as there
            // are orders: each gives another one
            long raw = raw_draws();
            run_default(run, 0);
            auto base = order;
            auto ar = ch.arity;
            std::set<std::vector<size_t>> seen{base};
            std::map<size_t, long> decides;
            long changed = 0;
            for (size_t a = 0; a < ar.size(); a++)
                for (int v = 0; v < ar[a]; v++) {
                    run_default([&] {
                        ch.dev_at = a; ch.dev_value = v; run(); }, 0);
                    ch.dev_at = -1;
                    R->count("runs");
                    if (order == base) continue;
                    changed++;
                    decides[a]++;
                    seen.insert(order);
                }
            std::vector<int> got, all;
            for (auto& [a, t] : decides) got.push_back(ar[a]);
            for (int q = 2; q <= n; q++) all.push_back(q);
            std::sort(got.begin(), got.end());
            R->count("order_draws", got.size());
            if (got != all || raw_draws() != raw) {
                R->count("draws_of_another_form"); continue; }
            if (long(seen.size()) != changed + 1)
                R->fail("biased", "different draws lead to the same order of " +
                        std::to_string(n) + " records, others are less likely "
                        "or impossible");
        }
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    if (r.arg("--prop", "C21") == "C21") {
        symmetry();
        chains();
        if (R->section("histories")) histories();
        if (R->section("big")) big_histories();
    } else {
        fairness();
        if (R->section("records")) record_order();
        many();
    }
    return r.finish();
}
