#include "geo.h"
using namespace geo;
using mon::Mon; using mon::Rng; using mon::sfmt;
using json = nlohmann::json;

static const char* stn[] = { "nothing-ahead", "inside", "ahead" };
static const char* kn[] = { "sphere", "cylinder", "box" };

// signature of the configuration a ray meets, to count distinct situations
static std::string situation(const Body& g, V p, V d)
{
    auto m = material(g, p, d);
    std::string s = kn[g.k];
    if (g.k != K_BOX && g.b > 0) s += "-hollow";
    int ahead = 0;
    for (auto iv : m) ahead += (iv.lo > 0) + (iv.hi > 0);
    s += sfmt(" pieces=%zu crossings-ahead=%d %s", m.size(), ahead, stn[expected(g, p, d).state]);
    return s;
}

static void judge(Mon& m, const Body& g, V p, V d, const Geometry& G, bool strong_only = false)
{
    auto P = c3(p), D = c3(d);
    auto r = G.DistanceToBorder(P, D);
    m.describe(g.str() + rs(p, d) + sfmt(" -> (%.17g,%.17g)", r.first, r.second));
    auto rb = robust(g, p, d);
    LD L = norm(p - g.c) + g.size();
    // structure: always
    m.check(r.first == -1 || r.first >= 1e-9, "first-valid", sfmt("first %g is neither -1 nor a distance", r.first));
    m.check(r.second == -1 || r.second >= 1e-9, "second-valid", sfmt("second %g", r.second));
    m.check(!(r.first == -1 && r.second != -1), "second-without-first", sfmt("(%g,%g)", r.first, r.second));
    if (r.first > 0) m.check(g.surf(p + d * (LD)r.first) <= 1e-6L * L + 1e-9L, "lands-on-surface", sfmt("first=%.17g residual %Lg", r.first, g.surf(p + d * (LD)r.first)));
    if (r.second > 0) m.check(g.surf(p + d * (LD)r.second) <= 1e-6L * L + 1e-9L, "lands-on-surface", sfmt("second=%.17g residual %Lg", r.second, g.surf(p + d * (LD)r.second)));
    if (r.first > 0 && r.second > 0) m.check(r.first <= r.second, "ordered", sfmt("(%.17g,%.17g)", r.first, r.second));
    if (!rb.ok) { m.note("degenerate rays (structure only)"); return; }
    m.note(std::string("strong ") + situation(g, p, d));
    m.nontrivial();
    if (rb.e.state) m.sample(m.desc);
    int st = r.first < 0 ? 0 : r.second < 0 ? 1 : 2;
    if (!m.check(st == rb.e.state, std::string("state-") + kn[g.k], sfmt("reported (%.17g,%.17g) expected (%.17Lg,%.17Lg) %s", r.first, r.second, rb.e.first, rb.e.second, stn[rb.e.state]))) return;
    LD tol = 1e-9L * L;
    // cancellation in the quadratic: the slack measured by growing the body bounds the conditioning
    if (st) m.check(fabsl(r.first - rb.e.first) <= tol + 1e-4L * rb.slack1, std::string("first-value-") + kn[g.k], sfmt("reported %.17g expected %.17Lg", r.first, rb.e.first));
    if (st == 2) m.check(fabsl(r.second - rb.e.second) <= tol + 1e-4L * rb.slack2, std::string("second-value-") + kn[g.k], sfmt("reported %.17g expected %.17Lg", r.second, rb.e.second));
}

PROP(G01)
{
    m.cases("random-rays", 120000, 6000000, [&](Rng& r) {
        Body g = rbody(r, 1e-2, 1e9, 3);
        V p = rpoint(r, g), d = asdouble(rdir(r));
        if (r.p(0.4)) { // aim at the body
            V t = g.c + rdir(r) * (g.size() * r.range(0, 0.6));
            V q = t - p; LD n = norm(q);
            if (n > 0) d = asdouble(q * (1 / n));
        }
        if (r.p(0.12)) { V ax { 0, 0, 0 }; (&ax.x)[r.i(0, 2)] = r.sgn(); d = ax; }
        auto G = g.make();
        judge(m, g, p, d, *G);
    });
    m.cases("representation", 6000, 100000, [&](Rng& r) {
        // the same ray handed over in spherical coordinates
        Body g = rbody(r, 1, 1e5, 2);
        V p = rpoint(r, g), d = asdouble(rdir(r));
        auto rb = robust(g, p, d);
        if (!rb.ok) throw mon::Skip();
        auto G = g.make();
        auto a = G->DistanceToBorder(c3(p), c3(d));
        auto b = G->DistanceToBorder(Spherical3D(c3(p)), Spherical3D(c3(d)));
        m.describe(g.str() + rs(p, d));
        m.nontrivial();
        LD L = norm(p - g.c) + norm(g.c) + g.size();
        m.close(a.first, b.first, 0, (double)(1e-6L * L), "first");
        m.close(a.second, b.second, 0, (double)(1e-6L * L), "second");
    });
    m.cases("lattice-rays", 60000, 2000000, [&](Rng& r) {
        // small integer coordinates: edges, corners, caps and walls are hit exactly
        Body g;
        g.k = (Kind)r.i(0, 2);
        g.c = { (LD)r.i(-3, 3), (LD)r.i(-3, 3), (LD)r.i(-3, 3) };
        if (g.k == K_BOX) { g.a = 2 * r.i(1, 4); g.b = r.p(0.5) ? g.a : (LD)(2 * r.i(1, 4)); g.h = r.p(0.5) ? g.a : (LD)(2 * r.i(1, 4)); }
        else { g.a = r.i(2, 5); g.b = r.i(0, 1) ? (LD)r.i(1, (long)g.a - 1) : 0; g.h = 2 * r.i(1, 4); }
        V p { (LD)r.i(-9, 9), (LD)r.i(-9, 9), (LD)r.i(-9, 9) };
        V d;
        if (r.p(0.4)) { d = { 0, 0, 0 }; (&d.x)[r.i(0, 2)] = r.sgn(); }
        else {
            V q;
            if (r.p(0.5)) { // towards a lattice point of the body: corner, edge, centre
                V t = g.c + V { (LD)(r.i(-1, 1)) * g.a / (g.k == K_BOX ? 2 : 1), (LD)(r.i(-1, 1)) * (g.k == K_BOX ? g.b / 2 : g.a), (LD)(r.i(-1, 1)) * (g.k == K_SPH ? g.a : g.h / 2) };
                q = t - p;
            } else q = { (LD)r.i(-4, 4), (LD)r.i(-4, 4), (LD)r.i(-4, 4) };
            LD n = norm(q);
            if (n == 0) throw mon::Skip();
            d = asdouble(q * (1 / n));
        }
        auto G = g.make();
        judge(m, g, p, d, *G);
    });
    m.cases("border", 30000, 1000000, [&](Rng& r) {
        // positions on the border, moving clearly in or out
        Body g = rbody(r, 1, 500, 2);
        V n, p;
        int face;
        if (g.k == K_SPH) {
            n = rdir(r); face = (g.b > 0 && r.p(0.5));
            p = g.c + n * (face ? g.b : g.a);
            if (face) n = n * -1; // n: outward from the material
        } else if (g.k == K_CYL) {
            LD ph = r.range(0, 6.283185307);
            face = r.i(0, 2);
            if (face == 1 && g.b == 0) face = 0;
            if (face < 2) {
                n = { cosl(ph), sinl(ph), 0 };
                p = g.c + n * (face ? g.b : g.a); p.z = g.c.z + g.h * r.range(-0.45, 0.45);
                if (face == 1) n = n * -1;
            } else {
                LD rad = g.b + (g.a - g.b) * r.range(0.05, 0.95), s = r.sgn();
                p = g.c + V { rad * cosl(ph), rad * sinl(ph), s * g.h / 2 };
                n = { 0, 0, s };
            }
        } else {
            face = r.i(0, 2);
            LD s = r.sgn();
            n = { 0, 0, 0 }; (&n.x)[face] = s;
            V half { g.a / 2, g.b / 2, g.h / 2 };
            p = g.c + V { half.x * r.range(-0.9, 0.9), half.y * r.range(-0.9, 0.9), half.z * r.range(-0.9, 0.9) };
            (&p.x)[face] = (&g.c.x)[face] + s * (&half.x)[face];
        }
        p = asdouble(p);
        V d = rdir(r);
        if (r.p(0.3)) d = n * r.sgn();
        d = asdouble(d * (1 / norm(d)));
        if (fabsl(dot(d, n)) < 0.05) throw mon::Skip();
        bool in = dot(d, n) < 0;
        // expectation: start a hair further on the ray
        LD hair = g.mind() * 1e-4L;
        Exp e = expected(g, p + d * hair, d);
        auto chk = robust(g, p + d * hair, d, 1e-9L);
        if (!chk.ok || (e.state == 1) != in) { m.note("border degenerate"); throw mon::Skip(); }
        if (e.state) { e.first += hair; if (e.second > 0) e.second += hair; }
        auto G = g.make();
        auto q = G->DistanceToBorder(c3(p), c3(d));
        m.describe(g.str() + rs(p, d) + sfmt(" on border moving %s -> (%.17g,%.17g)", in ? "in" : "out", q.first, q.second));
        m.nontrivial();
        m.note(sfmt("border %s face %d %s", kn[g.k], face, in ? "in" : "out"));
        LD L = norm(p - g.c) + g.size() + norm(g.c);
        m.close(q.first, (double)e.first, 0, (double)(1e-7L * L), std::string("first-") + kn[g.k]);
        m.close(q.second, (double)e.second, 0, (double)(1e-7L * L), std::string("second-") + kn[g.k]);
        // a body's own outer border: entering / leaving
        auto back = expected(g, p - d * hair, d * -1);
        (void)back;
    });
}

PROP(G02)
{
    m.cases("predicates", 80000, 4000000, [&](Rng& r) {
        Body g = rbody(r, 1e-2, 1e9, 3);
        V p = rpoint(r, g), d = asdouble(rdir(r));
        if (r.p(0.5)) { V q = g.c + rdir(r) * (g.size() * r.range(0, 0.6)) - p; LD n = norm(q); if (n > 0) d = asdouble(q * (1 / n)); }
        auto G = g.make();
        auto P = c3(p), D = c3(d);
        bool in = G->IsInside(P, D), fr = G->IsInfront(P, D), be = G->IsBehind(P, D);
        auto loc = G->GetLocation(P, D);
        m.describe(g.str() + rs(p, d) + sfmt(" in=%d front=%d behind=%d loc=%d", in, fr, be, (int)loc));
        m.check(in + fr + be == 1, "exactly-one", "in/front/behind do not partition");
        m.check((loc == Geometry::ParticleLocation::InsideGeometry) == in && (loc == Geometry::ParticleLocation::InfrontGeometry) == fr, "location", "GetLocation disagrees with predicates");
        auto rb = robust(g, p, d);
        if (!rb.ok) { m.note("degenerate"); return; }
        m.nontrivial();
        m.note(std::string("strong ") + situation(g, p, d));
        m.sample(m.desc);
        m.check(in == g.contains(p), std::string("inside-") + kn[g.k], "IsInside disagrees with the solid");
        m.check(in == (rb.e.state == 1) && fr == (rb.e.state == 2) && be == (rb.e.state == 0), std::string("state-") + kn[g.k], std::string("expected ") + stn[rb.e.state]);
        // the answer to "inside" cannot depend on the direction looked into
        V d2 = asdouble(rdir(r));
        auto rb2 = robust(g, p, d2);
        if (rb2.ok) m.check(G->IsInside(P, c3(d2)) == in, std::string("inside-direction-") + kn[g.k], "IsInside depends on the direction" + rs(p, d2));
        // away from the border nobody is entering or leaving
        LD hair = std::max(g.surf(p), (LD)0);
        if (hair > 1e-3L * g.mind() && robust(g, p, d * -1).ok) {
            m.check(!G->IsEntering(P, D), std::string("entering-off-border-") + kn[g.k], "IsEntering away from the border");
            m.check(!G->IsLeaving(P, D), std::string("leaving-off-border-") + kn[g.k], "IsLeaving away from the border");
        }
    });
    m.cases("closest-approach", 30000, 500000, [&](Rng& r) {
        Body g = rbody(r, 1e-2, 1e9, 3);
        V p = rpoint(r, g), d = asdouble(rdir(r));
        auto G = g.make();
        double t = G->DistanceToClosestApproach(c3(p), c3(d));
        LD L = norm(p - g.c);
        m.describe(g.str() + rs(p, d) + sfmt(" t=%.17g", t));
        m.nontrivial();
        LD best = norm(p + d * (LD)t - g.c);
        for (LD s : { 1e-3L, 1e-1L, 1.0L })
            for (int sg : { -1, 1 }) m.check(best <= norm(p + d * ((LD)t + sg * s * L) - g.c) + 1e-12L * L, "nearest", sfmt("closer point at %+Lg", sg * s * L));
        LD perp = dot(p + d * (LD)t - g.c, d);
        m.check(fabsl(perp) <= 1e-12L * (L + g.size() + norm(g.c)), "perpendicular", sfmt("residual %Lg", perp));
    });
    m.cases("entering-leaving", 30000, 800000, [&](Rng& r) {
        Body g = rbody(r, 1, 500, 1);
        V n, p;
        if (g.k == K_SPH) { n = rdir(r); p = g.c + n * g.a; }
        else if (g.k == K_CYL) {
            LD ph = r.range(0, 6.283185307);
            if (r.p(0.5)) { n = { cosl(ph), sinl(ph), 0 }; p = g.c + n * g.a; p.z = g.c.z + g.h * r.range(-0.45, 0.45); }
            else { LD rad = g.b + (g.a - g.b) * r.range(0.05, 0.95), s = r.sgn(); p = g.c + V { rad * cosl(ph), rad * sinl(ph), s * g.h / 2 }; n = { 0, 0, s }; }
        } else {
            int f = r.i(0, 2); LD s = r.sgn();
            n = { 0, 0, 0 }; (&n.x)[f] = s;
            V half { g.a / 2, g.b / 2, g.h / 2 };
            p = g.c + V { half.x * r.range(-0.9, 0.9), half.y * r.range(-0.9, 0.9), half.z * r.range(-0.9, 0.9) };
            (&p.x)[f] = (&g.c.x)[f] + s * (&half.x)[f];
        }
        p = asdouble(p);
        V d = r.p(0.3) ? n * r.sgn() : rdir(r);
        d = asdouble(d * (1 / norm(d)));
        if (fabsl(dot(d, n)) < 0.05) throw mon::Skip();
        bool in = dot(d, n) < 0;
        LD hair = g.mind() * 1e-4L;
        // only where the other side of the border is free all the way back
        if (expected(g, p + d * hair, d).state != (in ? 1 : 0) || expected(g, p - d * hair, d * -1).state != (in ? 0 : 1)) throw mon::Skip();
        auto G = g.make();
        auto P = c3(p), D = c3(d);
        m.describe(g.str() + rs(p, d) + (in ? " moving in" : " moving out"));
        m.nontrivial();
        m.note(in ? "border moving in" : "border moving out");
        m.check(G->IsEntering(P, D) == in, std::string("entering-") + kn[g.k], sfmt("IsEntering=%d", !in));
        m.check(G->IsLeaving(P, D) == !in, std::string("leaving-") + kn[g.k], sfmt("IsLeaving=%d", in));
        m.check(G->IsInside(P, D) == in, std::string("border-inside-") + kn[g.k], sfmt("IsInside=%d", !in));
        m.check(G->IsBehind(P, D) == !in, std::string("border-behind-") + kn[g.k], sfmt("IsBehind=%d", in));
    });
}

static json tojson(Rng& r, const Body& g, unsigned hier, bool withh)
{
    json j;
    j["origin"] = { (double)g.c.x, (double)g.c.y, (double)g.c.z };
    static const char* nm[3][3] = { { "sphere", "Sphere", "SPHERE" }, { "cylinder", "Cylinder", "CYLINDER" }, { "box", "Box", "BOX" } };
    j["shape"] = nm[g.k][r.i(0, 2)];
    if (g.k == K_BOX) { j["length"] = (double)g.a; j["width"] = (double)g.b; j["height"] = (double)g.h; }
    else {
        j["outer_radius"] = (double)g.a;
        if (g.b > 0 || r.p(0.5)) j["inner_radius"] = (double)g.b;
        if (g.k == K_CYL) j["height"] = (double)g.h;
    }
    if (withh) j["hierarchy"] = hier;
    return j;
}
template <class F> static bool throws(F f)
{
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}

PROP(G03)
{
    m.cases("configured", 25000, 400000, [&](Rng& r) {
        Body g = rbody(r, r.p(0.3) ? 0.5 : 1, r.p(0.2) ? 1e11 : 1e4, 3);
        bool wh = r.p(0.7);
        unsigned h = wh ? (unsigned)r.i(0, 30) : 0;
        json j = tojson(r, g, h, wh);
        m.describe(j.dump());
        auto C = CreateGeometry(j);
        auto R = g.make();
        m.nontrivial();
        m.sample(j.dump());
        m.check(C->GetHierarchy() == h, "hierarchy", sfmt("%u instead of %u", C->GetHierarchy(), h));
        auto pos = C->GetPosition();
        m.check(pos.GetX() == (double)g.c.x && pos.GetY() == (double)g.c.y && pos.GetZ() == (double)g.c.z, "origin", "wrong origin");
        if (auto s = dynamic_cast<Sphere*>(C.get())) {
            m.check(g.k == K_SPH, "shape", "not a sphere");
            m.check(s->GetRadius() == (double)g.a && s->GetInnerRadius() == (double)g.b, "sphere-dimensions", sfmt("radius %.17g inner %.17g", s->GetRadius(), s->GetInnerRadius()));
        } else if (auto s = dynamic_cast<Cylinder*>(C.get())) {
            m.check(g.k == K_CYL, "shape", "not a cylinder");
            m.check(s->GetRadius() == (double)g.a && s->GetInnerRadius() == (double)g.b && s->GetZ() == (double)g.h, "cylinder-dimensions", sfmt("radius %.17g inner %.17g height %.17g", s->GetRadius(), s->GetInnerRadius(), s->GetZ()));
        } else if (auto s = dynamic_cast<Box*>(C.get())) {
            m.check(g.k == K_BOX, "shape", "not a box");
            m.check(s->GetX() == (double)g.a && s->GetY() == (double)g.b && s->GetZ() == (double)g.h, "box-dimensions", "wrong lengths");
        } else m.check(false, "shape", "unknown class");
        for (int k = 0; k < 4; ++k) {
            V p = rpoint(r, g), d = asdouble(rdir(r));
            auto a = C->DistanceToBorder(c3(p), c3(d)), b = R->DistanceToBorder(c3(p), c3(d));
            m.check(a == b, "behaviour", sfmt("configured (%g,%g) constructed (%g,%g)", a.first, a.second, b.first, b.second));
        }
        // the same description twice gives equal bodies
        m.check(*C == *CreateGeometry(j), "equal-config", "two bodies from one description differ");
    });
    m.cases("rejected", 15000, 100000, [&](Rng& r) {
        Body g = rbody(r, 1, 1e4, 3);
        json j = tojson(r, g, 1, true);
        std::vector<std::string> dims = g.k == K_BOX ? std::vector<std::string> { "length", "width", "height" } : g.k == K_CYL ? std::vector<std::string> { "outer_radius", "height" } : std::vector<std::string> { "outer_radius" };
        std::string what;
        switch (r.i(0, 8)) {
        case 0: what = "no-shape"; j.erase("shape"); break;
        case 1: what = "unknown-shape"; j["shape"] = "torus"; break;
        case 2: what = "no-origin"; j.erase("origin"); break;
        case 3: what = "bad-origin"; j["origin"] = r.p(0.3) ? json("here") : r.p(0.5) ? json({ 1., 2. }) : json({ 1., "x", 3. }); break;
        case 4: what = "missing-dimension"; j.erase(r.pick(dims)); break;
        case 5: what = "text-dimension"; j[r.pick(dims)] = "12"; break;
        case 6: what = "negative-dimension"; j[r.pick(dims)] = -1.5; break;
        case 7: if (g.k == K_BOX) throw mon::Skip(); what = "inner-exceeds-outer"; j["inner_radius"] = (double)g.a * 1.5; break;
        case 8: if (g.k == K_BOX) throw mon::Skip(); what = "negative-inner"; j["inner_radius"] = -0.25; break;
        }
        m.describe(what + " " + j.dump());
        m.nontrivial();
        m.note(std::string("rejected ") + kn[g.k] + " " + what);
        m.check(throws([&] { CreateGeometry(j); }), what + "-" + kn[g.k], "accepted a malformed description");
    });
    m.cases("copies", 20000, 300000, [&](Rng& r) {
        Body g = rbody(r, 1, 1e4, 3);
        auto A = g.make();
        A->SetHierarchy(r.i(0, 5));
        std::shared_ptr<Geometry> B;
        if (g.k == K_SPH) B = std::make_shared<Sphere>(*(Sphere*)A.get());
        else if (g.k == K_CYL) B = std::make_shared<Cylinder>(*(Cylinder*)A.get());
        else B = std::make_shared<Box>(*(Box*)A.get());
        m.describe(g.str());
        m.nontrivial();
        m.check(*A == *B && !(*A != *B) && *B == *A, "copy-equal", "copy differs");
        V p = rpoint(r, g), d = asdouble(rdir(r));
        auto da = A->DistanceToBorder(c3(p), c3(d));
        m.check(da == B->DistanceToBorder(c3(p), c3(d)), "copy-behaves", "copy behaves differently");
        // change one parameter of the copy
        std::string what;
        double f = 1 + r.logr(1e-10, 0.5);
        if (g.k == K_SPH) {
            auto s = (Sphere*)B.get();
            switch (r.i(0, 1)) { case 0: s->SetRadius(s->GetRadius() * f); what = "radius"; break; case 1: s->SetInnerRadius(s->GetInnerRadius() / f + (g.b == 0 ? 0.1 : 0)); what = "inner"; break; }
        } else if (g.k == K_CYL) {
            auto s = (Cylinder*)B.get();
            switch (r.i(0, 2)) { case 0: s->SetRadius(s->GetRadius() * f); what = "radius"; break; case 1: s->SetInnerRadius(s->GetInnerRadius() / f + (g.b == 0 ? 0.1 : 0)); what = "inner"; break; case 2: s->SetZ(s->GetZ() * f); what = "height"; break; }
        } else {
            auto s = (Box*)B.get();
            switch (r.i(0, 2)) { case 0: s->SetX(s->GetX() * f); what = "x"; break; case 1: s->SetY(s->GetY() * f); what = "y"; break; case 2: s->SetZ(s->GetZ() * f); what = "z"; break; }
        }
        if (r.p(0.3)) {
            B = g.make(); B->SetHierarchy(A->GetHierarchy());
            if (r.p(0.5)) { B->SetHierarchy(A->GetHierarchy() + 1); what = "hierarchy"; }
            else { auto q = g.c; (&q.x)[r.i(0, 2)] += 1e-3; B->SetPosition(c3(q)); what = "position"; if (c3(q) == c3(g.c)) throw mon::Skip(); }
        }
        m.note("changed " + what);
        m.check(*A != *B && !(*A == *B) && !(*B == *A), std::string("differ-") + kn[g.k] + "-" + what, "bodies that differ compare equal");
        m.check(da == A->DistanceToBorder(c3(p), c3(d)), "independent", "changing the copy changed the original");
        // a body with the modified parameter behaves like one built with it
        Body g2 = rbody(r, 1, 1e4, 3); g2.k = g.k;
        if (g2.k != K_BOX && g2.b >= g2.a) g2.b = g2.a / 2;
        if (g2.k != K_BOX || true) {
            std::shared_ptr<Geometry> C = g.make();
            C->SetPosition(c3(g2.c));
            if (g.k == K_SPH) { ((Sphere*)C.get())->SetRadius(g2.a); ((Sphere*)C.get())->SetInnerRadius(g2.b); }
            else if (g.k == K_CYL) { auto s = (Cylinder*)C.get(); s->SetRadius(g2.a); s->SetInnerRadius(g2.b); s->SetZ(g2.h); }
            else { auto s = (Box*)C.get(); s->SetX(g2.a); s->SetY(g2.b); s->SetZ(g2.h); }
            auto D = g2.make();
            V p2 = rpoint(r, g2);
            m.check(*C == *D, "setters-equal", "body after setters differs from constructed body");
            m.check(C->DistanceToBorder(c3(p2), c3(d)) == D->DistanceToBorder(c3(p2), c3(d)), "setters-behave", "body after setters behaves differently");
        }
        // different shapes never compare equal
        Body g3 = g; g3.k = (Kind)((g.k + 1) % 3); if (g3.k != K_BOX && g3.b >= g3.a) g3.b = 0;
        auto E = g3.make(); E->SetHierarchy(A->GetHierarchy());
        m.check(*A != *E, "shape-differs", "different shapes compare equal");
    });
    m.cases("swapped-radii", 3000, 20000, [&](Rng& r) {
        Body g = rbody(r, 1, 1e4, 3);
        if (g.k == K_BOX || g.b == 0) throw mon::Skip();
        auto A = g.make();
        std::shared_ptr<Geometry> B;
        if (g.k == K_SPH) B = std::make_shared<Sphere>(c3(g.c), (double)g.b, (double)g.a);
        else B = std::make_shared<Cylinder>(c3(g.c), (double)g.h, (double)g.b, (double)g.a);
        m.describe(g.str()); m.nontrivial();
        m.check(*A == *B, "swapped", "radii given in the wrong order give another body");
    });
}
int main(int c, char** v) { return mon::run(c, v); }
