// Replay driver: executes the commands of generated scenarios on the real library and records, for every command,
// the reply and the projected state as one JSON event.  It contains no expectation about any result.
#include <nikfemm.hpp>

#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

#include "json.hpp"

using namespace nikfemm;
typedef std::vector<double> Vec;

static Vector V2(const J& j) { return Vector(j[0].num(), j[1].num()); }
static Vec VD(const J& j) { Vec v; for (auto& e : j.a) v.push_back(e.num()); return v; }
static std::vector<Vector> VP(const J& j) { std::vector<Vector> v; for (auto& e : j.a) v.push_back(V2(e)); return v; }
static std::string P2(const Vector& v) { return "[" + D(v.x) + "," + D(v.y) + "]"; }
static std::string PS(const std::vector<Vector>& v) { return arr(v, P2); }
static std::string BL(const std::vector<bool>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += Bo(v[i]); } return r + "]"; }

// ---------------------------------------------------------------- properties (materials)
static CurrentDensityProp curProp(const J& j) { return {j.num()}; }
static MagnetostaticProp magProp(const J& j) {
    MagnetostaticProp p{j.num("J", 0), j.has("M") ? V2(j["M"]) : Vector(0, 0), j.num("mu", magnetostatic_materials::air), {}};
    if (j.has("bh")) for (auto& e : j["bh"].a) p.bh_curve.insert({e[0].num(), e[1].num()});
    return p;
}
static std::string propOut(const CurrentDensityProp& p) { return D(p.sigma); }
static std::string propOut(const MagnetostaticProp& p) {
    return O().k("J", D(p.J)).k("M", P2(p.M)).k("mu", D(p.mu)).k("bh", arr(p.bh_curve, [](const BH_Point& b) { return "[" + D(b.B) + "," + D(b.H) + "]"; })).end();
}
template <typename Prop> Prop mkProp(const J& j);
template <> CurrentDensityProp mkProp<CurrentDensityProp>(const J& j) { return curProp(j); }
template <> MagnetostaticProp mkProp<MagnetostaticProp>(const J& j) { return magProp(j); }

// ---------------------------------------------------------------- projections
static std::string cooOut(MatCOOSymmetric<double>& A) {
    std::map<uint64_t, double> m(A.elems.begin(), A.elems.end());
    return arr(m, [](auto& e) { return "[" + I(e.first >> 32) + "," + I(e.first & 0xFFFFFFFF) + "," + D(e.second) + "]"; });
}
static std::string sysOut(System<double>& s) { return O().k("m", I(s.A.m)).k("A", cooOut(s.A)).k("b", arrd(s.b)).end(); }
static std::string nlOut(System<NonLinearExpression>& s, Vec mu) {
    std::map<uint64_t, double> m;
    for (auto& e : s.A.elems) m[e.first] = e.second.evaluate(mu);
    Vec b; for (auto& e : s.b) b.push_back(e.evaluate(mu));
    return O().k("m", I(s.A.m)).k("A", arr(m, [](auto& e) { return "[" + I(e.first >> 32) + "," + I(e.first & 0xFFFFFFFF) + "," + D(e.second) + "]"; })).k("b", arrd(b)).end();
}
static std::string csrOut(const BaseCSR& A) {
    std::string r = "[";
    for (uint32_t i = 0; i < A.m; i++) { if (i) r += ","; r += "["; for (uint32_t j = 0; j < A.m; j++) { if (j) r += ","; r += D(A(i, j)); } r += "]"; }
    return r + "]";
}
template <typename Prop> std::string drawingOut(const Drawing<Prop>& d) {
    return O().k("pts", PS(d.points))
        .k("segs", arr(d.segments, [](const DrawingSegment& s) { return "[" + I(s.p1) + "," + I(s.p2) + "]"; }))
        .k("polys", arr(d.polygons, [](const Polygon& p) { return PS(p.points); }))
        .k("regs", arr(d.regions, [](const DrawingRegion& r) { return "[" + P2(r.first) + "," + I(r.second) + "]"; }))
        .k("props", arr(d.region_map, [](const Prop& p) { return propOut(p); })).end();
}
template <typename Prop> std::string meshOut(Mesh<Prop>& m, bool markers) {
    std::string pts = "[", tris = "[", attr = "[", mk = "[";
    for (int i = 0; i < m.data.numberofpoints; i++) { if (i) { pts += ","; mk += ","; } pts += P2(m.data.pointlist[i]); if (markers) mk += I(m.data.pointmarkerlist[i]); }
    for (int i = 0; i < m.data.numberoftriangles; i++) {
        if (i) { tris += ","; attr += ","; }
        tris += "[" + I(m.data.trianglelist[i][0]) + "," + I(m.data.trianglelist[i][1]) + "," + I(m.data.trianglelist[i][2]) + "]";
        attr += I((long long)m.data.triangleattributelist[i]);
    }
    O o; o.k("pts", pts + "]").k("tris", tris + "]").k("attr", attr + "]").k("center", P2(m.center)).k("radius", D(m.radius)).k("eps", D(m.epsilon)).k("depth", D(m.depth));
    if (markers) o.k("mark", mk + "]");
    return o.end();
}

// ---------------------------------------------------------------- objects of a scenario
struct Obj {
    std::unique_ptr<MatCOOSymmetric<double>> coo;
    std::unique_ptr<MatCSRSymmetric> csr;
    std::unique_ptr<System<double>> sys;
    std::unique_ptr<System<NonLinearExpression>> nls;
    std::unique_ptr<NonLinearMatCSRSymmetric> nlm;
    std::map<std::string, NonLinearExpression> ex;
    std::unique_ptr<CurrentDensityMesh> cdm;
    std::unique_ptr<MagnetostaticMesh> mgm;
    std::unique_ptr<CurrentDensitySimulation> cur;
    std::unique_ptr<MultiLayerCurrentDensitySimulation> mul;
    std::unique_ptr<MagnetostaticSimulation> mag;
    Vec last;
    std::vector<Vector> lastB;
};
static std::map<std::string, Obj> objs;

static CurrentDensityMesh* curMesh(Obj& o, const J& c) {
    if (o.cdm) return o.cdm.get();
    if (o.cur) return &o.cur->mesh;
    if (o.mul) return &o.mul->meshes.at((size_t)c.num("layer", 0));
    return nullptr;
}
static MagnetostaticMesh* magMesh(Obj& o) {
    if (o.mgm) return o.mgm.get();
    if (o.mag) return &o.mag->mesh;
    return nullptr;
}

template <typename Prop> std::string drawOp(Drawing<Prop>& d, const std::string& op, const J& c) {
    if (op == "rect") d.drawRectangle(V2(c["p"]), V2(c["q"]));
    else if (op == "rectwh") d.drawRectangle(V2(c["p"]), c["w"].num(), c["h"].num());
    else if (op == "circle") { if (c.boolean("viaCircle", false)) d.drawCircle(Circle(V2(c["p"]), c["r"].num()), (uint32_t)c["n"].i()); else d.drawCircle(V2(c["p"]), c["r"].num(), (uint32_t)c["n"].i()); }
    else if (op == "poly") {
        auto pts = VP(c["pts"]); std::string how = c.str("how", "vec");
        if (how == "vec") d.drawPolygon(pts);
        else if (how == "ptr") d.drawPolygon(pts.data(), (uint32_t)pts.size());
        else d.drawPolygon(Polygon(pts));
    }
    else if (op == "region") d.drawRegion(V2(c["p"]), mkProp<Prop>(c["prop"]));
    else if (op == "point") d.drawPoint(V2(c["p"]));
    else if (op == "translate") d.translate(V2(c["v"]));
    else if (op == "refine") d.addRefiningPoints();
    else if (op == "polyprop") return O().k("prop", propOut(d.getPolygonProp(Polygon(VP(c["pts"]))))).end();
    else if (op == "regionprop" && c.boolean("byvalue", false)) return O().k("prop", propOut(d.getRegionFromId((uint32_t)c["id"].i()))).end();
    else if (op == "regionprop") return O().k("prop", propOut(*d.getRegionPtrFromId((uint32_t)c["id"].i()))).end();
    else if (op == "regionid") { uint32_t id = d.getRegionId(mkProp<Prop>(c["prop"])); return O().k("id", I(id)).k("d", drawingOut(d)).end(); }
    else if (op == "show") ;
    else if (op == "epsilon") return O().k("v", D(d.getCurrentEpsilon())).end();
    else throw std::logic_error("driver: unknown drawing op " + op);
    return O().k("d", drawingOut(d)).end();
}
template <typename Prop> std::string meshQuery(Mesh<Prop>& m, const std::string& op, const J& c) {
    if (op == "area") return O().k("v", D(m.computeAreaIntegral(V2(c["p"])))).end();
    if (op == "mass") return O().k("v", D(m.computeMass(V2(c["p"]), c["rho"].num()))).end();
    if (op == "bary") return O().k("v", P2(m.computeBarycenter(V2(c["p"])))).end();
    if (op == "inertia") return O().k("v", D(m.computeInertiaMoment(V2(c["p"]), V2(c["c"]), c["rho"].num()))).end();
    if (op == "inner") return O().k("v", PS(m.getInnermostPolygon(V2(c["p"])).points)).end();
    if (op == "grad" || op == "curl") {
        // nodal values of the given affine or pseudo-random function on the mesh at hand
        Vec z(m.data.numberofpoints);
        if (c.has("lin")) for (int i = 0; i < m.data.numberofpoints; i++) z[i] = c["lin"][0].num() + c["lin"][1].num() * m.data.pointlist[i].x + c["lin"][2].num() * m.data.pointlist[i].y;
        else { uint64_t h = (uint64_t)c["rnd"].i() * 2654435761u + 12345; for (int i = 0; i < m.data.numberofpoints; i++) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; z[i] = (double)((h >> 33) % 2001) / 1000.0 - 1.0; } }
        Vec z0 = z;
        auto g = op == "grad" ? m.computeGrad(z) : m.computeCurl(z);
        return O().k("z", arrd(z0)).k("z2", arrd(z)).k("v", PS(g)).end();
    }
    throw std::logic_error("driver: unknown mesh query " + op);
}

static std::string boundaryNote;

// ---------------------------------------------------------------- commands
static std::string scratch;

static std::string algebra(const std::string& op, const J& c, Obj& o) {
    if (op == "coo") { o.coo.reset(new MatCOOSymmetric<double>((uint32_t)c["m"].i())); return O().k("A", cooOut(*o.coo)).end(); }
    if (op == "set") { (*o.coo)((uint32_t)c["i"].i(), (uint32_t)c["j"].i()) = c["v"].num(); return O().k("A", cooOut(*o.coo)).end(); }
    if (op == "acc") { (*o.coo)((uint32_t)c["i"].i(), (uint32_t)c["j"].i()) += c["v"].num(); return O().k("A", cooOut(*o.coo)).end(); }
    if (op == "get") { double v = (*o.coo)((uint32_t)c["i"].i(), (uint32_t)c["j"].i()); return O().k("v", D(v)).end(); }
    if (op == "compress") {
        o.csr.reset(new MatCSRSymmetric(*o.coo));
        MatCSRSymmetric cp(*o.csr); MatCSRLowerTri lo(*o.csr); MatCSRUpperTri up(*o.csr); MatCSRUpperTri up2(*o.coo); MatCSRLowerTri lo2(*o.coo);
        std::string f = scratch + "/mat.txt";
        o.csr->write_to_file(f.c_str());
        std::ifstream in(f); std::string rows = "[", line; bool first = true;
        while (std::getline(in, line)) {
            if (!first) rows += ","; first = false; rows += "["; const char* p = line.c_str(); bool f1 = true; char* e;
            while (true) { double d = strtod(p, &e); if (e == p) break; if (!f1) rows += ","; f1 = false; rows += D(d); p = e; }
            rows += "]";
        }
        return O().k("m", I(o.csr->m)).k("M", csrOut(*o.csr)).k("copy", csrOut(cp)).k("lower", csrOut(lo)).k("upper", csrOut(up)).k("upper2", csrOut(up2)).k("lower2", csrOut(lo2)).k("file", rows + "]").k("A", cooOut(*o.coo)).end();
    }
    if (op == "mult") {
        Vec x = VD(c["x"]), y(x.size(), c.num("fill", 0)); std::string k = c["kind"].s;
        if (k == "sym") mult(y, *o.csr, x);
        else if (k == "lower") { MatCSRLowerTri l(*o.csr); mult(y, l, x); }
        else { MatCSRUpperTri u(*o.csr); mult(y, u, x); }
        return O().k("y", arrd(y)).k("x", arrd(x)).k("M", csrOut(*o.csr)).end();
    }
    if (op == "vec") {
        Vec a = VD(c["a"]), b = c.has("b") ? VD(c["b"]) : a; double d = c.num("d", 0); std::string f = c["f"].s, al = c.str("alias", "none");
        Vec r(a.size(), -77); Vec& out = al == "a" ? a : al == "b" ? b : r;
        if (f == "scale") mult(out, d, a);
        else if (f == "mulv") mult(out, a, b);
        else if (f == "addv") add(out, a, b);
        else if (f == "subv") sub(out, a, b);
        else if (f == "divd") div(out, a, d);
        else if (f == "divv") div(out, a, b);
        else if (f == "subd") sub(out, a, d);
        else if (f == "addd") add(out, a, d);
        else if (f == "addscaled") addScaled(out, a, d, b);
        else if (f == "copy") copy(out, a);
        else throw std::logic_error("driver: vec op");
        return O().k("y", arrd(out)).k("a", arrd(a)).k("b", arrd(b)).end();
    }
    if (op == "red") {
        Vec a = VD(c["a"]), b = c.has("b") ? VD(c["b"]) : a; std::string f = c["f"].s; std::string r;
        if (f == "dot") r = D(dot(a, b)); else if (f == "norm") r = D(norm(a)); else if (f == "sq") r = D(squareSum(a));
        else if (f == "isnan") r = Bo(nikfemm::isnan(a));
        else if (f == "isnanm") r = Bo(nikfemm::isnan(*o.csr));
        else if (f == "enorm") { std::vector<Vector> v; for (size_t i = 0; i < a.size(); i++) v.push_back(Vector(a[i], b[i])); r = arrd(element_wise_norm(v)); }
        else throw std::logic_error("driver: red op");
        return O().k("v", r).k("a", arrd(a)).k("b", arrd(b)).end();
    }
    if (op == "nanmat") {   // a matrix of its own
        MatCOOSymmetric<double> m((uint32_t)c["m"].i());
        for (auto& e : c["A"].a) m((uint32_t)e[0].i(), (uint32_t)e[1].i()) = e[2].num();
        MatCSRSymmetric s(m); Vec one; for (auto& e : c["A"].a) one.push_back(nikfemm::isnan(e[2].num()) ? 1 : 0);
        return O().k("v", Bo(nikfemm::isnan(s))).k("one", arrd(one)).end();
    }
    if (op == "lsolve") {
        Vec b = VD(c["b"]), x = VD(c["x0"]); std::string s = c["solver"].s; double tol = c["tol"].num(); uint32_t it = (uint32_t)c["iters"].i();
        if (s == "cg") conjugateGradientSolver(*o.csr, b, x, tol, it);
        else if (s == "jacobi") preconditionedJacobiConjugateGradientSolver(*o.csr, b, x, tol, it);
        else if (s == "ssor") preconditionedSSORConjugateGradientSolver(*o.csr, b, x, c["omega"].num(), tol, it);
        else preconditionedIncompleteCholeskyConjugateGradientSolver(*o.csr, b, x, tol, it);
        return O().k("x", arrd(x)).k("b", arrd(b)).k("M", csrOut(*o.csr)).end();
    }
    if (op == "sys") {
        uint32_t m = (uint32_t)c["m"].i(); o.sys.reset(new System<double>(m));
        for (auto& e : c["A"].a) o.sys->A((uint32_t)e[0].i(), (uint32_t)e[1].i()) = e[2].num();
        for (uint32_t i = 0; i < m; i++) o.sys->b[i] = c["b"][i].num();
        return O().k("s", sysOut(*o.sys)).end();
    }
    if (op == "fix") {
        if (o.nls) { o.nls->addDirichletBoundaryCondition((uint32_t)c["id"].i(), c["v"].num()); return O().k("s", nlOut(*o.nls, VD(c["mu"]))).end(); }
        o.sys->addDirichletBoundaryCondition((uint32_t)c["id"].i(), c["v"].num()); return O().k("s", sysOut(*o.sys)).end();
    }
    if (op == "syssolve") {
        Vec x(o.sys->b.size()); MatCSRSymmetric M(o.sys->A);
        preconditionedSSORConjugateGradientSolver(M, o.sys->b, x, 1.5, c["tol"].num(), (uint32_t)c["iters"].i());
        return O().k("x", arrd(x)).k("s", sysOut(*o.sys)).end();
    }
    if (op == "syscopy") { Obj& t = objs[c["to"].s]; t.sys.reset(new System<double>(*o.sys)); return O().k("s", sysOut(*t.sys)).end(); }
    // ---- nonlinear expressions: registers
    if (op == "ex") {
        std::string f = c["f"].s; auto& r = o.ex; NonLinearExpression& t = r[c["t"].s];
        if (f == "setd") t = c["v"].num();
        else if (f == "sete") t = r[c["u"].s];
        else if (f == "addd") t += c["v"].num();
        else if (f == "subd") t -= c["v"].num();
        else if (f == "addt") t += NonLinearTerm{c["v"].num(), (uint32_t)c["k"].i()};
        else if (f == "subt") t -= NonLinearTerm{c["v"].num(), (uint32_t)c["k"].i()};
        else if (f == "adde") { NonLinearExpression u = r[c["u"].s]; t += u; }
        else if (f == "sube") { NonLinearExpression u = r[c["u"].s]; t -= u; }
        else if (f == "mul") t = r[c["u"].s] * c["v"].num();
        else throw std::logic_error("driver: ex");
        Vec mu = VD(c["mu"]);
        return O().k("v", arr(r, [&](auto& e) { auto x = e.second; return "[" + esc(e.first) + "," + D(x.evaluate(mu)) + "," + Bo(x.isLinear()) + "]"; })).k("mu", arrd(mu)).end();
    }
    if (op == "nls") {
        uint32_t m = (uint32_t)c["m"].i(); o.nls.reset(new System<NonLinearExpression>(m));
        for (auto& e : c["A"].a) {
            NonLinearExpression& x = o.nls->A((uint32_t)e[0].i(), (uint32_t)e[1].i());
            x += e[2].num();
            for (auto& t : e[3].a) x += NonLinearTerm{t[0].num(), (uint32_t)t[1].i()};
        }
        for (uint32_t i = 0; i < m; i++) o.nls->b[i] += c["b"][i].num();
        return O().k("s", nlOut(*o.nls, VD(c["mu"]))).end();
    }
    if (op == "nlcompress") { o.nlm.reset(new NonLinearMatCSRSymmetric(o.nls->A)); return O().k("m", I(o.nlm->m)).end(); }
    if (op == "nleval") {
        Vec mu = VD(c["mu"]); o.nlm->evaluate(mu);
        Vec b; for (auto& e : o.nls->b) b.push_back(e.evaluate(mu));
        return O().k("M", csrOut(*o.nlm)).k("b", arrd(b)).k("mu", arrd(mu)).k("s", nlOut(*o.nls, mu)).end();
    }
    if (op == "bh") {
        MagnetostaticProp p = magProp(c["prop"]); Vec r; for (auto& b : c["B"].a) r.push_back(p.getMu(b.num()));
        return O().k("mu", arrd(r)).k("lin", Bo(p.isLinear())).end();
    }
    if (op == "propeq") {
        if (!c["a"].has("mu")) { CurrentDensityProp a{c["a"]["sigma"].num()}, b{c["b"]["sigma"].num()}; return O().k("eq", Bo(a == b)).k("ne", Bo(a != b)).end(); }
        auto a = magProp(c["a"]), b = magProp(c["b"]);
        return O().k("eq", Bo(a == b)).k("ne", Bo(a != b)).end();
    }
    throw std::logic_error("driver: unknown op " + op);
}

static std::string geometry(const std::string& op, const J& c) {
    if (op == "contains") {
        Polygon p(VP(c["poly"])); std::vector<bool> r; for (auto& q : c["q"].a) r.push_back(p.contains(V2(q)));
        return O().k("v", BL(r)).end();
    }
    if (op == "containsb") {
        Polygon p(VP(c["poly"])); std::vector<bool> r, r2; for (auto& q : c["q"].a) { r.push_back(p.contains(V2(q), true, c["eps"].num())); r2.push_back(p.contains(V2(q), false, c["eps"].num())); }
        return O().k("in", BL(r)).k("out", BL(r2)).end();
    }
    if (op == "polyin") { Polygon p(VP(c["poly"])), q(VP(c["q"])); return O().k("v", Bo(p.contains(q))).end(); }
    if (op == "polyeq") { Polygon p(VP(c["poly"])), q(VP(c["q"])); return O().k("eq", Bo(p == q)).k("ne", Bo(p != q)).end(); }
    if (op == "isect") {
        std::vector<bool> r;
        for (auto& q : c["q"].a) { r.push_back(Segment::segmentsIntersect(V2(q[0]), V2(q[1]), V2(q[2]), V2(q[3]))); }
        return O().k("v", BL(r)).end();
    }
    if (op == "dist") {
        Vec r; for (auto& q : c["q"].a) { r.push_back(Segment::pointSegmentDistance(V2(q[0]), V2(q[1]), V2(q[2]))); r.push_back(Segment::pointSegmentDistance(V2(q[0]), Segment(V2(q[1]), V2(q[2])))); }
        return O().k("v", arrd(r)).end();
    }
    if (op == "vecs") {  // all vector primitives on a triple of points and a scalar
        Vector a = V2(c["a"]), b = V2(c["b"]), p = V2(c["p"]); double t = c["t"].num();
        Vector tr = a; tr.translate(b); Vector nz = a; nz.normalize();
        return O().k("add", P2(a + b)).k("sub", P2(a - b)).k("mul", P2(a * t)).k("neg", P2(-a)).k("dot", D(a * b)).k("cross", D(a ^ b)).k("norm", D(a.norm())).k("norm2", D(a.normSquared()))
            .k("normal", P2(a.normal())).k("unit", P2(nz)).k("tr", P2(tr)).k("rot", P2(a.rotate(t))).k("rotc", P2(a.rotate(t, b))).k("area2", D(Vector::doubleOrientedArea(a, b, p))).k("area", D(Vector::area(a, b, p)))
            .k("oarea", D(Vector::orientedArea(a, b, p))).k("dist", D(Vector::distance(a, b))).k("dist2", D(Vector::distanceSquared(a, b))).k("lerp", P2(Vector::lerp(a, b, t))).k("mid", P2(Vector::midPoint(a, b)))
            .k("ang", D(Vector::orientedAngle(a, b, p))).k("aang", D(Vector::absoluteAngle(a, b, p))).k("eq", Bo(a == b)).k("ne", Bo(a != b)).k("len", D(Segment(a, b).length())).end();
    }
    if (op == "polyxf") {
        Polygon p(VP(c["poly"])); std::string before = PS(p.points); Polygon cp = p.copy(), cr = p.copy();
        cp.translate(V2(c["v"])); cr.rotate(c["t"].num(), V2(c["v"]));
        return O().k("tr", PS(cp.points)).k("rot", PS(cr.points)).k("orig", PS(p.points)).end();
    }
    if (op == "circ") {
        auto pts = VP(c["pts"]); Circle e = Circle::getEnclosingCircle(pts);
        return O().k("c", P2(e.center)).k("r", D(e.radius)).k("pts", PS(pts)).end();
    }
    if (op == "mincirc") {
        auto pts = VP(c["pts"]); srand((unsigned)c.num("srand", 1));
        if (c.boolean("set", false)) { Circle e = Circle::getMinimumEnclosingCircle(std::unordered_set<Vector>(pts.begin(), pts.end())); return O().k("c", P2(e.center)).k("r", D(e.radius)).end(); }
        if (c.boolean("few", false)) { Circle e = Circle::trivialCircleFromPoints(pts); return O().k("c", P2(e.center)).k("r", D(e.radius)).end(); }
        Circle e = Circle::getMinimumEnclosingCircle(pts);
        return O().k("c", P2(e.center)).k("r", D(e.radius)).k("pts", PS(pts)).end();
    }
    if (op == "thru") { auto p = VP(c["pts"]); Circle e = p.size() == 2 ? Circle::getCircleFromPoints(p[0], p[1]) : Circle::getCircleFromPoints(p[0], p[1], p[2]); return O().k("c", P2(e.center)).k("r", D(e.radius)).end(); }
    if (op == "disc") {
        Circle a(V2(c["c"]), c["r"].num()), b(V2(c["c2"]), c["r2"].num()); auto q = VP(c["q"]); std::vector<bool> in; for (auto& p : q) in.push_back(a.contains(p));
        return O().k("in", BL(in)).k("all", Bo(a.containsPoints(q))).k("eq", Bo(a == b)).k("ne", Bo(a != b)).k("len", D(a.circumference())).end();
    }
    if (op == "segs") {
        std::vector<bool> box, box2, eq, ne;
        for (auto& q : c["q"].a) {
            Vector p = V2(q[0]); Segment s(V2(q[1]), V2(q[2])), t(V2(q[3]), V2(q[4]));
            box.push_back(Segment::pointInSegmentBB(p, s)); box2.push_back(Segment::pointInSegmentBB(p, s.p1, s.p2)); eq.push_back(s == t); ne.push_back(s != t);
        }
        return O().k("box", BL(box)).k("box2", BL(box2)).k("eq", BL(eq)).k("ne", BL(ne)).end();
    }
    throw std::logic_error("driver: unknown geometry op " + op);
}

static std::string simulation(const std::string& op, const J& c, Obj& o, const std::string& name) {
    if (op == "new") {
        std::string k = c["kind"].s; o = Obj();
        if (k == "cur") o.cur.reset(c.has("depth") ? new CurrentDensitySimulation(c["depth"].num()) : new CurrentDensitySimulation());
        else if (k == "mul") o.mul.reset(c.has("depths") ? new MultiLayerCurrentDensitySimulation((uint32_t)c["n"].i(), VD(c["depths"])) : new MultiLayerCurrentDensitySimulation((uint32_t)c["n"].i()));
        else if (k == "mag") { o.mag.reset(new MagnetostaticSimulation()); if (c.has("depth")) { o.mag->depth = c["depth"].num(); o.mag->mesh.depth = c["depth"].num(); } }
        else if (k == "cdm") { o.cdm.reset(new CurrentDensityMesh()); o.cdm->depth = c.num("depth", 1); }
        else if (k == "mgm") o.mgm.reset(new MagnetostaticMesh());
        else throw std::logic_error("driver: kind");
        return O().k("ok", Bo(true)).end();
    }
    if (op == "dirty") {   // memory that others used and gave back
        std::vector<void*> v; size_t n = (size_t)c["n"].i();
        for (size_t i = 0; i < n; i++) { size_t s = 16u << (i % 12); void* p = malloc(s); if (p) memset(p, (int)c["b"].i(), s); v.push_back(p); }
        for (size_t i = 0; i < n; i++) free(v[(i * 7) % n] ), v[(i * 7) % n] = nullptr;
        for (auto p : v) free(p);
        return O().k("ok", Bo(true)).end();
    }
    if (op == "del") { objs.erase(name); return O().k("ok", Bo(true)).end(); }
    if (op == "mesh") {   // mesh a bare drawing
        if (o.cdm) { o.cdm->mesh(c["area"].num(), (int)c["angle"].i()); o.cdm->computeEpsilon(); return O().k("mesh", meshOut(*o.cdm, true)).k("d", drawingOut(o.cdm->drawing)).end(); }
        o.mgm->mesh(c["area"].num(), (int)c["angle"].i()); o.mgm->computeEpsilon(); return O().k("mesh", meshOut(*o.mgm, true)).k("d", drawingOut(o.mgm->drawing)).end();
    }
    if (op == "connect") {
        o.mul->interconnections.push_back({V2(c["p1"]), V2(c["p2"]), (uint64_t)c["l1"].i(), (uint64_t)c["l2"].i(), c["R"].num()});
        return O().k("n", I(o.mul->interconnections.size())).end();
    }
    if (op == "gen") {
        bool refine = c.boolean("refine", false); double area = c.num("area", 1); int ang = (int)c.num("angle", 33);
        if (o.cur) {
            o.sys.reset(new System<double>(o.cur->generateSystem(refine, area, ang)));
            return O().k("mesh", meshOut(o.cur->mesh, true)).k("d", drawingOut(o.cur->mesh.drawing)).k("s", sysOut(*o.sys)).end();
        }
        if (o.mul) {
            o.sys.reset(new System<double>(o.mul->generateSystem(refine, area, ang)));
            O r; r.k("meshes", arr(o.mul->meshes, [](const CurrentDensityMesh& m) { return meshOut(const_cast<CurrentDensityMesh&>(m), true); }));
            r.k("ds", arr(o.mul->meshes, [](const CurrentDensityMesh& m) { return drawingOut(m.drawing); })).k("s", sysOut(*o.sys));
            if (c.boolean("layers", false)) { std::string ls = "["; for (size_t i = 0; i < o.mul->meshes.size(); i++) { if (i) ls += ","; auto s = o.mul->meshes[i].getFemSystem(); ls += sysOut(s); } r.k("layers", ls + "]"); }
            r.k("ics", arr(o.mul->interconnections, [](const CurrentDensityInterconnection& x) { return O().k("p1", P2(x.p1)).k("p2", P2(x.p2)).k("l1", I(x.layer1_id)).k("l2", I(x.layer2_id)).k("R", D(x.R)).end(); }));
            return r.end();
        }
        bool rm = c.boolean("refmag", false);
        o.nls.reset(new System<NonLinearExpression>(o.mag->generateSystem(refine, area, ang, rm)));
        auto& m = o.mag->mesh; O r; r.k("mesh", meshOut(m, false)).k("d", drawingOut(m.drawing));
        // evaluate the system for unit and for pseudo-random permeabilities
        Vec mu1(m.data.numberoftriangles, 1.0), mu2(m.data.numberoftriangles);
        for (size_t i = 0; i < mu2.size(); i++) mu2[i] = 0.5 + (double)((i * 7919 + 13) % 97) / 64.0;
        r.k("mu2", arrd(mu2)).k("s1", nlOut(*o.nls, mu1)).k("s2", nlOut(*o.nls, mu2));
        return r.end();
    }
    if (op == "magsys") {   // assembled system without the far-field constraint, on the current mesh
        auto& m = *magMesh(o); auto s = m.getFemSystem();
        Vec mu1(m.data.numberoftriangles, 1.0), mu2(m.data.numberoftriangles);
        for (size_t i = 0; i < mu2.size(); i++) mu2[i] = 0.5 + (double)((i * 7919 + 13) % 97) / 64.0;
        return O().k("mu2", arrd(mu2)).k("s1", nlOut(s, mu1)).k("s2", nlOut(s, mu2)).end();
    }
    if (op == "fem") { auto s = o.cur ? o.cur->mesh.getFemSystem() : o.cdm->getFemSystem(); return O().k("s", sysOut(s)).end(); }
    if (op == "cot") { auto s = o.cur ? o.cur->mesh.getFemSystemCotangentWeights() : o.cdm->getFemSystemCotangentWeights(); return O().k("s", sysOut(s)).end(); }
    if (op == "setv") {
        if (o.cur) o.cur->setVoltage(*o.sys, V2(c["p"]), c["V"].num()); else o.mul->setVoltage(*o.sys, V2(c["p"]), c["V"].num(), (uint64_t)c["layer"].i());
        return O().k("s", sysOut(*o.sys)).end();
    }
    if (op == "solve") {
        if (o.cur) o.last = o.cur->solve(*o.sys);
        else if (o.mul) o.last = o.mul->solve(*o.sys);
        else {
            o.last = o.mag->solve(*o.nls); o.lastB = o.mag->mesh.computeCurl(o.last);
            auto& m = o.mag->mesh; Vec mu(m.data.numberoftriangles);
            for (int i = 0; i < m.data.numberoftriangles; i++) mu[i] = m.drawing.getRegionPtrFromId(m.data.triangleattributelist[i])->getMu(o.lastB[i].norm());
            return O().k("x", arrd(o.last)).k("B", PS(o.lastB)).k("mu", arrd(mu)).k("sm", nlOut(*o.nls, mu)).end();
        }
        return O().k("x", arrd(o.last)).k("s", sysOut(*o.sys)).end();
    }
    if (op == "power") {
        if (c.has("V")) o.last = VD(c["V"]);
        size_t n = 0; for (auto& m : o.mul->meshes) n += m.data.numberofpoints;
        if (o.last.size() != n) o.last.assign(n, 0);
        if (c.has("rnd")) { uint64_t h = (uint64_t)c["rnd"].i() * 2654435761u + 12345; for (auto& z : o.last) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; z = (double)((h >> 33) % 2001) / 1000.0 - 1.0; } }
        Vec v0 = o.last; auto P = o.mul->computePowerDensity(o.last);
        return O().k("V", arrd(v0)).k("V2", arrd(o.last)).k("P", arrd(P)).end();
    }
    if (op == "force") return O().k("v", P2(o.mag->computeForceIntegrals(o.lastB, V2(c["p"])))).end();
    if (op == "torque") return O().k("v", D(o.mag->computeTorqueIntegral(o.lastB, V2(c["p"]), V2(c["c"])))).end();
    if (op == "stress") { auto s = o.mag->computeStressIntegral(o.lastB, V2(c["p"]), V2(c["c"])); return O().k("f", P2(s.Force)).k("t", D(s.Torque)).end(); }
    if (op == "setB") { for (auto& b : o.lastB) b = V2(c["B"]); return O().k("n", I(o.lastB.size())).end(); }
    if (op == "scaleB") { for (auto& b : o.lastB) b = b * c["k"].num(); return O().k("n", I(o.lastB.size())).end(); }
    if (op == "depth") { o.mag->depth = c["v"].num(); o.mag->mesh.depth = c["v"].num(); return O().k("ok", Bo(true)).end(); }
    if (op == "refmag") { auto m = magMesh(o); m->refineMeshAroundMagnets(); return O().k("d", drawingOut(m->drawing)).end(); }
    static const char* dops[] = {"rect", "rectwh", "circle", "poly", "region", "point", "translate", "refine", "polyprop", "regionprop", "regionid", "epsilon", "show"};
    for (auto d : dops) if (op == d) { if (auto m = curMesh(o, c)) return drawOp(m->drawing, op, c); return drawOp(magMesh(o)->drawing, op, c); }
    if (auto m = curMesh(o, c)) return meshQuery(*m, op, c);
    if (auto m = magMesh(o)) return meshQuery(*m, op, c);
    throw std::logic_error("driver: unknown simulation op " + op);
}

static std::string exec(const J& c) {
    std::string g = c.str("g", "sim"), op = c["op"].s, name = c.str("o", "a");
    if (g == "geo") return geometry(op, c);
    Obj& o = objs[name];
    if (g == "alg") return algebra(op, c, o);
    return simulation(op, c, o, name);
}

static std::string reply(const J& c) {
    try { return exec(c); }
    catch (const std::logic_error& e) { std::string w = e.what(); return O().k(w.rfind("driver:", 0) == 0 ? "driver" : "exc", esc(w)).end(); }
    catch (const std::exception& e) { return O().k("exc", esc(e.what())).end(); }
    catch (...) { return O().k("exc", esc("unknown")).end(); }
}

// A second process, started before the first command of the scenario: it executes the commands marked "proc".
struct Helper {
    static int to, from;
    static void start(const std::vector<J>& cmds, unsigned limit) {
        int a[2], b[2]; if (pipe(a) || pipe(b)) _exit(9);
        pid_t p = fork();
        if (p == 0) {
            close(a[1]); close(b[0]); alarm(limit);
            unsigned long k;
            while (read(a[0], &k, sizeof k) == (ssize_t)sizeof k) {
                std::string r = reply(cmds[k]) + "\n"; size_t n = 0;
                while (n < r.size()) { ssize_t w = write(b[1], r.data() + n, r.size() - n); if (w <= 0) _exit(9); n += (size_t)w; }
            }
            _exit(0);
        }
        close(a[0]); close(b[1]); to = a[1]; from = b[0]; signal(SIGPIPE, SIG_IGN);
    }
    static std::string ask(unsigned long k) {
        std::string r; char t[65536]; ssize_t n;
        if (write(to, &k, sizeof k) == (ssize_t)sizeof k)
            while ((n = read(from, t, sizeof t)) > 0) { r.append(t, (size_t)n); if (r.back() == '\n') { r.pop_back(); return r; } }
        return O().k("crash", esc("helper ended")).end();
    }
};
int Helper::to = -1, Helper::from = -1;

static int efd = -1;
static void put(const std::string& s) { size_t k = 0; while (k < s.size()) { ssize_t w = write(efd, s.data() + k, s.size() - k); if (w <= 0) _exit(9); k += (size_t)w; } }

int main(int argc, char** argv) {
    // driver IN OUT SCRATCH TIMEOUT SHARD NSHARDS
    if (argc < 7) { fprintf(stderr, "usage\n"); return 2; }
    std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w"); scratch = argv[3];
    unsigned limit = (unsigned)atoi(argv[4]); long shard = atol(argv[5]), nsh = atol(argv[6]);
    std::string line; long k = -1;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        if (++k % nsh != shard) continue;
        J sc = JParse().parse(line);
        int fd[2]; if (pipe(fd)) return 2;
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]); efd = fd[1];
            int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
            alarm(limit);
            struct rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc);
#if !defined(__SANITIZE_ADDRESS__)
            struct rlimit as = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &as);
#endif
            for (auto& c : sc["cmds"].a) if (c.has("proc")) { Helper::start(sc["cmds"].a, limit); break; }
            for (auto& c : sc["cmds"].a) {
                put("\x01{\"c\":" + dump(c) + ",\"r\":");
                put((c.has("proc") ? Helper::ask(&c - &sc["cmds"].a[0]) : reply(c)) + "}\x02");
            }
            _exit(0);
        }
        close(fd[1]);
        std::string buf; char tmp[65536]; ssize_t n;
        while ((n = read(fd[0], tmp, sizeof tmp)) > 0) buf.append(tmp, (size_t)n);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        std::string ev = "["; size_t p = 0; bool first = true;
        while (p < buf.size() && buf[p] == '\x01') {
            size_t e = buf.find('\x02', p + 1), nx = buf.find('\x01', p + 1);
            std::string t;
            if (e != std::string::npos && (nx == std::string::npos || e < nx)) t = buf.substr(p + 1, e - p - 1);
            else {  // command did not return
                t = buf.substr(p + 1); size_t q = t.find(",\"r\":"); (void)q;
                std::string w = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : "signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st));
                size_t rr = t.rfind(",\"r\":"); t = t.substr(0, rr) + ",\"r\":" + O().k("crash", esc(w)).end() + "}"; e = buf.size();
            }
            if (!first) ev += ","; first = false; ev += t; p = e + 1;
        }
        fprintf(out, "{\"id\":%s,\"ev\":%s]}\n", dump(sc["id"]).c_str(), ev.c_str());
    }
    fclose(out);
    return 0;
}
