// C20: lattice geometry conversions are consistent.
#include <functional>
#include "mc.hpp"
#include "structs.hpp"
#include <diffpy/mathutils.hpp>
#include <diffpy/srreal/Lattice.hpp>

using namespace mc;
using namespace diffpy::srreal;
using ref::V3;
using ref::M3;

const Info mcinfo = {
    "C20", "model_checking",
    "All sequences of setters up to the depth bound (lattice parameters, base "
        "vectors in several orientations, degenerate and left-handed bases) "
        "against a model of base and orientation, with all geometry data "
        "compared after every step. All lattices of a parameter grid by all "
        "vectors of a grid for conversions, all nested compositions of "
        "conversions up to the depth bound, angle functions on a grid. "
        "An outcome is the set of geometry data.",
    "setter sequences of depth 4 over 17 operations; 410 lattices; 343 "
        "vectors; compositions of depth 4 over 9 functions",
    "setter sequences of depth 5, compositions of depth 5",
    {"numbers are compared to 1e-9 relative"},
    60
};

namespace {

R3::Vector rv3(const V3& v)  { return R3::Vector(v[0], v[1], v[2]); }
V3 fromR3(const R3::Vector& v)  { return ref::v3(v[0], v[1], v[2]); }
M3 fromR3(const R3::Matrix& m)
{
    M3 rv;
    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
        rv[i][j] = m(i, j);
    return rv;
}
R3::Matrix rm3(const M3& m)
{
    R3::Matrix rv;
    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
        rv(i, j) = m[i][j];
    return rv;
}

void eqv(const V3& a, const V3& b, const char* sig, const std::string& what,
        double scale=1.0)
{
    for (int k = 0; k < 3; ++k)
        require(close(a[k], b[k], 1e-9, 1e-9 * scale), sig, what, "[", k,
                "] is ", a[k], " instead of ", b[k]);
}
void eqm(const M3& a, const M3& b, const char* sig, const std::string& what,
        double scale=1.0)
{
    for (int k = 0; k < 3; ++k)  eqv(a[k], b[k], sig, what, scale);
}
void eq(double a, double b, const char* sig)
{
    require(close(a, b, 1e-9), sig, sig, " is ", a, " instead of ", b);
}

double deg(double x)  { return x * 180 / M_PI; }

/// rotation matrix by angle in degrees about an axis
M3 rotation(V3 n, double angle)
{
    n = (1 / ref::norm(n)) * n;
    double c = std::cos(angle * M_PI / 180), s = std::sin(angle * M_PI / 180);
    M3 rv;
    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
        rv[i][j] = (1 - c) * n[i] * n[j] + (i == j ? c : 0.0);
    rv[0][1] -= s * n[2]; rv[1][0] += s * n[2];
    rv[0][2] += s * n[1]; rv[2][0] -= s * n[1];
    rv[1][2] -= s * n[0]; rv[2][1] += s * n[0];
    return rv;
}

/// expected state of a lattice
struct Model
{
    M3 base, rot;
};

/// check all geometry data
uint64_t checkdata(const Lattice& L, const Model& m)
{
    const M3& b = m.base;
    eqm(fromR3(L.base()), b, "base", "base");
    M3 rb = ref::inv(b);
    eqm(fromR3(L.recbase()), rb, "recbase", "recbase");
    double l[3], ang[3], lr[3], angr[3];
    V3 rec[3];
    for (int k = 0; k < 3; ++k)
    {
        rec[k] = ref::v3(rb[0][k], rb[1][k], rb[2][k]);
        l[k] = ref::norm(b[k]);
        lr[k] = ref::norm(rec[k]);
    }
    for (int k = 0; k < 3; ++k)
    {
        int i = (k + 1) % 3, j = (k + 2) % 3;
        ang[k] = std::acos(ref::dot(b[i], b[j]) / l[i] / l[j]);
        angr[k] = std::acos(ref::dot(rec[i], rec[j]) / lr[i] / lr[j]);
    }
    eq(L.a(), l[0], "a");
    eq(L.b(), l[1], "b");
    eq(L.c(), l[2], "c");
    eq(L.alpha(), deg(ang[0]), "alpha");
    eq(L.beta(), deg(ang[1]), "beta");
    eq(L.gamma(), deg(ang[2]), "gamma");
    eq(L.cosalpha(), cos(ang[0]), "cosalpha");
    eq(L.cosbeta(), cos(ang[1]), "cosbeta");
    eq(L.cosgamma(), cos(ang[2]), "cosgamma");
    eq(L.sinalpha(), sin(ang[0]), "sinalpha");
    eq(L.sinbeta(), sin(ang[1]), "sinbeta");
    eq(L.singamma(), sin(ang[2]), "singamma");
    eq(L.ar(), lr[0], "ar");
    eq(L.br(), lr[1], "br");
    eq(L.cr(), lr[2], "cr");
    eq(L.alphar(), deg(angr[0]), "alphar");
    eq(L.betar(), deg(angr[1]), "betar");
    eq(L.gammar(), deg(angr[2]), "gammar");
    eq(L.cosalphar(), cos(angr[0]), "cosalphar");
    eq(L.cosbetar(), cos(angr[1]), "cosbetar");
    eq(L.cosgammar(), cos(angr[2]), "cosgammar");
    eq(L.sinalphar(), sin(angr[0]), "sinalphar");
    eq(L.sinbetar(), sin(angr[1]), "sinbetar");
    eq(L.singammar(), sin(angr[2]), "singammar");
    eqv(fromR3(L.va()), b[0], "va", "va");
    eqv(fromR3(L.vb()), b[1], "vb", "vb");
    eqv(fromR3(L.vc()), b[2], "vc", "vc");
    eqv(fromR3(L.var()), rec[0], "var", "var");
    eqv(fromR3(L.vbr()), rec[1], "vbr", "vbr");
    eqv(fromR3(L.vcr()), rec[2], "vcr", "vcr");
    double vol = ref::det(b);
    eq(L.volume(), vol, "volume");
    eq(L.volumeNormal(), vol / l[0] / l[1] / l[2], "volumeNormal");
    eqm(fromR3(L.metrics()), ref::mul(b, ref::tr(b)), "metrics", "metrics");
    eqm(fromR3(L.baserot()), m.rot, "baserot", "baserot");
    M3 std0 = ref::mul(b, ref::tr(m.rot));
    eqm(fromR3(L.stdbase()), std0, "stdbase", "stdbase");
    // convention of the standard orientation
    const R3::Matrix& sb = L.stdbase();
    require(std::fabs(sb(2, 0)) + std::fabs(sb(2, 1)) + std::fabs(sb(1, 0))
            < 1e-9 * l[2] && sb(0, 0) > 0 && sb(2, 2) > 0, "stdconvention",
            "standard base has wrong orientation");
    double dm = 0;
    for (int i = 0; i < 4; ++i)
    {
        V3 d = (i == 1 ? -1.0 : 1.0) * b[0] + (i == 2 ? -1.0 : 1.0) * b[1] +
            (i == 3 ? -1.0 : 1.0) * b[2];
        dm = std::max(dm, ref::norm(d));
    }
    eq(L.ucMaxDiagonalLength(), dm, "ucMaxDiagonalLength");
    eq(ref::norm(ref::mul(ref::tr(b), fromR3(L.ucMaxDiagonal()))), dm,
            "ucMaxDiagonal");
    uint64_t h = 7;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            h = mix(h, hashdbl(std::round(b[i][j] * 1e6) + 0.0));
    return h;
}

V3 expectcart(const Model& m, const V3& v)
{
    return ref::mul(ref::tr(m.base), v);
}

void checkvectors(Ctx& ctx, const Lattice& L, const Model& m,
        const std::vector<V3>& vs)
{
    const M3& b = m.base;
    M3 rb = ref::inv(b);
    std::vector<V3> cs;
    double scale = 0;
    for (int k = 0; k < 3; ++k)  scale = std::max(scale, 1 + ref::norm(b[k]));
    for (auto& v : vs)
    {
        V3 c = expectcart(m, v);
        cs.push_back(c);
        R3::Vector lv = rv3(v), lc = rv3(c);
        eqv(fromR3(L.cartesian(lv)), c, "cartesian", "cartesian", scale);
        eqv(fromR3(L.fractional(lc)), v, "fractional", "fractional", scale);
        eqv(fromR3(L.fractional(L.cartesian(lv))), v, "inverse",
                "fractional(cartesian)", scale);
        eqv(fromR3(L.cartesian(L.fractional(lv))), v, "inverse",
                "cartesian(fractional)", scale);
        // other vector types
        std::vector<double> sv = { v[0], v[1], v[2] };
        eqv(fromR3(L.cartesian(sv)), c, "cartesian", "cartesian", scale);
        double pc[3] = { c[0], c[1], c[2] };
        double* ppc = pc;
        eqv(fromR3(L.fractional(ppc)), v, "fractional", "fractional", scale);
        // reduction to unit cell
        V3 u = fromR3(L.ucvFractional(lv));
        V3 u2 = fromR3(L.ucvFractional(sv));
        V3 uc = fromR3(L.ucvCartesian(lc));
        V3 uc2 = fromR3(L.ucvCartesian(ppc));
        eqv(u, u2, "ucvtype", "ucvFractional of std::vector", scale);
        eqv(uc, uc2, "ucvtype", "ucvCartesian of pointer", scale);
        V3 ucf = ref::mul(ref::tr(rb), uc);
        for (int k = 0; k < 3; ++k)
        {
            require(u[k] >= 0 && u[k] < 1, "ucvrange",
                    "reduced coordinate is ", u[k], " for ", v[k]);
            double d = v[k] - u[k];
            require(std::fabs(d - std::round(d)) < 1e-7, "ucvequivalent",
                    "reduced coordinate is ", u[k], " for ", v[k]);
            require(ucf[k] > -1e-7 && ucf[k] < 1 + 1e-7, "ucvcrange",
                    "reduced Cartesian position has fractional ", ucf[k]);
            d = v[k] - ucf[k];
            require(std::fabs(d - std::round(d)) < 1e-7, "ucvcequivalent",
                    "reduced Cartesian position has fractional ", ucf[k],
                    " for ", v[k]);
        }
        eq(L.norm(lv), ref::norm(c), "norm");
    }
    ctx.transition(8 * vs.size());
    for (size_t i = 0; i < vs.size(); i += 3)
    {
        R3::Vector u = rv3(vs[i]);
        for (size_t j = 0; j < vs.size(); j += 5)
        {
            R3::Vector v = rv3(vs[j]);
            double d = ref::dot(cs[i], cs[j]);
            double n0 = ref::norm(cs[i]), n1 = ref::norm(cs[j]);
            require(close(L.dot(u, v), d, 1e-9, 1e-9 * (1 + n0 * n1)), "dot",
                    "dot is ", L.dot(u, v), " instead of ", d);
            eq(L.distance(u, v), ref::norm(cs[i] - cs[j]), "distance");
            eq(R3::distance(u, v), ref::norm(vs[i] - vs[j]), "R3distance");
            eq(R3::dot(u, v), ref::dot(vs[i], vs[j]), "R3dot");
            eqv(fromR3(R3::cross(u, v)), ref::cross(vs[i], vs[j]), "R3cross",
                    "cross");
            if (n0 == 0 || n1 == 0)  continue;
            double c = std::max(-1.0, std::min(1.0, d / (n0 * n1)));
            double a = std::acos(c);
            // arc cosine is not accurate close to the end
            double tol = std::sqrt(1 - c * c) < 1e-3 ? 1e-6 : 1e-9;
            double g = L.anglerad(u, v);
            require(std::fabs(g - a) <= tol, "anglerad", "anglerad is ", g,
                    " instead of ", a);
            g = L.angledeg(u, v);
            require(std::fabs(g - deg(a)) <= 60 * tol, "angledeg",
                    "angledeg is ", g, " instead of ", deg(a));
        }
        // angles with itself and the opposite vector
        if (ref::norm(cs[i]) == 0)  continue;
        R3::Vector v = rv3(vs[i]), w = rv3(-1.0 * vs[i]);
        R3::Vector x = rv3(1.7 * vs[i]);
        require(std::fabs(L.angledeg(v, v)) < 1e-4 &&
                std::fabs(L.anglerad(v, x)) < 1e-6 &&
                std::fabs(L.angledeg(x, v)) < 1e-4, "parallel",
                "angle of parallel vectors is ", L.angledeg(v, v), " ",
                L.anglerad(v, x));
        require(std::fabs(L.angledeg(w, v) - 180) < 1e-4 &&
                std::fabs(L.anglerad(x, w) - M_PI) < 1e-6, "antiparallel",
                "angle of opposite vectors is ", L.angledeg(v, w));
    }
    // tensors
    const M3 us[] = { ref::iso(0.5), ref::uaniso1(), ref::uaniso2(),
        ref::usym(1, 2, 3, 0.4, 0.5, 0.6), ref::usym(1, 0, 0, 0, 0, 0),
        ref::m3(1, 2, 3, 4, 5, 6, 7, 8, 10) };
    for (const M3& u : us)
    {
        M3 e = ref::zero3();
        for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
        {
            V3 ri = ref::v3(rb[0][i], rb[1][i], rb[2][i]);
            V3 rj = ref::v3(rb[0][j], rb[1][j], rb[2][j]);
            double x = u[i][j] * ref::norm(ri) * ref::norm(rj);
            for (int p = 0; p < 3; ++p)  for (int q = 0; q < 3; ++q)
                e[p][q] += x * b[i][p] * b[j][q];
        }
        R3::Matrix lu = rm3(u);
        eqm(fromR3(L.cartesianMatrix(lu)), e, "cartesianMatrix",
                "cartesianMatrix");
        eqm(fromR3(L.fractionalMatrix(rm3(e))), u, "fractionalMatrix",
                "fractionalMatrix");
        eqm(fromR3(L.fractionalMatrix(L.cartesianMatrix(lu))), u,
                "matrixinverse", "fractionalMatrix(cartesianMatrix)");
        eqm(fromR3(L.cartesianMatrix(L.fractionalMatrix(lu))), u,
                "matrixinverse", "cartesianMatrix(fractionalMatrix)");
        ctx.transition(4);
        double d = ref::det(u);
        eq(R3::determinant(lu), d, "determinant");
        if (std::fabs(d) < 1e-3)  continue;
        eqm(fromR3(R3::inverse(lu)), ref::inv(u), "R3inverse", "inverse");
        eqm(fromR3(R3::inverse(R3::inverse(lu))), u, "R3inverse",
                "inverse of inverse");
    }
}

// one function that takes and returns a vector
struct VFun
{
    const char* name;
    std::function<const R3::Vector&(const R3::Vector&)> f;
    std::function<V3(const V3&)> g;
};

V3 reduced(const V3& v)
{
    V3 rv = v;
    for (int k = 0; k < 3; ++k)
    {
        rv[k] -= std::floor(rv[k]);
        if (std::fabs(rv[k] - 1) < 1e-8)  rv[k] = 0;
    }
    return rv;
}

void compositions(Ctx& ctx, int depth)
{
    const Lattice L(1.1, 1.3, 0.9, 75, 100, 115);
    const Lattice K(2, 2, 3, 90, 90, 120);
    Model ml = { fromR3(L.base()), ref::iso(1) };
    Model mk = { fromR3(K.base()), ref::iso(1) };
    M3 A = ref::m3(0, 1, 0.5, -1, 0.25, 0.2, 0.3, 0.1, 1);
    R3::Matrix RA = rm3(A);
    auto frac = [](const Model& m, const V3& v)
    {
        return ref::mul(ref::tr(ref::inv(m.base)), v);
    };
    typedef const R3::Vector& RV;
    const VFun funs[] = {
        { "cartesian", [&](RV v) -> RV { return L.cartesian(v); },
            [&](const V3& v) { return expectcart(ml, v); } },
        { "fractional", [&](RV v) -> RV { return L.fractional(v); },
            [&](const V3& v) { return frac(ml, v); } },
        { "ucvFractional", [&](RV v) -> RV { return L.ucvFractional(v); },
            reduced },
        { "ucvCartesian", [&](RV v) -> RV { return L.ucvCartesian(v); },
            [&](const V3& v) { return expectcart(ml, reduced(frac(ml, v))); } },
        { "Kcartesian", [&](RV v) -> RV { return K.cartesian(v); },
            [&](const V3& v) { return expectcart(mk, v); } },
        { "Kfractional", [&](RV v) -> RV { return K.fractional(v); },
            [&](const V3& v) { return frac(mk, v); } },
        { "Mv", [&](RV v) -> RV { return R3::mxvecproduct(RA, v); },
            [&](const V3& v) { return ref::mul(A, v); } },
        { "vM", [&](RV v) -> RV { return R3::mxvecproduct(v, RA); },
            [&](const V3& v) { return ref::mul(ref::tr(A), v); } },
        { "floor", [&](RV v) -> RV { return R3::floor(v); },
            [&](const V3& v) { return ref::v3(std::floor(v[0]),
                    std::floor(v[1]), std::floor(v[2])); } } };
    const int nf = sizeof(funs) / sizeof(funs[0]);
    const V3 vs[] = { ref::v3(0.313, -1.237, 2.719), ref::v3(-3.11, 0.47, 1.9),
        ref::v3(12.3, 7.77, -5.31) };
    for (int n = 1; n <= depth; ++n)
    {
        int tot = 1;
        for (int i = 0; i < n; ++i)  tot *= nf;
        for (int code = 0; code < tot; ++code)
        {
            std::vector<int> seq;
            std::string nm;
            for (int i = 0, c = code; i < n; ++i, c /= nf)
            {
                seq.push_back(c % nf);
                nm += cat(" ", funs[c % nf].name);
            }
            ctx.run(cat("C20 compose", nm), [&]()
            {
                ctx.trace();
                for (auto& v : vs)
                {
                    R3::Vector v0 = rv3(v);
                    const R3::Vector* p = &v0;
                    V3 e = v;
                    bool edge = false;
                    for (int k : seq)
                    {
                        p = &(funs[k].f(*p));
                        // integer coordinates are unstable for rounding
                        V3 f = std::string(funs[k].name) == "ucvCartesian" ?
                            frac(ml, e) : e;
                        if (strstr(funs[k].name, "ucv") ||
                                !strcmp(funs[k].name, "floor"))
                            for (int i = 0; i < 3; ++i)
                                edge = edge ||
                                    std::fabs(f[i] - std::round(f[i])) < 1e-9;
                        e = funs[k].g(e);
                        ctx.transition();
                    }
                    if (edge)  continue;
                    eqv(fromR3(*p), e, "compose", "composition", 100);
                    ctx.outcome(hashdbl(std::round(e[0] * 1e5)));
                }
            });
        }
    }
}

void anglefunctions(Ctx& ctx)
{
    using namespace diffpy::mathutils;
    ctx.run("C20 angle functions", [&]()
    {
        ctx.trace();
        for (int k = -4 * 1080; k <= 4 * 1080; ++k)
        {
            double x = k / 4.0;
            double c = std::cos(x * M_PI / 180), s = std::sin(x * M_PI / 180);
            require(std::fabs(cosd(x) - c) < 1e-12, "cosd", "cosd(", x, ") is ",
                    cosd(x));
            require(std::fabs(sind(x) - s) < 1e-12, "sind", "sind(", x, ") is ",
                    sind(x));
            // exact values
            for (double e : { 0.0, 0.5, -0.5, 1.0, -1.0 })
            {
                if (std::fabs(c - e) < 1e-9)
                    require(cosd(x) == e, "cosdexact", "cosd(", x, ")");
                if (std::fabs(s - e) < 1e-9)
                    require(sind(x) == e, "sindexact", "sind(", x, ")");
            }
            ctx.transition(2);
        }
        for (int k = -512; k <= 512; ++k)
        {
            double x = k / 512.0;
            require(std::fabs(acosd(x) - deg(std::acos(x))) < 1e-10, "acosd",
                    "acosd(", x, ") is ", acosd(x));
            require(std::fabs(asind(x) - deg(std::asin(x))) < 1e-10, "asind",
                    "asind(", x, ") is ", asind(x));
            if (k % 256 == 0)
                require(acosd(x) == std::round(acosd(x)) &&
                        asind(x) == std::round(asind(x)), "exact",
                        "acosd or asind(", x, ") is not exact");
            ctx.transition(2);
        }
        for (double x : { -1.0, 0.0, 1.0, 2.5 })
            for (double d : { -1.0, -0.1, -1e-3, -1e-9, 0.0, 1e-9, 1e-3, 1.0 })
                for (double eps : { 0.0, 1e-8, 0.01, 0.5 })
                {
                    double y = x + d;
                    require(eps_eq(x, y, eps) == (std::fabs(x - y) <= eps) &&
                            eps_gt(y, x, eps) == (y > x + eps) &&
                            eps_lt(x, y, eps) == (x < y - eps), "eps",
                            "comparison of ", x, " ", y, " eps ", eps);
                    require(EpsilonEqual(eps)(x, y) == eps_eq(x, y, eps) &&
                            EpsilonLess(eps)(x, y) == eps_lt(x, y, eps),
                            "epsfunctor", "functors of ", x, " ", y);
                    ctx.transition();
                }
        ctx.evaluation();
    });
}

struct Op
{
    std::string name;
    bool valid;
    std::function<void(Lattice&)> apply;
    std::function<void(Model&)> model;
};

std::vector<Op> operations()
{
    std::vector<Op> rv;
    const ref::LP lps[] = { ref::lp(1, 1, 1), ref::lp(2, 3, 4),
        ref::lp(1.1, 1.3, 0.9, 75, 100, 115), ref::lp(3, 3, 5, 90, 90, 120),
        ref::lp(2, 2, 2, 60, 60, 60), ref::lp(1.4, 2.2, 1.9, 90, 105, 90) };
    for (auto& p : lps)
    {
        Op o = { cat("par", p[0], "-", p[1], "-", p[3], "-", p[4], "-", p[5]),
            true,
            [p](Lattice& L) { L.setLatPar(p[0], p[1], p[2], p[3], p[4], p[5]); },
            [p](Model& m) { m.base = ref::mul(ref::latbase(p), m.rot); } };
        rv.push_back(o);
    }
    const M3 rots[] = { ref::iso(1), rotation(ref::v3(0, 0, 1), 90),
        rotation(ref::v3(1, 1, 1), 120), rotation(ref::v3(1, -2, 0.7), 37),
        rotation(ref::v3(0, 1, 0), 180) };
    int cnt = 0;
    auto addbase = [&](const std::string& n, const M3& b)
    {
        bool valid = ref::det(b) > 1e-8;
        int kind = cnt++ % 2;
        Op o = { n, valid, [b, kind](Lattice& L)
            {
                if (kind)  L.setLatBase(rv3(b[0]), rv3(b[1]), rv3(b[2]));
                else  L.setLatBase(b[0], b[1], b[2]);
            },
            [b](Model& m)
            {
                m.base = b;
                double l[3];
                for (int k = 0; k < 3; ++k)  l[k] = ref::norm(b[k]);
                auto an = [&](int i, int j)
                {
                    return deg(std::acos(ref::dot(b[i], b[j]) / l[i] / l[j]));
                };
                M3 sb = ref::latbase(ref::lp(l[0], l[1], l[2], an(1, 2),
                            an(0, 2), an(0, 1)));
                m.rot = ref::mul(ref::inv(sb), b);
            } };
        rv.push_back(o);
    };
    for (int k = 0; k < 5; ++k)
    {
        addbase(cat("base", k), ref::mul(ref::latbase(lps[k + 1]), rots[k]));
    }
    addbase("basecubic", ref::iso(2));
    addbase("basefcc", ref::m3(0, 1, 1, 1, 0, 1, 1, 1, 0));
    // invalid ones
    addbase("left", ref::diag(1, 1, -2));
    addbase("leftperm", ref::m3(0, 3, 0, 2, 0, 0, 0, 0, 2));
    addbase("flat", ref::m3(1, 0, 0, 0, 1, 0, 2, -3, 0));
    addbase("zero", ref::zero3());
    return rv;
}

void sequences(Ctx& ctx, int depth)
{
    std::vector<Op> ops = operations();
    const int no = ops.size();
    std::vector<V3> vs;
    for (double x : { -1.25, 0.0, 0.3 })  for (double y : { 0.0, 0.5 })
        for (double z : { -0.1, 2.2 })  vs.push_back(ref::v3(x, y, z));
    int tot = 1;
    for (int i = 0; i < depth; ++i)  tot *= no;
    for (int code = 0; code < tot; ++code)
    {
        std::string nm;
        for (int i = 0, c = code; i < depth; ++i, c /= no)
            nm += cat(" ", ops[c % no].name);
        ctx.run(cat("C20 seq", nm), [&]()
        {
            ctx.trace();
            Lattice L;
            Model m = { ref::iso(1), ref::iso(1) };
            for (int i = 0, c = code; i < depth; ++i, c /= no)
            {
                const Op& o = ops[c % no];
                bool thrown = false;
                try { o.apply(L); }
                catch (std::invalid_argument&) { thrown = true; }
                require(thrown == !o.valid, "validity", o.name,
                        thrown ? " is refused" : " is accepted");
                if (o.valid)  o.model(m);
                ctx.transition();
                ctx.state(checkdata(L, m));
            }
            ctx.outcome(checkdata(L, m));
            checkvectors(ctx, L, m, vs);
            Lattice C(L), D;
            D = L;
            require(C == L && D == L && !(C != L), "equal",
                    "copy is not equal");
            checkdata(C, m);
            checkdata(D, m);
            C.setLatPar(9, 9, 9, 90, 90, 90);
            require(C != L && !(C == L), "different", "9 A cube is equal");
            checkdata(L, m);
        });
    }
}

}   // namespace

void explore(Ctx& ctx)
{
    anglefunctions(ctx);
    compositions(ctx, ctx.thorough ? 5 : 4);
    sequences(ctx, ctx.thorough ? 5 : 4);
    std::vector<V3> vs;
    const double xs[] = { -2.3, -1, -1e-17, 0, 0.4, 1 - 1e-12, 7.0 / 3 };
    for (double x : xs)  for (double y : xs)  for (double z : xs)
        vs.push_back(ref::v3(x, y, z));
    const double angs[] = { 40, 60, 90, 101, 120, 135 };
    const double ls[][3] = { {1, 1, 1}, {1, 2.5, 0.7}, {12, 5, 8.5} };
    for (auto& l : ls)
        for (double al : angs) for (double be : angs) for (double ga : angs)
    {
        double ca = cos(al * M_PI / 180), cb = cos(be * M_PI / 180),
               cg = cos(ga * M_PI / 180);
        double v = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg;
        if (v < 1e-4)  continue;
        ctx.run(cat("C20 lattice ", l[0], " ", l[1], " ", l[2], " ", al, " ",
                    be, " ", ga), [&]()
        {
            ctx.trace();
            Lattice L(l[0], l[1], l[2], al, be, ga);
            Model m = { ref::latbase(ref::lp(l[0], l[1], l[2], al, be, ga)),
                ref::iso(1) };
            ctx.state(checkdata(L, m));
            ctx.evaluation();
            checkvectors(ctx, L, m, vs);
            // the same lattice given by base
            Lattice K(fromR3(L.va()), fromR3(L.vb()), fromR3(L.vc()));
            ctx.outcome(checkdata(K, m));
        });
    }
}
