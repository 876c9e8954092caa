// C04: lattice points and reflections in a shell are enumerated exactly.
#include <map>
#include <memory>
#include "mc.hpp"
#include "structs.hpp"
#include <diffpy/srreal/PointsInSphere.hpp>
#include <diffpy/srreal/Lattice.hpp>

using namespace mc;
using namespace diffpy::srreal;
using pointsinsphere::LatticeParameters;

const Info mcinfo = {
    "C04", "model_checking",
    "Every combination of lattice, inner and outer radius (including radii "
        "that are exactly lattice vector lengths) and constructor; every list "
        "of points is compared with brute force enumeration. Every generator "
        "is also rewound, copied and assigned after each number of steps. The "
        "same for reflections in Q ranges and d ranges. An outcome is the "
        "list of points.",
    "28 lattices, 22 inner and 20 outer radii, 3 constructors, rewinds and "
        "copies after every step up to 40 points",
    "as quick with 125 more lattices and radii up to 13",
    {"points within 1e-9 of the range limits may be listed or not"},
    60
};

namespace {

typedef std::array<int, 3> HKL;
struct Pt { HKL hkl; double r; };

std::vector<Pt> brute(const ref::LP& lat, double rmax)
{
    std::vector<Pt> rv;
    ref::M3 b = ref::latbase(lat);
    ref::M3 bi = ref::inv(b);
    int n[3];
    for (int k = 0; k < 3; ++k)
    {
        ref::V3 rec = ref::v3(bi[0][k], bi[1][k], bi[2][k]);
        n[k] = int(std::ceil(rmax * ref::norm(rec))) + 1;
    }
    for (int h = -n[0]; h <= n[0]; ++h)
        for (int k = -n[1]; k <= n[1]; ++k)
            for (int l = -n[2]; l <= n[2]; ++l)
            {
                double r = ref::norm(double(h) * b[0] + double(k) * b[1] +
                        double(l) * b[2]);
                if (r > rmax)  continue;
                Pt p = { {{ h, k, l }}, r };
                rv.push_back(p);
            }
    return rv;
}

/// lattice parameters of the reciprocal lattice
ref::LP reciprocal(const ref::LP& lat)
{
    ref::M3 bi = ref::tr(ref::inv(ref::latbase(lat)));
    double l[3];
    for (int k = 0; k < 3; ++k)  l[k] = ref::norm(bi[k]);
    auto ang = [&](int i, int j)
    {
        return std::acos(ref::dot(bi[i], bi[j]) / l[i] / l[j]) * 180 / M_PI;
    };
    return ref::lp(l[0], l[1], l[2], ang(1, 2), ang(0, 2), ang(0, 1));
}

const int LIMIT = 500000;

// uniform access to both kinds of generators
struct Ops
{
    static HKL hkl(const PointsInSphere& s)
    {
        const int* p = s.mno();
        HKL rv = {{ p[0], p[1], p[2] }};
        require(s.m() == p[0] && s.n() == p[1] && s.o() == p[2], "mno",
                "m, n, o differ from mno");
        return rv;
    }
    static double r(const PointsInSphere& s)  { return s.r(); }
    static HKL hkl(const ReflectionsInQminQmax& s)
    {
        const int* p = s.hkl();
        HKL rv = {{ p[0], p[1], p[2] }};
        require(s.h() == p[0] && s.k() == p[1] && s.l() == p[2], "hkl",
                "h, k, l differ from hkl");
        return rv;
    }
    static double r(const ReflectionsInQminQmax& s)
    {
        double q = s.Q();
        require(q == 0 || close(s.d(), 2 * M_PI / q), "d", "d is ", s.d(),
                " for Q ", q);
        return q;
    }
};

template <class G>
std::vector<Pt> walk(G& g)
{
    std::vector<Pt> rv;
    for (; !g.finished(); g.next())
    {
        Pt p = { Ops::hkl(g), Ops::r(g) };
        rv.push_back(p);
        require(int(rv.size()) < LIMIT, "endless", "too many points");
    }
    return rv;
}

bool same(const std::vector<Pt>& a, const std::vector<Pt>& b, size_t b0=0)
{
    if (a.size() + b0 != b.size())  return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i].hkl != b[i + b0].hkl || a[i].r != b[i + b0].r)  return false;
    return true;
}

/// compare with all points, which have r in the unit of generator
uint64_t compare(const std::vector<Pt>& got, const std::vector<Pt>& all,
        double rmin, double rmax, const std::string& what)
{
    std::map<HKL, double> m;
    uint64_t h = 3;
    for (auto& p : got)
    {
        std::string s = cat(p.hkl[0], " ", p.hkl[1], " ", p.hkl[2]);
        require(!m.count(p.hkl), "twice", what, " lists ", s, " twice");
        m[p.hkl] = p.r;
        require(p.r > rmin - 1e-9 && p.r < rmax + 1e-9, "outside", what,
                " lists ", s, " at ", p.r, " outside of ", rmin, " ", rmax);
        h = mix(h, mix(p.hkl[0], mix(p.hkl[1], p.hkl[2])));
    }
    size_t found = 0;
    for (auto& p : all)
    {
        auto it = m.find(p.hkl);
        if (it == m.end())
        {
            require(p.r < rmin + 1e-9 || p.r > rmax - 1e-9, "missing", what,
                    " misses ", p.hkl[0], " ", p.hkl[1], " ", p.hkl[2], " at ",
                    p.r, " in ", rmin, " ", rmax);
            continue;
        }
        ++found;
        require(close(p.r, it->second, 1e-9, 1e-9), "radius", what,
                " radius is ", it->second, " instead of ", p.r);
    }
    require(found == m.size(), "extra", what, " lists unknown points");
    return h;
}

template <class G>
void histories(Ctx& ctx, G& g, const std::vector<Pt>& l0, int depth)
{
    // after the end
    require(g.finished(), "finished", "not finished");
    g.next();
    require(g.finished(), "finished", "next after the end restarts");
    g.rewind();
    require(same(walk(g), l0), "rewind", "rewind gives different list");
    for (int n = 0; n <= depth && n <= int(l0.size()); ++n)
    {
        ctx.transition(3);
        g.rewind();
        for (int i = 0; i < n; ++i)  g.next();
        // a copy continues from the same point, the original is not affected
        std::unique_ptr<G> c(new G(g));
        require(same(walk(*c), l0, n), "copy", "copy after ", n,
                " steps continues with different points");
        c->rewind();
        std::vector<Pt> rest = walk(g);
        require(same(rest, l0, n), "copied", "walk continued after copying at ",
                n, " gives different points");
        require(same(walk(*c), l0), "copyrewind", "copy after ", n,
                " steps gives a different list");
        g.rewind();
        for (int i = 0; i < n; ++i)  g.next();
        g.rewind();
        require(same(walk(g), l0), "rewind", "rewind after ", n,
                " steps gives different list");
        // copy survives its original
        g.rewind();
        std::unique_ptr<G> c1(new G(g));
        c.reset(new G(*c1));
        c1.reset();
        require(same(walk(*c), l0), "orphan", "copy of a deleted object");
    }
}

struct Lat
{
    std::string name;
    ref::LP lp;
};

std::vector<Lat> lattices(bool thorough)
{
    std::vector<Lat> rv;
    auto add = [&](const std::string& n, ref::LP l)
    {
        Lat x = { n, l };
        rv.push_back(x);
    };
    using ref::lp;
    add("cubic1", lp(1, 1, 1));
    add("cubic2", lp(2, 2, 2));
    add("cubic.7", lp(0.7, 0.7, 0.7));
    add("ortho", lp(1, 2, 3));
    add("ortho321", lp(3, 2, 1));
    add("orthoodd", lp(1.3, 0.9, 2.17));
    add("hex", lp(1, 1, 1.6, 90, 90, 120));
    add("hexa", lp(1.6, 1, 1, 120, 90, 90));
    add("hex60", lp(1, 1, 1, 90, 90, 60));
    add("rhomb60", lp(1.2, 1.2, 1.2, 60, 60, 60));
    add("rhomb100", lp(1.2, 1.2, 1.2, 100, 100, 100));
    add("rhomb115", lp(1.2, 1.2, 1.2, 115, 115, 115));
    add("bcc", lp(1.5, 1.5, 1.5, 109.471220634490691, 109.471220634490691,
                109.471220634490691));
    add("rhomb30", lp(1, 1, 1, 30, 30, 30));
    add("mono", lp(1, 1.5, 2, 90, 110, 90));
    add("mono45", lp(1, 1.5, 2, 90, 45, 90));
    add("mono150", lp(1, 1.5, 2, 90, 150, 90));
    add("monoa", lp(1.4, 1, 1.2, 65, 90, 90));
    add("monoc", lp(1.4, 1, 1.2, 90, 90, 135));
    add("tric1", lp(1, 1.2, 1.4, 76, 98, 111));
    add("tric2", lp(2.1, 0.8, 1.1, 50, 70, 40));
    add("tric3", lp(0.9, 2, 1.3, 100, 110, 120));
    add("tric4", lp(1, 1, 1, 89, 91, 90.5));
    add("flat", lp(0.6, 0.8, 5, 90, 90, 90));
    add("needle", lp(4, 5, 0.5, 80, 95, 100));
    add("plate", lp(5, 0.5, 0.7, 85, 120, 75));
    add("large", lp(8, 9, 10, 80, 100, 95));
    add("sharp", lp(1, 1, 1, 20, 90, 90));
    if (thorough)
    {
        const double as[] = { 55, 75, 90, 100, 118 };
        for (double al : as)  for (double be : as)  for (double ga : as)
            add(cat("t", al, "-", be, "-", ga),
                    lp(1.1, 1.3, 0.9, al, be, ga));
    }
    return rv;
}

}   // namespace

void explore(Ctx& ctx)
{
    std::vector<double> rmins = { -1, 0, 1e-8, 0.3, 0.5, 0.7, 1, 1.2, 1.3, 1.4,
        sqrt(2.0), 1.5, sqrt(3.0), 2, 2.1, sqrt(5.0), 2.4, 2.5, 3, 3.6, 4, 7 };
    std::vector<double> rmaxs = { -1, 0, 1e-8, 0.4, 0.7, 1, 1.2, 1.25,
        sqrt(2.0), 1.6, sqrt(3.0), 2, sqrt(5.0), 2.6, 3, 3.3, 4, 4.2, 5, 6 };
    if (ctx.thorough)
    {
        for (double r : { 5.5, 5.0, 8.0, 9.9 })  rmins.push_back(r);
        for (double r : { 8.0, 10.0, 13.0 })  rmaxs.push_back(r);
    }
    for (auto& lat : lattices(ctx.thorough))
    {
        // use smaller ranges for small cells
        double vol = std::fabs(ref::det(ref::latbase(lat.lp)));
        const ref::LP& p = lat.lp;
        LatticeParameters lpar(p[0], p[1], p[2], p[3], p[4], p[5]);
        double rlim = rmaxs.back() + 0.01;
        rlim = std::min(rlim, std::max(6.01, std::cbrt(vol * 2000)));
        auto all = brute(p, rlim);
        for (double rmin : rmins)  for (double rmax : rmaxs)
        {
            if (rmax > rlim - 0.01)  continue;
            ctx.run(cat("C04 ", lat.name, " rmin", rmin, " rmax", rmax), [&]()
            {
                PointsInSphere s(rmin, rmax, p[0], p[1], p[2], p[3], p[4],
                        p[5]);
                require(s.Rmin() == rmin && s.Rmax() == rmax, "limits",
                        "wrong limits");
                auto l0 = walk(s);
                ctx.evaluation();
                ctx.transition(l0.size());
                ctx.trace();
                ctx.outcome(compare(l0, all, rmin, rmax, "sphere"));
                ctx.state(l0.size());
                PointsInSphere s1(rmin, rmax, lpar);
                require(same(walk(s1), l0), "ctor",
                        "list from LatticeParameters differs");
                Lattice L(p[0], p[1], p[2], p[3], p[4], p[5]);
                PointsInSphere s2(rmin, rmax, L);
                compare(walk(s2), all, rmin, rmax, "sphere of Lattice");
                histories(ctx, s, l0, rmin < 1 && rmax < 3 ? 40 : 3);
            });
        }
        // reflections, the same numbers are used as Q limits
        ref::LP rp = reciprocal(p);
        double qlim = std::min(6.01, 2 * M_PI * std::cbrt(2000 / vol));
        qlim = std::max(qlim, 2.01);
        auto allq = brute(rp, qlim / (2 * M_PI));
        for (auto& x : allq)  x.r *= 2 * M_PI;
        for (double qmin : rmins)  for (double qmax : rmaxs)
        {
            if (qmax > qlim - 0.01)  continue;
            ctx.run(cat("C04 ", lat.name, " qmin", qmin, " qmax", qmax), [&]()
            {
                ReflectionsInQminQmax s(qmin, qmax, p[0], p[1], p[2], p[3],
                        p[4], p[5]);
                require(s.Qmin() == qmin && s.Qmax() == qmax, "limits",
                        "wrong limits");
                auto l0 = walk(s);
                ctx.evaluation();
                ctx.trace();
                ctx.transition(l0.size());
                ctx.outcome(compare(l0, allq, qmin, qmax, "reflections"));
                ReflectionsInQminQmax s1(qmin, qmax, lpar);
                require(same(walk(s1), l0), "ctor",
                        "list from LatticeParameters differs");
                Lattice L(p[0], p[1], p[2], p[3], p[4], p[5]);
                ReflectionsInQminQmax s2(qmin, qmax, L);
                compare(walk(s2), allq, qmin, qmax, "reflections of Lattice");
                histories(ctx, s, l0, qmin < 1 && qmax < 3 ? 20 : 2);
                if (qmin <= 0 || qmax <= 0)  return;
                double dmax = 2 * M_PI / qmin, dmin = 2 * M_PI / qmax;
                ReflectionsInDmaxDmin t(dmax, dmin, p[0], p[1], p[2], p[3],
                        p[4], p[5]);
                require(t.Dmin() == dmin && t.Dmax() == dmax &&
                        close(t.Qmin(), qmin) && close(t.Qmax(), qmax),
                        "dlimits", "wrong limits of d");
                auto t0 = walk(t);
                compare(t0, allq, qmin, qmax, "reflections in d");
                ReflectionsInDmaxDmin t1(dmax, dmin, lpar), t2(dmax, dmin, L);
                require(same(walk(t1), t0), "ctor",
                        "list from LatticeParameters differs");
                compare(walk(t2), allq, qmin, qmax, "d of Lattice");
                histories(ctx, t, t0, 1);
            });
        }
        // reciprocal of lattice parameters
        ctx.run(cat("C04 ", lat.name, " reciprocal"), [&]()
        {
            ctx.trace();
            LatticeParameters rec = lpar.reciprocal();
            LatticeParameters two = rec.reciprocal();
            const double got[] = { rec.a, rec.b, rec.c, rec.alpha, rec.beta,
                rec.gamma, two.a, two.b, two.c, two.alpha, two.beta,
                two.gamma, rec.ar, rec.alphar };
            const double exp[] = { rp[0], rp[1], rp[2], rp[3], rp[4], rp[5],
                p[0], p[1], p[2], p[3], p[4], p[5], p[0], p[3] };
            for (int i = 0; i < 14; ++i)
                require(close(got[i], exp[i], 1e-9), "reciprocal",
                        "reciprocal parameter ", i, " is ", got[i],
                        " instead of ", exp[i]);
        });
    }
}
