// C24: peak shapes, widths, envelopes and baselines follow their formulas.
#include "calcs.hpp"
#include "structs.hpp"
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/PeakWidthModel.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/BaseBondGenerator.hpp>
#include <diffpy/serialization.hpp>
#include <diffpy/serialization.ipp>

using namespace mc;
using ref::Struct;
using ref::V3;
using ref::M3;

const Info mcinfo = {
    "C24", "model_checking",
    "Profiles: every registered profile with all sequences of precision "
        "settings and transfers (clone, archive), every peak width and every "
        "argument of a grid that includes zero, both sides of the bounds and "
        "half widths.  Widths: every registered model with all values of its "
        "parameters, all pairs of all structures in all ranges of the grid; "
        "the width is compared with the formula for displacements of the "
        "independent pair model and with the reported maximum width.  "
        "Envelopes and baselines: all parameters and arguments of a grid.  "
        "Calculators: PDF with every combination of profile, width model and "
        "grid has no undefined values, and the PDF in any part of the range "
        "is the same as in the long range.",
    "3 precision settings in a sequence, 32 structures, 5 ranges",
    "4 precision settings in a sequence, 32 structures, 9 ranges",
    {"nonnegative correlation and broadening parameters for the maximum width",
        "peak tails may be cut where they fall below the profile precision"},
    60
};

namespace {

const double S2F = 2 * std::sqrt(2 * std::log(2.0));
const double TINY = std::numeric_limits<double>::epsilon();

bool finite(double x)  { return std::isfinite(x); }

// profiles ------------------------------------------------------------------

double exactarea(double h)
{
    // area of unit Gaussian with FWHM 1 between -h and h
    return std::erf(2 * std::sqrt(std::log(2.0)) * h);
}

void checkprofile(const PeakProfile& p, double prec, double w,
        const std::string& what, Ctx& ctx)
{
    const bool crop = p.type() == "croppedgaussian";
    const double eps = std::max(prec, TINY);
    require(p.getPrecision() == eps, "precision", what, " precision ",
            p.getPrecision());
    const double lo = p.xboundlo(w), hi = p.xboundhi(w);
    require(finite(lo) && finite(hi) && lo <= 0 && hi >= 0 && lo == -hi,
            "bounds", what, " ", lo, " ", hi);
    if (w <= 0)
    {
        require(hi == 0, "bounds", what, " not zero");
        for (double x : { 0.0, 1e-9, -1e-9, 0.1, -2.0, 1e5 })
        {
            require(p(x, w) == 0, "zero-width", what, " x=", x, " is ", p(x, w));
            ctx.transition();
        }
        return;
    }
    // half width where Gaussian drops to eps
    const double h = eps < 1 ? w * std::sqrt(std::log(1 / eps) /
            (4 * std::log(2.0))) : 0;
    require(close(hi, h, 1e-9, 1e-12 * w), "bounds", what, " bound ", hi,
            " instead of ", h);
    double scale = 2 * std::sqrt(std::log(2.0) / M_PI) / w;
    if (crop)  scale = h > 0 ? scale / exactarea(h / w) : 0;
    for (double f : { 0.0, 1e-9, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0,
            3.5, 4.0, 5.0, 10.0, 100.0, -1.0, -2.0, -3.0, -4.0, -5.0 })
    {
        // negative are relative to the bound
        const double x = f >= 0 ? f * w : h * (f == -1 ? 0.5 : f == -2 ? 0.999 :
                f == -3 ? 1.0 : f == -4 ? 1.001 : 1.5);
        const double y = p(x, w);
        require(finite(y), "undefined", what, " at ", x, " is ", y);
        require(p(-x, w) == y, "symmetry", what, " at ", x);
        const double g = x / w;
        double expect = scale * std::exp(-4 * std::log(2.0) * g * g);
        if (crop && x > h * (1 + 1e-9))  expect = 0;
        const bool edge = crop && std::fabs(x - h) <= 1e-9 * h;
        if (!edge)  require(close(y, expect, 1e-9, 1e-200), "value", what, " at ",
                x, " is ", y, " instead of ", expect);
        if (x > hi)  require(y <= eps * p(0, w) * (1 + 1e-9), "outside", what,
                " at ", x);
        ctx.transition();
        ctx.outcome(hashdbl(y));
    }
    // normalisation, sum over fine grid of a half of the peak
    if (eps > 0.9)  return;
    const double xmax = crop ? h : 8 * w;
    const int n = 2000;
    double area = 0;
    for (int i = 0; i < n; ++i)
    {
        // midpoints
        const double x = (i + 0.5) * xmax / n;
        area += 2 * p(x, w) * xmax / n;
    }
    require(close(area, 1, 1e-6), "area", what, " area ", area);
    ctx.evaluation();
}

PeakProfilePtr viaarchive(PeakProfilePtr p)
{
    std::stringstream ss;
    {
        diffpy::serialization::oarchive oa(ss, std::ios::binary);
        oa << p;
    }
    PeakProfilePtr rv;
    diffpy::serialization::iarchive ia(ss, std::ios::binary);
    ia >> rv;
    return rv;
}

void profiles(Ctx& ctx)
{
    const std::vector<double> precs = { 1e-20, 0.0, -1.0, TINY, 1e-14, 1e-10,
        3.33e-6, 1e-4, 0.01, 0.25, 0.6, 0.999, 1.0, 2.0 };
    const std::vector<double> ws = { 0.0, -0.3, 1e-12, 1e-6, 0.01, 0.1, 1.0,
        3.7, 250.0 };
    for (auto& t : PeakProfile::getRegisteredTypes())
    for (double p0 : precs)
    for (double p1 : precs)
    ctx.run(cat("C24 profile ", t, " ", p0, " ", p1), [&]()
    {
        // setters, clones and archives
        for (double p2 : precs)
        for (int how = 0; how < 4; ++how)
        for (int deep = 0; deep < (ctx.thorough ? int(precs.size()) : 1); ++deep)
        {
            PeakProfilePtr p = PeakProfile::createByType(t);
            p->setPrecision(p0);
            p->setPrecision(p1);
            double last = p1;
            if (how == 1)  p = p->clone();
            if (how == 2)  p = viaarchive(p);
            if (how != 3)  p->setPrecision(last = p2);
            if (how == 3)
            {
                // a new object is not affected
                PeakProfilePtr q = PeakProfile::createByType(t);
                PeakProfilePtr r = p->create();
                PeakProfilePtr k = p->clone();
                k->setPrecision(p2);
                require(q->getPrecision() == TINY, "precision", t, " default");
                require(r->getPrecision() == TINY, "precision", t, " create");
                if (k->getPrecision() < 1)  require(k->xboundhi(1) > 0,
                        "precision", t, " clone");
            }
            if (ctx.thorough)
            {
                p->setPrecision(last = precs[deep]);
                if (how == 2)  p = viaarchive(p);
            }
            for (double w : ws)  checkprofile(*p, last, w, cat(t,
                        " precision ", p0, " ", p1, " ", p2, " fwhm ", w), ctx);
            ctx.trace();
            ctx.state(hashstr(cat(t, p0, p1, p2, how, deep)));
        }
    });
}

// widths --------------------------------------------------------------------

struct Params
{
    std::string name;
    std::string type;
    std::map<std::string, double> p;
    double get(const std::string& n) const
    {
        auto i = p.find(n);
        return i == p.end() ? 0.0 : i->second;
    }
};

std::vector<Params> widthparams()
{
    std::vector<Params> rv;
    auto add = [&](const std::string& t, std::map<std::string, double> p)
    {
        std::string n = t;
        for (auto& kv : p)  n += cat(" ", kv.first, "=", kv.second);
        rv.push_back(Params{ n, t, p });
    };
    add("debye-waller", {});
    for (double w : { 0.0, 0.1, 2.0 })  add("constant", {{ "width", w }});
    for (double w : { 0.0, 0.004, 1.5 })  add("constant", {{ "uisowidth", w }});
    for (double w : { 0.0, 0.3, 90.0 })  add("constant", {{ "bisowidth", w }});
    for (double d1 : { 0.0, 0.7, 2.5, -0.4 })
    for (double d2 : { 0.0, 0.5, 3.0, -0.6 })
    for (double qb : { 0.0, 0.05, 0.8 })
    for (double qs : { 0.0, 0.03, 0.5 })
        add("jeong", {{ "delta1", d1 }, { "delta2", d2 }, { "qbroad", qb },
                { "qbroad_seperable", qs }});
    return rv;
}

double formula(const Params& p, double msd, double r)
{
    if (p.type == "constant")
    {
        if (p.p.count("width"))  return p.get("width");
        double u = p.p.count("uisowidth") ? p.get("uisowidth") :
            p.get("bisowidth") / (8 * M_PI * M_PI);
        return S2F * std::sqrt(2 * u);
    }
    double w = msd > 0 ? S2F * std::sqrt(msd) : 0;
    if (p.type == "debye-waller")  return w;
    double c = 1 - p.get("delta1") / r - p.get("delta2") / (r * r) +
        std::pow(p.get("qbroad") * r, 2);
    if (c <= 0)  return 0;
    return w * std::sqrt(c) + std::pow(p.get("qbroad_seperable") * r, 2);
}

std::vector<ref::Named> structures()
{
    auto rv = ref::catalogue();
    auto rot = [](double a, double b)
    {
        // rotation by angle a about z then b about x
        M3 z = ref::m3(std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0,
                0, 0, 1);
        M3 x = ref::m3(1, 0, 0, 0, std::cos(b), -std::sin(b), 0, std::sin(b),
                std::cos(b));
        return ref::mul(x, z);
    };
    // displacement ellipsoids elongated along, across and off the bonds
    const double d = 1.3;
    const V3 dirs[] = { ref::v3(1, 0, 0), ref::v3(1, 1, 0), ref::v3(1, 1, 1),
        ref::v3(1, -2, 0.5) };
    int cnt = 0;
    for (auto& v : dirs)  for (int kind = 0; kind < 3; ++kind)
    {
        V3 n = (1 / ref::norm(v)) * v;
        M3 U = ref::zero3();
        for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
            U[i][j] = 0.03 * n[i] * n[j] + (i == j ? 0.001 : 0.0);
        Struct s;
        s.kind = ref::Kind(kind);
        s.lat = {{ 2.9, 3.0, 3.1, 90, 90, 90 }};
        V3 q = d * n;
        if (kind)  for (int i = 0; i < 3; ++i)  q[i] /= s.lat[i];
        s.atoms.push_back(ref::Atom("C", 0, 0, 0).setU(U));
        s.atoms.push_back(ref::Atom("C", q[0], q[1], q[2]).setU(U));
        if (kind == 2)  s.ops = ref::groupPm1();
        rv.push_back(ref::Named{ cat("long", cnt++), s });
    }
    // diagonal tensor that gets rotated by the symmetry
    {
        Struct s;
        s.kind = ref::CRYSTAL;
        s.lat = {{ 2.8, 2.8, 3.5, 90, 90, 120 }};
        M3 R = rot(M_PI / 6, 0);
        M3 U = ref::mul(R, ref::mul(ref::diag(0.03, 0.002, 0.001), ref::tr(R)));
        s.atoms.push_back(ref::Atom("C", 0.2, 0.05, 0.1).setU(U));
        s.ops = ref::groupP3();
        rv.push_back(ref::Named{ "rotated", s });
    }
    // negative displacements
    {
        Struct s;
        s.atoms.push_back(ref::Atom("C", 0, 0, 0, -0.01));
        s.atoms.push_back(ref::Atom("C", 1, 0, 0, 0.003));
        s.atoms.push_back(ref::Atom("C", 0, 1.2, 0, 0.02));
        rv.push_back(ref::Named{ "negative", s });
    }
    return rv;
}

void widths(Ctx& ctx)
{
    const auto ps = widthparams();
    std::vector<std::pair<double, double> > ranges = { { 0, 3 }, { 1, 2 },
        { 0.9, 4.2 }, { 2.5, 3.5 }, { 0, 1.35 } };
    if (ctx.thorough)
        for (auto& r : std::vector<std::pair<double, double> >{ { 0, 6 },
                { 4, 6 }, { 0.2, 1.0 }, { 1.29, 1.31 } })  ranges.push_back(r);
    for (auto& s : structures())
    for (auto& r : ranges)
    ctx.run(cat("C24 width ", s.name, " ", r.first, "-", r.second), [&]()
    {
        SPtr stru = ref::build(s.s);
        std::vector<PeakWidthModelPtr> ms;
        std::vector<double> mx;
        for (auto& p : ps)
        {
            PeakWidthModelPtr m = PeakWidthModel::createByType(p.type);
            for (auto& kv : p.p)  m->setDoubleAttr(kv.first, kv.second);
            for (auto& kv : p.p)  require(close(m->getDoubleAttr(kv.first),
                        kv.second, 1e-12, 1e-300), "attribute", p.name, " ",
                    kv.first, " is ", m->getDoubleAttr(kv.first));
            double w = m->maxWidth(stru, r.first, r.second);
            require(finite(w) && w >= 0, "max-undefined", p.name, " ", w);
            if (p.type == "constant")  require(close(w, formula(p, 0, 1)),
                    "max", p.name, " maximum ", w);
            ms.push_back(m);
            mx.push_back(w);
        }
        double umax = 0;
        for (int i = 0; i < stru->countSites(); ++i)
            for (int k = 0; k < 3; ++k)
                umax = std::max(umax, stru->siteCartesianUij(i)(k, k));
        require(close(maxUii(stru), umax, 1e-12, 1e-300), "maxuii",
                "maximum displacement ", maxUii(stru), " expected ", umax);
        require(maxUii(StructureAdapterPtr()) == 0, "maxuii", "no structure");
        const int n = s.s.atoms.size();
        BaseBondGeneratorPtr g = stru->createBondGenerator();
        g->setRmin(r.first);
        g->setRmax(r.second);
        for (int i = 0; i < n; ++i)
        {
            std::vector<std::vector<ref::Pair> > all;
            for (int j = 0; j < n; ++j)  all.push_back(s.s.pairs(i, j,
                        r.first - 1e-6, r.second + 1e-6));
            g->selectAnchorSite(i);
            g->selectSiteRange(0, n);
            for (g->rewind(); !g->finished(); g->next())
            {
                const double d = g->distance();
                if (d < 1e-6)  continue;
                const ref::Pair* pp = 0;
                for (auto& p : all[g->site1()])
                {
                    const V3 dr = p.r01 - ref::v3(g->r01()[0], g->r01()[1],
                            g->r01()[2]);
                    if (ref::norm(dr) < 1e-4)  pp = &p;
                }
                require(pp, "harness", "unknown pair");
                const double msd = ref::msd(*pp);
                for (size_t k = 0; k < ps.size(); ++k)
                {
                    const double w = ms[k]->calculate(*g);
                    const double e = formula(ps[k], msd, d);
                    require(finite(w) && w >= 0, "undefined", ps[k].name, " ", w);
                    require(close(w, e, 1e-7, 1e-7), "value", ps[k].name, " ",
                            s.name, " r=", d, " is ", w, " instead of ", e);
                    const bool bounded = ps[k].get("delta1") >= 0 &&
                        ps[k].get("delta2") >= 0;
                    if (bounded)  require(w <= mx[k] * (1 + 1e-7) + 1e-9, "max",
                            ps[k].name, " ", s.name, " r=", d, " width ", w,
                            " exceeds maximum ", mx[k]);
                    ctx.outcome(hashdbl(w));
                    ctx.transition();
                }
                ctx.trace();
            }
            ctx.state(hashstr(cat(s.name, r.first, r.second, i)));
        }
    });
}

// envelopes, baselines ------------------------------------------------------

void envelopes(Ctx& ctx)
{
    const std::vector<double> vs = { 0.0, -0.0, 1e-300, 1e-9, 0.04, 1.0, 2.5,
        10.0, 1e6, -1.0, -0.04 };
    const std::vector<double> rs = { 0.0, 1e-300, 1e-9, 0.5, 1.0,
        std::nextafter(1.0, 0), std::nextafter(1.0, 2), 2.5, 2.50001, 9.999, 10,
        10.001, 500, 1e6, 1e7 };
    std::map<std::string, std::string> par = { { "scale", "scale" },
        { "qresolution", "qdamp" }, { "sphericalshape", "spdiameter" },
        { "stepcut", "stepcut" }, { "linear", "slope" }, { "zero", "" } };
    std::vector<std::string> types;
    for (auto& t : PDFEnvelope::getRegisteredTypes())  types.push_back(t);
    for (auto& t : PDFBaseline::getRegisteredTypes())  types.push_back("b:" + t);
    for (auto& tt : types)
    for (double v0 : vs)
    ctx.run(cat("C24 ", tt, " ", v0), [&]()
    {
        const bool base = tt[0] == 'b' && tt[1] == ':';
        const std::string t = base ? tt.substr(2) : tt;
        if (!par.count(t))  return;
        for (double v : vs)
        for (int how = 0; how < 3; ++how)
        {
            PDFEnvelopePtr e;
            PDFBaselinePtr b;
            if (base)  b = PDFBaseline::createByType(t);
            else  e = PDFEnvelope::createByType(t);
            diffpy::Attributes* a = base ? (diffpy::Attributes*) b.get() : e.get();
            const std::string n = par[t];
            if (n.size())
            {
                a->setDoubleAttr(n, v0);
                a->setDoubleAttr(n, v);
                require(a->getDoubleAttr(n) == v, "attribute", t);
            }
            if (how == 1)
            {
                if (base)  b = b->clone();
                else  e = e->clone();
            }
            if (how == 2)
            {
                std::stringstream ss;
                {
                    diffpy::serialization::oarchive oa(ss, std::ios::binary);
                    oa << e << b;
                }
                e.reset();
                b.reset();
                diffpy::serialization::iarchive ia(ss, std::ios::binary);
                ia >> e >> b;
            }
            for (double r : rs)
            {
                double y = base ? (*b)(r) : (*e)(r), x = 0;
                if (t == "scale")  x = v;
                if (t == "qresolution")  x = v > 0 ?
                    std::exp(-0.5 * r * r * v * v) : 1;
                if (t == "sphericalshape")
                    x = v <= 0 ? 1 : r > v ? 0 :
                        1 - 1.5 * (r / v) + 0.5 * std::pow(r / v, 3);
                if (t == "stepcut")  x = (v <= 0 || r <= v) ? 1 : 0;
                if (t == "linear")  x = v * r;
                require(finite(y), "undefined", tt, "(", v, ") at ", r);
                require(close(y, x, 1e-12, 1e-14), "value", tt, "(", v,
                        ") at ", r, " is ", y, " instead of ", x);
                ctx.transition();
                ctx.outcome(hashdbl(y));
            }
            ctx.state(hashstr(cat(tt, v0, v, how)));
            ctx.trace();
        }
    });
}

// calculators ---------------------------------------------------------------

void pdfvalues(Ctx& ctx)
{
    const std::vector<Params> ps = {
        { "debye-waller", "debye-waller", {} },
        { "constant0", "constant", { { "width", 0 } } },
        { "constant", "constant", { { "width", 0.3 } } },
        { "constant-neg", "constant", { { "width", -0.3 } } },
        { "jeong", "jeong", { { "delta2", 1.5 } } },
        { "jeongq", "jeong", { { "qbroad", 0.2 }, { "delta1", 0.5 } } },
        { "jeongs", "jeong", { { "qbroad_seperable", 0.15 } } },
        { "jeong-sharp", "jeong", { { "delta1", 2.0 } } },
    };
    for (auto& s : structures())
    for (auto& t : PeakProfile::getRegisteredTypes())
    for (auto& p : ps)
    ctx.run(cat("C24 pdf ", s.name, " ", t, " ", p.name), [&]()
    {
        SPtr stru = ref::build(s.s);
        for (double prec : { 1e-8, 3.33e-6, 1e-3 })
        for (double step : { 0.1, 0.03125 })
        {
            auto calc = [&](double lo, double hi)
            {
                boost::shared_ptr<PDFCalculator> c(new PDFCalculator);
                c->setPeakProfileByType(t);
                c->getPeakProfile()->setPrecision(prec);
                c->setPeakWidthModelByType(p.type);
                for (auto& kv : p.p)  c->setDoubleAttr(kv.first, kv.second);
                c->setDoubleAttr("rstep", step);
                c->setDoubleAttr("rmin", lo);
                c->setDoubleAttr("rmax", hi);
                c->eval(stru);
                for (auto& q : { c->getPDF(), c->getRDF(), c->getRDFperR(),
                        c->getExtendedPDF(), c->getF() })
                    for (double y : q)
                        require(finite(y), "undefined", "PDF of ", s.name, " ",
                                t, " ", p.name, " rstep ", step);
                ctx.evaluation();
                return c;
            };
            auto full = calc(0, 6);
            QuantityType fr = full->getRgrid(), fy = full->getRDF();
            double top = 0;
            for (double y : fy)  top = std::max(top, std::fabs(y));
            for (auto& r : std::vector<std::pair<double, double> >{ { 0, 1 },
                    { 0.5, 1.3 }, { 0, 2 }, { 1.35, 2.9 }, { 2, 3.3 } })
            {
                auto c = calc(r.first, r.second);
                QuantityType cr = c->getRgrid(), cy = c->getRDF();
                int k = 0;
                const double w0 = c->getPeakWidthModel()->maxWidth(stru,
                        r.first, r.second);
                // a broadening that grows with r can reach from farther
                const double w1 = c->getPeakWidthModel()->maxWidth(stru, 0, 12);
                if (w1 > w0)  continue;
                for (size_t i = 0; i < cr.size(); ++i)
                {
                    while (fr[k] < cr[i] - 0.1 * step)  ++k;
                    require(std::fabs(fr[k] - cr[i]) < 1e-9, "harness", "grid");
                    // relative to the highest possible cut tail
                    const double tol = std::max(1e-7, 60 * prec);
                    require(std::fabs(fy[k] - cy[i]) <= tol * (top + 1),
                            "tails", s.name, " ", t, " ", p.name, " precision ",
                            prec, " range ", r.first, "-", r.second, " r=",
                            cr[i], " is ", cy[i], " instead of ", fy[k]);
                }
                ctx.transition(cr.size());
            }
            ctx.trace();
            ctx.state(hashstr(cat(s.name, t, p.name, prec, step)));
        }
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    profiles(ctx);
    widths(ctx);
    envelopes(ctx);
    pdfvalues(ctx);
}
