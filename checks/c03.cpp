// C03: neighbor enumeration is exact.
#include "mc.hpp"
#include "structs.hpp"
#include <diffpy/srreal/BaseBondGenerator.hpp>

using namespace diffpy::srreal;
using namespace mc;
using ref::Struct;
using ref::V3;

const Info mcinfo = {
    "C03", "model_checking",
    "Every sequence of generator operations (select anchor, select sites as "
        "range or list, set rmin, set rmax, partial iteration, complete "
        "iteration) up to the depth bound on every catalogued structure and "
        "start configuration; after each sequence the rewound generator must "
        "list exactly the pairs of the brute force reference. An outcome is "
        "the multiset of listed pairs.",
    "19 structures with limits below 4.7 A and those of at most 2 sites with "
        "limits to 7.2 A, all operation sequences of length <= 3 after the anchor "
        "and range are chosen from 3 start configurations; all limits that "
        "equal distances in a grid of atoms",
    "as quick with operation sequences of length <= 4",
    {"pair distances within 1e-9 of a range limit may be listed or not",
     "structures are not edited while a generator is in use"},
    60
};

namespace {

struct Model
{
    int anchor;
    std::vector<int> sites;
    double rmin, rmax;
};

typedef boost::shared_ptr<AtomicStructureAdapter> SPtr;

struct Op
{
    std::string name;
    int what;       // 0 anchor 1 range 2 list 3 rmin 4 rmax 5 partial 6 full
    int a, b;
    std::vector<int> lst;
    double x;
};

std::vector<Op> alphabet(const Struct& s, bool wide)
{
    int n = s.atoms.size();
    std::vector<Op> rv;
    auto add = [&](const std::string& nm, int w, int a, int b,
            std::vector<int> l, double x)
    {
        Op o = { nm, w, a, b, l, x };
        rv.push_back(o);
    };
    for (int i = 0; i < n; ++i)  add(cat("A", i), 0, i, 0, {}, 0);
    add("Rall", 1, 0, n, {}, 0);
    if (wide)
    {
        // range limits that exceed the cell diagonal
        add("Llast", 2, 0, 0, {n - 1}, 0);
        add("m0", 3, 0, 0, {}, 0.0);
        add("m5", 3, 0, 0, {}, 5.2);
        add("m6", 3, 0, 0, {}, 6.31);
        add("x2", 4, 0, 0, {}, 2.05);
        add("x6", 4, 0, 0, {}, 5.83);
        add("x7", 4, 0, 0, {}, 7.17);
        add("p", 5, 0, 0, {}, 0);
        add("f", 6, 0, 0, {}, 0);
        return rv;
    }
    add("R0", 1, 0, 0, {}, 0);
    if (n > 1)  add("Rtail", 1, 1, n, {}, 0);
    if (n)  add("Rhead", 1, 0, 1, {}, 0);
    if (n)  add("Llast", 2, 0, 0, {n - 1}, 0);
    if (n > 1)  add("Lrev", 2, 0, 0, {n - 1, 0}, 0);
    add("L-", 2, 0, 0, {}, 0);
    add("m0", 3, 0, 0, {}, 0.0);
    add("m2", 3, 0, 0, {}, 2.05);
    add("m1", 3, 0, 0, {}, 1.0);
    add("x1", 4, 0, 0, {}, 1.0);
    add("x3", 4, 0, 0, {}, 3.03);
    add("x5", 4, 0, 0, {}, 4.61);
    add("p", 5, 0, 0, {}, 0);
    add("f", 6, 0, 0, {}, 0);
    return rv;
}

void apply(BaseBondGenerator& b, Model& m, const Op& o)
{
    const bool changed = o.what <= 2 || (o.what == 3 && o.x != m.rmin) ||
        (o.what == 4 && o.x != m.rmax);
    switch (o.what)
    {
        case 0: b.selectAnchorSite(o.a); m.anchor = o.a; break;
        case 1: b.selectSiteRange(o.a, o.b);
            m.sites.clear();
            for (int i = o.a; i < o.b; ++i)  m.sites.push_back(i);
            break;
        case 2: b.selectSites(o.lst); m.sites = o.lst; break;
        case 3: b.setRmin(o.x); m.rmin = o.x; break;
        case 4: b.setRmax(o.x); m.rmax = o.x; break;
        case 5: b.rewind();
            for (int i = 0; i < 3 && !b.finished(); ++i)  b.next();
            break;
        case 6: for (b.rewind(); !b.finished(); b.next())  { }
            break;
    }
    // there is nothing to visit for changed settings until rewind
    if (changed)  require(b.finished(), "notfinished",
            "generator continues after ", o.name);
}

struct Got
{
    int j;
    double d;
    V3 r;
    double msd;
    bool operator<(const Got& o) const
    {
        if (j != o.j)  return j < o.j;
        for (int k = 0; k < 3; ++k)
        {
            if (std::fabs(r[k] - o.r[k]) > 1e-7)  return r[k] < o.r[k];
        }
        return false;
    }
};

const double eps = 1e-9;
double pairlimit = 4.7;

void verify(Ctx& ctx, const Struct& s, const SPtr& stru, BaseBondGenerator& b,
        const Model& m,
        std::map<std::pair<int,int>, std::vector<ref::Pair> >& cache)
{
    std::vector<Got> got, expect, border;
    std::vector<ref::Site> im0 = s.images(m.anchor);
    ref::M3 ib = (s.kind == ref::ATOMIC) ? ref::iso(1) :
        ref::inv(ref::latbase(s.lat));
    require(b.getRmin() == m.rmin && b.getRmax() == m.rmax, "limits",
            "range limits ", b.getRmin(), " ", b.getRmax());
    for (b.rewind(); !b.finished(); b.next())
    {
        require(got.size() < 100000, "endless", "too many bonds");
        require(b.site0() == m.anchor, "site0", "site0 is ", b.site0());
        Got g;
        g.j = b.site1();
        g.d = b.distance();
        V3 r0, r1;
        for (int k = 0; k < 3; ++k)
        {
            g.r[k] = b.r01()[k];
            r0[k] = b.r0()[k];
            r1[k] = b.r1()[k];
        }
        require(ref::norm(r1 - r0 - g.r) < 1e-8, "r01",
                "r01 differs from r1 - r0");
        require(close(ref::norm(g.r), g.d), "distance",
                "distance ", g.d, " is not the length of r01");
        require(b.multiplicity() == s.mult(m.anchor), "multiplicity",
                "multiplicity ", b.multiplicity(), " instead of ",
                s.mult(m.anchor));
        // anchor position must equal the site position modulo lattice
        V3 d0 = r0 - im0[0].r;
        if (s.kind != ref::ATOMIC)
        {
            d0 = ref::mul(ref::tr(ib), d0);
            for (int k = 0; k < 3; ++k)  d0[k] -= std::round(d0[k]);
        }
        require(ref::norm(d0) < 2e-5, "anchorpos", "r0 is not at site ",
                m.anchor);
        g.msd = b.msd();
        got.push_back(g);
    }
    std::vector<int> sites = m.sites;
    for (int j : sites)
    {
        auto key = std::make_pair(m.anchor, j);
        if (!cache.count(key))  cache[key] =
            s.pairs(m.anchor, j, 0, pairlimit);
        for (auto& p : cache[key])
        {
            Got g = { j, p.d, p.r01, ref::msd(p) };
            bool isin = m.rmin + eps < p.d && p.d < m.rmax - eps;
            // closed interval for molecules at exactly represented positions
            bool exact = s.kind == ref::ATOMIC &&
                m.rmin <= p.d && p.d <= m.rmax && p.d == std::floor(p.d);
            if (isin || exact)  expect.push_back(g);
            else if (m.rmin - eps < p.d && p.d < m.rmax + eps)
                border.push_back(g);
        }
    }
    // tolerance for sites averaged from nearly coinciding positions
    auto same = [&](const Got& a, const Got& b)
    {
        return a.j == b.j && ref::norm(a.r - b.r) < 5e-5 &&
            close(a.msd, b.msd, 1e-4, 1e-9);
    };
    std::vector<char> used(got.size(), 0);
    auto take = [&](const Got& e)
    {
        for (size_t i = 0; i < got.size(); ++i)
        {
            if (!used[i] && same(got[i], e)) { used[i] = 1; return true; }
        }
        return false;
    };
    for (auto& e : expect)
    {
        if (take(e))  continue;
        throw Fail("missing", cat("missing pair from site ", m.anchor,
            " to site ", e.j, " at distance ", e.d, " msd ", e.msd,
            " range ", m.rmin, " ", m.rmax, " listed ", got.size(),
            " expected ", expect.size()));
    }
    for (auto& e : border)  take(e);
    for (size_t i = 0; i < got.size(); ++i)
    {
        require(used[i], "extra", "unexpected or repeated pair from site ",
            m.anchor, " to site ", got[i].j, " at distance ", got[i].d,
            " range ", m.rmin, " ", m.rmax);
    }
    std::sort(got.begin(), got.end());
    uint64_t h = 1;
    for (auto& g : got)  h = mix(mix(h, g.j), hashdbl(g.d));
    ctx.outcome(h);
    ctx.count("pairs compared", got.size());
}

/// range limits equal to distances and their components at exact positions
void exactlimits(Ctx& ctx)
{
    std::vector<ref::Named> strus(2);
    strus[0].name = "grid";
    strus[1].name = "cube";
    std::vector<ref::Atom> atoms;
    for (int i = 0; i < 27; ++i)
    {
        const int x = i / 9, y = i / 3 % 3, z = i % 3;
        atoms.push_back(ref::Atom(i % 2 ? "C" : "O", x, y, z, 0.003));
    }
    strus[0].s = ref::mk(ref::ATOMIC, {{1, 1, 1, 90, 90, 90}}, atoms);
    strus[1].s = ref::mk(ref::PERIODIC, {{2, 2, 2, 90, 90, 90}}, {
            ref::Atom("C", 0, 0, 0, 0.003), ref::Atom("O", 0.5, 0, 0, 0.003) });
    std::vector<double> limits = { 0.0 };
    for (int k = 1; k <= 9; ++k)  limits.push_back(std::sqrt(double(k)));
    for (const ref::Named& ns : strus)
    {
        const Struct& s = ns.s;
        const int n = s.atoms.size();
        pairlimit = 4.7;
        for (int i = 0; i < n; ++i)
            for (double rmin : limits)
                for (double rmax : limits)
        ctx.run(cat("C03 exact ", ns.name, " site", i, " ", rmin, "-", rmax),
            [&]()
        {
            SPtr stru = ref::build(s);
            BaseBondGeneratorPtr b = stru->createBondGenerator();
            std::map<std::pair<int,int>, std::vector<ref::Pair> > cache;
            Model m = { i, {}, rmin, rmax };
            for (int j = 0; j < n; ++j)  m.sites.push_back(j);
            b->selectAnchorSite(i);
            b->setRmin(rmin);
            b->setRmax(rmax);
            ctx.transition(3);
            verify(ctx, s, stru, *b, m, cache);
            ctx.state(mix(mix(hashstr(ns.name, i), hashdbl(rmin)),
                        hashdbl(rmax)));
            ctx.evaluation();
            ctx.trace();
        });
    }
}

/// narrow ranges for sites close to opposite corners of unit cells, where
/// separation and lattice translation differ by almost whole cell diagonal
void corners(Ctx& ctx)
{
    const std::vector<std::array<double, 6> > lats = {
        {{ 2, 2, 2, 90, 90, 90 }}, {{ 2, 2.5, 3, 90, 115, 90 }},
        {{ 2.2, 2.2, 2.2, 65, 65, 65 }}, {{ 2, 2.3, 2.1, 100, 75, 112 }} };
    const double top = ctx.thorough ? 12 : 8;
    for (size_t l = 0; l < lats.size(); ++l)
    for (ref::Kind kind : { ref::PERIODIC, ref::CRYSTAL })
    for (int diag = 0; diag < 4; ++diag)
    {
        double x[2][3];
        for (int k = 0; k < 3; ++k)
        {
            const bool hi = (diag == k + 1);
            x[0][k] = hi ? 0.96 : 0.02 + 0.01 * k;
            x[1][k] = hi ? 0.03 : 0.95 + 0.01 * k;
        }
        Struct s = ref::mk(kind, lats[l], {
                ref::Atom("C", x[0][0], x[0][1], x[0][2], 0.003),
                ref::Atom("O", x[1][0], x[1][1], x[1][2], 0.003) },
                kind == ref::CRYSTAL ? ref::groupPm1() :
                std::vector<ref::SymOp>());
        std::map<std::pair<int,int>, std::vector<ref::Pair> > cache;
        pairlimit = top + 0.6;
        for (int i = 0; i < 2; ++i)
        for (double rmin = 0; rmin < top; rmin += 0.25)
        ctx.run(cat("C03 corners ", l, " ", kind, " diagonal", diag, " site",
                    i, " ", rmin), [&]()
        {
            SPtr stru = ref::build(s);
            BaseBondGeneratorPtr b = stru->createBondGenerator();
            Model m = { i, {0, 1}, rmin, rmin + 0.27 };
            b->selectAnchorSite(i);
            b->setRmin(m.rmin);
            b->setRmax(m.rmax);
            ctx.transition(3);
            verify(ctx, s, stru, *b, m, cache);
            ctx.state(mix(mix(hashstr("corners", l * 8 + kind * 4 + diag), i),
                        hashdbl(rmin)));
            ctx.evaluation();
            ctx.trace();
        });
    }
}

}   // namespace

void explore(Ctx& ctx)
{
    exactlimits(ctx);
    corners(ctx);
    for (int wide = 0; wide < 2; ++wide)
    for (const ref::Named& ns : ref::catalogue())
    {
        int depth = ctx.thorough ? 4 : 3;
        pairlimit = wide ? 7.2 : 4.7;
        const Struct& s = ns.s;
        if (wide && (s.kind == ref::ATOMIC || s.atoms.size() > 2))  continue;
        std::vector<Op> ops = alphabet(s, wide);
        int n = s.atoms.size();
        // start configurations
        int nstart = n ? 3 : 1;
        int maxdepth = n ? depth : 1;
        std::map<std::pair<int,int>, std::vector<ref::Pair> > cache;
        for (int st = 0; st < nstart; ++st)
        {
            for (int len = 0; len <= maxdepth; ++len)
            {
                long total = 1;
                for (int i = 0; i < len; ++i)  total *= ops.size();
                for (long code = 0; code < total; ++code)
                {
                    std::string desc = cat("C03 ", ns.name,
                            wide ? " wide" : "", " start", st);
                    std::vector<int> seq;
                    long c = code;
                    for (int i = 0; i < len; ++i, c /= ops.size())
                    {
                        seq.push_back(c % ops.size());
                        desc += " " + ops[seq.back()].name;
                    }
                    ctx.run(desc, [&]()
                    {
                        SPtr stru = ref::build(s);
                        BaseBondGeneratorPtr b = stru->createBondGenerator();
                        Model m = { 0, {}, 0.0, 0.0 };
                        for (int i = 0; i < n; ++i)  m.sites.push_back(i);
                        if (!n)
                        {
                            b->setRmax(5);
                            b->rewind();
                            require(b->finished(), "empty",
                                "bonds in an empty structure");
                            ctx.trace();
                            return;
                        }
                        if (wide)
                        {
                            // walked over distances beyond the cell diagonal
                            b->selectAnchorSite(0);
                            m.rmax = (st == 1) ? 5.83 : 7.17;
                            m.rmin = (st == 1) ? 0 : 5.2;
                            b->setRmax(m.rmax);
                            b->setRmin(m.rmin);
                            b->rewind();
                            if (st == 2)  while (!b->finished())  b->next();
                        }
                        else if (st >= 1)
                        {
                            b->selectAnchorSite(0);
                            b->setRmax(3.03);
                            m.rmax = 3.03;
                        }
                        if (!wide && st >= 2)
                        {
                            b->selectAnchorSite(n - 1);
                            b->setRmin(0.9);
                            m.anchor = n - 1;
                            m.rmin = 0.9;
                            b->rewind();
                            if (!b->finished())  b->next();
                        }
                        // an anchor must be selected before use
                        if (st == 0)  b->selectAnchorSite(0);
                        for (int k : seq)
                        {
                            apply(*b, m, ops[k]);
                            ctx.transition();
                        }
                        uint64_t h = hashstr(ns.name);
                        h = mix(h, m.anchor);
                        for (int k : m.sites)  h = mix(h, k + 1);
                        h = mix(mix(h, hashdbl(m.rmin)), hashdbl(m.rmax));
                        ctx.state(h);
                        verify(ctx, s, stru, *b, m, cache);
                        ctx.evaluation();
                        ctx.trace();
                    });
                }
            }
        }
    }
}
