// C26: equivalent descriptions of one structure give the same results.
#include <numeric>
#include "calcs.hpp"

using namespace mc;
using ref::V3;
using ref::M3;
using ref::Struct;

const Info mcinfo = {
    "C26", "model_checking",
    "Structures from the shared catalogue are described again by equivalent "
        "descriptions: all orders of sites, all 48 axis rotations and "
        "reflections and generic ones, shifts of origin, lattice translations "
        "of every site, changes of the lattice base by all unimodular "
        "matrices with elements -1, 0, 1, all supercells up to the bounded "
        "volume with the translations as new sites or as symmetry "
        "operations, all choices of the symmetry image listed for each site, "
        "all rotations of the list of operations, operations shifted by "
        "lattice vectors or repeated, expansion to P1, sites split in two "
        "of partial occupancy and sites with zero occupancy.  Sequences of "
        "these transformations are enumerated up to the depth bound.  In each "
        "description PDF with and without termination ripples and with "
        "a masked site or type, Debye F and PDF, bonds of each site with "
        "directions, bond valence sums, overlaps, coordination numbers, "
        "number density and total occupancy are compared with those of the "
        "original structure.  An outcome is the hash of results.",
    "sequences of 2 transformations, supercells to volume 3, unimodular "
        "changes for 3 structures (every 5th for other structures)",
    "sequences of 3 transformations (of 2 for crystals), supercells to "
        "volume 5, all unimodular changes for all structures",
    {"the compared pairs have no distance within 1e-5 of a hard limit",
     "positions of atoms are at least 0.1 A from other positions or equal to "
        "them, so that symmetry precision does not matter"},
    120
};

namespace {

struct Desc
{
    ref::Kind kind;
    M3 base;                        // rows
    std::vector<ref::Atom> atoms;   // Cartesian coordinates
    std::vector<int> old;           // site in the original structure
    std::vector<M3> rot;            // rotation of surroundings
    std::vector<ref::SymOp> ops;    // in lattice coordinates
    int ncells = 1;                 // volume per the original one
    bool split = false;             // sites were split or added

    V3 frac(const V3& r) const  { return mul(tr(inv(base)), r); }
    V3 cart(const V3& x) const  { return mul(tr(base), x); }
    M3 oprot(size_t k) const
    { return mul(tr(base), mul(ops[k].R, tr(inv(base)))); }
    bool periodic() const  { return kind != ref::ATOMIC; }
    M3 firstrot() const  { return ops.empty() ? ref::iso(1) : oprot(0); }
};

typedef std::function<void(Desc&)> TFun;

struct Trafo
{
    std::string name;
    TFun f;
};

Desc describe(const Struct& s)
{
    Desc d;
    d.kind = s.kind;
    d.base = ref::latbase(s.lat);
    if (s.kind == ref::ATOMIC)  d.base = ref::iso(1);
    d.ops = s.ops;
    for (size_t i = 0; i < s.atoms.size(); ++i)
    {
        ref::Atom a = s.atoms[i];
        a.xyz = s.cart(a.xyz);
        if (!a.aniso)  a.U = ref::iso(a.U[0][0]);
        d.atoms.push_back(a);
        d.old.push_back(i);
        d.rot.push_back(ref::iso(1));
    }
    return d;
}

/// apply Cartesian rotation to everything
void rotate(Desc& d, const M3& Q)
{
    for (auto& a : d.atoms)
    {
        a.xyz = mul(Q, a.xyz);
        a.U = mul(Q, mul(a.U, tr(Q)));
        if (!a.aniso)  a.U = ref::iso(a.U[0][0]);
    }
    for (auto& r : d.rot)  r = mul(Q, r);
    if (d.periodic())  d.base = mul(d.base, tr(Q));
}

/// standard orientation
void standardize(Desc& d, ref::LP& lp)
{
    const double D = 180 / M_PI;
    double a = norm(d.base[0]), b = norm(d.base[1]), c = norm(d.base[2]);
    auto ang = [&](int i, int j)
    {
        double cs = dot(d.base[i], d.base[j]) / norm(d.base[i]) /
            norm(d.base[j]);
        double rv = std::acos(cs) * D;
        for (double x : { 60.0, 90.0, 120.0 })
            if (std::fabs(rv - x) < 1e-10)  rv = x;
        return rv;
    };
    lp = ref::lp(a, b, c, ang(1, 2), ang(0, 2), ang(0, 1));
    M3 sb = ref::latbase(lp);
    M3 Q = tr(mul(inv(d.base), sb));
    rotate(d, Q);
    d.base = sb;
}

SPtr library(Desc& d)
{
    Struct s;
    s.kind = d.kind;
    if (d.periodic())  standardize(d, s.lat);
    s.ops = d.ops;
    for (auto a : d.atoms)
    {
        if (d.periodic())  a.xyz = d.frac(a.xyz);
        s.atoms.push_back(a);
    }
    SPtr rv = ref::build(s);
    // exact Cartesian coordinates
    for (size_t i = 0; i < d.atoms.size(); ++i)
        for (int k = 0; k < 3; ++k)
            rv->at(i).xyz_cartn[k] = d.atoms[i].xyz[k];
    return rv;
}

// transformations -------------------------------------------------------------

template <class V>
void reorder(V& v, const std::vector<int>& p)
{
    V w;
    for (int i : p)  w.push_back(v[i]);
    v = w;
}

void permute(Desc& d, const std::vector<int>& p)
{
    reorder(d.atoms, p);
    reorder(d.old, p);
    reorder(d.rot, p);
}

void changebase(Desc& d, const M3& T)
{
    M3 it = inv(T);
    M3 A = tr(it);      // x' = A x
    d.base = mul(T, d.base);
    for (auto& o : d.ops)
    {
        o.R = mul(A, mul(o.R, inv(A)));
        o.t = mul(A, o.t);
    }
}

void shiftorigin(Desc& d, const V3& x)
{
    V3 r = d.periodic() ? d.cart(x) : x;
    for (auto& a : d.atoms)  a.xyz = a.xyz + r;
    for (auto& o : d.ops)  o.t = o.t + x - mul(o.R, x);
}

std::vector<V3> cosets(const M3& H)
{
    // H is lower triangular, the translations are 0 .. h_ii - 1
    std::vector<V3> rv;
    for (int i = 0; i < H[0][0]; ++i)
    for (int j = 0; j < H[1][1]; ++j)
    for (int k = 0; k < H[2][2]; ++k)  rv.push_back(ref::v3(i, j, k));
    return rv;
}

std::vector<M3> hermite(int n)
{
    std::vector<M3> rv;
    for (int a = 1; a <= n; ++a)  for (int b = 1; a * b <= n; ++b)
    {
        if (n % (a * b))  continue;
        int c = n / a / b;
        for (int p = 0; p < a; ++p)
        for (int q = 0; q < a; ++q)
        for (int r = 0; r < b; ++r)
            rv.push_back(ref::m3(a, 0, 0, p, b, 0, q, r, c));
    }
    return rv;
}

/// images of site modulo lattice, the first symop first
std::vector<size_t> imageops(const Desc& d, int i)
{
    std::vector<size_t> rv;
    std::vector<V3> fr;
    V3 x = d.frac(d.atoms[i].xyz);
    for (size_t k = 0; k < d.ops.size(); ++k)
    {
        V3 y = mul(d.ops[k].R, x) + d.ops[k].t;
        bool dup = false;
        for (auto& z : fr)
        {
            V3 e = y - z;
            for (int m = 0; m < 3; ++m)  e[m] -= std::round(e[m]);
            dup = dup || norm(d.cart(e)) < 1e-4;
        }
        if (dup)  continue;
        fr.push_back(y);
        rv.push_back(k);
    }
    return rv;
}

void useimage(Desc& d, int i, size_t k)
{
    ref::Atom& a = d.atoms[i];
    M3 Q = d.oprot(k);
    a.xyz = d.cart(mul(d.ops[k].R, d.frac(a.xyz)) + d.ops[k].t);
    a.U = mul(Q, mul(a.U, tr(Q)));
    if (!a.aniso)  a.U = ref::iso(a.U[0][0]);
    d.rot[i] = mul(Q, d.rot[i]);
}

void expand(Desc& d)
{
    if (d.kind != ref::CRYSTAL)  return;
    Desc e = d;
    e.atoms.clear();
    e.old.clear();
    e.rot.clear();
    for (size_t i = 0; i < d.atoms.size(); ++i)
    {
        std::vector<size_t> ks = imageops(d, i);
        if (d.ops.empty())  ks.push_back(0);
        for (size_t k : ks)
        {
            Desc f = d;
            if (!d.ops.empty())  useimage(f, i, k);
            e.atoms.push_back(f.atoms[i]);
            e.old.push_back(f.old[i]);
            e.rot.push_back(f.rot[i]);
        }
    }
    e.ops.clear();
    e.kind = ref::PERIODIC;
    d = e;
}

/// hermite normal form with rows as lattice vectors where the translations
/// 0 .. h_ii - 1 are representatives of cosets
void supercell(Desc& d, const M3& H, bool asops)
{
    std::vector<V3> cs = cosets(H);
    if (asops)
    {
        if (d.ops.empty())  d.ops = ref::groupP1();
        std::vector<ref::SymOp> ops;
        for (auto& c : cs)  for (auto o : d.ops)
        {
            o.t = o.t + c;
            ops.push_back(o);
        }
        d.ops = ops;
    }
    else
    {
        // operations of the smaller cell do not apply to single sites
        if (d.ops.size() > 1)  expand(d);
        d.ops.clear();
        std::vector<int> p;
        std::vector<V3> sh;
        for (auto& c : cs)  for (size_t i = 0; i < d.atoms.size(); ++i)
        {
            p.push_back(i);
            sh.push_back(d.cart(c));
        }
        permute(d, p);
        for (size_t i = 0; i < p.size(); ++i)
            d.atoms[i].xyz = d.atoms[i].xyz + sh[i];
    }
    changebase(d, H);
    d.ncells *= cs.size();
}

M3 axisrotation(const V3& axis, double deg)
{
    V3 n = (1 / norm(axis)) * axis;
    double c = std::cos(deg * M_PI / 180), s = std::sin(deg * M_PI / 180);
    M3 k = ref::m3(0, -n[2], n[1], n[2], 0, -n[0], -n[1], n[0], 0);
    M3 kk = mul(k, k);
    M3 rv = ref::iso(1);
    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
        rv[i][j] += s * k[i][j] + (1 - c) * kk[i][j];
    return rv;
}

std::vector<M3> cuberotations()
{
    std::vector<M3> rv;
    int p[3] = { 0, 1, 2 };
    do
    {
        for (int s = 0; s < 8; ++s)
        {
            M3 m = ref::zero3();
            for (int i = 0; i < 3; ++i)  m[i][p[i]] = (s >> i & 1) ? -1 : 1;
            rv.push_back(m);
        }
    }
    while (std::next_permutation(p, p + 3));
    return rv;
}

const std::vector<M3>& unimodular()
{
    static std::vector<M3> rv;
    if (rv.size())  return rv;
    for (int code = 0; code < 19683; ++code)
    {
        M3 m;
        int c = code;
        for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j, c /= 3)
            m[i][j] = c % 3 - 1;
        double v = det(m);
        if (std::fabs(std::fabs(v) - 1) < 1e-9)  rv.push_back(m);
    }
    return rv;
}

/// short alphabet for sequences
std::vector<Trafo> alphabet(ref::Kind kind)
{
    std::vector<Trafo> rv;
    auto add = [&](const std::string& n, TFun f)
    {
        Trafo t = { n, f };
        rv.push_back(t);
    };
    auto cyc = [](Desc& d)
    {
        std::vector<int> p(d.atoms.size());
        std::iota(p.begin(), p.end(), 0);
        if (p.size())  std::rotate(p.begin(), p.begin() + 1, p.end());
        permute(d, p);
    };
    auto rev = [](Desc& d)
    {
        std::vector<int> p(d.atoms.size());
        std::iota(p.begin(), p.end(), 0);
        std::reverse(p.begin(), p.end());
        permute(d, p);
    };
    add("cyc", cyc);
    add("rev", rev);
    add("split", [](Desc& d)
    {
        if (d.atoms.empty())  return;
        d.split = true;
        std::vector<int> p(d.atoms.size());
        std::iota(p.begin(), p.end(), 0);
        p.insert(p.begin() + p.size() / 2, 0);
        int at = (d.atoms.size()) / 2;
        permute(d, p);
        double o = d.atoms[0].occ;
        int first = at == 0 ? 1 : 0;
        d.atoms[at].occ = 0.25 * o;
        d.atoms[first].occ = 0.75 * o;
    });
    add("ghost", [](Desc& d)
    {
        if (d.atoms.empty())  return;
        d.split = true;
        std::vector<int> p(d.atoms.size());
        std::iota(p.begin(), p.end(), 0);
        p.push_back(0);
        permute(d, p);
        d.atoms.back().occ = 0;
        d.atoms.back().type = "Ca";
        d.atoms.back().xyz = d.atoms[0].xyz + ref::v3(0.3, 0.4, 0.5);
        d.old.back() = -1;
    });
    if (kind == ref::ATOMIC)
    {
        add("rz", [](Desc& d) { rotate(d, ref::m3(0, 1, 0, -1, 0, 0, 0, 0, 1)); });
        add("r37", [](Desc& d) { rotate(d, axisrotation(ref::v3(1, 2, -0.5), 37)); });
        add("inv", [](Desc& d) { rotate(d, ref::iso(-1)); });
        add("mir", [](Desc& d)
        {
            M3 Q = axisrotation(ref::v3(-1, 0.3, 2), 111);
            for (auto& r : Q)  r = -1.0 * r;
            rotate(d, Q);
        });
        add("sh1", [](Desc& d) { shiftorigin(d, ref::v3(-3.25, 0.125, 7)); });
        add("sh2", [](Desc& d) { shiftorigin(d, ref::v3(117.3, -250.9, 33.3)); });
        return rv;
    }
    for (int i = 0; i < 3; ++i)
    add(cat("lt", i), [i](Desc& d)
    {
        if (d.atoms.empty())  return;
        auto& a = d.atoms[i % d.atoms.size()];
        const V3 t[3] = { ref::v3(1, 0, -2), ref::v3(-3, 1, 0), ref::v3(0, 5, 1) };
        a.xyz = a.xyz + d.cart(t[i]);
    });
    add("or1", [](Desc& d) { shiftorigin(d, ref::v3(0.13, -0.27, 0.41)); });
    add("or2", [](Desc& d) { shiftorigin(d, ref::v3(0.5, 2.5, -1.25)); });
    add("cab", [](Desc& d)
    { changebase(d, ref::m3(0, 0, 1, 1, 0, 0, 0, 1, 0)); });
    add("bac", [](Desc& d)
    { changebase(d, ref::m3(0, 1, 0, 1, 0, 0, 0, 0, 1)); });
    add("neg", [](Desc& d)
    { changebase(d, ref::m3(-1, 0, 0, 0, 1, 0, 0, 0, -1)); });
    add("skw", [](Desc& d)
    { changebase(d, ref::m3(1, 1, 0, 0, 1, 0, 0, -1, 1)); });
    add("sx2", [](Desc& d)
    { supercell(d, ref::m3(2, 0, 0, 1, 1, 0, 0, 0, 1), false); });
    add("sz2", [](Desc& d)
    { supercell(d, ref::m3(1, 0, 0, 0, 1, 0, 0, 0, 2), false); });
    if (kind == ref::PERIODIC)
    {
        add("cry", [](Desc& d) { d.kind = ref::CRYSTAL; });
        add("P1", [](Desc& d)
        {
            d.kind = ref::CRYSTAL;
            if (d.ops.empty())  d.ops = ref::groupP1();
        });
    }
    else  add("exp", [](Desc& d) { expand(d); });
    add("ox2", [](Desc& d)
    {
        d.kind = ref::CRYSTAL;
        supercell(d, ref::m3(1, 0, 0, 1, 2, 0, 0, 0, 1), true);
    });
    add("img", [](Desc& d)
    {
        for (size_t i = 0; i < d.atoms.size(); ++i)
        {
            auto ks = imageops(d, i);
            if (ks.size())  useimage(d, i, ks[(i + 1) % ks.size()]);
        }
    });
    add("ocy", [](Desc& d)
    {
        if (d.ops.size())
            std::rotate(d.ops.begin(), d.ops.begin() + 1, d.ops.end());
    });
    add("olt", [](Desc& d)
    {
        for (size_t k = 0; k < d.ops.size(); ++k)
            d.ops[k].t = d.ops[k].t + ref::v3(int(k % 3) - 1, 1, -int(k));
    });
    add("odu", [](Desc& d)
    {
        if (d.ops.size())  d.ops.push_back(d.ops[d.ops.size() / 2]);
    });
    return rv;
}

// results ---------------------------------------------------------------------

/// limits without pairs nearby
struct Limits
{
    double rmax, rstep, radius;
};

struct Bond
{
    double d;
    int j;
    V3 r;
};

struct Results
{
    std::vector<Out> global;
    std::vector<std::vector<Bond> > bonds;  // per old site
    std::vector<std::vector<double> > site;
    std::vector<V3> gradient;
};

const double EXT = 0.5;

Limits findlimits(const Struct& s)
{
    std::vector<double> ds;
    int n = s.atoms.size();
    for (int i = 0; i < n; ++i)  for (int j = 0; j < n; ++j)
        for (auto& p : s.pairs(i, j, 0, 7))  ds.push_back(p.d);
    auto near = [&](double r)
    {
        for (double d : ds)  if (std::fabs(d - r) < 1e-5)  return true;
        return false;
    };
    Limits rv = { 3.27, 0.0737, 0.8531 };
    while (near(rv.rmax))  rv.rmax += 0.00071;
    while (near(2 * rv.radius) || near(rv.radius + 1.1013) ||
            near(rv.radius + 0.7707))  rv.radius += 0.00013;
    require(!near(2.2026) && !near(1.5414), "harness", "touching atoms");
    for (;; rv.rstep += 0.000031)
    {
        bool ok = true;
        for (double r = rv.rstep; ok && r < 6; r += rv.rstep)  ok = !near(r);
        if (ok)  break;
    }
    return rv;
}

/// evaluate all results, sites refer to the original structure
Results evaluate(Ctx& ctx, Desc& d, const Limits& lim, int nold)
{
    Results rv;
    SPtr s = library(d);
    const int n = d.atoms.size();
    auto glob = [&](const std::string& nm, const QuantityType& v, double tol)
    {
        Out o = { nm, v, tol };
        rv.global.push_back(o);
    };
    glob("totalocc", QuantityType(1, s->totalOccupancy() / d.ncells), 1e-12);
    glob("density", QuantityType(1, s->numberDensity()), 1e-10);
    // PDF in several configurations
    for (int c = 0; c < 5; ++c)
    {
        PDFCalculator pc;
        pc.setRmax(4);
        pc.setRstep(lim.rstep);
        pc.setMaxExtension(EXT);
        pc.getPeakProfile()->setPrecision(1e-13);
        if (c == 1)
        {
            pc.setQmax(14);
            pc.setQmin(0.7);
            pc.setScatteringFactorTableByType("N");
            pc.setPeakWidthModelByType("debye-waller");
        }
        if (c == 2)
        {
            // no pairs with the first original site
            std::vector<int> all(1, PairQuantity::ALLATOMSINT), off;
            for (int i = 0; i < n; ++i)  if (d.old[i] == 0)  off.push_back(i);
            for (int i : off)
                pc.setPairMask(i, PairQuantity::ALLATOMSINT, false);
        }
        if (c == 3)
        {
            // only the pairs of different sites 0 and 1
            pc.maskAllPairs(false);
            for (int i = 0; i < n; ++i)  for (int j = 0; j < n; ++j)
                if (d.old[i] == 0 && d.old[j] == 1)
                    pc.setPairMask(i, j, true);
        }
        if (c == 4)
        {
            pc.maskAllPairs(false);
            pc.setTypeMask("Ni", "ALL", true);
            pc.setTypeMask("C", "C", true);
            pc.setTypeMask("Na1+", "Cl1-", true);
        }
        pc.eval(s);
        ctx.evaluation();
        glob(cat("rdf", c), pc.getRDF(), 1e-8);
        glob(cat("pdf", c), pc.getPDF(), 1e-8);
    }
    DebyePDFCalculator dc;
    dc.setRmax(4);
    dc.setRstep(lim.rstep);
    dc.setMaxExtension(EXT);
    dc.setQmax(12);
    dc.setDebyePrecision(1e-13);
    dc.eval(s);
    glob("debyef", dc.getF(), 1e-8);
    glob("debyepdf", dc.getPDF(), 1e-8);
    ctx.evaluation();
    if (d.split)  return rv;
    rv.bonds.resize(n);
    rv.site.resize(n);
    BondCalculator bc;
    bc.setRmax(lim.rmax);
    bc.eval(s);
    auto bd = bc.distances();
    auto br = bc.directions();
    auto b0 = bc.sites0(), b1 = bc.sites1();
    for (size_t k = 0; k < bd.size(); ++k)
    {
        Bond b = { bd[k], d.old[b1[k]], ref::v3(br[k][0], br[k][1], br[k][2]) };
        rv.bonds.at(b0[k]).push_back(b);
    }
    BVSCalculator bvs;
    bvs.setRmax(lim.rmax);
    bvs.setValencePrecision(1e-7);
    bvs.eval(s);
    auto vs = bvs.value();
    auto vd = bvs.bvdiff();
    glob("bvms", QuantityType(1, bvs.bvmsdiff()), 1e-6);
    OverlapCalculator oc;
    boost::shared_ptr<ConstantRadiiTable> t(new ConstantRadiiTable);
    t->setDefault(lim.radius);
    t->setCustom("O", 1.1013);
    t->setCustom("Cl1-", 0.7707);
    oc.setAtomRadiiTable(t);
    oc.eval(s);
    auto ss = oc.siteSquareOverlaps();
    auto cn = oc.coordinations();
    auto og = oc.gradients();
    glob("meanoverlap", QuantityType(1, oc.meanSquareOverlap()), 1e-8);
    glob("totaloverlap", QuantityType(1, oc.totalSquareOverlap() / d.ncells),
            1e-8);
    require(int(vs.size()) == n && int(ss.size()) == n && int(cn.size()) == n,
            "sizes", "wrong number of site values");
    for (int i = 0; i < n; ++i)
    {
        rv.site[i] = { vs[i], vd[i], ss[i], cn[i] };
        auto cbt = oc.coordinationByTypes(i);
        for (auto& kv : std::map<std::string, double>(cbt.begin(), cbt.end()))
        {
            rv.site[i].push_back(hashstr(kv.first) % 1000);
            rv.site[i].push_back(kv.second);
        }
        std::set<int> nb;
        for (int k : oc.getNeighborSites(i))  nb.insert(d.old[k]);
        for (int k : nb)  rv.site[i].push_back(k);
    }
    ctx.evaluation(3);
    (void) nold; (void) og;
    return rv;
}

void compare(const Desc& d0, const Results& e, const Desc& d,
        const Results& g, const std::string& what)
{
    Outs ge = g.global, ee = e.global;
    // overlaps and bonds are not compared for split sites
    if (ee.size() > ge.size())  ee.resize(ge.size());
    for (auto& o : ge)
        for (double x : o.v)
            require(std::isfinite(x), "finite", what, " ", o.name,
                    " is not finite");
    compareouts(ge, ee, "global", what);
    if (d.split)  return;
    for (size_t i = 0; i < d.atoms.size(); ++i)
    {
        int o = d.old[i];
        const auto &sv = g.site[i], &so = e.site[o];
        require(sv.size() == so.size(), "site", what, " site ", i,
                " has other number of neighbors");
        for (size_t k = 0; k < sv.size(); ++k)
            require(std::fabs(sv[k] - so[k]) < 1e-7 * (1 + std::fabs(so[k])),
                    "site", what, " site ", i, " value ", k, " is ", sv[k],
                    " instead of ", so[k]);
        const auto &bv = g.bonds[i], &bo = e.bonds[o];
        require(bv.size() == bo.size(), "bonds", what, " site ", i, " has ",
                bv.size(), " bonds instead of ", bo.size());
        // rotation from the listed surroundings to the new ones
        M3 Q = mul(d.firstrot(), mul(d.rot[i], inv(d0.firstrot())));
        std::vector<char> used(bo.size(), 0);
        for (auto& b : bv)
        {
            bool found = false;
            for (size_t k = 0; k < bo.size() && !found; ++k)
            {
                if (used[k] || bo[k].j != b.j ||
                        std::fabs(bo[k].d - b.d) > 1e-7)  continue;
                if (norm(mul(Q, bo[k].r) - b.r) > 1e-6)  continue;
                used[k] = found = true;
            }
            require(found, "bonds", what, " site ", i, " has an extra bond ",
                    b.d, " to site ", b.j, " along ", b.r[0], " ", b.r[1],
                    " ", b.r[2]);
        }
    }
}

struct Original
{
    std::string name;
    Struct s;
    Desc d;
    Limits lim;
    Results res;
    bool ready = false;

    void prepare(Ctx& ctx)
    {
        if (ready)  return;
        lim = findlimits(s);
        d = describe(s);
        res = evaluate(ctx, d, lim, s.atoms.size());
        ready = true;
    }
};

void verify(Ctx& ctx, Original& o, Desc d, const std::string& what)
{
    Results r = evaluate(ctx, d, o.lim, o.s.atoms.size());
    compare(o.d, o.res, d, r, what);
    ctx.trace();
    uint64_t h = hashouts(r.global, hashstr(o.name));
    ctx.outcome(h);
    for (auto& a : d.atoms)
        for (int k = 0; k < 3; ++k)  h = mix(h, hashdbl(a.xyz[k]));
    for (auto& p : d.ops)
        for (int k = 0; k < 3; ++k)  h = mix(h, hashdbl(p.t[k]));
    ctx.state(h);
}

void sequences(Ctx& ctx, Original& o, int depth)
{
    const std::vector<Trafo> al = alphabet(o.s.kind);
    const int na = al.size();
    long tot = 1;
    for (int i = 0; i < depth - 1; ++i)  tot *= na;
    for (long code = 0; code < tot; ++code)
    {
        std::string nm;
        long c = code;
        for (int i = 0; i < depth - 1; ++i, c /= na)  nm += " " + al[c % na].name;
        ctx.run(cat("C26 ", o.name, nm), [&]()
        {
            o.prepare(ctx);
            Desc d = o.d;
            long c = code;
            for (int i = 0; i < depth - 1; ++i, c /= na)
            {
                al[c % na].f(d);
                ctx.transition();
            }
            for (auto& a : al)
            {
                Desc e = d;
                a.f(e);
                ctx.transition();
                // keep the number of sites and operations low
                size_t ni = std::max(size_t(1), e.ops.size());
                if (e.atoms.size() * ni > 64 || e.ncells > 4)
                {
                    ctx.count("descriptions over the size limit", 1);
                    continue;
                }
                verify(ctx, o, e, cat(o.name, nm, " ", a.name));
            }
        });
    }
}

void families(Ctx& ctx, Original& o)
{
    const int n = o.s.atoms.size();
    typedef std::vector<std::pair<std::string, TFun> > Fam;
    auto go = [&](const std::string& fam, const Fam& v, size_t chunk)
    {
        for (size_t k0 = 0; k0 < v.size(); k0 += chunk)
        ctx.run(cat("C26 ", o.name, " ", fam, " ", k0), [&]()
        {
            o.prepare(ctx);
            for (size_t k = k0; k < std::min(v.size(), k0 + chunk); ++k)
            {
                Desc d = o.d;
                v[k].second(d);
                ctx.transition();
                verify(ctx, o, d, cat(o.name, " ", fam, " ", v[k].first));
            }
        });
    };
    auto mname = [](const M3& m)
    {
        std::string s;
        for (auto& r : m)  for (int k = 0; k < 3; ++k)  s += cat(" ", r[k]);
        return s;
    };
    Fam f;
    std::vector<int> p(n);
    std::iota(p.begin(), p.end(), 0);
    do
    {
        std::string s;
        for (int i : p)  s += cat(i);
        f.push_back(std::make_pair(s, [p](Desc& d) { permute(d, p); }));
    }
    while (std::next_permutation(p.begin(), p.end()));
    go("order", f, 6);
    f.clear();
    if (o.s.kind == ref::ATOMIC)
    {
        std::vector<M3> rs = cuberotations();
        for (int k = 1; k < 36; ++k)
        {
            rs.push_back(axisrotation(ref::v3(1, 2, -0.5), 10.0 * k));
            rs.push_back(axisrotation(ref::v3(-0.3, 0.2, 1), 10.0 * k + 3));
        }
        for (auto& m : rs)
            f.push_back(std::make_pair(mname(m),
                        [m](Desc& d) { rotate(d, m); }));
        go("rotation", f, 12);
        f.clear();
        for (double x : { -1e4, -2.5, 0.0, 0.3 })
        for (double y : { -7.0, 0.0, 1e3 })
        for (double z : { -0.01, 0.0, 4.5 })
            f.push_back(std::make_pair(cat(x, " ", y, " ", z),
                [=](Desc& d) { shiftorigin(d, ref::v3(x, y, z)); }));
        go("shift", f, 12);
        return;
    }
    // lattice translations of every site
    for (int i = 0; i < n; ++i)
    for (int h = -2; h <= 2; ++h)
    for (int k = -2; k <= 2; ++k)
    for (int l = -2; l <= 2; ++l)
        f.push_back(std::make_pair(cat(i, " ", h, " ", k, " ", l),
            [=](Desc& d)
            {
                auto& a = d.atoms[i];
                a.xyz = a.xyz + d.cart(ref::v3(h, k, l));
            }));
    go("translation", f, 25);
    f.clear();
    for (double x : { -0.5, 0.0, 0.11, 0.999, 37.0 })
    for (double y : { -0.25, 0.0, 0.37 })
    for (double z : { 0.0, 0.5, 0.77, -12.0 })
        f.push_back(std::make_pair(cat(x, " ", y, " ", z),
            [=](Desc& d) { shiftorigin(d, ref::v3(x, y, z)); }));
    go("origin", f, 12);
    f.clear();
    const auto& um = unimodular();
    bool every = ctx.thorough || o.name == "skew60" || o.name == "outside" ||
        o.name == "xnosymopout";
    for (size_t k = 0; k < um.size(); k += every ? 1 : 5)
    {
        M3 m = um[k];
        f.push_back(std::make_pair(mname(m),
                    [m](Desc& d) { changebase(d, m); }));
    }
    go("base", f, 40);
    f.clear();
    for (int v = 2; v <= (ctx.thorough ? 5 : 3); ++v)
    for (auto& m : hermite(v))
    for (int asops = 0; asops < 2; ++asops)
    {
        f.push_back(std::make_pair(cat(asops ? "ops" : "", mname(m)),
            [=](Desc& d)
            {
                if (asops)  d.kind = ref::CRYSTAL;
                supercell(d, m, asops);
            }));
    }
    go("supercell", f, 5);
    f.clear();
    if (o.s.kind != ref::CRYSTAL)  return;
    Desc d0 = describe(o.s);
    // all combinations of listed images
    std::vector<std::vector<size_t> > im;
    size_t tot = 1;
    for (int i = 0; i < n; ++i)
    {
        im.push_back(imageops(d0, i));
        tot *= std::max(size_t(1), im.back().size());
    }
    for (size_t code = 0; code < tot; ++code)
    {
        f.push_back(std::make_pair(cat(code), [=](Desc& d)
        {
            size_t c = code;
            for (int i = 0; i < n; ++i)
            {
                if (im[i].empty())  continue;
                useimage(d, i, im[i][c % im[i].size()]);
                c /= im[i].size();
            }
        }));
    }
    go("images", f, 8);
    f.clear();
    const size_t no = o.s.ops.size();
    for (size_t k = 0; k < no; ++k)  for (int r = 0; r < 2; ++r)
    for (int dup = 0; dup < 2; ++dup)
    {
        f.push_back(std::make_pair(cat(k, r, dup), [=](Desc& d)
        {
            if (r)  std::reverse(d.ops.begin(), d.ops.end());
            std::rotate(d.ops.begin(), d.ops.begin() + k, d.ops.end());
            if (dup)  d.ops.insert(d.ops.end(), d.ops.begin(), d.ops.end());
        }));
    }
    // translations of operations
    for (size_t k = 0; k < no; ++k)
    for (int h = -1; h <= 1; ++h)
    for (int l = -1; l <= 1; ++l)
        f.push_back(std::make_pair(cat("t", k, h, l), [=](Desc& d)
        {
            d.ops[k].t = d.ops[k].t + ref::v3(h, 3 * l, l);
        }));
    f.push_back(std::make_pair(std::string("expand"),
                [](Desc& d) { expand(d); }));
    go("operations", f, 8);
}

}   // namespace

void explore(Ctx& ctx)
{
    std::vector<Original> all;
    for (auto& x : ref::catalogue())
    {
        // special positions within the symmetry precision
        if (x.name == "xedge")  continue;
        Original o;
        o.name = x.name;
        o.s = x.s;
        all.push_back(o);
    }
    // more sites
    Original o;
    o.name = "mol5";
    o.s = ref::mk(ref::ATOMIC, ref::lp(1, 1, 1), {
        ref::Atom("Ti", 0, 0, 0, 0.003),
        ref::Atom("O", 1.9, 0.1, 0, 0.005, 0.5),
        ref::Atom("O", 0, -2, 0.3, 0.004).setU(ref::uaniso1()),
        ref::Atom("Na1+", -1.2, 1.1, 1.7).setU(ref::uaniso2()),
        ref::Atom("Cl1-", 1, 1, -2.2, 0.007) });
    all.push_back(o);
    for (auto& q : all)
    {
        if (!q.s.atoms.size())  continue;
        families(ctx, q);
        sequences(ctx, q, ctx.thorough && q.s.kind != ref::CRYSTAL ? 3 : 2);
    }
}
