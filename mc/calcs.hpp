// Calculators in small configurations, their complete public outputs and the
// edits of structures that are shared by the history checks.
#ifndef CALCS_HPP_INCLUDED
#define CALCS_HPP_INCLUDED

#include <functional>
#include "mc.hpp"
#include "structs.hpp"
#include <diffpy/srreal/PairQuantity.hpp>
#include <diffpy/srreal/PQEvaluator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/BaseBondGenerator.hpp>

namespace mc {

using namespace diffpy::srreal;
typedef boost::shared_ptr<AtomicStructureAdapter> SPtr;
typedef boost::shared_ptr<PairQuantity> QPtr;

/// one named list of numbers
struct Out
{
    std::string name;
    std::vector<double> v;
    double tol;     // tolerance relative to the largest magnitude
};
typedef std::vector<Out> Outs;

// Quantity derived from PairQuantity by a user: histogram of pair distances
// over pairs of atom types.  It accepts any combination of evaluator flags.
class ProbeQuantity : public PairQuantity
{
    public:

        ProbeQuantity(bool full=false, bool fixed=false)
        {
            mrmax = 4.0;
            this->resizeValue(NB);
            this->setEvaluatorType(OPTIMIZED);
            mevaluator->setFlag(USEFULLSUM, full);
            mevaluator->setFlag(FIXEDSITEINDEX, fixed);
            mfixed = fixed;
            mfull = full;
        }
        static const int NB = 64;
        bool mfull, mfixed;
        int pairsseen = 0;

    protected:

        virtual void addPairContribution(const BaseBondGenerator& b, int sc)
        {
            ++pairsseen;
            const std::string& t0 = mtypes.at(b.site0());
            const std::string& t1 = mtypes.at(b.site1());
            unsigned h = hashstr(t0) * hashstr(t1);
            if (mfixed)
            {
                h += mfull ? (7 * b.site0() + 13 * b.site1()) :
                    (7 * b.site0() + 7 * b.site1());
            }
            double w = b.multiplicity() * (1 + b.msd()) *
                moccs.at(b.site0()) * moccs.at(b.site1());
            if (mfull)  w *= 1 + 0.1 * (hashstr(t0) % 16);
            mvalue[(h >> 4) % (NB / 2)] += sc * w;
            mvalue[NB / 2 + (h >> 9) % (NB / 2)] += sc * w * b.distance();
        }
        // site data are cached like in the calculators of the library
        virtual void resetValue()
        {
            mtypes.clear();
            moccs.clear();
            for (int i = 0; i < this->countSites(); ++i)
            {
                mtypes.push_back(mstructure->siteAtomType(i));
                moccs.push_back(mstructure->siteOccupancy(i));
            }
            this->PairQuantity::resetValue();
        }
        std::vector<std::string> mtypes;
        std::vector<double> moccs;
        virtual void stashPartialValue()  { mstash = mvalue; }
        virtual void restorePartialValue()  { mvalue = mstash; }
        QuantityType mstash;
};

inline void addout(Outs& o, const std::string& n, const QuantityType& v,
        double tol=1e-8)
{
    Out x = { n, v, tol };
    o.push_back(x);
}

inline double typenumber(const std::string& s)
{
    return hashstr(s) % 1000003;
}

inline Outs outputs(const PairQuantity& pq)
{
    Outs rv;
    if (auto p = dynamic_cast<const PDFCalculator*>(&pq))
    {
        addout(rv, "rgrid", p->getRgrid(), 1e-12);
        addout(rv, "pdf", p->getPDF(), 2e-6);
        addout(rv, "rdf", p->getRDF(), 2e-6);
        addout(rv, "rdfperr", p->getRDFperR(), 2e-6);
        return rv;
    }
    if (auto p = dynamic_cast<const DebyePDFCalculator*>(&pq))
    {
        addout(rv, "rgrid", p->getRgrid(), 1e-12);
        addout(rv, "qgrid", p->getQgrid(), 1e-12);
        addout(rv, "value", p->value(), 1e-8);
        addout(rv, "f", p->getF(), 1e-8);
        addout(rv, "pdf", p->getPDF(), 1e-8);
        addout(rv, "rdf", p->getRDF(), 1e-8);
        return rv;
    }
    if (auto p = dynamic_cast<const BondCalculator*>(&pq))
    {
        QuantityType d = p->distances();
        auto dir = p->directions();
        auto s0 = p->sites0(), s1 = p->sites1();
        auto t0 = p->types0(), t1 = p->types1();
        require(pq.value() == d, "bondvalue", "value differs from distances");
        require(dir.size() == d.size() && s0.size() == d.size() &&
                s1.size() == d.size() && t0.size() == d.size() &&
                t1.size() == d.size(), "bondsize", "sizes of bond data differ");
        typedef std::array<double, 8> Row;
        std::vector<Row> rows;
        for (size_t i = 0; i < d.size(); ++i)
        {
            auto r6 = [](double x) { return std::round(x * 1e6) / 1e6 + 0.0; };
            Row r = {{ r6(d[i]), double(s0[i]), double(s1[i]), r6(dir[i][0]),
                r6(dir[i][1]), r6(dir[i][2]),
                typenumber(t0[i]), typenumber(t1[i]) }};
            rows.push_back(r);
        }
        std::sort(rows.begin(), rows.end());
        const char* nm[8] = { "distances", "sites0", "sites1", "dir0", "dir1",
            "dir2", "types0", "types1" };
        for (int k = 0; k < 8; ++k)
        {
            QuantityType v;
            for (auto& r : rows)  v.push_back(r[k]);
            addout(rv, nm[k], v, (k < 1 || (3 <= k && k < 6)) ? 1e-5 : 1e-12);
        }
        return rv;
    }
    if (auto p = dynamic_cast<const OverlapCalculator*>(&pq))
    {
        int n = p->getStructure()->countSites();
        auto sorted = [](QuantityType v)
        {
            std::sort(v.begin(), v.end());
            return v;
        };
        addout(rv, "overlaps", sorted(p->overlaps()));
        addout(rv, "distances", sorted(p->distances()));
        QuantityType dsum(3, 0.0), ssum(2, 0.0), tsum(2, 0.0);
        auto dd = p->directions();
        for (auto& r : dd)
            for (int k = 0; k < 3; ++k)  dsum[k] += r[k] * r[k];
        addout(rv, "directions", dsum);
        for (int i : p->sites0())  ssum[0] += (i + 1) * (i + 1);
        for (int i : p->sites1())  ssum[1] += (i + 1) * (i + 1);
        addout(rv, "sites", ssum);
        for (auto& t : p->types0())  tsum[0] += typenumber(t);
        for (auto& t : p->types1())  tsum[1] += typenumber(t);
        addout(rv, "types", tsum);
        addout(rv, "sitesquare", p->siteSquareOverlaps());
        addout(rv, "total", QuantityType(1, p->totalSquareOverlap()));
        addout(rv, "mean", QuantityType(1, p->meanSquareOverlap()));
        addout(rv, "coordinations", p->coordinations());
        QuantityType g, flips, nb, cbt;
        for (auto& r : p->gradients())
            for (int k = 0; k < 3; ++k)  g.push_back(r[k]);
        addout(rv, "gradients", g);
        for (int i = 0; i < n; ++i)
        {
            for (int j = 0; j < n; ++j)
            {
                flips.push_back(p->flipDiffTotal(i, j));
                flips.push_back(p->flipDiffMean(i, j));
            }
            double s = 0;
            for (int k : p->getNeighborSites(i))  s += 1 << (k % 20);
            nb.push_back(s);
            double c = 0;
            for (auto& kv : p->coordinationByTypes(i))
                c += (typenumber(kv.first) / 1e6) * kv.second;
            cbt.push_back(c);
        }
        addout(rv, "flips", flips);
        addout(rv, "neighbors", nb);
        addout(rv, "coordbytypes", cbt);
        QuantityType nh;
        for (auto& s : p->neighborhoods())
        {
            double x = 0;
            for (int k : s)  x += 1 << (k % 20);
            nh.push_back(x);
        }
        addout(rv, "neighborhoods", sorted(nh));
        addout(rv, "rmaxused", QuantityType(1, p->getRmaxUsed()));
        return rv;
    }
    if (auto p = dynamic_cast<const BVSCalculator*>(&pq))
    {
        addout(rv, "value", p->value());
        addout(rv, "valences", p->valences());
        addout(rv, "bvdiff", p->bvdiff());
        addout(rv, "bvmsdiff", QuantityType(1, p->bvmsdiff()));
        addout(rv, "bvrmsdiff", QuantityType(1, p->bvrmsdiff()));
        addout(rv, "rmaxused", QuantityType(1, p->getRmaxUsed()));
        return rv;
    }
    addout(rv, "value", pq.value());
    return rv;
}

/// F(Q) of PDFCalculator is defined on an extended grid that varies with the
/// widest peak, it is compared only for exactly same setups.
inline Outs outputsf(const PairQuantity& pq)
{
    Outs rv = outputs(pq);
    if (auto p = dynamic_cast<const PDFCalculator*>(&pq))
    {
        addout(rv, "qgrid", p->getQgrid(), 1e-12);
        addout(rv, "f", p->getF(), 2e-6);
    }
    return rv;
}

inline void compareouts(const Outs& got, const Outs& expect,
        const std::string& sig, const std::string& what)
{
    require(got.size() == expect.size(), sig, what, " different output lists");
    for (size_t k = 0; k < got.size(); ++k)
    {
        const Out& g = got[k];
        const Out& e = expect[k];
        require(g.v.size() == e.v.size(), sig, what, " ", g.name, " has size ",
                g.v.size(), " instead of ", e.v.size());
        double mx = 0;
        for (double x : e.v)  if (std::isfinite(x))
            mx = std::max(mx, std::fabs(x));
        double tol = e.tol * std::max(mx, 1e-3);
        for (size_t i = 0; i < g.v.size(); ++i)
        {
            double x = g.v[i], y = e.v[i];
            if (std::isnan(x) && std::isnan(y))  continue;
            if (x == y)  continue;
            require(std::fabs(x - y) <= tol, sig, what, " ", g.name, "[", i,
                    "] is ", x, " instead of ", y, " of ", g.v.size());
        }
    }
}

inline uint64_t hashouts(const Outs& o, uint64_t h=5)
{
    for (auto& x : o)
    {
        h = hashstr(x.name, h);
        // results with tiny numerical noise share the hash
        for (double v : x.v)
        {
            char b[40];
            snprintf(b, sizeof(b), "%.4g", std::fabs(v) < 1e-6 ? 0.0 : v);
            h = hashstr(b, h);
        }
    }
    return h;
}

// factory ---------------------------------------------------------------------

inline QPtr makecalc(const std::string& name)
{
    QPtr rv;
    if (name == "pair")  rv.reset(new PairCounter);
    else if (name == "bond")  rv.reset(new BondCalculator);
    else if (name == "pdf")
    {
        boost::shared_ptr<PDFCalculator> p(new PDFCalculator);
        p->setRmax(4.0);
        p->setRstep(0.08);
        p->setMaxExtension(2.0);
        p->getPeakProfile()->setPrecision(1e-9);
        rv = p;
    }
    else if (name == "debye")
    {
        boost::shared_ptr<DebyePDFCalculator> p(new DebyePDFCalculator);
        p->setRmax(4.0);
        p->setRstep(0.08);
        p->setQmax(10);
        p->setMaxExtension(2.0);
        p->setDebyePrecision(1e-13);
        rv = p;
    }
    else if (name == "overlap")
    {
        boost::shared_ptr<OverlapCalculator> p(new OverlapCalculator);
        boost::shared_ptr<ConstantRadiiTable> t(new ConstantRadiiTable);
        t->setDefault(0.85);
        t->setCustom("Na1+", 0.7);
        t->setCustom("O", 1.1);
        p->setAtomRadiiTable(t);
        rv = p;
    }
    else if (name == "bvs")  rv.reset(new BVSCalculator);
    else if (name == "probe")  rv.reset(new ProbeQuantity(false, false));
    else if (name == "probefull")  rv.reset(new ProbeQuantity(true, false));
    else if (name == "probefix")  rv.reset(new ProbeQuantity(false, true));
    else if (name == "probefullfix")  rv.reset(new ProbeQuantity(true, true));
    else throw std::logic_error("unknown calculator " + name);
    if (name == "pair" || name == "bond" || name == "bvs" || name == "overlap")
    {
        rv->setRmax(4.0);
    }
    return rv;
}

// structure edits -------------------------------------------------------------

/// bring the library structure in agreement with the reference by edits in place
inline void syncinplace(const SPtr& stru, const ref::Struct& s,
        const ref::Struct& old)
{
    require(s.kind == old.kind, "harness", "kind cannot change in place");
    if (s.kind != ref::ATOMIC && s.lat != old.lat)
    {
        auto p = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(stru);
        p->setLatPar(s.lat[0], s.lat[1], s.lat[2],
                s.lat[3], s.lat[4], s.lat[5]);
    }
    if (s.kind == ref::CRYSTAL)
    {
        auto p = boost::dynamic_pointer_cast<CrystalStructureAdapter>(stru);
        bool same = s.ops.size() == old.ops.size();
        for (size_t k = 0; same && k < s.ops.size(); ++k)
        {
            for (int i = 0; i < 3; ++i)
            {
                same = same && s.ops[k].t[i] == old.ops[k].t[i];
                for (int j = 0; j < 3; ++j)
                    same = same && s.ops[k].R[i][j] == old.ops[k].R[i][j];
            }
        }
        if (!same)
        {
            p->clearSymOps();
            for (auto& op : s.ops)
            {
                R3::Matrix R;
                R3::Vector t;
                for (int i = 0; i < 3; ++i)
                {
                    t[i] = op.t[i];
                    for (int j = 0; j < 3; ++j)  R(i, j) = op.R[i][j];
                }
                p->addSymOp(R, t);
            }
        }
    }
    auto eq = [&](const Atom& a, const Atom& b)
    {
        bool rv = a.atomtype == b.atomtype && a.occupancy == b.occupancy &&
            a.anisotropy == b.anisotropy;
        for (int i = 0; i < 3; ++i)
        {
            rv = rv && a.xyz_cartn[i] == b.xyz_cartn[i];
            for (int j = 0; j < 3; ++j)
                rv = rv && a.uij_cartn(i, j) == b.uij_cartn(i, j);
        }
        return rv;
    };
    std::vector<Atom> target;
    for (auto& a : s.atoms)  target.push_back(ref::latom(s, a));
    int n0 = stru->countSites(), n1 = target.size();
    if (n1 == n0 + 1)
    {
        int k = 0;
        while (k < n0 && eq(stru->at(k), target[k]))  ++k;
        stru->insert(k, target[k]);
    }
    else if (n1 == n0 - 1)
    {
        int k = 0;
        while (k < n1 && eq(stru->at(k), target[k]))  ++k;
        stru->erase(k);
    }
    else if (n1 != n0)  stru->assign(target.begin(), target.end());
    for (int k = 0; k < n1; ++k)
    {
        if (!eq(stru->at(k), target[k]))  stru->at(k) = target[k];
    }
}

struct Edit
{
    std::string name;
    std::function<void(ref::Struct&)> apply;
    bool samekind;
};

/// move along the first coordinate by about dx Angstroms
inline void moveatom(ref::Struct& s, int i, double dx)
{
    double sc = (s.kind == ref::ATOMIC) ? 1.0 : s.lat[0];
    s.atoms[i].xyz[0] += dx / sc;
    s.atoms[i].xyz[2] += 0.3 * dx / (s.kind == ref::ATOMIC ? 1.0 : s.lat[2]);
}

inline ref::Struct basestruct(ref::Kind kind)
{
    using namespace ref;
    typedef ref::Atom A;
    if (kind == ATOMIC)
    {
        return mk(ATOMIC, lp(1, 1, 1), {
            A("Na1+", 0, 0, 0, 0.004),
            A("Cl1-", 1.6, 0.1, 0, 0.003),
            A("Na1+", 1.5, 1.7, 0.2, 0.005, 0.75),
            A("O2-", -0.2, 1.4, 1.1).setU(uaniso1()),
            A("Cl1-", 0.3, -1.5, 2.0, 0.002),
            A("Na1+", 2.9, 0.4, 1.3, 0.004),
            A("O2-", 1.1, 2.9, 1.6, 0.006) });
    }
    std::vector<A> atoms = {
        A("Na1+", 0.05, 0.1, 0.12, 0.004),
        A("Cl1-", 0.42, 0.31, 0.77, 0.003),
        A("Na1+", 0.71, 0.15, 0.44, 0.005, 0.75),
        A("O2-", 0.23, 0.86, 0.61).setU(uaniso1()),
        A("Cl1-", 0.9, 0.55, 0.33, 0.002) };
    if (kind == PERIODIC)
        return mk(PERIODIC, lp(4.6, 5.2, 5.7, 82, 97, 105), atoms);
    return mk(CRYSTAL, lp(5.6, 6.1, 6.7, 82, 97, 105), atoms, groupPm1());
}

inline std::vector<Edit> edits(ref::Kind kind)
{
    using ref::Struct;
    std::vector<Edit> rv;
    auto add = [&](const std::string& n, std::function<void(Struct&)> f,
            bool same=true)
    {
        Edit e = { n, f, same };
        rv.push_back(e);
    };
    add("mvF", [](Struct& s) { if (s.atoms.size()) moveatom(s, 0, 0.25); });
    add("mvL", [](Struct& s) { if (s.atoms.size())
            moveatom(s, s.atoms.size() - 1, -0.2); });
    add("mvM", [](Struct& s) { if (s.atoms.size() > 2) moveatom(s, 2, 0.15); });
    add("u", [](Struct& s) { if (s.atoms.size())
            { auto& a = s.atoms.back(); a.aniso = false; a.U = ref::iso(0.011); } });
    add("ani", [](Struct& s) { if (s.atoms.size() > 1)
            s.atoms[1].setU(ref::uaniso2()); });
    add("occ", [](Struct& s) { if (s.atoms.size() > 1) s.atoms[1].occ *= 0.5; });
    add("ty", [](Struct& s) { if (s.atoms.size())
            s.atoms[0].type = (s.atoms[0].type == "K1+") ? "Na1+" : "K1+"; });
    add("add", [](Struct& s) {
            double f = (s.kind == ref::ATOMIC) ? 3.0 : 1.0;
            ref::Atom a("Cl1-", 0.57 * f, 0.71 * f, 0.13 * f, 0.004, 0.9);
            s.atoms.push_back(a); });
    add("ins", [](Struct& s) {
            double f = (s.kind == ref::ATOMIC) ? 3.0 : 1.0;
            ref::Atom a("O2-", 0.81 * f, 0.39 * f, 0.93 * f, 0.003);
            s.atoms.insert(s.atoms.begin(), a); });
    add("delL", [](Struct& s) { if (s.atoms.size()) s.atoms.pop_back(); });
    add("delF", [](Struct& s) { if (s.atoms.size())
            s.atoms.erase(s.atoms.begin()); });
    add("swp", [](Struct& s) { if (s.atoms.size() > 1)
            std::swap(s.atoms[0], s.atoms[1]); });
    add("rev", [](Struct& s) {
            std::reverse(s.atoms.begin(), s.atoms.end()); });
    add("dup", [](Struct& s) { if (s.atoms.size())
            s.atoms.push_back(s.atoms[0]); });
    add("big", [](Struct& s) {
            for (size_t i = 0; i < 4 && i < s.atoms.size(); ++i)
                moveatom(s, i, 0.1 + 0.05 * i); });
    add("same", [](Struct&) { });
    add("base", [kind](Struct& s) { s = basestruct(kind); }, false);
    add("clr", [](Struct& s) { s.atoms.clear(); });
    if (kind != ref::ATOMIC)
    {
        add("lat", [](Struct& s) { s.lat[1] *= 1.07; });
        add("kind", [](Struct& s) {
                s.kind = (s.kind == ref::CRYSTAL) ? ref::PERIODIC : ref::CRYSTAL;
                }, false);
    }
    else
    {
        // same Cartesian coordinates in a periodic structure
        add("kind", [](Struct& s) {
                if (s.kind == ref::PERIODIC)
                {
                    for (auto& a : s.atoms)  a.xyz = s.cart(a.xyz);
                    s.kind = ref::ATOMIC;
                    return;
                }
                s.kind = ref::PERIODIC;
                s.lat = ref::lp(7, 7, 7);
                for (auto& a : s.atoms)
                    for (int k = 0; k < 3; ++k)  a.xyz[k] /= 7;
                }, false);
    }
    if (kind == ref::CRYSTAL)
    {
        add("sym", [](Struct& s) {
                s.ops = (s.ops.size() == 2) ? ref::groupP1() : ref::groupPm1();
                });
        // site at a special position
        add("spec", [](Struct& s) { if (s.atoms.size() > 1)
                s.atoms[1].xyz = ref::v3(0.5, 0, 0.5); });
    }
    return rv;
}

}   // namespace mc

#endif  // CALCS_HPP_INCLUDED
