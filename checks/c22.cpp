// C22: structure wrappers hide exactly what they should.
#include "mc.hpp"
#include "structs.hpp"
#include "calcs.hpp"
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>

using namespace mc;
using ref::Struct;
using ref::V3;

const Info mcinfo = {
    "C22", "model_checking",
    "All catalogued structures with and without metadata (an adapter that "
        "configures calculators) in all words of wrappers made by functions "
        "and constructors and of clones up to the depth, before and after "
        "every edit of the wrapped structure: methods, all pairs of the bond "
        "generator and outputs of calculators are compared with those of the "
        "plain reference structure with symmetry removed in the model.  Then "
        "all sequences of evaluations of wrapped structures by incremental "
        "calculators, where metadata that is not hidden applies for the rest "
        "of sequence.",
    "words of 3 letters, sequences of 3 evaluations",
    "words of 4 letters, sequences of 4 evaluations",
    {"the density of a structure without symmetry is not defined, it is "
        "reported as zero"},
    60
};

namespace {

// metadata applied to calculators -------------------------------------------

const int NMETA = 4;

void applymeta(int meta, PairQuantity& q)
{
    auto owner = dynamic_cast<PDFEnvelopeOwner*>(&q);
    if (meta == 1 && owner)
    {
        owner->addEnvelopeByType("scale");
        q.setDoubleAttr("scale", 0.5);
    }
    if (meta == 2)  q.setTypeMask("Na1+", "all", false);
    if (meta == 3)
    {
        q.setRmax(3.2);
        if (owner)
        {
            owner->addEnvelopeByType("sphericalshape");
            q.setDoubleAttr("spdiameter", 7.5);
        }
    }
}

template <class T> class Meta : public T
{
    public:

        int meta;
        Meta(const T& src, int m) : T(src), meta(m)  { }
        StructureAdapterPtr clone() const
        {
            return StructureAdapterPtr(new Meta<T>(*this, meta));
        }
        void customPQConfig(PairQuantity* pq) const  { applymeta(meta, *pq); }
};

SPtr buildmeta(const Struct& s, int meta)
{
    SPtr p = ref::build(s);
    if (!meta)  return p;
    if (auto x = dynamic_cast<CrystalStructureAdapter*>(p.get()))
        return SPtr(new Meta<CrystalStructureAdapter>(*x, meta));
    if (auto x = dynamic_cast<PeriodicStructureAdapter*>(p.get()))
        return SPtr(new Meta<PeriodicStructureAdapter>(*x, meta));
    return SPtr(new Meta<AtomicStructureAdapter>(*p, meta));
}

// words of wrappers, the first letter is applied first ----------------------

const std::string LETTERS = "MSmsC";

StructureAdapterPtr wrapped(StructureAdapterPtr p, const std::string& word)
{
    for (char c : word)
    {
        if (c == 'M')  p = nometa(p);
        if (c == 'S')  p = nosymmetry(p);
        if (c == 'm')  p.reset(new NoMetaStructureAdapter(p));
        if (c == 's')  p.reset(new NoSymmetryStructureAdapter(p));
        if (c == 'C')  p = p->clone();
    }
    return p;
}

bool has(const std::string& w, char a, char b)
{
    return w.find(a) != std::string::npos || w.find(b) != std::string::npos;
}

bool hidesmeta(const std::string& w)  { return has(w, 'M', 'm'); }
bool hidessym(const std::string& w)  { return has(w, 'S', 's'); }

Struct effective(Struct s, const std::string& word)
{
    if (!hidessym(word) || s.kind == ref::ATOMIC)  return s;
    for (auto& a : s.atoms)  a.xyz = s.cart(a.xyz);
    s.kind = ref::ATOMIC;
    s.ops.clear();
    return s;
}

std::vector<std::string> words(int depth)
{
    std::vector<std::string> rv(1, "");
    for (size_t i = 0; i < rv.size(); ++i)
    {
        if (int(rv[i].size()) == depth)  break;
        for (char c : LETTERS)  rv.push_back(rv[i] + c);
    }
    return rv;
}

void comparemethods(const StructureAdapter& x, const Struct& s,
        const std::string& w)
{
    const int n = s.atoms.size();
    require(x.countSites() == n, "count", w, " countSites ", x.countSites());
    double rho = s.kind == ref::ATOMIC ? 0 : s.totalocc() / s.volume();
    require(close(x.numberDensity(), rho), "density", w, " density is ",
            x.numberDensity(), " instead of ", rho);
    require(close(x.totalOccupancy(), s.totalocc()), "totalocc", w,
            " total occupancy ", x.totalOccupancy());
    for (int i = 0; i < n; ++i)
    {
        const ref::Atom& a = s.atoms[i];
        require(x.siteAtomType(i) == a.type, "type", w, " type ", i);
        require(x.siteOccupancy(i) == a.occ, "occ", w, " occupancy ", i);
        require(x.siteMultiplicity(i) == s.mult(i), "multiplicity", w,
                " multiplicity of ", i, " is ", x.siteMultiplicity(i),
                " instead of ", s.mult(i));
        require(x.siteAnisotropy(i) == a.aniso, "aniso", w, " anisotropy ", i);
        V3 c = s.cart(a.xyz);
        const R3::Vector& r = x.siteCartesianPosition(i);
        const R3::Matrix& U = x.siteCartesianUij(i);
        for (int k = 0; k < 3; ++k)
        {
            require(std::fabs(r[k] - c[k]) < 1e-9, "position", w, " site ", i);
            for (int l = 0; l < 3; ++l)
                require(std::fabs(U(k, l) - a.U[k][l]) < 1e-12, "uij", w,
                        " Uij of site ", i);
        }
    }
}

typedef std::array<double, 6> Row;

void comparepairs(const StructureAdapter& x, const Struct& s, double rmax,
        const std::string& w)
{
    BaseBondGeneratorPtr b = x.createBondGenerator();
    b->setRmax(rmax);
    const int n = s.atoms.size();
    auto r6 = [](double v) { return std::round(v * 1e6) / 1e6 + 0.0; };
    for (int i = 0; i < n; ++i)
    {
        std::vector<Row> got, want;
        b->selectAnchorSite(i);
        b->selectSiteRange(0, n);
        for (b->rewind(); !b->finished(); b->next())
        {
            const R3::Vector& r = b->r01();
            require(b->site0() == i, "anchor", w);
            Row q = {{ double(b->site1()), r6(b->distance()), r6(r[0]), r6(r[1]),
                r6(r[2]), r6(b->msd() * 10) }};
            got.push_back(q);
            require(b->multiplicity() == s.mult(i), "bondmult", w,
                    " multiplicity of a pair at site ", i, " is ",
                    b->multiplicity());
        }
        for (int j = 0; j < n; ++j)  for (auto& p : s.pairs(i, j, 0, rmax))
        {
            Row q = {{ double(j), r6(p.d), r6(p.r01[0]), r6(p.r01[1]),
                r6(p.r01[2]), r6(ref::msd(p) * 10) }};
            want.push_back(q);
        }
        require(got.size() == want.size(), "pairs", w, " site ", i, " has ",
                got.size(), " pairs instead of ", want.size());
        auto less = [](const Row& p, const Row& q)
        {
            for (int k = 0; k < 5; ++k)
                if (std::fabs(p[k] - q[k]) > 1e-5)  return p[k] < q[k];
            return false;
        };
        std::sort(got.begin(), got.end(), less);
        std::sort(want.begin(), want.end(), less);
        for (size_t k = 0; k < got.size(); ++k)  for (int l = 0; l < 6; ++l)
            require(std::fabs(got[k][l] - want[k][l]) < 1e-5, "pairs", w,
                    " pair ", k, " of site ", i, " differs");
    }
}

QPtr smallcalc(const std::string& c)
{
    QPtr q = makecalc(c);
    if (c == "debye")
    {
        auto p = boost::dynamic_pointer_cast<DebyePDFCalculator>(q);
        p->setRstep(0.2);
        p->setQmax(6);
    }
    return q;
}

void comparecalcs(Ctx& ctx, StructureAdapterPtr x, const Struct& s, int meta,
        const std::string& w, const std::vector<std::string>& calcs)
{
    for (auto& c : calcs)
    {
        QPtr q = smallcalc(c), r = smallcalc(c);
        q->eval(x);
        if (meta)  applymeta(meta, *r);
        SPtr p = ref::build(s);
        r->setEvaluatorType(BASIC);
        r->eval(p);
        Outs o = outputs(*q);
        compareouts(o, outputs(*r), "calc", w + " " + c);
        ctx.evaluation(2);
        ctx.outcome(hashouts(o));
    }
}

void wrappers(Ctx& ctx, int depth)
{
    auto cat0 = ref::catalogue();
    cat0.push_back(ref::Named{ "baseA", basestruct(ref::ATOMIC) });
    cat0.push_back(ref::Named{ "baseP", basestruct(ref::PERIODIC) });
    cat0.push_back(ref::Named{ "baseX", basestruct(ref::CRYSTAL) });
    const auto ws = words(depth);
    for (auto& nm : cat0)
    {
        // positions within tolerance of symmetry elements are left to C09
        if (nm.name == "xedge")  continue;
        // the default types have no parameters for bond valences
        const std::vector<std::string> calcs = { "pair", "bond", "pdf" };
        for (int meta = 0; meta < NMETA; ++meta)
        for (auto& word : ws)
        ctx.run(cat("C22 ", nm.name, " meta=", meta, " wrap=", word), [&]()
        {
            const std::string w = cat(nm.name, " meta ", meta, " wrap ", word);
            const int m = hidesmeta(word) ? 0 : meta;
            const bool linked = word.find('C') == std::string::npos;
            std::vector<Edit> es = edits(nm.s.kind);
            es.push_back(Edit{ "none", [](Struct&) { }, true });
            for (auto& e : es)
            {
                if (!e.samekind)  continue;
                // the lattice has to agree with symmetry operations
                const bool ortho = nm.name != "xP3" && nm.name != "xI4" &&
                    nm.name != "xF" && nm.name != "xfirstop";
                if (e.name == "lat" && !ortho)  continue;
                const bool calc = e.name == "none" || e.name == "mvF" ||
                    e.name == "sym" || e.name == "delF";
                if (word.size() > 2 && !calc)  continue;
                SPtr p = buildmeta(nm.s, meta);
                StructureAdapterPtr x = wrapped(p, word);
                Struct s = effective(nm.s, word);
                if (e.name == "none")
                {
                    comparemethods(*x, s, w);
                    comparepairs(*x, s, 3.0, w);
                }
                Struct t = nm.s;
                e.apply(t);
                syncinplace(p, t, nm.s);
                ctx.transition();
                if (linked)  s = effective(t, word);
                std::string we = w + " edit " + e.name;
                comparemethods(*x, s, we);
                comparepairs(*x, s, 2.5, we);
                if (calc && word.size() < 3)
                    comparecalcs(ctx, x, s, m, we, calcs);
                ctx.state(hashstr(we));
            }
            ctx.trace();
        });
    }
    // wrappers of nothing
    for (auto& word : ws)
    ctx.run("C22 null wrap=" + word, [&]()
    {
        if (word.empty() || word[0] == 'C')  return;
        StructureAdapterPtr x = wrapped(StructureAdapterPtr(), word);
        comparemethods(*x, Struct(), "null " + word);
        comparecalcs(ctx, x, Struct(), 0, "null " + word,
                { "pair", "bond", "pdf", "debye" });
        ctx.state(hashstr("null" + word));
        ctx.trace();
    });
}

// sequences of evaluations --------------------------------------------------

struct Item
{
    std::string name;
    int stru, meta;
    std::string word;
};

void sequences(Ctx& ctx, int depth)
{
    std::vector<Struct> ss;
    for (auto k : { ref::PERIODIC, ref::CRYSTAL })
    {
        Struct s = basestruct(k);
        s.atoms.resize(4);
        ss.push_back(s);
        moveatom(s, 1, 0.2);
        ss.push_back(s);
    }
    std::vector<Item> items;
    for (int i = 0; i < 4; ++i)  for (int meta : { 0, 1, 2 })
        for (std::string w : { "", "M", "S", "MS", "SM" })
    {
        // all words for structures with metadata, otherwise the short ones
        if (w.size() > 1 && (meta != 2 || i % 2))  continue;
        if (meta == 1 && i >= 2)  continue;
        items.push_back(Item{ cat("s", i, "m", meta, w), i, meta, w });
    }
    const int n = items.size();
    for (std::string calc : { "pair", "bond", "pdf" })
    for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b)
    ctx.run(cat("C22 sequence ", calc, " ", items[a].name, " ", items[b].name),
            [&]()
    {
        int tot = 1;
        const int d = (calc == "pair") ? depth : depth - 1;
        for (int i = 2; i < d; ++i)  tot *= n;
        std::vector<StructureAdapterPtr> xs;
        for (auto& it : items)
            xs.push_back(wrapped(buildmeta(ss[it.stru], it.meta), it.word));
        std::map<std::string, Outs> expected;
        for (int code = 0; code < tot; ++code)
        {
            std::vector<int> seq = { a, b };
            for (int i = 2, c = code; i < d; ++i, c /= n)  seq.push_back(c % n);
            // PairCounter has the same evaluator as BondCalculator here
            QPtr q = smallcalc(calc == "pair" ? "bond" : calc);
            q->setRmax(2.6);
            q->setEvaluatorType(OPTIMIZED);
            std::string w = calc, key;
            std::set<int> applied;
            for (size_t k = 0; k < seq.size(); ++k)
            {
                const Item& it = items[seq[k]];
                w += " " + it.name;
                q->eval(xs[seq[k]]);
                ctx.transition();
                if (it.meta && !hidesmeta(it.word))  applied.insert(it.meta);
                Struct s = effective(ss[it.stru], it.word);
                std::string key = cat(it.stru, hidessym(it.word));
                for (int m : applied)  key += cat("+", m);
                if (!expected.count(key))
                {
                    QPtr r = smallcalc(calc == "pair" ? "bond" : calc);
                    r->setRmax(2.6);
                    r->setEvaluatorType(BASIC);
                    for (int m : applied)  applymeta(m, *r);
                    SPtr p = ref::build(s);
                    r->eval(p);
                    expected[key] = outputs(*r);
                    ctx.evaluation();
                }
                Outs o = outputs(*q);
                compareouts(o, expected[key], "sequence", w);
                ctx.evaluation();
                ctx.state(hashstr(key + it.name));
                ctx.outcome(hashouts(o));
            }
            ctx.trace();
        }
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    wrappers(ctx, 3 + ctx.thorough);
    sequences(ctx, 3 + ctx.thorough);
}
