// C11: bond valence sums equal the direct definition.
#include "calcs.hpp"

using namespace mc;
using ref::Struct;
using ref::V3;

const Info mcinfo = {
    "C11", "model_checking",
    "Every catalogued ionic structure (and its variant with reversed order of "
        "sites) followed by every sequence of operations on the parameter "
        "table, atom valences, precision, range, mask and atoms up to the "
        "depth bound; after each step all results are compared with sums over "
        "brute force pairs using an independently parsed parameter file. An "
        "outcome is the list of results.",
    "44 structures, all sequences of <= 2 of 26 operations",
    "44 structures, all sequences of <= 3 of 26 operations",
    {"steps with a pair within 1e-4 A of the range limit are not compared",
     "results are compared to 1e-6, in crystals with averaged special "
        "positions to 1e-3"},
    60
};

namespace {

struct Par { double Ro, B; };
typedef std::map<std::string, Par> Table;

std::string key(std::string a, int v, std::string b, int w)
{
    std::string x = cat(a, ":", v), y = cat(b, ":", w);
    return std::min(x, y) + "|" + std::max(x, y);
}

const Table& stdtable()
{
    static Table rv;
    if (rv.size())  return rv;
    std::ifstream fp(std::string(getenv("DIFFPYRUNTIME")) + "/bvparm2011sel.cif");
    std::string line;
    bool on = false;
    while (std::getline(fp, line))
    {
        if (line.find("   _valence_param_B") == 0)  on = true;
        std::istringstream ss(line);
        std::string a, b;
        int v, w;
        Par p;
        if (on && ss >> a >> v >> b >> w >> p.Ro >> p.B && a[0] != '#')
            rv[key(a, v, b, w)] = p;
    }
    require(rv.size() > 1000, "harness", "cannot read parameter file");
    return rv;
}

struct Model
{
    Struct s;
    Table custom;
    std::map<std::string, int> valence;
    double eps = 1e-3, rmin = 0, rmax = 100;
    int mask = 0;

    std::string bare(const std::string& t) const
    {
        std::string rv;
        for (char c : t)  if (isalpha(c))  rv += c;
        return rv;
    }
    int val(const std::string& t) const
    {
        auto it = valence.find(t);
        if (it != valence.end())  return it->second;
        if (t.back() != '+' && t.back() != '-')  return 0;
        int m = 1;
        if (t.size() > 1 && isdigit(t[t.size() - 2]))  m = t[t.size() - 2] - '0';
        return t.back() == '+' ? m : -m;
    }
    Par par(const std::string& t0, const std::string& t1) const
    {
        std::string a = bare(t0), b = bare(t1);
        int v = val(t0), w = val(t1);
        if (w > v) { std::swap(a, b); std::swap(v, w); }
        const Table& st = stdtable();
        std::vector<std::string> keys = { key(a, v, b, w) };
        if (v > 0)  keys.push_back(key(a, 9, b, w));
        for (auto& k : keys)
        {
            if (custom.count(k))  return custom.at(k);
            if (st.count(k))  return st.at(k);
        }
        Par none = { 0, 0 };
        return none;
    }
    bool on(int i, int j) const
    {
        if (i > j)  std::swap(i, j);
        if (mask == 1)  return !(i == 0 && j == 1);
        if (mask == 2)  return s.atoms[i].type != s.atoms[0].type &&
            s.atoms[j].type != s.atoms[0].type;
        return true;
    }
};

struct Op
{
    std::string name;
    std::function<void(BVSCalculator&, Model&)> act;
};

bool near(double a, double b, double tol)
{
    return std::fabs(a - b) <= tol * (1 + std::fabs(b));
}

void verify(Ctx& ctx, BVSCalculator& q, const Model& m)
{
    int n = m.s.atoms.size();
    double rx = 0;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            Par p = m.par(m.s.atoms[i].type, m.s.atoms[j].type);
            rx = std::max(rx, p.Ro - p.B * std::log(m.eps));
        }
    rx = std::min(rx, m.rmax);
    q.eval(ref::build(m.s));
    ctx.evaluation();
    require(near(q.getRmaxUsed(), rx, 1e-9), "rmaxused", "rmaxused is ",
            q.getRmaxUsed(), " instead of ", rx);
    std::vector<double> v(n, 0.0);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            if (!m.on(i, j))  continue;
            Par p = m.par(m.s.atoms[i].type, m.s.atoms[j].type);
            for (auto& pr : m.s.pairs(i, j, 0, rx + 1e-3))
            {
                if (std::fabs(pr.d - rx) < 1e-4 ||
                        std::fabs(pr.d - m.rmin) < 1e-4)
                {
                    ctx.count("not compared, pair at range limit");
                    return;
                }
                if (pr.d > rx || pr.d < m.rmin || !(p.B > 0))  continue;
                double sg = m.val(m.s.atoms[i].type) >= 0 ? 1 : -1;
                v[i] += sg * std::exp((p.Ro - pr.d) / p.B) *
                    m.s.atoms[j].occ;
            }
        }
    double tol = (m.s.kind == ref::CRYSTAL && m.s.ops.size() == 8) ? 1e-3 : 1e-6;
    double mx = 1;
    for (double x : v)  mx = std::max(mx, std::fabs(x));
    const QuantityType& got = q.value();
    QuantityType vobs = q.valences(), bd = q.bvdiff();
    require(int(got.size()) == n && int(vobs.size()) == n &&
            int(bd.size()) == n, "sizes", "sizes differ");
    double ms = 0, occ = m.s.totalocc();
    for (int i = 0; i < n; ++i)
    {
        require(near(got[i], v[i], tol * mx), "value", "valence sum of site ", i,
                " is ", got[i], " instead of ", v[i], ", rmax ", rx);
        double o = m.val(m.s.atoms[i].type);
        require(vobs[i] == o, "valences", "valence of site ", i, " is ",
                vobs[i], " instead of ", o);
        double d = std::fabs(o) - std::fabs(v[i]);
        require(near(bd[i], d, tol * mx), "bvdiff", "bvdiff of site ", i, " is ",
                bd[i], " instead of ", d);
        ms += m.s.mult(i) * m.s.atoms[i].occ * d * d;
    }
    ms = occ > 0 ? ms / occ : 0;
    require(near(q.bvmsdiff(), ms, 2 * tol * mx * mx), "bvmsdiff", "bvmsdiff is ",
            q.bvmsdiff(), " instead of ", ms);
    require(near(q.bvrmsdiff() * q.bvrmsdiff(), ms, 2 * tol * mx * mx),
            "bvrmsdiff", "bvrmsdiff is ", q.bvrmsdiff());
    ctx.trace();
}

}   // namespace

void explore(Ctx& ctx)
{
    std::vector<ref::Named> stru = ref::catalogue();
    const char* kinds[3] = { "mol", "per", "cry" };
    for (int k = 0; k < 3; ++k)
    {
        ref::Named x = { kinds[k], basestruct(ref::Kind(k)) };
        stru.push_back(x);
    }
    // ionic symbols
    std::map<std::string, std::string> ion = { {"C", "C2+"}, {"Cl", "Cl1-"},
        {"Ni", "Pt2+"}, {"Pb", "C2+"}, {"Ti", "Ti4+"}, {"O", "O2-"} };
    size_t n0 = stru.size();
    for (auto& x : stru)
        for (auto& a : x.s.atoms)  if (ion.count(a.type))  a.type = ion[a.type];
    for (size_t i = 0; i < n0; ++i)
    {
        ref::Named r = stru[i];
        r.name += "rev";
        std::reverse(r.s.atoms.begin(), r.s.atoms.end());
        stru.push_back(r);
    }
    // a Bader-like set with many charges
    std::vector<Op> ops;
    auto add = [&](const std::string& n,
            std::function<void(BVSCalculator&, Model&)> f)
    {
        Op o = { n, f };
        ops.push_back(o);
    };
    auto custom = [&](const std::string& nm, const std::string& a, int v,
            const std::string& b, int w, double Ro, double B)
    {
        add(nm, [=](BVSCalculator& q, Model& m) {
            q.getBVParamTable()->setCustom(a, v, b, w, Ro, B);
            Par p = { Ro, B };
            m.custom[key(a, v, b, w)] = p; });
    };
    custom("cus", "Na", 1, "Cl", -1, 2.3, 0.4);
    custom("cusrev", "O", -2, "Ti", 4, 1.5, 0.33);
    custom("cus9", "K", 9, "Cl", -1, 2.0, 0.37);
    custom("cuseq", "Pt", 2, "C", 2, 1.9, 0.35);
    custom("cuseqrev", "Na", 1, "K", 1, 1.7, 0.3);
    // pair of equal ions with the longest range
    custom("cussame", "Na", 1, "Na", 1, 3.3, 0.5);
    custom("cussame2", "O", -2, "O", -2, 2.9, 0.4);
    custom("cusan", "O", -2, "Cl", -1, 1.2, 0.3);
    custom("cus0", "Na", 1, "O", -2, 1.2, 0.0);
    add("rst", [](BVSCalculator& q, Model& m) {
            q.getBVParamTable()->resetCustom("Cl", -1, "Na", 1);
            m.custom.erase(key("Na", 1, "Cl", -1)); });
    add("rsteq", [](BVSCalculator& q, Model& m) {
            q.getBVParamTable()->resetCustom("C", 2, "Pt", 2);
            m.custom.erase(key("Pt", 2, "C", 2)); });
    add("rstall", [](BVSCalculator& q, Model& m) {
            q.getBVParamTable()->resetAll(); m.custom.clear(); });
    add("val", [](BVSCalculator& q, Model& m) {
            q.getBVParamTable()->setAtomValence("Cl1-", -2);
            m.valence["Cl1-"] = -2; });
    add("val0", [](BVSCalculator& q, Model& m) {
            q.getBVParamTable()->setAtomValence("Na1+", 0);
            m.valence["Na1+"] = 0; });
    add("valan", [](BVSCalculator& q, Model& m) {
            q.getBVParamTable()->setAtomValence("O2-", 2);
            m.valence["O2-"] = 2; });
    add("valrst", [](BVSCalculator& q, Model& m) {
            q.getBVParamTable()->resetAtomValences(); m.valence.clear(); });
    add("newtab", [](BVSCalculator& q, Model& m) {
            BVParametersTablePtr t(new BVParametersTable);
            q.setBVParamTable(t); m.custom.clear(); m.valence.clear(); });
    for (double e : {1e-2, 1e-5})
        add(cat("prec", e), [e](BVSCalculator& q, Model& m) {
            q.setDoubleAttr("valenceprecision", e); m.eps = e; });
    add("rmx", [](BVSCalculator& q, Model& m) {
            q.setRmax(2.9); m.rmax = 2.9; });
    add("rmn", [](BVSCalculator& q, Model& m) {
            q.setRmin(1.93); m.rmin = 1.93; });
    add("pm", [](BVSCalculator& q, Model& m) {
            if (m.s.atoms.size() < 2)  return;
            q.maskAllPairs(true); q.setPairMask(1, 0, false); m.mask = 1; });
    add("tm", [](BVSCalculator& q, Model& m) {
            if (m.s.atoms.empty())  return;
            q.maskAllPairs(true);
            q.setTypeMask("all", m.s.atoms[0].type, false);
            m.mask = 2; });
    add("mall", [](BVSCalculator& q, Model& m) {
            q.maskAllPairs(true); m.mask = 0; });
    add("mv", [](BVSCalculator& q, Model& m) {
            if (m.s.atoms.size())  moveatom(m.s, 0, 0.17); });
    add("ty", [](BVSCalculator& q, Model& m) {
            // type masks are defined by type of the first atom
            if (m.s.atoms.size() > 1)  m.s.atoms[1].type = "K1+"; });
    int n = ops.size();
    for (auto& ns : stru)
    {
        auto go = [&](const std::vector<int>& seq)
        {
            std::string desc = cat("C11 ", ns.name);
            for (int k : seq)  desc += " " + ops[k].name;
            ctx.run(desc, [&]()
            {
                Model m;
                m.s = ns.s;
                BVSCalculator q;
                q.setValencePrecision(m.eps);
                verify(ctx, q, m);
                for (int k : seq)
                {
                    ops[k].act(q, m);
                    ctx.transition();
                    verify(ctx, q, m);
                }
                uint64_t h = hashouts(outputs(q));
                ctx.outcome(h);
                for (auto& kv : m.custom)  h = mix(h, hashstr(kv.first));
                for (auto& kv : m.valence)  h = mix(h, kv.second);
                ctx.state(mix(h, m.mask));
            });
        };
        go({});
        for (int a = 0; a < n; ++a)  go({a});
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)  go({a, b});
        if (!ctx.thorough)  continue;
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)
                for (int c = 0; c < n; ++c)  go({a, b, c});
    }
}
