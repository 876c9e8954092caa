// C05: pair masks select exactly the requested pairs.
#include "calcs.hpp"

using namespace mc;
using ref::Struct;

const Info mcinfo = {
    "C05", "model_checking",
    "All sequences up to the depth bound of index masks, of type masks and of "
        "both kinds, each with wildcards, mask-all, inversion and evaluation "
        "of 3 structures with different sizes and orders of atoms. After each "
        "sequence all structures are evaluated and mask queries and sums of "
        "contributions per pair of sites are compared with the model where "
        "the last matching assignment wins. Type masks replace all index "
        "masks, index masks after type masks convert these to index masks "
        "in the current structure. An outcome is the mask matrix.",
    "index and type sequences of depth 5 over 17 operations, mixed sequences "
        "of depth 4 over 19 operations and of depth 5 over 10 operations",
    "index and type sequences of depth 6, mixed sequences of depth 5",
    {"queries by index are meaningful after the structure was assigned"},
    60
};

namespace {

const char* T3[] = { "C", "O", "Zn" };

// structures with types in different orders, every pair is in range

struct Case
{
    std::vector<int> types;
    SPtr stru;
};

std::vector<Case> cases()
{
    std::vector<Case> rv;
    const std::vector<std::vector<int> > tt = {
        { 0, 1, 2 }, { 1, 0, 0, 2, 1 }, { 2, 2, 0, 1 }, { 1 } };
    for (auto& ts : tt)
    {
        Case c;
        c.types = ts;
        Struct s = ref::mk(ref::ATOMIC, ref::lp(1, 1, 1), {});
        for (size_t i = 0; i < ts.size(); ++i)
            s.atoms.push_back(ref::Atom(T3[ts[i]], 0.9 * i, 0.1 * i * i, 0,
                        0.003));
        c.stru = ref::build(s);
        rv.push_back(c);
    }
    return rv;
}

/// counts of pairs per sites
class Matrix : public PairQuantity
{
    public:

        int n = 0;
        int count(int i, int j) const  { return int(mvalue[i * n + j]); }
        Matrix()  { mrmax = 100; }

    protected:

        virtual void resetValue()
        {
            n = this->countSites();
            this->resizeValue(n * n);
            this->PairQuantity::resetValue();
        }
        virtual void addPairContribution(const BaseBondGenerator& b, int sc)
        {
            int i = b.site0(), j = b.site1();
            // value for both directions
            mvalue[i * n + j] += sc * b.multiplicity();
            mvalue[j * n + i] += sc * b.multiplicity();
        }
};

struct Assignment { int i, j; bool mask; };   // -1 is wildcard

/// what is expected
struct Model
{
    bool dflt = true;
    enum Mode { NONE, INDEX, TYPE } mode = NONE;
    std::vector<Assignment> log;
    // atom types in the currently assigned structure
    std::vector<int> current;

    void all(bool m)
    {
        dflt = m;
        mode = NONE;
        log.clear();
    }
    void invert()
    {
        dflt = !dflt;
        for (auto& a : log)  a.mask = !a.mask;
    }
    void index(int i, int j, bool m)
    {
        if (i < 0 && j < 0)  { all(m); return; }
        if (mode == TYPE)
        {
            // type masks become index masks in the current structure
            std::vector<Assignment> ilog;
            const int n = current.size();
            for (int k = 0; k < n; ++k)  for (int l = k; l < n; ++l)
            {
                Assignment a = { k, l, get(current[k], current[l]) };
                ilog.push_back(a);
            }
            log = ilog;
        }
        mode = INDEX;
        Assignment a = { i, j, m };
        log.push_back(a);
    }
    void type(int i, int j, bool m)
    {
        if (i < 0 && j < 0)  { all(m); return; }
        if (mode != TYPE)  log.clear();
        mode = TYPE;
        Assignment a = { i, j, m };
        log.push_back(a);
    }
    bool get(int i, int j) const
    {
        for (auto a = log.rbegin(); a != log.rend(); ++a)
        {
            auto m = [](int x, int y) { return x < 0 || x == y; };
            if ((m(a->i, i) && m(a->j, j)) || (m(a->i, j) && m(a->j, i)))
                return a->mask;
        }
        return dflt;
    }
};

struct Op
{
    std::string name;
    std::function<void(Matrix&, PairCounter&, Model&)> f;
};

const char* tname(int t, bool upper=false)
{
    return t < 0 ? (upper ? "ALL" : "all") : T3[t];
}

void verify(Ctx& ctx, const Case& c, Matrix& mx, PairCounter& pc,
        Model& m, const std::string& what)
{
    m.current = c.types;
    mx.eval(c.stru);
    pc.eval(c.stru);
    ctx.evaluation(2);
    int n = c.types.size(), tot = 0;
    uint64_t h = n;
    for (int i = 0; i < n; ++i)  for (int j = 0; j < n; ++j)
    {
        bool e;
        bool got = mx.getPairMask(i, j);
        if (m.mode == Model::TYPE)
        {
            int ti = c.types[i], tj = c.types[j];
            e = m.get(ti, tj);
            bool tm = mx.getTypeMask(T3[ti], T3[tj]);
            require(tm == e, "typemask", what, " type mask of ", T3[ti], " ",
                    T3[tj], " is ", tm);
        }
        else  e = m.get(i, j);
        require(got == e, "pairmask", what, " mask of ", i, " ", j, " is ",
                got);
        require(mx.getPairMask(j, i) == got && pc.getPairMask(i, j) == got,
                "symmetry", what, " mask of ", i, " ", j, " is not symmetric");
        h = 2 * h + got;
        int cnt = (i != j && e) ? 2 : 0;
        tot += cnt / 2;
        require(mx.count(i, j) == cnt, "sum", what, " pair ", i, " ", j,
                " is counted ", mx.count(i, j), " times, expected ", cnt);
    }
    require(pc.value()[0] * 2 == tot, "count", what, " number of pairs is ",
            pc.value()[0], " instead of ", tot / 2.0);
    // types that may not be in the structure
    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
    {
        bool e = m.mode == Model::TYPE ? m.get(i, j) : m.dflt;
        require(mx.getTypeMask(T3[i], T3[j]) == e, "typemask", what,
                " type mask of ", T3[i], " ", T3[j], " is ", !e);
    }
    for (int i = 0; i < 3; ++i)
        require(mx.getTypeMask(T3[i], "all") == mx.getTypeMask("all", T3[i]) &&
                mx.getTypeMask(T3[i], "all") == mx.getTypeMask(T3[i], "ALL"),
                "wildquery", what, " mask of ", T3[i], " all is not symmetric");
    require(mx.getTypeMask("ALL", "all") == m.dflt, "allall", what,
            " mask of all all is ", !m.dflt);
    ctx.state(mix(h, m.dflt));
    ctx.outcome(h);
}

void sequences(Ctx& ctx, const char* kind, const std::vector<Op>& ops,
        int depth)
{
    static const std::vector<Case> cs = cases();
    const int no = ops.size();
    int tot = 1;
    for (int i = 0; i < depth - 1; ++i)  tot *= no;
    // the last operation is explored within one run
    for (int code = 0; code < tot; ++code)
    {
        std::string nm;
        for (int i = 0, c = code; i < depth - 1; ++i, c /= no)
            nm += cat(" ", ops[c % no].name);
        ctx.run(cat("C05 ", kind, nm), [&]()
        {
            for (int last = 0; last < no; ++last)
            {
                Matrix mx;
                PairCounter pc;
                pc.setRmax(100);
                Model m;
                std::string s;
                for (int i = 0, c = code; i < depth; ++i, c /= no)
                {
                    const Op& o = ops[i < depth - 1 ? c % no : last];
                    o.f(mx, pc, m);
                    ctx.transition();
                }
                ctx.trace();
                std::string what = cat("after", nm, " ", ops[last].name);
                verify(ctx, cs[0], mx, pc, m, cat(what, ", 3 sites"));
                verify(ctx, cs[1], mx, pc, m, cat(what, ", 5 sites"));
                verify(ctx, cs[2], mx, pc, m, cat(what, ", 4 sites"));
            }
        });
    }
}

}   // namespace

void explore(Ctx& ctx)
{
    static const std::vector<Case> cs = cases();
    auto common = [&]()
    {
        std::vector<Op> rv;
        for (int m = 0; m < 2; ++m)
        {
            Op o = { cat("all", m), [m](Matrix& mx, PairCounter& pc, Model& md)
                {
                    mx.maskAllPairs(m);
                    pc.maskAllPairs(m);
                    md.all(m);
                } };
            rv.push_back(o);
        }
        Op o = { "inv", [](Matrix& mx, PairCounter& pc, Model& md)
            {
                mx.invertMask();
                pc.invertMask();
                md.invert();
            } };
        rv.push_back(o);
        for (int k = 0; k < 2; ++k)
        {
            Op o = { cat("eval", k),
                [k, &ctx](Matrix& mx, PairCounter& pc, Model& md)
                {
                    verify(ctx, cs[k ? 1 : 3], mx, pc, md, "inside");
                } };
            rv.push_back(o);
        }
        return rv;
    };
    auto addindex = [](std::vector<Op>& ops, int i, int j)
    {
        for (int m = 0; m < 2; ++m)
        {
            Op o = { cat("i", i, ",", j, "=", m),
                [i, j, m](Matrix& mx, PairCounter& pc, Model& md)
                {
                    mx.setPairMask(i, j, m);
                    pc.setPairMask(i, j, m);
                    md.index(i, j, m);
                } };
            ops.push_back(o);
        }
    };
    auto addtype = [](std::vector<Op>& ops, int i, int j)
    {
        for (int m = 0; m < 2; ++m)
        {
            Op o = { cat("t", tname(i), ",", tname(j), "=", m),
                [i, j, m](Matrix& mx, PairCounter& pc, Model& md)
                {
                    mx.setTypeMask(tname(i), tname(j), m);
                    pc.setTypeMask(tname(i, true), tname(j, true), m);
                    md.type(i, j, m);
                } };
            ops.push_back(o);
        }
    };
    int d = ctx.thorough ? 6 : 5;
    std::vector<Op> ops = common();
    addindex(ops, 0, 1);
    addindex(ops, 2, 0);
    addindex(ops, 3, 3);
    addindex(ops, 0, -1);
    addindex(ops, -1, 1);
    addindex(ops, 3, -1);
    sequences(ctx, "index", ops, d);
    ops = common();
    addtype(ops, 0, 1);
    addtype(ops, 2, 0);
    addtype(ops, 1, 1);
    addtype(ops, 0, -1);
    addtype(ops, -1, 1);
    addtype(ops, 2, -1);
    sequences(ctx, "type", ops, d);
    ops = common();
    addindex(ops, 0, 1);
    addindex(ops, 1, -1);
    addindex(ops, -1, -1);
    addtype(ops, 0, 1);
    addtype(ops, 0, -1);
    addtype(ops, -1, -1);
    Op structop = { "stru4", [](Matrix& mx, PairCounter& pc, Model& md)
        {
            // structure assignment alone, no evaluation
            mx.setStructure(cs[2].stru);
            pc.setStructure(cs[2].stru);
            md.current = cs[2].types;
        } };
    ops.push_back(structop);
    Op copyop = { "copy", [](Matrix& mx, PairCounter& pc, Model& md)
        {
            // continue with copies of the calculators
            Matrix m1(mx);
            PairCounter p1(pc);
            mx.maskAllPairs(false);
            mx = Matrix();
            pc = PairCounter();
            mx = m1;
            pc = p1;
            m1.setPairMask(0, 1, !m1.getPairMask(0, 1));
            p1.setPairMask(-1, -1, false);
        } };
    ops.push_back(copyop);
    sequences(ctx, "mixed", ops, d - 1);
    // switch of kinds with replaced assignments in site masks
    ops.clear();
    addindex(ops, 0, -1);
    addindex(ops, 0, 1);
    addindex(ops, 2, 3);
    addtype(ops, 0, 1);
    addtype(ops, 2, -1);
    ops.push_back(copyop);
    sequences(ctx, "switch", ops, 5);
}
