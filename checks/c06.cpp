// C06: results depend on the current setup only, not on its history.
#include "pristine.hpp"
#include "settings.hpp"

using namespace mc;
using ref::Struct;

const Info mcinfo = {
    "C06", "model_checking",
    "For each of 7 calculators, all sequences up to the depth bound over "
        "an alphabet with setters of every configuration item to two or more "
        "values including the default, in-place changes of owned tables and "
        "models, masks, evaluator types, evaluations of four structures, "
        "in-place edits, parallel and failed evaluations, reading of results "
        "and copying of the calculator.  A model tracks the final "
        "configuration.  After each sequence the structure is evaluated and "
        "all outputs are compared with those of a new calculator that is given "
        "the final configuration in canonical order in a new process, and "
        "evaluated once more.  "
        "An outcome is the hash of outputs.",
    "depth 3 over 23 to 52 operations for PDF, Debye, bond, overlap, BVS and "
        "a custom calculator, depth 4 for pair counter",
    "one level deeper, for PDF and Debye with 24 to 28 operations",
    {"scattering tables, models and profiles are shared by C++ copies of "
        "calculators as pointers, they are not modified through the copy",
     "Debye calculators: the extension of the range depends on history by "
        "less than 50 rsteps by design, the configurations use changes of the "
        "range that exceed 50 steps"},
    60
};

namespace {

// calculator, number of edits of the structure and the configuration
std::string question(const std::string& calc, int edits, const Cfg& cfg)
{
    std::string rv = cat(calc, ' ', edits);
    for (auto& kv : cfg)
        if (kv.second)  rv += cat(' ', kv.first, ' ', kv.second);
    return rv;
}

/// results of a new calculator with final configuration
std::string answer(const std::string& q)
{
    std::istringstream fp(q);
    std::string calc, name;
    int edits, k;
    Cfg cfg;
    fp >> calc >> edits;
    while (fp >> name >> k)  cfg[name] = k;
    const std::vector<Setting> ss = settings(calc);
    World w = newworld(calc);
    for (int i = 0; i < edits; ++i)  editA(w);
    QPtr p = canonical(calc, ss, cfg);
    p->eval(w.a);
    std::string rv;
    auto put = [&](const void* x, size_t n)
    {
        rv.append(static_cast<const char*>(x), n);
    };
    for (const Out& o : outputsf(*p))
    {
        const size_t n[2] = { o.name.size(), o.v.size() };
        put(n, sizeof(n));
        put(o.name.data(), n[0]);
        put(&o.tol, sizeof(o.tol));
        put(o.v.data(), n[1] * sizeof(double));
    }
    return rv;
}

Outs decode(const std::string& s)
{
    Outs rv;
    size_t p = 0;
    auto get = [&](void* x, size_t n)
    {
        memcpy(x, s.data() + p, n);
        p += n;
    };
    while (p < s.size())
    {
        Out o;
        size_t n[2];
        get(n, sizeof(n));
        o.name.resize(n[0]);
        get(&o.name[0], n[0]);
        get(&o.tol, sizeof(o.tol));
        o.v.resize(n[1]);
        get(o.v.data(), n[1] * sizeof(double));
        rv.push_back(o);
    }
    return rv;
}

void sequences(Ctx& ctx, Pristine& pure, const std::string& calc, int depth,
        bool reduced=false)
{
    const std::vector<Setting> ss = settings(calc);
    const std::vector<Op> ops = operations(ctx, calc, ss, reduced);
    const int no = ops.size();
    long tot = 1;
    for (int i = 0; i < depth - 1; ++i)  tot *= no;
    for (long code = 0; code < tot; ++code)
    {
        std::string nm;
        long c = code;
        for (int i = 0; i < depth - 1; ++i, c /= no)
            nm += cat(" ", ops[c % no].name);
        ctx.run(cat("C06 ", calc, reduced ? "-reduced" : "", nm), [&]()
        {
            for (int last = 0; last < no; ++last)
            {
                World w = newworld(calc);
                long c = code;
                for (int i = 0; i < depth; ++i, c /= no)
                {
                    const Op& o = ops[i < depth - 1 ? c % no : last];
                    try { o.f(w); }
                    catch (Fail& e) { throw; }
                    catch (std::exception& e)
                    {
                        fail("unexpected-exception", cat("sequence", nm, " ",
                            ops[last].name, ": ", o.name, " throws ",
                            e.what()));
                    }
                    ctx.transition();
                }
                ctx.trace();
                std::string what = cat("after", nm, " ", ops[last].name);
                const Outs expect = decode(pure.ask(
                            question(calc, w.edits, w.cfg)));
                w.q->eval(w.a);
                compareouts(outputsf(*w.q), expect, "history", what);
                // repeated evaluation changes nothing
                w.q->eval(w.a);
                compareouts(outputsf(*w.q), expect, "repeated", what + " again");
                ctx.evaluation(2);
                uint64_t h = hashouts(expect);
                ctx.outcome(h);
                uint64_t hs = hashstr(calc);
                for (auto& kv : w.cfg)
                    if (kv.second)  hs = mix(hashstr(kv.first, hs), kv.second);
                ctx.state(mix(hs, h));
            }
        });
    }
}

}   // namespace

void explore(Ctx& ctx)
{
    Pristine pure(answer);
    sequences(ctx, pure, "pair", ctx.thorough ? 5 : 4);
    sequences(ctx, pure, "bond", ctx.thorough ? 4 : 3);
    sequences(ctx, pure, "probe", ctx.thorough ? 4 : 3);
    sequences(ctx, pure, "bvs", ctx.thorough ? 4 : 3);
    sequences(ctx, pure, "overlap", ctx.thorough ? 4 : 3);
    sequences(ctx, pure, "pdf", 3);
    sequences(ctx, pure, "debye", 3);
    if (!ctx.thorough)  return;
    sequences(ctx, pure, "pdf", 4, true);
    sequences(ctx, pure, "debye", 4, true);
}
