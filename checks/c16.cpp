// C16: class registry creates what was registered.
#include "mc.hpp"
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/SFTXray.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/ZeroBaseline.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>

using namespace mc;
using namespace diffpy::srreal;

const Info mcinfo = {
    "C16", "model_checking",
    "Every sequence of register, alias, deregister and create operations up "
        "to the depth, with new classes, duplicate types, aliases in use, "
        "aliases of aliases, unknown names and built-in types, on the registry "
        "of each of the 6 registered base classes.  The oracle is a map of "
        "names to registered prototypes.  After the sequence all queries are "
        "compared and objects are created by all names.  A state is the "
        "content of the model, an outcome is the state of the registry.",
    "all sequences of up to 4 operations from 20",
    "all sequences of up to 5 operations from 20",
    {"a prototype reports the same type for its lifetime"},
    60
};

namespace {

struct Tag
{
    std::string tp, rad;
    int id;
};

/// New class with the behavior of some concrete class
template <class TBase, class C>
class Proto : public C
{
    public:

        typedef boost::shared_ptr<TBase> Ptr;

        Tag tag;
        Proto(const Tag& t) : tag(t)  { }
        Ptr create() const  { return Ptr(new Proto(tag)); }
        Ptr clone() const  { return Ptr(new Proto(*this)); }
        const std::string& type() const  { return tag.tp; }
};

template <>
class Proto<ScatteringFactorTable, SFTXray> : public SFTXray
{
    public:

        typedef ScatteringFactorTablePtr Ptr;

        Tag tag;
        Proto(const Tag& t) : tag(t)  { }
        Ptr create() const  { return Ptr(new Proto(tag)); }
        Ptr clone() const  { return Ptr(new Proto(*this)); }
        const std::string& type() const  { return tag.tp; }
        const std::string& radiationType() const  { return tag.rad; }
};

/// Model of the registry: name -> (type, id), id = 0 for built-in classes
struct Entry
{
    std::string tp;
    int id;
    bool operator==(const Entry& o) const  { return tp == o.tp && id == o.id; }
};
typedef std::map<std::string, Entry> Model;

const int NOP = 20;

template <class TBase, class C>
struct Registry
{
    typedef Proto<TBase, C> P;
    std::string bname, balias;
    bool rad;
    Model base;

    /// read the registry from its queries
    Model current()
    {
        Model rv;
        for (auto& t : TBase::getRegisteredTypes())  rv[t] = Entry{ t, 0 };
        for (auto& kv : TBase::getAliasedTypes())
            rv[kv.first] = Entry{ kv.second, 0 };
        for (auto& kv : rv)
        {
            auto p = boost::dynamic_pointer_cast<P>(
                    TBase::createByType(kv.first));
            if (p)  kv.second.id = p->tag.id;
        }
        return rv;
    }

    Registry(const std::string& b) : bname(b), rad(b == "xray")
    {
        base = current();
        require(base.count(b), "harness", "no type ", b);
        balias = rad ? "X" : "";
    }

    void restore()
    {
        for (auto s : { "t1", "t2", "a1", "a2", "r1" })  TBase::deregisterType(s);
        // the built-in class may be replaced by a new one
        TBase::deregisterType(bname);
        if (rad)  TBase::deregisterType(balias);
        C().registerThisType();
        require(current() == base, "restore", "registry is not restored");
    }

    void doregister(Model& m, const Tag& t, const std::string& w)
    {
        std::string radt = rad ? t.rad : "";
        bool ok = !m.count(t.tp);
        // the alias is taken by another prototype
        if (!radt.empty() && radt != t.tp && m.count(radt))  ok = false;
        bool raised = false;
        try  { P(t).registerThisType(); }
        catch (std::logic_error&)  { raised = true; }
        require(raised == !ok, "register", w, " raised=", raised);
        if (!ok)  return;
        m[t.tp] = Entry{ t.tp, t.id };
        if (!radt.empty())  m[radt] = m[t.tp];
    }

    void doalias(Model& m, const std::string& tp, const std::string& al,
            const std::string& w)
    {
        bool ok = m.count(tp) && (!m.count(al) || m[al] == m[tp]);
        bool raised = false;
        try  { TBase::aliasType(tp, al); }
        catch (std::logic_error&)  { raised = true; }
        require(raised == !ok, "alias", w, " raised=", raised);
        if (ok)  m[al] = m[tp];
    }

    void doderegister(Model& m, const std::string& tp, const std::string& w)
    {
        int n = 0;
        if (m.count(tp))
        {
            Entry e = m[tp];
            for (auto i = m.begin(); i != m.end(); )
            {
                if (i->second == e)  { i = m.erase(i); ++n; }
                else  ++i;
            }
        }
        int r = TBase::deregisterType(tp);
        require(r == n, "deregister", w, " returned ", r, " instead of ", n);
    }

    void apply(Model& m, int op, const std::string& w)
    {
        switch (op)
        {
            case 0: doregister(m, Tag{ "t1", "r1", 1 }, w); break;
            case 1: doregister(m, Tag{ "t2", "r2", 2 }, w); break;
            case 2: doregister(m, Tag{ "t1", "r3", 3 }, w); break;
            case 3: doregister(m, Tag{ "t2", "r1", 4 }, w); break;
            case 4: doregister(m, Tag{ "a1", "X", 5 }, w); break;
            case 5: doregister(m, Tag{ "t2", "t2", 6 }, w); break;
            case 6: doregister(m, Tag{ bname, "r2", 7 }, w); break;
            case 7: doalias(m, "t1", "a1", w); break;
            case 8: doalias(m, "t2", "a1", w); break;
            case 9: doalias(m, "t1", "t2", w); break;
            case 10: doalias(m, "a1", "a2", w); break;
            case 11: doalias(m, "nosuch", "a2", w); break;
            case 12: doalias(m, bname, "a1", w); break;
            case 13: doalias(m, "t1", bname, w); break;
            case 14: doalias(m, "t1", "t1", w); break;
            case 15: doderegister(m, "t1", w); break;
            case 16: doderegister(m, "a1", w); break;
            case 17: doderegister(m, "nosuch", w); break;
            case 18:
            case 19:
            {
                // created objects do not change the prototype
                const std::string s = (op == 18) ? "t1" : "a1";
                bool raised = false;
                try
                {
                    auto p = boost::dynamic_pointer_cast<P>(
                            TBase::createByType(s));
                    if (p)  p->tag = Tag{ "zz", "zz", 99 };
                }
                catch (std::invalid_argument&)  { raised = true; }
                require(raised == !m.count(s), "create", w, " raised=", raised);
                break;
            }
        }
    }

    void compare(Ctx& ctx, const Model& m, const std::string& w)
    {
        uint64_t h = hashstr(bname);
        std::set<std::string> types;
        std::map<std::string, std::string> aliases;
        for (auto& kv : m)
        {
            types.insert(kv.second.tp);
            if (kv.first != kv.second.tp)  aliases[kv.first] = kv.second.tp;
            h = mix(h, hashstr(kv.first + "=" + kv.second.tp, kv.second.id));
        }
        require(TBase::getRegisteredTypes() == types, "types", w);
        require(TBase::getAliasedTypes() == aliases, "aliases", w);
        for (auto& s : { std::string("t1"), std::string("t2"),
                std::string("a1"), std::string("a2"), std::string("r1"),
                std::string("r2"), std::string("r3"), std::string("X"),
                std::string("nosuch"), std::string(), bname })
        {
            require(TBase::isRegisteredType(s) == bool(m.count(s)),
                    "isregistered", w, " ", s);
            boost::shared_ptr<TBase> p, q;
            try
            {
                p = TBase::createByType(s);
                q = TBase::createByType(s);
            }
            catch (std::invalid_argument&)  { }
            require(bool(p) == bool(m.count(s)), "create", w, " ", s);
            if (!p)  continue;
            require(p != q && p.use_count() == 1, "fresh", w, " ", s,
                    " is not a new object");
            const Entry& e = m.at(s);
            require(p->type() == e.tp, "type", w, " ", s, " is ", p->type(),
                    " instead of ", e.tp);
            auto pp = boost::dynamic_pointer_cast<P>(p);
            require((pp ? pp->tag.id : 0) == e.id, "class", w, " ", s);
            auto c = p->clone();
            require(c != p && c->type() == e.tp, "clone", w, " ", s);
        }
        ctx.state(h);
        ctx.outcome(h);
        ctx.trace();
    }

    void sequence(Ctx& ctx, int len, int c0, int code)
    {
        Model m = base;
        std::string w = bname;
        try
        {
            for (int i = 0; i < len; ++i)
            {
                int op = c0 % NOP;
                if (i == 0)  op = c0 / NOP;
                else if (i > 1)
                {
                    op = code % NOP;
                    code /= NOP;
                }
                w += cat(" ", op);
                apply(m, op, w);
                ctx.transition();
            }
            compare(ctx, m, w);
        }
        catch (Fail&)  { try { restore(); } catch (Fail&) { } throw; }
        restore();
    }
};

template <class TBase, class C>
void explorebase(Ctx& ctx, const std::string& b)
{
    const int depth = ctx.thorough ? 5 : 4;
    for (int len = 0; len <= depth; ++len)
    {
        int n0 = len == 0 ? 1 : len == 1 ? NOP : NOP * NOP, n1 = 1;
        for (int i = 2; i < len; ++i)  n1 *= NOP;
        for (int c0 = 0; c0 < n0; ++c0)
        ctx.run(cat("C16 ", b, " length=", len, " first=", c0), [&]()
        {
            static Registry<TBase, C> reg(b);
            for (int code = 0; code < n1; ++code)
                reg.sequence(ctx, len, len == 1 ? c0 * NOP : c0, code);
        });
    }
}

}   // namespace

void explore(Ctx& ctx)
{
    explorebase<ScatteringFactorTable, SFTXray>(ctx, "xray");
    explorebase<PeakWidthModel, ConstantPeakWidth>(ctx, "constant");
    explorebase<PeakProfile, GaussianProfile>(ctx, "gaussian");
    explorebase<PDFBaseline, ZeroBaseline>(ctx, "zero");
    explorebase<PDFEnvelope, ScaleEnvelope>(ctx, "scale");
    explorebase<AtomRadiiTable, ConstantRadiiTable>(ctx, "constant");
}
