// C18: factories construct what is registered, at any time; clones are equal to and independent of their originals.
#include "common.h"
using namespace ref;
namespace F = fuzzylite;
namespace {
struct Odd : F::TNorm { std::string className() const override { return "Odd"; } F::scalar compute(F::scalar, F::scalar) const override { return 0.125; } Odd* clone() const override { return new Odd(*this); } static F::TNorm* constructor() { return new Odd; } };
struct Half : F::Hedge { std::string name() const override { return "half"; } F::scalar hedge(F::scalar x) const override { return x / 2; } Half* clone() const override { return new Half(*this); } static F::Hedge* constructor() { return new Half; } };
struct Flat : F::Term { double v = 0; Flat() : F::Term("") {} std::string className() const override { return "Flat"; } std::string parameters() const override { return F::Op::str(v); } void configure(const std::string& p) override { if (!p.empty()) v = F::Op::toScalar(p); } F::scalar membership(F::scalar) const override { return v; } Flat* clone() const override { return new Flat(*this); } static F::Term* constructor() { return new Flat; } };
F::scalar twice(F::scalar x) { return 2 * x; } F::scalar thrice(F::scalar x) { return 3 * x; } F::scalar minus2(F::scalar a, F::scalar b) { return a - 2 * b; }
const char* const FUNS[] = {"abs", "acos", "acosh", "asin", "asinh", "atan", "atan2", "atanh", "ceil", "cos", "cosh", "eq", "exp", "fabs", "floor", "fmod", "ge", "gt", "le", "log", "log10", "log1p", "lt", "max", "min", "neq", "pow", "round", "sin", "sinh", "sqrt", "tan", "tanh"};
const char* const OPS[] = {"!", "%", "*", "+", "-", "/", "^", "and", "or", "~"};
SV sorted(SV v) { std::sort(v.begin(), v.end()); return v; }
std::string key(F::Norm* x) { return x->className(); } std::string key(F::Activation* x) { return x->className(); } std::string key(F::Defuzzifier* x) { return x->className(); } std::string key(F::Term* x) { return x->className(); } std::string key(F::Hedge* x) { return x->name(); }
template <class FA> void builtin(vf::Ctx& c, const FA* f, const SV& names, const std::string& what) {
    SV want(names); want.push_back(""); want = sorted(want); c.expect(sorted(f->available()) == want, "available", [&] { return "the " + what + "s available are not those documented"; });
    c.expect(f->constructObject("") == 0 && f->hasConstructor(""), "empty", [&] { return "the " + what + " of no name is an object"; });
    for (auto& n : names) { std::unique_ptr<typename std::remove_pointer<decltype(f->constructObject(n))>::type> a(f->constructObject(n)), b(f->constructObject(n)), d(a->clone()); c.expect(a && b && a != b && d != a && key(a.get()) == n && key(b.get()) == n && key(d.get()) == n && f->hasConstructor(n) && f->getConstructor(n) != 0 && typeid(*a) == typeid(*d) && typeid(*a) == typeid(*b), "construct", [&] { return "constructing the " + what + " " + n + " gives " + key(a.get()) + ", its clone is " + key(d.get()); });
        std::string low = n; low[0] = (char) (isupper(low[0]) ? tolower(low[0]) : toupper(low[0])); for (std::string bad : {low, n + " ", n + "x", n.substr(1)}) { if (std::find(names.begin(), names.end(), bad) != names.end()) continue; bool threw = false; try { delete f->constructObject(bad); } catch (F::Exception&) { threw = true; } c.expect(threw && !f->hasConstructor(bad) && !f->getConstructor(bad), "unknown", [&] { return "the unregistered " + what + " <" + bad + "> is constructed"; }); } }
    c.state(what);
}
}
VF_SUITE(builtin) {     // everything documented is there, nothing else, in the default manager, a new one, a copy and an assigned one
    int which = c.choose(4), kind = c.choose(8); c.begin(); F::FactoryManager fresh, other; std::unique_ptr<F::FactoryManager> cl; F::FactoryManager* m = F::FactoryManager::instance(); if (which == 1) m = &fresh; if (which == 2) { cl.reset(m->clone()); m = cl.get(); } if (which == 3) { other.setTnorm(0); other.setFunction(0); other = *m; m = &other; } c.step();
    if (kind == 0) builtin(c, m->tnorm(), NAMES(TNORMS), "T-norm"); if (kind == 1) builtin(c, m->snorm(), NAMES(SNORMS), "S-norm"); if (kind == 2) builtin(c, m->activation(), NAMES(ACTIVATIONS), "activation method"); if (kind == 3) builtin(c, m->defuzzifier(), NAMES(DEFUZZIFIERS), "defuzzifier"); if (kind == 4) builtin(c, m->term(), NAMES(TERMS), "term"); if (kind == 5) builtin(c, m->hedge(), NAMES(HEDGES), "hedge");
    if (kind == 6) { F::FunctionFactory* f = m->function(); SV fs(NAMES(FUNS)), os(NAMES(OPS)), all(fs); all.insert(all.end(), os.begin(), os.end()); c.expect(sorted(f->availableFunctions()) == fs && sorted(f->availableOperators()) == os && sorted(f->available()) == sorted(all), "functions", [&] { return std::string("the functions or operators are not those documented"); });
        for (auto& n : all) { std::unique_ptr<F::Function::Element> e(f->cloneObject(n)); bool op = std::find(os.begin(), os.end(), n) != os.end(); c.expect(e && e.get() != f->getObject(n) && f->hasObject(n) && e->name == n && e->isOperator() == op && e->isFunction() == !op && (e->arity == 1 ? e->unary && !e->binary : e->arity == 2 && e->binary && !e->unary), "element", [&] { return "the element " + n + " is wrong"; }); }
        bool threw = false; try { delete f->cloneObject("nofunction"); } catch (F::Exception&) { threw = true; } c.expect(threw && !f->hasObject("nofunction") && !f->getObject("nofunction"), "unknown-function", [&] { return std::string("an unregistered function is cloned"); }); }
    if (kind == 7) { F::FactoryManager e(0, 0, 0, 0, 0, 0, 0); c.expect(!e.tnorm() && !e.snorm() && !e.activation() && !e.defuzzifier() && !e.term() && !e.hedge() && !e.function(), "null-manager", [&] { return std::string("a manager without factories has factories"); }); F::FactoryManager e2(e); e = *m; c.expect(e.tnorm() && e.tnorm() != m->tnorm() && e.snorm() != m->snorm() && e.activation() != m->activation() && e.defuzzifier() != m->defuzzifier() && e.term() != m->term() && e.hedge() != m->hedge() && e.function() != m->function() && !e2.term(), "manager-copy", [&] { return std::string("a copy of a manager shares factories"); }); c.state(which); }
}
VF_SUITE(construction) {     // registering and deregistering in a factory and its clone, in all orders
    const SV K = {"Minimum", "odd", ""}; struct M { std::map<std::string, std::string> m; } a, b; std::unique_ptr<F::TNormFactory> f(new F::TNormFactory), g; for (auto& n : NAMES(TNORMS)) a.m[n] = n; a.m[""] = ""; std::string log; int depth = c.thorough ? 6 : 5;
    auto compare = [&](const M& m, F::TNormFactory* q) { std::string err; for (auto& k : SV{"Minimum", "odd", "", "AlgebraicProduct"}) { auto it = m.m.find(k); bool threw = false; std::string got; try { std::unique_ptr<F::TNorm> x(q->constructObject(k)); got = x ? x->className() : ""; } catch (F::Exception&) { threw = true; } if (threw != (it == m.m.end()) || (!threw && got != it->second)) err += "constructing <" + k + "> gives <" + (threw ? "an exception" : got) + ">; "; if (q->hasConstructor(k) != (it != m.m.end())) err += "asking for <" + k + "> is wrong; "; F::TNormFactory::Constructor w = it == m.m.end() || it->second.empty() ? (F::TNormFactory::Constructor) 0 : it->second == "Odd" ? &Odd::constructor : it->second == "Maxish" ? &F::DrasticProduct::constructor : 0; if ((q->getConstructor(k) != 0) != (it != m.m.end() && !it->second.empty()) || (w && q->getConstructor(k) != w)) err += "the constructor of <" + k + "> is wrong; "; }
        SV av; for (auto& x : m.m) av.push_back(x.first); if (sorted(q->available()) != av || q->constructors().size() != av.size()) err += "the available ones are wrong; "; return err; };
    for (int d = 0; d < depth; ++d) {
        int on = g ? c.choose(2) : 0, op = c.choose(4); if (d == 1) c.begin(); M& m = on ? b : a; F::TNormFactory* q = on ? g.get() : f.get(); log += on ? "clone: " : "";
        if (op == 0) { auto& k = c.pick(K); int what = c.choose(3); q->registerConstructor(k, what == 0 ? &Odd::constructor : what == 1 ? &F::EinsteinProduct::constructor : (F::TNormFactory::Constructor) 0); m.m[k] = what == 0 ? "Odd" : what == 1 ? "EinsteinProduct" : ""; log += vf::cat("register ", k, what, "; "); }
        else if (op == 1) { auto& k = c.pick(K); q->deregisterConstructor(k); m.m.erase(k); log += "deregister " + k + "; "; }
        else if (op == 2) { if (on) { f.reset(g->clone()); a = b; log += "clone back; "; } else { g.reset(f->clone()); b = a; log += "clone; "; } }
        else { if (on) { *f = *g; a = b; } else if (g) { *g = *f; b = a; } else c.prune(); log += "assign; "; }
        c.step(); std::string err = compare(a, f.get()); if (g) err += compare(b, g.get()); c.checks(8); if (!err.empty()) { c.fail("factory", "after " + log + err); return; } std::string st; for (auto& x : a.m) st += x.first + x.second + ","; st += "|"; for (auto& x : b.m) st += x.first + x.second + ","; c.state(st); if (c.seen(vf::hashStr(st + (g ? "g" : "")), depth - 1 - d)) { c.describe([&] { return log; }); c.prune(); }
    } c.describe([&] { return log; });
}
namespace {
std::string elements(vf::Ctx& c, int depth, std::string& log) {
    typedef F::Function::Element E; typedef std::map<std::string, std::string> M; M m[2]; { F::FunctionFactory q; for (auto& n : q.available()) m[0][n] = q.getObject(n)->description; } m[1] = m[0]; std::unique_ptr<F::FunctionFactory> f[2]; f[0].reset(new F::FunctionFactory); f[1].reset(new F::FunctionFactory); const std::string K[] = {"sin", "mine"};
    for (int d = 0; d < depth; ++d) {
        int on = c.choose(2), op = c.choose(8); M& x = m[on]; F::FunctionFactory* q = f[on].get(); std::string k; log += vf::cat(on, ":");
        switch (op) {
            case 0: k = K[c.choose(2)]; q->registerObject(k, new E(k, "twice", E::Function, &twice)); x[k] = "twice"; log += "register twice as " + k; break;
            case 1: k = K[c.choose(2)]; q->registerObject(k, new E(k, "minus2", E::Operator, &minus2, 50)); x[k] = "minus2"; log += "register minus2 as " + k; break;
            case 2: k = K[c.choose(2)]; q->deregisterObject(k); x.erase(k); log += "deregister " + k; break;
            case 3: k = K[c.choose(2)]; if (q->hasObject(k)) { E* e = q->getObject(k); q->registerObject(k, e); } log += "register the same again " + k; break;
            case 4: f[1 - on].reset(q->clone()); m[1 - on] = x; log += "clone over the other"; break;
            case 5: *f[1 - on] = *q; *q = *q; m[1 - on] = x; log += "assign to the other"; break;
            case 6: q->clear(); x.clear(); log += "clear"; break;
            case 7: k = K[c.choose(2)]; q->registerObject(k, fl::null); x[k] = "null"; log += "register nothing as " + k; break;
        }
        log += "; "; if (d == 1) c.begin();
        for (int i = 0; i < 2; ++i) { for (auto& n : {std::string("sin"), std::string("mine"), std::string("+")}) { bool has = m[i].count(n) > 0, threw = false; std::string got; try { std::unique_ptr<E> e(f[i]->cloneObject(n)); if (!e) { got = "null"; } else got = e->description; if (e && e.get() == f[i]->getObject(n)) return "cloning gives the object itself"; if (got == "twice" && e->unary(3) != 6) return "the function is another"; if (got == "minus2" && (e->binary(3, 1) != 1 || !e->isOperator())) return "the operator is another"; } catch (F::Exception&) { threw = true; } if (threw == has || f[i]->hasObject(n) != has || (f[i]->getObject(n) != 0) != (has && got != "null") || (has && got != m[i][n])) return vf::cat("factory ", i, ": <", n, "> is ", threw ? "not there" : got); if (has && got != "null" && m[1 - i].count(n) && f[0]->getObject(n) == f[1]->getObject(n)) return "the factories share objects"; }
            SV av; for (auto& y : m[i]) av.push_back(y.first); if (sorted(f[i]->available()) != av || f[i]->objects().size() != av.size()) return "the available ones are wrong"; size_t none = 0; for (auto& y : m[i]) none += y.second == "null"; if (f[i]->availableFunctions().size() + f[i]->availableOperators().size() + none != av.size()) return "functions and operators are not all"; }
    }
    return "";
}
}
VF_SUITE(cloning) {     // registering, deregistering, clearing, cloning, assigning two factories of functions; nothing is lost or shared
    c.choices.reserve(64); c.limits.reserve(64); std::string log; log.reserve(600); int depth = c.thorough ? 5 : 4; { F::FunctionFactory warm; } long live = vf::liveBlocks(); std::string err = elements(c, depth, log); long now = vf::liveBlocks(); c.step((size_t) depth); c.describe([&] { return log; });
    c.expect(err.empty(), "cloning-factory", [&] { return "after " + log + err; }); if (err.empty()) c.expect(now == live, "cloning-leak", [&] { return vf::cat("after ", log, now - live, " blocks of memory remain"); }); c.state(log);
}
VF_SUITE(use) {     // what is registered in the manager is used by rules, formulas and importers; what is not registered is refused
    F::FactoryManager* fm = F::FactoryManager::instance(); F::FactoryManager saved(*fm); struct Restore { F::FactoryManager &s, *m; ~Restore() { *m = s; } } restore = {saved, fm};
    std::string log; bool hedge = false, term = false, tn = false, very = true; int fun = 0; int depth = 4;
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(10); if (d == 1) c.begin();
        switch (op) { case 0: fm->hedge()->registerConstructor("half", &Half::constructor); hedge = true; break; case 1: fm->hedge()->deregisterConstructor("half"); hedge = false; break; case 2: fm->term()->registerConstructor("Flat", &Flat::constructor); term = true; break; case 3: fm->term()->deregisterConstructor("Flat"); term = false; break; case 4: fm->tnorm()->registerConstructor("Odd", &Odd::constructor); tn = true; break; case 5: fm->tnorm()->deregisterConstructor("Odd"); tn = false; break;
            case 6: fun = fun % 2 + 1; fm->function()->registerObject("mine", new F::Function::Element("mine", "", F::Function::Element::Function, fun == 1 ? &twice : &thrice)); break; case 7: fm->function()->deregisterObject("mine"); fun = 0; break; case 8: fm->setHedge(very ? new F::HedgeFactory("other") : saved.hedge()->clone()); if (very) { fm->hedge()->deregisterConstructor("very"); } very = !very; hedge = false; break; case 9: *fm = saved; hedge = term = tn = false; fun = 0; very = true; break; }
        log += vf::cat(op, "; ");
        F::Engine e("e"); F::InputVariable* x = new F::InputVariable("x", 0, 1); x->addTerm(new F::Ramp("lo", 0, 1)); e.addInputVariable(x); x->setValue(0.5); F::OutputVariable* p = new F::OutputVariable("p", 0, 1); p->addTerm(new F::Constant("k", 1)); e.addOutputVariable(p); std::string err; c.step(5);
        auto attempt = [&](const std::string& what, bool want, double value, std::function<double()> run) { bool ok = true; double v = NaN; try { v = run(); } catch (F::Exception&) { ok = false; } c.checks(); if (ok != want) err += what + (ok ? " is accepted; " : " is refused; "); else if (ok && !vf::near(v, value)) err += vf::cat(what, " gives ", v, "; "); };
        auto rule = [&](const std::string& t) { std::unique_ptr<F::Rule> r(F::Rule::parse(t, &e)); return r->activateWith(0, 0); };
        attempt("a rule with the hedge half", hedge, 0.25, [&] { return rule("if x is half lo then p is k"); }); attempt("a rule with very", very, 0.25, [&] { return rule("if x is very lo then p is k"); }); attempt("a rule with not", true, 0.5, [&] { return rule("if x is not lo then p is k"); });
        attempt("a formula with mine", fun > 0, fun == 1 ? 5 : 7.5, [&] { F::Function f("f", "mine(x)", {}, &e, true); return f.membership(2.5); }); attempt("a formula with sin", true, std::sin(0.5), [&] { F::Function f("f", "sin(x)", {}, &e, true); return f.membership(0.5); });
        attempt("a text with a term Flat", term, 0.75, [&] { std::unique_ptr<F::Engine> q(F::FllImporter().fromString("InputVariable: a\n  term: t Flat 0.75\n")); return q->getInputVariable((size_t) 0)->getTerm((size_t) 0)->membership(7); });
        attempt("a text with the T-norm Odd", tn, 0.125, [&] { std::unique_ptr<F::Engine> q(F::FllImporter().fromString("RuleBlock: a\n  conjunction: Odd\n")); return q->getRuleBlock((size_t) 0)->getConjunction()->compute(1, 1); });
        attempt("configuring Odd", tn, 0.125, [&] { F::Engine q("q"); q.addRuleBlock(new F::RuleBlock); q.configure("Odd", "", "Odd", "", "", ""); return q.getRuleBlock((size_t) 0)->getImplication()->compute(1, 1); });
        if (!err.empty()) { c.fail("registered-use", "after " + log + err); return; } std::string st = vf::cat(hedge, term, tn, fun, very); c.state(st); if (c.seen(vf::hashStr(st), depth - 1 - d)) c.prune();
    }
    c.describe([&] { return log; });
}
VF_SUITE(clones) {     // clones of every class with parameters are equal and stay so when the original changes
    static std::vector<ref::Term> z = termZoo(); int kind = c.choose(6); F::Engine e("e"); e.addInputVariable(new F::InputVariable("i", 0, 1)); e.getInputVariable((size_t) 0)->setValue(0.5);
    auto same = [&](const std::string& a, const std::string& b, const std::string& what) { c.expect(a == b, "clone", [&] { return what + ": the clone is <" + b + ">, expected <" + a + ">"; }); };
    if (kind == 0) { int k = c.choose((int) z.size() + 3); double h = c.pick(DV{1, 0.5, -2, NaN}); int way = c.choose(3); c.begin(); std::unique_ptr<F::Term> t; if (k < (int) z.size()) { ref::Term r = z[(size_t) k]; r.h = h; t.reset(bld::term(r)); } else if (k == (int) z.size()) t.reset(new F::Constant("t", h)); else if (k == (int) z.size() + 1) t.reset(new F::Linear("t", {2, h}, &e)); else { std::map<std::string, F::scalar> vars; vars["w"] = h; t.reset(new F::Function("t", "w*x+i", vars, &e, true)); }
        auto show = [&](F::Term* q) { std::string s = q->className() + " " + q->getName() + " " + q->parameters() + vf::cat(" ", q->getHeight(), q->isMonotonic()); for (double x : {-1.0, 0.0, 0.2, 0.35, 0.5, 0.77, 1.0, (double) NaN}) s += " " + vf::num(q->membership(x)); return s; };
        std::string want = show(t.get()); std::unique_ptr<F::Term> cl(t->clone()), again(cl->clone()); c.step(); same(want, show(cl.get()), "term"); same(want, show(again.get()), "clone of a clone of a term"); F::Term* ch = way == 0 ? t.get() : cl.get(); ch->setName("other"); ch->setHeight(0.1); ch->configure(t->className() == "Function" ? "1-x" : t->className() == "Linear" ? "9 9" : t->className() == "Constant" ? "9" : t->className() == "Discrete" ? "0 0.5 1 0.5" : "0.1 0.2 0.3 0.4"); if (way == 2) { t.reset(); } F::Term* keep = way == 0 ? cl.get() : again.get(); same(want, show(keep), "term after the other changed"); if (way == 1) same(want, show(t.get()), "original after its clone changed"); c.state(want); c.describe([&] { return want; }); }
    if (kind == 1) { int w = c.choose(7), n = c.choose(3); double th = c.pick(DV{0, 0.25, NaN}); SV cm = {"<", "<=", "==", "!=", ">=", ">"}; std::string cmpr = w == 6 ? c.pick(cm) : cm[0]; c.begin(); std::unique_ptr<F::Activation> a; ref::Block b; b.act = ACTIVATIONS[w]; b.n = n; b.thr = th; b.cmp = cmpr; a.reset(bld::activation(b)); std::string want = a->className() + " " + a->parameters(); std::unique_ptr<F::Activation> cl(a->clone()); same(want, cl->className() + " " + cl->parameters(), "activation"); a->configure(w == 6 ? "!= 0.9" : "4 0.9"); same(want, cl->className() + " " + cl->parameters(), "activation after the original changed"); c.step(); c.state(want); }
    if (kind == 2) { int w = c.choose(7), p = c.choose(3); c.begin(); std::unique_ptr<F::Defuzzifier> q(F::FactoryManager::instance()->defuzzifier()->constructObject(DEFUZZIFIERS[w])); auto show = [](F::Defuzzifier* x) { F::IntegralDefuzzifier* i = dynamic_cast<F::IntegralDefuzzifier*>(x); F::WeightedDefuzzifier* v = dynamic_cast<F::WeightedDefuzzifier*>(x); return x->className() + (i ? vf::cat(i->getResolution()) : "") + (v ? v->getTypeName() : ""); }; auto set = [](F::Defuzzifier* x, int k) { if (F::IntegralDefuzzifier* i = dynamic_cast<F::IntegralDefuzzifier*>(x)) i->setResolution(10 + k); if (F::WeightedDefuzzifier* v = dynamic_cast<F::WeightedDefuzzifier*>(x)) v->setType(k == 0 ? "Automatic" : k == 1 ? "TakagiSugeno" : "Tsukamoto"); }; set(q.get(), p); std::string want = show(q.get()); std::unique_ptr<F::Defuzzifier> cl(q->clone()); same(want, show(cl.get()), "defuzzifier"); set(q.get(), (p + 1) % 3); same(want, show(cl.get()), "defuzzifier after the original changed"); c.step(); c.state(want); }
    if (kind == 3 || kind == 4) { SV fs = {"a*b", "min(a,b)/2", "a+b-a*b", "a"}; int f = c.choose(4), g = c.choose(4); c.begin(); auto val = [&](int i, double a, double b) { return i == 0 ? a * b : i == 1 ? std::min(a, b) / 2 : i == 2 ? a + b - a * b : a; }; for (double a : {0.0, 0.3, 1.0}) for (double b : {0.2, 1.0}) { if (kind == 3) { F::TNormFunction t(fs[(size_t) f]); std::unique_ptr<F::TNormFunction> cl(t.clone()); t.setFormula(fs[(size_t) g]); c.expect(vf::near(cl->compute(a, b), val(f, a, b)) && vf::near(t.compute(a, b), val(g, a, b)) && vf::near(cl->compute(b, a), val(f, b, a)) && cl->getFormula() == fs[(size_t) f] && cl->className() == "TNormFunction" && t.getFormula() == fs[(size_t) g], "norm-function", [&] { return vf::cat("T-norm of formula ", fs[(size_t) f], " cloned: ", cl->compute(a, b)); }); } else { F::SNormFunction t(fs[(size_t) f]); std::unique_ptr<F::SNormFunction> cl(t.clone()); t.setFormula(fs[(size_t) g]); c.expect(vf::near(cl->compute(a, b), val(f, a, b)) && vf::near(t.compute(a, b), val(g, a, b)) && vf::near(cl->compute(b, a), val(f, b, a)) && cl->getFormula() == fs[(size_t) f] && cl->className() == "SNormFunction" && t.getFormula() == fs[(size_t) g], "norm-function", [&] { return vf::cat("S-norm of formula ", fs[(size_t) f], " cloned: ", cl->compute(a, b)); }); } } c.step(); c.state(vf::cat(kind, f, g)); }
    if (kind == 5) { SV fs = {"x*x", "sqrt(x)", "1-x", "x"}; int f = c.choose(4), g = c.choose(4); c.begin(); auto val = [&](int i, double x) { return i == 0 ? x * x : i == 1 ? std::sqrt(x) : i == 2 ? 1 - x : x; }; for (double x : {0.0, 0.3, 1.0}) { F::HedgeFunction t(fs[(size_t) f], "mine"); std::unique_ptr<F::HedgeFunction> cl(t.clone()); t.setFormula(fs[(size_t) g]); c.expect(vf::near(cl->hedge(x), val(f, x)) && vf::near(t.hedge(x), val(g, x)) && cl->name() == "mine" && cl->getFormula() == fs[(size_t) f] && t.getFormula() == fs[(size_t) g], "hedge-function", [&] { return vf::cat("hedge of formula ", fs[(size_t) f], " cloned"); }); } c.step(); c.state(vf::cat(kind, f, g)); }
}
