// kdrv: scripted driver for the kratos library.
//
// Reads a file of cases; each case is a list of s-expression commands that call
// kratos' public API; everything observed (IR dumps, generated text, exceptions,
// simulator values, book-keeping sets) is printed as one JSON object per line.
// Each case runs in a forked child with an alarm, so that crashes and hangs of
// the library are observations too.
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <mutex>
#include <sstream>

#include "analysis.hh"
#include "codegen.hh"
#include "context.hh"
#include "debug.hh"
#include "eval.hh"
#include "event.hh"
#include "except.hh"
#include "expr.hh"
#include "fault.hh"
#include "formal.hh"
#include "fsm.hh"
#include "generator.hh"
#include "graph.hh"
#include "hash.hh"
#include "interface.hh"
#include "lib.hh"
#include "optimize.hh"
#include "pass.hh"
#include "port.hh"
#include "sim.hh"
#include "stmt.hh"
#include "syntax.hh"
#include "tb.hh"
#include "transform.hh"
#include "util.hh"

using namespace kratos;
using std::shared_ptr;
using str = std::string;
using std::vector;

// ------------------------------------------------------------------ s-expr
struct SX {
    bool atom = true;
    str s;
    vector<SX> l;
    size_t size() const { return l.size(); }
    const SX &operator[](size_t i) const {
        if (i >= l.size()) throw std::logic_error("driver: short form in (" + (l.empty() ? s : l[0].s) + ")");
        return l[i];
    }
    const str &head() const {
        static str e;
        return atom || l.empty() || !l[0].atom ? e : l[0].s;
    }
};
static void skip(const char *&p) {
    while (*p == ' ' || *p == '\n' || *p == '\t') p++;
}
static SX parse(const char *&p) {
    skip(p);
    SX x;
    if (*p == '(') {
        x.atom = false;
        p++;
        skip(p);
        while (*p && *p != ')') {
            x.l.push_back(parse(p));
            skip(p);
        }
        if (*p) p++;
    } else if (*p == '"') {
        p++;
        while (*p && *p != '"') {
            if (*p == '\\' && p[1]) {
                p++;
                x.s += (*p == 'n') ? '\n' : *p;
                p++;
                continue;
            }
            x.s += *p++;
        }
        if (*p) p++;
    } else {
        while (*p && !strchr(" \n\t()", *p)) x.s += *p++;
    }
    return x;
}

// ------------------------------------------------------------------- json
static str jstr(const str &s) {
    str r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c == '\t')
            r += "\\t";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}
template <class C>
static str jarr(const C &c) {
    str r = "[";
    for (auto const &x : c) {
        if (r.size() > 1) r += ",";
        r += x;
    }
    return r + "]";
}
template <class C>
static str jstrs(const C &c) {
    vector<str> v;
    for (auto const &x : c) v.push_back(jstr(x));
    return jarr(v);
}
static str jnum(uint64_t v) { return std::to_string(v); }

static const std::map<str, ExprOp> OPS = {
    {"~", ExprOp::UInvert}, {"neg", ExprOp::UMinus}, {"plus", ExprOp::UPlus}, {"ror", ExprOp::UOr},
    {"!", ExprOp::UNot}, {"rand", ExprOp::UAnd}, {"rxor", ExprOp::UXor}, {"+", ExprOp::Add},
    {"-", ExprOp::Minus}, {"/", ExprOp::Divide}, {"*", ExprOp::Multiply}, {"%", ExprOp::Mod},
    {">>", ExprOp::LogicalShiftRight}, {">>>", ExprOp::SignedShiftRight}, {"<<", ExprOp::ShiftLeft},
    {"|", ExprOp::Or}, {"&", ExprOp::And}, {"^", ExprOp::Xor}, {"**", ExprOp::Power},
    {"&&", ExprOp::LAnd}, {"||", ExprOp::LOr}, {"<", ExprOp::LessThan}, {">", ExprOp::GreaterThan},
    {"<=", ExprOp::LessEqThan}, {">=", ExprOp::GreaterEqThan}, {"==", ExprOp::Eq},
    {"!=", ExprOp::Neq}, {"?", ExprOp::Conditional}, {"cat", ExprOp::Concat},
    {"ext", ExprOp::Extend}, {"dup", ExprOp::Duplicate}};
static str op_name(ExprOp op) {
    for (auto const &[k, v] : OPS)
        if (v == op) return k;
    return "op" + std::to_string((int)op);
}
static const char *ptype(PortType t) {
    switch (t) {
        case PortType::Data: return "data";
        case PortType::Clock: return "clk";
        case PortType::AsyncReset: return "arst";
        case PortType::Reset: return "rst";
        case PortType::ClockEnable: return "clken";
    }
    return "?";
}
static PortType ptype_of(const str &s) {
    if (s == "clk") return PortType::Clock;
    if (s == "arst") return PortType::AsyncReset;
    if (s == "rst") return PortType::Reset;
    if (s == "clken") return PortType::ClockEnable;
    return PortType::Data;
}
static const char *pdir(PortDirection d) {
    return d == PortDirection::In ? "in" : d == PortDirection::Out ? "out" : "inout";
}
static PortDirection pdir_of(const str &s) {
    return s == "in" ? PortDirection::In : s == "out" ? PortDirection::Out : PortDirection::InOut;
}

// ------------------------------------------------------------- interpreter
struct Case {
    str id;
    shared_ptr<Context> ctx = std::make_shared<Context>();
    std::map<str, shared_ptr<Context>> ctxs;
    std::map<str, Generator *> gens;
    std::map<str, shared_ptr<Generator>> keep;
    std::map<str, shared_ptr<Stmt>> stmts;
    std::map<str, shared_ptr<Var>> exprs;
    std::map<str, shared_ptr<PackedStruct>> structs;
    std::map<str, shared_ptr<Enum>> enums;
    bool latekinds = false;  // kinds written in the script are set when the design is complete
    vector<std::pair<shared_ptr<AssignStmt>, AssignmentType>> late;
    std::map<str, FSM *> fsms;
    std::map<str, shared_ptr<PortBundleDefinition>> bundles;
    std::map<str, shared_ptr<IDefinition>> idefs;
    std::map<str, shared_ptr<InterfaceRef>> irefs;
    std::map<str, shared_ptr<Simulator>> sims;
    std::map<str, std::map<str, shared_ptr<IterVar>>> iters_;
    std::map<str, shared_ptr<IterVar>> iters;
    std::map<str, shared_ptr<FunctionStmtBlock>> funcs;
    std::map<str, shared_ptr<asic::SinglePortSRAM>> srams;
    std::map<str, shared_ptr<Event>> events;
    std::map<const Stmt *, str> stmt_handles;
    std::map<str, shared_ptr<PassManager>> pms;
    Generator *cur = nullptr;
    Generator *dump_top = nullptr;
    int cmd = 0;
    str out;
    bool strict = false;

    void emit(const str &ev, const str &rest) {
        out += "{\"case\":" + jstr(id) + ",\"cmd\":" + std::to_string(cmd) + ",\"ev\":" + jstr(ev) +
               (rest.empty() ? "" : "," + rest) + "}\n";
        if (out.size() > (1u << 14)) flush();
    }
    void flush() {
        size_t off = 0;
        while (off < out.size()) {
            ssize_t n = write(1, out.data() + off, out.size() - off);
            if (n <= 0) _exit(3);
            off += n;
        }
        out.clear();
    }

    Generator *gen(const SX &x) {
        auto it = gens.find(x.s);
        if (it == gens.end()) throw std::logic_error("driver: no generator " + x.s);
        return it->second;
    }
    static int64_t num(const SX &x) {
        if (x.s.size() > 2 && x.s[0] == '0' && x.s[1] == 'x') return (int64_t)std::stoull(x.s, nullptr, 16);
        return std::stoll(x.s);
    }
    static uint64_t unum(const SX &x) {
        if (x.s.size() > 2 && x.s[0] == '0' && x.s[1] == 'x') return std::stoull(x.s, nullptr, 16);
        if (!x.s.empty() && x.s[0] == '-') return (uint64_t)std::stoll(x.s);
        return std::stoull(x.s);
    }

    // variable reference: [genhandle:]path/to/name
    shared_ptr<Var> ref(const str &sym, Generator *g) {
        auto e = exprs.find(sym);
        if (e != exprs.end()) return e->second;
        if (!sym.empty() && sym[0] == '%') {
            auto i = iters.find(sym.substr(1));
            if (i == iters.end()) throw std::logic_error("driver: no iter " + sym);
            return i->second;
        }
        str n = sym;
        auto c = n.find(':');
        if (c != str::npos) {
            auto it = gens.find(n.substr(0, c));
            if (it == gens.end()) throw std::logic_error("driver: no generator " + sym);
            g = it->second;
            n = n.substr(c + 1);
        }
        for (auto s = n.find('/'); s != str::npos; s = n.find('/')) {
            g = g->get_child_generator(n.substr(0, s));
            if (!g) throw std::logic_error("driver: no child " + sym);
            n = n.substr(s + 1);
        }
        auto dot = n.find('.');
        if (dot != str::npos) {
            auto base = n.substr(0, dot);
            auto iref = irefs.find(base);
            if (iref != irefs.end()) {
                auto m = n.substr(dot + 1);
                if (iref->second->has_port(m)) return iref->second->port(m).shared_from_this();
                return iref->second->var(m).shared_from_this();
            }
            if (g->has_port_bundle(base)) return g->get_bundle_ref(base)->get_port(n.substr(dot + 1)).shared_from_this();
        }
        auto v = g->get_var(n);
        if (!v) {
            auto p = g->get_params().find(n);
            if (p != g->get_params().end()) return p->second;
            throw std::logic_error("driver: no var " + sym + " in " + g->name);
        }
        return v;
    }
    shared_ptr<Var> ex(const SX &x, Generator *g) {
        if (x.atom) return ref(x.s, g);
        auto const &h = x.head();
        auto a = [&](size_t i) { return ex(x[i], g); };
        if (h == "c") return Const::constant(num(x[1]), (uint32_t)unum(x[2]), x.size() > 3 && x[3].s == "s").shared_from_this();
        if (h == "cg") {  // constant owned by nobody in particular, fresh object
            return std::make_shared<Const>(g, num(x[1]), (uint32_t)unum(x[2]), x.size() > 3 && x[3].s == "s");
        }
        if (h == "big") return Const::constant(x[1].s, (uint32_t)unum(x[2]), x[3].s == "1", (uint32_t)unum(x[4]), x[5].s == "s").shared_from_this();
        if (h == "str") return Const::constant(x[1].s, (uint32_t)unum(x[2])).shared_from_this();
        if (h == "sl") return (*a(1))[std::make_pair((uint32_t)unum(x[2]), (uint32_t)unum(x[3]))].shared_from_this();
        if (h == "ix") return (*a(1))[(uint32_t)unum(x[2])].shared_from_this();
        if (h == "vx") return (*a(1))[a(2)].shared_from_this();
        if (h == "fld") {
            auto v = a(1);
            if (auto *p = dynamic_cast<PortPackedStruct *>(v.get())) return (*p)[x[2].s].shared_from_this();
            if (auto *p = dynamic_cast<VarPackedStruct *>(v.get())) return (*p)[x[2].s].shared_from_this();
            if (auto *p = dynamic_cast<PackedSlice *>(v.get())) return p->slice_member(x[2].s).shared_from_this();
            if (auto *p = dynamic_cast<VarSlice *>(v.get())) return (*p)[x[2].s].shared_from_this();
            throw std::logic_error("driver: fld of non-struct");
        }
        if (h == "cat") {
            auto v = a(1);
            for (size_t i = 2; i < x.size(); i++) v = v->concat(*a(i)).shared_from_this();
            return v;
        }
        if (h == "ext") return a(1)->extend((uint32_t)unum(x[2])).shared_from_this();
        if (h == "dup") return a(1)->duplicate((uint32_t)unum(x[2])).shared_from_this();
        if (h == "dupc") return a(1)->duplicate(a(2)->as<Const>()).shared_from_this();
        if (h == "cast") {
            static const std::map<str, VarCastType> CT = {
                {"signed", VarCastType::Signed}, {"unsigned", VarCastType::Unsigned},
                {"clk", VarCastType::Clock}, {"arst", VarCastType::AsyncReset},
                {"clken", VarCastType::ClockEnable}, {"rst", VarCastType::Reset},
                {"enum", VarCastType::Enum}, {"resize", VarCastType::Resize}};
            auto r = a(1)->cast(CT.at(x[2].s));
            if (x[2].s == "resize") r->as<VarCasted>()->set_target_width((uint32_t)unum(x[3]));
            if (x[2].s == "enum") r->as<VarCasted>()->set_enum_type(enums.at(x[3].s).get());
            return r;
        }
        if (h == "enumc") return enums.at(x[1].s)->get_enum(x[2].s);
        if (h == "call") {
            auto f = g->get_function(x[1].s);
            std::map<str, shared_ptr<Var>> m;
            if (x.size() > 2 && !x[2].atom && x[2].head() == "args") {
                vector<shared_ptr<Var>> v;
                for (size_t i = 1; i < x[2].size(); i++) v.push_back(ex(x[2][i], g));
                return g->call(x[1].s, v).shared_from_this();
            }
            for (size_t i = 2; i < x.size(); i++) m[x[i][0].s] = ex(x[i][1], g);
            return g->call(x[1].s, m).shared_from_this();
        }
        if (h == "?") {
            auto c = a(1), l = a(2), r = a(3);
            return util::mux(*c, *l, *r);
        }
        if (h == "expr") {  // raw Generator::expr
            auto l = a(2);
            auto r = x.size() > 3 ? a(3) : nullptr;
            return g->expr(OPS.at(x[1].s), l.get(), r.get()).shared_from_this();
        }
        if (x.size() == 2) {
            auto v = a(1);
            if (h == "~") return (~*v).shared_from_this();
            if (h == "neg") return (-*v).shared_from_this();
            if (h == "plus") return (+*v).shared_from_this();
            if (h == "ror") return v->r_or().shared_from_this();
            if (h == "rand") return v->r_and().shared_from_this();
            if (h == "rxor") return v->r_xor().shared_from_this();
            if (h == "!") return v->r_not().shared_from_this();
        }
        if (x.size() == 3) {
            auto l = a(1), r = a(2);
            if (h == "+") return (*l + *r).shared_from_this();
            if (h == "-") return (*l - *r).shared_from_this();
            if (h == "*") return (*l * *r).shared_from_this();
            if (h == "%") return (*l % *r).shared_from_this();
            if (h == "/") return (*l / *r).shared_from_this();
            if (h == ">>") return (*l >> *r).shared_from_this();
            if (h == "<<") return (*l << *r).shared_from_this();
            if (h == ">>>") return l->ashr(*r).shared_from_this();
            if (h == "|") return (*l | *r).shared_from_this();
            if (h == "&") return (*l & *r).shared_from_this();
            if (h == "^") return (*l ^ *r).shared_from_this();
            if (h == "<") return (*l < *r).shared_from_this();
            if (h == ">") return (*l > *r).shared_from_this();
            if (h == "<=") return (*l <= *r).shared_from_this();
            if (h == ">=") return (*l >= *r).shared_from_this();
            if (h == "==") return l->eq(*r).shared_from_this();
            if (h == "!=") return (*l != *r).shared_from_this();
            if (h == "&&") return (*l && *r).shared_from_this();
            if (h == "||") return (*l || *r).shared_from_this();
            if (h == "**") return l->pow(*r).shared_from_this();
        }
        throw std::logic_error("driver: bad expr " + h);
    }

    shared_ptr<Stmt> st(const SX &x, Generator *g) {
        if (x.atom) {
            auto it = stmts.find(x.s);
            if (it == stmts.end()) throw std::logic_error("driver: no stmt " + x.s);
            return it->second;
        }
        auto const &h = x.head();
        if (h == "=" || h == "=b" || h == "=n") {
            auto l = ex(x[1], g);
            auto r = ex(x[2], g);
            if (h == "=") return l->assign(r);
            {
                auto k = h == "=b" ? AssignmentType::Blocking : AssignmentType::NonBlocking;
                if (!latekinds) return l->assign(r, k);
                auto st = l->assign(r);
                late.emplace_back(st, k);
                return st;
            }
        }
        if (h == "if") {
            auto s = std::make_shared<IfStmt>(ex(x[1], g));
            for (auto const &y : x[2].l) s->add_then_stmt(st(y, g));
            if (x.size() > 3)
                for (auto const &y : x[3].l) s->add_else_stmt(st(y, g));
            return s;
        }
        if (h == "switch") {
            auto s = std::make_shared<SwitchStmt>(ex(x[1], g));
            for (size_t i = 2; i < x.size(); i++) {
                vector<shared_ptr<Stmt>> b;
                auto const &cs = x[i];
                shared_ptr<Const> c;
                if (!(cs[0].atom && cs[0].s == "default")) c = ex(cs[0], g)->as<Const>();
                for (size_t j = 1; j < cs.size(); j++) b.push_back(st(cs[j], g));
                s->add_switch_case(c, b);
            }
            return s;
        }
        if (h == "for") {
            auto f = std::make_shared<ForStmt>(x[1].s, num(x[2]), num(x[3]), num(x[4]));
            auto it = f->get_iter_var();
            it->set_generator(g);
            auto old = iters;
            iters[x[1].s] = it;
            for (size_t i = 5; i < x.size(); i++) f->add_stmt(st(x[i], g));
            iters = old;
            return f;
        }
        if (h == "comb" || h == "initial" || h == "final" || h == "latch" || h == "gcomb") {
            shared_ptr<StmtBlock> b;
            if (h == "comb" || h == "gcomb") {
                auto cb = std::make_shared<CombinationalStmtBlock>();
                if (h == "gcomb") cb->set_general_purpose(true);
                b = cb;
            } else if (h == "initial")
                b = std::make_shared<InitialStmtBlock>();
            else if (h == "final")
                b = std::make_shared<FinalStmtBlock>();
            else
                b = std::make_shared<LatchStmtBlock>();
            b->set_parent(g);
            for (size_t i = 1; i < x.size(); i++) b->add_stmt(st(x[i], g));
            return b;
        }
        if (h == "seq") {
            auto b = std::make_shared<SequentialStmtBlock>();
            for (auto const &c : x[1].l)
                b->add_condition({c[0].s == "pos" ? EventEdgeType::Posedge : EventEdgeType::Negedge, ex(c[1], g)});
            b->set_parent(g);
            for (size_t i = 2; i < x.size(); i++) b->add_stmt(st(x[i], g));
            return b;
        }
        if (h == "scope") {
            auto b = std::make_shared<ScopedStmtBlock>();
            for (size_t i = 1; i < x.size(); i++) b->add_stmt(st(x[i], g));
            return b;
        }
        if (h == "callstmt") {
            auto v = ex(x[1], g);
            return std::make_shared<FunctionCallStmt>(v->as<FunctionCallVar>());
        }
        if (h == "break") return std::make_shared<BreakStmt>();
        if (h == "comment") return std::make_shared<CommentStmt>(x[1].s, x.size() > 2 ? (uint32_t)unum(x[2]) : 100);
        if (h == "raw") return std::make_shared<RawStringStmt>(x[1].s);
        if (h == "event") {
            std::map<str, shared_ptr<Var>> m;
            auto e = std::make_shared<Event>(x[1].s);
            for (auto const &f : x[2].l) m[f[0].s] = ex(f[1], g);
            auto s = e->fire(m);
            for (size_t i = 3; i < x.size(); i++) {
                auto const &o = x[i];
                if (o[0].s == "starts") s = o.size() > 1 ? s->starts(o[1].s) : s->starts();
                else if (o[0].s == "terminates") s = o.size() > 1 ? s->terminates(o[1].s) : s->terminates();
                else if (o[0].s == "belongs") s = s->belongs(o[1].s);
                else if (o[0].s == "matches") s = s->matches(o[1].s, ex(o[2], g));
            }
            return s;
        }
        if (h == "def") {  // (def handle stmt): names a nested statement
            auto s = st(x[2], g);
            stmts[x[1].s] = s;
            stmt_handles[s.get()] = x[1].s;
            return s;
        }
        throw std::logic_error("driver: bad stmt " + h);
    }

    // --------------------------------------------------------------- dumping
    str path_of(const Generator *g) {
        vector<str> p;
        while (g && g != dump_top) {
            p.push_back(g->instance_name);
            g = g->parent_generator();
            if (p.size() > 64) break;
        }
        if (!g) return "!" + (p.empty() ? str("?") : p.back());
        str r;
        for (auto it = p.rbegin(); it != p.rend(); it++) r += *it + ".";
        return r;
    }
    std::unordered_set<const FunctionStmtBlock *> seen_func;
    str vw(Var *v) {
        uint32_t w = v->width();
        str r = ",\"w\":" + jnum(w) + ",\"sg\":" + (v->is_signed() ? "true" : "false");
        return r;
    }
    str sizes(Var *v) {
        vector<str> d;
        for (auto x : v->size()) d.push_back(jnum(x));
        return jarr(d);
    }
    str var(Var *v) {
        if (!v) return "{\"t\":\"null\"}";
        if (auto *x = dynamic_cast<VarCasted *>(v)) {
            static const char *N[] = {"signed", "unsigned", "clk", "arst", "clken", "rst", "enum", "resize"};
            return "{\"t\":\"cast\",\"ct\":" + jstr(N[(int)x->cast_type()]) + ",\"p\":" + var(x->parent_var()) + vw(v) + "}";
        }
        if (auto *x = dynamic_cast<VarVarSlice *>(v))
            return "{\"t\":\"vx\",\"p\":" + var(x->parent_var) + ",\"i\":" + var(x->sliced_var()) +
                   ",\"size\":" + sizes(v) + ",\"ew\":" + jnum(v->var_width()) + vw(v) + "}";
        if (auto *x = dynamic_cast<PackedSlice *>(v)) {
            if (x->def())
                return "{\"t\":\"fld\",\"p\":" + var(x->parent_var) + ",\"m\":" + jstr(x->def()->name) +
                       ",\"vh\":" + jnum(v->var_high()) + ",\"vl\":" + jnum(v->var_low()) + vw(v) + "}";
            return var(x->parent_var);
        }
        if (auto *x = dynamic_cast<VarSlice *>(v))
            return "{\"t\":\"sl\",\"p\":" + var(x->parent_var) + ",\"h\":" + jnum(x->high) + ",\"l\":" + jnum(x->low) +
                   ",\"vh\":" + jnum(v->var_high()) + ",\"vl\":" + jnum(v->var_low()) + ",\"size\":" + sizes(v) +
                   ",\"ew\":" + jnum(v->var_width()) + vw(v) + "}";
        if (auto *x = dynamic_cast<Param *>(v)) {
            return "{\"t\":\"param\",\"n\":" + jstr(path_of(x->Var::generator()) + x->parameter_name()) + ",\"v\":" + jstr(std::to_string(x->value())) + vw(v) + "}";
        }
        if (auto *x = dynamic_cast<EnumConst *>(v))
            return "{\"t\":\"c\",\"v\":" + jstr(std::to_string(x->value())) + ",\"en\":" + jstr(x->to_string()) + vw(v) + "}";
        if (auto *x = dynamic_cast<Const *>(v)) {
            return "{\"t\":\"c\",\"v\":" + jstr(std::to_string(x->value())) + ",\"s\":" + jstr(x->to_string()) + vw(v) + "}";
        }
        if (auto *x = dynamic_cast<ConditionalExpr *>(v))
            return "{\"t\":\"o\",\"op\":\"?\",\"a\":[" + var(x->condition) + "," + var(x->left) + "," + var(x->right) + "]" + vw(v) + "}";
        if (auto *x = dynamic_cast<VarConcat *>(v)) {
            vector<str> a;
            for (auto *y : x->vars()) a.push_back(var(y));
            return "{\"t\":\"cat\",\"a\":" + jarr(a) + vw(v) + "}";
        }
        if (auto *x = dynamic_cast<VarExtend *>(v)) return "{\"t\":\"ext\",\"p\":" + var(x->parent_var()) + vw(v) + "}";
        if (auto *x = dynamic_cast<VarDuplicated *>(v))
            return "{\"t\":\"dup\",\"p\":" + var(x->left) + ",\"c\":" + var(x->right) + vw(v) + "}";
        if (auto *x = dynamic_cast<Expr *>(v)) {
            return "{\"t\":\"o\",\"op\":" + jstr(op_name(x->op)) + ",\"a\":[" + var(x->left) + (x->right ? "," + var(x->right) : "") + "]" + vw(v) + "}";
        }
        if (auto *x = dynamic_cast<FunctionCallVar *>(v)) {
            vector<str> a;
            for (auto const &[n, y] : x->args()) a.push_back("{\"n\":" + jstr(n) + ",\"e\":" + var(y.get()) + "}");
            return "{\"t\":\"call\",\"f\":" + jstr(x->func()->function_name()) + ",\"a\":" + jarr(a) + vw(v) + "}";
        }
        if (auto *x = dynamic_cast<IterVar *>(v)) return "{\"t\":\"it\",\"n\":" + jstr(x->name) + vw(v) + "}";
        return "{\"t\":\"v\",\"n\":" + jstr(path_of(v->generator()) + v->name) + vw(v) + "}";
    }
    str sid(const Stmt *s) {
        auto it = stmt_handles.find(s);
        return it == stmt_handles.end() ? "" : ",\"h\":" + jstr(it->second);
    }
    template <class B>
    str block(B &b) {
        vector<str> v;
        for (auto const &s : b) v.push_back(stmt(s.get()));
        return jarr(v);
    }
    str ports_of(InstantiationStmt *m) {
        vector<str> v;
        for (auto const &[p, e] : m->port_mapping())
            v.push_back("{\"p\":" + jstr(p->base_name()) + ",\"d\":" + jstr(pdir(p->port_direction())) + ",\"pv\":" + var(p) + ",\"e\":" + var(e) + "}");
        return jarr(v);
    }
    str stmt(Stmt *s) {
        if (!s) return "{\"t\":\"null\"}";
        switch (s->type()) {
            case StatementType::Assign: {
                auto *a = dynamic_cast<AssignStmt *>(s);
                const char *k = a->assign_type() == AssignmentType::Blocking ? "b" : a->assign_type() == AssignmentType::NonBlocking ? "n" : "u";
                return str("{\"t\":\"as\",\"k\":\"") + k + "\",\"l\":" + var(a->left()) + ",\"r\":" + var(a->right()) + ",\"n\":" + as_num(a) + sid(s) + "}";
            }
            case StatementType::If: {
                auto *i = dynamic_cast<IfStmt *>(s);
                return "{\"t\":\"if\",\"c\":" + var(i->predicate().get()) + ",\"th\":" + (i->then_body() ? block(*i->then_body()) : "[]") +
                       ",\"el\":" + (i->else_body() ? block(*i->else_body()) : "[]") + ",\"n\":" + as_num(s) + sid(s) + "}";
            }
            case StatementType::Switch: {
                auto *w = dynamic_cast<SwitchStmt *>(s);
                vector<str> cs;
                str d = "[]";
                bool hd = false;
                std::vector<std::pair<std::shared_ptr<Const>, std::shared_ptr<ScopedStmtBlock>>> ordered(w->body().begin(), w->body().end());
                std::stable_sort(ordered.begin(), ordered.end(), [](auto const &x, auto const &y) { return (x.first ? x.first->value() : INT64_MIN) < (y.first ? y.first->value() : INT64_MIN); });
                for (auto const &[c, b] : ordered) {
                    if (c)
                        cs.push_back("{\"v\":" + var(c.get()) + ",\"b\":" + block(*b) + "}");
                    else {
                        d = block(*b);
                        hd = true;
                    }
                }
                std::sort(cs.begin(), cs.end());
                str en;
                if (auto *ev = dynamic_cast<EnumType *>(w->target().get()))
                    if (ev->enum_type()) {
                        vector<str> vs;
                        for (auto const &[n, c] : ev->enum_type()->values) vs.push_back(std::to_string(c->value()));
                        en = ",\"en\":" + jarr(vs);
                    }
                return "{\"t\":\"sw\",\"c\":" + var(w->target().get()) + ",\"cs\":" + jarr(cs) + ",\"d\":" + d + en + ",\"hd\":" + (hd ? "true" : "false") + ",\"n\":" + as_num(s) + sid(s) + "}";
            }
            case StatementType::For: {
                auto *f = dynamic_cast<ForStmt *>(s);
                return "{\"t\":\"for\",\"n\":" + jstr(f->get_iter_var()->name) + ",\"b\":" + block(*f->get_loop_body()) + ",\"st\":" + std::to_string(f->start()) +
                       ",\"en\":" + std::to_string(f->end()) + ",\"inc\":" + std::to_string(f->step()) + vw(f->get_iter_var().get()) + sid(s) + "}";
            }
            case StatementType::Block: {
                auto *b = dynamic_cast<StmtBlock *>(s);
                switch (b->block_type()) {
                    case StatementBlockType::Combinational:
                        return "{\"t\":\"comb\",\"b\":" + block(*b) + sid(s) + "}";
                    case StatementBlockType::Sequential: {
                        auto *q = dynamic_cast<SequentialStmtBlock *>(s);
                        vector<str> e;
                        for (auto const &c : q->get_event_controls())
                            e.push_back(str("{\"e\":\"") + (c.edge == EventEdgeType::Posedge ? "pos" : "neg") + "\",\"v\":" + var(c.var) + "}");
                        vector<str> at;
                        for (auto const &a : s->get_attributes()) at.push_back(jstr(a->value_str));
                        return "{\"t\":\"seq\",\"ev\":" + jarr(e) + ",\"b\":" + block(*b) + (at.empty() ? str("") : ",\"at\":" + jarr(at)) + sid(s) + "}";
                    }
                    case StatementBlockType::Scope: return "{\"t\":\"scope\",\"b\":" + block(*b) + sid(s) + "}";
                    case StatementBlockType::Function: return "{\"t\":\"func\"}";
                    case StatementBlockType::Initial: return "{\"t\":\"initial\",\"b\":" + block(*b) + sid(s) + "}";
                    case StatementBlockType::Latch: return "{\"t\":\"latch\",\"b\":" + block(*b) + sid(s) + "}";
                    case StatementBlockType::Final: return "{\"t\":\"final\",\"b\":" + block(*b) + sid(s) + "}";
                }
                return "{\"t\":\"?\"}";
            }
            case StatementType::ModuleInstantiation: {
                auto *m = dynamic_cast<ModuleInstantiationStmt *>(s);
                return "{\"t\":\"inst\",\"i\":" + jstr(m->target()->instance_name) + ",\"m\":" + jstr(m->target()->name) + ",\"p\":" + ports_of(m) + sid(s) + "}";
            }
            case StatementType::InterfaceInstantiation: {
                auto *m = dynamic_cast<InterfaceInstantiationStmt *>(s);
                return "{\"t\":\"iinst\",\"i\":" + jstr(m->interface()->name()) + ",\"p\":" + ports_of(m) + sid(s) + "}";
            }
            case StatementType::FunctionalCall: {
                auto *f = dynamic_cast<FunctionCallStmt *>(s);
                return "{\"t\":\"call\",\"e\":" + var(f->var().get()) + sid(s) + "}";
            }
            case StatementType::Return: {
                auto *f = dynamic_cast<ReturnStmt *>(s);
                return "{\"t\":\"ret\",\"e\":" + var(f->value().get()) + sid(s) + "}";
            }
            case StatementType::Break: return "{\"t\":\"break\"" + sid(s) + "}";
            case StatementType::Assert: return "{\"t\":\"assert\"}";
            case StatementType::Comment: return "{\"t\":\"comment\"}";
            case StatementType::RawString: return "{\"t\":\"raw\"" + sid(s) + "}";
            case StatementType::Auxiliary: return "{\"t\":\"aux\"" + sid(s) + "}";
        }
        return "{\"t\":\"?\"}";
    }
    str vardef(Var *v, bool isport) {
        str r = "{\"n\":" + jstr(v->name) + ",\"w\":" + jnum(v->var_width()) + ",\"size\":" + sizes(v) + ",\"tw\":" + jnum(v->width()) + ",\"sg\":" + (v->is_signed() ? "true" : "false");
        if (v->explicit_array()) r += ",\"xa\":true";
        if (!v->is_packed()) r += ",\"up\":true";
        if (v->type() == VarType::Parameter || v->type() == VarType::ConstValue) r += ",\"prm\":true";
        if (auto *p = dynamic_cast<Port *>(v)) r += str(",\"dir\":\"") + pdir(p->port_direction()) + "\",\"pt\":\"" + ptype(p->port_type()) + "\"";
        if (auto *p = dynamic_cast<EnumType *>(v))
            if (p->enum_type()) r += ",\"enum\":" + jstr(p->enum_type()->name);
        if (auto *p = dynamic_cast<PackedInterface *>(v))
            if (p->packed_struct()) r += ",\"st\":" + structdef(p->packed_struct().get());
        if (v->width_param()) r += ",\"wp\":" + var(v->width_param());
        return r + "}";
    }
    str structdef(const PackedStruct *s) {
        vector<str> a;
        for (auto const &d : s->attributes)
            a.push_back("{\"n\":" + jstr(d.name) + ",\"w\":" + jnum(d.bitwidth()) + ",\"sg\":" + (d.signed_ ? "true" : "false") +
                        (d.struct_ ? ",\"st\":" + structdef(d.struct_) : str("")) + "}");
        return "{\"n\":" + jstr(s->struct_name) + ",\"a\":" + jarr(a) + "}";
    }
    void dump_gen(Generator *g, vector<str> &outv, int depth) {
        if (depth > 20) return;
        vector<str> vars, prms, sts, chs, fns;
        for (auto const &[n, v] : g->vars()) {
            if (g->get_params().count(n)) continue;
            vars.push_back(vardef(v.get(), g->has_port(n)));
        }
        for (auto const &[n, p] : g->get_params())
            prms.push_back("{\"n\":" + jstr(n) + ",\"w\":" + jnum(p->width()) + ",\"sg\":" + (p->is_signed() ? "true" : "false") + ",\"v\":" + jstr(std::to_string(p->value())) +
                           (p->get_initial_value() ? ",\"iv\":" + jstr(std::to_string(*p->get_initial_value())) : "") + "}");
        for (uint64_t i = 0; i < g->stmts_count(); i++) sts.push_back(stmt(g->get_stmt(i).get()));
        {
            // direct connections of the instances, which are no longer statements once decoupled
            std::set<const IRNode *> seen;
            std::function<void(IRNode *)> walk = [&](IRNode *n) {
                if (!n || n->ir_node_kind() != IRNodeKind::StmtKind || !seen.insert(n).second) return;
                auto t = reinterpret_cast<Stmt *>(n)->type();
                if (t == StatementType::Assign || t == StatementType::ModuleInstantiation || t == StatementType::InterfaceInstantiation) return;
                for (uint64_t i = 0; i < n->child_count(); i++) walk(n->get_child(i));
            };
            for (uint64_t i = 0; i < g->stmts_count(); i++) walk(g->get_stmt(i).get());
            for (auto const &c : g->get_child_generators())
                for (auto const &n : c->get_port_names()) {
                    auto p = c->get_port(n);
                    for (auto const &s : p->port_direction() == PortDirection::In ? p->sources() : p->sinks())
                        if (s->parent() && s->generator_parent() == g && !seen.count(s.get()) && (p->port_direction() == PortDirection::In ? s->left() : s->right()) == p.get() &&
                            s->parent()->ir_node_kind() == IRNodeKind::GeneratorKind)
                            sts.push_back(stmt(s.get()));
                }
        }
        for (auto const &c : g->get_child_generators()) chs.push_back(jstr(c->instance_name));
        for (auto const &[n, f] : g->functions()) {
            vector<str> ps;
            for (auto const &[pn, p] : f->ports()) ps.push_back("{\"n\":" + jstr(pn) + ",\"w\":" + jnum(p->width()) + ",\"sg\":" + (p->is_signed() ? "true" : "false") + ",\"o\":" + std::to_string(f->port_ordering().count(pn) ? f->port_ordering().at(pn) : 9999) + "}");
            uint32_t rw = 0;
            bool rs = false;
            if (f->function_handler()) {
                rw = f->function_handler()->width();
                rs = f->function_handler()->is_signed();
            }
            fns.push_back("{\"n\":" + jstr(n) + ",\"p\":" + jarr(ps) + ",\"b\":" + block(*f) + ",\"rw\":" + jnum(rw) + ",\"rs\":" + (rs ? "true" : "false") + ",\"bi\":" + (f->is_builtin() ? "true" : "false") + "}");
        }
        vector<str> ats;
        for (auto const &a : g->get_attributes()) ats.push_back("[" + jstr(a->type_str) + "," + jstr(a->value_str) + "]");
        vector<str> pn(g->get_port_names().begin(), g->get_port_names().end());
        outv.push_back("{\"path\":" + jstr(path_of(g)) + ",\"name\":" + jstr(g->name) + ",\"ports\":" + jstrs(pn) + ",\"vars\":" + jarr(vars) + ",\"params\":" + jarr(prms) + ",\"stmts\":" + jarr(sts) +
                       ",\"ch\":" + jarr(chs) + ",\"fn\":" + jarr(fns) + ",\"ext\":" + (g->external() ? "true" : "false") + ",\"stub\":" + (g->is_stub() ? "true" : "false") + ",\"attrs\":" + jarr(ats) +
                       ",\"cloned\":" + (g->is_cloned() ? "true" : "false") + (g->is_cloned() && g->def_instance() ? ",\"def\":" + jstr(path_of(g->def_instance())) : "") + "}");
        for (auto const &c : g->get_child_generators()) dump_gen(c.get(), outv, depth + 1);
    }
    str dump(Generator *top) {
        dump_top = top;
        vector<str> v;
        dump_gen(top, v, 0);
        return jarr(v);
    }

    // ------------------------------------------------------ book-keeping dump
    // canonical printable id of an assignment
    str as_num(Stmt *a) {
        if (!as_keep.count(a)) as_keep[a] = {a->shared_from_this(), as_keep.size() + 1};
        return jnum(as_keep.at(a).second);
    }
    // the objects are kept so that a number is never used twice
    std::map<const Stmt *, std::pair<shared_ptr<Stmt>, size_t>> as_keep;
    str as_id(AssignStmt *a) {
        auto it = stmt_handles.find(a);
        if (it != stmt_handles.end()) return it->second;
        return a->left()->to_string() + "=" + a->right()->to_string();
    }

#include "kdrv_cmds.inc"

    void run(const vector<SX> &cmds) {
        for (auto const &c : cmds) {
            cmd++;
            try {
                command(c);
            } catch (std::logic_error &e) {
                // driver misuse is reported apart from library exceptions; std::out_of_range etc.
                // thrown by the library are logic_errors as well
                emit(str(e.what()).rfind("driver:", 0) == 0 ? "drverr" : "err", "\"msg\":" + jstr(e.what()) + ",\"c\":" + jstr(c.head()));
                if (strict) break;
            } catch (std::exception &e) {
                emit("err", "\"msg\":" + jstr(e.what()) + ",\"c\":" + jstr(c.head()));
                if (strict) break;
            }
        }
        emit("end", "");
        flush();
    }
};

int main(int argc, char **argv) {
    std::ifstream f(argv[1]);
    std::stringstream ss;
    ss << f.rdbuf();
    str text = ss.str();
    const char *p = text.c_str();
    bool nofork = argc > 2 && str(argv[2]) == "nofork";
    skip(p);
    while (*p) {
        SX x = parse(p);  // (case ID cmd...)
        skip(p);
        auto body = [&]() {
            auto *c = new Case();
            c->id = x[1].s;
            vector<SX> v(x.l.begin() + 2, x.l.end());
            c->run(v);
        };
        if (nofork) {
            body();
            continue;
        }
        pid_t pid = fork();
        if (pid == 0) {
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            alarm(20);
            // silence library chatter
            if (!freopen("/dev/null", "w", stderr)) _exit(4);
            body();
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
            str l = "{\"case\":" + jstr(x[1].s) + ",\"cmd\":-1,\"ev\":\"crash\",\"sig\":" + std::to_string(sig) + ",\"rc\":" + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1) + "}\n";
            if (write(1, l.data(), l.size()) < 0) return 3;
        }
    }
    return 0;
}
