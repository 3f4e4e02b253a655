// command dispatch (included inside struct Case)
struct Opts {
    vector<uint32_t> dims = {1};
    bool sg = false, up = false, xa = false;
    PortType pt = PortType::Data;
};
Opts opts(const SX &x, size_t from) {
    Opts o;
    for (size_t i = from; i < x.size(); i++) {
        auto const &y = x[i];
        if (!y.atom && y.head() == "dims") {
            o.dims.clear();
            for (size_t j = 1; j < y.size(); j++) o.dims.push_back((uint32_t)unum(y[j]));
        } else if (y.s == "s")
            o.sg = true;
        else if (y.s == "up")
            o.up = true;
        else if (y.s == "xa")
            o.xa = true;
        else
            o.pt = ptype_of(y.s);
    }
    return o;
}
void finish(Var &v, const Opts &o) {
    if (o.up) v.set_is_packed(false);
    if (o.xa) v.set_explicit_array(true);
}
void walk_gens(Generator *g, std::vector<Generator *> &out, int d = 0) {
    if (d > 20) return;
    out.push_back(g);
    for (auto const &c : g->get_child_generators()) walk_gens(c.get(), out, d + 1);
}
// all variables (with their slices) of a generator with their recorded drivers and loads
void books(Generator *top) {
    dump_top = top;
    std::vector<Generator *> gs;
    walk_gens(top, gs);
    for (auto *g : gs) {
        for (auto const &[n, v] : g->vars()) {
            auto pr = [&](const str &nm, Var *w) {
                vector<str> so, si;
                for (auto const &a : w->sources()) so.push_back(jstr(as_id(a.get())));
                for (auto const &a : w->sinks()) si.push_back(jstr(as_id(a.get())));
                std::sort(so.begin(), so.end());
                std::sort(si.begin(), si.end());
                vector<str> sn, kn;
                for (auto const &a : w->sources()) sn.push_back(as_num(a.get()));
                size_t nc = 0;  // those of conditions have no target of their own
                for (auto const &a : w->sinks()) if (a->left()->to_string().empty()) nc++; else kn.push_back(as_num(a.get()));
                emit("book", "\"v\":" + jstr(nm) + ",\"root\":" + (w->get_var_root_parent() == w ? "true" : "false") + ",\"src\":" + jarr(so) + ",\"snk\":" + jarr(si) + ",\"srcn\":" + jarr(sn) + ",\"snkn\":" + jarr(kn) + ",\"nc\":" + jnum(nc));
            };
            std::function<void(Var *)> rec = [&](Var *w) {
                pr(path_of(g) + w->to_string(), w);
                for (auto const &s : w->get_slices()) rec(s.get());
            };
            rec(v.get());
        }
    }
}
str optv(const std::optional<uint64_t> &v) { return v ? jstr(std::to_string(*v)) : str("null"); }
str optvv(const std::optional<vector<uint64_t>> &v) {
    if (!v) return "null";
    vector<str> a;
    for (auto x : *v) a.push_back(jstr(std::to_string(x)));
    return jarr(a);
}
void run_pass(const str &n, Generator *g) {
    if (n == "remove_async_reset") return remove_async_reset(g);
    if (n == "remove_empty_block") return remove_empty_block(g);
    PassManager pm;
    pm.register_builtin_passes();
    pm.add_pass(n);
    pm.run_passes(g);
}
str vmap(const std::map<str, str> &m) {
    vector<str> a;
    for (auto const &[k, v] : m) a.push_back("{\"m\":" + jstr(k) + ",\"s\":" + jstr(v) + "}");
    return jarr(a);
}

void command(const SX &x) {
    auto const &h = x.head();
    if (h == "strict") {
        strict = true;
    } else if (h == "ctx") {
        if (!ctxs.count(x[1].s)) ctxs[x[1].s] = std::make_shared<Context>();
        ctx = ctxs[x[1].s];
    } else if (h == "gen") {
        auto &g = ctx->generator(x.size() > 2 ? x[2].s : x[1].s);
        gens[x[1].s] = cur = &g;
        keep[x[1].s] = g.shared_from_this();
    } else if (h == "obs") {  // (obs handle...): variables and parameters
        vector<str> gs;
        for (size_t i = 1; i < x.size(); i++) {
            auto *g = gen(x[i]);
            dump_top = g;
            vector<str> vs, ps;
            for (auto const &[n, v] : g->vars())
                if (!g->get_params().count(n)) vs.push_back(vardef(v.get(), g->has_port(n)));
            for (auto const &[n, p] : g->get_params())
                ps.push_back("{\"n\":" + jstr(n) + ",\"w\":" + jnum(p->width()) + ",\"sg\":" + (p->is_signed() ? "true" : "false") + ",\"v\":" + std::to_string(p->value()) + "}");
            gs.push_back("{\"h\":" + jstr(x[i].s) + ",\"vars\":" + jarr(vs) + ",\"params\":" + jarr(ps) + "}");
        }
        emit("obs", "\"g\":" + jarr(gs));
    } else if (h == "at") {
        cur = gen(x[1]);
    } else if (h == "port") {
        auto o = opts(x, 4);
        auto &p = cur->port(pdir_of(x[1].s), x[2].s, (uint32_t)unum(x[3]), o.dims, o.pt, o.sg);
        finish(p, o);
    } else if (h == "var") {
        auto o = opts(x, 3);
        auto &v = cur->var(x[1].s, (uint32_t)unum(x[2]), o.dims, o.sg);
        finish(v, o);
    } else if (h == "vars") {  // shorthand size form
        cur->var(x[1].s, (uint32_t)unum(x[2]), (uint32_t)unum(x[3]));
    } else if (h == "varcopy") {
        auto v = ref(x[1].s, cur);
        cur->var(*v, x[2].s);
    } else if (h == "portcopy") {
        auto v = ref(x[1].s, cur);
        auto p = v->as<Port>();
        if (x.size() > 2) cur->port(*p, x[2].s, false); else cur->port(*p, false);
    } else if (h == "param") {
        auto &p = cur->parameter(x[1].s, (uint32_t)unum(x[2]), x.size() > 4 && x[4].s == "s");
        if (x.size() > 3 && x[3].s != "-") p.set_value(num(x[3]));
    } else if (h == "paramlink") {  // (paramlink name srcparam): new parameter from another parameter
        auto v = ref(x[2].s, cur);
        cur->parameter(v->as<Param>(), x[1].s);
    } else if (h == "setparam") {
        ref(x[1].s, cur)->as<Param>()->set_value(num(x[2]));
    } else if (h == "setparamp") {
        ref(x[1].s, cur)->as<Param>()->set_value(ref(x[2].s, cur)->as<Param>());
    } else if (h == "initparam") {
        ref(x[1].s, cur)->as<Param>()->set_initial_value(num(x[2]));
    } else if (h == "widthparam") {
        auto v = ref(x[1].s, cur);
        if (x.size() > 2) v->set_width_param(ex(x[2], cur)); else v->set_width_param(static_cast<Var *>(nullptr));
    } else if (h == "sizeparam") {
        auto v = ref(x[1].s, cur);
        v->set_size_param((uint32_t)unum(x[2]), x.size() > 3 ? ex(x[3], cur).get() : nullptr);
    } else if (h == "struct") {
        vector<std::tuple<str, uint32_t, bool>> a;
        bool nested = false;
        for (size_t i = 2; i < x.size(); i++)
            if (x[i].size() > 1 && x[i][1].s == "st") nested = true;
        auto s = std::make_shared<PackedStruct>(x[1].s);
        for (size_t i = 2; i < x.size(); i++) {
            PackedStructFieldDef d;
            d.name = x[i][0].s;
            d.struct_ = nullptr;
            d.signed_ = false;
            d.width = 0;
            if (x[i][1].s == "st")
                d.struct_ = structs.at(x[i][2].s).get();
            else {
                d.width = (uint32_t)unum(x[i][1]);
                d.signed_ = x[i].size() > 2 && x[i][2].s == "s";
            }
            a.emplace_back(d.name, d.width, d.signed_);
            s->attributes.push_back(d);
        }
        if (!nested) s = std::make_shared<PackedStruct>(x[1].s, a);
        structs[x[1].s] = s;
    } else if (h == "pvar") {
        auto o = opts(x, 3);
        if (o.dims == vector<uint32_t>{1} && !o.xa) cur->var_packed(x[1].s, structs.at(x[2].s));
        else cur->var_packed(x[1].s, structs.at(x[2].s), o.dims);
    } else if (h == "pport") {
        auto o = opts(x, 4);
        if (o.dims == vector<uint32_t>{1}) cur->port_packed(pdir_of(x[1].s), x[2].s, structs.at(x[3].s));
        else cur->port_packed(pdir_of(x[1].s), x[2].s, structs.at(x[3].s), o.dims);
    } else if (h == "enum") {
        std::map<str, uint64_t> m;
        for (size_t i = 3; i < x.size(); i++) m[x[i][0].s] = unum(x[i][1]);
        auto &e = cur->enum_(x[1].s, m, (uint32_t)unum(x[2]));
        enums[x[1].s] = e.shared_from_this();
    } else if (h == "genum") {  // context level
        std::map<str, uint64_t> m;
        for (size_t i = 3; i < x.size(); i++) m[x[i][0].s] = unum(x[i][1]);
        enums[x[1].s] = ctx->enum_(x[1].s, m, (uint32_t)unum(x[2])).shared_from_this();
    } else if (h == "enumvar") {
        cur->enum_var(x[1].s, enums.at(x[2].s));
    } else if (h == "enumport") {
        cur->port(pdir_of(x[1].s), x[2].s, enums.at(x[3].s));
    } else if (h == "child") {
        cur->add_child_generator(x[1].s, keep.at(x[2].s));
    } else if (h == "rmchild") {
        cur->remove_child_generator(keep.at(x[1].s));
    } else if (h == "renchild") {
        cur->rename_child_generator(keep.at(x[1].s), x[2].s);
    } else if (h == "clone") {
        auto c = gen(x[2])->clone();
        keep[x[1].s] = c;
        gens[x[1].s] = c.get();
        if (x.size() > 3) c->instance_name = x[3].s;
    } else if (h == "swapclone") {  // every statement of a generator is replaced by a clone; the originals are changed afterwards
        auto *g = gen(x[1]);
        vector<std::shared_ptr<Stmt>> old;
        for (uint64_t i = 0; i < g->stmts_count(); i++) old.push_back(g->get_stmt(i));
        std::function<void(Stmt *)> spoil = [&](Stmt *s) {
            if (s->type() == StatementType::If) {
                auto *f = reinterpret_cast<IfStmt *>(s);
                spoil(f->then_body().get());
                spoil(f->else_body().get());
            } else if (s->type() == StatementType::Switch) {
                auto *w = reinterpret_cast<SwitchStmt *>(s);
                for (auto const &[c, b] : w->body()) spoil(b.get());
            } else if (s->type() == StatementType::For) {
                spoil(reinterpret_cast<ForStmt *>(s)->get_loop_body().get());
            } else if (s->type() == StatementType::Block) {
                auto *b = reinterpret_cast<StmtBlock *>(s);
                vector<std::shared_ptr<Stmt>> in(b->begin(), b->end());
                for (auto const &i : in) spoil(i.get());
                if (!in.empty()) b->remove_stmt(in.front());
            } else if (s->type() == StatementType::Assign) {
                auto *a = reinterpret_cast<AssignStmt *>(s);
                a->set_assign_type(AssignmentType::Undefined);
                a->set_right(a->left()->shared_from_this());
            }
        };
        for (auto const &s : old) {
            if (s->type() == StatementType::ModuleInstantiation || s->type() == StatementType::InterfaceInstantiation) continue;
            auto c = s->clone();
            g->remove_stmt(s);
            s->clear();
            g->add_stmt(c);
            if (x.size() > 2) spoil(s.get());
        }
    } else if (h == "replace") {
        cur->replace(x[1].s, keep.at(x[2].s));
    } else if (h == "let") {
        exprs[x[1].s] = ex(x[2], cur);
    } else if (h == "ex") {  // report typing of an expression
        auto v = ex(x[2], cur);
        dump_top = cur;
        vector<str> sz;
        for (auto s : v->size()) sz.push_back(jnum(s));
        emit("ex", "\"k\":" + jstr(x[1].s) + ",\"w\":" + jnum(v->width()) + ",\"ew\":" + jnum(v->var_width()) +
                       ",\"size\":" + jarr(sz) + ",\"sg\":" + (v->is_signed() ? "true" : "false") + ",\"pk\":" + (v->is_packed() ? "true" : "false") +
                       ",\"vh\":" + jnum(v->var_high()) + ",\"vl\":" + jnum(v->var_low()) + ",\"s\":" + jstr(v->to_string()) +
                       ",\"e\":" + var(v.get()));
    } else if (h == "def") {
        auto s = st(x[2], cur);
        stmts[x[1].s] = s;
        stmt_handles[s.get()] = x[1].s;
        emit("def", "\"h\":" + jstr(x[1].s));
    } else if (h == "add") {
        for (size_t i = 1; i < x.size(); i++) cur->add_stmt(st(x[i], cur));
    } else if (h == "rm") {
        cur->remove_stmt(st(x[1], cur));
    } else if (h == "rmp") {  // remove from whatever parent it has
        st(x[1], cur)->remove_from_parent();
    } else if (h == "clear") {
        st(x[1], cur)->clear();
    } else if (h == "addto") {  // (addto block stmt...)
        auto b = std::dynamic_pointer_cast<StmtBlock>(st(x[1], cur));
        if (!b) throw std::logic_error("driver: not a block");
        for (size_t i = 2; i < x.size(); i++) b->add_stmt(st(x[i], cur));
    } else if (h == "rmfrom") {
        st(x[1], cur)->remove_stmt(st(x[2], cur));
    } else if (h == "addthen" || h == "addelse" || h == "rmthen" || h == "rmelse") {
        auto i = std::dynamic_pointer_cast<IfStmt>(st(x[1], cur));
        auto s = st(x[2], cur);
        if (h == "addthen") i->add_then_stmt(s);
        if (h == "addelse") i->add_else_stmt(s);
        if (h == "rmthen") i->remove_then_stmt(s);
        if (h == "rmelse") i->remove_else_stmt(s);
    } else if (h == "setpred") {
        std::dynamic_pointer_cast<IfStmt>(st(x[1], cur))->set_predicate(ex(x[2], cur));
    } else if (h == "settarget") {
        std::dynamic_pointer_cast<SwitchStmt>(st(x[1], cur))->set_target(ex(x[2], cur));
    } else if (h == "addcase") {
        auto w = std::dynamic_pointer_cast<SwitchStmt>(st(x[1], cur));
        shared_ptr<Const> c;
        if (x[2].s != "default") c = ex(x[2], cur)->as<Const>();
        w->add_switch_case(c, st(x[3], cur));
    } else if (h == "rmcase") {
        auto w = std::dynamic_pointer_cast<SwitchStmt>(st(x[1], cur));
        shared_ptr<Const> c;
        if (x[2].s != "default") c = ex(x[2], cur)->as<Const>();
        if (x.size() > 3) w->remove_switch_case(c, st(x[3], cur)); else w->remove_switch_case(c);
    } else if (h == "setchild") {
        std::dynamic_pointer_cast<StmtBlock>(st(x[1], cur))->set_child(unum(x[2]), st(x[3], cur));
    } else if (h == "clonestmt") {
        auto s = st(x[2], cur)->clone();
        stmts[x[1].s] = s;
        stmt_handles[s.get()] = x[1].s;
    } else if (h == "wire") {
        auto a = ex(x[1], cur), b = ex(x[2], cur);
        cur->wire(*a, *b);
    } else if (h == "unwire") {
        auto a = ex(x[1], cur), b = ex(x[2], cur);
        cur->unwire(*a, *b);
    } else if (h == "wireports") {
        auto a = std::dynamic_pointer_cast<Port>(ex(x[1], cur)), b = std::dynamic_pointer_cast<Port>(ex(x[2], cur));
        auto s = cur->wire_ports(a, b);
        if (x.size() > 3 && s) cur->add_stmt(s);
    } else if (h == "unassign") {
        auto s = st(x[2], cur);
        ex(x[1], cur)->unassign(s->as<AssignStmt>());
    } else if (h == "rmvar") {
        cur->remove_var(x[1].s);
    } else if (h == "rmport") {
        cur->remove_port(x[1].s);
    } else if (h == "renvar") {
        cur->rename_var(x[1].s, x[2].s);
    } else if (h == "reindex") {
        cur->reindex_vars();
    } else if (h == "movesrc" || h == "movesink") {  // (movesrc a b keep)
        auto a = ex(x[1], cur), b = ex(x[2], cur);
        bool k = x.size() > 3 && x[3].s == "1";
        if (h == "movesrc") Var::move_src_to(a.get(), b.get(), cur, k);
        else Var::move_sink_to(a.get(), b.get(), cur, k);
    } else if (h == "movelinked") {
        ex(x[1], cur)->move_linked_to(ex(x[2], cur).get());
    } else if (h == "uniq") {
        emit("uniq", "\"n\":" + jstr(cur->get_unique_variable_name(x[1].s, x[2].s)));
    } else if (h == "named") {
        cur->add_named_block(x[1].s, std::dynamic_pointer_cast<StmtBlock>(st(x[2], cur)));
    } else if (h == "setconst") {
        auto c = ex(x[1], cur)->as<Const>();
        c->set_value(num(x[2]));
    } else if (h == "setconsts") {
        ex(x[1], cur)->as<Const>()->set_value(x[2].s);
    } else if (h == "names") {  // full name table of a generator
        vector<str> vs, cs, ps;
        for (auto const &[n, v] : cur->vars()) vs.push_back("{\"k\":" + jstr(n) + ",\"n\":" + jstr(v->name) + ",\"w\":" + jnum(v->width()) + ",\"p\":" + (cur->has_port(n) ? "true" : "false") + "}");
        for (auto const &c : cur->get_child_generators()) {
            auto *l = cur->get_child_generator(c->instance_name);
            cs.push_back("{\"i\":" + jstr(c->instance_name) + ",\"same\":" + (l == c.get() ? "true" : "false") + ",\"m\":" + jstr(c->name) + "}");
        }
        for (auto const &n : cur->get_port_names()) ps.push_back(jstr(n));
        emit("names", "\"vars\":" + jarr(vs) + ",\"ch\":" + jarr(cs) + ",\"ports\":" + jarr(ps) + ",\"params\":" + jnum(cur->get_params().size()));
    } else if (h == "hasname") {
        auto v = cur->get_var(x[1].s);
        emit("hasname", str("\"has\":") + (cur->has_var(x[1].s) ? "true" : "false") + ",\"port\":" + (cur->has_port(x[1].s) ? "true" : "false") + ",\"n\":" + (v ? jstr(v->name) : "null") + ",\"w\":" + (v ? jnum(v->width()) : "0"));
    } else if (h == "handle") {
        auto v = ex(x[1], cur);
        emit("handle", "\"s\":" + jstr(v->handle_name()) + ",\"t\":" + jstr(v->handle_name(true)));
    } else if (h == "genname") {
        ctx->change_generator_name(gen(x[1]), x[2].s);
    } else if (h == "ctxnames") {
        vector<str> a;
        for (auto const &n : ctx->get_generator_names()) {
            auto s = ctx->get_generators_by_name(n);
            bool ok = true;
            for (auto const &g : s) ok = ok && g->name == n;
            a.push_back("{\"n\":" + jstr(n) + ",\"c\":" + jnum(s.size()) + ",\"ok\":" + (ok ? "true" : "false") + "}");
        }
        std::sort(a.begin(), a.end());
        emit("ctxnames", "\"a\":" + jarr(a));
    } else if (h == "gnames") {
        vector<str> a;
        for (auto const &[k, g] : gens) a.push_back("{\"h\":" + jstr(k) + ",\"n\":" + jstr(g->name) + "}");
        emit("gnames", "\"a\":" + jarr(a));
    } else if (h == "ctxremove") {
        ctx->remove(gen(x[1]));
    } else if (h == "keyword") {
        emit("keyword", str("\"valid\":") + (is_valid_variable_name(x[1].s) ? "true" : "false"));
    } else if (h == "attr") {  // (attr target type value)
        auto a = std::make_shared<Attribute>();
        a->type_str = x[2].s;
        a->value_str = x[3].s;
        if (gens.count(x[1].s)) gens[x[1].s]->add_attribute(a);
        else if (stmts.count(x[1].s)) stmts[x[1].s]->add_attribute(a);
        else ref(x[1].s, cur)->add_attribute(a);
    } else if (h == "latekinds") {
        latekinds = true;
    } else if (h == "applykinds") {
        for (auto &[st, k] : late) st->set_assign_type(k);
    } else if (h == "external") {
        cur->set_external(true);
    } else if (h == "stub") {
        cur->set_is_stub(true);
    } else if (h == "activehigh") {
        ref(x[1].s, cur)->as<Port>()->set_active_high(x[2].s == "1");
    } else if (h == "func") {  // (func name (inputs (n w s)...) (ret w s) stmts...) ; (retn expr) returns
        auto f = cur->function(x[1].s);
        funcs[x[1].s] = f;
        auto old = exprs;
        for (size_t i = 1; i < x[2].size(); i++)
            exprs["$" + x[2][i][0].s] = f->input(x[2][i][0].s, (uint32_t)unum(x[2][i][1]), x[2][i].size() > 2 && x[2][i][2].s == "s");
        if (x[3].size() > 1) f->create_function_handler((uint32_t)unum(x[3][1]), x[3].size() > 2 && x[3][2].s == "s");
        std::map<str, uint32_t> ord;
        for (size_t i = 1; i < x[2].size(); i++) ord[x[2][i][0].s] = (uint32_t)(i - 1);
        if (!ord.empty()) f->set_port_ordering(ord);
        std::function<shared_ptr<Stmt>(const SX &)> mk = [&](const SX &y) -> shared_ptr<Stmt> {
            if (y.head() == "retn") return f->return_stmt(ex(y[1], cur));
            if (y.head() == "if") {
                auto s = std::make_shared<IfStmt>(ex(y[1], cur));
                for (auto const &z : y[2].l) s->add_then_stmt(mk(z));
                if (y.size() > 3) for (auto const &z : y[3].l) s->add_else_stmt(mk(z));
                return s;
            }
            return st(y, cur);
        };
        for (size_t i = 4; i < x.size(); i++) {
            auto s = mk(x[i]);
            f->add_stmt(s);
        }
        exprs = old;
    } else if (h == "builtin") {
        auto f = cur->builtin_function(x[1].s);
        emit("builtin", "\"w\":" + jnum(f->return_width()));
    } else if (h == "fsm") {
        FSM &f = x.size() > 3 ? cur->fsm(x[1].s, ref(x[2].s, cur), ref(x[3].s, cur)) : cur->fsm(x[1].s);
        fsms[x[1].s] = &f;
    } else if (h == "state") {
        fsms.at(x[1].s)->add_state(x[2].s);
    } else if (h == "fsmout") {
        auto *f = fsms.at(x[1].s);
        if (x.size() > 3) f->output(ref(x[2].s, cur), ex(x[3], cur));
        else f->output(ref(x[2].s, cur));
    } else if (h == "next") {  // (next F s F2 s2 [cond])
        fsms.at(x[1].s)->get_state(x[2].s)->next(fsms.at(x[3].s)->get_state(x[4].s), x.size() > 5 ? ex(x[5], cur) : nullptr);
    } else if (h == "sout") {
        auto s = fsms.at(x[1].s)->get_state(x[2].s);
        if (x[4].atom && (isdigit(x[4].s[0]) || x[4].s[0] == '-')) s->output(ref(x[3].s, cur), num(x[4]));
        else s->output(ref(x[3].s, cur), ex(x[4], cur));
    } else if (h == "fsmstart") {
        fsms.at(x[1].s)->set_start_state(x[2].s);
    } else if (h == "moore") {
        fsms.at(x[1].s)->set_moore(x[2].s == "1");
    } else if (h == "resethigh") {
        fsms.at(x[1].s)->set_reset_high(x[2].s == "1");
    } else if (h == "childfsm") {
        fsms.at(x[1].s)->add_child_fsm(fsms.at(x[2].s));
    } else if (h == "fsmrealize") {
        fsms.at(x[1].s)->realize();
    } else if (h == "fsminfo") {
        auto *f = fsms.at(x[1].s);
        emit("fsminfo", "\"dot\":" + jstr(f->dot_graph()) + ",\"tab\":" + jstr(f->output_table()));
    } else if (h == "bundle") {  // (bundle name (n w size s dir type)...)
        auto b = std::make_shared<PortBundleDefinition>(x[1].s);
        for (size_t i = 2; i < x.size(); i++)
            b->add_definition(x[i][0].s, (uint32_t)unum(x[i][1]), (uint32_t)unum(x[i][2]), x[i][3].s == "s", pdir_of(x[i][4].s), ptype_of(x[i][5].s));
        bundles[x[1].s] = b;
    } else if (h == "flipbundle") {
        bundles[x[1].s] = std::make_shared<PortBundleDefinition>(bundles.at(x[2].s)->flip());
    } else if (h == "bport") {
        cur->add_bundle_port_def(x[1].s, *bundles.at(x[2].s));
    } else if (h == "bassign") {  // (bassign GA bundleA GB bundleB)
        auto a = gen(x[1])->get_bundle_ref(x[2].s), b = gen(x[3])->get_bundle_ref(x[4].s);
        a->assign(b, cur, {});
    } else if (h == "binfo") {
        auto r = cur->get_bundle_ref(x[1].s);
        vector<str> a;
        for (auto const &n : r->member_names()) {
            auto &p = r->get_port(n);
            a.push_back("{\"n\":" + jstr(n) + ",\"r\":" + jstr(p.name) + ",\"w\":" + jnum(p.var_width()) + ",\"size\":" + sizes(&p) + ",\"sg\":" + (p.is_signed() ? "true" : "false") + ",\"d\":" + jstr(pdir(p.port_direction())) + ",\"pt\":" + jstr(ptype(p.port_type())) + "}");
        }
        emit("binfo", "\"a\":" + jarr(a));
    } else if (h == "idef") {  // (idef name (in|out|var|clk|rst n w size..)... )
        auto d = std::make_shared<InterfaceDefinition>(x[1].s);
        for (size_t i = 2; i < x.size(); i++) {
            auto const &y = x[i];
            vector<uint32_t> sz;
            for (size_t j = 3; j < y.size(); j++) sz.push_back((uint32_t)unum(y[j]));
            if (sz.empty()) sz = {1};
            if (y[0].s == "in") d->port(y[1].s, (uint32_t)unum(y[2]), sz, PortDirection::In);
            else if (y[0].s == "out") d->port(y[1].s, (uint32_t)unum(y[2]), sz, PortDirection::Out);
            else if (y[0].s == "clk") d->clock(y[1].s);
            else if (y[0].s == "rst") d->reset(y[1].s);
            else d->var(y[1].s, (uint32_t)unum(y[2]), sz);
        }
        idefs[x[1].s] = d;
    } else if (h == "modport") {  // (modport handle idef name (in n)(out n)...)
        auto d = std::dynamic_pointer_cast<InterfaceDefinition>(idefs.at(x[2].s));
        auto m = d->create_modport_def(x[3].s);
        idefs[x[1].s] = m;
        for (size_t i = 4; i < x.size(); i++) {
            if (x[i][0].s == "in") m->set_input(x[i][1].s); else m->set_output(x[i][1].s);
        }
    } else if (h == "iface") {  // (iface handle idef name isport)
        irefs[x[1].s] = cur->interface(idefs.at(x[2].s), x[3].s, x[4].s == "1");
    } else if (h == "modportref") {
        irefs[x[1].s] = irefs.at(x[2].s)->get_modport_ref(x[3].s);
    } else if (h == "wireif") {
        cur->wire_interface(irefs.at(x[1].s), irefs.at(x[2].s));
    } else if (h == "ifinfo") {
        auto r = irefs.at(x[1].s);
        vector<str> a;
        for (auto const &[n, p] : r->ports()) a.push_back("{\"n\":" + jstr(n) + ",\"k\":\"port\",\"w\":" + jnum(p->var_width()) + ",\"size\":" + sizes(p) + ",\"d\":" + jstr(pdir(p->port_direction())) + ",\"s\":" + jstr(p->to_string()) + "}");
        for (auto const &[n, p] : r->vars()) a.push_back("{\"n\":" + jstr(n) + ",\"k\":\"var\",\"w\":" + jnum(p->var_width()) + ",\"size\":" + sizes(p) + ",\"d\":\"\",\"s\":" + jstr(p->to_string()) + "}");
        std::sort(a.begin(), a.end());
        emit("ifinfo", "\"a\":" + jarr(a));
    } else if (h == "sram") {  // (sram handle name aw dw partial)
        auto s = std::make_shared<asic::SinglePortSRAM>(ctx.get(), x[2].s, (uint16_t)unum(x[3]), (uint16_t)unum(x[4]), x[5].s == "1");
        ctx->add(s.get());
        srams[x[1].s] = s;
        keep[x[1].s] = s;
        gens[x[1].s] = s.get();
    } else if (h == "sramx") {  // (sramx handle name capacity basis)
        auto s = std::make_shared<asic::SinglePortSRAM>(ctx.get(), x[2].s, (uint32_t)unum(x[3]), srams.at(x[4].s));
        ctx->add(s.get());
        srams[x[1].s] = s;
        keep[x[1].s] = s;
        gens[x[1].s] = s.get();
        emit("sramx", "\"aw\":" + jnum(s->addr_width()) + ",\"dw\":" + jnum(s->data_width()) + ",\"cap\":" + jnum(s->capacity()));
    } else if (h == "sramname") {  // (sramname handle what new)
        auto s = srams.at(x[1].s);
        str n = x[3].s;
        if (x[2].s == "clk") s->set_clock_name(n);
        if (x[2].s == "q") s->set_output_data_name(n);
        if (x[2].s == "ceb") s->set_chip_enable_name(n);
        if (x[2].s == "web") s->set_write_enable_name(n);
        if (x[2].s == "a") s->set_addr_name(n);
        if (x[2].s == "d") s->set_input_data_name(n);
        if (x[2].s == "mask") s->set_partial_write_mask_name(n);
    } else if (h == "sraminfo") {
        auto s = srams.at(x[1].s);
        emit("sraminfo", "\"aw\":" + jnum(s->addr_width()) + ",\"dw\":" + jnum(s->data_width()) + ",\"cap\":" + jnum(s->capacity()) + ",\"names\":" +
                             jarr(vector<str>{jstr(s->clock_name()), jstr(s->output_data_name()), jstr(s->chip_enable_name()), jstr(s->write_enable_name()), jstr(s->addr_name()),
                                   jstr(s->input_data_name()), jstr(s->partial_write_mask_name())}));
    } else if (h == "pass") {
        run_pass(x[1].s, gen(x[2]));
        emit("pass", "\"n\":" + jstr(x[1].s));
    } else if (h == "check") {  // run a checking pass, report verdict
        str err;
        bool thrown = false;
        try {
            run_pass(x[1].s, gen(x[2]));
        } catch (std::exception &e) {
            thrown = true;
            err = e.what();
        }
        emit("check", "\"n\":" + jstr(x[1].s) + ",\"ok\":" + (thrown ? "false" : "true") + ",\"msg\":" + jstr(err));
    } else if (h == "dump") {
        str d = dump(gen(x[1]));
        emit("dump", "\"tag\":" + jstr(x[2].s) + ",\"top\":" + jstr(gen(x[1])->name) + ",\"d\":" + d);
    } else if (h == "sv") {  // (sv G tag [nounique] [wrap N])
        SystemVerilogCodeGenOptions o;
        o.extract_debug_info = false;
        for (size_t i = 3; i < x.size(); i++) {
            if (x[i].s == "nounique") o.unique_case = false;
            if (x[i].s == "wrap") o.line_wrap = unum(x[++i]);
        }
        auto m = generate_verilog(gen(x[1]), o);
        vector<str> ifs;
        emit("sv", "\"tag\":" + jstr(x[2].s) + ",\"top\":" + jstr(gen(x[1])->name) + ",\"mods\":" + vmap(m) + ",\"structs\":" + vmap(extract_struct_info(gen(x[1]))) +
                       ",\"enums\":" + vmap(extract_enum_info(gen(x[1]))) + ",\"ifs\":" + vmap(extract_interface_info(gen(x[1]))));
    } else if (h == "svstub") {
        emit("sv", "\"tag\":\"stub\",\"top\":" + jstr(gen(x[1])->name) + ",\"mods\":[{\"m\":" + jstr(gen(x[1])->name) + ",\"s\":" + jstr(create_stub(gen(x[1]))) + "}],\"structs\":[],\"enums\":[],\"ifs\":[]");
    } else if (h == "wrapper") {
        auto &w = create_wrapper_flatten(gen(x[1]), x[2].s);
        gens[x[2].s] = &w;
        keep[x[2].s] = w.shared_from_this();
    } else if (h == "cpus") {
        set_num_cpus((int)num(x[1]));
    } else if (h == "hash") {  // (hash G par|seq): values by handle
        ctx->clear_hash();
        hash_generators(gen(x[1]), x[2].s == "par" ? HashStrategy::ParallelHash : HashStrategy::SequentialHash);
        vector<str> a;
        for (auto const &[k, g] : gens)
            if (ctx->has_hash(g)) a.push_back("{\"h\":" + jstr(k) + ",\"v\":" + jstr(std::to_string(ctx->get_hash(g))) + "}");
        emit("hash", "\"a\":" + jarr(a));
    } else if (h == "track") {
        ctx->set_track_generated(true);
    } else if (h == "sim") {
        sims[x[1].s] = std::make_shared<Simulator>(gen(x[2]));
    } else if (h == "set" || h == "setn") {
        auto v = ex(x[2], cur);
        sims.at(x[1].s)->set(v.get(), std::optional<uint64_t>(unum(x[3])), h == "set");
    } else if (h == "seti") {
        auto v = ex(x[2], cur);
        sims.at(x[1].s)->set_i(v.get(), std::optional<int64_t>(num(x[3])));
    } else if (h == "seta") {
        auto v = ex(x[2], cur);
        vector<uint64_t> a;
        for (size_t i = 3; i < x.size(); i++) a.push_back(unum(x[i]));
        sims.at(x[1].s)->set(v.get(), std::optional<vector<uint64_t>>(a));
    } else if (h == "setai") {
        auto v = ex(x[2], cur);
        vector<int64_t> a;
        for (size_t i = 3; i < x.size(); i++) a.push_back(num(x[i]));
        sims.at(x[1].s)->set_i(v.get(), std::optional<vector<int64_t>>(a));
    } else if (h == "evalsim") {
        sims.at(x[1].s)->eval();
    } else if (h == "get") {
        auto v = ex(x[2], cur);
        emit("get", "\"v\":" + optv(sims.at(x[1].s)->get(v.get())));
    } else if (h == "geta") {
        auto v = ex(x[2], cur);
        emit("geta", "\"v\":" + optvv(sims.at(x[1].s)->get_array(v.get())));
    } else if (h == "getx") {
        auto v = ex(x[2], cur);
        emit("getx", "\"v\":" + optvv(sims.at(x[1].s)->eval_expr(v.get())));
    } else if (h == "getall") {  // values of all the listed variables in one line
        vector<str> a;
        for (size_t i = 2; i < x.size(); i++) {
            auto v = ex(x[i], cur);
            bool scalar = v->size().size() == 1 && v->size().front() == 1 && !v->explicit_array();
            if (scalar) a.push_back(optv(sims.at(x[1].s)->get(v.get())));
            else a.push_back(optvv(sims.at(x[1].s)->get_array(v.get())));
        }
        emit("getall", "\"a\":" + jarr(a));
    } else if (h == "static") {
        emit("static", "\"v\":" + jstr(std::to_string(Simulator::static_evaluate_expr(ex(x[1], cur).get()))));
    } else if (h == "evalbin") {  // (evalbin op l r w s)
        emit("eval", "\"v\":" + jstr(std::to_string(eval_bin_op(unum(x[2]), unum(x[3]), OPS.at(x[1].s), (uint32_t)unum(x[4]), x[5].s == "s"))));
    } else if (h == "evalun") {
        emit("eval", "\"v\":" + jstr(std::to_string(eval_unary_op(unum(x[2]), OPS.at(x[1].s), (uint32_t)unum(x[3])))));
    } else if (h == "evaltern") {
        emit("eval", "\"v\":" + jstr(std::to_string(eval_ternary_op(x[1].s == "1", unum(x[2]), unum(x[3]), (uint32_t)unum(x[4])))));
    } else if (h == "islegal") {
        auto r = Const::is_legal(num(x[1]), (uint32_t)unum(x[2]), x[3].s == "s");
        emit("islegal", "\"v\":" + jnum((uint64_t)r));
    } else if (h == "clog2") {
        emit("clog2", "\"v\":" + jnum(clog2((uint32_t)unum(x[1]))));
    } else if (h == "books") {
        books(gen(x[1]));
    } else if (h == "enable") {
        auto g = gen(x[1]);
        dump_top = g;
        auto m = compute_enable_condition(g);
        for (auto const &[s, c] : m) {
            emit("enable", "\"n\":" + as_num(const_cast<Stmt *>(s)) + ",\"c\":" + jstr(c));
        }
    } else if (h == "drivers") {
        dump_top = gen(x[1]);
        for (auto const &[v, s] : find_driver_signal(gen(x[1]))) {
            vector<str> a;
            for (auto *w : s) a.push_back(jstr(path_of(w->generator()) + w->to_string()));
            std::sort(a.begin(), a.end());
            emit("driver", "\"v\":" + jstr(path_of(v->generator()) + v->to_string()) + ",\"a\":" + jarr(a));
        }
    } else if (h == "registers" || h == "varnames") {
        auto v = h == "registers" ? extract_register_names(gen(x[1])) : extract_var_names(gen(x[1]));
        std::sort(v.begin(), v.end());
        emit(h, "\"a\":" + jstrs(v));
    } else if (h == "events") {
        dump_top = gen(x[1]);
        for (auto const &e : extract_event_info(gen(x[1]))) {
            vector<str> f;
            for (auto const &[n, v] : e.fields) f.push_back("{\"n\":" + jstr(n) + ",\"e\":" + var(v.get()) + "}");
            emit("event", "\"n\":" + jstr(e.name) + ",\"tr\":" + jstr(e.transaction) + ",\"comb\":" + (e.combinational ? "true" : "false") + ",\"act\":" + jnum((uint64_t)e.type) + ",\"f\":" + jarr(f) + sid(e.stmt.get()));
        }
    } else if (h == "structinfo") {  // the order in which struct definitions are emitted
        vector<str> a;
        for (auto const &[k, v] : extract_struct_info(gen(x[1]))) {
            auto p = v.rfind("} ");
            a.push_back(jstr(v.substr(p + 2, v.rfind(';') - p - 2)));
        }
        emit("structinfo", "\"a\":" + jarr(a));
    } else if (h == "graphn") {  // as graph, by module name
        GeneratorGraph g(gen(x[1]));
        vector<str> a, b, c;
        for (auto *n : g.get_sorted_nodes()) a.push_back(jstr(n->name));
        for (auto *n : g.get_nodes()) b.push_back(jstr(n->name));
        for (auto const &l : g.get_leveled_nodes()) {
            vector<str> d;
            for (auto *n : l) d.push_back(jstr(n->name));
            std::sort(d.begin(), d.end());
            c.push_back(jarr(d));
        }
        emit("graph", "\"sorted\":" + jarr(a) + ",\"nodes\":" + jarr(b) + ",\"levels\":" + jarr(c));
    } else if (h == "graph") {
        GeneratorGraph g(gen(x[1]));
        dump_top = gen(x[1]);
        vector<str> a, b, c;
        for (auto *n : g.get_sorted_nodes()) a.push_back(jstr(path_of(n)));
        for (auto *n : g.get_nodes()) b.push_back(jstr(path_of(n)));
        for (auto const &l : g.get_leveled_nodes()) {
            vector<str> d;
            for (auto *n : l) d.push_back(jstr(path_of(n)));
            std::sort(d.begin(), d.end());
            c.push_back(jarr(d));
        }
        emit("graph", "\"sorted\":" + jarr(a) + ",\"nodes\":" + jarr(b) + ",\"levels\":" + jarr(c));
    } else if (h == "visit" || h == "visitn") {  // traversal orders by the generic visitors
        struct V : public IRVisitor {
            Case *c;
            bool by_name = false;
            std::mutex m;
            vector<str> log;
            std::set<void *> seen_stmt;
            uint64_t dup = 0, nst = 0;
            void visit(Generator *g) override {
                std::lock_guard<std::mutex> l(m);
                log.push_back(jstr(by_name ? g->name : c->path_of(g)));
            }
            void visit(AssignStmt *s) override {
                std::lock_guard<std::mutex> l(m);
                nst++;
                if (!seen_stmt.insert(s).second) dup++;
            }
        };
        V v;
        v.c = this;
        v.by_name = h == "visitn";
        auto *g = gen(x[2]);
        dump_top = g;
        if (x[1].s == "root") v.visit_root(g->ast_node());
        else if (x[1].s == "gen") v.visit_generator_root(g);
        else if (x[1].s == "genp") v.visit_generator_root_p(g);
        else if (x[1].s == "gentp") v.visit_generator_root_tp(g);
        else if (x[1].s == "roottp") v.visit_root_tp(g->ast_node());
        emit("visit", "\"k\":" + jstr(x[1].s) + ",\"log\":" + jarr(v.log) + ",\"ns\":" + jnum(v.nst) + ",\"dup\":" + jnum(v.dup));
    } else if (h == "structgraph") {
        PackedStructGraph g;
        for (size_t i = 1; i < x.size(); i++) g.add_node(structs.at(x[i].s).get());
        vector<str> a;
        for (auto const *s : g.get_structs()) a.push_back(jstr(s->struct_name));
        emit("structgraph", "\"a\":" + jarr(a));
    } else if (h == "pm") {  // pass manager history
        auto const &k = x[1].s;
        if (k == "new") pms[x[2].s] = std::make_shared<PassManager>();
        else if (k == "reg") {
            auto n = x[3].s;
            pms.at(x[2].s)->register_pass(n, std::function<void(Generator *)>([this, n](Generator *g) { emit("ran", "\"n\":" + jstr(n) + ",\"g\":" + jstr(g->name)); }));
        } else if (k == "add") pms.at(x[2].s)->add_pass(x[3].s);
        else if (k == "run") pms.at(x[2].s)->run_passes(gen(x[3]));
        else if (k == "num") emit("pmnum", "\"v\":" + jnum(pms.at(x[2].s)->num_passes()));
        else if (k == "has") emit("pmhas", str("\"v\":") + (pms.at(x[2].s)->has_pass(x[3].s) ? "true" : "false"));
    } else if (h == "fault") {  // (fault G (run wrong? (name value)... | wrong name ...) ...)
        auto *g = gen(x[1]);
        FaultAnalyzer fa(g);
        uint32_t idx = 0;
        for (size_t i = 2; i < x.size(); i++, idx++) {
            auto r = std::make_shared<SimulationRun>(g);
            for (size_t j = 1; j < x[i].size(); j++) {
                auto const &y = x[i][j];
                if (y[0].s == "state") {
                    std::map<str, int64_t> m;
                    for (size_t k = 1; k < y.size(); k++) m[y[k][0].s] = num(y[k][1]);
                    r->add_simulation_state(m);
                } else if (y[0].s == "wrong")
                    r->mark_wrong_value(y[1].s);
            }
            fa.add_simulation_run(r);
        }
        auto pr = [&](const str &k, const std::unordered_set<Stmt *> &s) {
            vector<str> a;
            uint64_t un = 0;
            for (auto *p : s) {
                auto *par = p->parent();
                auto *ps = par && par->ir_node_kind() == IRNodeKind::StmtKind ? dynamic_cast<Stmt *>(par) : nullptr;
                str br;
                if (ps && ps->type() == StatementType::If)
                    br = dynamic_cast<IfStmt *>(ps)->then_body().get() == p ? "th" : "el";
                else if (ps && ps->type() == StatementType::Switch) {
                    for (auto const &[c, bl] : dynamic_cast<SwitchStmt *>(ps)->body())
                        if (bl.get() == p) br = c ? std::to_string(c->value()) : "df";
                }
                if (br.empty()) un++;
                else a.push_back("[" + as_num(ps) + "," + jstr(br) + "]");
            }
            std::sort(a.begin(), a.end());
            emit("cov", "\"k\":" + jstr(k) + ",\"a\":" + jarr(a) + ",\"other\":" + jnum(un));
        };
        for (uint32_t i = 0; i < idx; i++) pr("run" + std::to_string(i), fa.compute_coverage(i));
        pr("fault", fa.compute_fault_stmts_from_coverage());
    } else if (h == "debug") {
        auto v = extract_debug_break_points(gen(x[1]));
        vector<str> a;
        for (auto const *s : v) a.push_back("{\"i\":" + std::to_string(s->stmt_id()) + ",\"h\":" + jstr(stmt_handles.count(s) ? stmt_handles[s] : "") + "}");
        emit("debug", "\"a\":" + jarr(a));
    } else {
        throw std::logic_error("driver: unknown command " + h);
    }
}
