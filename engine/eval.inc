// Evaluation of expressions, overload resolution, constexpr functions.
static Val mkI(Node *n) { Val v; v.k = Val::Int; v.i = n; return v; }
static Val mkLv(ObjP o) { Val v; v.k = Val::Lval; v.o = o; return v; }
static Val boolVal(bool b) { return mkI(mkInt(tBool, b)); }
static ObjP newObj(Node *ty) { ObjP o = std::make_shared<Obj>(); o->ty = ty; return o; }

static bool isVoid(Node *t) { t = unqual(t); return t->k == NK::Builtin && t->qt->isVoidType(); }
static bool isIntegral(Node *t) { IT it; t = unqual(t); if (t->k != NK::Builtin && t->k != NK::Enum) return false; return intTypeInfo(t, it); }
static bool isFloat(Node *t) { t = unqual(t); return t->k == NK::Builtin && t->qt->isFloatingType(); }

static Val rv(Val v) {
  if (v.k != Val::Lval) return v;
  if (v.o->isArray) { Val p; p.k = Val::Ptr; p.o = v.o; p.idx = 0; p.ty = v.o->ty; return p; }
  if (v.o->v.k == Val::Text) return v.o->v;
  if (v.o->ty && unqual(v.o->ty)->k == NK::Class) { Val c; c.k = Val::Cls; c.ty = unqual(v.o->ty); c.o = v.o; return c; }
  if (v.o->v.k == Val::None) sfail("read of uninitialised object in constant expression");
  return v.o->v;
}
// ------------------------------------------------------------ texts
// std::string and the string streams are modelled as sequences of characters and numbers.
static bool g_textmode = false;
struct ExitCalled {};
static bool isTextClass(Node *u) {
  u = unqual(u);
  if (u->k != NK::Class) return false;
  auto nd = cast<NamedDecl>(u->d);
  if (!nd->isInStdNamespace() && !(nd->getDeclContext() && nd->getDeclContext()->getEnclosingNamespaceContext()->isStdNamespace())) {
    auto ns = dyn_cast<NamespaceDecl>(nd->getDeclContext());
    if (!ns || !ns->isInline() || !ns->getParent() || !ns->getParent()->isStdNamespace()) return false;
  }
  string n = nd->getNameAsString();
  return n == "basic_string" || n == "basic_ostringstream" || n == "basic_stringstream";
}
static Val mkText() { Val v; v.k = Val::Text; v.t = std::make_shared<vector<Node *>>(); return v; }
static bool isText(const Val &v) { return v.k == Val::Text || (v.k == Val::Lval && !v.o->isArray && v.o->v.k == Val::Text); }
static Val copyText(const Val &v) { Val r = mkText(); *r.t = *v.t; return r; }
static ObjP coutObj() { static ObjP o; if (!o) { o = newObj(nullptr); o->v = mkText(); } return o; }
static ObjP cerrObj() { static ObjP o; if (!o) { o = newObj(nullptr); o->v = mkText(); } return o; }

static ObjP copyObj(ObjP o) {
  ObjP n = std::make_shared<Obj>(*o);
  if (n->v.k == Val::Text) n->v = copyText(n->v);
  for (auto &e : n->elems) e = copyObj(e);
  for (auto &f : n->fields) f.second = copyObj(f.second);
  return n;
}
static Val callFunction(const FunctionDecl *fd, const Env &fenv, vector<Val> args, Val thisv);

static const CXXConversionDecl *findConv(Node *cls, ClassDef *&owner, int depth = 0) {
  ClassDef *cd = complete(cls);
  const CXXConversionDecl *best = nullptr;
  for (auto d : cd->def->decls())
    if (auto c = dyn_cast<CXXConversionDecl>(d)) {
      best = c; break;
    }
  if (best) { owner = cd; return best; }
  for (Node *b : cd->bases) if (auto r = findConv(b, owner, depth + 1)) return r;
  return nullptr;
}
static Node *toInt(Val v) {
  v = rv(v);
  switch (v.k) {
  case Val::Int: return v.i;
  case Val::NullP: return mkInt(tBool, 0);
  case Val::Ptr: case Val::Fn: return mkInt(tBool, 1);
  case Val::Cls: {
    ClassDef *o = nullptr;
    auto c = findConv(v.ty, o);
    if (!c) sfail("no conversion from " + show(v.ty, 4) + " to an integral type");
    Val r = callFunction(c, o->env, {}, v);
    Node *rt = substType(c->getConversionType(), o->env);
    Node *i = toInt(r);
    if (isIntegral(unref(rt))) i = convInt(i, unref(rt), false);
    return i;
  }
  default: sfail("value is not an integral constant");
  }
}

// ------------------------------------------------------------ integer operators
static QualType qOf(Node *ty) {
  ty = unqual(unref(ty));
  if (ty->k == NK::Builtin) return ty->qt;
  if (ty->k == NK::Enum) {
    QualType u = cast<EnumDecl>(ty->d)->getIntegerType();
    if (u.isNull() || u->isDependentType()) return AC->IntTy;
    return u.getCanonicalType();
  }
  unsup("integral type expected: " + show(ty, 3));
}
static Node *promoteType(Node *ty) {
  QualType q = qOf(ty);
  if (q->isBooleanType()) return tInt;
  if (AC->isPromotableIntegerType(q)) return mkBuiltin(AC->getPromotedIntegerType(q));
  return mkBuiltin(q);
}
static Node *promote(Node *i) { return convInt(i, promoteType(i->parent), false); }
static Node *commonType(Node *a, Node *b) {
  Node *pa = promoteType(a), *pb = promoteType(b);
  if (pa == pb) return pa;
  QualType x = pa->qt, y = pb->qt;
  bool sx = x->isSignedIntegerType(), sy = y->isSignedIntegerType();
  int ord = AC->getIntegerTypeOrder(x, y);
  if (sx == sy) return ord >= 0 ? pa : pb;
  QualType s = sx ? x : y, u = sx ? y : x;
  int o2 = AC->getIntegerTypeOrder(u, s);
  if (o2 >= 0) return mkBuiltin(u);
  if (AC->getTypeSize(s) > AC->getTypeSize(u)) return mkBuiltin(s);
  return mkBuiltin(AC->getCorrespondingUnsignedType(s));
}
static z3::expr asBool(Node *i) {
  if (i->isb) return zx(i);
  return zx(i) != ZC->bv_val(0, i->w);
}
static bool truth(Node *i) { return i->sym ? decide(asBool(i)) : i->n != 0; }

static Node *cmpOp(BinaryOperatorKind op, Node *a, Node *b) {
  Node *ct = commonType(a->parent, b->parent);
  a = convInt(a, ct, false); b = convInt(b, ct, false);
  if (!a->sym && !b->sym) {
    bool r; bool sg = a->sg;
    unsigned long long ua = a->n, ub = b->n;
    switch (op) {
    case BO_LT: r = sg ? a->n < b->n : ua < ub; break;
    case BO_GT: r = sg ? a->n > b->n : ua > ub; break;
    case BO_LE: r = sg ? a->n <= b->n : ua <= ub; break;
    case BO_GE: r = sg ? a->n >= b->n : ua >= ub; break;
    case BO_EQ: r = a->n == b->n; break;
    default: r = a->n != b->n;
    }
    return mkInt(tBool, r);
  }
  z3::expr x = zx(a), y = zx(b), e(*ZC);
  switch (op) {
  case BO_LT: e = a->sg ? x < y : z3::ult(x, y); break;
  case BO_GT: e = a->sg ? x > y : z3::ugt(x, y); break;
  case BO_LE: e = a->sg ? x <= y : z3::ule(x, y); break;
  case BO_GE: e = a->sg ? x >= y : z3::uge(x, y); break;
  case BO_EQ: e = x == y; break;
  default: e = x != y;
  }
  return mkSym(tBool, e);
}
// An operator on dependent operands that may name an overload: for the integral
// operands met here it is the built-in operator.
static std::map<const Expr *, const Expr *> g_asop;
static const Expr *asBuiltinOp(const CXXOperatorCallExpr *c) {
  auto it = g_asop.find(c);
  if (it != g_asop.end()) return it->second;
  const Expr *r = nullptr;
  OverloadedOperatorKind k = c->getOperator();
  if (k == OO_Call || k == OO_Subscript || k == OO_Arrow) unsup("overloaded operator");
  if (c->getNumArgs() == 2 && k != OO_PlusPlus && k != OO_MinusMinus) {
    BinaryOperatorKind b = BinaryOperator::getOverloadedOpcode(k);
    auto l = const_cast<Expr *>(c->getArg(0)), q = const_cast<Expr *>(c->getArg(1));
    if (BinaryOperator::isCompoundAssignmentOp(b)) r = CompoundAssignOperator::Create(*AC, l, q, b, AC->DependentTy, VK_LValue, OK_Ordinary, c->getExprLoc(), FPOptionsOverride());
    else r = BinaryOperator::Create(*AC, l, q, b, AC->DependentTy, VK_PRValue, OK_Ordinary, c->getExprLoc(), FPOptionsOverride());
  } else {
    UnaryOperatorKind u = UnaryOperator::getOverloadedOpcode(k, c->getNumArgs() == 2);
    r = UnaryOperator::Create(*AC, const_cast<Expr *>(c->getArg(0)), u, AC->DependentTy, VK_PRValue, OK_Ordinary, c->getExprLoc(), false, FPOptionsOverride());
  }
  g_asop[c] = r;
  return r;
}
// Conservative signed bounds of an expression under the path condition; leaves
// by bisection with the solver (they stay valid: path conditions only grow).
struct Bnd { bool ok; __int128 lo, hi; };
static std::unordered_map<unsigned, Bnd> g_bnd;
static Bnd boundsOf(z3::expr e, int depth = 0) {
  unsigned id = Z3_get_ast_id(*ZC, e);
  auto it = g_bnd.find(id);
  if (it != g_bnd.end()) return it->second;
  Bnd r{false, 0, 0};
  if (!e.is_bv() || depth > 60) return r;
  unsigned w = e.get_sort().bv_size();
  if (w > 64) return r;
  __int128 mx = ((__int128)1 << (w - 1)) - 1, mn = -mx - 1;
  if (e.is_numeral()) {
    uint64_t u; if (!Z3_get_numeral_uint64(*ZC, e, &u)) return r;
    __int128 v = u; if (v > mx) v -= (__int128)1 << w;
    r = {true, v, v};
  } else {
    Z3_decl_kind k = e.decl().decl_kind();
    if (k == Z3_OP_SIGN_EXT) r = boundsOf(e.arg(0), depth + 1);
    else if (k == Z3_OP_CONCAT) {        // the simplifier's form of a sign extension
      z3::expr x = e.arg(e.num_args() - 1); bool se = true;
      unsigned top = x.get_sort().bv_size() - 1;
      for (unsigned i = 0; se && i + 1 < e.num_args(); i++) {
        z3::expr y = e.arg(i);
        se = y.is_app() && y.decl().decl_kind() == Z3_OP_EXTRACT && y.hi() == top && y.lo() == top && z3::eq(y.arg(0), x);
      }
      if (se) r = boundsOf(x, depth + 1);
      else if (e.arg(0).is_numeral() && e.num_args() == 2) { uint64_t u; if (Z3_get_numeral_uint64(*ZC, e.arg(0), &u) && u == 0) r = {true, 0, ((__int128)1 << (top + 1)) - 1}; }
    }
    else if (k == Z3_OP_ZERO_EXT) { r = boundsOf(e.arg(0), depth + 1); if (r.ok && r.lo < 0) { unsigned w0 = e.arg(0).get_sort().bv_size(); r = {true, 0, ((__int128)1 << w0) - 1}; } }
    else if (k == Z3_OP_BADD || k == Z3_OP_BMUL) {
      r = boundsOf(e.arg(0), depth + 1);
      for (unsigned i = 1; r.ok && i < e.num_args(); i++) {
        Bnd q = boundsOf(e.arg(i), depth + 1);
        if (!q.ok) { r.ok = false; break; }
        if (k == Z3_OP_BADD) { r.lo += q.lo; r.hi += q.hi; }
        else { __int128 a[4] = {r.lo * q.lo, r.lo * q.hi, r.hi * q.lo, r.hi * q.hi}; r.lo = *std::min_element(a, a + 4); r.hi = *std::max_element(a, a + 4); }
        if (r.lo < mn || r.hi > mx) r.ok = false;
      }
    } else if (k == Z3_OP_ITE) { Bnd a = boundsOf(e.arg(1), depth + 1), b = boundsOf(e.arg(2), depth + 1); if (a.ok && b.ok) r = {true, std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
    else if (e.is_const() && w <= 32) {
      auto sat = [&](z3::expr c) { return chk(c) == z3::sat; };
      auto bv = [&](__int128 v) { return ZC->bv_val((int64_t)v, w); };
      __int128 lo = mn, hi = mx;      // smallest feasible value in [lo, hi]
      while (lo < hi) { __int128 m = lo + (hi - lo) / 2; if (m == hi) m--; if (sat(e <= bv(m))) hi = m; else lo = m + 1; }
      __int128 low = lo; hi = mx;
      while (lo < hi) { __int128 m = lo + (hi - lo + 1) / 2; if (sat(e >= bv(m))) lo = m; else hi = m - 1; }
      r = {true, low, lo};
    }
  }
  Z3_inc_ref(*ZC, e);       // keep the id from being reused
  g_bnd[id] = r;
  return r;
}
static Node *arith(BinaryOperatorKind op, Node *a, Node *b) {
  if (op == BO_Shl || op == BO_Shr) {
    a = promote(a); b = promote(b);
    i64 s = concrete(b);
    if (s < 0 || s >= (i64)a->w) sfail("shift count out of range");
    if (!a->sym) {
      if (op == BO_Shl) {
        if (a->sg && !AC->getLangOpts().CPlusPlus20) {
          if (a->n < 0) { if (AC->getLangOpts().CPlusPlus11) sfail("left shift of negative value"); }
          else if (s && (a->n >> (a->w - s))) { if (AC->getLangOpts().CPlusPlus11) sfail("shift overflow"); }
        }
        return mkInt(a->parent, (i64)((unsigned long long)a->n << s));
      }
      if (a->sg) return mkInt(a->parent, a->n >> s);
      unsigned long long m = a->w >= 64 ? ~0ULL : ((1ULL << a->w) - 1);
      return mkInt(a->parent, (i64)(((unsigned long long)a->n & m) >> s));
    }
    z3::expr sh = ZC->bv_val((int64_t)s, a->w);
    return mkSym(a->parent, op == BO_Shl ? z3::shl(zx(a), sh) : a->sg ? z3::ashr(zx(a), sh) : z3::lshr(zx(a), sh));
  }
  Node *ct = commonType(a->parent, b->parent);
  a = convInt(a, ct, false); b = convInt(b, ct, false);
  unsigned w = a->w; bool sg = a->sg;
  if (!a->sym && !b->sym) {
    __int128 x = sg ? (__int128)a->n : (__int128)((unsigned long long)norm(a->n, w, false, false)), y = sg ? (__int128)b->n : (__int128)((unsigned long long)norm(b->n, w, false, false)), r;
    switch (op) {
    case BO_Add: r = x + y; break;
    case BO_Sub: r = x - y; break;
    case BO_Mul: r = x * y; break;
    case BO_Div: if (!y) sfail("division by zero"); r = x / y; break;
    case BO_Rem: if (!y) sfail("division by zero"); r = x % y; break;
    case BO_And: r = x & y; break;
    case BO_Or: r = x | y; break;
    case BO_Xor: r = x ^ y; break;
    default: unsup("binary operator");
    }
    if (sg) {
      __int128 hi = ((__int128)1 << (w - 1)) - 1, lo = -hi - 1;
      if (r > hi || r < lo) sfail("overflow in constant expression");
    }
    return mkInt(ct, (i64)r);
  }
  z3::expr x = zx(a), y = zx(b), e(*ZC);
  auto ext = [&](z3::expr v, unsigned k) { return z3::sext(v, k); };
  auto ovf = [&](unsigned k, std::function<z3::expr(z3::expr, z3::expr)> f, z3::expr res) {
    if (!sg) return;
    if (w <= 64) {
      Bnd p = boundsOf(x), q = boundsOf(y), r{false, 0, 0};
      if (p.ok && q.ok) {
        if (op == BO_Add) r = {true, p.lo + q.lo, p.hi + q.hi};
        else if (op == BO_Sub) r = {true, p.lo - q.hi, p.hi - q.lo};
        else { __int128 c[4] = {p.lo * q.lo, p.lo * q.hi, p.hi * q.lo, p.hi * q.hi}; r = {true, *std::min_element(c, c + 4), *std::max_element(c, c + 4)}; }
        __int128 mx = ((__int128)1 << (w - 1)) - 1, mn = -mx - 1;
        if (r.lo >= mn && r.hi <= mx) {
          z3::expr s = res.simplify();
          if (!s.is_numeral()) { Z3_inc_ref(*ZC, s); g_bnd[Z3_get_ast_id(*ZC, s)] = r; }
          return;
        }
      }
    }
    z3::expr wide = f(ext(x, k), ext(y, k));
    if (!decide(wide == ext(res, k))) sfail("overflow in constant expression");
  };
  switch (op) {
  case BO_Add: e = x + y; ovf(1, [](z3::expr p, z3::expr q) { return p + q; }, e); break;
  case BO_Sub: e = x - y; ovf(1, [](z3::expr p, z3::expr q) { return p - q; }, e); break;
  case BO_Mul: e = x * y; ovf(w, [](z3::expr p, z3::expr q) { return p * q; }, e); break;
  case BO_Div: case BO_Rem:
    if (!decide(y != ZC->bv_val(0, w))) sfail("division by zero");
    if (sg) { z3::expr mn = ZC->bv_val(1, w); mn = z3::shl(mn, ZC->bv_val((int)w - 1, w)); if (decide(x == mn && y == ZC->bv_val(-1, w))) sfail("overflow"); }
    if (op == BO_Div) e = sg ? x / y : z3::udiv(x, y); else e = sg ? z3::srem(x, y) : z3::urem(x, y);
    break;
  case BO_And: e = x & y; break;
  case BO_Or: e = x | y; break;
  case BO_Xor: e = x ^ y; break;
  default: unsup("binary operator");
  }
  return mkSym(ct, e);
}

// an expression that can be evaluated speculatively (no failure, no fork)
static bool isSimple(const Expr *e) {
  e = e->IgnoreParens();
  if (auto c = dyn_cast<CastExpr>(e)) return isSimple(c->getSubExpr());
  if (isa<IntegerLiteral>(e) || isa<CharacterLiteral>(e) || isa<CXXBoolLiteralExpr>(e)) return true;
  if (auto d = dyn_cast<DeclRefExpr>(e)) return isa<NonTypeTemplateParmDecl>(d->getDecl()) || isa<ParmVarDecl>(d->getDecl());
  if (isa<DependentScopeDeclRefExpr>(e) || isa<SizeOfPackExpr>(e)) return true;
  if (auto b = dyn_cast<BinaryOperator>(e))
    return (b->isComparisonOp() || b->isLogicalOp() || b->isBitwiseOp()) && isSimple(b->getLHS()) && isSimple(b->getRHS());
  if (auto u = dyn_cast<UnaryOperator>(e)) return (u->getOpcode() == UO_LNot || u->getOpcode() == UO_Plus) && isSimple(u->getSubExpr());
  if (auto c = dyn_cast<ConditionalOperator>(e)) return isSimple(c->getCond()) && isSimple(c->getTrueExpr()) && isSimple(c->getFalseExpr());
  if (auto s = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return isSimple(s->getReplacement());
  if (auto u = dyn_cast<CXXUnresolvedConstructExpr>(e)) return u->getNumArgs() == 1 && isSimple(u->getArg(0));
  return false;
}
static Val condValue(Node *c, const std::function<Val()> &t, const std::function<Val()> &f, bool simple) {
  if (!c->sym) return c->n ? t() : f();
  if (simple) {
    Val a = rv(t()), b = rv(f());
    if (a.k == Val::Int && b.k == Val::Int) {
      Node *x = a.i, *y = b.i;
      if (x->parent != y->parent) { Node *ct = commonType(x->parent, y->parent); x = convInt(x, ct, false); y = convInt(y, ct, false); }
      return mkI(mkSym(x->parent, z3::ite(asBool(c), zx(x), zx(y))));
    }
  }
  return truth(c) ? t() : f();
}

// ------------------------------------------------------------ variables
static ObjP initObj(Node *ty, const Expr *init, const Env &env);
static Val convertVal(Val v, Node *ty);
static void appendText(Val &dst, Val v);
static Val construct(Node *t, const vector<Val> &args);

static bool vfName(const Decl *d, const char *n) {
  auto nd = dyn_cast<NamedDecl>(d);
  return nd && nd->getDeclName().isIdentifier() && nd->getName() == n && inVf(d);
}
struct SymVar { string name; Node *ty; };
static vector<SymVar> g_vars;
static std::map<string, Node *> g_symvars;
static Node *symVar(const string &name, Node *ty, std::function<void(z3::expr)> onNew) {
  auto it = g_symvars.find(name);
  if (it != g_symvars.end()) return it->second;
  IT t; intTypeInfo(ty, t);
  z3::expr e = t.isb ? ZC->bool_const(name.c_str()) : ZC->bv_const(name.c_str(), t.w);
  Node *n = mkSym(ty, e);
  g_symvars[name] = n;
  g_vars.push_back({name, ty});
  if (onNew) onNew(e);
  return n;
}
static Node *intrinsic(ClassDef *o) {   // value of vf::nd_*
  if (!inVf(o->def)) return nullptr;
  StringRef nm = o->def->getName();
  if (!nm.startswith("nd_")) return nullptr;
  string key = nm.str();
  auto iarg = [&](size_t i) -> i64 { return concrete(o->self->args.at(i)); };
  // args: Z, Id, K ...
  if (nm == "nd_char") {
    string v = "c_" + std::to_string(iarg(1)) + "_" + std::to_string(iarg(2));
    return symVar(v, tChar, [&](z3::expr e) { if (g_char_no_ff) ZS->add(e != ZC->bv_val(-1, 8)); });
  }
  if (nm == "nd_int") {
    string v = "i_" + std::to_string(iarg(1)) + "_" + std::to_string(iarg(2));
    i64 lo = iarg(3), hi = iarg(4);
    return symVar(v, tInt, [&](z3::expr e) { ZS->add(e >= ZC->bv_val((int64_t)lo, 32) && e <= ZC->bv_val((int64_t)hi, 32)); Z3_inc_ref(*ZC, e); g_bnd[Z3_get_ast_id(*ZC, e)] = Bnd{true, lo, hi}; });
  }
  if (nm == "nd_bool") {
    string v = "b_" + std::to_string(iarg(1)) + "_" + std::to_string(iarg(2));
    return symVar(v, tBool, nullptr);
  }
  return nullptr;
}

static ObjP arrayFromString(const StringLiteral *s, Node *ety, i64 n) {
  ObjP o = newObj(ety); o->isArray = true;
  for (i64 i = 0; i < n; i++) {
    ObjP e = newObj(ety);
    e->v = mkI(mkInt(unqual(ety), i < (i64)s->getLength() ? (i64)(int)s->getCodeUnit(i) : 0));
    o->elems.push_back(e);
  }
  return o;
}
static void initElems(const Expr *init, const Env &env, std::function<void(const Expr *, const Env &)> f) {
  auto one = [&](const Expr *e) {
    if (auto pe = dyn_cast<PackExpansionExpr>(e)) {
      SmallVector<UnexpandedParameterPack, 2> ps;
      SM->collectUnexpandedParameterPacks(TemplateArgument(const_cast<Expr *>(pe->getPattern())), ps);
      expandPack(ps, env, [&](const Env &e2) { f(pe->getPattern(), e2); });
    } else f(e, env);
  };
  if (auto il = dyn_cast<InitListExpr>(init)) {
    if (il->isSemanticForm() == false && il->getSemanticForm() && !il->isTypeDependent()) il = il->getSemanticForm();
    for (auto e : il->inits()) one(e);
  } else if (auto pl = dyn_cast<ParenListExpr>(init)) {
    for (unsigned i = 0; i < pl->getNumExprs(); i++) one(pl->getExpr(i));
  } else one(init);
}
static const Expr *skipWrap(const Expr *e) {
  for (;;) {
    if (auto p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
    else if (auto p = dyn_cast<FullExpr>(e)) e = p->getSubExpr();
    else if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
    else if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
    else return e;
  }
}
static void zeroInit(ObjP o) {
  Node *t = unqual(o->ty);
  if (isIntegral(t)) o->v = mkI(mkInt(t, 0));
  else if (t->k == NK::Ptr) { o->v = Val(); o->v.k = Val::NullP; o->v.ty = t->parent; }
}
static ObjP classObj(Node *ty);
static void defaultFields(ObjP o, Node *cls) {
  ClassDef *cd = complete(cls);
  for (Node *b : cd->bases) defaultFields(o, b);
  for (auto f : cd->def->fields()) {
    Node *ft = substType(f->getType(), cd->env);
    if (f->hasInClassInitializer() && f->getInClassInitializer()) o->fields[f->getCanonicalDecl()] = initObj(ft, f->getInClassInitializer(), cd->env);
    else { ObjP fo = unqual(ft)->k == NK::Class ? classObj(unqual(ft)) : newObj(ft); if (unqual(ft)->k != NK::Class && unqual(ft)->k != NK::Array) zeroInit(fo); o->fields[f->getCanonicalDecl()] = fo; }
  }
}
static ObjP classObj(Node *ty) { ObjP o = newObj(ty); defaultFields(o, ty); return o; }

static ObjP initObj(Node *ty, const Expr *init, const Env &env) {
  init = init ? skipWrap(init) : nullptr;
  Node *u = unqual(ty);
  if (u->k == NK::Array || u->k == NK::IncArray) {
    if (!init) { ObjP o = newObj(u->parent); o->isArray = true; if (u->k == NK::Array) for (i64 i = 0; i < u->n; i++) o->elems.push_back(initObj(u->parent, nullptr, env)); return o; }
    if (auto il = dyn_cast<InitListExpr>(init)) if (il->getNumInits() == 1 && isa<StringLiteral>(skipWrap(il->getInit(0)))) init = skipWrap(il->getInit(0));
    if (auto s = dyn_cast<StringLiteral>(init)) {
      i64 n = u->k == NK::Array ? u->n : (i64)s->getLength() + 1;
      return arrayFromString(s, u->parent, n);
    }
    ObjP o = newObj(u->parent); o->isArray = true;
    if (isa<ImplicitValueInitExpr>(init)) {}
    else initElems(init, env, [&](const Expr *e, const Env &e2) {
      o->elems.push_back(initObj(u->parent, e, e2));
    });
    if (u->k == NK::Array) {
      if ((i64)o->elems.size() > u->n) sfail("excess elements in array initializer");
      while ((i64)o->elems.size() < u->n) { ObjP z = newObj(u->parent); zeroInit(z); o->elems.push_back(z); }
    }
    return o;
  }
  if (u->k == NK::LRef || u->k == NK::RRef) {
    Val v = evalExpr(init, env);
    if (v.k == Val::Lval) return v.o;
    ObjP o = newObj(u->parent); o->v = convertVal(v, u->parent); return o;
  }
  if (u->k == NK::Class) {
    if (init) {
      if (auto il = dyn_cast<InitListExpr>(init)) {
        ObjP o = classObj(u); ClassDef *cd = complete(u);
        auto it = cd->def->field_begin();
        initElems(il, env, [&](const Expr *e, const Env &e2) {
          if (it == cd->def->field_end()) sfail("excess elements in struct initializer");
          Node *ft = substType((*it)->getType(), cd->env);
          o->fields[(*it)->getCanonicalDecl()] = initObj(ft, e, e2); ++it;
        });
        return o;
      }
      if (isa<ParenListExpr>(init)) {
        vector<Val> as; initElems(init, env, [&](const Expr *e, const Env &e2) { as.push_back(evalExpr(e, e2)); });
        Val v = construct(u, as);
        if (v.k == Val::Text) { ObjP o = newObj(u); o->v = v; return o; }
        if (v.k == Val::Cls && v.o) return v.o;
        unsup("class initialisation");
      }
      Val v = rv(evalExpr(init, env));
      if (isTextClass(u)) { ObjP o = newObj(u); o->v = convertVal(v, u); return o; }
      if (v.k == Val::Cls) { if (v.o) return copyObj(v.o); return classObj(v.ty); }
      unsup("class initialisation");
    }
    if (isTextClass(u)) { ObjP o = newObj(u); o->v = mkText(); return o; }
    return classObj(u);
  }
  ObjP o = newObj(ty);
  if (!init) { return o; }
  if (isa<ImplicitValueInitExpr>(init)) { zeroInit(o); return o; }
  if (isa<InitListExpr>(init) || isa<ParenListExpr>(init)) {
    bool any = false;
    initElems(init, env, [&](const Expr *e, const Env &e2) { any = true; o->v = convertVal(rv(evalExpr(e, e2)), ty); });
    if (!any) zeroInit(o);
    return o;
  }
  Node *t = ty;
  if (t->k == NK::Builtin && t->qt->getContainedAutoType()) { o->v = rv(evalExpr(init, env)); return o; }
  o->v = convertVal(rv(evalExpr(init, env)), ty);
  return o;
}
static Val convertVal(Val v, Node *ty) {
  Node *u = unqual(ty);
  if (u->k == NK::LRef || u->k == NK::RRef) return v;
  v = rv(v);
  if (isVoid(u)) { Val r; r.k = Val::Void; return r; }
  if (isIntegral(u)) {
    IT it; intTypeInfo(u, it);
    Node *i = toInt(v);
    return mkI(convInt(i, u, false));
  }
  if (u->k == NK::Ptr) {
    if (v.k == Val::Int) { if (!v.i->sym && v.i->n == 0) { Val r; r.k = Val::NullP; r.ty = u->parent; return r; } unsup("int to pointer"); }
    return v;
  }
  if (u->k == NK::Class) {
    if (isTextClass(u) && (v.k == Val::Text || v.k == Val::Ptr)) { Val r = mkText(); appendText(r, v); return r; }
    if (v.k == Val::Cls) return v;
    unsup("conversion to class " + show(u, 3));
  }
  if (u->k == NK::Other || u->k == NK::Builtin) return v;
  return v;
}

// type of a variable declaration, deducing auto
static bool hasAuto(QualType q) { return q->getContainedAutoType() && !q->getContainedAutoType()->isDeduced(); }
static Node *decayNode(Node *t) {
  t = unref(t);
  if (t->k == NK::Array || t->k == NK::IncArray) return mkWrap(NK::Ptr, t->parent);
  if (t->k == NK::Func) return mkWrap(NK::Ptr, t);
  return unqual(t);
}
static Node *varType(const VarDecl *vd, const Env &env) {
  QualType q = vd->getType();
  if (auto at = q->getContainedAutoType()) {
    if (!at->isDeduced() || q->isInstantiationDependentType()) {
      Node *t = typeOf(vd->getAnyInitializer() ? vd->getAnyInitializer() : vd->getInit(), env);
      if (q->isLValueReferenceType()) return mkWrap(NK::LRef, unref(t));
      if (q->isRValueReferenceType()) return t->k == NK::LRef ? t : mkWrap(NK::RRef, unref(t));
      Node *r = decayNode(t);
      return q.isConstQualified() ? mkQual(r, 1) : r;
    }
  }
  Node *r = substType(q, env);
  Node *u = unqual(r);
  if (u->k == NK::IncArray && vd->getAnyInitializer()) {
    const Expr *in = skipWrap(vd->getAnyInitializer());
    if (auto il = dyn_cast<InitListExpr>(in)) if (il->getNumInits() == 1 && isa<StringLiteral>(skipWrap(il->getInit(0)))) in = skipWrap(il->getInit(0));
    i64 n = 0;
    if (auto s = dyn_cast<StringLiteral>(in)) n = (i64)s->getLength() + 1;
    else initElems(in, env, [&](const Expr *, const Env &) { n++; });
    r = mkWrap(NK::Array, u->parent, n);
  }
  return r;
}

static std::map<const VarDecl *, ObjP> g_globals;
static const Expr *varInit(const VarDecl *vd) {
  const VarDecl *d = nullptr;
  if (const Expr *e = vd->getAnyInitializer(d)) return e;
  if (auto p = vd->getTemplateInstantiationPattern()) if (const Expr *e = p->getAnyInitializer(d)) return e;
  return nullptr;
}
static std::map<std::pair<ClassDef *, const Decl *>, ObjP> g_statics;
static Val staticMember(ClassDef *o, const VarDecl *vd) {
  if (vd->getDeclName().isIdentifier() && vd->getName() == "value")
    if (Node *n = intrinsic(o)) return mkI(n);
  auto key = std::make_pair(o, (const Decl *)vd->getCanonicalDecl());
  auto it = g_statics.find(key);
  if (it != g_statics.end()) return mkLv(it->second);
  if (o->busy.count(vd)) hard("recursive evaluation of static member " + declName(vd));
  o->busy.insert(vd);
  ObjP r;
  try {
    const Expr *init = varInit(vd);
    if (!init) sfail("static member without constant initializer: " + declName(vd));
    Node *t = varType(vd, o->env);
    r = initObj(t, init, o->env);
  } catch (SubstFail &f) { o->busy.erase(vd); throw HardError{f.msg + " [in static member " + declName(vd) + " of " + show(o->self, 4) + "]"}; }
  catch (...) { o->busy.erase(vd); throw; }
  o->busy.erase(vd);
  g_statics[key] = r;
  return mkLv(r);
}
static Val enumConst(ClassDef *o, const EnumConstantDecl *ec) {
  Env env; if (o) env = o->env;
  auto ed = cast<EnumDecl>(ec->getDeclContext());
  if (!ed->isDependentType() && !ec->getInitVal().getBitWidth() == 0 && !o) {
    return mkI(mkInt(substType(AC->getTypeDeclType(ed), env), ec->getInitVal().getExtValue()));
  }
  if (o) { auto it = o->vmemo.find(ec); if (it != o->vmemo.end()) return it->second; }
  Node *et = mkEnum(ed, o ? o->self : nullptr);
  Node *prev = nullptr; Node *res = nullptr;
  for (auto c : ed->enumerators()) {
    Node *v;
    if (c->getInitExpr()) v = toInt(evalExpr(c->getInitExpr(), env));
    else if (prev) v = arith(BO_Add, prev, mkInt(tInt, 1));
    else v = mkInt(tInt, 0);
    prev = v;
    if (o) o->vmemo[c] = mkI(convInt(v, et, false));
    if (c == ec) res = v;
  }
  if (!res) unsup("enum constant");
  return mkI(convInt(res, et, false));
}
static Val memberValue(NamedDecl *d, ClassDef *owner) {
  if (auto us = dyn_cast<UsingShadowDecl>(d)) d = us->getTargetDecl();
  if (auto vd = dyn_cast<VarDecl>(d)) {
    // a using declaration may bring a member of another class
    return staticMember(owner, vd);
  }
  if (auto ec = dyn_cast<EnumConstantDecl>(d)) return enumConst(owner, ec);
  if (auto ind = dyn_cast<IndirectFieldDecl>(d)) (void)ind;
  if (auto uu = dyn_cast<UnresolvedUsingValueDecl>(d)) {
    Node *c = nullptr;
    if (!resolveNNS(uu->getQualifier(), owner->env, c) || !c) unsup("using value");
    Found f = lookupMember(c, uu->getDeclName());
    if (f.ds.empty()) sfail("using value not found");
    return memberValue(f.ds[0], f.owner);
  }
  if (auto fd = dyn_cast<FunctionDecl>(d)) { Val v; v.k = Val::Fn; v.fn = fd; v.ty = owner->self; return v; }
  sfail("member is not a value: " + declName(d));
}
// enumerators of unnamed member enums are found by the record's lookup (they are in its scope)
static Val memberValueByName(Node *cls, DeclarationName n) {
  Found f = lookupMember(cls, n);
  if (f.ds.empty()) sfail("no member value '" + n.getAsString() + "' in " + show(unqual(cls)));
  return memberValue(f.ds[0], f.owner);
}
static ClassDef *ownerOf(const Decl *d, const Env &env) {
  auto dc = d->getDeclContext();
  if (isa<EnumDecl>(dc)) dc = dc->getParent();
  auto p = dyn_cast<CXXRecordDecl>(dc);
  if (!p) return nullptr;
  Node *c = findEnclosing(p, env);
  if (!c) c = convRecord(p, env);
  return c->def ? c->def : complete(c);
}
static Val declValue(const ValueDecl *d, const Env &env) {
  if (auto nt = dyn_cast<NonTypeTemplateParmDecl>(d)) {
    Node *n = lookupParm(env, nt->getDepth(), nt->getIndex(), nt->isParameterPack(), "value");
    if (n->k == NK::Pack) unsup("unexpanded pack");
    if (n->k != NK::Int) unsup("non-int nttp");
    return mkI(n);
  }
  if (env.fr) {
    auto it = env.fr->vars.find(d);
    if (it != env.fr->vars.end()) return mkLv(it->second);
    auto pi = env.fr->packs.find(d);
    if (pi != env.fr->packs.end() && env.ppk && env.ppk->count(d)) return mkLv(pi->second.at(env.ppk->at(d)));
  }
  if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
    ClassDef *o = ownerOf(d, env);
    if (o && cast<EnumDecl>(ec->getDeclContext())->getInstantiatedFromMemberEnum())
      return memberValueByName(o->self, ec->getDeclName());
    return enumConst(o, ec);
  }
  if (auto fd = dyn_cast<FunctionDecl>(d)) { Val v; v.k = Val::Fn; v.fn = fd; if (ClassDef *o = ownerOf(d, env)) v.ty = o->self; return v; }
  if (auto vs = dyn_cast<VarTemplateSpecializationDecl>(d)) {
    if (const Expr *in = varInit(vs)) if (!in->isValueDependent()) { Env e0; return mkLv(initObj(substType(vs->getType(), e0), in, e0)); }
    unsup("variable template");
  }
  if (auto vd = dyn_cast<VarDecl>(d)) {
    if (ClassDef *o = ownerOf(d, env)) {
      if (vd->getInstantiatedFromStaticDataMember()) return memberValueByName(o->self, vd->getDeclName());
      return staticMember(o, vd);
    }
    if (g_textmode && vd->isInStdNamespace() && vd->getIdentifier()) { if (vd->getName() == "cout") return mkLv(coutObj()); if (vd->getName() == "cerr" || vd->getName() == "clog") return mkLv(cerrObj()); }
    vd = vd->getCanonicalDecl();
    auto it = g_globals.find(vd);
    if (it != g_globals.end()) return mkLv(it->second);
    const Expr *in = varInit(vd);
    if (!in || !(vd->isConstexpr() || vd->getType().isConstQualified())) sfail("read of non-constant variable " + declName(vd));
    Env e0; ObjP o = initObj(varType(vd, e0), in, e0);
    g_globals[vd] = o; return mkLv(o);
  }
  unsup("declaration value " + declName(d));
}

// ------------------------------------------------------------ sizes
static i64 alignOfNode(Node *t);
static i64 sizeOfNode(Node *t) {
  t = unqual(unref(t));
  switch (t->k) {
  case NK::Builtin: case NK::Other:
    if (isVoid(t)) return 1;
    return AC->getTypeSizeInChars(t->qt).getQuantity();
  case NK::Enum: { IT it; intTypeInfo(t, it); return it.isb ? 1 : it.w / 8; }
  case NK::Ptr: return 8;
  case NK::Array: return t->n * sizeOfNode(t->parent);
  case NK::MemPtr: return t->args[1]->k == NK::Func ? 16 : 8;
  case NK::Class: {
    ClassDef *cd = complete(t);
    i64 off = 0, al = 1; bool any = false;
    for (Node *b : cd->bases) {
      i64 s = sizeOfNode(b), a = alignOfNode(b);
      ClassDef *bd = complete(b);
      bool empty = s == 1 && bd->def->field_empty();
      if (!empty) { off = (off + a - 1) / a * a + s; any = true; }
      al = std::max(al, a);
    }
    for (auto f : cd->def->fields()) {
      Node *ft = substType(f->getType(), cd->env);
      i64 s = (ft->k == NK::LRef || ft->k == NK::RRef) ? 8 : sizeOfNode(ft), a = (ft->k == NK::LRef || ft->k == NK::RRef) ? 8 : alignOfNode(ft);
      off = (off + a - 1) / a * a + s; al = std::max(al, a); any = true;
    }
    for (auto m : cd->def->methods()) if (m->isVirtual()) unsup("sizeof of polymorphic class");
    if (!any) off = 1;
    return (off + al - 1) / al * al;
  }
  default: sfail("sizeof of incomplete type " + show(t, 3));
  }
}
static i64 alignOfNode(Node *t) {
  t = unqual(unref(t));
  switch (t->k) {
  case NK::Array: return alignOfNode(t->parent);
  case NK::Class: { ClassDef *cd = complete(t); i64 a = 1; for (Node *b : cd->bases) a = std::max(a, alignOfNode(b)); for (auto f : cd->def->fields()) { Node *ft = substType(f->getType(), cd->env); a = std::max(a, (ft->k == NK::LRef || ft->k == NK::RRef) ? 8 : alignOfNode(ft)); } return a; }
  default: return sizeOfNode(t);
  }
}

// ------------------------------------------------------------ conversions between types (for overloads and traits)
static bool derivesFrom(Node *d, Node *b, Conds &c, int &dist, int depth = 1) {
  d = unqual(d); b = unqual(b);
  if (d->k != NK::Class || b->k != NK::Class) return false;
  ClassDef *cd;
  try { cd = complete(d); } catch (SubstFail &) { return false; }
  for (Node *x : cd->bases) {
    Conds c2;
    if (nodeEq(x, b, c2)) { for (auto &e : c2.v) c.add(e); dist = depth; return true; }
    if (derivesFrom(x, b, c, dist, depth + 1)) return true;
  }
  return false;
}
// rank: <0 not convertible; lower is better. from: type with value category (LRef = lvalue)
enum { RK_EXACT = 0, RK_QUAL = 1, RK_PROMO = 10, RK_CONV = 20, RK_BASE = 21, RK_USER = 1000, RK_ELL = 2000 };
static int convRank(Node *from, Node *to, Conds &c, bool nullConst, int depth = 0) {
  bool lval = from->k == NK::LRef;
  Node *f = unref(from);
  if (to->k == NK::LRef || to->k == NK::RRef) {
    Node *t = to->parent;
    unsigned tcv = t->k == NK::Qual ? t->n : 0, fcv = f->k == NK::Qual ? f->n : 0;
    if (f->k == NK::Array && f->parent->k == NK::Qual) fcv |= f->parent->n;
    if (t->k == NK::Array && t->parent->k == NK::Qual) tcv |= t->parent->n;
    Conds c2; int dist = 0;
    bool same = nodeEq(unqual(f), unqual(t), c2) ;
    if (!same && f->k == NK::Array && t->k == NK::Array && f->n == t->n) { c2 = Conds(); same = nodeEq(unqual(f->parent), unqual(t->parent), c2); }
    if (!same && f->k == NK::Array && t->k == NK::IncArray) { c2 = Conds(); same = nodeEq(unqual(f->parent), unqual(t->parent), c2); }
    bool base = false;
    if (!same) { c2 = Conds(); base = derivesFrom(f, t, c2, dist); }
    if (same || base) {
      if ((fcv & tcv) == fcv) {
        if (to->k == NK::LRef && !lval && !(tcv & 1)) return -1;
        if (to->k == NK::RRef && lval && f->k != NK::Func) return -1;
        for (auto &e : c2.v) c.add(e);
        int r = base ? RK_BASE + dist : RK_EXACT;
        if (fcv != tcv) r += RK_QUAL;
        if (to->k == NK::LRef && !lval) r += 1;  // rvalue prefers &&
        return r;
      }
      return -1;
    }
    // temporary
    if (to->k == NK::LRef && !(tcv & 1)) return -1;
    return convRank(from, unqual(t), c, nullConst, depth);
  }
  Node *t = unqual(to);
  Node *s = decayNode(f);
  if (isVoid(t) || isVoid(s)) return -1;
  {
    Conds c2;
    if (nodeEq(s, t, c2)) { for (auto &e : c2.v) c.add(e); return RK_EXACT; }
  }
  if (isIntegral(s) && isIntegral(t)) {
    if (t->k == NK::Enum) return -1;
    if (s->k == NK::Enum && cast<EnumDecl>(s->d)->isScoped()) return -1;
    if (promoteType(s) == t) return RK_PROMO;
    return RK_CONV;
  }
  if ((isIntegral(s) || isFloat(s)) && (isFloat(t) || isIntegral(t)) && t->k != NK::Enum) return RK_CONV;
  if (t->k == NK::Ptr) {
    if (nullConst || (s->k == NK::Builtin && s->qt->isNullPtrType())) return RK_CONV;
    if (s->k == NK::Ptr) {
      unsigned tcv = t->parent->k == NK::Qual ? t->parent->n : 0, fcv = s->parent->k == NK::Qual ? s->parent->n : 0;
      if ((fcv & tcv) != fcv) return -1;
      Conds c2; int dist = 0;
      if (nodeEq(unqual(s->parent), unqual(t->parent), c2)) { for (auto &e : c2.v) c.add(e); return RK_EXACT + (fcv != tcv ? RK_QUAL : 0); }
      if (isVoid(t->parent) && unqual(s->parent)->k != NK::Func) return RK_CONV + 9;
      c2 = Conds();
      if (derivesFrom(s->parent, t->parent, c2, dist)) { for (auto &e : c2.v) c.add(e); return RK_BASE + dist; }
      return -1;
    }
    return -1;
  }
  if (t->k == NK::MemPtr && nullConst) return RK_CONV;
  if (t->k == NK::Builtin && t->qt->isNullPtrType()) return nullConst ? RK_CONV : -1;
  if (isIntegral(t) && qOf(t)->isBooleanType() && (s->k == NK::Ptr || s->k == NK::MemPtr)) return RK_CONV + 5;
  if (s->k == NK::Class) {
    if (t->k == NK::Class) {
      Conds c2; int dist;
      if (derivesFrom(s, t, c2, dist)) { for (auto &e : c2.v) c.add(e); return RK_BASE + dist; }
    }
    // conversion functions
    if (depth == 0 && t->k != NK::Class) {
      std::function<int(Node *)> conv = [&](Node *cl) -> int {
        ClassDef *cd;
        try { cd = complete(cl); } catch (SubstFail &) { return -1; }
        for (auto d : cd->def->decls()) if (auto cv = dyn_cast<CXXConversionDecl>(d)) {
          Node *rt = substType(cv->getConversionType(), cd->env);
          int r = convRank(rt, t, c, false, 1);
          if (r >= 0) return RK_USER + r;
        }
        for (Node *b : cd->bases) { int r = conv(b); if (r >= 0) return r; }
        return -1;
      };
      int r = conv(s);
      if (r >= 0) return r;
    }
  }
  if (t->k == NK::Class && depth == 0) {
    // converting constructors
    ClassDef *cd;
    try { cd = complete(t); } catch (SubstFail &) { return -1; }
    if (cd->def->hasUserDeclaredConstructor()) for (auto ct : cd->def->ctors()) {
      if (ct->isExplicit() || ct->getNumParams() < 1 || ct->getMinRequiredArguments() > 1) continue;
      if (ct->isImplicit()) continue;
      Node *pt = substType(ct->getParamDecl(0)->getType(), cd->env);
      int r = convRank(from, pt, c, nullConst, 1);
      if (r >= 0) return RK_USER + r;
    }
  }
  return -1;
}

// ------------------------------------------------------------ overload resolution
struct Cand { const FunctionDecl *fd = nullptr; const FunctionTemplateDecl *ft = nullptr; ClassDef *owner = nullptr; };
struct Sel { const FunctionDecl *fd = nullptr; Env env; Node *ret = nullptr; vector<Node *> ptypes; };

static void addCand(NamedDecl *d, ClassDef *owner, vector<Cand> &out) {
  if (auto us = dyn_cast<UsingShadowDecl>(d)) {
    NamedDecl *t = us->getTargetDecl();
    ClassDef *o = owner;
    if (auto p = dyn_cast<CXXRecordDecl>(t->getDeclContext())) {
      Env e = owner ? owner->env : Env(); Node *c = convRecord(p, e); o = complete(c);
      if (isImplicitInst(p)) {
        Found f = lookupMember(c, t->getDeclName());
        for (auto x : f.ds) addCand(x, f.owner, out);
        return;
      }
    }
    addCand(t, o, out); return;
  }
  if (auto uu = dyn_cast<UnresolvedUsingValueDecl>(d)) {
    Node *c = nullptr;
    if (!resolveNNS(uu->getQualifier(), owner->env, c) || !c) unsup("using value");
    Found f = lookupMember(c, uu->getDeclName());
    if (f.ds.empty()) sfail("using declaration names no member");
    for (auto x : f.ds) addCand(x, f.owner, out);
    return;
  }
  if (auto ft = dyn_cast<FunctionTemplateDecl>(d)) { Cand c; c.ft = ft; c.owner = owner; out.push_back(c); return; }
  if (auto fd = dyn_cast<FunctionDecl>(d)) { Cand c; c.fd = fd; c.owner = owner; out.push_back(c); return; }
}
static bool deduceCall(QualType P, Node *A, Bind &b, const Env &env) {
  if (!mentionsDepth(P)) return true;
  if (auto r = P->getAs<ReferenceType>()) {
    QualType in = r->getPointeeTypeAsWritten();
    if (P->isRValueReferenceType() && !in.hasQualifiers() && isa<TemplateTypeParmType>(in.getTypePtr()) && A->k == NK::LRef) {
      auto tp = cast<TemplateTypeParmType>(in.getTypePtr());
      if (tp->getDepth() == b.depth) return bindParm(b, tp->getIndex(), tp->isParameterPack(), A);
    }
    Node *a = unref(A);
    unsigned pcv = in.getLocalFastQualifiers() & 7;
    if (a->k == NK::Array && pcv) {
      return deduceType(in, mkQual(a, pcv), b, env);
    }
    if (in->isArrayType()) return deduceType(in, a, b, env);
    Node *aa = mkQual(a, pcv);
    // drop extra qualifiers of the argument only when P is a bare parameter (handled by deduceType)
    Bind save = b;
    if (deduceType(in, aa, b, env)) return true;
    b = save;
    if (unqual(a)->k == NK::Class) {
      std::function<bool(Node *)> tr = [&](Node *c) { for (Node *x : complete(c)->bases) { Bind s2 = b; if (deduceType(in, mkQual(x, pcv), b, env)) return true; b = s2; if (tr(x)) return true; } return false; };
      return tr(unqual(a));
    }
    return false;
  }
  Node *a = decayNode(A);
  QualType p = P.getUnqualifiedType();
  if (auto pt = p->getAs<PointerType>()) {
    if (a->k != NK::Ptr) {
      // e.g. template <class U> f(wrap<U>*) called with 0
      QualType in = pt->getPointeeType(); (void)in; return false;
    }
    QualType in = pt->getPointeeType();
    unsigned pcv = in.getQualifiers().getFastQualifiers() & 7;
    Node *aa = a->parent;
    Bind save = b;
    if (deduceType(in, mkQual(unqual(aa), (aa->k == NK::Qual ? aa->n : 0) | pcv), b, env)) return true;
    b = save;
    if (unqual(aa)->k == NK::Class) {
      std::function<bool(Node *)> tr = [&](Node *c) { for (Node *x : complete(c)->bases) { Bind s2 = b; if (deduceType(in, mkQual(x, pcv), b, env)) return true; b = s2; if (tr(x)) return true; } return false; };
      try { return tr(unqual(aa)); } catch (SubstFail &) { return false; }
    }
    return false;
  }
  Bind save = b;
  if (deduceType(p, a, b, env)) return true;
  b = save;
  if (a->k == NK::Class && isa<TemplateSpecializationType>(p.getCanonicalType().getTypePtr())) {
    std::function<bool(Node *)> tr = [&](Node *c) { for (Node *x : complete(c)->bases) { Bind s2 = b; if (deduceType(p, x, b, env)) return true; b = s2; if (tr(x)) return true; } return false; };
    return tr(a);
  }
  return false;
}
struct ArgInfo { Node *ty; bool nullc; };

static const FunctionDecl *defOf(const FunctionDecl *fd) {
  const FunctionDecl *d = nullptr;
  if (fd->hasBody(d)) return d;
  return fd;
}
static Node *returnType(const FunctionDecl *fd, const Env &env);

static bool viable(const Cand &cd, const vector<Node *> &expl, const vector<ArgInfo> &args, Sel &sel, vector<int> &ranks) {
  const FunctionDecl *fd = cd.fd;
  Env env; if (cd.owner) env = cd.owner->env;
  if (cd.owner) env.cls = cd.owner->self;
  try {
    if (cd.ft) {
      fd = cd.ft->getTemplatedDecl();
      auto pl = cd.ft->getTemplateParameters();
      Bind b; b.depth = pl->getDepth(); b.a.resize(pl->size(), nullptr);
      Lv *l = new Lv{env.lv, b.depth, {}}; l->a.resize(pl->size(), nullptr);
      Env e2 = env; e2.lv = l;
      size_t gi = 0; int explPack = -1;
      for (unsigned i = 0; i < pl->size() && gi < expl.size(); i++) {
        if (pl->getParam(i)->isTemplateParameterPack()) {
          vector<Node *> v; while (gi < expl.size()) v.push_back(convToParam(pl->getParam(i), expl[gi++], e2));
          b.a[i] = l->a[i] = mkPack(v); explPack = i;
        } else { b.a[i] = l->a[i] = convToParam(pl->getParam(i), expl[gi++], e2); }
      }
      (void)explPack;
      if (gi < expl.size()) return false;
      size_t ai = 0;
      for (unsigned i = 0; i < fd->getNumParams(); i++) {
        QualType pt = fd->getParamDecl(i)->getType();
        if (auto pe = pt->getAs<PackExpansionType>()) {
          SmallVector<UnexpandedParameterPack, 2> ps; SM->collectUnexpandedParameterPacks(pe->getPattern(), ps);
          std::map<unsigned, vector<Node *>> acc;
          std::set<unsigned> idxs;
          for (auto &u : ps) {
            unsigned d = ~0u, x = 0;
            if (auto tp = u.first.dyn_cast<const TemplateTypeParmType *>()) { d = tp->getDepth(); x = tp->getIndex(); }
            else { auto nd = u.first.get<NamedDecl *>(); if (auto t = dyn_cast<TemplateTypeParmDecl>(nd)) { d = t->getDepth(); x = t->getIndex(); } else if (auto t = dyn_cast<NonTypeTemplateParmDecl>(nd)) { d = t->getDepth(); x = t->getIndex(); } }
            if (d == b.depth) { idxs.insert(x); acc[x]; }
          }
          for (; ai < args.size(); ai++) {
            std::map<unsigned, Node *> el; auto save = b.elem; b.elem = &el;
            bool ok = deduceCall(pe->getPattern(), args[ai].ty, b, e2); b.elem = save;
            if (!ok) return false;
            for (auto x : idxs) { auto it = el.find(x); if (it == el.end()) return false; acc[x].push_back(it->second); }
          }
          for (auto x : idxs) if (!b.a[x]) b.a[x] = mkPack(acc[x]);
          continue;
        }
        if (ai >= args.size()) break;
        if (!(args[ai].nullc && pt->isPointerType() ) || true) {
          // parameters fully determined by explicit arguments are converted, not deduced
          struct V : RecursiveASTVisitor<V> { Bind *b; bool need = false;
            bool VisitTemplateTypeParmType(TemplateTypeParmType *t) { if (t->getDepth() == b->depth && !b->a[t->getIndex()]) need = true; return true; }
            bool VisitDeclRefExpr(DeclRefExpr *e) { if (auto n = dyn_cast<NonTypeTemplateParmDecl>(e->getDecl())) if (n->getDepth() == b->depth && !b->a[n->getIndex()]) need = true; return true; }
            bool TraverseTemplateName(TemplateName tn) { if (auto tt = dyn_cast_or_null<TemplateTemplateParmDecl>(tn.getAsTemplateDecl())) if (tt->getDepth() == b->depth && !b->a[tt->getIndex()]) need = true; return RecursiveASTVisitor<V>::TraverseTemplateName(tn); }
          } v; v.b = &b; v.TraverseType(pt);
          if (v.need && !deduceCall(pt, args[ai].ty, b, e2)) return false;
        }
        ai++;
      }
      if (!b.c.settle()) return false;
      for (unsigned i = 0; i < pl->size(); i++) {
        auto p = pl->getParam(i);
        if (b.a[i]) { l->a[i] = b.a[i]; if (isa<NonTypeTemplateParmDecl>(p) && b.a[i]->k == NK::Int) l->a[i] = convToParam(p, b.a[i], e2); continue; }
        if (p->isTemplateParameterPack()) { l->a[i] = mkPack({}); continue; }
        if (auto t = dyn_cast<TemplateTypeParmDecl>(p)) { if (!t->hasDefaultArgument()) return false; l->a[i] = substType(t->getDefaultArgument(), e2); }
        else if (auto t = dyn_cast<NonTypeTemplateParmDecl>(p)) { if (!t->hasDefaultArgument()) return false; l->a[i] = convToParam(p, constNode(evalExpr(t->getDefaultArgument(), e2)), e2); }
        else { auto tt = cast<TemplateTemplateParmDecl>(p); if (!tt->hasDefaultArgument()) return false; l->a[i] = evalTemplateName(tt->getDefaultArgument().getArgument().getAsTemplate(), e2); }
      }
      env = e2;
    } else if (!expl.empty()) return false;
    // substitute the parameter types
    vector<Node *> pts; size_t fixed = 0;
    for (unsigned i = 0; i < fd->getNumParams(); i++) {
      QualType pt = fd->getParamDecl(i)->getType();
      if (auto pe = pt->getAs<PackExpansionType>()) {
        SmallVector<UnexpandedParameterPack, 2> ps; SM->collectUnexpandedParameterPacks(pe->getPattern(), ps);
        expandPack(ps, env, [&](const Env &e2) { pts.push_back(substType(pe->getPattern(), e2)); });
        continue;
      }
      pts.push_back(substType(pt, env));
    }
    (void)fixed;
    if (args.size() > pts.size() && !fd->isVariadic()) return false;
    if (args.size() < pts.size()) {
      if (args.size() < fd->getMinRequiredArguments()) return false;
    }
    Conds c;
    for (size_t i = 0; i < args.size(); i++) {
      if (i >= pts.size()) { ranks.push_back(RK_ELL); continue; }
      int r = convRank(args[i].ty, pts[i], c, args[i].nullc);
      if (r < 0) return false;
      ranks.push_back(r);
    }
    if (!c.settle()) return false;
    sel.fd = fd; sel.env = env; sel.ptypes = pts;
    if (cd.ft) sel.ret = returnType(fd, env);   // substitution into the return type is part of SFINAE
    return true;
  } catch (SubstFail &f) {
    if (g_trace) fprintf(stderr, "   cand fail: %s\n", f.msg.c_str());
    return false;
  }
}
static Sel resolve(const vector<Cand> &cands, const vector<Node *> &expl, const vector<ArgInfo> &args, const string &what) {
  struct R { Sel s; vector<int> r; const Cand *c; };
  vector<R> vs;
  for (auto &c : cands) {
    R r; r.c = &c;
    if (viable(c, expl, args, r.s, r.r)) vs.push_back(r);
  }
  if (vs.empty()) sfail("no viable function for call to " + what);
  auto better = [&](const R &a, const R &b) -> int {   // 1: a better; -1: b better; 0 tie/ambiguous
    bool ab = false, bb = false;
    for (size_t i = 0; i < args.size(); i++) { if (a.r[i] < b.r[i]) ab = true; if (a.r[i] > b.r[i]) bb = true; }
    if (ab && !bb) return 1;
    if (bb && !ab) return -1;
    if (ab && bb) return 0;
    if (!a.c->ft && b.c->ft) return 1;
    if (a.c->ft && !b.c->ft) return -1;
    if (a.c->ft && b.c->ft && a.c->ft != b.c->ft) {
      auto m = SM->getMoreSpecializedTemplate(const_cast<FunctionTemplateDecl *>(a.c->ft), const_cast<FunctionTemplateDecl *>(b.c->ft), SourceLocation(), TPOC_Call, args.size(), args.size());
      if (m == a.c->ft) return 1;
      if (m == b.c->ft) return -1;
    }
    return 0;
  };
  size_t best = 0;
  for (size_t i = 1; i < vs.size(); i++) if (better(vs[i], vs[best]) > 0) best = i;
  for (size_t i = 0; i < vs.size(); i++) if (i != best && better(vs[best], vs[i]) <= 0) {
    if (vs[i].s.fd->getCanonicalDecl() == vs[best].s.fd->getCanonicalDecl()) continue;
    // a member hidden by the derived class's own overload with the same parameter types
    if (vs[i].c->owner && vs[best].c->owner && vs[i].c->owner != vs[best].c->owner && vs[i].s.ptypes == vs[best].s.ptypes) continue;
    sfail("ambiguous call to " + what);
  }
  Sel s = vs[best].s;
  if (!s.ret) s.ret = returnType(s.fd, s.env);
  return s;
}

static void callArgs(const CallExpr *ce, const Env &env, std::function<void(const Expr *, const Env &)> f) {
  for (auto a : ce->arguments()) {
    if (auto pe = dyn_cast<PackExpansionExpr>(a)) {
      SmallVector<UnexpandedParameterPack, 2> ps;
      SM->collectUnexpandedParameterPacks(TemplateArgument(const_cast<Expr *>(pe->getPattern())), ps);
      expandPack(ps, env, [&](const Env &e2) { f(pe->getPattern(), e2); });
    } else f(a, env);
  }
}
static bool isNullConst(const Expr *e) {
  e = e->IgnoreParenImpCasts();
  if (auto i = dyn_cast<IntegerLiteral>(e)) return i->getValue() == 0;
  return isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e);
}
static void explicitArgs(const OverloadExpr *oe, const Env &env, vector<Node *> &expl) {
  if (!oe->hasExplicitTemplateArgs()) return;
  for (auto &a : oe->template_arguments()) evalArg(a.getArgument(), env, expl);
}
// find the function called
static Sel resolveCall(const CallExpr *ce, const Env &env, Val &thisv) {
  const Expr *cal = ce->getCallee()->IgnoreParenImpCasts();
  vector<Cand> cands; vector<Node *> expl; vector<ArgInfo> args;
  callArgs(ce, env, [&](const Expr *e, const Env &e2) { args.push_back({typeOf(e, e2), isNullConst(e)}); });
  string what;
  if (auto sn = dyn_cast<SubstNonTypeTemplateParmExpr>(cal)) cal = sn->getReplacement()->IgnoreParenImpCasts();
  if (auto dr = dyn_cast<DeclRefExpr>(cal)) {
    auto fd = dyn_cast<FunctionDecl>(dr->getDecl());
    what = declName(dr->getDecl());
    if (!fd) unsup("call through a pointer");
    ClassDef *o = ownerOf(fd, env);
    if (auto fs = fd->getPrimaryTemplate()) {
      (void)fs;
      // instantiated by clang: fully concrete
      Sel s; Env e0; if (o) e0 = o->env;
      if (fd->hasBody() && !fd->isDependentContext()) {
        s.fd = fd; s.env = Env(); s.env.cls = nullptr; Env ez;
        for (auto p : fd->parameters()) s.ptypes.push_back(substType(p->getType(), ez));
        s.ret = substType(fd->getReturnType(), ez);
        return s;
      }
      for (auto &a : fd->getTemplateSpecializationArgs()->asArray()) { Env ez; Node *n = convArg(a, ez); if (n->k == NK::Pack) for (auto x : n->args) expl.push_back(x); else expl.push_back(n); }
      Cand c; c.ft = fs; c.owner = o; cands.push_back(c);
    } else if (o && fd->getInstantiatedFromMemberFunction()) {
      Found f = lookupMember(o->self, fd->getDeclName());
      for (auto d : f.ds) addCand(d, f.owner, cands);
    } else {
      if (dr->hasExplicitTemplateArgs()) {}
      Cand c; c.fd = fd; c.owner = o; cands.push_back(c);
    }
  } else if (auto ul = dyn_cast<UnresolvedLookupExpr>(cal)) {
    what = ul->getName().getAsString();
    explicitArgs(ul, env, expl);
    for (auto d : ul->decls()) { ClassDef *o = nullptr; if (isa<CXXRecordDecl>(d->getDeclContext()) ) o = ownerOf(d, env); addCand(d, o, cands); }
  } else if (auto ds = dyn_cast<DependentScopeDeclRefExpr>(cal)) {
    what = ds->getDeclName().getAsString();
    Node *c = nullptr;
    if (!resolveNNS(ds->getQualifier(), env, c) || !c) unsup("call of a dependent name in a namespace");
    Found f = lookupMember(c, ds->getDeclName());
    if (f.ds.empty()) sfail("no member '" + what + "' in " + show(c));
    for (auto d : f.ds) addCand(d, f.owner, cands);
    if (ds->hasExplicitTemplateArgs()) for (auto &a : ds->template_arguments()) evalArg(a.getArgument(), env, expl);
  } else if (auto me = dyn_cast<MemberExpr>(cal)) {
    what = me->getMemberNameInfo().getAsString();
    Node *ot = unqual(unref(typeOf(me->getBase(), env))); if (me->isArrow() && ot->k == NK::Ptr) ot = unqual(ot->parent);
    Found f = lookupMember(ot, me->getMemberDecl()->getDeclName());
    for (auto d : f.ds) addCand(d, f.owner, cands);
    if (me->hasExplicitTemplateArgs()) for (auto &a : me->template_arguments()) evalArg(a.getArgument(), env, expl);
  } else if (auto me = dyn_cast<CXXDependentScopeMemberExpr>(cal)) {
    what = me->getMember().getAsString();
    Node *ot = unqual(unref(substType(me->getBaseType(), env)->k == NK::Other ? typeOf(me->getBase(), env) : me->isImplicitAccess() ? substType(me->getBaseType(), env) : typeOf(me->getBase(), env)));
    if (me->isArrow() && ot->k == NK::Ptr) ot = unqual(ot->parent);
    if (me->getQualifier()) { Node *c = nullptr; if (resolveNNS(me->getQualifier(), env, c) && c) ot = unqual(c); }
    Found f = lookupMember(ot, me->getMember());
    if (f.ds.empty()) sfail("no member " + what);
    for (auto d : f.ds) addCand(d, f.owner, cands);
    if (me->hasExplicitTemplateArgs()) for (auto &a : me->template_arguments()) evalArg(a.getArgument(), env, expl);
  } else if (auto um = dyn_cast<UnresolvedMemberExpr>(cal)) {
    what = um->getMemberName().getAsString();
    explicitArgs(um, env, expl);
    for (auto d : um->decls()) addCand(d, ownerOf(d, env), cands);
  } else unsup(string("callee ") + cal->getStmtClassName());
  (void)thisv;
  return resolve(cands, expl, args, what);
}
static Val objectOf(const CallExpr *ce, const Env &env) {
  const Expr *cal = ce->getCallee()->IgnoreParenImpCasts();
  const Expr *b = nullptr; bool arrow = false;
  if (auto me = dyn_cast<MemberExpr>(cal)) { b = me->getBase(); arrow = me->isArrow(); }
  else if (auto me = dyn_cast<CXXDependentScopeMemberExpr>(cal)) { if (!me->isImplicitAccess()) b = me->getBase(); arrow = me->isArrow(); if (!b && env.fr) return env.fr->thisv; }
  else if (auto me = dyn_cast<UnresolvedMemberExpr>(cal)) { if (!me->isImplicitAccess()) b = me->getBase(); arrow = me->isArrow(); if (!b && env.fr) return env.fr->thisv; }
  if (!b) return Val();
  Val v = evalExpr(b, env);
  if (arrow) v = rv(v);
  return v;
}

// ------------------------------------------------------------ statements
enum Flow { F_NEXT, F_RET, F_BRK, F_CONT };
static long g_loopsteps = 0;
static Flow exec(const Stmt *s, Env &env, Val &ret);
static void declLocal(const VarDecl *vd, Env &env) {
  if (vd->isStaticLocal() && !vd->isConstexpr() && !vd->getType().isConstQualified()) unsup("static local");
  Node *t = varType(vd, env);
  const Expr *in = vd->getInit();
  ObjP o = initObj(t, in, env);
  env.fr->vars[vd] = o;
}
static Flow exec(const Stmt *s, Env &env, Val &ret) {
  if (!s) return F_NEXT;
  switch (s->getStmtClass()) {
  case Stmt::CompoundStmtClass:
    for (auto c : cast<CompoundStmt>(s)->body()) { Flow f = exec(c, env, ret); if (f != F_NEXT) return f; }
    return F_NEXT;
  case Stmt::DeclStmtClass:
    for (auto d : cast<DeclStmt>(s)->decls()) {
      if (auto vd = dyn_cast<VarDecl>(d)) declLocal(vd, env);
      else if (auto sa = dyn_cast<StaticAssertDecl>(d)) evalStaticAssert(sa, env);
      else if (isa<TypedefNameDecl>(d) || isa<UsingDecl>(d) || isa<UsingDirectiveDecl>(d)) {}
      else unsup("local declaration");
    }
    return F_NEXT;
  case Stmt::NullStmtClass: return F_NEXT;
  case Stmt::ReturnStmtClass: {
    auto r = cast<ReturnStmt>(s);
    if (r->getRetValue()) {
      const Expr *e = r->getRetValue();
      if (auto il = dyn_cast<InitListExpr>(skipWrap(e))) { Val v; v.k = Val::None; ret = v; (void)il; unsup("return of an initializer list"); }
      ret = evalExpr(e, env);
    } else { ret = Val(); ret.k = Val::Void; }
    return F_RET;
  }
  case Stmt::IfStmtClass: {
    auto i = cast<IfStmt>(s);
    if (i->getInit()) exec(i->getInit(), env, ret);
    if (auto cv = i->getConditionVariable()) declLocal(cv, env);
    bool c = truth(toInt(evalExpr(i->getCond(), env)));
    return exec(c ? i->getThen() : i->getElse(), env, ret);
  }
  case Stmt::WhileStmtClass: {
    auto w = cast<WhileStmt>(s);
    for (;;) {
      if (++g_loopsteps > 200000) throw HardError{"constexpr evaluation step limit"};
      if ((g_loopsteps & 63) == 0) limits();
      if (!truth(toInt(evalExpr(w->getCond(), env)))) break;
      Flow f = exec(w->getBody(), env, ret);
      if (f == F_RET) return f; if (f == F_BRK) break;
    }
    return F_NEXT;
  }
  case Stmt::DoStmtClass: {
    auto w = cast<DoStmt>(s);
    do {
      if (++g_loopsteps > 200000) throw HardError{"constexpr evaluation step limit"};
      Flow f = exec(w->getBody(), env, ret);
      if (f == F_RET) return f; if (f == F_BRK) break;
    } while (truth(toInt(evalExpr(w->getCond(), env))));
    return F_NEXT;
  }
  case Stmt::ForStmtClass: {
    auto w = cast<ForStmt>(s);
    if (w->getInit()) exec(w->getInit(), env, ret);
    for (;;) {
      if (++g_loopsteps > 200000) throw HardError{"constexpr evaluation step limit"};
      if ((g_loopsteps & 63) == 0) limits();
      if (w->getCond() && !truth(toInt(evalExpr(w->getCond(), env)))) break;
      Flow f = exec(w->getBody(), env, ret);
      if (f == F_RET) return f; if (f == F_BRK) break;
      if (w->getInc()) evalExpr(w->getInc(), env);
    }
    return F_NEXT;
  }
  case Stmt::CXXForRangeStmtClass: {
    auto w = cast<CXXForRangeStmt>(s);
    Val r = evalExpr(w->getRangeInit(), env);
    if (r.k != Val::Lval || !r.o->isArray) unsup("range for over a non-array");
    for (auto el : r.o->elems) {
      const VarDecl *lv = w->getLoopVariable();
      if (lv->getType()->isReferenceType()) env.fr->vars[lv] = el; else env.fr->vars[lv] = copyObj(el);
      Flow f = exec(w->getBody(), env, ret);
      if (f == F_RET) return f; if (f == F_BRK) break;
    }
    return F_NEXT;
  }
  case Stmt::SwitchStmtClass: {
    auto sw = cast<SwitchStmt>(s);
    if (sw->getInit()) exec(sw->getInit(), env, ret);
    Node *v = promote(toInt(evalExpr(sw->getCond(), env)));
    auto body = dyn_cast<CompoundStmt>(sw->getBody());
    if (!body) unsup("switch body");
    // labels in order
    vector<std::pair<const SwitchCase *, size_t>> labels;
    size_t idx = 0;
    for (auto c : body->body()) { const Stmt *x = c; while (auto sc = dyn_cast<SwitchCase>(x)) { labels.push_back({sc, idx}); x = sc->getSubStmt(); } idx++; }
    size_t start = (size_t)-1, dflt = (size_t)-1;
    for (auto &l : labels) {
      if (isa<DefaultStmt>(l.first)) { dflt = l.second; continue; }
      auto cs = cast<CaseStmt>(l.first);
      Node *k = convInt(toInt(evalExpr(cs->getLHS(), env)), v->parent, false);
      bool hit;
      if (cs->getRHS()) { Node *h = convInt(toInt(evalExpr(cs->getRHS(), env)), v->parent, false); Node *a = cmpOp(BO_GE, v, k), *b = cmpOp(BO_LE, v, h); hit = truth(a) && truth(b); }
      else hit = truth(cmpOp(BO_EQ, v, k));
      if (hit) { start = l.second; break; }
    }
    if (start == (size_t)-1) start = dflt;
    if (start == (size_t)-1) return F_NEXT;
    idx = 0;
    for (auto c : body->body()) {
      if (idx++ < start) continue;
      const Stmt *x = c; while (auto sc = dyn_cast<SwitchCase>(x)) x = sc->getSubStmt();
      Flow f = exec(x, env, ret);
      if (f == F_BRK) return F_NEXT;
      if (f != F_NEXT) return f;
    }
    return F_NEXT;
  }
  case Stmt::BreakStmtClass: return F_BRK;
  case Stmt::ContinueStmtClass: return F_CONT;
  case Stmt::AttributedStmtClass: return exec(cast<AttributedStmt>(s)->getSubStmt(), env, ret);
  default:
    if (auto e = dyn_cast<Expr>(s)) { evalExpr(e, env); return F_NEXT; }
    unsup(string("statement ") + s->getStmtClassName());
  }
}
static Node *returnType(const FunctionDecl *fd, const Env &env) {
  QualType q = fd->getReturnType();
  if (auto at = q->getContainedAutoType()) if (!at->isDeduced()) {
    const FunctionDecl *d = defOf(fd);
    struct V : RecursiveASTVisitor<V> { const Expr *e = nullptr; bool VisitReturnStmt(ReturnStmt *r) { if (!e) e = r->getRetValue(); return true; } bool TraverseLambdaExpr(LambdaExpr *) { return true; } } v;
    v.TraverseStmt(d->getBody());
    if (!v.e) return tVoid;
    Node *t = typeOf(v.e, env, at->isDecltypeAuto());
    if (at->isDecltypeAuto()) return t;
    return q->isReferenceType() ? t : decayNode(t);
  }
  return substType(q, env);
}
static Val callFunction(const FunctionDecl *fd, const Env &fenv, vector<Val> args, Val thisv) {
  DepthGuard g;
  const FunctionDecl *d = nullptr;
  if (!fd->hasBody(d)) {
    if (auto p = fd->getTemplateInstantiationPattern()) { if (!p->hasBody(d)) sfail("call of function without a definition: " + declName(fd)); }
    else sfail("call of function without a definition: " + declName(fd));
  }
  if (!d->isConstexpr() && !isa<CXXConversionDecl>(d) && AC->getLangOpts().CPlusPlus11 && !g_textmode) sfail("call of non-constexpr function " + declName(fd));
  if (g_coverage) g_cover.insert(d);
  Frame fr; fr.thisv = thisv;
  Env env = fenv; env.fr = &fr; env.pk = nullptr; env.ppk = nullptr;
  size_t ai = 0;
  for (auto p : d->parameters()) {
    QualType pt = p->getType();
    if (auto pe = pt->getAs<PackExpansionType>()) {
      vector<ObjP> v;
      SmallVector<UnexpandedParameterPack, 2> ps; SM->collectUnexpandedParameterPacks(pe->getPattern(), ps);
      expandPack(ps, env, [&](const Env &e2) {
        Node *t = substType(pe->getPattern(), e2);
        Val a = args.at(ai++);
        if ((t->k == NK::LRef || t->k == NK::RRef) && a.k == Val::Lval) v.push_back(a.o);
        else { ObjP o = newObj(unref(t)); o->v = convertVal(rv(a), unref(t)); v.push_back(o); }
      });
      fr.packs[p] = v;
      continue;
    }
    Node *t = substType(pt, env);
    ObjP o;
    if (ai < args.size()) {
      Val a = args[ai++];
      if ((t->k == NK::LRef || t->k == NK::RRef) && a.k == Val::Lval) {
        if (isIntegral(unref(t)) && a.o->ty && isIntegral(unref(a.o->ty)) && unqual(unref(t)) != unqual(a.o->ty)) { o = newObj(unref(t)); o->v = convertVal(rv(a), unref(t)); }
        else o = a.o;
      }
      else {
        Node *u = unref(t);
        Val r = rv(a);
        if (r.k == Val::Cls && unqual(u)->k == NK::Class) { o = r.o ? copyObj(r.o) : newObj(u); }
        else { o = newObj(u); o->v = convertVal(r, u); }
      }
    } else if (p->hasDefaultArg()) {
      const Expr *de = p->hasUninstantiatedDefaultArg() ? p->getUninstantiatedDefaultArg() : p->getDefaultArg();
      o = initObj(t, de, env);
    } else sfail("too few arguments");
    fr.vars[p] = o;
  }
  Val ret; ret.k = Val::Void;
  Flow f = exec(d->getBody(), env, ret);
  if (f != F_RET && !d->getReturnType()->isVoidType()) sfail("constexpr function did not return a value");
  Node *rt = returnType(d, env);
  if (rt->k != NK::LRef && rt->k != NK::RRef && !isVoid(rt)) {
    ret = rv(ret);
    ret = convertVal(ret, rt);
    if (ret.k == Val::Cls && ret.o) ret.o = copyObj(ret.o);
  }
  return ret;
}

// ------------------------------------------------------------ type traits
static bool isBaseOf(Node *b, Node *d) {
  b = unqual(b); d = unqual(d);
  if (b->k != NK::Class || d->k != NK::Class) return false;
  Conds c; if (nodeEq(b, d, c)) { if (c.settle()) return true; }
  Conds c2; int dist; if (!derivesFrom(d, b, c2, dist)) return false; return c2.settle();
}
static Val traitVal(const TypeTraitExpr *te, const Env &env) {
  vector<Node *> a;
  for (auto x : te->getArgs()) {
    QualType q = x->getType();
    if (auto pe = q->getAs<PackExpansionType>()) {
      SmallVector<UnexpandedParameterPack, 2> ps; SM->collectUnexpandedParameterPacks(pe->getPattern(), ps);
      expandPack(ps, env, [&](const Env &e2) { a.push_back(substType(pe->getPattern(), e2)); });
    } else a.push_back(substType(q, env));
  }
  switch (te->getTrait()) {
  case BTT_IsSame: {
    Conds c; if (!nodeEq(a[0], a[1], c)) return boolVal(false);
    if (c.v.empty()) return boolVal(true);
    z3::expr e = c.v[0]; for (size_t i = 1; i < c.v.size(); i++) e = e && c.v[i];
    return mkI(mkSym(tBool, e));
  }
  case BTT_IsBaseOf: return boolVal(isBaseOf(a[0], a[1]));
  case BTT_IsConvertible: case BTT_IsConvertibleTo: {
    if (isVoid(a[0]) && isVoid(a[1])) return boolVal(true);
    if (isVoid(a[0]) || isVoid(a[1])) return boolVal(false);
    Conds c; Node *f = a[0]->k == NK::LRef || a[0]->k == NK::RRef ? a[0] : mkWrap(NK::RRef, a[0]);
    if (convRank(f, a[1], c, false) < 0) return boolVal(false); return boolVal(c.settle()); }
  case UTT_IsClass: { Node *t = unqual(a[0]); return boolVal(t->k == NK::Class && !(isa<CXXRecordDecl>(t->d) ? cast<CXXRecordDecl>(t->d) : cast<ClassTemplateDecl>(t->d)->getTemplatedDecl())->isUnion()); }
  case UTT_IsUnion: { Node *t = unqual(a[0]); return boolVal(t->k == NK::Class && (isa<CXXRecordDecl>(t->d) ? cast<CXXRecordDecl>(t->d) : cast<ClassTemplateDecl>(t->d)->getTemplatedDecl())->isUnion()); }
  case UTT_IsEnum: return boolVal(unqual(a[0])->k == NK::Enum);
  case UTT_IsConst: return boolVal(a[0]->k == NK::Qual && (a[0]->n & 1));
  case UTT_IsIntegral: return boolVal(isIntegral(a[0]) && unqual(a[0])->k == NK::Builtin);
  case UTT_IsVoid: return boolVal(isVoid(a[0]));
  case UTT_IsReference: return boolVal(a[0]->k == NK::LRef || a[0]->k == NK::RRef);
  case UTT_IsLvalueReference: return boolVal(a[0]->k == NK::LRef);
  case UTT_IsRvalueReference: return boolVal(a[0]->k == NK::RRef);
  case UTT_IsFunction: return boolVal(a[0]->k == NK::Func);
  case UTT_IsArray: return boolVal(unqual(a[0])->k == NK::Array || unqual(a[0])->k == NK::IncArray);
  case UTT_IsPointer: return boolVal(unqual(a[0])->k == NK::Ptr);
  case UTT_IsEmpty: { Node *t = unqual(a[0]); if (t->k != NK::Class) return boolVal(false); return boolVal(sizeOfNode(t) == 1 && complete(t)->def->field_empty()); }
  default: unsup("type trait");
  }
}

// ------------------------------------------------------------ types of expressions
static Node *lref(Node *t) { return mkWrap(NK::LRef, unref(t)); }
static Node *declTypeOf(const ValueDecl *d, const Env &env, bool forDecltype) {
  if (auto nt = dyn_cast<NonTypeTemplateParmDecl>(d)) {
    Node *n = lookupParm(env, nt->getDepth(), nt->getIndex(), false, "v");
    if (n->k == NK::Int) return n->parent;
    unsup("type of nttp");
  }
  if (auto ec = dyn_cast<EnumConstantDecl>(d)) { Val v = declValue(ec, env); return v.i->parent; }
  if (env.fr && env.fr->vars.count(d)) {
    if (auto vd = dyn_cast<VarDecl>(d)) { Node *t = varType(vd, env); return forDecltype ? t : lref(t); }
  }
  if (auto fd = dyn_cast<FunctionDecl>(d)) {
    ClassDef *o = ownerOf(fd, env); Env e2 = o ? o->env : env;
    return lref(substType(fd->getType(), e2));
  }
  if (auto pd = dyn_cast<ParmVarDecl>(d)) if (auto pe = pd->getType()->getAs<PackExpansionType>()) {
    // an element of a function parameter pack
    Env e2 = env;
    if (env.ppk && env.ppk->count(pd)) {
      e2.pk = std::make_shared<std::map<std::pair<unsigned, unsigned>, unsigned>>(env.pk ? *env.pk : std::map<std::pair<unsigned, unsigned>, unsigned>());
      SmallVector<UnexpandedParameterPack, 2> ps; SM->collectUnexpandedParameterPacks(pe->getPattern(), ps);
      for (auto &q : ps) {
        if (auto tp = q.first.dyn_cast<const TemplateTypeParmType *>()) (*e2.pk)[{tp->getDepth(), tp->getIndex()}] = env.ppk->at(pd);
        else { auto nd = q.first.get<NamedDecl *>(); if (auto t = dyn_cast<TemplateTypeParmDecl>(nd)) (*e2.pk)[{t->getDepth(), t->getIndex()}] = env.ppk->at(pd); else if (auto t = dyn_cast<NonTypeTemplateParmDecl>(nd)) (*e2.pk)[{t->getDepth(), t->getIndex()}] = env.ppk->at(pd); }
      }
    }
    Node *t = substType(pe->getPattern(), e2);
    return forDecltype ? t : lref(t);
  }
  if (auto pd = dyn_cast<ParmVarDecl>(d)) { Node *t = substType(pd->getType(), env); return forDecltype ? t : lref(t); }
  if (auto vd = dyn_cast<VarDecl>(d)) {
    ClassDef *o = ownerOf(vd, env);
    Env e2 = o ? o->env : env;
    Node *t = varType(vd, e2);
    return forDecltype ? t : lref(t);
  }
  if (auto fd = dyn_cast<FieldDecl>(d)) { ClassDef *o = ownerOf(fd, env); Node *t = substType(fd->getType(), o ? o->env : env); return forDecltype ? t : lref(t); }
  unsup("type of declaration " + declName(d));
}
static Node *memberValType(const Found &f, bool forDecltype) {
  NamedDecl *d = f.ds[0];
  ClassDef *o = f.owner;
  if (auto us = dyn_cast<UsingShadowDecl>(d)) d = us->getTargetDecl();
  if (auto ec = dyn_cast<EnumConstantDecl>(d)) { return enumConst(o, ec).i->parent; }
  if (auto vd = dyn_cast<VarDecl>(d)) { Node *t = varType(vd, o->env); return forDecltype ? t : lref(t); }
  if (auto fd = dyn_cast<FieldDecl>(d)) { Node *t = substType(fd->getType(), o->env); return forDecltype ? t : lref(t); }
  if (auto fd = dyn_cast<FunctionDecl>(d)) return lref(substType(fd->getType(), o->env));
  unsup("type of member");
}
static Node *typeOf(const Expr *e, const Env &env, bool dt) {
  if (auto p = dyn_cast<ParenExpr>(e)) return typeOf(p->getSubExpr(), env, false);
  if (!e->isInstantiationDependent() && !env.fr && !isa<CallExpr>(e)) {
    QualType q = e->getType();
    if (!q->isDependentType() && !q->isPlaceholderType()) {
      if (dt) if (auto dr = dyn_cast<DeclRefExpr>(e)) return substType(dr->getDecl()->getType(), env);
      Node *t = substType(q, env);
      if (e->isLValue()) return mkWrap(NK::LRef, t);
      if (e->isXValue()) return mkWrap(NK::RRef, t);
      return t;
    }
  }
  switch (e->getStmtClass()) {
  case Stmt::ConstantExprClass: return typeOf(cast<ConstantExpr>(e)->getSubExpr(), env, dt);
  case Stmt::ExprWithCleanupsClass: return typeOf(cast<ExprWithCleanups>(e)->getSubExpr(), env, dt);
  case Stmt::MaterializeTemporaryExprClass: return mkWrap(NK::RRef, unref(typeOf(cast<MaterializeTemporaryExpr>(e)->getSubExpr(), env)));
  case Stmt::SubstNonTypeTemplateParmExprClass: return typeOf(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement(), env, dt);
  case Stmt::DeclRefExprClass: return declTypeOf(cast<DeclRefExpr>(e)->getDecl(), env, dt);
  case Stmt::DependentScopeDeclRefExprClass: {
    auto ds = cast<DependentScopeDeclRefExpr>(e);
    Node *c = nullptr;
    if (!resolveNNS(ds->getQualifier(), env, c) || !c) unsup("dependent name");
    Found f = lookupMember(c, ds->getDeclName());
    if (f.ds.empty()) sfail("no member '" + ds->getDeclName().getAsString() + "' in " + show(c));
    return memberValType(f, dt);
  }
  case Stmt::CXXDependentScopeMemberExprClass: case Stmt::MemberExprClass: {
    Node *ot; DeclarationName nm; bool arrow;
    if (auto me = dyn_cast<MemberExpr>(e)) { ot = unref(typeOf(me->getBase(), env)); nm = me->getMemberDecl()->getDeclName(); arrow = me->isArrow(); }
    else { auto m2 = cast<CXXDependentScopeMemberExpr>(e); ot = m2->isImplicitAccess() ? substType(m2->getBaseType(), env) : unref(typeOf(m2->getBase(), env)); nm = m2->getMember(); arrow = m2->isArrow(); }
    if (arrow && unqual(ot)->k == NK::Ptr) ot = unqual(ot)->parent;
    if (auto m2 = dyn_cast<CXXDependentScopeMemberExpr>(e)) if (m2->getQualifier()) { Node *c = nullptr; if (resolveNNS(m2->getQualifier(), env, c) && c) ot = c; }
    Found f = lookupMember(ot, nm);
    if (f.ds.empty()) sfail("no member " + nm.getAsString());
    return memberValType(f, dt);
  }
  case Stmt::CXXThisExprClass: {
    if (!env.cls) unsup("this");
    return mkWrap(NK::Ptr, env.cls);
  }
  case Stmt::CXXStaticCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: {
    auto c = cast<ExplicitCastExpr>(e);
    return substType(c->getTypeAsWritten(), env);
  }
  case Stmt::ImplicitCastExprClass: {
    auto ic = cast<ImplicitCastExpr>(e);
    switch (ic->getCastKind()) {
    case CK_LValueToRValue: return unqual(unref(typeOf(ic->getSubExpr(), env)));
    case CK_NoOp: { Node *t = substType(ic->getType(), env); if (e->isLValue()) return mkWrap(NK::LRef, t); if (e->isXValue()) return mkWrap(NK::RRef, t); return t; }
    default: { Node *t = substType(ic->getType(), env); if (e->isLValue()) return mkWrap(NK::LRef, t); if (e->isXValue()) return mkWrap(NK::RRef, t); return t; }
    }
  }
  case Stmt::CXXUnresolvedConstructExprClass: return substType(cast<CXXUnresolvedConstructExpr>(e)->getTypeAsWritten(), env);
  case Stmt::CXXScalarValueInitExprClass: return substType(cast<CXXScalarValueInitExpr>(e)->getType(), env);
  case Stmt::CXXTemporaryObjectExprClass: case Stmt::CXXConstructExprClass: return substType(e->getType(), env);
  case Stmt::CXXBindTemporaryExprClass: return typeOf(cast<CXXBindTemporaryExpr>(e)->getSubExpr(), env);
  case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: {
    Val tv; Sel s = resolveCall(cast<CallExpr>(e), env, tv);
    Node *r = s.ret;
    if (r->k == NK::Qual && unqual(r)->k != NK::Class) r = unqual(r);
    return r;
  }
  case Stmt::UnaryOperatorClass: {
    auto u = cast<UnaryOperator>(e);
    switch (u->getOpcode()) {
    case UO_LNot: return tBool;
    case UO_AddrOf: return mkWrap(NK::Ptr, unref(typeOf(u->getSubExpr(), env)));
    case UO_Deref: { Node *t = decayNode(typeOf(u->getSubExpr(), env)); if (t->k != NK::Ptr) sfail("dereference of non-pointer"); return mkWrap(NK::LRef, t->parent); }
    case UO_PreInc: case UO_PreDec: return typeOf(u->getSubExpr(), env);
    case UO_PostInc: case UO_PostDec: return unqual(unref(typeOf(u->getSubExpr(), env)));
    default: { Node *t = unqual(unref(typeOf(u->getSubExpr(), env))); if (t->k == NK::Class) unsup("operator on class"); return promoteType(t); }
    }
  }
  case Stmt::CXXOperatorCallExprClass: return typeOf(asBuiltinOp(cast<CXXOperatorCallExpr>(e)), env, dt);
  case Stmt::BinaryOperatorClass: {
    auto b = cast<BinaryOperator>(e);
    if (b->isComparisonOp() || b->isLogicalOp()) return tBool;
    if (b->getOpcode() == BO_Comma) return typeOf(b->getRHS(), env);
    if (b->isAssignmentOp()) return typeOf(b->getLHS(), env);
    Node *x = decayNode(typeOf(b->getLHS(), env)), *y = decayNode(typeOf(b->getRHS(), env));
    if (x->k == NK::Ptr && y->k == NK::Ptr) return mkBuiltin(AC->getPointerDiffType());
    if (x->k == NK::Ptr) return x; if (y->k == NK::Ptr) return y;
    if (x->k == NK::Class || y->k == NK::Class) { auto cv = [&](Node *t) -> Node * { if (t->k != NK::Class) return t; ClassDef *o; auto c = findConv(t, o); if (!c) sfail("operator on class"); return unqual(unref(substType(c->getConversionType(), o->env))); }; x = cv(x); y = cv(y); }
    if (b->isShiftOp()) return promoteType(x);
    return commonType(x, y);
  }
  case Stmt::ConditionalOperatorClass: {
    auto c = cast<ConditionalOperator>(e);
    Node *x = typeOf(c->getTrueExpr(), env), *y = typeOf(c->getFalseExpr(), env);
    if (x == y) return x;
    Node *a = decayNode(x), *b = decayNode(y);
    if (a == b) return a;
    if (isIntegral(a) && isIntegral(b)) return commonType(a, b);
    if (a->k == NK::Ptr) return a; if (b->k == NK::Ptr) return b;
    unsup("conditional type");
  }
  case Stmt::ArraySubscriptExprClass: { Node *t = decayNode(typeOf(cast<ArraySubscriptExpr>(e)->getLHS(), env)); if (t->k != NK::Ptr) t = decayNode(typeOf(cast<ArraySubscriptExpr>(e)->getRHS(), env)); if (t->k != NK::Ptr) unsup("subscript"); return mkWrap(NK::LRef, t->parent); }
  case Stmt::IntegerLiteralClass: case Stmt::CharacterLiteralClass: case Stmt::CXXBoolLiteralExprClass: return substType(e->getType(), env);
  case Stmt::StringLiteralClass: return mkWrap(NK::LRef, substType(e->getType(), env));
  case Stmt::CXXNullPtrLiteralExprClass: return tNull;
  case Stmt::SizeOfPackExprClass: return tSizeT;
  case Stmt::UnaryExprOrTypeTraitExprClass: return tSizeT;
  case Stmt::TypeTraitExprClass: case Stmt::CXXNoexceptExprClass: return tBool;
  case Stmt::CXXDefaultArgExprClass: return typeOf(cast<CXXDefaultArgExpr>(e)->getExpr(), env);
  default: {
    Val v = rv(evalExpr(e, env));
    if (v.k == Val::Int) return v.i->parent;
    if (v.k == Val::Cls) return v.ty;
    unsup(string("type of ") + e->getStmtClassName());
  }
  }
}

// ------------------------------------------------------------ expressions
static Val ptrDeref(Val p, i64 off) {
  if (p.k != Val::Ptr) sfail("dereference of a null or invalid pointer");
  if (p.idx < 0) { if (off) sfail("out of bounds"); return mkLv(p.o); }
  i64 k = p.idx + off;
  if (k < 0 || k >= (i64)p.o->elems.size()) sfail("array index out of bounds in constant expression");
  return mkLv(p.o->elems[k]);
}
static void appendText(Val &dst, Val v) {
  v = rv(v);
  if (v.k == Val::Text) { vector<Node *> c = *v.t; dst.t->insert(dst.t->end(), c.begin(), c.end()); return; }
  if (v.k == Val::Ptr) { for (i64 n = 0;; n++) { Node *c = toInt(ptrDeref(v, n)); if (!truth(c)) return; dst.t->push_back(c); } }
  if (v.k == Val::Int) { dst.t->push_back(v.i); return; }
  if (v.k == Val::Cls) { dst.t->push_back(toInt(v)); return; }
  unsup("value in a text");
}
static bool isManip(const Expr *e, const char *n) {
  e = e->IgnoreParenImpCasts();
  if (auto dr = dyn_cast<DeclRefExpr>(e)) return dr->getDecl()->getIdentifier() && dr->getDecl()->getName() == n && isa<FunctionDecl>(dr->getDecl());
  if (auto ul = dyn_cast<UnresolvedLookupExpr>(e)) return ul->getName().getAsString() == n;
  return false;
}
static Val textOp(BinaryOperatorKind op, Val l, const Expr *re, const Env &env) {
  if (op == BO_Shl) {
    if (l.k != Val::Lval) unsup("output to a temporary stream");
    if (isManip(re, "endl")) { l.o->v.t->push_back(mkInt(tChar, 10)); return l; }
    if (isManip(re, "flush")) return l;
    appendText(l.o->v, evalExpr(re, env));
    return l;
  }
  unsup("operator on a text");
}
static Val textCall(const string &nm, Val self, const vector<Val> &args) {
  Val cur = rv(self);
  if (cur.k != Val::Text) unsup("member call on a text");
  if ((nm == "str" || nm == "c_str" || nm == "data") && args.empty()) return copyText(cur);
  if (nm == "append" && args.size() == 1) { appendText(cur, args[0]); return self; }
  if (nm == "push_back" && args.size() == 1) { appendText(cur, args[0]); return self; }
  if (nm == "empty" && args.empty()) return boolVal(cur.t->empty());
  if ((nm == "size" || nm == "length") && args.empty()) {
    for (Node *n : *cur.t) if (!(unqual(n->parent)->k == NK::Builtin && unqual(n->parent)->qt->isAnyCharacterType())) unsup("length of a text with a number");
    return mkI(mkInt(tSizeT, (i64)cur.t->size()));
  }
  if (nm == "put" && args.size() == 1) { appendText(cur, args[0]); return self; }
  if (nm == "write" && args.size() == 2) { Val p = rv(args[0]); if (p.k != Val::Ptr) unsup("write"); i64 n = concrete(toInt(args[1])); for (i64 k = 0; k < n; k++) cur.t->push_back(toInt(ptrDeref(p, k))); return self; }
  if (nm == "flush" && args.empty()) return self;
  if (nm == "reserve") return self;
  unsup("member function " + nm + " of a text");
}
static void store(ObjP o, Val v) {
  v = rv(v);
  if (v.k == Val::Cls && v.o) { ObjP c = copyObj(v.o); o->fields = c->fields; o->v = Val(); return; }
  o->v = o->ty ? convertVal(v, unref(o->ty)) : v;
}
static Val binVals(BinaryOperatorKind op, Val a, Val b) {
  a = rv(a); b = rv(b);
  bool pa = a.k == Val::Ptr || a.k == Val::NullP, pb = b.k == Val::Ptr || b.k == Val::NullP;
  if (pa || pb) {
    if (pa && pb) {
      if (op == BO_Sub) { if (a.o != b.o) sfail("pointer subtraction"); return mkI(mkInt(mkBuiltin(AC->getPointerDiffType()), a.idx - b.idx)); }
      bool same = a.o == b.o; i64 x = a.idx, y = b.idx;
      switch (op) {
      case BO_EQ: return boolVal(same && x == y);
      case BO_NE: return boolVal(!(same && x == y));
      case BO_LT: if (!same) sfail("pointer comparison"); return boolVal(x < y);
      case BO_GT: if (!same) sfail("pointer comparison"); return boolVal(x > y);
      case BO_LE: if (!same) sfail("pointer comparison"); return boolVal(x <= y);
      case BO_GE: if (!same) sfail("pointer comparison"); return boolVal(x >= y);
      default: unsup("pointer operator");
      }
    }
    if (pa && a.k == Val::Ptr && (op == BO_Add || op == BO_Sub)) {
      i64 k = concrete(toInt(b)); Val r = a; r.idx += op == BO_Add ? k : -k;
      if (r.idx < 0 || r.idx > (i64)r.o->elems.size()) sfail("pointer arithmetic out of bounds");
      return r;
    }
    if (pb && b.k == Val::Ptr && op == BO_Add) return binVals(op, b, a);
    if (op == BO_EQ || op == BO_NE) { Val &i = pa ? b : a; Val &p = pa ? a : b; if (i.k == Val::Int && !i.i->sym && i.i->n == 0) return boolVal((p.k == Val::NullP) == (op == BO_EQ)); }
    unsup("pointer operator");
  }
  Node *x = toInt(a), *y = toInt(b);
  switch (op) {
  case BO_LT: case BO_GT: case BO_LE: case BO_GE: case BO_EQ: case BO_NE: return mkI(cmpOp(op, x, y));
  default: return mkI(arith(op, x, y));
  }
}
static Val construct(Node *t, const vector<Val> &args) {
  Node *u = unqual(unref(t));
  if (isVoid(u)) { Val r; r.k = Val::Void; return r; }
  if (isTextClass(u)) {
    Val r = mkText();
    if (args.empty()) return r;
    if (args.size() == 1) { Val a = rv(args[0]); if (a.k == Val::Int) unsup("text from a number"); appendText(r, a); return r; }
    if (args.size() == 2) { Val a = rv(args[0]), b = rv(args[1]); if (a.k == Val::Int && b.k == Val::Int) { i64 n = concrete(a.i); for (i64 k = 0; k < n; k++) r.t->push_back(convInt(b.i, tChar, false)); return r; } }
    unsup("construction of a text");
  }
  if (u->k == NK::Class) {
    if (args.size() == 1) { Val a = rv(args[0]); if (a.k == Val::Cls && (a.ty == u || isBaseOf(u, a.ty))) { Val r; r.k = Val::Cls; r.ty = u; r.o = a.o ? copyObj(a.o) : nullptr; return r; } }
    ClassDef *cd = complete(u);
    if (args.empty()) { Val r; r.k = Val::Cls; r.ty = u; r.o = classObj(u); return r; }
    (void)cd;
    unsup("construction of class object " + show(u, 3));
  }
  if (args.empty()) { ObjP o = newObj(u); zeroInit(o); return o->v; }
  if (args.size() != 1) unsup("multi-argument scalar construction");
  return convertVal(args[0], u);
}
static Val evalDep(const Expr *e, const Env &env);
static Val evalExpr(const Expr *e, const Env &env) {
  // closed integral expressions are evaluated by clang's constant evaluator
  if (!e->isInstantiationDependent() && !e->isValueDependent() && !e->isTypeDependent() && !env.fr && !e->containsErrors()) {
    QualType q = e->getType();
    if (q->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (!isa<DeclRefExpr>(e) || !e->isGLValue()) {
        if (e->EvaluateAsInt(r, *AC, Expr::SE_NoSideEffects, true)) return mkI(mkInt(substType(q, env), r.Val.getInt().getExtValue()));
      }
    }
  }
  return evalDep(e, env);
}
static Val evalDep(const Expr *e, const Env &env) {
  switch (e->getStmtClass()) {
  case Stmt::IntegerLiteralClass: return mkI(mkInt(substType(e->getType(), env), (i64)cast<IntegerLiteral>(e)->getValue().getZExtValue()));
  case Stmt::CharacterLiteralClass: return mkI(mkInt(substType(e->getType(), env), (i64)(int)cast<CharacterLiteral>(e)->getValue()));
  case Stmt::CXXBoolLiteralExprClass: return boolVal(cast<CXXBoolLiteralExpr>(e)->getValue());
  case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: { Val v; v.k = Val::NullP; return v; }
  case Stmt::StringLiteralClass: {
    auto s = cast<StringLiteral>(e);
    static std::map<const Expr *, ObjP> memo;
    auto it = memo.find(s); if (it != memo.end()) return mkLv(it->second);
    Node *t = substType(AC->getAsArrayType(s->getType())->getElementType(), env);
    ObjP o = arrayFromString(s, t, s->getLength() + 1); memo[s] = o; return mkLv(o);
  }
  case Stmt::ParenExprClass: return evalExpr(cast<ParenExpr>(e)->getSubExpr(), env);
  case Stmt::ConstantExprClass: return evalExpr(cast<ConstantExpr>(e)->getSubExpr(), env);
  case Stmt::ExprWithCleanupsClass: return evalExpr(cast<ExprWithCleanups>(e)->getSubExpr(), env);
  case Stmt::MaterializeTemporaryExprClass: return evalExpr(cast<MaterializeTemporaryExpr>(e)->getSubExpr(), env);
  case Stmt::CXXBindTemporaryExprClass: return evalExpr(cast<CXXBindTemporaryExpr>(e)->getSubExpr(), env);
  case Stmt::SubstNonTypeTemplateParmExprClass: return evalExpr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement(), env);
  case Stmt::CXXDefaultArgExprClass: return evalExpr(cast<CXXDefaultArgExpr>(e)->getExpr(), env);
  case Stmt::CXXDefaultInitExprClass: return evalExpr(cast<CXXDefaultInitExpr>(e)->getExpr(), env);
  case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: return construct(substType(e->getType(), env), {});
  case Stmt::DeclRefExprClass: return declValue(cast<DeclRefExpr>(e)->getDecl(), env);
  case Stmt::DependentScopeDeclRefExprClass: {
    auto ds = cast<DependentScopeDeclRefExpr>(e);
    Node *c = nullptr;
    if (!resolveNNS(ds->getQualifier(), env, c) || !c) unsup("dependent name in a namespace");
    return memberValueByName(c, ds->getDeclName());
  }
  case Stmt::UnresolvedLookupExprClass: {
    auto ul = cast<UnresolvedLookupExpr>(e);
    for (auto d : ul->decls()) {
      if (auto vt = dyn_cast<VarTemplateDecl>(d)) {
        vector<Node *> expl; explicitArgs(ul, env, expl);
        SmallVector<VarTemplatePartialSpecializationDecl *, 2> ps; const_cast<VarTemplateDecl *>(vt)->getPartialSpecializations(ps);
        if (!ps.empty()) unsup("variable template with specializations");
        for (auto sp : const_cast<VarTemplateDecl *>(vt)->specializations()) if (sp->getSpecializationKind() == TSK_ExplicitSpecialization) unsup("variable template with specializations");
        Node *par = parentInst(vt, env);
        vector<Node *> a = bindArgs(vt, par, expl);
        Env e2 = outerEnv(par); e2.lv = new Lv{e2.lv, vt->getTemplateParameters()->getDepth(), a};
        const VarDecl *vd = vt->getTemplatedDecl();
        try { return mkLv(initObj(varType(vd, e2), varInit(vd), e2)); } catch (SubstFail &f) { throw HardError{f.msg}; }
      }
    }
    unsup("unresolved lookup as a value: " + ul->getName().getAsString());
  }
  case Stmt::MemberExprClass: case Stmt::CXXDependentScopeMemberExprClass: {
    const Expr *base = nullptr; bool arrow = false; DeclarationName nm; Node *impl = nullptr;
    if (auto me = dyn_cast<MemberExpr>(e)) { base = me->getBase(); arrow = me->isArrow(); nm = me->getMemberDecl()->getDeclName(); }
    else { auto m2 = cast<CXXDependentScopeMemberExpr>(e); if (!m2->isImplicitAccess()) base = m2->getBase(); else impl = substType(m2->getBaseType(), env); arrow = m2->isArrow(); nm = m2->getMember(); }
    Node *ot = base ? unref(typeOf(base, env)) : impl;
    ot = unqual(ot); if (arrow && ot->k == NK::Ptr) ot = unqual(ot->parent);
    if (auto m2 = dyn_cast<CXXDependentScopeMemberExpr>(e)) if (m2->getQualifier()) { Node *c = nullptr; if (resolveNNS(m2->getQualifier(), env, c) && c) ot = unqual(c); }
    Found f = lookupMember(ot, nm);
    if (f.ds.empty()) sfail("no member " + nm.getAsString() + " in " + show(ot, 4));
    if (isa<VarDecl>(f.ds[0]) || isa<EnumConstantDecl>(f.ds[0])) return memberValue(f.ds[0], f.owner);
    if (auto fd = dyn_cast<FieldDecl>(f.ds[0])) {
      Val b = base ? rv(evalExpr(base, env)) : (env.fr ? env.fr->thisv : Val());
      if (b.k == Val::Lval) b = rv(b);
      ObjP o = b.o; if (b.k == Val::Ptr && b.idx >= 0) o = b.o->elems.at(b.idx);
      if (!o) sfail("member of unknown object");
      auto it = o->fields.find(fd->getCanonicalDecl());
      if (it == o->fields.end()) sfail("field not initialised");
      return mkLv(it->second);
    }
    return memberValue(f.ds[0], f.owner);
  }
  case Stmt::CXXThisExprClass: {
    if (!env.fr) unsup("this");
    Val t = env.fr->thisv; Val p; p.k = Val::Ptr; p.o = t.o ? t.o : newObj(t.ty ? t.ty : env.cls); p.idx = -1; return p;
  }
  case Stmt::ImplicitCastExprClass: {
    auto ic = cast<ImplicitCastExpr>(e);
    Val v = evalExpr(ic->getSubExpr(), env);
    switch (ic->getCastKind()) {
    case CK_LValueToRValue: return rv(v);
    case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_ConstructorConversion: return v;
    case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: return convertVal(v, substType(ic->getType(), env));
    case CK_NullToPointer: { Val r; r.k = Val::NullP; return r; }
    case CK_UserDefinedConversion: return isIntegral(substType(ic->getType(), env)) ? convertVal(v, substType(ic->getType(), env)) : v;
    case CK_Dependent: return v;
    case CK_BitCast: return v;
    default: unsup(string("cast kind ") + ic->getCastKindName());
    }
  }
  case Stmt::CXXStaticCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: {
    auto c = cast<ExplicitCastExpr>(e);
    Node *t = substType(c->getTypeAsWritten(), env);
    Val v = evalExpr(c->getSubExpr(), env);
    if (t->k == NK::LRef || t->k == NK::RRef) return v;
    if (unqual(t)->k == NK::Class) return construct(t, {v});
    return convertVal(v, t);
  }
  case Stmt::CXXUnresolvedConstructExprClass: {
    auto u = cast<CXXUnresolvedConstructExpr>(e);
    Node *t = substType(u->getTypeAsWritten(), env);
    vector<Val> a;
    for (unsigned i = 0; i < u->getNumArgs(); i++) {
      const Expr *x = u->getArg(i);
      if (auto pe = dyn_cast<PackExpansionExpr>(x)) {
        SmallVector<UnexpandedParameterPack, 2> ps; SM->collectUnexpandedParameterPacks(TemplateArgument(const_cast<Expr *>(pe->getPattern())), ps);
        expandPack(ps, env, [&](const Env &e2) { a.push_back(evalExpr(pe->getPattern(), e2)); });
      } else if (isa<InitListExpr>(x)) { Val r = mkLv(initObj(t, x, env)); return rv(r); }
      else a.push_back(evalExpr(x, env));
    }
    return construct(t, a);
  }
  case Stmt::CXXTemporaryObjectExprClass: case Stmt::CXXConstructExprClass: {
    auto c = cast<CXXConstructExpr>(e);
    vector<Val> a; for (auto x : c->arguments()) if (!isa<CXXDefaultArgExpr>(x)) a.push_back(evalExpr(x, env));
    return construct(substType(e->getType(), env), a);
  }
  case Stmt::InitListExprClass: {
    auto il = cast<InitListExpr>(e);
    if (!il->isTypeDependent() && !il->getType().isNull() && !il->getType()->isVoidType() && !il->getType()->isDependentType()) { Node *t = substType(il->getType(), env); return rv(mkLv(initObj(t, il, env))); }
    if (il->getNumInits() == 1) return evalExpr(il->getInit(0), env);
    unsup("initializer list value");
  }
  case Stmt::UnaryOperatorClass: {
    auto u = cast<UnaryOperator>(e);
    switch (u->getOpcode()) {
    case UO_LNot: {
      Node *i = toInt(evalExpr(u->getSubExpr(), env));
      if (!i->sym) return boolVal(!i->n);
      return mkI(mkSym(tBool, !asBool(i)));
    }
    case UO_Plus: { Val v = rv(evalExpr(u->getSubExpr(), env)); if (v.k == Val::Ptr) return v; return mkI(promote(toInt(v))); }
    case UO_Minus: { Node *i = promote(toInt(evalExpr(u->getSubExpr(), env))); return mkI(arith(BO_Sub, mkInt(i->parent, 0), i)); }
    case UO_Not: { Node *i = promote(toInt(evalExpr(u->getSubExpr(), env))); if (!i->sym) return mkI(mkInt(i->parent, ~i->n)); return mkI(mkSym(i->parent, ~zx(i))); }
    case UO_Deref: { Val p = rv(evalExpr(u->getSubExpr(), env)); return ptrDeref(p, 0); }
    case UO_AddrOf: { Val v = evalExpr(u->getSubExpr(), env); if (v.k != Val::Lval) { if (v.k == Val::Fn) return v; sfail("address of rvalue"); } Val p; p.k = Val::Ptr; p.o = v.o; p.idx = -1; return p; }
    case UO_PreInc: case UO_PreDec: case UO_PostInc: case UO_PostDec: {
      Val v = evalExpr(u->getSubExpr(), env);
      if (v.k != Val::Lval) sfail("increment of rvalue");
      Val old = rv(v);
      Val one = mkI(mkInt(tInt, 1));
      bool inc = u->getOpcode() == UO_PreInc || u->getOpcode() == UO_PostInc;
      Val nw = binVals(inc ? BO_Add : BO_Sub, old, one);
      store(v.o, nw);
      return u->isPostfix() ? old : v;
    }
    case UO_Extension: return evalExpr(u->getSubExpr(), env);
    default: unsup("unary operator");
    }
  }
  case Stmt::CompoundAssignOperatorClass: {
    auto b = cast<CompoundAssignOperator>(e);
    Val l = evalExpr(b->getLHS(), env), r = evalExpr(b->getRHS(), env);
    if (l.k != Val::Lval) sfail("assignment to rvalue");
    if (isText(l) && b->getOpcode() == BO_AddAssign) { appendText(l.o->v, r); return l; }
    store(l.o, binVals(BinaryOperator::getOpForCompoundAssignment(b->getOpcode()), rv(l), r));
    return l;
  }
  case Stmt::CXXOperatorCallExprClass: return evalExpr(asBuiltinOp(cast<CXXOperatorCallExpr>(e)), env);
  case Stmt::BinaryOperatorClass: {
    auto b = cast<BinaryOperator>(e);
    BinaryOperatorKind op = b->getOpcode();
    if (op == BO_LAnd || op == BO_LOr) {
      Node *l = toInt(evalExpr(b->getLHS(), env));
      auto toB = [&](Node *i) { return i->isb ? i : convInt(i, tBool, false); };
      if (!l->sym) {
        if (op == BO_LAnd && !l->n) return boolVal(false);
        if (op == BO_LOr && l->n) return boolVal(true);
        return mkI(toB(toInt(evalExpr(b->getRHS(), env))));
      }
      if (isSimple(b->getRHS())) {
        Node *r = toB(toInt(evalExpr(b->getRHS(), env)));
        return mkI(mkSym(tBool, op == BO_LAnd ? asBool(l) && asBool(r) : asBool(l) || asBool(r)));
      }
      bool lv = truth(l);
      if (op == BO_LAnd && !lv) return boolVal(false);
      if (op == BO_LOr && lv) return boolVal(true);
      return mkI(toB(toInt(evalExpr(b->getRHS(), env))));
    }
    if (op == BO_Comma) { evalExpr(b->getLHS(), env); return evalExpr(b->getRHS(), env); }
    if (op == BO_Assign) {
      Val l = evalExpr(b->getLHS(), env), r = evalExpr(b->getRHS(), env);
      if (l.k != Val::Lval) sfail("assignment to rvalue");
      store(l.o, r); return l;
    }
    Val l = evalExpr(b->getLHS(), env);
    if (op == BO_Shl && isText(l)) return textOp(op, l, b->getRHS(), env);
    Val r = evalExpr(b->getRHS(), env);
    if (op == BO_Add && (isText(l) || isText(r))) { Val t = mkText(); appendText(t, l); appendText(t, r); return t; }
    return binVals(op, l, r);
  }
  case Stmt::ConditionalOperatorClass: {
    auto c = cast<ConditionalOperator>(e);
    Node *k = toInt(evalExpr(c->getCond(), env));
    Val v = condValue(k, [&] { return evalExpr(c->getTrueExpr(), env); }, [&] { return evalExpr(c->getFalseExpr(), env); }, isSimple(c->getTrueExpr()) && isSimple(c->getFalseExpr()));
    // integral operands: the result has the common type
    if (c->isTypeDependent() || c->isInstantiationDependent()) {
      Val r = v.k == Val::Lval ? v : v;
      if (rv(r).k == Val::Int) {
        Node *t = nullptr; try { t = typeOf(c, env); } catch (Unsupported &) {} 
        if (t && isIntegral(unref(t)) && t->k != NK::LRef) return mkI(convInt(toInt(r), unref(t), false));
      }
    }
    return v;
  }
  case Stmt::ArraySubscriptExprClass: {
    auto a = cast<ArraySubscriptExpr>(e);
    Val x = rv(evalExpr(a->getLHS(), env)), y = rv(evalExpr(a->getRHS(), env));
    if (x.k != Val::Ptr) std::swap(x, y);
    return ptrDeref(x, concrete(toInt(y)));
  }
  case Stmt::SizeOfPackExprClass: {
    auto s = cast<SizeOfPackExpr>(e);
    auto pk = s->getPack(); unsigned d, i;
    if (auto t = dyn_cast<TemplateTypeParmDecl>(pk)) { d = t->getDepth(); i = t->getIndex(); }
    else if (auto t = dyn_cast<NonTypeTemplateParmDecl>(pk)) { d = t->getDepth(); i = t->getIndex(); }
    else if (auto t = dyn_cast<TemplateTemplateParmDecl>(pk)) { d = t->getDepth(); i = t->getIndex(); }
    else { if (env.fr && env.fr->packs.count(pk)) return mkI(mkInt(tSizeT, env.fr->packs[pk].size())); unsup("sizeof... of a function pack"); }
    Env e2 = env; e2.pk = nullptr;
    Node *n = lookupParm(e2, d, i, true, "pack");
    return mkI(mkInt(tSizeT, n->args.size()));
  }
  case Stmt::UnaryExprOrTypeTraitExprClass: {
    auto u = cast<UnaryExprOrTypeTraitExpr>(e);
    Node *t = u->isArgumentType() ? substType(u->getArgumentType(), env) : typeOf(u->getArgumentExpr(), env);
    t = unref(t);
    if (unqual(t)->k == NK::Func) sfail("sizeof function");
    if (u->getKind() == UETT_SizeOf) { if (isVoid(t)) sfail("sizeof void"); return mkI(mkInt(tSizeT, sizeOfNode(t))); }
    return mkI(mkInt(tSizeT, alignOfNode(t)));
  }
  case Stmt::TypeTraitExprClass: return traitVal(cast<TypeTraitExpr>(e), env);
  case Stmt::CXXNoexceptExprClass: return boolVal(true);
  case Stmt::CXXFoldExprClass: {
    auto f = cast<CXXFoldExpr>(e);
    SmallVector<UnexpandedParameterPack, 2> ps; SM->collectUnexpandedParameterPacks(TemplateArgument(const_cast<Expr *>(f->getPattern())), ps);
    vector<Env> es; expandPack(ps, env, [&](const Env &e2) { es.push_back(e2); });
    BinaryOperatorKind op = f->getOperator();
    vector<std::function<Val()>> items;
    for (auto &x : es) items.push_back([&f, x] { return evalExpr(f->getPattern(), x); });
    const Expr *init = f->getInit();
    if (init) { auto it = [&] { return evalExpr(init, env); }; if (f->isLeftFold()) items.insert(items.begin(), it); else items.push_back(it); }
    if (items.empty()) { if (op == BO_LAnd) return boolVal(true); if (op == BO_LOr) return boolVal(false); if (op == BO_Comma) { Val v; v.k = Val::Void; return v; } sfail("empty fold"); }
    if (op == BO_LAnd || op == BO_LOr) {
      bool simple = isSimple(f->getPattern()) && (!init || isSimple(init));
      Node *acc = nullptr;
      for (auto &it : items) {
        if (acc && !acc->sym) { if (op == BO_LAnd ? !acc->n : acc->n) return mkI(acc); }
        if (acc && acc->sym && !simple) { bool t = truth(acc); if (t != (op == BO_LAnd)) return boolVal(t); acc = mkInt(tBool, t); }
        Node *n = convInt(toInt(it()), tBool, false);
        if (!acc) acc = n; else if (!acc->sym) acc = n; else acc = mkSym(tBool, op == BO_LAnd ? asBool(acc) && asBool(n) : asBool(acc) || asBool(n));
      }
      return mkI(acc);
    }
    Val acc;
    if (f->isLeftFold()) { acc = items[0](); for (size_t i = 1; i < items.size(); i++) acc = op == BO_Comma ? items[i]() : binVals(op, acc, items[i]()); }
    else { vector<Val> vs; for (auto &it : items) vs.push_back(it()); acc = vs.back(); for (size_t i = vs.size() - 1; i-- > 0;) if (op != BO_Comma) acc = binVals(op, vs[i], acc); }
    return acc;
  }
  case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: {
    auto ce = cast<CallExpr>(e);
    Val tv;
    const Expr *cal = ce->getCallee()->IgnoreParenImpCasts();
    if (auto dr = dyn_cast<DeclRefExpr>(cal)) if (auto fd = dyn_cast<FunctionDecl>(dr->getDecl())) if (unsigned id = fd->getBuiltinID()) {
      if (AC->BuiltinInfo.getName(id) == StringRef("__builtin_expect")) return evalExpr(ce->getArg(0), env);
      if (AC->BuiltinInfo.getName(id) == StringRef("__builtin_is_constant_evaluated")) return boolVal(true);
      if (AC->BuiltinInfo.getName(id) == StringRef("__builtin_strlen")) { Val p = rv(evalExpr(ce->getArg(0), env)); i64 n = 0; while (truth(toInt(ptrDeref(p, n)))) n++; return mkI(mkInt(tSizeT, n)); }
    }
    if (g_textmode) {
      const CXXRecordDecl *rd = nullptr; string nm;
      if (auto me = dyn_cast<MemberExpr>(cal)) { nm = me->getMemberNameInfo().getAsString(); if (auto md = dyn_cast<CXXMethodDecl>(me->getMemberDecl())) rd = md->getParent(); }
      if (rd && rd->isInStdNamespace()) {
        Val self = objectOf(ce, env);
        vector<Val> args; callArgs(ce, env, [&](const Expr *x, const Env &e2) { if (!isa<CXXDefaultArgExpr>(x)) args.push_back(evalExpr(x, e2)); });
        return textCall(nm, self, args);
      }
      if (auto me = dyn_cast<CXXDependentScopeMemberExpr>(cal)) if (!me->isImplicitAccess()) {
        Val self = objectOf(ce, env);
        if (isText(self)) {
          vector<Val> args; callArgs(ce, env, [&](const Expr *x, const Env &e2) { args.push_back(evalExpr(x, e2)); });
          return textCall(me->getMember().getAsString(), self, args);
        }
      }
      string fn; 
      if (auto dr = dyn_cast<DeclRefExpr>(cal)) { if (auto fd = dyn_cast<FunctionDecl>(dr->getDecl())) if (fd->isInStdNamespace() || fd->isExternC()) fn = fd->getNameAsString(); }
      else if (auto ul = dyn_cast<UnresolvedLookupExpr>(cal)) { for (auto d : ul->decls()) if (d->isInStdNamespace() || (isa<FunctionDecl>(d) && cast<FunctionDecl>(d)->isExternC())) fn = ul->getName().getAsString(); }
      if (fn == "exit" || fn == "_Exit" || fn == "quick_exit") throw ExitCalled{};
      if (fn == "to_string" && ce->getNumArgs() == 1) { Val t = mkText(); Val a = rv(evalExpr(ce->getArg(0), env)); if (a.k != Val::Int) unsup("to_string"); t.t->push_back(promote(a.i)); return t; }
    }
    Sel s = resolveCall(ce, env, tv);
    if (!ce->isInstantiationDependent() && !env.fr) { /* closed, non-integral */ }
    Val self;
    if (auto md = dyn_cast<CXXMethodDecl>(s.fd)) if (!md->isStatic()) self = objectOf(ce, env);
    vector<Val> args;
    callArgs(ce, env, [&](const Expr *x, const Env &e2) { if (!isa<CXXDefaultArgExpr>(x)) args.push_back(evalExpr(x, e2)); });
    if (self.k == Val::Ptr) { self = self.idx >= 0 ? mkLv(self.o->elems.at(self.idx)) : mkLv(self.o); }
    if (self.k == Val::Lval) self = rv(self);
    return callFunction(s.fd, s.env, args, self);
  }
  case Stmt::PackExpansionExprClass: unsup("pack expansion in expression");
  default: unsup(string("expression ") + e->getStmtClassName());
  }
}

// text of T::get_value(), or what constructing T prints
static NamedDecl *findQualified(const string &name) {
  DeclContext *dc = AC->getTranslationUnitDecl();
  size_t pos = 0;
  NamedDecl *cur = nullptr;
  while (pos <= name.size()) {
    size_t e = name.find("::", pos);
    string part = name.substr(pos, e == string::npos ? string::npos : e - pos);
    cur = nullptr;
    for (auto d : dc->lookup(DeclarationName(&AC->Idents.get(part)))) { cur = d; break; }
    if (!cur) return nullptr;
    if (e == string::npos) return cur;
    pos = e + 2;
    dc = dyn_cast<DeclContext>(cur);
    if (!dc) return nullptr;
  }
  return cur;
}
static void runCtor(Node *cls) {
  ClassDef *cd = complete(cls);
  for (Node *b : cd->bases) runCtor(b);
  for (auto d : cd->def->decls()) {
    const CXXConstructorDecl *c = dyn_cast<CXXConstructorDecl>(d);
    if (auto ft = dyn_cast<FunctionTemplateDecl>(d)) if (isa<CXXConstructorDecl>(ft->getTemplatedDecl())) unsup("constructor template");
    if (!c || c->getNumParams() != 0 || c->isImplicit()) continue;
    const FunctionDecl *def = nullptr;
    if (c->isDefaulted()) continue;
    if (!c->hasBody(def)) unsup("constructor without a body");
    Val th; th.k = Val::Cls; th.ty = cls; th.o = newObj(cls);
    if (g_coverage) g_cover.insert(def);
    Frame fr; fr.thisv = th; Env env = cd->env; env.fr = &fr;
    Val ret; exec(def->getBody(), env, ret);
  }
}
static Node *textResult(Node *r) {
  if (!r || r->k != NK::Class) return nullptr;
  auto nd = cast<NamedDecl>(r->d);
  bool tx = vfName(nd, "text_of"), ou = vfName(nd, "output_of");
  if (!tx && !ou) return nullptr;
  g_textmode = true;
  Node *t = r->args.at(0);
  Val v;
  if (tx) {
    Found f = lookupMember(t, DeclarationName(&AC->Idents.get("get_value")));
    if (f.ds.empty()) sfail("no get_value in " + show(t, 3));
    auto fd = dyn_cast<FunctionDecl>(f.ds[0]);
    if (!fd) unsup("get_value is not a function");
    v = rv(callFunction(fd, f.owner->env, {}, Val()));
    if (v.k == Val::Ptr) { Val w = mkText(); appendText(w, v); v = w; }
  } else {
    try { runCtor(t); } catch (ExitCalled &) {}
    v = coutObj()->v;
  }
  if (v.k != Val::Text) unsup("get_value does not return a text");
  auto td = findQualified("vf::text"), dd = findQualified("vf::dec");
  vector<Node *> a;
  for (Node *n : *v.t) {
    QualType q = unqual(n->parent)->qt;
    if (unqual(n->parent)->k == NK::Builtin && q->isAnyCharacterType()) a.push_back(n);
    else a.push_back(mkClass(dd, nullptr, {n->isb ? convInt(n, tInt, false) : n}));
  }
  return mkClass(td, nullptr, a);
}
