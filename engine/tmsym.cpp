// tmsym: symbolic executor for C++ template metaprograms.
//
// The translation unit is parsed by clang (LibTooling); the *uninstantiated*
// template patterns of the clang AST are then interpreted by this program.
// Template non-type arguments (and the values of constant expressions) may be
// symbolic z3 bit-vector terms.  Whenever the choice of a specialization, a
// constexpr branch, an overload, ... depends on a symbolic value, the process
// asks z3 which outcomes are feasible under the current path condition and
// forks when both are.  Every finished path is written as one JSON line:
// path condition (SMT-LIB), variables, and the resulting type term.
//
// Usage: tmsym [options] file.cpp ENTRY... -- <clang args>
//   ENTRY is the qualified name of a class template with one type parameter;
//   the term evaluated is ENTRY<vf::Z>::type.
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <functional>
#include <sstream>
#include <clang/Sema/Sema.h>
#include <clang/Sema/Template.h>
#include <clang/Sema/TemplateDeduction.h>
#include <clang/Sema/SemaDiagnostic.h>
#include <z3++.h>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <string>
#include <vector>
#include <cstdio>
#include <iostream>
#include <sys/mman.h>
#include <csetjmp>
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <semaphore.h>

using namespace clang;
using std::string;
using std::vector;
typedef long long i64;

static double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- globals
struct Shared {            // shared between all forked path processes
  volatile long paths, queries, decisions, forks, steps, insts;
  volatile long active;
  volatile double solver_s;
  volatile int abort_; volatile int crashes;
  sem_t sem;
};
static Shared *SH;
static int g_out = 1;
static long g_maxpaths = 20000;
static double g_deadline = 1e18;
static int g_slots = 8;
static int g_maxdepth = 900;
static bool g_char_no_ff = false;
static bool g_trace = false;
static bool g_coverage = false;
static ASTContext *AC;
static Sema *SM;
static z3::context *ZC;
static z3::solver *ZS;
static string g_entry;
static vector<pid_t> g_children;

// ---------------------------------------------------------------- errors
struct SubstFail { string msg; };       // substitution failure (SFINAE-able)
struct HardError { string msg; };       // ill-formed program
struct Node;
static Node *g_errcls = nullptr;       // the class whose instantiation is ill-formed
struct Unsupported { string msg; };     // engine limitation
struct PathKilled { string msg; };      // assumption violated
struct LimitHit { string msg; };

[[noreturn]] static void sfail(const string &m) { throw SubstFail{m}; }
[[noreturn]] static void hard(const string &m) { throw HardError{m}; }
[[noreturn]] static void unsup(const string &m) { throw Unsupported{m}; }

// ---------------------------------------------------------------- nodes
enum class NK { Builtin, Class, Enum, Ptr, LRef, RRef, Qual, Array, IncArray, Func,
                MemPtr, Int, Tmpl, Pack, Other };

struct ClassDef;
struct Node {
  NK k;
  QualType qt;                 // Builtin / Other
  const Decl *d = nullptr;     // Class: ClassTemplateDecl or CXXRecordDecl; Tmpl: TemplateDecl; Enum
  Node *parent = nullptr;      // enclosing class instance / pointee / element / underlying
  vector<Node *> args;         // Class args, Func [ret, params...], Pack
  i64 n = 0;                   // Array size, qualifier mask, Int value (concrete), variadic flag
  // Int
  unsigned w = 0; bool sg = false; bool isb = false; bool sym = false;
  Z3_ast e = nullptr;
  bool hasSym = false;
  unsigned id = 0;
  ClassDef *def = nullptr;     // memo
  bool inprogress = false;
};

struct Lv { const Lv *up; unsigned depth; vector<Node *> a; };

static std::unordered_map<string, Node *> g_intern;
static unsigned g_nextid = 1;

static Node *intern(Node &&n, const string &key) {
  auto it = g_intern.find(key);
  if (it != g_intern.end()) return it->second;
  Node *p = new Node(std::move(n));
  p->id = g_nextid++;
  g_intern.emplace(key, p);
  return p;
}
static string kid(const Node *n) { return n ? std::to_string(n->id) : "0"; }
static string kptr(const void *p) { char b[32]; snprintf(b, 32, "%p", p); return b; }

static Node *mkBuiltin(QualType q) {
  q = q.getCanonicalType().getUnqualifiedType();
  Node n; n.k = NK::Builtin; n.qt = q;
  return intern(std::move(n), "B" + kptr(q.getAsOpaquePtr()));
}
static Node *mkOther(QualType q) {
  q = q.getCanonicalType();
  Node n; n.k = NK::Other; n.qt = q;
  return intern(std::move(n), "O" + kptr(q.getAsOpaquePtr()));
}
static bool anySym(const vector<Node *> &v) { for (auto x : v) if (x && x->hasSym) return true; return false; }
static Node *mkClass(const Decl *d, Node *parent, vector<Node *> args) {
  d = d->getCanonicalDecl();
  string key = "C" + kptr(d) + "/" + kid(parent);
  for (auto a : args) key += "," + kid(a);
  Node n; n.k = NK::Class; n.d = d; n.parent = parent;
  n.hasSym = anySym(args) || (parent && parent->hasSym);
  n.args = std::move(args);
  return intern(std::move(n), key);
}
static Node *mkEnum(const Decl *d, Node *parent) {
  d = d->getCanonicalDecl();
  Node n; n.k = NK::Enum; n.d = d; n.parent = parent; n.hasSym = parent && parent->hasSym;
  return intern(std::move(n), "E" + kptr(d) + "/" + kid(parent));
}
static Node *mkTmpl(const Decl *d, Node *parent) {
  d = d->getCanonicalDecl();
  Node n; n.k = NK::Tmpl; n.d = d; n.parent = parent; n.hasSym = parent && parent->hasSym;
  return intern(std::move(n), "M" + kptr(d) + "/" + kid(parent));
}
static Node *mkWrap(NK k, Node *in, i64 num = 0) {
  Node n; n.k = k; n.parent = in; n.n = num; n.hasSym = in && in->hasSym;
  return intern(std::move(n), "W" + std::to_string((int)k) + "/" + kid(in) + "/" + std::to_string(num));
}
static Node *mkQual(Node *in, unsigned q) {
  if (!q) return in;
  if (in->k == NK::Qual) { q |= in->n; in = in->parent; }
  if (in->k == NK::LRef || in->k == NK::RRef || in->k == NK::Func) return in;
  if (in->k == NK::Array) return mkWrap(NK::Array, mkQual(in->parent, q), in->n);
  if (in->k == NK::IncArray) return mkWrap(NK::IncArray, mkQual(in->parent, q));
  return mkWrap(NK::Qual, in, q);
}
static Node *unqual(Node *t) { return t->k == NK::Qual ? t->parent : t; }
static Node *unref(Node *t) { return (t->k == NK::LRef || t->k == NK::RRef) ? t->parent : t; }
static Node *mkPack(vector<Node *> v) {
  string key = "P"; for (auto a : v) key += "," + kid(a);
  Node n; n.k = NK::Pack; n.hasSym = anySym(v); n.args = std::move(v);
  return intern(std::move(n), key);
}
static Node *mkFunc(vector<Node *> v, bool variadic) {
  string key = "F" + std::to_string(variadic); for (auto a : v) key += "," + kid(a);
  Node n; n.k = NK::Func; n.n = variadic; n.hasSym = anySym(v); n.args = std::move(v);
  return intern(std::move(n), key);
}

// ---------------------------------------------------------------- integers
static i64 norm(i64 v, unsigned w, bool sg, bool isb) {
  if (isb) return v != 0;
  if (w >= 64) return v;
  unsigned long long m = (1ULL << w) - 1, u = (unsigned long long)v & m;
  if (sg && (u >> (w - 1))) return (i64)(u | ~m);
  return (i64)u;
}
// type info for integral types
struct IT { unsigned w; bool sg, isb; };
static bool intTypeInfo(Node *t, IT &o) {
  t = unqual(unref(t));
  QualType q;
  if (t->k == NK::Enum) {
    const EnumDecl *ed = cast<EnumDecl>(t->d);
    QualType u = ed->getIntegerType();
    if (u.isNull() || u->isDependentType()) u = AC->IntTy;
    q = u;
  } else if (t->k == NK::Builtin) q = t->qt;
  else return false;
  if (q->isBooleanType()) { o = {1, false, true}; return true; }
  if (!q->isIntegralOrEnumerationType()) return false;
  o.w = AC->getTypeSize(q); o.sg = q->isSignedIntegerOrEnumerationType(); o.isb = false;
  return true;
}
static Node *mkInt(Node *ty, i64 v) {
  IT it; if (!intTypeInfo(ty, it)) unsup("int of non-integral type");
  v = norm(v, it.w, it.sg, it.isb);
  ty = unqual(ty);
  Node n; n.k = NK::Int; n.parent = ty; n.w = it.w; n.sg = it.sg; n.isb = it.isb; n.n = v;
  return intern(std::move(n), "I" + kid(ty) + "=" + std::to_string(v));
}
static Node *mkSym(Node *ty, z3::expr e) {
  IT it; if (!intTypeInfo(ty, it)) unsup("sym of non-integral type");
  ty = unqual(ty);
  e = e.simplify();
  if (it.isb) {
    if (e.is_true()) return mkInt(ty, 1);
    if (e.is_false()) return mkInt(ty, 0);
  } else {
    if (e.is_numeral()) {
      uint64_t u; if (Z3_get_numeral_uint64(*ZC, e, &u)) return mkInt(ty, (i64)u);
    }
  }
  Z3_ast a = e; Z3_inc_ref(*ZC, a);
  Node n; n.k = NK::Int; n.parent = ty; n.w = it.w; n.sg = it.sg; n.isb = it.isb; n.sym = true; n.e = a; n.hasSym = true;
  return intern(std::move(n), "S" + kid(ty) + "=" + std::to_string(Z3_get_ast_id(*ZC, a)));
}
static z3::expr zx(Node *i) {  // z3 expression of an Int node
  if (i->sym) return z3::expr(*ZC, i->e);
  if (i->isb) return ZC->bool_val(i->n != 0);
  return ZC->bv_val((int64_t)i->n, i->w);
}
static z3::expr zbv(Node *i, unsigned w, bool) { // as bit-vector of width w (value conversion)
  if (i->isb) {
    return z3::ite(zx(i), ZC->bv_val(1, w), ZC->bv_val(0, w));
  }
  z3::expr e = zx(i);
  if (i->w == w) return e;
  if (i->w > w) return e.extract(w - 1, 0);
  return i->sg ? z3::sext(e, w - i->w) : z3::zext(e, w - i->w);
}

// ---------------------------------------------------------------- deciding
static void noteSolver(double t) {
  sem_wait(&SH->sem); SH->queries++; SH->solver_s = SH->solver_s + t; sem_post(&SH->sem);
}
static vector<string> g_pcs;   // textual decisions for debugging
static z3::check_result chk(z3::expr c) {
  double t = now();
  z3::expr_vector a(*ZC); 
  ZS->push(); ZS->add(c);
  z3::check_result r = ZS->check();
  ZS->pop();
  noteSolver(now() - t);
  if (r == z3::unknown) throw LimitHit{"solver unknown"};
  return r;
}
static void limits() {
  if (SH->abort_) throw LimitHit{"aborted"};
  if (SH->paths > g_maxpaths) { SH->abort_ = 1; throw LimitHit{"path limit"}; }
  if (now() > g_deadline) { SH->abort_ = 1; throw LimitHit{"deadline"}; }
}
static bool decide(z3::expr c) {
  c = c.simplify();
  if (c.is_true()) return true;
  if (c.is_false()) return false;
  limits();
  __sync_fetch_and_add(&SH->decisions, 1);
  if (chk(c) == z3::unsat) return false;
  if (chk(!c) == z3::unsat) return true;
  // both feasible: fork
  __sync_fetch_and_add(&SH->forks, 1);
  fflush(stdout); fflush(stderr);
  bool parallel = false;
  if (__sync_add_and_fetch(&SH->active, 1) <= g_slots) parallel = true;
  else __sync_sub_and_fetch(&SH->active, 1);
  pid_t p = fork();
  if (p < 0) throw LimitHit{"fork failed"};
  if (p == 0) {
    g_children.clear();
    ZS->add(!c);
    // a child that holds its own slot must release it on exit (flag via env var g_ownslot)
    extern bool g_ownslot; g_ownslot = parallel;
    return false;
  }
  if (parallel) g_children.push_back(p);
  else { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) __sync_fetch_and_add(&SH->crashes, 1); }
  ZS->add(c);
  return true;
}
bool g_ownslot = false;

struct Conds {                    // conjunction of symbolic conditions
  vector<z3::expr> v;
  void add(z3::expr e) { v.push_back(e); }
  bool settle() {                 // decide the conjunction
    if (v.empty()) return true;
    z3::expr c = v[0];
    for (size_t i = 1; i < v.size(); i++) c = c && v[i];
    return decide(c);
  }
};

static i64 concrete(Node *i) {    // force a concrete value (case split over all values)
  if (!i->sym) return i->n;
  for (int k = 0; k < 4096; k++) {
    limits();
    double t = now();
    if (ZS->check() != z3::sat) throw PathKilled{"infeasible"};
    z3::model m = ZS->get_model();
    noteSolver(now() - t);
    z3::expr v = m.eval(zx(i), true);
    if (i->isb) { bool b = v.is_true(); if (decide(zx(i) == v)) return b; continue; }
    uint64_t u; if (!Z3_get_numeral_uint64(*ZC, v, &u)) unsup("numeral");
    if (decide(zx(i) == v)) return norm((i64)u, i->w, i->sg, i->isb);
  }
  unsup("concretisation exceeded");
}

// equality of types/args; false = definitely different; conditions added
static bool nodeEq(Node *a, Node *b, Conds &c) {
  if (a == b) return true;
  if (!a || !b || a->k != b->k) return false;
  if (!a->hasSym && !b->hasSym && a->k != NK::Int) {
    if (a->k != NK::Other) return false;   // interned
    return a->qt == b->qt;
  }
  switch (a->k) {
  case NK::Int: {
    // same parameter => same type normally; compare the values (and the types)
    if (a->parent != b->parent) {
      IT x, y; intTypeInfo(a->parent, x); intTypeInfo(b->parent, y);
      if (a->parent->k == NK::Enum || b->parent->k == NK::Enum || x.w != y.w || x.sg != y.sg || x.isb != y.isb) {
        // different types (auto parameters): treated as different unless concrete-equal value of same type
        return false;
      }
    }
    if (!a->sym && !b->sym) return a->n == b->n;
    z3::expr e = (zx(a) == zx(b)).simplify();
    if (e.is_true()) return true;
    if (e.is_false()) return false;
    c.add(e);
    return true;
  }
  case NK::Class: case NK::Enum: case NK::Tmpl:
    if (a->d != b->d || a->args.size() != b->args.size()) return false;
    if (!a->parent != !b->parent) return false;
    if (a->parent && !nodeEq(a->parent, b->parent, c)) return false;
    for (size_t i = 0; i < a->args.size(); i++) if (!nodeEq(a->args[i], b->args[i], c)) return false;
    return true;
  case NK::Ptr: case NK::LRef: case NK::RRef: case NK::IncArray:
    return nodeEq(a->parent, b->parent, c);
  case NK::Qual: case NK::Array:
    return a->n == b->n && nodeEq(a->parent, b->parent, c);
  case NK::MemPtr: case NK::Func: case NK::Pack:
    if (a->n != b->n || a->args.size() != b->args.size()) return false;
    for (size_t i = 0; i < a->args.size(); i++) if (!nodeEq(a->args[i], b->args[i], c)) return false;
    return true;
  default: return false;
  }
}
static bool nodeEqDecide(Node *a, Node *b) {
  Conds c; if (!nodeEq(a, b, c)) return false; return c.settle();
}

// ---------------------------------------------------------------- values
struct Obj; typedef std::shared_ptr<Obj> ObjP;
struct Val {
  enum K { None, Int, Ptr, Lval, Cls, NullP, Fn, Void, Text } k = None;
  std::shared_ptr<vector<Node *>> t;   // Text: characters (char typed) and numbers (printed in decimal)
  Node *i = nullptr;    // Int
  ObjP o;               // Lval: object; Ptr: array object (or single object)
  i64 idx = 0;          // Ptr index; -1: pointer to the object itself
  Node *ty = nullptr;   // static type where known (Cls: class type; Ptr: pointee)
  const FunctionDecl *fn = nullptr;
};
struct Obj { Val v; vector<ObjP> elems; bool isArray = false; Node *ty = nullptr; std::map<const Decl *, ObjP> fields; };

struct Frame { std::map<const Decl *, ObjP> vars; std::map<const Decl *, vector<ObjP>> packs; Val thisv; };

struct Env {
  const Lv *lv = nullptr;
  Node *cls = nullptr;
  // current element of packs under expansion, keyed by (depth,index)
  std::shared_ptr<std::map<std::pair<unsigned, unsigned>, unsigned>> pk;
  std::shared_ptr<std::map<const Decl *, unsigned>> ppk;   // function parameter packs
  Frame *fr = nullptr;
};

struct ClassDef {
  Node *self; const CXXRecordDecl *def; Env env; vector<Node *> bases; bool done = false; bool failed = false; string err;
  std::unordered_map<const Decl *, Node *> tmemo;
  std::unordered_map<const Decl *, Val> vmemo;
  std::set<const Decl *> busy;
};

static Node *substType(QualType q, const Env &env);
static Val evalExpr(const Expr *e, const Env &env);
static Node *typeOf(const Expr *e, const Env &env, bool decl_type = false);
static ClassDef *complete(Node *c);
static void evalArgs(ArrayRef<TemplateArgument> as, const Env &env, vector<Node *> &out);
static Node *instantiate(const TemplateDecl *td, Node *parent, vector<Node *> given);
static Val rv(Val v);
static Node *toInt(Val v);

static Node *tInt, *tBool, *tSizeT, *tChar, *tVoid, *tNull;

struct DepthGuard { 
  static int d; 
  DepthGuard() { if (++d > g_maxdepth) { throw HardError{"template instantiation depth exceeds limit"}; } if ((d & 15) == 0) limits(); }
  ~DepthGuard() { --d; } };
int DepthGuard::d = 0;

static string declName(const Decl *d) {
  if (auto nd = dyn_cast_or_null<NamedDecl>(d)) return nd->getQualifiedNameAsString();
  return "?";
}
static std::set<const Decl *> g_cover;   // patterns encoded (functions/templates executed)

static string show(Node *n, int depth = 6);
static string show(Node *n, int depth) {
  if (!n) return "<null>";
  if (depth <= 0) return "...";
  switch (n->k) {
  case NK::Builtin: case NK::Other: return n->qt.getAsString();
  case NK::Int: if (n->sym) { std::ostringstream o; o << zx(n); string s = o.str(); return "{" + (s.size() > 60 ? s.substr(0, 60) : s) + "}"; } return std::to_string(n->n);
  case NK::Ptr: return show(n->parent, depth) + "*";
  case NK::LRef: return show(n->parent, depth) + "&";
  case NK::RRef: return show(n->parent, depth) + "&&";
  case NK::Qual: return "cv " + show(n->parent, depth);
  case NK::Array: return show(n->parent, depth) + "[" + std::to_string(n->n) + "]";
  case NK::IncArray: return show(n->parent, depth) + "[]";
  case NK::Tmpl: return declName(n->d);
  case NK::Enum: return declName(n->d);
  case NK::Pack: case NK::Func: case NK::MemPtr: {
    string s = "("; for (auto a : n->args) s += show(a, depth - 1) + ","; return s + ")";
  }
  case NK::Class: {
    string s = n->parent ? show(n->parent, depth - 1) + "::" + cast<NamedDecl>(n->d)->getNameAsString() : declName(n->d);
    if (isa<ClassTemplateDecl>(n->d)) { s += "<"; for (auto a : n->args) s += show(a, depth - 1) + ","; s += ">"; }
    return s;
  }
  }
  return "?";
}

// find level of a template parameter
static Node *lookupParm(const Env &env, unsigned depth, unsigned index, bool isPack, const char *what) {
  for (const Lv *l = env.lv; l; l = l->up)
    if (l->depth == depth) {
      if (index >= l->a.size() || !l->a[index]) sfail(string("unbound template parameter ") + what);
      Node *n = l->a[index];
      if (n->k == NK::Pack && env.pk) {
        auto it = env.pk->find({depth, index});
        if (it != env.pk->end()) {
          if (it->second >= n->args.size()) sfail("pack index");
          return n->args[it->second];
        }
      }
      return n;
    }
  unsup(string("template parameter level not found: ") + what);
}

static const CXXRecordDecl *patternRec(const CXXRecordDecl *rd) { return rd; }

// The instance of the class pattern `rd` visible from env (current instantiation chain).
static bool sameRec(const Decl *a, const Decl *b) { return a->getCanonicalDecl() == b->getCanonicalDecl(); }
static Node *convRecord(const CXXRecordDecl *rd, const Env &env);
static Node *convArg(const TemplateArgument &a, const Env &env);

static ClassDef *defIfAny(Node *c) { return c->def; }

static Node *findEnclosing(const CXXRecordDecl *rd, const Env &env) {
  for (Node *c = env.cls; c; c = c->parent) {
    if (c->k != NK::Class) break;
    ClassDef *cd = defIfAny(c);
    if (cd && cd->def && sameRec(cd->def, rd)) return c;
    if (auto ct = dyn_cast<ClassTemplateDecl>(c->d)) {
      if (!cd && sameRec(ct->getTemplatedDecl(), rd)) return c;
    } else if (sameRec(c->d, rd)) return c;
    // a primary template may be re-declared: compare described templates
    if (cd && cd->def) {
      auto a = cd->def->getDescribedClassTemplate(), b = rd->getDescribedClassTemplate();
      if (a && b && sameRec(a, b)) return c;
    }
  }
  return nullptr;
}
static bool isImplicitInst(const CXXRecordDecl *rd) {
  if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(rd))
    if (!isa<ClassTemplatePartialSpecializationDecl>(s) && s->getSpecializationKind() != TSK_ExplicitSpecialization) return true;
  if (rd->getInstantiatedFromMemberClass()) return true;
  if (auto p = dyn_cast<CXXRecordDecl>(rd->getDeclContext())) return isImplicitInst(p);
  return false;
}
static Node *parentInst(const Decl *d, const Env &env) {
  auto p = dyn_cast<CXXRecordDecl>(d->getDeclContext());
  if (!p) return nullptr;
  if (Node *c = findEnclosing(p, env)) return c;
  return convRecord(p, env);
}
static const ClassTemplateDecl *patternTmpl(const ClassTemplateDecl *td) {
  while (auto m = const_cast<ClassTemplateDecl *>(td)->getInstantiatedFromMemberTemplate()) {
    if (td->isMemberSpecialization()) break;
    td = m;
  }
  return td;
}
static Node *convRecord(const CXXRecordDecl *rd, const Env &env) {
  if (rd->isInjectedClassName()) rd = cast<CXXRecordDecl>(rd->getDeclContext());
  if (Node *c = findEnclosing(rd, env)) return c;
  if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
    if (isa<ClassTemplatePartialSpecializationDecl>(s)) sfail("partial specialization outside its instantiation: " + declName(rd));
    const ClassTemplateDecl *td = s->getSpecializedTemplate();
    Node *par = parentInst(td, env);
    vector<Node *> args;
    Env empty;
    for (auto &a : s->getTemplateArgs().asArray()) args.push_back(convArg(a, empty));
    return mkClass(patternTmpl(td), par, args);
  }
  if (auto td = rd->getDescribedClassTemplate()) {
    // pattern of a template mentioned outside of its instantiation
    sfail("class template pattern outside its instantiation: " + declName(td));
  }
  if (rd->getInstantiatedFromMemberClass()) {
    Node *par = parentInst(rd, env);
    const CXXRecordDecl *p = rd;
    while (auto m = p->getInstantiatedFromMemberClass()) p = m;
    return mkClass(p, par, {});
  }
  Node *par = parentInst(rd, env);
  return mkClass(rd, par, {});
}

static Node *convArg(const TemplateArgument &a, const Env &env) {
  switch (a.getKind()) {
  case TemplateArgument::Type: return substType(a.getAsType(), env);
  case TemplateArgument::Integral: {
    Node *t = substType(a.getIntegralType(), env);
    return mkInt(t, a.getAsIntegral().getExtValue());
  }
  case TemplateArgument::Pack: {
    vector<Node *> v;
    evalArgs(a.pack_elements(), env, v);
    return mkPack(v);
  }
  default: {
    vector<Node *> v; evalArgs(a, env, v);
    if (v.size() != 1) unsup("argument expansion");
    return v[0];
  }
  }
}

// ------------------------------------------------------------ template names
static bool resolveNNS(const NestedNameSpecifier *q, const Env &env, Node *&cls);  // false: namespace/global
static Node *findMemberTemplate(Node *cls, const IdentifierInfo *id, const Env &env);

static Node *evalTemplateName(TemplateName tn, const Env &env) {
  switch (tn.getKind()) {
  case TemplateName::Template: {
    TemplateDecl *td = tn.getAsTemplateDecl();
    if (auto tt = dyn_cast<TemplateTemplateParmDecl>(td))
      return lookupParm(env, tt->getDepth(), tt->getIndex(), tt->isParameterPack(), "template template");
    Node *par = parentInst(td, env);
    if (auto ct = dyn_cast<ClassTemplateDecl>(td)) return mkTmpl(patternTmpl(ct), par);
    if (auto at = dyn_cast<TypeAliasTemplateDecl>(td)) {
      while (auto m = at->getInstantiatedFromMemberTemplate()) at = m;
      return mkTmpl(at, par);
    }
    return mkTmpl(td, par);
  }
  case TemplateName::QualifiedTemplate:
    return evalTemplateName(tn.getAsQualifiedTemplateName()->getUnderlyingTemplate(), env);
  case TemplateName::UsingTemplate:
    return evalTemplateName(TemplateName(tn.getAsTemplateDecl()), env);
  case TemplateName::DependentTemplate: {
    auto dt = tn.getAsDependentTemplateName();
    Node *cls = nullptr;
    if (!resolveNNS(dt->getQualifier(), env, cls) || !cls) unsup("dependent template in namespace");
    if (!dt->isIdentifier()) unsup("operator template");
    return findMemberTemplate(cls, dt->getIdentifier(), env);
  }
  case TemplateName::SubstTemplateTemplateParm:
    return evalTemplateName(tn.getAsSubstTemplateTemplateParm()->getReplacement(), env);
  default: unsup("template name kind");
  }
}

// ------------------------------------------------------------ packs
static void collectPacks(const TemplateArgument &pat, SmallVectorImpl<UnexpandedParameterPack> &out) {
  SM->collectUnexpandedParameterPacks(pat, out);
}
// expand: call f(env_i) for each element
static void expandPack(const SmallVectorImpl<UnexpandedParameterPack> &ps, const Env &env, std::function<void(const Env &)> f) {
  i64 n = -1;
  vector<std::pair<unsigned, unsigned>> keys; vector<const Decl *> pkeys;
  for (auto &p : ps) {
    unsigned depth, index; i64 len = -1;
    if (auto tp = p.first.dyn_cast<const TemplateTypeParmType *>()) { depth = tp->getDepth(); index = tp->getIndex(); }
    else {
      auto nd = p.first.get<NamedDecl *>();
      if (auto t = dyn_cast<TemplateTypeParmDecl>(nd)) { depth = t->getDepth(); index = t->getIndex(); }
      else if (auto t = dyn_cast<NonTypeTemplateParmDecl>(nd)) { depth = t->getDepth(); index = t->getIndex(); }
      else if (auto t = dyn_cast<TemplateTemplateParmDecl>(nd)) { depth = t->getDepth(); index = t->getIndex(); }
      else {
        // function parameter pack
        if (env.fr && env.fr->packs.count(nd)) {
          len = env.fr->packs[nd].size(); pkeys.push_back(nd);
          if (n >= 0 && n != len) sfail("pack length mismatch"); n = len; continue;
        }
        // outside a call: the template parameter packs of its type
        auto pd = dyn_cast<ParmVarDecl>(nd); auto pe = pd ? pd->getType()->getAs<PackExpansionType>() : nullptr;
        if (!pe) unsup("unknown pack");
        SmallVector<UnexpandedParameterPack, 2> qs; SM->collectUnexpandedParameterPacks(pe->getPattern(), qs);
        if (qs.empty()) unsup("unknown pack");
        auto &q = qs[0];
        if (auto tp = q.first.dyn_cast<const TemplateTypeParmType *>()) { depth = tp->getDepth(); index = tp->getIndex(); }
        else { auto nd2 = q.first.get<NamedDecl *>(); if (auto t = dyn_cast<TemplateTypeParmDecl>(nd2)) { depth = t->getDepth(); index = t->getIndex(); } else if (auto t = dyn_cast<NonTypeTemplateParmDecl>(nd2)) { depth = t->getDepth(); index = t->getIndex(); } else unsup("unknown pack"); }
      }
    }
    if (env.pk && env.pk->count({depth, index})) continue;   // already selected by an outer expansion
    Node *pn = lookupParm(env, depth, index, true, "pack");
    if (pn->k != NK::Pack) unsup("pack expected");
    len = pn->args.size();
    if (n >= 0 && n != len) sfail("pack length mismatch");
    n = len; keys.push_back({depth, index});
  }
  if (n < 0) unsup("no pack to expand");
  for (i64 i = 0; i < n; i++) {
    Env e2 = env;
    e2.pk = std::make_shared<std::map<std::pair<unsigned, unsigned>, unsigned>>(env.pk ? *env.pk : std::map<std::pair<unsigned, unsigned>, unsigned>());
    for (auto &k : keys) (*e2.pk)[k] = i;
    if (!pkeys.empty()) {
      e2.ppk = std::make_shared<std::map<const Decl *, unsigned>>(env.ppk ? *env.ppk : std::map<const Decl *, unsigned>());
      for (auto k : pkeys) (*e2.ppk)[k] = i;
    }
    f(e2);
  }
}

// raw argument expression value: Int node, Tmpl, ... (type conversion happens in bindArgs)
static Node *constNode(Val v) {
  v = rv(v);
  if (v.k == Val::Int) return v.i;
  if (v.k == Val::Cls) return toInt(v);
  if (v.k == Val::NullP) return mkInt(tInt, 0);
  unsup("non-integral template argument value");
}

static void evalArg(const TemplateArgument &a, const Env &env, vector<Node *> &out) {
  switch (a.getKind()) {
  case TemplateArgument::Type: {
    QualType t = a.getAsType();
    if (auto pe = t->getAs<PackExpansionType>()) {
      SmallVector<UnexpandedParameterPack, 2> ps;
      SM->collectUnexpandedParameterPacks(pe->getPattern(), ps);
      expandPack(ps, env, [&](const Env &e2) { out.push_back(substType(pe->getPattern(), e2)); });
      return;
    }
    out.push_back(substType(t, env));
    return;
  }
  case TemplateArgument::Expression: {
    const Expr *e = a.getAsExpr();
    if (auto pe = dyn_cast<PackExpansionExpr>(e)) {
      SmallVector<UnexpandedParameterPack, 2> ps;
      SM->collectUnexpandedParameterPacks(TemplateArgument(const_cast<Expr *>(pe->getPattern())), ps);
      expandPack(ps, env, [&](const Env &e2) { out.push_back(constNode(evalExpr(pe->getPattern(), e2))); });
      return;
    }
    out.push_back(constNode(evalExpr(e, env)));
    return;
  }
  case TemplateArgument::Integral:
    out.push_back(mkInt(substType(a.getIntegralType(), env), a.getAsIntegral().getExtValue()));
    return;
  case TemplateArgument::Template:
    out.push_back(evalTemplateName(a.getAsTemplate(), env));
    return;
  case TemplateArgument::TemplateExpansion: {
    SmallVector<UnexpandedParameterPack, 2> ps;
    SM->collectUnexpandedParameterPacks(TemplateArgument(a.getAsTemplateOrTemplatePattern()), ps);
    expandPack(ps, env, [&](const Env &e2) { out.push_back(evalTemplateName(a.getAsTemplateOrTemplatePattern(), e2)); });
    return;
  }
  case TemplateArgument::Pack:
    for (auto &x : a.pack_elements()) evalArg(x, env, out);
    return;
  case TemplateArgument::NullPtr: out.push_back(mkInt(tInt, 0)); return;
  default: unsup("template argument kind");
  }
}
static void evalArgs(ArrayRef<TemplateArgument> as, const Env &env, vector<Node *> &out) {
  for (auto &a : as) evalArg(a, env, out);
}

// ------------------------------------------------------------ conversions of integers
static Node *convInt(Node *i, Node *ty, bool checkNarrow) {
  IT it;
  if (!intTypeInfo(ty, it)) unsup("conversion to non-integral type " + show(ty));
  ty = unqual(unref(ty));
  if (i->parent == ty) return i;
  if (!i->sym) {
    i64 r = norm(i->n, it.w, it.sg, it.isb);
    if (checkNarrow && AC->getLangOpts().CPlusPlus11) {
      bool lossless = r == i->n;
      if (!it.isb && it.w == 64 && i->sg != it.sg && i->n < 0) lossless = false;
      if (it.isb) lossless = i->isb || i->n == 0 || i->n == 1;  // int->bool is narrowing unless 0/1 (clang/gcc accept 0/1)
      if (!lossless) sfail("narrowing conversion in converted constant expression");
    }
    return mkInt(ty, i->n);
  }
  if (it.isb) {
    z3::expr nz = i->isb ? zx(i) : (zx(i) != ZC->bv_val(0, i->w));
    if (checkNarrow && !i->isb && AC->getLangOpts().CPlusPlus11) {
      z3::expr ok = zx(i) == ZC->bv_val(0, i->w) || zx(i) == ZC->bv_val(1, i->w);
      if (!decide(ok)) sfail("narrowing to bool");
    }
    return mkSym(ty, nz);
  }
  z3::expr r = zbv(i, it.w, it.sg);
  if (checkNarrow && AC->getLangOpts().CPlusPlus11 && !i->isb) {
    unsigned W = std::max(it.w, i->w) + 1;
    z3::expr a = i->sg ? z3::sext(zx(i), W - i->w) : z3::zext(zx(i), W - i->w);
    z3::expr b = it.sg ? z3::sext(r, W - it.w) : z3::zext(r, W - it.w);
    if (!decide(a == b)) sfail("narrowing conversion in converted constant expression");
  }
  return mkSym(ty, r);
}

// ------------------------------------------------------------ binding arguments
static const Lv *lvOf(Node *cls) {
  if (!cls) return nullptr;
  ClassDef *cd = complete(cls);
  return cd->env.lv;
}
static Env outerEnv(Node *parent) {
  Env e;
  if (parent) { ClassDef *cd = parent->def ? parent->def : complete(parent); e.lv = cd->env.lv; e.cls = parent; }
  return e;
}
static bool tmplCompatible(const TemplateTemplateParmDecl *p, Node *arg);

static Node *convToParam(const NamedDecl *prm, Node *a, const Env &env) {
  if (isa<TemplateTypeParmDecl>(prm)) {
    if (a->k == NK::Int || a->k == NK::Tmpl || a->k == NK::Pack) sfail("type argument expected");
    return a;
  }
  if (auto n = dyn_cast<NonTypeTemplateParmDecl>(prm)) {
    if (a->k != NK::Int) sfail("non-type argument expected");
    QualType pt = n->getType();
    if (auto pe = pt->getAs<PackExpansionType>()) pt = pe->getPattern();
    if (pt->getContainedAutoType()) return a;
    Node *t = unqual(substType(pt, env));
    IT it;
    if (!intTypeInfo(t, it)) {
      if (!a->sym && a->n == 0) return a;   // null pointer constant
      sfail("unsupported non-type parameter type");
    }
    return convInt(a, t, true);
  }
  auto tt = cast<TemplateTemplateParmDecl>(prm);
  if (a->k != NK::Tmpl) sfail("template argument expected");
  if (!tmplCompatible(tt, a)) sfail("template template argument mismatch");
  return a;
}
static const TemplateDecl *mostRecent(const TemplateDecl *td) { return cast<TemplateDecl>(td->getMostRecentDecl()); }

static vector<Node *> bindArgs(const TemplateDecl *td, Node *parent, const vector<Node *> &given) {
  const TemplateParameterList *pl = td->getTemplateParameters();
  unsigned depth = pl->getDepth();
  Env env = outerEnv(parent);
  // drop levels deeper or equal (can happen when parent's own level has the same depth)
  Lv *l = new Lv{env.lv, depth, {}};
  l->a.resize(pl->size(), nullptr);
  env.lv = l;
  size_t gi = 0;
  for (unsigned i = 0; i < pl->size(); i++) {
    const NamedDecl *p = pl->getParam(i);
    if (p->isTemplateParameterPack()) {
      vector<Node *> v;
      // a pack takes everything left (class templates: pack is last)
      size_t keep = pl->size() - i - 1;
      while (gi + keep < given.size()) { v.push_back(convToParam(p, given[gi], env)); gi++; }
      l->a[i] = mkPack(v);
      continue;
    }
    if (gi < given.size()) { l->a[i] = convToParam(p, given[gi++], env); continue; }
    // defaults
    if (auto t = dyn_cast<TemplateTypeParmDecl>(p)) {
      if (!t->hasDefaultArgument()) {
        auto mr = mostRecent(td); t = cast<TemplateTypeParmDecl>(mr->getTemplateParameters()->getParam(i));
        if (!t->hasDefaultArgument()) sfail("too few template arguments for " + declName(td));
      }
      l->a[i] = substType(t->getDefaultArgument(), env);
    } else if (auto t = dyn_cast<NonTypeTemplateParmDecl>(p)) {
      if (!t->hasDefaultArgument()) {
        auto mr = mostRecent(td); t = cast<NonTypeTemplateParmDecl>(mr->getTemplateParameters()->getParam(i));
        if (!t->hasDefaultArgument()) sfail("too few template arguments for " + declName(td));
      }
      l->a[i] = convToParam(p, constNode(evalExpr(t->getDefaultArgument(), env)), env);
    } else {
      auto tt = cast<TemplateTemplateParmDecl>(p);
      if (!tt->hasDefaultArgument()) {
        auto mr = mostRecent(td); tt = cast<TemplateTemplateParmDecl>(mr->getTemplateParameters()->getParam(i));
        if (!tt->hasDefaultArgument()) sfail("too few template arguments for " + declName(td));
      }
      l->a[i] = evalTemplateName(tt->getDefaultArgument().getArgument().getAsTemplate(), env);
    }
  }
  if (gi < given.size()) sfail("too many template arguments for " + declName(td));
  return l->a;
}

static bool sameParamKind(const NamedDecl *p, const NamedDecl *a) {
  if (isa<TemplateTypeParmDecl>(p)) return isa<TemplateTypeParmDecl>(a);
  if (auto n = dyn_cast<NonTypeTemplateParmDecl>(p)) {
    auto m = dyn_cast<NonTypeTemplateParmDecl>(a); if (!m) return false;
    QualType x = n->getType(), y = m->getType();
    if (x->isDependentType() || y->isDependentType()) return true;
    return AC->hasSameUnqualifiedType(x, y);
  }
  auto t = cast<TemplateTemplateParmDecl>(p);
  auto u = dyn_cast<TemplateTemplateParmDecl>(a); if (!u) return false;
  if (t->getTemplateParameters()->size() != u->getTemplateParameters()->size()) return false;
  for (unsigned i = 0; i < t->getTemplateParameters()->size(); i++)
    if (!sameParamKind(t->getTemplateParameters()->getParam(i), u->getTemplateParameters()->getParam(i))) return false;
  return true;
}
static bool tmplCompatible(const TemplateTemplateParmDecl *p, Node *arg) {
  if (arg->k != NK::Tmpl) return false;
  auto td = cast<TemplateDecl>(arg->d);
  auto P = p->getTemplateParameters(), A = td->getTemplateParameters();
  unsigned i = 0, j = 0;
  for (; i < P->size(); i++) {
    auto pp = P->getParam(i);
    if (pp->isTemplateParameterPack()) {
      for (; j < A->size(); j++) if (!sameParamKind(pp, A->getParam(j))) return false;
      return true;
    }
    if (j >= A->size()) return false;
    auto aa = A->getParam(j);
    if (aa->isTemplateParameterPack()) return false;
    if (!sameParamKind(pp, aa)) return false;
    j++;
  }
  return j == A->size();
}

static Node *instantiate(const TemplateDecl *td, Node *parent, vector<Node *> given) {
  if (auto ct = dyn_cast<ClassTemplateDecl>(td)) {
    vector<Node *> a = bindArgs(ct, parent, given);
    return mkClass(ct, parent, a);
  }
  if (auto at = dyn_cast<TypeAliasTemplateDecl>(td)) {
    DepthGuard g;
    vector<Node *> a = bindArgs(at, parent, given);
    Env env = outerEnv(parent);
    env.lv = new Lv{env.lv, at->getTemplateParameters()->getDepth(), a};
    return substType(at->getTemplatedDecl()->getUnderlyingType(), env);
  }
  if (auto bt = dyn_cast<BuiltinTemplateDecl>(td)) {
    switch (bt->getBuiltinTemplateKind()) {
    case BTK__make_integer_seq: {
      // <template<class T, T...> class S, class T, T N>
      if (given.size() != 3 || given[0]->k != NK::Tmpl) sfail("make_integer_seq");
      i64 n = concrete(given[2]);
      vector<Node *> v{given[1]};
      for (i64 k = 0; k < n; k++) v.push_back(mkInt(given[1], k));
      return instantiate(cast<TemplateDecl>(given[0]->d), given[0]->parent, v);
    }
    case BTK__type_pack_element: {
      i64 n = concrete(given[0]);
      if (n < 0 || n + 1 >= (i64)given.size()) sfail("type_pack_element index");
      return given[n + 1];
    }
    }
  }
  unsup("instantiate template kind " + declName(td));
}

// ------------------------------------------------------------ nested name specifiers
static bool resolveNNS(const NestedNameSpecifier *q, const Env &env, Node *&cls) {
  cls = nullptr;
  if (!q) return false;
  switch (q->getKind()) {
  case NestedNameSpecifier::Identifier: {
    Node *pre = nullptr;
    if (!resolveNNS(q->getPrefix(), env, pre) || !pre) unsup("identifier nns");
    extern Node *memberType(Node *, const IdentifierInfo *);
    cls = memberType(pre, q->getAsIdentifier());
    return true;
  }
  case NestedNameSpecifier::TypeSpec: case NestedNameSpecifier::TypeSpecWithTemplate:
    {
      // `typename A::template B<X>::...`: the type itself carries no prefix; DependentTemplateSpecializationType does
      cls = substType(QualType(q->getAsType(), 0), env);
    }
    return true;
  case NestedNameSpecifier::Super: unsup("super");
  default: return false;
  }
}

// ------------------------------------------------------------ member lookup
struct Found { vector<NamedDecl *> ds; ClassDef *owner = nullptr; };
static void lookupIn(Node *cls, DeclarationName name, Found &f, std::set<Node *> &seen) {
  cls = unqual(cls);
  if (cls->k != NK::Class) sfail("member lookup in non-class " + show(cls, 3));
  ClassDef *cd = complete(cls);
  for (NamedDecl *d : cd->def->lookup(name)) {
    f.ds.push_back(d);
  }
  if (!f.ds.empty()) { f.owner = cd; return; }
  for (Node *b : cd->bases) {
    lookupIn(b, name, f, seen);
    if (!f.ds.empty()) return;
  }
}
static Found lookupMember(Node *cls, DeclarationName name) {
  Found f; std::set<Node *> seen; lookupIn(cls, name, f, seen); return f;
}

static Node *declType(NamedDecl *d, ClassDef *owner);
Node *memberType(Node *cls, const IdentifierInfo *id) {
  Found f = lookupMember(cls, DeclarationName(id));
  if (f.ds.empty()) sfail("no member type '" + id->getName().str() + "' in " + show(unqual(cls)));
  return declType(f.ds[0], f.owner);
}
static Node *declType(NamedDecl *d, ClassDef *owner) {
  if (auto td = dyn_cast<TypedefNameDecl>(d)) {
    auto it = owner->tmemo.find(td);
    if (it != owner->tmemo.end()) return it->second;
    if (owner->busy.count(td)) hard("recursive typedef evaluation: " + declName(td));
    owner->busy.insert(td);
    Node *r;
    try { r = substType(td->getUnderlyingType(), owner->env); }
    catch (...) { owner->busy.erase(td); throw; }
    owner->busy.erase(td);
    owner->tmemo[td] = r;
    return r;
  }
  if (auto rd = dyn_cast<CXXRecordDecl>(d)) {
    if (rd->isInjectedClassName()) return owner->self;
    return mkClass(rd, owner->self, {});
  }
  if (auto ed = dyn_cast<EnumDecl>(d)) return mkEnum(ed, owner->self);
  if (auto us = dyn_cast<UsingShadowDecl>(d)) {
    NamedDecl *t = us->getTargetDecl();
    if (auto tt = dyn_cast<TypeDecl>(t)) return substType(AC->getTypeDeclType(tt), owner->env);
    unsup("using shadow");
  }
  if (auto uu = dyn_cast<UnresolvedUsingTypenameDecl>(d)) {
    Node *c = nullptr;
    if (!resolveNNS(uu->getQualifier(), owner->env, c)) unsup("using typename");
    return memberType(c, uu->getDeclName().getAsIdentifierInfo());
  }
  sfail("member is not a type: " + declName(d));
}
static Node *findMemberTemplate(Node *cls, const IdentifierInfo *id, const Env &) {
  Found f = lookupMember(cls, DeclarationName(id));
  if (f.ds.empty()) sfail("no member template '" + id->getName().str() + "' in " + show(unqual(cls)));
  for (auto d : f.ds) {
    if (auto us = dyn_cast<UsingShadowDecl>(d)) d = us->getTargetDecl();
    if (auto ct = dyn_cast<ClassTemplateDecl>(d)) return mkTmpl(patternTmpl(ct), f.owner->self);
    if (auto at = dyn_cast<TypeAliasTemplateDecl>(d)) return mkTmpl(at, f.owner->self);
    if (auto rd = dyn_cast<CXXRecordDecl>(d)) if (rd->isInjectedClassName() && f.owner->self->k == NK::Class)
      if (isa<ClassTemplateDecl>(f.owner->self->d)) return mkTmpl(f.owner->self->d, f.owner->self->parent);
    if (auto uu = dyn_cast<UnresolvedUsingValueDecl>(d)) {
      Node *c = nullptr;
      if (resolveNNS(uu->getQualifier(), f.owner->env, c) && c) return findMemberTemplate(c, id, f.owner->env);
    }
  }
  sfail("member is not a class template: " + id->getName().str() + " in " + show(cls, 3));
}

// ------------------------------------------------------------ types
static unsigned cvr(QualType q) { return q.getLocalFastQualifiers(); }

static Node *substTypeInner(const Type *t, const Env &env);
static std::unordered_map<const Type *, Node *> g_ctype;   // memo for context-free types
static Node *substType(QualType q, const Env &env) {
  unsigned cv = cvr(q) & 7;
  const Type *t = q.getTypePtr();
  bool closed = !t->isInstantiationDependentType() && !t->isDependentType();
  if (closed) {
    auto it = g_ctype.find(t);
    if (it != g_ctype.end()) return mkQual(it->second, cv);
  }
  Node *r = substTypeInner(t, env);
  if (closed && !env.cls) g_ctype[t] = r;
  return cv ? mkQual(r, cv) : r;
}
static Node *applyTemplate(Node *tmpl, ArrayRef<TemplateArgument> as, const Env &env) {
  if (tmpl->k != NK::Tmpl) sfail("not a template: " + show(tmpl, 3));
  vector<Node *> v;
  evalArgs(as, env, v);
  return instantiate(cast<TemplateDecl>(tmpl->d), tmpl->parent, v);
}
static Node *substTypeInner(const Type *t, const Env &env) {
  switch (t->getTypeClass()) {
  case Type::Builtin: return mkBuiltin(QualType(t, 0));
  case Type::Elaborated: return substType(cast<ElaboratedType>(t)->getNamedType(), env);
  case Type::Paren: return substType(cast<ParenType>(t)->getInnerType(), env);
  case Type::Attributed: return substType(cast<AttributedType>(t)->getModifiedType(), env);
  case Type::MacroQualified: return substType(cast<MacroQualifiedType>(t)->getUnderlyingType(), env);
  case Type::Adjusted: case Type::Decayed: return substType(cast<AdjustedType>(t)->getAdjustedType(), env);
  case Type::Using: return substType(cast<UsingType>(t)->getUnderlyingType(), env);
  case Type::Typedef: {
    auto td = cast<TypedefType>(t)->getDecl();
    if (auto p = dyn_cast<CXXRecordDecl>(td->getDeclContext())) {
      if (Node *c = findEnclosing(p, env)) {
        if (c->def) return declType(td, c->def);
        return substType(td->getUnderlyingType(), env);
      }
      if (!t->isInstantiationDependentType()) { Env e0; return substType(td->getUnderlyingType(), e0); }
    }
    if (td->getDeclContext()->isFileContext()) { Env e0; return substType(td->getUnderlyingType(), e0); }
    return substType(td->getUnderlyingType(), env);
  }
  case Type::Record: {
    auto rd = dyn_cast<CXXRecordDecl>(cast<RecordType>(t)->getDecl());
    if (!rd) return mkOther(QualType(t, 0));
    return convRecord(rd, env);
  }
  case Type::Enum: {
    auto ed = cast<EnumType>(t)->getDecl();
    Node *par = parentInst(ed, env);
    if (auto m = ed->getInstantiatedFromMemberEnum()) ed = m;
    return mkEnum(ed, par);
  }
  case Type::InjectedClassName: {
    auto rd = cast<InjectedClassNameType>(t)->getDecl();
    if (Node *c = findEnclosing(rd, env)) return c;
    sfail("injected class name outside: " + declName(rd));
  }
  case Type::TemplateTypeParm: {
    auto p = cast<TemplateTypeParmType>(t);
    Node *n = lookupParm(env, p->getDepth(), p->getIndex(), p->isParameterPack(), "type");
    return n;
  }
  case Type::SubstTemplateTypeParm: return substType(cast<SubstTemplateTypeParmType>(t)->getReplacementType(), env);
  case Type::TemplateSpecialization: {
    auto ts = cast<TemplateSpecializationType>(t);
    Node *tn = evalTemplateName(ts->getTemplateName(), env);
    return applyTemplate(tn, ts->template_arguments(), env);
  }
  case Type::DependentName: {
    auto dn = cast<DependentNameType>(t);
    Node *c = nullptr;
    if (!resolveNNS(dn->getQualifier(), env, c) || !c) unsup("dependent name qualifier");
    return memberType(c, dn->getIdentifier());
  }
  case Type::DependentTemplateSpecialization: {
    auto dt = cast<DependentTemplateSpecializationType>(t);
    Node *c = nullptr;
    if (!resolveNNS(dt->getQualifier(), env, c) || !c) unsup("dependent template qualifier");
    Node *tn = findMemberTemplate(c, dt->getIdentifier(), env);
    return applyTemplate(tn, dt->template_arguments(), env);
  }
  case Type::Pointer: {
    Node *p = substType(cast<PointerType>(t)->getPointeeType(), env);
    if (p->k == NK::LRef || p->k == NK::RRef) sfail("pointer to reference");
    return mkWrap(NK::Ptr, p);
  }
  case Type::LValueReference: {
    Node *p = substType(cast<ReferenceType>(t)->getPointeeTypeAsWritten(), env);
    if (unqual(p)->k == NK::Builtin && unqual(p)->qt->isVoidType()) sfail("reference to void");
    return mkWrap(NK::LRef, unref(p));
  }
  case Type::RValueReference: {
    Node *p = substType(cast<ReferenceType>(t)->getPointeeTypeAsWritten(), env);
    if (p->k == NK::LRef || p->k == NK::RRef) return p;
    if (unqual(p)->k == NK::Builtin && unqual(p)->qt->isVoidType()) sfail("reference to void");
    return mkWrap(NK::RRef, p);
  }
  case Type::ConstantArray: {
    auto ca = cast<ConstantArrayType>(t);
    return mkWrap(NK::Array, substType(ca->getElementType(), env), ca->getSize().getSExtValue());
  }
  case Type::IncompleteArray: return mkWrap(NK::IncArray, substType(cast<ArrayType>(t)->getElementType(), env));
  case Type::DependentSizedArray: {
    auto da = cast<DependentSizedArrayType>(t);
    Node *el = substType(da->getElementType(), env);
    if (!da->getSizeExpr()) return mkWrap(NK::IncArray, el);
    Node *n = toInt(rv(evalExpr(da->getSizeExpr(), env)));
    i64 k = concrete(n);
    if (k < 0) sfail("negative array size");
    if (k == 0) sfail("zero array size");
    return mkWrap(NK::Array, el, k);
  }
  case Type::FunctionProto: {
    auto fp = cast<FunctionProtoType>(t);
    vector<Node *> v{substType(fp->getReturnType(), env)};
    for (QualType p : fp->param_types()) {
      if (auto pe = p->getAs<PackExpansionType>()) {
        SmallVector<UnexpandedParameterPack, 2> ps; SM->collectUnexpandedParameterPacks(pe->getPattern(), ps);
        expandPack(ps, env, [&](const Env &e2) { v.push_back(substType(pe->getPattern(), e2)); });
        continue;
      }
      Node *x = substType(p, env);
      if (unqual(x)->k == NK::Builtin && unqual(x)->qt->isVoidType()) sfail("void parameter");
      v.push_back(x->k == NK::Array || x->k == NK::IncArray ? mkWrap(NK::Ptr, x->parent) : unqual(x));
    }
    return mkFunc(v, fp->isVariadic());
  }
  case Type::MemberPointer: {
    auto mp = cast<MemberPointerType>(t);
    Node n; n.k = NK::MemPtr;
    Node *c = substType(QualType(mp->getClass(), 0), env);
    if (unqual(c)->k != NK::Class) sfail("pointer to member of non-class");
    n.args = {c, substType(mp->getPointeeType(), env)};
    n.hasSym = anySym(n.args);
    string key = "Q" + kid(n.args[0]) + "," + kid(n.args[1]);
    return intern(std::move(n), key);
  }
  case Type::TypeOfExpr: return unref(typeOf(cast<TypeOfExprType>(t)->getUnderlyingExpr(), env));
  case Type::TypeOf: return substType(cast<TypeOfType>(t)->getUnmodifiedType(), env);
  case Type::Decltype: return typeOf(cast<DecltypeType>(t)->getUnderlyingExpr(), env, true);
  case Type::Auto: {
    auto at = cast<AutoType>(t);
    if (at->isDeduced()) return substType(at->getDeducedType(), env);
    unsup("auto");
  }
  case Type::UnaryTransform: {
    auto ut = cast<UnaryTransformType>(t);
    Node *b = substType(ut->getBaseType(), env);
    switch (ut->getUTTKind()) {
    case UnaryTransformType::RemoveCV: return unqual(b);
    case UnaryTransformType::RemoveReference: return unref(b);
    case UnaryTransformType::RemoveCVRef: return unqual(unref(b));
    case UnaryTransformType::RemoveConst: return b->k == NK::Qual ? mkQual(b->parent, b->n & ~1) : b;
    case UnaryTransformType::RemovePointer: return unqual(b)->k == NK::Ptr ? unqual(b)->parent : b;
    case UnaryTransformType::AddPointer: return mkWrap(NK::Ptr, unref(b));
    case UnaryTransformType::AddLvalueReference: return mkWrap(NK::LRef, unref(b));
    case UnaryTransformType::AddRvalueReference: return b->k == NK::LRef || b->k == NK::RRef ? b : mkWrap(NK::RRef, b);
    case UnaryTransformType::EnumUnderlyingType: { IT it; if (b->k == NK::Enum) { QualType u = cast<EnumDecl>(b->d)->getIntegerType(); if (!u.isNull()) return substType(u, Env()); } unsup("underlying type"); }
    default: unsup("unary transform");
    }
  }
  case Type::UnresolvedUsing: {
    auto uu = cast<UnresolvedUsingType>(t)->getDecl();
    Node *c = nullptr;
    if (!resolveNNS(uu->getQualifier(), env, c)) unsup("unresolved using");
    return memberType(c, uu->getDeclName().getAsIdentifierInfo());
  }
  case Type::PackExpansion: unsup("pack expansion outside list");
  case Type::Vector: case Type::ExtVector: case Type::Complex: case Type::BitInt: return mkOther(QualType(t, 0));
  default: break;
  }
  if (!t->isDependentType()) return mkOther(QualType(t, 0));
  unsup(string("type class ") + t->getTypeClassName());
}

// ------------------------------------------------------------ deduction
struct Bind {
  unsigned depth; vector<Node *> a; Conds c;
  // pack deduction state: when >=0 we are deducing one element of packs
  std::map<unsigned, Node *> *elem = nullptr;
};
static bool bindParm(Bind &b, unsigned idx, bool isPack, Node *v) {
  if (isPack) {
    if (!b.elem) {
      // direct pack param bound to something outside an expansion
      return false;
    }
    auto it = b.elem->find(idx);
    if (it != b.elem->end()) return nodeEq(it->second, v, b.c);
    (*b.elem)[idx] = v; return true;
  }
  if (b.a[idx]) return nodeEq(b.a[idx], v, b.c);
  b.a[idx] = v; return true;
}
// pattern args flat list
static void flattenPat(ArrayRef<TemplateArgument> as, SmallVectorImpl<TemplateArgument> &out) {
  for (auto &a : as) {
    if (a.getKind() == TemplateArgument::Pack) flattenPat(a.pack_elements(), out);
    else out.push_back(a);
  }
}
static void flattenAct(const vector<Node *> &as, vector<Node *> &out) {
  for (auto a : as) { if (a->k == NK::Pack) for (auto x : a->args) out.push_back(x); else out.push_back(a); }
}
static bool deduceArg(const TemplateArgument &p, Node *a, Bind &b, const Env &env);
static bool deduceType(QualType P, Node *A, Bind &b, const Env &env);

static bool isPackExpansionArg(const TemplateArgument &a) { return a.isPackExpansion(); }

static bool deduceArgs(ArrayRef<TemplateArgument> ps0, const vector<Node *> &as0, Bind &b, const Env &env) {
  SmallVector<TemplateArgument, 8> ps; flattenPat(ps0, ps);
  vector<Node *> as; flattenAct(as0, as);
  size_t i = 0, j = 0;
  for (; i < ps.size(); i++) {
    if (isPackExpansionArg(ps[i])) {
      if (i + 1 != ps.size()) return false;   // non-deduced
      TemplateArgument pat = ps[i].getPackExpansionPattern();
      SmallVector<UnexpandedParameterPack, 2> ups;
      SM->collectUnexpandedParameterPacks(pat, ups);
      std::set<unsigned> idxs;
      for (auto &u : ups) {
        unsigned d, x;
        if (auto tp = u.first.dyn_cast<const TemplateTypeParmType *>()) { d = tp->getDepth(); x = tp->getIndex(); }
        else {
          auto nd = u.first.get<NamedDecl *>();
          if (auto t = dyn_cast<TemplateTypeParmDecl>(nd)) { d = t->getDepth(); x = t->getIndex(); }
          else if (auto t = dyn_cast<NonTypeTemplateParmDecl>(nd)) { d = t->getDepth(); x = t->getIndex(); }
          else if (auto t = dyn_cast<TemplateTemplateParmDecl>(nd)) { d = t->getDepth(); x = t->getIndex(); }
          else unsup("pack kind");
        }
        if (d == b.depth) idxs.insert(x);
      }
      std::map<unsigned, vector<Node *>> acc;
      for (auto x : idxs) acc[x];
      for (; j < as.size(); j++) {
        std::map<unsigned, Node *> el;
        auto save = b.elem; b.elem = &el;
        bool ok = deduceArg(pat, as[j], b, env);
        b.elem = save;
        if (!ok) return false;
        for (auto x : idxs) { auto it = el.find(x); if (it == el.end()) return false; acc[x].push_back(it->second); }
      }
      for (auto x : idxs) {
        Node *pk = mkPack(acc[x]);
        if (b.a[x]) { if (!nodeEq(b.a[x], pk, b.c)) return false; } else b.a[x] = pk;
      }
      return true;
    }
    if (j >= as.size()) return false;
    if (!deduceArg(ps[i], as[j], b, env)) return false;
    j++;
  }
  return j == as.size();
}
static const Expr *stripE(const Expr *e) {
  for (;;) {
    if (auto p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
    else if (auto c = dyn_cast<ImplicitCastExpr>(e)) e = c->getSubExpr();
    else if (auto s = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = s->getReplacement();
    else if (auto c = dyn_cast<ConstantExpr>(e)) e = c->getSubExpr();
    else return e;
  }
}
static bool deduceArg(const TemplateArgument &p, Node *a, Bind &b, const Env &env) {
  switch (p.getKind()) {
  case TemplateArgument::Type:
    if (a->k == NK::Int || a->k == NK::Tmpl || a->k == NK::Pack) return false;
    return deduceType(p.getAsType(), a, b, env);
  case TemplateArgument::Integral: {
    if (a->k != NK::Int) return false;
    Node *pi = mkInt(a->parent, p.getAsIntegral().getExtValue());
    return nodeEq(pi, a, b.c);
  }
  case TemplateArgument::Expression: {
    if (a->k != NK::Int) return false;
    const Expr *e = stripE(p.getAsExpr());
    if (auto dr = dyn_cast<DeclRefExpr>(e))
      if (auto nt = dyn_cast<NonTypeTemplateParmDecl>(dr->getDecl()))
        if (nt->getDepth() == b.depth) {
          return bindParm(b, nt->getIndex(), nt->isParameterPack(), a);
        }
    if (!e->isInstantiationDependent()) {
      Node *pi = convInt(constNode(evalExpr(e, env)), a->parent, false);
      return nodeEq(pi, a, b.c);
    }
    return true;   // non-deduced; checked after substitution
  }
  case TemplateArgument::Template: {
    if (a->k != NK::Tmpl) return false;
    TemplateName tn = p.getAsTemplate();
    if (auto tt = dyn_cast_or_null<TemplateTemplateParmDecl>(tn.getAsTemplateDecl()))
      if (tt->getDepth() == b.depth) {
        if (!tmplCompatible(tt, a)) return false;
        return bindParm(b, tt->getIndex(), tt->isParameterPack(), a);
      }
    return nodeEq(evalTemplateName(tn, env), a, b.c);
  }
  case TemplateArgument::NullPtr: return a->k == NK::Int && !a->sym && a->n == 0;
  default: unsup("pattern argument kind");
  }
}
static bool mentionsDepth(QualType t) { return t->isInstantiationDependentType() || t->isDependentType(); }

static bool deduceType(QualType P, Node *A, Bind &b, const Env &env) {
  if (!mentionsDepth(P)) return nodeEq(substType(P, env), A, b.c);
  unsigned pcv = P.getLocalFastQualifiers() & 7;
  const Type *t = P.getTypePtr();
  if (auto el = dyn_cast<ElaboratedType>(t)) return deduceType(AC->getQualifiedType(el->getNamedType(), Qualifiers::fromFastMask(pcv)), A, b, env);
  if (auto pt = dyn_cast<ParenType>(t)) return deduceType(AC->getQualifiedType(pt->getInnerType(), Qualifiers::fromFastMask(pcv)), A, b, env);
  if (auto td = dyn_cast<TypedefType>(t)) return deduceType(AC->getQualifiedType(td->desugar(), Qualifiers::fromFastMask(pcv)), A, b, env);
  if (auto ut = dyn_cast<UsingType>(t)) return deduceType(AC->getQualifiedType(ut->desugar(), Qualifiers::fromFastMask(pcv)), A, b, env);
  unsigned acv = A->k == NK::Qual ? A->n : 0;
  Node *Au = unqual(A);
  // array element qualifiers: const T[N]
  if (auto tp = dyn_cast<TemplateTypeParmType>(t)) {
    if (tp->getDepth() == b.depth) {
      if ((acv & pcv) != pcv) return false;
      Node *v = mkQual(Au, acv & ~pcv);
      if (Au->k == NK::Array && pcv) {
        // const T against array: quals live on the element
        Node *elq = Au->parent; unsigned ecv = elq->k == NK::Qual ? elq->n : 0;
        if ((ecv & pcv) != pcv) return false;
        v = mkWrap(NK::Array, mkQual(unqual(elq), ecv & ~pcv), Au->n);
      }
      return bindParm(b, tp->getIndex(), tp->isParameterPack(), v);
    }
    return nodeEq(substType(P, env), A, b.c);
  }
  if (pcv != acv && !isa<ArrayType>(t)) return false;
  switch (t->getTypeClass()) {
  case Type::TemplateSpecialization: {
    auto ts = cast<TemplateSpecializationType>(t);
    TemplateName tn = ts->getTemplateName();
    if (ts->isTypeAlias()) {
      // alias in a pattern: use its desugared form if possible
      return deduceType(ts->getAliasedType(), Au, b, env);
    }
    TemplateDecl *td = tn.getAsTemplateDecl();
    if (auto tt = dyn_cast_or_null<TemplateTemplateParmDecl>(td)) {
      if (tt->getDepth() == b.depth) {
        if (Au->k != NK::Class || !isa<ClassTemplateDecl>(Au->d)) return false;
        Node *tmpl = mkTmpl(Au->d, Au->parent);
        if (!tmplCompatible(tt, tmpl)) return false;
        if (!bindParm(b, tt->getIndex(), tt->isParameterPack(), tmpl)) return false;
        return deduceArgs(ts->template_arguments(), Au->args, b, env);
      }
    }
    if (Au->k != NK::Class) return false;
    Node *pt;
    if (tn.getKind() == TemplateName::DependentTemplate) return true;  // non-deduced
    pt = evalTemplateName(tn, env);
    if (pt->k != NK::Tmpl || pt->d != Au->d) {
      if (pt->k == NK::Tmpl && isa<TypeAliasTemplateDecl>(pt->d)) return true;
      return false;
    }
    if (!pt->parent != !Au->parent) return false;
    if (pt->parent && !nodeEq(pt->parent, Au->parent, b.c)) return false;
    // canonical form carries default arguments and packs
    QualType canon = ts->getCanonicalTypeInternal();
    if (auto cts = dyn_cast<TemplateSpecializationType>(canon.getTypePtr()))
      return deduceArgs(cts->template_arguments(), Au->args, b, env);
    if (auto icn = dyn_cast<InjectedClassNameType>(canon.getTypePtr())) {
      auto inj = icn->getInjectedTST();
      return deduceArgs(inj->template_arguments(), Au->args, b, env);
    }
    return deduceArgs(ts->template_arguments(), Au->args, b, env);
  }
  case Type::InjectedClassName: {
    auto inj = cast<InjectedClassNameType>(t)->getInjectedTST();
    return deduceType(QualType(inj, 0), Au, b, env);
  }
  case Type::Pointer: return Au->k == NK::Ptr && deduceType(cast<PointerType>(t)->getPointeeType(), Au->parent, b, env);
  case Type::LValueReference: return Au->k == NK::LRef && deduceType(cast<ReferenceType>(t)->getPointeeTypeAsWritten(), Au->parent, b, env);
  case Type::RValueReference: return Au->k == NK::RRef && deduceType(cast<ReferenceType>(t)->getPointeeTypeAsWritten(), Au->parent, b, env);
  case Type::IncompleteArray: return Au->k == NK::IncArray && deduceType(cast<ArrayType>(t)->getElementType(), Au->parent, b, env);
  case Type::ConstantArray: return Au->k == NK::Array && Au->n == cast<ConstantArrayType>(t)->getSize().getSExtValue() && deduceType(cast<ArrayType>(t)->getElementType(), Au->parent, b, env);
  case Type::DependentSizedArray: {
    if (Au->k != NK::Array) return false;
    auto da = cast<DependentSizedArrayType>(t);
    QualType et = da->getElementType();
    if (pcv) et = AC->getQualifiedType(et, Qualifiers::fromFastMask(pcv));
    if (!deduceType(et, Au->parent, b, env)) return false;
    const Expr *e = stripE(da->getSizeExpr());
    if (auto dr = dyn_cast<DeclRefExpr>(e))
      if (auto nt = dyn_cast<NonTypeTemplateParmDecl>(dr->getDecl()))
        if (nt->getDepth() == b.depth) {
          QualType q = nt->getType();
          return bindParm(b, nt->getIndex(), nt->isParameterPack(), mkInt(q->isDependentType() ? tSizeT : substType(q, env), Au->n));
        }
    return true;
  }
  case Type::FunctionProto: {
    if (Au->k != NK::Func) return false;
    auto fp = cast<FunctionProtoType>(t);
    if (fp->isVariadic() != (bool)Au->n) return false;
    if (!deduceType(fp->getReturnType(), Au->args[0], b, env)) return false;
    SmallVector<TemplateArgument, 4> ps;
    for (QualType p : fp->param_types()) ps.push_back(TemplateArgument(p));
    vector<Node *> as(Au->args.begin() + 1, Au->args.end());
    return deduceArgs(ps, as, b, env);
  }
  case Type::MemberPointer: {
    if (Au->k != NK::MemPtr) return false;
    auto mp = cast<MemberPointerType>(t);
    return deduceType(QualType(mp->getClass(), 0), Au->args[0], b, env) && deduceType(mp->getPointeeType(), Au->args[1], b, env);
  }
  case Type::DependentName: case Type::DependentTemplateSpecialization: case Type::Decltype: case Type::TypeOfExpr:
  case Type::UnaryTransform:
    return true;   // non-deduced context
  default:
    // refers to outer levels only, or unsupported
    return nodeEq(substType(P, env), A, b.c);
  }
}

// ------------------------------------------------------------ class completion
static const CXXRecordDecl *definitionOf(const CXXRecordDecl *rd) {
  return rd->getDefinition();
}
static const TemplateArgument *tmplArgsBegin(const ClassTemplateSpecializationDecl *s) { return s->getTemplateArgs().data(); }

struct SpecIndex {
  vector<ClassTemplateSpecializationDecl *> expl;
  vector<vector<Node *>> explArgs;
  vector<ClassTemplatePartialSpecializationDecl *> part;
  bool init = false;
};
static std::unordered_map<const ClassTemplateDecl *, SpecIndex> g_spec;
static SpecIndex &specIndex(const ClassTemplateDecl *ct0) {
  SpecIndex &si = g_spec[ct0];
  if (si.init) return si;
  si.init = true;
  ClassTemplateDecl *ct = const_cast<ClassTemplateDecl *>(ct0);
  for (auto s : ct->specializations()) {
    if (s->getSpecializationKind() != TSK_ExplicitSpecialization) continue;
    si.expl.push_back(s);
  }
  SmallVector<ClassTemplatePartialSpecializationDecl *, 8> ps;
  ct->getPartialSpecializations(ps);
  for (auto p : ps) si.part.push_back(cast<ClassTemplatePartialSpecializationDecl>(p->getMostRecentDecl()));
  for (auto s : si.expl) {
    vector<Node *> v; Env e0;
    for (auto &a : s->getTemplateArgs().asArray()) v.push_back(convArg(a, e0));
    si.explArgs.push_back(v);
  }
  return si;
}
static std::map<std::pair<const Decl *, const Decl *>, int> g_more;
static int moreSpecialized(ClassTemplatePartialSpecializationDecl *a, ClassTemplatePartialSpecializationDecl *b) {
  auto key = std::make_pair((const Decl *)a, (const Decl *)b);
  auto it = g_more.find(key);
  if (it != g_more.end()) return it->second;
  auto r = SM->getMoreSpecializedPartialSpecialization(a, b, a->getLocation());
  int v = r == nullptr ? 0 : (r == a ? 1 : -1);
  g_more[key] = v;
  return v;
}
static vector<const NamedDecl *> g_nothing;

static bool matchPartial(ClassTemplatePartialSpecializationDecl *ps, Node *cls, const Env &outer, vector<Node *> &bound) {
  auto pl = ps->getTemplateParameters();
  Bind b; b.depth = pl->getDepth(); b.a.resize(pl->size(), nullptr);
  try {
    if (!deduceArgs(ps->getTemplateArgs().asArray(), cls->args, b, outer)) return false;
  } catch (SubstFail &) { return false; }
  for (unsigned i = 0; i < pl->size(); i++)
    if (!b.a[i]) { if (pl->getParam(i)->isTemplateParameterPack()) b.a[i] = mkPack({}); else return false; }
  if (!b.c.settle()) return false;
  // convert deduced non-type values to the parameters' types
  Env env = outer;
  Lv *l = new Lv{outer.lv, b.depth, b.a};
  env.lv = l;
  try {
    for (unsigned i = 0; i < pl->size(); i++)
      if (auto nt = dyn_cast<NonTypeTemplateParmDecl>(pl->getParam(i))) {
        auto cv = [&](Node *x) {
          QualType q = nt->getType(); if (auto pe = q->getAs<PackExpansionType>()) q = pe->getPattern();
          if (q->getContainedAutoType()) return x;
          Node *t = unqual(substType(q, env)); IT it; if (!intTypeInfo(t, it)) return x;
          return x->parent == t ? x : convInt(x, t, false);
        };
        if (l->a[i]->k == NK::Pack) { vector<Node *> v; for (auto x : l->a[i]->args) v.push_back(cv(x)); l->a[i] = mkPack(v); }
        else l->a[i] = cv(l->a[i]);
      }
    // substitute back and compare (covers non-deduced contexts and SFINAE)
    bool needCheck = false;
    SmallVector<TemplateArgument, 8> flat; flattenPat(ps->getTemplateArgs().asArray(), flat);
    struct V : RecursiveASTVisitor<V> {
      bool nd = false;
      bool VisitDependentNameType(DependentNameType *) { nd = true; return true; }
      bool VisitDependentTemplateSpecializationType(DependentTemplateSpecializationType *) { nd = true; return true; }
      bool VisitDecltypeType(DecltypeType *) { nd = true; return true; }
      bool VisitTypeOfExprType(TypeOfExprType *) { nd = true; return true; }
      bool VisitUnaryTransformType(UnaryTransformType *) { nd = true; return true; }
      bool VisitExpr(Expr *e) { if (!isa<DeclRefExpr>(e) && !isa<PackExpansionExpr>(e) && e->isInstantiationDependent()) nd = true; return true; }
      bool VisitTemplateSpecializationType(TemplateSpecializationType *t) { if (t->isTypeAlias()) nd = true; return true; }
    } v;
    if (auto w = ps->getTemplateArgsAsWritten()) for (auto &x : w->arguments()) v.TraverseTemplateArgument(x.getArgument());
    for (auto &x : flat) v.TraverseTemplateArgument(x);
    needCheck = v.nd;
    if (needCheck) {
      vector<Node *> got;
      if (auto w = ps->getTemplateArgsAsWritten()) {
        vector<Node *> given;
        for (auto &x : w->arguments()) evalArg(x.getArgument(), env, given);
        got = bindArgs(cast<ClassTemplateDecl>(cls->d), cls->parent, given);
      } else {
        for (auto &x : ps->getTemplateArgs().asArray()) got.push_back(convArg(x, env));
      }
      if (got.size() != cls->args.size()) return false;
      Conds c;
      for (size_t i = 0; i < got.size(); i++) if (!nodeEq(got[i], cls->args[i], c)) return false;
      if (!c.settle()) return false;
    }
  } catch (SubstFail &) { return false; }
  bound = l->a;
  return true;
}

static void evalStaticAssert(const StaticAssertDecl *sa, const Env &env) {
  Node *v = toInt(rv(evalExpr(sa->getAssertExpr(), env)));
  v = convInt(v, tBool, false);
  if (v->sym ? !decide(zx(v)) : !v->n) hard("static assertion failed");
}

static void emitPath(const string &kind, const string &msg, Node *res);
// an assumption of the harness: the excluded region is emitted as an "assume" path
static void assumeCond(Node *b) {
  if (!b->sym) { if (!b->n) throw PathKilled{"assume"}; return; }
  z3::expr c = zx(b);
  if (chk(!c) == z3::unsat) return;
  if (chk(c) == z3::unsat) throw PathKilled{"assume"};
  ZS->push(); ZS->add(!c); emitPath("assume", "", nullptr); ZS->pop();
  ZS->add(c);
}
static bool inVf(const Decl *d) { return declName(d).compare(0, 4, "vf::") == 0; }

// Selecting among explicit specialisations by a symbolic argument: when the
// candidates are empty classes with one base and the bases differ only in
// integral arguments, the class is that base with if-then-else arguments; no
// case split is needed.
static bool emptyDef(const CXXRecordDecl *d) {
  for (auto x : d->decls()) if (!x->isImplicit()) return false;
  return d->getNumBases() == 1 && !d->bases_begin()->isPackExpansion();
}
static bool unifiable(Node *a, Node *b) {
  if (a == b) return true;
  if (a->k == NK::Int && b->k == NK::Int) return a->parent == b->parent && a->w == b->w && a->sg == b->sg && a->isb == b->isb;
  if (a->k != NK::Class || b->k != NK::Class || a->d != b->d || a->parent != b->parent || a->args.size() != b->args.size()) return false;
  if (a->args.empty()) return false;
  for (size_t i = 0; i < a->args.size(); i++) if (a->args[i] != b->args[i] && !(a->args[i]->k == NK::Int && unifiable(a->args[i], b->args[i]))) return false;
  return true;
}
static bool mergeSpecs(Node *c, const ClassTemplateDecl *ct, SpecIndex &si, const Env &outer, const CXXRecordDecl *&rdef, Node *&rbase) {
  bool anysym = false;
  int nsym = 0, symi = 0;
  for (size_t i = 0; i < c->args.size(); i++) { Node *a = c->args[i]; if (a->k == NK::Int && a->sym) { anysym = true; nsym++; symi = i; } else if (a->k == NK::Pack) return false; }
  if (!anysym) return false;
  struct Cand { z3::expr cond; const CXXRecordDecl *def; Node *base; i64 key; };
  vector<Cand> cs;
  z3::expr none = ZC->bool_val(true);
  try {
    for (size_t i = 0; i < si.expl.size(); i++) {
      Conds k; bool ok = si.explArgs[i].size() == c->args.size();
      for (size_t j = 0; ok && j < c->args.size(); j++) ok = nodeEq(si.explArgs[i][j], c->args[j], k);
      if (!ok) continue;
      z3::expr e = ZC->bool_val(true);
      for (auto &x : k.v) e = e && x;
      e = e.simplify();
      none = none && !e;
      if (e.is_false() || chk(e) == z3::unsat) continue;
      const CXXRecordDecl *d = definitionOf(si.expl[i]);
      if (!d || !emptyDef(d)) return false;
      Env e0; 
      cs.push_back({e, d, unqual(substType(d->bases_begin()->getType(), e0)), si.explArgs[i][symi]->n});
    }
    if (cs.size() < 2) return false;
    none = none.simplify();
    if (!none.is_false() && chk(none) != z3::unsat) {
      const CXXRecordDecl *d = definitionOf(ct->getTemplatedDecl());
      bool can = d && emptyDef(d);
      if (can) {
        Env e1 = outer; e1.lv = new Lv{outer.lv, ct->getTemplateParameters()->getDepth(), c->args};
        Node *b = unqual(substType(d->bases_begin()->getType(), e1));
        if (unifiable(b, cs[0].base)) { cs.push_back({none, d, b, 0}); can = true; nsym = 0; } else can = false;
      }
      if (!can && decide(none)) return false;      // the primary template, by the ordinary route
    }
    for (auto &x : cs) if (!unifiable(cs[0].base, x.base)) return false;
  } catch (SubstFail &) { return false; }
  vector<Node *> args = cs[0].base->args;
  for (size_t j = 0; j < args.size(); j++) {
    bool differ = false;
    for (auto &x : cs) if (x.base->args[j] != args[j]) differ = true;
    if (!differ) continue;
    // values at a constant distance from the selecting argument: a linear term
    bool linear = nsym == 1 && !args[j]->isb && !c->args[symi]->isb;
    for (auto &x : cs) if (x.base->args[j]->sym || x.base->args[j]->n - x.key != cs[0].base->args[j]->n - cs[0].key) linear = false;
    if (linear) {
      unsigned w = args[j]->w;
      args[j] = mkSym(args[j]->parent, zbv(c->args[symi], w, true) + ZC->bv_val((int64_t)(cs[0].base->args[j]->n - cs[0].key), w));
      continue;
    }
    z3::expr e = zx(cs.back().base->args[j]);
    for (size_t i = cs.size() - 1; i-- > 0;) e = z3::ite(cs[i].cond, zx(cs[i].base->args[j]), e);
    args[j] = mkSym(args[j]->parent, e);
  }
  rbase = args == cs[0].base->args ? cs[0].base : mkClass(cs[0].base->d, cs[0].base->parent, args);
  rdef = cs[0].def;
  if (g_coverage) for (auto &x : cs) g_cover.insert(x.def);
  return true;
}
static ClassDef *complete(Node *c) {
  c = unqual(c);
  if (c->k != NK::Class) sfail("not a class: " + show(c, 3));
  if (c->def) {
    if (c->def->failed) throw HardError{c->def->err};
    return c->def;
  }
  DepthGuard g;
  __sync_fetch_and_add(&SH->insts, 1);
  ClassDef *cd = new ClassDef;
  cd->self = c;
  const CXXRecordDecl *def = nullptr;
  Env outer = outerEnv(c->parent);
  if (c->def) return c->def;
  const Lv *lv = outer.lv;
  const CXXRecordDecl *mergedDef = nullptr; Node *mergedBase = nullptr;
  if (auto ct = dyn_cast<ClassTemplateDecl>(c->d)) {
    SpecIndex &si = specIndex(ct);
    const CXXRecordDecl *sel = nullptr;
    if (si.part.empty() && si.expl.size() > 1 && mergeSpecs(c, ct, si, outer, mergedDef, mergedBase)) sel = mergedDef;
    if (c->def) return c->def;
    for (size_t i = 0; i < si.expl.size() && !sel; i++) {
      Conds cs; bool ok = si.explArgs[i].size() == c->args.size();
      for (size_t j = 0; ok && j < c->args.size(); j++) ok = nodeEq(si.explArgs[i][j], c->args[j], cs);
      if (ok && cs.settle()) sel = si.expl[i];
    }
    if (c->def) return c->def;
    if (!sel && !si.part.empty()) {
      vector<std::pair<ClassTemplatePartialSpecializationDecl *, vector<Node *>>> ms;
      for (auto p : si.part) {
        vector<Node *> bound;
        if (matchPartial(p, c, outer, bound)) ms.push_back({p, bound});
        if (c->def) return c->def;
      }
      if (!ms.empty()) {
        size_t best = 0;
        for (size_t i = 1; i < ms.size(); i++) if (moreSpecialized(ms[i].first, ms[best].first) > 0) best = i;
        for (size_t i = 0; i < ms.size(); i++)
          if (i != best && moreSpecialized(ms[best].first, ms[i].first) <= 0) hard("ambiguous partial specializations of " + declName(ct));
        sel = ms[best].first;
        lv = new Lv{outer.lv, ms[best].first->getTemplateParameters()->getDepth(), ms[best].second};
      }
    }
    if (!sel) {
      sel = ct->getTemplatedDecl();
      // the parameters of the definition
      lv = new Lv{outer.lv, ct->getTemplateParameters()->getDepth(), c->args};
    }
    def = definitionOf(sel);
    if (!def) sfail("implicit instantiation of undefined template " + show(c));
  } else {
    def = definitionOf(cast<CXXRecordDecl>(c->d));
    if (!def) sfail("incomplete class " + show(c, 4));
  }
  if (g_trace) fprintf(stderr, "%*sinst %s\n", DepthGuard::d, "", show(c, 4).c_str());
  cd->def = def; cd->env.lv = lv; cd->env.cls = c;
  c->def = cd;
  if (g_coverage) g_cover.insert(def);
  try {
    if (mergedBase) { complete(mergedBase); cd->bases.push_back(mergedBase); }
    else for (auto &bs : def->bases()) {
      if (bs.isPackExpansion()) {
        SmallVector<UnexpandedParameterPack, 2> ps; QualType bt = bs.getType();
        if (auto pe = bt->getAs<PackExpansionType>()) bt = pe->getPattern();
        SM->collectUnexpandedParameterPacks(bt, ps);
        expandPack(ps, cd->env, [&](const Env &e2) { Node *b = unqual(substType(bt, e2)); complete(b); cd->bases.push_back(b); });
        continue;
      }
      Node *b = unqual(substType(bs.getType(), cd->env));
      if (b->k != NK::Class) sfail("base specifier does not name a class: " + show(b, 4));
      ClassDef *bd = complete(b);
      (void)bd;
      cd->bases.push_back(b);
    }
    for (auto d : def->decls()) {
      if (auto td = dyn_cast<TypedefNameDecl>(d)) {
        if (isa<TypeAliasDecl>(td) && cast<TypeAliasDecl>(td)->getDescribedAliasTemplate()) continue;
        declType(td, cd);
      }
      else if (auto sa = dyn_cast<StaticAssertDecl>(d)) evalStaticAssert(sa, cd->env);
    }
  } catch (SubstFail &f) {
    if (!g_errcls) g_errcls = c;
    cd->failed = true; cd->err = f.msg + " [in instantiation of " + show(c) + "]";
    throw HardError{cd->err};
  } catch (HardError &f) {
    if (!g_errcls) g_errcls = c;
    cd->failed = true; cd->err = f.msg; throw;
  }
  cd->done = true;
  // intrinsics
  if (def->getName() == "assume_" && inVf(def)) {
    Node *b = c->args.back();
    assumeCond(b);
  }
  return cd;
}

#include "eval.inc"
#include "main.inc"
