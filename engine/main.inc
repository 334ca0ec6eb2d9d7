// Driver: parsing, path processes, output.
static string jstr(const string &s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static vector<Node *> g_outsyms;
static string jterm(Node *n, int depth = 0) {
  if (!n) return "null";
  if (depth > 400) return "\"...\"";
  switch (n->k) {
  case NK::Int:
    if (n->sym) { g_outsyms.push_back(n); return "{\"s\":" + std::to_string(g_outsyms.size() - 1) + "}"; }
    return "{\"i\":" + std::to_string(n->n) + "}";
  case NK::Class: {
    string nm = n->parent ? show(n->parent, 2) + "::" + cast<NamedDecl>(n->d)->getNameAsString() : declName(n->d);
    string s = "[" + jstr(nm);
    for (auto a : n->args) {
      if (a->k == NK::Pack) { for (auto x : a->args) s += "," + jterm(x, depth + 1); }
      else s += "," + jterm(a, depth + 1);
    }
    return s + "]";
  }
  default: return jstr(show(n));
  }
}
static void emitPath(const string &kind, const string &msg, Node *res) {
  g_outsyms.clear();
  string t = res ? jterm(res) : "null";
  std::ostringstream pc;
  { z3::expr_vector as = ZS->assertions();
    for (unsigned i = 0; i < as.size(); i++) pc << "(assert " << as[i] << ")\n"; }
  string syms = "[";
  for (size_t i = 0; i < g_outsyms.size(); i++) {
    Node *n = g_outsyms[i]; std::ostringstream o; o << zx(n);
    if (i) syms += ",";
    syms += "[" + jstr(o.str()) + "," + std::to_string(n->isb ? 0 : n->w) + "," + (n->sg ? "1" : "0") + "]";
  }
  syms += "]";
  string vars = "[";
  for (size_t i = 0; i < g_vars.size(); i++) {
    IT it; intTypeInfo(g_vars[i].ty, it);
    if (i) vars += ",";
    vars += "[" + jstr(g_vars[i].name) + "," + std::to_string(it.isb ? 0 : it.w) + "]";
  }
  vars += "]";
  string line = "{\"entry\":" + jstr(g_entry) + ",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg.substr(0, 400)) + ",\"pc\":" + jstr(pc.str()) +
                ",\"vars\":" + vars + ",\"syms\":" + syms + ",\"res\":" + t + "}\n";
  if (kind != "assume") __sync_fetch_and_add(&SH->paths, 1);
  size_t off = 0;
  while (off < line.size()) { ssize_t k = write(g_out, line.data() + off, line.size() - off); if (k <= 0) break; off += k; }
}
struct CovTab { const Decl *volatile d[1 << 16]; };
static CovTab *CT;
static void flushCover() {
  for (auto d : g_cover) {
    size_t h = ((size_t)d >> 4) * 0x9E3779B97F4A7C15ULL >> 48;
    for (int k = 0; k < 65536; k++, h = (h + 1) & 65535) {
      const Decl *cur = CT->d[h];
      if (cur == d) break;
      if (!cur && __sync_bool_compare_and_swap((const Decl **)&CT->d[h], (const Decl *)nullptr, d)) break;
      if (CT->d[h] == d) break;
    }
  }
}
[[noreturn]] static void finishProcess(int rc) {
  flushCover();
  if (g_ownslot) { __sync_sub_and_fetch(&SH->active, 1); g_ownslot = false; }
  for (pid_t p : g_children) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) __sync_fetch_and_add(&SH->crashes, 1); }
  _exit(rc);
}
static vector<string> g_entries;
static sigjmp_buf g_crashjmp;
static volatile sig_atomic_t g_crashed;
static void onCrash(int sig) {
  if (g_crashed) _exit(9);
  g_crashed = sig;
  siglongjmp(g_crashjmp, sig);
}
static void armCrash() {
  // own alternate stack: the usual crash is stack exhaustion
  static char *st = nullptr;
  if (!st) st = (char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = st; ss.ss_size = 1 << 20; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
}
static void runEntry(const string &en) {
  g_entry = en;
  armCrash();
  if (sigsetjmp(g_crashjmp, 1)) {
    emitPath("unsupported", "engine crash (signal " + std::to_string((int)g_crashed) + ")", nullptr);
    return;
  }
  try {
    NamedDecl *d = findQualified(en);
    auto ct = dyn_cast_or_null<ClassTemplateDecl>(d);
    auto zd = dyn_cast_or_null<CXXRecordDecl>(findQualified("vf::Z"));
    if (!ct || !zd) { emitPath("unsupported", "entry not found: " + en, nullptr); return; }
    Node *z = mkClass(zd, nullptr, {});
    Node *c = instantiate(ct, nullptr, {z});
    Node *r = memberType(c, &AC->Idents.get("type"));
    if (Node *t = textResult(r)) r = t;
    emitPath("ok", "", r);
  } catch (SubstFail &f) { emitPath("error", f.msg, g_errcls); }
  catch (HardError &f) { emitPath("error", f.msg, g_errcls); }
  catch (Unsupported &f) { emitPath("unsupported", f.msg, nullptr); }
  catch (PathKilled &f) { emitPath("assume", f.msg, nullptr); }
  catch (LimitHit &f) { emitPath("limit", f.msg, nullptr); }
  catch (z3::exception &f) { emitPath("unsupported", string("z3: ") + f.msg(), nullptr); }
  catch (std::out_of_range &) { emitPath("unsupported", "out_of_range in engine", nullptr); }
}
struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    AC = &ctx; SM = &CI.getSema();
    ZC = new z3::context; ZS = new z3::solver(*ZC, "QF_BV"); { z3::params pp(*ZC); pp.set("timeout", 20000u); ZS->set(pp); }
    tInt = mkBuiltin(ctx.IntTy); tBool = mkBuiltin(ctx.BoolTy); tSizeT = mkBuiltin(QualType(ctx.getSizeType()));
    tChar = mkBuiltin(ctx.CharTy); tVoid = mkBuiltin(ctx.VoidTy); tNull = mkBuiltin(ctx.NullPtrTy);
    SM->getDiagnostics().setSuppressAllDiagnostics(true);
    fflush(stdout); fflush(stderr);
    vector<pid_t> ps;
    for (auto &e : g_entries) {
      while (SH->active >= g_slots) {
        usleep(2000);
        for (auto it = ps.begin(); it != ps.end();) { int st; if (waitpid(*it, &st, WNOHANG) == *it) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { __sync_fetch_and_add(&SH->crashes, 1); __sync_sub_and_fetch(&SH->active, 1); } it = ps.erase(it); } else ++it; }
      }
      __sync_add_and_fetch(&SH->active, 1);
      pid_t p = fork();
      if (p == 0) { g_ownslot = true; g_children.clear(); runEntry(e); finishProcess(0); }
      ps.push_back(p);
    }
    for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { __sync_fetch_and_add(&SH->crashes, 1); fprintf(stderr, "tmsym: path process died (status %d)\n", st); } }
    // summary
    std::set<string> names;
    if (g_coverage) for (auto d : CT->d) if (d) {
      auto loc = ctx.getSourceManager().getPresumedLoc(ctx.getSourceManager().getExpansionLoc(d->getLocation()));
      if (!loc.isValid()) continue;
      string f = loc.getFilename();
      size_t k = f.find("boost/metaparse/");
      if (k == string::npos) continue;
      names.insert(f.substr(k + 16) + ":" + std::to_string(loc.getLine()) + ":" + cast<NamedDecl>(d)->getNameAsString());
    }
    string s = "{\"entry\":\"\",\"kind\":\"summary\",\"paths\":" + std::to_string(SH->paths) + ",\"queries\":" + std::to_string(SH->queries) + ",\"solver_s\":" + std::to_string(SH->solver_s) +
               ",\"decisions\":" + std::to_string(SH->decisions) + ",\"forks\":" + std::to_string(SH->forks) + ",\"insts\":" + std::to_string(SH->insts) + ",\"abort\":" + std::to_string(SH->crashes ? 2 : SH->abort_) + ",\"cover\":[";
    bool first = true;
    for (auto &n : names) { if (!first) s += ","; first = false; s += jstr(n); }
    s += "]}\n";
    size_t off = 0; while (off < s.size()) { ssize_t k = write(g_out, s.data() + off, s.size() - off); if (k <= 0) break; off += k; }
    _exit(0);
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, char **argv) {
  // a large stack: instantiations nest deeply
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  const rlim_t want = 3ULL << 30;
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && !getenv("TMSYM_STACK")) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? want : std::min<rlim_t>(want, rl.rlim_max);
    if (!setrlimit(RLIMIT_STACK, &rl)) { setenv("TMSYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
  }
  string file, out; vector<string> cargs;
  int i = 1;
  for (; i < argc; i++) {
    string a = argv[i];
    if (a == "--") { i++; break; }
    if (a == "-o") out = argv[++i];
    else if (a == "--slots") g_slots = atoi(argv[++i]);
    else if (a == "--maxpaths") g_maxpaths = atol(argv[++i]);
    else if (a == "--timeout") g_deadline = now() + atof(argv[++i]);
    else if (a == "--maxdepth") g_maxdepth = atoi(argv[++i]);
    else if (a == "--no-ff") g_char_no_ff = true;
    else if (a == "--trace") g_trace = true;
    else if (a == "--coverage") g_coverage = true;
    else if (a == "--entries-from") { FILE *f = fopen(argv[++i], "r"); char b[256]; while (f && fscanf(f, "%255s", b) == 1) g_entries.push_back(b); if (f) fclose(f); }
    else if (file.empty()) file = a;
    else g_entries.push_back(a);
  }
  for (; i < argc; i++) cargs.push_back(argv[i]);
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  CT = (CovTab *)mmap(nullptr, sizeof(CovTab), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof(Shared)); sem_init(&SH->sem, 1, 1);
  if (!out.empty()) { g_out = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (g_out < 0) { perror(out.c_str()); return 3; } }
  cargs.push_back("-resource-dir"); cargs.push_back("/usr/lib/llvm-18/lib/clang/18");
  cargs.push_back("-Wno-everything");
  cargs.push_back("-fno-delayed-template-parsing");
  tooling::FixedCompilationDatabase db(".", cargs);
  tooling::ClangTool tool(db, {file});
  int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return rc ? 4 : 3;   // the consumer exits the process itself on success
}
