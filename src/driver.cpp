// Command interpreter linked against ALTA's core; loads ALTA's plugins the way
// ALTA's own tools do and reports what it observes, one line per command.
//
//   driver SCRIPT RESULTS SCRATCH
//
// SCRIPT holds cases: "case <id> [cpu-seconds]" followed by commands.  Every
// case runs in a forked child with the scratch directory <SCRATCH>/<n> as its
// working directory, so that a crash is attributed to the exact case and
// command and no state leaks between cases.  RESULTS receives
//   C <id>                          case started
//   R <k> OK <payload> | R <k> EX <message>     command number k finished
//   E <id> done|signal <s>|exit <s>|timeout     case ended
// Doubles are printed as C99 hex floats: what the oracles see is exact.
#include <core/args.h>
#include <core/common.h>
#include <core/data.h>
#include <core/data_storage.h>
#include <core/fitter.h>
#include <core/function.h>
#include <core/metrics.h>
#include <core/params.h>
#include <core/plugins_manager.h>
#include <core/rational_function.h>
#include <core/vertical_segment.h>
#include <quadprog++/QuadProg++.hh>

#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

using namespace alta;

// Nothing may be installed in the system's plugin directory: a scratch
// directory, named by the environment, stands for it.
extern "C" void* dlopen(const char* name, int flags)
{
  typedef void* (*fn)(const char*, int);
  static fn real = (fn)dlsym(RTLD_NEXT, "dlopen");
  static const std::string sys = "/usr/lib/alta_plugins/";
  const char* to = getenv("VERIF_SYSTEM_PLUGINS");
  if (name && to && sys.compare(0, sys.size(), name, 0, std::min(sys.size(), strlen(name))) == 0)
    return real((std::string(to) + "/" + (name + sys.size())).c_str(), flags);
  return real(name, flags);
}

typedef std::vector<std::string> toks;

struct bad_script : std::runtime_error {
  bad_script(const std::string& s) : std::runtime_error("script: " + s) {}
};

static std::string unesc(const std::string& s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      r.push_back((char)strtol(s.substr(i + 1, 2).c_str(), 0, 16));
      i += 2;
    } else
      r.push_back(s[i]);
  }
  return r == "\x01" ? std::string() : r;
}
static std::string esc(const std::string& s)
{
  if (s.empty()) return "%01";
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c <= 32 || c == '%' || c >= 127) { snprintf(b, 8, "%%%02x", c); r += b; }
    else r.push_back((char)c);
  }
  return r;
}
static std::string num(double d)
{
  char b[64];
  if (std::isnan(d)) return "nan";
  snprintf(b, 64, "%a", d);
  return b;
}
static std::string vecs(const vec& v)
{
  std::string r = std::to_string(v.size());
  for (int i = 0; i < v.size(); ++i) r += " " + num(v[i]);
  return r;
}
static std::string inum(long i) { return std::to_string(i); }

struct cursor {
  const toks& t;
  size_t i;
  cursor(const toks& t) : t(t), i(1) {}
  bool more() const { return i < t.size(); }
  const std::string& raw() { if (i >= t.size()) throw bad_script("missing token"); return t[i++]; }
  std::string s() { return unesc(raw()); }
  double d() { return strtod(raw().c_str(), 0); }
  long n() { return strtol(raw().c_str(), 0, 10); }
  vec v() { long k = n(); vec r(k); for (long j = 0; j < k; ++j) r[j] = d(); return r; }
};

struct pname { const char* n; params::input p; };
static const pname pnames[] = {
#define P(x) {#x, params::x}
  P(RUSIN_TH_PH_TD_PD), P(RUSIN_TH_PH_TD), P(RUSIN_TH_TD_PD), P(RUSIN_TH_TD), P(RUSIN_VH_VD),
  P(RUSIN_VH), P(COS_TH_TD), P(COS_TH), P(SCHLICK_TK_PK), P(SCHLICK_VK), P(SCHLICK_TL_TK_PROJ_DPHI),
  P(COS_TK), P(RETRO_TL_TVL_PROJ_DPHI), P(STEREOGRAPHIC), P(SPHERICAL_TL_PL_TV_PV), P(COS_TLV),
  P(COS_TLR), P(ISOTROPIC_TV_TL), P(ISOTROPIC_TV_TL_DPHI), P(ISOTROPIC_TV_PROJ_DPHI),
  P(ISOTROPIC_TL_TV_PROJ_DPHI), P(ISOTROPIC_TD_PD), P(STARK_2D), P(STARK_3D), P(NEUMANN_2D),
  P(NEUMANN_3D), P(CARTESIAN), P(UNKNOWN_INPUT),
#undef P
};
static params::input pin(const std::string& s)
{
  for (auto& p : pnames) if (s == p.n) return p.p;
  throw bad_script("parametrization " + s);
}
static std::string pinname(params::input p)
{
  for (auto& q : pnames) if (q.p == p) return q.n;
  return "?" + inum((int)p);
}
struct poname { const char* n; params::output p; };
static const poname ponames[] = {
#define P(x) {#x, params::x}
  P(INV_STERADIAN), P(INV_STERADIAN_COSINE_FACTOR), P(ENERGY), P(RGB_COLOR), P(XYZ_COLOR), P(UNKNOWN_OUTPUT),
#undef P
};
static params::output pout(const std::string& s)
{
  for (auto& p : ponames) if (s == p.n) return p.p;
  throw bad_script("output " + s);
}
static std::string poutname(params::output p)
{
  for (auto& q : ponames) if (q.p == p) return q.n;
  return "?" + inum((int)p);
}

struct interp {
  std::map<std::string, arguments> A;
  std::map<std::string, ptr<data> > D;
  std::map<std::string, ptr<function> > F;

  arguments& a(cursor& c) { std::string n = c.s(); if (n == "-") return A["-"]; if (!A.count(n)) throw bad_script("args " + n); return A[n]; }
  ptr<data>& d(cursor& c) { std::string n = c.s(); if (!D.count(n)) throw bad_script("data " + n); if (!D[n]) throw std::runtime_error("null data " + n); return D[n]; }
  ptr<function>& f(cursor& c) { std::string n = c.s(); if (!F.count(n)) throw bad_script("function " + n); if (!F[n]) throw std::runtime_error("null function " + n); return F[n]; }
  ptr<nonlinear_function> nl(cursor& c)
  {
    ptr<nonlinear_function> r = dynamic_pointer_cast<nonlinear_function>(f(c));
    if (!r) throw bad_script("not a nonlinear function");
    return r;
  }
  ptr<rational_function> rf(cursor& c)
  {
    ptr<rational_function> r = dynamic_pointer_cast<rational_function>(f(c));
    if (!r) throw bad_script("not a rational function");
    return r;
  }
  ptr<vertical_segment> vs(cursor& c)
  {
    ptr<vertical_segment> r = dynamic_pointer_cast<vertical_segment>(d(c));
    if (!r) throw bad_script("not a vertical segment");
    return r;
  }
  parameters prm(cursor& c)
  {
    int dx = c.n(), dy = c.n();
    params::input i = pin(c.s());
    params::output o = pout(c.s());
    return parameters(dx, dy, i, o);
  }
  static std::string prms(const parameters& p)
  {
    return inum(p.dimX()) + " " + inum(p.dimY()) + " " + pinname(p.input_parametrization()) + " " +
           poutname(p.output_parametrization());
  }
  std::string run(const toks& t);
};

static std::string slurp(std::istream& in)
{
  std::stringstream ss;
  in.clear();
  ss << in.rdbuf();
  return ss.str();
}

std::string interp::run(const toks& t)
{
  const std::string& op = t[0];
  cursor c(t);

  // ---- directions
  if (op == "pconv") {                       // in out vec
    params::input i = pin(c.s()), o = pin(c.s());
    vec x = c.v();
    double buf[16];
    for (double& b : buf) b = 12345.0;
    params::convert(&x[0], i, o, buf);
    std::string r;
    for (int k = 0; k < 8; ++k) r += (k ? " " : "") + num(buf[k]);
    return r;
  }
  if (op == "pconva") {                      // allocating variant
    params::input i = pin(c.s()), o = pin(c.s());
    vec x = c.v();
    double* r = params::convert(&x[0], i, o);
    if (!r) return "null";
    int n = params::dimension(o);
    std::string s = inum(n);
    for (int k = 0; k < n; ++k) s += " " + num(r[k]);
    delete[] r;
    return s;
  }
  if (op == "pinfo") {
    params::input i = pin(c.s());
    return inum(params::dimension(i)) + " " + esc(params::get_name(i)) + " " +
           pinname(params::parse_input(params::get_name(i)));
  }
  if (op == "poinfo") {
    params::output i = pout(c.s());
    return esc(params::get_name(i)) + " " + poutname(params::parse_output(params::get_name(i))) + " " +
           inum(params::is_cosine_weighted(i));
  }
  if (op == "pparse") return pinname(params::parse_input(c.s()));
  if (op == "poparse") return poutname(params::parse_output(c.s()));
  if (op == "podim") return inum(params::dimension(pout(c.s())));
  if (op == "oconv") {                       // intype indim outtype outdim fill vec
    params::output i = pout(c.s());
    int id = c.n();
    params::output o = pout(c.s());
    int od = c.n();
    double fill = c.d();
    vec x = c.v();
    vec r = vec::Constant(od + 2, fill);
    params::convert(&x[0], i, id, o, od, &r[0]);
    return vecs(r);
  }
  if (op == "rot") {                         // n|b angle vec3
    std::string k = c.s();
    double th = c.d();
    vec x = c.v();
    Eigen::Vector3d v(x[0], x[1], x[2]);
    if (k == "n") params::rotate_normal(v, th); else params::rotate_binormal(v, th);
    vec r(3);
    r << v[0], v[1], v[2];
    return vecs(r);
  }

  // ---- arguments
  if (op == "args") {                        // NAME tok...
    std::string n = c.s();
    std::vector<std::string> v;
    while (c.more()) v.push_back(c.s());
    std::vector<char*> av;
    for (auto& s : v) av.push_back(&s[0]);
    av.push_back(0);
    A.erase(n);
    A.insert(std::make_pair(n, arguments((int)v.size(), &av[0])));
    return "";
  }
  if (op == "argss") { std::string n = c.s(); A[n] = arguments::create_arguments(c.s()); return ""; }
  if (op == "argsh") {
    std::string n = c.s();
    std::istringstream in(c.s());
    A[n] = arguments::parse_header(in);
    return esc(slurp(in));
  }
  if (op == "argsdump") { std::stringstream ss; ss << a(c); return esc(ss.str()); }
  if (op == "argscmd") return esc(a(c).get_cmd());
  if (op == "argsupd") { arguments& x = a(c); std::string k = c.s(); x.update(k, c.s()); return ""; }
  if (op == "aget") {                        // NAME kind key [..]
    arguments& x = a(c);
    std::string k = c.s(), key = c.s();
    if (k == "def") return inum(x.is_defined(key));
    if (k == "isvec") return inum(x.is_vec(key));
    if (k == "raw") return esc(x[key]);
    if (k == "str") return esc(c.more() ? x.get_string(key, c.s()) : x.get_string(key));
    if (k == "float") return num(c.more() ? x.get_float(key, (float)c.d()) : x.get_float(key));
    if (k == "double") return num(c.more() ? x.get_double(key, c.d()) : x.get_double(key));
    if (k == "int") return inum(c.more() ? x.get_int(key, c.n()) : x.get_int(key));
    if (k == "vecf") { int n = c.n(); return vecs(c.more() ? x.get_vec(key, n, (float)c.d()) : x.get_vec(key, n)); }
    if (k == "vecd") { auto v = x.get_vec<double>(key); std::string r = inum(v.size()); for (auto e : v) r += " " + num(e); return r; }
    if (k == "veci") { auto v = x.get_vec<int>(key); std::string r = inum(v.size()); for (auto e : v) r += " " + inum(e); return r; }
    if (k == "vecs") { auto v = x.get_vec(key); std::string r = inum(v.size()); for (auto& e : v) r += " " + esc(e); return r; }
    if (k == "pair") { auto p = x.get_pair<int>(key); return inum(p.first) + " " + inum(p.second); }
    throw bad_script("aget " + k);
  }

  // ---- data
  if (op == "dload") {                       // NAME type file args -> info
    std::string n = c.s(), ty = c.s(), fn = c.s();
    ptr<data> r = plugins_manager::load_data(fn, ty, a(c));
    if (!r) return "null";
    D[n] = r;
    return inum(r->size()) + " " + prms(r->parametrization());
  }
  if (op == "dloads") {                      // NAME type content args : from a string stream
    std::string n = c.s(), ty = c.s(), s = c.s();
    std::istringstream in(s);
    ptr<data> r = plugins_manager::load_data(ty, in, a(c));
    if (!r) return "null";
    D[n] = r;
    return inum(r->size()) + " " + prms(r->parametrization());
  }
  if (op == "dnew") {                        // NAME kind prm rows vec(all values)
    std::string n = c.s();
    int k = c.n();
    parameters p = prm(c);
    int rows = c.n();
    vec v = c.v();
    std::shared_ptr<double> buf(new double[v.size() + 1], std::default_delete<double[]>());
    for (int i = 0; i < v.size(); ++i) buf.get()[i] = v[i];
    D[n] = ptr<data>(new vertical_segment(p, rows, buf, (vertical_segment::ci_kind)k));
    return "";
  }
  if (op == "dnewsz") {                      // NAME prm rows : size-only vertical segment
    std::string n = c.s();
    parameters p = prm(c);
    D[n] = ptr<data>(new vertical_segment(p, (unsigned)c.n()));
    return "";
  }
  if (op == "dget") {                        // NAME plugin size prm args
    std::string n = c.s(), pl = c.s();
    int sz = c.n();
    parameters p = prm(c);
    ptr<data> r = plugins_manager::get_data(pl, sz, p, a(c));
    if (!r) return "null";
    D[n] = r;
    return inum(r->size()) + " " + prms(r->parametrization());
  }
  if (op == "dinfo") {
    ptr<data> x = d(c);
    return inum(x->size()) + " " + prms(x->parametrization()) + " " + vecs(x->min()) + " " + vecs(x->max());
  }
  if (op == "dvsinfo") {
    ptr<vertical_segment> x = vs(c);
    return inum(x->confidence_interval_kind()) + " " + inum(x->column_number());
  }
  if (op == "isvs") return inum((bool)dynamic_pointer_cast<vertical_segment>(d(c)));
  if (op == "drow") { ptr<data> x = d(c); return vecs(x->get(c.n())); }
  if (op == "dtouch") {                      // read a sample of the rows and evaluate at the middle of the domain
    ptr<data> x = d(c);
    long n = x->size(), k = 0;
    for (long i = 0; i < n; i += std::max(1L, n / 40)) { x->get(i); ++k; }
    if (n > 0) x->get(n - 1);
    return inum(k);
  }
  if (op == "dmid") {                        // value in the middle of the domain
    ptr<data> x = d(c);
    vec m = 0.5 * (x->min() + x->max());
    return vecs(x->value(m));
  }
  if (op == "drows") {                       // all rows, or the listed ones
    ptr<data> x = d(c);
    std::string r;
    std::vector<int> ix;
    if (c.more()) while (c.more()) ix.push_back(c.n());
    else for (int i = 0; i < x->size(); ++i) ix.push_back(i);
    r = inum(ix.size());
    for (int i : ix) r += " " + vecs(x->get(i));
    return r;
  }
  if (op == "dvsrow") {                      // x yl yu (3-arg) and yl yu (2-arg)
    ptr<vertical_segment> v = vs(c);
    int i = c.n();
    vec x, l, u, l2, u2;
    v->get(i, x, l, u);
    v->get(i, l2, u2);
    return vecs(x) + " " + vecs(l) + " " + vecs(u) + " " + vecs(l2) + " " + vecs(u2);
  }
  if (op == "dvsrows") {
    ptr<vertical_segment> v = vs(c);
    std::string r = inum(v->size());
    for (int i = 0; i < v->size(); ++i) {
      vec x, l, u;
      v->get(i, x, l, u);
      r += " " + vecs(x) + " " + vecs(l) + " " + vecs(u);
    }
    return r;
  }
  if (op == "dvsmat") {
    ptr<vertical_segment> v = vs(c);
    auto m = v->matrix_view();
    std::string r = inum(m.rows()) + " " + inum(m.cols());
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) r += " " + num(m(i, j));
    return r;
  }
  if (op == "dset") { ptr<data> x = d(c); int i = c.n(); vec v = c.v(); x->set(i, v); return ""; }
  if (op == "dval") { ptr<data> x = d(c); vec v = c.v(); return vecs(x->value(v)); }
  if (op == "dvals") {                       // count vec...
    ptr<data> x = d(c);
    long k = c.n();
    std::string r = inum(k);
    for (long j = 0; j < k; ++j) { vec v = c.v(); r += " " + vecs(x->value(v)); }
    return r;
  }
  if (op == "dsave") { ptr<data> x = d(c); x->save(c.s()); return ""; }
  if (op == "dsavet") { ptr<data> x = d(c); std::ofstream o(c.s().c_str()); save_data_as_text(o, *x); return inum(o.good()); }
  if (op == "dsaveb") { ptr<data> x = d(c); std::ofstream o(c.s().c_str(), std::ios::binary); save_data_as_binary(o, *x); return inum(o.good()); }
  if (op == "deq") {
    ptr<data> x = d(c), y = d(c);
    return inum(c.more() ? x->equals(*y, c.d()) : x->equals(*y));
  }

  // ---- functions
  if (op == "fload") {
    std::string n = c.s();
    function* g = plugins_manager::load_function(c.s());
    F[n] = nullptr;
    if (!g) return "null";
    F[n] = ptr<function>(g);
    return prms(g->parametrization());
  }
  if (op == "fget") {                        // NAME args prm
    std::string n = c.s();
    arguments& x = a(c);
    function* g = plugins_manager::get_function(x, prm(c));
    if (!g) return "null";
    F[n] = ptr<function>(g);
    return prms(g->parametrization());
  }
  if (op == "fgetp") {                       // NAME plugin prm : the by-name overload
    std::string n = c.s(), pl = c.s();
    ptr<function> g = plugins_manager::get_function(pl, prm(c));
    if (!g) return "null";
    F[n] = g;
    return prms(g->parametrization());
  }
  if (op == "finfo") { ptr<function> g = f(c); return prms(g->parametrization()) + " " + vecs(g->min()) + " " + vecs(g->max()); }
  if (op == "fkind") {
    ptr<function> g = f(c);
    return inum((bool)dynamic_pointer_cast<nonlinear_function>(g)) + " " + inum((bool)dynamic_pointer_cast<compound_function>(g)) +
           " " + inum((bool)dynamic_pointer_cast<product_function>(g)) + " " + inum((bool)dynamic_pointer_cast<rational_function>(g));
  }
  if (op == "fsub") {                        // NEW F i : alias a part of a compound/product
    std::string n = c.s();
    ptr<function> g = f(c);
    int i = c.n();
    ptr<compound_function> k = dynamic_pointer_cast<compound_function>(g);
    ptr<product_function> p = dynamic_pointer_cast<product_function>(g);
    nonlinear_function* s = k ? (*k)[i] : p ? (i ? p->second() : p->first()) : 0;
    if (!s) return "null";
    F[n] = ptr<function>(g, s);
    return prms(s->parametrization());
  }
  if (op == "fprod") {                       // NEW A B fixA fixB
    std::string n = c.s();
    auto x = nl(c), y = nl(c);
    bool i = c.n(), j = c.n();
    F[n] = ptr<function>(new product_function(x, y, i, j));
    return prms(F[n]->parametrization());
  }
  if (op == "fsum") {                        // NEW k F1..Fk fix1..fixk
    std::string n = c.s();
    int k = c.n();
    std::vector<ptr<nonlinear_function> > g;
    std::vector<arguments> x;
    for (int i = 0; i < k; ++i) g.push_back(nl(c));
    for (int i = 0; i < k; ++i) x.push_back(arguments::create_arguments(c.n() ? "--fixed" : ""));
    F[n] = ptr<function>(new compound_function(g, x));
    return prms(F[n]->parametrization());
  }
  if (op == "fsize") { ptr<compound_function> k = dynamic_pointer_cast<compound_function>(f(c)); return k ? inum(k->size()) : "-1"; }
  if (op == "fdomain") { ptr<function> g = f(c); g->setMin(c.v()); g->setMax(c.v()); return ""; }
  if (op == "fnb") return inum(nl(c)->nbParameters());
  if (op == "fpar") return vecs(nl(c)->parameters());
  if (op == "fsetp") { auto g = nl(c); g->setParameters(c.v()); return ""; }
  if (op == "fpmin") return vecs(nl(c)->getParametersMin());
  if (op == "fpmax") return vecs(nl(c)->getParametersMax());
  if (op == "fval") { ptr<function> g = f(c); vec x = c.v(); return vecs(g->value(x)); }
  if (op == "fvals") {
    ptr<function> g = f(c);
    long k = c.n();
    std::string r = inum(k);
    for (long j = 0; j < k; ++j) { vec x = c.v(); r += " " + vecs(j % 2 ? (*g)(x) : g->value(x)); }
    return r;
  }
  if (op == "fvalc") {                       // k F1..Fk n vec...: value of F1 at points of Fk, converted from one to the next
    int k = c.n();
    std::vector<ptr<function>> g;
    for (int i = 0; i < k; ++i) g.push_back(f(c));
    int n = c.n();
    std::string s = inum(n);
    for (int i = 0; i < n; ++i) {
      vec x = c.v();
      for (int j = k - 1; j > 0; --j) {
        vec y(g[j - 1]->parametrization().dimX());
        params::convert(&x[0], g[j]->parametrization().input_parametrization(), g[j - 1]->parametrization().input_parametrization(), &y[0]);
        x = y;
      }
      s += " " + vecs(g[0]->value(x));
      auto nf = dynamic_pointer_cast<nonlinear_function>(g[0]);
      s += " " + vecs(nf->parametersJacobian(x));
    }
    return s;
  }
  if (op == "fjac") { auto g = nl(c); vec x = c.v(); return vecs(g->parametersJacobian(x)); }
  if (op == "fsave") { ptr<function> g = f(c); std::string fn = c.s(); g->save(fn, a(c)); return ""; }
  if (op == "fboot") { ptr<function> g = f(c); std::string dn = c.s(); ptr<data> x = dn == "-" ? ptr<data>() : D[dn]; g->bootstrap(x, a(c)); return ""; }
  if (op == "fl2") { ptr<function> g = f(c); ptr<data> x = d(c); return num(g->L2_distance(x)) + " " + num(g->Linf_distance(x)); }
  // ---- rational functions
  if (op == "rsize") { auto r = rf(c); int p = c.n(), q = c.n(); r->setSize(p, q); return ""; }
  if (op == "rset") {                        // F k a b
    auto r = rf(c);
    int k = c.n();
    vec p = c.v(), q = c.v();
    rational_function_1d* o = r->get(k);
    if (!o) return "null";
    o->resize(p.size(), q.size());
    o->update(p, q);
    return "";
  }
  if (op == "rupd") {                        // F k a b: without resizing first
    auto r = rf(c);
    int k = c.n();
    vec p = c.v(), q = c.v();
    r->get(k)->update(p, q);
    return "";
  }
  if (op == "rcopy") { auto r = rf(c); auto g = rf(c); r->update(g); return ""; }
  if (op == "rcopyk") { auto r = rf(c); int k = c.n(); auto g = rf(c); int l = c.n(); r->get(k); r->update(k, g->get(l)); return ""; }
  if (op == "rdomk") { auto r = rf(c); int k = c.n(); r->get(k)->setMin(c.v()); r->get(k)->setMax(c.v()); return ""; }
  if (op == "rcoef") { auto r = rf(c); int k = c.n(); return vecs(r->get(k)->getP()) + " " + vecs(r->get(k)->getQ()); }
  if (op == "rdeg") {                        // F k count
    auto r = rf(c);
    int k = c.n(), n = c.n();
    std::string s = inum(n);
    for (int i = 0; i < n; ++i) { auto v = r->get(k)->index2degree(i); s += " " + inum(v.size()); for (int e : v) s += " " + inum(e); }
    return s;
  }
  if (op == "rbasis") {                      // F k np nq vec -> p_i q_j and p(x) q(x)
    auto r = rf(c);
    int k = c.n(), np = c.n(), nq = c.n();
    vec x = c.v();
    rational_function_1d* o = r->get(k);
    vec p(np), q(nq);
    for (int i = 0; i < np; ++i) p[i] = o->p(x, i);
    for (int i = 0; i < nq; ++i) q[i] = o->q(x, i);
    return vecs(p) + " " + vecs(q);
  }
  if (op == "rval1") { auto r = rf(c); int k = c.n(); vec x = c.v(); return vecs(r->get(k)->value(x)); }

  // ---- fitters
  if (op == "fit") {                         // fitter data function args
    std::string ft = c.s();
    ptr<fitter> g = plugins_manager::get_fitter(ft);
    if (!g) return "null";
    ptr<data> x = d(c);
    std::string fn = c.s();
    if (!F[fn]) throw bad_script("function " + fn);
    arguments& y = a(c);
    g->set_parameters(y);
    return inum(g->fit_data(x, F[fn], y));
  }
  if (op == "hasfitter") return inum((bool)plugins_manager::get_fitter(c.s()));
  if (op == "compat") { std::string dn = c.s(); ptr<function> g = f(c); plugins_manager::check_compatibility(D[dn], g, a(c)); ptr<data> x = D[dn]; return inum(x->size()) + " " + prms(x->parametrization()); }

  // ---- metrics
  if (op == "metrics") {                     // in ref mask|-
    ptr<data> x = d(c), y = d(c);
    std::string m = c.s();
    errors::metrics r;
    errors::compute(x.get(), y.get(), m == "-" ? 0 : D[m].get(), r);
    std::string s = inum(r.size());
    for (auto& e : r) s += " " + esc(e.first) + " " + vecs(e.second);
    return s;
  }
  // ---- quadratic programs
  if (op == "qp") {                          // mode n p m G g0 CE ce0 CI ci0
    std::string mode = c.s();
    int n = c.n(), p = c.n(), m = c.n();
    auto mat = [&](int r, int k) { Eigen::MatrixXd z(r, k); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) z(i, j) = c.d(); return z; };
    auto ve = [&](int r) { Eigen::VectorXd z(r); for (int i = 0; i < r; ++i) z[i] = c.d(); return z; };
    Eigen::MatrixXd G = mat(n, n);
    Eigen::VectorXd g0 = ve(n);
    Eigen::MatrixXd CE = mat(n, p);
    Eigen::VectorXd ce0 = ve(p);
    Eigen::MatrixXd CI = mat(n, m);
    Eigen::VectorXd ci0 = ve(m);
    Eigen::VectorXd x = Eigen::VectorXd::Zero(n);
    double fv;
    if (mode == "full")
      fv = QuadProgPP::solve_quadprog(G, g0, CE, ce0, CI, ci0, x);
    else {
      QuadProgPP::Scheduling s;
      QuadProgPP::init_qp(G);
      x = -g0;
      G.triangularView<Eigen::Lower>().solveInPlace(x);
      G.transpose().triangularView<Eigen::Upper>().solveInPlace(x);
      size_t k1 = mode.find(':'), k2 = k1 == std::string::npos ? k1 : mode.find(':', k1 + 1);
      std::string kind = mode.substr(0, k1);   // kind[:chunk size[:grow factor]]
      if (kind == "sliding") s.initSlidingWindows(n, m);
      else if (kind == "worstset") s.initWorstSetFirst(n, m);
      else if (kind != "worst") throw bad_script("mode " + mode);
      if (k1 != std::string::npos) s.initial_chunk_size = atoi(mode.c_str() + k1 + 1);
      if (k2 != std::string::npos) s.grow_factor = atof(mode.c_str() + k2 + 1);
      Eigen::VectorXi act;
      if (c.more()) { long k = c.n(); act.resize(k); for (long i = 0; i < k; ++i) act[i] = c.n(); }
      fv = QuadProgPP::solve_quadprog_with_guess(G, g0, CE, ce0, CI, ci0, x, s, &act);
      std::string r = num(fv) + " " + vecs(x) + " " + inum(act.size());
      for (int i = 0; i < act.size(); ++i) r += " " + inum(act[i]);
      return r;
    }
    return num(fv) + " " + vecs(x) + " 0";
  }
  // ---- small utilities
  if (op == "product") { vec x = c.v(), y = c.v(); return vecs(product(x, y)); }
  if (op == "timer") {                       // seconds slept inside
    timer tm;
    int reps = c.n();
    long us = c.n();
    double want = 0;
    for (int i = 0; i < reps; ++i) {
      struct timespec a0, a1;
      tm.start();
      clock_gettime(CLOCK_MONOTONIC, &a0);
      usleep(us);
      clock_gettime(CLOCK_MONOTONIC, &a1);
      tm.stop();
      want += (a1.tv_sec - a0.tv_sec) + 1e-9 * (a1.tv_nsec - a0.tv_nsec);
    }
    std::stringstream ss;
    ss << tm;
    return num(tm.elapsed()) + " " + num(want) + " " + esc(ss.str());
  }
  if (op == "env") { std::string k = c.s(); setenv(k.c_str(), c.s().c_str(), 1); return ""; }
  if (op == "stat") { struct stat st; std::string p = c.s(); return stat(p.c_str(), &st) ? "-1" : inum(st.st_size); }
  if (op == "cat") { std::string p = c.s(); std::ifstream i(p.c_str(), std::ios::binary); if (!i.good()) return "null"; return esc(slurp(i)); }
  if (op == "write") { std::string p = c.s(); std::ofstream o(p.c_str(), std::ios::binary); o << c.s(); return inum(o.good()); }
  if (op == "dirty") {                       // fill and release heap blocks with a byte: stale contents for later allocations
    int b = c.n();
    for (size_t sz : {16, 24, 32, 48, 64, 80, 96, 128, 192, 256, 512, 1024, 4096, 65536}) {
      std::vector<char*> v;
      for (int i = 0; i < 200; ++i) { char* q = (char*)malloc(sz); memset(q, b, sz); v.push_back(q); }
      for (char* q : v) free(q);
    }
    return "";
  }
  throw bad_script("unknown command " + op);
}

static int outfd;
static void emit(const std::string& s)
{
  std::string l = s + "\n";
  const char* p = l.data();
  size_t n = l.size();
  while (n) {
    ssize_t k = write(outfd, p, n);
    if (k <= 0) _exit(97);
    p += k;
    n -= k;
  }
}

static toks split(const std::string& l)
{
  toks t;
  size_t i = 0;
  while (i < l.size()) {
    size_t j = l.find(' ', i);
    if (j == std::string::npos) j = l.size();
    if (j > i) t.push_back(l.substr(i, j - i));
    i = j + 1;
  }
  return t;
}

int main(int argc, char** argv)
{
  if (argc != 4) return 2;
  std::ifstream in(argv[1], std::ios::binary);
  outfd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (!in.good() || outfd < 0) return 2;
  std::string scratch = argv[3];
  if (chdir(scratch.c_str())) return 2;

  std::string line;
  bool have = (bool)std::getline(in, line);
  long serial = 0;
  while (have) {
    toks h = split(line);
    if (h.empty() || h[0] != "case") { std::cerr << "expected case: " << line << std::endl; return 2; }
    std::vector<std::string> cmds;
    while ((have = (bool)std::getline(in, line)) && line.compare(0, 5, "case ") != 0)
      if (!line.empty()) cmds.push_back(line);
    int limit = h.size() > 2 ? atoi(h[2].c_str()) : 60;
    emit("C " + h[1]);
    std::cout.flush();
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      std::string dir = inum(serial);
      mkdir(dir.c_str(), 0755);
      if (chdir(dir.c_str())) _exit(96);
      int fo = open("stdout.log", O_WRONLY | O_CREAT | O_TRUNC, 0644), fe = open("stderr.log", O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fo, 1);
      dup2(fe, 2);
      struct itimerval tv;
      memset(&tv, 0, sizeof tv);
      tv.it_value.tv_sec = limit;
      setitimer(ITIMER_PROF, &tv, 0);
      alarm(limit * 10 + 60);
      {
        interp I;
        I.A["-"] = arguments();
        for (size_t k = 0; k < cmds.size(); ++k) {
          std::string r;
          try {
            r = "R " + inum(k) + " OK " + I.run(split(cmds[k]));
          } catch (const bad_script& e) {
            r = "R " + inum(k) + " SX " + esc(e.what());
          } catch (const std::exception& e) {
            r = "R " + inum(k) + " EX " + esc(e.what());
          } catch (const std::string& e) {
            r = "R " + inum(k) + " EX " + esc(e);
          } catch (const char* e) {
            r = "R " + inum(k) + " EX " + esc(e);
          } catch (...) {
            r = "R " + inum(k) + " EX ?";
          }
          std::cout.flush();
          emit(r);
        }
        emit("T");                            // every command returned; objects are destroyed now
      }
      std::cout.flush();
      fflush(0);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    std::string e;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) e = "done";
    else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) e = "timeout";
    else if (WIFSIGNALED(st)) e = "signal " + inum(WTERMSIG(st));
    else e = "exit " + inum(WEXITSTATUS(st));
    emit("E " + h[1] + " " + e + " " + inum(serial));
    ++serial;
  }
  return 0;
}
