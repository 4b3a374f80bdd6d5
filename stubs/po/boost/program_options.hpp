// Stand-in for the part of boost.program_options that htmlext uses, for the
// symbolic executor only: the real one exists here as a shared object without
// source.  The native build uses the real one, so every validated path compares
// the two.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace boost { namespace program_options {
struct error : std::logic_error { explicit error(const std::string& m) : std::logic_error(m) {} };
struct any_base { virtual ~any_base() {} };
template <class T> struct any_of : any_base { T v; explicit any_of(T x) : v(std::move(x)) {} };
struct variable_value {
  std::shared_ptr<any_base> v; bool def = false;
  bool empty() const { return !v; }
  bool defaulted() const { return def; }
  template <class T> const T& as() const { auto* p = dynamic_cast<const any_of<T>*>(v.get()); if (!p) throw std::bad_cast(); return p->v; }
};
struct value_semantic {
  virtual ~value_semantic() {}
  virtual bool takes() const = 0;
  virtual bool many() const { return false; }
  virtual void parse(variable_value&, const std::string&) const = 0;
  virtual bool preset(variable_value&) const { return false; }
};
struct untyped : value_semantic { bool takes() const override { return false; } void parse(variable_value& x, const std::string&) const override { x.v = std::make_shared<any_of<std::string>>(std::string()); } };
inline void convert(std::string& to, const std::string& s) { to = s; }
inline void convert(std::uint64_t& to, const std::string& s) {
  to = 0; if (s.empty()) throw error("invalid number");
  for (char c : s) { if (c < '0' || c > '9') throw error("invalid number"); const std::uint64_t d = (std::uint64_t)(c - '0'); if (to > (UINT64_MAX - d) / 10) throw error("invalid number"); to = to * 10 + d; }
}
template <class T> void add(variable_value& x, const std::string& s, T*) { T v; convert(v, s); x.v = std::make_shared<any_of<T>>(v); }
template <class T> void add(variable_value& x, const std::string& s, std::vector<T>*) {
  T v; convert(v, s); if (!x.v) x.v = std::make_shared<any_of<std::vector<T>>>(std::vector<T>());
  dynamic_cast<any_of<std::vector<T>>&>(*x.v).v.push_back(v);
}
template <class T> struct is_vector { static constexpr bool value = false; };
template <class T> struct is_vector<std::vector<T>> { static constexpr bool value = true; };
template <class T> struct typed_value : value_semantic {
  std::shared_ptr<T> def;
  typed_value* default_value(const T& v) { def = std::make_shared<T>(v); return this; }
  typed_value* default_value(const T& v, const std::string&) { def = std::make_shared<T>(v); return this; }
  typed_value* value_name(const std::string&) { return this; }
  bool takes() const override { return true; }
  bool many() const override { return is_vector<T>::value; }
  void parse(variable_value& x, const std::string& s) const override { add(x, s, (T*)nullptr); }
  bool preset(variable_value& x) const override { if (!def) return false; x.v = std::make_shared<any_of<T>>(*def); x.def = true; return true; }
};
template <class T> typed_value<T>* value() { return new typed_value<T>(); }
struct option_description { std::string name; char letter; std::shared_ptr<value_semantic> sem; };
struct options_description;
struct options_description_easy_init {
  options_description* d;
  inline options_description_easy_init& add(const char* n, value_semantic* s);
  options_description_easy_init& operator()(const char* n, const char*) { return add(n, new untyped()); }
  options_description_easy_init& operator()(const char* n, value_semantic* s, const char* = "") { return add(n, s); }
};
struct options_description {
  std::vector<option_description> all; std::string caption;
  explicit options_description(const std::string& c = "") : caption(c) {}
  options_description_easy_init add_options() { return options_description_easy_init{this}; }
  const option_description* exact(const std::string& n) const { for (auto& o : all) if (o.name == n) return &o; return nullptr; }
  const option_description* find(const std::string& n) const { // a unique beginning is enough
    if (auto* e = exact(n)) return e;
    const option_description* f = nullptr; for (auto& o : all) if (o.name.compare(0, n.size(), n) == 0) { if (f) throw error("option is ambiguous"); f = &o; }
    return f;
  }
  const option_description* find(char c) const { for (auto& o : all) if (o.letter == c) return &o; return nullptr; }
};
inline options_description_easy_init& options_description_easy_init::add(const char* n, value_semantic* s) { std::string t(n); const auto c = t.find(','); d->all.push_back({t.substr(0, c), c == std::string::npos ? '\0' : t[c + 1], std::shared_ptr<value_semantic>(s)}); return *this; }
inline std::ostream& operator<<(std::ostream& o, const options_description& d) { return o << d.caption; }
struct positional_options_description {
  std::vector<std::string> names; std::string trailing;
  positional_options_description& add(const char* n, int count) { if (count < 0) trailing = n; else names.insert(names.end(), (size_t)count, n); return *this; }
};
struct parsed_options { const options_description* d; std::vector<std::pair<const option_description*, std::string>> given; };
struct command_line_parser {
  std::vector<std::string> args; const options_description* d = nullptr; const positional_options_description* p = nullptr;
  command_line_parser(int argc, const char* const argv[]) { for (int i = 1; i < argc; ++i) args.push_back(argv[i]); }
  command_line_parser& options(const options_description& x) { d = &x; return *this; }
  command_line_parser& positional(const positional_options_description& x) { p = &x; return *this; }
  parsed_options run() {
    parsed_options r{d, {}}; size_t npos = 0;
    auto looks = [&](const std::string& a) { return a.size() >= 2 && a[0] == '-' && a[1] != '-' ? d->find(a[1]) : a.size() > 2 && a[0] == '-' && a[1] == '-' ? d->find(a.substr(2, a.find('=') == std::string::npos ? a.npos : a.find('=') - 2)) : nullptr; };
    auto pos = [&](const std::string& a) {
      std::string n; if (p) n = npos < p->names.size() ? p->names[npos] : p->trailing; ++npos;
      if (n.empty()) { if (!p) { extra = true; return; } throw error("too many positional options have been specified on the command line"); }
      r.given.push_back({d->exact(n), a});
    };
    for (size_t i = 0; i < args.size(); ++i) {
      const std::string& a = args[i];
      auto next = [&](const option_description* o) { if (i + 1 >= args.size() || looks(args[i + 1])) throw error("the required argument for option is missing"); r.given.push_back({o, args[++i]}); };
      if (a == "--") { for (++i; i < args.size(); ++i) pos(args[i]); break; }
      if (a.size() > 2 && a[0] == '-' && a[1] == '-') {
        const auto eq = a.find('='); const auto* o = d->find(a.substr(2, eq == a.npos ? a.npos : eq - 2));
        if (!o) throw error("unrecognised option");
        if (eq != a.npos) { if (!o->sem->takes()) throw error("option does not take any arguments"); if (eq + 1 == a.size()) throw error("the argument for option should follow immediately after the equal sign"); r.given.push_back({o, a.substr(eq + 1)}); }
        else if (o->sem->takes()) next(o); else r.given.push_back({o, ""});
      } else if (a.size() >= 2 && a[0] == '-') {
        for (size_t k = 1; k < a.size(); ++k) { // flags may stick together, a value may stick to its option
          const auto* o = d->find(a[k]); if (!o) throw error("unrecognised option");
          if (!o->sem->takes()) { r.given.push_back({o, ""}); continue; }
          if (k + 1 < a.size()) r.given.push_back({o, a.substr(k + 1)}); else next(o);
          break;
        }
      } else pos(a);
    }
    return r;
  }
  bool extra = false;
};
struct variables_map {
  std::map<std::string, variable_value> m; variable_value none;
  size_t count(const std::string& k) const { return m.count(k); }
  const variable_value& operator[](const std::string& k) const { auto i = m.find(k); return i == m.end() ? none : i->second; }
};
inline void store(const parsed_options& p, variables_map& vm) {
  for (auto& g : p.given) {
    auto& x = vm.m[g.first->name];
    if (x.v && !g.first->sem->many()) throw error("option cannot be specified more than once");
    g.first->sem->parse(x, g.second);
  }
  for (auto& o : p.d->all) if (!vm.m.count(o.name)) { variable_value x; if (o.sem->preset(x)) vm.m[o.name] = x; }
}
inline void notify(variables_map&) {}
} }
