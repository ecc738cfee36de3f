// Run configurations, as uses of the public interface.
#include <iostream>
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "app_config.hpp"
namespace witness {
using C = mara::config_t; using P = mara::config_parameter_t; using str = std::string;
#define ARGS int i, double d, str s
inline auto tmpl(ARGS) { return mara::make_config_template().item("i", i).item("d", d).item("s", s); }
#define CFG tmpl(i, d, s).create()
// defaults
int def_i(ARGS) { return CFG.get_int("i"); } double def_d(ARGS) { return CFG.get_double("d"); } str def_s(ARGS) { return CFG.get_string("s"); }
int def_it(ARGS) { return CFG.get<int>("i"); } double def_dt(ARGS) { return CFG.get<double>("d"); } str def_st(ARGS) { return CFG.get<str>("s"); }
str def_lit() { return mara::make_config_template().item("outdir", "data").create().get_string("outdir"); }
int def_later(ARGS) { auto a = tmpl(i, d, s); auto b = a.item("j", 7); return b.create().get_int("i"); }
int def_over(ARGS, int j) { return tmpl(i, d, s).item("i", j).create().get_int("i"); }
int tmpl_const(ARGS, int j) { const auto t = tmpl(i, d, s); t.item("i", j); return t.create().get_int("i"); }
// access outside of the template, or with another type
int no_i(ARGS) { return CFG.get_int("x"); } str no_s(ARGS) { return CFG.get_string("x"); }
int wt_id(ARGS) { return CFG.get_int("d"); } int wt_is(ARGS) { return CFG.get_int("s"); } double wt_di(ARGS) { return CFG.get_double("i"); } double wt_ds(ARGS) { return CFG.get_double("s"); } str wt_si(ARGS) { return CFG.get_string("i"); } str wt_sd(ARGS) { return CFG.get_string("d"); }
// setting typed values
C set_i(ARGS, int j) { return CFG.set("i", P(j)); } C set_d(ARGS, double e) { return CFG.set("d", P(e)); } C set_s(ARGS, str t) { return CFG.set("s", P(t)); }
C setc_i(ARGS, int j) { const auto c = CFG; return c.set("i", P(j)); }
int setc_keeps(ARGS, int j) { const auto c = CFG; c.set("i", P(j)); return c.get_int("i"); }
int set_twice(ARGS, int j, int k) { return CFG.set("i", P(j)).set("d", P(1.5)).set("i", P(k)).get_int("i"); }
C st_no(ARGS, int j) { return CFG.set("x", P(j)); } C st_noc(ARGS, int j) { const auto c = CFG; return c.set("x", P(j)); }
C st_di(ARGS, int j) { return CFG.set("d", P(j)); } C st_si(ARGS, int j) { return CFG.set("s", P(j)); } C st_id(ARGS, double e) { return CFG.set("i", P(e)); } C st_sd(ARGS, double e) { return CFG.set("s", P(e)); } C st_is(ARGS, str t) { return CFG.set("i", P(t)); } C st_ds(ARGS, str t) { return CFG.set("d", P(t)); }
// setting from text
C txt_i(ARGS, str t) { return CFG.set("i", t); } C txt_d(ARGS, str t) { return CFG.set("d", t); } C txt_s(ARGS, str t) { return CFG.set("s", t); } C txt_no(ARGS, str t) { return CFG.set("x", t); }
C txtc_i(ARGS, str t) { const auto c = CFG; return c.set("i", t); } C txtc_s(ARGS, str t) { const auto c = CFG; return c.set("s", t); }
// updates from a mapping
C upd_txt(ARGS, str t, str u) { mara::config_string_map_t m; m["i"] = t; m["s"] = u; return CFG.update(m); }
C upd_none(ARGS) { mara::config_string_map_t m; return CFG.update(m); }
C upd_no(ARGS, str t) { mara::config_string_map_t m; m["i"] = "3"; m["x"] = t; return CFG.update(m); }
C upd_par(ARGS, int j, double e, str t) { mara::config_parameter_map_t m; m["i"] = j; m["d"] = e; m["s"] = t; return CFG.update(m); }
C upd_wt(ARGS, double e) { mara::config_parameter_map_t m; m["i"] = e; return CFG.update(m); }
C upd_seq(ARGS, int j, str t) { mara::config_parameter_map_t m; m["i"] = j; mara::config_string_map_t n; n["s"] = t; return CFG.update(m).update(n); }
C upd_win(ARGS, str t, str u) { mara::config_parameter_map_t m; m["s"] = t; mara::config_string_map_t n; n["s"] = u; return CFG.update(m).update(n); }
C updc(ARGS, str t) { const auto c = CFG; mara::config_string_map_t n; n["s"] = t; return c.update(n); }
C updc2(ARGS, int j, str t) { const auto c = CFG.set("i", P(j)); mara::config_string_map_t n; n["s"] = t; return c.update(n); }
C setc2(ARGS, int j, str t) { const auto c = CFG.set("i", P(j)); return c.set("s", P(t)); }
str updc_keeps(ARGS, str t) { const auto c = CFG; mara::config_string_map_t n; n["s"] = t; c.update(n); return c.get_string("s"); }
// command line
mara::config_string_map_t argv1(const char* a) { const char* v[] = {a}; return mara::argv_to_string_map(1, v); }
mara::config_string_map_t argv2(const char* a, const char* b) { const char* v[] = {a, b}; return mara::argv_to_string_map(2, v); }
mara::config_string_map_t argv3(const char* a, const char* b, const char* c) { const char* v[] = {a, b, c}; return mara::argv_to_string_map(3, v); }
}
