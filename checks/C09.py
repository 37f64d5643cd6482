import itertools
from .C12 import RUNTIME
from .common import *
LEVEL = "model_checking"

def run(c):
    mods = [c.bg(c.model, "MC_Comparators")]
    vec = c.bg(c.gen, "GenComparators", "thorough" if c.thorough else "quick", 3)
    def case(tag, name, body):
        return 'vp::add("%s", [](const vp::Vec& v) -> std::string { if (v.tag != "%s") return "skip"; %s });' % (name, tag, body)
    fp = [case("fp", "fp/" + t, "return vp::fp_all<%s>(v);" % t) for t in ("float", "double", "long double")]
    for t in ("signed char", "char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long",
              "unsigned long long", "wchar_t", "char16_t", "char32_t"):
        fp.append(case("int", "int/" + t, "using T = %s; using L = std::numeric_limits<T>; return vp::int_all<T>(v, vp::ints_of<T>(L::min(), L::max()));" % t))
    fp.append(case("int", "int/__int128", "using T = __int128; T hi = (T)(~(unsigned __int128)0 >> 1); return vp::int_all<T>(v, vp::ints_of<T>(-hi - 1, hi));"))
    fp.append(case("int", "int/unsigned __int128", "using T = unsigned __int128; return vp::int_all<T>(v, vp::ints_of<T>(0, ~T(0)));"))
    fp.append(case("int", "customized total", "std::vector<vp::user::Tot> q; for (int i = 0; i < 9; ++i) q.push_back({i}); return vp::int_all(v, q);"))
    fp.append(case("int", "customized weak", '''std::vector<vp::user::Weak> q; for (int i = 0; i < 9; ++i) q.push_back({i});
        auto r = vp::pairs(q, v.raw[4], cs::weak_less, cs::weak_greater, "weak"); return r.empty() ? vp::pairs(q, v.raw[4], cs::partial_less, cs::partial_greater, "partial") : r;'''))
    S = ["std::string", "std::vector<char>", "std::list<char>", "std::forward_list<char>", "std::deque<char>"]
    st = [case("natural", "natural/%s,%s" % (a, b), 'return vp::ranked<%s, %s>(v, cs::natural_less, "natural_less");' % (a, b))
          for a, b in [(x, x) for x in S] + [(S[0], S[1]), (S[3], S[0])]]
    st.append(case("natural", "natural/bounds", "return vp::in_bounds(v);"))
    st.append(case("natural", "natural/refined, flipped twice", 'return vp::ranked<std::string, std::string>(v, cs::flip(cs::flip(cs::refined<std::string>(cs::natural_less))), "natural_less");'))
    for s in S[:4] + ["std::wstring", "std::vector<wchar_t>"]:
        for nm, e in (("global", "cs::case_insensitive_less"), ("classic", "cs::case_insensitive_less(std::locale::classic())"),
                      ("refined", "cs::refined<%s>(cs::case_insensitive_less)" % s),
                      ("refined classic", "cs::refined<%s>(cs::case_insensitive_less(std::locale::classic()))" % s),
                      ("refined then classic", "cs::refined<%s>(cs::case_insensitive_less)(std::locale::classic())" % s)):
            st.append(case("case", "case/%s/%s" % (s, nm), 'return vp::ranked<%s, %s>(v, %s, "case_insensitive_less");' % (s, s, e)))
    ad = []
    for l in (1, 2, 3):
        for ops in itertools.product((1, 2, 3), repeat=l):
            code = "".join(map(str, ops))
            ad.append(case("adapt", "adapt/" + code, 'return vp::adapt<%s, %s>(v);' % (code, ", ".join(map(str, ops)))))
    exe = c.bg(c.cxx, "c09", ["vp_main.cpp"] + [("c09_%s.cpp" % n, unit("c09.h", *ls)) for n, ls in
               (("fp", fp), ("str", st[:14]), ("str2", st[14:]), ("ad1", ad[:12]), ("ad2", ad[12:24]), ("ad3", ad[24:]))], ["-std=gnu++17"])
    vec, exe = wait(vec, exe)
    r = c.replay(exe, vec, only=c.only)
    if r:
        c.notes["pairs_compared"] = r["counters"][1]
    wait(*mods)
