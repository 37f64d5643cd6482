from .common import *
LEVEL = "model_checking"

INTS = [("u1", "unsigned char"), ("s1", "signed char"), ("s1", "char"), ("u2", "unsigned short"), ("u2", "char16_t"), ("s2", "short"),
        ("u4", "unsigned"), ("u4", "char32_t"), ("s4", "int"), ("s4", "wchar_t"), ("u8", "unsigned long"), ("u8", "unsigned long long"),
        ("s8", "long"), ("s8", "long long"), ("bool", "bool")]
I128 = [("u16", "unsigned __int128"), ("s16", "__int128")]
FLOATS = [("f4", "float"), ("f8", "double")]
STRS = [("str", "std::string"), ("str", "std::string_view")]
SKA = [("u8", "int*"),
       ("pair_s1_u2", "std::pair<signed char, unsigned short>"), ("pair_bool_f8", "std::pair<bool, double>"), ("pair_str_s4", "std::pair<std::string, int>"),
       ("pair_f8_s4", "std::pair<double, int>"), ("vec_pair_f4_u2", "std::vector<std::pair<float, unsigned short>>"),
       ("pair_s4_str", "std::pair<int, std::string>"), ("pair_str_str", "std::pair<std::string, std::string>"),
       ("tup_s1_str_f4", "std::tuple<signed char, std::string, float>"), ("tup_bool_bool_s8", "std::tuple<bool, bool, long>"),
       ("tup_s4_s4_s4", "std::tuple<int, int, int>"), ("tup_s4_s4_s4", "std::array<int, 3>"),
       ("tup_u2_pair_bool", "std::tuple<unsigned short, std::pair<char, unsigned short>, bool>"),
       ("tup_vec_s4_str", "std::tuple<std::vector<signed char>, int, std::string>"),
       ("vec_s1", "std::vector<signed char>"), ("vec_s1", "std::vector<char>"), ("vec_s1", "std::deque<signed char>"),
       ("vec_u2", "std::vector<unsigned short>"), ("vec_u2", "std::u16string"), ("vec_s4", "std::vector<int>"), ("vec_s4", "std::wstring"),
       ("vec_f8", "std::vector<double>"), ("vec_bool", "std::deque<bool>"), ("vec_str", "std::vector<std::string>"),
       ("vec_pair_s1_u2", "std::vector<std::pair<signed char, unsigned short>>"), ("vec_vec_s4", "std::vector<std::vector<int>>"),
       ("vec_tup", "std::vector<std::tuple<bool, std::string>>"),
       ("pair_vec_s1_str", "std::pair<std::vector<char>, std::string>")]
UB = ("-fsanitize=signed-integer-overflow,shift,float-cast-overflow", "-fno-sanitize-recover=all")

def run(c):
    m = c.bg(c.model, "MC_Keys")
    plan = "keysdeep" if c.thorough else "keys"
    vec = c.bg(c.gen, "GenSort", plan, 8)
    huge = c.bg(c.gen, "GenSort", "keyshuge", 4)
    pools = c.bg(c.gen, "GenKeys", "thorough" if c.thorough else "quick", 8)
    us, k = [], 0
    def add(kind, tname, cpp, lines):
        us.append(("c16_%d.cpp" % len(us), unit("c16.h", *["using T = %s;" % cpp] + lines)))
    for t, cpp in INTS + I128 + FLOATS + STRS + SKA:
        lines = ['vp::radix<vp::cs::ska_sorter, T>("ska", "%s", "%s");' % (t, cpp)]
        if (t, cpp) in INTS + FLOATS + STRS:
            lines.append('vp::radix<vp::cs::spread_sorter, T>("spread", "%s", "%s");' % (t, cpp))
            sub = "integer" if (t, cpp) in INTS else "float" if (t, cpp) in FLOATS else "string"
            if cpp in ("int", "unsigned long", "char", "double", "std::string"):
                lines.append('vp::radix<vp::cs::%s_spread_sorter, T>("%s_spread", "%s", "%s");' % (sub, sub, t, cpp))
        if (t, cpp) in STRS:
            lines.append('vp::radix_desc<vp::cs::string_spread_sorter, T>("string_spread", "%s", "%s");' % (t, cpp))
            lines.append('vp::radix_desc<vp::cs::spread_sorter, T>("spread", "%s", "%s");' % (t, cpp))
        if (t, cpp) in INTS + I128:
            lines.append('vp::counting<T>("%s", "%s");' % (t, cpp))
        add(None, t, cpp, lines)
    exe = c.bg(c.cxx, "c16", ["vp_main.cpp"] + us, UB)
    us20 = []
    for t, cpp in [x for x in INTS if x[1] not in ("bool", "unsigned long long", "long long")] + [("u1", "char8_t")] + FLOATS + STRS:
        lines = ['vp::radix20<vp::cs::ska_sorter, T>("ska", "%s", "%s");' % (t, cpp), 'vp::radix20<vp::cs::spread_sorter, T>("spread", "%s", "%s");' % (t, cpp)]
        if (t, cpp) in STRS:
            lines += ['vp::radix_desc20<vp::cs::%s, T>("%s", "%s", "%s");' % (k, k, t, cpp) for k in ("spread_sorter", "string_spread_sorter")]
        elif (t, cpp) not in FLOATS:
            lines.append('vp::counting20<T>("%s", "%s");' % (t, cpp))
        us20.append(("c16x_%d.cpp" % len(us20), unit("c16.h", *["using T = %s;" % cpp] + lines)))
    exe20 = c.bg(c.cxx, "c16cxx20", ["vp_main.cpp"] + us20, UB + ("-std=c++20", "-DVP_CXX20"))
    vec, huge, pools, exe = wait(vec, huge, pools, exe)
    c.replay(exe, vec + huge, only=c.only, env={"VP_POOLS": ":".join(pools)})
    c.replay(wait(exe20)[0], vec, name="c20", only=c.only, env={"VP_POOLS": ":".join(pools)})
    wait(m)
