#include "c11lib.h"
#include <algorithm>
namespace vp {
std::vector<int> ranks(const Vec& v) {
    std::vector<int> u = v.keys; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
    std::vector<int> r; for (int k : v.keys) r.push_back(int(std::lower_bound(u.begin(), u.end(), k) - u.begin()));
    return r;
}
J parse_json(const char*& p);
Forms forms;
void Forms::load() {
    loaded = true;
    FILE* f = fopen(getenv("VP_FORMS") ? getenv("VP_FORMS") : "", "r"); if (!f) { fprintf(stderr, "no forms\n"); exit(3); }
    std::string line; int ch; while ((ch = fgetc(f)) != EOF && ch != '\n') line += char(ch);
    fclose(f);
    const char* p = line.c_str(); J j = parse_json(p);
    if (j[0].s != "forms") { fprintf(stderr, "no forms\n"); exit(3); }
    for (auto& e : j[2].a) { bool r = e[0].s == "range"; int c = mode(e[1].s), q = mode(e[2].s); order[r][c][q] = e[3].s == "fn"; view[r][c][q] = e[4].s == "fn"; }
}
std::string form_name(bool range, int cm, int pm, int cs, int ps, const char* how) {
    std::string s = range ? "(range" : "(iterators";
    if (cm) s += std::string(", comparison: ") + (cm == LESS ? "std::less<>" : cmp_names[cs]);
    if (pm) s += std::string(", projection: ") + (pm == IDENT ? "identity" : prj_names[ps]);
    return s + ")" + how;
}
}
