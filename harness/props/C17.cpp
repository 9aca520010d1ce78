// C17 Vector3: component-wise arithmetic, equality and text
#include "../gen.hpp"
using namespace gen;
using copc::Vector3;

static double num(Gen &g)
{
    switch (g.below(6))
    {
    case 0:
        return static_cast<double>(g.range(-8, 8));
    case 1:
        return g.anyDouble();
    case 2:
        return g.finiteReal();
    case 3:
        return g.pick({0.0, -0.0, 0.1, 1e-300, 1e300, 3.5, -1.5});
    default:
        return g.niceReal();
    }
}
static bool same(double a, double b) { return sameBits(a, b) || (std::isnan(a) && std::isnan(b)); }
static void is(const Vector3 &v, double x, double y, double z, const char *what)
{
    CHECK(same(v.x, x) && same(v.y, y) && same(v.z, z),
          what << ": got (" << v.x << "," << v.y << "," << v.z << "), expected (" << x << "," << y << "," << z << ")");
}
static void arithmetic(Gen &g)
{
    double a[3], b[3], d = num(g);
    for (int i = 0; i < 3; i++)
    {
        a[i] = num(g);
        b[i] = g.below(5) ? num(g) : a[i];
    }
    g.nontrivial();
    Vector3 A(a[0], a[1], a[2]), B(b[0], b[1], b[2]);
    std::ostringstream n;
    n << "(" << a[0] << "," << a[1] << "," << a[2] << ") (" << b[0] << "," << b[1] << "," << b[2] << ") " << d;
    g.note(n.str());
    is(A, a[0], a[1], a[2], "constructor");
    is(A + B, a[0] + b[0], a[1] + b[1], a[2] + b[2], "sum");
    is(A - B, a[0] - b[0], a[1] - b[1], a[2] - b[2], "difference");
    is(A * B, a[0] * b[0], a[1] * b[1], a[2] * b[2], "product");
    is(A / B, a[0] / b[0], a[1] / b[1], a[2] / b[2], "quotient");
    is(A + d, a[0] + d, a[1] + d, a[2] + d, "sum with a number");
    is(A - d, a[0] - d, a[1] - d, a[2] - d, "difference with a number");
    is(A * d, a[0] * d, a[1] * d, a[2] * d, "product with a number");
    is(A / d, a[0] / d, a[1] / d, a[2] / d, "quotient by a number");
    is(A, a[0], a[1], a[2], "operand unchanged");
    is(B, b[0], b[1], b[2], "operand unchanged");
    is(Vector3(std::vector<double>{a[0], a[1], a[2]}), a[0], a[1], a[2], "list constructor");
    is(Vector3(A), a[0], a[1], a[2], "copy");
    is(Vector3(), 0, 0, 0, "default");
    is(Vector3::DefaultScale(), 0.01, 0.01, 0.01, "default scale");
    is(Vector3::DefaultOffset(), 0, 0, 0, "default offset");
    bool eq = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
    if (eq)
        g.label("equal");
    CHECK_EQ(A == B, eq, "==");
    CHECK_EQ(A != B, !eq, "!=");
    // one component differs
    int ax = static_cast<int>(g.below(3));
    double c[3] = {a[0], a[1], a[2]};
    c[ax] = num(g);
    Vector3 C(c[0], c[1], c[2]);
    eq = a[0] == c[0] && a[1] == c[1] && a[2] == c[2];
    CHECK_EQ(A == C, eq, "== after changing component " << ax);
    CHECK_EQ(A != C, !eq, "!= after changing component " << ax);
    size_t k = g.below(7);
    if (k != 3)
        CHECK_THROWS(Vector3(std::vector<double>(k, 1.0)), "a list of " << k);
}
static void textForm(Gen &g)
{
    double a[3];
    for (auto &v : a)
        do
            v = num(g);
        while (!std::isfinite(v));
    g.nontrivial();
    Vector3 A(a[0], a[1], a[2]);
    std::string t = A.ToString();
    g.note(t);
    CHECK(t.size() > 2 && t.front() == '(' && t.back() == ')', "text " << t);
    const char *p = t.c_str() + 1;
    for (int i = 0; i < 3; i++)
    {
        char *e;
        double v = std::strtod(p, &e);
        CHECK(e != p, "no number in " << t);
        CHECK(sameBits(v, a[i]), "component " << i << " read back from " << t << " as " << v << ", was " << a[i]);
        CHECK(i == 2 ? (*e == ')' && !e[1]) : (e[0] == ',' && e[1] == ' '), "separators of " << t);
        p = e + (i == 2 ? 1 : 2);
    }
    std::ostringstream ss;
    ss << A;
    CHECK_EQ(ss.str(), t, "stream form");
    // the text is independent of the stream's own formatting state
    std::ostringstream odd;
    odd << std::fixed;
    odd.precision(2);
    odd << A;
    CHECK_EQ(odd.str(), t, "stream form with other formatting");
}
pbt::Property pbt::property()
{
    return {"C17", "every case (operands drawn from all double shapes)", {{"arithmetic", 60, arithmetic}, {"text", 40, textForm}}, 3450000, 20700000};
}
