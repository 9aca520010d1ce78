// C15 Octree key algebra
#include "../gen.hpp"
using namespace gen;
using copc::VoxelKey;

// valid keys: also ones outside the canonical cube of their depth
static Key anyKey(Gen &g, int maxDepth)
{
    if (g.below(6) != 5)
        return key(g, maxDepth);
    auto c = [&] { return static_cast<int32_t>(g.below(int64_t(1) << g.range(0, 30))); };
    return Key{static_cast<int32_t>(g.range(0, g.below(4) == 3 ? 400 : maxDepth)), c(), c(), c()};
}
static Key par(const Key &k) { return Key{k.d - 1, k.x >> 1, k.y >> 1, k.z >> 1}; }
static Key at(const Key &k, int depth)
{
    Key r = k;
    while (r.d > depth)
        r = par(r);
    return r;
}
static bool isAncestorOrSelf(const Key &a, const Key &k) { return a.d >= 0 && a.d <= k.d && at(k, a.d) == a; }
static std::string str(const Key &k)
{
    return "(" + std::to_string(k.d) + ", " + std::to_string(k.x) + ", " + std::to_string(k.y) + ", " + std::to_string(k.z) + ")";
}
static bool is(const VoxelKey &a, const Key &b) { return a.d == b.d && a.x == b.x && a.y == b.y && a.z == b.z; }

static void family(Gen &g)
{
    Key k = anyKey(g, 31);
    VoxelKey v = vk(k);
    g.note(k.s());
    if (k.d >= 2)
        g.nontrivial();
    if (k.d > 12)
        g.label("deep key");
    CHECK(v.IsValid(), "valid key " << k.s());
    // downwards
    if (k.x < (1 << 30) && k.y < (1 << 30) && k.z < (1 << 30))
    {
        auto kids = v.GetChildren();
        CHECK_EQ(kids.size(), size_t(8), "number of children of " << k.s());
        std::set<Key> seen;
        for (int dir = 0; dir < 8; dir++)
        {
            Key c = child(k, dir);
            CHECK(is(v.Bisect(dir), c), "Bisect(" << dir << ") of " << k.s() << " is " << v.Bisect(dir) << ", expected " << c.s());
            CHECK(is(kids[dir], c), "child " << dir << " of " << k.s() << " is " << kids[dir]);
            CHECK(is(kids[dir].GetParent(), k), "parent of child " << dir << " of " << k.s() << " is " << kids[dir].GetParent());
            CHECK(kids[dir].ChildOf(v), "child " << dir << " of " << k.s() << " not a child of it");
            CHECK(!v.ChildOf(kids[dir]), k.s() << " is a child of its own child");
            seen.insert(c);
        }
        CHECK_EQ(seen.size(), size_t(8), "children distinct");
        CHECK(is(v, k), "queries changed the key");
    }
    // upwards
    if (k.d == 0)
        CHECK(!v.GetParent().IsValid(), "a depth-0 key has no valid parent");
    else
        CHECK(is(v.GetParent(), par(k)), "parent of " << k.s() << " is " << v.GetParent());
    int depth = static_cast<int>(g.below(k.d + 1));
    CHECK(is(v.GetParentAtDepth(depth), at(k, depth)),
          "ancestor of " << k.s() << " at depth " << depth << " is " << v.GetParentAtDepth(depth) << ", expected " << at(k, depth).s());
    CHECK(is(v.GetParentAtDepth(k.d), k), "ancestor at its own depth");
    CHECK(is(v.GetParentAtDepth(0), at(k, 0)), "ancestor of " << k.s() << " at depth 0 is " << v.GetParentAtDepth(0));
    int bad = g.flag() ? k.d + 1 + static_cast<int>(g.below(40)) : -1 - static_cast<int>(g.below(40));
    CHECK_THROWS(v.GetParentAtDepth(bad), "ancestor of " << k.s() << " at depth " << bad);
    for (bool self : {false, true})
    {
        auto l = v.GetParents(self);
        CHECK_EQ(l.size(), size_t(k.d + (self ? 1 : 0)), "number of ancestors of " << k.s());
        Key e = self ? k : par(k);
        for (auto &p : l)
        {
            CHECK(is(p, e), "ancestor list of " << k.s() << " has " << p << " where " << e.s() << " belongs");
            e = par(e);
        }
    }
    CHECK(v.ChildOf(v), "ChildOf is reflexive");
}
static void relation(Gen &g)
{
    Key a = anyKey(g, 30), b;
    switch (g.below(5))
    {
    case 0:
        b = anyKey(g, 30);
        break;
    case 1: // an ancestor
        b = at(a, static_cast<int>(g.below(a.d + 1)));
        break;
    case 2: // near miss of an ancestor
        b = at(a, static_cast<int>(g.below(a.d + 1)));
        switch (g.below(4))
        {
        case 0:
            b.x ^= 1;
            break;
        case 1:
            b.y ^= 1;
            break;
        case 2:
            b.z ^= 1;
            break;
        default:
            b.d = b.d ? b.d - 1 : 1;
        }
        break;
    case 3: // a permutation of the coordinates
        b = Key{a.d, a.y, a.z, a.x};
        break;
    default:
        b = a;
    }
    g.note(a.s() + " " + b.s());
    bool anc = isAncestorOrSelf(b, a);
    if (a.d > 1)
        g.nontrivial();
    if (anc)
        g.label("ancestor");
    CHECK_EQ(vk(a).ChildOf(vk(b)), anc, a.s() << " child of " << b.s());
    bool eq = a.d == b.d && a.x == b.x && a.y == b.y && a.z == b.z;
    CHECK_EQ(vk(a) == vk(b), eq, a.s() << " == " << b.s());
    CHECK_EQ(vk(a) != vk(b), !eq, a.s() << " != " << b.s());
    CHECK_EQ(vk(a).ToString() == vk(b).ToString(), eq, "texts of " << a.s() << " and " << b.s());
    CHECK_EQ(vk(a).ToString(), str(a), "text");
    std::ostringstream ss;
    ss << vk(b);
    CHECK_EQ(ss.str(), str(b), "stream text");
    VoxelKey fromVec(std::vector<int32_t>{a.d, a.x, a.y, a.z});
    CHECK(is(fromVec, a), "key from a list");
    if (eq)
        CHECK_EQ(std::hash<VoxelKey>()(vk(a)), std::hash<VoxelKey>()(fromVec), "hash of equal keys");
    size_t n = g.below(9);
    if (n != 4)
        CHECK_THROWS(VoxelKey(std::vector<int32_t>(n, 1)), "key from a list of " << n);
}
static void invalid(Gen &g)
{
    Key a = anyKey(g, 30);
    int which = static_cast<int>(g.below(4));
    int32_t bad = static_cast<int32_t>(-1 - static_cast<int64_t>(g.below(int64_t(1) << g.range(0, 31))));
    (which == 0 ? a.d : which == 1 ? a.x : which == 2 ? a.y : a.z) = bad;
    g.note(a.s());
    g.nontrivial();
    CHECK(!vk(a).IsValid(), "invalid key " << a.s());
    CHECK(!vk(a).GetParent().IsValid(), "parent of invalid key " << a.s());
    CHECK(!vk(a).GetParentAtDepth(static_cast<int>(g.below(3))).IsValid(), "ancestor of invalid key " << a.s());
    CHECK_EQ(vk(a).GetParents(g.flag()).size(), size_t(0), "ancestors of invalid key " << a.s());
    CHECK(!vk(a).ChildOf(vk(anyKey(g, 3))), "invalid key is a child");
    CHECK(!vk(anyKey(g, 3)).ChildOf(vk(a)), "a key is a child of an invalid key");
    CHECK(!vk(a).ChildOf(vk(a)), "an invalid key is a child of itself");
    CHECK(!VoxelKey().IsValid() && !VoxelKey::InvalidKey().IsValid(), "default key is invalid");
    CHECK(VoxelKey() == VoxelKey::InvalidKey(), "default key");
    CHECK(is(VoxelKey::RootKey(), Key{0, 0, 0, 0}), "root key");
}
// keys as hash-map keys: the same membership as an ordered set
static void container(Gen &g)
{
    std::unordered_map<VoxelKey, int> m;
    std::map<Key, int> model;
    auto pool = tree(g, 1, 40, 20);
    int n = static_cast<int>(g.size(60));
    for (int i = 0; i < n; i++)
    {
        Key k = pool[g.below(pool.size())];
        if (g.chance(1, 4))
        {
            CHECK_EQ(m.erase(vk(k)), model.erase(k), "erase " << k.s());
        }
        else
        {
            m[vk(k)] = i;
            model[k] = i;
        }
    }
    if (model.size() > 3)
        g.nontrivial();
    g.note(std::to_string(model.size()) + " keys");
    CHECK_EQ(m.size(), model.size(), "map size");
    for (auto &k : pool)
    {
        auto it = m.find(vk(k));
        CHECK_EQ(it != m.end(), model.count(k) == 1, "membership of " << k.s());
        if (it != m.end())
            CHECK_EQ(it->second, model[k], "value of " << k.s());
    }
}
static void resolution(Gen &g)
{
    Key k = anyKey(g, 30);
    copc::CopcInfo info;
    info.spacing = g.below(2) ? g.real(0, 1e6) : std::ldexp(1.0, static_cast<int>(g.range(-10, 20)));
    copc::las::LasHeader h;
    g.nontrivial();
    g.note(k.s() + " spacing " + std::to_string(info.spacing));
    double want = std::ldexp(info.spacing, -k.d), tol = 1e-12 * want;
    CHECK(std::fabs(vk(k).Resolution(h, info) - want) <= tol, "resolution " << vk(k).Resolution(h, info) << " want " << want);
    CHECK(std::fabs(VoxelKey::GetResolutionAtDepth(k.d, h, info) - want) <= tol, "resolution at depth " << k.d);
}
pbt::Property pbt::property()
{
    return {"C15",
            "keys of depth two or more, invalid keys, or a container history leaving more than three keys",
            {{"family", 40, family}, {"relation", 40, relation}, {"invalid", 6, invalid}, {"container", 10, container}, {"resolution", 6, resolution}},
            3600000,
            21600000};
}
