// C21 Writers own their configuration; overrides replace exactly what they name
#include "../hist.hpp"
using namespace hist;

namespace
{
// everything a configuration says
std::string show(const copc::las::LasHeader &h)
{
    std::ostringstream s;
    s.precision(17);
    s << h.GUID() << '|' << h.SystemIdentifier() << '|' << h.GeneratingSoftware() << '|' << h.file_source_id << ' ' << h.global_encoding << ' '
      << h.creation_day << ' ' << h.creation_year << " f" << int(h.PointFormatId()) << " r" << h.PointRecordLength() << " s" << h.Scale()
      << " o" << h.Offset() << ' ' << bitsOf(h.Scale().x) << ' ' << bitsOf(h.Offset().x);
    for (auto *v : {&h.min, &h.max})
        s << ' ' << bitsOf(v->x) << ' ' << bitsOf(v->y) << ' ' << bitsOf(v->z);
    for (auto r : h.points_by_return)
        s << ' ' << r;
    return s.str();
}
std::string show(const copc::las::EbVlr &e)
{
    std::ostringstream s;
    for (auto &i : e.items)
    {
        s << '[' << int(i.data_type) << ',' << int(i.options) << ',' << i.name << ',' << i.description;
        for (int k = 0; k < 3; k++)
            s << ',' << bitsOf(i.minval[k]) << ',' << bitsOf(i.scale[k]);
        s << ']';
    }
    return s.str();
}
std::string show(const copc::las::LazConfig &c) { return show(c.LasHeader()) + "\n" + c.Wkt() + "\n" + show(c.ExtraBytesVlr()); }
std::string show(const copc::CopcConfigWriter &c)
{
    std::ostringstream s;
    s << show(static_cast<const copc::las::LazConfig &>(c)) << '\n';
    const auto i = c.CopcInfo();
    s << bitsOf(i.center_x) << ' ' << bitsOf(i.center_y) << ' ' << bitsOf(i.center_z) << ' ' << bitsOf(i.halfsize) << ' ' << bitsOf(i.spacing) << '\n';
    const auto e = c.CopcExtents();
    s << int(e.PointFormatId()) << ' ' << e.HasExtendedStats();
    for (auto &x : e.Extents())
        s << ' ' << bitsOf(x.minimum) << ' ' << bitsOf(x.maximum) << ' ' << bitsOf(x.mean) << ' ' << bitsOf(x.var);
    return s.str();
}
Cfg otherMeta(Gen &g, const Cfg &c)
{
    Cfg d = c;
    d.guid = guidText(g);
    d.software = g.text(32);
    d.sysId = g.text(32);
    d.fileSource = static_cast<uint16_t>(g.uintN(16));
    d.day = static_cast<uint16_t>(g.uintN(16));
    bounds(g, d);
    for (auto &r : d.returns)
        r = g.uintN(64);
    d.info.cx = g.niceReal();
    d.info.halfsize = g.niceReal();
    d.info.spacing = g.niceReal();
    for (auto &e : d.extents)
    {
        double a = g.niceReal(), b = g.niceReal();
        e = Ext{std::min(a, b), std::max(a, b), g.niceReal(), std::fabs(g.niceReal())};
    }
    return d;
}
struct Over
{
    std::optional<int8_t> fmt;
    std::optional<copc::Vector3> scale, offset;
    std::optional<std::string> wkt;
    std::optional<copc::las::EbVlr> eb;
    std::optional<bool> ext;
    std::string str;
};
// draws overrides and what they make of the configuration
Over overrides(Gen &g, const Cfg &c, Cfg &want)
{
    Over o;
    want = c;
    Cfg n = cfg(g, 0);
    const bool newScale = g.below(3) == 2, newOffset = g.below(3) == 2;
    // any combination must keep raw -> double -> raw exact
    for (int i = 0; i < 3; i++)
    {
        if (newScale && !newOffset && std::fabs(c.q.offset[i]) >= n.q.scale[i] * 17592186044416.0)
            n.q.scale[i] = c.q.scale[i] * 3;
        if (newOffset && !newScale && std::fabs(n.q.offset[i]) >= c.q.scale[i] * 17592186044416.0)
            n.q.offset[i] = c.q.scale[i] * 1e6;
    }
    if (g.below(3) == 2)
    {
        o.fmt = static_cast<int8_t>(n.fmt);
        want.fmt = n.fmt;
        o.str += " format " + std::to_string(n.fmt);
    }
    if (newScale)
    {
        o.scale = n.q.s();
        o.str += " scale";
        for (int i = 0; i < 3; i++)
            want.q.scale[i] = n.q.scale[i];
    }
    if (newOffset)
    {
        o.offset = n.q.o();
        o.str += " offset";
        for (int i = 0; i < 3; i++)
            want.q.offset[i] = n.q.offset[i];
    }
    if (g.below(3) == 2)
    {
        o.wkt = n.wkt;
        want.wkt = n.wkt;
        o.str += " wkt(" + std::to_string(n.wkt.size()) + ")";
    }
    if (g.below(3) == 2)
    {
        auto eb = n.eb;
        if (g.flag()) // the same number of items
            while (eb.size() != c.eb.size())
                if (eb.size() > c.eb.size())
                    eb.pop_back();
                else
                    eb.push_back(ebField(g, static_cast<int>(eb.size()), false));
        o.eb = toCopc(eb);
        want.eb = eb;
        o.str += " extra bytes(" + std::to_string(eb.size()) + ")";
    }
    if (g.below(3) == 2)
    {
        o.ext = g.flag();
        want.extended = *o.ext;
        o.str += *o.ext ? " extended" : " not extended";
    }
    // the extents follow: dimensions both have keep theirs, new ones have the default
    const size_t base = spec::baseDims(want.fmt), was = spec::baseDims(c.fmt);
    std::vector<Ext> e(base + want.eb.size());
    for (size_t i = 0; i < std::min(base, was); i++)
        e[i] = c.extents[i];
    if (want.eb.size() == c.eb.size())
        for (size_t i = 0; i < want.eb.size(); i++)
            e[base + i] = c.extents[was + i];
    want.extents = e;
    return o;
}
void checkFile(const Bytes &b, const Cfg &c, const std::vector<Rec> &recs, const std::string &what)
{
    auto p = spec::parse(b);
    const auto &h = p.h;
    CHECK_EQ(h.format(), c.fmt, what << "point format");
    CHECK_EQ(int(h.recordLength), c.recordLength(), what << "record length");
    CHECK_EQ(spec::trimPadding(h.guid), c.guid, what << "GUID");
    CHECK_EQ(spec::trimNul(h.systemId), c.sysId, what << "system identifier");
    CHECK_EQ(spec::trimNul(h.software), c.software, what << "generating software");
    CHECK_EQ(h.fileSource, c.fileSource, what << "file source id");
    CHECK_EQ(h.globalEncoding, uint16_t(c.globalEncoding | 0x10), what << "global encoding");
    CHECK_EQ(h.day, c.day, what << "day");
    CHECK_EQ(h.year, c.year, what << "year");
    for (int i = 0; i < 3; i++)
    {
        CHECK(sameBits(h.scale[i], c.q.scale[i]), what << "scale " << i << " is " << h.scale[i]);
        CHECK(sameBits(h.offset[i], c.q.offset[i]), what << "offset " << i << " is " << h.offset[i]);
        CHECK(sameBits(h.min[i], c.min[i]) && sameBits(h.max[i], c.max[i]), what << "bounds");
    }
    for (int i = 0; i < 15; i++)
        CHECK_EQ(h.returns[i], c.returns[i], what << "points of return " << i);
    auto *w = p.find("LASF_Projection", 2112);
    CHECK((w != nullptr) == !c.wkt.empty() && (!w || text(w->data) == c.wkt), what << "WKT");
    auto *e = p.find("LASF_Spec", 4);
    CHECK((e != nullptr) == !c.eb.empty(), what << "extra-byte record");
    if (e)
        checkBytes(e->data, spec::encode(c.eb), what + "extra-byte record");
    if (p.find("copc", 1))
    {
        auto i = infoOf(p);
        CHECK(sameBits(i.cx, c.info.cx) && sameBits(i.cy, c.info.cy) && sameBits(i.cz, c.info.cz) && sameBits(i.halfsize, c.info.halfsize) &&
                  sameBits(i.spacing, c.info.spacing),
              what << "COPC info");
        Bytes we, wx;
        for (auto &x : c.extents)
        {
            spec::dbl(we, x.min);
            spec::dbl(we, x.max);
            spec::dbl(wx, x.mean);
            spec::dbl(wx, x.var);
        }
        auto *x = p.find("copc", 10000);
        CHECK(x, what << "no extents");
        checkBytes(x->data, we, what + "extents");
        auto *y = p.find("rock_robotic", 10001);
        CHECK((y != nullptr) == c.extended, what << "extended statistics record");
        if (y)
            checkBytes(y->data, wx, what + "extended statistics");
    }
    CHECK_EQ(h.count, uint64_t(recs.size()), what << "points");
    if (recs.empty())
        return;
    CHECK_EQ(p.chunks.size(), size_t(1), what << "chunks");
    checkBytes(spec::decompress(b, h.pointOffset + 8, static_cast<size_t>(p.chunks[0].offset), c.fmt, c.ebBytes(), recs.size()),
               spec::encode(recs, c.fmt), what + "points");
}

void overriding(Gen &g)
{
    Cfg c = cfg(g, 1);
    auto source = writerConfig(c);
    // the source may itself have been read from a file
    std::stringstream first;
    std::unique_ptr<copc::Reader> reader;
    const bool fromFile = g.below(3) == 2;
    if (fromFile)
    {
        {
            copc::Writer w(first, source);
        }
        reader = std::make_unique<copc::Reader>(&first);
        if (!c.extended)
            for (auto &e : c.extents)
                e.mean = 0, e.var = 1;
        c.globalEncoding |= 0x10;
    }
    const copc::CopcConfigWriter src = fromFile ? copc::CopcConfigWriter(reader->CopcConfig()) : copc::CopcConfigWriter(source);
    const std::string before = show(src);
    Cfg want;
    Over o = overrides(g, c, want);
    const bool viaFile = g.below(8) == 7;
    g.note(std::string(fromFile ? "from a file; " : "") + "overrides:" + (o.str.empty() ? " none" : o.str) + "; " + c.str());
    if (!o.str.empty())
        g.nontrivial();
    auto v = recs(g, want.fmt, want.ebBytes(), 0, 4);
    std::stringstream out, out2;
    const std::string path = tmpFile("c21");
    const bool otherToo = g.flag();
    const Cfg changed = otherMeta(g, want);
    const bool change = g.flag();
    {
        std::unique_ptr<copc::Writer> w;
        if (viaFile)
            w.reset(new copc::FileWriter(path, src, o.fmt, o.scale, o.offset, o.wkt, o.eb, o.ext));
        else
            w = std::make_unique<copc::Writer>(out, src, o.fmt, o.scale, o.offset, o.wkt, o.eb, o.ext);
        std::unique_ptr<copc::Writer> w2;
        if (otherToo)
            w2 = std::make_unique<copc::Writer>(out2, src);
        CHECK_EQ(int(w->CopcConfig()->LasHeader()->PointFormatId()), want.fmt, "format of the writer's configuration");
        CHECK_EQ(int(w->CopcConfig()->LasHeader()->PointRecordLength()), want.recordLength(), "record length of the writer's configuration");
        CHECK_EQ(w->CopcConfig()->CopcExtents()->NumberOfExtents(), want.extents.size(), "extents of the writer's configuration");
        if (change)
        {
            apply(changed, *w->CopcConfig());
            if (w2)
                CHECK_EQ(show(*w2->CopcConfig()), before, "the configuration of another writer");
        }
        CHECK_EQ(show(src), before, "the source configuration");
        if (!v.empty())
            w->AddNode(vk(Key{0, 0, 0, 0}), points(v, want.q, want.fmt, want.ebBytes()));
        w->Close();
        CHECK_EQ(show(src), before, "the source configuration after writing");
    }
    if (change)
        want = changed;
    checkFile(viaFile ? ubytes(slurp(path)) : ubytes(out.str()), want, v, "");
    if (otherToo)
        checkFile(ubytes(out2.str()), c, {}, "other writer: ");
    unlink(path.c_str());
}
// One configuration, several owners: each sees only its own changes
void owners(Gen &g)
{
    const Cfg c = cfg(g, 1);
    auto source = std::make_unique<copc::CopcConfigWriter>(writerConfig(c));
    struct Owner
    {
        std::stringstream out;
        std::unique_ptr<copc::Writer> w;
        std::unique_ptr<copc::CopcConfigWriter> copy;
        Cfg c;
        copc::CopcConfigWriter &config() { return w ? *w->CopcConfig() : *copy; }
    };
    std::vector<std::unique_ptr<Owner>> owners;
    Cfg srcNow = c;
    const size_t n = 2 + g.below(3);
    for (size_t i = 0; i < n; i++)
    {
        auto o = std::make_unique<Owner>();
        switch (g.below(5))
        {
        case 0:
            o->w = std::make_unique<copc::Writer>(o->out, *source);
            break;
        case 4: // assigned
            o->copy = std::make_unique<copc::CopcConfigWriter>(static_cast<int8_t>(6 + g.below(3)));
            *o->copy = *source;
            g.label("assigned");
            break;
        case 1:
            o->w = std::make_unique<copc::Writer>(o->out, *source, static_cast<int8_t>(c.fmt));
            break;
        case 2:
            o->copy = std::make_unique<copc::CopcConfigWriter>(*source);
            break;
        default:
            o->copy = std::make_unique<copc::CopcConfigWriter>(source->LasHeader() ? static_cast<const copc::CopcConfigWriter &>(*source).LasHeader() : copc::las::LasHeader(),
                                                               static_cast<const copc::CopcConfigWriter &>(*source).CopcInfo(),
                                                               static_cast<const copc::CopcConfigWriter &>(*source).CopcExtents(), source->Wkt(),
                                                               source->ExtraBytesVlr());
        }
        o->c = srcNow;
        owners.push_back(std::move(o));
        if (g.flag())
        {
            srcNow = otherMeta(g, c);
            apply(srcNow, *source);
        }
    }
    g.nontrivial();
    g.note(std::to_string(n) + " owners of one COPC configuration");
    // a reader's kind of configuration, made from that of a writer
    const copc::CopcConfig plain(*source);
    const std::string plainWas = show(copc::CopcConfigWriter(plain));
    // and LAZ configurations made from COPC ones
    const copc::las::LazConfig laz(plain), direct(*source);
    const copc::las::LazConfigWriter lazWriter(*source);
    const std::string lazWas = show(static_cast<const copc::las::LazConfig &>(plain));
    for (auto *l : {&laz, &direct, static_cast<const copc::las::LazConfig *>(&lazWriter)})
        CHECK_EQ(show(*l), lazWas, "a LAZ configuration made from a COPC one");
    CHECK(!lazWriter.LasHeader().IsCopc(), "a LAZ writer's configuration is marked as COPC");
    if (g.flag())
    {
        srcNow = otherMeta(g, c);
        apply(srcNow, *source);
        CHECK_EQ(show(copc::CopcConfigWriter(plain)), plainWas, "a plain copy of a writer's configuration");
        for (auto *l : {&laz, &direct, static_cast<const copc::las::LazConfig *>(&lazWriter)})
            CHECK_EQ(show(*l), lazWas, "a LAZ configuration made from a COPC one, after a change of the latter");
    }
    for (size_t k = g.below(5); k > 0; k--)
    {
        auto &o = *owners[g.below(n)];
        o.c = otherMeta(g, c);
        apply(o.c, o.config());
    }
    auto want = [&](const Cfg &x) { return show(writerConfig(x)); };
    CHECK_EQ(show(*source), want(srcNow), "the source configuration");
    if (g.flag())
        source.reset(); // the owners do not need it any more
    for (auto &o : owners)
        CHECK_EQ(show(o->config()), want(o->c), "an owner's configuration");
    for (size_t i = 0; i < n; i++)
        if (owners[i]->w)
        {
            auto v = recs(g, c.fmt, c.ebBytes(), 0, 3);
            if (!v.empty())
                owners[i]->w->AddNode(vk(Key{0, 0, 0, 0}), points(v, c.q, c.fmt, c.ebBytes()));
            owners[i]->w->Close();
            checkFile(ubytes(owners[i]->out.str()), owners[i]->c, v, "an owner's file: ");
        }
}
void lazOwners(Gen &g)
{
    const Cfg c = cfg(g, 1);
    auto source = std::make_unique<copc::las::LazConfigWriter>(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
    applyHeader(c, *source->LasHeader());
    struct Owner
    {
        std::stringstream out;
        std::unique_ptr<copc::laz::LazWriter> w;
        std::unique_ptr<copc::las::LazConfigWriter> copy;
        Cfg c;
        copc::las::LazConfigWriter &config() { return w ? *w->LazConfig() : *copy; }
    };
    std::vector<std::unique_ptr<Owner>> owners;
    Cfg srcNow = c;
    const size_t n = 2 + g.below(3);
    for (size_t i = 0; i < n; i++)
    {
        auto o = std::make_unique<Owner>();
        switch (g.below(5))
        {
        case 4: // assigned
            o->copy = std::make_unique<copc::las::LazConfigWriter>(static_cast<int8_t>(6 + g.below(3)));
            *o->copy = *source;
            g.label("assigned");
            break;
        case 0:
        case 1:
            o->w = std::make_unique<copc::laz::LazWriter>(o->out, *source);
            break;
        case 2:
            o->copy = std::make_unique<copc::las::LazConfigWriter>(*source);
            break;
        default: // from the plain configuration
            o->copy = std::make_unique<copc::las::LazConfigWriter>(static_cast<const copc::las::LazConfig &>(*source));
        }
        o->c = srcNow;
        owners.push_back(std::move(o));
        if (g.flag())
        {
            srcNow = otherMeta(g, c);
            applyHeader(srcNow, *source->LasHeader());
        }
    }
    g.nontrivial();
    g.note(std::to_string(n) + " owners of one LAZ configuration");
    for (size_t k = g.below(5); k > 0; k--)
    {
        auto &o = *owners[g.below(n)];
        o.c = otherMeta(g, c);
        applyHeader(o.c, *o.config().LasHeader());
    }
    auto want = [&](const Cfg &x)
    {
        copc::las::LazConfigWriter w(static_cast<int8_t>(x.fmt), x.q.s(), x.q.o(), x.wkt, toCopc(x.eb));
        applyHeader(x, *w.LasHeader());
        return show(w);
    };
    CHECK_EQ(show(*source), want(srcNow), "the source configuration");
    if (g.flag())
        source.reset();
    for (auto &o : owners)
        CHECK_EQ(show(o->config()), want(o->c), "an owner's configuration");
    for (size_t i = 0; i < n; i++)
        if (owners[i]->w)
        {
            auto v = recs(g, c.fmt, c.ebBytes(), 0, 3);
            owners[i]->w->WritePoints(points(v, c.q, c.fmt, c.ebBytes()));
            owners[i]->w->Close();
            checkFile(ubytes(owners[i]->out.str()), owners[i]->c, v, "an owner's file: ");
        }
}
// What is not named when a configuration is made has its documented default
void defaults(Gen &g)
{
    Cfg c;
    c.fmt = static_cast<int>(6 + g.below(3));
    const auto fmt = static_cast<int8_t>(c.fmt);
    const size_t named = g.below(6);
    const bool laz = g.flag();
    Cfg full = cfg(g, 1);
    const auto eb = toCopc(full.eb);
    g.note(std::string(laz ? "LAZ" : "COPC") + " configuration of format " + std::to_string(c.fmt) + " with " + std::to_string(named) + " arguments more");
    g.nontrivial();
    std::unique_ptr<copc::las::LazConfig> made;
    bool extended = false;
    size_t dims = 0;
    if (laz)
    {
        using W = copc::las::LazConfigWriter;
        switch (named)
        {
        case 0:
            made = std::make_unique<W>(fmt);
            break;
        case 1:
            made = std::make_unique<W>(fmt, full.q.s());
            break;
        case 2:
            made = std::make_unique<W>(fmt, full.q.s(), full.q.o());
            break;
        case 3:
            made = std::make_unique<W>(fmt, full.q.s(), full.q.o(), full.wkt);
            break;
        default:
            made = std::make_unique<W>(fmt, full.q.s(), full.q.o(), full.wkt, eb);
        }
    }
    else
    {
        using W = copc::CopcConfigWriter;
        std::unique_ptr<W> w;
        switch (named)
        {
        case 0:
            w = std::make_unique<W>(fmt);
            break;
        case 1:
            w = std::make_unique<W>(fmt, full.q.s());
            break;
        case 2:
            w = std::make_unique<W>(fmt, full.q.s(), full.q.o());
            break;
        case 3:
            w = std::make_unique<W>(fmt, full.q.s(), full.q.o(), full.wkt);
            break;
        case 4:
            w = std::make_unique<W>(fmt, full.q.s(), full.q.o(), full.wkt, eb);
            break;
        default:
            extended = g.flag();
            w = std::make_unique<W>(fmt, full.q.s(), full.q.o(), full.wkt, eb, extended);
        }
        CHECK_EQ(w->CopcExtents()->HasExtendedStats(), extended, "extended statistics");
        dims = w->CopcExtents()->NumberOfExtents();
        CHECK(w->LasHeader()->IsCopc(), "the header is not marked as COPC");
        for (auto &e : w->CopcExtents()->Extents())
            CHECK(e->minimum == 0 && e->maximum == 0 && e->mean == 0 && e->var == 1, "an extent is not the default one");
        made = std::make_unique<copc::las::LazConfig>(*w);
    }
    const size_t items = named >= 4 ? full.eb.size() : 0;
    const int bytes = named >= 4 ? full.ebBytes() : 0;
    const auto h = made->LasHeader();
    CHECK_EQ(int(h.PointFormatId()), c.fmt, "format");
    CHECK_EQ(int(h.PointRecordLength()), spec::baseSize(c.fmt) + bytes, "record length");
    CHECK(h.Scale() == (named >= 1 ? full.q.s() : copc::Vector3::DefaultScale()), "scale " << h.Scale());
    CHECK(h.Offset() == (named >= 2 ? full.q.o() : copc::Vector3::DefaultOffset()), "offset " << h.Offset());
    CHECK_EQ(made->Wkt(), named >= 3 ? full.wkt : std::string(), "WKT");
    CHECK_EQ(made->ExtraBytesVlr().items.size(), items, "extra-byte items");
    CHECK_EQ(h.PointCount(), uint64_t(0), "points");
    CHECK(h.GUID().empty() || h.GUID() == std::string(16, 0), "GUID");
    if (!laz)
        CHECK_EQ(dims, size_t(spec::baseDims(c.fmt)) + items, "extents");
    // a writer that is told nothing else writes just that
    std::stringstream out;
    if (laz)
    {
        copc::laz::LazWriter w(out, copc::las::LazConfigWriter(*made));
    }
    else
    {
        copc::Writer w(out, named ? copc::CopcConfigWriter(fmt, full.q.s()) : copc::CopcConfigWriter(fmt));
    }
    auto p = spec::parse(ubytes(out.str()));
    CHECK_EQ(int(p.h.recordLength), spec::baseSize(c.fmt) + (laz ? bytes : 0), "record length in the file");
    CHECK_EQ(p.countOf("LASF_Spec", 4), size_t(laz && items), "extra-byte records");
    CHECK_EQ(p.countOf("rock_robotic", 10001), size_t(0), "extended statistics");
}
// What a reader hands out is not changed by writers made from it
void fromReader(Gen &g)
{
    const Cfg c = cfg(g, 1);
    std::stringstream file;
    {
        copc::Writer w(file, writerConfig(c));
    }
    copc::Reader r(&file);
    const auto snapshot = [&] { return show(copc::CopcConfigWriter(r.CopcConfig())); };
    const std::string before = snapshot();
    auto held = r.CopcConfig();
    g.note("writers made from a reader's configuration");
    g.nontrivial();
    for (int i = 0; i < 2; i++)
    {
        std::stringstream out;
        const Cfg d = otherMeta(g, c);
        if (g.flag())
        {
            copc::Writer w(out, r.CopcConfig());
            apply(d, *w.CopcConfig());
        }
        else if (g.flag())
        {
            const copc::las::LazConfig plain(r.CopcConfig());
            copc::laz::LazWriter w(out, copc::las::LazConfigWriter(plain));
            applyHeader(d, *w.LazConfig()->LasHeader());
            CHECK_EQ(show(plain), show(static_cast<const copc::las::LazConfig &>(held)), "a LAZ configuration made from the reader's");
        }
        else
        {
            copc::laz::LazWriter w(out, copc::las::LazConfigWriter(r.CopcConfig()));
            applyHeader(d, *w.LazConfig()->LasHeader());
        }
        if (g.flag())
        {
            copc::CopcConfigWriter w(held);
            apply(d, w);
        }
        CHECK_EQ(snapshot(), before, "the reader's configuration");
        CHECK_EQ(show(copc::CopcConfigWriter(held)), before, "a configuration taken from the reader");
        // what the getters hand out are copies
        auto h = r.CopcConfig().LasHeader();
        applyHeader(d, h);
        auto x = r.CopcConfig().CopcExtents();
        x.Intensity()->minimum -= 1;
        x.GpsTime()->mean += 5;
        auto eb = r.CopcConfig().ExtraBytesVlr();
        eb.items.clear();
        auto info = r.CopcConfig().CopcInfo();
        info.spacing += 3;
        CHECK_EQ(snapshot(), before, "the reader's configuration after changing what its getters returned");
    }
}
} // namespace

pbt::Property pbt::property()
{
    return {"C21",
            "at least one override, or several owners of one configuration",
            {{"overriding", 5, overriding}, {"owners", 2, owners}, {"LAZ owners", 2, lazOwners}, {"from reader", 1, fromReader}, {"defaults", 1, defaults}},
            30000,
            800000};
}
