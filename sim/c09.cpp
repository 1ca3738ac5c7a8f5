// C09: append-only logs on a simulated disk, crashes and recovery.
#include "world.h"

#include "configs.h"

namespace sim
{
const WorldInfo world_info = {
    "C09",
    "A run is a history of up to 6 lives of a log writer: records are serialized into its buffer (one per record, cumulative, reopened "
    "for appending, or a fixed segment that is rotated when full), written to a simulated disk in any chunks, synced now and then, and "
    "lost by a crash that keeps the synced bytes and any prefix of the rest; recovery decodes records until the first failure, truncates "
    "there and goes on. Non-trivial: a crash cut unsynced bytes; distinct by the recorded choices.",
    "(type, configuration, writer mode, bytes cut into the torn record, records recovered)",
    "zpp::bits::out and zpp::bits::in over the log's buffers", "disk, crashes, heap failures, time"};

struct File
{
    Bytes bytes;
    std::size_t synced = 0;
};
struct Disk
{
    mvec<File> files;
    u64 now = 0;
    std::size_t capacity = 1 << 20;
    std::size_t used() const
    {
        std::size_t n = 0;
        for (auto & f : files) {
            n += f.bytes.size();
        }
        return n;
    }
    // a write may be short or fail with everything before the failure in place
    std::size_t write(Ch & c, std::size_t f, const u8 * p, std::size_t n)
    {
        now += 1 + c.pick(3);
        std::size_t k = n;
        if (n && c.chance(1, 10)) {
            k = c.pick(u32(n));
            fault("short write");
        }
        if (used() + k > capacity) {
            k = capacity > used() ? capacity - used() : 0;
            fault("disk full");
        }
        files[f].bytes.insert(files[f].bytes.end(), p, p + k);
        return k;
    }
    void sync(Ch & c, std::size_t f)
    {
        now += 5 + c.pick(40);
        files[f].synced = files[f].bytes.size();
    }
};

struct Rec
{
    int type;
    Bytes canon;
    std::size_t size; // on disk, with its tag
    std::size_t file;
    std::size_t end; // position in the file
};

struct Log
{
    Ch & c;
    const Cfg & cfg;
    int types[3];
    bool tagged;
    u32 mode;
    Disk disk;
    mvec<Rec> recs; // what was appended and not yet lost
    std::size_t segment = 0;

    // writer state of this life
    std::optional<Own<Buf>> buf;
    std::optional<Own<OutA>> out;
    std::size_t base = 0;    // position of buffer byte 0 in the file
    std::size_t flushed = 0; // buffer bytes that reached the file

    void open(const Bytes & content, std::size_t at)
    {
        out.reset();
        buf.reset();
        if (cfg.flags & C_FIXED) {
            Bytes seg(content);
            seg.resize(std::max(segment, content.size()), 0xee);
            buf.emplace(cfg.make(seg.data(), seg.size()));
            out.emplace((*buf)->out());
            (*out)->set_pos(at);
            base = 0;
            flushed = at;
        } else if (mode == 0) { // the buffer holds one record at a time
            buf.emplace(cfg.make(nullptr, 0));
            out.emplace((*buf)->out());
            base = content.size();
            flushed = 0;
        } else {
            // the recovered content (with the torn bytes still behind it in some lives) continues in place
            buf.emplace(cfg.make(content.data(), content.size()));
            out.emplace((*buf)->out());
            (*out)->set_pos(at);
            base = 0;
            flushed = at;
        }
    }
    std::size_t file()
    {
        return disk.files.size() - 1;
    }
    bool flush(std::size_t upto)
    {
        while (flushed < upto) {
            std::size_t want = upto - flushed;
            if (c.chance(1, 3)) {
                want = 1 + c.pick(u32(want));
            }
            std::size_t k = disk.write(c, file(), (*buf)->data() + flushed, want);
            flushed += k;
            if (!k && disk.used() >= disk.capacity) {
                return false;
            }
            if (k < want && c.chance(1, 2)) {
                return true; // later
            }
        }
        return true;
    }
};

// decode records until the first failure
static std::size_t recover(Log & l, std::size_t f, mvec<Rec> & got, int & why)
{
    auto & bytes = l.disk.files[f].bytes;
    Own<Buf> b(l.cfg.make(bytes.data(), bytes.size()));
    Own<InA> in(b->in());
    std::size_t good = 0;
    why = OK;
    while (good < bytes.size()) {
        int it = l.types[0];
        if (l.tagged) {
            u8 tag = 0xaa;
            Res r = in->read(IT_t_u8, &tag);
            if (!r.ok()) {
                why = r.code;
                break;
            }
            REQ(tag < 3, "invented", "%s: record tag %u at %zu", l.cfg.name, tag, good);
            it = l.types[tag];
        }
        Obj x(it);
        Res r = in->read(it, x.p);
        REQ(r.exc == Res::none, "exception", "%s %s: recovery threw %s", l.cfg.name, item_ops[it].name, exc_name(r.exc));
        REQ(in->pos() <= bytes.size(), "position", "%s: position %zu of %zu", l.cfg.name, in->pos(), bytes.size());
        if (!r.ok()) {
            why = r.code;
            break;
        }
        REQ(in->pos() > good, "stuck", "%s %s: a record of no bytes", l.cfg.name, item_ops[it].name);
        got.push_back({it, x.canon(), in->pos() - good, f, in->pos()});
        good = in->pos();
    }
    return good;
}

void world_run(Ch & c)
{
    const Cfg & cfg = pick_cfg(c);
    Log l{.c = c, .cfg = cfg, .types = {}, .tagged = false, .mode = 0, .disk = {}, .recs = {}, .buf = {}, .out = {}};
    for (auto & t : l.types) {
        t = pick_item(c, cfg);
    }
    l.tagged = cfg.has(IT_t_u8) && c.pick(2);
    l.mode = c.pick(3);
    l.segment = 40 + c.pick(200);
    if (c.chance(1, 6)) {
        l.disk.capacity = 64 + c.pick(512);
    }
    l.disk.files.emplace_back();
    l.open({}, 0);
    const bool fixed = cfg.flags & C_FIXED;
    const bool limited = cfg.flags & C_LIMIT_OUT;
    ev("%s, %s%s %s %s, mode %u", cfg.name, l.tagged ? "tagged " : "", item_ops[l.types[0]].name, l.tagged ? item_ops[l.types[1]].name : "",
       l.tagged ? item_ops[l.types[2]].name : "", l.mode);
    u32 lives = c.range(1, 6);
    for (u32 life = 0; life < lives; ++life) {
        u32 n = c.range(1, 12);
        for (u32 k = 0; k < n; ++k) {
            c.mark();
            u32 op = c.pick(6);
            if (op == 4) {
                l.flush((*l.out)->pos());
            } else if (op == 5) {
                l.flush((*l.out)->pos());
                l.disk.sync(c, l.file());
                ev("sync at %zu", l.disk.files[l.file()].synced);
                probe("sync");
            } else {
                u32 which = l.tagged ? c.pick(3) : 0;
                int it = l.types[which];
                Msg m(c, cfg, it);
                if (!m.ok) {
                    continue;
                }
                if (!fixed && l.mode == 0 && l.flushed == (*l.out)->pos()) {
                    l.base += l.flushed;
                    l.flushed = 0;
                    (*l.out)->reset(0);
                } else if (!fixed && l.mode == 2 && c.pick(2)) { // reopened for appending
                    std::size_t p = (*l.out)->pos();
                    l.out.reset();
                    l.out.emplace((*l.buf)->out());
                    if (!(cfg.flags & C_APPEND) || (*l.buf)->size() != p) {
                        (*l.out)->set_pos(p);
                    }
                }
                Bytes rec;
                if (l.tagged) {
                    rec.push_back(u8(which));
                }
                rec.insert(rec.end(), m.bytes.begin(), m.bytes.end());
                bool stored = false;
                for (int attempt = 0; attempt < 2 && !stored; ++attempt) {
                    std::size_t p = (*l.out)->pos();
                    Res r;
                    u64 failed;
                    {
                        Window w(c.chance(1, 12) ? 1 + c.pick(4) : 0);
                        if (l.tagged) {
                            u8 tag = u8(which);
                            r = (*l.out)->write(IT_t_u8, &tag);
                        }
                        if (r.ok()) {
                            r = (*l.out)->write(it, m.sent.p);
                        }
                        failed = heap.failed;
                    }
                    if (r.ok()) {
                        REQ((*l.out)->pos() == p + rec.size(), "length", "%s %s: wrote %zu bytes instead of %zu", cfg.name,
                            item_ops[it].name, (*l.out)->pos() - p, rec.size());
                        stored = true;
                        break;
                    }
                    (*l.out)->set_pos(p); // abandon the partial record
                    if (failed) {
                        fault("allocation failure while appending");
                        REQ(r.exc == Res::bad_alloc, "append", "%s %s: %s", cfg.name, item_ops[it].name, res_name(r).c_str());
                        continue;
                    }
                    if (fixed) {
                        REQ(r.code == RANGE && p + rec.size() > (*l.buf)->size(), "append", "%s %s: %s though %zu bytes fit in %zu", cfg.name,
                            item_ops[it].name, res_name(r).c_str(), rec.size(), (*l.buf)->size() - p);
                        // rotate: the full segment is made durable first
                        if (!l.flush(p) || l.flushed < p) {
                            break;
                        }
                        l.disk.sync(c, l.file());
                        l.disk.files.emplace_back();
                        l.open({}, 0);
                        probe("segment rotated");
                        if (rec.size() > l.segment) {
                            break;
                        }
                        continue;
                    }
                    REQ(limited && r.code == NOSPACE, "append", "%s %s: %s", cfg.name, item_ops[it].name, res_name(r).c_str());
                    fault("buffer limit met");
                    break;
                }
                if (stored) {
                    std::size_t end = l.base + (*l.out)->pos();
                    l.recs.push_back({it, m.seen.canon(), rec.size(), l.file(), end});
                    ev("append %s: %zu bytes, file %zu ends at %zu", item_ops[it].name, rec.size(), l.file(), end);
                }
                if (c.pick(2)) {
                    l.flush((*l.out)->pos());
                }
            }
        }
        // crash: the buffer is lost, and of each file any prefix that contains the synced bytes survives
        c.mark();
        std::size_t cut = 0;
        for (auto & f : l.disk.files) {
            std::size_t unsynced = f.bytes.size() - f.synced;
            std::size_t keep = f.synced + (unsynced ? c.pick(u32(unsynced + 1)) : 0);
            cut += f.bytes.size() - keep;
            f.bytes.resize(keep);
        }
        if (cut) {
            nontrivial();
            fault("crash cutting the tail");
        } else {
            fault("crash");
        }
        sim_time(l.disk.now);
        l.disk.now = 0;
        // what must be there: records wholly within surviving bytes
        mvec<Rec> want;
        bool lost = false;
        std::size_t n_synced = 0;
        for (auto & r : l.recs) {
            if (!lost && r.end <= l.disk.files[r.file].bytes.size()) {
                want.push_back(r);
            } else {
                lost = true;
            }
            if (r.end <= l.disk.files[r.file].synced) {
                ++n_synced;
            }
        }
        u32 again = c.chance(1, 4) ? 2 : 1; // a crash during recovery repeats it
        mvec<Rec> got;
        std::size_t good = 0;
        for (u32 k = 0; k < again; ++k) {
            got.clear();
            for (std::size_t f = 0; f < l.disk.files.size(); ++f) {
                int why;
                good = recover(l, f, got, why);
                std::size_t left = l.disk.files[f].bytes.size() - good;
                ev("recovery of file %zu: %zu records, good to %zu, %zu torn bytes, %s", f, got.size(), good, left, code_name(why));
                state(hmix(hmix(u64(l.types[0]), u64(cfg.k)), hmix(l.mode * 2 + l.tagged, left * 64 + std::min<std::size_t>(got.size(), 63))));
                if (left) {
                    probe("torn record found");
                    REQ(why == RANGE, "torn-code", "%s %s: %zu bytes of a torn record give %s", cfg.name, item_ops[l.types[0]].name, left,
                        code_name(why));
                }
            }
        }
        REQ(got.size() >= n_synced, "lost", "%s: %zu records were synced, %zu recovered", cfg.name, n_synced, got.size());
        REQ(got.size() <= want.size(), "invented", "%s: %zu records recovered, %zu survived", cfg.name, got.size(), want.size());
        REQ(got.size() == want.size(), "lost", "%s: %zu records recovered, %zu survived", cfg.name, got.size(), want.size());
        for (std::size_t i = 0; i < got.size(); ++i) {
            REQ(got[i].type == want[i].type && got[i].canon == want[i].canon, "record", "%s %s: record %zu is not the one appended", cfg.name,
                item_ops[want[i].type].name, i);
            REQ(got[i].file == want[i].file && got[i].end == want[i].end, "place", "%s %s: record %zu ends at %zu instead of %zu", cfg.name,
                item_ops[want[i].type].name, i, got[i].end, want[i].end);
        }
        l.recs = std::move(got);
        // truncate and continue, in some lives leaving the torn bytes in the buffer behind the position
        Bytes content = l.disk.files.back().bytes;
        l.disk.files.back().bytes.resize(good);
        l.disk.files.back().synced = good;
        if (c.pick(2)) {
            content.resize(good);
        }
        if (!fixed && l.mode == 0) {
            content.resize(good);
        }
        if (content.size() > good) {
            probe("continued in front of torn bytes");
        }
        l.open(content, good);
        probe("recovered");
    }
}
} // namespace sim
