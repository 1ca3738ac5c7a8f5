// C10: clients and servers calling each other over a faulty network.
#include "rpcsvc.h"

namespace sim
{
const WorldInfo world_info = {
    "C10",
    "A run connects 1..3 clients to 1..2 servers over datagrams (lost, duplicated, reordered, delayed) or streams (fragmented, stalled, "
    "reset), with partitions, crashes and restarts of either side, slow servers and failing allocations while serving, until the faults "
    "stop; clients retry with growing timeouts. Non-trivial: a fault hit a message or node; distinct by the recorded choices.",
    "the order of all network, timer and fault events of a run; and (transport, function, outcome of serving, faults so far)",
    "zpp::bits::rpc clients and servers of three services (integer, sha256 and 8 byte sha1 ids) over in and out archives",
    "network, clock, timers, crashes, heap failures"};

struct Call
{
    int fn;
    Args args;
    Bytes canon;
    Bytes request; // model
    int client;
    u32 id;
    bool done = false;
    u64 done_at = 0;
    u32 tries = 0;
    mvec<Bytes> results; // what the function returned, by execution
    u32 executions = 0;
    u32 delivered = 0;
};

enum Ev
{
    DELIVER,  // a datagram or a stream fragment arrives
    TIMER,    // a client's retry timer
    CRASH_S,  // server crash
    START_S,  // server restart
    CRASH_C,  // client crash and restart
    CUT,      // partition
    HEAL,     //
    RESET_C,  // stream reset
};
struct Event
{
    u64 when;
    u64 seq;
    Ev kind;
    int a, b;  // nodes
    u32 epoch; // of the connection or node it belongs to
    Bytes data;
};

template <class View, template <class, class> class Svc, class... O>
struct World
{
    using In = zb::in<BVec, O...>;
    using Out = zb::out<BVec, O...>;
    using S = Svc<In, Out>;
    using rpc = typename S::rpc;

    Ch & c;
    Wire w;
    std::tuple<O...> opts;
    bool stream = false;
    u64 now = 0, seq = 0;
    u64 faults_end = 0;
    u32 loss = 0, dup = 0, heap_faults = 0;
    u64 max_delay = 10;
    mvec<Event> queue;
    std::vector<Call, Mal<Call>> calls;
    bool cut[4][2] = {};
    u64 context = 0; // recent fault kinds

    struct Conn // the byte stream of one client and one server
    {
        u32 epoch = 0;
        Bytes to_server, to_client; // in flight
        bool due[2] = {};
    };
    Conn conns[4][2];

    struct Server
    {
        bool up = true;
        u32 epoch = 0;
        Service<In, Out> svc;
        // per client: persistent buffers and archives
        struct Port
        {
            BVec in_buf, out_buf;
            std::optional<In> in;
            std::optional<Out> out;
            std::size_t sent = 0;
            void clear(World & w)
            {
                in.reset();
                out.reset();
                in_buf = {};
                out_buf = {};
                sent = 0;
                in.emplace(std::make_from_tuple<In>(std::tuple_cat(std::tuple<BVec &>(in_buf), w.opts)));
                out.emplace(std::make_from_tuple<Out>(std::tuple_cat(std::tuple<BVec &>(out_buf), w.opts)));
            }
        };
        Port ports[4];
    };
    Server servers[2];
    struct Client
    {
        u32 epoch = 0;
        int server = 0;
        typename Server::Port port; // out: requests, in: responses
        u32 next = 0;               // next call to start
        u32 first = 0, last = 0;    // its calls
    };
    Client clients[4];
    int n_clients = 1, n_servers = 1;

    World(Ch & c_, Wire w_, O... o) : c(c_), w(w_), opts(o...)
    {
    }
    bool faulty() const
    {
        return now < faults_end;
    }
    void post(u64 delay, Ev k, int a, int b, u32 epoch, Bytes data = {})
    {
        queue.push_back({now + delay, seq++, k, a, b, epoch, std::move(data)});
    }
    u64 delay()
    {
        return 1 + c.pick(u32(max_delay));
    }

    // ---- datagrams
    void send(bool to_server, int cl, int sv, Bytes data)
    {
        u32 n = 1;
        if (faulty()) {
            if (c.chance(loss, 100)) {
                fault("loss");
                context |= 1;
                n = 0;
            } else if (c.chance(dup, 100)) {
                fault("duplication");
                context |= 2;
                n = 2;
            }
        }
        for (u32 i = 0; i < n; ++i) {
            u64 d = delay();
            if (faulty() && c.chance(1, 10)) {
                d += c.pick(300);
                fault("delay");
            }
            post(d, DELIVER, to_server ? cl : cl + 16, sv, 0, data);
        }
    }

    void server_failed(int sv)
    {
        fault("server crash while serving");
        crash_server(sv);
        post(5 + c.pick(100), START_S, sv, 0, 0);
    }

    // serves one request from the port; the request of call k starts at the archive's position
    // returns: 1 served, 0 torn, -1 crashed
    int serve_one(int sv, int cl, typename Server::Port & p, u32 id, bool body)
    {
        auto & server = servers[sv];
        if (id >= calls.size()) {
            vio("misread", "the server read call id %u", id);
            throw Stop{};
        }
        Call & k = calls[id];
        std::size_t before = server.svc.log.calls.size();
        svc_log = &server.svc.log;
        std::size_t in0 = p.in->position(), out0 = p.out->position();
        typename rpc::server srv{*p.in, *p.out, server.svc};
        bool fail = faulty() && heap_faults && c.chance(heap_faults, 100);
        Res r;
        u64 failed;
        {
            Window win(fail ? 1 + c.pick(12) : 0);
            r = guarded([&]() -> zb::errc { return body ? srv.serve(S::id_of(k.fn)) : srv.serve(); });
            failed = heap.failed;
        }
        std::size_t ran = server.svc.log.calls.size() - before;
        if (failed) {
            fault("allocation failure while serving");
            REQ(r.exc == Res::bad_alloc, "swallowed", "%s: a failed allocation became %s", fn_name(k.fn), res_name(r).c_str());
            if (ran) { // it ran, the answer is lost with the server
                k.results.push_back(server.svc.log.calls.back().result);
            }
            server_failed(sv);
            return -1;
        }
        ev("%llu server %d: call %u %s -> %s, %zu bytes answered", (unsigned long long) now, sv, id, fn_name(k.fn), res_name(r).c_str(),
           p.out->position() - out0);
        state(hmix(hmix(u64(k.fn), u64(stream)), hmix(u64(r.code), context)));
        if (!r.ok()) {
            REQ(stream && r.code == RANGE, "refused", "%s: a well-formed request was answered with %s", fn_name(k.fn), res_name(r).c_str());
            REQ(ran == 0, "ran-torn", "%s ran for a torn request", fn_name(k.fn));
            REQ(p.out->position() == out0, "wrote-torn", "%s: response bytes for a torn request", fn_name(k.fn));
            std::size_t have = p.in_buf.size() - in0;
            REQ(have < k.request.size(), "refused-whole", "%s: %zu of %zu request bytes are there but it is refused", fn_name(k.fn), have,
                k.request.size());
            probe("torn request in a stream");
            return 0;
        }
        REQ(ran == 1, "executions", "%s: one delivery ran %zu functions", fn_name(k.fn), ran);
        auto & inv = server.svc.log.calls.back();
        REQ(inv.fn == k.fn, "wrong-function", "%s ran instead of %s", fn_name(inv.fn), fn_name(k.fn));
        REQ(inv.args == k.canon, "arguments", "%s got other arguments than the client sent", fn_name(k.fn));
        REQ(p.in->position() - in0 == k.request.size() - (body ? id_size : 0), "consumed", "%s: serving consumed %zu bytes of a %zu byte request",
            fn_name(k.fn), p.in->position() - in0, k.request.size());
        // the answer, by the model
        Bytes canon;
        Dec d(reinterpret_cast<u8 *>(p.out_buf.data()) + out0, p.out->position() - out0, w);
        if (dec_response(d, k.fn, canon)) {
            REQ(!d.code && d.pos == d.n, "response-bytes", "%s: the answer is not what the format says", fn_name(k.fn));
            REQ(canon == inv.result, "response-bytes", "%s: the answer encodes another value than the function returned", fn_name(k.fn));
        } else {
            REQ(d.n == 0, "response-bytes", "%s answers with %zu bytes", fn_name(k.fn), d.n);
        }
        k.results.push_back(inv.result);
        ++k.executions;
        (void) cl;
        return 1;
    }
    std::size_t id_size = 4;

    void got_result(int cl, u32 id, zb::errc r, Bytes & value)
    {
        Call & k = calls[id];
        REQ(!zb::failure(r), "response", "%s: the response does not decode: %s", fn_name(k.fn), code_name(int(r.code)));
        if (has_response(k.fn)) {
            bool known = false;
            for (auto & x : k.results) {
                known = known || x == value;
            }
            REQ(known, "wrong-answer", "%s: the client got a value the function never returned for this call", fn_name(k.fn));
        } else {
            REQ(!k.results.empty(), "wrong-answer", "%s: answered without having run", fn_name(k.fn));
        }
        if (!k.done) {
            k.done = true;
            k.done_at = now;
            probe(k.tries > 1 ? "completed after retries" : "completed at once");
        }
        (void) cl;
    }

    void deliver_datagram(Event & e)
    {
        bool to_server = e.a < 16;
        int cl = e.a & 15, sv = e.b;
        if (cut[cl][sv]) {
            fault("dropped by partition");
            return;
        }
        if (to_server) {
            auto & server = servers[sv];
            if (!server.up) {
                fault("dropped at a crashed server");
                return;
            }
            auto & p = server.ports[0]; // reused for every datagram
            u32 id;
            std::memcpy(&id, e.data.data(), 4);
            bool body = e.data[4];
            auto bytes = reinterpret_cast<const std::byte *>(e.data.data()) + 5;
            if (c.pick(4) == 0) {
                p.clear(*this);
            }
            p.in_buf.assign(bytes, bytes + (e.data.size() - 5));
            p.in->reset();
            if (c.pick(2)) {
                p.out_buf.clear();
                p.out->reset();
            } else {
                p.out->reset(c.pick(u32(p.out_buf.size() + 1)));
            }
            std::size_t out0 = p.out->position();
            ++calls[id].delivered;
            if (serve_one(sv, cl, p, id, body) != 1) {
                return;
            }
            REQ(p.in->position() == p.in_buf.size(), "consumed", "serving left request bytes");
            Bytes reply(4);
            std::memcpy(reply.data(), &id, 4);
            auto q = reinterpret_cast<u8 *>(p.out_buf.data());
            reply.insert(reply.end(), q + out0, q + p.out->position());
            now += c.pick(3);
            send(false, cl, sv, std::move(reply));
        } else {
            auto & p = clients[cl].port;
            u32 id;
            std::memcpy(&id, e.data.data(), 4);
            auto bytes = reinterpret_cast<const std::byte *>(e.data.data()) + 4;
            p.in_buf.assign(bytes, bytes + (e.data.size() - 4));
            p.in->reset();
            typename rpc::client client{*p.in, *p.out};
            Bytes value;
            zb::errc r = S::receive(client, calls[id].fn, value);
            ev("%llu client %d: answer to %u -> %s", (unsigned long long) now, cl, id, code_name(int(r.code)));
            got_result(cl, id, r, value);
        }
    }

    // ---- streams
    void pump(int cl, int sv, int dir)
    {
        auto & k = conns[cl][sv];
        if (!k.due[dir] && (dir ? k.to_client : k.to_server).size()) {
            k.due[dir] = true;
            post(delay() + (faulty() && c.chance(1, 12) ? c.pick(400) : 0), DELIVER, cl + dir * 16, sv, k.epoch);
        }
    }
    void reset_conn(int cl, int sv, const char * why)
    {
        auto & k = conns[cl][sv];
        ++k.epoch;
        k.to_server.clear();
        k.to_client.clear();
        k.due[0] = k.due[1] = false;
        servers[sv].ports[cl].clear(*this);
        if (clients[cl].server == sv) { // a client is connected to one server at a time
            clients[cl].port.clear(*this);
        }
        ev("%llu connection %d-%d reset: %s", (unsigned long long) now, cl, sv, why);
    }
    void deliver_stream(Event & e)
    {
        int cl = e.a & 15, sv = e.b, dir = e.a >> 4;
        auto & k = conns[cl][sv];
        if (k.epoch != e.epoch) {
            return;
        }
        k.due[dir] = false;
        if (cut[cl][sv]) {
            fault("stalled by partition");
            k.due[dir] = true;
            post(50, DELIVER, e.a, sv, k.epoch);
            return;
        }
        auto & fly = dir ? k.to_client : k.to_server;
        std::size_t n = fly.size();
        if (c.pick(3)) {
            n = 1 + c.pick(u32(n));
            if (n < fly.size()) {
                fault("fragmentation");
                context |= 4;
            }
        }
        auto bytes = reinterpret_cast<const std::byte *>(fly.data());
        if (!dir) {
            auto & server = servers[sv];
            if (!server.up) {
                reset_conn(cl, sv, "server is down");
                return;
            }
            auto & p = server.ports[cl];
            p.in_buf.insert(p.in_buf.end(), bytes, bytes + n);
            fly.erase(fly.begin(), fly.begin() + long(n));
            for (;;) {
                std::size_t in0 = p.in->position(), out0 = p.out->position();
                if (in0 == p.in_buf.size()) {
                    break;
                }
                u32 id = 0;
                auto r = (*p.in)(id);
                if (zb::failure(r)) {
                    REQ(r.code == std::errc::result_out_of_range, "envelope", "reading the call id gives %s", code_name(int(r.code)));
                    p.in->position() = in0;
                    break;
                }
                r = (*p.out)(id);
                REQ(!zb::failure(r), "envelope", "writing the call id failed");
                int served = serve_one(sv, cl, p, id, false);
                if (served < 0) {
                    return;
                }
                if (!served) {
                    p.in->position() = in0;
                    p.out->position() = out0;
                    break;
                }
                ++calls[id].delivered;
                if (c.pick(3) == 0) { // drop what was processed
                    p.in_buf.erase(p.in_buf.begin(), p.in_buf.begin() + long(p.in->position()));
                    p.in->reset();
                    probe("receive buffer compacted");
                }
            }
            auto q = reinterpret_cast<u8 *>(p.out_buf.data());
            k.to_client.insert(k.to_client.end(), q + p.sent, q + p.out->position());
            p.sent = p.out->position();
            if (c.pick(3) == 0) {
                p.out->reset();
                p.sent = 0;
            }
            now += c.pick(3);
        } else {
            auto & p = clients[cl].port;
            p.in_buf.insert(p.in_buf.end(), bytes, bytes + n);
            fly.erase(fly.begin(), fly.begin() + long(n));
            typename rpc::client client{*p.in, *p.out};
            for (;;) {
                std::size_t in0 = p.in->position();
                if (in0 == p.in_buf.size()) {
                    break;
                }
                u32 id = 0;
                auto r = (*p.in)(id);
                Bytes value;
                if (!zb::failure(r)) {
                    REQ(id < calls.size() && calls[id].client == cl, "misread", "client %d read call id %u", cl, id);
                    r = S::receive(client, calls[id].fn, value);
                }
                if (zb::failure(r) && r.code == std::errc::result_out_of_range) {
                    p.in->position() = in0;
                    probe("torn response in a stream");
                    break;
                }
                ev("%llu client %d: answer to %u -> %s", (unsigned long long) now, cl, id, code_name(int(r.code)));
                got_result(cl, id, r, value);
                if (c.pick(3) == 0) {
                    p.in_buf.erase(p.in_buf.begin(), p.in_buf.begin() + long(p.in->position()));
                    p.in->reset();
                }
            }
        }
        pump(cl, sv, 0);
        pump(cl, sv, 1);
    }

    // ---- nodes
    void crash_server(int sv)
    {
        auto & s = servers[sv];
        s.up = false;
        ++s.epoch;
        s.svc.log.notes = 0;
        for (int cl = 0; cl < n_clients; ++cl) {
            if (stream) {
                reset_conn(cl, sv, "server crashed");
            } else {
                s.ports[cl].clear(*this);
            }
        }
        ev("%llu server %d crashed", (unsigned long long) now, sv);
        context |= 8;
    }
    void transmit(int cl, u32 id)
    {
        auto & cli = clients[cl];
        Call & k = calls[id];
        ++k.tries;
        auto & p = cli.port;
        typename rpc::client client{*p.in, *p.out};
        if (stream) {
            std::size_t o0 = p.out->position();
            auto r = (*p.out)(id);
            REQ(!zb::failure(r), "envelope", "writing the call id failed");
            std::size_t o1 = p.out->position();
            r = S::send_as(client, k.fn, k.args, false, c.pick(4));
            REQ(!zb::failure(r), "request", "%s: the request gives %s", fn_name(k.fn), code_name(int(r.code)));
            auto q = reinterpret_cast<u8 *>(p.out_buf.data());
            REQ(p.out->position() - o1 == k.request.size() && !std::memcmp(q + o1, k.request.data(), k.request.size()), "request-bytes",
                "%s: the request is not id and arguments as the format says", fn_name(k.fn));
            auto & fly = conns[cl][cli.server].to_server;
            fly.insert(fly.end(), q + o0, q + p.out->position());
            if (c.pick(2)) {
                p.out->reset();
            }
            pump(cl, cli.server, 0);
        } else {
            bool body = c.pick(5) == 4;
            if (c.pick(2)) {
                p.out->reset();
            } else {
                p.out->reset(c.pick(u32(p.out_buf.size() + 1)));
            }
            std::size_t o0 = p.out->position();
            auto r = S::send_as(client, k.fn, k.args, body, c.pick(4));
            REQ(!zb::failure(r), "request", "%s: the request gives %s", fn_name(k.fn), code_name(int(r.code)));
            auto q = reinterpret_cast<u8 *>(p.out_buf.data());
            std::size_t skip = body ? id_size : 0;
            REQ(p.out->position() - o0 == k.request.size() - skip && !std::memcmp(q + o0, k.request.data() + skip, k.request.size() - skip),
                "request-bytes", "%s: the request is not id and arguments as the format says", fn_name(k.fn));
            Bytes d(5);
            std::memcpy(d.data(), &id, 4);
            d[4] = body;
            d.insert(d.end(), q + o0, q + p.out->position());
            send(true, cl, cli.server, std::move(d));
        }
    }
    static constexpr u64 timeout = 300, max_timeout = 800;
    void timer(int cl)
    {
        auto & cli = clients[cl];
        bool pending = false;
        u32 worst = 0;
        for (u32 i = cli.first; i < cli.next; ++i) {
            pending = pending || !calls[i].done;
            if (!calls[i].done) {
                worst = std::max(worst, calls[i].tries);
            }
        }
        if (pending && worst) { // nothing came back in time
            if (n_servers > 1 && c.pick(3) == 0) {
                cli.server = 1 - cli.server;
                probe("failover");
            }
            if (stream) {
                for (int sv = 0; sv < n_servers; ++sv) {
                    reset_conn(cl, sv, "timeout");
                }
            }
        }
        // pipeline a few more
        u32 more = c.range(1, 3);
        while (more-- && cli.next < cli.last) {
            ++cli.next;
        }
        bool all = true;
        for (u32 i = cli.first; i < cli.next; ++i) {
            if (!calls[i].done) {
                transmit(cl, i);
                all = false;
            }
        }
        if (!all || cli.next < cli.last) {
            post(std::min<u64>(timeout + 100 * worst, max_timeout), TIMER, cl, 0, cli.epoch);
        }
    }

    void run()
    {
        stream = c.pick(2);
        n_clients = int(c.range(1, 3));
        n_servers = int(c.range(1, 2));
        faults_end = 300 + c.pick(4000);
        loss = c.pick(3) ? c.pick(40) : 0;
        dup = c.pick(3) ? c.pick(30) : 0;
        heap_faults = c.pick(3) == 2 ? 15 : 0;
        max_delay = c.pick(2) ? 10 : 80;
        {
            Enc e(w);
            S::enc_id(e, 0);
            id_size = e.b.size();
        }
        for (int cl = 0; cl < n_clients; ++cl) {
            auto & cli = clients[cl];
            cli.first = cli.next = u32(calls.size());
            u32 n = c.range(1, 5);
            for (u32 i = 0; i < n; ++i) {
                c.mark();
                Call k{};
                k.fn = int(c.pick(N_FN));
                k.args.make(c, k.fn);
                k.client = cl;
                k.id = u32(calls.size());
                Enc e(w);
                S::enc_id(e, k.fn);
                k.args.enc(e, k.fn);
                // what arrives, by the model: sizes may not fit a narrow prefix
                Args seen;
                Dec d(e.b.data() + id_size, e.b.size() - id_size, w);
                seen.dec(d, k.fn);
                if (d.code || d.mismatch || e.overflow) {
                    continue;
                }
                k.request = std::move(e.b);
                k.canon = seen.canon(k.fn);
                // the answer has to fit its prefixes as well: keep the arguments small under narrow ones
                if (w.size == 2 && k.request.size() > 4000) {
                    continue;
                }
                ev("call %u: client %d %s, %zu bytes", k.id, cl, fn_name(k.fn), k.request.size());
                calls.push_back(std::move(k));
            }
            cli.last = u32(calls.size());
            cli.port.clear(*this);
            cli.server = int(c.pick(u32(n_servers)));
            post(c.pick(50), TIMER, cl, 0, 0);
        }
        for (int s = 0; s < n_servers; ++s) {
            for (auto & p : servers[s].ports) {
                p.clear(*this);
            }
        }
        u32 n_faults = c.pick(5);
        for (u32 i = 0; i < n_faults; ++i) {
            c.mark();
            u64 at = c.pick(u32(faults_end));
            u64 len = 20 + c.pick(600);
            int cl = int(c.pick(u32(n_clients))), sv = int(c.pick(u32(n_servers)));
            switch (c.pick(4)) {
            case 0:
                post(at, CRASH_S, sv, 0, 0);
                post(std::min(at + len, faults_end), START_S, sv, 0, 0);
                break;
            case 1:
                post(at, CUT, cl, sv, 0);
                post(std::min(at + len, faults_end), HEAL, cl, sv, 0);
                break;
            case 2:
                post(at, CRASH_C, cl, 0, 0);
                break;
            default:
                post(at, RESET_C, cl, sv, 0);
            }
        }
        u64 steps = 0, order = 0;
        const u64 bound = faults_end + 6000;
        while (!queue.empty()) {
            std::size_t best = 0;
            for (std::size_t i = 1; i < queue.size(); ++i) {
                if (queue[i].when < queue[best].when || (queue[i].when == queue[best].when && queue[i].seq < queue[best].seq)) {
                    best = i;
                }
            }
            Event e = std::move(queue[best]);
            queue.erase(queue.begin() + long(best));
            now = std::max(now, e.when);
            if (++steps > 20000 || now > bound) {
                break;
            }
            c.mark();
            order = hmix(order, hmix(u64(e.kind), u64(e.a) * 32 + u64(e.b)));
            switch (e.kind) {
            case DELIVER:
                stream ? deliver_stream(e) : deliver_datagram(e);
                break;
            case TIMER:
                if (clients[e.a].epoch == e.epoch) {
                    timer(e.a);
                }
                break;
            case CRASH_S:
                if (servers[e.a].up) {
                    fault("server crash");
                    crash_server(e.a);
                }
                break;
            case START_S:
                servers[e.a].up = true;
                ev("%llu server %d is up", (unsigned long long) now, e.a);
                break;
            case CRASH_C: {
                fault("client crash");
                auto & cli = clients[e.a];
                ++cli.epoch;
                cli.port.clear(*this);
                if (stream) {
                    for (int sv = 0; sv < n_servers; ++sv) {
                        reset_conn(e.a, sv, "client crashed");
                    }
                }
                context |= 16;
                post(10 + c.pick(100), TIMER, e.a, 0, cli.epoch);
                break;
            }
            case CUT:
                fault("partition");
                cut[e.a][e.b] = true;
                context |= 32;
                break;
            case HEAL:
                cut[e.a][e.b] = false;
                break;
            case RESET_C:
                if (stream) {
                    fault("connection reset");
                    reset_conn(e.a, e.b, "injected");
                }
                break;
            }
        }
        if (context) {
            nontrivial();
        }
        sim_time(now);
        state(order);
        for (auto & k : calls) {
            REQ(k.done, "liveness", "%s of client %d is not complete %llu ms after the faults stopped (%u tries, %u executions)", fn_name(k.fn),
                k.client, (unsigned long long) (now - faults_end), k.tries, k.executions);
        }
    }
};

void world_run(Ch & c)
{
#if SVC == 0
    World<BVec, SvcInt> w(c, {});
#elif SVC == 1
    World<BVec, SvcSha, zb::endian::big, zb::size_varint> w(c, {true, SZ_VARINT}, {}, {});
#elif SVC == 2
    World<BVec, SvcLong, zb::size2b> w(c, {false, 2}, {});
#else
    World<BVec, SvcWide> w(c, {});
#endif
    return w.run();
}
} // namespace sim
