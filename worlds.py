"""Which sources, configurations and budgets make up the world of each property."""
ALL = list(range(13))
WIDE = ["wide%d.cpp" % g for g in range(5)]

WORLDS = {
    "C01": {
        "variants": [{"src": ["c01.cpp"], "cfgs": ALL, "runs": 400000}],
        "note": "Seeded search over types, values, configurations and torn deliveries against an independent decoder; address "
                "sanitizer on buffers of exactly the delivered size. Sampled, not exhaustive; trusts the reference model in "
                "sim/ref*.h.",
    },
    "C02": {
        "variants": [{"src": ["c02.cpp"], "cfgs": [0, 1, 2, 3, 5, 6, 7, 10, 12], "runs": 150000}],
        "note": "Seeded search over streams, fragmentations, stalls and reconnects with exact delivery oracle.",
    },
    "C03": {
        "variants": [
            {"name": "every configuration", "src": ["c03.cpp"], "cfgs": ALL, "runs": 250000},
            {"name": "wide structures", "src": ["c03b.cpp", *WIDE], "runs": 60000, "share": 0.25},
        ],
        "note": "Seeded search over values and archive histories against an independent encoder and decoder.",
    },
    "C04": {
        "variants": [{"src": ["c04.cpp"], "cfgs": [0, 1, 2, 3, 5, 6, 8, 9, 12], "runs": 200000}],
        "note": "Seeded search over corruptions with an exact reference decoder, address sanitizer and a capped heap.",
    },
    "C05": {
        "variants": [{"src": ["c05.cpp"], "cfgs": [9, 10, 11], "runs": 900000}],
        "note": "Seeded search over forged lengths with a reference decoder that applies the limit and a recording heap.",
    },
    "C06": {
        "variants": [{"src": ["c06.cpp"], "cfgs": [7, 8, 12], "runs": 300000}],
        "note": "Seeded search over capacities and write histories against an independent encoder, with sanitizer red zones.",
    },
    "C07": {
        "variants": [{"src": ["c07.cpp"], "cfgs": [0, 1, 2, 3, 4, 5, 6, 9, 10, 11], "runs": 300000}],
        "note": "Seeded search over write histories against a byte tape and the declared growth policy.",
    },
    "C08": {
        "variants": [
            {"name": "containers and buffers", "src": ["c08.cpp"], "cfgs": [0, 1, 2, 3, 5, 7, 9, 10], "runs": 200000},
            {"name": "callbacks and dispatch", "src": ["c08b.cpp"], "runs": 200000},
        ],
        "note": "Seeded search over which allocations, resizes, callbacks and constructors fail, with full accounting of blocks and "
                "objects.",
    },
    "C09": {
        "variants": [{"src": ["c09.cpp"], "cfgs": [0, 1, 2, 3, 5, 7, 9, 10, 12], "runs": 150000}],
        "note": "Seeded search over log histories on a simulated disk that keeps synced bytes and any prefix of the rest.",
    },
    "C10": {
        "variants": [
            {"name": "integer ids", "src": ["c10.cpp"], "defs": ["-DSVC=0"], "runs": 30000},
            {"name": "sha256 ids, big endian, varint sizes", "src": ["c10.cpp"], "defs": ["-DSVC=1"], "runs": 30000},
            {"name": "8 byte sha1 ids, two byte sizes", "src": ["c10.cpp"], "defs": ["-DSVC=2"], "runs": 30000},
            {"name": "32 byte digests as ids", "src": ["c10.cpp"], "defs": ["-DSVC=3"], "runs": 30000},
        ],
        "note": "Seeded search over network schedules, partitions, crashes and heap failures with executions recorded per delivery and a "
                "bounded completion time after the faults stop.",
    },
    "C11": {
        "variants": [
            {"name": "vectors, integer ids", "src": ["c11.cpp"], "defs": ["-DSVC=0"], "runs": 100000},
            {"name": "spans, big endian, varint sizes", "src": ["c11.cpp"], "defs": ["-DSVC=1"], "runs": 100000},
            {"name": "limited vectors, two byte sizes", "src": ["c11.cpp"], "defs": ["-DSVC=2"], "runs": 100000},
            {"name": "32 byte digests as ids", "src": ["c11.cpp"], "defs": ["-DSVC=3"], "runs": 100000},
        ],
        "note": "Seeded search over request histories with damaged requests and small response buffers against a reference decoder and "
                "encoder.",
    },
    "C12": {
        "variants": [
            {"name": "live vectors, integer ids", "src": ["c12.cpp"], "defs": ["-DSVC=0"], "runs": 100000},
            {"name": "spans, big endian, varint sizes", "src": ["c12.cpp"], "defs": ["-DSVC=1"], "runs": 100000},
            {"name": "live vectors, two byte sizes, 8 byte ids", "src": ["c12.cpp"], "defs": ["-DSVC=2"], "runs": 100000},
            {"name": "32 byte digests as ids", "src": ["c12.cpp"], "defs": ["-DSVC=3"], "runs": 100000},
        ],
        "note": "Seeded search over mixes of opaque and regular requests, torn deliveries and failing handlers with an exact model of "
                "what each handler must be handed and where the stream must stand.",
    },
    "C13": {
        "variants": [
            {"name": "four byte ids", "src": ["c13.cpp"], "defs": ["-DSVC=0"], "runs": 60000},
            {"name": "string ids, big endian", "src": ["c13.cpp"], "defs": ["-DSVC=1"], "runs": 60000},
            {"name": "sha256 ids, varint sizes", "src": ["c13.cpp"], "defs": ["-DSVC=2"], "runs": 60000},
            {"name": "two byte ids, big endian, varint sizes", "src": ["c13.cpp"], "defs": ["-DSVC=3"], "runs": 60000},
            {"name": "eight byte ids, big endian", "src": ["c13.cpp"], "defs": ["-DSVC=4"], "runs": 60000},
            {"name": "by index", "src": ["c13.cpp"], "defs": ["-DSVC=5"], "runs": 60000},
        ],
        "note": "Seeded search over version mixes, upgrades, relays and damaged ids with a reference decoder per version.",
    },
    "C14": {
        "variants": [
            {"name": "little endian", "src": ["c14.cpp"], "defs": ["-DSVC=0"], "runs": 60000},
            {"name": "big endian, varint sizes", "src": ["c14.cpp"], "defs": ["-DSVC=1"], "runs": 60000},
            {"name": "unframed", "src": ["c14.cpp"], "defs": ["-DSVC=2"], "runs": 60000},
        ],
        "note": "Seeded search over schema versions, foreign senders, relays and upgrades with a reference codec per version.",
    },
    "C15": {
        "variants": [
            {"name": "little endian", "src": ["c15.cpp"], "defs": ["-DSVC=0"], "runs": 60000},
            {"name": "big endian, varint sizes, limit 64", "src": ["c15.cpp"], "defs": ["-DSVC=1"], "runs": 60000},
            {"name": "unframed", "src": ["c15.cpp"], "defs": ["-DSVC=2"], "runs": 60000},
            {"name": "two byte sizes, limit 400", "src": ["c15.cpp"], "defs": ["-DSVC=3"], "runs": 60000},
        ],
        "note": "Seeded search over structured damage to protobuf messages with a reference decoder and heap accounting.",
    },
    "C16": {
        "variants": [
            {"name": "byte vectors", "src": ["c16.cpp"], "defs": ["-DSVC=0"], "runs": 100000},
            {"name": "strings, big endian, varint sizes", "src": ["c16.cpp"], "defs": ["-DSVC=1"], "runs": 100000},
            {"name": "spans, two byte sizes, limit 4000", "src": ["c16.cpp"], "defs": ["-DSVC=2"], "runs": 100000},
        ],
        "note": "Seeded search over arrivals, damage and buffer reuse with a model of where every view must point.",
    },
    "C18": {
        "variants": [
            {"name": "every configuration", "src": ["c18.cpp"], "cfgs": ALL, "runs": 150000},
            {"name": "helper functions", "src": ["c18b.cpp"], "runs": 150000},
        ],
        "note": "Seeded search over interleaved operations of several archives on one buffer against a byte tape with cursors.",
    },
    "C19": {
        "variants": [
            {"name": "every configuration", "src": ["c19.cpp"], "cfgs": ALL, "runs": 300000},
            {"name": "deep, little endian", "src": ["c19b.cpp"], "defs": ["-DSVC=0"], "runs": 300000},
            {"name": "deep, big endian, varint sizes", "src": ["c19b.cpp"], "defs": ["-DSVC=1"], "runs": 300000},
            {"name": "deep, two byte sizes, limit 2000", "src": ["c19b.cpp"], "defs": ["-DSVC=2"], "runs": 300000},
        ],
        "note": "Seeded search over histories of failed, torn and damaged decodes into one object against a fresh object.",
    },
    "C20": {
        "variants": [
            {"name": "default decode path", "src": ["c20.cpp"], "runs": 300000},
            {"name": "inline decode path", "src": ["c20.cpp"], "defs": ["-DZPP_BITS_INLINE_DECODE_VARINT=1"], "runs": 300000},
            {"name": "optimised", "src": ["c20.cpp"], "flags": ["-O2"], "runs": 300000},
        ],
        "note": "Seeded search over widths, values, paddings, damage and fragmentations with an independent encoder and decoder.",
    },
    "C21": {
        "variants": [
            {"name": "little endian", "src": ["c21.cpp"], "defs": ["-DSVC=0"], "runs": 150000},
            {"name": "big endian, varint sizes", "src": ["c21.cpp"], "defs": ["-DSVC=1"], "runs": 150000},
            {"name": "two byte sizes, limit, no fit", "src": ["c21.cpp"], "defs": ["-DSVC=2"], "runs": 150000},
        ],
        "note": "Seeded search over which callback fails, with which code and where, against a model that stops at the same callback.",
    },
    "C17": {
        "variants": [
            {"src": ["c17.cpp"], "flags": ["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"], "runs": 60000},
        ],
        "note": "Seeded search over interleavings at every basic block and memory access of the library, with re-entrant callbacks, "
                "allocators, buffers and handlers.",
    },
}
NOT_APPLICABLE = {
    "C22": "A pure function of a compile-time literal: no schedule, clock, I/O, peer or fault can influence it, so there is "
           "nothing for a simulator to control.",
    "C23": "Quantifies over programs evaluated by the compiler: no execution to schedule or inject faults into.",
    "C24": "Quantifies over programs the compiler must reject: there is no execution to simulate.",
}
