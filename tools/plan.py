"""What each check runs: suites of executions as (suite, quick limit, thorough limit)
and models of the specification."""

NOTE = {
    "technique": "TLA+ specification checked with TLC; recorded executions of the real code validated against it",
    "level": "Every judged execution of the code is a behaviour the TLA+ specification allows, and the property "
             "holds on the specification within its bounds. Inputs of the code are enumerated or sampled, not "
             "exhausted; the abstraction function harness/src/model.rs and TLC are trusted.",
    "notes": "TLA+ with TLC. No hooks in /repo: everything is driven through the public API. check.py runs one "
             "property; check.py --replay FILE runs a replay file again.",
}



def gen(module, group, emit, gives, quick, thorough, workers=8):
    """a generating model; quick and thorough are (depth, thin)"""
    f = lambda x: {"DEPTH": x[0], "THIN": x[1]}
    return {"module": module + ".tla", "cfg": module + ".cfg", "workers": workers, "gives": gives,
            "env": {"GROUP": group, "EMIT": emit, "MSEED": "$SEED"}, "quick": f(quick), "thorough": f(thorough)}


MODELS = {
    # packets x versions, by the fields that deviate from a base packet: to the encoder
    "packets": gen("GenEnc", "all", "packet", "enc-given", (2, 5), (2, 1)),
    "packets-acks": gen("GenEnc", "acks", "packet", "enc-given", (2, 1), (3, 2)),
    "packets-codes": gen("GenEnc", "codes", "packet", "enc-given", (1, 1), (2, 1)),
    "packets-props": gen("GenEnc", "props", "packet", "enc-given", (2, 4), (2, 1)),
    "packets-user": gen("GenEnc", "user", "packet", "enc-given", (2, 2), (2, 1)),
    "packets-serde": gen("GenEnc", "all", "packet", "serde-given", (1, 1), (2, 2)),
    # the bytes of the same packets: to the decoder
    "valid": gen("GenEnc", "all", "wire", "dec-given", (2, 6), (2, 1)),
    "valid-props": gen("GenEnc", "props", "wire", "dec-given", (2, 6), (2, 1)),
    "valid-user": gen("GenEnc", "user", "wire", "dec-given", (2, 2), (2, 1)),
    "valid-acks": gen("GenEnc", "acks", "wire", "dec-given", (2, 2), (3, 4)),
    "valid-relay": gen("GenEnc", "all", "wire", "relay-given", (1, 1), (2, 2)),
    "valid-cut": gen("GenEnc", "all", "wire", "cut-given", (1, 6), (1, 1)),
    # byte strings x versions, by the places where a valid packet is damaged
    "wires": gen("GenWire", "all", "1", "dec-given", (1, 3), (1, 1)),
    "wires-acks": gen("GenWire", "acks", "1", "dec-given", (1, 1), (2, 9)),
    "wires-short": gen("GenWire", "short", "1", "dec-given", (1, 1), (2, 12)),
    "wires-relay": gen("GenWire", "all", "1", "relay-given", (1, 4), (1, 1)),
    # histories: sequences of good and damaged packets, with versions and a tail
    "streams": gen("GenStream", "", "stream", "stream-given", (2, 20), (3, 16)),
    "streams-chunk": gen("GenStream", "", "chunk", "chunk-given", (2, 60), (2, 5)),
    "streams-cut": gen("GenStream", "", "cut", "cut-given", (1, 1), (1, 1)),
    # the byte reader as built refines the byte reader as specified
    "reader": {"module": "GenReader.tla", "cfg": "GenReader.cfg", "workers": 8, "gives": "rd-given",
               "env": {"EMIT": "1", "VARIANT": "", "MSEED": "$SEED"},
               "quick": {"NEST": 3, "THIN": 4}, "thorough": {"NEST": 4, "THIN": 2}},
}

# the primitive encodings read byte by byte against their definitions
MODELS["prims"] = {"module": "GenPrim.tla", "cfg": "GenPrim.cfg", "workers": 8, "gives": "prim-given",
                   "env": {"MSEED": "$SEED"}, "quick": {"DEPTH": 4, "THIN": 7}, "thorough": {"DEPTH": 4, "THIN": 1}}

# the writer, and the reader as its dual
MODELS["writer"] = {"module": "GenWriter.tla", "cfg": "GenWriter.cfg", "workers": 8, "gives": "wr-given",
                    "env": {"MSEED": "$SEED"}, "quick": {"DEPTH": 2, "THIN": 1}, "thorough": {"DEPTH": 3, "THIN": 2}}

ACKS = "puback,pubrec,pubrel,pubcomp"

# designs that are known to be wrong have to be found wrong
for variant in ["nomin", "noadd", "leak", "never"]:
    MODELS["reader-" + variant] = {"module": "GenReader.tla", "cfg": "GenReader.cfg", "workers": 2,
                                   "expect": "violation",
                                   "env": {"EMIT": "0", "VARIANT": variant, "MSEED": 1, "NEST": 2, "THIN": 1}}

STREAM = {"INTS": 1, "THIN": 1, "EMIT": "0", "VARIANT": ""}
# the decoder as built against a reader that delivers in pieces, interrupts, fails and ends
MODELS["decoder"] = {"module": "MqttStream.tla", "cfg": "MqttStream.cfg", "workers": 8, "env": STREAM,
                     "thorough": {"INTS": 3}}
MODELS["decoder-ends"] = {"module": "MqttStream.tla", "cfg": "MqttStreamLive.cfg", "workers": 8, "env": STREAM,
                          "thorough": {"INTS": 2}}
MODELS["decoder-chunk"] = {"module": "MqttStream.tla", "cfg": "MqttStream.cfg", "workers": 8,
                           "env": dict(STREAM, EMIT="1"), "gives": "chunk-given",
                           "quick": {"THIN": 3}, "thorough": {"INTS": 2}}
MODELS["decoder-prompt"] = dict(MODELS["decoder-chunk"], gives="prompt-given", thorough={"INTS": 1})
MODELS["streams-prompt"] = gen("GenStream", "", "chunk", "prompt-given", (2, 40), (2, 4))
MODELS["wires-memory"] = gen("GenWire", "all", "1", "mem-given", (1, 4), (1, 1))
for variant in ["nofinish", "inner", "swallow", "noretry", "partial", "header", "peek", "eager", "hoard"]:
    MODELS["decoder-" + variant] = {"module": "MqttStream.tla", "cfg": "MqttStream.cfg", "workers": 2,
                                    "expect": "violation", "env": dict(STREAM, VARIANT=variant)}

SHARE = {"MSEED": "$SEED", "EMIT": "1", "VARIANT": "", "THIN": 20, "DEPTH": 60}
MODELS["users"] = {"module": "MqttShare.tla", "cfg": "MqttShare.cfg", "workers": 8, "env": SHARE, "gives": "share-given",
                   "thorough": {"DEPTH": 900, "THIN": 40}}
for variant in ["buffer", "scratch", "version", "count"]:
    MODELS["users-" + variant] = {"module": "MqttShare.tla", "cfg": "MqttShare.cfg", "workers": 2, "expect": "violation",
                                  "env": dict(SHARE, VARIANT=variant, EMIT="0", MSEED="1")}

HAND = {"MSEED": "$SEED", "EMIT": "1", "VARIANT": "", "THIN": 6, "DEPTH": 3}
MODELS["hand"] = {"module": "MqttHand.tla", "cfg": "MqttHand.cfg", "workers": 8, "env": HAND, "gives": "hand-given",
                  "thorough": {"THIN": 1}}
for variant in ["open", "late", "spare", "early"]:
    MODELS["hand-" + variant] = {"module": "MqttHand.tla", "cfg": "MqttHand.cfg", "workers": 2, "expect": "violation",
                                 "env": dict(HAND, VARIANT=variant, EMIT="0", MSEED="1")}
# work in proportion, and the criterion for it
for cfg in ["Work", "WorkJudged"]:
    MODELS[cfg.lower()] = {"module": "MqttWork.tla", "cfg": "Mqtt%s.cfg" % cfg, "workers": 2, "env": {"VARIANT": ""}}
    for variant in ["exact", "search", "front", "rescan", "skip"]:
        MODELS[cfg.lower() + "-" + variant] = {"module": "MqttWork.tla", "cfg": "Mqtt%s.cfg" % cfg, "workers": 1,
                                               "expect": "violation", "env": {"VARIANT": variant}}
WORK = [x for x in MODELS if x.startswith("work")]
MODELS["streams-hand"] = gen("GenStream", "", "stream", "hand-given", (2, 40), (2, 4))
MODELS["packets-level"] = gen("GenEnc", "all", "packet", "level-given", (1, 1), (2, 2))

MODELS["pairs"] = gen("GenEnc", "all", "pair", "same-given", (2, 24), (2, 2))


def sweeps(*what):
    """walks along one dimension: kind:emit[:types]; all executed, the unusual steps recorded"""
    return [("sweep:" + x, 1, 1) for x in what]


ENC = ["len:enc", "char:enc", "text:enc", "num:enc", "count:enc"]
DEC = ["len:dec", "char:dec", "text:dec", "num:dec", "count:dec"]
SWEEPS = {
    "C01": ENC, "C02": ["len:enc", "num:enc", "count:enc", "text:enc"], "C03": ENC, "C04": DEC,
    "C05": ["len:bad", "num:bad", "count:bad"], "C06": ENC, "C07": ["len:stream", "num:stream", "count:stream"],
    "C08": ["len:stream", "num:stream", "count:stream", "text:stream"], "C09": ["len:cut", "count:cut", "text:cut"],
    "C10": ["len:stream", "count:stream", "text:dec", "char:dec"], "C11": ["len:chunk", "count:chunk", "text:chunk"],
    "C15": ["len:enc", "num:enc", "text:enc", "len:dec", "num:dec", "text:dec"],
    "C16": ["len:enc", "num:enc", "text:enc", "count:enc", "num:dec", "text:dec"],
    "C18": ["len:enc", "count:enc", "char:enc", "text:enc", "count:dec", "char:dec", "text:dec"],
    "C19": [x + ":puback,pubrec,pubrel,pubcomp" for x in ENC + DEC],
    "C20": ["len:serde", "char:serde", "text:serde", "num:serde", "count:serde"],
    "C26": ["len:same", "num:same", "count:same", "text:same", "char:same", "cross:same"],
    "C25": ["len:level", "num:level", "count:level", "text:level", "char:level", "cross:level"],
    "C21": ["len:relay", "num:relay", "count:relay", "text:relay", "char:relay"],
}

# the values of one field in many packets; pairs of byte strings that differ in one place;
# histories over a fixed set of packets
for prop in ["C01", "C02", "C03", "C06", "C15", "C16", "C18"]:
    SWEEPS[prop] = SWEEPS[prop] + ["cross:enc"]
SWEEPS["C04"] = SWEEPS["C04"] + ["cross:dec"]
SWEEPS["C07"] = SWEEPS["C07"] + ["cross:stream"]
SWEEPS["C19"] = SWEEPS["C19"] + ["cross:enc:" + ACKS, "cross:dec:" + ACKS]
SWEEPS["C20"] = SWEEPS["C20"] + ["cross:serde"]
SWEEPS["C21"] = SWEEPS["C21"] + ["cross:relay"]
MORE = {p: [("meta:dec", 1, 1)] for p in ["C04", "C05", "C10", "C15", "C16", "C17", "C18", "C19"]}
MORE["C21"] = [("meta:relay", 1, 1)]
for prop in ["C07", "C08", "C10"]:
    MORE[prop] = MORE.get(prop, []) + [("words", 1, 1)]

PLAN = {
    "C01": {"models": ["packets"], "suites": [("enc:", 5000, 60000), ("enc:wild", 1500, 20000), ("enc:props", 1500, 20000),
                       ("enc:user", 500, 10000), ("big", 1000, 1000), ("big:max", 0, 1000), ("long", 1000, 0),
                       ("long:all", 0, 5000), ("vast:rt", 0, 1000),
                       ("enc+large:", 100, 1500), ("enc+large:user", 40, 500)]},
    "C02": {"models": ["packets"], "suites": [("enc:", 5000, 60000), ("enc:wild", 1500, 20000), ("enc:props", 1500, 20000),
                       ("big", 1000, 1000), ("big:max", 1000, 1000), ("long", 1000, 0), ("long:all", 0, 5000), ("vast", 1000, 1000),
                       ("enc+large:", 100, 1500)]},
    "C03": {"models": ["packets"], "suites": [("enc:", 5000, 60000), ("enc:plain", 2500, 30000), ("enc:props", 1500, 20000),
                       ("enc:wild", 500, 20000),
                       ("enc+large:", 100, 1500)]},
    "C04": {"models": ["wires", "valid"], "suites": [("dec:plain", 2500, 30000), ("dec:odd", 2000, 20000), ("dec:mix", 2000, 30000),
                       ("dec:mutant", 2000, 30000), ("dec:short", 1000, 10000), ("dec-enum", 10 ** 6, 10 ** 6),
                       ("dec+large:mix", 150, 2000), ("dec+large:user", 50, 500)]},
    "C05": {"models": ["wires"], "suites": [("dec:mutant", 4000, 60000), ("dec:mix", 3000, 40000), ("dec:odd", 1500, 20000),
                       ("dec-enum", 10 ** 6, 10 ** 6),
                       ("dec+large:mutant", 150, 2000)]},
    "C06": {"models": ["packets"], "suites": [("enc:wild", 6000, 80000), ("enc:", 2500, 30000), ("long", 1000, 0), ("long:all", 0, 5000),
                       ("big", 1000, 1000), ("big:max", 1000, 1000), ("big:over", 1000, 1000), ("vast", 1000, 1000),
                       ("enc+large:wild", 100, 1500)]},
    "C07": {"models": ["streams", "decoder", "decoder-nofinish", "decoder-header"], "suites": [("stream", 3000, 30000), ("garbage", 3000, 30000),
                       ("stream+large", 100, 1000)]},
    "C08": {"models": ["streams", "decoder", "decoder-inner"], "suites": [("stream", 3000, 30000), ("garbage", 3000, 30000),
                       ("stream+large", 100, 1000)]},
    "C09": {"models": ["streams-cut", "valid-cut", "decoder", "decoder-swallow", "decoder-partial"], "suites": [("cut", 3000, 20000),
                       ("cut+large", 150, 1500)]},
    "C10": {"models": ["wires", "streams", "decoder-ends"], "suites": [("stream", 2000, 30000), ("garbage", 4000, 40000), ("dec:mutant", 3000, 40000),
                       ("dec-enum", 20000, 10 ** 6),
                       ("dec+large:mutant", 100, 2000), ("dec-enum:protocol name", 10 ** 6, 10 ** 6)]},
    "C11": {"models": ["streams-chunk", "decoder-chunk", "decoder-noretry"], "suites": [("chunk", 3000, 30000),
                       ("chunk+large", 100, 1000)]},
    "C12": {"models": ["reader", "reader-nomin", "reader-noadd", "reader-leak", "reader-never"], "suites": [("rd", 4000, 40000), ("rd-sweep", 1, 1)]},
    "C13": {"models": ["prims", "writer"], "suites": [("wr", 3000, 30000), ("prim", 6000, 60000), ("prim-sweep", 1, 1)]},
    "C14": {"models": ["packets-codes"], "suites": [("codes", 10 ** 6, 10 ** 6), ("code-enc", 10 ** 6, 10 ** 6),
                       ("dec-enum:code,header,protocol name,options", 10 ** 6, 10 ** 6)]},
    "C15": {"models": ["packets-props", "wires", "valid-props"], "suites": [("enc:props", 4000, 50000), ("dec:mix", 2000, 30000), ("dec:plain", 2000, 30000),
                       ("dec-enum:property", 10 ** 6, 10 ** 6),
                       ("enc+large:props", 50, 500), ("dec-enum:property pair", 10 ** 6, 10 ** 6)]},
    "C16": {"models": ["packets", "wires", "valid"], "suites": [("enc:", 5000, 60000), ("dec:mix", 3000, 40000), ("dec:plain", 2000, 20000),
                       ("dec:short", 1000, 10000),
                       ("enc+large:", 50, 500)]},
    "C17": {"models": ["wires-short"], "suites": [("defaults", 1, 1), ("dec:short", 4000, 40000), ("dec:mix", 1500, 20000),
                                                       ("dec-enum:code", 10 ** 6, 10 ** 6)]},
    "C18": {"models": ["packets-user", "valid-user"], "suites": [("enc:user", 4000, 50000), ("dec:user", 4000, 50000),
                       ("enc+large:user", 60, 800), ("dec+large:user", 60, 800)]},
    "C19": {"models": ["packets-acks", "wires-acks", "valid-acks"], "suites": [("ack", 2500, 20000), ("ack-matrix", 10 ** 6, 10 ** 6), ("enc::" + ACKS, 2000, 20000),
                       ("enc:wild:" + ACKS, 2000, 20000), ("dec:mix:" + ACKS, 2000, 20000),
                       ("dec:short:" + ACKS, 1000, 10000),
                       ("enc+large::" + ACKS, 40, 500)]},
    "C20": {"models": ["packets-serde"], "serde": True, "suites": [("serde", 6000, 80000),
                       ("serde+large", 60, 800)]},
    "C21": {"models": ["wires-relay", "valid-relay"], "suites": [("relay", 5000, 60000), ("relay-enum", 10 ** 6, 10 ** 6),
                       ("relay+large", 80, 1000)]},
    "C22": {"models": ["streams-prompt", "decoder-prompt", "decoder-peek"],
            "suites": [("prompt", 6000, 60000), ("prompt+large", 150, 1500)]},
    "C23": {"models": ["wires-memory", "decoder", "decoder-eager", "decoder-hoard"],
            "suites": [("mem", 3000, 30000), ("mem+large", 150, 1500)]},
    "C24": {"models": ["users", "users-buffer", "users-scratch", "users-version", "users-count"],
            "suites": [("share", 4000, 40000), ("share+large", 16, 150), ("share-row", 1500, 10000),
                       ("share-near", 1500, 10000)]},
    "C25": {"models": ["hand", "hand-open", "hand-late", "hand-spare", "hand-early", "streams-hand", "packets-level"],
            "suites": [("level", 3000, 40000), ("level+large", 60, 600), ("hand", 3000, 30000), ("hand+large", 60, 600),
                       ("hand-words", 1, 1)]},
    "C27": {"models": WORK, "suites": [("work", 1, 1)]},
    "C26": {"models": ["pairs"], "suites": [("same", 8000, 80000), ("same+large", 100, 1000)]},
}

for prop, what in SWEEPS.items():
    PLAN[prop]["suites"] = PLAN[prop]["suites"] + sweeps(*what)
for prop, what in MORE.items():
    PLAN[prop]["suites"] = PLAN[prop]["suites"] + what
