"""What decides each property: the harness in props/, and how it is built and run.

group      the source(s) in props/ it is in
flavours   how it is built, one run for each (default: asan)
no_hook    can be built without the hook in /repo, leaving a part out
quick      factor on the number of cases in the quick tier
fuzz       parts that are also explored by libFuzzer in the thorough tier
"""
ENC = ["the reference encoder, decoder and parser in pbt/ (written from the D-Bus specification) are right; libdbus 1.14 is used as a second opinion where it can be"]
NET = ["the peer is a scripted server in the same process, on an abstract unix socket; Linux only",
       "a wait of 25 s for something that is due counts as never"]
SCHED = ["schedules are sampled: by the threads themselves and by random delays at pthread lock operations, not enumerated"]
PLAN = {
    "C01": dict(group="codec", quick=3, assumptions=ENC),
    "C02": dict(group="codec", quick=6, fuzz=["decode"], assumptions=ENC),
    "C03": dict(group="codec", quick=6, fuzz=["reencode"], assumptions=ENC),
    "C04": dict(group="codec", quick=6, fuzz=["truncated"], assumptions=ENC),
    "C05": dict(group="codec+message", quick=2, fuzz=["values", "streams"], fuzz_s=600,
                assumptions=["memory errors are what AddressSanitizer and UBSan report; a loop is more than 20 s of CPU time for one case"]),
    "C06": dict(group="message", quick=2, assumptions=ENC),
    "C07": dict(group="message", quick=2, assumptions=ENC),
    "C08": dict(group="message", quick=3, fuzz=["any valid"], assumptions=ENC),
    "C09": dict(group="message", quick=3, fuzz=["chunks"], assumptions=ENC),
    "C10": dict(group="message+native", quick=3, fuzz=["bad messages"], assumptions=ENC + NET + SCHED),
    "C11": dict(group="message", quick=3, assumptions=ENC),
    "C12": dict(group="message", quick=3, fuzz=["reset"], assumptions=ENC),
    "C13": dict(group="serial", no_hook=True, quick=1, assumptions=SCHED),
    "C14": dict(group="native", quick=0.8, assumptions=NET + SCHED),
    "C15": dict(group="native", assumptions=NET + SCHED),
    "C16": dict(group="native", assumptions=NET + SCHED),
    "C17": dict(group="misc", quick=3, fuzz=["matching", "refused"], assumptions=["the reference matcher in props/misc.cpp, written from the D-Bus specification, is right"]),
    "C18": dict(group="native", quick=2, assumptions=NET),
    "C19": dict(group="native", quick=2.5, assumptions=NET + SCHED),
    "C20": dict(group="native", assumptions=NET),
    "C21": dict(group="native", quick=1.5, assumptions=NET + SCHED),
    "C22": dict(group="native", quick=4, assumptions=NET + SCHED),
    "C23": dict(group="misc", quick=20, fuzz=[""], assumptions=[]),
    "C24": dict(group="misc", quick=4, assumptions=["expat decides well-formedness"]),
    "C25": dict(group="codec", quick=8, fuzz=["basic"], assumptions=ENC),
    "C26": dict(group="codec", quick=6, assumptions=[]),
    "C27": dict(group="codec", quick=6, fuzz=["buffer", "istream", "ostream"], assumptions=[]),
    "C28": dict(group="native", quick=2, assumptions=NET),
    "C29": dict(group="daemon", quick=6, assumptions=["dbus-daemon and libdbus 1.14 are the reference; one daemon for each worker"] + NET[1:]),
    "C30": dict(group="threads", flavours=["tsan", "asan"], quick=1.5,
                assumptions=SCHED + ["data races and lock-order inversions are what ThreadSanitizer reports; a second run without it looks for real deadlocks and lost messages"]),
    "C31": dict(group="codec+message", quick=6, fuzz=["split", "malformed"], assumptions=ENC),
    "C32": dict(group="codec+message", assumptions=ENC),
    "C33": dict(group="misc", quick=4, assumptions=[]),
    "C34": dict(group="native", quick=3, assumptions=NET),
    "C35": dict(group="native", quick=1.5, assumptions=NET),
    "C36": dict(group="resource", assumptions=NET + ["memory in use is what AddressSanitizer's allocator counts"]),
    "C37": dict(group="codec+message", quick=3, assumptions=ENC),
    "C38": dict(group="message", quick=2, fuzz=["sent on"], assumptions=ENC),
    "C40": dict(group="several", flavours=["asan", "tsan"], assumptions=NET + SCHED),
    "C41": dict(group="work", flavours=["counted"],
                assumptions=["work is the number of branches the library takes, and a sixteenth of the bytes copied, compared and searched for it; what the kernel and boost's shared libraries do is not counted"]),
    "C42": dict(group="locale", quick=2, fuzz=["values", "messages"], assumptions=["locales are made from the facets of std::locale, as no language's locale is installed"] + ENC + NET),
    "C39": dict(group="message", quick=2, fuzz=["arguments"], assumptions=ENC),
}
