"""Writes MANIFEST.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from plan import PLAN
T = {
 "C01": ("differential: generated values against a reference encoder", "All types, nesting, offsets; values built through the public classes."),
 "C02": ("differential: encodings made by a reference encoder, in both byte orders and at every offset", "Whole type grammar up to depth 6 (C32 goes to the limit)."),
 "C03": ("round trip and differential on canonical bytes", "As C02."),
 "C04": ("fault injection: every cut and generated length corruption of valid encodings", "Against the reference decoder."),
 "C05": ("fuzzing: mutated and random bytes with sanitizers, CPU and wall limits; libFuzzer in the thorough tier", "Absence of crashes and hangs is tested, not proved; memory growth by huge announced lengths is bounded by C11."),
 "C06": ("differential: messages read back by a reference parser and by libdbus", "All kinds of message."),
 "C07": ("round trip: library to library, over generated chunkings", "All kinds of message."),
 "C08": ("differential: messages made by a reference encoder and by libdbus", "Both byte orders, unknown fields, any field order."),
 "C09": ("metamorphic: the same stream in different chunkings", "Streams of generated messages, bad ones included."),
 "C10": ("fault injection in generated streams: corrupt bodies and throwing handlers, against a model of what must still be delivered", "Header and framing intact."),
 "C11": ("generated headers around the limits, against the rule of the specification", "Also really large messages (128 MiB) in small number."),
 "C12": ("metamorphic: decoder after error and reset against a new one", "Generated errors at generated points."),
 "C13": ("generated multi-threaded histories with a uniqueness oracle; wrap-around by a hook", "Schedules are sampled."),
 "C14": ("stateful: generated histories of calls and replies against a model, with a scripted peer", "Duplicates, unknown serials, errors, any order, throwing callbacks; schedules sampled."),
 "C15": ("stateful: histories of registrations and calls against a model", "Also with registration during traffic."),
 "C16": ("stateful: histories of subscriptions and signals against a model using the reference matcher", "Also with subscription during traffic."),
 "C17": ("differential: generated rules and signals against a reference matcher; malformed rules must be refused", "arg and eavesdrop keys are outside."),
 "C18": ("model-based: generated handshakes by a scripted peer, transcript checked at each step", "Peer scripts of any valid and invalid lines."),
 "C19": ("stateful: generated sends from several threads against what arrives, with a slow and stalling reader", "Schedules sampled."),
 "C20": ("metamorphic: hand-over point in any chunking, against the messages sent", "Real sockets; chunk boundaries forced by waiting."),
 "C21": ("stateful: counters against a model of the history", "Schedules sampled."),
 "C22": ("fault injection: destruction at generated moments and peer behaviours, with sanitizers and a late-call oracle", "Schedules sampled."),
 "C23": ("differential: generated addresses against a reference parser", "One address; no lists."),
 "C24": ("generated interfaces; the XML is parsed by expat and compared with the model", "Structure and attributes."),
 "C25": ("round trip of values through text and number accessors", "All basic types, full range."),
 "C26": ("round trip and minimality over generated strings and sizes", ""),
 "C27": ("model-based: operation sequences against strings and a reference decoder", "Allocated to the exact size, under AddressSanitizer."),
 "C28": ("generated calls; the requests are parsed by the reference parser", "All convenience calls."),
 "C29": ("generated exchanges over a real dbus-daemon with libdbus, against a model of who must receive what", "Reference implementation as oracle."),
 "C30": ("generated multi-threaded histories under ThreadSanitizer, and again with random delays; exact counts as oracle", "Schedules sampled, not enumerated."),
 "C31": ("differential: generated and mutated signatures against a reference parser", "Also through variants and message bodies."),
 "C32": ("boundary generation around the nesting limits", "Values, variants, signatures and messages."),
 "C33": ("differential: captured output against the expected text; metamorphic: same results at every log level", ""),
 "C34": ("stateful: generated re-entrant handlers against a model", "Everything but destruction from within."),
 "C35": ("fault injection: rejected headers, arbitrary bytes and disconnection by a scripted peer, against a model of what must still be delivered; with sanitizers", "Bytes after a rejected header in the same read are left open."),
 "C36": ("stateful: generated histories with tokens held by callbacks; metamorphic: memory after 20 and 140 equal rounds; descriptors, threads and memory after connections of all fates", "Growth of less than 24 bytes a round is not noticed."),
 "C37": ("metamorphic: copies and containers compared after generated changes to the originals and to the memory they came from", "Through the public classes."),
 "C38": ("round-trip: messages made by a reference encoder, delivered, serialised again and read by a strict parser", "Both byte orders, once or twice through the library."),
 "C39": ("model-based: generated accesses to messages, against the values they were made from", "Present and absent arguments, right and wrong types; ASan and UBSan."),
 "C40": ("stateful model-based testing of 2-5 connections at once; metamorphic: interleaved decoders and concurrent threads against what each does alone", "ASan, and again under TSan."),
 "C42": ("metamorphic: generated values, messages and connections under generated locales, against the classic locale and a reference model", "Locales made from facets: no language's locale is installed."),
 "C41": ("metamorphic: the work for generated inputs and histories, counted by instrumentation, against that for four times as much", "A growth of up to 7 times is accepted."),
}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "verification hook"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "./check --setup",
 "hooks": {"guard": "DBUS_ASIO_VERIF", "enable": "./check compiles /repo/src itself, with -DDBUS_ASIO_VERIF", "source_commits": hook},
 "checks": [],
 "not_applicable": [],
 "notes": "All checks: ./check <property> [--tier quick|thorough] [--replay FILE]; see DESIGN.md. Known and fixed findings are in known_findings.txt.",
}
for k in PLAN:
    t, note = T[k]
    m["checks"].append({"property": k, "quick_cmd": "./check %s --tier quick" % k, "thorough_cmd": "./check %s --tier thorough" % k, "evidence_file": "evidence/%s.json" % k,
        "technique": "property-based testing: " + t, "level": "exploration",
        "level_note": ("Holds on all generated cases; failures are shrunk to a replay file. " + note + " Assumes: " + "; ".join(PLAN[k].get("assumptions") or ["the oracle in /verif is right"]) + ".").replace("  ", " ")})
with open(V + "/MANIFEST.json", "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
