"""Writes MANIFEST.json from the plans that exist."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
import plans
T = {"dealer": "TLA+ model checking (TLC) of Dealer.tla; TLC-generated histories replayed on the real Dealer, recorded runs judged by TLC against the specification",
     "broker": "TLA+ model checking (TLC) of Broker.tla; TLC-generated histories replayed on the real Broker, recorded runs judged by TLC against the specification",
     "both": "TLA+ model checking (TLC) of Dealer.tla and Broker.tla; TLC-generated histories replayed on the real code, recorded runs judged by TLC",
     "session": "TLA+ model checking (TLC) of Session.tla; TLC-generated histories replayed on the real client Session, recorded runs judged by TLC",
     "conc": "TLA+ linearizability search (TLC) over concurrent histories recorded from the real code, plus race detector on the same runs",
     "hs": "TLA+ model checking (TLC) of Handshake.tla; TLC-generated adversarial handshakes replayed on the real Acceptor/Joiner, recorded runs judged by TLC",
     "codec": "TLA+ message grammar (Codec.tla); TLC-enumerated abstract messages concretised, sent through the real codecs, observations judged by TLC",
     "ids": "TLA+ specification of the id generators; recorded runs of the real generators judged by TLC",
     "e2e": "TLA+ model checking (TLC) of System.tla (clients, channels, router); TLC-generated schedules replayed on real joiner, acceptor, sessions, dealer, broker, recorded runs judged by TLC"}
KIND = {}
for k, ps in {"broker": "C01 C02 C04 C05", "both": "C03 C12 C14", "dealer": "C06 C07 C08 C09 C10 C11 C13", "session": "C15 C16",
              "conc": "C17 C27", "hs": "C18 C19 C20 C21", "codec": "C22 C23 C24 C25", "ids": "C26", "e2e": "C28"}.items():
    for p in ps.split():
        KIND[p] = k
NOTE = ("Exhaustive for the specification within the constants listed in the evidence file; for the code it holds on the "
        "generated histories and inputs that were replayed (counted in the evidence file). Trusted: TLC, the harness's encoding of requests and "
        "observations, and the limits listed in DESIGN.md.")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[KIND[i]], "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; conformance harness in harness/ (public API only, no hooks in /repo); see DESIGN.md."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
