#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from the monitors that are registered.
import json,os,subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":"runtime monitor: reference codec as oracle over generated messages and loopback frames",
"C02":"runtime monitor: permutation oracle, object fingerprints, Go race detector on concurrent encoders",
"C03":"runtime monitor: re-encoding oracle on accepted mutations",
"C04":"runtime monitor: panic, exit and allocation watch on hostile bytes",
"C05":"runtime monitor: stream-position and limit oracle over frame sequences",
"C06":"runtime monitor: independent cycle checker as oracle over generated near-cycles",
"C07":"runtime monitor: independent header-rule oracle over mined and altered headers",
"C08":"runtime monitor: binding oracle over altered mined headers, independent hash and difficulty",
"C09":"runtime monitor: independent secp256k1/Schnorr model as oracle",
"C10":"runtime monitor: defect-planting oracle over bodies under a mined header",
"C11":"runtime monitor: independent integer retarget model as oracle",
"C12":"runtime monitor: model of the stored chain as oracle, storage recorder",
"C13":"runtime monitor: independent chain-rule oracle, state and storage fingerprints",
"C14":"runtime monitor: corruption oracle over stored chains",
"C15":"runtime monitor: Go race detector, return watch, linearisation bounds on recorded histories",
"C16":"runtime monitor: independent SipHash model as oracle",
"C17":"runtime monitor: independent secp256k1 arithmetic as oracle",
"P01":"runtime monitor: hostile scripted peers, liveness watch on bystanders and process",
"P02":"runtime monitor: trace checker of reply streams against a request model",
"P03":"runtime monitor: offline checker of labelled message streams (integrity, exactly once, order)",
"P04":"runtime monitor: fault injection with goroutine, descriptor and socket leak monitors",
"P05":"runtime monitor: ban-history model checked against pool, replies, dials and connections",
"P06":"runtime monitor: relay conservation checker on the streams of all peers",
"P07":"runtime monitor: connection accounting at scripted peers over fault histories",
"P08":"runtime monitor: address-table model as oracle over operation histories",
"P09":"runtime monitor: handshake oracle over generated and cut-off handshakes",
"P10":"runtime monitor: shutdown watch (return, dials, sockets, goroutines) over state mixes",
"P11":"sanitizer: Go race detector under a mixed network workload",
"P12":"runtime monitor: peer-record model checked after each acknowledged message",
"P13":"runtime monitor: order-based progress checks while scripted peers stall",
}
LEVEL="Exploration: holds on every execution observed with the generators and faults of this check; the oracle is independent code. Assumes the standard library, the Go runtime and the harness's own models."
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
have=set(subprocess.check_output([root+"/bin/vh","-list"],text=True).split())
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[],
 notes="One Go program (harness/) holds all monitors; check.sh builds it against /repo's working tree. The build tag verif makes the proof-of-work verifier ask the harness for proofs that count as valid (cuckoo/verif_on.go), so that headers need not be mined. Findings: known-findings.jsonl.",
 hooks=dict(guard="build tag verif",enable="go build -tags verif (check.sh and setup.sh)",source_commits=["25f2ae6"]))
for i in ids:
    if i in have:
        m["checks"].append(dict(property=i,quick_cmd=f"bash check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
          evidence_file=f"evidence/{i}.json",technique=T[i],level="exploration",level_note=LEVEL))
    else:
        m["not_applicable"].append(dict(property=i,reason="The check is under construction."))
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
