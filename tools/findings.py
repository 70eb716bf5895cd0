#!/usr/bin/env python3
# Writes known-findings.json. Run by hand when a finding or a fix is added; no check runs it.
import json, subprocess
known = [
 ("P17", "concat-collision:goleveldb", 'goleveldb backend: bucket id and key are concatenated without separator, so bucket "" key "Sx" and bucket "S" key "x" are one entry (repair would change the on-disk key format)'),
 ("P17", "concat-collision:badgerdb", 'badger backend: bucket id and key are concatenated without separator, so bucket "" key "Sx" and bucket "S" key "x" are one entry (repair would change the on-disk key format)'),
 ("P35", "stray-error", 'nativecoin NativeCoinService.responseSuccess/responseError answer with the positive serial number of the other network\'s transfer; when an owner drops such an answer (dropMessage), the error for it makes handleBTPError refund the service\'s own transfer of the same number, which goes on to succeed, e.g. [nat A, dl AB, nat B, drop BA, dl AB] (a repair needs a serial number in TransferResponse, a change of the wire format)'),
 ("P10", "list-leading-empty", 'chain/icon/client/serialize.go serializeList: leading empty strings of a list leave no trace, so [""] and [] (or ["","a"] and ["a"]) are signed alike (a repair here alone would make signatures that the ICON node, which serialises the same way, refuses)'),
]
# subject of the fix commit -> properties
fixed = {
 "mbt: Add after 7": ["P11"], "mta: witness and node": ["P12"], "mta: newer witness": ["P12"], "mta: malformed witness": ["P12"],
 "db: badger Has": ["P17"], "db: layer bucket": ["P18"], "codec: RLP sizes": ["P15"], "codec: RLP integers": ["P14"],
 "address: empty": ["P15", "P22"], "mpt: proof": ["P23", "P15"], "crypto: ParseSignatureVRS": ["P20"], "icon client: malformed HexBytes": ["P15", "P19", "P22"],
 "crypto: invalid keys": ["P20"], "crypto: ParsePublicKey": ["P20"], "errors: CodeOf": ["P26"], "wallet: malformed": ["P21"], "wallet: key store with zero": ["P21"],
 "link: a relay result": ["P02"], "link: relay loop crashed": ["P01"], "link: unconfirmed": ["P02"], "link: messages over": ["P01"], "link: errors of": ["P01"], "link: an old block": ["P02"],
 "icon client: monitors": ["P25"], "icon client: closing": ["P25"], "receivers: Stop before": ["P03", "P04"], "eth client: closing": ["P06"], "receivers: failed": ["P03", "P04", "P05"], "btp2: wrong": ["P03"], "receivers: block update": ["P03", "P04", "P05"], "bridge: blocks": ["P04"], "ethbr: events": ["P05"], "ethbr: event seq": ["P05"], "eth client: block monitor": ["P06"],
 "jsonrpc: null": ["P24"],
 "icon client: short": ["P07", "P08"], "icon sender: message of exactly": ["P07"], "senders: failed": ["P08", "P09"], "senders: Stop": ["P08", "P09"], "eth client: revert": ["P09"], "ethbr: link status": ["P09"], "icon sender: null": ["P08"], "eth sender: requests": ["P09"],
 "cli: inline": ["P27"], "relay: unreadable": ["P21"], "relay: save moved": ["P27"], "relay: save's key store": ["P39"], "relay: error of a link": ["P28"],
 "bmc: report any revert": ["P30"], "bmc: collect the remaining fee of a message once": ["P31"], "bmc: collect the remaining fee of a dropped": ["P31"], "bmc: credit a claim": ["P31"], "bmc: removeLink": ["P33"],
 "bmv/btpblock: hash the whole": ["P29"], "bmv/btpblock: message numbers": ["P29"], "bmv/bridge: return": ["P32"], "nativecoin: transfer every": ["P35"], "bmv/icon: return": ["P36"], "fee-aggregation: ": ["P37"],
}
try:
    from findings_more import fixed_more, known_more
    fixed.update(fixed_more); known += known_more
except ImportError:
    pass
out = [{"property": p, "key": k, "status": "known", "what": w} for p, k, w in known]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    ps = [v for k, v in fixed.items() if s[5:].startswith(k)]
    if not ps: raise SystemExit("no property for " + s)
    for p in ps[0]:
        out.append({"property": p, "key": "", "status": "fixed", "what": f"fixed: property={p} {h} {s[5:]}"})
json.dump(out, open("/verif/known-findings.json", "w"), indent=1)
