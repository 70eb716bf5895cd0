import json,glob,os,re
keys=dict(l.split() for l in """p01-size-carried gap
p02-id-position message
p03-empty-blocks announce-missing
p04-resume-after-block announce-missing
p05-last-event announce-seq
p06-retry-not-renewed polling
p07-expired-resend fresh
p08-last-revert-code result
p09-colon-in-text result
p10-key-unescaped injective
p13-flush-early-state witness
p14-list-size-boundary encode
p15-long-list-header panic
p17-badger-empty-value has
p18-commit-loses-pending underlying
p18-empty-value-deleted underlying
p19-negative-boundary HexInt
p20-vrs-recovery-bits signature-vrs
p21-mac-prefix tampered-other-password
p22-network-split btp-validate
p23-branch-link unlinked
p24-error-with-result success
p25-remote-key stuck
p26-withcode-origin is
p27-resolve-relative identity
p28-mode-of-peer refused
p29-repeated-signatures accepted
p30-failed-request-answerable answered-twice
p31-claim-before-clearing balance
p32-height-of-empty-proof height
p33-relays-survive-link relays
p34-rollback-reentered twice
p35-reclaim-reentered events
p36-validators-of-first-block refused
p37-failed-claim-unlocked available
p37-withdrawal-reentered events
p38-forwarded-fields-leak file
p38-module-level-with-file console
p11-right-half-unverified tamper
p12-last-of-older-witness verify-accepts
p39-required-by-section missing
p39-secret-of-other-side wallet""".splitlines())
out=["| planted bug | caught by | needs |","|---|---|---|"]
for f in sorted(glob.glob('seeded/*/meta.json')):
    i=f.split('/')[1];m=json.load(open(f))
    out.append(f"| {i} | {m['property']} `{keys.get(i,'')}` | {m['needs']} |")
s=open('DESIGN.md').read()
a=s.index('## 3. Planted bugs');b=s.index('Planted bugs that were missed at first')
s=s[:a]+"## 3. Planted bugs and the checks that catch them\n\n"+"\n".join(out)+"\n\n"+s[b:]
open('DESIGN.md','w').write(s)
