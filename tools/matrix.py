#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # caught only after the check was strengthened: what was added
 'P06-own-identity': 'bundles of other devices of the same identity',
 'P15-sixty-chains': 'senders who start up to the limit of chains',
 'P30-group-future': 'messages beyond the limits ahead, with the keys known',
 'P23-long-message': 'messages of several MiB, altered anywhere',
 'P07-encrypt-saves': 'saved identities forgotten or set by the application',
 'P12-group-store-first': 'numbering of group chains',
 'P14-keep-useful': 'skipped messages in every archived session',
 'P17-seed-of-next': 'descriptions compared at every iteration of long chains',
 'P22-empty-iv': 'IVs of no bytes',
 'P33-other-device': 'what operations read',
 'P08-high-prekey-kept': 'prekey IDs at the ends of the range',
 'P12-unwrapped-late': 'monologues of more than 64 opening messages',
 'P22-iv-half': 'each bit of a drawn IV must vary',
 'P31-signed-prekey-timestamp': 'timestamps compared exactly with the clock',
 'P33-address-string': 'address texts of distinct addresses must differ',
 'P01-swap-remove': 'aged chains, window edges',
 'P08-reestablished-kept': 'veteran records full of archived sessions',
 'P16-verify-first': 'forgeries signed with the key of another chain of the record',
 'P33-retire-signed': 'signed prekeys with timestamps far in the past and future, and stores that list them',
 'P30-damaged-record': 'damaged records of every kind, with something after them',
 'P22-pieces': 'plaintexts longer than 64 KiB',
 'P32-large-inplace': 'messages around the sizes of buffers, 4 KiB to 128 KiB',
 'P10-previous-16': 'chains with high numbers in the compared histories',
 'P34-archived-version': 'devices registered anew under the same identity',
 'P29-busy': 'handlers that take their time while many results queue up',
 'P31-id-mask': 'start IDs around 2^16, 2^24 and 2^31',
 'P08-masked-id': 'prekey IDs above 24 bits',
 'P31-orders': 'batches of thousands of prekeys',
 'P30-evicted-keys': 'records taken past each of their limits, with the keys dropped on the way known',
 'P18-rotate': 'senders whose chains have high numbers describe them',
 'P27-trailing': 'envelopes with something around them',
 'P01-total-limit': 'gaps on several chains, together more than one chain may have',
 'P19-bundle-identity': 'bundles of every mixture of parts, trusted or not',
 'P21-json-newline': 'the exact text of stored prekeys',
 'P32-serialize-cache': 'bytes got from public keys overwritten by their caller',
}
try:
    MISSED.update(json.load(open(os.path.join(here, 'tools', 'missed.json'))))
except FileNotFoundError:
    pass
rows = []
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); i = f.split('/')[-2]
    rows.append(f"| {i} | {m['needs'].strip()} | {m['property']}{' (after adding: ' + MISSED[i] + ')' if i in MISSED else ''} |")
start, end = '<!-- planted -->', '<!-- /planted -->'
p = os.path.join(here, 'DESIGN.md'); s = open(p).read()
a, b = s.index(start) + len(start), s.index(end)
open(p, 'w').write(s[:a] + '\n| planted bug | needs | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n' + s[b:])
print(len(rows))
