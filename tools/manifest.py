#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+/TLC: '
CLAIMED = {
    'C01': ('trace validation of real recon runs against Recon.tla, and model checking of the scan against its declarative result',
            'TLC decides every observed scan (generated images, several appends) against Recon.tla; the scan algorithm itself is checked exhaustively on small images. Images and items are sampled.'),
    'C02': ('trace validation of recon on damaged leaves against Recon.tla, exhaustive model of leaf decoding',
            'as C01, with damaged item counts, offsets and sizes; clamping checked exhaustively for small blocks'),
    'C03': ('trace validation of killed and resumed scans against TraceScan.tla',
            'recon is killed at enumerated system calls (strace -e inject) and at random times; TLC checks that what is left is a prefix of the scan and that a rerun completes it'),
    'C04': ('trace validation of recorded lookups against IndexStore.tla, exhaustive check of the cursor algorithm (IndexAlgo.tla)',
            'all stores over small key sets in the model; random histories with adversarial neighbours on the real code'),
    'C05': ('trace validation of recorded range listings against IndexStore.tla, exhaustive check of the range algorithm',
            'as C04'),
    'C06': ('trace validation of open and create histories against IndexStore.tla, model checking of the open protocol',
            'all combinations of file states and options are generated; histories with locks held by others'),
    'C07': ('trace validation of transaction and crash histories against IndexStore.tla and IndexBulk.tla, model checking of IndexImpl.tla',
            'transaction states explored exhaustively in the model; crashes of a real writing process at many points'),
    'C08': ('trace validation of address translations against IndexStore.tla, model checking of the cached chunk map',
            'all chunk placements over a small address space in the model; random chunk sets on the real code'),
    'C09': ('trace validation of real ls runs against Ls.tla (over Meta.tla)',
            'random filesystems with subvolumes, hash collisions, several versions, cycles, missing inodes; TLC decides every printed listing'),
    'C10': ('trace validation of recovered file contents against Files.tla, exhaustive check of the extent sweep',
            'all sets of overlapping extents over small files in the model; random extents, chunks and sizes on the real code'),
    'C11': ('trace validation of real recover runs against Recover.tla, exhaustive check of the traversal on all small directory graphs',
            'random filesystems with cycles, several names, subvolumes, unusable names, obstacles in the destination'),
    'C12': ('trace validation of real recover runs against Recover.tla, with everything around the destination recorded before and after',
            'hostile names, links and prior destination contents; runs as an unprivileged user in a scratch area'),
    'C13': ('trace validation of sequences of recover runs against Recover.tla, exhaustive check of the traversal with prior contents',
            'random prior contents, repeated runs with and without --clobber'),
    'C14': ('trace validation of histories of commands and requests on watched inputs against Inputs.tla, exhaustive check of what commands and files may meet (MCInputs.tla)',
            'snapshots of image and index before and after every command, every mutating request of the protocol and every way of naming the files (links, same file twice, read-only, missing, not an index)'),
    'C15': ('trace validation of request sequences on a real mount process against View.tla',
            'the client side of the FUSE protocol is played over a socket; random walks over random filesystems, every answer decided by TLC'),
    'C16': ('trace validation of reads on a real mount process against View.tla/Files.tla, exhaustive check of the extent sweep',
            'random windows, interleaved handles, extents, chunks, with and without device'),
    'C17': ('model checking of the request handlers and caches under all interleavings (MCMount.tla), trace validation of pipelined requests on a real mount process, half of them under the race detector',
            'all interleavings of 2-3 requests in the model; bursts of up to 40 requests on the real process; schedules of the real process are sampled'),
    'C18': ('exhaustive check of the selection with every outcome of the random draws (MCSample.tla), trace validation of real selections and identify runs against Identify.tla',
            'device sizes at all superblock boundaries up to 2^63-1, odd block sizes, requested numbers around every limit; termination under fair draws in the model'),
    'C19': ('exhaustive check of counting under every reading order (MCCollect.tla), trace validation of real listings against Identify.tla, with the order of ties as state',
            'random collections fed in many orders to the real collector, and whole devices through the real command'),
    'C20': ('exhaustive check of all short texts (MCIds.tla), trace validation of printed and parsed ids and of recon runs against Identify.tla',
            'random ids, case and dash variants, near misses; end to end from identify to recon'),
    'C21': ('trace validation of real ls, dump-index, recover and mount runs on damaged items against Ls.tla, Recover.tla, View.tla over Meta.tla (which defines what a malformed item is)',
            'every item kind cut short at and around its structure boundaries, lengths past the end, absurd counts, sizes and times, keys that make no sense'),
    'C22': ('trace validation of real dump-index output against IndexStore.tla',
            'random stores including reserved, extreme and empty ones'),
    'C23': ('trace validation of real recon, identify, recover and mount runs with injected system call failures against TraceScan.tla, Recover.tla/Files.tla and View.tla, exhaustive model of scan and copy with failures at any point (MCFaults.tla)',
            'strace makes chosen calls of our own children fail (once, repeatedly, from then on); its log of what failed is part of the trace and decides what is excused'),
    'C24': ('exhaustive check of the order of checks and effects of every command (MCCommands.tla), trace validation of real command lines with any number of things wrong against Commands.tla',
            'random combinations of options (every spelling and order), environment, arguments and states of index, image and destination; everything around is compared before and after; a stand-in records calls of the mount helper'),
}
PENDING = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1,
     'setup_cmd': 'bash tools/setup.sh',
     'checks': [{'property': p,
                 'quick_cmd': 'python3 check.py ' + p,
                 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                 'evidence_file': 'evidence/%s.json' % p,
                 'technique': T + CLAIMED[p][0], 'level': 'model_checking', 'level_note': CLAIMED[p][1]}
                for p in props if p in CLAIMED],
     'not_applicable': [{'property': p, 'reason': PENDING.get(p, 'The check is still being built.')}
                        for p in props if p not in CLAIMED]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
