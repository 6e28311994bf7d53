-------------------------------- MODULE Recon --------------------------------
(* A scan of an image for the metadata of one filesystem.                     *)
(*                                                                            *)
(* An image is a record with the block size bs, the device size and the       *)
(* sequence of its interesting blocks in device order, each decoded as far as *)
(* its bytes go: [at, fsid, level, n, owner, gen, slots], where slots holds   *)
(* the item headers that fit the block, [k |-> <<type, id, offset>>, off,     *)
(* size].  Sizes of items above 2^30 are given as 2^30.  Positions on the      *)
(* device and its size are pairs of Mebibytes and bytes.                      *)
(*                                                                            *)
(* An index maps version keys to the place <<image, block, slot>> its item    *)
(* was read from.                                                             *)
EXTENDS Order

CONSTANTS HeaderLen, ItemLen, SuperOffset, ReservedOwner

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

FirstBlock(img) == SuperOffset + img.bs

Mega == 1048576
Add(p, n) == <<p[1] + ((p[2] + n) \div Mega), (p[2] + n) % Mega>>
AtMost(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])

Scanned(img, b) ==
    /\ AtMost(<<0, FirstBlock(img)>>, b.at)
    /\ ((b.at[1] * (Mega % img.bs) + b.at[2]) - FirstBlock(img)) % img.bs = 0
    /\ AtMost(Add(b.at, img.bs), img.size)

\* Number of item headers inside the block
NumItems(img, b) == Min2(b.n, (img.bs - HeaderLen) \div ItemLen)

Contributes(img, b, fsid) ==
    Scanned(img, b) /\ b.fsid = fsid /\ b.level = 0 /\ b.owner # ReservedOwner

KeyAt(b, s) == <<b.owner, b.slots[s].k[1], b.slots[s].k[2], b.slots[s].k[3], b.gen>>

\* First byte and number of bytes of the item's data that are in the block
DataStart(img, it) == Min2(HeaderLen + it.off, img.bs)
DataLen(img, it) == Min2(DataStart(img, it) + it.size, img.bs) - DataStart(img, it)

\* Places <<block, slot>> of all items, in the order of the scan
RECURSIVE PlacesFrom(_, _, _)
PlacesFrom(img, fsid, n) ==
    IF n > Len(img.blocks) THEN <<>>
    ELSE LET b == img.blocks[n]
         IN  (IF Contributes(img, b, fsid) THEN [s \in 1..NumItems(img, b) |-> <<n, s>>] ELSE <<>>)
             \o PlacesFrom(img, fsid, n + 1)
Places(img, fsid) == PlacesFrom(img, fsid, 1)

KeyOf(img, p) == KeyAt(img.blocks[p[1]], p[2])

(* The index after collecting the items at a sequence of places of image      *)
(* number m: of several places with the same key the last one counts          *)
Collect(old, img, m, places) ==
    FoldLeft(LAMBDA ix, p : (KeyOf(img, p) :> <<m, p[1], p[2]>>) @@ ix, old, places)

After(old, img, m, fsid) == Collect(old, img, m, Places(img, fsid))

\* All indexes an interrupted scan may leave behind
Interrupted(old, img, m, fsid) ==
    LET all == Places(img, fsid)
    IN  {Collect(old, img, m, SubSeq(all, 1, n)) : n \in 0..Len(all)}
=============================================================================
