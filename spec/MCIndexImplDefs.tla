--------------------------- MODULE MCIndexImplDefs ---------------------------
EXTENDS MCIndexImpl
TxKeys == {<<1, 84, 2, 1, 2>>, <<1, 84, 2, 1, 4>>, <<7, 84, 2, 1, 4>>}
TxOpens == {<<FALSE, 1, 1, 7>>, <<TRUE, 1, 1, 3>>}
OpenKeys == {<<1, 84, 2, 1, 2>>}
OpenKinds == {"none", "empty", "garbage", "nobucket", "nohdr", "short", "ok"}
OpenOpens == {<<ro, fs, bs, 7>> : ro \in BOOLEAN, fs \in 1..2, bs \in 1..2}
ChunkKeys == {<<3, 228, 4, 0, 2>>, <<3, 228, 4, 2, 2>>, <<3, 228, 4, 2, 3>>}
ChunkOpens == {<<FALSE, 1, 1, 2>>}
None == {}
ChunkAddrs == 0..7
=============================================================================
