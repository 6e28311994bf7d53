-------------------------- MODULE MCIndexStoreDefs --------------------------
EXTENDS MCIndexStore
MCKeys == {<<1, 84, 2, 1, 2>>, <<1, 84, 2, 1, 4>>, <<7, 84, 2, 1, 4>>}
MCKinds == {"none", "garbage", "nobucket", "nohdr", "short", "ok"}
=============================================================================
