-------------------------- MODULE MCIndexQueryDefs --------------------------
EXTENDS MCIndexQuery
\* Ranks: 0..5 small, RLast = 6, RMax = 7
MCUniverse == {<<1, 84, 2, 1, 2>>, <<1, 84, 2, 1, 4>>, <<1, 84, 2, 2, 2>>,
               <<1, 84, 2, 2, 4>>, <<1, 84, 3, 1, 3>>, <<1, 96, 2, 1, 3>>,
               <<2, 84, 2, 1, 4>>, <<2, 255, 6, 7, 7>>, <<1, 84, 2, 1, 7>>}
MCSmall == MCUniverse \ {<<1, 84, 2, 1, 7>>, <<1, 84, 3, 1, 3>>}
MCQueries == {<<84, 2, 0>>, <<84, 2, 7>>, <<0, 0, 0>>}
=============================================================================
