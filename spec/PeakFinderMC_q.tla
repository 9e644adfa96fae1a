--------------------------- MODULE PeakFinderMC_q ---------------------------
EXTENDS PeakFinderMC
QDoms == {Mk(<<0>>, <<5>>), Mk(<<1, -1>>, <<3, 2>>), Mk(<<0, 0>>, <<2, 3>>)}
QWins == {<<1>>, <<2>>, <<1, 1>>, <<0, 1>>}
TDoms == QDoms \cup {Mk(<<0>>, <<7>>), Mk(<<0, 0>>, <<4, 2>>), Mk(<<0, 0, 0>>, <<2, 2, 2>>)}
TWins == QWins \cup {<<3>>, <<2, 1>>, <<1, 0>>, <<1, 1, 1>>}
=============================================================================
