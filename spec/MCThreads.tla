----------------------------- MODULE MCThreads -----------------------------
EXTENDS Threads
MCKeys == {1, 2}
MCCoefs == {1, -1}
=============================================================================
