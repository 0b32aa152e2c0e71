------------------------------ MODULE MCTransfer ------------------------------
EXTENDS Transfer
Dump == Done => PrintT(ToJson(Result))
=============================================================================
