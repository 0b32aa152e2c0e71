--------------------------- MODULE TracePretransfer ---------------------------
EXTENDS Pretransfer, CharConform
===============================================================================
