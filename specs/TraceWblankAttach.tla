-------------------------- MODULE TraceWblankAttach --------------------------
EXTENDS Wblank, CharConform
===============================================================================
