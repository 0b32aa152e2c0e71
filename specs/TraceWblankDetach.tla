-------------------------- MODULE TraceWblankDetach --------------------------
EXTENDS Wblank, CharConform
===============================================================================
