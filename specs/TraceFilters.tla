----------------------------- MODULE TraceFilters -----------------------------
EXTENDS Filters, CharConform
\* opt.t says which of the two tools the record is from
FStart(opt) == IF opt.t = "x" THEN XStart(opt) ELSE CStart(opt)
FStep(s, c, opt) == IF opt.t = "x" THEN XStep(s, c, opt) ELSE CStep(s, c, opt)
FStop(s, opt) == IF opt.t = "x" THEN XStop(s, opt) ELSE CStop(s, opt)
===============================================================================
