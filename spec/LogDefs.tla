------------------------------ MODULE LogDefs ------------------------------
(* What belongs into a log. *)
EXTENDS Naturals, Sequences

Level(name) == CASE name = "DEBUG" -> 10 [] name = "INFO" -> 20 [] name = "WARNING" -> 30
                 [] name = "ERROR" -> 40 [] name = "CRITICAL" -> 50
\* of messages <<level, ...>>, in the order they were given: those of the level and above
AtLeast(ms, l) == SelectSeq(ms, LAMBDA m : m[1] >= l)
\* the log of a process: the configured file, or one in the working directory
\* if its folder cannot be; the number of the process (not of the first)
LogOf(dirOk, p) == <<IF dirOk THEN "configured" ELSE "fallback", p>>
=============================================================================
