----------------------------- MODULE FilesDefs -----------------------------
(* Which program reads and writes what. *)
Programs == {"pre_process", "rasterize", "multipliers", "convert"}
Inputs == {"layers", "elevation", "table"}
Reads(p) == CASE p = "pre_process" -> {"layers", "elevation"}
              [] p = "rasterize"   -> {"shape", "elevation"}
              [] p = "multipliers" -> {"raster", "elevation", "table"}
              [] p = "convert"     -> {"results"}
Writes(p) == CASE p = "pre_process" -> {"shape", "raster"}
               [] p = "rasterize"   -> {"raster"}
               [] p = "multipliers" -> {"results", "m3"}
               [] p = "convert"     -> {"m3"}
Outputs == UNION {Writes(p) : p \in Programs}
\* the folders of a kind of output, as they are told apart in a record
Roles(p) == {"log"} \cup (CASE p = "multipliers" -> {"out"} [] OTHER -> Writes(p))
=============================================================================
