------------------------------- MODULE Events -------------------------------
(* Which event is explained under which property.                            *)
EXTENDS Contract

Explains(P, e) ==
  CASE e.k = "conv" -> (CASE P = "C01" -> C01(e) [] P = "C02" -> C02(e) [] P = "C03" -> C03(e) [] P = "C04" -> C04(e)
                          [] P = "C05" -> C05(e) [] P = "C06" -> C06(e) [] P = "C07" -> C07(e) [] P = "C08" -> C08(e)
                          [] P = "C15" -> C15(e) [] P = "C16" -> C16(e) [] P = "C17" -> C17(e)
                          [] P \in {"C21", "C22"} -> Correct(e) [] OTHER -> FALSE)
    [] e.k = "text" -> (CASE P = "C09" -> C09(e) [] P = "C10" -> C10(e) [] P = "C15" -> C15(e) [] P = "C16" -> C16t(e) [] OTHER -> FALSE)
    [] e.k = "buf" /\ P = "C11" -> C11(e)
    [] e.k = "ryu" /\ P = "C20" -> C20(e)
    [] e.k = "cfg" /\ P = "C12" -> C12(e)
    [] e.k = "insp" /\ P = "C14" -> C14(e)
    [] e.k = "short" /\ P = "C18" -> C18(e)
    [] e.k = "handler" /\ P = "C19" -> C19(e)
    [] e.k \in {"pow", "range"} /\ P = "C21" -> C21(e)
    [] e.k = "arith" /\ P = "C22" -> C22(e)
    [] e.k = "forms" /\ P = "C23" -> C23(e)
    [] OTHER -> FALSE
=============================================================================
