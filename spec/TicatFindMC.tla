---------------------------- MODULE TicatFindMC ----------------------------
EXTENDS TicatFind, Json
CONSTANT Family
Node(p, up, n) == [path |-> p, up |-> up, name |-> n, abbrs |-> <<>>, tags |-> <<>>, src |-> "SrcA", ty |-> "executable-file", help |-> "", exe |-> "", args |-> <<>>,
                   val |-> <<>>, arg2env |-> <<>>, ops |-> <<>>, deps |-> <<>>, quiet |-> FALSE, tb |-> "", te |-> "", td |-> "", flow |-> <<>>, meta |-> ""]
Exe(n, f) == [n EXCEPT !.exe = f \o ".bash", !.meta = f \o ".bash.ticat"]
NODES == <<[Exe(Node("Qa", "", "Qa"), "SrcA/Qa") EXCEPT !.help = "HqW HqV", !.tags = <<"Tq">>, !.args = <<[names |-> <<"Aq", "Ar">>, def |-> "1", enum |-> <<>>]>>],
           [Exe(Node("Qa.Qb", "Qa", "Qb"), "SrcA/Qa/Qb") EXCEPT !.tags = <<"Tq", "Tr">>, !.ops = <<[k |-> "Kq", ops |-> <<"read", "may-write">>]>>, !.abbrs = <<"Zq">>],
           [Exe(Node("Qa.Qb.Qc", "Qa.Qb", "Qc"), "SrcA/Qa/Qb/Qc") EXCEPT !.help = "HqV", !.val = <<[k |-> "Kq", v |-> "hush"]>>],
           [Node("Qd", "", "Qd") EXCEPT !.ty = "flow", !.src = "SrcB", !.flow = <<"dummy">>, !.tags = <<"Tr">>, !.help = "Qa", !.quiet = TRUE, !.meta = "SrcB/Qd.tiflow"]>>
CH == [x \in {"Qa", "Qb", "Qc", "Qd", "Qa.Qb", "Qa.Qb.Qc", "SrcA", "SrcB", "", "executable-file", "flow", "HqW HqV", "HqV", "Tq", "Tr", "Aq", "Ar", "Kq", "Zq", "read", "write", "may-write", "quiet",
              "SrcA/Qa.bash", "SrcA/Qa/Qb.bash", "SrcA/Qa/Qb/Qc.bash", "hush", "@T", "Src", "q", "b.Q", "pwd", "password", "passphrase", "secret", "private", "w"} |->
   CASE x = "Qa" -> <<"Q","a">> [] x = "Qb" -> <<"Q","b">> [] x = "Qc" -> <<"Q","c">> [] x = "Qd" -> <<"Q","d">> [] x = "Qa.Qb" -> <<"Q","a",".","Q","b">>
     [] x = "Qa.Qb.Qc" -> <<"Q","a",".","Q","b",".","Q","c">> [] x = "SrcA" -> <<"S","r","c","A">> [] x = "SrcB" -> <<"S","r","c","B">> [] x = "" -> <<>>
     [] x = "executable-file" -> <<"e","x","e","c","u","t","a","b","l","e","-","f","i","l","e">> [] x = "flow" -> <<"f","l","o","w">>
     [] x = "HqW HqV" -> <<"H","q","W"," ","H","q","V">> [] x = "HqV" -> <<"H","q","V">> [] x = "Tq" -> <<"T","q">> [] x = "Tr" -> <<"T","r">>
     [] x = "Aq" -> <<"A","q">> [] x = "Ar" -> <<"A","r">> [] x = "Kq" -> <<"K","q">> [] x = "Zq" -> <<"Z","q">> [] x = "read" -> <<"r","e","a","d">>
     [] x = "write" -> <<"w","r","i","t","e">> [] x = "may-write" -> <<"m","a","y","-","w","r","i","t","e">> [] x = "quiet" -> <<"q","u","i","e","t">>
     [] x = "SrcA/Qa.bash" -> <<"S","r","c","A","/","Q","a",".","b","a","s","h">> [] x = "SrcA/Qa/Qb.bash" -> <<"S","r","c","A","/","Q","a","/","Q","b",".","b","a","s","h">>
     [] x = "SrcA/Qa/Qb/Qc.bash" -> <<"S","r","c","A","/","Q","a","/","Q","b","/","Q","c",".","b","a","s","h">>
     [] x = "@T" -> <<"@","T">> [] x = "Src" -> <<"S","r","c">> [] x = "q" -> <<"q">> [] x = "b.Q" -> <<"b",".","Q">> [] x = "w" -> <<"w">> [] OTHER -> <<"~">>]
Words == {"Qa", "HqV", "Tr", "@T", "Aq", "Kq", "Zq", "write", "SrcB", "b.Q", "quiet", "executable-file"}
Ask1(k) == [kind |-> k, words |-> <<>>, branch |-> "", source |-> "", tag |-> "", depth |-> 0, mode |-> "lite", key |-> "", bare |-> FALSE]
Branches == {"", "Qa", "Qa.Qb", "Qd"}
Queries == {[Ask1("find") EXCEPT !.words = w, !.mode = m] : w \in {<<a>> : a \in Words} \cup {<<a, b>> : a, b \in Words}, m \in {"lite", "more", "full"}}
  \cup {[Ask1("list") EXCEPT !.branch = b, !.words = w, !.tag = t, !.source = s, !.depth = d] :
          <<b, w, t, s, d>> \in {x \in Branches \X ({<<>>} \cup {<<a>> : a \in Words}) \X {"", "Tq", "Tr", "T"} \X {"", "Src", "SrcB"} \X (0..3) : x[2] = <<>> \/ x[3] = ""}}
  \cup {[Ask1("tail") EXCEPT !.branch = b, !.words = w, !.depth = d] : b \in Branches \ {""}, w \in ({<<>>} \cup {<<a>> : a \in Words}), d \in 0..2}
  \cup {[Ask1("tag") EXCEPT !.words = w, !.mode = m] : w \in {<<"Tq">>, <<"Tr">>, <<"Tq", "Tr">>, <<"T">>, <<"Tr", "Qa">>}, m \in {"lite", "more", "full"}}
  \cup {[Ask1("write") EXCEPT !.key = k] : k \in {"Kq", "Aq", "K"}}
  \cup {[Ask1("one") EXCEPT !.branch = b, !.mode = m] : b \in Branches \ {""}, m \in {"more", "full"}}
  \cup {[Ask1("api") EXCEPT !.branch = b] : b \in Branches \ {""}}
  \cup {Ask1("tags"), Ask1("all")}
GenCases == {[id |-> 0, nodes |-> NODES, chars |-> CH, queries |-> <<x>>] : x \in Queries}
TheCases == IF Family = "json" THEN LET l == JsonDeserialize("cases.json") IN {l[i] : i \in DOMAIN l} ELSE GenCases
Emit == st = "over" => PrintT(ToJson([id |-> cs.id, case |-> IF Family = "json" THEN <<>> ELSE [cs EXCEPT !.chars = [x \in {} |-> <<>>]],
                                      obs |-> [i \in DOMAIN results |-> results[i]]]))
=============================================================================
