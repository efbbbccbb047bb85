"""The hand-written grammars of the parse checks: (tags, lexicon, types)."""
from lexicons import LA, LB, LC, LD

G = []


def g(tags, lex, text):
    G.append((set(tags.split()), lex, text))


# ---- plain sequences and choices; insertion of fixed tokens
g("C12 C08 C09 C10 C11", LA, "!S R = KwLet ; Id ; Eq ; Num ; Semi")
g("C12 C08", LA, """
!S R = A ; opt(Colon) ; box(B)
S A = Lp ; Num
S B = Dot ; Id ; Semi
""")
g("C12 C10", LA, """
!E R = A | B
S A = KwLet ; Id ; Semi
S B = KwIf ; Num ; Semi
""")
g("C12 C09", LA, "!S R = star((Lp,Num,Rp)) ; Semi")
g("C12 C11", LA, "!S R = Lp ; opt(Num) ; Rp ; opt((Comma,Num)) ; Semi")
g("C12 C13", LA, """
!S R = Lb ; star(St) ; Rb
S St = Id ; Eq ; opt(Num) ; Semi
""")
g("C12 C21", LB, "!S R = To ; Word ; Bang ; opt(Zero)")
g("C12", LC, "!S R = Ta ; star((Tb,Td)) ; Te")
g("C12", LA, "!S R = opt(KwLet) ; Id ; Lp ; star(Num) ; Rp ; star((Dot,Id))")
# same literal production in several places: FOLLOW is the union
g("C12 C06", LA, """
!S R = A ; B
S A = Id ; Semi
S B = Num ; Semi ; Colon ; Semi
""")

# ---- optional parts
g("C13 C08 C10", LA, "!S R = opt(Id) ; opt(Num) ; Semi")
g("C13 C09 C12", LA, "!S R = opt((Lp,Num,Rp)) ; Id")
g("C13", LA, "!S R = exists((Lp,Num,Rp)) ; Id")
g("C13", LA, """
!S R = opt(A) ; exists(B) ; opt(C)
S A = KwLet ; Id ; Eq
E B = Num | (Lp,Num)
S C = Dot ; opt((Colon,Num))
""")
g("C13 C19", LA, "!S R = opt((opt(Id),Add)) ; opt((Semi,Num))")
g("C13", LA, "!S R = exists(Id) ; exists(Comma) ; exists((Num,Semi))")
g("C13", LB, "!S R = opt(KwE) ; exists((To,Word)) ; opt(Digit)")
g("C13 C06", LA, """
!E R = A | opt(B)
S A = Id ; Eq
S B = Num ; Semi
""")
g("C13 C06 C08", LA, """
!S R = X ; Semi
E X = opt(Id) | Num | (Lp,X2,Rp)
S X2 = opt(Num)
""")

# ---- repetitions
g("C14 C08 C10", LA, "!S R = star((Id,Comma)) ; Num")
g("C14 C09", LA, "!S R = plus((Id,Comma)) ; opt(Num)")
g("C14 C11 C19", LA, "!S R = nevd(Num) ; vecd((Lp,Num,Rp)) ; Semi")
g("C14", LA, """
!S R = plus(St) ; Dot
E St = (Id,Eq,Num) | (KwLet,Id) | (Lp,star(Num),Rp)
""")
g("C14", LA, "!S R = star((Id,opt(Comma)))")
g("C14", LA, "!S R = Lp ; plus((Num,opt(Dot),Semi)) ; Rp")
g("C14", LA, """
!S R = star(A) ; vecd(B)
S A = Id ; plus(Num)
S B = Lp ; nevd((Id,Comma)) ; Rp
""")
g("C14 C12", LC, "!S R = plus((Ta,Tb)) ; star(Td) ; Te")

# ---- loops
g("C15 C11 C19", LA, "!S R = loop((Id,Eq,Num))")
g("C15 C11", LA, """
!S R = loop(St)
E St = (Id,Semi) | (KwLet,Id,Eq,Num,Semi) | (Lb,star(Num),Rb)
""")
g("C15", LA, "!S R = KwLet ; loop(Num)")
g("C15", LA, "!S R = loop((Lp,opt(Num),Rp))")
g("C15", LA, "!S R = loop(split(Id,Comma))")
g("C15", LB, "!S R = loop((Word,Bang))")
g("C15", LA, "!S R = Id ; opt(Num) ; loop((Semi,Num))")

# ---- separated lists
g("C16 C08 C09 C10", LA, "!S R = split(Num,Comma)")
g("C16 C12 C11", LA, "!S R = Lp ; split((Id,Colon,Num),Comma) ; Rp")
g("C16 C10", LA, """
!S R = split(T,Add) ; opt(Semi)
E T = Num | (Lp,Num,Rp)
""")
g("C16", LA, "!S R = split((Id,Eq,Num),opt(Comma)) ; opt(Semi)")
g("C16", LA, "!S R = Lb ; split((Id,opt((Eq,Num))),(Comma,Dot)) ; Rb ; star(Id)")
g("C16", LA, "!S R = split(split(Num,Add),Semi)")
g("C16", LA, "!S R = split(opt(Id),Comma) ; opt(Semi)")
g("C16 C11", LA, "!S R = split((KwLet,Id,Id,Num),Comma) ; Rp")
g("C16", LB, "!S R = split((Word,opt(Zero)),Bar) ; opt(To)")
g("C16", LC, "!S R = split((Ta,Tb),Tc) ; star(Td)")

# ---- punctuated lists
g("C17 C08 C09 C10", LA, "!S R = punct(Num,Comma)")
g("C17 C12 C11", LA, "!S R = Lp ; punct((Id,Colon,Num),Comma) ; Rp")
g("C17 C10", LA, """
!S R = punct(T,Semi) ; opt(Rb)
E T = Num | (Id,Eq,Num)
""")
g("C17", LA, "!S R = Lb ; punct((Id,opt((Eq,Num))),Comma) ; Rb ; star(Id)")
g("C17", LA, "!S R = punct(punct(Num,Add),Semi)")
g("C17", LA, "!S R = punct((KwLet,Id,Id,Num),(Comma,Dot)) ; opt(Rp)")
g("C17", LB, "!S R = punct((Word,opt(Zero)),Ten) ; opt(To)")
g("C17 C11", LC, "!S R = punct((Ta,Tb),Tc) ; star(Td)")
g("C17", LA, "!S R = KwIf ; punct(Id,Dot) ; KwLet")

# ---- recovery
g("C18 C11", LA, "!S R = rec(Id,Semi)")
g("C18 C08 C09 C10", LA, "!S R = star(rec((Id,Eq,Num),Semi))")
g("C18", LA, "!S R = Lb ; star(rec((Id,opt(Num)),Semi)) ; Rb")
g("C18 C12", LA, "!S R = rec((KwLet,Id,Eq,Num),(Dot,Semi)) ; opt(Id)")
g("C18", LA, "!S R = rec(split(Id,Comma),Semi)")
g("C18", LA, "!S R = plus(rec(opt((Id,Num)),Semi)) ; opt(Dot)")
g("C18", LA, """
!S R = rec(A,B)
E A = (Lp,Num,Rp) | Id
E B = Semi | (Rb,Dot)
""")
g("C18", LA, "!S R = rec((Id,Num),opt(Semi)) ; opt(Dot)")
g("C18", LB, "!S R = star(rec((Word,To,Word),Bar))")
g("C18", LA, "!S R = star(rec((KwLet,plus((Id,Comma))),Semi))")

# ---- semantic types
g("C20", LA, "!S R = KwLet ; Id @S1 ; Eq ; E @S2\nE E = Num | Id @S3 | (Lp,box(E),Rp) @S1")
g("C20", LA, "!S R = star(A) @S1 ; Semi\nS A = Id @S2,S3 ; opt((Dot,Num)) @S1")
g("C20", LA, "!S R = split(A,Comma) @S1 ; opt(Semi) @S2\nS A = Id @S2 ; Colon ; Num @S3")
g("C20", LA, "!S R = rec(A,Semi) @S1 ; opt(Num) @S3\nS A = Id @S2 ; Eq ; Num")
g("C20", LA, "!S R = loop(A) @S1\nE A = (Id,Semi) @S2 | Num @S3")
g("C20", LA, "!S R = opt(A) @S1 ; punct(B,Comma) @S2\nS A = KwLet @S2 ; Id @S3\nS B = Id @S1 ; opt(Num) @S3")
g("C20", LA, "!S R = opt(Id) @S2 ; exists((Lp,Num,Rp)) @S1 ; opt(Semi)")
g("C20", LC, "!S R = Ta @U2,U8 ; star(Tb) @U10,U17 ; A @U34,U33\nE A = Tc @U5 | (Td,Te) @U20,U30")
g("C20", LC, "!S R = punct(A,Tc) @U19 ; opt(Td) @U15\nS A = Ta @U8,U16,U32 ; opt(Tb) @U31")
g("C20", LA, "!S R = quote(A) @S1 ; num(Num) @S2\nS A = Id @S3 ; Dot ; Id")

# ---- boxes and captures
g("C21 C19", LA, "!S R = quote((Id,Eq,Num)) ; opt(Semi)")
g("C21", LA, "!S R = num(Num) ; quote(star(Id)) ; opt(Semi)")
g("C21", LA, "!S R = split(num(Num),Comma) ; opt(quote((Semi,opt(Id))))")
g("C21", LA, "!S R = box(box(Id)) ; quote(box((Lp,Num,Rp))) ; num((Id,opt(Num)))")
g("C21", LB, "!S R = quote(plus(Word)) ; num(Digit) ; quote(opt(To))")
g("C21", LA, "!S R = quote(A) ; box(opt(B))\nS A = opt(Id) ; opt(num(Num))\nE B = quote(Semi) | box((Lp,num(Num),Rp))")
g("C21", LA, "!S R = star(num(T)) ; Dot\nE T = Num | (Id,Num) | Add")
g("C21 C14", LA, "!S R = box(plus(box((Id,box(Comma))))) ; num(opt(Num))")

# ---- recursion
g("C08 C09 C10 C11 C19 C06", LA, """
!S E = T ; E1
S E1 = opt(E2)
S E2 = Add ; T ; box(E1)
S T = F ; T1
S T1 = opt(T2)
S T2 = Mul ; F ; box(T1)
E F = Id | (Lp,box(E),Rp)
""")
g("C08 C09 C10 C11 C06 C19", LA, """
!E J = Num | Id | (Lb,opt(punct(P,Comma)),Rb) | (Lp,star(box(J)),Rp)
S P = Id ; Colon ; box(J)
""")
g("C06 C08 C10 C19", LA, """
!S R = plus(St)
E St = (KwLet,Id,opt((Eq,X)),Semi) | (KwIf,X,Bl) | (Id,Eq,X,Semi) | Bl
S Bl = Lb ; star(box(St)) ; Rb
E X = Num | Id | (Lp,box(X),Rp)
""")
g("C06 C09 C13", LA, """
!S R = A ; opt(Semi)
E A = KwLet | (Id,opt(Num)) | opt((Lp,B,Rp))
E B = opt(Num) | (Id,opt(box(A)))
""")
g("C06 C11", LB, """
!E R = KwE | (Word,Bang) | (Zero,opt(To)) | opt((Digit,BangEq))
""")
g("C06", LA, """
!S R = A ; B ; Semi
E A = opt(Id) | (KwLet,Num)
E B = star(Num) | (KwIf,Id) | (Comma,opt(Num))
""")
g("C06 C14", LA, """
!S R = star(A) ; Rb
E A = B | C | D
E B = Id | Num
E C = (KwLet,opt(Id)) | (KwIf,star(Num))
S D = Lp ; opt(box(A)) ; Rp
""")
g("C09 C11 C19", LB, "!S R = punct((Word,star(Digit)),Ten) ; opt((Bang,Word))")

# ---- rejected grammars
g("C01", LA, "!S R = opt(Id) ; Id")
g("C01", LA, "!E R = Id | KwLet")
g("C01", LA, "!S R = opt(opt(Id))")
g("C01", LA, "!S R = star(Id) ; opt(KwLet)")
g("C01", LA, "!S R = split(Num,Comma) ; opt((Comma,Id))")
g("C01", LA, "!S R = punct(Num,Comma) ; opt(Comma)")
g("C01", LA, "!E R = (Lp,Num) | (Lp,Id)")
g("C01", LA, "!S R = plus(opt(Num))")
g("C01", LA, "!E R = opt(Id) | opt(Num)")
g("C01", LA, "!S R = opt((opt(Id),opt(Num)))")
g("C01", LA, "!S R = A ; Num\nS A = Id ; opt(Num)")
g("C01", LA, "!S R = A ; opt(Semi) ; Num\nS A = Id ; opt(Num)")
g("C01", LA, "!S R = rec(opt(Semi),Semi)")
g("C01", LA, "!S R = loop((opt(Num),opt(Id)))")
g("C01", LB, "!E R = Zero | Digit")
g("C01", LB, "!E R = KwE | Zero | Bang | BangEq")
g("C01", LA, "!S R = Id ; Add ; opt(box(R))")
g("C01", LA, "!S R = Id ; opt(box(R)) ; opt(Id)")
g("C01", LA, "!E R = KwLet | KwIf | Num")
g("C01", LA, "!S R = exists(KwLet) ; opt(KwIf) ; Num")
g("C01", LA, "!S R = exists(Id) ; opt(KwIf) ; Num")
g("C01", LC, "!S R = star((Ta,opt(Tb))) ; opt(Tb)")
g("C01", LC, "!S R = star((Ta,opt(Tb))) ; opt(Tc)")
# left recursion through a non-first field behind something that can be empty
g("C01 C04", LA, "!S R = opt(Num) ; box(R)")
g("C01 C04", LA, "!S A = star(Id) ; box(B)\nS B = opt(Num) ; box(A)")

# ---- messages
g("C30", LA, "!S R = A ; opt((Semi,Num))\nE A = Id | Num | (Lp,Num) | opt(Dot)")
g("C30", LB, "!S R = star((Word,To)) ; Bang\n")
g("C30", LB, "!S R = split((KwE,opt(Digit)),Ten) ; opt(BangEq)")
g("C30", LA, "!S R = loop((KwLet,Id,Semi))")
g("C30", LA, "!S R = punct((Id,Eq,Num),Comma) ; opt(Rp)")
g("C30", LA, "!S R = rec((KwIf,Lp,Num,Rp),Semi) ; opt(Id)")
g("C30", LC, "!S R = plus((Ta,opt(Tc))) ; Te")

# ---- wide and deep constructs, names used twice
g("C08 C09 C10 C19 C21", LA, "!S R = (Id,Num,Add,Num,Semi) ; opt((Lp,opt(Id),Num,opt((Dot,Id,Dot,Id,Dot)),Rp))")
g("C08 C19", LA, "!S R = star((KwLet,(Id,(Eq,(opt(Num),(opt(Add),Semi)))))) ; opt((Lp,Num,Comma,Rp))")
g("C06 C08 C09 C12 C19", LA, """
!S R = Id ; Num ; Id ; Num ; Id ; Num ; Id ; Num ; Id ; Num ; E ; opt(F) ; G
E E = Num | Add
E F = Lp | (Lb,Rb)
E G = Semi | opt((Dot,Num))
""")
g("C06 C10 C12 C13", LA, """
!S R = opt(Id) ; opt(Num) ; opt(Add) ; opt(Mul) ; opt(Eq) ; opt(Comma) ; opt(Colon) ; opt(Lp) ; opt(Lb) ; opt(E) ; opt(Rb) ; opt(Rp)
E E = Semi | (Dot,Num) | (Arrow,opt(Semi))
""")
g("C06 C08 C10 C30", LA, """
!E R = Num | Add | Mul | Eq | (Lp,box(R),Rp) | (Lb,opt(box(R)),Rb) | (Arrow,box(R)) | (KwLet,Id) | (KwIf,box(R),Semi) | Comma | X
E X = (Colon,Num) | (Semi,Dot) | opt((Dot,Dot))
""")
g("C06 C08 C09 C11 C13", LA, "!S R = Lp ; N1 ; Rp\n" + "\n".join(f"S N{i} = opt(N{i + 1})" if i == 8 else f"S N{i} = N{i + 1}" for i in range(1, 24)) + "\nE N24 = Id | (Num,Semi)")
g("C06 C08 C10 C14", LA, "!S R = star(N1) ; Semi\n" + "\n".join(f"E N{i} = N{i + 1} | T{i}" for i in range(1, 6)) +
  "\nS N6 = Id ; opt(Num)\nS T1 = Add\nS T2 = Mul ; opt(Num)\nS T3 = Eq ; opt(Add)\nS T4 = Comma\nS T5 = Lp ; star(box(N1)) ; Rp")
g("C06 C08 C09 C10 C12 C20", LA, """
!S R = a__A ; Semi ; b__A ; opt(c__B)
S a__A = Id ; opt(a__B)
S b__A = Num ; Colon ; opt(b__B) @S1
E a__B = Num | (Lp,Id,Rp)
E b__B = Id | (Dot,opt(Num)) @S2
E c__B = Add | (Mul,box(b__A))
""")
g("C06 C08 C09 C10 C14", LA, """
!S R = star(m__R) ; n__R
S m__R = Id ; Eq ; o__R ; Semi
S n__R = KwLet ; opt(o__R)
E o__R = Num | (Lp,box(o__R),Rp)
""")
# ---- many fixed texts, texts over several lines, signs
g("C08 C10 C12 C30", LD, "!S R = A ; opt(B) ; Sem\nE A = " + " | ".join(f"K{i}" for i in range(40)) + "\nE B = Str | (Op,Int,Cl) | Zero")
g("C06 C30", LD, "!S R = star(A) ; At\nE A = " + " | ".join(f"(K{i},Int)" if i % 3 else f"(K{i},opt(Str))" for i in range(30)))
g("C21 C20", LD, "!S R = num(Int) ; opt(quote((At,Str,opt(Int)))) @T1 ; opt((Com,num((star(Dot),Zero)))) @T1")
g("C21", LD, "!S R = star((num(Pair),Com)) ; quote(opt(Str)) ; opt((Sem,num((opt(Pair),Int))))")
g("C08 C09 C16 C19 C30", LD, "!S R = split((Str,opt((At,Str))),Com) ; opt(Sem)")
g("C17 C15 C30", LD, "!S R = punct(A,Sem) ; opt((At,loop((Str,Dots))))\nE A = Str | (K7,Str) | (Op,star(Pair),Cl)")
g("C12 C18 C22 C30", LD, "!S R = star(rec((K1,Str,K2,Int),Sem)) ; K3 ; K4 ; opt(Str)")
g("C21", LA, "!S R = num((star(Add),Num)) ; opt((Semi,num((opt(Mul),star(Num)))))")
# ---- constructs whose names begin and end like those of others
g("C01 C05", LA, "!S R = opt((plus(Id),plus(Num))) ; opt(Id)")
g("C01 C05", LA, "!S R = opt((Lp,plus(Num))) ; opt((Lp,star(Num)))")
g("C01 C05", LA, "!E R = opt((punct(Id,Comma),punct(Num,Comma))) | plus((plus(Id),plus(Num))) | Semi")
g("C01 C05", LA, "!S R = star(A) ; opt(box(A)) ; opt(box(B))\nS A = plus(Id)\nS B = box(R) ; plus(Id)")
g("C01 C05", LA, "!S R = opt(num(plus(Id))) ; opt(quote(punct(Id,Comma))) ; plus(Id)")
g("C05 C02 C03 C06", LA, "!S R = opt((plus(Id),punct(Num,Comma))) ; opt((punct(Lp,Rp),plus(Semi))) ; opt(box(plus(Add))) ; opt(num(punct(Mul,Eq)))")
# ---- the same part boxed and not: two constructs around it, each with what follows it
g("C03 C06 C08 C13 C14", LA, "!S R = opt(A) ; Num ; opt(box(A)) ; Semi ; star(box(A)) ; Comma ; plus(A)\nE A = Id | Lp")
g("C03 C06 C16 C17", LA, "!S R = punct(box(Id),Comma) ; Semi ; punct(Id,Comma) ; Lp ; split(box(Id),Comma) ; Rp ; split(Id,Comma) ; opt((box(Num),Num)) ; opt(num((Dot,Num)))")
