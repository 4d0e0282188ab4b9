---------------------------------- MODULE C19 ----------------------------------
(* SHA-256 over any split of a message, and the counter-mode generator.                            *)
EXTENDS Replay, Zp, Sha

(* a: seed (32 bytes), prime, seq (words), h, skip, ops ("u" | "z" per draw) *)
RECURSIVE Draws(_, _, _, _)
Draws(a, t, k, acc) ==
  IF k > Len(a.ops) THEN acc
  ELSE LET w == StreamWord(a.seed, a.prime, a.seq, t)
       IN IF a.ops[k] = "u" THEN Draws(a, t + 1, k + 1, acc \o <<w[1], w[2]>>)
          ELSE LET x == WAnd(w, Mask(a.prime))
               IN IF WLess(x, a.prime) THEN Draws(a, t + 1, k + 1, acc \o <<ZLimbs(a.h, 1, x), 0>>)
                  ELSE Draws(a, t + 1, k, acc)
Fail(r) ==
  IF r.s # "ok" THEN {"status"}
  ELSE IF r.a.op = "sha" THEN
         IF r.a.pat = 1 THEN Cl("digest", r.o.md = ShaPat(r.a.a, r.a.b, r.a.len)) ELSE Cl("digest", r.o.md = Sha256(r.a.msg))
  ELSE Cl("stream", r.o.res = Draws(r.a, r.a.skip, 1, <<>>))
================================================================================
