// The ordered collection of initialized ticks: inserting, updating, clearing, crossing and searching, for any spacing.
module ticksearch {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import pool.* from "./pool"
  import rand.* from "./rand"

  // what: 0 liquidity as lower end, 1 liquidity as upper end, 2 clear, 3 cross
  type Act = { what: int, idx: int, cur: int, delta: int, fg0: int, fg1: int }
  // inside: ranges whose inner fee growth is asked for, at the given tick
  type Op = { kind: str, fresh: bool, sp: int, acts: List[Act], qs: List[int], inside: List[(int, int)], cur: int, fg0: int, fg1: int }
  type Ans = { ok: bool, hang: bool, cleared: List[bool], net: List[int], down: List[(int, bool)], up: List[(int, bool)], ticks: int -> Tick,
    inside: List[(int, int)], argsKept: bool, constsKept: bool }
  type Book = int -> Tick
  var op: Op
  var ans: Ans
  var bad: Set[str]
  var tags: Set[(str, str)]
  var prof: int
  var book: Book
  var sp: int
  var at: int

  pure val NOOP: Op = { kind: "none", fresh: false, sp: 1, acts: List(), qs: List(), inside: List(), cur: 0, fg0: 0, fg1: 0 }
  pure val NOANS: Ans = { ok: true, hang: false, cleared: List(), net: List(), down: List(), up: List(), ticks: Map(), inside: List(), argsKept: true, constsKept: true }
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)

  // ------------------------------------------------------------------ what the acts do
  pure def act(s: { book: Book, cleared: List[bool], net: List[int] }, a: Act): { book: Book, cleared: List[bool], net: List[int] } = {
    val b = s.book
    val known = b.keys().contains(a.idx)
    if (a.what == 2) { ...s, book: if (known) without(b, a.idx) else b }
    else if (a.what == 3) {
      val t = b.get(a.idx)
      { ...s, book: b.put(a.idx, { ...t, o0: wrap(a.fg0 - t.o0), o1: wrap(a.fg1 - t.o1) }), net: s.net.append(t.net) }
    }
    else {
      val old = if (known) b.get(a.idx) else { net: 0, gross: 0, o0: if (a.idx <= a.cur) a.fg0 else 0, o1: if (a.idx <= a.cur) a.fg1 else 0 }
      { ...s, book: b.put(a.idx, { ...old, net: if (a.what == 1) old.net - a.delta else old.net + a.delta, gross: old.gross + a.delta }),
        cleared: s.cleared.append(known and old.gross + a.delta == 0) }
    }
  }
  pure def acted(b: Book, o: Op): { book: Book, cleared: List[bool], net: List[int] } =
    o.acts.foldl({ book: if (o.fresh) Map() else b, cleared: List(), net: List() }, (s, a) => act(s, a))

  pure def growthInside(b: Book, l: int, u: int, cur: int, fg0: int, fg1: int): (int, int) = {
    val tl = b.get(l)
    val tu = b.get(u)
    (wrap(fg0 - (if (cur >= l) tl.o0 else fg0 - tl.o0) - (if (cur < u) tu.o0 else fg0 - tu.o0)),
     wrap(fg1 - (if (cur >= l) tl.o1 else fg1 - tl.o1) - (if (cur < u) tu.o1 else fg1 - tu.o1)))
  }

  pure def judge(b: Book, o: Op, a: Ans): Set[str] = {
    val w = acted(b, o)
    val ks = w.book.keys()
    if (a.hang) Set("C14 search does not return")
    else if (not(a.ok)) Set("C14 admissible request refused")
    else lab(range(0, o.qs.length()).foldl(true, (x, i) => x and a.down[i] == nextTick(ks, o.sp, o.qs[i], true)), "C14 search downwards")
      .union(lab(range(0, o.qs.length()).foldl(true, (x, i) => x and a.up[i] == nextTick(ks, o.sp, o.qs[i], false)), "C14 search upwards"))
      .union(lab(a.ticks.keys() == ks, "C14 inserting or clearing a tick disturbs the others"))
      .union(lab(ks.forall(k => a.ticks.keys().contains(k) and a.ticks.get(k).net == w.book.get(k).net and a.ticks.get(k).gross == w.book.get(k).gross),
                 "C03 liquidity recorded at a tick"))
      .union(lab(ks.forall(k => a.ticks.keys().contains(k) and a.ticks.get(k).o0 == w.book.get(k).o0 and a.ticks.get(k).o1 == w.book.get(k).o1),
                 "C06 fee growth recorded outside a tick"))
      .union(lab(a.cleared == w.cleared, "C03 emptied tick not reported"))
      .union(lab(a.net == w.net, "C03 net liquidity of a crossed tick"))
      .union(lab(range(0, o.inside.length()).foldl(true, (x, i) =>
          x and a.inside[i] == growthInside(w.book, o.inside[i]._1, o.inside[i]._2, o.cur, o.fg0, o.fg1)), "C06 fee growth inside a range"))
      .union(lab(a.argsKept, "C11 an argument was modified by the ticks"))
      .union(lab(a.constsKept, "C11 a shared constant or table was modified by the ticks"))
  }

  // ------------------------------------------------------------------ choosing requests
  // all sets of eight ticks around a word boundary, each searched from every tick around (profiles >= 10)
  pure val ENUM_SP = [10, 60, 200, 1]
  pure val CORNER = [0, -256, 256, -1024, 3072, -256 * 300, 256 * 12]
  pure def corner(p: int): { sp: int, base: int } = {
    val s = ENUM_SP[p % 4]
    { sp: s, base: { val b = CORNER[(p / 4) % 7] * s
      if (b < -880000 or b > 880000) 256 * s else b } }
  }
  pure val PLACES = [-257, -256, -2, -1, 0, 1, 255, 256]
  pure def genEnum(p: int, n: int): Op = {
    val c = corner(p)
    val members = range(0, 8).select(i => (n / 2^i) % 2 == 1)
    // insertion order: rotated, so that ticks arrive below, above and between the others
    val order = range(0, members.length()).foldl(List(), (l, i) => l.append(members[(i * 5 + n) % members.length()]))
    val uniq = if (members.length() % 5 == 0) members else order
    val qs = PLACES.foldl(List(), (l, x) => l.concat([c.base + x * c.sp - 1, c.base + x * c.sp, c.base + x * c.sp + 1, c.base + x * c.sp + c.sp / 2]))
    { ...NOOP, kind: "enum", fresh: true, sp: c.sp,
      acts: uniq.foldl(List(), (l, i) => l.append({ what: i % 2, idx: c.base + PLACES[i] * c.sp, cur: c.base, delta: 1 + i, fg0: 1000 + i, fg1: 2000 + i })),
      qs: qs.select(x => MIN_TICK - 1 <= x and x <= MAX_TICK) }
  }

  pure def genIdx(b: Book, s: int, r: int): int = {
    val m = pk(r, 0, 16)
    val w = 256 * s
    val word = fdiv(MIN_TICK, w) + 1 + pk(r, 8, imax(1, (2 * MAX_TICK) / w - 1))
    val t =
      if (m < 5 and b.keys() != Set()) pickOf(b.keys(), pk(r, 8, b.keys().size()), 0) + (if (m < 2) 0 else (pk(r, 40, 7) - 3) * s)
      else if (m < 9) (pk(r, 8, 600) - 300) * s
      else if (m < 12) (pk(r, 60, 5) - 2) * w + (pk(r, 40, 5) - 2) * s
      else if (m < 14) word * w + (pk(r, 40, 5) - 2) * s
      else if (m == 14) (if (pk(r, 8, 2) == 0) floorTo(MAX_TICK, s) else -floorTo(MAX_TICK, s))
      else floorTo(MIN_TICK + pk(r, 8, 2 * MAX_TICK), s)
    imax(MIN_TICK, imin(MAX_TICK, t))
  }
  pure def genAct(b: Book, s: int, r: int): Act = {
    val m = pk(r, 0, 16)
    val i = genIdx(b, s, r / 2^8)
    val known = b.keys().contains(i)
    val fg0 = genWord(r / 2^128)
    val fg1 = genWord(r / 2^256)
    val cur = if (pk(r, 4, 4) == 0) i + pk(r, 100, 3) - 1 else genIdx(b, s, r / 2^180)
    { what: if (m < 7 or not(known) and m < 12) 0 else if (m < 10 or not(known) and m < 15) 1 else if (m < 13 or not(known)) 2 else 3,
      idx: i, cur: cur, fg0: fg0, fg1: fg1,
      // sometimes all of what is there is taken away
      delta: if (known and pk(r, 110, 4) == 0) -b.get(i).gross else if (known and pk(r, 110, 4) == 1) -(pk(r, 120, 1 + b.get(i).gross)) else 1 + pk(r, 120, 2^60) }
  }
  pure def genRandom(b0: Book, sp0: int, p: int, r1: int, r2: int): Op = {
    val fresh = pk(r1, 0, 12) == 0
    val s = if (not(fresh)) sp0 else { val m = pk(r1, 8, 8)
      if (m < 2) 10 else if (m < 4) 60 else if (m < 6) 200 else if (m == 6) 1 else 1 + pk(r1, 16, 500) }
    val b = if (fresh) Map() else b0
    // an emptied tick is cleared at once, as the pool does
    val acts = range(0, 1 + pk(r1, 60, 3)).foldl({ l: List(), s: { book: b, cleared: List(), net: List() } }, (x, i) => {
      val a = genAct(x.s.book, s, r2 / 2^(600 * i))
      val n = act(x.s, a)
      val gone = n.book.keys().contains(a.idx) and n.book.get(a.idx).gross == 0
      if (gone) { val c = { ...a, what: 2 }
        { l: x.l.append(a).append(c), s: act(n, c) } } else { l: x.l.append(a), s: n }
    })
    val nb = acts.s.book
    val qs = range(0, 10).foldl(List(), (l, i) => {
      val x = pk(r1, 100 + 64 * i, 2^64)
      l.append({ val m = pk(x, 0, 4)
        val t = if (m == 0) genIdx(nb, s, x / 4) else if (m == 1) genIdx(nb, s, x / 4) + pk(x, 50, 3) - 1 else if (m == 2) genIdx(nb, s, x / 4) + pk(x, 50, s) else pk(x, 8, 2 * MAX_TICK) - MAX_TICK
        imax(MIN_TICK - 1, imin(MAX_TICK, t)) })
    })
    val k = nb.keys().size()
    val i1 = if (k == 0) 0 else pickOf(nb.keys(), pk(r1, 800, k), 0)
    val i2 = if (k == 0) 0 else pickOf(nb.keys(), pk(r1, 820, k), 0)
    val c = genIdx(nb, s, pk(r1, 840, 2^64))
    { kind: "random", fresh: fresh, sp: s, acts: acts.l, qs: qs,
      inside: if (i1 == i2) [] else [(imin(i1, i2), imax(i1, i2))],
      cur: if (k > 0 and pk(r1, 910, 4) == 0) i1 else c, fg0: genWord(pk(r1, 920, 2^100)), fg1: genWord(r1 / 2^800) }
  }

  action init = {
    nondet n = 0.to(9).oneOf()
    all { op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n, book' = Map(), sp' = 10, at' = 0 }
  }
  action choose = {
    nondet r1 = 0.to(2^1024 - 1).oneOf()
    nondet r2 = 0.to(2^2000 - 1).oneOf()
    all { ans' = ans, bad' = Set(), tags' = Set(), prof' = prof, book' = book, sp' = sp, at' = at,
      op' = if (prof < 10) genRandom(book, sp, prof, r1, r2) else if (at >= 256) { ...NOOP, kind: "end" } else genEnum(prof - 10, at) }
  }
  action observe = {
    val ks = acted(book, op).book.keys()
    all {
      bad' = judge(book, op, ans),
      tags' = Set((op.kind, if (ks == Set()) "no ticks" else if (ks.size() == 1) "one tick" else if (ks.size() < 5) "2-4 ticks" else "many ticks"))
        .union(if (op.acts.select(a => a.what == 2).length() > 0) Set((op.kind, "clears a tick")) else Set())
        .union(if (op.acts.select(a => a.what == 3).length() > 0) Set((op.kind, "crosses a tick")) else Set())
        .union(if (op.inside.length() > 0) Set((op.kind, "fees inside")) else Set())
        .union(if (op.qs.select(x => x < 0).length() > 0) Set((op.kind, "negative start")) else Set()),
      book' = ans.ticks, sp' = op.sp, at' = at + 1, op' = op, ans' = ans, prof' = prof
    }
  }
}
