// Transactions written as JSON and read back.
module txfile {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import rand.* from "./rand"

  // typ: 0 Swap, 1 Mint, 2 Burn, 3 Flash
  type Tx = { typ: int, id: List[int], ts: int, a: int, a0: int, a1: int, price: int, tick: int, lo: int, hi: int, x96: bool }
  // one written field: what sort of value it is ("dec": decimal number in a string, "num": number, "text": string)
  type Field = { name: str, sort: str, v: int, text: List[int] }
  // absent: fields a kind does not have are left out of the object, not only zero
  type Op = { kind: str, txs: List[Tx], absent: bool }
  type Ans = { ok: bool, hang: bool, written: List[List[Field]], read: List[Tx], hasReader: bool, reader: List[Tx], again: bool, argsKept: bool, constsKept: bool }
  var op: Op
  var ans: Ans
  var bad: Set[str]
  var tags: Set[(str, str)]
  var prof: int

  pure val NOOP: Op = { kind: "none", txs: List(), absent: false }
  pure val NOANS: Ans = { ok: true, hang: false, written: List(), read: List(), hasReader: false, reader: List(), again: true, argsKept: true, constsKept: true }
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)

  pure val TYPES: List[List[int]] = [[83, 119, 97, 112], [77, 105, 110, 116], [66, 117, 114, 110], [70, 108, 97, 115, 104]]
  pure def text(n: str, t: List[int]): Field = { name: n, sort: "text", v: 0, text: t }
  pure def num(n: str, v: int): Field = { name: n, sort: "num", v: v, text: List() }
  pure def dec(n: str, v: int): Field = { name: n, sort: "dec", v: v, text: List() }
  pure val TRUE = [116, 114, 117, 101]
  pure val FALSE = [102, 97, 108, 115, 101]

  // the documented fields of each kind
  pure def fieldsOf(t: Tx): Set[Field] = {
    val base = Set(text("type", TYPES[t.typ]), text("id", t.id), num("timestamp", t.ts), dec("amount0", t.a0), dec("amount1", t.a1))
    if (t.typ == 0) base.union(Set(dec("sqrtPriceX96", t.price), num("tick", t.tick), text("useX96", if (t.x96) TRUE else FALSE)))
    else if (t.typ == 3) base
    else base.union(Set(dec("amount", t.a), num("tickLower", t.lo), num("tickUpper", t.hi)))
  }
  // a zero tick may be left out
  pure def mayOmit(f: Field): bool = f.sort == "num" and f.v == 0 and f.name.in(Set("tick", "tickLower", "tickUpper"))
  pure def writtenRight(t: Tx, w: List[Field]): bool = {
    val ws = w.foldl(Set(), (s, f) => s.union(Set(f)))
    and { ws.size() == w.length(), ws.subseteq(fieldsOf(t)), fieldsOf(t).exclude(ws).forall(f => mayOmit(f)) }
  }
  // what is left after a round trip: the fields of its kind
  pure def carried(t: Tx): Tx =
    if (t.typ == 0) { ...t, a: 0, lo: 0, hi: 0 }
    else if (t.typ == 3) { ...t, a: 0, lo: 0, hi: 0, tick: 0, price: 0, x96: false }
    else { ...t, tick: 0, price: 0, x96: false }

  pure def judge(o: Op, a: Ans): Set[str] =
    if (a.hang or not(a.ok)) Set("C24 admissible transaction refused")
    else lab(a.written.length() == o.txs.length() and range(0, o.txs.length()).foldl(true, (b, i) => b and writtenRight(o.txs[i], a.written[i])), "C24 written fields")
      .union(lab(a.read.length() == o.txs.length() and range(0, o.txs.length()).foldl(true, (b, i) => b and a.read[i] == carried(o.txs[i])), "C24 reading back the input form"))
      .union(lab(not(a.hasReader) or a.reader.length() == o.txs.length() and
                 range(0, o.txs.length()).foldl(true, (b, i) => b and a.reader[i] == carried(o.txs[i])), "C24 the program reads another transaction"))
      .union(lab(a.again, "C24 writing again differs"))
      .union(lab(a.argsKept, "C24 writing changes the transaction"))
      .union(lab(a.argsKept and a.constsKept, "C11 writing a transaction modified a value"))

  // ------------------------------------------------------------------ choosing
  pure def amount(q: int): int = { val m = pk(q, 0, 12)
    val v = if (m < 2) pk(q, 8, 3) else if (m < 8) logU(q / 2^8, 120) else if (m == 8) P255 - 1 - pk(q, 8, 2) else logU(q / 2^8, 255)
    if (m == 9) -P255 + pk(q, 8, 2) else if (pk(q, 4, 2) == 0) v else -v }
  pure def tickOfInterest(q: int): int = { val m = pk(q, 0, 6)
    if (m == 0) 0 else if (m == 1) pk(q, 8, 3) - 1 else if (m == 2) MAX_TICK else if (m == 3) MIN_TICK else pk(q, 8, 2 * MAX_TICK) - MAX_TICK }
  pure val CHARS = [34, 92, 47, 60, 62, 38, 32, 10, 9, 48, 120, 97, 70, 35, 123, 125, 44, 58, 39, 127]
  pure def genTx(q: int): Tx = {
    val l = tickOfInterest(q / 2^600)
    val u = tickOfInterest(q / 2^640)
    { typ: pk(q, 0, 4), ts: { val m = pk(q, 8, 5)
        if (m == 0) 0 else if (m == 1) pk(q, 16, 10) else if (m == 2) pk(q, 16, 2^53) else 1620000000 + pk(q, 16, 2^25) },
      id: range(0, pk(q, 4, 9)).foldl(List(), (s, i) => s.append(if (pk(q, 700 + 8 * i, 3) == 0) CHARS[pk(q, 702 + 8 * i, 20)] else 48 + pk(q, 702 + 8 * i, 10))),
      a: imin(P255 - 1, iabs(amount(q / 2^80))), a0: amount(q / 2^340), a1: amount(q / 2^212), price: genPrice(q / 2^150), tick: tickOfInterest(q / 2^560), lo: imin(l, u), hi: imax(l, u), x96: pk(q, 690, 2) == 1 }
  }

  action init = {
    nondet n = 0.to(3).oneOf()
    all { op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n }
  }
  action choose = {
    nondet r1 = 0.to(2^4000 - 1).oneOf()
    nondet n = 1.to(5).oneOf()
    all { op' = { kind: "write", txs: range(0, n).foldl(List(), (l, i) => l.append(genTx(r1 / 2^(780 * i)))), absent: pk(r1, 3990, 2) == 1 },
      ans' = ans, bad' = Set(), tags' = Set(), prof' = prof }
  }
  pure val NAMES = ["Swap", "Mint", "Burn", "Flash"]
  action observe = all {
    bad' = judge(op, ans),
    tags' = op.txs.foldl(Set(), (s, t) => s.union(Set((NAMES[t.typ], "written"), (NAMES[t.typ], if (t.a0 < 0 or t.a1 < 0) "negative amount" else "no negative amount"),
        (NAMES[t.typ], if (t.tick == 0 or t.lo == 0 or t.hi == 0) "zero tick" else "no zero tick")))
        .union(if (iabs(t.a0) >= P128 or t.a >= P128) Set((NAMES[t.typ], "more than 128 bits")) else Set()))
      .union(Set(("program", if (ans.hasReader) "reads the file" else "not asked"))),
    op' = op, ans' = ans, prof' = prof
  }
}
