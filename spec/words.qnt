// 256-bit words: the arithmetic the whole simulator is built on.
module words {
  import ints.* from "./ints"
  import rand.* from "./rand"

  // alias: 0 all different, 1 result is x, 2 result is y, 3 result is m, 4 x and y are one object, 5 all of them one
  // z: what the result object held before; n: a machine integer; bs: bytes or text
  type Op = { kind: str, x: int, y: int, m: int, z: int, n: int, alias: int, bs: List[int] }
  // z: the result (or -1), flag: overflow or error, r: other results
  type Ans = { ok: bool, hang: bool, z: int, flag: bool, r: List[int], kept: bool, ret: bool, constsKept: bool }
  var op: Op
  var ans: Ans
  var bad: Set[str]
  var tags: Set[(str, str)]
  var prof: int

  pure val NOOP: Op = { kind: "none", x: 0, y: 0, m: 0, z: 0, n: 0, alias: 0, bs: List() }
  pure val NOANS: Ans = { ok: true, hang: false, z: -1, flag: false, r: List(), kept: true, ret: true, constsKept: true }
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)

  // ------------------------------------------------------------------ definitions
  pure val AND4: List[List[int]] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15].foldl(List(), (l, a) =>
    l.append(range(0, 16).foldl(List(), (k, b) => k.append([1, 2, 4, 8].foldl(0, (s, w) => if ((a / w) % 2 == 1 and (b / w) % 2 == 1) s + w else s)))))
  pure def band(a: int, b: int): int =
    range(0, 64).foldl({ s: 0, w: 1, a: a, b: b }, (t, _) =>
      { s: t.s + AND4[t.a % 16][t.b % 16] * t.w, w: t.w * 16, a: t.a / 16, b: t.b / 16 }).s
  pure def sgn(a: int): int = if (a > 0) 1 else if (a < 0) -1 else 0
  pure def flag(b: bool): int = if (b) 1 else 0
  // truncating division and its remainder, zero for a zero divisor
  pure def tdiv(a: int, b: int): int = if (b == 0) 0 else sgn(a) * sgn(b) * (iabs(a) / iabs(b))
  pure def tmod(a: int, b: int): int = if (b == 0) 0 else sgn(a) * (iabs(a) % iabs(b))
  pure def powmod(b: int, e: int): int =
    range(0, bitLen(e)).foldl({ r: 1, b: b, e: e }, (s, _) =>
      { r: if (s.e % 2 == 1) (s.r * s.b) % P256 else s.r, b: (s.b * s.b) % P256, e: s.e / 2 }).r
  // the n low bytes, most significant first
  pure def bytesOf(v: int, n: int): List[int] =
    range(0, n).foldl((List(), v), (a, _) => ([a._2 % 256].concat(a._1), a._2 / 256))._1
  pure def ofBytes(bs: List[int]): int = bs.foldl(0, (s, b) => s * 256 + b)
  pure def digits(v: int, base: int): List[int] =   // most significant first, at least one
    range(0, 260).foldl((List(), v), (a, _) => if (a._2 == 0 and a._1.length() > 0) a else ([a._2 % base].concat(a._1), a._2 / base))._1
  pure def code(d: int): int = if (d < 10) 48 + d else 87 + d
  pure def capital(d: int): int = if (d < 10) 48 + d else 55 + d
  pure def hexText(v: int): List[int] = [48, 120].concat(digits(v, 16).foldl(List(), (l, d) => l.append(code(d))))
  pure def signedText(v: int, base: int, cap: bool): List[int] =
    (if (v < 0) [45] else List()).concat(digits(iabs(v), base).foldl(List(), (l, d) => l.append(if (cap) capital(d) else code(d))))
  pure def nibble(c: int): int =
    if (48 <= c and c <= 57) c - 48 else if (65 <= c and c <= 70) c - 55 else if (97 <= c and c <= 102) c - 87 else -1
  pure def goodHex(t: List[int]): bool =
    if (t.length() < 3 or t.length() > 66) false
    else and { t[0] == 48, t[1] == 120 or t[1] == 88, t.length() == 3 or t[2] != 48,
      range(2, t.length()).foldl(true, (b, i) => b and nibble(t[i]) >= 0) }
  pure def hexValue(t: List[int]): int = range(2, t.length()).foldl(0, (s, i) => s * 16 + nibble(t[i]))
  pure def rlp(v: int): List[int] =
    if (v == 0) [128] else if (v < 128) [v] else { val n = (bitLen(v) + 7) / 8
      List(128 + n).concat(bytesOf(v, n)) }

  // (the result word or -1 when there is none or it is not judged, flag, other results)
  type Want = { z: int, flag: bool, r: List[int] }
  pure def wz(v: int): Want = { z: wrap(v), flag: false, r: List() }
  pure def wzf(v: int, f: bool): Want = { z: wrap(v), flag: f, r: List() }
  pure def wr(l: List[int]): Want = { z: -1, flag: false, r: l }

  pure def want(o: Op): Want = {
    val k = o.kind
    val x = o.x
    val y = if (o.alias >= 4) o.x else o.y
    val m = o.m
    val n = o.n
    val sx = signed(x)
    val sy = signed(y)
    if (k == "add") wz(x + y) else if (k == "sub") wz(x - y) else if (k == "mul") wz(x * y)
    else if (k == "addo") wzf(x + y, x + y >= P256) else if (k == "subo") wzf(x - y, x < y) else if (k == "mulo") wzf(x * y, x * y >= P256)
    else if (k == "addu") wz(x + n) else if (k == "subu") wz(x - n)
    else if (k == "umul") wr([(x * y) / P256, (x * y) % P256])
    else if (k == "umulstep") wr([(n + (x % P64) * (y % P64) + m % P64) / P64, (n + (x % P64) * (y % P64) + m % P64) % P64])
    else if (k == "umulhop") wr([(n + (x % P64) * (y % P64)) / P64, (n + (x % P64) * (y % P64)) % P64])
    else if (k == "div") wz(tdiv(x, y)) else if (k == "mod") wz(tmod(x, y))
    else if (k == "sdiv") wz(tdiv(sx, sy)) else if (k == "smod") wz(tmod(sx, sy))
    else if (k == "udivrem") { val u = x * P256 + o.z
      wr([u / m, u % m]) }
    else if (k == "addmod") wz(if (m == 0) 0 else (x + y) % m)
    else if (k == "mulmod" or k == "mulmodr") wz(if (m == 0) 0 else (x * y) % m)
    else if (k == "lsh") wz(if (n >= 256) 0 else x * 2^n) else if (k == "rsh") wz(if (n >= 256) 0 else x / 2^n)
    else if (k == "srsh") wz(if (n >= 256) (if (sx < 0) -1 else 0) else fdiv(sx, 2^n))
    else if (k == "and") wz(band(x, y)) else if (k == "or") wz(x + y - band(x, y)) else if (k == "xor") wz(x + y - 2 * band(x, y))
    else if (k == "not") wz(P256 - 1 - x)
    else if (k == "byte") wz(if (y >= 32) 0 else (x / 256^(31 - y)) % 256)
    else if (k == "extend") wz(if (y > 31) x else { val w = 2^(8 * y + 8)
      val l = x % w
      if (2 * l >= w) l - w else l })
    else if (k == "neg") wz(-x) else if (k == "abs") wz(iabs(sx)) else if (k == "exp") wz(powmod(x, y)) else if (k == "sqrt") wz(isqrt(x))
    else if (k == "set") wz(x) else if (k == "clone") wz(x) else if (k == "setu") wz(n) else if (k == "newint") wz(n)
    else if (k == "clear") wz(0) else if (k == "one") wz(1) else if (k == "ones") wz(-1)
    else if (k == "cmp") wr([sgn(x - y)]) else if (k == "lt") wr([flag(x < y)]) else if (k == "gt") wr([flag(x > y)])
    else if (k == "slt") wr([flag(sx < sy)]) else if (k == "sgt") wr([flag(sx > sy)]) else if (k == "eq") wr([flag(x == y)])
    else if (k == "sign") wr([sgn(sx)]) else if (k == "iszero") wr([flag(x == 0)])
    else if (k == "ltu") wr([flag(x < n)]) else if (k == "gtu") wr([flag(x > n)])
    else if (k == "isu") wr([flag(x < P64)]) else if (k == "u64") wr([x % P64, x % P64, flag(x >= P64)])
    else if (k == "bitlen") wr([bitLen(x), (bitLen(x) + 7) / 8])
    else if (k == "bytes32") wr(bytesOf(x, 32)) else if (k == "bytes20") wr(bytesOf(x, 20)) else if (k == "bytes") wr(bytesOf(x, (bitLen(x) + 7) / 8))
    else if (k == "padded") wr(bytesOf(x, imin(n, 32)).concat(List()).concat(List()))
    else if (k == "array32") wr(bytesOf(x, 32)) else if (k == "array20") wr(bytesOf(x, 20))
    // a longer slice keeps its end
    else if (k == "slice") wr(bytesOf(x, imin(n, 32)).concat(range(0, imax(0, n - 32)).foldl(List(), (l, i) => l.append(7))))
    else if (k == "setbytes") wz(ofBytes(if (o.bs.length() > 32) o.bs.slice(o.bs.length() - 32, o.bs.length()) else o.bs))
    else if (k == "setbytesn") wz(ofBytes(o.bs.slice(0, n)))
    else if (k == "tobig") wr([x]) else if (k == "stobig") wr([sx])
    else if (k == "frombig" or k == "setbig") wzf(y * (if (n == 1) -1 else 1), y >= P256)
    else if (k == "hex" or k == "string" or k == "text") wr(hexText(x))
    else if (k == "fmtd" or k == "fmts" or k == "fmtv") wr(signedText(sx, 10, false))
    else if (k == "fmtx") wr(signedText(sx, 16, false)) else if (k == "fmtX") wr(signedText(sx, 16, true)) else if (k == "fmtb") wr(signedText(sx, 2, false))
    else if (k == "rlp") wr(rlp(x))
    else if (k == "fromhex" or k == "untext") (if (goodHex(o.bs)) wz(hexValue(o.bs)) else { z: -1, flag: true, r: List() })
    else if (k == "unjson") {
      val t = o.bs
      if (t.length() >= 2 and t[0] == 34 and t[t.length() - 1] == 34 and goodHex(t.slice(1, t.length() - 1))) wz(hexValue(t.slice(1, t.length() - 1)))
      else { z: -1, flag: true, r: List() }
    }
    else wr([-1])
  }

  pure val CONVERSIONS = Set("bytes32", "bytes20", "bytes", "padded", "array32", "array20", "slice", "setbytes", "setbytesn", "tobig", "stobig", "frombig",
    "setbig", "hex", "string", "text", "fmtd", "fmts", "fmtv", "fmtx", "fmtX", "fmtb", "rlp", "fromhex", "untext", "unjson")
  pure def name(k: str): str =
    if (k.in(Set("add", "sub", "mul", "addo", "subo", "mulo", "addu", "subu", "umul", "umulstep", "umulhop"))) "C26 sum, difference or product"
    else if (k.in(Set("div", "mod", "sdiv", "smod", "udivrem"))) "C26 quotient or remainder"
    else if (k.in(Set("addmod", "mulmod", "mulmodr"))) "C26 modular arithmetic"
    else if (k.in(Set("lsh", "rsh", "srsh"))) "C26 shift"
    else if (k.in(Set("and", "or", "xor", "not", "byte", "extend"))) "C26 bit operation"
    else if (k.in(Set("neg", "abs", "exp", "sqrt", "set", "clone", "setu", "newint", "clear", "one", "ones"))) "C26 power, root, sign or assignment"
    else if (k.in(Set("fromhex", "untext", "unjson"))) "C26 reading text"
    else if (k.in(CONVERSIONS)) "C26 conversion"
    else "C26 comparison"

  pure def judge(o: Op, a: Ans): Set[str] = {
    val w = want(o)
    if (a.hang) Set("C26 operation does not return")
    else if (not(a.ok)) Set("C26 operation panics")
    else lab((w.z == -1 or a.z == w.z) and a.r == w.r, name(o.kind))
      .union(lab(a.flag == w.flag, if (o.kind.in(Set("fromhex", "untext", "unjson"))) (if (w.flag) "C26 malformed text accepted" else "C26 well-formed text refused") else "C26 overflow report"))
      .union(lab(a.kept, "C26 an operand was changed"))
      .union(lab(a.kept, "C11 an operand of the arithmetic was changed"))
      .union(lab(a.ret, "C26 the result object is not returned"))
      .union(lab(a.constsKept, "C11 a shared constant was changed by the arithmetic"))
  }

  // ------------------------------------------------------------------ choosing requests
  // a word made of limbs that are extreme more often than not
  pure def limb(q: int): int = { val m = pk(q, 0, 8)
    if (m == 0) 0 else if (m == 1) P64 - 1 else if (m == 2) 2^63 else if (m == 3) 1 else if (m == 4) 2^63 - 1 else if (m == 5) 2^pk(q, 8, 64) else pk(q, 8, P64) }
  pure def limbs(q: int): int = limb(q) + limb(q / 2^80) * P64 + limb(q / 2^160) * P128 + limb(q / 2^240) * P192
  pure def word(q: int): int = if (pk(q, 0, 2) == 0) genWord(q / 2) else limbs(q / 2)
  pure def pickKind(l: List[str], q: int): str = l[q % l.length()]
  pure def shiftBy(q: int): int = { val m = pk(q, 0, 10)
    if (m < 5) pk(q, 8, 258) else if (m < 8) 64 * pk(q, 8, 6) + pk(q, 16, 3) - (if (pk(q, 20, 2) == 0) 0 else 0) else if (m == 8) pk(q, 8, 700) else 2^pk(q, 8, 60) }
  pure def u64(q: int): int = limb(q)
  // divisor, and a dividend close to a multiple of it
  pure def nearMultiple(d: int, q: int, cap: int): int = {
    val quot = { val m = pk(q, 0, 5)
      if (m == 0) pk(q, 8, 5) else if (m == 1) limb(q / 2^8) else if (m == 2) limbs(q / 2^8) else if (m == 3) cap / imax(1, d) else (cap / imax(1, d)) / imax(1, 2^pk(q, 8, 256)) }
    val rest = { val m = pk(q, 400, 5)
      if (m == 0) 0 else if (m == 1) imax(0, d - 1) else if (m == 2) d / 2 else if (m == 3) pk(q, 410, imax(1, d)) else 1 }
    imin(cap - 1, imax(0, quot * d + rest - (if (pk(q, 405, 3) == 0) 1 else 0)))
  }
  pure def badText(t: List[int], q: int): List[int] = {
    val m = pk(q, 0, 14)
    val i = pk(q, 8, imax(1, t.length()))
    if (m == 0) List()
    else if (m == 1) t.slice(0, imin(2, t.length()))
    else if (m == 2) t.replaceAt(i, pk(q, 20, 256))
    else if (m == 3) t.slice(0, i).concat([pk(q, 20, 256)]).concat(t.slice(i, t.length()))
    else if (m == 4) t.slice(0, 2).concat([48]).concat(t.slice(2, t.length()))
    else if (m == 5) t.slice(2, t.length())
    else if (m == 6) t.replaceAt(i, [47, 58, 64, 71, 96, 103, 95, 32, 46, 45][pk(q, 20, 10)])
    else if (m == 7) [45].concat(t)
    else if (m == 8) t.slice(0, i)
    else if (m == 9) t.concat(t.slice(2, t.length()))
    else if (m == 10) t.replaceAt(1, 88)
    else if (m == 11) [48, 120, 49].concat(range(0, 60 + pk(q, 20, 10)).foldl(List(), (l, j) => l.append(48 + pk(q, 30 + j, 10))))
    else if (m == 12) range(0, pk(q, 20, 5)).foldl(List(), (l, j) => l.append(pk(q, 40 + 8 * j, 256)))
    else range(0, t.length()).foldl(List(), (l, j) => l.append(if (t[j] >= 97 and pk(q, 20 + j, 2) == 0 and j > 1) t[j] - 32 else t[j]))
  }

  pure def genOp(p: int, r1: int, r2: int, r3: int): Op = {
    val x = word(r1)
    val y = word(r2)
    val m = word(r3)
    val al = pk(r1, 900, 10)
    val o = { ...NOOP, x: x, y: y, m: m, z: word(r3 / 2^500), n: u64(r2 / 2^500), alias: if (al < 6) al else 0 }
    val q = r3 / 2^900
    if (p == 0) { ...o, kind: pickKind(["add", "sub", "mul", "addo", "subo", "mulo", "addu", "subu", "umul", "umulstep", "umulhop"], q) }
    else if (p == 1) {
      val k = pickKind(["div", "mod", "sdiv", "smod", "udivrem"], q)
      val near = pk(r1, 910, 4) > 0
      if (k == "udivrem") { val d = imax(1, m)
        val u = if (near) nearMultiple(d, r2 / 2^100, d * P256) else imin(d * P256 - 1, x * P256 + o.z)
        // the quotient is kept to four words
        { ...o, kind: k, x: u / P256, z: u % P256, m: d, alias: 0 } }
      else if (k == "div" or k == "mod") { ...o, kind: k, x: if (near) nearMultiple(y, r2 / 2^100, P256) else x }
      else { val v = if (near) nearMultiple(iabs(signed(y)), r2 / 2^100, P255) else x
        { ...o, kind: k, x: if (pk(r1, 920, 2) == 0) v else wrap(-v) } }
    }
    else if (p == 2) {
      // operands around the modulus, moduli with a full top limb or a top limb that is a small number
      val small = pk(r1, 940, 4) == 0
      val mm = if (small) (1 + pk(r1, 945, 3)) * P192 + m % P192 else if (pk(r1, 910, 3) == 0) m else if (pk(r1, 911, 2) == 0) m % P192 else imax(m, 2^(192 + pk(r1, 920, 64)))
      val xs = if (small and pk(r2, 940, 4) > 0) pk(r2, 945, 6) * P192 + x % P192 else if (pk(r2, 910, 4) == 0) wrap(mm + pk(r2, 920, 3) - 1) else if (pk(r2, 911, 4) == 0 and mm > 0) x % mm else x
      val ys = if (small and pk(r2, 950, 4) > 0) pk(r2, 955, 6) * P192 + y % P192 else if (pk(r2, 915, 4) == 0) wrap(2 * mm - xs + pk(r2, 920, 3) - 1) else if (pk(r2, 916, 4) == 0 and mm > 0) y % mm else y
      { ...o, kind: pickKind(["addmod", "mulmod", "mulmodr"], q), x: xs, y: ys, m: mm }
    }
    else if (p == 3) { ...o, kind: pickKind(["lsh", "rsh", "srsh"], q), n: shiftBy(r2 / 2^600) }
    else if (p == 4) {
      val k = pickKind(["and", "or", "xor", "not", "byte", "extend"], q)
      if (k == "byte" or k == "extend") { ...o, kind: k, y: if (pk(r2, 910, 6) > 0) pk(r2, 920, 34) else y } else { ...o, kind: k }
    }
    else if (p == 5) {
      val k = pickKind(["cmp", "lt", "gt", "slt", "sgt", "eq", "sign", "iszero", "ltu", "gtu", "isu", "u64", "bitlen"], q)
      val nearby = { val j = pk(r2, 910, 5)
        if (j == 0) x else if (j == 1) wrap(x + pk(r2, 920, 3) - 1) else if (j == 2) wrap(x + 2^pk(r2, 930, 256)) else if (j == 3) wrap(-x) else y }
      { ...o, kind: k, y: nearby, x: if (pk(r2, 950, 8) == 0) 0 else if ((k == "ltu" or k == "gtu") and pk(r2, 951, 2) == 0) imax(0, o.n + pk(r2, 955, 3) - 1) else x }
    }
    else if (p == 6) {
      val k = pickKind(["bytes32", "bytes20", "bytes", "padded", "array32", "array20", "slice", "setbytes", "setbytesn", "rlp"], q)
      val len = pk(r2, 910, 41)
      val bs = range(0, 41).foldl(List(), (l, i) => if (i < len) l.append(pk(r1, 8 * i, 256)) else l)
      { ...o, kind: k, alias: 0, n: if (k == "padded") pk(r2, 920, 33) else if (k == "slice") pk(r2, 920, 40) else if (k == "setbytesn") 1 + pk(r2, 920, 32) else 0,
        bs: if (k == "setbytesn") bytesOf(x, 32).concat([1, 2, 3]) else if (k == "setbytes") bs else List() }
    }
    else if (p == 7) {
      val k = pickKind(["fromhex", "untext", "unjson", "hex", "string", "text", "fmtd", "fmts", "fmtv", "fmtx", "fmtX", "fmtb", "fromhex", "untext", "unjson"], q)
      val good = hexText(x)
      val t = if (pk(r2, 910, 3) == 0) good else badText(good, r2 / 2^100)
      val quoted = { val j = pk(r2, 920, 8)
        if (j == 0) t else if (j == 1) [34].concat(t) else if (j == 2) t.concat([34]) else if (j == 3 and pk(r2, 930, 3) == 0) [34] else [34].concat(t).concat([34]) }
      { ...o, kind: k, alias: 0, bs: if (k == "unjson") quoted else if (k == "fromhex" or k == "untext") t else List() }
    }
    else if (p == 8) {
      val k = pickKind(["tobig", "stobig", "frombig", "setbig"], q)
      { ...o, kind: k, alias: 0, n: pk(r2, 910, 2), y: if (pk(r2, 920, 4) == 0) y * 2^pk(r2, 930, 200) else if (pk(r2, 921, 4) == 0) P256 + pk(r2, 930, 3) - 1 else y }
    }
    else {
      val k = pickKind(["neg", "abs", "exp", "sqrt", "set", "clone", "setu", "newint", "clear", "one", "ones", "exp", "sqrt"], q)
      val root = x % P128
      { ...o, kind: k, x: if (k == "sqrt" and pk(r2, 910, 2) == 0) imax(0, root * root + pk(r2, 920, 3) - 1) else x,
        y: if (k == "exp" and pk(r2, 910, 2) == 0) pk(r2, 920, 300) else y }
    }
  }

  action init = {
    nondet n = 0.to(9).oneOf()
    all { op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n }
  }
  // profiles: 0 sums and products, 1 division, 2 modular, 3 shifts, 4 bits, 5 comparison, 6 bytes, 7 text, 8 big integers, 9 the rest
  action choose = {
    nondet r1 = 0.to(2^1024 - 1).oneOf()
    nondet r2 = 0.to(2^1024 - 1).oneOf()
    nondet r3 = 0.to(2^1024 - 1).oneOf()
    all { op' = genOp(prof, r1, r2, r3), ans' = ans, bad' = Set(), tags' = Set(), prof' = prof }
  }
  pure val ALIASES = ["all different", "result is x", "result is y", "result is m", "operands are one object", "all one object"]
  action observe = {
    val w = want(op)
    all {
      bad' = judge(op, ans),
      tags' = Set((op.kind, ALIASES[op.alias])).union(if (w.flag) Set((op.kind, "overflow or malformed")) else Set()),
      op' = op, ans' = ans, prof' = prof
    }
  }
}
