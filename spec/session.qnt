// One process using the library: its life cycle, settings, objects and calls.
//
// The state holds what a user may know: whether the library is initialized, the current settings,
// the content of every live object and the calls made so far.  `act` is the last action with what
// it must return: the content of a dumped object, the initialization state, and for a call the index
// of the first earlier call with the same arguments and settings (`same`), whose matrices it has to
// reproduce bit by bit, and of the first one with the same arguments under the default settings
// (`near`).  Nothing else may influence a result: not the order of calls, not the objects' history,
// not the current ordering of Cartesian components, not init/finalize epochs.
module session {
  import fixed.* from "./fixed"
  import ops.* from "./ops"
  import nuclear.* from "./nuclear"
  import gen.* from "./gen"

  // shell: component list = rotation by rot of the list of order ord; norm: how often the
  // normalization factors were folded into the coefficients
  type Sh = { L: int, ord: int, rot: int, c: List[int], al: List[int], norm: int, o: Vec }
  type Pt = { L: int, J: int, t: List[PotTerm] }
  type Gr = { loc: List[Pt], ar: List[Pt], so: List[Pt], ocp: List[Pt], ocs: List[Sh] }
  type Key = { op: str, a: Sh, b: Sh, C: Vec, P: Vec, p: List[Pt], s: List[Sh], g: Gr, par: List[int], tol: List[int], d: int }
  // what the last transition was: name, integer arguments, objects involved, expectations
  type Act = { op: str, i: List[int], sh: Sh, pt: Pt, gr: Gr, key: Key, ok: bool, same: int, near: int }

  var up: bool            // initialized
  var order: int          // 0, 1 built-in orders, 2 user generator
  var tol: List[int]      // indices into TOLS: radial, angular, Bessel
  var shells: int -> Sh
  var pots: int -> Pt
  var grs: int -> Gr
  var hist: List[Key]
  var act: Act

  // negative decimal exponents of the tolerances, index 0: default
  pure val TOLS: List[int] = List(16, 12, 9, 20)
  pure val DEFTOL: List[int] = List(0, 0, 0)

  pure def noSh: Sh = { L: 0, ord: 0, rot: 0, c: List(), al: List(), norm: 0, o: NOV }
  pure def noPt: Pt = { L: 0, J: 0, t: List() }
  pure def noGr: Gr = { loc: List(), ar: List(), so: List(), ocp: List(), ocs: List() }
  pure def noKey: Key = { op: "none", a: noSh, b: noSh, C: NOV, P: NOV, p: List(), s: List(), g: noGr, par: List(), tol: DEFTOL, d: 0 }
  pure def mkAct(op: str, i: List[int]): Act =
    { op: op, i: i, sh: noSh, pt: noPt, gr: noGr, key: noKey, ok: true, same: -1, near: -1 }

  // ---- contents ------------------------------------------------------------------
  // coefficients around the threshold 1e-14 below which a term is negligible
  pure val COEFZ: List[int] = List(S, -S, S / 3, S / 7, 0, S / 2^60, -S / 2^60, S / 2^40, -S / 2^42, S / 2^46, 5 * S / 4)
  pure val ZERO: int = S / 10^14
  pure def coefs(n: int, k: int, seed: int): List[int] =
    upto(n).foldl(List(), (l, i) => l.append(exact(pick(COEFZ, seed, k + i))))
  // doubles hold 53 bits: keep the numbers exactly representable (multiples of 2^-64)
  pure def exact(x: int): int = {
    val sgn = if (x < 0) -1 else 1
    val y = abs(x)
    if (y == 0) 0 else if (y >= S / 2^20) sgn * (y / (S / 2^40)) * (S / 2^40) else sgn * (y / (S / 2^70)) * (S / 2^70)
  }
  pure def expos(n: int, k: int, seed: int): List[int] =
    upto(n).foldl(List(), (l, i) => l.append(fromQ(pick(EXPO, seed, k + i))))
  // a few positions, so that coincidences occur
  pure val SITES: List[Vec] = List((0, 0, 0), (S, 0, -S / 2), (-3 * S / 4, S / 2, S / 4), (0, 0, 5 * S / 4))
  pure def newSh(L: int, n: int, ord: int, seed: int): Sh =
    { L: L, ord: ord, rot: 0, c: coefs(n, 20, seed), al: expos(n, 40, seed), norm: 0, o: SITES[rnd(seed, 30) % 4] }
  pure def kept(x: int): bool = abs(x) > ZERO
  // every fourth potential vanishes altogether
  pure val VANISHING: List[int] = List(0, S / 2^60, -S / 2^60, 0)
  pure def ptCoefs(n: int, seed: int): List[int] =
    if (seed % 4 == 0) upto(n).foldl(List(), (l, i) => l.append(exact(pick(VANISHING, seed, 150 + i)))) else coefs(n, 110, seed)
  pure def newPt(L: int, J: int, n: int, seed: int): Pt = {
    val c = ptCoefs(n, seed)
    val z = expos(n, 120, seed)
    { L: L, J: J, t: upto(n).foldl(List(), (l, i) =>
        if (kept(c[i])) l.append({ n: rnd(seed, 140 + i) % 3, c: c[i], z: z[i] }) else l) }
  }
  // the arguments given to the constructor (including the terms it drops)
  pure def rawPt(L: int, J: int, n: int, seed: int): Pt = {
    val c = ptCoefs(n, seed)
    val z = expos(n, 120, seed)
    { L: L, J: J, t: upto(n).foldl(List(), (l, i) => l.append({ n: rnd(seed, 140 + i) % 3, c: c[i], z: z[i] })) }
  }
  // current coefficient of a primitive
  pure def coefOf(s: Sh, i: int): int =
    upto(s.norm).foldl(s.c[i], (x, k) => mul(x, normFactor(s.al[i], s.L)))
  pure def shrunk(s: Sh): Sh = {
    val keep = upto(s.c.length()).foldl(List(), (l, i) => if (kept(coefOf(s, i))) l.append(i) else l)
    s.with("c", keep.foldl(List(), (l, i) => l.append(s.c[i]))).with("al", keep.foldl(List(), (l, i) => l.append(s.al[i])))
  }
  // dumped content: coefficients with the folded normalization
  pure def dumped(s: Sh): Sh =
    s.with("c", upto(s.c.length()).foldl(List(), (l, i) => l.append(coefOf(s, i))))
  pure def isZero(p: Pt): bool = p.t.length() == 0

  // ---- history -------------------------------------------------------------------
  // digest of a key: comparing whole records is slow in the simulator
  pure val MODD: int = 2^61 - 1
  pure def mixI(x: int, y: int): int = ((x + 1) * 1000003 + (if (y < 0) 7 - 2 * y else 3 + 2 * y)) % MODD
  pure def mixL(x: int, l: List[int]): int = l.foldl(mixI(x, l.length()), mixI)
  pure def mixV(x: int, v: Vec): int = mixI(mixI(mixI(x, v._1), v._2), v._3)
  pure def mixSh(x: int, s: Sh): int = mixV(mixL(mixL(mixL(x, List(s.L, s.ord, s.rot, s.norm)), s.c), s.al), s.o)
  pure def mixPt(x: int, p: Pt): int = p.t.foldl(mixL(x, List(p.L, p.J, p.t.length())), (y, t) => mixL(y, List(t.n, t.c, t.z)))
  pure def mixPts(x: int, l: List[Pt]): int = l.foldl(mixI(x, l.length()), mixPt)
  pure def digest(k: Key): int = {
    val ops = List("ov", "kin", "mom", "gov", "nuc", "t1", "t2", "so", "gt1", "gt2", "gso", "oc", "goc", "full", "gfull")
    val x1 = mixI(11, upto(ops.length()).foldl(0, (f, i) => if (ops[i] == k.op) i else f))
    val x2 = mixV(mixV(mixSh(mixSh(x1, k.a), k.b), k.C), k.P)
    val x3 = k.s.foldl(mixPts(x2, k.p), mixSh)
    val x4 = mixPts(mixPts(mixPts(mixPts(x3, k.g.loc), k.g.ar), k.g.so), k.g.ocp)
    mixL(mixL(k.g.ocs.foldl(x4, mixSh), k.par), k.tol)
  }
  pure def sealed(k: Key): Key = k.with("d", digest(k))
  pure def find(h: List[Key], d: int): int =
    upto(h.length()).foldl(-1, (f, i) => if (f < 0 and h[i].d == d) i else f)
  pure def callAct(h: List[Key], k: Key, ids: List[int]): Act =
    { op: "call", i: ids, sh: noSh, pt: noPt, gr: noGr, key: k, ok: true,
      same: find(h, k.d), near: if (k.tol == DEFTOL) -1 else find(h, digest(k.with("tol", DEFTOL))) }

  // ---- frame helpers --------------------------------------------------------------
  action keepSettings = all { order' = order, tol' = tol }
  action keepObjects = all { shells' = shells, pots' = pots, grs' = grs }
  action keepHist = hist' = hist

  action init = all {
    up' = false, order' = 0, tol' = DEFTOL, shells' = Map(), pots' = Map(), grs' = Map(), hist' = List(),
    act' = mkAct("start", List())
  }

  // ---- life cycle -----------------------------------------------------------------
  action doInit = all { up' = true, keepSettings, keepObjects, keepHist, act' = mkAct("init", List()) }
  action doFinalize = all { up' = false, keepSettings, keepObjects, keepHist, act' = mkAct("finalize", List()).with("ok", false) }
  action doQuery = all { up' = up, keepSettings, keepObjects, keepHist, act' = mkAct("isinit", List()).with("ok", up) }

  // ---- settings --------------------------------------------------------------------
  action doOrder = {
    nondet k = 0.to(2).oneOf()
    all { up' = up, order' = k, tol' = tol, keepObjects, keepHist, act' = mkAct("order", List(k)) }
  }
  action doTol = {
    nondet w = 0.to(2).oneOf()
    nondet k = 0.to(3).oneOf()
    val t = tol.replaceAt(w, k)
    all { up' = up, order' = order, tol' = t, keepObjects, keepHist, act' = mkAct("tol", List(w, TOLS[k])) }
  }
  // restores the tolerances and the default ordering
  action doDefaults = all { up' = up, order' = 0, tol' = DEFTOL, keepObjects, keepHist, act' = mkAct("defaults", List()) }
  action doParams = all { up' = up, keepSettings, keepObjects, keepHist,
    act' = mkAct("params", tol.foldl(List(), (l, k) => l.append(TOLS[k]))) }

  // ---- objects ----------------------------------------------------------------------
  pure val IDS: Set[int] = 0.to(7)
  action doNewShell(lmax: int): bool = {
    nondet id = IDS.exclude(shells.keys()).oneOf()
    nondet L = 0.to(lmax).oneOf()
    nondet n = 1.to(5).oneOf()
    nondet seed = 1.to(40).oneOf()
    val s = newSh(L, n, order, seed)
    all { up' = up, keepSettings, pots' = pots, grs' = grs, keepHist,
          shells' = shells.put(id, s), act' = mkAct("nsh", List(id)).with("sh", s) }
  }
  action onShell(name: str, ids: List[int], id: int, s: Sh): bool =
    all { up' = up, keepSettings, pots' = pots, grs' = grs, keepHist, shells' = shells.put(id, s),
          act' = mkAct(name, ids).with("sh", s) }
  action doCopyShell = {
    nondet id = IDS.exclude(shells.keys()).oneOf()
    nondet src = shells.keys().oneOf()
    all { onShell("cpsh", List(id, src), id, shells.get(src)) }
  }
  action doShrinkShell = {
    nondet id = shells.keys().oneOf()
    onShell("shsh", List(id), id, shrunk(shells.get(id)))
  }
  action doNormShell = {
    nondet id = shells.keys().filter(x => shells.get(x).norm < 2).oneOf()
    val s = shells.get(id)
    all { onShell("mulsh", List(id), id, s.with("norm", s.norm + 1)) }
  }
  action doRotate = {
    nondet id = shells.keys().filter(x => shells.get(x).L > 0).oneOf()
    nondet k = 1.to(14).oneOf()
    val s = shells.get(id)
    val n = ncart(s.L)
    all { onShell("setlist", List(id, k % n), id, s.with("rot", (s.rot + k % n) % n)) }
  }
  action doDeleteShell = {
    nondet id = shells.keys().oneOf()
    all { up' = up, keepSettings, pots' = pots, grs' = grs, keepHist, shells' = shells.keys().exclude(Set(id)).mapBy(k => shells.get(k)),
          act' = mkAct("dsh", List(id)) }
  }
  action doDumpShell = {
    nondet id = shells.keys().oneOf()
    all { up' = up, keepSettings, keepObjects, keepHist, act' = mkAct("dumps", List(id)).with("sh", dumped(shells.get(id))) }
  }
  action doNewPot = {
    nondet id = IDS.exclude(pots.keys()).oneOf()
    nondet L = 0.to(3).oneOf()
    nondet n = 1.to(5).oneOf()
    nondet j = Set(-1, 0, 1).oneOf()
    nondet seed = 1.to(40).oneOf()
    val J = if (2 * L + j < 0) 1 else 2 * L + j
    all { up' = up, keepSettings, shells' = shells, grs' = grs, keepHist,
          pots' = pots.put(id, newPt(L, J, n, seed)), act' = mkAct("npt", List(id)).with("pt", rawPt(L, J, n, seed)) }
  }
  action doShrinkPot = {
    nondet id = IDS.exclude(pots.keys()).oneOf()
    nondet src = pots.keys().oneOf()
    all { up' = up, keepSettings, shells' = shells, grs' = grs, keepHist,
          pots' = pots.put(id, pots.get(src)), act' = mkAct("shpt", List(id, src)) }
  }
  action dropPot(id: int): bool = pots' = pots.keys().exclude(Set(id)).mapBy(k => pots.get(k))
  action doDeletePot = {
    nondet id = pots.keys().oneOf()
    all { up' = up, keepSettings, shells' = shells, grs' = grs, keepHist, dropPot(id), act' = mkAct("dpt", List(id)) }
  }
  action doDumpPot = {
    nondet id = pots.keys().oneOf()
    all { up' = up, keepSettings, keepObjects, keepHist, act' = mkAct("dumpp", List(id)).with("pt", pots.get(id)) }
  }
  pure val GIDS: Set[int] = 0.to(2)
  action doNewGrpp = {
    nondet id = GIDS.exclude(grs.keys()).oneOf()
    all { up' = up, keepSettings, shells' = shells, pots' = pots, keepHist,
          grs' = grs.put(id, noGr), act' = mkAct("ngr", List(id)) }
  }
  // ownership moves into the container
  action doBind = {
    nondet g = grs.keys().oneOf()
    nondet id = pots.keys().oneOf()
    nondet kind = Set(0, 1, 2).oneOf()
    val x = grs.get(g)
    val p = pots.get(id)
    all {
      up' = up, keepSettings, shells' = shells, keepHist, dropPot(id),
      grs' = grs.put(g, if (kind == 0) x.with("loc", List(p)) else if (kind == 1) x.with("ar", x.ar.append(p)) else x.with("so", x.so.append(p))),
      act' = mkAct(if (kind == 0) "gl" else if (kind == 1) "ga" else "gs", List(g, id))
    }
  }
  // a part made and handed over at once; the local part of a container can be replaced
  action doMakePart(kinds: Set[int]): bool = {
    nondet g = grs.keys().oneOf()
    nondet id = IDS.exclude(pots.keys()).oneOf()
    nondet n = 1.to(3).oneOf()
    nondet kind = kinds.oneOf()
    nondet seed = 1.to(40).oneOf()
    val x = grs.get(g)
    val L = if (kind == 0) 0 else seed % 4
    val p = newPt(L, 2 * L, n, seed)
    all { up' = up, keepSettings, shells' = shells, pots' = pots, keepHist,
          grs' = grs.put(g, if (kind == 0) x.with("loc", List(p)) else if (kind == 1) x.with("ar", x.ar.append(p)) else x.with("so", x.so.append(p))),
          act' = mkAct("mkp", List(g, id, kind)).with("pt", rawPt(L, 2 * L, n, seed)) }
  }
  action doBindOuter = {
    nondet g = grs.keys().oneOf()
    nondet id = pots.keys().filter(x => pots.get(x).J != 2 * pots.get(x).L).oneOf()
    nondet sh = shells.keys().filter(x => shells.get(x).L == pots.get(id).L).oneOf()
    val x = grs.get(g)
    val p = pots.get(id)
    val s = shells.get(sh)
    all {
      up' = up, keepSettings, keepHist, dropPot(id),
      shells' = shells.keys().exclude(Set(sh)).mapBy(k => shells.get(k)),
      grs' = grs.put(g, x.with("ocp", x.ocp.append(p)).with("ocs", x.ocs.append(s))),
      act' = mkAct("go", List(g, id, sh))
    }
  }
  // many parts at once: containers have no documented capacity
  action doBindMany = {
    nondet g = grs.keys().filter(y => grs.get(y).ar.length() + grs.get(y).so.length() + grs.get(y).ocp.length() < 150).oneOf()
    nondet n = Set(30, 70, 101).oneOf()
    nondet kind = Set(0, 1, 2).oneOf()
    val x = grs.get(g)
    // the replayed parts are constant: one term, coefficient 1/4, exponent 1
    val p = { L: 1, J: if (kind == 2) 1 else 2, t: List({ n: 2, c: S / 4, z: S }) }
    val s = { L: 1, ord: order, rot: 0, c: List(S), al: List(S), norm: 0, o: NOV }
    val ps = upto(n).foldl(List(), (l, i) => l.append(p))
    val ss = upto(n).foldl(List(), (l, i) => l.append(s))
    all {
      up' = up, keepSettings, keepHist, shells' = shells, pots' = pots,
      grs' = grs.put(g, if (kind == 0) x.with("ar", x.ar.concat(ps)) else if (kind == 1) x.with("so", x.so.concat(ps))
                        else x.with("ocp", x.ocp.concat(ps)).with("ocs", x.ocs.concat(ss))),
      act' = mkAct("many", List(g, n, kind)).with("pt", p).with("sh", s)
    }
  }
  action doDeleteGrpp = {
    nondet g = grs.keys().oneOf()
    all { up' = up, keepSettings, shells' = shells, pots' = pots, keepHist,
          grs' = grs.keys().exclude(Set(g)).mapBy(k => grs.get(k)), act' = mkAct("dgr", List(g)) }
  }
  action doDumpGrpp = {
    nondet g = grs.keys().oneOf()
    val x = grs.get(g)
    all { up' = up, keepSettings, keepObjects, keepHist,
          act' = mkAct("dumpg", List(g)).with("gr", x.with("ocs", x.ocs.foldl(List(), (l, s) => l.append(dumped(s))))) }
  }

  // ---- calls -------------------------------------------------------------------------
  action record(k0: Key, name: str, ids: List[int]): bool = all {
    up, up' = up, keepSettings, keepObjects,
    val k = sealed(k0)
    all { hist' = hist.append(k), act' = callAct(hist, k, ids).with("op", name) }
  }
  // the guard is in the choices: a choice from the empty set disables an action at once
  def callable(x: Set[int]): Set[int] = if (up) x else Set()
  action doCall(ops: Set[str]): bool = {
    nondet op = ops.oneOf()
    nondet i = callable(low(if (op == "nuc") 3 else if (op == "gov") 9 else 10)).oneOf()
    nondet j = low(if (op == "nuc") 2 else if (op == "gov") 9 else 10).oneOf()
    nondet ic = 0.to(3).oneOf()
    nondet ip = 0.to(3).oneOf()
    nondet m = 0.to(5).oneOf()
    val a = shells.get(i)
    val b = shells.get(j)
    val grad = op.in(Set("gov"))
    val k = noKey.with("op", op).with("a", a).with("b", b).with("C", if (op == "nuc") SITES[ic] else NOV)
                 .with("P", if (grad) SITES[ip] else NOV).with("par", if (op == "nuc") nucParams(m, 11 + m) else List()).with("tol", tol)
    all { record(k, "call", List(i, j, ic)) }
  }
  def low(l: int): Set[int] = shells.keys().filter(x => shells.get(x).L <= l)
  action doPotCall(ops: Set[str]): bool = {
    nondet op = ops.oneOf()
    nondet i = callable(low(3)).oneOf()
    nondet j = low(if (shells.get(i).L == 3) 1 else 2).oneOf()
    nondet ipt = pots.keys().oneOf()
    nondet ic = 0.to(3).oneOf()
    nondet ip = 0.to(3).oneOf()
    val a = shells.get(i)
    val b = shells.get(j)
    val grad = op.in(Set("gt1", "gt2", "gso"))
    val k = noKey.with("op", op).with("a", a).with("b", b).with("C", SITES[ic]).with("P", if (grad) SITES[ip] else NOV)
                 .with("p", List(pots.get(ipt))).with("tol", tol)
    all { record(k, "call", List(i, j, ipt)) }
  }
  action doOuterCall = {
    nondet op = Set("oc", "goc").oneOf()
    nondet i = callable(low(2)).oneOf()
    nondet j = low(2).oneOf()
    nondet ipt = pots.keys().filter(x => pots.get(x).J != 2 * pots.get(x).L).oneOf()
    nondet ish = shells.keys().filter(x => shells.get(x).L == pots.get(ipt).L).oneOf()
    nondet ic = 0.to(3).oneOf()
    nondet ip = 0.to(3).oneOf()
    val a = shells.get(i)
    val b = shells.get(j)
    val p = pots.get(ipt)
    val s = shells.get(ish)
    val k = noKey.with("op", op).with("a", a).with("b", b).with("C", SITES[ic]).with("P", if (op == "goc") SITES[ip] else NOV)
                 .with("p", List(p)).with("s", List(s)).with("tol", tol)
    all { record(k, "call", List(i, j, ipt, ish)) }
  }
  action doFullCall = {
    nondet op = Set("full", "gfull").oneOf()
    nondet i = callable(low(2)).oneOf()
    nondet j = low(1).oneOf()
    nondet g = grs.keys().filter(x => grs.get(x).ocp.length() <= 3 and grs.get(x).ar.length() + grs.get(x).so.length() <= 8).oneOf()
    nondet ic = 0.to(3).oneOf()
    nondet ip = 0.to(3).oneOf()
    val a = shells.get(i)
    val b = shells.get(j)
    val x = grs.get(g)
    val k = noKey.with("op", op).with("a", a).with("b", b).with("C", SITES[ic]).with("P", if (op == "gfull") SITES[ip] else NOV)
                 .with("g", x).with("tol", tol)
    all { record(k, "call", List(i, j, g)) }
  }
  // an earlier call again, with objects built anew
  action doAgain = {
    nondet n = callable(if (hist.length() > 0) 0.to(hist.length() - 1) else Set()).oneOf()
    val k = hist[n].with("tol", tol)
    all { record(k, "again", List()) }
  }

  action anyCall = any {
    doCall(Set("ov", "kin", "mom", "gov", "nuc")), doPotCall(Set("t1", "t2", "so")), doPotCall(Set("gt1", "gt2", "gso")),
    doOuterCall, doFullCall, doFullCall, doAgain
  }
  action anyMake = any { doNewShell(2), doNewShell(3), doNewShell(2), doNewPot, doNewPot, doNewGrpp, doBind, doBindOuter }
  action anyObject = any {
    doNewShell(10), doCopyShell, doShrinkShell, doNormShell, doRotate, doDeleteShell, doDumpShell, doDumpShell,
    doNewPot, doNewPot, doShrinkPot, doDeletePot, doDumpPot, doDumpPot, doNewGrpp, doBind, doBindOuter, doBindMany, doDeleteGrpp, doDumpGrpp, doDumpGrpp
  }
  // whatever is not possible in a state is skipped
  action idle = all { up' = up, keepSettings, keepObjects, keepHist, act' = mkAct("idle", List()) }

  // mixes for the different properties
  action stepPure = any { doInit, anyMake, anyMake, anyCall, anyCall, anyCall, anyCall, anyObject, doMakePart(Set(0, 1)), doAgain, doOrder, doDeleteShell, doDeleteGrpp }
  action stepObjects = any { anyObject, anyObject, anyObject, anyObject, anyObject, anyObject, anyMake, doNewShell(10), doNormShell, doShrinkShell, doDumpShell, doDumpPot,
                             doDumpGrpp, doDeleteShell, doDeletePot, doMakePart(Set(0)), doMakePart(Set(0)), doMakePart(Set(0, 1, 2)), doOrder, doInit, anyCall }
  action stepSettings = any { doInit, doOrder, doTol, doTol, doDefaults, doParams, anyMake, anyMake, anyCall, anyCall, doAgain, doAgain, doAgain, doNewShell(4), doDumpShell, doDeleteShell }
  action stepOrders = any { doInit, doOrder, doOrder, doNewShell(6), doNewShell(3), doNewShell(2), doCopyShell, doRotate, doDumpShell, doDumpShell, doDeleteShell, doNewPot, anyCall, anyCall, doAgain, doDefaults }
  action stepLife = any { doInit, doInit, doFinalize, doQuery, anyMake, anyMake, anyCall, anyCall, doAgain, doAgain, doMakePart(Set(0, 1)), doDeleteShell, doDeletePot }

  // ---- invariants of the model ---------------------------------------------------------
  val historyDeterministic: bool = act.same < 0 or (act.same < hist.length() and hist[act.same] == act.key)
  val callsNeedInit: bool = not(act.op.in(Set("call", "again"))) or up
  val ownershipDisjoint: bool = shells.keys().size() + pots.keys().size() <= 16
  val inv: bool = historyDeterministic and callsNeedInit and ownershipDisjoint
}
