// ---- what the contracts of the single functions give together ----
@verus
// ======== log synchronisation (C08) ========
// `full` is the whole sequence of entries that v stands for: what is compacted, then the log
pub open spec fn s_repr<T: Entry>(v: SV<T>, full: Seq<T>) -> bool {
    &&& full.len() == v.end() && 0 <= v.trim && v.log =~= full.skip(v.trim)
    &&& (s_sm_use::<T>() ==> (v.snapshot is Some ==> v.snapshot->Some_0 == s_sm_create::<T>(full.take(v.trim))) && (v.snapshot is None ==> v.trim == 0))
}
// the law every Snapshot implementation has to satisfy
pub open spec fn s_snapshot_law<T: Entry>() -> bool { forall|a: Seq<T>, b: Seq<T>| #[trigger] s_sm_merge(s_sm_create::<T>(a), s_sm_create::<T>(b)) == s_sm_create::<T>(a + b) }
pub open spec fn s_agree<A>(a: Seq<A>, b: Seq<A>, n: int) -> bool { n <= a.len() && n <= b.len() && a.take(n) == b.take(n) }
// where two logs of one configuration stand when one synchronises the other: c is a common prefix (an index that counts the
// stopsign), the decided part of the follower's log is part of it, and what the leader has trimmed the follower has accepted
pub open spec fn s_syncable<T: Entry>(l: SV<T>, fl: Seq<T>, f: SV<T>, ff: Seq<T>, c: int, d: int) -> bool {
    &&& l.ok() && f.ok() && s_repr(l, fl) && s_repr(f, ff)
    &&& 0 <= d <= f.decided <= c && (d == f.decided || d == 0)
    &&& s_agree(ff, fl, s_imin(c, s_imin(ff.len() as int, fl.len() as int)))
    &&& c <= f.accepted()
    &&& (!s_sm_use::<T>() ==> s_agree(ff, fl, l.trim))
    &&& f.decided <= l.accepted() && f.ldecided() <= fl.len()
    &&& (f.ss_decided() ==> l.stopsign == f.stopsign && l.accepted() == f.accepted())
    &&& (c > f.end() ==> c == f.accepted() && l.stopsign == f.stopsign && l.end() == f.end())
}
proof fn lemma_snap_upto<T: Entry>(v: SV<T>, full: Seq<T>, n: int)
    requires s_repr(v, full), s_snapshot_law::<T>(), s_sm_use::<T>(), v.trim <= n <= full.len()
    ensures s_snap_upto(v, n) == s_sm_create::<T>(full.take(n))
{
    assert(v.range(v.trim, n) =~= full.subrange(v.trim, n));
    assert(full.take(v.trim) + full.subrange(v.trim, n) =~= full.take(n));
    if v.snapshot is None { assert(full.subrange(0, n) =~= full.take(n)); }
}
// [exact-sync] of create_log_sync/send_accsync with [adopted] of handle_acceptsync (and of sync_log): after the follower
// has applied the message, its log stands for the leader's log. The message also fits ([env-sync-fits]).
pub proof fn lemma_sync_exact<T: Entry>(l: SV<T>, fl: Seq<T>, f: SV<T>, ff: Seq<T>, c: int, d: int, n: Ballot, s: LogSync<T>)
    requires s_syncable(l, fl, f, ff, c, d), s_snapshot_law::<T>(), s_sync_is(l, c, d, s)
    ensures ({
        let w = s_sync_apply(f, n, l.decided, Some(s));
        &&& s_repr(w, fl) && w.stopsign == l.stopsign && w.accepted() == l.accepted()
        &&& s_ble(s_bor(f.acc_round), n) && s_ble(n, s_bor(f.promise)) ==> s_sync_ok(f, n, l.decided, Some(s))
    })
{
    let w = s_sync_apply(f, n, l.decided, Some(s));
    let ce = s_imin(c, s_imin(ff.len() as int, fl.len() as int));
    assert forall|i: int| 0 <= i < ce implies ff[i] == fl[i] by { assert(ff.take(ce)[i] == fl.take(ce)[i]); }
    assert(f.ldecided() <= ce);
    assert forall|i: int| 0 <= i < f.log.len() implies f.log[i] == ff[i + f.trim] by {}
    assert forall|i: int| 0 <= i < l.log.len() implies l.log[i] == fl[i + l.trim] by {}
    if s_sm_use::<T>() && l.decided > c {
        let k = l.ldecided();
        assert(f.ldecided() <= k);
        assert(s.suffix@ =~= fl.skip(k));
        if d > l.trim {
            assert(!f.ss_decided());
            assert(f.ldecided() == d);
            lemma_snap_upto(f, ff, d);
            assert(ff.take(d) =~= fl.take(d));
            assert(l.range(d, k) =~= fl.subrange(d, k));
            assert(fl.take(d) + fl.subrange(d, k) =~= fl.take(k));
            assert(w.snapshot == Some(s_sm_create::<T>(fl.take(k))));
        } else if l.trim < k {
            lemma_snap_upto(l, fl, k);
        } else {
            assert(fl.take(l.trim) =~= fl.take(k));
        }
        assert(w.log =~= fl.skip(w.trim));
    } else {
        let k = s.sync_idx as int;
        if !s_sm_use::<T>() { assert forall|i: int| 0 <= i < l.trim implies ff[i] == fl[i] by { assert(ff.take(l.trim)[i] == fl.take(l.trim)[i]); } }
        assert forall|i: int| 0 <= i < k implies ff[i] == fl[i] by {}
        assert(s.suffix@ =~= fl.skip(k));
        assert(w.log =~= fl.skip(f.trim));
        assert(ff.take(f.trim) =~= fl.take(f.trim));
    }
}

// ======== agreement (C01) ========
// What a server has on disk, as far as agreement is concerned: E stands for an entry or the stopsign.
pub struct AS<E> { pub prom: Ballot, pub accr: Ballot, pub log: Seq<E> }
pub open spec fn s_comparable<E>(a: Seq<E>, b: Seq<E>) -> bool { a.is_prefix_of(b) || b.is_prefix_of(a) }
// one step of a server: [durable-state-monotone], [accepts-promised-round] and the invariant (ok) of every handler;
// that the log of one round only grows: [appended], [after-all-entries] and lemma_sync_exact
pub open spec fn s_astep<E>(a: AS<E>, b: AS<E>) -> bool {
    &&& s_ble(a.prom, b.prom) && s_ble(a.accr, b.accr) && s_ble(b.accr, b.prom) && s_ble(a.accr, a.prom)
    &&& if b.accr == a.accr { b.log == a.log || (a.accr == a.prom && a.log.is_prefix_of(b.log)) } else { b.accr == b.prom }
}
// a history of the servers of one configuration: the states each of them went through, and for every round that has a
// leader the read quorum of promises it took over with (rq), when they were made (at), the one it adopted (mx), and the
// log it started its round with (init)
pub struct Hist<E> {
    pub all: Set<NodeId>, pub q: Quorum, pub tr: spec_fn(NodeId) -> Seq<AS<E>>,
    pub led: spec_fn(Ballot) -> bool, pub rq: spec_fn(Ballot) -> Set<NodeId>, pub at: spec_fn(Ballot, NodeId) -> int, pub mx: spec_fn(Ballot) -> NodeId, pub init: spec_fn(Ballot) -> Seq<E>,
}
impl<E> Hist<E> {
    pub open spec fn has(self, s: NodeId, t: int) -> bool { self.all.contains(s) && 0 <= t < (self.tr)(s).len() }
    pub open spec fn st(self, s: NodeId, t: int) -> AS<E> { (self.tr)(s)[t] }
    pub open spec fn ok(self) -> bool {
        &&& self.all.finite() && s_quorums_intersect(self.q, self.all.len() as int)
        // ballots of one configuration that compare equal are the same ([env] of the handlers; unique by pid, C10)
        &&& self.uniq()
        // every server steps as the contracts of its handlers say, from an empty log
        &&& self.steps()
        &&& forall|s: NodeId, t: int| self.has(s, t) ==> s_ble((#[trigger] self.st(s, t)).accr, self.st(s, t).prom)
        // the logs accepted in a round start with its leader's initial log and are prefixes of one growing log
        // ([exact-sync], [sent], [only-in-order], lemma_sync_exact); before any round the log is empty
        &&& forall|s: NodeId, t: int| self.has(s, t) ==> if (self.led)((#[trigger] self.st(s, t)).accr) { (self.init)(self.st(s, t).accr).is_prefix_of(self.st(s, t).log) } else { self.st(s, t).log.len() == 0 && self.st(s, t).accr == s_bdefault() }
        &&& forall|s: NodeId, t: int, r: NodeId, u: int| self.has(s, t) && self.has(r, u) && (#[trigger] self.st(s, t)).accr == (#[trigger] self.st(r, u)).accr ==> s_comparable(self.st(s, t).log, self.st(r, u).log)
        // a leader takes over with a read quorum of promises, all made for its round ([truthful] promises), and starts its
        // round from the log of the highest accepted round, the longest of those ([adopted] and [read-quorum] of handle_majority_promises, prom_ok)
        &&& forall|b: Ballot| #[trigger] (self.led)(b) ==> self.takes_over(b)
    }
    pub open spec fn has2(self, s: NodeId, t: int) -> bool { self.has(s, t) && self.has(s, t + 1) }
    pub open spec fn steps(self) -> bool { forall|s: NodeId, t: int| #[trigger] self.has2(s, t) ==> s_astep(self.st(s, t), self.st(s, t + 1)) }
    pub open spec fn uniq(self) -> bool { forall|a: Ballot, b: Ballot| #[trigger] s_bcmp(a, b) == Ordering::Equal && self.known(a) && self.known(b) ==> a == b }
    pub open spec fn known(self, b: Ballot) -> bool { (self.led)(b) || exists|s: NodeId, t: int| self.has(s, t) && ((#[trigger] self.st(s, t)).accr == b || self.st(s, t).prom == b) }
    pub open spec fn takes_over(self, b: Ballot) -> bool {
        let r = (self.rq)(b); let m = (self.mx)(b); let w = self.st(m, (self.at)(b, m));
        &&& r.subset_of(self.all) && r.len() >= s_q_read(self.q) && r.contains(m)
        &&& forall|s: NodeId| #[trigger] r.contains(s) ==> self.has(s, (self.at)(b, s)) && ({ let v = self.st(s, (self.at)(b, s));
                v.prom == b && s_blt(v.accr, b) && (s_blt(v.accr, w.accr) || (v.accr == w.accr && v.log.len() <= w.log.len())) })
        &&& w.log.is_prefix_of((self.init)(b))
    }
    // l is chosen in round b: a write quorum accepted it ([decided-iff-write-quorum] of handle_accepted, whose indexes come from [truthful] acceptances of this round)
    pub open spec fn chosen(self, b: Ballot, l: Seq<E>) -> bool {
        exists|w: Set<NodeId>, ct: spec_fn(NodeId) -> int| #[trigger] self.chosen_by(b, l, w, ct)
    }
    pub open spec fn chosen_by(self, b: Ballot, l: Seq<E>, w: Set<NodeId>, ct: spec_fn(NodeId) -> int) -> bool {
        &&& (self.led)(b) && w.subset_of(self.all) && w.len() >= s_q_write(self.q)
        &&& forall|s: NodeId| #[trigger] w.contains(s) ==> self.has(s, ct(s)) && self.st(s, ct(s)).accr == b && l.is_prefix_of(self.st(s, ct(s)).log)
    }
}
// promised and accepted rounds of a server only grow
proof fn lemma_mono<E>(h: Hist<E>, s: NodeId, t: int, u: int)
    requires h.steps(), h.has(s, t), h.has(s, u), t <= u
    ensures s_ble(h.st(s, t).prom, h.st(s, u).prom), s_ble(h.st(s, t).accr, h.st(s, u).accr)
    decreases u - t
{
    if t < u { lemma_mono(h, s, t, u - 1); assert(h.has2(s, u - 1)); assert(s_astep(h.st(s, u - 1), h.st(s, u))); }
}
// a server that has promised b accepts nothing more in a round below b
proof fn lemma_fenced<E>(h: Hist<E>, s: NodeId, t: int, u: int, b: Ballot)
    requires h.steps(), h.has(s, t), h.has(s, u), t <= u, h.st(s, t).prom == b, s_blt(h.st(s, u).accr, b)
    ensures h.st(s, u).accr == h.st(s, t).accr && h.st(s, u).log == h.st(s, t).log
    decreases u - t
{
    if t < u {
        let m = h.st(s, u - 1); let w = h.st(s, u);
        assert(h.has2(s, u - 1)); assert(s_astep(h.st(s, u - 1), h.st(s, u)));
        lemma_mono(h, s, t, u - 1); lemma_mono(h, s, t, u);
        assert(s_blt(m.accr, b));
        lemma_fenced(h, s, t, u - 1, b);
    }
}
// in one round the log of a server only grows
proof fn lemma_grows<E>(h: Hist<E>, s: NodeId, t: int, u: int)
    requires h.steps(), h.uniq(), h.has(s, t), h.has(s, u), t <= u, h.st(s, t).accr == h.st(s, u).accr
    ensures h.st(s, t).log.is_prefix_of(h.st(s, u).log)
    decreases u - t
{
    if t < u {
        lemma_mono(h, s, t, u - 1); 
        assert(h.has2(s, u - 1)); assert(s_astep(h.st(s, u - 1), h.st(s, u)));
        assert(h.st(s, u - 1).accr == h.st(s, t).accr) by {
            assert(s_bcmp(h.st(s, u - 1).accr, h.st(s, t).accr) == Ordering::Equal);
            assert(h.known(h.st(s, u - 1).accr) && h.known(h.st(s, t).accr));
        }
        lemma_grows(h, s, t, u - 1);
    }
}
proof fn lemma_pre_trans<E>(a: Seq<E>, b: Seq<E>, c: Seq<E>)
    requires a.is_prefix_of(b), b.is_prefix_of(c)
    ensures a.is_prefix_of(c)
{ assert(a =~= c.subrange(0, a.len() as int)) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(a[i] == b.subrange(0, a.len() as int)[i]); assert(b[i] == c.subrange(0, b.len() as int)[i]); } } }
proof fn lemma_pre_common<E>(a: Seq<E>, b: Seq<E>, c: Seq<E>)
    requires a.is_prefix_of(c), b.is_prefix_of(c)
    ensures s_comparable(a, b), a.len() <= b.len() ==> a.is_prefix_of(b)
{
    if a.len() <= b.len() { assert(a =~= b.subrange(0, a.len() as int)) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(a[i] == c.subrange(0, a.len() as int)[i]); assert(b[i] == c.subrange(0, b.len() as int)[i]); } } }
    else { assert(b =~= a.subrange(0, b.len() as int)) by { assert forall|i: int| 0 <= i < b.len() implies a[i] == b[i] by { assert(a[i] == c.subrange(0, a.len() as int)[i]); assert(b[i] == c.subrange(0, b.len() as int)[i]); } } }
}
// what is chosen in a round is in the initial log of every later round (C07)
pub proof fn lemma_chosen_kept<E>(h: Hist<E>, b: Ballot, l: Seq<E>, c: Ballot)
    requires h.ok(), h.chosen(b, l), (h.led)(c), s_blt(b, c)
    ensures l.is_prefix_of((h.init)(c))
    decreases c.n, c.priority, c.pid
{
    let (w, ct) = choose|w: Set<NodeId>, ct: spec_fn(NodeId) -> int| #[trigger] h.chosen_by(b, l, w, ct);
    let r = (h.rq)(c); let m = (h.mx)(c);
    assert(h.takes_over(c));
    lemma_quorum_intersection(r, w, h.all, h.q);
    let s = choose|s: NodeId| r.contains(s) && w.contains(s);
    let t = ct(s); let u = (h.at)(c, s);
    let v = h.st(s, u); let y = h.st(s, t);
    let x = h.st(m, (h.at)(c, m));
    assert(r.contains(m));
    // the server common to both quorums accepted l in round b before it promised c
    if t <= u { lemma_mono(h, s, t, u); } else { lemma_fenced(h, s, u, t, c); }
    assert(s_ble(b, v.accr));
    if v.accr == b {
        if t <= u { lemma_grows(h, s, t, u); }
        lemma_pre_trans(l, y.log, v.log);
    }
    assert(h.known(b));
    assert(h.known(x.accr)); assert(h.known(v.accr));
    if x.accr == b {
        assert(v.accr == b) by { if v.accr != b { assert(s_bcmp(v.accr, b) != Ordering::Equal); } }
        assert(h.has(m, (h.at)(c, m)) && h.has(s, u));
        assert(s_comparable(h.st(s, u).log, h.st(m, (h.at)(c, m)).log));
        if x.log.is_prefix_of(v.log) { assert(x.log =~= v.log); }
        lemma_pre_trans(l, v.log, x.log);
        lemma_pre_trans(l, x.log, (h.init)(c));
    } else {
        assert(s_bcmp(x.accr, b) != Ordering::Equal);
        assert(s_blt(b, x.accr));
        if (h.led)(x.accr) {
            lemma_chosen_kept(h, b, l, x.accr);
            lemma_pre_trans(l, (h.init)(x.accr), x.log);
            lemma_pre_trans(l, x.log, (h.init)(c));
        } else { assert(false); }
    }
}
// any two logs that were ever chosen, in whichever rounds, are prefixes of one another: no two servers decide differently
pub proof fn lemma_agreement<E>(h: Hist<E>, b: Ballot, l: Seq<E>, c: Ballot, k: Seq<E>)
    requires h.ok(), h.chosen(b, l), h.chosen(c, k), s_ble(b, c)
    ensures s_comparable(l, k)
{
    let (w, ct) = choose|w: Set<NodeId>, ct: spec_fn(NodeId) -> int| #[trigger] h.chosen_by(b, l, w, ct);
    let (x, dt) = choose|w: Set<NodeId>, ct: spec_fn(NodeId) -> int| #[trigger] h.chosen_by(c, k, w, ct);
    assert(w.len() >= 1 && x.len() >= 1);
    vstd::set_lib::lemma_len_subset(w, h.all); vstd::set_lib::lemma_len_subset(x, h.all);
    let s = w.choose(); let r = x.choose();
    assert(w.contains(s)) by { if forall|e: NodeId| !w.contains(e) { assert(w =~= Set::empty()); } }
    assert(x.contains(r)) by { if forall|e: NodeId| !x.contains(e) { assert(x =~= Set::empty()); } }
    let y = h.st(s, ct(s)); let z = h.st(r, dt(r));
    assert(h.known(b) && h.known(c));
    if s_blt(b, c) {
        lemma_chosen_kept(h, b, l, c);
        lemma_pre_trans(l, (h.init)(c), z.log);
        lemma_pre_common(l, k, z.log);
    } else {
        assert(s_bcmp(b, c) == Ordering::Equal);
        assert(b == c);
        assert(h.has(s, ct(s)) && h.has(r, dt(r)));
        assert(s_comparable(h.st(s, ct(s)).log, h.st(r, dt(r)).log));
        if y.log.is_prefix_of(z.log) { lemma_pre_trans(l, y.log, z.log); lemma_pre_common(l, k, z.log); }
        else { lemma_pre_trans(k, z.log, y.log); lemma_pre_common(l, k, y.log); }
    }
}
@end
