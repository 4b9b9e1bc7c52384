//! C10: operator chains.
use crate::nd::{self, q};
use crate::probe::*;
use combine::error::ParseResult::*;
use combine::parser::repeat::{chainl1, chainr1};
use combine::stream::easy;
use combine::{optional, Parser};

const P: u8 = 0;
const OP: u8 = 1;
/// How a fold was nested, written out: operands and operators by their place in the input.
type Tree = Vec<usize>;
fn join(op: usize, a: Tree, b: Tree) -> Tree {
    let mut t = vec![1 << 20, op];
    t.extend(a);
    t.extend(b);
    t
}
/// Looks outcomes up by place: the chains may try a failing operator at the same place again.
struct Orc<'a> {
    l: &'a [Ev],
    used: Vec<bool>,
    at: usize,
    c: bool,
}
impl<'a> Orc<'a> {
    fn run(&mut self, id: u8) -> u8 {
        let mut k = 9;
        let at = self.at;
        for (i, e) in self.l.iter().enumerate() {
            if e.id == id && e.at == at {
                k = e.kind;
                self.used[i] = true;
                if k <= POK {
                    self.at = e.end;
                }
            }
        }
        chk!(k != 9);
        if k == COK || k == CERR {
            self.c = true;
        }
        k
    }
}
/// operand (operator operand)*: places of the operands and operators, and the outcome
fn chain(o: &mut Orc) -> (u8, Vec<usize>, Vec<usize>) {
    let mut ps = vec![];
    let mut ops = vec![];
    let at = o.at;
    match o.run(P) {
        COK | POK => ps.push(at),
        k => return (k, ps, ops),
    }
    loop {
        let before = o.at;
        let k = o.run(OP);
        match k {
            COK | POK => (),
            CERR => return (CERR, ps, ops),
            _ => break,
        }
        let at = o.at;
        match o.run(P) {
            COK | POK => {
                ops.push(before);
                ps.push(at);
            }
            CERR => return (CERR, ps, ops),
            _ if k == COK => return (CERR, ps, ops),
            _ => {
                o.at = before;
                break;
            }
        }
    }
    (if o.c { COK } else { POK }, ps, ops)
}
fn fold(left: bool, ps: &[usize], ops: &[usize]) -> Tree {
    if ops.is_empty() {
        return vec![ps[0]];
    }
    let n = ops.len();
    if left {
        join(ops[n - 1], fold(left, &ps[..n], &ops[..n - 1]), vec![ps[n]])
    } else {
        join(ops[0], vec![ps[0]], fold(left, &ps[1..], &ops[1..]))
    }
}
fn at_of(l: &Log) -> usize {
    l.borrow().last().unwrap().at
}
fn judge(left: bool, l: &[Ev], start: usize, kind: u8, val: Option<&Tree>, end: usize) -> bool {
    let mut o = Orc { l, used: vec![false; l.len()], at: start, c: false };
    let (k, ps, ops) = chain(&mut o);
    // nothing else was run, and no operand or operator that took input twice
    for u in &o.used { chk!(*u); }
    for (i, e) in l.iter().enumerate() {
        for f in &l[..i] { chk!(!(e.kind == COK && f.id == e.id && f.at == e.at)); }
    }
    nd::obs(k as u64);
    chk!(kind == k);
    if k <= POK {
        chk!(end == o.at);
        chk!(val.is_some() && *val.unwrap() == fold(left, &ps, &ops));
        true
    } else {
        chk!(val.is_none());
        false
    }
}
const N: usize = q(7, 9);
harnesses! {
    /// chainl1 and chainr1 over operands and operators with any outcomes (a function of their place), at most 6 runs (thorough 8), run twice in a row, in each of four ways
    fn h_c10_all[2] {
        let l = log();
        let left = nd::flag();
        let how = nd::choose(HOW);
        let p = || probe(P, &l).det().cap(N).map(|_| vec![at_of(&l)]);
        let op = || probe(OP, &l).det().cap(N).map(|_| { let at = at_of(&l); move |a: Tree, b: Tree| join(at, a, b) });
        let mut s = Place::vague();
        let mut cl = chainl1(p(), op());
        let mut cr = chainr1(p(), op());
        for _ in 0..2 {
            l.borrow_mut().clear();
            let start = s.at;
            let r = if left { run(how, &mut cl, &mut s) } else { run(how, &mut cr, &mut s) };
            let ev = l.borrow().clone();
            let k = kind_of(&r);
            let v = match r { CommitOk(x) | PeekOk(x) => Some(x), _ => None };
            if !judge(left, &ev, start, k, v.as_ref(), s.at) { cov!(1); return; }
            cov!(0);
        }
    }
    /// the same inside optional(..) followed by another parser, after one that took input or not
    fn h_c10_inside[2] {
        let l = log();
        let left = nd::flag();
        let how = nd::choose(HOW);
        let p = || probe_c(P, &l).det().cap(N).map(|_| vec![at_of(&l)]);
        let op = || probe(OP, &l).det().cap(N).map(|_| { let at = at_of(&l); move |a: Tree, b: Tree| join(at, a, b) });
        let mut s = Place::vague();
        let r = if left {
            run(how, &mut (probe(2, &l), optional(chainl1(p(), op())), probe(3, &l)), &mut s)
        } else {
            run(how, &mut (probe(2, &l), optional(chainr1(p(), op())), probe(3, &l)), &mut s)
        };
        let ev = l.borrow();
        let mid: Vec<Ev> = ev.iter().filter(|e| e.id < 2).cloned().collect();
        chk!(ev[0].id == 2);
        let last = ev.iter().find(|e| e.id == 3);
        if ev[0].kind >= CERR { cov!(1); chk!(ev.len() == 1 && kind_of(&r) == ev[0].kind); return; }
        let mut o = Orc { l: &mid, used: vec![false; mid.len()], at: ev[0].end, c: false };
        let (k, ps, ops) = chain(&mut o);
        for u in &o.used { chk!(*u); }
        if k == CERR { chk!(last.is_none() && kind_of(&r) == CERR); return; }
        chk!(last.is_some());
        let e = last.unwrap();
        chk!(e.at == if k == PERR { ev[0].end } else { o.at });
        let c = ev[0].kind == COK || k == COK || e.kind == COK || e.kind == CERR;
        chk!(kind_of(&r) == match (c, e.kind <= POK) { (true, true) => COK, (false, true) => POK, (true, false) => CERR, _ => PERR });
        if let CommitOk((_, v, _)) | PeekOk((_, v, _)) = r {
            cov!(0);
            chk!(v == if k == PERR { None } else { Some(fold(left, &ps, &ops)) });
        }
    }
    /// chainl1 over the first `n` levels of precedence: chainl1(chainr1(operand, op), op)
    fn h_c10_nested[1] {
        use combine::parser::token::{any, satisfy, token};
        let n = nd::range(0, q(5, 6));
        let b = nd::alpha_n(n, b'+', 3); // + , -
        // '+' binds to the left and weaker, ',' to the right and stronger, '-' is an operand
        let f = |x: u8| move |a: Tree, b: Tree| join(x as usize, a, b);
        let mut p = chainl1(
            chainr1(satisfy(|c: u8| c == b'-').map(|c| vec![c as usize]), token(b',').map(f)),
            token(b'+').map(f),
        );
        let _ = any::<&[u8]>();
        let mut s = &b[..];
        let r = p.parse_stream(&mut s);
        let k = kind_of(&r);
        let v = match r { CommitOk(x) => Some(x), PeekOk(_) => { chk!(false); None } _ => None };
        // reference: alternating operands and operators
        let mut m = 0;
        while m < n && (b[m] == b'-') == (m % 2 == 0) { m += 1; }
        if m == 0 { chk!(k == PERR); return; }
        if m % 2 == 0 { chk!(k == CERR); return; }
        cov!(0);
        let mut groups: Vec<Vec<u8>> = vec![vec![]];
        for x in &b[..m] {
            if *x == b'+' { groups.push(vec![]) }
            if *x == b'-' { groups.last_mut().unwrap().push(*x) }
        }
        let tree = |g: &Vec<u8>| { let mut t = vec![b'-' as usize]; for _ in 1..g.len() { t = join(b',' as usize, vec![b'-' as usize], t); } t };
        let mut t = tree(&groups[0]);
        for g in &groups[1..] { t = join(b'+' as usize, t, tree(g)); }
        chk!(v == Some(t));
        chk!(s.len() == n - m);
    }
    /// with detailed errors
    fn h_c10_easy[2] {
        let l = log();
        type E = easy::Stream<M>;
        let left = nd::flag();
        let how = nd::choose(HOW);
        let p = || probe_on::<E>(P, &l, 4).det().cap(N).map(|_| vec![at_of(&l)]);
        let op = || probe_on::<E>(OP, &l, 4).det().cap(N).map(|_| { let at = at_of(&l); move |a: Tree, b: Tree| join(at, a, b) });
        let mut s = easy::Stream(Place::finite());
        let start = s.0.at;
        let r = if left { run(how, &mut chainl1(p(), op()), &mut s) } else { run(how, &mut chainr1(p(), op()), &mut s) };
        let ev = l.borrow().clone();
        let k = kind_of(&r);
        let v = match r { CommitOk(x) | PeekOk(x) => Some(x), _ => None };
        if judge(left, &ev, start, k, v.as_ref(), s.0.at) { cov!(0) } else { cov!(1) }
    }
}
