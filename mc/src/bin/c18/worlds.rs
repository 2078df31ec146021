//! The borrow model: places, handles with the loans they hold, and operations of the public API.
//! Straight-line programs only, so an access to a place ends every loan that conflicts with it, and a
//! program is wrong exactly if a handle is touched (or destroyed, if destruction does anything) after that.
use super::*;
use Acc::*;
use Der::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Acc {
    R,
    W,
    Mv,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Der {
    /// the loans of the operand(s), not on the operand itself
    Inh,
    /// also borrows the operand
    Sh,
    Mu,
    /// borrows the first operand; the second is consumed and leaves nothing behind
    Only,
    /// keeps nothing of the operands alive
    Free,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum St {
    Live,
    Dead,
    Moved,
}
#[derive(Clone, Copy, PartialEq)]
enum Glue {
    No,
    Yes,
    /// the signature does not say
    Maybe,
}
#[derive(Clone)]
pub struct Op {
    on: &'static str,
    acc: Acc,
    with: Option<(&'static str, Acc)>,
    /// the second operand's content stays in the first
    store: bool,
    text: String,
    out: Option<(&'static str, Der)>,
}
fn op(on: &'static str, acc: Acc, text: &str) -> Op {
    Op { on, acc, with: None, store: false, text: text.into(), out: None }
}
fn mk(on: &'static str, acc: Acc, text: &str, d: Der, k: &'static str) -> Op {
    Op { on, acc, with: None, store: false, text: text.into(), out: Some((k, d)) }
}
fn op2(on: &'static str, acc: Acc, w: &'static str, wacc: Acc, text: &str) -> Op {
    Op { on, acc, with: Some((w, wacc)), store: false, text: text.into(), out: None }
}
fn mk2(on: &'static str, acc: Acc, w: &'static str, wacc: Acc, text: &str, d: Der, k: &'static str) -> Op {
    Op { on, acc, with: Some((w, wacc)), store: false, text: text.into(), out: Some((k, d)) }
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Var {
    kind: &'static str,
    loans: Vec<(usize, bool, bool)>, // place, mutable, certain
    st: St,
}
#[derive(Clone)]
struct State {
    vars: Vec<Var>,
    text: Vec<String>,
}
struct World {
    name: String,
    roots: Vec<(&'static str, String)>,
    kinds: HashMap<&'static str, (Glue, bool)>,
    ops: Vec<Op>,
    /// how many variables at once
    max: usize,
    /// how many operations the longest shortest path may have
    depth: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Ok,
    Reject,
    /// depends on what the signature leaves open: not a program of the grammar
    Unspecified,
}
fn name(i: usize) -> String {
    format!("v{}", i)
}
impl World {
    fn copy(&self, k: &str) -> bool {
        self.kinds[k].1
    }
    fn invalidate(&self, s: &mut State, v: usize) -> Out {
        match self.kinds[s.vars[v].kind].0 {
            Glue::Yes => Out::Reject,
            Glue::Maybe => Out::Unspecified,
            Glue::No => {
                s.vars[v].st = St::Dead;
                Out::Ok
            }
        }
    }
    /// `busy`: loans of values in use by the very same call
    fn access(&self, s: &mut State, x: usize, acc: Acc, busy: &[(usize, bool, bool)]) -> Out {
        let mut o = Out::Ok;
        let hit = |l: &(usize, bool, bool)| l.0 == x && (l.1 || acc != R);
        for l in busy {
            if hit(l) {
                if l.2 {
                    return Out::Reject;
                }
                o = Out::Unspecified;
            }
        }
        for v in 0..s.vars.len() {
            if v != x && s.vars[v].st == St::Live {
                if s.vars[v].loans.iter().any(|l| hit(l) && l.2) {
                    match self.invalidate(s, v) {
                        Out::Reject => return Out::Reject,
                        Out::Unspecified => o = Out::Unspecified,
                        _ => {}
                    }
                } else if s.vars[v].loans.iter().any(hit) {
                    o = Out::Unspecified;
                }
            }
        }
        if o == Out::Ok && acc == Mv && !self.copy(s.vars[x].kind) {
            s.vars[x].st = St::Moved;
        }
        o
    }
    fn touch(&self, s: &mut State, x: usize, acc: Acc) -> Out {
        if s.vars[x].st != St::Live {
            return Out::Reject;
        }
        s.text.push(match acc {
            R => format!("t(&{})", name(x)),
            W => format!("tm(&mut {})", name(x)),
            Mv => format!("drop({})", name(x)),
        });
        self.access(s, x, acc, &[])
    }
    fn apply(&self, s: &mut State, o: &Op, a: usize, b: Option<usize>) -> Out {
        let n = s.vars.len();
        let mut txt = o.text.replace("{a}", &name(a)).replace("{n}", &name(n));
        if let Some(b) = b {
            txt = txt.replace("{b}", &name(b));
        }
        s.text.push(if o.out.is_some() { format!("let mut {} = {}", name(n), txt) } else { txt });
        if s.vars[a].st != St::Live || b.map_or(false, |b| s.vars[b].st != St::Live) {
            return Out::Reject;
        }
        let mut loans = s.vars[a].loans.clone();
        let mut unspec = false;
        let mut busy = vec![];
        if let (Some(b), Some((_, bacc))) = (b, o.with) {
            busy = s.vars[b].loans.clone();
            match self.access(s, b, bacc, &[]) {
                Out::Reject => return Out::Reject,
                Out::Unspecified => unspec = true,
                _ => {}
            }
            if s.vars[a].st != St::Live {
                return Out::Reject;
            }
            loans.extend(busy.iter().copied());
        }
        match self.access(s, a, o.acc, &busy) {
            Out::Reject => return Out::Reject,
            Out::Unspecified => unspec = true,
            _ => {}
        }
        if let Some(b) = b {
            if bacc_live(o) && s.vars[b].st == St::Dead {
                return Out::Reject;
            }
        }
        if unspec {
            return Out::Unspecified;
        }
        if o.store {
            s.vars[a].loans.extend(busy.iter().copied());
            norm(&mut s.vars[a].loans);
            // what was taken out of `a` before has a type that may also be said to hold the new content
            for v in 0..s.vars.len() {
                if v != a && Some(v) != b && s.vars[v].kind.starts_with("K") {
                    let more: Vec<_> = busy.iter().map(|l| (l.0, l.1, false)).collect();
                    s.vars[v].loans.extend(more);
                    norm(&mut s.vars[v].loans);
                }
            }
        }
        if let Some((k, d)) = o.out {
            let mut l = match d {
                Free | Only => vec![],
                _ => loans,
            };
            match d {
                Sh | Only => l.push((a, false, true)),
                Mu => l.push((a, true, true)),
                _ => {}
            }
            norm(&mut l);
            s.vars.push(Var { kind: k, loans: l, st: St::Live });
        }
        // any call may unwind, which ends the scope there
        self.end(s)
    }
    /// The end of the scope destroys the variables in reverse order.
    fn end(&self, s: &State) -> Out {
        let mut s = s.clone();
        let mut o = Out::Ok;
        for v in (0..s.vars.len()).rev() {
            match self.access(&mut s, v, W, &[]) {
                Out::Reject => return Out::Reject,
                Out::Unspecified => o = Out::Unspecified,
                _ => {}
            }
            s.vars[v].st = St::Moved;
        }
        o
    }
    fn emit(&self, s: &State, mut o: Out, v: &mut Vec<Prog>) {
        if o == Out::Ok {
            o = self.end(s);
        }
        let want = match o {
            Out::Ok => Verdict::Accept,
            Out::Reject => Verdict::Reject,
            Out::Unspecified => return,
        };
        v.push(Prog { sec: self.name.clone(), text: format!("const _: () = {{ fn p() {{ {}; }} }};", s.text.join("; ")), want });
    }
    fn explore(&self, out: &mut Vec<Prog>) -> (u64, u64) {
        let mut s = State { vars: vec![], text: vec![] };
        for (i, (k, init)) in self.roots.iter().enumerate() {
            s.text.push(format!("let mut {} = {}", name(i), init));
            s.vars.push(Var { kind: k, loans: vec![], st: St::Live });
        }
        let base = s.text.len();
        let mut seen: HashSet<Vec<Var>> = HashSet::new();
        seen.insert(s.vars.clone());
        let mut q = std::collections::VecDeque::from([s]);
        let mut trans = 0;
        while let Some(s) = q.pop_front() {
            for o in &self.ops {
                for a in 0..s.vars.len() {
                    if s.vars[a].kind != o.on || s.vars[a].st == St::Moved {
                        continue;
                    }
                    let bs: Vec<Option<usize>> = match o.with {
                        None => vec![None],
                        Some((k, _)) => (0..s.vars.len()).filter(|b| *b != a && s.vars[*b].kind == k && s.vars[*b].st != St::Moved).map(Some).collect(),
                    };
                    for b in bs {
                        if o.out.is_some() && s.vars.len() >= self.max {
                            continue;
                        }
                        trans += 1;
                        let mut n = s.clone();
                        let r = self.apply(&mut n, o, a, b);
                        self.check(&s, &n, r, o, a, out);
                        if r == Out::Ok && n.text.len() - base < self.depth && seen.insert(n.vars.clone()) {
                            q.push_back(n);
                        }
                    }
                }
            }
            // the accesses every type has
            for x in 0..s.vars.len() {
                for acc in [R, W, Mv] {
                    if s.vars[x].st != St::Live || acc == Mv && self.copy(s.vars[x].kind) {
                        continue;
                    }
                    trans += 1;
                    let mut n = s.clone();
                    let r = self.touch(&mut n, x, acc);
                    if r == Out::Ok && n.text.len() - base < self.depth && seen.insert(n.vars.clone()) {
                        q.push_back(n);
                    }
                }
            }
        }
        (seen.len() as u64, trans)
    }
    /// Programs that tell the state after a transition from every other.
    fn check(&self, before: &State, n: &State, r: Out, o: &Op, a: usize, out: &mut Vec<Prog>) {
        if r != Out::Ok {
            self.emit(n, r, out);
            return;
        }
        self.emit(n, r, out);
        for v in 0..n.vars.len() {
            let mut m = n.clone();
            m.text.push(format!("t(&{})", name(v)));
            let r = if m.vars[v].st != St::Live { Out::Reject } else { self.access(&mut m, v, R, &[]) };
            // only if the operation could have changed anything about it
            let same = before.vars.get(v) == n.vars.get(v) && n.vars[v].loans.iter().all(|l| l.0 != a) && v != a;
            if !same || before.vars.get(v).is_none() {
                self.emit(&m, r, out);
            }
        }
        let fresh: Vec<usize> = (0..n.vars.len()).filter(|v| before.vars.get(*v).map_or(true, |w| w.loans != n.vars[*v].loans)).collect();
        let _ = o;
        for v in fresh {
            for x in 0..n.vars.len() {
                for acc in [R, W, Mv] {
                    if x == v || n.vars[x].st == St::Moved || acc == Mv && self.copy(n.vars[x].kind) {
                        continue;
                    }
                    let mut m = n.clone();
                    let mut r = self.touch(&mut m, x, acc);
                    if r == Out::Ok {
                        m.text.push(format!("t(&{})", name(v)));
                        r = if m.vars[v].st != St::Live { Out::Reject } else { self.access(&mut m, v, R, &[]) };
                    } else if n.vars[x].st == St::Live && r == Out::Reject {
                        // rejected through destruction of some handle
                    } else {
                        continue;
                    }
                    self.emit(&m, r, out);
                }
            }
        }
    }
}
fn bacc_live(o: &Op) -> bool {
    matches!(o.with, Some((_, R)) | Some((_, W)))
}
fn norm(l: &mut Vec<(usize, bool, bool)>) {
    l.sort();
    l.dedup();
    let c: Vec<_> = l.iter().filter(|x| x.2).map(|x| (x.0, x.1)).collect();
    l.retain(|x| x.2 || !c.contains(&(x.0, x.1)));
}

/// Operations on views of one element type.
fn view_ops(ty: &str) -> Vec<Op> {
    let mut v = vec![
        op("E", R, "t(&{a}.calculate_layout())"),
        mk("ME", W, "{a}.as_mut()", Mu, "ME"),
        mk("ME", R, "&*{a}", Sh, "E"),
    ];
    let sl = |v: &mut Vec<Op>, e: &'static str, m: &'static str, slice: bool| {
        v.push(mk(m, Mv, "{a}.mut_slice()", Inh, "SM"));
        v.push(mk(m, W, "{a}.as_mut().mut_slice()", Mu, "SM"));
        v.push(mk(e, R, "&{a}[..]", Inh, "SH"));
        v.push(mk(m, R, "&{a}[..]", Sh, "SH"));
        if slice {
            v.push(op(m, R, "{a}.len_short()"));
        }
    };
    match ty {
        "tt" => {
            v.push(mk("E", R, "{a}.refs()", Inh, "RF"));
            v.push(mk("ME", R, "{a}.refs()", Sh, "RF"));
            v.push(mk("RF", R, "{a}.1", Inh, "EA"));
            v.push(mk("ME", Mv, "{a}.muts()", Inh, "MT"));
            v.push(mk("ME", W, "{a}.as_mut().muts()", Mu, "MT"));
            v.push(mk("MT", Mv, "{a}.1", Inh, "MA"));
            sl(&mut v, "EA", "MA", true);
        }
        "ta" => sl(&mut v, "E", "ME", true),
        "ts" => sl(&mut v, "E", "ME", false),
        "tn" => {
            v.push(mk("E", R, "{a}.inner()", Inh, "EA"));
            v.push(mk("ME", R, "{a}.inner()", Sh, "EA"));
            v.push(mk("ME", Mv, "{a}.inner_mut()", Inh, "MA"));
            v.push(mk("ME", W, "{a}.as_mut().inner_mut()", Mu, "MA"));
            sl(&mut v, "EA", "MA", true);
        }
        "tm" => {
            v.push(mk("E", R, "{a}.refs()", Inh, "RF"));
            v.push(mk("ME", R, "{a}.refs()", Sh, "RF"));
            v.push(mk("E", R, "&{a}.x", Inh, "SH"));
            v.push(mk("RF", R, "{a}.x", Inh, "SH"));
            v.push(mk("RF", R, "{a}.n", Inh, "SH"));
            v.push(mk("RF", R, "{a}.arr", Inh, "SH"));
            v.push(mk("RF", R, "&{a}.s[..]", Inh, "SH"));
            v.push(mk("ME", Mv, "{a}.muts()", Inh, "MT"));
            v.push(mk("ME", W, "{a}.as_mut().muts()", Mu, "MT"));
            v.push(mk("MT", Mv, "{a}.arr", Inh, "SM"));
            v.push(mk("MT", Mv, "{a}.x", Inh, "SM"));
            v.push(mk("MT", R, "{a}.n", Inh, "SH"));
            v.push(mk("MT", Mv, "{a}.s.mut_slice()", Inh, "SM"));
            v.push(op("ME", W, "{a}.as_mut().try_set_layout_controllers(ms::LayoutControllers { n: 2 }).unwrap()"));
        }
        "tf" => {
            v.push(mk("E", R, "&{a}.0", Inh, "SH"));
            v.push(mk("ME", Mv, "&mut Pin::into_inner({a}).0", Inh, "SM"));
            v.push(op("ME", W, "{a}.set(FixedLen(3))"));
            v.push(op("ME", W, "{a}.0 = 4"));
        }
        _ => unreachable!(),
    }
    if cloneable(ty) {
        v.push(mk("E", R, "{a}.vclone()", Inh, "CL"));
        v.push(mk("E", R, "{a}.vcopy()", Inh, "CL"));
        v.push(mk("ME", R, "{a}.vclone()", Sh, "CL"));
    }
    v
}
fn cloneable(ty: &str) -> bool {
    matches!(ty, "tt" | "ta" | "ts")
}
fn upper(ty: &str) -> String {
    ty.to_uppercase()
}
fn kinds() -> HashMap<&'static str, (Glue, bool)> {
    use Glue::*;
    [
        ("S", Yes, false), ("U", Yes, false), ("IT", No, false), ("IM", No, false), ("O", Yes, false), ("OW", Yes, false), ("E", No, true), ("ME", No, false),
        ("RF", No, false), ("EA", No, true), ("MT", No, false), ("MA", No, false), ("SH", No, true), ("SM", No, false), ("CL", No, false), ("V", Yes, false),
        ("B", Yes, false), ("X", No, false), ("VEC", Yes, false), ("STR", Yes, false), ("N", No, false), ("I", No, false), ("IO", Maybe, false), ("VS", Yes, false), ("SS", Yes, false),
        ("Y", Yes, false), ("KC", No, true), ("VI", Yes, false), ("KV", Yes, false),
    ]
    .into_iter()
    .map(|(k, g, c)| (k, (g, c)))
    .collect()
}

fn seq_world(ty: &'static str, checked: bool, max: usize, depth: usize) -> World {
    let idx = if checked { "CheckedIndexing" } else { "UncheckedIndexing" };
    let st = format!("Seq<{}, {}>", upper(ty), idx);
    let fresh = format!("{}::new()", st.replacen('<', "::<", 1));
    let init = format!("init_{}()", ty);
    let mut ops = vec![
        op("S", R, "t(&({a}.len(), {a}.offset(), {a}.capacity_in_offsets()))"),
        op("S", W, &format!("{{a}}.push({})", init)),
        op("S", W, &format!("{{a}}.extend([{}])", init)),
        op("S", W, &format!("{{a}} = {}", fresh)),
        op("S", W, &format!("std::mem::swap(&mut {{a}}, &mut {})", fresh)),
        op("S", W, &format!("let w = std::mem::replace(&mut {{a}}, {})", fresh)),
        op("S", Mv, "drop({a})"),
        op("S", Mv, "std::mem::forget({a})"),
        mk("S", R, "{a}.iter()", Sh, "IT"),
        mk("S", W, "{a}.iter_mut()", Mu, "IM"),
        mk("S", W, "{a}.take_elems()", Mu, "O"),
        mk("S", Mv, "{a}", Inh, "S"),
        mk("IT", W, "{a}.next().unwrap()", Inh, "E"),
        mk("IT", R, "{a}.limited_to(1)", Inh, "IT"),
        op("IT", R, "t(&({a}.len(), {a}.size_hint()))"),
        mk("IT", Mv, "{a}.last().unwrap()", Inh, "E"),
        mk("IM", W, "{a}.next().unwrap()", Inh, "ME"),
        mk("IM", Mv, "{a}.limited_to(1)", Inh, "IM"),
        op("IM", R, "t(&({a}.len(), {a}.size_hint()))"),
        mk("O", W, "{a}.next().unwrap()", Inh, "OW"),
        op("O", R, "t(&({a}.len(), {a}.size_hint()))"),
        op("O", Mv, "std::mem::forget({a})"),
        mk("OW", W, "{a}.as_mut()", Mu, "ME"),
        mk("OW", R, "&*{a}", Sh, "E"),
        mk("OW", Mv, "{a}.leak()", Inh, "ME"),
        mk("OW", Mv, "VBox::new({a})", Free, "V"),
        op("OW", Mv, "std::mem::forget({a})"),
        op2("S", W, "OW", Mv, "{a}.push({b})"),
        op2("S", R, "E", R, "t(&{a}.offset_of({b}))"),
        mk("V", R, "&*{a}", Sh, "E"),
        op2("S", W, "V", Mv, "{a}.push({b})"),
    ];
    if checked {
        ops.push(op("S", R, "t(&{a}.is_offset_valid(0))"));
        ops.push(mk("S", R, "{a}.from_offset(0)", Sh, "E"));
        ops.push(mk("S", W, "{a}.from_offset_mut(0)", Mu, "ME"));
    } else {
        ops.push(mk("S", R, "unsafe { {a}.from_offset_unchecked(0) }", Sh, "E"));
        ops.push(mk("S", W, "unsafe { {a}.from_offset_unchecked_mut(0) }", Mu, "ME"));
    }
    if cloneable(ty) {
        ops.push(op2("S", W, "E", R, "{a}.push({b}.vclone())"));
        ops.push(op2("S", W, "CL", Mv, "{a}.push({b})"));
        ops.push(mk("OW", R, "{a}.vcopy()", Sh, "CL"));
        ops.push(mk("CL", Mv, "VBox::new({a})", Free, "V"));
    }
    ops.extend(view_ops(ty));
    World { name: format!("Seq<{}, {}>", upper(ty), idx), roots: vec![("S", fresh)], kinds: kinds(), ops, max, depth }
}
/// Two sequences, elements moving between them.
fn two_seqs(max: usize, depth: usize) -> World {
    let mut w = seq_world("ts", true, max, depth);
    w.name = "two Seqs".into();
    w.roots.push(w.roots[0].clone());
    w.ops.retain(|o| !matches!(o.on, "IT" | "IM" | "ME") && !matches!(o.out, Some(("SH", _)) | Some(("IT", _)) | Some(("IM", _))) || o.text.contains("vclone"));
    w
}
fn vbox_world(ty: &'static str, max: usize, depth: usize) -> World {
    let init = format!("init_{}()", ty);
    let fresh = format!("VBox::<{}>::new({})", upper(ty), init);
    let mut ops = vec![
        mk("V", R, "&*{a}", Sh, "E"),
        mk("V", W, "{a}.as_mut()", Mu, "ME"),
        op("V", W, &format!("{{a}} = {}", fresh)),
        op("V", W, &format!("std::mem::swap(&mut {{a}}, &mut {})", fresh)),
        op("V", Mv, "drop({a})"),
        op("V", Mv, "std::mem::forget({a})"),
        op("V", Mv, "t(&unsafe { {a}.into_raw() })"),
        mk("V", Mv, "{a}", Inh, "V"),
        mk("V", Mv, "VBox::new({a})", Free, "V"),
        mk("V", Mv, &format!("{{ let mut s = Seq::<{}>::new_minimal(); s.push({{a}}); s }}", upper(ty)), Free, "S"),
        mk("S", R, "{a}.iter()", Sh, "IT"),
        mk("IT", W, "{a}.next().unwrap()", Inh, "E"),
    ];
    if cloneable(ty) {
        ops.push(mk("V", R, "{a}.vclone()", Sh, "CL"));
        ops.push(mk("V", R, "{a}.vcopy()", Sh, "CL"));
        ops.push(mk("V", R, "{a}.clone()", Free, "V"));
        ops.push(mk("CL", Mv, "VBox::new({a})", Free, "V"));
    }
    ops.extend(view_ops(ty));
    World { name: format!("VBox<{}>", upper(ty)), roots: vec![("V", fresh)], kinds: kinds(), ops, max, depth }
}
fn arena_world(ty: &'static str, max: usize, depth: usize) -> World {
    let init = format!("init_{}()", ty);
    let mut ops = vec![
        mk("B", R, &format!("Owned::<{}>::new_in({}, &{{a}})", upper(ty), init), Sh, "OW"),
        mk("B", R, "{a}.alloc(1u8)", Sh, "X"),
        op("B", W, "{a}.reset()"),
        op("B", Mv, "drop({a})"),
        op("B", W, "{a} = bumpalo::Bump::new()"),
        mk("B", Mv, "{a}", Inh, "B"),
        mk("OW", W, "{a}.as_mut()", Mu, "ME"),
        mk("OW", R, "&*{a}", Sh, "E"),
        mk("OW", Mv, "{a}.leak()", Inh, "ME"),
        mk("OW", Mv, "VBox::new({a})", Free, "V"),
        mk("OW", Mv, "{a}", Inh, "OW"),
        op("OW", Mv, "drop({a})"),
        op("OW", Mv, "std::mem::forget({a})"),
        op("OW", Mv, "t(&unsafe { {a}.into_raw() })"),
        mk("V", R, "&*{a}", Sh, "E"),
    ];
    // into another place of an arena: only that arena is borrowed
    ops.push(Op { on: "B", acc: R, with: Some(("OW", Mv)), store: false, text: format!("Owned::<{}>::new_in({{b}}, &{{a}})", upper(ty)), out: Some(("OW", Only)) });
    if cloneable(ty) {
        ops.push(mk("OW", R, "{a}.vclone()", Sh, "CL"));
        ops.push(mk("CL", Mv, "VBox::new({a})", Free, "V"));
        ops.push(mk2("B", R, "CL", Mv, &format!("Owned::<{}>::new_in({{b}}, &{{a}})", upper(ty)), Only, "OW"));
    }
    ops.extend(view_ops(ty));
    let mut w = World { name: format!("arena with Owned<{}>", upper(ty)), roots: vec![("B", "bumpalo::Bump::new()".into())], kinds: kinds(), ops, max, depth };
    w.kinds.insert("OW", (Glue::Yes, false));
    w
}
/// Two arenas, elements moving between them.
fn two_arenas(max: usize, depth: usize) -> World {
    let mut w = arena_world("ts", max, depth);
    w.name = "two arenas".into();
    w.roots.push(w.roots[0].clone());
    w.ops.retain(|o| o.on != "ME" && !matches!(o.out, Some(("SH", _)) | Some(("X", _))));
    w
}
/// Initializers borrow what they read until they are used.
fn init_world(max: usize, depth: usize) -> World {
    let ops = vec![
        mk("VEC", R, "Array::copy(&{a})", Sh, "I"),
        mk("VEC", R, "Array::<u16, u8>::try_copy(&{a}).unwrap()", Sh, "I8"),
        mk("VEC", R, "Array::clone_from_slice(&{a})", Sh, "I"),
        mk("VEC", R, "Array::<u16, u8>::try_clone_from_slice(&{a}).unwrap()", Sh, "I8"),
        mk("VEC", R, "SizedInit(2usize, CopyFrom(&{a}))", Sh, "I"),
        mk("VEC", R, "SizedInit(2usize, CloneFrom(&{a}))", Sh, "I"),
        mk("VEC", R, "SizedInit(2usize, FromIterPrefix({a}.iter().copied()))", Sh, "I"),
        mk("VEC", R, "SizedInit(2usize, FillSequentially(|i: usize| {a}[i]))", Sh, "I"),
        mk("VEC", W, "SizedInit(2usize, FillSequentially(|i: usize| { {a}.push(1); 1u16 }))", Mu, "I"),
        mk("VEC", W, "SizedInit(2usize, FromIterPrefix({a}.drain(..)))", Mu, "ID"),
        mk("VEC", Mv, "SizedInit(2usize, FromIterPrefix({a}.into_iter()))", Inh, "ID"),
        mk("VEC", R, "SizedInit(2usize, MoveFrom([{a}[0], 2]))", Free, "I"),
        mk("STR", R, "Str::copy(&{a})", Sh, "IO"),
        mk("STR", R, "Str::<u8>::try_copy(&{a}).unwrap()", Sh, "IO8"),
        op("VEC", W, "{a}.push(1)"),
        op("STR", W, "{a}.push('x')"),
        op("VEC", Mv, "drop({a})"),
        op("STR", Mv, "drop({a})"),
        mk("I", Mv, "VBox::<Array<u16>>::new({a})", Free, "V"),
        mk("I8", Mv, "VBox::<Array<u16, u8>>::new({a})", Free, "V"),
        mk("ID", Mv, "VBox::<Array<u16>>::new({a})", Free, "V"),
        mk("I", Mv, "tup2::Init(FixedLen(1u8), {a})", Inh, "IT2"),
        mk("IT2", Mv, "VBox::<Tup2<FixedLen<u8>, Array<u16>>>::new({a})", Free, "V"),
        mk("I8", Mv, "NWInit({a})", Inh, "INW"),
        mk("INW", Mv, "VBox::<NW>::new({a})", Free, "V"),
        mk("IO", Mv, "VBox::<Str>::new({a})", Free, "V"),
        mk("IO8", Mv, "VBox::<Str<u8>>::new({a})", Free, "V"),
        mk("IO8", Mv, "ms::Init { n: 2, x: 3, arr: FillWithDefault, s: {a} }", Inh, "IMS"),
        mk("IMS", Mv, "VBox::<MS>::new({a})", Free, "V"),
        op("I", R, "ini::<Array<u16>>(&{a})"),
        op("V", R, "t(&{a}.calculate_layout().size())"),
        op2("S", W, "I", Mv, "{a}.push({b})"),
        mk("V", R, "&*{a}", Sh, "E"),
    ];
    let mut k = kinds();
    for n in ["I8", "IT2", "INW"] {
        k.insert(n, (Glue::No, false));
    }
    k.insert("ID", (Glue::Yes, false));
    k.insert("IO8", (Glue::Maybe, false));
    k.insert("IMS", (Glue::Maybe, false));
    World {
        name: "initializers".into(),
        roots: vec![("VEC", "vec![1u16, 2]".into()), ("STR", "String::from(\"ab\")".into()), ("S", "Seq::<Array<u16>>::new_minimal()".into())],
        kinds: k,
        ops,
        max,
        depth,
    }
}
/// The element type itself holds references: they live as long as anything made of them.
fn content_world(before: bool, max: usize, depth: usize) -> World {
    let st = |on, acc, w, wacc, t: &str| Op { on, acc, with: Some((w, wacc)), store: true, text: t.into(), out: None };
    let ops = vec![
        op("Y", W, "{a}.push('x')"),
        op("Y", Mv, "drop({a})"),
        mk("Y", R, "&{a}", Sh, "KC"),
        st("S", W, "KC", R, "{a}.push(FixedLen({b}))"),
        st("SS", W, "KC", R, "{a}.extend([FixedLen({b})])"),
        mk("S", R, "{a}.iter()", Sh, "IT"),
        mk("S", W, "{a}.iter_mut()", Mu, "IM"),
        mk("S", W, "{a}.take_elems()", Mu, "O"),
        mk("IT", W, "{a}.next().unwrap()", Inh, "E"),
        mk("IM", W, "{a}.next().unwrap()", Inh, "ME"),
        mk("O", W, "{a}.next().unwrap()", Inh, "OW"),
        op("S", Mv, "drop({a})"),
        op("IT", Mv, "drop({a})"),
        mk("KC", R, "VBox::new(FixedLen({a}))", Inh, "KV"),
        mk("KV", R, "{a}.0", Inh, "KC"),
        mk("KV", R, "&*{a}", Sh, "E"),
        mk("KV", R, "{a}.vclone()", Sh, "CF"),
        mk("CF", Mv, "VBox::new({a})", Inh, "KV"),
        st("S", W, "KV", Mv, "{a}.push({b})"),
        op("KV", Mv, "drop({a})"),
    ];
    let mut k = kinds();
    k.insert("CF", (Glue::Maybe, false));
    let s = ("S", "Seq::<FixedLen<&String>>::new_minimal()".to_string());
    let y = ("Y", "String::from(\"y\")".to_string());
    let mut roots = vec![y.clone(), y, s];
    if before {
        roots.rotate_right(1);
    }
    World { name: format!("content with references, sequence declared {}", if before { "before" } else { "after" }), roots, kinds: k, ops, max, depth }
}

pub fn all(t: Tier, v: &mut Vec<Prog>, st: &mut BTreeMap<String, (u64, u64)>) {
    let m = t.pick(3, 4);
    let d = t.pick(4, 6);
    let mut ws = vec![];
    for ty in ["tt", "ta", "ts", "tm", "tn", "tf"] {
        let m = if ty == "ts" || t == Tier::Quick { m } else { m };
        ws.push(seq_world(ty, true, m, d));
        ws.push(vbox_world(ty, m, d));
        ws.push(arena_world(ty, m + 1, d));
    }
    ws.push(seq_world("ts", false, m, d));
    ws.push(two_seqs(m + 1, d));
    ws.push(two_arenas(m + 1, d));
    ws.push(init_world(t.pick(5, 6), d));
    ws.push(content_world(false, t.pick(5, 6), t.pick(3, 4)));
    ws.push(content_world(true, t.pick(5, 6), t.pick(3, 4)));
    for w in &ws {
        let n = v.len();
        let r = w.explore(v);
        if std::env::var_os("MC_SECTIONS").is_some() {
            println!("  {:6} states {:7} transitions {:8} programs  {}", r.0, r.1, v.len() - n, w.name);
        }
        st.insert(w.name.clone(), r);
    }
}
